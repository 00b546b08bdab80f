prop("C01", "Timespans are always valid, invalid changes are rejected without effect",
     "A timespan, event or todo never has an end before its begin, both a fixed end and a duration, a negative duration, a duration without begin, only one of begin and end floating, nor (for events) an end without a begin; an all-day one consists of one or more whole zone-less days. "
     "Constructing or modifying an entry in a way that would break this raises an error and leaves the entry as it was; every other construction or modification is accepted exactly as given.",
     ["inputs", "histories"], "all begin/end/duration/zone/all-day combinations, and all sequences of modifications",
     "tests use a few dates; the rule ranges over all instants, zones and modification orders",
     [TS, EV, TD], [("Timespan.validate", TS), ("EventTimespan.validate", TS), ("CalendarEntryAttrs.validate_timespan and the begin/end/duration setters", EV), ("TodoAttrs.due", TD)],
     "abstract instants as linear forms over integers, all orderings and zone combinations enumerated by partition",
     "every operation is analysed from an arbitrary valid entry, so chains of operations follow by induction; whole-second values (sub-second parts are rounded by the library's own tolerance).")
prop("C02", "Interval relations follow one half-open reading",
     "For entries that have both a begin and an end, starting in, ending in, intersecting, including and being included in another span follow one half-open reading, where the end of the containing span is exclusive and floating times are local times: x starts (ends) in y iff y.begin <= x.begin (x.end) < y.end, x intersects y iff one starts in the other, x includes an instant t iff x.begin <= t < x.end, and x includes a span iff it contains its begin and the span ends strictly before x does. "
     "Intersecting is symmetric, and including and being included are converses; a span without begin or end that the relation needs is an error. Entries and bare timespans, events and todos answer alike.",
     ["inputs"], "all pairs of spans/instants in all relative positions, zones and representations",
     "tests check a handful of intervals; boundaries (equal ends, adjacent, empty) in every zone combination are not sampled",
     [TS, EV], [("starts_within/ends_within/intersects/includes/is_included_in", TS), ("delegates on entries", EV)],
     "all orderings of the four end points enumerated by partition", "all relative positions of the end points are covered.")
prop("C03", "Comparison operators are one total preorder",
     "Timespans are ordered by begin and then end, todo timespans by due and then begin, and entries additionally by summary; floating times are local times, and a missing value counts as a fixed early instant. "
     "<, <=, > and >= always agree with this one order, so sorting is deterministic up to equal keys, and comparing with foreign objects is refused.",
     ["inputs"], "all pairs and triples of timespans, events and todos, with missing parts, floating or zoned", "tests sort a few events",
     [TS, EV, TD], [("cmp_tuple and the comparison operators", TS), ("CalendarEntryAttrs.cmp_tuple", EV)],
     "all orderings of the compared instants enumerated by partition", "all relative positions of the compared instants are covered.")
prop("C04", "Timeline yields exactly the matching events in chronological order",
     "A calendar's timeline yields each of the calendar's current events that has a time exactly once, ordered by begin and then end; the included, overlapping, start-after, at, on, today and now queries yield exactly those whose span satisfies the relation with the queried span or instant. "
     "The timeline's normalization is applied to the events and the query alike, all-day spans excepted; neither the calendar nor its events are changed.",
     ["inputs", "histories"], "all calendars (any number and placement of events), all queries, all normalizations", "tests use few fixed events, mostly in UTC",
     [TL, CAL], [("iterator (heap) and the queries", TL), ("Calendar.timeline", CAL)],
     "abstract events in all relative positions", "calendars of up to three events in all relative positions with the query; larger ones differ only by the heap's own correctness.")
prop("C05", "Begin, end and duration setters change exactly what they say",
     "Setting begin keeps a fixed duration (moving the end) or a fixed end (changing the duration); setting end (due) or duration replaces the other representation and keeps begin. "
     "Converting the end representation keeps begin and the effective end, dropping it keeps begin, and every other attribute stays as it was.",
     ["inputs", "histories"], "all entries and all assigned values including tuple, mapping and None forms", "tests assign a few values",
     [EV, TD, TS, UT], [("setters", EV), ("due setter", TD), ("convert_end", TS), ("ensure_datetime/ensure_timedelta", UT)],
     "abstract instants", "each setter is analysed from an arbitrary valid entry.")
prop("C06", "Making an entry all-day rounds outwards to whole days",
     "Making an entry all-day rounds its begin down and its effective end up to zone-less midnights, making it at least one day long; it keeps whether the end is fixed as an end or as a duration, and is idempotent. "
     "Allowing times again keeps the values, and rounding never moves a value that already is a midnight.",
     ["inputs"], "all begin/end instants in all positions within their days", "tests use a few times of day",
     [TS, UT, EV], [("make_all_day", TS), ("floor_datetime_to_midnight/ceil_datetime_to_midnight", UT), ("unset_all_day", EV)],
     "instants with symbolic day and time-of-day parts", "all instants and times of day are covered.")
prop("C07", "Replacing a timezone keeps wall clocks, converting keeps instants",
     "Replacing the timezone of a timespan or entry keeps its wall-clock begin, end and duration; converting keeps the instants of begin and end, reading floating times as local times with a warning; all-day spans refuse both. "
     "A normalization applies exactly its configured action and zone to floating and to zoned values respectively, whether given date-times, timespans, entries or whole calendars, and leaves all else unchanged.",
     ["inputs", "configurations"], "all spans, zones and normalization settings", "tests use a few fixed zones",
     [TS, EV, CAL], [("replace_timezone/convert_timezone", TS), ("Normalization.normalize", TS), ("Calendar.normalize", CAL)],
     "abstract instants in opaque zones", "zones have one arbitrary constant offset each in this check.")
prop("C08", "Text is split and unfolded into lines exactly",
     "Calendar text is split into physical lines exactly at CRLF, LF or CR, blank lines are skipped, and a line starting with a space or tab continues the previous one without that one character; every logical line carries the number of its first physical line. "
     "No character is lost, joined or split otherwise; a continuation without a preceding line, and a given line that still contains line breaks, are refused with a parse error.",
     ["inputs"], "all texts and sequences of lines", "tests use a few samples; other Unicode line separators and break combinations are not sampled",
     [CP, CC], [("Parser.unfold_lines / string_to_contentlines", CP), ("Patterns.LINEBREAK/LINEFOLD", CC)],
     "opaque words mixed with every combination of structural characters up to a bound", "all sequences of structural tokens up to the bound, with opaque words between them.")
prop("C09", "Folding of serialized lines is lossless and bounded",
     "When a line is serialized, folding only inserts CRLF followed by a space, no physical line exceeds the configured number of characters, and unfolding gives back exactly the unfolded line. "
     "With wrapping disabled every content line is one physical line.",
     ["inputs", "configurations"], "all content lines and all widths", "tests fold a few lines at one width",
     [CC], [("ContentLine.serialize*/DEFAULT_LINE_WRAP/contentline_set_wrap", CC)],
     "lines of all structural shapes over a range of widths", "line contents up to a bounded number of tokens over a range of widths; the text wrapper is a model validated against the standard library's documented algorithm.")
prop("C10", "Components correspond exactly to balanced BEGIN and END lines",
     "Parsed components correspond exactly, in order and nesting, to the balanced BEGIN and END lines of the input, compared case-insensitively; lower-case component names are stored upper-case with a warning, and nothing is lost or moved to another component. "
     "A component without its END, or closed by a different END, is refused with a parse error.",
     ["inputs"], "all sequences of BEGIN, END and other lines", "tests check a few nestings",
     [CP], [("lines_to_containers / Parser.lines_to_containers", CP)],
     "all sequences of structural lines up to a bound, values opaque", "all line sequences up to the bound.")
prop("C11", "Content lines parse into exactly their parts and round-trip",
     "A well-formed line name;param=value,\"value\":value is read as exactly that upper-cased name, those parameters in order with their unquoted values, and that value; a content line built from well-formed parts serializes to one logical line that reads back equal. "
     "A malformed line raises a parse error, never another failure.",
     ["inputs"], "all content lines", "tests cover a grammar sample; combinations of delimiters, quotes and escapes are not exhausted",
     [CP, CC], [("Parser.parse_* and the tokenizer", CP), ("ContentLine._serialize_iter_unwrapped", CC)],
     "all sequences of structural tokens up to a bound", "all token sequences up to the bound, with opaque words between them.")
prop("C12", "Text escaping is invertible and lists split where they were joined",
     "Escaping a text value and unescaping it gives the same text for every text, and the escaped text contains no line break and no bare comma or semicolon. "
     "Unescaping decodes exactly the defined escapes and refuses all others, and a list of texts joined for serialization splits into the same texts.",
     ["inputs"], "all texts and lists of texts", "tests sample a few strings",
     [TXT, CB, CV], [("TextConverter.escape_text/unescape_text/split_value_list/join_value_list", TXT)],
     "all sequences of structural characters up to a bound with opaque words", "the escape functions are character-local, so sequences up to the bound cover all adjacent combinations.")
prop("C13", "Parameter values survive writing and reading for every text",
     "Every parameter value (with quotes, carets, line feeds and separators; carriage returns are dropped) is written so that it stays within its value, parameter and line, and is read back as the same text. "
     "Undefined caret escapes are refused with a parse error.",
     ["inputs"], "all parameter values", "tests sample a few strings",
     [CC, CP], [("escape_param/unescape_param", CC), ("Parser.parse_params", CP)],
     "all sequences of structural characters up to a bound with opaque words", "all token sequences up to the bound.")

prop("C14", "Dates, times and periods survive writing and reading with their zone",
     "A date-time is written as its wall clock YYYYMMDDTHHMMSS - followed by Z without a TZID in UTC, with the zone's TZID in another known zone, with neither if floating or local - and read back as the same wall clock in the same zone; dates, times of day and periods likewise. "
     "Shortened forms are completed with zeros; values of no known length, Z together with a TZID, several TZIDs and unknown TZIDs are refused.",
     ["inputs", "configurations"], "all date-times, dates, times and periods with whole seconds, all zones and contexts", "tests convert a few fixed values",
     [VD, TZ, TZC], [("DatetimeConverterMixin._serialize_dt/_parse_dt", VD), ("PeriodConverterClass", VD), ("Timezone.from_tzinfo / is_utc", TZ)],
     "instants with symbolic fields in zones of every kind", "years have four digits, seconds are whole.")
prop("C15", "Durations and UTC offsets survive writing and reading",
     "A duration is written as [-]P[nD][T[nH][nM][nS]] with a number for every non-zero part and read back as the same duration; weeks, days, hours, minutes and seconds are read with their values and a leading sign applies to the whole. "
     "A UTC offset is written as a sign and two digits each of hours, minutes and, if there are any, seconds, and read back as the same offset. Malformed values are refused.",
     ["inputs"], "all durations and UTC offsets in whole seconds", "tests convert a few fixed values",
     [VD], [("DurationConverterClass", VD), ("UTCOffsetConverterClass", VD)],
     "symbolic integers with division and remainder", "all durations and offsets in whole seconds.")
prop("C16", "Plain values survive writing and reading in their iCalendar form",
     "Booleans, integers, floats, octets (base64), URIs, geographic positions (latitude;longitude with six decimals) and persons with all their parameters are written in their iCalendar form and read back as the same value. "
     "Booleans are read from the common words in any case. Malformed booleans, numbers and positions are refused; lists of such values are joined and split at commas, and every type is converted by the converter registered for it.",
     ["inputs"], "all values of these types", "tests convert a few fixed values",
     [VG, VS, VB, GEO], [("BooleanConverterClass, BinaryConverterClass, URIConverterClass, ...", VG), ("GeoConverterClass, PersonConverter", VS), ("ValueConverter.BY_NAME/BY_TYPE", VB)],
     "opaque numbers, octets and texts", "number formatting, base64 and URL parsing are the standard library's.")

prop("C17", "Attributes of entries, alarms and calendars survive writing and reading",
     "Every attribute set on an event, todo, alarm or calendar is written as its iCalendar property with the converted value (lists as one property per item, in order), unset attributes are not written, "
     "and reading the lines in whatever order gives an object whose attributes have the same values, with entries and alarms in their order and nothing else set; writing that object again gives the same lines. "
     "What was read and then changed is written like an object made with the new values, however lists grew, shrank or were reordered.",
     ["inputs"], "all attribute values representable in the format and orders of lines", "tests round-trip a few fixed files",
     [COMP, CO, CV, CTS, CTC, CTV, EV, TD, AL, CAL], [("ComponentMeta.load_instance/serialize_toplevel", CO), ("AttributeValueConverter", CV), ("TimespanConverter", CTS), ("CalendarMeta and the calendar converters", CTC), ("AlarmMeta", CTV)],
     "every attribute with values of every kind, alone, in pairs and replaced after reading; all span shapes and zones; all alarm kinds and field sets; calendars and lists of up to 40 items", "attributes with non-standard property names are only checked to be read back; zones are known or UTC.")
prop("C18", "Unknown properties, components and parameters are kept and written again",
     "Reading a component and writing it again gives exactly its lines: properties and nested components the library has no attribute for - components named like a property and properties named like a component among them - are kept unchanged and in their order wherever they stand, "
     "as are additional parameters on known properties and the grouping of several values in one line; parameters that don't fit the values or differ within a line are refused when writing. Stripping extras drops exactly what was asked for and keeps all attributes.",
     ["inputs"], "all unknown lines, components and parameters in all places of events, todos, alarms, calendars and time zones", "tests contain a few fixed X- lines",
     [CO, CV, CB, COMP], [("ComponentMeta._populate_attrs/_serialize_attrs", CO), ("set_or_append_extra_params/get_extra_params", CB), ("AttributeValueConverter.serialize", CV), ("Component.strip_extras", COMP)],
     "opaque names, parameters and values around canonical components of every kind", "known lines are in the library's canonical form; other forms of known values are normalized.")
prop("C19", "Contradictory or incomplete components are refused wherever lines stand",
     "Reading refuses with a ValueError a component in which a single-valued property occurs more than once, a required property (calendar version and product id, alarm action, zone id and offsets) is missing, "
     "an end stands together with a duration, the end property of the other kind occurs, the end is before the begin, begin and end have different precisions, a VALUE type is unsupported or given twice, or whose name is not the expected one - "
     "in whatever order the lines stand and however deep the component is nested; list properties, and every property once, are accepted.",
     ["inputs"], "all components with duplicated, missing or conflicting lines in all orders", "tests contain a few malformed files in one order",
     [CV, CTS, CTV, CO, CTC], [("AttributeValueConverter.populate/post_populate", CV), ("TimespanConverter", CTS), ("AlarmMeta.load_instance", CTV), ("ComponentMeta.populate_instance", CO)],
     "all orders of small sets of lines with opaque values, alone, nested and after other components", "each rule is decided by itself and next to complete sibling components.")
prop("C20", "Components of one calendar don't influence each other",
     "Each component read from a calendar is what it would be if read alone: no attribute, time span, parameter, unknown line or alarm of one shows up on a sibling, an outer or a nested one, in whatever combination they stand; "
     "they share no mutable state, and neither do newly created objects and the lists given to their constructors. Each component is written with the lines it gives alone.",
     ["inputs", "histories"], "all combinations of components in a calendar", "tests contain a few fixed combinations",
     [CO, CV, CTS, CTV, CTC, EV, AL], [("context handling in populate/post_populate", CV), ("TimespanConverter.post_populate", CTS), ("RecurrenceConverter.post_populate", CTV), ("attribute factories", EV)],
     "all pairs (and sampled triples; thorough: all triples) of representative components with opaque values", "components are representatives covering every converter.")
prop("C21", "Writing and querying never change an object",
     "Writing, printing, comparing, cloning, iterating or querying an object leaves all of its attributes, parameters and unknown lines as they are, also when it fails, and gives the same result every time; "
     "what is written shares no mutable state with the object's attributes and parameters, and serialize, to_container and iteration agree.",
     ["inputs", "histories"], "all objects and all reading operations on them", "tests serialize each object once and compare only the text",
     [CO, CV, CTV, CTC, COMP, CAL, CC], [("serialize methods of the converters", CV), ("ComponentMeta._serialize_attrs", CO), ("AlarmActionConverter.serialize", CTV), ("CalendarMeta._serialize_attrs", CTC)],
     "the observable state of the whole object graph before and after", "unknown lines themselves are handed out as they are and not copied.")
prop("C22", "Reading never changes what is read",
     "A container that is read, or refused, is the same afterwards with all its lines and parameters, can be read again with the same result, and is not reached by later changes of the resulting object's attributes and parameters; lists of lines given are not changed either.",
     ["inputs", "histories"], "all containers, accepted or refused", "tests don't look at the container afterwards",
     [CV, CTS, CTV, CO, CC], [("copy of parameters in populate", CV), ("TimespanConverter.populate", CTS), ("AlarmActionConverter.populate", CTV)],
     "the observable state of the container before and after", "lines kept as unknown are shared with the container.")
prop("C23", "Operations don't depend on what happened before",
     "What reading, writing or creating objects gives depends only on the arguments: after any other calendars were read, written or refused, after failures, abandoned iterations, repeated set-up and changes of other objects it gives the same result, or the same error, as in a fresh process; "
     "in particular a time zone defined in one calendar is not known to another one.",
     ["histories"], "all sequences of operations on other objects", "each test runs in one history only",
     ["src/ics/__init__.py", CO, CTC, CV, TZC, AL, UT], [("ContextDict per call", CO), ("CalendarMeta available timezones", CTC), ("initialize_converters", "src/ics/__init__.py")],
     "every operation after every other one, with the interpreter's global state reset for reference", "histories are sequences of representative operations.")
prop("C24", "TZIDs are resolved in a fixed order; written calendars define their zones",
     "A TZID is looked up in the calendar's own VTIMEZONEs - wherever in the calendar they stand, the first one of that name counting -, then among the built-in zones (by Olson or Windows name), then, with a warning, among the system's; any other TZID is refused with a ValueError. "
     "A written calendar contains exactly one VTIMEZONE for each TZID its entries, including their alarms, refer to and no other one, after the calendar's own properties and before the entries; own definitions that are used are written again unchanged.",
     ["inputs"], "all instants; TZIDs of each kind; all arrangements of definitions and uses", "each test has one calendar and one zone",
     [VD, TZC, CTC, CAL, "src/ics/converter/types/timezone.py"], [("DatetimeConverterMixin._parse_dt", VD), ("Timezone_from_tzid", TZC), ("CalendarMeta", CTC)],
     "the zone of each read instant compared with the expected one; definitions counted against references in the written lines", "built-in zones are represented by one with constant offset; windows/Olson tables by their interface.")
prop("C25", "VTIMEZONE lookups use the last onset, respect fold and have no history",
     "A time in a VTIMEZONE has the UTC offset, DST shift and name of the observance that began last at or before it - for a time repeated at a backward change the earlier instant, or the later one if fold is set -, and those of the first standard observance (or else of the first one) before all onsets. "
     "The answer depends on the zone and the time alone, whatever was asked before; without a time there is no offset, and no DST shift or name unless there is just one observance.",
     ["inputs", "histories"], "all times and onsets; zones of up to four observances", "tests sample a few zones and instants, mostly once per zone",
     [TZ], [("Timezone._find_observance", TZ), ("Timezone.utcoffset", TZ)],
     "zones with symbolic onsets; the observance found compared with the definition in every order of time and onsets", "onsets are lists of dates; expanding recurrence rules is dateutil's.")

prop("C26", "Every kind of tzinfo is recognized for what it is",
     "A zone of the library itself is kept, every spelling of UTC becomes UTC, another fixed offset a zone of that name and offset, a named Olson zone (zoneinfo or dateutil) the built-in zone of that name, and the local zone none; any other tzinfo is refused with a ValueError. "
     "This holds with and without a context, however often and after whichever conversions; UTC predicates agree with it, normalizing to UTC keeps the instant, and times in such zones are written and read back with their offset. "
     "Replacing a zone by the built-in one of its name warns if their rules differ.",
     ["inputs", "histories"], "all tzinfo classes of the standard library, dateutil and users; all offsets", "tests cover one or two zones",
     [TZ, TZC, VD], [("Timezone_from_tzinfo", TZC), ("is_utc", TZ), ("Timezone.to_builtin", TZ)],
     "each tzinfo class converted and used in a calendar, with symbolic offsets and names", "pytz is not installed and treated as absent.")

prop("C27", "Assigning an attribute equals constructing with it; refusals change nothing",
     "Assigning a value to an attribute of an event, todo, calendar or alarm, or of an instance of a user's subclass of them, converts and checks it exactly as passing it to the constructor does - the same stored value or the same kind of error - and changes no other attribute; "
     "a refused assignment leaves the object as it was. This doesn't depend on earlier assignments to it or to objects of other classes. Time zones, observances and time spans refuse every assignment.",
     ["inputs", "histories"], "all attributes of all public classes with values of every kind", "tests cover a few attribute/value pairs",
     [TY, COMP, EV, TD, AL, CAL], [("RuntimeAttrValidation.__setattr__", TY), ("attribute definitions", EV)],
     "constructor and assignment compared for each attribute and kind of value; the object's observable state before and after refusals", "values are representatives of each type, symbolic within it.")

prop("C28", "Attributes only ever hold values of their domain",
     "A status is one of the three defined ones, in upper case, given in any case; creation, modification and stamp times are in UTC at the instant given, in whatever zone, as floating local time or as date, tuple or mapping, and a stamp is always present; priorities are 0 to 9 and percentages 0 to 100; "
     "positions, classifications, organizers, attendees, alarm triggers and durations, versions, product ids and time spans have their type; lists are copied from any iterable. Everything else is refused with a ValueError or TypeError, by the constructor and by assignments alike; what isn't given is unset.",
     ["inputs"], "all instants, zones, numbers and texts, for constructor and assignment", "tests sample boundary values of some attributes",
     [EV, TD, CAL, AL, UT, TZ, GEO, TY], [("attribute converters and validators", EV), ("ensure_utc", TZ), ("MAX_PRIORITY, MAX_PERCENT", TD)],
     "symbolic numbers, instants and texts; acceptance and stored value compared with the domain", "texts other than the listed ones are represented by opaque words.")

prop("C29", "Containers are lists of lines and containers only, refusals have no effect",
     "Each list operation on a container - adding, inserting, replacing, slicing, deleting, reordering, searching - does what it does to a list of its items; anything that is neither a content line nor a container is refused with a TypeError, and a refused or failing operation leaves the container as it was. "
     "Looking up or deleting by name concerns exactly the direct items of that name. Slices are containers of the same name; slices, clones and lists given are independent of the container, deep clones share nothing with it. Lines are equal iff name, parameters and value are.",
     ["inputs", "histories"], "all operations with items and arguments of every kind, single and in sequence", "tests sample operations on one container",
     [CC], [("Container", CC), ("ContentLine", CC)],
     "each operation applied to a container and to a list; items compared by identity before and after", "containers of up to six items; sequences of two operations in the thorough tier.")

prop("C30", "The ACTION of an alarm decides its class and is written once, first",
     "An alarm is read as the class of its action - AUDIO, DISPLAY, EMAIL, NONE, any other action as a custom alarm with exactly that action - wherever the ACTION line and the alarm itself stand; an alarm without or with several actions is refused with a ValueError, and the action can't be changed. "
     "It is written with exactly one ACTION line, the first one, with its parameters. Attributes that aren't of its kind are kept as unknown lines; triggers stay relative or absolute as given, an absolute one being in UTC or a zone.",
     ["inputs"], "all actions, orders of lines and places of alarms", "tests read one fixed alarm of each kind",
     [AL, CTV, CTC], [("AlarmConverter/AlarmMeta, AlarmActionConverter", CTV), ("get_type_from_action", AL)],
     "opaque action names and values; the ACTION at each position; alarms alone, in events and todos", "actions are upper case.")

prop("C31", "A clone equals its original and is independent of it",
     "A clone of a component has the class, attributes, parameters and unknown lines of its original and is written as the same lines, also for objects of a user's subclass, time zones and clones of clones. "
     "Changing attributes, lists of entries and calendars, parameters or unknown lines - however deeply nested - of one doesn't reach the other; the copy is shallow: the elements themselves, and lists of alarms and zones, are shared. Copies made by the copy module are equal likewise, deep ones share nothing. Cloning and copying change nothing.",
     ["inputs", "histories"], "all components with all attributes, unknown lines and parameters", "tests clone one event",
     [COMP, CC], [("Component.clone", COMP), ("Container.clone", CC)],
     "the observable state of both before and after each kind of change of one of them", "components are representatives of each class with symbolic values.")

prop("C32", "Scoped settings apply inside of their scope and end with it",
     "The line width set by contentline_set_wrap (none or a non-positive one meaning no folding) and the identifiers and stamps set by deterministic_event_data apply inside of their scope, the innermost scope counting, to everything created or written there unless given explicitly; "
     "however the scope is left - normally, by an error, which is passed on, by return, break or by abandoning a generator - what was set before applies again.",
     ["histories", "faults"], "all nestings of scopes and ways to leave them", "tests use one scope and leave it normally",
     [CC, EV], [("contentline_set_wrap", CC), ("deterministic_event_data", EV)],
     "probes before, inside and after each scope of a nesting, left in each way", "nestings of up to three scopes; threads are not considered.")

prop("C33", "Accessors of persons read and write exactly their parameter",
     "Each accessor of an attendee or organizer reads, sets and deletes exactly its parameter: absent or empty it has its documented default, a value set is the value read - also from the object written and read again, quoted or not, whatever characters it contains -, "
     "set to None it is absent again, without values it is not written, several values for a single-valued one are refused with a ValueError, and nothing else changes. Keyword arguments are assignments; persons share no parameters and are equal iff class, address and parameters are.",
     ["inputs", "histories"], "all accessors, parameter states and values", "tests read one attendee",
     [AT, VS, VG], [("PersonProperty, PersonMultiProperty", AT), ("PersonConverter", VS)],
     "opaque values next to special characters; each accessor in each state, alone and in groups", "folding of the written lines is decided by C09.")

prop("C34", "Objects are equal iff class and all attributes are",
     "Events, todos, calendars, alarms, time zones and their observances, time spans, persons, lines, containers, positions and recurrence rules are equal iff their class and all of their attributes, lists in order, parameters and unknown lines are; "
     "where a line stood in its file doesn't matter. == and != agree in both directions, equal hashable objects have equal hashes, foreign objects are never equal. The same text read twice, the same arguments and clones give equal objects.",
     ["inputs"], "all classes and attributes", "tests compare a few fixed pairs",
     [COMP, EV, TD, CAL, AL, TS, AT, RR, CC, TZ, GEO], [("attr.s(eq=True) of the classes", EV), ("rrule_eq, rruleset_eq and hashes", RR), ("ContentLine, Container", CC)],
     "pairs that differ in exactly one attribute, list order, parameter, line or the class", "comparison of date-times in different zones is the standard library's.")

prop("C35", "Calendars read the same from text, lines and containers",
     "A calendar made from text, from its lines or from its container is the same; entries given come first, then those read. Text with no or several calendars, another component or lines outside is refused with a ValueError. "
     "parse_multiple gives one calendar per VCALENDAR, in order, each as if read alone. Iterating over a calendar gives the lines of exactly what serialize gives, whatever characters values contain; the creator is the product id; new calendars are empty and independent.",
     ["inputs"], "all calendars, forms of input and sequences of calendars", "tests read a few fixed files",
     [CAL, "src/ics/contentline/__init__.py", CO], [("Calendar.__init__, parse_multiple, __iter__", CAL)],
     "representative calendars with opaque values in every form of input; malformed inputs", "folding of the written lines is decided by C09.")

prop("C36", "Malformed input is refused with a ValueError and leaves no trace",
     "Whatever the value and parameters of a property the library knows are - truncated, of another type, out of range, in the wrong place -, and however components, properties and the definitions of zones are mixed up, reading the calendar succeeds or ends with a ValueError, or a ParseError where text is not even made of content lines; so does writing what was read. "
     "No other exception escapes. A refused calendar's lines are as before, and whatever is read afterwards is read as if nothing had been refused. (Date-times that leave the years 1 to 9999 when converted between zones aside.)",
     ["inputs", "faults"], "all known properties of all components, parameters and malformed values", "tests try a handful of malformed values",
     [VD, VB, VS, VG, CV, CO, CTC, CTS, CP], [("the parse methods of the value converters", VD), ("RecurrenceConverter", CV), ("AttributeValueConverter, Component.populate", CO)],
     "every known property with every parameter and malformed value of a list, parts of them opaque", "values are representatives with opaque parts; recurrence rules are parsed by a model of dateutil.")

prop("C37", "Textual descriptions say exactly what an object is",
     "The text of an event, todo or time span is <[all-day|floating] Class ['summary'] [begin: ...] [[fixed] end (due): ...] [[fixed] duration: ...]>, with the effective end, the duration only if an end is given, and fixed before whichever of both is set; it follows every change and describing changes nothing. "
     "A calendar tells its numbers of events and todos, a time zone its TZID, a recurrence each rule and exclusion rule with its start and then its dates, a line name, parameters and value, a component its name and items. A parse error names the (first physical) line it is about, by number and text.",
     ["inputs", "histories"], "all shapes of entries, classes, summaries and changes; all malformed lines and positions", "tests check a handful of fixed strings",
     [TS, EV, CAL, CC, CP], [("Timespan.get_str_segments", TS), ("CalendarEntryAttrs.__str__", EV), ("Calendar.__str__", CAL), ("ParseError, ContentLine.__str__, Container.__str__", CC), ("ContentLineParser.error", CP)],
     "symbolic times and opaque texts; the expected text is put together from the specified span", "the texts of date-times and durations themselves are the standard library's.")

prop("C38", "Component classes of users are written and read as declared",
     "A component class declared with attrs and registered with ComponentMeta (or ImmutableComponentMeta) is written and read as declared: each attribute under its ics_name or upper-case name, by ics_priority and order of declaration, with its type, ics_type or ics_converter; lists give one line per item, optional ones none, further types of a union carry VALUE; "
     "nested components are written as what they are. Ignored attributes never are; undeclared lines and parameters are kept and written again. Missing required and repeated single properties, wrong names and attributes that can't be converted are refused. Subclasses of the library's classes keep the properties of both.",
     ["inputs"], "all declarations of a representative class, their values and orders of lines", "tests declare no components",
     [COMP, CC, CB, CO, CV], [("ComponentMeta, ImmutableComponentMeta, MutablePseudoComponent, MemberComponentConverter", CO), ("AttributeConverter, unwrap_type, sort_converters", CB), ("AttributeValueConverter", CV)],
     "user modules declared by the check, analysed together with the library", "declarations are representatives of the kinds of attributes; their values are opaque.")

prop("C39", "Recurrences are read and written exactly, whatever their form",
     "The recurrences of time zones' observances and of components users declare consist of exactly the rules given by RRULE and EXRULE, in their order and with all parts, and the dates given by DTSTART, RDATE and EXDATE, each once and sorted, whatever the order, joining and zones of the lines. "
     "Dates and UNTIL given in UTC in an observance are local times by its TZOFFSETFROM. Written are one DTSTART, first, if there are rules, every rule, and every date with its zone; UNTIL is in UTC where the start has a zone. What is read back is equal - recurrences are equal, with equal hashes, exactly if their rules and dates are -, and reading and writing change nothing; the zones of recurrences are defined by the calendar written. "
     "Rules without a start, different starts, a mixture of floating and zoned dates, dates that name a zone in an observance, and unknown or malformed parts are refused with a ValueError.",
     ["inputs"], "all rules, dates, zones and orders of lines of a recurrence", "tests read a few fixed zones",
     [CTV, "src/ics/converter/types/timezone.py", RR, CTC], [("RecurrenceConverter", CTV), ("TimezoneObservanceMeta, utc_to_local, local_to_utc", "src/ics/converter/types/timezone.py"), ("rrule_to_ContentLine", RR)],
     "symbolic dates, representative rules over every part, all orders of lines", "dateutil's rule parser is modelled; which instants a rule generates isn't considered.")
