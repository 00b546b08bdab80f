"""Properties, components and parameters the library has no attribute for survive: reading a component and writing it again gives
exactly its lines (unknown ones unchanged and in their order), whatever stands where; stripping extras drops what was asked for and
nothing else."""
from .common import *
from .c17 import lines

B = BUILTIN


def base(A, kind, which=0):
    """canonical known lines of a component (name, params, value)"""
    x, y = A.dt("x", A.utc, unit=S), A.dt("y", A.utc, unit=S)
    A.path.assume(y.pos - x.pos)
    fx, fy = x.strftime("%Y%m%dT%H%M%SZ"), y.strftime("%Y%m%dT%H%M%SZ")
    w = [A.text("w%d" % k) for k in range(4)]
    if kind == "VEVENT" and which == 2:  # values not of the first type of their property
        return [("UID", {}, w[0]), ("DTSTAMP", {}, fx), ("DTSTART", {"VALUE": ["DATE"]}, x.strftime("%Y%m%d")), ("DURATION", {}, "P3D"), ("ATTACH", {"VALUE": ["BINARY"], "ENCODING": ["BASE64"]}, "YWJj"), ("ATTACH", {}, "http://%s.org" % w[1]),
                ("ATTACH", {"VALUE": ["BINARY"], "ENCODING": ["BASE64"]}, ""), ("URL", {}, w[2])]
    if kind == "VEVENT":
        return [("UID", {}, w[0]), ("DTSTAMP", {}, fx), ("DTSTART", {}, fx), ("DTEND", {}, fy) if which != 1 else ("DURATION", {}, "PT1H"), ("SUMMARY", {}, w[1]), ("CATEGORIES", {}, w[2] + "," + w[3]), ("CATEGORIES", {}, w[1]),
                ("ORGANIZER", {"CN": [w[3]]}, "mailto:%s@x.org" % w[2]), ("ATTENDEE", {}, "mailto:%s@x.org" % w[3]), ("ATTENDEE", {"ROLE": ["CHAIR"]}, "mailto:%s@y.org" % w[3]), ("GEO", {}, "1.500000;2.500000"),
                ("URL", {"VALUE": ["URI"]}, "http://%s.org" % w[1]), ("LOCATION", {}, w[0] + "\\, " + w[1]), ("CREATED", {}, fy), ("LAST-MODIFIED", {}, fx), ("STATUS", {}, "CONFIRMED"), ("DESCRIPTION", {}, w[2])]
    if kind == "VTODO" and which == 2:
        return [("UID", {}, w[0]), ("DTSTAMP", {}, fx), ("DTSTART", {}, A.dt("f", None, unit=S).strftime("%Y%m%dT%H%M%S")), ("DURATION", {}, "PT5S"), ("ATTACH", {}, "http://%s.org" % w[1]), ("URL", {"VALUE": ["URI"]}, "http://%s.org" % w[2])]
    if kind == "VTODO":
        return [("UID", {}, w[0]), ("DTSTAMP", {}, fx), ("DTSTART", {}, fx), ("DUE", {}, fy) if which != 1 else ("DURATION", {}, "PT1H"), ("SUMMARY", {}, w[1]), ("PRIORITY", {}, "3"), ("COMPLETED", {}, fy), ("STATUS", {}, "CANCELLED")]
    if kind == "VCALENDAR":
        return [("VERSION", {}, "2.0"), ("PRODID", {}, w[0]), ("METHOD", {}, "PUBLISH"), ("VEVENT", [("UID", {}, w[1]), ("DTSTAMP", {}, fx)]), ("VEVENT", [("UID", {}, w[2]), ("DTSTAMP", {}, fx)]), ("VTODO", [("UID", {}, w[3]), ("DTSTAMP", {}, fx)])]
    if kind == "VALARM" and which > 4:
        a = "AUDIO" if which == 5 else "EMAIL"
        return [("ACTION", {}, a), ("TRIGGER", {"VALUE": ["DATE-TIME"]}, fx), ("ATTACH", {"VALUE": ["BINARY"], "ENCODING": ["BASE64"]}, "YWJj")] + ([("ATTACH", {}, "http://%s.org" % w[1]), ("ATTENDEE", {"CN": [w[2]]}, "mailto:%s@x.org" % w[3]), ("ATTENDEE", {}, "mailto:b@x.org")] if which == 6 else [])
    if kind == "VALARM":
        a = ["AUDIO", "DISPLAY", "EMAIL", "NONE", "X-" + w[0]][which]
        out = [("ACTION", {}, a), ("TRIGGER", {}, "-PT15M"), ("REPEAT", {}, "2"), ("DURATION", {}, "PT5M")]
        return out + {"AUDIO": [("ATTACH", {}, "http://%s.org" % w[1])], "DISPLAY": [("DESCRIPTION", {}, w[1])],
                      "EMAIL": [("DESCRIPTION", {}, w[1]), ("SUMMARY", {}, w[2]), ("ATTENDEE", {}, "mailto:%s@x.org" % w[3]), ("ATTACH", {}, "http://%s.org" % w[1])]}.get(a, [])
    if kind == "VTIMEZONE":
        return [("TZID", {}, w[0]), ("LAST-MODIFIED", {}, fx), ("STANDARD", OBS)]
    return list(OBS)


OBS = [("DTSTART", {}, "20200101T000000"), ("TZOFFSETFROM", {}, "+0200"), ("TZOFFSETTO", {}, "+0100"), ("TZNAME", {}, "CET"), ("RRULE", {}, "FREQ=YEARLY;BYMONTH=3"), ("RDATE", {}, "20200101T000000")]


def build(A, name, items):
    out = []
    for x in items:
        out.append(build(A, x[0], x[1]) if len(x) == 2 else A.call(A.ics.ContentLine, x[0], {k: list(v) for k, v in x[1].items()}, x[2]))
    return A.call(A.ics.Container, name, out)


def reader(A, kind):
    m = {"VEVENT": lambda: A.ics.Event, "VTODO": lambda: A.ics.Todo, "VCALENDAR": lambda: A.ics.Calendar, "VALARM": lambda: A.mod("ics.alarm").BaseAlarm,
         "VTIMEZONE": lambda: A.ics.Timezone, "STANDARD": lambda: A.mod("ics.timezone").TimezoneStandardObservance, "DAYLIGHT": lambda: A.mod("ics.timezone").TimezoneDaylightObservance}
    return A.get(m[kind](), "from_container")


def same_lines(A, got, want, msg):
    """the same lines: every line occurs, lines of one name in order, nested components likewise"""
    names = lambda l: sorted(x[0] for x in l)
    A.require(A.text_eq(names(got), names(want)), lambda: "%s: has %s instead of %s" % (msg, A.show(names(got)), A.show(names(want))))
    for n in {x[0] for x in want}:
        g, w = [x for x in got if x[0] == n], [x for x in want if x[0] == n]
        for a, b in zip(g, w):
            if len(a) == 2 and len(b) == 2 and b[0] in KNOWN:
                same_lines(A, a[1], b[1], msg + "/" + n)
            else:
                A.require(A.text_eq(a, b), lambda: "%s: %s is written as %s instead of %s" % (msg, n, A.show(a), A.show(b)))


KNOWN = ("VEVENT", "VTODO", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT")


def unknown_items(A, i):
    n, v, p = upper(A.text("un")), A.text("uv"), A.text("up")
    line = ("X-" + n, {}, v)
    return [
        [line],
        [("X-" + n, {"X-" + p: [v, "a;b", '"q\n'], "Y": [""]}, v + ";:,\\n\\x "), ("X-" + n, {}, ""), ("RELATED-TO", {"RELTYPE": ["X"]}, v)],
        [("X-" + n, [("SUMMARY", {}, v), ("UID", {"P": [p]}, "a,b"), ("VEVENT", [("DTSTART", {}, "nonsense")])])],
        [("X-" + n, {"P%d" % k: [x, v + x]}, x + v + x) for k, x in enumerate(EXOTIC)] + [("X-SUB", [("X-" + n, {}, x + "," + x) for x in EXOTIC])],
        [("VFREEBUSY", []), line, ("VJOURNAL", [("UID", {}, v)]), ("X-" + n, [line]), ("Z", {}, v), ("A", {}, v), ("Z", {}, "2"), line],
    ][i]


def only_unknown(A, want):
    return want


NAMED = {"VEVENT": ["UID", "DTSTAMP", "DTSTART", "DTEND", "DUE", "DURATION", "SUMMARY", "STATUS", "URL", "CREATED", "ATTACH", "ORGANIZER", "GEO", "ATTENDEE", "CATEGORIES"], "VTODO": ["DTSTART", "DUE", "DURATION", "PRIORITY", "COMPLETED", "DESCRIPTION"],
         "VALARM": ["ACTION", "TRIGGER", "REPEAT", "DURATION", "ATTACH", "DESCRIPTION"], "VCALENDAR": ["VERSION", "PRODID", "METHOD"], "VTIMEZONE": ["TZID", "TZURL", "LAST-MODIFIED"], "STANDARD": ["TZOFFSETFROM", "TZOFFSETTO", "DTSTART", "RRULE", "RDATE", "EXDATE", "TZNAME"]}
NAMED["DAYLIGHT"] = NAMED["STANDARD"]
MEMBERS = {"VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VCALENDAR": ["VEVENT", "VTODO", "VTIMEZONE"], "VTIMEZONE": ["STANDARD", "DAYLIGHT"]}


def keep(A, kind, which, i, where, level):
    items, un = base(A, kind, which), unknown_items(A, i) if isinstance(i, int) else []
    if i == "named":
        # components named like properties, properties named like components
        w = A.text("uv")
        un = [(n, [("X-" + n, {}, w), (n, {}, w)][: k % 3]) for k, n in enumerate(NAMED[kind])] + [(n, {"P": [w]} if k else {}, w) for k, n in enumerate(MEMBERS.get(kind, []))]
    if where == "front":
        full = un + items
    elif where == "back":
        full = items + un
    else:  # spread
        full, rest = [], list(un)
        for k, x in enumerate(items):
            full.append(x)
            if rest and k % 2 == 0:
                full.append(rest.pop(0))
        full += rest
    c = build(A, kind, full)
    if i == "named":
        full = items + un  # what is unknown follows what is known
    o = A.call(reader(A, kind), c)
    ex = lines(A, A.get(o, "extra"))
    A.require(A.text_eq(ex, un), lambda: "kept as extra: %s instead of %s" % (A.show(ex), A.show(un)))
    out = A.call(A.get(o, "to_container"))
    A.require(A.get(out, "name") == kind, "the component's name")
    ls = lines(A, out)
    same_lines(A, ls, full, "written again")
    un2 = [x for x in ls if any(A.text_eq(x, u) for u in un)]
    A.require(A.text_eq(un2, un), lambda: "unknown lines are reordered: %s instead of %s" % (A.show(un2), A.show(un)))
    # a second time, and without attributes
    o2 = A.call(reader(A, kind), out)
    same_lines(A, lines(A, A.call(A.get(o2, "to_container"))), full, "written a third time")


def large(A, kind, n, what):
    """many unknown lines, components, parameters, deep nesting"""
    w = A.text("w")
    if what == "lines":
        un = [("X-L%d" % (k * 7 % 5), {"P%d" % j: [w] for j in range(k % 3)}, "%d%s" % (k, w)) for k in range(n)]
    elif what == "deep":
        un = [("X-L", {}, w)]
        for k in range(n):
            un = [("X-%d" % k, {}, w), ("VX%d" % (k % 3), un), ("X-%d" % k, {}, "z")]
    elif what == "wide":
        un = [("VX%d" % (k % 3), [("X-%d" % j, {}, w) for j in range(k % 4)]) for k in range(n)]
    else:
        un = [("X-L", {"P%d" % k: ["%d" % j for j in range(1 + k % 3)] + [w] for k in range(n)}, w), ("X-L", {"P": ["%d%s" % (j, w) for j in range(n)]}, "")]
    items = base(A, kind, 0)
    full = []
    for k, x in enumerate(un):
        full += [x] + items[k:k + 1]
    full += items[len(un):]
    o = A.call(reader(A, kind), build(A, kind, full))
    ex = lines(A, A.get(o, "extra"))
    A.require(A.text_eq(ex, un), lambda: "kept as extra: %s instead of %s" % (A.show(ex), A.show(un)))
    out = A.call(A.get(o, "to_container"))
    same_lines(A, lines(A, out), full, "written again")
    text = A.call(A.get(out, "serialize"), wrap=None)
    back = A.iter(A.call(A.mod("ics.contentline").string_to_containers, text))
    A.require(len(back) == 1 and A.text_eq(lines(A, back[0]), lines(A, out)), "the text gives other lines")


def nested(A, outer, inner, i):
    """extras inside a component inside another one"""
    un = unknown_items(A, i)
    it = base(A, inner) + un
    if outer == "VCALENDAR":
        full = [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), (inner, it), (inner, base(A, inner))]
        if inner == "VTIMEZONE":
            full = full[:3]
    elif outer == "VTIMEZONE":
        full = [("TZID", {}, "z"), (inner, it), (inner, base(A, inner))]
    else:
        full = base(A, outer) + [(inner, it), (inner, base(A, inner, 1))]
    c = build(A, outer, full)
    o = A.call(reader(A, outer), c)
    A.require(len(A.iter(A.get(o, "extra"))) == 0, "extras of an inner component appear on the outer one")
    same_lines(A, lines(A, A.call(A.get(o, "to_container"))), full, "written again")


PAR = {"VEVENT": ["UID", "DTSTAMP", "DTSTART", "DTEND", "SUMMARY", "CATEGORIES", "ORGANIZER", "ATTENDEE", "GEO", "URL", "LOCATION", "CREATED", "LAST-MODIFIED", "STATUS", "DESCRIPTION"],
       "VEVENT2": ["DTSTART", "DURATION", "ATTACH", "URL"], "VTODO2": ["DTSTART", "DURATION", "ATTACH", "URL"], "VALARM5": ["TRIGGER", "ATTACH"], "VALARM6": ["TRIGGER", "ATTACH", "ATTENDEE"],
       "VTODO": ["UID", "DTSTAMP", "DTSTART", "DUE", "SUMMARY", "PRIORITY", "COMPLETED", "STATUS"], "VCALENDAR": ["VERSION", "PRODID", "METHOD"],
       "VALARM": ["ACTION", "TRIGGER", "REPEAT", "DURATION"], "VTIMEZONE": ["TZID", "LAST-MODIFIED"], "STANDARD": ["TZOFFSETFROM", "TZOFFSETTO", "TZNAME"]}


def params(A, kind, which, name, mask, bare=None):
    """additional parameters on known properties (mask: on which of several lines of the name)"""
    p, v = A.text("p"), A.text("v")
    more = {"X-" + p: [v, ",;:"], "LANGUAGE": ["de"]} if bare is None else {"X-" + p: bare}
    items, k, hit = [], 0, 0
    for x in base(A, kind, which):
        if len(x) == 3 and (name is None or x[0] == name) and x[0] not in ("RRULE", "RDATE") and not (kind == "STANDARD" and x[0] == "DTSTART"):
            if mask >> k & 1 or name is None:
                x = (x[0], dict(x[1], **{a: b if k % 2 == 0 or bare is not None else b + [str(k)] for a, b in more.items()}), x[2])
                hit += 1
            k += 1
        items.append(x)
    A.require(hit > 0, "nothing to check for %s" % name)
    c = build(A, kind, items)
    o = A.call(reader(A, kind), c)
    A.require(len(A.iter(A.get(o, "extra"))) == 0, "something is left over")
    out = A.call(A.get(o, "to_container"))
    same_lines(A, lines(A, out), items, "written again")
    same_lines(A, lines(A, A.call(A.get(A.call(reader(A, kind), out), "to_container"))), items, "written a third time")


def inconsistent(A, kind, attr, what):
    """parameters of several values that don't fit the values or each other can't be written"""
    v = A.text("v")
    vals = {"categories": ["a", v, "c"], "attach": [A.call(A.get(A.mod("ics.valuetype.generic").URIConverter, "parse"), "http://%s.org" % v), A.octets("b")]}[attr]
    o = A.call(A.ics.Event if kind == "VEVENT" else A.ics.Todo, **{attr: vals})
    M, L = {"__merge_next": ["TRUE"]}, {"__merge_next": ["FALSE"]}
    if what == "too many":
        ps = [dict(L, P=["1"]) for _ in vals] + [{}]
    elif what == "too few":
        ps = [{"P": ["1"]}]
    elif what == "ends merging":
        ps = [{} for _ in vals[1:]] + [dict(M)]
    elif what == "differ":
        ps = [dict(M, P=["1"]), dict(L, P=["2"])] + [{} for _ in vals[2:]]
    elif what == "only first":
        ps = [dict(M, P=["1"]), dict(L)] + [{} for _ in vals[2:]]
    else:
        ps = [dict(M), dict(L, P=["1"])] + [{} for _ in vals[2:]]
    A.get(o, "extra_params")[attr.upper()] = ps
    if what == "separate":
        ps[:] = [{"P": [str(k)]} for k in range(len(vals))]
        ls = [x for x in lines(A, A.call(A.get(o, "to_container"))) if x[0] == attr.upper()]
        A.require(len(ls) == len(vals) and all(A.text_eq(x[1].get("P"), [str(k)]) for k, x in enumerate(ls)), "own parameters of each value")
        return
    if what == "grouped":
        ps[:] = [dict(M, P=["1"]), dict(L, P=["1"])] + [{} for _ in vals[2:]]
        if attr == "categories":
            ls = [x for x in lines(A, A.call(A.get(o, "to_container"))) if x[0] == attr.upper()]
            A.require(A.text_eq(ls, [("CATEGORIES", {"P": ["1"]}, "a," + v), ("CATEGORIES", {}, "c")]), lambda: "values with common parameters in one line: %s" % A.show(ls))
        else:
            A.raises(A.get(o, "to_container"), _msg="values of different types are written in one line", _exc=ValueError)
        return
    A.raises(A.get(o, "to_container"), _msg="parameters that don't fit (%s) are written" % what, _exc=ValueError)


def own(A, kind):
    """extras appended by the user"""
    o = A.call(reader(A, kind), build(A, kind, base(A, kind)))
    un = unknown_items(A, 3)
    for x in lines_of(A, un):
        A.call(A.get(A.get(o, "extra"), "append"), x)
    ls = lines(A, A.call(A.get(o, "to_container")))
    same_lines(A, ls, base(A, kind) + un, "written with added extras")


def lines_of(A, items):
    return A.iter(build(A, "TMP", items))


def strip(A, kind, what):
    un = unknown_items(A, 1)
    p = {"X-P": [A.text("v")]}
    items = [(x[0], dict(x[1], **p), x[2]) if len(x) == 3 and x[0] not in ("ORGANIZER", "ATTENDEE", "VALARM") else x for x in base(A, kind)] + un
    o = A.call(reader(A, kind), build(A, kind, items))
    f = A.get(o, "strip_extras")
    if what == "nothing":
        A.raises(f, _msg="stripping nothing is accepted", _exc=ValueError)
        A.raises(f, all_extras=False, extra_params=False, _msg="stripping nothing is accepted", _exc=ValueError)
        same_lines(A, lines(A, A.call(A.get(o, "to_container"))), items, "after a refused strip_extras")
        return
    kw = {"all": dict(all_extras=True), "props": dict(extra_properties=True), "params": dict(extra_params=True), "merging": dict(property_merging=True), "all but props": dict(all_extras=True, extra_properties=False),
          "all but params": dict(all_extras=True, extra_params=False)}[what]
    A.call(f, **kw)
    props = what in ("all", "props", "all but params")
    pars = what in ("all", "params", "all but props")
    merge = what in ("all", "params", "merging", "all but params", "all but props")
    want = []
    for x, y in zip(items, base(A, kind) + un):
        if x in un and props:
            continue
        n = y if pars and x not in un else x
        if merge and n[0] == "CATEGORIES" and len(n) == 3:
            want += [(n[0], n[1], v) for v in n[2].split(",")]
        else:
            want.append(n)
    A.require(len(A.iter(A.get(o, "extra"))) == (0 if props else len(un)), "extra properties after stripping %s" % what)
    same_lines(A, lines(A, A.call(A.get(o, "to_container"))), want, "after stripping %s" % what)
    A.call(f, **kw)
    same_lines(A, lines(A, A.call(A.get(o, "to_container"))), want, "after stripping %s once more" % what)


def textual(A, kind, i):
    """from text to text"""
    un = unknown_items(A, i)
    inner = base(A, kind) + un
    full = [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), ("X-C", {"P": ["q"]}, A.text("cv")), (kind, inner)]
    s = A.call(A.get(build(A, "VCALENDAR", full), "serialize"))
    cal = A.call(A.ics.Calendar, s)
    back = A.call(A.get(cal, "serialize"))
    got = A.iter(A.call(A.mod("ics.contentline").string_to_containers, back))
    A.require(len(got) == 1, "one calendar")
    same_lines(A, lines(A, got[0]), full, "serialized again")


def scenarios(tier):
    out = []
    kinds = [("VEVENT", k) for k in range(3)] + [("VTODO", k) for k in range(3)] + [("VCALENDAR", 0)] + [("VALARM", k) for k in range(7)] + [("VTIMEZONE", 0), ("STANDARD", 0), ("DAYLIGHT", 0)]
    for k, w in kinds:
        for i in range(5):
            for where in ("front", "back", "spread"):
                out.append(Scenario("keep %s %d: %d %s" % (k, w, i, where), keep, (k, w, i, where, 0)))
    for k, w in kinds:
        for where in ("front", "back", "spread"):
            out.append(Scenario("keep named %s %d %s" % (k, w, where), keep, (k, w, "named", where, 0)))
        if w == 0:
            for what, n in (("lines", 40), ("deep", 15), ("wide", 25), ("params", 30)):
                out.append(Scenario("large %s %s" % (k, what), large, (k, n, what)))
    for o, i in (("VCALENDAR", "VEVENT"), ("VCALENDAR", "VTODO"), ("VEVENT", "VALARM"), ("VTODO", "VALARM"), ("VTIMEZONE", "STANDARD"), ("VTIMEZONE", "DAYLIGHT")):
        for k in range(5):
            out.append(Scenario("nested %s in %s %d" % (i, o, k), nested, (o, i, k)))
    for k, w in kinds:
        for n in PAR.get("%s%d" % (k, w), PAR.get(k, [])):
            if w == 1 and n in ("DTEND", "DUE"):
                n = "DURATION"
            m = (1, 2, 3, 5) if n in ("CATEGORIES", "ATTENDEE", "ATTACH") and k == "VEVENT" or (k, w) == ("VALARM", 6) and n != "TRIGGER" else (1,)
            for x in m:
                out.append(Scenario("params %s %d %s %d" % (k, w, n, x), params, (k, w, n, x)))
        if k != "DAYLIGHT":
            out.append(Scenario("params %s %d all" % (k, w), params, (k, w, None, 0)))
            for i, b in enumerate(([], [""], ["", ""], ["0"])):
                out.append(Scenario("params %s %d all bare %d" % (k, w, i), params, (k, w, None, 0, b)))
    for k in ("VEVENT", "VTODO", "VCALENDAR", "VALARM", "VTIMEZONE"):
        out.append(Scenario("own extras %s" % k, own, (k,)))
    for k, a in (("VEVENT", "categories"), ("VEVENT", "attach"), ("VTODO", "attach")):
        for wh in ("too many", "too few", "ends merging", "differ", "only first", "only last", "separate", "grouped"):
            out.append(Scenario("inconsistent %s %s %s" % (k, a, wh), inconsistent, (k, a, wh)))
    for k in ("VEVENT", "VTODO"):
        for wh in ("nothing", "all", "props", "params", "merging", "all but props", "all but params"):
            out.append(Scenario("strip %s %s" % (wh, k), strip, (k, wh)))
        for i in range(5):
            out.append(Scenario("textual %s %d" % (k, i), textual, (k, i)))
    return out
