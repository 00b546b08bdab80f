"""Whatever a line of a calendar contains - as the value of a known property or in its parameters -, reading the calendar either succeeds or is
refused with a ValueError (which a ParseError is not, but which the parser raises for lines that are none); no other exception escapes, the
lines read stay as they were, and what is read afterwards isn't affected."""
from .common import *
from .c18 import build

PROPS = {
    "VEVENT": ["UID", "DTSTAMP", "DTSTART", "DTEND", "DURATION", "SUMMARY", "DESCRIPTION", "LOCATION", "URL", "STATUS", "CREATED", "LAST-MODIFIED", "ATTACH", "CLASSIFICATION", "TRANSPARENT", "ORGANIZER", "GEO", "ATTENDEE", "CATEGORIES", "X-A", "RRULE", "DUE"],
    "VTODO": ["DUE", "DTSTART", "DURATION", "PERCENT", "PRIORITY", "COMPLETED", "STATUS", "DTEND"],
    "VALARM": ["TRIGGER", "REPEAT", "DURATION", "ATTACH", "DESCRIPTION", "ACTION", "SUMMARY", "ATTENDEE"],
    "VCALENDAR": ["VERSION", "PRODID", "METHOD", "SCALE", "X-A"],
    "STANDARD": ["DTSTART", "TZOFFSETFROM", "TZOFFSETTO", "RRULE", "RDATE", "TZNAME", "COMMENT", "EXDATE", "EXRULE"],
    "VTIMEZONE": ["TZID", "TZURL", "LAST-MODIFIED"],
}
BASE = {
    "VEVENT": [("UID", {}, "u"), ("DTSTAMP", {}, "20200101T000000Z")], "VTODO": [("UID", {}, "u"), ("DTSTAMP", {}, "20200101T000000Z")], "VALARM": [("ACTION", {}, "EMAIL")],
    "VCALENDAR": [("VERSION", {}, "2.0"), ("PRODID", {}, "p")], "STANDARD": [("DTSTART", {}, "20200101T000000"), ("TZOFFSETFROM", {}, "+0100"), ("TZOFFSETTO", {}, "+0200")], "VTIMEZONE": [("TZID", {}, "z")],
}
COMMON = ["", " ", "1", "-", ",", ";", ":", "=", "\\", "1;", "§", "a§\\", "§,", ";§", "5.5"]
DATES = ["T", "Z", "2020", "20200101", "20200101T", "20200101T000000", "20200101T000000Z", "20200101T000000ZZ", "99999999", "20200101T250000", "20200230", "000000", "20200101T0000", "20200101T000000Z/PT1H", "20200101/20200102", "20200101T0000§", "20200101,20200102T000000Z",
         "20200101T000000/P", "20200101T000000/", "/"]
DURS = ["P", "PT", "+", "P1", "P1D1", "-P", "+P1D", "PT1", "PT1H", "PT1H1", "PT1HT", "PW", "P1X", "PDT", "1D", "P-1D", "--P1D", "P1D1D", "P99999999999D", "PT99999999999999999999S", "PWD"]
NUMS = ["0", "-5", "1e400", "nan", "1;2;3", ";1", "nan;nan", "1;2", "TRUE", "§;§", "1,2"]
RULES = ["FREQ=", "FREQ=X", "FREQ=DAILY", "FREQ=DAILY;X", "FREQ=DAILY;COUNT=x", "FREQ=DAILY;UNTIL=", "FREQ=DAILY;UNTIL=x", "INTERVAL=1", "COUNT=1", "FREQ=DAILY;;", "FREQ=DAILY;§", "FREQ=DAILY=", "FREQ", "FREQ=DAILY;FREQ", "FREQ=DAILY;UNTIL=20200101T000000Z"]
OFFS = ["+", "+0100", "+01", "-0000", "+010060", "+9999", "0100", "+01§0", "+0100000", "+-100", "+2400", "-2359"]
URLS = ["mailto:§", "http://[§", "//[", "mailto:", "§:§", "AUDIO", "display", "Zm9v", "Zm9", "===", "X-§"]
KINDOF = {
    "date": ["DTSTAMP", "DTSTART", "DTEND", "CREATED", "LAST-MODIFIED", "DUE", "COMPLETED", "RDATE", "EXDATE", "TRIGGER"], "dur": ["DURATION", "TRIGGER"], "num": ["GEO", "PRIORITY", "PERCENT", "REPEAT", "VERSION"],
    "rule": ["RRULE", "EXRULE"], "off": ["TZOFFSETFROM", "TZOFFSETTO"], "url": ["URL", "TZURL", "ATTACH", "ORGANIZER", "ATTENDEE", "ACTION", "STATUS"],
}
VALUES = {"date": DATES, "dur": DURS, "num": NUMS, "rule": RULES, "off": OFFS, "url": URLS}
PARAMS = [{}, {"VALUE": ["DATE"]}, {"VALUE": ["DATE-TIME"]}, {"VALUE": [""]}, {"VALUE": ["X"]}, {"VALUE": ["DATE", "DATE"]}, {"VALUE": []}, {"VALUE": ["BINARY"]}, {"VALUE": ["BINARY"], "ENCODING": ["BASE64"]}, {"ENCODING": ["BASE64"]}, {"ENCODING": ["§"]}, {"VALUE": ["PERIOD"]},
          {"VALUE": ["DURATION"]}, {"VALUE": ["URI"]}, {"VALUE": ["TEXT"]}, {"VALUE": ["INTEGER"]}, {"VALUE": ["FLOAT"]}, {"VALUE": ["BOOLEAN"]}, {"VALUE": ["UTC-OFFSET"]}, {"VALUE": ["RECUR"]}, {"VALUE": ["CAL-ADDRESS"]}, {"VALUE": ["TIME"]}, {"VALUE": ["X-GEO"]}, {"VALUE": ["§"]},
          {"TZID": [""]}, {"TZID": ["§"]}, {"TZID": ["a", "b"]}, {"TZID": []}, {"TZID": ["Known/K"]}, {"TZID": ["Known/K"], "VALUE": ["DATE"]}, {"X": [""]}, {"X": ["1", "2"]}, {"CN": ["a", "b"]}, {"RSVP": ["§"]}, {"RELATED": ["END"]}, {"RELATED": ["§", "END"]}, {"§": ["§"]}]


def values(name):
    out = list(COMMON)
    for k, ns in KINDOF.items():
        if name in ns:
            out += VALUES[k]
    return out


def fill(A, s, w):
    return s.replace("§", w)


def tree(A, kind, line, extra):
    """a calendar that contains the line in a component of that kind"""
    ls = [l for l in BASE[kind] + extra if l[0] != line[0]] + [line]
    if kind == "VTIMEZONE":
        ls = ls + [("STANDARD", BASE["STANDARD"])]
    t = (kind, ls)
    if kind == "VALARM":
        t = ("VEVENT", BASE["VEVENT"] + [t])
    if kind == "STANDARD":
        t = ("VTIMEZONE", BASE["VTIMEZONE"] + [t])
    if kind != "VCALENDAR":
        t = ("VCALENDAR", BASE["VCALENDAR"] + [t])
    return build(A, *t)


def allowed(A, e):
    return A.is_exc(e, ValueError) or A.is_exc(e, A.mod("ics.contentline").ParseError)


def judge(A, e, what):
    A.require(e is None or allowed(A, e), lambda: "reading %s ends with %s" % (what, A.exc_name(e) if e is not None else ""))


def value(A, kind, name, params, dated):
    """one property with each malformed value"""
    w = A.text("w")
    v = fill(A, A.choose(values(name) if not params else SOME[:] + values(name)[len(COMMON)::4], "value"), w)
    p = {fill(A, k, upper(w)): [fill(A, x, w) for x in xs] for k, xs in params.items()}
    c = tree(A, kind, (name, p, v), [("DTSTART", {}, "20190101T000000")] if dated else [])
    before = A.call(A.get(c, "clone"))
    text = A.call(A.get(c, "serialize"))
    cal, e = A.attempt(A.ics.Calendar, c)
    judge(A, e, "%s of %s" % (name, kind))
    A.require(A.eq(c, before), "reading changed the lines read")
    if e is None:
        out, e2 = A.attempt(A.get(cal, "serialize"))
        judge(A, e2, "(writing) %s of %s" % (name, kind))
    cal2, e3 = A.attempt(A.ics.Calendar, text)
    judge(A, e3, "the text of %s of %s" % (name, kind))


SOME = ["", "1", "§", "20200101", "20200101T000000", "PT1H", ","]


def after(A, kind, name, v, params):
    """what is read after a refused calendar is as if that had never been read"""
    w = A.text("w")
    x = A.dt("x", None, unit=S)
    good = lambda: build(A, "VCALENDAR", BASE["VCALENDAR"] + [("VTIMEZONE", [("TZID", {}, "z"), ("STANDARD", BASE["STANDARD"])]), ("VEVENT", BASE["VEVENT"] + [("DTSTART", {"TZID": ["z"]}, x.strftime("%Y%m%dT%H%M%S")), ("SUMMARY", {}, w), ("X-B", {}, w), ("VALARM", [("ACTION", {}, "DISPLAY"), ("TRIGGER", {}, "PT1H"), ("DESCRIPTION", {}, w)])]),
                                                             ("VTODO", BASE["VTODO"] + [("DUE", {}, x.strftime("%Y%m%dT%H%M%S"))])])
    first = A.call(A.ics.Calendar, good())
    bad = tree(A, kind, (name, {k: [fill(A, x, w) for x in xs] for k, xs in params.items()}, v), [("DTSTART", {}, "20190101T000000"), ("SUMMARY", {}, "left"), ("X-B", {}, "left")] if kind in ("VEVENT", "VTODO") else [])
    _, e = A.attempt(A.ics.Calendar, bad)
    A.require(e is not None and allowed(A, e), lambda: "%s of %s: %s" % (name, kind, A.exc_name(e) if e is not None else "accepted"))
    second = A.call(A.ics.Calendar, good())
    A.require(A.eq(first, second), "the calendar read afterwards differs")
    A.require(A.text_eq(A.call(A.get(first, "serialize")), A.call(A.get(second, "serialize"))), "the calendar read afterwards is written differently")
    # populating an existing object that fails doesn't hinder its later use
    _, e = A.attempt(A.ics.Calendar, bad)
    A.require(e is not None, "the second time it is accepted")


NAMES = sorted({n for ns in PROPS.values() for n in ns} | set(PROPS) | {"DAYLIGHT", "VJOURNAL", "BEGIN", "END", "EXTRA", "EXTRA-PARAMS", "TIMESPAN", "ALARMS", "EVENTS", "RRULESET"})


def structure(A, kind, form):
    """each known name as that of a component or of a property, within each component, with or without what is required"""
    w = A.text("w")
    n = A.choose(NAMES, "name")
    item = {"empty": (n, []), "some": (n, [("X-A", {}, w), ("UID", {}, "1")]), "full": (n, BASE.get(n, [("ACTION", {}, "AUDIO")])), "line": (n, {}, w), "params": (n, {"X": [w]}, ""), "nested": (n, [(n, [])]), "twice": (n, [(n, {}, w), (n, {}, "")])}[form]
    alone = A.choose([False, True], "without the usual lines") if form in ("some", "line") else form == "nested"
    ls = [] if alone else BASE[kind]
    t = (kind, ls + [item] + ([("STANDARD", BASE["STANDARD"])] if kind == "VTIMEZONE" and not alone else []))
    for outer in {"VALARM": ["VEVENT"], "STANDARD": ["VTIMEZONE"]}.get(kind, []):
        t = (outer, BASE[outer] + [t])
    if kind != "VCALENDAR":
        t = ("VCALENDAR", BASE["VCALENDAR"] + [t, ("VEVENT", BASE["VEVENT"] + [("DTSTART", {"TZID": ["z"]}, "20200101T000000")])] if kind in ("VTIMEZONE", "STANDARD") else BASE["VCALENDAR"] + [t])
    c = build(A, *t)
    before = A.call(A.get(c, "clone"), deep=True)
    cal, e = A.attempt(A.ics.Calendar, c)
    judge(A, e, "a %s named %s in %s" % (form, n, kind))
    A.require(A.eq(c, before), "reading changed the lines read")
    if e is None:
        for f in ("serialize", "to_container", "clone"):
            _, e2 = A.attempt(A.get(cal, f))
            judge(A, e2, "(%s) a %s named %s in %s" % (f, form, n, kind))


ZONES = [[], [("X-A", {}, "b")], [("STANDARD", {}, "x")], [("DAYLIGHT", BASE["STANDARD"])], [("STANDARD", BASE["STANDARD"][1:])], [("STANDARD", BASE["STANDARD"][1:] + [("RDATE", {}, "20200101T000000")])], [("STANDARD", BASE["STANDARD"][1:] + [("EXDATE", {}, "20200101T000000")])],
         [("STANDARD", BASE["STANDARD"][1:]), ("DAYLIGHT", BASE["STANDARD"][1:])], [("STANDARD", BASE["STANDARD"]), ("DAYLIGHT", BASE["STANDARD"][1:])], [("STANDARD", BASE["STANDARD"] + [("EXDATE", {}, "20200101T000000")])], [("VTIMEZONE", [("TZID", {}, "z")])]]


def zone(A, i, kind, name):
    """a time in a zone that is defined oddly"""
    zid = A.choose(["z", "UTC"], "name")
    items = list(BASE[kind]) if kind != "VALARM" else [("ACTION", {}, "AUDIO")]
    p = {"TZID": [zid]}
    if name == "TRIGGER":
        p["VALUE"] = ["DATE-TIME"]
    items = [l for l in items if l[0] != name] + [(name, p, "20200101T000000")] + ([("DTEND", {"TZID": [zid]}, "20200102T000000")] if name == "DTSTART" and kind == "VEVENT" else [])
    if kind == "VALARM":
        items = BASE["VEVENT"] + [("VALARM", items)]
    c = build(A, "VCALENDAR", BASE["VCALENDAR"] + [("VTIMEZONE", [("TZID", {}, zid)] + ZONES[i]), ("VTODO" if kind == "VTODO" else "VEVENT", items)])
    cal, e = A.attempt(A.ics.Calendar, c)
    judge(A, e, "a zone with %s" % (ZONES[i],))
    if e is not None:
        return
    x = A.iter(A.get(cal, "todos" if kind == "VTODO" else "events"))[0]
    for what, f in (("writing", lambda: A.call(A.get(cal, "serialize"))), ("describing", lambda: A.str(x)), ("sorting", lambda: A.call(A.get(x, "__lt__"), A.call(A.get(x, "clone")))), ("comparing", lambda: A.eq(x, A.call(A.get(x, "clone")))),
                    ("listing", lambda: A.iter(A.get(cal, "timeline"))), ("cloning", lambda: A.call(A.get(cal, "clone")))):
        _, e = A.attempt(f)
        judge(A, e, "(%s) a zone with %s" % (what, ZONES[i]))


REFUSED = [
    ("VEVENT", "DTSTART", "", {}), ("VEVENT", "DTSTAMP", "", {}), ("VEVENT", "DTEND", "20180101T000000", {}), ("VEVENT", "DTEND", "20200101T000000Z", {}), ("VEVENT", "DURATION", "PX", {}), ("VEVENT", "GEO", "1", {}), ("VEVENT", "DTSTART", "20200101T000000", {"TZID": ["§"]}),
    ("VEVENT", "CREATED", "x", {}), ("VTODO", "PRIORITY", "x", {}), ("VTODO", "DUE", "20180101T000000", {}), ("VALARM", "TRIGGER", "x", {}), ("VALARM", "REPEAT", "x", {}), ("STANDARD", "TZOFFSETTO", "x", {}), ("STANDARD", "RRULE", "INTERVAL=1", {}), ("STANDARD", "RDATE", "20200101T000000", {"TZID": ["z"]}), ("STANDARD", "DTSTART", "2020", {}), ("VEVENT", "STATUS", "x", {}),
    ("VEVENT", "ATTACH", "x", {"VALUE": ["BINARY"], "ENCODING": ["BASE64"]}), ("VEVENT", "DURATION", "PT1", {}), ("VEVENT", "DURATION", "", {}),
]

TEXTS = [
    "", "\r\n", "BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:VCALENDAR\r\nEND:VEVENT", "BEGIN:VCALENDAR\r\n§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\n:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\n;X=1:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nX;=1:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nX;Y:§\r\nEND:VCALENDAR",
    "BEGIN:VCALENDAR\r\nX;Y=\"§:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nX;Y=\"§\"§:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nX;:§\r\nEND:VCALENDAR", "BEGIN:\r\nEND:", "BEGIN:VCALENDAR\r\nBEGIN:\r\nEND:\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nBEGIN:X\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nEND:VCALENDAR\r\nEND:VCALENDAR",
    " §", "\t§", " BEGIN:VCALENDAR\r\nEND:VCALENDAR", "§", "§:§", "BEGIN:VEVENT\r\nEND:VEVENT", "BEGIN;X=1:VCALENDAR\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nEND;X=1:VCALENDAR", "BEGIN", "END", "BEGIN:BEGIN", "END:END", "\ufeffBEGIN:VCALENDAR\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\n\n \n\tX\nEND:VCALENDAR",
    "BEGIN:VCALENDAR\r\nX Y:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nX;Y==:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\nX;Y=,:§\r\nEND:VCALENDAR", "BEGIN:VCALENDAR\r\n\"X\":§\r\nEND:VCALENDAR", "=", ":", ";", "\"", "^", "\\",
]


def texts(A):
    """texts that are no calendar"""
    w = A.text("w")
    t = A.choose(TEXTS, "text").replace("§", w)
    end = A.choose(["", "\r\n", "\n", "\n \n"], "end")
    for f in (A.ics.Calendar, lambda s: list(A.iter(A.call(A.get(A.ics.Calendar, "parse_multiple"), s))), lambda s: list(A.iter(A.call(A.mod("ics.contentline").string_to_containers, s)))):
        _, e = A.attempt(f, t + end)
        judge(A, e, "a text")


def scenarios(tier):
    out = []
    for kind, names in PROPS.items():
        for n in names:
            for dated in ([False, True] if kind in ("VEVENT", "VTODO") and n != "DTSTART" else [False]):
                out.append(Scenario("value/%s/%s%s" % (kind, n, "/dated" if dated else ""), value, (kind, n, {}, dated)))
            for i, p in enumerate(PARAMS[1:], 1):
                if tier == "thorough" or relevant(n, p):
                    out.append(Scenario("params/%s/%s/%s" % (kind, n, i), value, (kind, n, p, False)))
    for i, (kind, n, v, p) in enumerate(REFUSED):
        out.append(Scenario("after/%d/%s" % (i, n), after, (kind, n, v, p)))
    out.append(Scenario("texts", texts, ()))
    for kind in PROPS:
        for form in ("empty", "some", "full", "line", "params", "nested", "twice"):
            out.append(Scenario("structure/%s/%s" % (kind, form), structure, (kind, form)))
    for i in range(len(ZONES)):
        for kind, name in (("VEVENT", "DTSTART"), ("VEVENT", "DTSTAMP"), ("VEVENT", "CREATED"), ("VTODO", "DUE"), ("VTODO", "COMPLETED"), ("VALARM", "TRIGGER")):
            out.append(Scenario("zone/%d/%s/%s" % (i, kind, name), zone, (i, kind, name)))
    return out


def relevant(n, p):
    if "TZID" in p:
        return n in KINDOF["date"]
    if "VALUE" in p or "ENCODING" in p:
        return n in ("DTSTART", "DTEND", "DUE", "DTSTAMP", "DURATION", "ATTACH", "TRIGGER", "URL", "GEO", "COMPLETED", "RDATE", "SUMMARY", "RRULE", "TZOFFSETTO", "PRIORITY", "CATEGORIES", "X-A")
    return n in ("ATTENDEE", "ORGANIZER", "TRIGGER", "DTSTART", "X-A", "SUMMARY")
