"""Reading refuses contradictory components with a ValueError: single-valued properties that occur twice, missing required properties,
an end together with a duration, the other kind's end, diverging precisions, unsupported or several VALUE types, wrong component names
- wherever the lines stand; list properties and every property once are accepted."""
from .common import *
from .c17 import lines
from .c18 import OBS, base, build, reader

SINGLE = {"VEVENT": ["UID", "DTSTAMP", "DTSTART", "DTEND", "DURATION", "SUMMARY", "DESCRIPTION", "LOCATION", "URL", "STATUS", "CREATED", "LAST-MODIFIED", "ORGANIZER", "GEO"],
          "VTODO": ["UID", "DTSTAMP", "DTSTART", "DUE", "DURATION", "SUMMARY", "DESCRIPTION", "LOCATION", "URL", "STATUS", "CREATED", "LAST-MODIFIED", "PRIORITY", "COMPLETED"],
          "VCALENDAR": ["VERSION", "PRODID", "METHOD"], "VALARM": ["ACTION", "TRIGGER", "REPEAT", "DURATION"], "VTIMEZONE": ["TZID", "LAST-MODIFIED", "TZURL"],
          "STANDARD": ["TZOFFSETFROM", "TZOFFSETTO", "TZNAME", "COMMENT"], "DAYLIGHT": ["TZOFFSETFROM", "TZOFFSETTO", "TZNAME", "COMMENT"]}
MULTI = {"VEVENT": ["CATEGORIES", "ATTENDEE", "ATTACH", "X-FOO"], "VTODO": ["ATTACH", "X-FOO"], "VCALENDAR": ["X-FOO"], "VALARM": ["X-FOO"], "VTIMEZONE": ["X-FOO"], "STANDARD": ["X-FOO"]}
REQ = {"VCALENDAR": ["VERSION", "PRODID"], "VALARM": ["ACTION"], "VTIMEZONE": ["TZID"], "STANDARD": ["TZOFFSETFROM", "TZOFFSETTO"], "DAYLIGHT": ["TZOFFSETFROM", "TZOFFSETTO"]}


def value(A, name, k, alarm=False):
    """a valid line of this name"""
    w = A.text("v%d" % k)
    x = A.dt("d%d" % k, A.utc, unit=S).strftime("%Y%m%dT%H%M%SZ")
    v = {"DTSTAMP": x, "CREATED": x, "LAST-MODIFIED": x, "COMPLETED": x, "DTSTART": "20200101T00000%dZ" % k, "DTEND": "20300101T00000%dZ" % k, "DUE": "20300101T00000%dZ" % k, "DURATION": "PT%dS" % (k + 1),
         "URL": "http://%s.org" % w, "TZURL": "http://%s.org" % w, "ATTACH": "http://%s.org" % w, "STATUS": ["TENTATIVE", "CONFIRMED"][k % 2], "ORGANIZER": "mailto:%s@x.org" % w, "ATTENDEE": "mailto:%s@x.org" % w,
         "GEO": "%d.000000;2.000000" % k, "PRIORITY": str(k), "ACTION": ["AUDIO", "DISPLAY"][k % 2], "TRIGGER": "-PT%dM" % (k + 1), "REPEAT": str(k), "TZOFFSETFROM": "+0%d00" % k, "TZOFFSETTO": "-0%d00" % k}.get(name, w)
    return (name, {"VALUE": ["URI"]} if name in ("TZURL",) else {}, v)


def frame(A, kind, without=()):
    """the least lines of a valid component"""
    out = {"VEVENT": [("UID", {}, "u")], "VTODO": [("UID", {}, "u")], "VCALENDAR": [("VERSION", {}, "2.0"), ("PRODID", {}, "p")], "VALARM": [("ACTION", {}, "NONE")], "VTIMEZONE": [("TZID", {}, "z")]}.get(kind) or list(OBS)
    return [x for x in out if x[0] not in without]


def outcome(A, kind, items, how):
    """read directly, or within the components around it"""
    if how == "alone":
        return lambda: A.call(reader(A, kind), build(A, kind, items))
    if how == "populate":
        return lambda: A.call(A.get(A.call(A.ics.Event if kind == "VEVENT" else A.ics.Todo), "populate"), build(A, kind, items))
    if kind == "VALARM":
        items, kind = [("UID", {}, "u"), ("VALARM", items)], "VEVENT"
    if kind in ("STANDARD", "DAYLIGHT"):
        items, kind = [("TZID", {}, "z"), (kind, items)], "VTIMEZONE"
    if kind == "VCALENDAR":
        if how == "text":
            return lambda: A.call(A.ics.Calendar, A.call(A.get(build(A, kind, items), "serialize")))
        return lambda: A.call(A.ics.Calendar, build(A, kind, items))
    return lambda: A.call(A.ics.Calendar, build(A, "VCALENDAR", [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), (kind, [("UID", {}, "first")] if kind in ("VEVENT", "VTODO") else [("TZID", {}, "first")]), (kind, items), ("X-A", {}, "b")]))


def accept(A, kind, items, how, msg):
    v, e = A.attempt(outcome(A, kind, items, how))
    A.require(e is None, lambda: "%s: %s" % (msg, A.exc_name(e)))
    return v


def refuse(A, kind, items, how, msg):
    v, e = A.attempt(outcome(A, kind, items, how))
    A.require(e is not None, lambda: "%s is accepted" % msg)
    A.require(A.is_exc(e, ValueError), lambda: "%s is refused with %s" % (msg, A.exc_name(e)))


def extra_for(kind, name):
    if name in ("DURATION", "DTEND") and kind in ("VEVENT", "VTODO"):
        return [("DTSTART", {}, "20200101T000000Z")]
    return []


def twice(A, kind, name, how, same):
    first = value(A, name, 1)
    second = first if same else value(A, name, 2)
    n = frame(A, kind, (name,)) + extra_for(kind, name)
    accept(A, kind, n + [first], how, "a single %s" % name)
    k = A.choose(3, "place")
    items = [[first, second] + n, n + [first, second], [first] + n + [second]][k]
    refuse(A, kind, items, how, "a second %s" % name)
    refuse(A, kind, items + [first], how, "a third %s" % name)


def many(A, kind, name, how):
    k = 1 + A.choose(3, "count")
    n = frame(A, kind)
    vs = [value(A, name, i) for i in range(k)]
    o = accept(A, kind, vs[:1] + n + vs[1:], how, "%d %s" % (k, name))
    if how == "alone":
        ls = [x for x in lines(A, A.call(A.get(o, "to_container"))) if x[0] == name]
        A.require(A.text_eq(ls, vs), lambda: "%d lines %s are kept as %s" % (k, name, A.show(ls)))


def required(A, kind, name, how):
    n = frame(A, kind)
    accept(A, kind, n, how, "a complete %s" % kind)
    refuse(A, kind, [x for x in n if x[0] != name], how, "a %s without %s" % (kind, name))
    rest = [x for x in n if x[0] != name] + [(name + "X", {}, "1"), ("X-" + name, {}, "1")]
    refuse(A, kind, rest, how, "a %s without %s but similar ones" % (kind, name))
    # an earlier complete component does not make up for it
    if how == "inside" and kind == "VALARM":
        refuse(A, "VEVENT", [("UID", {}, "u"), ("VALARM", n), ("VALARM", [x for x in n if x[0] != name])], "inside", "a second %s without %s" % (kind, name))
    if how == "inside" and kind == "STANDARD":
        refuse(A, "VTIMEZONE", [("TZID", {}, "z"), ("STANDARD", n), ("STANDARD", [x for x in n if x[0] != name])], "inside", "a second %s without %s" % (kind, name))
    if how == "inside" and kind == "VTIMEZONE":
        refuse(A, "VCALENDAR", [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), ("VTIMEZONE", n), ("VTIMEZONE", [])], "inside", "a second VTIMEZONE without TZID")


D, T, Z = {"VALUE": ["DATE"]}, {}, {"VALUE": ["DATE-TIME"]}
B1, E1, DD, UU = ("DTSTART", T, "20200101T000000Z"), ("DTEND", T, "20200102T000000Z"), ("DURATION", T, "P1D"), ("DUE", T, "20200102T000000Z")
BD, ED, UD = ("DTSTART", D, "20200101"), ("DTEND", D, "20200102"), ("DUE", D, "20200102")
BL, EL, UL = ("DTSTART", T, "20200101T000000"), ("DTEND", T, "20200102T000000"), ("DUE", T, "20200102T000000")

CONFLICTS = [  # kind, lines, accepted
    ("VEVENT", [B1, E1], True), ("VEVENT", [B1, DD], True), ("VEVENT", [B1], True), ("VEVENT", [], True), ("VEVENT", [BD, ED], True), ("VEVENT", [BD, DD], True), ("VEVENT", [BD], True),
    ("VEVENT", [B1, E1, DD], False), ("VEVENT", [E1], False), ("VEVENT", [DD], False), ("VEVENT", [E1, DD], False), ("VEVENT", [B1, UU], False), ("VEVENT", [UU], False), ("VEVENT", [B1, E1, UU], False),
    ("VEVENT", [BL, EL], True), ("VEVENT", [BL, ED], False), ("VEVENT", [BD, EL], False), ("VEVENT", [BL, E1], False), ("VEVENT", [B1, EL], False), ("VTODO", [BL, UD], False), ("VTODO", [BD, UL], False), ("VTODO", [BL, UL], True),
    ("VEVENT", [BD, E1], False), ("VEVENT", [B1, ED], False), ("VEVENT", [BD, ED, DD], False), ("VEVENT", [BD, ("DURATION", T, "PT1H")], False), ("VEVENT", [ED, B1], False),
    ("VTODO", [B1, UU], True), ("VTODO", [UU], True), ("VTODO", [B1, DD], True), ("VTODO", [B1], True), ("VTODO", [], True), ("VTODO", [BD, UD], True), ("VTODO", [UD], True),
    ("VTODO", [B1, UU, DD], False), ("VTODO", [DD], False), ("VTODO", [UU, DD], False), ("VTODO", [B1, E1], False), ("VTODO", [E1], False), ("VTODO", [B1, UU, E1], False), ("VTODO", [BD, UU], False), ("VTODO", [B1, UD], False),
    ("VEVENT", [B1, ("DTEND", T, "20191231T235959Z")], False), ("VTODO", [B1, ("DUE", T, "20191231T235959Z")], False), ("VEVENT", [B1, ("DURATION", T, "-PT1S")], False),
    ("VEVENT", [B1, ("DTEND", T, "20200102T000000")], False), ("VEVENT", [("DTSTART", T, "20200101T000000"), E1], False), ("VEVENT", [B1, ("DTEND", T, "20200101T000000Z")], True),
    ("VEVENT", [("DTSTART", Z, "20200101T000000Z"), E1], True), ("VEVENT", [("DTSTART", {"VALUE": ["PERIOD"]}, "20200101T000000Z/P1D")], False), ("VEVENT", [("DTSTART", {"VALUE": ["DATE", "DATE-TIME"]}, "20200101")], False),
    ("VEVENT", [("DTSTART", {"VALUE": ["X-Y"]}, "20200101")], False), ("VTODO", [("DUE", {"VALUE": ["TEXT"]}, "20200101")], False),
]


def conflict(A, i, how):
    kind, ls, ok = CONFLICTS[i]
    orders = [ls] if len(ls) < 2 else [ls, ls[::-1]] if len(ls) == 2 else [ls, ls[::-1], ls[1:] + ls[:1], ls[-1:] + ls[:-1]]
    for o in orders:
        for items in (frame(A, kind) + o, o[:1] + frame(A, kind) + o[1:]):
            what = "a %s with %s" % (kind, " and ".join("%s%s:%s" % (x[0], "".join(";VALUE=" + ",".join(v) for v in x[1].values()), x[2]) for x in o))
            (accept if ok else refuse)(A, kind, items, how, what)


def ordered(A, kind, how):
    """symbolic begin and end: refused exactly when the end is before the begin"""
    x, y = A.dt("x", A.utc, unit=S), A.dt("y", A.utc, unit=S)
    ok = A.flag("in order")
    A.path.assume(y.pos - x.pos if ok else x.pos - y.pos - S)
    n = "DTEND" if kind == "VEVENT" else "DUE"
    items = frame(A, kind) + [("DTSTART", {}, x.strftime("%Y%m%dT%H%M%SZ")), (n, {}, y.strftime("%Y%m%dT%H%M%SZ"))]
    if A.flag("reversed"):
        items = items[::-1]
    (accept if ok else refuse)(A, kind, items, how, "an end %s the begin" % ("not before" if ok else "before"))


VT = [("SUMMARY", "TEXT", "a"), ("URL", "URI", "http://x.org"), ("ATTACH", "URI", "http://x.org"), ("ATTACH", "BINARY", "YQ=="), ("DTSTAMP", "DATE-TIME", "20200101T000000Z"), ("CATEGORIES", "TEXT", "a,b"), ("TRIGGER", "DURATION", "PT1S"),
      ("TRIGGER", "DATE-TIME", "20200101T000000Z"), ("REPEAT", "INTEGER", "1"), ("PRIORITY", "INTEGER", "1")]


def valuetypes(A, name, vt, v, how):
    kind = {"TRIGGER": "VALARM", "REPEAT": "VALARM", "PRIORITY": "VTODO"}.get(name, "VEVENT")
    n = frame(A, kind)
    more = {"ENCODING": ["BASE64"]} if vt == "BINARY" else {}
    accept(A, kind, n + [(name, dict(more, VALUE=[vt]), v)], how, "VALUE=%s for %s" % (vt, name))
    refuse(A, kind, n + [(name, {"VALUE": ["X-" + A.text("t")]}, v)], how, "an unknown value type for %s" % name)
    refuse(A, kind, n + [(name, {"VALUE": ["BOOLEAN"]}, "TRUE")], how, "a value type %s doesn't have" % name)
    refuse(A, kind, n + [(name, {"VALUE": [vt, vt]}, v)], how, "several value types for %s" % name)


def wrongname(A, kind):
    r = reader(A, kind)
    for other in ("VEVENT", "VTODO", "VCALENDAR", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "X-" + upper(A.text("o")), kind + "S", kind[:-1], "X-" + kind, kind + "-X", kind[1:], kind[0]):
        if other != kind:
            A.raises(r, build(A, other, frame(A, kind)), _msg="a %s is read from a %s" % (kind, other), _exc=ValueError)
    if kind in ("VEVENT", "VTODO"):
        o = A.call(A.ics.Event if kind == "VEVENT" else A.ics.Todo, summary="s", uid="u")
        A.raises(A.get(o, "populate"), build(A, "VTODO" if kind == "VEVENT" else "VEVENT", frame(A, kind)), _msg="populated from another kind", _exc=ValueError)
        A.require(A.get(o, "summary") == "s" and A.get(o, "uid") == "u", "changed by a refused component")
    if kind == "VCALENDAR":
        A.raises(A.ics.Calendar, build(A, "VEVENT", frame(A, kind)), _msg="a calendar is read from an event", _exc=ValueError)
        A.raises(A.ics.Calendar, A.call(A.get(build(A, "VEVENT", frame(A, kind)), "serialize")), _msg="a calendar is read from an event", _exc=ValueError)


def actions(A, n):
    acts = [("ACTION", {}, "AUDIO"), ("ACTION", {}, "DISPLAY"), ("ACTION", {}, "AUDIO"), ("ACTION", {}, A.text("act"))]
    k = A.choose(4, "first")
    items = [("TRIGGER", {}, "PT1S")] + (acts[k:] + acts[:k])[:n]
    (accept if n == 1 else refuse)(A, "VALARM", items, A.choose(["alone", "inside"], "how"), "an alarm with %d actions" % n)


def scenarios(tier):
    out = []
    for k in SINGLE:
        hows = ["alone", "inside"] + (["populate"] if k in ("VEVENT", "VTODO") else ["text"] if k == "VCALENDAR" else [])
        for n in SINGLE[k]:
            for how in hows:
                for same in (True, False):
                    out.append(Scenario("twice %s %s %s %s" % (k, n, how, same), twice, (k, n, how, same)))
        for n in MULTI.get(k, ()):
            for how in hows:
                out.append(Scenario("several %s %s %s" % (k, n, how), many, (k, n, how)))
        for n in REQ.get(k, ()):
            for how in hows:
                out.append(Scenario("without %s %s %s" % (k, n, how), required, (k, n, how)))
        out.append(Scenario("wrong name %s" % k, wrongname, (k,)))
    for i in range(len(CONFLICTS)):
        for how in ("alone", "inside", "populate"):
            out.append(Scenario("conflict %d %s" % (i, how), conflict, (i, how)))
    for k in ("VEVENT", "VTODO"):
        for how in ("alone", "inside", "populate"):
            out.append(Scenario("ordered %s %s" % (k, how), ordered, (k, how)))
    for n, vt, v in VT:
        for how in ("alone", "inside"):
            out.append(Scenario("value type %s %s %s" % (n, vt, how), valuetypes, (n, vt, v, how)))
    for n in (0, 1, 2, 3):
        out.append(Scenario("actions %d" % n, actions, (n,)))
    return out
