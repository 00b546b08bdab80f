"""An alarm is read as the class of its ACTION - any unlisted action as a custom alarm with exactly that action - wherever its lines and the
alarm itself stand, and written with exactly one ACTION line, the first one, which has that action and its parameters; each class
has the attributes of its kind only, other properties are kept as they are; triggers are relative or absolute as given."""
from .common import *
from .c14 import zone
from .c17 import lines, same_value
from .c18 import build, same_lines

STD = {"AUDIO": "AudioAlarm", "DISPLAY": "DisplayAlarm", "EMAIL": "EmailAlarm", "NONE": "NoneAlarm"}
ATTRS = {"AudioAlarm": ["attach"], "DisplayAlarm": ["description"], "EmailAlarm": ["summary", "description", "attendees", "attach"], "NoneAlarm": [], "CustomAlarm": []}


def actions(A, k):
    w = A.text("w")
    return ["AUDIO", "DISPLAY", "EMAIL", "NONE", "X-" + w, w, "AUDIOX", "PROCEDURE", "DISPLAY-" + w, "EMAI", "display", "Audio", "NONE ", "eMAIL", ""][k]


NA = 15


def cls_for(a):
    return STD.get(a, "CustomAlarm") if isinstance(a, str) else "CustomAlarm"


def props(A):
    w = A.text("p")
    return [("TRIGGER", {}, "-PT15M"), ("DESCRIPTION", {}, w), ("SUMMARY", {}, w), ("ATTENDEE", {}, "mailto:%s@x.org" % w), ("ATTACH", {}, "http://%s.org" % w), ("X-OTHER", {"P": [w]}, w), ("DURATION", {}, "PT5M"), ("REPEAT", {}, "2")]


def get_alarms(A, place, als):
    """the alarms of that calendar, read"""
    if place == "alone":
        return [A.call(A.get(A.mod("ics.alarm").BaseAlarm, "from_container"), build(A, "VALARM", a)) for a in als]
    if place == "class":
        return [A.call(A.get(getattr(A.mod("ics.alarm"), cls_for(next(x[2] for x in a if x[0] == "ACTION"))), "from_container"), build(A, "VALARM", a)) for a in als]
    if place == "populate":
        out = []
        for a in als:
            o = A.call(getattr(A.mod("ics.alarm"), cls_for(next(x[2] for x in a if x[0] == "ACTION"))))
            A.call(A.get(o, "populate"), build(A, "VALARM", a))
            out.append(o)
        return out
    kind = "VEVENT" if "event" in place else "VTODO"
    e = (kind, [("UID", {}, "u"), ("DTSTAMP", {}, "20200101T000000Z")] + [("VALARM", a) for a in als[:1]] + [("SUMMARY", {}, "s")] + [("VALARM", a) for a in als[1:]])
    c = build(A, "VCALENDAR", [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), e])
    cal = A.call(A.ics.Calendar, c if "text" not in place else A.call(A.get(c, "serialize")))
    return list(A.get(A.iter(A.get(cal, "events" if kind == "VEVENT" else "todos"))[0], "alarms"))


def check(A, o, a, items):
    """object o read from items with action a"""
    cls = getattr(A.mod("ics.alarm"), cls_for(a))
    A.require(o._c.name == cls_for(a), lambda: "an alarm with action %s is read as %s" % (a, o._c.name))
    A.require(A.text_eq(A.get(o, "action"), a), lambda: "action %s becomes %s" % (a, A.show(A.get(o, "action"))))
    w = A.text("p")
    td = A.get(o, "trigger")
    A.must_eq(td, A.td_of(seconds=-900), "trigger")
    A.must_eq(A.get(o, "duration"), A.td_of(seconds=300), "duration")
    A.require(A.get(o, "repeat") == 2, "repeat")
    for n in ATTRS[cls_for(a)]:
        v = A.get(o, n)
        if n in ("summary", "description"):
            A.require(A.text_eq(v, w), n)
        elif n == "attendees":
            A.require(len(v) == 1 and A.text_eq(A.call(A.get(A.get(v[0], "email"), "geturl")), "mailto:%s@x.org" % w), "attendees: " + A.show(v))
        elif cls_for(a) == "EmailAlarm":
            A.require(len(v) == 1, "attachments")
    have = {"TRIGGER", "DURATION", "REPEAT", "ACTION"} | {{"attendees": "ATTENDEE"}.get(n, n.upper()) for n in ATTRS[cls_for(a)]}
    rest = [x for x in items if x[0] not in have]
    A.require(A.text_eq(lines(A, A.get(o, "extra")), rest), lambda: "kept lines: %s" % A.show(A.get(o, "extra")))
    c = A.call(A.get(o, "to_container"))
    A.require(A.get(c, "name") == "VALARM", "written as " + A.show(A.get(c, "name")))
    got = lines(A, c)
    same_lines(A, got, items, "alarm")
    A.require(got[0][0] == "ACTION" and sum(1 for x in got if x[0] == "ACTION") == 1, lambda: "the lines are %s" % [x[0] for x in got])


def read(A, place, k, at, params):
    a = actions(A, k)
    items = props(A)
    items.insert(at, ("ACTION", {"X-P": [A.text("q"), "r"]} if params else {}, a))
    o = get_alarms(A, place, [items])
    A.require(len(o) == 1, "%d alarms are read" % len(o))
    check(A, o[0], a, items)
    if place not in ("class", "populate"):
        # and again
        b = get_alarms(A, place, [lines(A, A.call(A.get(o[0], "to_container")))])
        check(A, b[0], a, items)


def several(A, place, ks):
    als = []
    for i, k in enumerate(ks):
        items = props(A)
        items.insert((i * 3) % 8, ("ACTION", {}, actions(A, k)))
        als.append(items)
    o = get_alarms(A, place, als)
    A.require(len(o) == len(ks), "%d alarms are read" % len(o))
    for x, k, items in zip(o, ks, als):
        check(A, x, actions(A, k), items)


def refused(A, place):
    k = A.choose(["none", "two", "twice"])
    items = props(A)
    if k != "none":
        items.insert(2, ("ACTION", {}, "AUDIO"))
        items.append(("ACTION", {}, "AUDIO" if k == "twice" else "DISPLAY"))
    _, e = A.attempt(get_alarms, A, place, [items])
    A.require(e is not None and A.is_exc(e, ValueError), lambda: "an alarm with %s action lines %s" % (k, "is accepted" if e is None else "is refused with " + A.exc_name(e)))


def made(A, k, where):
    """constructed alarms"""
    w = A.text("w")
    cls = ["AudioAlarm", "DisplayAlarm", "EmailAlarm", "NoneAlarm", "CustomAlarm"][k]
    act = ["AUDIO", "DISPLAY", "EMAIL", "NONE", "X-" + w][k]
    trig = A.choose(["td", "dt", "known", "none"])
    tv = {"td": lambda: A.td("t", -86400, 86400, S), "dt": lambda: A.dt("d", A.utc, unit=S), "known": lambda: A.dt("d", zone(A, "known"), unit=S), "none": lambda: None}[trig]()
    kw = {"trigger": tv}
    if cls == "CustomAlarm":
        kw["action"] = act
    if cls in ("DisplayAlarm", "EmailAlarm"):
        kw["description"] = w
    o = A.call(getattr(A.mod("ics.alarm"), cls), **kw)
    A.require(A.text_eq(A.get(o, "action"), act), "action")
    A.raises(A.set, o, "action", "OTHER", _msg="the action can be changed", _exc=AttributeError)
    if where == "alone":
        c = A.call(A.get(o, "to_container"))
    else:
        e = A.call(A.ics.Event if where == "event" else A.ics.Todo, alarms=[A.call(A.ics.NoneAlarm), o], uid="u", dtstamp=A.dt("st", A.utc, unit=S))
        c = [x for x in A.iter(A.call(A.get(e, "to_container"))) if A.isinstance(x, A.ics.Container)]
        A.require(len(c) == 2, "alarms written: %d" % len(c))
        A.require(A.text_eq(lines(A, c[0]), [("ACTION", {}, "NONE")]), "the other alarm")
        c = c[1]
    got = lines(A, c)
    A.require(A.text_eq(got[0], ("ACTION", {}, act)) and sum(1 for x in got if x[0] == "ACTION") == 1, lambda: "lines %s" % got)
    t = [x for x in got if x[0] == "TRIGGER"]
    if trig == "none":
        A.require(not t, "a trigger is written")
    elif trig == "td":
        A.require(len(t) == 1 and not t[0][1], lambda: "trigger %s" % t)
    else:
        want = {"VALUE": ["DATE-TIME"]}
        if trig == "known":
            want["TZID"] = [BUILTIN + "K"]
        A.require(len(t) == 1 and A.text_eq(t[0][1], want), lambda: "trigger %s" % t)
        A.require(A.text_eq(t[0][2], tv.strftime("%Y%m%dT%H%M%S") + ("Z" if trig == "dt" else "")), lambda: "trigger %s" % t)
    A.require({x[0] for x in got} <= {"ACTION", "TRIGGER"} | ({"DESCRIPTION"} if "description" in kw else set()), lambda: "lines %s" % got)
    b = A.call(A.get(A.mod("ics.alarm").BaseAlarm, "from_container"), build(A, "VALARM", got))
    A.require(b._c.name == cls and A.text_eq(A.get(b, "action"), act), "read as another alarm")
    same_value(A, A.get(b, "trigger"), tv, "trigger") if trig != "known" else A.must_eq(A.get(b, "trigger").replace(tzinfo=None), tv.replace(tzinfo=None), "trigger")


def trigger(A, k):
    """forms of triggers"""
    x = A.dt("x", A.utc, unit=S)
    td = A.td("t", 0, 86400 * 30, S)
    f = x.strftime("%Y%m%dT%H%M%SZ")
    p, v, want = [({}, "-PT15M", -900), ({"VALUE": ["DURATION"]}, "PT1H", 3600), ({"RELATED": ["END"]}, "-P1D", -86400), ({"VALUE": ["DATE-TIME"]}, f, x), ({"RELATED": ["START"], "VALUE": ["DURATION"]}, "P1W", 604800), ({}, f, None),
                  ({"VALUE": ["DATE"]}, "20200101", None), ({"VALUE": ["DATE-TIME"]}, "-PT15M", None), ({}, A.text("w"), None), ({"VALUE": ["TEXT"]}, "PT1H", None)][k]
    o, e = A.attempt(A.get(A.mod("ics.alarm").BaseAlarm, "from_container"), build(A, "VALARM", [("TRIGGER", p, v), ("ACTION", {}, "DISPLAY"), ("DESCRIPTION", {}, "d")]))
    if want is None:
        A.require(e is not None and A.is_exc(e, ValueError), lambda: "trigger %s %s" % (v, "is accepted" if e is None else "is refused with " + A.exc_name(e)))
        return
    A.require(e is None, lambda: "trigger %s is refused: %s" % (v, A.exc_name(e)))
    A.must_eq(A.get(o, "trigger"), A.td_of(seconds=want) if isinstance(want, int) else want, "trigger")
    t = [y for y in lines(A, A.call(A.get(o, "to_container"))) if y[0] == "TRIGGER"]
    keep = {n: q for n, q in p.items() if n != "VALUE"}
    if k == 3:
        keep["VALUE"] = ["DATE-TIME"]
    A.require(len(t) == 1 and A.text_eq(t[0][1], keep), lambda: "trigger is written as %s" % t)


def dispatch(A):
    """classes for actions"""
    f = A.mod("ics.alarm").get_type_from_action
    for k in range(NA):
        a = actions(A, k)
        A.require(A.call(f, a).name == cls_for(a), lambda: "class for %s" % a)
    A.raises(A.mod("ics.alarm").BaseAlarm, _msg="alarms of no kind can be made", _exc=TypeError)


def scenarios(tier):
    out = []
    for k in range(NA):
        for place in ("alone", "class", "populate", "event", "todo", "event text"):
            for at in ((0, 3, 8) if tier == "quick" else range(9)):
                for p in (False, True):
                    out.append(Scenario("read %s %d at %d %s" % (place, k, at, p), read, (place, k, at, p)))
    for place in ("alone", "event", "todo", "todo text"):
        for ks in ((0, 1), (1, 1), (4, 5), (5, 0, 4), (2, 3, 1, 0), (3, 6, 2)):
            out.append(Scenario("several %s %s" % (place, ks), several, (place, ks)))
    for place in ("alone", "event", "todo", "event text"):
        out.append(Scenario("refused %s" % place, refused, (place,)))
    for k in range(5):
        for w in ("alone", "event", "todo"):
            out.append(Scenario("made %d %s" % (k, w), made, (k, w)))
    for k in range(10):
        out.append(Scenario("trigger %d" % k, trigger, (k,)))
    out.append(Scenario("dispatch", dispatch, ()))
    return out
