"""What attributes may hold: statuses are one of the defined ones in upper case, UTC attributes are in UTC with the given instant,
priorities and percentages are in range, typed attributes have their type, lists are lists of their own."""
from .common import *
from .c14 import zone
from .c27 import base, cls_of

STATUS = ["TENTATIVE", "CONFIRMED", "CANCELLED"]


def put(A, cls, field, v, how):
    """object with that attribute or the exception"""
    c = cls_of(A, cls)
    if how == "init":
        kw = base(A, cls)
        kw[field] = v
        return A.attempt(c, **kw)
    o = A.call(c, **base(A, cls))
    before = observe(A, o)
    _, e = A.attempt(A.set, o, field, v)
    if e is not None:
        unchanged(A, before, o, "after a refused assignment")
    return (o if e is None else None), e


def refused(A, e, msg):
    A.require(e is not None, lambda: "%s is accepted" % msg)
    A.require(A.is_exc(e, ValueError) or A.is_exc(e, TypeError), lambda: "%s is refused with %s" % (msg, A.exc_name(e)))


def status(A, cls, how):
    k = A.choose(["upper", "lower", "mixed", "none", "word", "empty", "padded", "prefix", "number"])
    s = A.choose(STATUS)
    v = {"upper": s, "lower": s.lower(), "mixed": s.capitalize(), "none": None, "word": A.text("w"), "empty": "", "padded": s + " ", "prefix": s[:5], "number": 3}[k]
    o, e = put(A, cls, "status", v, how)
    if k in ("upper", "lower", "mixed", "none"):
        A.require(e is None, lambda: "status %s is refused" % v)
        A.require(A.get(o, "status") == (None if v is None else s), lambda: "status %s is stored as %s" % (v, A.show(A.get(o, "status"))))
    else:
        refused(A, e, "status %s" % A.show(v))


def utc(A, cls, field, z, how):
    x = A.dt("x", zone(A, z) if z != "own" else A.call(A.get(A.ics.Timezone, "from_tzid"), "Known/K"), unit=S)
    o, e = put(A, cls, field, x, how)
    A.require(e is None, lambda: "%s is refused" % field)
    g = A.get(o, field)
    A.require(A.call(A.mod("ics.timezone").is_utc, g) is True and g.tzinfo is not None, lambda: "%s is not in UTC" % field)
    A.require(inst(g) == inst(x) or A.path.known_eq(inst(g) - inst(x)), lambda: "%s is stored as another instant" % field)


def utc_forms(A, cls, field, how):
    D = A.mod("datetime")
    k = A.choose(["none", "date", "tuple", "dict", "word", "number", "duration", "list"])
    m = midnight(A, "m")
    v = {"none": None, "date": dt.date.of(m.pos), "tuple": (2020, 1, 2, 3), "dict": {"year": 2020, "month": 1, "day": 2, "hour": 3}, "word": A.text("w"), "number": 5, "duration": A.td_of(seconds=3), "list": [2020, 1, 2]}[k]
    o, e = put(A, cls, field, v, how)
    if k == "none" and field == "dtstamp" or k in ("word", "number", "duration", "list"):
        refused(A, e, "%s = %s" % (field, A.show(v)))
        return
    A.require(e is None, lambda: "%s = %s is refused" % (field, A.show(v)))
    g = A.get(o, field)
    if k == "none":
        A.require(g is None, "nothing is stored as something")
        return
    want = {"date": m, "tuple": dt.datetime(2020, 1, 2, 3), "dict": dt.datetime(2020, 1, 2, 3)}[k]
    if field == "completed":
        same_dt(A, g, want, field)
        return
    A.require(A.call(A.mod("ics.timezone").is_utc, g) is True, lambda: "%s is not in UTC" % field)
    A.require(A.path.known_eq(inst(g) - inst(want)), lambda: "%s is another instant" % field)


def bounded(A, cls, field, lo, hi, how):
    v = A.num("v", -1000, 1000)
    inside = A.path.ge0(v.lin - lo) and A.path.ge0(-v.lin + hi) if hasattr(v, "lin") else (v >= lo) and (v <= hi)
    o, e = put(A, cls, field, v, how)
    if inside:
        A.require(e is None, lambda: "%s within %d..%d is refused" % (field, lo, hi))
        A.must_eq(A.get(o, field), v, field)
    else:
        refused(A, e, "%s outside %d..%d" % (field, lo, hi))


def bounded_kinds(A, cls, field, how):
    k = A.choose([None, "5", "", (1, 2), [1]])
    o, e = put(A, cls, field, k, how)
    if k is None:
        A.require(e is None and A.get(o, field) is None, "nothing is refused")
    else:
        refused(A, e, "%s = %r" % (field, k))


GOOD = {"classification": ["text", None], "organizer": ["organizer", None], "version": ["text"], "prodid": ["text"], "trigger": ["td", "dt", None], "extra": ["container"], "extra_params": ["dict"]}


def typed(A, cls, field, how):
    w = A.text("w")
    vals = {"text": w, None: None, "organizer": A.call(A.ics.Organizer, w + "@x.org"), "attendee": A.call(A.ics.Attendee, w + "@x.org"), "td": A.td_of(seconds=5), "dt": A.dt("d", A.utc, unit=S), "number": 5,
            "date": dt.date.of(midnight(A, "m").pos), "container": A.call(A.ics.Container, "VEVENT"), "dict": {}, "list": [], "octets": A.octets("o"), "time": A.call(A.mod("datetime").time, 1)}
    k = A.choose(list(vals))
    o, e = put(A, cls, field, vals[k], how)
    if k in GOOD[field]:
        A.require(e is None, lambda: "%s = %s is refused" % (field, k))
        A.require(A.get(o, field) is vals[k] or same_state(A, observe(A, A.get(o, field)), observe(A, vals[k])), lambda: "%s is stored as something else" % field)
    else:
        refused(A, e, "%s = %s" % (field, k))


def geo(A, cls, how):
    a, b = A.afloat("a"), A.afloat("b")
    v, good = A.choose([((a, b), True), ({"latitude": a, "longitude": b}, True), ({"longitude": b, "latitude": a}, True), ("geo", True), (None, True), ((a,), False), ((a, b, a), False), ({"latitude": a}, False), ({"lat": a, "lon": b}, False)])
    if v == "geo":
        v = A.call(A.mod("ics.geo").Geo, a, b)
    o, e = put(A, cls, "geo", v, how)
    if not good:
        refused(A, e, "geo = %s" % A.show(v))
        return
    A.require(e is None, "a position is refused")
    g = A.get(o, "geo")
    if v is None:
        A.require(g is None, "no position")
    else:
        A.require(A.get(g, "latitude") is a and A.get(g, "longitude") is b, lambda: "position %s is stored as %s" % (A.show(v), A.show(g)))


def origin(A, how):
    """positions on the equator and the prime meridian"""
    for v in ((0, 0), (0.0, 0.0), (-0.0, 0.0), (0, 5), (5.5, 0)):
        for form in (v, {"latitude": v[0], "longitude": v[1]}, A.call(A.mod("ics.geo").Geo, *v)):
            o, e = put(A, "Event", "geo", form, how)
            A.require(e is None, "a position is refused")
            g = A.get(o, "geo")
            A.require(g is not None and A.get(g, "latitude") == v[0] and A.get(g, "longitude") == v[1], lambda: "position %s is stored as %s" % (v, A.show(g)))


def lists(A, cls, field, how):
    w = A.text("w")
    items = {"alarms": lambda: A.call(A.ics.DisplayAlarm, description=w), "attach": lambda: A.octets("o"), "attendees": lambda: A.call(A.ics.Attendee, w + "@x.org"), "categories": lambda: w,
             "events": lambda: A.call(A.ics.Event, uid=w, dtstamp=A.dt("st", A.utc, unit=S)), "todos": lambda: A.call(A.ics.Todo, uid=w, dtstamp=A.dt("st", A.utc, unit=S))}
    xs = [items[field]() for _ in range(A.choose([0, 1, 2, 3]))]
    form = A.choose(["list", "tuple", "generator", "iterator", "dict"])
    arg = {"list": lambda: list(xs), "tuple": lambda: tuple(xs), "generator": lambda: A.call(A.module("user_gen", "def gen(xs):\n    for x in xs:\n        yield x\n").gen, xs), "iterator": lambda: iter(list(xs)), "dict": lambda: {k: k for k in xs} if field == "categories" and len(xs) < 2 else list(xs)}[form]()
    o, e = put(A, cls, field, arg, how)
    A.require(e is None, lambda: "a %s is refused as %s" % (form, field))
    g = A.get(o, field)
    A.require(isinstance(g, list), "not stored as a list")
    A.require(g is not arg, "the given list itself is stored")
    A.require(len(g) == len(xs) and all(p is q or A.text_eq(p, q) for p, q in zip(g, xs)), "other items are stored")
    o2, e2 = put(A, cls, field, A.choose([5, True]), how)
    refused(A, e2, "%s = 5" % field)


def span_type(A, cls, how):
    k = A.choose(["span", "event", "todo", None, "begin"])
    v = A.call(getattr(A.ics, CLS[k]), A.dt("b", A.utc, unit=S)) if k in CLS else None if k is None else A.dt("b", A.utc, unit=S)
    kw = base(A, cls)
    kw["timespan"] = v
    if how == "init":
        o, e = A.attempt(cls_of(A, cls), **kw)
    else:
        o, e = put(A, cls, "timespan", v, how)
    if k == cls.lower():
        A.require(e is None and A.get(o, "timespan") is v, "a span of that kind is refused")
    else:
        refused(A, e, "a %s with the span %s" % (cls, k))


def both(A, cls):
    """explicit span together with parts of it"""
    x = A.dt("b", A.utc, unit=S)
    kw = base(A, cls)
    kw["timespan"] = A.call(getattr(A.ics, CLS[cls.lower()]), x)
    f = A.choose(["begin", "end" if cls == "Event" else "due", "duration"])
    kw[f] = A.td_of(seconds=A.choose([60, 0])) if f == "duration" else x
    _, e = A.attempt(cls_of(A, cls), **kw)
    refused(A, e, "a span together with %s" % f)


def defaults(A, cls):
    """what is not given"""
    o = A.call(cls_of(A, cls))
    u, st = A.get(o, "uid"), A.get(o, "dtstamp")
    A.require(isinstance(u, str), "no UID")
    A.require(A.call(A.mod("ics.timezone").is_utc, st) is True, "DTSTAMP is not in UTC")
    for n in ("summary", "description", "location", "url", "status", "created", "last_modified") + (("classification", "transparent", "organizer", "geo") if cls == "Event" else ("percent", "priority", "completed")):
        A.require(A.get(o, n) is None, lambda: "%s is set" % n)
    for n in ("alarms", "attach") + (("attendees", "categories") if cls == "Event" else ()):
        A.require(len(A.get(o, n)) == 0, lambda: "%s is not empty" % n)
    check_entry(A, o, Span(cls.lower()), "new entry")


def helper(A, cls):
    """add_attendee takes attendees only"""
    o = A.call(cls_of(A, cls), **base(A, cls))
    a = A.call(A.ics.Attendee, A.text("w") + "@x.org")
    A.call(A.get(o, "add_attendee"), a)
    A.require(len(A.get(o, "attendees")) == 1 and A.get(o, "attendees")[0] is a, "the attendee is not added")
    before = observe(A, o)
    v = A.choose([0, 1, 2, 3])
    _, e = A.attempt(A.get(o, "add_attendee"), [None, A.text("w"), A.call(A.ics.Organizer, "o@x.org"), [a]][v])
    refused(A, e, "an attendee that is none")
    unchanged(A, before, o, "after the refused attendee")


def alarm_duration(A, cls, how):
    k = A.choose(["none", "td", "tuple", "dict", "word", "number", "dt"])
    t = A.td("t", 0, 1000, S)
    v, want = {"none": (None, None), "td": (t, t), "tuple": ((1, 30), dt.timedelta(1, 30)), "dict": ({"hours": 3}, dt.timedelta(hours=3)), "word": (A.text("w"), 0), "number": (5, 0), "dt": (A.dt("d", A.utc), 0)}[k]
    o, e = put(A, cls, "duration", v, how)
    if want == 0 and isinstance(want, int):
        refused(A, e, "duration = %s" % k)
    else:
        A.require(e is None, lambda: "duration = %s is refused" % k)
        same_td(A, A.get(o, "duration"), want, "duration")


def scenarios(tier):
    out = []
    for how in ("init", "set"):
        for c in ("Event", "Todo"):
            out.append(Scenario("status %s %s" % (c, how), status, (c, how)))
            for f in ("created", "last_modified", "dtstamp"):
                for z in ("utc", "duutc", "A", "known", "own", None, "local"):
                    out.append(Scenario("utc %s.%s %s %s" % (c, f, z, how), utc, (c, f, z, how)))
            for f in ("created", "last_modified", "dtstamp") + (("completed",) if c == "Todo" else ()):
                out.append(Scenario("forms %s.%s %s" % (c, f, how), utc_forms, (c, f, how)))
            for f in ("alarms", "attach") + (("attendees", "categories") if c == "Event" else ()):
                out.append(Scenario("list %s.%s %s" % (c, f, how), lists, (c, f, how)))
            out.append(Scenario("span %s %s" % (c, how), span_type, (c, how)))
        for f in ("events", "todos"):
            out.append(Scenario("list Calendar.%s %s" % (f, how), lists, ("Calendar", f, how)))
        for f, hi in (("priority", 9), ("percent", 100)):
            out.append(Scenario("range %s %s" % (f, how), bounded, ("Todo", f, 0, hi, how)))
            out.append(Scenario("range kinds %s %s" % (f, how), bounded_kinds, ("Todo", f, how)))
        for c, f in (("Event", "classification"), ("Event", "organizer"), ("Calendar", "version"), ("Calendar", "prodid"), ("DisplayAlarm", "trigger"), ("EmailAlarm", "trigger"), ("MyAlarm", "trigger")):
            out.append(Scenario("type %s.%s %s" % (c, f, how), typed, (c, f, how)))
        out.append(Scenario("geo %s" % how, geo, ("Event", how)))
        out.append(Scenario("origin %s" % how, origin, (how,)))
        for c in ("AudioAlarm", "DisplayAlarm", "EmailAlarm", "NoneAlarm", "CustomAlarm", "MyAlarm"):
            out.append(Scenario("alarm duration %s %s" % (c, how), alarm_duration, (c, how)))
    for c in ("Event", "Todo", "Calendar", "DisplayAlarm"):
        for f in ("extra", "extra_params"):
            out.append(Scenario("type %s.%s" % (c, f), typed, (c, f, "set")))
    for c in ("Event", "Todo"):
        out.append(Scenario("defaults %s" % c, defaults, (c,)))
        out.append(Scenario("both %s" % c, both, (c,)))
    for c in ("Event", "EmailAlarm"):
        out.append(Scenario("add_attendee %s" % c, helper, (c,)))
    return out
