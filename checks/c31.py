"""A clone has the class, attributes, parameters and unknown lines of its original, is written as the same lines and is independent of
it: changing the attributes, lists, parameters or unknown lines of one doesn't reach the other.  Cloning changes nothing."""
from .common import *
from .c17 import lines
from .c18 import base, build, reader
from .c20 import NV, mutables, variant
from .c21 import subject
from .c27 import USER

KINDS = ("VEVENT", "VTODO", "event", "todo", "calendar", "alarm", "timezone", "builtin")
OWN_LISTS = ("alarms", "attach", "attendees", "categories", "events", "todos")


def extras(A):
    w = A.text("ew")
    return [("X-ONE", {"P": [w, "b"]}, w), ("X-SUB", [("X-IN", {"Q": ["1"]}, w), ("X-DEEP", [("Y", {}, w)])]), ("X-ONE", {}, "again")]


def make(A, kind, v):
    if kind in ("my event", "my todo"):
        cls = getattr(A.module("user_classes", USER), "My" + kind[3:].capitalize())
        o = A.call(cls, summary=A.text("s"), uid="u", begin=A.dt("b", known_zone(A), unit=S), duration=A.td_of(seconds=60))
    elif kind in ("VCALENDAR", "VALARM", "VTIMEZONE", "STANDARD"):
        return A.call(reader(A, kind), build(A, kind, base(A, kind, v) + extras(A)))
    elif kind == "span only":
        return A.call(A.ics.Event, begin=A.dt("b", A.utc, unit=S), end=A.dt("b", A.utc, unit=S) + A.td("l", 0, 86400, S))
    else:
        o = subject(A, kind, v)
    for x in extras(A):
        A.call(A.get(A.get(o, "extra"), "append"), A.get(build(A, "W", [x]), "data")[0])
    A.get(o, "extra_params").update({"X-OWN": {"A": ["1"]}, "X-OWNS": [{"A": ["1"]}, {"__merge_next": ["TRUE"]}]})
    return o


def all_fields(A, o):
    return [f.name for f in A.call(A.mod("attr").fields, o._c)]


def exact(A, kind, v, times):
    o = make(A, kind, v)
    if kind == "span only":
        A.set(A.get(o, "extra"), "name", "X-RENAMED")
    before = observe(A, o)
    text, e1 = A.attempt(A.get(o, "to_container"))
    c = o
    for _ in range(times):
        c = A.call(A.get(c, "clone"))
    unchanged(A, before, o, "cloning changes the original")
    A.require(c is not o, "the clone is the object itself")
    A.require(c._c is o._c, lambda: "the clone of a %s is a %s" % (o._c.name, c._c.name))
    after = observe(A, c)
    A.require(same_state(A, before, after), lambda: "the clone differs: %s" % "; ".join(differences(A, before, after)[:3]))
    # the same elements (the copy is shallow)
    for n in all_fields(A, o):
        x, y = A.get(o, n), A.get(c, n)
        if isinstance(x, list):
            A.require(len(x) == len(y) and all(a is b or same_state(A, a, b) and isinstance(a, (str, bytes)) for a, b in zip(x, y)), lambda: "%s has other elements" % n)
            if n in OWN_LISTS and "alarm" not in kind.lower():
                A.require(x is not y, lambda: "the list %s is shared" % n)
    ex, ey = {}, {}
    for d, t in ((ex, o), (ey, c)):
        mutables(A, A.get(t, "extra"), d)
        mutables(A, A.get(t, "extra_params"), d)
    A.require(len(ex) > 1 and not [i for i in ex if i in ey], "unknown lines or parameters are shared")
    # written alike
    text2, e2 = A.attempt(A.get(c, "to_container"))
    A.require((e1 is None) == (e2 is None), "one of them can't be written")
    if e1 is None:
        A.require(A.get(text, "name") == A.get(text2, "name"), lambda: "a %s's clone is written as %s" % (A.get(text, "name"), A.get(text2, "name")))
        A.require(A.text_eq(lines(A, text), lines(A, text2)), lambda: "the clone is written as %s instead of %s" % (A.show(lines(A, text2)), A.show(lines(A, text))))


def changes(A, o, how, kind):
    """every kind of change of o that its class allows"""
    if how == "extra":
        ex = A.get(o, "extra")
        for x in list(A.iter(ex)):
            if A.isinstance(x, A.ics.Container):
                A.call(A.get(x, "append"), A.call(A.ics.ContentLine, "SPOILT", {}, "1"))
                for y in list(A.iter(x)):
                    if A.isinstance(y, A.ics.ContentLine):
                        A.set(y, "value", "spoilt")
                        A.get(y, "params")["SPOILT"] = ["1"]
            else:
                A.set(x, "value", "spoilt")
                for p in A.get(x, "params").values():
                    p.append("spoilt")
                A.get(x, "params")["SPOILT"] = ["1"]
        A.call(A.get(ex, "append"), A.call(A.ics.ContentLine, "SPOILT", {}, "1"))
        A.call(A.get(ex, "pop"), 0)
    elif how == "extra_params":
        def spoil(x):
            for y in (x.values() if isinstance(x, dict) else x):
                if isinstance(y, (dict, list)):
                    spoil(y)
            if isinstance(x, dict):
                x["SPOILT"] = ["1"]
            else:
                x.append({"S": ["1"]} if x and isinstance(x[0], dict) else "spoilt")
        spoil(A.get(o, "extra_params"))
    elif how == "strip":
        A.call(A.get(o, "strip_extras"), all_extras=True)
    elif how == "clear":
        A.call(A.get(A.get(o, "extra"), "clear"))
        A.get(o, "extra_params").clear()
    elif how == "lists":
        for n in OWN_LISTS:
            l, e = A.attempt(A.get, o, n)
            if e is None and isinstance(l, list):
                l.append("spoilt")
                l.reverse()
    elif how == "attributes":
        for n, v in (("summary", "changed"), ("description", "changed"), ("uid", "changed"), ("status", "CANCELLED"), ("begin", A.dt("nb", A.utc, unit=S)), ("repeat", 7), ("trigger", A.td_of(seconds=77)), ("prodid", "changed"), ("method", "changed"),
                     ("categories", ["changed"]), ("attendees", []), ("alarms", []), ("events", []), ("todos", []), ("attach", []), ("geo", None), ("created", A.dt("cr", A.utc, unit=S))):
            if n in all_fields(A, o) or n == "begin" and "timespan" in all_fields(A, o):
                if n == "begin":
                    A.attempt(A.set, o, "end", None)
                    A.attempt(A.set, o, "due", None)
                A.attempt(A.set, o, n, v)
    elif how == "operations":
        for n, a in (("make_all_day", ()), ("convert_end", ("duration",)), ("extend_duration", (A.td_of(seconds=5000000),)), ("add_attendee", (A.call(A.ics.Attendee, "mailto:z@x.org"),)), ("normalize", (A.utc,) if kind != "calendar" else (A.call(A.mod("ics.timeline").Normalization, A.utc, "replace", "convert"),)),
                     ("populate", (build(A, A.get(o, "NAME"), [("SUMMARY", {}, "changed"), ("X-NEW", {}, "1"), ("ACTION", {}, "AUDIO"), ("VERSION", {}, "2.0"), ("PRODID", {}, "q")]),))):
            f, e = A.attempt(A.get, o, n)
            if n == "normalize" and kind == "calendar" or "alarm" in kind.lower() and n == "add_attendee":
                continue  # reaches the elements, or the lists of an alarm, that are shared (the copy is shallow)
            if e is None:
                A.attempt(f, *a)


HOW = ("extra", "extra_params", "strip", "clear", "lists", "attributes", "operations")


def independent(A, kind, v, how, which):
    o = make(A, kind, v)
    c = A.call(A.get(o, "clone"))
    if which == "deep":  # a clone of the clone
        o, c = c, A.call(A.get(c, "clone"))
    other, mine = (o, c) if which != "original" else (c, o)
    if how == "lists" and "alarm" in kind.lower():
        return A.require(True, "the lists of an alarm are shared (the copy is shallow)")
    before = observe(A, other)
    was = observe(A, mine)
    changes(A, mine, how, kind)
    if how in ("extra", "extra_params", "clear", "strip"):
        A.require(not same_state(A, was, observe(A, mine)), "nothing was changed")
    unchanged(A, before, other, "changing %s of the %s reaches the %s" % (how, "original" if which == "original" else "clone", "clone" if which == "original" else "original"))


def calendar(A):
    """the timeline of a cloned calendar is its own"""
    cal = subject(A, "calendar", 2)
    c = A.call(A.get(cal, "clone"))
    A.set(cal, "events", [])
    A.require(len(A.iter(A.call(A.get(A.get(c, "timeline"), "iterator")))) == len(A.get(c, "events")), "the clone's timeline shows the original's events")
    A.require(not A.iter(A.call(A.get(A.get(cal, "timeline"), "iterator"))), "the original's timeline shows the clone's events")
    e = A.get(c, "events")[0]
    A.require(any(e is x for x in A.iter(A.get(c, "timeline"))), "the clone's events are copies")


def zone(A):
    """a cloned zone answers as the original, without asking it"""
    z = subject(A, "timezone", 0)
    c = A.call(A.get(z, "clone"))
    x = A.dt("x", None, unit=S)
    for n in ("utcoffset", "dst", "tzname"):
        a, b = A.call(A.get(z, n), x), A.call(A.get(c, n), x)
        A.require((a is None) == (b is None) and (a is None or A.eq(a, b)), lambda: n + " differs")
    for n in ("tzid", "observances", "extra"):
        A.raises(A.set, c, n, A.get(c, n), _msg="a cloned zone can be changed")


def copied(A, kind, v, how):
    """the copy module: as the original; a deep copy shares nothing that can be changed"""
    o = make(A, kind, v)
    M = A.module("copying", "from copy import copy, deepcopy")
    before = observe(A, o)
    text, e1 = A.attempt(A.get(o, "to_container"))
    c = A.call(getattr(M, "copy" if how == "copy" else "deepcopy"), o)
    unchanged(A, before, o, "copying changes the original")
    A.require(c is not o and c._c is o._c, "not a copy")
    if how == "copy":
        A.require(same_state(A, before, observe(A, c)), lambda: "the copy differs: %s" % "; ".join(differences(A, before, observe(A, c))[:3]))
    A.require(A.eq(o, c) and A.eq(c, o), "the copy isn't equal")
    text2, e2 = A.attempt(A.get(c, "to_container"))
    A.require((e1 is None) == (e2 is None) and (e1 is not None or A.text_eq(lines(A, text), lines(A, text2))), "the copy is written differently")
    if how == "copy":
        return
    x, y = {}, {}
    mutables(A, o, x)
    mutables(A, c, y)
    A.require(len(x) == len(y) and not [i for i in x if i in y], lambda: "the copy shares %s" % [x[i][0] for i in x if i in y][:3])
    for h in ("extra", "lists", "attributes"):
        changes(A, c, h, kind)
    unchanged(A, before, o, "changing the copy reaches the original")


def scenarios(tier):
    out = []
    kinds = [(k, v) for k in ("VEVENT", "VTODO") for v in range(NV)] + [(k, 0) for k in ("event", "todo", "calendar", "timezone", "builtin", "VCALENDAR", "VTIMEZONE", "STANDARD", "my event", "my todo")] + [("alarm", 0), ("alarm", 1)] + [("VALARM", i) for i in range(5)]
    for k, v in kinds + [("span only", 0)]:
        for t in (1, 2, 3) if tier == "thorough" else (1, 2):
            if k != "span only" or t == 1:
                out.append(Scenario("exact %s %d x%d" % (k, v, t), exact, (k, v, t)))
    for k, v in kinds:
        if tier == "quick" and k in ("VEVENT", "VTODO") and v not in (2, 3, 6):
            continue
        for how in HOW:
            for which in ("clone", "original", "deep"):
                out.append(Scenario("independent %s %d %s of %s" % (k, v, how, which), independent, (k, v, how, which)))
    for k, v in kinds:
        for how in ("copy", "deepcopy"):
            out.append(Scenario("copied %s %d %s" % (k, v, how), copied, (k, v, how)))
    out += [Scenario("calendar", calendar, ()), Scenario("zone", zone, ())]
    return out
