"""Assigning an attribute converts and checks the value exactly as the constructor does; a refused assignment changes nothing, and
immutable objects (zones, observances, time spans) refuse every assignment."""
from .common import *
from .c14 import zone

NUM_VALUES = 32


def value(A, i, tag="v"):
    """candidate values of every kind"""
    I, w = A.ics, A.text(tag)
    D = A.mod("datetime")
    d = lambda z=None: A.dt("d" + tag, z, unit=S)
    span = lambda k: A.call(getattr(I, CLS[k]), d(A.utc))
    return [
        lambda: None, lambda: w, lambda: "", lambda: "confirmed", lambda: "CANCELLED", lambda: "2.0", lambda: A.num("i" + tag, -20, 120), lambda: True, lambda: A.afloat("f" + tag), lambda: A.octets("o" + tag),
        lambda: d(A.utc), lambda: d(zone(A, "known")), lambda: d(), lambda: dt.date.of(midnight(A, "m" + tag).pos), lambda: (2020, 1, 2), lambda: {"year": 2020, "month": 1, "day": 2}, lambda: (1, 30),
        lambda: {"hours": 3}, lambda: A.td("t" + tag, -1000, 1000, S), lambda: A.call(A.mod("urllib.parse").urlparse, "http://%s.org" % w), lambda: A.call(I.Attendee, w + "@x.org"),
        lambda: A.call(I.Organizer, w + "@x.org"), lambda: (1.5, 2.5), lambda: {"latitude": 1.5, "longitude": 2.5}, lambda: [w, "b"], lambda: (w, "b"), lambda: [A.call(I.DisplayAlarm, description=w)],
        lambda: [A.call(I.Event, uid=w, dtstamp=d(A.utc))], lambda: span("span"), lambda: span("event"), lambda: span("todo"), lambda: {},
    ][i]()


USER = """
import attr
from attr.validators import in_
from ics import Event, Todo, Calendar, DisplayAlarm
from ics.component import Component
from ics.timespan import EventTimespan

def conv(x):
    return x if x is None else int(x)

@attr.s
class MyAlarm(DisplayAlarm):
    level = attr.ib(default=1, converter=conv, validator=in_(range(5)))

class MyEvent(Event):
    pass

class MyTodo(Todo):
    pass

class MyCalendar(Calendar):
    pass
"""
CLASSES = ["Event", "Todo", "Calendar", "AudioAlarm", "DisplayAlarm", "EmailAlarm", "CustomAlarm", "NoneAlarm", "MyAlarm", "MyEvent", "MyTodo", "MyCalendar"]


def cls_of(A, name):
    if name.startswith("My"):
        return getattr(A.module("user_classes", USER), name)
    if name.endswith("Alarm"):
        return getattr(A.mod("ics.alarm"), name)
    return getattr(A.ics, name)


def base(A, name):
    if "Calendar" in name:
        return {"version": "2.0", "prodid": "p"}
    if "Alarm" in name:
        return {"trigger": A.td_of(seconds=-60)} if name != "CustomAlarm" else {"action": "X-" + A.text("act")}
    return {"uid": "u", "dtstamp": A.dt("stamp", A.utc, unit=S), "summary": "s"}


def fields(A, name):
    entry = ["summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "alarms", "attach", "timespan"]
    al = ["trigger", "repeat", "duration"]
    name = name.replace("My", "")
    return {"Event": entry + ["classification", "transparent", "organizer", "geo", "attendees", "categories"], "Todo": entry + ["percent", "priority", "completed"],
            "Calendar": ["version", "prodid", "scale", "method", "events", "todos"], "AudioAlarm": al + ["attach"], "DisplayAlarm": al + ["description"],
            "EmailAlarm": al + ["summary", "description", "attendees", "attach"], "CustomAlarm": al, "NoneAlarm": al, "Alarm": al + ["description", "level"]}[name]


def assign(A, name, field, i, before):
    cls = cls_of(A, name)
    v = value(A, i)
    A.assume(not (v is None and field in ("events", "todos")))  # the constructor's default
    if before == "parent":
        p = cls_of(A, name.replace("My", "") if name != "MyAlarm" else "DisplayAlarm")
        o = A.call(p, **base(A, name))
        A.attempt(A.set, o, "summary" if "Alarm" not in name else "description", "x")
    kw = base(A, name)
    kw[field] = v
    c, e1 = A.attempt(cls, **kw)
    o = A.call(cls, **base(A, name))
    if before == "after":
        A.attempt(A.set, o, field, value(A, (i * 7 + 3) % NUM_VALUES, "w"))
        if field in ("duration", "repeat"):
            A.attempt(A.set, o, "duration", A.td_of(seconds=5))
    state = observe(A, o)
    _, e2 = A.attempt(A.set, o, field, v)
    A.require((e1 is None) == (e2 is None), lambda: "%s.%s = %s: the constructor %s, the assignment %s" % (name, field, A.show(v), "accepts it" if e1 is None else "raises " + A.exc_name(e1), "accepts it" if e2 is None else "raises " + A.exc_name(e2)))
    if e1 is not None:
        A.require(A.exc_name(e1) == A.exc_name(e2), lambda: "%s.%s = %s: the constructor raises %s, the assignment %s" % (name, field, A.show(v), A.exc_name(e1), A.exc_name(e2)))
        unchanged(A, state, o, "after the refused %s.%s = %s" % (name, field, A.show(v)))
        return
    a, b = A.get(c, field), A.get(o, field)
    A.require(same_state(A, observe(A, a, 1), observe(A, b, 1)), lambda: "%s.%s = %s: %s by the constructor, %s by the assignment" % (name, field, A.show(v), A.show(a), A.show(b)))
    new = observe(A, o)
    if before != "after":
        ref = observe(A, c)
        A.require(same_state(A, new, ref), lambda: "%s.%s = %s: %s" % (name, field, A.show(v), differences(A, new, ref)[:3]))
    old, now = dict(state[1]), dict(new[1])
    old.pop(field), now.pop(field)
    A.require(same_state(A, old, now), lambda: "%s.%s = %s changes %s" % (name, field, A.show(v), differences(A, old, now)[:3]))


def again(A, name, field, i, j):
    """the second of two assignments counts alone"""
    cls = cls_of(A, name)
    o, p = A.call(cls, **base(A, name)), A.call(cls, **base(A, name))
    u, v = value(A, i, "u"), value(A, j)
    A.attempt(A.set, o, field, u)
    _, e1 = A.attempt(A.set, o, field, v)
    _, e2 = A.attempt(A.set, p, field, v)
    A.require((e1 is None) == (e2 is None), "%s.%s: acceptance depends on the former value" % (name, field))
    if e1 is None:
        A.require(same_state(A, observe(A, o), observe(A, p)), lambda: "%s.%s: the former value matters: %s" % (name, field, differences(A, observe(A, o), observe(A, p))[:3]))


def creator(A):
    c, d = A.call(A.ics.Calendar), A.call(A.ics.Calendar)
    w = A.text("w")
    A.set(c, "creator", w)
    A.require(A.text_eq(A.get(c, "prodid"), w) and A.text_eq(A.get(c, "creator"), w), "creator is not the product id")
    A.set(d, "prodid", w)
    A.require(A.text_eq(A.get(d, "creator"), w), "product id is not the creator")
    state = observe(A, c)
    A.raises(A.set, c, "creator", A.choose([None, 5]), _msg="a creator that is no text is accepted")
    unchanged(A, state, c, "after the refused creator")


def immutable(A, kind):
    if kind == "zone":
        o = A.call(A.get(A.ics.Timezone, "from_tzid"), "Known/K")
    elif kind == "observance":
        o = A.iter(A.get(A.call(A.get(A.ics.Timezone, "from_tzid"), "Known/K"), "observances"))[0]
    else:
        o = A.call(getattr(A.ics, CLS[kind]), A.dt("b", A.utc, unit=S))
    for f in A.call(A.mod("attr").fields, o._c):
        if f.name in ("extra", "extra_params"):
            continue
        old = A.get(o, f.name)
        for v in (None, 5, A.text("w"), A.dt("n", A.utc, unit=S), A.td_of(seconds=7), old):
            _, e = A.attempt(A.set, o, f.name, v)
            A.require(e is not None and A.is_exc(e, AttributeError), lambda: "%s.%s can be assigned" % (kind, f.name))
            A.require(A.get(o, f.name) is old, lambda: "%s.%s is changed by a refused assignment" % (kind, f.name))


def scenarios(tier):
    out = []
    for c in CLASSES:
        for f in fields(None, c):
            for b in (("", "after") + (("parent",) if c.startswith("My") else ())):
                if b == "after" and tier != "thorough" and c.startswith("My") and c != "MyAlarm":
                    continue
                out.append(Scenario("assign %s.%s %s" % (c, f, b), assign_all, (c, f, b)))
    for k in ("zone", "observance", "span", "event", "todo"):
        out.append(Scenario("immutable %s" % k, immutable, (k,)))
    out.append(Scenario("creator", creator, ()))
    if tier == "thorough":
        for c in CLASSES[:8]:
            for f in fields(None, c):
                out.append(Scenario("again %s.%s" % (c, f), again_all, (c, f)))
    return out


def assign_all(A, name, field, before):
    assign(A, name, field, A.choose(range(NUM_VALUES), "value"), before)


def again_all(A, name, field):
    again(A, name, field, A.choose(range(NUM_VALUES), "value"), A.choose(range(NUM_VALUES), "value"))
