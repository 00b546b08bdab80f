"""Objects are equal iff their class and all attributes, parameters and unknown lines are; == and != agree in both directions, equal
hashable objects have equal hashes, and foreign objects are never equal.  Reading the same text twice gives equal objects, and so do
constructing twice with the same arguments and cloning."""
from .common import *
from .c17 import lines
from .c18 import build, reader
from .c20 import NV, variant

ENTRY = ["timespan", "summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "alarms", "attach"]
EVENT = ENTRY + ["classification", "transparent", "organizer", "geo", "attendees", "categories"]
TODO = ENTRY + ["percent", "priority", "completed"]
ALARM = ["trigger", "repeat", "duration"]
FIELDS = {"Event": EVENT, "Todo": TODO, "MyEvent": EVENT, "MyTodo": TODO, "Calendar": ["version", "prodid", "scale", "method", "events", "todos"], "AudioAlarm": ALARM + ["attach"], "DisplayAlarm": ALARM + ["description"],
          "EmailAlarm": ALARM + ["summary", "description", "attendees", "attach"], "CustomAlarm": ALARM + ["action"], "NoneAlarm": ALARM, "Attendee": ["email", "extra"], "Organizer": ["email", "extra"],
          "Timespan": ["begin_time", "end_time", "duration", "precision"], "EventTimespan": ["begin_time", "end_time", "precision"], "TodoTimespan": ["begin_time", "end_time", "precision"],
          "Timezone": ["tzid", "observances", "tzurl", "last_modified"], "TimezoneStandardObservance": ["tzoffsetfrom", "tzoffsetto", "rrule", "tzname", "comment"], "TimezoneDaylightObservance": ["tzoffsetfrom", "tzname"],
          "ContentLine": ["name", "params", "value"], "Container": ["name", "data"], "Geo": ["latitude", "longitude"], "rrule": ["freq", "dtstart", "interval", "count", "until", "wkst", "bymonth", "byweekday", "bysetpos"], "rruleset": ["rrule", "rdate", "exrule", "exdate"]}
COMPONENTS = [c for c in FIELDS if c not in ("Attendee", "Organizer", "Timespan", "EventTimespan", "TodoTimespan", "ContentLine", "Container", "Geo", "rrule", "rruleset")]
USER = """
import attr
from ics import Event, Todo

class MyEvent(Event):
    pass

class MyTodo(Todo):
    pass
"""


def cls_of(A, n):
    if n.startswith("My"):
        return getattr(A.module("eq_classes", USER), n)
    if n.endswith("Alarm"):
        return getattr(A.mod("ics.alarm"), n)
    if n.startswith("rrule"):
        return getattr(A.mod("dateutil.rrule"), n)
    if n.endswith("Observance"):
        return getattr(A.mod("ics.timezone"), n)
    return getattr(A.ics, n)


def val(A, cls, f, i):
    """values of an attribute; different ones for different i (1: usual, 2: other), freshly built each time"""
    w = "%s%d" % (A.text("w"), i)
    d = A.dt("d", A.utc, unit=S) + A.td_of(seconds=i)
    if f in ("name", "summary", "uid", "description", "location", "prodid", "method", "scale", "action", "tzid", "tzname", "comment", "value", "classification", "version"):
        return upper(w) if f == "name" else w
    if f == "email":
        return "mailto:%s@x.org" % w
    if f in ("url", "tzurl"):
        return A.call(A.mod("urllib.parse").urlparse, "http://%s.org" % w)
    if f == "status":
        return ["TENTATIVE", "CONFIRMED", "CANCELLED"][i]
    if f in ("created", "last_modified", "dtstamp", "completed", "until"):
        return d
    if f == "begin_time":
        return d
    if f in ("dtstart",):
        return d
    if f == "end_time":
        return A.dt("d", A.utc, unit=S) + A.td_of(seconds=100 + i)
    if f in ("duration", "trigger", "tzoffsetfrom", "tzoffsetto"):
        return A.td_of(seconds=3600 * i)
    if f == "precision":
        return ["x", "second", "day"][i]
    if f in ("repeat", "percent", "priority", "freq", "interval", "count", "wkst", "bysetpos", "bymonth"):
        return i + 1
    if f == "byweekday":
        return [A.mod("dateutil.rrule").MO, A.mod("dateutil.rrule").TU, A.mod("dateutil.rrule").WE][i]
    if f == "transparent":
        return i == 1
    if f in ("latitude", "longitude"):
        return 1.5 * i
    if f == "geo":
        return (1.5 * i, 2.5)
    if f == "organizer":
        return A.call(A.ics.Organizer, "mailto:%s@x.org" % w, {"CN": [w]})
    if f == "attendees":
        return [A.call(A.ics.Attendee, "mailto:a@x.org"), A.call(A.ics.Attendee, "mailto:%s@x.org" % w, {"CN": [w]})]
    if f == "categories":
        return ["a", w]
    if f == "attach":
        return [A.call(A.mod("urllib.parse").urlparse, "http://%s.org" % w), b"abc"]
    if f == "alarms":
        return [A.call(A.ics.DisplayAlarm, trigger=A.td_of(seconds=-60), description="d"), A.call(A.ics.AudioAlarm, trigger=A.td_of(seconds=-60 * i))]
    if f == "timespan":
        c = "TodoTimespan" if cls.endswith("Todo") else "EventTimespan"
        return mk(A, c, {"begin_time": i} if c == "EventTimespan" else {"end_time": i})
    if f == "events":
        return [A.call(A.ics.Event, uid="e", dtstamp=val(A, cls, "dtstamp", 1)), mk(A, "Event", {"summary": i})]
    if f == "todos":
        return [mk(A, "Todo", {"priority": i})]
    if f == "observances":
        return [mk(A, "TimezoneDaylightObservance", {}), mk(A, "TimezoneStandardObservance", {"tzoffsetto": i})]
    if f in ("extra", "params"):
        return {"CN": [w, "b"], "P": ["1"]}
    if f == "data":
        return [A.call(A.ics.ContentLine, "A", {"P": ["1"]}, "x"), A.call(A.ics.Container, "B", [A.call(A.ics.ContentLine, "C", {}, w)])]
    if f == "rrule" and cls != "rruleset":
        return mk(A, "rruleset", {"rrule": i})
    if f in ("rrule", "exrule"):
        return mk(A, "rrule", {"count": i})
    if f in ("rdate", "exdate"):
        return d
    raise KeyError(f)


REQUIRED = {"Event": ["uid", "dtstamp"], "Todo": ["uid", "dtstamp"], "MyEvent": ["uid", "dtstamp"], "MyTodo": ["uid", "dtstamp"], "Calendar": ["version", "prodid"], "Attendee": ["email"], "Organizer": ["email"], "Timezone": ["tzid", "observances"],
            "TimezoneStandardObservance": ["tzoffsetfrom", "tzoffsetto", "rrule"], "TimezoneDaylightObservance": ["tzoffsetfrom", "tzoffsetto", "rrule"], "ContentLine": ["name", "params", "value"], "Container": ["name", "data"],
            "Geo": ["latitude", "longitude"], "rrule": ["freq", "dtstart"], "Timespan": ["begin_time"], "EventTimespan": ["begin_time"], "CustomAlarm": ["action"], "TodoTimespan": ["end_time"]}


def mk(A, cls, spec):
    """an object with these attributes (name: variant), and the required ones in variant 1"""
    spec = dict({f: 1 for f in REQUIRED.get(cls, ())}, **spec)
    vals = {f: val(A, cls, f, i) for f, i in spec.items() if i is not None}
    if cls == "rruleset":
        o = A.call(cls_of(A, cls))
        for f, v in vals.items():
            A.call(A.get(o, f), v)
        return o
    if cls == "Geo":
        return A.call(cls_of(A, cls), vals["latitude"], vals["longitude"])
    return A.call(cls_of(A, cls), **vals)


def decide(A, a, b, want, msg):
    """a == b is want, in both directions, and != is the opposite"""
    for x, y in ((a, b), (b, a)):
        A.require(A.ip.truth(A.ip.eq(x, y)) is want, lambda: "%s: == is %s" % (msg, not want))
        A.require(A.call(A.mod("operator").ne, x, y) is (not want), lambda: "%s: != is %s" % (msg, want))
        A.require(A.call(A.mod("operator").contains, [y], x) is want, lambda: "%s: is%s found in a list" % (msg, " not" if want else ""))
    if want:
        h1, e1 = A.attempt(A.mod("builtins").hash, a)
        h2, e2 = A.attempt(A.mod("builtins").hash, b)
        A.require((e1 is None) == (e2 is None), msg + ": only one of them can be hashed")
        A.require(e1 is None and A.eq(h1, h2) or e1 is not None and A.is_exc(e1, TypeError), lambda: "%s: the hashes differ" % msg)


HASHABLE = ("Timespan", "EventTimespan", "TodoTimespan", "Geo", "rrule", "rruleset")


def field(A, cls, f):
    no = {g: None for g in REQUIRED[cls]} if f == "precision" and cls in REQUIRED else {}
    a, b, c = mk(A, cls, {**no, f: 1}), mk(A, cls, {**no, f: 1}), mk(A, cls, {**no, f: 2})
    decide(A, a, a, True, "a %s and itself" % cls)
    decide(A, a, b, True, "two %ss with the same %s" % (cls, f))
    decide(A, a, c, False, "two %ss with different %s" % (cls, f))
    if f not in REQUIRED.get(cls, ()):
        n = mk(A, cls, {})
        if f in ("version", "prodid", "extra") or cls == "rrule" and f in ("interval", "wkst"):
            return
        if f != "precision":
            decide(A, a, n, False, "two %ss with and without %s" % (cls, f))
    if cls in HASHABLE:
        h, e = A.attempt(A.mod("builtins").hash, a)
        A.require(e is None, lambda: "a %s can't be hashed" % cls)
    # lists: order and number count
    if f in ("attendees", "categories", "attach", "alarms", "events", "observances", "data"):
        v = val(A, cls, f, 1)
        for w, what in ((v[::-1], "in another order"), (v[:1], "that are fewer"), (v + v[:1], "that are more"), ([], "that are none")):
            kw = {g: val(A, cls, g, 1) for g in REQUIRED.get(cls, ()) if g != f}
            decide(A, a, A.call(cls_of(A, cls), **dict(kw, **{f: w})), False, "%s %s" % (f, what))
    if f in ("params", "extra"):
        for i, w in enumerate(({}, {"CN": val(A, cls, f, 1)["CN"]}, {"CN": val(A, cls, f, 1)["CN"][::-1], "P": ["1"]}, {"CN": val(A, cls, f, 1)["CN"], "P": ["1", "1"]})):
            kw = {g: val(A, cls, g, 1) for g in REQUIRED.get(cls, ()) if g != f}
            decide(A, a, A.call(cls_of(A, cls), **dict(kw, **{f: w})), False, "%s %d" % (f, i))


def full(A, cls):
    """everything set"""
    fs = [f for f in FIELDS[cls] if f != "precision" and not (f == "count" and cls == "rrule")]
    a, b = mk(A, cls, {f: 1 for f in fs}), mk(A, cls, {f: 1 for f in fs[::-1]})
    decide(A, a, b, True, "two %ss with the same attributes" % cls)
    for f in fs:
        decide(A, a, mk(A, cls, dict({g: 1 for g in fs}, **{f: 2})), False, "two %ss with different %s" % (cls, f))


def extras(A, cls):
    a, b = mk(A, cls, {}), mk(A, cls, {})
    w = A.text("x")
    line = lambda v: A.call(A.ics.ContentLine, "X-A", {}, v)
    A.call(A.get(A.get(a, "extra"), "append"), line(w))
    decide(A, a, b, False, "with and without an unknown line")
    A.call(A.get(A.get(b, "extra"), "append"), line(w))
    decide(A, a, b, True, "with the same unknown line")
    A.call(A.get(A.get(b, "extra"), "append"), line(w))
    decide(A, a, b, False, "with an unknown line once and twice")
    A.call(A.get(A.get(b, "extra"), "pop"))
    A.get(a, "extra_params")["SUMMARY"] = {"P": [w]}
    decide(A, a, b, False, "with and without parameters")
    A.get(b, "extra_params")["SUMMARY"] = {"P": [w]}
    decide(A, a, b, True, "with the same parameters")
    A.get(b, "extra_params")["SUMMARY"]["P"] = [w, w]
    decide(A, a, b, False, "with different parameters")
    c = A.call(A.get(a, "clone"))
    decide(A, a, c, True, "a clone")


def classes(A):
    """the same attributes, different classes"""
    w = A.text("w")
    st = A.dt("d", A.utc, unit=S)
    for group in (("Event", "MyEvent"), ("Todo", "MyTodo"), ("Event", "Todo"), ("Attendee", "Organizer"), ("Timespan", "EventTimespan"), ("EventTimespan", "TodoTimespan"), ("NoneAlarm", "AudioAlarm"), ("DisplayAlarm", "EmailAlarm"),
                  ("TimezoneStandardObservance", "TimezoneDaylightObservance"), ("ContentLine", "Container"), ("rrule", "rruleset"), ("NoneAlarm", "DisplayAlarm")):
        objs = [mk(A, c, {"begin_time": None, "end_time": None} if "span" in c else {}) for c in group]
        decide(A, objs[0], objs[1], False, "a %s and a %s" % group)
    for c in FIELDS:
        o = mk(A, c, {})
        for x in (None, 0, "x", w, [], {}, ()):
            decide(A, o, x, False, "a %s and %s" % (c, A.show(x)))


def twice(A, kind, v, how):
    """reading the same twice"""
    if how == "nested":
        items = [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), ("X-C", {}, A.text("c")), (kind, variant(A, kind, v, "0")), ("VTODO", variant(A, "VTODO", (v + 3) % NV, "1"))]
        k = "VCALENDAR"
    else:
        items, k = variant(A, kind, v, "0"), kind
    a, b = A.call(reader(A, k), build(A, k, items)), A.call(reader(A, k), build(A, k, items))
    decide(A, a, b, True, "the same %s read twice" % k)
    decide(A, a, A.call(A.get(a, "clone")), True, "a clone")
    other = A.call(reader(A, kind), build(A, kind, items + [("X-MORE", {}, "1")])) if k == kind else A.call(reader(A, k), build(A, k, items[:-1]))
    decide(A, a, other, False, "a different %s" % k)


def line_nr(A):
    """the place of a line doesn't matter"""
    a, b = A.call(A.ics.ContentLine, "A", {}, "x", line_nr=1), A.call(A.ics.ContentLine, "a", {}, "x", line_nr=2)
    decide(A, a, b, True, "two lines of different numbers")
    decide(A, A.call(A.ics.Container, "a", [a]), A.call(A.ics.Container, "A", (b,)), True, "two containers")


def rules(A):
    R = A.mod("dateutil.rrule")
    d = A.dt("d", None, unit=S)
    r = lambda **k: A.call(R.rrule, R.YEARLY, dtstart=d, **k)
    for kw in ({"bymonth": 3}, {"bymonthday": 3}, {"byyearday": 3}, {"byweekno": 3}, {"byhour": 3}, {"byminute": 3}, {"bysecond": 3}, {"byeaster": 3}, {"bysetpos": 3, "bymonth": 1}, {"until": A.dt("u", None, unit=S)}):
        decide(A, r(**kw), r(**kw), True, "the same rule")
        decide(A, r(**kw), r(), False, "rules with and without %s" % kw)
        k2 = dict(kw, **{next(iter(kw)): 4 if "until" not in kw else A.dt("u", None, unit=S) + A.td_of(seconds=1)})
        decide(A, r(**kw), r(**k2), False, "rules with different %s" % kw)


def scenarios(tier):
    out = []
    for c, fs in FIELDS.items():
        for f in fs:
            out.append(Scenario("%s.%s" % (c, f), field, (c, f)))
        if c in ("Event", "Todo", "Calendar", "EmailAlarm", "Timezone", "TimezoneStandardObservance", "EventTimespan"):
            out.append(Scenario("all of %s" % c, full, (c,)))
    out += [Scenario("extras of %s" % c, extras, (c,)) for c in COMPONENTS]
    out += [Scenario("classes", classes, ()), Scenario("line numbers", line_nr, ()), Scenario("rules", rules, ())]
    for kind in ("VEVENT", "VTODO"):
        for v in range(NV):
            for how in ("alone", "nested"):
                out.append(Scenario("twice %s %d %s" % (kind, v, how), twice, (kind, v, how)))
    return out
