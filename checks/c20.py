"""Components read from one calendar are what they would be read alone: no attribute, span, parameter, extra line or list of one shows
up on a sibling, an outer or a nested one; they share no mutable state, and neither do freshly created objects.  Writing several
components gives the lines each gives alone."""
from .common import *
from .c17 import lines, same_value
from .c18 import build, reader

ENTRY = {"VEVENT": ["summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "attach", "classification", "transparent", "organizer", "geo", "attendees", "categories", "begin", "end", "duration", "all_day"],
         "VTODO": ["summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "attach", "percent", "priority", "completed", "begin", "due", "duration", "all_day"]}


def variant(A, kind, v, tag):
    """lines of an entry; tag keeps the values of two entries apart"""
    w = A.text("w" + tag)
    x, y = A.dt("x" + tag, A.utc, unit=S), A.dt("y" + tag, A.utc, unit=S)
    A.path.assume(y.pos - x.pos)
    fx, fy = x.strftime("%Y%m%dT%H%M%SZ"), y.strftime("%Y%m%dT%H%M%SZ")
    st = ("DTSTAMP", {}, "20200101T000000Z")
    e = "DTEND" if kind == "VEVENT" else "DUE"
    return [
        [("UID", {}, "u" + tag), st],
        [("UID", {}, "u" + tag), st, ("DTSTART", {}, fx), (e, {}, fy), ("SUMMARY", {}, w)],
        [("UID", {}, "u" + tag), st, ("DTSTART", {"X-S": [w]}, fx), ("DURATION", {"X-D": [w]}, "PT1H"), ("DESCRIPTION", {"LANGUAGE": [w]}, w)],
        [("UID", {"X-U": [w]}, "u" + tag), st, ("DTSTART", {"VALUE": ["DATE"]}, "20200102"), (e, {"VALUE": ["DATE"], "X-E": [w]}, "20200104"), ("LOCATION", {}, w), ("X-" + upper(w), {}, w)],
        [("UID", {}, "u" + tag), st, ("DTSTART", {}, fx), ("URL", {"X-L": [w]}, "http://%s.org" % w), ("X-A", {"P": [w]}, w), ("STATUS", {}, "CONFIRMED")],
        [("UID", {}, "u" + tag), st] + ([("CATEGORIES", {"X-C": [w]}, w + ",b"), ("CATEGORIES", {}, w), ("ATTENDEE", {"CN": [w]}, "mailto:%s@x.org" % w), ("ORGANIZER", {}, "mailto:%s@y.org" % w), ("GEO", {}, "1.000000;2.000000")]
                                        if kind == "VEVENT" else [("PRIORITY", {"X-P": [w]}, "3"), ("COMPLETED", {}, fx), (e, {}, fy)]) + [("ATTACH", {"X-A": [w]}, "http://%s.org" % w)],
        [("UID", {}, "u" + tag), st, ("DTSTART", {}, fx), ("RRULE", {}, "FREQ=DAILY;COUNT=3"), ("VALARM", alarm(A, 2, tag)), ("VALARM", alarm(A, 0, tag)), ("SUMMARY", {}, w)],
        [("UID", {}, "u" + tag), st, ("DESCRIPTION", {}, "own"), ("DTSTART", {}, fx), ("DURATION", {}, "PT2H"), ("VALARM", alarm(A, 1, tag)), ("VALARM", alarm(A, 2, tag)), ("ATTACH", {}, "http://%s.net" % w), ("SUMMARY", {}, "sum"),
         ("X-Z", [("DTSTART", {}, "x")])] + ([("ATTENDEE", {"X-Q": ["1"]}, "mailto:own@x.org")] if kind == "VEVENT" else []),
    ][v]


def alarm(A, k, tag):
    w = A.text("a" + tag)
    return [[("ACTION", {"X-AC": [w]}, "AUDIO"), ("TRIGGER", {"RELATED": ["END"]}, "-PT5M"), ("ATTACH", {"FMTTYPE": [w]}, "http://%s.org/a" % w), ("X-AL", {}, w)],
            [("ACTION", {}, "DISPLAY"), ("TRIGGER", {}, "PT1M"), ("DESCRIPTION", {"X-DD": [w]}, w), ("DURATION", {}, "PT3M"), ("REPEAT", {}, "2")],
            [("ACTION", {}, "EMAIL"), ("DESCRIPTION", {}, w), ("SUMMARY", {"X-SS": [w]}, "al"), ("ATTENDEE", {"CN": [w]}, "mailto:%s@a.org" % w), ("ATTENDEE", {}, "mailto:b@a.org"), ("ATTACH", {}, "http://%s.org/e" % w)]][k]


NV = 8


def alone(A, kind, items):
    return A.call(reader(A, kind), build(A, kind, items))


def alike(A, a, b, kind, msg):
    for n in ENTRY[kind]:
        x, y = A.get(a, n), A.get(b, n)
        if y is None or x is None:
            A.require(x is None and y is None, lambda: "%s: %s is %s instead of %s" % (msg, n, A.show(x), A.show(y)))
        else:
            same_value(A, x, y, "%s: %s" % (msg, n))
    A.require(len(A.get(a, "alarms")) == len(A.get(b, "alarms")), lambda: "%s: %d alarms" % (msg, len(A.get(a, "alarms"))))
    for x, y in zip(A.get(a, "alarms"), A.get(b, "alarms")):
        for n in ("action", "trigger", "repeat", "duration"):
            same_value(A, A.get(x, n), A.get(y, n), "%s: alarm %s" % (msg, n))
    for n in ("extra_params",):
        A.require(A.text_eq(A.get(a, n), A.get(b, n)), lambda: "%s: %s are %s instead of %s" % (msg, n, A.show(A.get(a, n)), A.show(A.get(b, n))))
    A.require(A.text_eq(lines(A, A.get(a, "extra")), lines(A, A.get(b, "extra"))), lambda: "%s: extra is %s instead of %s" % (msg, A.show(A.get(a, "extra")), A.show(A.get(b, "extra"))))


def siblings(A, kinds, vs, how):
    its = [variant(A, k, v, str(i)) for i, (k, v) in enumerate(zip(kinds, vs))]
    full = [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), ("X-CAL", {}, "c")] + list(zip(kinds, its))
    c = build(A, "VCALENDAR", full)
    cal = A.call(A.ics.Calendar, c if how == "container" else A.call(A.get(c, "serialize")))
    got = {"VEVENT": list(A.get(cal, "events")), "VTODO": list(A.get(cal, "todos"))}
    A.require(A.text_eq(lines(A, A.get(cal, "extra")), [("X-CAL", {}, "c")]), "the calendar's extra lines")
    same_value(A, A.get(cal, "prodid"), "p", "prodid")
    for k, it in zip(kinds, its):
        A.require(len(got[k]) > 0, "an entry is missing")
        e, ref = got[k].pop(0), alone(A, k, it)
        alike(A, e, ref, k, "entry of the calendar")
    A.require(not got["VEVENT"] and not got["VTODO"], "too many entries")
    # written
    out = [x for x in lines(A, A.call(A.get(cal, "to_container"))) if len(x) == 2]
    for k in ("VEVENT", "VTODO"):
        mine = [x for x in out if x[0] == k]
        refs = [lines(A, A.call(A.get(alone(A, kk, it), "to_container"))) for kk, it in zip(kinds, its) if kk == k]
        A.require(len(mine) == len(refs), "the number of components written")
        for m, r in zip(mine, refs):
            A.require(A.text_eq(m[1], r), lambda: "written as %s instead of %s as alone" % (A.show(m[1]), A.show(r)))


def mutables(A, o, seen, path=""):
    """all mutable lists, dicts and containers of an object"""
    if isinstance(o, (str, bytes, int)) or o is None:
        return
    if isinstance(o, (list, dict, set)):
        seen.setdefault(id(o), (path, o))
        for k, v in (o.items() if isinstance(o, dict) else enumerate(o)):
            mutables(A, v, seen, "%s[%s]" % (path, k))
    elif A.isinstance(o, A.ics.Container):
        seen.setdefault(id(o), (path, o))
        mutables(A, A.get(o, "data"), seen, path + ".data")
    elif A.isinstance(o, A.ics.ContentLine):
        seen.setdefault(id(o), (path, o))
        mutables(A, A.get(o, "params"), seen, path + ".params")
    elif A.isinstance(o, A.mod("ics.component").Component) or A.isinstance(o, A.mod("ics.attendee").PersonAttrs):
        seen.setdefault(id(o), (path, o))
        for n in ("extra", "extra_params", "alarms", "attach", "attendees", "categories", "organizer", "events", "todos", "observances", "rrule"):
            v, e = A.attempt(A.get, o, n)
            if e is None:
                mutables(A, v, seen, path + "." + n)
    elif A.isinstance(o, A.mod("dateutil.rrule").rruleset):
        seen.setdefault(id(o), (path, o))
        for n in ("_rrule", "_rdate", "_exrule", "_exdate"):
            mutables(A, A.get(o, n), seen, path + "." + n)


def disjoint(A, a, b, msg):
    x, y = {}, {}
    mutables(A, a, x)
    mutables(A, b, y)
    both = [(x[i][0], y[i][0]) for i in x if i in y]
    A.require(not both, lambda: "%s share %s" % (msg, both[:3]))
    A.require(len(x) > 0 and len(y) > 0, "nothing mutable")


def unshared(A, kinds, vs):
    its = [variant(A, k, v, str(i)) for i, (k, v) in enumerate(zip(kinds, vs))]
    full = [("VERSION", {}, "2.0"), ("PRODID", {}, "p")] + list(zip(kinds, its))
    c = build(A, "VCALENDAR", full)
    cal = A.call(A.ics.Calendar, c)
    es = list(A.get(cal, "events")) + list(A.get(cal, "todos"))
    for i, a in enumerate(es):
        for b in es[:i]:
            disjoint(A, a, b, "two entries of a calendar")
    # changing everything changeable of the first leaves the second as it was
    ref = alone(A, kinds[1], its[1])
    e, f = (es[0], es[1]) if kinds[0] == kinds[1] or kinds[0] == "VEVENT" else (es[1], es[0])
    A.call(A.get(A.get(e, "extra"), "append"), A.call(A.ics.ContentLine, "X-NEW", {}, "1"))
    A.get(e, "extra_params").setdefault("SUMMARY", {})["NEW"] = ["1"]
    A.set(e, "summary", "new")
    A.get(e, "attach").append("http://new.org")
    A.get(e, "alarms").append(A.call(A.ics.NoneAlarm))
    if kinds[0] == "VEVENT":
        A.get(e, "attendees").append(A.call(A.ics.Attendee, "mailto:new@x.org"))
        A.get(e, "categories").append("new")
    alike(A, f, ref, kinds[1], "after changing another entry")


MAKE = ["Event", "Todo", "Calendar", "AudioAlarm", "DisplayAlarm", "EmailAlarm", "NoneAlarm", "Attendee", "Organizer", "Container", "ContentLine", "Timezone"]


def new(A, cls):
    kw = {"Attendee": ("mailto:a@x.org",), "Organizer": ("mailto:a@x.org",), "Container": ("X",), "ContentLine": ("X",), "Timezone": ("Z",)}.get(cls, ())
    return A.call(getattr(A.ics, cls), *kw)


def created(A, cls):
    a, b = new(A, cls), new(A, cls)
    x, y = {}, {}
    if cls in ("Attendee", "Organizer"):
        A.get(a, "extra")["CN"] = ["x"]
        A.require(A.get(b, "extra") == {}, "two persons share their parameters")
        A.require(A.get(new(A, cls), "extra") == {}, "a new person has another one's parameters")
        return
    if cls == "ContentLine":
        A.get(a, "params")["P"] = ["x"]
        A.require(A.get(b, "params") == {} and A.get(new(A, cls), "params") == {}, "two lines share their parameters")
        return
    if cls == "Container":
        A.call(A.get(a, "append"), A.call(A.ics.ContentLine, "X"))
        A.require(len(A.iter(b)) == 0 and len(A.iter(new(A, cls))) == 0, "two containers share their lines")
        return
    disjoint(A, a, b, "two new %ss" % cls)
    A.call(A.get(A.get(a, "extra"), "append"), A.call(A.ics.ContentLine, "X"))
    A.get(a, "extra_params")["X"] = {}
    c = new(A, cls)
    for o in (b, c):
        A.require(len(A.iter(A.get(o, "extra"))) == 0 and A.get(o, "extra_params") == {}, "a new %s has another one's extras" % cls)
    for n in ("alarms", "attach", "attendees", "categories", "events", "todos"):
        v, e = A.attempt(A.get, a, n)
        if e is None and isinstance(v, list):
            v.append(1)
            A.require(A.get(b, n) == [] and A.get(new(A, cls), n) == [], "a new %s has another one's %s" % (cls, n))


def arguments(A, cls, n):
    """a list given to the constructor is not shared with the object"""
    item = {"events": lambda: A.call(A.ics.Event), "todos": lambda: A.call(A.ics.Todo), "alarms": lambda: A.call(A.ics.NoneAlarm), "categories": lambda: "c", "attendees": lambda: A.call(A.ics.Attendee, "mailto:a@x.org")}[n]
    l = [item()]
    a, b = A.call(getattr(A.ics, cls), **{n: l}), A.call(getattr(A.ics, cls), **{n: l})
    A.get(a, n).append(item())
    A.require(len(A.get(b, n)) == 1 and len(l) == 1, "the list given for %s is shared" % n)
    t = (item(),)
    c = A.call(getattr(A.ics, cls), **{n: t})
    A.require(len(A.get(c, n)) == 1, "a tuple given for %s" % n)


def crowd(A, kinds, n, step):
    siblings(A, tuple(kinds[i % len(kinds)] for i in range(n)), tuple(i * step % NV for i in range(n)), ("container", "text")[step % 2])


def zones(A, i):
    """the observances and lines of one time zone are not another one's"""
    o = lambda k, name: [("DTSTART", {}, "20%02d0101T000000" % k), ("TZOFFSETFROM", {}, "+0%d00" % k), ("TZOFFSETTO", {}, "-0%d00" % k)] + ([("TZNAME", {"X-T": ["1"]}, name), ("X-O", {}, name)] if k % 2 else [])
    z = [[("TZID", {}, "za"), ("STANDARD", o(1, A.text("n"))), ("DAYLIGHT", o(2, "b"))], [("TZID", {"X-I": ["z"]}, "zb"), ("X-V", {}, "v"), ("STANDARD", o(4, "c"))], [("TZID", {}, "zc"), ("DAYLIGHT", o(3, "d")), ("STANDARD", o(2, "b")), ("DAYLIGHT", o(5, "d"))]]
    z = z[i:] + z[:i]
    cs = [build(A, "VTIMEZONE", x) for x in z]
    got = [A.call(A.get(A.ics.Timezone, "from_container"), c) for c in cs]
    for g, x in zip(got, z):
        ref = alone(A, "VTIMEZONE", x)
        A.require(A.text_eq(lines(A, A.call(A.get(g, "to_container"))), lines(A, A.call(A.get(ref, "to_container")))), "a time zone read after another one")
        A.require(len(A.get(g, "observances")) == len([y for y in x if len(y) == 2]), "observances of another time zone")
    for k, a in enumerate(got):
        for b in got[:k]:
            disjoint(A, a, b, "two time zones")


def scenarios(tier):
    out = []
    n = range(NV)
    combos = [(a, b) for a in n for b in n]
    for k in ("VEVENT", "VTODO"):
        for a, b in combos:
            out.append(Scenario("siblings %s %d %d" % (k, a, b), siblings, ((k, k), (a, b), "container")))
    for a, b in combos:
        if tier == "thorough" or (a * 3 + b) % 4 == 0:
            out.append(Scenario("siblings mixed %d %d" % (a, b), siblings, (("VEVENT", "VTODO"), (a, b), "text")))
            out.append(Scenario("siblings mixed reversed %d %d" % (a, b), siblings, (("VTODO", "VEVENT"), (a, b), "container")))
    tri = [(a, b, c) for a in n for b in n for c in n]
    for i, t in enumerate(tri):
        if tier == "thorough" or i % 37 == 0:
            out.append(Scenario("three %s" % (t,), siblings, (("VEVENT", "VTODO", "VEVENT"), t, "container")))
    for k in (("VEVENT", "VEVENT"), ("VTODO", "VTODO"), ("VEVENT", "VTODO")):
        for a in n:
            out.append(Scenario("unshared %s %d" % (k, a), unshared, (k, (a, a))))
            out.append(Scenario("unshared %s %d %d" % (k, a, (a + 3) % NV), unshared, (k, (a, (a + 3) % NV))))
    for step in (1, 2, 3, 5):
        for k in (("VEVENT",), ("VTODO",), ("VEVENT", "VTODO"), ("VTODO", "VEVENT", "VEVENT")):
            out.append(Scenario("crowd of %s step %d" % ("+".join(k), step), crowd, (k, 12 if tier == "quick" else 40, step)))
    for c in MAKE:
        out.append(Scenario("new %s" % c, created, (c,)))
    for c, x in (("Calendar", "events"), ("Calendar", "todos"), ("Event", "alarms"), ("Todo", "alarms"), ("Event", "categories"), ("Event", "attendees")):
        out.append(Scenario("argument %s %s" % (c, x), arguments, (c, x)))
    for i in range(3):
        out.append(Scenario("time zones %d" % i, zones, (i,)))
    return out
