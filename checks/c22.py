"""Reading never changes what is read: a container (with all its lines and parameters) is the same afterwards, also when it is refused,
can be read again with the same result, and later changes of the object's attributes and parameters don't reach it."""
from .common import *
from .c17 import lines
from .c18 import build, reader
from .c19 import CONFLICTS, SINGLE, frame, value
from .c20 import NV, alarm, alike, mutables, variant

TZ = [("TZID", {"X": ["1"]}, "z"), ("X-V", {"Q": ["2"]}, "v"), ("STANDARD", [("DTSTART", {}, "20200101T000000"), ("TZOFFSETFROM", {"X": ["1"]}, "+0200"), ("TZOFFSETTO", {}, "+0100"), ("TZNAME", {"L": ["d"]}, "n"), ("X-O", {"P": ["1"]}, "1")])]


def source(A, kind, v):
    if kind == "VCALENDAR":
        return [("VERSION", {"X": ["1"]}, "2.0"), ("PRODID", {}, "p"), ("X-C", {"P": ["q"]}, "c"), ("VTIMEZONE", TZ), ("VEVENT", variant(A, "VEVENT", v, "0")), ("VTODO", variant(A, "VTODO", v, "1")),
                ("VEVENT", [("UID", {}, "zoned"), ("DTSTAMP", {}, "20200101T000000Z"), ("DTSTART", {"TZID": ["z"], "X": ["y"]}, "20200102T000000")])]
    if kind == "VALARM":
        return alarm(A, v, "0")
    if kind == "VTIMEZONE":
        return TZ
    return variant(A, kind, v, "0")


def entry(A, kind, c, via):
    if kind == "VCALENDAR" and via == "init":
        return A.call(A.ics.Calendar, c)
    if via == "populate":
        o = A.call({"VEVENT": A.ics.Event, "VTODO": A.ics.Todo, "VCALENDAR": A.ics.Calendar}[kind])
        A.call(A.get(o, "populate"), c)
        return o
    return A.call(reader(A, kind), c)


def intact(A, kind, v, via):
    c = build(A, kind, source(A, kind, v))
    before = observe(A, c)
    o = entry(A, kind, c, via)
    unchanged(A, before, c, "reading changes the container")
    first = lines(A, A.call(A.get(o, "to_container")))
    unchanged(A, before, c, "writing what was read changes the container")
    p = entry(A, kind, c, via)
    unchanged(A, before, c, "reading again changes the container")
    A.require(A.text_eq(lines(A, A.call(A.get(p, "to_container"))), first), lambda: "reading again gives another result: %s" % "; ".join(differences(A, first, lines(A, A.call(A.get(p, "to_container"))))))
    A.require(A.text_eq(lines(A, A.call(A.get(o, "to_container"))), first), "reading again changes the first object")
    # the objects are independent of the container, except for the lines kept as they are
    kept, mine, src = {}, {}, {}
    def collect(x):
        mutables(A, A.get(x, "extra"), kept)
        for n in ("alarms", "events", "todos", "observances"):
            for y in A.attempt(A.get, x, n)[0] or ():
                collect(y)
    collect(o)
    mutables(A, o, mine)
    mutables(A, c, src)
    both = [(mine[i][0], src[i][0]) for i in mine if i in src and i not in kept]
    A.require(not both, lambda: "the object shares %s with the container" % (both[:3],))
    for i, (path, x) in mine.items():
        if i in kept:
            continue
        if isinstance(x, dict):
            x["SPOILT"] = ["1"]
        elif isinstance(x, list):
            x.append("spoilt")
    unchanged(A, before, c, "changing the object changes the container")


def refused(A, kind, items, msg):
    c = build(A, kind, items)
    before = observe(A, c)
    v, e = A.attempt(reader(A, kind), c)
    A.require(e is not None, "%s is accepted" % msg)
    unchanged(A, before, c, "refusing a container changes it")
    v, e2 = A.attempt(reader(A, kind), c)
    A.require(e2 is not None and A.exc_name(e2) == A.exc_name(e), "refused differently the second time")


def twice(A, kind, name):
    refused(A, kind, frame(A, kind, (name,)) + [value(A, name, 1), value(A, name, 2), ("X-A", {"P": ["1"]}, "x")], "a second %s" % name)


def conflict(A, i):
    refused(A, CONFLICTS[i][0], frame(A, CONFLICTS[i][0]) + [(n, dict(p, X=["1"]), v) for n, p, v in CONFLICTS[i][1]], "a conflict")


def given(A, kind, what):
    """lists and lines given by the user are read only"""
    w = A.text("w")
    if what == "lines":
        src = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p", "BEGIN:" + kind, "UID:" + w, "SUMMARY:" + w, " more", "END:" + kind, "END:VCALENDAR"]
        copy = list(src)
        cal = A.call(A.ics.Calendar, src)
        A.require(A.text_eq(src, copy), "the given lines are changed")
        cal = A.call(A.ics.Calendar, src)
        A.require(A.text_eq(A.get((list(A.get(cal, "events")) + list(A.get(cal, "todos")))[0], "summary"), w + "more"), "the lines are read")
    else:
        params = {"X": ["1", w], "VALUE": ["DATE"]}
        l = A.call(A.ics.ContentLine, "DTSTART", params, "20200102")
        c = A.call(A.ics.Container, kind, [A.call(A.ics.ContentLine, "UID", {}, w), l])
        e = A.call(reader(A, kind), c)
        A.require(A.text_eq(params, {"X": ["1", w], "VALUE": ["DATE"]}) and A.text_eq(A.get(l, "params"), params), "the parameters of a line are changed")
        A.get(e, "extra_params")["BEGIN"]["X"].append("3")
        A.require(A.text_eq(params, {"X": ["1", w], "VALUE": ["DATE"]}) and A.text_eq(A.get(l, "params"), params), "changing parameters changes the line read")


def scenarios(tier):
    out = []
    for k in ("VEVENT", "VTODO", "VCALENDAR"):
        for v in range(NV):
            for via in ("from_container", "populate") + (("init",) if k == "VCALENDAR" else ()):
                out.append(Scenario("intact %s %d %s" % (k, v, via), intact, (k, v, via)))
    for v in range(3):
        out.append(Scenario("intact VALARM %d" % v, intact, ("VALARM", v, "from_container")))
    out.append(Scenario("intact VTIMEZONE", intact, ("VTIMEZONE", 0, "from_container")))
    for k in SINGLE:
        for n in SINGLE[k]:
            out.append(Scenario("refused second %s %s" % (k, n), twice, (k, n)))
    for i, (k, ls, ok) in enumerate(CONFLICTS):
        if not ok:
            out.append(Scenario("refused conflict %d" % i, conflict, (i,)))
    for k in ("VEVENT", "VTODO"):
        for w in ("lines", "params"):
            out.append(Scenario("given %s %s" % (w, k), given, (k, w)))
    return out
