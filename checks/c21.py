"""Writing, printing, comparing, hashing, cloning, iterating or querying an object never changes it, gives the same result every time,
and what is written shares no mutable state with the attributes of the object - also when it fails half-way."""
from .common import *
from .c17 import lines
from .c18 import build, reader
from .c20 import NV, mutables, variant


def subject(A, what, v):
    kz = A.dt("kz", known_zone(A), unit=S)
    if what in ("VEVENT", "VTODO"):
        return A.call(reader(A, what), build(A, what, variant(A, what, v, "0")))
    if what in ("event", "todo"):
        w = A.text("w")
        u = A.call(A.mod("urllib.parse").urlparse, "http://%s.org" % w)
        kw = dict(summary=w, uid="u", begin=kz, attach=[u, A.octets("o")], alarms=[A.call(A.ics.AudioAlarm, trigger=A.td_of(seconds=5), attach=u), A.call(A.ics.EmailAlarm, summary=w, attendees=[A.call(A.ics.Attendee, "mailto:a@x.org", {"CN": [w]})])])
        if what == "event":
            kw.update(categories=[w, "b"], attendees=[A.call(A.ics.Attendee, "mailto:b@x.org", {"CN": [w], "X": ["1", "2"]})], organizer=A.call(A.ics.Organizer, "mailto:c@x.org", {"SENT-BY": ["mailto:d"]}), geo=(1.5, 2.5))
        e = A.call(A.ics.Event if what == "event" else A.ics.Todo, **kw)
        A.get(e, "extra_params").update({"SUMMARY": {"LANGUAGE": ["de"]}, "BEGIN": {"X": ["y"]}})
        A.call(A.get(A.get(e, "extra"), "append"), A.call(A.ics.ContentLine, "X-L", {"P": ["1"]}, w))
        return e
    if what == "calendar":
        return A.call(A.ics.Calendar, events=[subject(A, "VEVENT", v), subject(A, "event", v)], todos=[subject(A, "VTODO", v), subject(A, "todo", v)])
    if what == "alarm":
        return A.get(subject(A, "event", 0), "alarms")[v % 2]
    if what == "badzone":  # cannot be written: its zone has no definition; something else comes first and after
        e = subject(A, "event", 0)
        A.set(e, "begin", A.dt("zz", A.zone("Zone/A"), unit=S))
        return e
    if what == "badcalendar":
        return A.call(A.ics.Calendar, events=[subject(A, "event", 0), subject(A, "badzone", 0)], todos=[subject(A, "todo", 0)])
    if what == "container":
        return build(A, "VEVENT", variant(A, "VEVENT", v, "0"))
    if what == "timezone":
        return A.call(A.get(A.ics.Timezone, "from_container"), build(A, "VTIMEZONE", [("TZID", {"X": ["1"]}, "z"), ("X-V", {}, "v"), ("STANDARD", [("DTSTART", {}, "20200101T000000"), ("TZOFFSETFROM", {"X": ["1"]}, "+0200"), ("TZOFFSETTO", {}, "+0100"), ("X-O", {}, "1")])]))
    if what == "builtin":
        return A.call(A.get(A.ics.Timezone, "from_tzid"), "Known/K")


def ops(A, what):
    o = ["to_container", "serialize", "str", "repr"]
    if what == "container":
        o = ["serialize", "str", "repr", "clone", "clone deep", "iter", "len", "index"]
    if what in ("VEVENT", "VTODO", "event", "todo", "badzone"):
        o += ["clone", "compare", "relations", "properties", "cmp"]
    if what in ("calendar", "badcalendar"):
        o += ["clone", "iter", "timeline", "timeline at", "timeline start_after"]
    if what in ("timezone", "builtin"):
        o += ["clone"] + (["to_builtin"] if what == "builtin" else [])
    return o


def perform(A, o, op, what):
    g = lambda n, *a, **k: A.call(A.get(o, n), *a, **k)
    if op == "to_container":
        return lines(A, g(op))
    if op in ("serialize", "to_builtin"):
        r = g(op)
        return r if op == "serialize" else None
    if op == "str":
        return A.str(o)
    if op == "repr":
        return A.repr(o)
    if op == "clone":
        return observe(A, g("clone"))
    if op == "clone deep":
        return observe(A, g("clone", deep=True))
    if op == "iter":
        return [x if isinstance(x, str) else None for x in A.iter(o)]
    if op == "len":
        return len(A.iter(o))
    if op == "index":
        return [A.show(x) for x in A.ip.getitem(o, "DTSTAMP")]
    if op == "compare":
        x = A.call(A.ics.Event if what in ("VEVENT", "event", "badzone") else A.ics.Todo, begin=A.dt("cb", A.utc, unit=S), uid="x", summary="q")
        return [A.attempt(A.get(o, n), x)[0] is True for n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__")]
    if op == "relations":
        x = A.call(A.ics.Event, begin=A.dt("cb", A.utc, unit=S), duration=A.td_of(hours=1), uid="x")
        for n in ("starts_within", "ends_within", "intersects", "includes", "is_included_in"):
            A.attempt(A.get(o, n), x)
        return None
    if op == "properties":
        return [A.show(A.attempt(A.get, o, n)[0]) for n in ("begin", "end" if what in ("VEVENT", "event", "badzone") else "due", "duration", "all_day", "floating", "timespan", "has_explicit_end") if A.attempt(A.get, o, n)[1] is None]
    if op == "cmp":
        t = A.get(o, "timespan")
        for n in ("get_begin", "get_effective_end", "get_effective_duration", "get_end_representation", "cmp_tuple", "is_floating", "is_all_day", "validate"):
            A.attempt(A.get(t, n))
        return None
    t = A.get(o, "timeline")
    if op == "timeline":
        r = A.attempt(lambda: [A.get(x, "uid") for x in A.iter(t)])
        return r[0]
    n, a = op.split()[1], (A.dt("q1", A.utc, unit=S),) if op.split()[1] in ("at", "start_after") else ()
    A.attempt(lambda: A.iter(A.call(A.get(t, n), *a)))
    return None


def pure(A, what, v, op):
    o = subject(A, what, v)
    before = observe(A, o)
    r1, e1 = A.attempt(perform, A, o, op, what)
    unchanged(A, before, o, "%s changes a %s%s" % (op, what, "" if e1 is None else " (which fails)"))
    r2, e2 = A.attempt(perform, A, o, op, what)
    unchanged(A, before, o, "a second %s changes a %s" % (op, what))
    A.require((e1 is None) == (e2 is None), lambda: "%s %s the first time and %s the second time" % (op, *("works" if e is None else "fails (%s)" % A.exc_name(e) for e in (e1, e2))))
    if e1 is not None:
        A.require(what.startswith("bad"), lambda: "%s fails: %s" % (op, A.exc_name(e1)))
    else:
        A.require(same_state(A, r1, r2), lambda: "%s gives %s and then %s" % (op, A.show(r1), A.show(r2)))
        A.require(not what.startswith("bad") or op not in ("to_container", "serialize"), "a zone without definition is written")


def agree(A, what, v):
    """the text written is the text of the container, str of a container its text"""
    o = subject(A, what, v)
    c = A.call(A.get(o, "to_container"))
    s = A.call(A.get(o, "serialize"))
    A.same_text(s, A.call(A.get(c, "serialize")), "serialize and to_container disagree")
    if what == "calendar":
        A.same_text("".join(A.iter(o)), s, "the lines of the calendar and its text disagree")
        for l in A.iter(o)[:-1]:
            A.require((l.endswith("\r\n") and "\n" not in l[:-2]), lambda: "%s is no line" % A.show(l))


def unaliased(A, what, v):
    o = subject(A, what, v)
    before = observe(A, o)
    for k in range(2):
        c = A.call(A.get(o, "to_container"))
        d = A.call(A.get(o, "to_container"))
        ex = {}
        def collect(x):
            """lines kept as extras are handed out as they are"""
            if A.isinstance(x, A.mod("ics.component").Component):
                mutables(A, A.get(x, "extra"), ex)
                for n in ("alarms", "events", "todos", "observances"):
                    for y in A.attempt(A.get, x, n)[0] or ():
                        collect(y)
        collect(o)
        mine, out, out2 = {}, {}, {}
        mutables(A, o, mine)
        mutables(A, c, out)
        mutables(A, d, out2)
        both = [(mine[i][0], out[i][0]) for i in mine if i in out and i not in ex]
        A.require(not both, lambda: "the container shares %s with the %s" % (both[:3], what))
        both = [(out2[i][0], out[i][0]) for i in out2 if i in out and i not in ex]
        A.require(not both, lambda: "two containers share %s" % (both[:3],))
        # spoil the container
        for i, (p, x) in out.items():
            if i in ex:
                continue
            if isinstance(x, dict):
                x["SPOILT"] = ["1"]
            elif isinstance(x, list) and "params" in p:
                x.append("spoilt")
            elif A.isinstance(x, A.ics.ContentLine):
                A.set(x, "value", "spoilt")
        unchanged(A, before, o, "changing what was written changes the %s" % what)


def failing_part(A, kind, i):
    """an entry that can't be written leaves no trace: the others are written as before, and so is it once repaired"""
    good = subject(A, "event", 0)
    bad = subject(A, "badzone", 0)
    ref = lines(A, A.call(A.get(good, "to_container")))
    cal = A.call(A.ics.Calendar, events=[good, bad] if i else [bad, good])
    A.raises(A.get(cal, "serialize"), _msg="a zone without definition is written", _exc=ValueError)
    A.require(A.text_eq(lines(A, A.call(A.get(good, "to_container"))), ref), "written differently after a failure")
    A.set(bad, "begin", A.dt("later", A.utc, unit=S))
    out = [x for x in lines(A, A.call(A.get(cal, "to_container"))) if x[0] == "VEVENT"]
    A.require(len(out) == 2 and A.text_eq(out[0 if i else 1][1], ref), "written differently in the calendar after a failure")


def scenarios(tier):
    out = []
    for what, vs in (("VEVENT", range(NV)), ("VTODO", range(NV)), ("event", (0,)), ("todo", (0,)), ("calendar", range(NV) if tier == "thorough" else (2, 6)), ("alarm", (0, 1)), ("badzone", (0,)), ("badcalendar", (0,)), ("container", (5, 7)),
                     ("timezone", (0,)), ("builtin", (0,))):
        for v in vs:
            for op in ops(None, what):
                out.append(Scenario("%s %s %d" % (op, what, v), pure, (what, v, op)))
            if what not in ("badzone", "badcalendar", "container"):
                out.append(Scenario("agree %s %d" % (what, v), agree, (what, v)))
                out.append(Scenario("unaliased %s %d" % (what, v), unaliased, (what, v)))
    out += [Scenario("failing part %d" % i, failing_part, ("event", i)) for i in (0, 1)]
    return out
