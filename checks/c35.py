"""A calendar made from text, from its lines or from its container is the same; given entries come first, then the read ones; text with no or
several calendars, other components or stray lines is refused with a ValueError.  parse_multiple gives one calendar per VCALENDAR, in order,
each as if read alone.  Iterating gives the physical lines of what serialize gives; creator is the product id; str counts the entries."""
from .common import *
from .c17 import lines
from .c18 import build
from .c20 import NV, variant
from .c34 import decide


def cal_items(A, i, tag="0"):
    w = A.text("w" + tag)
    head = [("VERSION", {}, "2.0"), ("PRODID", {}, "p" + w)]
    ev = lambda v, t: ("VEVENT", variant(A, "VEVENT", v, tag + t))
    td = lambda v, t: ("VTODO", variant(A, "VTODO", v, tag + t))
    return [head, head + [ev(1, "a")], head + [td(5, "a"), ev(3, "b"), ("X-A", {"P": [w]}, w), ev(6, "c"), td(1, "d")], head + [("METHOD", {}, w), ("CALSCALE", {}, "GREGORIAN"), ("X-SUB", [("X-Y", {}, w)]), ev(2, "a")],
            [ev(7, "a"), ("VERSION", {"X": ["1"]}, "2.0"), td(6, "b"), ("PRODID", {}, w)]][i]


NC = 5


def flat(items):
    """content lines of a component"""
    out = []
    for x in items:
        if len(x) == 2:
            out += ["BEGIN:" + x[0]] + flat(x[1]) + ["END:" + x[0]]
        else:
            out.append(x[0] + "".join(";%s=%s" % (k, ",".join(v)) for k, v in x[1].items()) + ":" + x[2])
    return out


def source(A, i, how, tag="0"):
    its = cal_items(A, i, tag)
    ls = ["BEGIN:VCALENDAR"] + flat(its) + ["END:VCALENDAR"]
    if how == "container":
        return build(A, "VCALENDAR", its)
    if how == "text":
        return "\r\n".join(ls)
    if how == "text lf":
        return "\n".join(ls) + "\n"
    if how == "text gaps":
        return "\r\n\r\n" + "\r\n\r\n".join(ls) + "\r\n\r\n"
    if how == "lines":
        return ls
    if how == "ended lines":
        return [l + "\r\n" for l in ls]
    if how == "iterator":
        return iter([l + "\n" for l in ls])
    if how == "tuple":
        return tuple(ls)
    if how == "lower":
        return "\r\n".join([ls[0].lower()] + ls[1:-1] + ["end:vcalendar"])


HOWS = ("container", "text", "text lf", "text gaps", "lines", "ended lines", "iterator", "tuple", "lower")


def same(A, i, how):
    a = A.call(A.ics.Calendar, source(A, i, "container"))
    ref = A.call(A.get(A.ics.Calendar, "from_container"), source(A, i, "container"))
    b = A.call(A.ics.Calendar, source(A, i, how))
    decide(A, a, b, True, "the calendar from the container and from " + how)
    decide(A, ref, b, True, "from_container and Calendar")
    kw = A.call(A.ics.Calendar, imports=source(A, i, how))
    decide(A, kw, b, True, "imports given by name")
    m = A.call(A.get(A.ics.Calendar, "parse_multiple"), source(A, i, "text"))
    A.require(isinstance(m, list) and len(m) == 1, "parse_multiple of one calendar gives %s" % len(m))
    decide(A, m[0], b, True, "parse_multiple")
    for c in (a, ref, b, kw, m[0]):
        its = cal_items(A, i)
        A.require(A.text_eq(A.get(c, "creator"), [x[2] for x in its if x[0] == "PRODID"][0]) and A.text_eq(A.get(c, "prodid"), A.get(c, "creator")), "creator")
        ne, nt = sum(1 for x in its if x[0] == "VEVENT"), sum(1 for x in its if x[0] == "VTODO")
        A.require(len(A.get(c, "events")) == ne and len(A.get(c, "todos")) == nt, "number of entries")
        A.require(A.str(c) == "<Calendar with %d event%s and %d todo%s>" % (ne, "" if ne == 1 else "s", nt, "" if nt == 1 else "s"), lambda: "printed as %s" % A.show(A.str(c)))
        new = A.call(A.ics.Event, begin=A.dt("nb", A.utc, unit=S))
        A.get(c, "events")[:] = [new]
        tl = A.iter(A.get(c, "timeline"))
        A.require(len(tl) == 1 and tl[0] is new, "the timeline is another calendar's")


def added(A, i, how, n):
    """given entries and read ones"""
    es = [A.call(A.ics.Event, uid="given%d" % k) for k in range(n)]
    ts = [A.call(A.ics.Todo, uid="given%d" % k) for k in range(n)]
    ref = A.call(A.ics.Calendar, source(A, i, "container"))
    wrap = [list, tuple, iter][i % 3]
    c = A.call(A.ics.Calendar, source(A, i, how), wrap(es), wrap(ts)) if n else A.call(A.ics.Calendar, source(A, i, how), events=wrap(es), todos=wrap(ts), creator="me")
    for name, given in (("events", es), ("todos", ts)):
        got, want = A.get(c, name), A.get(ref, name)
        A.require(len(got) == n + len(want) and all(x is y for x, y in zip(got, given)), lambda: "given %s are %s" % (name, A.show(got)))
        for x, y in zip(got[n:], want):
            decide(A, x, y, True, "read " + name)
    for f in ("version", "prodid", "method", "scale"):
        A.require(A.text_eq(A.get(c, f), A.get(ref, f)) or A.get(c, f) is None and A.get(ref, f) is None, f)
    A.get(c, "events").append("x")
    A.require(len(es) == n, "the given list is changed")


def refused(A, k):
    one, two = source(A, 1, "text", "0"), source(A, 2, "text", "1")
    bad = ["", one + "\r\n" + two, one + "\r\n" + one, "X-A:b", one + "\r\nX-A:b", "X-A:b\r\n" + one, "BEGIN:VEVENT\r\nUID:u\r\nEND:VEVENT", "\r\n\r\n", one[:-len("\r\nEND:VCALENDAR")], one + "\r\nEND:VCALENDAR",
           "BEGIN:X\r\n" + one + "\r\nEND:X", one.replace("VERSION:2.0\r\n", ""), one + "\r\nBEGIN:VEVENT\r\nEND:VEVENT", "BEGIN:VEVENT\r\nEND:VEVENT\r\n" + one, "BEGIN:VCALENDAR\r\nEND:VCALENDAR", "VCALENDAR:x", "VCALENDAR:"][k]
    ok_multi = {0: 0, 1: 2, 2: 2, 7: 0}
    for kind in ("text", "lines"):
        src = bad if kind == "text" else bad.split("\r\n") if bad else []
        _, e = A.attempt(A.ics.Calendar, src)
        A.require(e is not None and (A.is_exc(e, ValueError) or A.is_exc(e, A.mod("ics.contentline").ParseError)), lambda: "%s %d %s" % (kind, k, "is accepted" if e is None else "is refused with " + A.exc_name(e)))
    m, e = A.attempt(A.get(A.ics.Calendar, "parse_multiple"), bad)
    if k in ok_multi:
        A.require(e is None and len(m) == ok_multi[k], lambda: "parse_multiple %s" % ("gives %d calendars" % len(m) if e is None else "fails with " + A.exc_name(e)))
    else:
        A.require(e is not None and (A.is_exc(e, ValueError) or A.is_exc(e, A.mod("ics.contentline").ParseError)), lambda: "parse_multiple of %d %s" % (k, "accepts it" if e is None else "fails with " + A.exc_name(e)))


def multiple(A, ks, sep):
    src = sep.join(source(A, k, "text", str(j)) for j, k in enumerate(ks)) + (sep if len(ks) % 2 else "")
    got = A.call(A.get(A.ics.Calendar, "parse_multiple"), src)
    A.require(isinstance(got, list) and len(got) == len(ks), lambda: "%d calendars give %s" % (len(ks), len(got)))
    for j, (c, k) in enumerate(zip(got, ks)):
        decide(A, c, A.call(A.ics.Calendar, source(A, k, "container", str(j))), True, "calendar %d of %s" % (j, ks))
        A.require(all(c is not x and A.get(c, "events") is not A.get(x, "events") for x in got[:j]), "calendars are shared")
    A.get(got[0], "events").append(A.call(A.ics.Event, uid="new"))
    again = A.call(A.get(A.ics.Calendar, "parse_multiple"), src)
    A.require(len(again) == len(ks) and not any(A.text_eq(A.get(x, "uid"), "new") for c in again for x in A.get(c, "events")), "calendars read before show up")


def crowd(A, n):
    """many calendars in one text, with many entries"""
    w = A.text("w")
    cals = [["%d-%d" % (k, j) for j in range(k * 3 % 7)] for k in range(n)]
    text = "".join("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:%d%s\r\n%sEND:VCALENDAR\r\n" % (k, w, "".join("BEGIN:%s\r\nUID:%s\r\nDTSTAMP:20200101T000000Z\r\nEND:%s\r\n" % (t, u, t) for u in us for t in ("VEVENT", "VTODO"))) for k, us in enumerate(cals))
    got = A.call(A.get(A.ics.Calendar, "parse_multiple"), text)
    A.require(len(got) == n, lambda: "%d calendars instead of %d" % (len(got), n))
    for k, (c, us) in enumerate(zip(got, cals)):
        A.require(A.text_eq(A.get(c, "prodid"), "%d%s" % (k, w)), lambda: "calendar %d is %s" % (k, A.show(A.get(c, "prodid"))))
        for f in ("events", "todos"):
            A.require([A.get(x, "uid") for x in A.get(c, f)] == us, lambda: "%s of calendar %d: %s" % (f, k, A.show([A.get(x, "uid") for x in A.get(c, f)])))


def iterate(A, i, special):
    A.path.plain_wrap = True
    c = A.call(A.ics.Calendar, source(A, i, "text"))
    if special:
        w = A.text("q")
        sp = ["\u2028", "\x85", "\x0b", "\x0c", "\x1c", "\r", "\n", "\\n", " ", "\t", "x" * 200][special - 1]
        A.set(c, "events", [A.call(A.ics.Event, uid="u", dtstamp=A.dt("st", A.utc, unit=S), summary=w + sp + w)])
    s, e = A.attempt(A.get(c, "serialize"))
    if e is not None:
        _, e2 = A.attempt(A.iter, c)
        return A.require(e2 is not None, "what can't be written can be iterated")
    for k in range(2):
        ls = A.iter(c)
        A.require(A.text_eq("".join(ls), s), "the lines don't make up what serialize gives")
        phys = s.split("\r\n")
        A.require(len([l for l in ls if l != ""]) == len(phys) and all(A.text_eq(l, p + ("\r\n" if j < len(phys) - 1 else "")) for j, (l, p) in enumerate(zip(ls, phys))), lambda: "the lines are %s" % A.show(ls))
    back = A.call(A.ics.Calendar, [l for l in ls])
    if not special:
        decide(A, back, c, True, "the calendar read from its lines")


def unusual(A, sep):
    """characters that are no line ends don't separate lines, wherever they stand"""
    A.path.plain_wrap = True
    w = A.text("w")
    vs = [c + w + c + "x" + c for c in EXOTIC]
    ls = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p" + vs[3]] + ["X-A:" + v for v in vs] + [l for k, v in enumerate(vs) for l in ("BEGIN:VTODO", "UID:%d" % k, "DTSTAMP:20200101T000000Z", "X-B:" + v, "SUMMARY:a", " " + v, "END:VTODO")] + ["END:VCALENDAR"]
    for src in (sep.join(ls), [l + sep for l in ls], iter(ls)):
        c = A.call(A.ics.Calendar, src)
        for k in range(2):
            A.require([l[2] for l in lines(A, A.get(c, "extra"))] == vs, lambda: "unknown lines %s" % A.show(lines(A, A.get(c, "extra"))))
            A.require([A.get(t, "summary") for t in A.get(c, "todos")] == ["a" + v for v in vs], lambda: "summaries %s" % A.show([A.get(t, "summary") for t in A.get(c, "todos")]))
            A.require([lines(A, A.get(t, "extra"))[0][2] for t in A.get(c, "todos")] == vs, "unknown lines of the entries")
            s = A.call(A.get(c, "serialize"))
            ls2 = A.iter(c)
            A.require("".join(ls2) == s and [l for l in ls2 if l] == [p + "\r\n" for p in s.split("\r\n")[:-1]] + [p for p in s.split("\r\n")[-1:] if p], lambda: "the lines are %s" % A.show(ls2))
            c = A.call(A.ics.Calendar, s if k else ls2)


def creators(A):
    C = A.ics.Calendar
    w = A.text("w")
    c = A.call(C)
    A.require(A.text_eq(A.get(c, "version"), "2.0") and isinstance(A.get(c, "prodid"), str) and len(A.get(c, "prodid")) > 0, "defaults")
    A.require(A.get(c, "events") == [] and A.get(c, "todos") == [] and A.get(c, "method") is None and A.get(c, "scale") is None, "a new calendar isn't empty")
    A.require(A.get(c, "events") is not A.get(A.call(C), "events"), "lists are shared")
    d = A.get(c, "prodid")
    c = A.call(C, creator=w)
    A.require(A.text_eq(A.get(c, "prodid"), w) and A.text_eq(A.get(c, "creator"), w), "creator")
    A.set(c, "creator", w + "2")
    A.require(A.text_eq(A.get(c, "prodid"), w + "2"), "setting the creator")
    A.set(c, "prodid", w + "3")
    A.require(A.text_eq(A.get(c, "creator"), w + "3"), "setting the product id")
    ls = [x for x in lines(A, A.call(A.get(c, "to_container"))) if x[0] == "PRODID"]
    A.require(A.text_eq(ls, [("PRODID", {}, w + "3")]), lambda: "written as %s" % A.show(ls))
    c = A.call(C, prodid=w, version="2.1", method=w, scale="X")
    A.require(A.text_eq([A.get(c, n) for n in ("prodid", "version", "method", "scale")], [w, "2.1", w, "X"]), "attributes")
    A.require(A.text_eq(A.get(A.call(C), "prodid"), d), "the default product id has changed")
    for x in (A.ics.Calendar, lambda **k: A.call(C, **k)):
        A.raises(A.call, C, imports=5, _msg="a number is read")


def scenarios(tier):
    out = []
    for i in range(NC):
        for how in HOWS:
            out.append(Scenario("from %s %d" % (how, i), same, (i, how)))
            for n in (0, 1, 2) if how in ("container", "text", "lines") or tier == "thorough" else ():
                out.append(Scenario("given %d and %s %d" % (n, how, i), added, (i, how, n)))
    for k in range(17):
        out.append(Scenario("refused %d" % k, refused, (k,)))
    combos = [(0, 0), (1, 2), (2, 1), (3, 4), (4, 4, 0), (0, 1, 2, 3, 4)] if tier == "quick" else [(a, b) for a in range(NC) for b in range(NC)] + [(a, b, c) for a in range(NC) for b in range(NC) for c in range(NC)]
    for ks in combos:
        for sep in ("\r\n", "\n", "\r\n\r\n")[:1 if len(ks) > 3 else 3]:
            out.append(Scenario("multiple %s %r" % (ks, sep), multiple, (ks, sep)))
    out += [Scenario("crowd %d" % n, crowd, (n,)) for n in (9, 17, 40)]
    for i in range(NC):
        out.append(Scenario("iterate %d" % i, iterate, (i, 0)))
    for sp in range(1, 12):
        out.append(Scenario("iterate special %d" % sp, iterate, (1, sp)))
    out += [Scenario("unusual characters %r" % e, unusual, (e,)) for e in ("\r\n", "\n", "\r")]
    out.append(Scenario("creators", creators, ()))
    return out
