"""Each accessor of an attendee or organizer reads, sets and deletes exactly its parameter: absent or empty it has its default, a value
set is the value read - also from the object written and read again, quoted or not -, several values for a single-valued one are refused
with a ValueError, and nothing else changes.  Keyword arguments are assignments; persons share nothing and are equal iff class, address and
parameters are."""
from .common import *
from .c17 import lines
from .c18 import build

SINGLE = {"sent_by": ("SENT-BY", "uri", None), "common_name": ("CN", "text", None), "directory": ("DIR", "uri", None),
          "user_type": ("CUTYPE", "text", "INDIVIDUAL"), "role": ("ROLE", "text", "REQ-PARTICIPANT"), "status": ("PARTSTAT", "text", "NEEDS-ACTION"), "rsvp": ("RSVP", "bool", False)}
MULTI = {"member": ("MEMBER", "uri", None), "delegated_to": ("DELEGATED-TO", "uri", None), "delegated_from": ("DELEGATED-FROM", "uri", None)}
ALL = {**SINGLE, **MULTI}
OF = {"Attendee": list(ALL), "Organizer": ["sent_by", "common_name", "directory"]}


def val(A, kind, i):
    """(value to set, parameter text)"""
    w = A.text("v%d" % i)
    if kind == "bool":
        return [(True, "TRUE"), (False, "FALSE")][i % 2]
    if kind == "uri":
        s = ["mailto:%s@x.org" % w, "http://%s.org/a,b;c" % w, "mailto:a,%s@x.org" % w][i % 3]
        return A.call(A.mod("urllib.parse").urlparse, s), s
    return [(w, w), (w + ", b; c: d", w + ", b; c: d"), ('"%s" ^ x' % w, '"%s" ^ x' % w), ("CHAIR", "CHAIR"), ("", ""), ("  " + w, "  " + w), (w + "\nz", w + "\nz"), ("^n", "^n")][i % 8]


def same_val(A, got, kind, text, msg):
    if kind == "uri":
        u, e = A.attempt(A.get, got, "geturl")
        A.require(e is None and A.text_eq(A.call(u), text), lambda: "%s: %s instead of %s" % (msg, A.show(got), A.show(text)))
    elif kind == "bool":
        A.require(got is (text == "TRUE"), lambda: "%s: %s instead of %s" % (msg, A.show(got), text))
    else:
        A.require(isinstance(got, str) and A.text_eq(got, text), lambda: "%s: %s instead of %s" % (msg, A.show(got), A.show(text)))


def others(A):
    return {"X-OTHER": ["1", A.text("o")], "LANGUAGE": ["de"]}


def person(A, cls, extra):
    return A.call(getattr(A.ics, cls), "mailto:q@x.org", extra)


def rest(A, p, name, msg):
    e = {k: v for k, v in A.get(p, "extra").items() if k != name}
    A.require(A.text_eq(e, others(A)), lambda: "%s: other parameters are %s" % (msg, A.show(e)))
    A.require(A.text_eq(A.get(p, "email"), "mailto:q@x.org"), msg + ": the address has changed")


def quoted(A, s):
    return A.call(A.mod("ics.contentline").QuotedParamValue, s)


def defaults(A, p, but=()):
    for n in OF[p._c.name]:
        if n not in but:
            v, d = A.get(p, n), ALL[n][2]
            A.require(v is d if d is None or d is False else A.text_eq(v, d), lambda: "%s is %s when absent" % (n, A.show(v)))


def read(A, cls, n, state, i):
    name, kind, default = ALL[n]
    v, s = val(A, kind, i)
    v2, s2 = val(A, kind, i + 1)
    ps = {"absent": None, "empty": [], "one": [s], "quoted": [quoted(A, s)], "two": [s, s2], "mixed": [s, quoted(A, s2)]}[state]
    ex = others(A)
    if ps is not None:
        ex[name] = ps
    p = person(A, cls, ex)
    before = observe(A, p)
    for k in range(2):
        got, e = A.attempt(A.get, p, n)
        if state == "absent" or state == "empty" and n in SINGLE:
            A.require(e is None and (got is default if default in (None, False) else A.text_eq(got, default)), lambda: "%s is %s when %s" % (n, A.show(got), state))
        elif n in SINGLE and len(ps) == 2:
            A.require(e is not None and A.is_exc(e, ValueError), lambda: "two values of %s %s" % (n, "give " + A.show(got) if e is None else "are refused with " + A.exc_name(e)))
        else:
            A.require(e is None, lambda: "reading %s fails with %s" % (n, A.exc_name(e)))
            if n in SINGLE:
                same_val(A, got, kind, s, n)
            else:
                want = [s, s2][:len(ps)]
                A.require(isinstance(got, list) and len(got) == len(want), lambda: "%s has %s" % (n, A.show(got)))
                for g, t in zip(got, want):
                    same_val(A, g, kind, t, n)
        defaults(A, p, (n,))
        unchanged(A, before, p, "reading %s changes the person" % n)


def write(A, cls, n, was, i):
    name, kind, default = ALL[n]
    (v, s), (v2, s2) = val(A, kind, i), val(A, kind, i + 1)
    ex = others(A)
    if was != "absent":
        ex[name] = {"empty": [], "one": [s2], "two": [s2, s]}[was]
    p = person(A, cls, ex)
    want = [s] if n in SINGLE else [s, s2]
    A.set(p, n, v if n in SINGLE else [v, v2])
    A.require(A.text_eq(A.get(p, "extra")[name], want), lambda: "%s is stored as %s" % (n, A.show(A.get(p, "extra").get(name))))
    rest(A, p, name, "setting " + n)
    got = A.get(p, n)
    for g, t in zip([got] if n in SINGLE else got, want):
        same_val(A, g, kind, t, n + " after setting it")
    A.require(n in SINGLE or len(got) == 2, n)
    defaults(A, p, (n,))
    if n in MULTI:  # any iterable, none
        A.set(p, n, iter([v2]))
        same_val(A, A.get(p, n)[0], kind, s2, "set from an iterator")
        A.set(p, n, [])
        A.require(A.get(p, n) == [], lambda: "no values are " + A.show(A.get(p, n)))
    else:
        A.set(p, n, None)
        defaults(A, p)
    c = A.call(A.get(A.call(A.ics.Event, uid="u", **({"attendees": [p]} if cls == "Attendee" else {"organizer": p})), "to_container"))
    c2, = A.iter(A.call(A.mod("ics.contentline").string_to_containers, A.call(A.get(c, "serialize"), wrap=None)))
    for x in (c, c2):
        e = A.call(A.get(A.ics.Event, "from_container"), x)
        q = A.get(e, "attendees")[0] if cls == "Attendee" else A.get(e, "organizer")
        if n in MULTI:
            A.require(not A.get(q, n), "no values are read as " + A.show(A.get(q, n)))
        defaults(A, q, (n,) if n in MULTI else ())
    for k in range(2):
        A.call(A.mod("builtins").delattr, p, n)
        A.require(name not in A.get(p, "extra"), "the parameter is still there")
        rest(A, p, name, "deleting " + n)
        defaults(A, p)


def trip(A, cls, ns, i, how):
    """set, written within an event, read again"""
    A.path.plain_wrap = True  # folding is C09's concern
    p = A.call(getattr(A.ics, cls), "mailto:q@x.org", others(A))
    vals = {}
    for j, n in enumerate(ns):
        k = ALL[n][1]
        vals[n] = [val(A, k, i + j)] + ([val(A, k, i + j + 1)] if n in MULTI else [])
        A.set(p, n, vals[n][0][0] if n in SINGLE else [v for v, _ in vals[n]])
    ev = A.call(A.ics.Event, uid="u", **({"attendees": [p]} if cls == "Attendee" else {"organizer": p}))
    c = A.call(A.get(ev, "to_container"))
    l = [x for x in lines(A, c) if x[0] == cls.upper()]
    A.require(len(l) == 1 and A.text_eq(l[0][2], "mailto:q@x.org"), lambda: "written as %s" % A.show(l))
    want = dict(others(A), **{ALL[n][0]: [s for _, s in vals[n]] for n in ns})
    A.require(A.text_eq({k: [str(x) for x in v] for k, v in l[0][1].items()}, want), lambda: "written with %s instead of %s" % (A.show(l[0][1]), A.show(want)))
    if how == "text":
        cal = A.call(A.ics.Calendar, A.call(A.get(A.call(A.ics.Calendar, events=[ev]), "serialize")))
        e2 = A.get(cal, "events")[0]
    else:
        e2 = A.call(A.get(A.ics.Event, "from_container"), c)
    q = A.get(e2, "attendees")[0] if cls == "Attendee" else A.get(e2, "organizer")
    A.require(q._c.name == cls, "read as " + q._c.name)
    for n in ns:
        got = A.get(q, n)
        got = [got] if n in SINGLE else got
        A.require(len(got) == len(vals[n]), n)
        for g, (_, s) in zip(got, vals[n]):
            same_val(A, g, ALL[n][1], s, n + " after writing and reading")
    defaults(A, q, ns)
    # changing what was read
    for n in ns:
        A.call(A.mod("builtins").delattr, q, n)
    defaults(A, q)
    for n in ns:
        A.require(A.get(p, n) is not None, "the written one has changed")


def kwargs(A, cls, ns, i):
    kw, ref = {}, person(A, cls, {})
    for j, n in enumerate(ns):
        k = ALL[n][1]
        kw[n] = val(A, k, i + j)[0] if n in SINGLE else [val(A, k, i + j)[0], val(A, k, i + j + 1)[0]]
        A.set(ref, n, kw[n])
    p = A.call(getattr(A.ics, cls), "mailto:q@x.org", **kw)
    A.require(same_state(A, observe(A, p), observe(A, ref)), lambda: "keyword arguments give %s instead of %s" % (A.show(A.get(p, "extra")), A.show(A.get(ref, "extra"))))
    A.require(A.eq(p, ref), "equal persons differ")


def split(A, cls, n, was):
    """persons made with copies of the same parameters"""
    name, kind, default = ALL[n]
    (v, s), (v2, s2) = val(A, kind, 0), val(A, kind, 1)
    ex = others(A)
    if was != "absent":
        ex[name] = {"empty": [], "one": [s2], "two": [s2, s]}[was]
    a, b = person(A, cls, dict(ex)), person(A, cls, dict(ex))
    before = observe(A, b)
    held = ex.get(name)
    was_held = None if held is None else list(held)
    A.set(a, n, v if n in SINGLE else [v, v2])
    unchanged(A, before, b, "setting %s changes another person" % n)
    A.require(held is None or A.text_eq(held, was_held), "setting %s changes the values it had" % n)
    A.call(A.mod("builtins").delattr, a, n)
    unchanged(A, before, b, "deleting %s changes another person" % n)
    A.require(held is None or A.text_eq(held, was_held), "deleting %s changes the values it had" % n)


def own(A, cls):
    C = getattr(A.ics, cls)
    a, b = A.call(C, "mailto:a@x.org"), A.call(C, "mailto:a@x.org")
    A.require(A.eq(a, b), "equal persons differ")
    A.set(a, "common_name", A.text("n"))
    A.require(A.get(b, "common_name") is None and A.get(b, "extra") == {}, "persons share their parameters")
    A.require(A.get(A.call(C, "mailto:a@x.org"), "extra") == {}, "new persons have parameters")
    A.require(not A.eq(a, b), "persons with different parameters are equal")
    A.require(not A.eq(A.call(C, "mailto:a@x.org"), A.call(C, "mailto:b@x.org")), "persons with different addresses are equal")
    o = A.call(getattr(A.ics, "Organizer" if cls == "Attendee" else "Attendee"), "mailto:a@x.org")
    A.require(not A.eq(b, o), "attendees and organizers are equal")
    for bad in ([], "x", 5, [("CN", ["x"])]):
        A.raises(C, "mailto:a@x.org", bad, _msg="parameters that are no mapping are accepted", _exc=TypeError)
    d = {"CN": ["x"]}
    c = A.call(C, "mailto:a@x.org", extra=d)
    A.require(A.text_eq(A.get(c, "common_name"), "x"), "given parameters")


def scenarios(tier):
    out = []
    full = range(8)
    for cls, ns in OF.items():
        for n in ns:
            for st in ("absent", "empty", "one", "quoted", "two", "mixed"):
                for i in full:
                    if tier == "thorough" or i < 4 or st in ("one", "quoted") and ALL[n][1] == "text":
                        out.append(Scenario("read %s.%s %s %d" % (cls, n, st, i), read, (cls, n, st, i)))
            for was in ("absent", "empty", "one", "two"):
                for i in full:
                    if tier == "thorough" or i < 3:
                        out.append(Scenario("write %s.%s %s %d" % (cls, n, was, i), write, (cls, n, was, i)))
                out.append(Scenario("split %s.%s %s" % (cls, n, was), split, (cls, n, was)))
            for how in ("container", "text"):
                for i in full:
                    out.append(Scenario("trip %s.%s %d %s" % (cls, n, i, how), trip, (cls, (n,), i, how)))
        groups = [ns, ns[::-1], ns[::2], ns[1::2]] + ([(a, b) for a in ns for b in ns if a < b] if tier == "thorough" else [])
        for g in groups:
            for how in ("container", "text"):
                for i in (0, 3) if tier == "quick" else full:
                    out.append(Scenario("trip %s %s %d %s" % (cls, "+".join(g), i, how), trip, (cls, tuple(g), i, how)))
            out.append(Scenario("kwargs %s %s" % (cls, "+".join(g)), kwargs, (cls, tuple(g), 0)))
        out.append(Scenario("own %s" % cls, own, (cls,)))
    return out
