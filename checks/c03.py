"""<, <=, >, >= order timespans by (begin, end) - todos by (due, begin) - and entries additionally by summary, with floating
values read as local times and missing ones as a fixed early instant: one total preorder on which the four operators agree."""
from .common import *


def key(A, s):
    dflt = inst(dt.datetime(1900, 1, 1))
    b = inst(s.b) if s.b is not None else dflt
    e = inst(s.end()) if s.end() is not None else dflt
    return (e, b) if s.kind == "todo" else (b, e)


def cmp(A, k1, k2):
    for x, y in zip(k1, k2):
        if isinstance(x, str):
            c = (x > y) - (x < y)
        else:
            c = A.path.sign(x - y)
        if c:
            return c
    return 0


def order(A, v1, v2, entry):
    s1, s2 = valid_span(A, *v1, n="1"), valid_span(A, *v2, n="2")
    k1, k2 = key(A, s1), key(A, s2)
    if entry:
        n1, n2 = A.choose([(None, "a"), ("b", "a"), ("", None)] if not A.thorough else [(a, b) for a in (None, "", "a") for b in ("a", "b", None)])
        x, y = mk_entry(A, s1, n1), mk_entry(A, s2, n2)
        k1, k2 = k1 + (n1 or "",), k2 + (n2 or "",)
    else:
        x, y = mk_timespan(A, s1), mk_timespan(A, s2)
    ops = {}
    for n, f in (("<", lambda: x < y), ("<=", lambda: x <= y), (">", lambda: x > y), (">=", lambda: x >= y)):
        ops[n] = A.ip.truth(f())
    c = cmp(A, k1, k2)
    for n, w in (("<", c < 0), ("<=", c <= 0), (">", c > 0), (">=", c >= 0)):
        A.require(ops[n] == w, lambda: "%s %s %s is %s, should be %s" % (A.show(x), n, A.show(y), ops[n], w))


NAMES = [None, "", " ", "a", " a", "a ", "A", "B", "b", "aa", "a\n", "\t", "10", "9", "\u00e9", "e\u0301", "e", "\u00df", "ss", "\u0130", "i", "\U0001f600", "\uffff", "a\u200b", "'a'", "a'"] + EXOTIC


def named(A, kind, i):
    """of entries at the same time the summaries decide, as they are"""
    s = Span(kind, dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 2))
    x = mk_entry(A, s, NAMES[i])
    for n in NAMES:
        y, a, b = mk_entry(A, s, n), NAMES[i] or "", n or ""
        for op, f, w in (("<", lambda: x < y, a < b), ("<=", lambda: x <= y, a <= b), (">", lambda: x > y, a > b), (">=", lambda: x >= y, a >= b)):
            got = A.ip.truth(f())
            A.require(got == w, lambda: "an entry named %r %s one named %r is %s" % (NAMES[i], op, n, got))


def foreign(A, kind):
    x = mk_entry(A, Span(kind, when(A, "b")))
    other = A.choose([None, 3, "x", (), when(A, "o")])
    for f in (lambda: x < other, lambda: x <= other, lambda: x > other, lambda: x >= other):
        A.raises(f, _msg="comparison with an unrelated value gives an answer")


def swapped(A, kind):
    """sorting uses the same order as comparing"""
    ss = [valid_span(A, kind, "be", (None, None), n=str(i)) for i in range(3)]
    xs = [mk_entry(A, s) for s in ss]
    got = A.call(A.mod("builtins").sorted, xs)
    pos = [[i for i, x in enumerate(xs) if x is g][0] for g in got]
    ks = [key(A, ss[i]) for i in pos]
    for a, b in zip(ks, ks[1:]):
        A.require(cmp(A, a, b) <= 0, "sorted entries are out of order")


def scenarios(tier):
    out = []
    for entry in (False, True):
        for k in (("span", "event", "todo") if not entry else ("event", "todo")):
            vs = [(k, sh, (t, t), False) for sh in valid_shapes(k) for t in (None, "utc")] + [(k, "be", (None, None), True), (k, "b", (None, None), True), (k, "be", ("A", "B"), False)]
            for v1 in vs:
                for v2 in vs:
                    if tier == "quick" and entry and (v1[1] not in ("be", "-", "b") or v2[1] not in ("be", "b") or "A" in v1[2] or "A" in v2[2]):
                        continue
                    out.append(Scenario("%s <> %s%s" % (vname(v1), vname(v2), " entries" if entry else ""), order, (v1, v2, entry)))
    for k in ("event", "todo"):
        for i in range(len(NAMES)):
            out.append(Scenario("names %s %d" % (k, i), named, (k, i)))
        for v1 in ("be", "bd", "b"):
            for v2 in ("be", "b"):
                for t in (None, "utc"):
                    out.append(Scenario("microseconds %s %s <> %s %s" % (k, v1, v2, t), order, ((k, v1, (t, t), "us"), (k, v2, (None, None), "us"), False)))
    mixed = [("event", "be"), ("todo", "be"), ("todo", "e"), ("event", "b")]
    for a in mixed:
        for b in mixed:
            if a[0] != b[0]:
                out.append(Scenario("%s <> %s mixed" % (a, b), order, (a + ((None, None), False), b + (("utc", "utc"), False), True)))
    for k in ("span", "event", "todo"):
        out.append(Scenario("foreign %s" % k, foreign, (k,)))
        out.append(Scenario("sorted %s" % k, swapped, (k,)))
    return out
