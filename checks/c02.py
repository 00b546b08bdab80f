"""starts/ends-within, intersects, includes, included-in follow one half-open-interval reading for timespans, events and todos
alike (floating values are local times), are dual/symmetric, and need both ends."""
from .common import *


def ends(A, s):
    b, e = s.b, s.end()
    return (inst(b) if b is not None else None), (inst(e) if e is not None else None)


def expect(A, x, op, y, want, need, msg):
    f = A.get(x, op)
    r, err = A.attempt(f, y)
    if need:
        A.require(err is not None, lambda: "%s: %s must be refused without %s, but gave %s" % (msg, op, need, A.show(r)))
        A.require(A.is_exc(err, ValueError), lambda: "%s: %s without %s raises %s" % (msg, op, need, A.exc_name(err)))
        return
    A.require(err is None, lambda: "%s: %s raised %s" % (msg, op, A.exc_name(err)))
    w = want()
    A.require((r is True or r is False) and r == w, lambda: "%s: %s is %s, should be %s" % (msg, op, A.show(r), w))


def rel(A, v1, v2, asts, op):
    s1, s2 = valid_span(A, *v1, n="1"), valid_span(A, *v2, n="2")
    x = mk_timespan(A, s1) if asts[0] else mk_entry(A, s1)
    y = mk_timespan(A, s2) if asts[1] else mk_entry(A, s2)
    (b1, e1), (b2, e2) = ends(A, s1), ends(A, s2)

    def miss(*xs):
        return [n for n, v in zip(("its begin", "its end", "the other's begin", "the other's end"), (b1, e1, b2, e2)) if v is None and n in xs] or None
    ALL = ("its begin", "its end", "the other's begin", "the other's end")
    if op == "starts_within":
        expect(A, x, op, y, lambda: le(A, b2, b1) and lt(A, b1, e2), miss(ALL[0], ALL[2], ALL[3]), "starts within")
    elif op == "ends_within":
        expect(A, x, op, y, lambda: le(A, b2, e1) and lt(A, e1, e2), miss(ALL[1], ALL[2], ALL[3]), "ends within")
        if v1[0] == "todo" and not asts[0]:
            expect(A, x, "due_within", y, lambda: le(A, b2, e1) and lt(A, e1, e2), miss(ALL[1], ALL[2], ALL[3]), "due within")
    elif op == "intersects":
        def want():
            return (le(A, b2, b1) and lt(A, b1, e2)) or (le(A, b1, b2) and lt(A, b2, e1))
        expect(A, x, op, y, want, miss(*ALL), "intersects")
        expect(A, y, op, x, want, miss(*ALL), "intersects (symmetric)")
    else:
        def want():
            return le(A, b1, b2) and lt(A, e2, e1)
        expect(A, x, "includes", y, want, miss(*ALL), "includes")
        expect(A, y, "is_included_in", x, want, miss(*ALL), "is included in (dual)")
        if asts[0]:
            expect(A, x, "__contains__", y, want, miss(*ALL), "in")


def instant(A, v1, t, asts):
    s1 = valid_span(A, *v1, n="1")
    x = mk_timespan(A, s1) if asts else mk_entry(A, s1)
    i = when(A, "i", t, unit=1 if v1[3] == "us" else S)
    b1, e1 = ends(A, s1)
    need = None if b1 is not None and e1 is not None else "begin and end"
    expect(A, x, "includes", i, lambda: le(A, b1, inst(i)) and lt(A, inst(i), e1), need, "includes instant")
    if asts:
        expect(A, x, "__contains__", i, lambda: le(A, b1, inst(i)) and lt(A, inst(i), e1), need, "instant in")


def scenarios(tier):
    out = []
    vs = {}
    for k in ("span", "event", "todo"):
        vs[k] = [(k, sh, (t, t), False) for sh in valid_shapes(k) for t in ((None, "utc") if sh == "be" or (tier == "thorough" and sh != "-") else (None,))] + [(k, "be", (None, None), True), (k, "b", (None, None), True)]
    for k1 in vs:
        for k2 in vs:
            for v1 in vs[k1]:
                for v2 in vs[k2]:
                    if tier == "quick" and not (k1 == k2 or "be" in (v1[1], v2[1])):
                        continue
                    for op in ("starts_within", "ends_within", "intersects", "includes"):
                        for asts in ((True, True), (False, False)) if tier == "quick" else ((True, True), (False, False), (True, False), (False, True)):
                            if (k1 == "span" and not asts[1] and k2 != "span") or (k2 == "span" and not asts[0] and k1 != "span") or (asts != (True, True) and k1 == k2 == "span"):
                                continue
                            if tier == "quick" and asts == (False, False) and (v1[1] != "be" or v2[1] != "be") and k1 != k2:
                                continue
                            out.append(Scenario("%s %s / %s %s" % (op, vname(v1), vname(v2), asts), rel, (v1, v2, asts, op)))
    for k in ("span", "event"):
        for sh1, sh2 in (("be", "be"), ("bd", "be"), ("be", "bd")):
            for t1, t2 in ((None, None), ("utc", None)):
                for op in ("starts_within", "ends_within", "intersects", "includes"):
                    out.append(Scenario("microseconds %s %s%s %s%s %s" % (op, sh1, t1, sh2, t2, k), rel, ((k, sh1, (t1, t1), "us"), (k, sh2, (t2, t2), "us"), (k == "span",) * 2, op)))
        out.append(Scenario("microseconds instant %s" % k, instant, ((k, "be", (None, None), "us"), None, k == "span")))
    for k in vs:
        for v in vs[k]:
            for t in (None, "utc"):
                for asts in (True, False):
                    out.append(Scenario("includes instant %s %s %s" % (vname(v), t, asts), instant, (v, t, asts)))
    return out
