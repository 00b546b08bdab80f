"""Parameter values survive a write/read cycle for every text (quotes, carets, line feeds, separators; carriage returns are
dropped), stay on one line, never end a value, parameter or line early, and unknown caret escapes are refused."""
from .common import *

ALPH = [None, '"', "^", "\n", ",", ";", ":", "n", "'", " ", "=", "\r"]


def rt(A, head, n, where):
    v = head + joinw(A, words(A, ALPH, n))
    C = A.mod("ics.contentline")
    ps = {"single": {"P": [v]}, "first": {"P": [v, "z"], "Q": ["y"]}, "last": {"Q": ["y"], "P": ["z", v]}, "quoted": {"P": [A.call(C.QuotedParamValue, v)]}}[where]
    cl = A.call(C.ContentLine, "N", ps, "val")
    s = A.call(A.get(cl, "serialize"), wrap=None)
    A.require("\n" not in s and "\r" not in s, lambda: "%s breaks the line: %s" % (A.show(v), A.show(s)))
    got, err = A.attempt(lambda: A.iter(A.call(C.string_to_containers, s)))
    A.require(err is None, lambda: "the written parameter %s is refused: %s" % (A.show(s), A.exc_name(err)))
    A.require(len(got) == 1 and A.get(got[0], "value") == "val" and A.get(got[0], "name") == "N", lambda: "the line falls apart: %s" % A.show(got))
    gp = A.get(got[0], "params")
    want = {k: [A.str(x).replace("\r", "") for x in vs] for k, vs in ps.items()}
    A.require({k: [A.str(x) for x in vs] for k, vs in gp.items()} == want, lambda: "parameters come back as %s instead of %s" % (A.show(gp), A.show(want)))


def dec(A, head, n, quoted):
    raw = head + joinw(A, words(A, ["^", "n", "'", None, "N"], n))
    C = A.mod("ics.contentline")
    out, i, ok = "", 0, True
    while i < len(raw):
        if raw[i] == "^":
            if i + 1 >= len(raw) or raw[i + 1] not in "n^'":
                ok = False
                break
            out += {"n": "\n", "^": "^", "'": '"'}[raw[i + 1]]
            i += 2
        else:
            out += raw[i]
            i += 1
    got, err = A.attempt(lambda: A.iter(A.call(C.string_to_containers, ('N;P="%s":v' if quoted else "N;P=%s:v") % raw)))
    if not ok:
        A.require(err is not None, lambda: "the malformed escape in %s is accepted: %s" % (A.show(raw), A.show(got)))
        A.require(A.is_exc(err, C.ParseError), lambda: "%s instead of a parse error" % A.exc_name(err))
        return
    A.require(err is None, lambda: "%s is refused: %s" % (A.show(raw), A.exc_name(err)))
    A.require(A.str(A.get(got[0], "params")["P"][0]) == out, lambda: "%s is decoded as %s" % (A.show(raw), A.show(A.get(got[0], "params"))))


def large(A, kind):
    """long runs of escaped characters and many values"""
    C = A.mod("ics.contentline")
    w = A.text("w")
    if kind == "runs":
        c = A.choose(["^", '"', "\n", "^n", "^^'", '"^'], "run")
        ps = {"P%d" % k: [c * k, w + c * k, c * k + w + ","] for k in (0, 1, 2, 7, 8, 9, 10, 16, 17, 33, 64, 101)}
    else:
        n = A.choose([9, 17, 40, 101], "number")
        ps = {"P": ["%d%s%s" % (k, w, "^;\""[k % 3]) for k in range(n)]} if kind == "values" else {"P%d" % k: [w + "^,\n"[k % 3]] for k in range(n)}
    s = A.call(A.get(A.call(C.ContentLine, "N", {k: list(v) for k, v in ps.items()}, "val"), "serialize"), wrap=None)
    got, err = A.attempt(lambda: A.iter(A.call(C.string_to_containers, s)))
    A.require(err is None, lambda: "the written line %s is refused: %s" % (A.show(s), A.exc_name(err)))
    gp = A.get(got[0], "params")
    A.require(len(got) == 1 and A.get(got[0], "value") == "val" and list(gp) == list(ps), lambda: "the line falls apart: %s" % A.show(got))
    for k in ps:
        A.require([A.str(x) for x in gp[k]] == ps[k], lambda: "%s comes back as %s" % (A.show(ps[k]), A.show(gp[k])))


def unusual(A):
    C = A.mod("ics.contentline")
    vs = exotic(A) + [x + c for c in '^"\n,;:' for x in exotic(A)[: len(EXOTIC)]]
    ps = {"P%d" % (k // 9): vs[k:k + 9] for k in range(0, len(vs), 9)}
    s = A.call(A.get(A.call(C.ContentLine, "N", {k: list(v) for k, v in ps.items()}, "val"), "serialize"), wrap=None)
    got, err = A.attempt(lambda: A.iter(A.call(C.string_to_containers, s)))
    A.require(err is None, lambda: "the written line %s is refused: %s" % (A.show(s), A.exc_name(err)))
    A.require(len(got) == 1 and A.get(got[0], "value") == "val", lambda: "the line falls apart: %s" % A.show(got))
    gp = A.get(got[0], "params")
    A.require(list(gp) == list(ps), lambda: "the parameters come back as %s" % A.show(list(gp)))
    for k in ps:
        A.require([A.str(x) for x in gp[k]] == ps[k], lambda: "%s comes back as %s" % (A.show(ps[k]), A.show(gp[k])))


def scenarios(tier):
    q = tier == "quick"
    out = []
    for a in ALPH:
        t = "W" if a is None else a
        for w in ("single", "first", "last", "quoted"):
            out.append(Scenario("value %r %s" % (t, w), rt, (t, (2 if w == "single" else 1) if q else 3, w)))
    out += [Scenario("empty %s" % w, rt, ("", 0, w)) for w in ("single", "first", "last", "quoted")]
    out += [Scenario("large %s" % k, large, (k,)) for k in ("runs", "values", "params")]
    out.append(Scenario("unusual characters", unusual))
    for t in ("^", "W", "'", "^^"):
        for qd in (False, True):
            out.append(Scenario("decode %r %s" % (t, qd), dec, (t, 3 if q else 5, qd)))
    return out
