"""Escaping a text value is the inverse of unescaping it for every text, leaves no bare separator or line break, unescaping decodes
exactly the defined escapes and refuses everything else, and joined lists of escaped texts split into the same items."""
from .common import *

ALPH = [None, "\\", ";", ",", "\n", "\r", "n", "N", ":", '"', "r", " "]


def esc(s):
    return s.replace("\\", "\\\\").replace(";", "\\;").replace(",", "\\,").replace("\n", "\\n").replace("\r", "\\r")


def unesc(s):
    out, i = "", 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            if i + 1 == len(s):
                return None
            d = s[i + 1]
            m = {";": ";", ",": ",", "n": "\n", "N": "\n", "r": "\r", "R": "\r", "\\": "\\"}
            if d not in m:
                return None
            out += m[d]
            i += 2
        elif c in ";,\n\r":
            return None
        else:
            out += c
            i += 1
    return out


def escape(A, head, n):
    s = head + joinw(A, words(A, ALPH, n))
    T = vconv(A, "TEXT")
    e = A.call(A.get(T, "serialize"), s)
    A.require(e == esc(s), lambda: "%s is escaped as %s" % (A.show(s), A.show(e)))
    A.require("\n" not in e and "\r" not in e, "a line break survives escaping")
    d = A.call(A.get(T, "parse"), e)
    A.require(d == s, lambda: "%s comes back as %s" % (A.show(s), A.show(d)))


def unescape(A, head, n):
    s = head + joinw(A, words(A, ["\\", ";", ",", "n", "N", "r", "R", None, "\n", ":", '"'], n))
    T = vconv(A, "TEXT")
    want = unesc(s)
    d, err = A.attempt(A.get(T, "parse"), s)
    if want is None:
        A.require(err is not None, lambda: "malformed text %s accepted as %s" % (A.show(s), A.show(d)))
        A.require(A.is_exc(err, ValueError), lambda: "%s instead of ValueError" % A.exc_name(err))
    else:
        A.require(err is None, lambda: "%s is refused: %s" % (A.show(s), A.exc_name(err)))
        A.require(d == want, lambda: "%s is read as %s instead of %s" % (A.show(s), A.show(d), A.show(want)))
        A.require(A.call(A.get(T, "parse"), A.call(A.get(T, "serialize"), d)) == d, "escaping again changes the text")


def lists(A, sizes):
    T = vconv(A, "TEXT")
    items = ["".join(A.text("w%d%d" % (i, j)) if t is None else t for j, t in enumerate(words(A, [None, "\\", ";", ",", "\n"], n, "item %d" % i))) for i, n in enumerate(sizes)]
    joined = A.call(A.get(T, "join_value_list"), [A.call(A.get(T, "serialize"), x) for x in items])
    parts = A.iter(A.call(A.get(T, "split_value_list"), joined))
    got = [A.call(A.get(T, "parse"), p) for p in parts]
    A.require(got == items, lambda: "the list %s comes back as %s" % (A.show(items), A.show(got)))


def large(A, kind):
    """long runs of escaped characters and long lists"""
    T = vconv(A, "TEXT")
    w = A.text("w")
    if kind == "runs":
        items = [x for k in range(0, 41) for x in ("\\" * k, w + "\\" * k, ("," if k % 2 else ";") * k + w, "\n" * k, "\\" * k + "," + w, "\\" * k + ";")]
    elif kind == "run":
        items = [w + "\\" * A.choose([9, 10, 16, 31, 64, 99, 256, 1001], "length"), w]
    else:
        items = ["%d%s" % (k, w) + ("\\" if k % 3 == 0 else "," if k % 5 == 0 else "") for k in range(A.choose([17, 33, 101, 300], "number of items"))]
    for x in items if kind != "list" else items[:9]:
        e = A.call(A.get(T, "serialize"), x)
        A.require(e == esc(x), lambda: "%s is escaped as %s" % (A.show(x), A.show(e)))
        A.require(A.call(A.get(T, "parse"), e) == x, lambda: "%s doesn't come back" % A.show(x))
    got = A.iter(A.call(A.get(T, "split_value_list"), A.call(A.get(T, "join_value_list"), [esc(x) for x in items])))
    A.require(got == [esc(x) for x in items], lambda: "a list of %d items comes back with %d: %s" % (len(items), len(got), A.show([g for g, x in zip(got, items) if g != esc(x)][:1])))


def splitting(A, head, n):
    """splitting is at exactly the commas that are not escaped"""
    s = head + joinw(A, words(A, ["\\", ",", ";", None], n))
    want, cur, i, ok = [], "", 0, True
    while i < len(s):
        if s[i] == "\\":
            if i + 1 == len(s):
                ok = False
                break
            cur += s[i:i + 2]
            i += 2
        elif s[i] == ",":
            want.append(cur)
            cur = ""
            i += 1
        else:
            cur += s[i]
            i += 1
    want.append(cur)
    T = vconv(A, "TEXT")
    got, err = A.attempt(lambda: A.iter(A.call(A.get(T, "split_value_list"), s)))
    if not ok:
        A.require(err is not None, lambda: "%s ends within an escape but is split as %s" % (A.show(s), A.show(got)))
        A.require(A.is_exc(err, ValueError), lambda: "%s instead of ValueError" % A.exc_name(err))
    else:
        A.require(err is None, lambda: "%s cannot be split: %s" % (A.show(s), A.exc_name(err)))
        A.require(got == want, lambda: "%s is split as %s instead of %s" % (A.show(s), A.show(got), A.show(want)))


def other_lists(A, typ):
    """list values of other types are plain comma lists; raw text is passed through"""
    w = [A.text("w0"), A.text("w1"), "", "a\\"]
    V = vconv(A, typ)
    j = A.call(A.get(V, "join_value_list"), list(w))
    A.require(j == ",".join(w), "joined list")
    A.require(A.iter(A.call(A.get(V, "split_value_list"), j)) == w, "split list")
    if typ == "RAWTEXT":
        s = joinw(A, words(A, [None, "\\", ";", ",", "\n"], 3))
        A.require(A.call(A.get(V, "parse"), s) == s and A.call(A.get(V, "serialize"), s) == s, "raw text is changed")


def unusual(A):
    """no character but the separators and line breaks is touched"""
    T = vconv(A, "TEXT")
    items = exotic(A)
    for x in items:
        e = A.call(A.get(T, "serialize"), x)
        A.require(e == esc(x), lambda: "%s is escaped as %s" % (A.show(x), A.show(e)))
        d, err = A.attempt(A.get(T, "parse"), e)
        A.require(err is None and d == x, lambda: "%s comes back as %s" % (A.show(x), A.show(d) if err is None else A.exc_name(err)))
    got = A.iter(A.call(A.get(T, "split_value_list"), A.call(A.get(T, "join_value_list"), [esc(x) for x in items])))
    A.require(got == [esc(x) for x in items], lambda: "the list comes back with %s" % A.show([g for g, x in zip(got, items) if g != esc(x)][:2]))


def scenarios(tier):
    q = tier == "quick"
    out = []
    for a in ALPH:
        t = "W" if a is None else a
        out.append(Scenario("escape %r" % t, escape, (t, 2 if q else 4)))
    out.append(Scenario("escape nothing", escape, ("", 0)))
    for t in ("", "\\", "W", "\\\\", ",", "\\n"):
        out.append(Scenario("unescape %r" % t, unescape, (t, 3 if q else 4)))
        out.append(Scenario("split %r" % t, splitting, (t, 4 if q else 6)))
    for sz in ((0, 0), (1,), (2,), (1, 1), (0, 1), (1, 0), (2, 1), (1, 1, 1)) + (() if q else ((2, 2), (3, 1), (2, 1, 1))):
        out.append(Scenario("list %r" % (sz,), lists, (sz,)))
    out.append(Scenario("unusual characters", unusual))
    out += [Scenario("large %s" % k, large, (k,)) for k in ("runs", "run", "list")]
    for t in ("URI", "RAWTEXT", "DATE"):
        out.append(Scenario("plain list of %s" % t, other_lists, (t,)))
    return out
