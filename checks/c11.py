"""A content line name;param=value,"value";...:value is parsed into exactly that name (upper-case), those parameters in order and that
value; every line with well-formed parts serializes to one that parses back equal; malformed lines give a parse error, never
another failure or a silent misreading."""
import re
from .common import *

ID = r"[a-zA-Z0-9\u4e00-\u9fff-]+"
PV = r'"[^"]*"|[^",:;]*'
LINE = re.compile(r'(%s)((?:;%s=(?:%s)(?:,(?:%s))*)*):(.*)\Z' % (ID, ID, PV, PV), re.S)
PARAM = re.compile(r';(%s)=((?:%s)(?:,(?:%s))*)' % (ID, PV, PV))
VAL = re.compile(r'(%s)(?:,|\Z)' % PV)


def unesc(v):
    out, i = "", 0
    while i < len(v):
        if v[i] == "^":
            if i + 1 >= len(v) or v[i + 1] not in "n^'":
                return None
            out += {"n": "\n", "^": "^", "'": '"'}[v[i + 1]]
            i += 2
        else:
            out += v[i]
            i += 1
    return out


def model(txt):
    """-> (name, params, value) | "bad" (not a content line) | "lenient" (outside the grammar, may be tolerated)"""
    m = LINE.match(txt)
    if not m:
        return "lenient"
    ps = {}
    for p in PARAM.finditer(m.group(2)):
        vals, pos, s = [], 0, p.group(2)
        while True:
            x = VAL.match(s, pos)
            raw = x.group(1)
            quoted = raw.startswith('"')
            v = unesc(raw[1:-1] if quoted else raw)
            if v is None:
                return "bad"
            if not quoted and raw == "":
                return "lenient"
            vals.append((v, quoted))
            if x.end() == len(s) and not s[x.end() - 1:] == ",":
                break
            if x.end() == len(s):
                return "lenient"
            pos = x.end()
        ps[p.group(1)] = vals
    return upper(m.group(1)), ps, m.group(3)


MUST_FAIL = ["N", "", "N;P", "N;P:v", "N;P=v", "N;P=", 'N;P="v', 'N;P="v:x', 'N;P="v"x:y', 'N;P="v"x;Q=1:y', 'N;P="v" :y', "N;P=^x:y", "N;P=v^:y", 'N;P="^":y', "N;:v", "N;P=:v", "N;P=;Q=1:v", "N;=", 'N;P="a","b:c', 'N;P="a""b":c',
             'N;P=a,"b"c:d', "N;P=a;Q:v", "N;P=a;Q;R=1:v", "N;P=a;:v", 'N;P="v" "v":y', 'N;P="v" v:y', 'N;P="v"\t"v":y', 'N;P="v"\t,"v":y', 'N;P="v"=v:y']


def check_parsed(A, cl, want):
    n, ps, v = want
    A.require(A.get(cl, "name") == n, lambda: "name %s instead of %s" % (A.show(A.get(cl, "name")), A.show(n)))
    A.require(A.get(cl, "value") == v, lambda: "value %s instead of %s" % (A.show(A.get(cl, "value")), A.show(v)))
    got = A.get(cl, "params")
    A.require(list(got) == list(ps), lambda: "parameters %s instead of %s" % (A.show(list(got)), A.show(list(ps))))
    Q = A.mod("ics.contentline").QuotedParamValue
    for k in ps:
        A.require(len(got[k]) == len(ps[k]), lambda: "parameter %s has values %s instead of %s" % (A.show(k), A.show(got[k]), A.show(ps[k])))
        for g, (w, quoted) in zip(got[k], ps[k]):
            A.require(A.str(g) == w, lambda: "parameter %s has value %s instead of %s" % (A.show(k), A.show(g), A.show(w)))
            A.require(A.isinstance(g, Q) == quoted, lambda: "quoting of parameter value %s is not kept" % A.show(g))


def parse1(A, txt):
    got, err = A.attempt(lambda: A.iter(A.call(A.mod("ics.contentline").string_to_containers, txt)))
    if err is not None:
        return None, err
    A.require(len(got) == 1, lambda: "%s is read as %d lines" % (A.show(txt), len(got)))
    return got[0], None


def tokens(A, pre, alph, n, post):
    txt = pre + joinw(A, words(A, alph, n)) + post
    if not txt:
        raise Skip()
    want = model(txt)
    cl, err = parse1(A, txt)
    C = A.mod("ics.contentline")
    if err is not None:
        A.require(A.is_exc(err, C.ParseError), lambda: "%s gives %s instead of a parse error" % (A.show(txt), A.exc_name(err)))
        A.require(isinstance(want, str), lambda: "the valid line %s is refused: %s" % (A.show(txt), A.exc_name(err)))
        return
    A.require(want != "bad", lambda: "the malformed line %s is accepted as %s" % (A.show(txt), A.show(cl)))
    if want == "lenient":
        # tolerated: at least nothing may get lost
        A.require(A.get(cl, "value") == txt[len(txt) - len(A.get(cl, "value")):], lambda: "%s: the value is not the tail of the line" % A.show(txt))
    else:
        check_parsed(A, cl, want)
        s = A.call(A.get(cl, "serialize"), wrap=None)
        again, err = parse1(A, s)
        A.require(err is None, lambda: "the serialized line %s is refused" % A.show(s))
        A.same(again, cl, "serialized and parsed again")


def fails(A, txt):
    w = A.text("w")
    t = txt.replace("v", w)
    C = A.mod("ics.contentline")
    e = A.raises(lambda: [A.call(C.Parser.lines_to_contentlines, [t]) and A.iter(A.call(C.Parser.lines_to_contentlines, [t]))], _msg="the malformed line %r is accepted" % txt)
    A.require(A.is_exc(e, C.ParseError), lambda: "%r gives %s instead of a parse error" % (txt, A.exc_name(e)))
    A.require(isinstance(A.str(e), str), "the error cannot be shown")


def roundtrip(A, shape):
    """well-formed parts -> line -> the same parts"""
    C = A.mod("ics.contentline")
    alph = [None, ",", ";", ":", '"', "^", "\n", " ", "'", "n", "="]
    if len(shape) > 1 or shape == (2,):
        alph = alph if A.thorough else [None, ",", '"', "^"] if shape != (1, 2) else [None, ":", "^"]
    name = A.choose(["x-name", "N" + A.text("n")])
    ps = {}
    for i, nvals in enumerate(shape):
        vals = []
        for j in range(nvals):
            v = joinw(A, words(A, alph, 1 + (len(shape) == 1 and nvals == 1), "param value"), "p%d%d" % (i, j))
            if len(shape) == 1 and nvals == 1:
                v = A.choose([v, "", v + A.text("t")])
            vals.append(v)
        ps["P%d" % i] = vals
    val = joinw(A, words(A, [None, ";", ":", ",", '"', "=", "^", "\\"], 2 if not shape else 1 if len(shape) == 1 and shape != (2,) else 0, "value"), "v") if shape != (1,) else A.text("v") + ":;x"
    val = A.choose(["", val]) if not shape else val
    cl = A.call(C.ContentLine, name, {k: list(v) for k, v in ps.items()}, val)
    s = A.call(A.get(cl, "serialize"), wrap=None)
    A.require("\n" not in s and "\r" not in s, lambda: "the serialized line contains a line break: %s" % A.show(s))
    got, err = parse1(A, s)
    A.require(err is None, lambda: "the serialized line %s is refused: %s" % (A.show(s), A.exc_name(err)))
    A.require(A.get(got, "name") == upper(name) and A.get(got, "value") == val, lambda: "name or value changed: %s" % A.show(got))
    gp = A.get(got, "params")
    A.require(list(gp) == list(ps), "parameter names or their order changed")
    for k in ps:
        A.require([A.str(x) for x in gp[k]] == ps[k], lambda: "parameter values changed: %s instead of %s" % (A.show(gp[k]), A.show(ps[k])))
    A.same(got, cl, "parsed back")
    s2 = A.call(A.get(got, "serialize"), wrap=None)
    A.require(s2 == s, lambda: "serializing again gives %s instead of %s" % (A.show(s2), A.show(s)))


def large(A, kind):
    """long names and values, many parameters and parameter values"""
    C = A.mod("ics.contentline")
    n, w = A.choose([9, 17, 65, 130, 300], "number"), A.text("w")
    name, ps, val = "N", {"P": ["v"]}, w
    if kind == "name":
        name = "X-" + "AB-" * n + "C"
    elif kind == "value":
        val = (w + ";:,=\"^ ") * n
    elif kind == "params":
        ps = {"P-%d" % k: [w, "a%sb" % " ,;:='"[k % 6]][: 1 + k % 2] for k in range(n)}
    elif kind == "values":
        ps = {"P": ["%d%s%s" % (k, w, " ,;:='"[k % 6]) for k in range(n)], "Q": ["z"]}
    else:
        ps = {"P" * n: [(w + ";:") * n, (w + "=") * n]}
    cl = A.call(C.ContentLine, name, {k: list(v) for k, v in ps.items()}, val)
    s = A.call(A.get(cl, "serialize"), wrap=None)
    got, err = parse1(A, s)
    A.require(err is None, lambda: "the serialized line %s is refused: %s" % (A.show(s), A.exc_name(err)))
    A.require(A.get(got, "name") == name and A.get(got, "value") == val, lambda: "name or value changed: %s" % A.show(got))
    gp = A.get(got, "params")
    A.require(list(gp) == list(ps) and all([A.str(x) for x in gp[k]] == ps[k] for k in ps), lambda: "parameters changed: %s" % A.show(gp))
    A.same(got, cl, "parsed back")


def unusual(A, where):
    """no character is taken for a separator, a space, a line break or a quote that isn't one"""
    C = A.mod("ics.contentline")
    for x in exotic(A):
        name, ps, val = "N", {"P": ["z"]}, "v"
        if where == "value":
            val = x
        elif where == "param":
            ps = {"P": [x, "y"], "Q": [x]}
        else:
            ps, val = {"P": [x + ","]}, x
        cl = A.call(C.ContentLine, name, {k: list(v) for k, v in ps.items()}, val)
        s = A.call(A.get(cl, "serialize"), wrap=None)
        if where == "value":
            A.require(s == "N;P=z:" + x, lambda: "the value %s is written as %s" % (A.show(x), A.show(s)))
        got, err = parse1(A, s)
        A.require(err is None, lambda: "the serialized line %s is refused: %s" % (A.show(s), A.exc_name(err)))
        A.require(A.get(got, "name") == name and A.get(got, "value") == val, lambda: "name or value of %s changed: %s" % (A.show(x), A.show(got)))
        gp = A.get(got, "params")
        A.require(list(gp) == list(ps) and all([A.str(y) for y in gp[k]] == ps[k] for k in ps), lambda: "parameters changed: %s instead of %s" % (A.show(gp), A.show(ps)))


def quoted(A):
    """explicitly quoted parameter values stay quoted"""
    C = A.mod("ics.contentline")
    w = A.text("w")
    q = A.call(C.QuotedParamValue, w)
    cl = A.call(C.ContentLine, "n", {"P": [q, w]}, w)
    s = A.call(A.get(cl, "serialize"), wrap=None)
    A.require(s == 'N;P="%s",%s:%s' % (w, w, w), lambda: "quoting changed: %s" % A.show(s))
    got, err = parse1(A, s)
    A.require(A.isinstance(got.params["P"][0], C.QuotedParamValue) and not A.isinstance(got.params["P"][1], C.QuotedParamValue), "quoting is not kept when parsing")
    A.set(cl, "name", "other")
    A.same(A.get(cl, "name"), "OTHER", "names are upper-case")
    A.call(A.get(cl, "__setitem__"), "Q", (w,))
    A.same(A.call(A.get(cl, "__getitem__"), "Q"), [w], "assigned parameter")
    A.require(A.call(A.get(cl, "serialize"), wrap=None) == 'OTHER;P="%s",%s;Q=%s:%s' % (w, w, w, w), "assigned parameter is serialized")


def scenarios(tier):
    q = tier == "quick"
    out = []
    full = [None, ":", ";", "=", ",", '"', "^n", "^^", "^'", "^x"]
    for a in full:
        out.append(Scenario("name then %r" % (a,), tokens, ("N" + ("W" if a is None else a), full, 2 if q else 3, "")))
        out.append(Scenario("any then %r" % (a,), tokens, ("" if a is None else a, full, 2 if q else 3, ":x")))
    for a in full:
        t = "W" if a is None else a
        out.append(Scenario("param value %r" % t, tokens, ("N;P=" + t, full, 2 if q else 4, ":x")))
        out.append(Scenario("open line %r" % t, tokens, ("N;P=" + t, full, 1 if q else 3, "")))
        out.append(Scenario("second param %r" % t, tokens, ('N;P="a:b",c;Q=' + t, full, 1 if q else 3, ";R=z:x")))
        out.append(Scenario("quoted %r" % t, tokens, ('N;P="' + t, full, 1 if q else 3, '":x')))
        out.append(Scenario("value %r" % t, tokens, ("n;p=q:" + t, full, 1 if q else 3, "")))
    for f in MUST_FAIL:
        out.append(Scenario("malformed %r" % f, fails, (f,)))
    for sh in ((), (1,), (2,), (1, 1), (1, 2)) + (() if q else ((3,), (2, 2), (1, 1, 1))):
        out.append(Scenario("round trip %r" % (sh,), roundtrip, (sh,)))
    out.append(Scenario("quoted values", quoted))
    out += [Scenario("unusual characters %s" % k, unusual, (k,)) for k in ("value", "param", "both")]
    out += [Scenario("large %s" % k, large, (k,)) for k in ("name", "value", "params", "values", "param")]
    return out
