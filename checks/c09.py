"""Serialized lines are folded losslessly: wherever a line is broken, only CRLF and one space are added, unfolding gives back the
very same name, parameters and value, no physical line exceeds the configured width, and unwrapped output is one physical line."""
import re
from .common import *


def values(A):
    w = A.text("w")
    return ["", w, "%s %s" % (w, w), "  %s  " % w, w + "\t" + w + "  \t ", "-".join([w] * 9), " ".join([w] * 12), w * 40, "a. B" * 30 + "  ", "x" * 200, " " * 180,
            ("x" * 30 + " ") * 6, "é" * 90, "z" * 73, "z" * 72 + " ", "z" * 74 + "  y", "\t" * 90 + w, "ab-" * 40, "q" * 75 + " " * 3, "\\n" * 50, ";,:" * 40, "%s. %s! %s? " % (w, w, w)]


def unfold(txt):
    return re.sub("\r\n[ \t]", "", txt)


def line(A, i, ps, width):
    v = values(A)[i]
    C = A.mod("ics.contentline")
    cl = A.call(C.ContentLine, "X-NAME", {k: list(x) for k, x in ps}, v)
    flat = A.call(A.get(cl, "serialize"), wrap=None)
    A.require(isinstance(flat, str) and "\r" not in flat and "\n" not in flat, "unwrapped output has a line break")
    A.require(flat.endswith(":" + v), "unwrapped output does not end with the value")

    def go():
        s = A.call(A.get(cl, "serialize"))
        it = "".join(A.iter(A.call(A.get(cl, "serialize_iter"))))
        return s, it
    if width is None:
        outs = go()
        wmax = 75
    else:
        cm = A.call(A.mod("ics.contentline.container").contentline_set_wrap, width)
        A.call(A.get(cm, "__enter__"))
        outs = go()
        A.call(A.get(cm, "__exit__"), None, None, None)
        wmax = width or None
    for s in outs:
        A.require(unfold(s) == flat, lambda: "unfolding gives %s instead of %s" % (A.show(unfold(s)), A.show(flat)))
        phys = s.split("\r\n")
        A.require(all("\r" not in p and "\n" not in p for p in phys), "a physical line contains a stray line break")
        A.require(wmax is None or all(len(p) <= wmax for p in phys), lambda: "a physical line is longer than %s" % wmax)
        A.require(wmax is not None or len(phys) == 1, "output is folded although folding is switched off")
        A.require(all(p[:1] == " " for p in phys[1:]), "a continuation line does not start with a space")
        A.require(phys[0][:1] != " ", "the first physical line starts with a space")
    s = outs[0]
    got = A.iter(A.call(C.string_to_containers, s))
    A.require(len(got) == 1, lambda: "the folded line is parsed as %d lines" % len(got))
    A.same(got[0], cl, "the folded line parses back")


def unusual(A, k):
    """folding neither drops, changes nor counts anything else"""
    C = A.mod("ics.contentline")
    for x in EXOTIC[k::6]:
        v = ("ab" + x) * 40 + x * 80 + ("longer words " + x + " and" + x + "so ") * 6
        cl = A.call(C.ContentLine, "X-NAME", {"P": ["q" + x + x]}, v)
        flat = A.call(A.get(cl, "serialize"), wrap=None)
        A.require(flat.endswith(":" + v), lambda: "unwrapped output does not end with the value: %s" % A.show(flat))
        s = A.call(A.get(cl, "serialize"))
        A.require(unfold(s) == flat, lambda: "unfolding gives %s instead of %s" % (A.show(unfold(s)), A.show(flat)))
        A.require(all(len(p) <= 75 for p in s.split("\r\n")), "a physical line is longer than 75")
        got = A.iter(A.call(C.string_to_containers, s))
        A.require(len(got) == 1, lambda: "the folded line is parsed as %d lines" % len(got))
        A.same(got[0], cl, "the folded line parses back")


def comp(A, i, width):
    """whole components: every contained line is folded, BEGIN/END stay, the result parses back"""
    v = values(A)[i]
    C = A.mod("ics.contentline")
    inner = A.call(C.Container, "INNER", [A.call(C.ContentLine, "A", {}, v), A.call(C.ContentLine, "B", {"P": [v[:60].strip() or "p"]}, "x")])
    outer = A.call(C.Container, "OUTER", [A.call(C.ContentLine, "C", {}, v), inner, A.call(C.ContentLine, "D", {}, "y")])
    s = A.call(A.get(outer, "serialize"))
    A.require(all(len(p) <= 75 for p in s.split("\r\n")), "a physical line is longer than 75")
    flat = A.call(A.get(outer, "serialize"), wrap=None)
    A.require(unfold(s) == flat, "unfolding the component gives other text")
    A.require(A.call(A.get(outer, "serialize"), newline=True, wrap=None) == flat + "\r\n", "the final line break is optional and a CRLF")
    got = A.iter(A.call(C.string_to_containers, s))
    A.require(len(got) == 1, "the folded component is parsed as several")
    A.same(got[0], outer, "the folded component parses back")
    A.require(flat.startswith("BEGIN:OUTER\r\n") and flat.endswith("\r\nEND:OUTER"), "component delimiters")
    A.require(flat.split("\r\n")[2] == "BEGIN:INNER" and flat.split("\r\n")[5] == "END:INNER", "inner component delimiters")


def scenarios(tier):
    n = 22
    out = []
    for i in range(n):
        for ps in ((), (("P", ("v",)),), (("P", ("v w" * 20, "u")), ("Q", ("x, y:z" * 9,)))):
            for width in (None, 0) if tier == "quick" else (None, 0, 10, 76, 200, -1):
                if width == -1:
                    continue
                out.append(Scenario("value %d params %d width %s" % (i, len(ps), width), line, (i, ps, width), 60 if tier == "quick" else 2000))
        out.append(Scenario("component with value %d" % i, comp, (i, None), 60 if tier == "quick" else 2000))
    out += [Scenario("narrow value %d" % i, line, (i, (), 20), 60) for i in (1, 3, 4, 5, 8, 11, 17)]
    out += [Scenario("unusual characters %d" % k, unusual, (k,), 60) for k in range(6)]
    return out
