"""Text is split into lines exactly at CRLF, LF and CR, blank lines are skipped, a line starting with a space or tab continues the
previous one without that character, line numbers are those of the first physical line, and nothing else is lost, joined or split;
a continuation without a line and an unsplit line are refused."""
import re
from .common import *

ALPH = ["\r\n", "\n", "\r", " ", "\t", None]
OTHER = ["\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029", "\xa0", "\x1e"]


def model(lines):
    """-> list of (line number, unfolded text), or the index of the offending line"""
    out = []
    for nr, l in enumerate(lines):
        l = re.sub("[\r\n]+$", "", l)
        if not l:
            continue
        if "\r" in l or "\n" in l:
            return None
        if l[0] in " \t":
            if not out:
                return None
            out[-1][1] += l[1:]
        else:
            out.append([nr, l])
    return [tuple(x) for x in out]


def split(txt):
    return re.split("\r\n|\n|\r", txt)


def obtain(A, f, x):
    return A.attempt(lambda: A.iter(A.call(f, x)))


def check_lines(A, got, err, want, what):
    if want is None:
        A.require(err is not None, lambda: "%s: malformed input accepted: %s" % (what, A.show(got)))
        A.require(A.is_exc(err, A.mod("ics.contentline").ParseError), lambda: "%s: %s instead of a parse error" % (what, A.exc_name(err)))
        return
    A.require(err is None, lambda: "%s failed: %s" % (what, A.exc_name(err)))
    A.require(len(got) == len(want), lambda: "%s: %d lines instead of %d: %s" % (what, len(got), len(want), A.show(got)))
    for g, (nr, l) in zip(got, want):
        n, v = l.split(":", 1)
        A.require(A.get(g, "name") == n.upper(), lambda: "%s: name %s instead of %s" % (what, A.show(A.get(g, "name")), A.show(n)))
        A.require(A.get(g, "value") == v, lambda: "%s: value %s instead of %s" % (what, A.show(A.get(g, "value")), A.show(v)))
        A.require(A.get(g, "line_nr") == nr, lambda: "%s: line number %s instead of %s" % (what, A.show(A.get(g, "line_nr")), nr))


def text(A, head, n, tail, alph):
    toks = []
    for i in range(n):
        t = A.choose(alph, "token %d" % i)
        toks.append("N%d:%s" % (i, A.text("w%d" % i)) if t is None else t)
    txt = head + "".join(toks) + tail
    want = model(split(txt))
    if want is not None and any(":" not in l for _, l in want):
        raise Skip()
    C = A.mod("ics.contentline")
    got, err = obtain(A, C.string_to_containers, txt)
    check_lines(A, got, err, want, "parsing the text")


def lines(A, n):
    """already split lines, with or without their line ends (e.g. a file object)"""
    ls = []
    for i in range(n):
        k = A.choose(["line", "cont", "tab", "blank", "torn", "lead"], "line %d" % i)
        w = A.text("w%d" % i)
        l = {"line": "N%d:%s" % (i, w), "cont": " " + w, "tab": "\t " + w, "blank": "", "torn": "N:%s\nM:%s" % (w, w), "lead": "N%d: %s " % (i, w)}[k]
        ls.append(l + A.choose(["\r\n", "", "\n"] if i == 0 or A.thorough else ["\r\n"], "line end"))
    got, err = obtain(A, A.mod("ics.contentline").lines_to_containers, list(ls))
    check_lines(A, got, err, model(ls), "parsing the lines")


def generator(A):
    """lines may come from an iterator; a whole component parses the same from text and from lines"""
    w = A.text("w")
    txt = "BEGIN:X\r\nA:%s\r\n b\r\nEND:X\r\n" % w
    C = A.mod("ics.contentline")
    a = A.iter(A.call(C.string_to_containers, txt))
    b = A.iter(A.call(C.lines_to_containers, iter(txt.splitlines(True))))
    A.require(len(a) == len(b) == 1, "one component expected")
    A.same(a[0], b[0], "text and lines give the same component")
    A.same(A.get(A.call(C.string_to_container, txt), "name"), "X", "single component")
    A.raises(C.string_to_container, txt + txt, _msg="two components where one is expected")
    A.raises(C.string_to_container, "", _msg="no component where one is expected")
    for ls, n in (([], 0), (["", "\r\n"], 0), (["A:" + w], 1), (txt.split("\r\n"), 1), (["A:" + w, " b"], 1), (["A:b", "A:b"], 2), (txt.splitlines(True) * 2, 2), (["A:b"] + txt.splitlines(True), 2), (["A:" + w] * 3, 3)):
        for f, x in ((C.lines_to_container, list(ls)), (C.lines_to_container, iter(ls)), (C.string_to_container, "\n".join(l.rstrip("\r\n") for l in ls))):
            got, err = A.attempt(f, x)
            A.require((err is None) == (n == 1), lambda: "%d items where one is expected %s" % (n, "are accepted as %s" % A.show(got) if err is None else "are refused"))
            A.require(err is None or A.is_exc(err, ValueError), lambda: "%d items are refused with %s" % (n, A.exc_name(err)))
            if err is None:
                A.same(got, A.iter(A.call(C.lines_to_containers, list(ls)))[0], "the only item")


def large(A, kind):
    """many physical lines"""
    n, e = A.choose([9, 17, 65, 130, 300], "number"), A.choose(["\r\n", "\n", "\r"], "line end")
    w = A.text("w")
    if kind == "continued":
        txt = "N:%s" % w + "".join(e + " \t"[k % 2] + "%d " % k + " " * (k % 3) for k in range(n)) + e + "M:x" + e
    elif kind == "blank":
        txt = e * n + "N:%s" % w + e * n + " y" + e * (n + 1) + "M:z" + e * n + "\tu"
    else:
        txt = "".join("N%d:%s%s" % (k, w, e * (1 + k % 3) + (" c" + e) * (k % 2)) for k in range(n))
    want = model(split(txt))
    C = A.mod("ics.contentline")
    check_lines(A, *obtain(A, C.string_to_containers, txt), want, "parsing the text")
    check_lines(A, *obtain(A, C.lines_to_containers, split(txt)), want, "parsing the lines")


def unusual(A, how):
    """only line ends separate lines, only spaces and tabs continue them"""
    w = A.text("w")
    xs = exotic(A, w)
    e = {"crlf": "\r\n", "lf": "\n", "cr": "\r"}[how]
    txt = e.join("N:%s%s \t%s" % (x, e, x) for x in xs)
    want = [(2 * i, "N:%s\t%s" % (x, x)) for i, x in enumerate(xs)]
    C = A.mod("ics.contentline")
    check_lines(A, *obtain(A, C.string_to_containers, txt), want, "parsing the text")
    check_lines(A, *obtain(A, C.lines_to_containers, txt.split(e)), want, "parsing the lines")
    for x in EXOTIC:
        if x[0] not in " \t":
            # not a continuation and not a content line
            f = A.raises(lambda: A.iter(A.call(C.string_to_containers, "N:a" + e + x + w)), _msg="a line starting with %r" % x)
            A.require(A.is_exc(f, C.ParseError), lambda: "a line starting with %r gives %s" % (x, A.exc_name(f)))


def scenarios(tier):
    n = 4 if tier == "quick" else 6
    out = [Scenario("whole component", generator)]
    for a in ALPH:
        for b in ALPH:
            head = "".join("H%d:%s" % (i, "x") if x is None else x for i, x in enumerate((a, b)))
            out.append(Scenario("text %r" % head, text, (head, n - 2, "", ALPH)))
    for a in ALPH:
        out.append(Scenario("in between %r" % a, text, ("A:1\r\nB:2" + ("C:3" if a is None else a), n - 1 if tier != "quick" else 2, "z\nE:4", ALPH)))
    out += [Scenario("large %s" % k, large, (k,)) for k in ("continued", "blank", "lines")]
    out += [Scenario("unusual characters %s" % k, unusual, (k,)) for k in ("crlf", "lf", "cr")]
    for o in OTHER:
        out.append(Scenario("not a line break %r" % o, text, ("A:1", 3, "", [o, "\r\n", " ", None])))
    out.append(Scenario("line iterables 1", lines, (1,)))
    out.append(Scenario("line iterables 2", lines, (2,)))
    out.append(Scenario("line iterables 3", lines, (3,)))
    return out
