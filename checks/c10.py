"""Components are built exactly from balanced BEGIN/END lines in order (names compared case-insensitively, components with lower-case
names warned about and stored upper-case); a missing, extra-open or mismatched END is a parse error, and nothing is lost or moved."""
from .common import *

ALPH = ["BEGIN:X", "BEGIN:y", "END:X", "end:Y", "A", "begin:X", "END:Z"]
NAMES = ["X", "XX", "x", "WX", "XW", "W", "", "Xx", "END", "BEGIN", "X ", " X", "VCALENDAR", "X\t"]


class Bad(Exception):
    pass


def model(A, lines):
    it = iter(lines)

    def comp(name):
        items = []
        for n, v in it:
            if n == "BEGIN":
                items.append(comp(v))
            elif n == "END":
                if upper(v) != upper(name):
                    raise Bad
                return (upper(name), items)
            else:
                items.append((n, v))
        raise Bad
    out = []
    for n, v in it:
        if n == "BEGIN":
            out.append(comp(v))
        else:
            out.append((n, v))
    return out


def match(A, got, want, C, path):
    A.require(len(got) == len(want), lambda: "%s has %d items instead of %d: %s" % (path, len(got), len(want), A.show(got)))
    for i, (g, w) in enumerate(zip(got, want)):
        p = "%s[%d]" % (path, i)
        A.require(A.get(g, "name") == w[0], lambda: "%s is called %s instead of %s" % (p, A.show(A.get(g, "name")), w[0]))
        if isinstance(w[1], list):
            A.require(A.isinstance(g, C.Container), "%s is not a component" % p)
            match(A, A.iter(g), w[1], C, p)
        else:
            A.require(A.isinstance(g, C.ContentLine) and A.get(g, "value") == w[1], lambda: "%s has value %s" % (p, A.show(A.get(g, "value"))))


def nest(A, head, n):
    toks = list(head) + words(A, ALPH, n)
    lines = []
    for i, t in enumerate(toks):
        if t == "A":
            lines.append(("A%d" % i, A.text("v%d" % i)))
        else:
            a, b = t.split(":")
            lines.append((a.upper(), b))
    txt = "\r\n".join("%s:%s" % (("begin" if "begin" in t else "end" if "end" in t else n), v) for (n, v), t in zip(lines, toks)) + "\r\n"
    try:
        want = model(A, lines)
    except Bad:
        want = None
    C = A.mod("ics.contentline")
    nw = len(A.warnings())
    got, err = A.attempt(lambda: A.iter(A.call(C.string_to_containers, txt)))
    if want is None:
        A.require(err is not None, lambda: "unbalanced components accepted: %s" % A.show(got))
        A.require(A.is_exc(err, C.ParseError), lambda: "%s instead of a parse error" % A.exc_name(err))
        return
    A.require(err is None, lambda: "balanced components refused: %s" % A.exc_name(err))
    match(A, got, want, C, "text")
    low = any(t.endswith(":y") for t in toks)
    A.require(not low or len(A.warnings()) > nw, "no warning about a lower-case component name")
    A.require(low or len(A.warnings()) == nw, "needless warning about upper-case names")
    # and the whole thing serializes back to the same structure
    for g in got:
        if A.isinstance(g, C.Container):
            again = A.iter(A.call(C.string_to_containers, A.call(A.get(g, "serialize"), wrap=None)))
            A.require(len(again) == 1, "a component serializes to several")
            A.same(again[0], g, "a component parses back to itself")


def names(A, outer):
    """an END line closes exactly the component of the same name"""
    a, b, c = A.choose(NAMES[:6] if not outer else NAMES[:3]), A.choose(NAMES if not outer else NAMES[:7]), (A.choose(NAMES[:7]) if outer else "")
    w = A.text("w")
    f = lambda x: x.replace("W", w)
    lines = ([("BEGIN", f(outer))] if outer else []) + [("BEGIN", f(a)), ("K", "v"), ("END", f(b))] + ([("END", f(c))] if outer else [])
    try:
        want = model(A, lines)
    except Bad:
        want = None
    C = A.mod("ics.contentline")
    if A.choose(["text", "tokens"]) == "text":
        got, err = A.attempt(lambda: A.iter(A.call(C.lines_to_containers, ["%s:%s" % l for l in lines])))
    else:  # a list of content lines, not an iterator
        got, err = A.attempt(lambda: A.iter(A.call(C.Parser.contentlines_to_containers, [A.call(C.ContentLine, n, {}, v) for n, v in lines])))
    if want is None:
        A.require(err is not None, lambda: "unbalanced components accepted: %s" % A.show(got))
        A.require(A.is_exc(err, C.ParseError), lambda: "%s instead of a parse error" % A.exc_name(err))
    else:
        A.require(err is None, lambda: "balanced components refused: %s" % A.exc_name(err))
        match(A, got, want, C, "lines")


def large(A, kind):
    n = A.choose([9, 20, 40], "number")
    nest(A, {"deep": ("BEGIN:X", "A") * n + ("A", "END:X") * n, "wide": ("BEGIN:X",) + ("BEGIN:X", "A", "END:X", "A") * n + ("END:X",), "alternating": ("BEGIN:X", "BEGIN:y") * (n // 2) + ("end:Y", "END:X") * (n // 2),
             "open": ("BEGIN:X", "A") * n + ("END:X",) * (n - 1), "closed": ("BEGIN:X", "A") * n + ("END:X",) * (n + 1), "roots": ("BEGIN:X", "END:X", "A") * n, "crossed": ("BEGIN:X",) * n + ("END:X",) * (n - 1) + ("END:Z",)}[kind], 0)


def scenarios(tier):
    n = 2 if tier == "quick" else 4
    out = [Scenario("short", nest, ((), k)) for k in (0, 1)]
    for a in ALPH:
        for b in ALPH:
            out.append(Scenario("%s %s" % (a, b), nest, ((a, b), n)))
            out.append(Scenario("%s %s only" % (a, b), nest, ((a, b), 0)))
    out += [Scenario("deep %d" % i, nest, (h, 2 if tier == "quick" else 3)) for i, h in enumerate([
        ("BEGIN:X", "A", "BEGIN:y", "A", "end:Y", "A", "END:X"), ("BEGIN:X", "BEGIN:X", "BEGIN:X", "A", "END:X", "END:X"), ("A", "BEGIN:y", "end:Y", "A"),
        ("BEGIN:X", "END:X", "BEGIN:X", "A", "END:X"), ("BEGIN:X", "BEGIN:y", "END:X", "end:Y"), ("BEGIN:y", "BEGIN:X", "END:X", "BEGIN:X", "END:X")])]
    out += [Scenario("large %s" % k, large, (k,)) for k in ("deep", "wide", "alternating", "open", "closed", "roots", "crossed")]
    out += [Scenario("names in %s" % o, names, (o,)) for o in (None, "X", "XX", "W")]
    out = [s for s in out if not (s.name == "short" and s.args[1] == 0)]
    return out
