"""Durations are written as [-]P[nD][T[nH][nM][nS]] with a number for every non-zero part and read back as the same duration; weeks,
days, hours, minutes and seconds are read with their values, a leading sign applies to the whole; UTC offsets are written as a sign,
two digits of hours and minutes, and of seconds if there are any, and read back as the same offset.  Malformed values are refused."""
from absint.dom import Num, fixed_digits
from fractions import Fraction

from .common import *

UNITS = [("W", 604800), ("D", 86400), ("H", 3600), ("M", 60), ("S", 1)]


def durations(A, sign):
    c = vconv(A, "DURATION")
    d = A.td("d", 0, 10 ** 12, unit=S)
    if sign < 0:
        A.path.assume(d.us - S)
        d = -d
    txt = A.call(A.get(c, "serialize"), d)
    # the canonical form
    p = Num(d.us.scale(Fraction(sign, S)))
    parts = [("D", p // 86400), ("H", p % 86400 // 3600), ("M", p % 3600 // 60), ("S", p % 60)]
    want, seen = ("-" if sign < 0 else "") + "P", False
    for u, n in parts:
        nz = bool(n != 0)
        if nz and u != "D" and not seen:
            want, seen = want + "T", True
        if nz:
            want += str(n) + u
    if want.endswith("P"):
        want += "T0S"
    A.same_text(txt, want, "a duration is written as")
    got = A.call(A.get(c, "parse"), txt)
    A.must_eq(got, d, "duration read back")
    A.must_eq(A.call(A.get(c, "parse"), txt, {}, {}), d, "duration read back")


def forms(A, units, sign, t):
    c = vconv(A, "DURATION")
    txt, tot = sign + "P", dt.timedelta()
    seen = False
    for u in units:
        n = A.num("n" + u, 0, 10 ** 6)
        if u in "HMS" and not seen:
            txt, seen = txt + "T", True
        txt += (str(n) if not t else "0" * t + str(n)) + u
        tot = tot + A.td_of(seconds=1) * (n * dict(UNITS)[u])
    got = A.call(A.get(c, "parse"), txt, {}, {})
    A.must_eq(got, -tot if sign == "-" else tot, "value of %s" % A.show(txt))


def refused(A, i):
    c = vconv(A, "DURATION")
    n, w = str(A.num("n", 0, 10 ** 6)), A.text("w")
    for t in (["", n, n + "D", "T" + n + "S", "+", "-", "--P" + n + "D", "P-" + n + "D", "PT-" + n + "S", " P" + n + "D"],
              ["P" + n, "PT" + n, "P" + n + "D" + n, "P" + n + "T", "PD", "PTS", "P" + n + "Y", "P" + n + "X", "PT" + n + "s", "P" + n + w],
              ["P" + n + "D" + n + "D", "PT" + n + "S" + n + "S", "P" + n + "W" + n + "W", "PT" + n + "M" + n + "M", "PT" + n + "H" + n + "H", w + "P" + n + "D", "P" + w, "p" + n + "D", "P" + n + ".5D", "P" + n + "D "])[i]:
        A.raises(A.get(c, "parse"), t, {}, {}, _msg="%s is accepted as a duration" % A.show(t))


def offsets(A, sign):
    c = vconv(A, "UTC-OFFSET")
    d = A.td("d", 0, 86399, unit=S)
    if sign < 0:
        A.path.assume(d.us - S)
        d = -d
    txt = A.call(A.get(c, "serialize"), d)
    p = Num(d.us.scale(Fraction(sign, S)))
    want = ("-" if sign < 0 else "+") + fixed_digits(p // 3600, 2) + fixed_digits(p % 3600 // 60, 2)
    if bool(p % 60 != 0):
        want += fixed_digits(p % 60, 2)
    A.same_text(txt, want, "an offset is written as")
    A.must_eq(A.call(A.get(c, "parse"), txt), d, "offset read back")
    if sign > 0:
        A.must_eq(A.call(A.get(c, "parse"), txt[1:]), d, "offset without sign")
    A.must_eq(A.call(A.get(c, "parse"), "-" + txt[1:]), -d if sign > 0 else d, "negative offset")
    for t in ("", "+", txt[:3], txt[:4], txt[0] + txt, txt + "0", txt + "Z", " " + txt, txt + "\n", "-+" + txt[1:], txt[:3] + ":" + txt[3:], txt[:1] + A.text("w") + txt[2:], "Z"):
        if len(t) == 6 and t[:-1] == txt or len(txt) == 7 and t == txt[:5]:
            continue
        A.raises(A.get(c, "parse"), t, {}, {}, _msg="%s is accepted as an offset" % A.show(t))


def long_offsets(A, sign):
    """offsets of any number of hours that have two digits"""
    c = vconv(A, "UTC-OFFSET")
    h, m, s = A.num("h", 0, 99), A.num("m", 0, 59), A.num("s", 0, 59)
    a, b, e = (fixed_digits(x, 2) for x in (h, m, s))
    for t in (a + b, a + b + e):
        d = A.call(A.get(c, "parse"), sign + t)
        A.must_eq(A.call(A.get(c, "parse"), A.call(A.get(c, "serialize"), d)), d, "offset written and read again")
    d = A.td_of(seconds=1) * (h * 3600 + m * 60)
    A.must_eq(A.call(A.get(c, "parse"), A.call(A.get(c, "serialize"), -d if sign == "-" else d)), -d if sign == "-" else d, "offset written and read again")


def offset_forms(A):
    c = vconv(A, "UTC-OFFSET")
    h, m, s = A.num("h", 0, 99), A.num("m", 0, 59), A.num("s", 0, 59)
    a, b, e = (fixed_digits(x, 2) for x in (h, m, s))
    td = A.td_of(seconds=1) * (h * 3600 + m * 60)
    for sg, f in (("+", 1), ("", 1), ("-", -1)):
        A.must_eq(A.call(A.get(c, "parse"), sg + a + b), td * f, "offset HHMM")
        A.must_eq(A.call(A.get(c, "parse"), sg + a + b + e), (td + A.td_of(seconds=1) * s) * f, "offset HHMMSS")


def scenarios(tier):
    out = [Scenario("duration sign %d" % s, durations, (s,)) for s in (1, -1)]
    names = [u for u, _ in UNITS]
    for m in range(1, 32):
        us = "".join(u for i, u in enumerate(names) if m >> i & 1)
        for sg in ("", "+", "-"):
            for t in (0, 1) if tier == "thorough" or len(us) < 2 else (0,):
                out.append(Scenario("form %s%s zeros %d" % (sg, us, t), forms, (us, sg, t)))
    out += [Scenario("refused %d" % i, refused, (i,)) for i in range(3)]
    out += [Scenario("offset sign %d" % s, offsets, (s,)) for s in (1, -1)]
    out += [Scenario("offsets of more than a day %s" % s, long_offsets, (s,)) for s in ("+", "-")]
    out.append(Scenario("offset forms", offset_forms))
    return out
