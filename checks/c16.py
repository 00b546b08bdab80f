"""Booleans, integers, floats, octets, URIs, geographic positions and persons are written in their iCalendar form and read back as the
same value; malformed booleans, numbers and positions are refused; plain value lists are joined and split at commas."""
from absint.dom import percent_format

from .common import *


def booleans(A):
    c = vconv(A, "BOOLEAN")
    for v, t in ((True, "TRUE"), (False, "FALSE")):
        A.require(A.call(A.get(c, "serialize"), v, {}, {}) == t, "%s is not written as %s" % (v, t))
        for x in (t, t.lower(), t.title(), t[0].lower() + t[1:], t[0] + t[1:].lower()):
            A.require(A.call(A.get(c, "parse"), x, {}, {}) is v, "%s is not read as %s" % (x, v))
        A.require(A.call(A.get(c, "serialize"), t.lower(), {}, {}) == t, "the text %s is not written as %s" % (t.lower(), t))
    for v, ws in ((True, ("t", "y", "yes", "on", "1")), (False, ("f", "n", "no", "off", "0"))):
        for x in ws:
            for y in (x, x.upper(), x.title()):
                A.require(A.call(A.get(c, "parse"), y, {}, {}) is v, "%s is not read as %s" % (y, v))
                A.require(A.call(A.get(c, "serialize"), y, {}, {}) == ("TRUE" if v else "FALSE"), "the text %s is not written as %s" % (y, v))
    w = A.text("w")
    for x in ("", w, "TRUE" + w, w + "FALSE", "TRUEFALSE", "TRUE ", " FALSE", "TRUE,TRUE", "2", "TRU", "NULL", "NONE"):
        A.raises(A.get(c, "parse"), x, {}, {}, _msg="%s is accepted as a boolean" % A.show(x))
        if x:
            A.raises(A.get(c, "serialize"), x, {}, {}, _msg="%s is written as a boolean" % A.show(x))


def integers(A, lo, hi):
    c = vconv(A, "INTEGER")
    n = A.num("n", lo, hi)
    t = A.call(A.get(c, "serialize"), n, {}, {})
    A.same_text(t, str(n), "an integer is written as")
    A.must_eq(A.call(A.get(c, "parse"), t, {}, {}), n, "integer read back")
    if hi > 0 and lo >= 0:
        A.must_eq(A.call(A.get(c, "parse"), "+" + t, {}, {}), n, "integer with sign")
        A.must_eq(A.call(A.get(c, "parse"), "-" + t, {}, {}), -n, "integer with sign")
        A.must_eq(A.call(A.get(c, "parse"), "00" + t, {}, {}), n, "integer with leading zeros")
    w = A.text("w")
    for x in ("", w, t + w, w + t, t + "." + t, t + "," + t, "--" + t, t + "e" + t, "0x" + t.strip("-"), "+"):
        A.raises(A.get(c, "parse"), x, {}, {}, _msg="%s is accepted as an integer" % A.show(x))


def floats(A):
    c = vconv(A, "FLOAT")
    f = A.afloat("f")
    t = A.call(A.get(c, "serialize"), f, {}, {})
    A.require(t == str(f), "a float is not written with all its digits")
    A.same(A.call(A.get(c, "parse"), t, {}, {}), f, "float read back")
    for x in (0.0, 1.5, -2.25, 1e-7, 123456789.125):
        A.require(A.call(A.get(c, "parse"), A.call(A.get(c, "serialize"), x, {}, {}), {}, {}) == x, "float %r" % x)
    for x, y in (("1", 1.0), ("-1.5", -1.5), ("+3.25", 3.25), ("1e3", 1000.0)):
        A.require(A.call(A.get(c, "parse"), x, {}, {}) == y, "text %s" % x)
    for x in ("", "1.5.2", "1,5", "x", "1.5;2", "--1"):
        A.raises(A.get(c, "parse"), x, {}, {}, _msg="%s is accepted as a float" % x)


def octets(A):
    c = vconv(A, "BINARY")
    b = A.octets("b")
    t = A.call(A.get(c, "serialize"), b, {}, {})
    A.require(isinstance(t, str), "octets are not written as text")
    got = A.call(A.get(c, "parse"), t, {}, {})
    A.require(got == b, "octets are not read back")
    for x, y in ((b"", ""), (b"a", "YQ=="), (b"\x00\xff\xfe", "AP/+"), (b"\n", "Cg==")):
        A.require(A.call(A.get(c, "serialize"), x, {}, {}) == y, "octets %r" % x)
        A.require(A.call(A.get(c, "parse"), y, {}, {}) == x, "octets %r read back" % x)


URIS = ["mailto:%s@%s.org", "http://%s.org/%s?a=%s;b=%s#%s", "%s", "", "urn:uuid:%s", "http://%s/a,b;c", "cid:%s", "http://%s:80/%s;p?q#", "tel:+1-%s", "//%s/%s", "?%s", "#%s", "data:text/plain;base64,%s", "file:///%s", "http://%s ", "http://%s#b#", "http://%s/#%s", "http://%s/?", "http://%s//", "HTTP://%s.org"]


def uris(A, i, name):
    c = vconv(A, name)
    n = URIS[i].count("%s")
    u = URIS[i] % tuple(A.text("w%d" % k) for k in range(n))
    p = {"X": ["y"]}
    v = A.call(A.get(c, "parse"), u, p, {})
    A.require(A.isinstance(v, A.mod("ics.types").URL), "a URI is read as something else")
    import urllib.parse
    want = urllib.parse.urlparse(u)
    A.require(tuple(v) == tuple(want), "the parts of %s" % A.show(u))
    A.require(A.call(A.get(c, "serialize"), v, p, {}) == want.geturl(), "%s is not written back" % A.show(u))
    A.require(A.call(A.get(c, "serialize"), u, p, {}) == u, "the text %s is not written unchanged" % A.show(u))
    A.require(p == {"X": ["y"]}, "parameters change")


def geos(A, how):
    c = vconv(A, "X-GEO")
    mk = A.mod("ics.geo").make_geo
    la, lo = A.afloat("la"), A.afloat("lo")
    g = A.call(A.mod("ics.geo").Geo, la, lo) if how == "plain" else A.call(mk, (la, lo)) if how == "tuple" else A.call(mk, {"longitude": lo, "latitude": la})
    A.require(A.get(g, "latitude") == la and A.get(g, "longitude") == lo, "latitude and longitude of a position")
    t = A.call(A.get(c, "serialize"), g, {}, {})
    six = [percent_format("%f", (x,)) for x in (la, lo)]
    A.require(t == six[0] + ";" + six[1], lambda: "a position is written as %s instead of latitude;longitude" % A.show(t))
    got = A.call(A.get(c, "parse"), t, {}, {})
    A.require(A.isinstance(got, A.mod("ics.geo").Geo), "a position is read as something else")
    A.require(A.call(A.get(c, "serialize"), got, {}, {}).count(";") == 1, "a position read back can't be written")
    for x, y, s in ((1.5, -2.25, "1.500000;-2.250000"), (-90.0, 180.0, "-90.000000;180.000000"), (0.0, 0.000001, "0.000000;0.000001"), (37.386013, -122.082932, "37.386013;-122.082932")):
        h = A.call(mk, (x, y))
        A.require(A.call(A.get(c, "serialize"), h, {}, {}) == s, "position %s" % s)
        b = A.call(A.get(c, "parse"), s, {}, {})
        A.require((A.get(b, "latitude"), A.get(b, "longitude")) == (x, y), "position %s read back" % s)
    b = A.call(A.get(c, "parse"), "1;2", {}, {})
    A.require((A.get(b, "latitude"), A.get(b, "longitude")) == (1.0, 2.0), "position 1;2")
    for s in ("", "1", "1,2", ";", "1;", ";2", "1;2;3", "x;1", "1;x"):
        A.raises(A.get(c, "parse"), s, {}, {}, _msg="%s is accepted as a position" % s)
    A.require(A.call(mk, None) is None, "no position becomes a position")


def persons(A, name, how):
    c = vconv(A, name)
    cls = A.ics.Attendee if name == "ATTENDEE" else A.ics.Organizer
    u = "mailto:%s@x.org" % A.text("u")
    ex = {"none": {}, "one": {"CN": [A.text("n")]}, "many": {"X-%s" % A.text("k"): [A.text("v"), "", 'a"b,c;d'], "CN": [A.text("n")], "ROLE": ["CHAIR"]}}[how]
    params = {k: list(v) for k, v in ex.items()}
    p = A.call(A.get(c, "parse"), u, params, {})
    A.require(A.isinstance(p, cls), "a person is read as something else")
    A.require(A.call(A.get(A.get(p, "email"), "geturl")) == u if not isinstance(A.get(p, "email"), str) else A.get(p, "email") == u, "the address of a person")
    A.require(dict(A.get(p, "extra")) == ex, lambda: "parameters %s of a person" % A.show(A.get(p, "extra")))
    A.require(params == {}, "parameters of a person are kept twice")
    out = {}
    A.require(A.call(A.get(c, "serialize"), p, out, {}) == u, "a person is not written back")
    A.require(out == ex, lambda: "a person is written with %s" % A.show(out))
    A.require(dict(A.get(p, "extra")) == ex, "writing a person changes it")
    out = {"A": ["b"]}
    A.call(A.get(c, "serialize"), p, out, {})
    A.require(out == dict(ex, A=["b"]), "other parameters get lost")
    q = A.call(cls, u, {k: list(v) for k, v in ex.items()})
    out = {}
    A.require(A.call(A.get(c, "serialize"), q, out, {}) == u and out == ex, "a constructed person is written differently")
    A.require(A.call(A.get(c, "serialize"), u, {}, {}) == u, "a plain address is written differently")


def lists(A, name):
    c = vconv(A, name)
    for n in range(1, 5):
        ws = [A.text("w%d" % i) for i in range(n)]
        A.require(A.call(A.get(c, "join_value_list"), list(ws)) == ",".join(ws), "a list of %d is joined wrongly" % n)
        A.require(A.call(A.get(c, "join_value_list"), iter(ws)) == ",".join(ws), "an iterator of %d is joined wrongly" % n)
        A.require(A.iter(A.call(A.get(c, "split_value_list"), ",".join(ws))) == ws, "a list of %d is split wrongly" % n)


NAMES = {"BINARY": bytes, "BOOLEAN": bool, "INTEGER": int, "FLOAT": float, "TEXT": str, "DATE-TIME": dt.datetime, "DATE": dt.date, "TIME": dt.time, "DURATION": dt.timedelta}


def registry(A):
    vc = A.mod("ics.valuetype.base").ValueConverter
    names, types = A.get(vc, "BY_NAME"), A.get(vc, "BY_TYPE")
    for n in ("BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "TEXT", "TIME", "URI", "UTC-OFFSET"):
        A.require(n in names and A.get(names[n], "ics_type") == n, "there is no converter for %s" % n)
        A.require(A.isinstance(names[n], vc), "the converter of %s is no converter" % n)
    for t in (A.mod("ics.geo").Geo, A.mod("ics.types").URL, A.ics.Timespan, A.ics.Attendee, A.ics.Organizer, A.mod("ics.types").UTCOffset):
        A.require(t in types and A.get(types[t], "python_type") is t, "there is no converter for a type")
    A.require(A.get(types[A.get(names["TEXT"], "python_type")], "ics_type") == "TEXT", "texts are converted as something else")
    A.require(A.get(types[A.get(names["BINARY"], "python_type")], "ics_type") == "BINARY", "octets are converted as something else")
    A.require(A.get(types[A.get(names["DATE-TIME"], "python_type")], "ics_type") == "DATE-TIME", "date-times are converted as something else")
    A.require(A.get(types[A.get(names["DURATION"], "python_type")], "ics_type") == "DURATION", "durations are converted as something else")


def scenarios(tier):
    out = [Scenario("booleans", booleans), Scenario("floats", floats), Scenario("octets", octets), Scenario("registry", registry)]
    for lo, hi in ((0, 10 ** 12), (-10 ** 12, -1), (-5, 5)):
        out.append(Scenario("integers %d %d" % (lo, hi), integers, (lo, hi)))
    for i in range(len(URIS)):
        for n in ("URI", "CAL-ADDRESS"):
            out.append(Scenario("uri %d %s" % (i, n), uris, (i, n)))
    for h in ("plain", "tuple", "dict"):
        out.append(Scenario("geo %s" % h, geos, (h,)))
    for n in ("ATTENDEE", "ORGANIZER"):
        for h in ("none", "one", "many"):
            out.append(Scenario("person %s %s" % (n, h), persons, (n, h)))
    for n in ("BINARY", "INTEGER", "FLOAT", "DATE", "DATE-TIME", "DURATION", "URI", "BOOLEAN"):
        out.append(Scenario("list %s" % n, lists, (n,)))
    return out
