"""Every tzinfo a datetime may carry is dispatched by what it is: zones of the library are kept, UTC in all its spellings is UTC, fixed
offsets keep offset and name, named zones become the built-in ones, the local zone none; everything else is refused with a
ValueError - the same with and without a context and however often."""
from .common import *
from .c14 import zone
from .c24 import vtz
from .c18 import build

UTCS = ["utc", "duutc", "stdutc", "icsutc", "zi_utc", "tzoffset0", "fixed0", "gettz", "own utc", "zi_etc"]
FIXED = ["fixed", "fixed+", "fixed utc"]
NAMED = ["zoneinfo", "file", "file path", "known"]
LOCAL = ["tzlocal", "localtime", "etc localtime"]
REFUSED = ["tzoffset", "tzstr", "tzrange", "tzical", "user", "file unknown", "file none", "zoneinfo unknown", "zoneinfo none", "file local"]
KEPT = ["own", "ics", "win", "own mixed", "own shifted"]


def user_zone(A):
    src = ("from datetime import tzinfo, timedelta\nclass Mine(tzinfo):\n    def __init__(self, off):\n        self.off = off\n    def utcoffset(self, dt):\n        return self.off\n"
           "    def dst(self, dt):\n        return timedelta(0)\n    def tzname(self, dt):\n        return 'mine'\n")
    return A.module("user_zones", src)


def make(A, kind):
    T, D = A.mod("dateutil.tz"), A.mod("datetime")
    off = lambda: A.td("off", -86399 // 60, 86399 // 60, 60 * S)
    if kind in ("utc", "duutc", "stdutc", "icsutc", "zi_utc", "known", "ics", "win"):
        return zone(A, kind)
    if kind == "zi_etc":
        return A.call(A.mod("zoneinfo").ZoneInfo, "Etc/UTC")
    if kind == "gettz":
        return A.call(T.gettz, "UTC")
    if kind == "tzoffset0":
        return A.call(T.tzoffset, "X", 0)
    if kind == "fixed0":
        return A.call(D.timezone, A.td_of(seconds=0), "X")
    if kind == "own utc":
        return A.call(A.get(A.ics.Timezone, "from_container"), build(A, "VTIMEZONE", vtz(A, "Etc/UTC", "+0000")[1]))
    if kind == "own":
        return A.call(A.get(A.ics.Timezone, "from_container"), build(A, "VTIMEZONE", vtz(A, A.text("z"), "+0300")[1]))
    if kind in ("own mixed", "own shifted"):  # named like UTC, but another zone
        to = "+0300"
        c = build(A, "VTIMEZONE", vtz(A, "UTC" if kind == "own shifted" else "Etc/UTC", to)[1])
        z = A.call(A.get(A.ics.Timezone, "from_container"), c)
        if kind == "own mixed":
            T = A.ics.timezone
            zero, three, rs = A.td_of(seconds=0), A.td_of(seconds=3 * 3600), A.call(A.mod("dateutil.rrule").rruleset)
            obs = list(A.iter(A.get(z, "observances"))) + [A.call(A.get(T, "TimezoneDaylightObservance"), three, zero, rs, "X")]
            z = A.call(A.ics.Timezone, "Etc/UTC", obs)
        return z
    if kind == "file local":
        return A.call(T.tzfile, "/usr/local/share/" + A.text("n"))
    if kind in FIXED:
        o = off()
        A.assume(not A.eq(o, A.td_of(seconds=0)))
        return A.call(D.timezone, o, *{"fixed": [A.text("n")], "fixed+": [], "fixed utc": ["UTC"]}[kind])
    if kind == "zoneinfo":
        return A.call(A.mod("zoneinfo").ZoneInfo, "Known/" + A.text("n"))
    if kind == "file":
        return A.call(T.tzfile, "Known/" + A.text("n"))
    if kind == "file path":
        return A.call(T.tzfile, "/usr/share/zoneinfo/Known/" + A.text("n"))
    if kind == "tzlocal":
        return A.call(T.tzlocal)
    if kind == "localtime":
        return A.call(T.tzfile, "/usr/share/zoneinfo/localtime")
    if kind == "etc localtime":
        return A.call(T.tzfile, "/etc/localtime")
    if kind == "tzoffset":
        return A.call(T.tzoffset, A.text("n"), 3600)
    if kind == "tzstr":
        return A.call(T.tzstr, "EST5EDT")
    if kind == "tzrange":
        return A.call(T.tzrange, "EST")
    if kind == "tzical":
        return A.call(T.tz._tzicalvtz, A.text("n"))
    if kind == "user":
        return A.call(user_zone(A).Mine, off())
    if kind == "file unknown":
        return A.call(T.tzfile, "/some/" + A.text("n"))
    if kind == "file none":
        return A.call(T.tzfile, "", "")
    if kind == "zoneinfo unknown":
        return A.call(A.mod("zoneinfo").ZoneInfo, A.text("n"))
    if kind == "zoneinfo none":
        return A.call(A.mod("zoneinfo").ZoneInfo, None)
    raise AssertionError(kind)


def expect(A, kind, z, got, exc):
    if kind in REFUSED:
        A.require(exc is not None, lambda: "%s is converted to %s" % (kind, A.show(got)))
        A.require(A.is_exc(exc, ValueError), lambda: "%s is refused with %s" % (kind, A.exc_name(exc)))
        return
    A.require(exc is None, lambda: "%s is refused: %s" % (kind, A.exc_name(exc)))
    if kind in LOCAL:
        A.require(got is None, "the local zone is converted")
        return
    A.require(A.isinstance(got, A.ics.Timezone), "not converted to a Timezone")
    t = A.dt("t", None, unit=S)
    off = A.call(A.get(got, "utcoffset"), t) if kind != "own mixed" else None
    if kind in KEPT or kind == "own utc":
        A.require(got is z, "a Timezone is replaced")
    elif kind in UTCS:
        A.require(A.text_eq(A.get(got, "tzid"), "UTC"), "UTC is not recognized")
    if kind in UTCS:
        A.must_eq(off, A.td_of(seconds=0), "offset of UTC")
    elif kind in FIXED:
        n = A.call(A.get(z, "tzname"), None)
        A.must_eq(off, A.call(A.get(z, "utcoffset"), None), "offset")
        A.require(A.text_eq(A.get(got, "tzid"), n), "name of the zone")
        A.require(A.text_eq(A.call(A.get(got, "tzname"), t), n), "name of its time")
    elif kind in NAMED:
        A.require(A.text_eq(A.get(got, "tzid"), BUILTIN + (A.text("n") if kind != "known" else "K")), lambda: "converted to %s" % A.show(A.get(got, "tzid")))
        A.must_eq(off, A.td_of(seconds=5400), "offset")


def convert(A, kind, how):
    z = make(A, kind)
    f = A.get(A.ics.Timezone, "from_tzinfo")
    ctx = A.call(A.mod("collections").defaultdict, lambda: None)
    if how == "dict":
        ctx = {}
    if how == "none":
        expect(A, kind, z, *A.attempt(f, z))
        expect(A, kind, z, *A.attempt(f, z))
    elif how == "others":
        for k in KINDS:
            if k != kind:
                y = make(A, k)
                expect(A, k, y, *A.attempt(f, y, ctx))
        expect(A, kind, z, *A.attempt(f, z, ctx))
    else:
        for _ in range(3):
            expect(A, kind, z, *A.attempt(f, z, ctx))


KINDS = UTCS + FIXED + NAMED + LOCAL + REFUSED + KEPT


def utc(A, kind):
    """the UTC predicates agree with it"""
    z = make(A, kind)
    M = A.mod("ics.timezone")
    t = A.dt("t", None, unit=S)
    d = t.replace(tzinfo=z)
    want = kind in UTCS
    A.require(A.call(M.is_utc, z) is want, lambda: "is_utc of the zone is not %s" % want)
    A.require(A.call(M.is_utc, d) is want, lambda: "is_utc of the time is not %s" % want)
    A.require(A.call(M.is_utc, d.timetz()) is want, lambda: "is_utc of the time of day is not %s" % want)
    A.require(A.call(M.is_utc, t) is False and A.call(M.is_utc, t.time()) is False, "a floating time is UTC")
    if kind not in ("tzrange", "tzical", "tzstr", "own mixed"):
        u = A.call(M.ensure_utc, d)
        A.require(A.call(M.is_utc, u), "ensure_utc doesn't give UTC")
        A.require(A.eq(u, d), "ensure_utc changes the instant")


def in_calendar(A, kind):
    """times of an event in such a zone"""
    z = make(A, kind)
    x = A.dt("x", None, unit=S)
    e = A.call(A.ics.Event, begin=x.replace(tzinfo=z), uid="u", dtstamp=A.dt("st", A.utc, unit=S))
    cal = A.call(A.ics.Calendar, events=[e])
    text, exc = A.attempt(A.get(cal, "serialize"))
    if kind in REFUSED:
        A.require(exc is not None and A.is_exc(exc, ValueError), "a time in an unsupported zone is written or fails with %s" % A.exc_name(exc))
        return
    A.require(exc is None, "a time in a supported zone is refused")
    back = A.iter(A.get(A.call(A.ics.Calendar, text), "events"))[0]
    b = A.get(back, "begin")
    A.must_eq(b.replace(tzinfo=None), x, "wall clock")
    if kind in LOCAL:
        A.require(b.tzinfo is None, "a local time is read with a zone")
    else:
        A.require(b.tzinfo is not None, "a zoned time is read as floating")
        off = A.td_of(seconds=0) if kind in UTCS else A.td_of(seconds=5400) if kind in NAMED + ["ics", "win"] else A.td_of(seconds=3 * 3600) if kind in KEPT else A.call(A.get(z, "utcoffset"), None)
        A.must_eq(A.call(A.get(b, "utcoffset")), off, "offset")


def builtin(A, kind):
    """Timezone.from_tzid / to_builtin / is_builtin"""
    w = A.text("w")
    f = A.get(A.ics.Timezone, "from_tzid")
    if kind in ("own known", "own equal"):
        c = build(A, "VTIMEZONE", vtz(A, "Known/K", "+0300" if kind == "own known" else "+0130")[1])
        z = A.call(A.get(A.ics.Timezone, "from_container"), c)
        A.require(A.get(z, "is_builtin") is False, "an own zone is built-in")
        b = A.call(A.get(z, "to_builtin"))
        A.require(A.text_eq(A.get(b, "tzid"), BUILTIN + "K") and A.get(b, "is_builtin") is True, "the built-in zone")
        if kind == "own known":
            A.require(len(A.warnings()) == 1, "no warning for a differing zone")
        A.require(A.call(A.get(b, "to_builtin")) is b, "a built-in zone is replaced")
        A.must_eq(A.call(A.get(z, "utcoffset"), A.dt("t", None, unit=S)), A.td_of(seconds=3 * 3600 if kind == "own known" else 5400), "the own zone is changed")
    elif kind == "same observances":
        k = A.call(f, "Known/K")
        z = A.call(A.ics.Timezone, "Known/K", observances=list(A.iter(A.get(k, "observances"))))
        A.require(A.get(z, "is_builtin") is False, "an own zone is built-in")
        n = len(A.warnings())
        b = A.call(A.get(z, "to_builtin"))
        A.require(A.text_eq(A.get(b, "tzid"), BUILTIN + "K") and A.get(b, "is_builtin") is True, "the built-in zone")
        A.require(len(A.warnings()) == n, "a warning although the zones observe the same")
    elif kind == "own other":
        z = A.call(A.get(A.ics.Timezone, "from_container"), build(A, "VTIMEZONE", vtz(A, w, "+0300")[1]))
        A.raises(A.get(z, "to_builtin"), _msg="an unknown zone is built-in", _exc=ValueError)
    else:
        tzid = {"olson": "Known/" + w, "prefix": BUILTIN + w, "windows": "Windows " + w, "unknown": w, "system": "System/" + w, "utc": "UTC"}[kind]
        if kind in ("unknown", "system"):
            A.raises(f, tzid, _msg="an unknown TZID is accepted", _exc=ValueError)
        elif kind == "utc":
            A.require(A.get(A.mod("ics.timezone").UTC, "is_builtin") is True, "UTC is not built-in")
        else:
            a, b = A.call(f, tzid), A.call(f, tzid)
            for z in (a, b):
                A.require(A.text_eq(A.get(z, "tzid"), BUILTIN + w), "another zone")
                A.require(A.get(z, "is_builtin") is True, "not built-in")
            A.require(A.get(a, "observances") is not A.get(b, "observances"), "the zones share their list")


def scenarios(tier):
    out = []
    for k in KINDS:
        for how in ("none", "context", "dict", "others"):
            out.append(Scenario("convert %s %s" % (k, how), convert, (k, how)))
        out.append(Scenario("utc %s" % k, utc, (k,)))
        if k != "own mixed":
            out.append(Scenario("calendar %s" % k, in_calendar, (k,)))
    for k in ("own known", "own equal", "same observances", "own other", "olson", "prefix", "windows", "unknown", "system", "utc"):
        out.append(Scenario("builtin %s" % k, builtin, (k,)))
    return out
