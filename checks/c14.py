"""Date-times are written as their wall clock YYYYMMDDTHHMMSS - with Z and no TZID in UTC, with a TZID in another known zone, with
neither if floating or local - and read back as the same wall clock in the same zone; dates, times of day and periods likewise;
shortened forms are completed with zeros; unknown formats, Z together with a TZID and several TZIDs are refused."""
from .common import *

UTCS = ["utc", "duutc", "stdutc", "icsutc", "zi_utc"]


def zone(A, which):
    if which in (None, "utc", "duutc", "A", "B", "local"):
        return tz(A, which)
    if which == "stdutc":
        return A.get(A.get(A.mod("datetime"), "timezone"), "utc")
    if which == "icsutc":
        return A.mod("ics.timezone").UTC
    if which == "zi_utc":
        return A.call(A.mod("zoneinfo").ZoneInfo, "UTC")
    if which == "known":
        return known_zone(A)
    if which == "known2":
        return known_zone(A, "K2")
    if which == "ics":
        return A.call(A.ics.Timezone.from_tzid if False else A.get(A.ics.Timezone, "from_tzid"), "Known/K")
    if which == "win":
        return A.call(A.get(A.ics.Timezone, "from_tzid"), "Windows W")
    raise AssertionError(which)


TZID = {"known": BUILTIN + "K", "known2": BUILTIN + "K2", "ics": BUILTIN + "K", "win": BUILTIN + "W"}


def ctx(A, kind):
    if kind == "none":
        return {}
    if kind == "empty":
        return {"context": {}}
    return {"context": A.call(A.mod("collections").defaultdict, lambda: None)}


def kind_of(which):
    return "utc" if which in UTCS else "plain" if which in (None, "local") else "zoned"


def datetimes(A, which, how):
    c = vconv(A, "DATE-TIME")
    z = zone(A, which)
    x = A.dt("x", z, unit=S)
    params = {"X": ["y"]}
    kw = ctx(A, how)
    txt = A.call(A.get(c, "serialize"), x, params, **kw)
    base = x.strftime("%Y%m%dT%H%M%S")
    k = kind_of(which)
    A.same_text(txt, base + ("Z" if k == "utc" else ""), "written")
    if k == "zoned":
        A.require(list(params) == ["X", "TZID"] and params["TZID"] == [TZID[which]], lambda: "parameters %s for a zoned value" % A.show(params))
        if kw:
            A.require(TZID[which] in kw["context"]["DatetimeAvailableTimezones"], "the zone is not made available to the rest of the calendar")
    else:
        A.require(params == {"X": ["y"]}, lambda: "parameters %s for a value without zone" % A.show(params))
    got = A.call(A.get(c, "parse"), txt, params, **kw)
    A.require(params == {"X": ["y"]}, lambda: "reading leaves parameters %s" % A.show(params))
    A.must_eq(got.replace(tzinfo=None), x.replace(tzinfo=None), "wall clock read back")
    A.require(isinstance(got, dt.datetime), "read back as something else")
    if k == "plain":
        A.require(got.tzinfo is None, "a floating value is read with a zone")
    elif k == "utc":
        A.require(got.tzinfo is not None and A.call(A.mod("ics.timezone").is_utc, got) is True, "a UTC value is read in another zone")
    else:
        A.require(A.isinstance(got.tzinfo, A.ics.Timezone) and A.get(got.tzinfo, "tzid") == TZID[which], "read back in another zone")
        if kw:
            A.require(kw["context"]["DatetimeAvailableTimezones"][TZID[which]] is got.tzinfo, "not read in the zone of the context")
        A.require(A.eq(A.call(A.get(got, "utcoffset")), A.td_of(minutes=90)), "read back with another offset")
    again = A.call(A.get(c, "serialize"), got, {}, **kw)
    A.same_text(again, txt, "written again")


FMTS = [("%Y%m%dT%H%M%S", 1), ("%Y%m%dT%H%M", 60), ("%Y%m%dT%H", 3600), ("%Y%m%d", 86400), ("%Y%m", None), ("%Y-%m-%dT%H%M%S", 1), ("%Y-%m-%d", 86400), ("%Y/%m/%d", 86400), ("%Y-%m", None)]


def formats(A, fmt, unit, z):
    c = vconv(A, "DATE-TIME")
    x = A.dt("x", None, unit=S)
    txt = x.strftime(fmt) + z
    got = A.call(A.get(c, "parse"), txt, {}, {})
    if unit is None:
        want = dt.datetime.of(x.replace(day=1).pos)
        want = dt.datetime.of(dt.floor_div(want.pos, DAY).scale(DAY))
    else:
        want = dt.datetime.of(dt.floor_div(x.pos, unit * S).scale(unit * S))
    A.must_eq(got.replace(tzinfo=None), want, "value of %s" % A.show(txt))
    A.require((got.tzinfo is None) == (not z), "zone of %s" % A.show(txt))
    if z:
        A.require(A.call(A.mod("ics.timezone").is_utc, got) is True, "a value with %s is not in UTC" % z)


def refused(A, which):
    c = vconv(A, "DATE-TIME")
    x = A.dt("x", None, unit=S)
    base = x.strftime("%Y%m%dT%H%M%S")
    w = A.text("w")
    if which == "length":
        txts = [base + "0", base[:-1], base[:9], base[:10], base[:12], base[:14], base[:7], base[:5], base[:4], base[:4] + "-", base + "00", w, "TZ", base[:8] + "T" + base[8:], base[:8] + " " + base[9:], base[:8] + "T" + w + base[10:], w + base[4:],
                base[:8] + "t" + base[9:] if False else "20201301", "20200132", "20200101T240000", "20200101T006000", "20200101T000062"]
        for t in txts:
            A.raises(A.get(c, "parse"), t, {}, {}, _msg="%s is accepted" % A.show(t))
        for t in ["", "2020", base + "+0100"]:
            A.raises(A.get(c, "parse"), t, {}, {}, _msg="%s is accepted" % A.show(t))
    elif which == "Z and TZID":
        for z in "Zz":
            A.raises(A.get(c, "parse"), base + z, {"TZID": ["Known/K"]}, {}, _msg="Z together with a TZID is accepted", _exc=ValueError)
    elif which == "TZIDs":
        A.raises(A.get(c, "parse"), base, {"TZID": ["Known/K", "Known/K2"]}, {}, _msg="two TZIDs are accepted", _exc=ValueError)
        A.raises(A.get(c, "parse"), base, {"TZID": ["Known/K", "Known/K"]}, {}, _msg="two TZIDs are accepted", _exc=ValueError)
    else:
        A.raises(A.get(c, "parse"), base, {"TZID": ["Nowhere/" + w]}, {}, _msg="an unknown TZID is accepted", _exc=ValueError)


def dates(A, form):
    c = vconv(A, "DATE")
    d = A.date("d")
    v = d if form == "date" else A.dt("d", None if form == "datetime" else A.utc, unit=S) if form != "midnight" else A.dt("d", None, unit=DAY)
    txt = A.call(A.get(c, "serialize"), v, {}, {})
    A.same_text(txt, v.strftime("%Y%m%d"), "a date is written as")
    for t, p in ((txt, {"X": ["y"]}), (v.strftime("%Y-%m-%d"), {"X": ["y"]}), (v.strftime("%Y/%m/%d"), {"X": ["y"]})):
        got = A.call(A.get(c, "parse"), t, p, {})
        A.require(isinstance(got, dt.date) and not isinstance(got, dt.datetime), "a date is read as something else")
        A.must_eq(got, v if form == "date" else v.date(), "date read back")
        A.require(p == {"X": ["y"]}, "reading a date changes its parameters")
    first = A.call(A.get(c, "parse"), v.strftime("%Y%m"), {}, {})
    A.must_eq(first, (v if form == "date" else v.date()).replace(day=1), "first day of the month")
    w = A.text("w")
    for t in [txt + "T000000", txt + "0", txt[:7], txt[:4], w, w + txt[4:], "20200230" if False else "20200140", txt + "T00"]:
        A.raises(A.get(c, "parse"), t, {}, {}, _msg="%s is accepted as a date" % A.show(t))


def times(A, which):
    c = vconv(A, "TIME")
    z = zone(A, which)
    x = A.dt("x", z, unit=S)
    t = x.timetz()
    params = {"X": ["y"]}
    context = {}
    txt = A.call(A.get(c, "serialize"), t, params, context)
    kind = kind_of(which)
    A.same_text(txt, x.strftime("%H%M%S" + ("Z" if kind == "utc" else "")), "a time is written as")
    A.require(("TZID" in params) == (kind == "zoned") and (kind != "zoned" or params["TZID"] == [TZID[which]]), lambda: "parameters %s" % A.show(params))
    got = A.call(A.get(c, "parse"), txt, params, context)
    A.require(isinstance(got, dt.time), "a time is read as something else")
    A.require(A.eq(got.replace(tzinfo=None), t.replace(tzinfo=None)), "time of day read back")
    A.require(params == {"X": ["y"]}, "reading leaves parameters %s" % A.show(params))
    if kind == "plain":
        A.require(got.tzinfo is None, "a floating time is read with a zone")
    elif kind == "utc":
        A.require(A.call(A.mod("ics.timezone").is_utc, got) is True and A.call(A.mod("ics.timezone").is_utc, got.tzinfo) is True, "a time in UTC is read in another zone")
    else:
        A.require(A.isinstance(got.tzinfo, A.ics.Timezone) and A.get(got.tzinfo, "tzid") == TZID[which], "time read in another zone")
    for f, u in (("%H%M", 60), ("%H", 3600)):
        got = A.call(A.get(c, "parse"), x.strftime(f), {}, {})
        A.require(A.eq(got, dt.time.of(dt.floor_div(dt.lin_mod(x.pos, DAY), u * S).scale(u * S))), "short time form")
        got = A.call(A.get(c, "parse"), x.strftime(f) + "Z", {}, {})
        A.require(got.tzinfo is not None, "a time with Z is read without zone")
    A.raises(A.get(c, "parse"), x.strftime("%H%M%SZ"), {"TZID": ["Known/K"]}, {}, _msg="Z together with a TZID is accepted", _exc=ValueError)
    for t in (txt + "0", txt[:3], txt[:1], "T" + txt, "240000", "0060") + (("ZZ0", "1Z") if kind == "utc" else ()):
        A.raises(A.get(c, "parse"), t, {}, {}, _msg="%s is accepted as a time" % A.show(t))


def periods(A, which, shape, how):
    c = vconv(A, "PERIOD")
    z = zone(A, which)
    b = A.dt("b", z, unit=S)
    k = kind_of(which)
    suf = "Z" if k == "utc" else ""
    if shape == "be":
        e = A.dt("e", z, unit=S)
        A.path.assume(e.pos - b.pos)
        t = A.call(A.ics.Timespan, b, e)
        want = b.strftime("%Y%m%dT%H%M%S") + suf + "/" + e.strftime("%Y%m%dT%H%M%S") + suf
    else:
        d = A.td("d", 0, 10 ** 6, unit=S)
        t = A.call(A.ics.Timespan, b, None, d)
        want = b.strftime("%Y%m%dT%H%M%S") + suf + "/" + A.call(A.get(vconv(A, "DURATION"), "serialize"), d)
    params = {"X": ["y"]}
    kw = ctx(A, how)
    txt = A.call(A.get(c, "serialize"), t, params, **kw)
    A.same_text(txt, want, "a period is written as")
    A.require(params == ({"X": ["y"], "TZID": [TZID[which]]} if k == "zoned" else {"X": ["y"]}), lambda: "parameters %s of a period" % A.show(params))
    got = A.call(A.get(c, "parse"), txt, params, **kw)
    A.require(A.isinstance(got, A.ics.Timespan), "a period is read as something else")
    A.must_eq(A.get(got, "begin_time").replace(tzinfo=None), b.replace(tzinfo=None), "begin of a period")
    zs = [A.get(got, "begin_time").tzinfo]
    if shape == "be":
        A.must_eq(A.get(got, "end_time").replace(tzinfo=None), e.replace(tzinfo=None), "end of a period")
        A.require(A.get(got, "duration") is None, "a period with end is read with a duration")
        zs.append(A.get(got, "end_time").tzinfo)
    else:
        A.must_eq(A.get(got, "duration"), d, "duration of a period")
        A.require(A.get(got, "end_time") is None, "a period with duration is read with an end")
    for y in zs:
        if k == "plain":
            A.require(y is None, "a floating period is read with a zone")
        elif k == "utc":
            A.require(A.call(A.mod("ics.timezone").is_utc, y) is True, "a UTC period is read in another zone")
        else:
            A.require(A.isinstance(y, A.ics.Timezone) and A.get(y, "tzid") == TZID[which], "a period is read in another zone")
    A.require(not A.call(A.get(got, "is_all_day")), "a period is read as all-day")


def bad_periods(A):
    c = vconv(A, "PERIOD")
    b, e = A.dt("b", None, unit=S), A.dt("e", None, unit=S)
    A.path.assume(e.pos - b.pos - 1)
    T = A.ics.Timespan
    f = "%Y%m%dT%H%M%S"
    k1, k2 = zone(A, "known"), zone(A, "known2")
    A.raises(A.get(c, "serialize"), A.call(T, None, e), {}, {}, _msg="a period without begin is written", _exc=ValueError)
    A.raises(A.get(c, "serialize"), A.call(T), {}, {}, _msg="an empty period is written", _exc=ValueError)
    A.raises(A.get(c, "serialize"), A.call(T, b), {}, {}, _msg="a period without end is written", _exc=ValueError)
    A.path.assume(e.pos - b.pos - 10 * DAY)
    for x, y in ((b.replace(tzinfo=k1), e.replace(tzinfo=k2)), (b.replace(tzinfo=k1), e.replace(tzinfo=A.utc)), (b.replace(tzinfo=A.utc), e.replace(tzinfo=k1))):
        A.raises(A.get(c, "serialize"), A.call(T, x, y), {}, {}, _msg="a period between different zones is written although it can't be read back", _exc=ValueError)
    bs, es = b.strftime(f), e.strftime(f)
    for t in (bs, bs + es, es + "/" + bs, bs + "/", "/" + es, bs + "/" + es + "/" + es, bs + "Z/" + es, bs + "/" + es + "Z", "P1D/" + es, bs + "/-P1D", bs + "/1D"):
        A.raises(lambda: A.call(A.get(c, "parse"), t, {}, {}), _msg="%s is accepted as a period" % A.show(t))


def scenarios(tier):
    out = []
    for z in [None] + UTCS + ["known", "ics", "win", "local"]:
        for how in ("none", "empty", "default") if z in (None, "utc", "known", "ics") else ("default",):
            out.append(Scenario("date-time %s context %s" % (z, how), datetimes, (z, how)))
    for f, u in FMTS:
        for z in ("", "Z", "z"):
            out.append(Scenario("format %s%s" % (f, z), formats, (f, u, z)))
    for r in ("length", "Z and TZID", "TZIDs", "unknown TZID"):
        out.append(Scenario("refused %s" % r, refused, (r,)))
    for f in ("date", "datetime", "utc", "midnight"):
        out.append(Scenario("date from %s" % f, dates, (f,)))
    for z in [None] + UTCS + ["known", "known2", "ics", "win"]:
        out.append(Scenario("time %s" % z, times, (z,)))
    for z in (None, "utc", "duutc", "known", "ics"):
        for sh in ("be", "bd"):
            for how in ("empty", "default"):
                out.append(Scenario("period %s %s context %s" % (z, sh, how), periods, (z, sh, how)))
    out.append(Scenario("refused periods", bad_periods))
    return out
