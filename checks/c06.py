"""Making an entry all-day rounds begin down and end up to whole zone-less days (at least one), keeps the end representation,
is idempotent and moves neither day border otherwise; undoing it keeps the values and allows times again."""
from .common import *


def floor_day(x):
    return dt.datetime.of(dt.floor_div(x.pos, DAY).scale(DAY))


def ceil_day(x):
    return dt.datetime.of((-dt.floor_div(-x.pos, DAY)).scale(DAY))


def expected(A, s):
    b = floor_day(s.b) if s.b is not None else None
    e = s.end()
    if e is not None:
        e = ceil_day(e)
        if b is not None and A.path.sign(e.pos - b.pos) == 0:
            e = dt.datetime.of(e.pos + DAY)
    if s.rep() == "duration":
        return Span(s.kind, b, None, dt.timedelta.of(e.pos - b.pos), True)
    return Span(s.kind, b, e, None, True)


def wholeday(A, v, via):
    s = valid_span(A, *v)
    x = mk_timespan(A, s) if via == "timespan" else mk_entry(A, s, "t")
    if s.b is not None and s.end() is not None and s.end().tzinfo is not s.b.tzinfo:
        # mixed zones: only representable when the local days are in order
        r, err = A.attempt(A.get(x, "make_all_day"))
        if err is not None:
            check_any(A, x, s if via == "entry" else s.but(kind="span"), "unchanged after the refusal")
            return
        w = expected(A, s)
        check_any(A, r if via == "timespan" else x, w.but(kind="span") if via == "timespan" else w, "all-day")
        return
    w = expected(A, s) if not s.day else s
    r = A.call(A.get(x, "make_all_day"))
    if via == "timespan":
        check_ts(A, r, w, "all-day")
        check_ts(A, x, s, "the original")
        check_ts(A, A.call(A.get(r, "make_all_day")), w, "all-day twice")
        return
    check_entry(A, x, w, "all-day")
    A.same(A.get(x, "summary"), "t", "summary")
    A.call(A.get(x, "make_all_day"))
    check_entry(A, x, w, "all-day twice")
    A.call(A.get(x, "unset_all_day"))
    u = w.but(day=False)
    check_entry(A, x, u, "all-day undone")
    # times are allowed again
    if u.b is not None and u.rep() != "end":
        n = when(A, "n")
        A.set(x, "begin", n)
        check_entry(A, x, u.but(b=n), "begin with a time of day after undoing")


def rounding(A, what):
    """the rounding helpers users may call on dates, date-times and durations"""
    U = A.mod("ics.utils")
    if what == "date-time":
        x = when(A, "x", A.choose([None, "utc", "A"]), 1)
        f, c = A.call(U.floor_datetime_to_midnight, x), A.call(U.ceil_datetime_to_midnight, x)
        for y, w in ((f, floor_day(x)), (c, ceil_day(x))):
            same_dt(A, y, dt.datetime.of(w.pos, x.tzinfo), "rounded to midnight")
    elif what == "date":
        x = A.date("x")
        A.require(A.call(U.floor_datetime_to_midnight, x) is x and A.call(U.ceil_datetime_to_midnight, x) is x, "dates are already rounded")
    elif what == "none":
        A.require(A.call(U.floor_datetime_to_midnight, None) is None and A.call(U.ceil_datetime_to_midnight, None) is None, "nothing stays nothing")
    else:
        x = A.td("x", -10 ** 12, 10 ** 12)
        f, c = A.call(U.floor_timedelta_to_days, x), A.call(U.ceil_timedelta_to_days, x)
        A.must_eq(f, dt.timedelta.of(dt.floor_div(x.us, DAY).scale(DAY)), "floored duration")
        A.must_eq(c, dt.timedelta.of((-dt.floor_div(-x.us, DAY)).scale(DAY)), "ceiled duration")


def scenarios(tier):
    out = []
    for v in variants():
        out.append(Scenario("make_all_day timespan %s" % vname(v), wholeday, (v, "timespan")))
        if v[0] != "span":
            out.append(Scenario("make_all_day entry %s" % vname(v), wholeday, (v, "entry")))
    for w in ("date-time", "date", "none", "duration"):
        out.append(Scenario("rounding %s" % w, rounding, (w,)))
    return out
