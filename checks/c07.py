"""Replacing a zone keeps wall-clock begin/end and duration; converting keeps the instants (floating ones read as local time,
with a warning); all-day entries refuse both; a normalization applies exactly the configured action to floating and to zoned
values, on date-times, timespans, entries and whole calendars."""
from .common import *

TARGETS = [None, "utc", "A", "B"]


def replaced(s, z):
    f = lambda x: None if x is None else dt.datetime.of(x.pos, z)
    return s.but(b=f(s.b), e=f(s.e))


def converted(A, s, z):
    f = lambda x: None if x is None else conv(A, x, z)
    return s.but(b=f(s.b), e=f(s.e))


def conv(A, x, z):
    """same instant, shown in z (None: the local zone)"""
    off = local_off(A, z)
    return dt.datetime.of(inst(x) + off, z)


def local_off(A, z):
    if z is None or A.ip.is_local_tz(z):
        return dt.local_offset()
    return A.call(A.get(z, "utcoffset"), dt.datetime.of(Lin({}, 0), z)).us


def same_inst(A, got, want, z, msg):
    if want is None:
        A.require(got is None, msg + ": expected nothing")
        return
    A.require(isinstance(got, dt.datetime), msg + ": expected a date-time")
    A.require(A.path.known_eq(got.utcpos - want.utcpos if got.tzinfo is not None and want.tzinfo is not None else got.pos - inst(want) - dt.local_offset()),
              lambda: "%s: the instant changed: %s from %s" % (msg, A.show(got), A.show(want)))
    if z is not None:
        A.require(got.tzinfo is z, lambda: "%s: not in the requested zone: %s" % (msg, A.show(got)))


def valid_after(A, s):
    return s.valid(A)


def tzop(A, v, op, target, via):
    s = valid_span(A, *v)
    z = tz(A, target)
    x = mk_timespan(A, s) if via == "timespan" else mk_entry(A, s)
    nw = len(A.warnings())
    r, err = A.attempt(A.get(x, op), z)
    chk = s.kind if via == "entry" else "span"
    if s.day:
        A.require(err is not None, "an all-day entry's zone was changed")
        check_any(A, x, s.but(kind=chk), "unchanged all-day")
        return
    if op == "replace_timezone":
        w = replaced(s, z)
    else:
        if z is None:
            A.require(err is None, lambda: "conversion to the local zone failed: %s" % (A.exc_name(err) if err else ""))
            g = r if via == "timespan" else A.get(x, "timespan")
            for n, o in (("begin_time", s.b), ("end_time", s.e)):
                got = A.get(g, n)
                A.require((got is None) == (o is None), "%s appeared or vanished" % n)
                if got is not None:
                    A.require(got.tzinfo is not None and A.path.known_eq(got.utcpos - inst(o)), lambda: "instant of %s changed" % n)
            same_td(A, A.get(g, "duration"), s.d, "duration")
            return
        w = converted(A, s, z)
    if not w.valid(A):
        A.require(err is not None, lambda: "%s gave an invalid timespan" % op)
        check_any(A, x, s.but(kind=chk), "unchanged")
        return
    A.require(err is None, lambda: "%s failed: %s" % (op, A.exc_name(err)))
    check_any(A, r if via == "timespan" else x, w.but(kind=chk), op)
    if via == "timespan":
        check_ts(A, x, s, "the original")
    if op == "convert_timezone" and s.floating() and (s.b is not None or s.e is not None):
        A.require(len(A.warnings()) > nw, "no warning about interpreting a floating value as local time")
    if op == "convert_timezone" and not s.floating():
        A.require(len(A.warnings()) == nw, "warning although nothing is floating")


def action(A, k):
    N = A.mod("ics.timespan").NormalizationAction
    return {"ignore": lambda: A.get(N, "IGNORE"), "replace": lambda: A.get(N, "REPLACE"), "convert": lambda: A.get(N, "CONVERT"), "true": lambda: True, "false": lambda: False}[k]()


ACT = {"ignore": None, "false": None, "replace": "replace", "convert": "convert", "true": "convert"}


def norm(A, fl, wt, target, lazy, what, z):
    zz = tz(A, target)
    repl = zz
    if lazy:
        repl = A.get(_holder(A, zz), "get")
    kw = {}
    if fl != "default":
        kw["normalize_floating"] = action(A, fl)
    if wt != "default":
        kw["normalize_with_tz"] = action(A, wt)
    n = A.call(A.mod("ics.timespan").Normalization, repl, **kw)
    floating = z is None
    act = ACT.get(fl if floating else wt, "convert")
    if what == "date-time":
        x = when(A, "x", z)
        got = A.call(A.get(n, "normalize"), x)
        check(A, got, x, act, zz)
        return
    if what == "date":
        x = A.date("x")
        got = A.call(A.get(n, "normalize"), x)
        check(A, got, dt.datetime.of(x.pos), act, zz)
        return
    if what == "none":
        A.require(A.call(A.get(n, "normalize"), None) is None, "normalizing nothing gives something")
        return
    s = valid_span(A, "todo" if what in ("todo", "cal") else "event" if what == "event" else "span", "be", (z, z))
    if what == "timespan":
        x = mk_timespan(A, s)
        r = A.call(A.get(n, "normalize"), x)
        check_ts(A, x, s, "the original timespan")
        g = r
    else:
        x = mk_entry(A, s, "t")
        r = A.call(A.get(n, "normalize"), x)
        A.require(r is x, "normalizing an entry returns another entry")
        A.same(A.get(x, "summary"), "t", "summary")
        g = A.get(x, "timespan")
    check(A, A.get(g, "begin_time"), s.b, act, zz)
    check(A, A.get(g, "end_time"), s.e, act, zz)


def _holder(A, z):
    return A.call(A.mod("contextvars").ContextVar, "z", default=z)


def check(A, got, x, act, zz):
    if act is None:
        same_dt(A, got, x, "ignored value")
    elif act == "replace":
        same_dt(A, got, dt.datetime.of(x.pos, zz), "replaced zone")
    elif zz is not None:
        same_dt(A, got, conv(A, x, zz), "converted zone")
    else:
        A.require(got.tzinfo is not None and A.path.known_eq(got.utcpos - inst(x)), "conversion to local changed the instant")


def calendar(A, fl, wt, form):
    zz = tz(A, "A")
    spans = [valid_span(A, "event", "be", (None, None), n="1"), valid_span(A, "event", "bd", ("utc", "utc"), n="2"), valid_span(A, "event", "be", (None, None), True, n="3")]
    tspans = [valid_span(A, "todo", "b", (None, None), n="4"), valid_span(A, "todo", "e", ("B", "B"), n="5"), valid_span(A, "todo", "b", (None, None), True, n="6")]
    evs, tds = [mk_entry(A, s, str(i)) for i, s in enumerate(spans)], [mk_entry(A, s, str(i)) for i, s in enumerate(tspans)]
    c = A.call(A.ics.Calendar, events=evs, todos=tds)
    f = A.get(c, "normalize")
    if form == "object":
        A.call(f, A.call(A.mod("ics.timespan").Normalization, zz, action(A, fl), action(A, wt)))
        A.raises(lambda: A.call(f, A.call(A.mod("ics.timespan").Normalization, zz), True), _msg="extra arguments beside a complete normalization")
        A.raises(lambda: A.call(f, A.call(A.mod("ics.timespan").Normalization, zz), normalize_floating=True), _msg="extra arguments beside a complete normalization")
    elif form == "positional":
        A.call(f, zz, action(A, fl), action(A, wt))
    else:
        A.call(f, zz, normalize_with_tz=action(A, wt), normalize_floating=action(A, fl))
    for lst, given, ss in ((A.get(c, "events"), evs, spans), (A.get(c, "todos"), tds, tspans)):
        A.require(len(lst) == len(given), "entries appeared or vanished")
        for got, want, s in zip(lst, given, ss):
            A.require(got is want, "an entry was swapped or reordered")
            t = A.get(got, "timespan")
            if s.day:
                check_ts(A, t, s, "all-day entry")
                continue
            act = ACT[fl if s.floating() else wt]
            for n, o in (("begin_time", s.b), ("end_time", s.e)):
                if o is None:
                    A.require(A.get(t, n) is None, n + " appeared")
                else:
                    check(A, A.get(t, n), o, act, zz)
            same_td(A, A.get(t, "duration"), s.d, "duration")


def scenarios(tier):
    out = []
    for v in variants():
        for op in ("replace_timezone", "convert_timezone"):
            for t in TARGETS:
                if tier == "quick" and t == "B" and v[2][0] != "A":
                    continue
                for via in ("timespan", "entry"):
                    if via == "entry" and v[0] == "span":
                        continue
                    out.append(Scenario("%s %s -> %s (%s)" % (op, vname(v), t, via), tzop, (v, op, t, via)))
    acts = ("ignore", "replace", "convert", "true", "false", "default")
    for z in (None, "utc", "A"):
        for a in acts:
            for other in ("ignore", "replace", "convert"):
                for what in ("date-time", "timespan", "event", "todo"):
                    if tier == "quick" and what in ("todo", "timespan") and z == "A":
                        continue
                    fl, wt = (a, other) if z is None else (other, a)
                    for target in (("B", None) if what == "date-time" else ("B",)):
                        for lazy in (False, True):
                            if lazy and target is None:
                                continue
                            out.append(Scenario("normalize %s z=%s floating=%s zoned=%s to=%s lazy=%s" % (what, z, fl, wt, target, lazy), norm, (fl, wt, target, lazy, what, z)))
    for a in acts[:3]:
        out.append(Scenario("normalize date %s" % a, norm, (a, "ignore", "B", False, "date", None)))
        out.append(Scenario("normalize none %s" % a, norm, (a, "ignore", "B", False, "none", None)))
    for fl in acts[:5]:
        for wt in acts[:3]:
            out.append(Scenario("calendar normalize %s %s" % (fl, wt), calendar, (fl, wt, "object")))
    for form in ("positional", "keyword"):
        out.append(Scenario("calendar normalize form %s" % form, calendar, ("replace", "convert", form)))
        out.append(Scenario("calendar normalize form %s 2" % form, calendar, ("convert", "replace", form)))
    return out
