"""The recurrences of zones' observances and of components users declare are read and written exactly: all rules with all their parts in their
order, all dates once and sorted with their zone, one DTSTART in front; UNTIL in UTC.  Reading back gives an equal set; what contradicts
itself is refused."""
from .common import *
from .c17 import lines
from .c18 import build
from .c38 import same

USER = '''
from typing import Optional
import attr
from dateutil.rrule import rruleset
from ics import Event, EventTimespan
from ics.component import Component
from ics.converter.component import ComponentMeta

@attr.s
class Plan(Component):
    NAME = "X-PLAN"
    rec: rruleset = attr.ib(factory=rruleset)
    note: Optional[str] = attr.ib(default=None)

@attr.s
class Dated(Component):
    NAME = "X-DATED"
    span: EventTimespan = attr.ib(factory=EventTimespan)
    rec: rruleset = attr.ib(factory=rruleset)

@attr.s
class Series(Event):
    timespan: EventTimespan = attr.ib(factory=EventTimespan)
    rec: rruleset = attr.ib(factory=rruleset)

for cls in (Plan, Dated, Series):
    ComponentMeta.BY_TYPE[cls] = ComponentMeta(cls)
'''
# rules as they may be read, and as they are written: frequency, interval, count, start of the week, other parts
RULES = [
    ("FREQ=DAILY", "FREQ=DAILY", (3, 1, None, 0, {})),
    ("FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU", "FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU", (0, 1, None, 0, {"bymonth": (3,), "byweekday": ((6, -1),)})),
    ("freq=monthly;interval=2;bymonthday=-1,1;count=5", "FREQ=MONTHLY;INTERVAL=2;COUNT=5;BYMONTHDAY=1,-1", (1, 2, 5, 0, {"bymonthday": (1, -1)})),
    ("WKST=SU;FREQ=WEEKLY;BYDAY=TU,MO,TU", "FREQ=WEEKLY;WKST=SU;BYDAY=MO,TU", (2, 1, None, 6, {"byweekday": ((0, None), (1, None))})),
    ("FREQ=YEARLY", "FREQ=YEARLY", (0, 1, None, 0, {"bymonth": None, "bymonthday": None})),
    ("FREQ=MONTHLY", "FREQ=MONTHLY", (1, 1, None, 0, {"bymonthday": None})),
    ("FREQ=WEEKLY;COUNT=1", "FREQ=WEEKLY;COUNT=1", (2, 1, 1, 0, {"byweekday": None})),
    ("FREQ=MONTHLY;BYDAY=2TU,MO;BYSETPOS=-1;BYHOUR=9,8", "FREQ=MONTHLY;BYSETPOS=-1;BYDAY=MO,+2TU;BYHOUR=8,9",
     (1, 1, None, 0, {"bysetpos": (-1,), "byweekday": ((0, None), (1, 2)), "byhour": (8, 9)})),
    ("FREQ=YEARLY;BYWEEKNO=20;BYYEARDAY=-1,100;BYEASTER=1", "FREQ=YEARLY;BYYEARDAY=-1,100;BYWEEKNO=20;BYEASTER=1", (0, 1, None, 0, {"byyearday": (-1, 100), "byeaster": (1,), "byweekno": (20,)})),
    ("FREQ=HOURLY;INTERVAL=0", "FREQ=HOURLY;INTERVAL=0", (4, 0, None, 0, {})),
    ("FREQ=DAILY;BYSECOND=30;BYMINUTE=30,0", "FREQ=DAILY;BYMINUTE=0,30;BYSECOND=30", (3, 1, None, 0, {"byminute": (0, 30), "bysecond": (30,)})),
    ("FREQ=DAILY;COUNT=9;INTERVAL=2", "FREQ=DAILY;INTERVAL=2;COUNT=9", (3, 2, 9, 0, {})),
    ("FREQ=DAILY;WKST=SU", "FREQ=DAILY;WKST=SU", (3, 1, None, 6, {})),
]
H = 3600
OFFSETS = {"+0200": 2 * H, "-0430": -4 * H - 1800, "+0000": 0, "+001530": 930, "-1200": -12 * H}


def user(A):
    return A.module("recurring_components", USER)


def stamp(d):
    return d.strftime("%Y%m%dT%H%M%S")


def zoned(d, zone):
    """-> (parameters, text) of a date-time"""
    return {None: lambda: ({}, stamp(d)), "utc": lambda: ({}, stamp(d) + "Z"), "K": lambda: ({"TZID": [BUILTIN + "K"]}, stamp(d)), "K2": lambda: ({"TZID": [BUILTIN + "K2"]}, stamp(d))}[zone]()


def where(A, zone):
    """zone of a date-time for given and for read ones"""
    return {None: None, "utc": A.utc}.get(zone) if zone in (None, "utc") else A.call(A.ics.Timezone.from_tzid, BUILTIN + zone)


def moments(A, names, zone):
    return [A.dt(n, where(A, zone), unit=S) for n in names]


def order(A, ds):
    """sorted, without those that are the same instant as another one"""
    out = []
    for d in ds:
        k = 0
        while k < len(out) and out[k] < d:
            k += 1
        if k < len(out) and A.eq(out[k], d):
            continue
        out.insert(k, d)
    return out


def rule_is(A, r, k, start, until, what):
    freq, interval, count, wkst, parts = RULES[k][2]
    A.require(A.get(r, "_freq") == freq and A.get(r, "_interval") == interval and A.get(r, "_count") == count and A.get(r, "_wkst") == wkst, lambda: "%s: %s instead of %s" % (what, A.str(r), RULES[k][1]))
    got = A.get(r, "_original_rule")
    got = {n: v if n != "byweekday" or v is None else tuple((A.get(w, "weekday"), A.get(w, "n")) for w in v) for n, v in got.items()}
    A.require(got == parts, lambda: "%s: %s instead of %s" % (what, got, parts))
    A.must_eq(A.get(r, "_dtstart"), start, what + ": start")
    A.require((A.get(r, "_until") is None) == (until is None) and (until is None or A.eq(A.get(r, "_until"), until)), lambda: "%s: until %s instead of %s" % (what, A.show(A.get(r, "_until")), A.show(until)))


def set_is(A, s, rules, exrules, rdates, exdates, start, what):
    """rules: (number, until)"""
    for n, want in (("_rrule", rules), ("_exrule", exrules)):
        got = A.get(s, n)
        A.require(len(got) == len(want), lambda: "%s: %d rules instead of %d" % (what, len(got), len(want)))
        for g, (k, u) in zip(got, want):
            rule_is(A, g, k, start, u, what)
    for n, want in (("_rdate", rdates), ("_exdate", exdates)):
        got = list(A.get(s, n))
        A.require(len(got) == len(want) and all(A.eq(g, w) for g, w in zip(got, want)), lambda: "%s: %s is %s instead of %s" % (what, n, A.show(got), A.show(want)))


def text_of(k, until, ztext):
    t = RULES[k][1]
    if until is None:
        return t
    i = t.find(";BY")
    i = len(t) if i < 0 else i
    return t[:i] + ";UNTIL=" + ztext + t[i:]


def expected(start, zone, rules, exrules, rdates, exdates, untils):
    out = []
    if rules or exrules:
        p, v = zoned(start, zone)
        out.append(("DTSTART", p, v))
    out += [("RRULE", {}, text_of(k, u, untils)) for k, u in rules]
    out += [("EXRULE", {}, text_of(k, u, untils)) for k, u in exrules]
    for n, ds in (("RDATE", rdates), ("EXDATE", exdates)):
        for d in ds:
            p, v = zoned(d, zone)
            out.append((n, p, v))
    return out


def rounds(A, x, attr, cls, want, check, write=None):
    """writes and reads x until nothing new can happen"""
    write = write or (lambda o: A.call(A.get(o, "to_container")))
    read = A.get(cls, "from_container")
    for k in range(2):
        before = observe(A, x)
        c = write(x)
        got = [l for l in lines(A, c) if l[0] in ("DTSTART", "RRULE", "EXRULE", "RDATE", "EXDATE")]
        same(A, got, want, "written" if not k else "written again")
        unchanged(A, before, x, "writing changes the object")
        text = A.call(A.get(c, "serialize"))
        c2 = list(A.iter(A.call(A.mod("ics.contentline").string_to_containers, text)))[0]
        y = A.call(read, c2 if k else c)
        check(A.get(y, attr))
        A.require(A.eq(A.get(x, attr), A.get(y, attr)), "the set read back differs")
        A.require(A.eq(A.call(A.mod("builtins").hash, A.get(x, attr)), A.call(A.mod("builtins").hash, A.get(y, attr))), "the hash of the set read back differs")
        x = y


def arrange(items, how):
    return {"given": items, "reversed": items[::-1], "dates first": [i for i in items if i[0] in ("RDATE", "EXDATE")] + [i for i in items if i[0] not in ("RDATE", "EXDATE")], "start last": [i for i in items if i[0] != "DTSTART"] + [i for i in items if i[0] == "DTSTART"]}[how]


def dates_lines(name, ds, zone, how):
    """one line each, or all in one"""
    vs = [zoned(d, zone) for d in ds]
    if not vs:
        return []
    if how == "joined":
        return [(name, vs[0][0], ",".join([v for _, v in vs]))]
    return [(name, p, v) for p, v in vs]


def shape(A, zone, rules, exrules, nr, nx, again=True):
    """different dates, but the start may be given again as a date and so may the last date"""
    start, = moments(A, ["s"], zone)
    rd, xd = moments(A, ["r%d" % i for i in range(nr)], zone), moments(A, ["x%d" % i for i in range(nx)], zone)
    for ds in (rd + [start], xd):
        for i in range(len(ds)):
            for j in range(i):
                A.assume(ds[i] < ds[j] or ds[j] < ds[i])
    more = A.choose(["", "start", "last"], "given again") if again and nr + nx > 1 else ""
    rd = rd + ([start] if nr and more == "start" else rd[:1] if nr and more == "last" else [])
    xd = xd + (xd[:1] if nx and more == "last" else [])
    return start, rd, xd


def reading(A, kind, zone, rules, exrules, nr, nx, until, how):
    """all kinds of lines in any order"""
    U = user(A)
    start, rd, xd = shape(A, zone, rules, exrules, nr, nx, how == "given")
    u, ut = None, None
    if until:
        u, = moments(A, ["u"], None if zone is None else "utc")
        ut = stamp(u) + ("" if zone is None else "Z")
    rules, exrules = [(k, u) for k in rules], [(k, u) for k in exrules]
    join = A.choose(["each", "joined"], "dates") if nr + nx > 2 and how == "given" else "each" if how == "reversed" else "joined"
    p, v = zoned(start, zone)
    src = [("DTSTART", p, v)] + [("RRULE", {}, RULES[k][0] + (";UNTIL=" + ut if until else "")) for k, _ in rules] + [("EXRULE", {}, RULES[k][0] + (";UNTIL=" + ut if until else "")) for k, _ in exrules]
    src += dates_lines("RDATE", rd, zone, join) + dates_lines("EXDATE", xd, zone, join)
    src = arrange(src, how)
    if how == "reversed":
        rules, exrules = rules[::-1], exrules[::-1]
    w = A.text("w")
    c = build(A, "X-PLAN", src[:2] + [("NOTE", {}, w), ("X-OTHER", {"P": ["q"]}, w)] + src[2:])
    before = observe(A, c)
    x = A.call(A.get(U.Plan, "from_container"), c)
    unchanged(A, before, c, "reading changes what is read")
    A.same_text(A.get(x, "note"), w, "note")
    same(A, lines(A, A.get(x, "extra")), [("X-OTHER", {"P": ["q"]}, w)], "undeclared lines")
    r, e = order(A, rd + [start]), order(A, xd)
    check = lambda s: set_is(A, s, rules, exrules, r, e, start, "read")
    check(A.get(x, "rec"))
    rounds(A, x, "rec", U.Plan, expected(start, zone, rules, exrules, r, e, ut), check)


def given(A, zone, rules, exrules, nr, nx, until, mixed):
    """sets a user made: dates in no order, some more than once"""
    U = user(A)
    R = A.mod("dateutil.rrule")
    start, rd, xd = shape(A, zone, rules, exrules, nr, nx)
    if mixed:
        rd = rd[:1] + moments(A, ["m"], {"utc": "K", "K": "utc"}[zone])
        A.assume(rd[0] < rd[1] or rd[1] < rd[0])
    s = A.call(R.rruleset)
    u = moments(A, ["u"], zone)[0] if until else None
    args = [dict(freq=3), dict(freq=0, bymonth=3, byweekday=A.call(A.get(R.SU, "__call__"), -1))]
    for n, ks in (("rrule", rules), ("exrule", exrules)):
        for k in ks:
            A.call(A.get(s, n), A.call(R.rrule, dtstart=start, until=u, **args[k]))
    for d in rd:
        A.call(A.get(s, "rdate"), d)
    for d in xd:
        A.call(A.get(s, "exdate"), d)
    x = A.call(U.Plan, s)
    before = observe(A, x)
    ut = None
    if until:
        ut = stamp(u if zone is None else A.call(A.get(u, "astimezone"), A.utc)) + ("" if zone is None else "Z")
    r, e = order(A, rd), order(A, xd)
    want = expected(start, zone, [(k, u) for k in rules], [(k, u) for k in exrules], [], [], ut)
    for n, ds in (("RDATE", r), ("EXDATE", e)):
        for d in ds:
            z = zone
            if mixed and d is rd[1]:
                z = {"utc": "K", "K": "utc"}[zone]
            p, v = zoned(d, z)
            want.append((n, p, v))
    c = A.call(A.get(x, "to_container"))
    same(A, lines(A, c), want, "written")
    unchanged(A, before, x, "writing changes the object")
    y = A.call(A.get(U.Plan, "from_container"), c)
    if mixed:
        return
    starts = [start] if rules or exrules else []
    set_is(A, A.get(y, "rec"), [(k, u) for k in rules], [(k, u) for k in exrules], order(A, rd + starts), e, start, "read back")


def obs_lines(A, frm, src, at):
    o = [("TZOFFSETFROM", {}, frm), ("TZOFFSETTO", {}, "+0100"), ("TZNAME", {}, "N")]
    return {"front": o + src, "back": src + o, "middle": src[:1] + o + src[1:]}[at]


def observance(A, name, frm, rules, exrules, nr, nx, until, at):
    """dates are local, UNTIL is in UTC (but read in local time, too)"""
    T = A.ics.timezone
    start, rd, xd = shape(A, None, rules, exrules, nr, nx)
    off = A.td_of(seconds=OFFSETS[frm])
    u = ut = None
    if until:
        u, = moments(A, ["u"], None)
        ut = stamp(u - off) + "Z"
    z = {"utc": ut, "lower": (ut or "").replace("Z", "z"), "local": stamp(u) if u is not None else "", "dates": ut, None: None}[until]
    rules, exrules = [(k, u) for k in rules], [(k, u) for k in exrules]
    name_until = "until=" if until == "lower" else "UNTIL="
    rule = lambda n, k: (n, {}, name_until + z + ";" + RULES[k][0] if until == "lower" else RULES[k][0] + (";" + name_until + z if until else ""))
    write = (lambda d: stamp(d - off) + "Z") if until == "dates" else stamp
    src = [("DTSTART", {}, write(start))] + [rule("RRULE", k) for k, _ in rules] + [rule("EXRULE", k) for k, _ in exrules] + [("RDATE", {}, write(d)) for d in rd] + ([("EXDATE", {}, ",".join([write(d) for d in xd]))] if xd else [])
    w = A.text("w")
    c = build(A, "VTIMEZONE", [("TZID", {}, "z"), (name, obs_lines(A, frm, src + [("X-OTHER", {}, w), ("RULE", {}, "UNTIL=" + (ut or "")), ("RRULES", [("RRULE", {}, "UNTIL=20000101T000000Z")])], at))])
    before = observe(A, c)
    zone = A.call(A.get(T.Timezone, "from_container"), c)
    unchanged(A, before, c, "reading changes what is read")
    r, e = order(A, rd + [start]), order(A, xd)
    check = lambda s: set_is(A, s, rules, exrules, r, e, start, "read")
    o, = A.get(zone, "observances")
    check(A.get(o, "rrule"))
    A.require(A.eq(A.get(o, "tzoffsetfrom"), off), "offset")
    extra = [("X-OTHER", {}, w), ("RULE", {}, "UNTIL=" + (ut or "")), ("RRULES", [("RRULE", {}, "UNTIL=20000101T000000Z")])]
    same(A, lines(A, A.get(o, "extra")), extra, "undeclared lines")
    want = expected(start, None, rules, exrules, r, e, ut)
    for _ in range(2):
        before = observe(A, zone)
        c = A.call(A.get(zone, "to_container"))
        ls, = [l[1] for l in lines(A, c) if isinstance(l[1], list)]
        same(A, [l for l in ls if l[0] in ("DTSTART", "RRULE", "EXRULE", "RDATE", "EXDATE")], want, "written")
        same(A, ls[-3:], extra, "undeclared lines written")
        unchanged(A, before, zone, "writing changes the zone")
        again = A.call(A.get(T.Timezone, "from_container"), c)
        check(A.get(A.get(again, "observances")[0], "rrule"))
        A.require(A.eq(again, zone), "the zone read back differs")
        zone = again


def extra_rule(A, frm):
    """rules kept as undeclared lines of an observance stay as they are"""
    T = A.ics.timezone
    R = A.mod("dateutil.rrule")
    s = A.call(R.rruleset)
    d = A.dt("d", None, unit=S)
    A.call(A.get(s, "rdate"), d)
    o = A.call(T.TimezoneStandardObservance, A.td_of(seconds=OFFSETS[frm]), A.td_of(seconds=3600), s)
    x = stamp(A.dt("x", None, unit=S))
    A.call(A.get(A.get(o, "extra"), "append"), A.call(A.ics.ContentLine, "RRULE", {}, "FREQ=DAILY;UNTIL=" + x))
    got = lines(A, A.call(A.get(o, "to_container")))
    same(A, [l for l in got if l[0] == "RRULE"], [("RRULE", {}, "FREQ=DAILY;UNTIL=" + x)], "undeclared lines written")


def default(A, cls):
    """without any such line the default stays, and isn't shared"""
    U = user(A)
    w = A.text("w")
    C = getattr(U, cls)
    items = {"Plan": [("NOTE", {}, w)], "Dated": [], "Series": [("UID", {}, w), ("DTSTAMP", {}, "20200101T000000Z")]}[cls]
    c = build(A, A.get(C, "NAME"), items)
    x, y = A.call(A.get(C, "from_container"), c), A.call(A.get(C, "from_container"), c)
    for o in (x, y):
        set_is(A, A.get(o, "rec"), [], [], [], [], None, "read")
    A.require(A.get(x, "rec") is not A.get(y, "rec"), "two components share their recurrences")
    same(A, lines(A, A.call(A.get(x, "to_container"))), items, "written")
    A.require(A.eq(x, y), "equal")


def timed(A, zone, day, rule, nr, cls):
    """DTSTART is that of the component itself"""
    U = user(A)
    C = getattr(U, cls)
    b = midnight(A, "s") if day else moments(A, ["s"], zone)[0]
    rd = [midnight(A, "r%d" % i) if day else moments(A, ["r%d" % i], zone)[0] for i in range(nr)]
    p, v = ({"VALUE": ["DATE"]}, b.strftime("%Y%m%d")) if day else zoned(b, zone)
    base = [("UID", {}, "u"), ("DTSTAMP", {}, "20200101T000000Z")] if cls == "Series" else []
    dates = [("RDATE", {"VALUE": ["DATE"]}, d.strftime("%Y%m%d")) for d in rd] if day else dates_lines("RDATE", rd, zone, "each")
    src = [("DTSTART", p, v)] + ([("RRULE", {}, RULES[rule][0])] if rule is not None else []) + dates + [("DURATION", {}, "P1D")]
    x = A.call(A.get(C, "from_container"), build(A, A.get(C, "NAME"), base + (src if A.flag("reversed") else src[::-1])))
    ts = A.get(x, "timespan" if cls == "Series" else "span")
    A.must_eq(A.get(ts, "begin_time"), b, "begin")
    A.require(bool(A.call(A.get(ts, "is_all_day"))) == day, "all-day")
    rules = [(rule, None)] if rule is not None else []
    r = order(A, rd + [b])
    set_is(A, A.get(x, "rec"), rules, [], r, [], b, "read")
    got = lines(A, A.call(A.get(x, "to_container")))
    want = [("DTSTART", p, v), ("DURATION", {}, "P1D")] + [("RRULE", {}, RULES[k][1]) for k, _ in rules] + [("RDATE",) + zoned(d, None if day else zone) for d in r]
    same(A, [l for l in got if l[0] not in ("UID", "DTSTAMP")], want, "written")
    y = A.call(A.get(C, "from_container"), A.call(A.get(x, "to_container")))
    A.require(A.eq(x, y), "what is read back differs")
    # written twice: nothing is left over from the first time
    A.require(A.text_eq(A.call(A.get(x, "serialize")), A.call(A.get(x, "serialize"))), "written differently the second time")


def calendar(A, zone, kind):
    """zones of recurrences are defined by the calendar written"""
    U = user(A)
    R = A.mod("dateutil.rrule")
    s = A.call(R.rruleset)
    d, = moments(A, ["d"], zone)
    if kind == "rule":
        A.call(A.get(s, "rrule"), A.call(R.rrule, 3, dtstart=d))
    else:
        A.call(A.get(s, kind), d)
    x = A.call(U.Series, rec=s)
    cal = A.call(A.ics.Calendar)
    A.call(A.get(A.get(cal, "events"), "append"), x)
    got = lines(A, A.call(A.get(cal, "to_container")))
    zs = [dict((l[0], l[-1]) for l in z[1]).get("TZID") for z in got if z[0] == "VTIMEZONE"]
    A.require(zs == ([BUILTIN + zone] if zone in ("K", "K2") else []), lambda: "zones defined: %s" % A.show(zs))
    name = {"rule": "DTSTART", "rdate": "RDATE", "exdate": "EXDATE"}[kind]
    ev, = [l[1] for l in got if l[0] == "VEVENT"]
    same(A, [l for l in ev if l[0] == name], [(name,) + zoned(d, zone)], "written")


def differing(A, zone, which):
    """rules that start at different times can't be written"""
    U = user(A)
    R = A.mod("dateutil.rrule")
    a, b = moments(A, ["a", "b"], zone)
    s = A.call(R.rruleset)
    rule = lambda d: A.call(R.rrule, 3, dtstart=d)
    if which == "span":
        if zone not in (None,) and A.flag("floating rule"):
            b = A.dt("b2", None, unit=S)
        A.call(A.get(s, "rrule"), rule(b))
        x = A.call(U.Dated, A.call(A.ics.EventTimespan, a), s)
    else:
        A.call(A.get(s, which[0]), rule(a))
        A.call(A.get(s, which[1]), rule(b))
        x = A.call(U.Plan, s)
    before = observe(A, x)
    c, e = A.attempt(A.get(x, "to_container"))
    unchanged(A, before, x, "writing changes the object")
    if (a.tzinfo is None) == (b.tzinfo is None) and A.eq(a, b):
        A.require(e is None, lambda: "refused: %s" % A.exc_name(e))
        A.require(len([l for l in lines(A, c) if l[0] == "DTSTART"]) == 1, "more than one DTSTART")
    else:
        A.require(e is not None and A.is_exc(e, ValueError), lambda: "rules of different starts are written (got %s)" % A.exc_name(e))
        # nothing is left over
        y = A.call(U.Plan, A.call(R.rruleset))
        A.require(lines(A, A.call(A.get(y, "to_container"))) == [], "left over")


CHANGES = ["freq", "interval", "count", "start", "until", "until none", "wkst", "byhour", "byweekday", "bysetpos", "exrule kind", "more rules", "order", "rdate", "exdate", "rdate kind", "more dates", "zone", "none"]


def compared(A, zone, what, how):
    """sets are equal if and only if rules and dates are, and equal ones have equal hashes"""
    R = A.mod("dateutil.rrule")
    a, b, u, v, d, e = moments(A, ["a", "b", "u", "v", "d", "e"], zone)
    for x, y in ((a, b), (u, v), (d, e)):
        A.assume(x < y)
    base = dict(freq=1, interval=2, dtstart=a, until=u, wkst=0, byhour=5, byweekday=1, bysetpos=1)
    other = where(A, "utc" if zone == "K" else "K")
    new = {"freq": dict(freq=2), "interval": dict(interval=3), "count": dict(count=4, until=None), "start": dict(dtstart=b), "until": dict(until=v), "until none": dict(until=None), "wkst": dict(wkst=6),
           "byhour": dict(byhour=6), "byweekday": dict(byweekday=2), "bysetpos": dict(bysetpos=-1),
           "zone": dict(dtstart=a.replace(tzinfo=other), until=u.replace(tzinfo=other))}.get(what, {})

    def make(changed):
        s = A.call(R.rruleset)
        rule = lambda k: A.call(A.get(s, k), A.call(R.rrule, **{**base, **(new if changed else {})}))
        other = lambda k: A.call(A.get(s, k), A.call(R.rrule, freq=3, dtstart=a))
        if what == "exrule kind" and changed:
            rule("exrule"), other("rrule")
        elif what == "order" and changed:
            other("rrule"), rule(how)
        else:
            rule(how)
            other("rrule")
        if what == "more rules" and changed:
            other(how)
        if what == "rdate kind" and changed:
            A.call(A.get(s, "exdate"), d), A.call(A.get(s, "rdate"), e)
        else:
            A.call(A.get(s, "rdate"), e if what == "rdate" and changed else d)
            A.call(A.get(s, "exdate"), d if what == "exdate" and changed else e)
        if what == "more dates" and changed:
            A.call(A.get(s, "rdate" if how == "rrule" else "exdate"), b)
        return s
    x, y, z = make(False), make(False), make(True)
    hash_ = A.mod("builtins").hash
    A.require(A.eq(x, y) and A.eq(y, x) and not A.call(A.mod("operator").ne, x, y), "equal sets differ")
    A.require(A.eq(A.call(hash_, x), A.call(hash_, y)), "the hashes of equal sets differ")
    if what in ("none",) or (what == "exrule kind" and how == "exrule") or (what == "order" and how == "exrule"):
        A.require(A.eq(x, z), "equal sets differ")
        return
    A.require(not A.eq(x, z) and not A.eq(z, x) and A.call(A.mod("operator").ne, x, z), lambda: "sets of different %s are equal" % what)
    for o in (None, 1, "x", A.get(x, "_rrule"), A.get(x, "_rrule")[0]):
        A.require(not A.eq(x, o), "a set equals something else")
    r, q = A.get(x, "_" + how), A.get(z, "_" + how)
    if new:
        A.require(not A.eq(r[0], q[0]), lambda: "rules of different %s are equal" % what)
    A.require(A.eq(r[0], A.get(y, "_" + how)[0]), "equal rules differ")
    U = user(A)
    A.require(not A.eq(A.call(U.Plan, x), A.call(U.Plan, z)) and A.eq(A.call(U.Plan, x), A.call(U.Plan, y)), "components aren't compared by their recurrences")


def crowd(A, n, zone, how):
    """many dates in any order, some of them several times"""
    U = user(A)
    x, = moments(A, ["x"], zone)
    at = [dt.datetime.of(x.pos + (i * 7 + 3) % n // 2 * 86400 * S, x.tzinfo) for i in range(n)]
    ordered = [dt.datetime.of(x.pos + k * 86400 * S, x.tzinfo) for k in range((n - 1) // 2 + 1)]
    p = zoned(x, zone)[0]
    want = [(nm, p, zoned(d, zone)[1]) for nm in ("RDATE", "EXDATE") for d in ordered]
    if how == "given":
        s = A.call(A.mod("dateutil.rrule").rruleset)
        for d in at:
            A.call(A.get(s, "rdate"), d)
            A.call(A.get(s, "exdate"), d)
        o = A.call(U.Plan, s)
    else:
        ts = [zoned(d, zone)[1] for d in at]
        cut = {"joined": n, "split": 1, "parts": 7}[how]
        o = A.call(A.get(U.Plan, "from_container"), build(A, "X-PLAN", [(nm, p, ",".join(ts[k:k + cut])) for k in range(0, n, cut) for nm in ("EXDATE", "RDATE")]))
    got = lines(A, A.call(A.get(o, "to_container")))
    A.require(A.text_eq(got, want), lambda: "written as %s" % A.show(got))
    A.require(A.text_eq(lines(A, A.call(A.get(A.call(A.get(U.Plan, "from_container"), build(A, "X-PLAN", got)), "to_container"))), want), "written again")


T0, T1 = ("DTSTART", {}, "20200101T000000"), ("DTSTART", {}, "20200102T000000")
R0 = ("RRULE", {}, "FREQ=DAILY")
# (lines, accepted by a user's component, by an observance)
CASES = [
    ([R0], False, False), ([("EXRULE", {}, "FREQ=DAILY")], False, False), ([T0], True, True), ([T0, T0], False, False), ([T0, T1, R0], False, False), ([R0, ("RDATE", {}, "20200101T000000")], False, False), ([("RDATE", {}, "20200101T000000")], True, True),
    ([("EXDATE", {}, "20200101T000000")], True, True), ([], True, False), ([("RDATE", {}, "20200101T000000"), ("RDATE", {}, "20200101T000000Z")], False, True), ([T0, ("EXDATE", {}, "20200101T000000Z"), ("EXDATE", {}, "20200101T000000")], False, True),
    ([("DTSTART", {"TZID": ["Known/K"]}, "20200101T000000"), R0], True, False), ([("RDATE", {"TZID": ["Known/K"]}, "20200101T000000")], True, False), ([T0, ("EXDATE", {"TZID": ["Known/K"]}, "20200101T000000")], True, False),
    ([("DTSTART", {"TZID": ["Nowhere/X"]}, "20200101T000000"), R0], False, False), ([("DTSTART", {"TZID": ["Known/K"]}, "20200101T000000Z"), R0], False, False), ([("DTSTART", {}, "20200101T000000Z"), R0], True, True),
    ([T0, ("RRULE", {}, "FREQ=DAILY;UNTIL=20200105T000000Z")], False, True), ([T0, ("RRULE", {}, "FREQ=DAILY;UNTIL=20200105T000000")], True, True), ([T0, ("RRULE", {}, "FREQ=DAILY;UNTIL=20200105")], True, True), ([("DTSTART", {}, "20200101T000000Z"), ("RRULE", {}, "FREQ=DAILY;UNTIL=20200105T000000")], False, True),
    ([T0, ("RRULE", {}, "INTERVAL=2")], False, False), ([T0, ("RRULE", {}, "FREQ=SOMETIMES")], False, False), ([T0, ("RRULE", {}, "")], False, False), ([T0, ("RRULE", {}, "FREQ=DAILY;COUNT=x")], False, False), ([T0, ("RRULE", {}, "FREQ=DAILY;BYDAY=XX")], False, False), ([T0, ("RRULE", {}, "FREQ=DAILY;X-NEW=1")], False, False),
    ([T0, ("RRULE", {}, "FREQ=DAILY;UNTIL=")], False, False), ([T0, ("RRULE", {}, "FREQ=DAILY;UNTIL=Z")], False, False), ([T0, ("RRULE", {}, "FREQ=DAILY;BYSETPOS=0")], False, False), ([T0, ("RRULE", {}, "FREQ=DAILY;;COUNT=1")], False, False),
    ([("DTSTART", {}, ""), R0], False, False), ([("DTSTART", {}, "Z"), R0], False, False), ([("RDATE", {}, "20200101T000000,")], False, False), ([("RDATE", {"VALUE": ["PERIOD"]}, "20200101T000000/P1D")], False, False), ([("RDATE", {"VALUE": ["DATE"]}, "20200101")], True, True),
    ([("DTSTART", {"VALUE": ["DATE-TIME"]}, "20200101T000000"), R0], True, True), ([("DTSTART", {"VALUE": ["DATE"]}, "20200101"), R0], True, True), ([("DTSTART", {}, "20200101T000000,20200102T000000"), R0], False, False),
]


def cases(A, i, where_):
    U = user(A)
    ls, plan, obs = CASES[i]
    o = [("TZOFFSETFROM", {}, "+0200"), ("TZOFFSETTO", {}, "+0100")]
    if where_ == "plan":
        f, c, ok = A.get(U.Plan, "from_container"), build(A, "X-PLAN", ls), plan
    elif where_ == "calendar":
        f, c, ok = A.ics.Calendar, build(A, "VCALENDAR", [("VERSION", {}, "2.0"), ("PRODID", {}, "p"), ("VTIMEZONE", [("TZID", {}, "z"), ("STANDARD", o + ls)])]), obs
    else:
        f, c, ok = A.get(A.ics.Timezone, "from_container"), build(A, "VTIMEZONE", [("TZID", {}, "z"), (where_, ls + o)]), obs
    before = observe(A, c)
    for _ in range(2):
        x, e = A.attempt(f, c)
        unchanged(A, before, c, "reading changes what is read")
        if ok:
            A.require(e is None, lambda: "%s is refused: %s" % (A.show(ls), A.exc_name(e)))
        else:
            A.require(e is not None and A.is_exc(e, ValueError), lambda: "%s is accepted (got %s)" % (A.show(ls), A.exc_name(e)))


def boxes(A, name, cls, rules):
    """components named like the properties of a recurrence are no part of it"""
    U = user(A)
    w = A.text("w")
    tag = {"Plan": "X-PLAN", "Dated": "X-DATED", "Series": "VEVENT"}[cls]
    ls = ([T0, R0] if rules else []) + ([("UID", {}, "u"), ("DTSTAMP", {}, "20200101T000000Z")] if cls == "Series" else [])
    box = (name, [("X-A", {}, w), T1, R0])
    plain = A.call(A.get(A.get(U, cls), "from_container"), build(A, tag, ls))
    x = A.call(A.get(A.get(U, cls), "from_container"), build(A, tag, [box] + ls + [box]))
    A.require(A.eq(A.get(x, "rec"), A.get(plain, "rec")), "another recurrence")
    same(A, lines(A, A.get(x, "extra")), [box, box], "what isn't declared")
    same(A, [l for l in lines(A, A.call(A.get(x, "to_container"))) if l[0] == name and len(l) == 2], [box, box], "written")


def edge(A, frm, text):
    """UNTIL at the end of time"""
    c = build(A, "VTIMEZONE", [("TZID", {}, "z"), ("STANDARD", [("TZOFFSETFROM", {}, frm), ("TZOFFSETTO", {}, "+0100"), T0, ("RRULE", {}, "FREQ=YEARLY;UNTIL=" + text)])])
    z = A.call(A.get(A.ics.Timezone, "from_container"), c)
    u = A.get(A.get(A.get(A.get(z, "observances")[0], "rrule"), "_rrule")[0], "_until")
    A.require(A.get(u, "year") == 9999 and u.tzinfo is None, lambda: "until %s" % A.show(u))
    for _ in range(2):
        y = A.call(A.get(A.ics.Timezone, "from_container"), A.call(A.get(z, "to_container")))
        u = A.get(A.get(A.get(A.get(y, "observances")[0], "rrule"), "_rrule")[0], "_until")
        A.require(A.get(u, "year") == 9999, lambda: "until %s" % A.show(u))
        z = y


def scenarios(tier):
    out = []
    deep = tier == "thorough"
    hows = ["given", "reversed", "dates first", "start last"]
    k = 0
    for zone in (None, "utc", "K"):
        for rules, ex, nr, nx, until in [([i], [], 0, 0, u) for i in range(len(RULES)) for u in (False, True) if not (u and ("count" in RULES[i][0].lower() or len(RULES[i][1]) > 45))] + [([0, 1], [3], 1, 1, False), ([], [], 2, 1, False), ([1], [], 0, 2, False), ([], [0], 1, 0, True), ([7], [2], 0, 1, False), ([0, 11, 12, 0, 0], [], 0, 0, False), ([0], [0, 11, 12, 12], 0, 0, False)] + ([([2, 3, 4], [5, 6], 2, 2, False), ([], [], 3, 0, False)] if deep else []):
            for how in hows if deep or len(rules) != 1 or ex else [hows[k % 4]]:
                k += 1
                out.append(Scenario("reading %s %s/%s/%d/%d%s %s" % (zone, rules, ex, nr, nx, "/until" if until else "", how), reading, ("plan", zone, rules, ex, nr, nx, until, how)))
        for rules, ex, nr, nx, until in [([0], [], 0, 0, False), ([1], [0], 0, 0, True), ([], [], 3, 0, False), ([], [], 0, 3, False), ([0, 1], [], 2, 2, False), ([0], [], 0, 0, True)]:
            out.append(Scenario("given %s %s/%s/%d/%d%s" % (zone, rules, ex, nr, nx, "/until" if until else ""), given, (zone, rules, ex, nr, nx, until, False)))
        if zone:
            out.append(Scenario("given %s mixed" % zone, given, (zone, [], [], 2, 0, False, True)))
    at = ["front", "back", "middle"]
    for name in ("STANDARD", "DAYLIGHT"):
        for frm in OFFSETS:
            for rules, ex, nr, nx, until in [([0], [], 0, 0, "utc"), ([1], [], 1, 0, "utc"), ([0, 3], [4], 0, 1, "utc"), ([1], [], 0, 0, "lower"), ([1], [], 0, 0, "local"), ([0], [], 1, 2, "dates"), ([2], [8], 1, 1, None), ([12, 0, 11, 11], [0, 12], 0, 0, "utc"), ([], [], 2, 2, None), ([], [], 2, 0, "dates")]:
                for a in at if deep else [at[k % 3]]:
                    k += 1
                    out.append(Scenario("observance %s %s %s/%s/%d/%d %s %s" % (name, frm, rules, ex, nr, nx, until, a), observance, (name, frm, rules, ex, nr, nx, until, a)))
    out += [Scenario("compared %s %s %s" % (z, w, h), compared, (z, w, h)) for z in (None, "utc", "K") for w in CHANGES for h in ("rrule", "exrule")]
    out += [Scenario("crowd %d %s %s" % (n, z, h), crowd, (n, z, h)) for n in (9, 24) for z in (None, "utc", "K") for h in ("given", "joined", "split", "parts")]
    out += [Scenario("kept rule %s" % f, extra_rule, (f,)) for f in OFFSETS]
    out += [Scenario("default %s" % c, default, (c,)) for c in ("Plan", "Dated", "Series")]
    for cls in ("Dated", "Series"):
        for zone, day in ((None, False), (None, True), ("utc", False), ("K", False)):
            for rule, nr in ((0, 0), (1, 1), (None, 1), (None, 0)):
                out.append(Scenario("timed %s %s%s %s %d" % (cls, zone, " all-day" if day else "", rule, nr), timed, (zone, day, rule, nr, cls)))
    out += [Scenario("calendar %s %s" % (z, n), calendar, (z, n)) for z in (None, "utc", "K") for n in ("rule", "rdate", "exdate")]
    out += [Scenario("differing %s %s" % (z, "+".join(w) if w != "span" else w), differing, (z, w)) for z in (None, "utc", "K") for w in (("rrule", "rrule"), ("rrule", "exrule"), ("exrule", "exrule"), "span")]
    out += [Scenario("case %d %s" % (i, w), cases, (i, w)) for i in range(len(CASES)) for w in ("plan", "STANDARD", "DAYLIGHT", "calendar")]
    out += [Scenario("box %s %s %s" % (n, k, r), boxes, (n, k, r)) for n in ("RRULE", "RDATE", "EXRULE", "EXDATE", "DTSTART") for k in ("Plan", "Dated", "Series") for r in (False, True)]
    out += [Scenario("edge %s %s" % (f, t), edge, (f, t)) for f in ("+0200", "-0500") for t in ("99991231T235959Z", "99991231T235959", "99991231T230000Z", "99991231")]
    return out
