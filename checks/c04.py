"""A calendar's timeline yields every event with a time exactly once, in chronological order (by begin, then end), and the
included / overlapping / start-after / at / on / today / now queries yield exactly the events whose span satisfies the relation,
after applying the timeline's normalization to events and query alike; the calendar itself is not changed."""
from absint.dom import intern_atom
from .common import *


def setup(A, vs, norm):
    spans = [valid_span(A, *v, n=str(i)) for i, v in enumerate(vs)]
    evs = [mk_entry(A, s, "abc"[i]) for i, s in enumerate(spans)]
    c = A.call(A.ics.Calendar, events=evs)
    if norm is None:
        tl = A.get(c, "timeline")
    else:
        NA = A.mod("ics.timespan").NormalizationAction
        tl = A.call(A.mod("ics.timeline").Timeline, c, A.call(A.mod("ics.timespan").Normalization, A.zone("Zone/B"), A.get(NA, norm), A.get(NA, "IGNORE")))
    return spans, evs, c, tl


def rd(A, x, norm, day=False):
    """the instant a value stands for under the timeline's normalization (all-day spans are not normalized)"""
    if x is None:
        return None
    if not day and x.tzinfo is None and norm == "REPLACE":
        return dt.datetime.of(x.pos, A.zone("Zone/B")).utcpos
    return inst(x)


def check_result(A, got, spans, evs, keep, norm, msg):
    idx = []
    for g in got:
        m = [i for i, e in enumerate(evs) if e is g]
        A.require(len(m) == 1, "%s yields something that is not an event of the calendar" % msg)
        A.require(m[0] not in idx, "%s yields an event twice" % msg)
        idx.append(m[0])
    for i, s in enumerate(spans):
        w = keep(s)
        A.require((i in idx) == w, lambda: "%s: event %d (%s) is %s" % (msg, i, A.show(A.get(evs[i], "timespan")), "missing" if w else "yielded although it does not satisfy the query"))
    for a, b in zip(idx, idx[1:]):
        x, y = spans[a], spans[b]
        c = A.path.sign(rd(A, x.b, norm, x.day) - rd(A, y.b, norm, y.day))
        if c == 0:
            c = A.path.sign(rd(A, x.end(), norm, x.day) - rd(A, y.end(), norm, y.day))
        A.require(c <= 0, lambda: "%s: events out of chronological order" % msg)


def order(A, vs, norm, how):
    spans, evs, c, tl = setup(A, vs, norm)
    got = A.iter(tl)
    check_result(A, got, spans, evs, lambda s: s.b is not None, norm, "the timeline")
    if how == "pairs":
        got = A.iter(A.call(A.get(tl, "iterator")))
        check_result(A, [e for _, e in got], spans, evs, lambda s: s.b is not None, norm, "the iterator")
    lst = A.get(c, "events")
    A.require(len(lst) == len(evs) and all(a is b for a, b in zip(lst, evs)), "iterating changed the calendar's events")
    for e, s in zip(evs, spans):
        check_entry(A, e, s, "iterating changed an event")


def query(A, vs, norm, op, qz, form):
    spans, evs, c, tl = setup(A, vs, norm)
    R = lambda x, day=False: rd(A, x, norm, day)
    if op in ("included", "overlapping"):
        q = Span("span", when(A, "qb", qz), when(A, "qe", qz))
        A.path.assume(q.e.pos - q.b.pos)
        b, e = R(q.b), R(q.e)
        args = (mk_timespan(A, q),) if form == "timespan" else (q.b, q.e)
        if form == "timespan":
            A.raises(lambda: A.iter(A.call(A.get(tl, op), args[0], q.e)), _msg="a timespan together with a stop time is accepted")
        if op == "included":
            keep = lambda s: s.b is not None and le(A, b, R(s.b, s.day)) and lt(A, R(s.end(), s.day), e)
        else:
            keep = lambda s: s.b is not None and ((le(A, b, R(s.b, s.day)) and lt(A, R(s.b, s.day), e)) or (le(A, R(s.b, s.day), b) and lt(A, b, R(s.end(), s.day))))
    elif op in ("start_after", "at"):
        i = A.date("i") if form == "date" else when(A, "i", qz)
        args = (i,)
        i = R(dt.datetime.of(i.pos) if form == "date" else i)
        keep = (lambda s: s.b is not None and lt(A, i, R(s.b, s.day))) if op == "start_after" else (lambda s: s.b is not None and le(A, R(s.b, s.day), i) and lt(A, i, R(s.end(), s.day)))
    elif op == "on":
        i = A.date("i") if form.startswith("date") else when(A, "i", qz)
        strict = form.endswith("strict")
        args = (i, True) if strict else (i,)
        day = dt.floor_div(i.pos, DAY).scale(DAY)
        z = getattr(i, "tzinfo", None)
        b, e = R(dt.datetime.of(day, z)), R(dt.datetime.of(day + DAY, z))
        if strict:
            keep = lambda s: s.b is not None and le(A, b, R(s.b, s.day)) and lt(A, R(s.end(), s.day), e)
        else:
            keep = lambda s: s.b is not None and ((le(A, b, R(s.b, s.day)) and lt(A, R(s.b, s.day), e)) or (le(A, R(s.b, s.day), b) and lt(A, b, R(s.end(), s.day))))
    else:
        args = (True,) if form == "strict" else ()
        now = Lin.atom(intern_atom(("utcnow", A.path.fresh + 1)))
        loc = dt.datetime.of(now + dt.local_offset())
        if op == "today":
            day = dt.floor_div(loc.pos, DAY).scale(DAY)
            b, e = R(dt.datetime.of(day)), R(dt.datetime.of(day + DAY))
            keep = lambda s: s.b is not None and ((le(A, b, R(s.b, s.day)) and lt(A, R(s.b, s.day), e)) or (le(A, R(s.b, s.day), b) and lt(A, b, R(s.end(), s.day))))
            if form == "strict":
                keep = lambda s: s.b is not None and le(A, b, R(s.b, s.day)) and lt(A, R(s.end(), s.day), e)
        else:
            i = R(loc)
            keep = lambda s: s.b is not None and le(A, R(s.b, s.day), i) and lt(A, i, R(s.end(), s.day))
    got = A.iter(A.call(A.get(tl, op), *args))
    check_result(A, got, spans, evs, keep, norm, op)
    lst = A.get(c, "events")
    A.require(len(lst) == len(evs) and all(a is b for a, b in zip(lst, evs)), "querying changed the calendar's events")


def live(A):
    """the timeline follows the calendar's current events"""
    spans, evs, c, tl = setup(A, [("event", "be", (None, None), False)], None)
    s = valid_span(A, "event", "be", (None, None), False, n="new")
    e = mk_entry(A, s, "n")
    A.call(A.get(A.get(c, "events"), "append"), e)
    check_result(A, A.iter(tl), spans + [s], evs + [e], lambda s: True, None, "the timeline after adding an event")
    A.set(c, "events", [e])
    check_result(A, A.iter(tl), [s], [e], lambda s: True, None, "the timeline after replacing the events")


def twins(A, v, n, equal):
    """events with the same span are all yielded, also when they are equal otherwise; iterating again gives the same"""
    s = valid_span(A, *v)
    w = A.text("sum")
    evs = []
    for i in range(n):
        e = mk_entry(A, s, w)
        if equal:
            A.set(e, "uid", "u")
            A.set(e, "dtstamp", dt.datetime.of(Lin({}, 700000 * DAY), A.utc))
        else:
            A.set(e, "location", "loc%d" % i)
        evs.append(e)
    c = A.call(A.ics.Calendar, events=evs)
    tl = A.get(c, "timeline")
    for msg in ("the timeline", "the timeline, again"):
        check_result(A, A.iter(tl), [s] * n, evs, lambda s: s.b is not None, None, msg)
    if s.b is not None:
        lo, hi = dt.datetime.of(s.b.pos - DAY, s.b.tzinfo), dt.datetime.of(s.end().pos + DAY, s.b.tzinfo)
        for op in ("included", "overlapping"):
            check_result(A, A.iter(A.call(A.get(tl, op), lo, hi)), [s] * n, evs, lambda s: True, None, op)


def crowd(A, k, zone, perm):
    """many events in an arbitrary order, some at the same time"""
    x = when(A, "x", zone)
    n = (9, 20, 33)[k]
    pos = [(i * (7, 11, 13)[perm] + 3) % n // (1, 2, 3)[perm] for i in range(n)]
    spans, evs = [], []
    for i, p in enumerate(pos):
        b = dt.datetime.of(x.pos + p * DAY, x.tzinfo)
        s = Span("event", b, dt.datetime.of(b.pos + (1 + i * 5 % 3) * DAY, x.tzinfo))
        spans.append(s)
        evs.append(mk_entry(A, s, "e%d" % i))
    c = A.call(A.ics.Calendar, events=evs)
    tl = A.get(c, "timeline")
    check_result(A, A.iter(tl), spans, evs, lambda s: True, None, "the timeline")
    lo, hi = dt.datetime.of(x.pos + 2 * DAY, x.tzinfo), dt.datetime.of(x.pos + (n // 2) * DAY, x.tzinfo)
    check_result(A, A.iter(A.call(A.get(tl, "included"), lo, hi)), spans, evs, lambda s: le(A, lo.pos, s.b.pos) and lt(A, s.e.pos, hi.pos), None, "included")
    check_result(A, A.iter(A.call(A.get(tl, "overlapping"), lo, hi)), spans, evs, lambda s: (le(A, lo.pos, s.b.pos) and lt(A, s.b.pos, hi.pos)) or (le(A, s.b.pos, lo.pos) and lt(A, lo.pos, s.e.pos)), None, "overlapping")
    check_result(A, A.iter(A.call(A.get(tl, "start_after"), lo)), spans, evs, lambda s: lt(A, lo.pos, s.b.pos), None, "start_after")
    check_result(A, A.iter(A.call(A.get(tl, "at"), hi)), spans, evs, lambda s: le(A, s.b.pos, hi.pos) and lt(A, hi.pos, s.e.pos), None, "at")


V = {"f": ("event", "be", (None, None), False), "u": ("event", "be", ("utc", "utc"), False), "a": ("event", "bd", ("A", "A"), False), "d": ("event", "be", (None, None), True),
     "i": ("event", "b", (None, None), True), "b": ("event", "b", (None, None), False), "-": ("event", "-", (None, None), False)}


def scenarios(tier):
    out = [Scenario("live timeline", live)]
    out += [Scenario("crowd %d %s %d" % (k, z, p), crowd, (k, z, p)) for k in range(3) for z in (None, "utc", "A") for p in range(3)]
    for v in "fuadib":
        for eq in (False, True):
            out.append(Scenario("twins %s equal=%s" % (v, eq), twins, (V[v], 2 if v in "fu" else 3, eq)))
    sets = ["f", "-", "ff", "fu", "ud", "-b", "bi", "bf", "f-d", "aa"] + (["fff", "uaf", "bbb", "fdu"] if tier == "thorough" else ["bb-", "bbb"])
    for norm in (None, "CONVERT", "REPLACE"):
        for st in sets:
            if tier == "quick" and norm and len(st.replace("-", "")) > 2:
                continue
            out.append(Scenario("order %s norm=%s" % (st, norm), order, ([V[x] for x in st], norm, "pairs" if len(st) < 3 else "")))
        qs = [("included", "utc", "timespan"), ("included", None, "args"), ("overlapping", None, "timespan"), ("overlapping", "utc", "args"), ("at", None, ""), ("at", "A", ""), ("at", None, "date"),
              ("start_after", None, ""), ("start_after", "utc", ""), ("start_after", None, "date"), ("on", None, "date"), ("on", "A", ""), ("on", None, "strict"), ("on", None, "date strict"),
              ("today", None, ""), ("today", None, "strict"), ("now", None, "")]
        for op, z, form in qs:
            for st in ["f", "u", "d", "i", "b"] + (["fb", "ub-"] if tier == "thorough" else ["b-"]):
                if tier == "quick" and norm == "CONVERT" and st in ("d", "u", "b-"):
                    continue
                out.append(Scenario("%s %s %s over %s norm=%s" % (op, z, form, st, norm), query, ([V[x] for x in st], norm, op, z, form)))
        out.append(Scenario("at two norm=%s" % norm, query, ([V["b"], V["i"]], norm, "overlapping", None, "args")))
    return out
