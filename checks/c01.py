"""begin <= end, a fixed end and a fixed duration never both, durations non-negative and only with a begin, begin/end both
floating or both zoned, all-day spans are zone-less whole days of at least one day, events have no end without begin; a
violating construction or modification is rejected with the entry unchanged, a satisfying one accepted as given."""
from .common import *


def inputs(A, kind, sh, tzs, pre=""):
    b = when(A, pre + "b", tzs[0]) if "b" in sh else None
    e = when(A, pre + "e", tzs[1]) if "e" in sh else None
    d = A.td(pre + "d", -10 ** 7, 10 ** 7, unit=S) if "d" in sh else None
    return b, e, d


def construct(A, kind, sh, tzs, day, via):
    b, e, d = inputs(A, kind, sh, tzs)
    s = Span(kind, b, e, d, day)
    if via == "timespan":
        x, err = A.attempt(mk_timespan, A, s)
    elif kind == "event":
        x, err = A.attempt(A.ics.Event, "x", b, e, d)
    else:
        x, err = A.attempt(A.ics.Todo, b, e, d)
    ok = s.valid(A)
    if ok:
        A.require(err is None, lambda: "a valid combination was rejected: %s" % A.exc_name(err))
        check_any(A, x, s if via != "timespan" else s.but(kind="span"), "constructed as given") if via != "timespan" else check_ts(A, x, s, "constructed as given")
    else:
        A.require(err is not None, lambda: "an invalid combination was accepted: %s" % A.show(x))


def modify(A, kind, v, op, tz1):
    """an assignment to an entry: rejected and unchanged, or accepted and valid"""
    s = valid_span(A, *v)
    x = mk_entry(A, s)
    if op in ("begin", "end", "due"):
        new = when(A, "n", tz1)
        t = s.but(b=new) if op == "begin" else s.but(e=new, d=None)
    elif op == "duration":
        new = A.td("n", -10 ** 7, 10 ** 7, unit=S)
        t = s.but(d=new, e=None)
    elif op == "timespan":
        new = A.attempt(mk_timespan, A, Span("todo" if kind == "todo" else "event", when(A, "n", tz1)))[0]
        t = Span(kind, when(A, "n", tz1))
    elif op == "wrongspan":
        new = A.call(A.ics.Timespan, when(A, "n", tz1))
        t = None
    _, err = A.attempt(A.set, x, "timespan" if op == "wrongspan" else op, new)
    if t is not None and t.valid(A):
        A.require(err is None, lambda: "a valid modification (%s) was rejected: %s" % (op, A.exc_name(err)))
        check_entry(A, x, t, "after setting " + op)
    else:
        A.require(err is not None, lambda: "an invalid modification (%s) was accepted: %s" % (op, A.show(A.get(x, "timespan"))))
        check_entry(A, x, s, "unchanged after the rejected " + op)


def ts_replace(A, kind, v, sh, tz1, day2):
    s = valid_span(A, *v)
    x = mk_timespan(A, s)
    kw, t = {}, s
    if "b" in sh:
        kw["begin_time"] = when(A, "nb", tz1)
        t = t.but(b=kw["begin_time"])
    if "B" in sh:
        kw["begin_time"] = None
        t = t.but(b=None)
    if "e" in sh:
        kw["end_time"] = when(A, "ne", tz1)
        t = t.but(e=kw["end_time"])
    if "E" in sh:
        kw["end_time"] = None
        t = t.but(e=None)
    if "d" in sh:
        kw["duration"] = A.td("nd", -10 ** 7, 10 ** 7, unit=S)
        t = t.but(d=kw["duration"])
    if "D" in sh:
        kw["duration"] = None
        t = t.but(d=None)
    if day2 is not None:
        kw["precision"] = "day" if day2 else "second"
        t = t.but(day=day2)
    y, err = A.attempt(A.get(x, "replace"), **kw)
    if t.valid(A):
        A.require(err is None, lambda: "a valid replacement was rejected: %s" % A.exc_name(err))
        check_ts(A, y, t, "after replacing %s" % sh)
        A.require(A.get(y, "__class__") is A.get(x, "__class__"), "replace keeps the kind of timespan")
    else:
        A.require(err is not None, lambda: "an invalid replacement was accepted: %s" % A.show(y))
    check_ts(A, x, s, "the original timespan")


def frozen(A, kind, v):
    s = valid_span(A, *v)
    x = mk_timespan(A, s)
    for f in ("begin_time", "end_time", "duration", "precision"):
        A.raises(A.set, x, f, A.get(x, f), _msg="timespan field %s can be assigned directly" % f)
        A.raises(lambda: A.call(A.mod("builtins").delattr, x, f), _msg="timespan field %s can be deleted" % f)
    check_ts(A, x, s, "after attempted assignments")


def exclusive_ctor(A, kind):
    s = Span(kind, when(A, "b"))
    ts = mk_timespan(A, s)
    c = A.ics.Event if kind == "event" else A.ics.Todo
    which = A.choose(["begin", "duration", "end" if kind == "event" else "due"])
    val = A.td("d", 0, 10 ** 6, unit=S) if which == "duration" else when(A, "n")
    A.raises(lambda: A.call(c, timespan=ts, **{which: val}), _msg="explicit timespan together with %s accepted" % which)
    x = A.call(c, timespan=ts)
    check_entry(A, x, s, "explicit timespan")
    bad = "todo" if kind == "event" else "event"
    A.raises(lambda: A.call(c, timespan=mk_timespan(A, Span(bad, when(A, "b")))), _msg="timespan of the wrong kind accepted")


def entry_ops(A, kind, v, op, which):
    """operations on entries preserve the invariants"""
    s = valid_span(A, *v)
    x = mk_entry(A, s)
    arg = () if op in ("make_all_day", "unset_all_day") else (tz(A, which),) if op.endswith("timezone") else (which,)
    _, err = A.attempt(A.get(x, op), *arg)
    t = A.get(x, "timespan")
    if err is not None:
        check_entry(A, x, s, "unchanged after the rejected " + op)
        return
    now = Span(kind, A.get(t, "begin_time"), A.get(t, "end_time"), A.get(t, "duration"), A.call(A.get(t, "is_all_day")))
    A.require(now.valid(A), lambda: "%s left an invalid timespan %s" % (op, A.show(t)))


def scenarios(tier):
    out = []
    pairs = [(a, b) for a in (None, "utc", "A") for b in (None, "utc", "A")] + [("A", "B")]
    for kind in ("span", "event", "todo"):
        for sh in ("-", "b", "e", "d", "be", "bd", "ed", "bed"):
            for tzs in pairs if "b" in sh and "e" in sh else [(x, x) for x in TZ1]:
                if sh in ("-", "d") and tzs[0] is not None:
                    continue
                for day in (False, True):
                    out.append(Scenario("construct %s %s %s day=%s" % (CLS[kind], sh, tzs, day), construct, (kind, sh, tzs, day, "timespan")))
                if kind != "span" and (tzs[0] in (None, "utc")):
                    out.append(Scenario("construct entry %s %s %s" % (kind, sh, tzs), construct, (kind, sh, tzs, False, "entry")))
    for kind in ("event", "todo"):
        out.append(Scenario("exclusive constructor arguments %s" % kind, exclusive_ctor, (kind,)))
        for v in variants((kind,)):
            if v[2][0] == "A" and v[2][1] != "B":
                continue
            for op in ("begin", "end", "duration") + (("due",) if kind == "todo" else ()):
                for t in ((None, "utc") if op != "duration" else (None,)):
                    out.append(Scenario("set %s of %s to %s" % (op, vname(v), t), modify, (kind, v, op, t)))
            for op, ws in (("make_all_day", (None,)), ("unset_all_day", (None,)), ("replace_timezone", (None, "A")), ("convert_timezone", (None, "A")),
                           ("convert_end", ("end", "duration", None))):
                for w in ws:
                    out.append(Scenario("%s(%s) on %s" % (op, w, vname(v)), entry_ops, (kind, v, op, w)))
        out.append(Scenario("set timespan of %s" % kind, modify, (kind, (kind, "bd", ("utc", "utc"), False), "timespan", None)))
        out.append(Scenario("set wrong timespan of %s" % kind, modify, (kind, (kind, "bd", ("utc", "utc"), False), "wrongspan", None)))
    for kind in ("span", "event", "todo"):
        for v in variants((kind,)):
            if v[2][0] == "A" and v[2][1] != "B":
                continue
            out.append(Scenario("frozen %s" % vname(v), frozen, (kind, v)))
            for sh in ("b", "B", "e", "E", "d", "D", "be", "eD", "dE", "BED", "-"):
                for t in ((None, "utc") if ("b" in sh or "e" in sh) else (None,)):
                    if kind == "span" and t is None and tier == "quick" and "e" in sh:
                        continue
                    out.append(Scenario("replace %s (%s) of %s" % (sh, t, vname(v)), ts_replace, (kind, v, sh, t, None)))
            for day in (False, True):
                out.append(Scenario("replace precision day=%s of %s" % (day, vname(v)), ts_replace, (kind, v, "-", None, day)))
    return out
