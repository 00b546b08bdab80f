"""Setting begin moves an entry with a duration and resizes one with an end; setting end (due) or duration replaces the other
representation; converting the representation keeps begin and effective end; everything else stays as it was."""
from .common import *


def setter(A, v, op, t):
    s = valid_span(A, *v)
    x = mk_entry(A, s, "title")
    if op == "begin":
        new = midnight(A, "n") if s.day else when(A, "n", t)
        w = s.but(b=new)
    elif op in ("end", "due"):
        new = midnight(A, "n") if s.day else when(A, "n", t)
        w = s.but(e=new, d=None)
    else:
        new = A.td("n", 1 if s.day else 0, 10 ** 6 if not s.day else 900, unit=DAY if s.day else S)
        w = s.but(d=new, e=None)
    if not w.valid(A):
        A.raises(A.set, x, op, new, _msg="an invalid %s was accepted" % op)
        check_entry(A, x, s, "after the rejected %s" % op)
        return
    form = A.choose(["value", "form"]) if t is None else "value"
    arg = new
    if form == "form":
        if op == "duration":
            arg = A.choose([{"seconds": A.call(A.get(new, "total_seconds"))}]) if False else new
        elif s.day:
            arg = dt.date.of(new.pos)
    uid, stamp = A.get(x, "uid"), A.get(x, "dtstamp")
    A.set(x, op, arg)
    check_entry(A, x, w, "after setting %s" % op)
    A.same(A.get(x, "summary"), "title", "summary after setting %s" % op)
    A.require(A.get(x, "uid") is uid and A.get(x, "dtstamp") is stamp, "identity of the entry changed")
    if op in ("end", "due"):
        same_dt(A, A.get(x, op), new, op + " reads back")
    elif op == "duration":
        same_td(A, A.get(x, op), new, op + " reads back")


def clear(A, v, op):
    """assigning nothing removes the part (where that leaves a valid entry)"""
    s = valid_span(A, *v)
    x = mk_entry(A, s)
    w = s.but(b=None) if op == "begin" else s.but(e=None, d=None)
    if not w.valid(A):
        A.raises(A.set, x, op, None, _msg="%s can be dropped, though the duration needs it" % op)
        check_entry(A, x, s, "after the refused clearing of %s" % op)
        return
    A.set(x, op, None)
    check_entry(A, x, w, "after clearing %s" % op)


def tupled(A, kind, op):
    """tuple and mapping forms of date-times and durations"""
    s = valid_span(A, kind, "be", (None, None))
    x = mk_entry(A, s)
    if op == "duration":
        arg, want = A.choose([((1, 30), dt.timedelta(1, 30)), ({"hours": 3}, dt.timedelta(hours=3))])
        A.set(x, "duration", arg)
        same_td(A, A.get(x, "duration"), want, "duration")
        return
    arg, want = A.choose([((8999, 12, 31, 23, 1), dt.datetime(8999, 12, 31, 23, 1)), ({"year": 8999, "month": 12, "day": 31}, dt.datetime(8999, 12, 31))])
    w = s.but(e=want)
    A.assume(w.valid(A))
    A.set(x, op, arg)
    check_entry(A, x, w, "after setting %s" % op)
    A.raises(A.set, x, op, "2020-01-01", _msg="text accepted as a date-time")
    A.raises(A.set, x, op, 5, _msg="number accepted as a date-time")
    check_entry(A, x, w, "after rejected values")


def ctor(A, kind, sh, t):
    b = when(A, "b", t) if "b" in sh else None
    e = when(A, "e", t) if "e" in sh else None
    d = A.td("d", 0, 10 ** 6, unit=S) if "d" in sh else None
    w = Span(kind, b, e, d)
    A.assume(w.valid(A))
    if kind == "event":
        x = A.call(A.ics.Event, begin=b, end=e, duration=d, summary="t")
        y = A.call(A.ics.Event, "t", b, e, d)
    else:
        x = A.call(A.ics.Todo, begin=b, due=e, duration=d, summary="t")
        y = A.call(A.ics.Todo, b, e, d, summary="t")
    for z in (x, y):
        check_entry(A, z, w, "constructed")
        A.same(A.get(z, "summary"), "t", "summary")


def convert(A, v, op, target):
    s = valid_span(A, *v)
    x = mk_entry(A, s)
    rep = s.rep()
    tgt = "end" if target == "due" else target
    name = "due" if s.kind == "todo" else "end"
    f = A.get(x, op)
    _, err = A.attempt(f, target)
    possible = rep == tgt or tgt is None or (rep == "end" and tgt == "duration" and s.b is not None) or (rep == "duration" and tgt == "end")
    if not possible or (target == "due" and s.kind != "todo"):
        A.require(err is not None or (target == "due" and rep == "end"), lambda: "conversion from %s to %s was accepted" % (rep, target))
        check_entry(A, x, s, "after the refused conversion")
        return
    A.require(err is None, lambda: "conversion from %s to %s failed: %s" % (rep, target, A.exc_name(err)))
    if rep == tgt:
        w = s
    elif tgt is None:
        w = s.but(e=None, d=None)
    elif tgt == "duration":
        w = s.but(e=None, d=s.dur())
    else:
        w = s.but(e=s.end(), d=None)
    check_entry(A, x, w, "after converting %s to %s" % (rep, target))
    if tgt is not None and (w.rep() == "end" or s.e is None or s.e.tzinfo is s.b.tzinfo if s.b is not None else True):
        e = s.end()
        if e is not None:
            A.must_eq(A.get(x, "end"), e, "effective %s" % name)


def todo_aliases(A, v):
    s = valid_span(A, *v)
    x = mk_entry(A, s)
    same_dt(A, A.get(x, "due"), s.end(), "due")
    A.same(A.get(x, "due_representation"), s.rep(), "due representation")
    A.require(A.get(x, "has_explicit_due") == (s.rep() is not None), "explicit due")


def scenarios(tier):
    out = []
    for v in variants(("event", "todo")):
        z = v[2][0]
        for op in ("begin", "end", "duration") + (("due",) if v[0] == "todo" else ()):
            for t in ((z,) if tier == "quick" else (None, "utc", "A", "B")):
                out.append(Scenario("set %s (%s) of %s" % (op, t, vname(v)), setter, (v, op, t)))
            if v[1] in ("be", "e", "b", "bd"):
                if not (op == "begin" and v[0] == "event" and v[1] == "be"):
                    out.append(Scenario("clear %s of %s" % (op, vname(v)), clear, (v, op)))
        for op in ("convert_end",) + (("convert_due",) if v[0] == "todo" else ()):
            for target in ("end", "due", "duration", None):
                out.append(Scenario("%s(%s) of %s" % (op, target, vname(v)), convert, (v, op, target)))
        if v[0] == "todo":
            out.append(Scenario("due aliases of %s" % vname(v), todo_aliases, (v,)))
    for k in ("event", "todo"):
        for op in ("end", "duration"):
            out.append(Scenario("converted arguments %s %s" % (k, op), tupled, (k, op)))
        for sh in valid_shapes(k):
            for t in TZ1:
                out.append(Scenario("constructor %s %s %s" % (k, sh, t), ctor, (k, sh, t)))
    return out
