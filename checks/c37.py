"""The textual description of an entry or timespan states exactly its state (all-day or floating, class, summary, begin, effective end and
duration, which of them is fixed), calendars state their numbers of entries, time zones their TZID, lines and components their parts; a
parse error carries and shows the number and the text of the line it is about."""
from .common import *

USER = """
from ics import Event, Todo

class Meeting(Event):
    pass

class Chore(Todo):
    pass
"""


def expected(A, s, cls, summary=None):
    w = []
    if s.day:
        w.append("all-day")
    elif s.floating():
        w.append("floating")
    w.append(cls)
    if summary:
        w.append("'%s'" % summary)
    show = (lambda x: A.call(A.get(x, "strftime"), "%Y-%m-%d")) if s.day else A.str
    if s.b is not None:
        w += ["begin:", show(s.b)]
    e, rep, d = s.end(), s.rep(), s.dur()
    if e is not None:
        w += ["fixed"] * (rep == "end") + ["due:" if s.kind == "todo" else "end:", show(e)]
    if d is not None and rep is not None:
        w += ["fixed"] * (rep == "duration") + ["duration:", A.str(d)]
    return "<" + " ".join(w) + ">"


def described(A, x, want, what):
    A.same_text(A.str(x), want, what)


def entry(A, v, how):
    s = valid_span(A, *v)
    kind = s.kind
    if kind == "span":
        described(A, mk_timespan(A, s), expected(A, s, "Timespan"), "description of a timespan")
        return
    described(A, mk_timespan(A, s), expected(A, s, CLS[kind]), "description of the timespan")
    name = A.choose([None, "", "w", "two words", "it's", "new\nline", " a  b ", "\t", "X\u2028"], "summary")
    summary = A.text("w") if name == "w" else name
    cls = A.ics.Event if kind == "event" else A.ics.Todo
    if how == "subclass":
        cls = getattr(A.module("described", USER), "Meeting" if kind == "event" else "Chore")
    x = A.call(cls, timespan=mk_timespan(A, s), summary=summary, uid="u", description="other", location="place")
    want = expected(A, s, {"plain": "Event" if kind == "event" else "Todo", "subclass": "Meeting" if kind == "event" else "Chore"}[how], summary)
    described(A, x, want, "description of an entry")
    described(A, x, want, "description of an entry, again")
    check_entry(A, x, s, "after describing")
    A.same(A.get(x, "summary"), summary, "summary after describing")
    # the description follows later changes
    A.set(x, "summary", "renamed")
    described(A, x, expected(A, s, cls.name, "renamed"), "description after renaming")
    described(A, A.call(A.get(x, "clone")), expected(A, s, cls.name, "renamed"), "description of a clone")


def changed(A, v, op):
    s = valid_span(A, *v)
    x = mk_entry(A, s, "t")
    cls = "Event" if s.kind == "event" else "Todo"
    A.str(x)
    if op == "all-day":
        r = A.attempt(A.get(x, "make_all_day"))
    elif op in ("end", "duration"):
        r = A.attempt(A.get(x, "convert_end"), op)
    elif op == "clear":
        r = A.attempt(A.set, x, "end", None)
    else:
        r = A.attempt(A.get(x, op), A.zone("Zone/Q"))
    if r[1] is not None:
        described(A, x, expected(A, s, cls, "t"), "description after a refused %s" % op)
        return
    t = A.get(x, "timespan")
    w = Span(s.kind, A.get(t, "begin_time"), A.get(t, "end_time"), A.get(t, "duration"), bool(A.call(A.get(t, "is_all_day"))))
    described(A, x, expected(A, w, cls, "t"), "description after %s" % op)


def calendar(A, n, m):
    c = A.call(A.ics.Calendar)
    for i in range(n):
        A.call(A.get(A.get(c, "events"), "append"), A.call(A.ics.Event, "e%d" % i, A.dt("b", A.utc)))
    for i in range(m):
        A.call(A.get(A.get(c, "todos"), "append"), A.call(A.ics.Todo, A.dt("b", A.utc)))
    want = "<Calendar with %d event%s and %d todo%s>" % (n, "" if n == 1 else "s", m, "" if m == 1 else "s")
    described(A, c, want, "description of a calendar")
    A.set(c, "events", [])
    described(A, c, "<Calendar with 0 events and %d todo%s>" % (m, "" if m == 1 else "s"), "description without events")


def zone(A, how):
    C = A.mod("ics.timezone")
    if how == "builtin":
        z = A.call(C.Timezone.from_tzid, BUILTIN + "K")
        described(A, z, BUILTIN + "K", "a builtin time zone")
        A.same_text(A.repr(z), "Timezone.from_tzid('%sK')" % BUILTIN, "repr of a builtin time zone")
        return
    z = A.call(C.Timezone, "Own/Zone", [A.call(C.TimezoneStandardObservance, A.td_of(hours=1), A.td_of(hours=2), A.call(A.mod("dateutil.rrule").rruleset))])
    described(A, z, "Own/Zone", "an own time zone")
    e = A.call(A.ics.Event, begin=A.dt("b", z))
    A.same_text(A.str(e), "<Event begin: %s end: %s>" % (A.str(A.get(e, "begin")), A.str(A.get(e, "begin"))), "entry in an own zone")


RULES = [(dict(freq=3, count=2), "FREQ=DAILY;COUNT=2"), (dict(freq=0, interval=2), "FREQ=YEARLY;INTERVAL=2"), (dict(freq=1, bymonthday=[1, -1]), "FREQ=MONTHLY;BYMONTHDAY=1,-1")]


def recurrence(A, nrules, nex, nr, nx):
    """each rule with its start, rules that exclude as such, then the dates and those left out"""
    R = A.mod("dateutil.rrule")
    s = A.call(R.rruleset)
    want = []
    for n, add, name in ((nrules, "rrule", "RRULE"), (nex, "exrule", "EXRULE")):
        for i in range(n):
            day = A.dt("%s%d" % (add, i), unit=S)
            kw, text = RULES[(i + (name == "EXRULE")) % len(RULES)]
            A.call(A.get(s, add), A.call(R.rrule, dtstart=day, **kw))
            want.append("DTSTART:%s\n%s:%s\n" % (day.strftime("%Y%m%dT%H%M%S"), name, text))
    for n, add in ((nr, "rdate"), (nx, "exdate")):
        for i in range(n):
            d = A.dt("%s%d" % (add, i))
            A.call(A.get(s, add), d)
            want.append(A.str(d) + "\n")
    described(A, s, "".join(want), "description of a recurrence")


def tree(A, n, kinds):
    C = A.ics
    items, texts = [], []
    for i in range(n):
        k = A.choose(kinds, "item %d" % i)
        v = A.text("v%d" % i)
        if k == "line":
            items.append(A.call(C.ContentLine, "A%d" % i, {}, v))
            texts.append("A%d='%s'" % (i, v))
        elif k == "param":
            items.append(A.call(C.ContentLine, "a%d" % i, {"P": ["q"]}, v))
            texts.append("A%d{'P': ['q']}='%s'" % (i, v))
        else:
            items.append(A.call(C.Container, "sub", [A.call(C.ContentLine, "B", {}, v)]))
            texts.append("SUB[B='%s']" % v)
            A.require(A.get(items[-1], "line_nr") == -1, "line number of a component that wasn't read")
    c = A.call(C.Container, "comp", items)
    described(A, c, "COMP[%s]" % ", ".join(texts), "description of a component")
    for i, t in zip(items, texts):
        described(A, i, t, "description of an item")


def numbers(A):
    """lines know their number, components that of their first item; without one it is -1"""
    C = A.ics
    w = A.text("w")
    ls = ["BEGIN:A", "X:" + w, " y", "BEGIN:B", "BEGIN:C", "END:C", "", "BEGIN:D", "Y:1", "END:D", "END:B", "Z:2", "END:A", "BEGIN:E", "END:E", "W:3"]
    want = (1, [1, (-1, [(-1, []), (8, [8])]), 11])
    a, e, l = A.iter(A.call(A.mod("ics.contentline").string_to_containers, "\r\n".join(ls)))

    def check(x, want, path):
        A.require(A.get(x, "line_nr") == (want[0] if isinstance(want, tuple) else want), lambda: "line number of %s is %s instead of %s" % (path, A.show(A.get(x, "line_nr")), want))
        if isinstance(want, tuple):
            items = A.iter(x)
            A.require(len(items) == len(want[1]), "number of items")
            for i, (y, z) in enumerate(zip(items, want[1])):
                check(y, z, "%s.%d" % (path, i))
    check(a, want, "0")
    check(e, (-1, []), "1")
    check(l, 15, "2")
    A.require(A.get(A.call(C.ContentLine, "A"), "line_nr") == -1 and A.get(A.call(C.Container, "A"), "line_nr") == -1, "number of what wasn't read")
    described(A, e, "E[]", "an empty component")
    described(A, a, "A[X='%sy', B[C[], D[Y='1']], Z='2']" % w, "a component with components")


# ------------------------------------------------------------------ errors
BADLINES = {"no-colon": lambda w: w, "param-no-value": lambda w: "A;P:" + w, "empty-param": lambda w: "A;P=:" + w, "unclosed": lambda w: 'A;P="%s:x' % w, "trailing": lambda w: 'A;P="q"%s:x' % w, "no-colon-param": lambda w: "A;P=q"}


def error(A, kind, before, fold):
    """a line that can't be read, after some others"""
    w = A.text("w")
    bad = BADLINES[kind](w)
    pre = []
    for i in range(before):
        k = A.choose(["line", "folded", "blank", "pair"], "line %d" % i)
        pre += {"line": ["X:%s" % w], "folded": ["X:%s" % w, " %s" % w], "blank": [""], "pair": ["BEGIN:X", "END:X"]}[k]
    nr = len(pre)
    if fold:
        ls = pre + [bad[:1], " " + bad[1:], "Z:end"]
    else:
        ls = pre + [bad, "Z:end"]
    C = A.mod("ics.contentline")
    end = A.choose(["\r\n", "\n", "\r"], "line end")
    src = A.choose(["text", "lines"], "source")
    if src == "text":
        got, err = A.attempt(lambda: A.iter(A.call(C.string_to_containers, end.join(ls))))
    else:
        got, err = A.attempt(lambda: A.iter(A.call(C.lines_to_containers, [l + end for l in ls])))
    A.require(err is not None and A.is_exc(err, C.ParseError), lambda: "the line %s is read (got %s)" % (A.show(bad), A.exc_name(err)))
    e = err.value if hasattr(err, "value") else err
    A.require(A.get(e, "line_nr") == nr, lambda: "the error is about line %s instead of line %d" % (A.show(A.get(e, "line_nr")), nr))
    A.same_text(A.get(e, "line"), bad, "the line the error is about")
    t = A.str(e)
    A.require(t.startswith("Line %d" % nr) and not t[len("Line %d" % nr):][:1].isdigit(), lambda: "the error text %s doesn't name the line" % A.show(t))
    A.require(A.get(e, "msg") in t, "the error text lacks the message")
    A.require(bad in t, lambda: "the error text %s lacks the line" % A.show(t))
    # the same line without a number
    _, err = A.attempt(lambda: A.iter(A.call(A.get(C.Parser, "lines_to_contentlines"), [bad])))
    A.require(err is not None and A.is_exc(err, C.ParseError), "a single bad line is read")
    e = err.value if hasattr(err, "value") else err
    t = A.str(e)
    A.require(A.get(e, "msg") in t and bad in t, "the error text of a single line lacks message or line")


def error_text(A):
    PE = A.mod("ics.contentline").ParseError
    m, l, st = A.text("m"), A.text("l"), A.text("s")
    for args, want in [((m,), "Line " + m), ((m, 7), "Line 7 " + m), ((m, 7, 3), "Line 7:3 " + m), ((m, 7, (3, 5)), "Line 7:3-5 " + m), ((m, 0, 0), "Line 0:0 " + m), ((m, 7, 3, l), "Line 7:3 " + m + ": " + l),
                       ((m, 7, -1, l, st), "Line 7 " + m + ": " + l + " (" + st + ")"), ((m, -1, 3, None, st), "Line " + m + " (" + st + ")")]:
        A.same_text(A.str(A.call(PE, *args)), want, "text of the error %s" % A.show(args))


def scenarios(tier):
    out = [Scenario("line numbers", numbers)]
    for v in variants():
        for how in (["plain"] if v[0] == "span" else ["plain", "subclass"]):
            out.append(Scenario("entry %s %s" % (vname(v), how), entry, (v, how)))
        if v[0] != "span" and v[1] != "-":
            for op in ["all-day", "end", "duration", "clear", "replace_timezone", "convert_timezone"]:
                if v[3] and "timezone" in op:
                    continue
                if v[2][0] is None and op == "convert_timezone":
                    continue
                out.append(Scenario("changed %s %s" % (vname(v), op), changed, (v, op)))
    for n in range(4):
        for m in range(4):
            out.append(Scenario("calendar %d %d" % (n, m), calendar, (n, m)))
    out += [Scenario("zone %s" % h, zone, (h,)) for h in ("builtin", "own")]
    for c in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 1, 1), (3, 2, 0, 2), (1, 3, 2, 0), (0, 0, 3, 3)):
        out.append(Scenario("recurrence %d %d %d %d" % c, recurrence, c))
    for n in range(4):
        out.append(Scenario("tree %d" % n, tree, (n, ["line", "param", "comp"])))
    for k in BADLINES:
        for b in range(3 if tier == "quick" else 4):
            for f in (False, True):
                out.append(Scenario("error %s after %d %s" % (k, b, "folded" if f else "whole"), error, (k, b, f)))
    out.append(Scenario("error text", error_text, ()))
    return out
