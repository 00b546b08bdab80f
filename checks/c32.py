"""The line width set by contentline_set_wrap and the identifiers and stamps set by deterministic_event_data apply inside of their scope,
the innermost one counting, and end with it - however it is left: normally, by an error, which is passed on, by return, break or by
abandoning a generator - and then what was set before applies again."""
import re
from .common import *
from .c18 import build

USER = """
from ics import Event, Todo
from ics.event import deterministic_event_data
from ics.contentline.container import contentline_set_wrap

class Stop(Exception):
    pass

class Quit(BaseException):
    pass

def enter(kind, arg):
    if kind == "wrap":
        return contentline_set_wrap(arg)
    return deterministic_event_data(**arg)

def normal(scopes, probe, log):
    log.append(probe())
    if scopes:
        with enter(*scopes[0]):
            normal(scopes[1:], probe, log)
    log.append(probe())

def error(scopes, probe, log, exc):
    log.append(probe())
    if not scopes:
        raise exc
    try:
        with enter(*scopes[0]):
            error(scopes[1:], probe, log, exc)
    finally:
        log.append(probe())

def ret(scopes, probe, log):
    log.append(probe())
    if scopes:
        with enter(*scopes[0]):
            ret(scopes[1:], probe, log)
            return_value = probe
            if return_value:
                log.append(None)
                log.pop()
                return give(probe, log, scopes)

def give(probe, log, scopes):
    return log

def loop(scopes, probe, log):
    log.append(probe())
    for s in scopes:
        for again in range(3):
            with enter(*s):
                log.append(probe())
                if again == 1:
                    break
                continue
        log.append(probe())

def gen(scopes, probe):
    if not scopes:
        yield probe()
        yield probe()
        return
    with enter(*scopes[0]):
        yield from gen(scopes[1:], probe)

def decorated(scopes, probe, log):
    f = probe
    for s in reversed(scopes):
        f = enter(*s)(f)
    log.append(probe())
    log.append(f())
    log.append(probe())
    log.append(f())
    log.append(probe())

def interleaved(a, b, probe, log):
    # one scope inside another one, of the other kind and closed in order
    log.append(probe())
    x, y = enter(*a), enter(*b)
    with x:
        log.append(probe())
        with y:
            log.append(probe())
        log.append(probe())
    log.append(probe())

def mk(kind, **kw):
    return (Event if kind == "event" else Todo)(**kw)
"""
LONG = "SUMMARY:" + "abcde fghij-klm " * 12 + "x" * 90


def widths(A):
    return [("wrap", w) for w in (20, 75, 200, None, 0, -1, 40)]


def datas(A):
    x = A.dt("dx", A.utc, unit=S)
    return [("data", {}), ("data", {"uid": A.text("id1")}), ("data", {"uid": A.text("id2"), "dtstamp": x}), ("data", {"dtstamp": A.dt("dk", known_zone(A), unit=S)}), ("data", {"uid": ""})]


def scopes_of(A, kinds):
    ws, ds = widths(A), datas(A)
    return [ws[k] if k < 10 else ds[k - 10] for k in kinds]


def prober(A, k):
    """what applies now: the physical lines of a long line, or an entry's uid and stamp"""
    line = A.call(A.ics.ContentLine, "SUMMARY", {}, LONG[8:])
    c = build(A, "VEVENT", [("SUMMARY", {}, LONG[8:])])

    A.path.plain_wrap = True  # where lines are broken is C09's concern

    def probe():
        out = [A.call(A.get(line, "serialize")), A.call(A.get(line, "serialize"), wrap=None)]
        if k == 1:
            out.append(A.call(A.get(c, "serialize")))
            out.append(len(A.call(A.get(A.call(A.ics.ContentLine, "X", {}, "y" * 150000), "serialize")).split("\r\n")))
        e, t = A.call(A.ics.Event), A.call(A.ics.Todo, uid="own", dtstamp=A.dt("own", A.utc, unit=S))
        out += [A.get(e, "uid"), A.get(e, "dtstamp"), A.get(t, "uid"), A.get(t, "dtstamp")]
        if k == 1:
            r = A.call(A.get(A.ics.Event, "from_container"), build(A, "VEVENT", [("SUMMARY", {}, "s")]))
            out += [A.get(r, "uid"), A.get(r, "dtstamp")]
        return out
    return probe


def expect(A, active, got, k, msg):
    """got is what a probe gives with these scopes active"""
    width, data = 75, None
    uid = stamp = None
    for kind, arg in active:
        if kind == "wrap":
            width = arg if arg and arg > 0 else None
        else:
            uid, stamp = arg.get("uid", "deterministic_uid@example.org"), arg.get("dtstamp", "default")
            data = True
    txt, flat = got[0], got[1]
    A.require(flat == LONG, msg + ": unwrapped output has changed")
    phys = txt.split("\r\n")
    A.require(re.sub("\r\n[ \t]", "", txt) == LONG, msg + ": folding is not lossless")
    A.require(len(phys) == 1 if width is None or width >= len(LONG) else max(len(p) for p in phys) <= width and len(phys) > 1 and len(phys[0]) == width, lambda: "%s: lines are folded at %d, not at %s" % (msg, max(len(p) for p in phys), width))
    if k == 1:
        A.require(got[2] == "BEGIN:VEVENT\r\n" + txt + "\r\nEND:VEVENT", msg + ": components are folded in another way")
        A.require((got[3] == 1) == (width is None), msg + ": very long lines are folded in another way")
    rest = got[2 + 2 * k:]
    A.require(A.text_eq(rest[2], "own") and A.eq(rest[3], A.dt("own", A.utc, unit=S)), msg + ": given identifiers or stamps are replaced")
    for u, d in [rest[:2]] + ([rest[4:6]] if k == 1 else []):
        if data:
            A.require(A.text_eq(u, uid), lambda: "%s: the uid is %s instead of %s" % (msg, A.show(u), A.show(uid)))
            if stamp == "default":
                A.require(A.eq(d.replace(tzinfo=None), A.call(A.mod("datetime").datetime, 2000, 1, 1, 12)) and A.call(A.mod("ics.timezone").is_utc, d), lambda: "%s: the stamp is %s" % (msg, A.show(d)))
            else:
                A.require(A.eq(d, stamp), lambda: "%s: the stamp is %s instead of %s" % (msg, A.show(d), A.show(stamp)))
        else:
            A.require(not any(A.text_eq(u, x) for x in ("deterministic_uid@example.org", A.text("id1"), A.text("id2"))), lambda: "%s: the uid is still %s" % (msg, A.show(u)))
            A.require(not any(d.tzinfo is not None and A.path.known_eq(inst(d) - inst(x)) for x in (A.call(A.mod("datetime").datetime, 2000, 1, 1, 12, tzinfo=A.utc), A.dt("dx", A.utc, unit=S), A.dt("dk", known_zone(A), unit=S))), lambda: "%s: the stamp is still %s" % (msg, A.show(d)))
    return rest[0], rest[1]


def fresh(A, uids):
    A.require(len(uids) < 2 or not any(A.text_eq(a, b) for i, a in enumerate(uids) for b in uids[:i]), lambda: "the same uid is given twice: %s" % A.show(uids))


def nested(A, how, kinds, k):
    m = A.module("user_scopes", USER)
    sc = scopes_of(A, kinds)
    probe = prober(A, k)
    log = []
    n = len(sc)
    if how == "normal":
        A.call(m.normal, sc, probe, log)
    elif how == "error":
        class_ = A.choose(["Stop", "ValueError", "Quit"])
        exc = A.call(A.mod("builtins").ValueError, "x") if class_ == "ValueError" else A.call(getattr(m, class_))
        _, e = A.attempt(A.call, m.error, sc, probe, log, exc)
        A.require(e is exc or getattr(e, "value", None) is exc, lambda: "the error %s" % ("is swallowed" if e is None else "becomes " + A.exc_name(e)))
    elif how == "return":
        A.call(m.ret, sc, probe, log)
        A.require(len(log) == n + 1, "probes")
        log += [None] * n
        log[-1] = probe()
    acts = [sc[:i] for i in range(n + 1)] + [sc[:i] for i in range(n if how == "normal" else n - 1, -1, -1)]
    out = []
    for i, (a, g) in enumerate(zip(acts, log)):
        if g is not None:
            u, d = expect(A, a, g, k, "%s of %d scopes, step %d" % (how, n, i))
            if not any(x[0] == "data" for x in a):
                out.append(u)
    A.require(len(log) == len(acts), "steps")
    fresh(A, out)


def loops(A, kinds):
    m = A.module("user_scopes", USER)
    sc, probe, log = scopes_of(A, kinds), prober(A, 0), []
    A.call(m.loop, sc, probe, log)
    acts = [[]]
    for s in sc:
        acts += [[s], [s], []]
    A.require(len(log) == len(acts), "steps")
    fresh(A, [expect(A, a, g, 0, "loop, step %d" % i)[0] for i, (a, g) in enumerate(zip(acts, log)) if not any(x[0] == "data" for x in a)])
    for i, (a, g) in enumerate(zip(acts, log)):
        expect(A, a, g, 0, "loop, step %d" % i)


def generators(A, kinds, how):
    m = A.module("user_scopes", USER)
    sc, probe = scopes_of(A, kinds), prober(A, 0)
    g = A.call(m.gen, sc, probe)
    expect(A, [], probe(), 0, "before the generator runs")
    expect(A, sc, A.call(A.mod("builtins").next, g), 0, "inside of the generator")
    if how == "close":
        A.call(A.get(g, "close"))
    elif how == "throw":
        A.raises(A.get(g, "throw"), A.call(m.Stop), _msg="the error is swallowed", _exc=m.Stop)
    else:
        expect(A, sc, A.call(A.mod("builtins").next, g), 0, "inside of the generator")
        A.require(not A.iter(g), "the generator goes on")
    expect(A, [], probe(), 0, "after the generator was ended by " + how)


def decorators(A, kinds):
    m = A.module("user_scopes", USER)
    sc, probe, log = scopes_of(A, kinds), prober(A, 0), []
    A.call(m.decorated, sc, probe, log)
    for i, (a, g) in enumerate(zip([[], sc, [], sc, []], log)):
        expect(A, a, g, 0, "decorated call, step %d" % i)
    A.require(len(log) == 5, "steps")


def inter(A, a, b):
    m = A.module("user_scopes", USER)
    (a, b), probe, log = scopes_of(A, (a, b)), prober(A, 0), []
    A.call(m.interleaved, a, b, probe, log)
    for i, (x, g) in enumerate(zip([[], [a], [a, b], [a], []], log)):
        expect(A, x, g, 0, "created together, step %d" % i)
    A.require(len(log) == 5, "steps")


def inside(A, kind, what):
    """operations that fail or succeed inside of a scope don't end it"""
    m = A.module("user_scopes", USER)
    sc = scopes_of(A, kind)
    probe = prober(A, 0)
    cms = [A.call(m.enter, *s) for s in sc]
    for cm in cms:
        A.call(A.get(cm, "__enter__"))
    if what == "write":
        e = A.call(A.ics.Event, summary="s", begin=A.dt("b", A.utc, unit=S))
        A.call(A.get(A.call(A.ics.Calendar, events=[e]), "serialize"))
    elif what == "fail write":
        e = A.call(A.ics.Event, summary="s", begin=A.dt("b", A.zone("Zone/A"), unit=S))
        A.raises(A.get(e, "serialize"), _msg="is written")
    elif what == "fail make":
        A.raises(A.ics.Event, status="nonsense", _msg="is accepted")
        A.raises(A.ics.Todo, begin=A.dt("b", A.utc, unit=S), due=A.dt("b", A.utc, unit=S), duration=A.td_of(seconds=1), _msg="is accepted")
    elif what == "read":
        A.call(A.ics.Calendar, "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nSUMMARY:s\r\nEND:VEVENT\r\nEND:VCALENDAR")
    elif what == "clone":
        e = A.call(A.ics.Event)
        c = A.call(A.get(e, "clone"))
        A.require(A.text_eq(A.get(e, "uid"), A.get(c, "uid")) and A.eq(A.get(e, "dtstamp"), A.get(c, "dtstamp")), "the clone's identity")
    expect(A, sc, probe(), 0, "after " + what)
    for cm in reversed(cms):
        A.call(A.get(cm, "__exit__"), None, None, None)
    expect(A, [], probe(), 0, "after the scope")


def scenarios(tier):
    out = []
    singles = [(k,) for k in list(range(7)) + [10, 11, 12, 13, 14]]
    pairs = [(0, 1), (0, 3), (3, 0), (4, 2), (10, 11), (11, 12), (12, 10), (0, 11), (13, 5), (6, 6), (12, 12), (11, 14), (14, 10)]
    triples = [(0, 3, 6), (10, 11, 12), (0, 12, 3), (11, 0, 13), (12, 3, 11)]
    if tier == "thorough":
        ks = [0, 3, 6, 10, 12]
        pairs = [(a, b) for a in list(range(7)) + [10, 11, 12, 13] for b in list(range(7)) + [10, 11, 12, 13]]
        triples = [(a, b, c) for a in ks for b in ks for c in ks]
    for kinds in [()] + singles + pairs + triples:
        for how in ("normal", "error", "return"):
            if kinds or how == "normal":
                out.append(Scenario("%s %s" % (how, kinds), nested, (how, kinds, 1 if len(kinds) == 1 else 0)))
    for kinds in singles + pairs:
        for how in ("close", "throw", "end"):
            out.append(Scenario("generator %s %s" % (how, kinds), generators, (kinds, how)))
        out.append(Scenario("decorated %s" % (kinds,), decorators, (kinds,)))
        out.append(Scenario("loop %s" % (kinds,), loops, (kinds,)))
    for a, b in pairs:
        out.append(Scenario("together %s %s" % (a, b), inter, (a, b)))
    for kind in ((0,), (3,), (11,), (12,), (0, 12)):
        for what in ("write", "fail write", "fail make", "read", "clone"):
            out.append(Scenario("inside %s %s" % (kind, what), inside, (kind, what)))
    return out
