"""Shared drivers and the specification-side model of calendar entries' timespans."""
from absint import dom, dt
from absint.dom import Lin
from absint.run import Scenario, Skip, Violation  # noqa: F401

S = 10 ** 6
DAY = dt.DAY
UTC, A_, B_ = "utc", "A", "B"


# characters that tend to be taken for something else: spaces, line breaks of other conventions, marks, compositions, case pairs
EXOTIC = ["\t", "  ", "\xa0", "\x85", "\u2028", "\u2029", "\x0b", "\x0c", "\x1c", "\x1f", "\ufeff", "\u200b", "\u200d", "\u200f", "\xad", "\x00", "\x08", "\x1b", "\x7f", "\xe9", "e\u0301", "\u212b",
          "\xdf", "\u0130", "\u0131", "\ufb01", "\uff21", "\u01c5", "\U0001f600", "\U0001f469\u200d\U0001f680", "\u65e5", "\u0644", "'", "`", "%", "%s", "{}", "{0}", "$", "&amp", "<b>", "=", "+", "/", "#", "?", "|", "~", "*"]


def exotic(A, w=None):
    """texts with such a character in front, in between and at the end"""
    w = A.text("w") if w is None else w
    return ["%sa%sb%s%s%s" % (c, c, c, w, c) for c in EXOTIC] + [c for c in EXOTIC] + [c + "\U0001f600" + c + c for c in EXOTIC[:15]]


def tz(A, which):
    return {None: lambda: None, "utc": lambda: A.utc, "duutc": A.du_utc, "A": lambda: A.zone("Zone/A"), "B": lambda: A.zone("Zone/B"),
            "local": A.local, "K": lambda: known_zone(A), "K2": lambda: known_zone(A, "K2")}[which]()


def when(A, name, which=None, unit=S):
    return A.dt(name, tz(A, which), unit=unit)


def midnight(A, name):
    return A.dt(name, None, unit=DAY)


def inst(x):
    """instant of a date-time on the UTC axis; floating ones are local times"""
    return x.pos - dt.local_offset() if x.tzinfo is None else x.utcpos


def is_midnight(A, x):
    f = dt.floor_div(x.pos, DAY).scale(DAY)
    return A.path.sign(x.pos - f) == 0


def le(A, a, b):
    return A.path.ge0(b - a)


def lt(A, a, b):
    return not A.path.ge0(a - b)


def same_dt(A, got, want, msg):
    """same wall clock and same zone, on the whole partition"""
    if want is None:
        A.require(got is None, lambda: "%s: expected nothing, got %s" % (msg, A.show(got)))
        return
    A.require(isinstance(got, dt.datetime), lambda: "%s: expected a date-time, got %s" % (msg, A.show(got)))
    A.require(got.tzinfo is want.tzinfo, lambda: "%s: zone %s instead of %s" % (msg, A.show(got), A.show(want)))
    A.must_eq(got, want, msg)


def same_td(A, got, want, msg):
    if want is None:
        A.require(got is None, lambda: "%s: expected nothing, got %s" % (msg, A.show(got)))
        return
    A.require(isinstance(got, dt.timedelta), lambda: "%s: expected a duration, got %s" % (msg, A.show(got)))
    A.must_eq(got, want, msg)


class Span:
    """what a user asked for: kind, fixed begin / end / duration, all-day or not"""

    def __init__(self, kind, b=None, e=None, d=None, day=False):
        self.kind, self.b, self.e, self.d, self.day = kind, b, e, d, day

    def but(self, **kw):
        r = Span(self.kind, self.b, self.e, self.d, self.day)
        r.__dict__.update(kw)
        return r

    # --- derived values of a valid span
    def dur(self):
        if self.d is not None:
            return self.d
        if self.b is not None and self.e is not None:
            return dt.timedelta.of(self.e.pos - self.b.pos if self.e.tzinfo is self.b.tzinfo else self.e.utcpos - self.b.utcpos)
        if self.kind == "event":
            return dt.timedelta(days=1) if self.day else dt.timedelta()
        return None

    def end(self):
        if self.e is not None:
            return self.e
        if self.b is None:
            return None
        d = self.dur()
        return None if d is None else dt.datetime.of(self.b.pos + d.us, self.b.tzinfo)

    def rep(self):
        return "duration" if self.d is not None else "end" if self.e is not None else None

    def floating(self):
        x = self.b if self.b is not None else self.e
        return x is None or x.tzinfo is None

    # --- may such a span exist?
    def valid(self, A):
        b, e, d = self.b, self.e, self.d
        if e is not None and d is not None:
            return False
        if self.kind == "event" and e is not None and b is None:
            return False
        if d is not None and b is None:
            return False
        if b is not None and e is not None:
            if (b.tzinfo is None) != (e.tzinfo is None):
                return False
        if self.day:
            for x in (b, e):
                if x is not None and (x.tzinfo is not None or not is_midnight(A, x)):
                    return False
            if b is not None and e is not None and not le(A, b.pos + DAY, e.pos):
                return False
            if d is not None:
                if not le(A, Lin({}, DAY), d.us):
                    return False
                if A.path.sign(d.us - dt.floor_div(d.us, DAY).scale(DAY)) != 0:
                    return False
        if b is not None and e is not None and not A.path.ge0((e.pos - b.pos) if e.tzinfo is b.tzinfo else (e.utcpos - b.utcpos)):
            return False
        if d is not None and not A.path.ge0(d.us):
            return False
        return True


CLS = {"span": "Timespan", "event": "EventTimespan", "todo": "TodoTimespan"}


def mk_timespan(A, s):
    return A.call(getattr(A.ics, CLS[s.kind]), s.b, s.e, s.d, "day" if s.day else "second")


def mk_entry(A, s, summary=None, **kw):
    if s.kind == "event":
        return A.call(A.ics.Event, timespan=mk_timespan(A, s), summary=summary, **kw)
    if s.kind == "todo":
        return A.call(A.ics.Todo, timespan=mk_timespan(A, s), summary=summary, **kw)
    return mk_timespan(A, s)


def check_ts(A, t, s, msg):
    """the timespan object equals the specified span"""
    same_dt(A, A.get(t, "begin_time"), s.b, msg + ": begin")
    same_dt(A, A.get(t, "end_time"), s.e, msg + ": fixed end")
    same_td(A, A.get(t, "duration"), s.d, msg + ": fixed duration")
    A.require(bool(A.call(A.get(t, "is_all_day"))) == s.day, msg + ": all-day flag")


def check_entry(A, x, s, msg):
    same_dt(A, A.get(x, "begin"), s.b, msg + ": begin")
    same_dt(A, A.get(x, "end"), s.end(), msg + ": end")
    same_td(A, A.get(x, "duration"), s.dur(), msg + ": duration")
    A.require(A.get(x, "all_day") == s.day, msg + ": all-day flag")
    A.same(A.get(x, "end_representation"), s.rep(), msg + ": end representation")
    A.require(A.get(x, "has_explicit_end") == (s.rep() is not None), msg + ": explicit end")
    A.require(A.get(x, "floating") == s.floating(), msg + ": floating")
    check_ts(A, A.get(x, "timespan"), s, msg)


def check_any(A, x, s, msg):
    (check_ts if s.kind == "span" else check_entry)(A, x, s, msg)


# shapes: which of begin/end/duration are given
def valid_shapes(kind):
    out = ["-", "b", "be", "bd"]
    if kind != "event":
        out.append("e")
    return out


TZ1 = [None, "utc", "A"]
TZ2 = [(None, None), ("utc", "utc"), ("A", "A"), ("A", "B"), ("utc", "A")]


def valid_span(A, kind, shape, tzs=(None, None), day=False, n="", nonneg=True):
    """an arbitrary valid span of that shape; day="us": begin and end have the same fraction of a second"""
    b = e = d = None
    if day == "us":
        s = valid_span(A, kind, shape, tzs, False, n)
        u = A.td("u" + n, 0, 999999, unit=1)
        return s.but(b=None if s.b is None else s.b + u, e=None if s.e is None else s.e + u)
    if "b" in shape:
        b = midnight(A, "b" + n) if day else when(A, "b" + n, tzs[0])
    if "e" in shape:
        e = midnight(A, "e" + n) if day else when(A, "e" + n, tzs[1] if "b" in shape else tzs[0])
    if "d" in shape:
        d = A.td("d" + n, 1 if day else 0, 10 ** 7 if not day else 10 ** 4, unit=DAY if day else S)
    s = Span(kind, b, e, d, day)
    if b is not None and e is not None:
        A.path.assume((e.utcpos - b.utcpos) if b.tzinfo is not None else (e.pos - b.pos) - (DAY if day else 0))
    return s


def variants(kinds=("span", "event", "todo"), thorough=False):
    """(kind, shape, tzs, day) of all valid spans"""
    out = []
    for k in kinds:
        for sh in valid_shapes(k):
            out.append((k, sh, (None, None), True))
            for t in (TZ2 if sh == "be" else [(x, x) for x in TZ1]):
                out.append((k, sh, t, False))
                if sh == "-":
                    break
    return out


def vname(v):
    return "%s/%s/%s%s" % (v[0], v[1], "+".join(str(x or "floating") for x in v[2]), "/all-day" if v[3] else "")


def vconv(A, name):
    """the converter for a value type name"""
    return A.get(A.mod("ics.valuetype.base").ValueConverter, "BY_NAME")[name]


def known_zone(A, key="K"):
    """a zone with a definition in the builtin database"""
    return A.call(A.mod("dateutil.tz").tzfile, "Known/" + key)


BUILTIN = "/ics.py/2020.1/Known/"


def kinds_of_error(A, err, *names):
    return err is not None


def joinw(A, toks, n="w"):
    """None stands for an arbitrary word without structural characters"""
    return "".join(A.text("%s%d" % (n, i)) if t is None else t for i, t in enumerate(toks))


def words(A, alph, n, label="token"):
    return [A.choose(alph, "%s %d" % (label, i)) for i in range(n)]


def upper(s):
    return dom.case_map(s, "upper")


# ------------------------------------------------------------------ what can be observed of an object
def observe(A, o, depth=0):
    """the observable state of a component, container, line or value, as nested lists"""
    from absint.core import Obj
    if isinstance(o, dict):
        return ["dict", {k: observe(A, v, depth + 1) for k, v in o.items()}]
    if isinstance(o, (list, tuple)) and not (isinstance(o, tuple) and hasattr(o, "_fields")):
        return [type(o).__name__] + [observe(A, v, depth + 1) for v in o]
    if not isinstance(o, Obj):
        return o
    if A.isinstance(o, A.ics.Container):
        return ["Container", A.get(o, "name")] + [observe(A, v, depth + 1) for v in A.iter(o)]
    if A.isinstance(o, A.ics.ContentLine):
        return ["ContentLine", A.get(o, "name"), observe(A, A.get(o, "params"), depth + 1), A.get(o, "value")]
    rr = A.mod("dateutil.rrule")
    if A.isinstance(o, rr.rruleset):
        return ["rruleset"] + [observe(A, A.get(o, n), depth + 1) for n in ("_rrule", "_rdate", "_exrule", "_exdate")]
    if A.isinstance(o, rr.rrule):
        return ["rrule"] + [observe(A, A.get(o, n), depth + 1) for n in ("_freq", "_dtstart", "_interval", "_count", "_until", "_original_rule")]
    if depth and A.isinstance(o, A.mod("ics.timezone").Timezone):
        return o
    if A.isinstance(o, A.mod("ics.component").Component) or A.isinstance(o, A.mod("ics.attendee").PersonAttrs) or A.isinstance(o, A.mod("ics.timespan").Timespan):
        names = [f.name for f in A.call(A.mod("attr").fields, o._c)]
        return [o._c.name, {n: observe(A, A.get(o, n), depth + 1) for n in names}]
    return o


def same_state(A, a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_state(A, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same_state(A, v, b[k]) for k, v in a.items())
    if a is b:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and A.text_eq(a, b)
    if isinstance(a, dt.datetime) and isinstance(b, dt.datetime):
        return a.tzinfo is b.tzinfo and A.path.known_eq(a.pos - b.pos)
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
        return False
    if a is None or b is None:
        return False
    return A.eq(a, b)


def unchanged(A, before, o, msg):
    after = observe(A, o)
    A.require(same_state(A, before, after), lambda: "%s: %s" % (msg, "; ".join(differences(A, before, after)[:3])))


def differences(A, a, b, path=""):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return ["%s: %s became %s" % (path, A.show(a), A.show(b))]
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in differences(A, x, y, "%s[%d]" % (path, i))]
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return ["%s: %s became %s" % (path, A.show(a), A.show(b))]
        return [d for k in a for d in differences(A, a[k], b[k], "%s.%s" % (path, k))]
    return [] if same_state(A, a, b) else ["%s: %s became %s" % (path, A.show(a), A.show(b))]
