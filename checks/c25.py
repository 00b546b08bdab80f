"""A time in a VTIMEZONE has the offset, DST shift and name of the observance that began last at or before it (of an ambiguous time the
earlier instant unless fold is set); before all onsets those of the first standard observance.  The answer depends on the time alone."""
from .common import *

H = 3600
KINDS = {"s": ("TimezoneStandardObservance", False), "d": ("TimezoneDaylightObservance", True)}


class Ob:
    pass


def make(A, spec, rdates, mode=""):
    """spec: like 'sd'; offsets cycle; observances with symbolic onsets"""
    obs, R = [], A.mod("dateutil.rrule")
    for k, ch in enumerate(spec):
        cls, dst = KINDS[ch]
        o = Ob()
        frm, to = ((2 * H, H) if not dst else (H, 2 * H)) if k < 2 else ((H, 3 * H) if dst else (2 * H, -H))
        if mode == "irish":  # the summer time is the standard one
            frm, to = to, frm
        o.frm, o.to, o.dst, o.name = A.td_of(seconds=frm), A.td_of(seconds=to), dst, None if mode == "unnamed" and k != 1 else "N%d" % k
        o.diff = to - frm
        o.onsets = [A.dt("o%d_%d" % (k, j), None, unit=S) for j in range(rdates)]
        rs = A.call(R.rruleset)
        for x in o.onsets:
            A.call(A.get(rs, "rdate"), x)
        o.v = A.call(A.get(A.ics.timezone, cls), o.frm, o.to, rs, o.name)
        obs.append(o)
    return obs, A.call(A.ics.Timezone, "z", [o.v for o in obs])


def active(A, obs, t, fold):
    """the observance in force at wall clock t"""
    if len(obs) == 1:
        return obs[0]
    best = at = None
    for o in obs:
        shift = A.td_of(seconds=min(o.diff, 0) if fold else 0)
        for x in o.onsets:
            if not t < x + shift and (best is None or at < x):
                best, at = o, x
    if best is None:
        best = [o for o in obs if not o.dst][:1]
        best = best[0] if best else obs[0]
    return best


def verify(A, z, t, fold, o, aware, msg=""):
    d = t.replace(fold=fold, tzinfo=z if aware else None)
    if aware:
        off, dst, name = A.call(A.get(d, "utcoffset")), A.call(A.get(d, "dst")), A.call(A.get(d, "tzname"))
    else:
        off, dst, name = [A.call(A.get(z, n), d) for n in ("utcoffset", "dst", "tzname")]
    A.must_eq(off, o.to, "%soffset" % msg)
    A.must_eq(dst, A.td_of(seconds=o.diff if o.dst else 0), "%sDST shift" % msg)
    A.require(name == o.name, lambda: "%sname %s instead of %s" % (msg, A.show(name), o.name))


def distinct(A, obs):
    xs = [x for o in obs for x in o.onsets]
    for i in range(len(xs)):
        for j in range(i):
            A.assume(xs[i] < xs[j] or xs[j] < xs[i])


def lookup(A, spec, rdates, fold, aware, mode=""):
    obs, z = make(A, spec, rdates, mode)
    distinct(A, obs)
    t = A.dt("t", None, unit=S)
    verify(A, z, t, fold, active(A, obs, t, fold), aware)


def micro(A, fold):
    obs, z = make(A, "sd", 1)
    distinct(A, obs)
    t = A.dt("t", None)
    verify(A, z, t, fold, active(A, obs, t, fold), True)


def equal_onsets(A, spec, fold):
    """observances beginning at once: the first one listed"""
    obs, z = make(A, spec, 1)
    t = A.dt("t", None, unit=S)
    for o in obs[1:]:
        A.assume(not (o.onsets[0] < obs[0].onsets[0] or obs[0].onsets[0] < o.onsets[0]))
    verify(A, z, t, fold, active(A, obs, t, fold), True)


def history(A, spec, folds, other):
    """earlier questions do not change later answers"""
    obs, z = make(A, spec, 1)
    distinct(A, obs)
    t, u = A.dt("t", None, unit=S), A.dt("u", None, unit=S)
    if other == "zone":
        obs2 = obs[::-1]
        z2 = A.call(A.ics.Timezone, "z", [o.v for o in obs2])
        verify(A, z2, t, folds[0], active(A, obs2, t, folds[0]), True, "other zone: ")
    elif other == "many":
        for k in range(12):
            x = t + A.td_of(days=400 * (k + 1))
            verify(A, z, x, folds[0], active(A, obs, x, folds[0]), True, "before: ")
    elif other == "none":
        for n in ("utcoffset", "dst", "tzname"):
            A.attempt(A.call, A.get(z, n), None)
    else:
        verify(A, z, u, folds[0], active(A, obs, u, folds[0]), True, "first: ")
    verify(A, z, t, folds[0], active(A, obs, t, folds[0]), True, "then: ")
    verify(A, z, t, folds[1], active(A, obs, t, folds[1]), True, "other fold: ")
    verify(A, z, t, folds[0], active(A, obs, t, folds[0]), True, "again: ")


def none(A, spec):
    obs, z = make(A, spec, 1)
    A.require(A.call(A.get(z, "utcoffset"), None) is None, "offset without a time")
    d, n = A.call(A.get(z, "dst"), None), A.call(A.get(z, "tzname"), None)
    if len(obs) > 1:
        A.require(d is None and n is None, "DST shift and name without a time")
    else:
        A.must_eq(d, A.td_of(seconds=obs[0].diff if obs[0].dst else 0), "DST shift of the only observance")
        A.require(n == obs[0].name, "name of the only observance")


def read(A, order, how):
    """zones read from text behave the same"""
    c = A.ics
    s = [("DTSTART", "20001029T030000"), ("TZOFFSETFROM", "+0200"), ("TZOFFSETTO", "+0100"), ("TZNAME", "N0"), ("RDATE", "20011028T030000")]
    d = [("DTSTART", "20000326T020000"), ("TZOFFSETFROM", "+0100"), ("TZOFFSETTO", "+0200"), ("TZNAME", "N1"), ("RDATE", "20010325T020000")]
    parts = []
    for n, items in (("STANDARD", s), ("DAYLIGHT", d)):
        parts.append("BEGIN:%s\r\n%s\r\nEND:%s" % (n, "\r\n".join("%s:%s" % x for x in (items if order != "backwards" else items[::-1])), n))
    if order == "swapped":
        parts = parts[::-1]
    text = "BEGIN:VTIMEZONE\r\nTZID:z\r\n%s\r\nEND:VTIMEZONE\r\n" % "\r\n".join(parts)
    box = A.iter(A.call(A.get(A.ics.Container, "parse"), text))[0] if hasattr(A.ics.Container, "parse") else A.iter(A.call(A.mod("ics.contentline").string_to_containers, text))[0]
    z = A.call(A.get(c.Timezone, "from_container"), box)
    obs = []
    for n, items, dst in (("N0", s, False), ("N1", d, True)):
        o = Ob()
        o.dst, o.name, o.to, o.diff = dst, n, A.td_of(seconds=2 * H if dst else H), H if dst else -H
        D = A.mod("datetime").datetime
        o.onsets = [A.call(D, int(v[:4]), int(v[4:6]), int(v[6:8]), int(v[9:11])) for k, v in items if k in ("DTSTART", "RDATE")]
        obs.append(o)
    if order == "swapped":
        obs = obs[::-1]
    t = A.dt("t", None, unit=S)
    for fold in (0, 1):
        verify(A, z, t, fold, active(A, obs, t, fold), how)


def scenarios(tier):
    out = []
    specs = [("s", 1), ("d", 1), ("sd", 1), ("ds", 1), ("ss", 1), ("dd", 1), ("sd", 2), ("ds", 2), ("sds", 1), ("dds", 1), ("dsd", 1)]
    if tier == "thorough":
        specs += [("sdd", 1), ("ssd", 1), ("ddd", 1), ("dss", 1), ("sdsd", 1)]
    for spec, n in specs:
        for fold in (0, 1):
            for aware in (True, False):
                out.append(Scenario("lookup %s %d %d %s" % (spec, n, fold, aware), lookup, (spec, n, fold, aware)))
    for mode in ("irish", "unnamed"):
        for spec in ("s", "d", "sd", "ds", "ssd", "dds"):
            for fold in (0, 1):
                out.append(Scenario("lookup %s %d %s" % (spec, fold, mode), lookup, (spec, 1, fold, fold == 0, mode)))
    for fold in (0, 1):
        out.append(Scenario("micro %d" % fold, micro, (fold,)))
        for spec in ("sd", "ds"):
            out.append(Scenario("equal %s %d" % (spec, fold), equal_onsets, (spec, fold)))
    for spec in ("sd", "ds"):
        for folds in ((0, 1), (1, 0)):
            for o in ("time", "zone", "many", "none"):
                out.append(Scenario("history %s %s %s" % (spec, folds, o), history, (spec, folds, o)))
    for spec in ("s", "d", "sd"):
        out.append(Scenario("none %s" % spec, none, (spec,)))
    for o in ("order", "swapped", "backwards"):
        for how in (True, False):
            out.append(Scenario("read %s %s" % (o, how), read, (o, how)))
    return out
