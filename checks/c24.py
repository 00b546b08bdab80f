"""A TZID is resolved by the calendar's own definition - wherever it stands -, then the built-in ones (by Olson or Windows name), then, with
a warning, the system's; otherwise reading is refused.  What is written defines every zone it refers to exactly once, before the
entries, and none else."""
from .common import *
from .c14 import zone
from .c17 import lines
from .c18 import build, same_lines


def vtz(A, tzid, off, extra=()):
    return ("VTIMEZONE", [("TZID", {}, tzid)] + list(extra) + [("STANDARD", [("DTSTART", {}, "20000101T000000"), ("TZOFFSETFROM", {}, off), ("TZOFFSETTO", {}, off), ("TZNAME", {}, "N" + off)])])


OFF = {"+0300": 3 * 3600, "-0730": -(7 * 3600 + 1800), "+0130": 5400, "+0900": 9 * 3600}


def entry(kind, uid, tzid, text, more=()):
    return (kind, [("UID", {}, uid), ("DTSTAMP", {}, "20200101T000000Z"), ("DTSTART", {"TZID": [tzid]} if tzid else {}, text)] + list(more))


def offset_is(A, d, off, msg):
    A.require(d.tzinfo is not None, "%s: floating" % msg)
    A.require(A.eq(A.call(A.get(d, "utcoffset")), A.td_of(seconds=OFF[off])), lambda: "%s: offset %s instead of %s" % (msg, A.show(A.call(A.get(d, "utcoffset"))), off))


def load(A, items, how):
    c = build(A, "VCALENDAR", [("VERSION", {}, "2.0"), ("PRODID", {}, "p")] + items)
    return A.call(A.ics.Calendar, c if how == "container" else A.call(A.get(c, "serialize")))


def entries(A, cal):
    return list(A.get(cal, "events")) + list(A.get(cal, "todos"))


def own(A, kind, name, order, how):
    """the calendar's own definition counts, even if there are built-in or system zones of that name"""
    tzid = {"word": A.text("z"), "known": "Known/K", "windows": "Windows W", "system": "System/Zone/A", "prefix": BUILTIN + "K"}[name]
    other = "Q" + A.text("other")
    x = A.dt("x", None, unit=S)
    e, f = entry(kind, "1", tzid, x.strftime("%Y%m%dT%H%M%S")), entry("VTODO", "2", tzid, x.strftime("%Y%m%dT%H%M%S"))
    o = entry("VEVENT", "3", other, x.strftime("%Y%m%dT%H%M%S"))
    zs = [vtz(A, tzid, "+0300"), vtz(A, other, "-0730")]
    items = {"before": zs + [e, f, o], "after": [e, f, o] + zs, "between": [e, zs[1], f, zs[0], o], "swapped": zs[::-1] + [o, f, e], "twice": zs + [vtz(A, tzid, "+0900")] + [e, f, o]}[order]
    cal = load(A, items, how)
    n = len(A.warnings())
    by = {A.get(i, "uid"): i for i in entries(A, cal)}
    A.require(sorted(by) == ["1", "2", "3"], "the entries")
    for k, off in (("1", "+0300"), ("2", "+0300"), ("3", "-0730")):
        b = A.get(by[k], "begin")
        offset_is(A, b, off, "entry %s" % k)
        A.must_eq(b.replace(tzinfo=None), x, "wall clock")
        A.require(A.text_eq(A.get(b.tzinfo, "tzid"), other if k == "3" else tzid), "tzid of the zone")
    A.require(n == 0, lambda: "a warning for a defined zone: %s" % A.show(A.warnings()))
    A.require(len(A.iter(A.get(cal, "extra"))) == 0, "a zone definition is left over")


def fallback(A, name, how, defined):
    """no definition of that name in the calendar"""
    w = A.text("w")
    tzid = {"olson": "Known/" + w, "prefix": BUILTIN + w, "windows": "Windows " + w, "system": "System/" + w, "nowhere": "Nowhere/" + w, "similar": "Zone" + w, "case": "known/" + w}[name]
    x = A.dt("x", None, unit=S)
    items = [entry("VEVENT", "1", tzid, x.strftime("%Y%m%dT%H%M%S")), entry("VEVENT", "2", tzid, x.strftime("%Y%m%dT%H%M%S"))]
    if defined:
        items = [vtz(A, "zone" + w, "+0300"), vtz(A, tzid + "x", "-0730")] + items
    cal, e = A.attempt(load, A, items, how)
    if name in ("nowhere", "similar", "case"):
        A.require(e is not None, "an unknown zone is accepted")
        A.require(A.is_exc(e, ValueError), lambda: "an unknown zone is refused with %s" % A.exc_name(e))
        return
    A.require(e is None, lambda: "a known zone is refused: %s" % A.exc_name(e))
    es = entries(A, cal)
    for i in es:
        b = A.get(i, "begin")
        A.require(b.tzinfo is not None, "a zoned time is read as floating")
        A.must_eq(b.replace(tzinfo=None), x, "wall clock")
        if name == "system":
            A.require(A.isinstance(b.tzinfo, A.mod("dateutil.tz").tzfile), "not the system's zone")
        else:
            A.require(A.isinstance(b.tzinfo, A.ics.Timezone) and A.text_eq(A.get(b.tzinfo, "tzid"), BUILTIN + w), lambda: "resolved to %s" % A.show(A.get(b.tzinfo, "tzid")))
            offset_is(A, b, "+0130", "built-in zone")
    A.require(A.get(es[0], "begin").tzinfo is A.get(es[1], "begin").tzinfo, "two times with one TZID are read in two zones")
    n = len(A.warnings())
    A.require((n > 0) == (name == "system"), lambda: "%d warnings for a %s zone" % (n, name))


def related(A, first, second, how):
    """a TZID that is only similar to one that was found before"""
    w = "K"
    names = {"olson": "Known/K", "prefix": BUILTIN + "K", "windows": "Windows K", "own": "Own/K", "system": "System/K"}
    base = names[first]
    tzid = {"last": base.split("/")[-1], "case": base.lower(), "upper": base.upper(), "slash": "/" + base, "space": base + " ", "under": base.replace(" ", "_") + "_", "long": base + "/K", "short": base[:-1], "cut": base.split("/", 1)[-1] + "x"}[second]
    x = A.dt("x", None, unit=S).strftime("%Y%m%dT%H%M%S")
    own = [vtz(A, "Own/K", "+0300")] if first == "own" else []
    _, alone = A.attempt(load, A, own + [entry("VEVENT", "2", tzid, x)], how)
    for items in ([entry("VEVENT", "1", base, x), entry("VEVENT", "2", tzid, x)], [("VTODO", [("UID", {}, "1"), ("DTSTART", {"TZID": [base]}, x), ("COMPLETED", {"TZID": [tzid]}, x)])]):
        _, e = A.attempt(load, A, own + items, how)
        A.require((e is None) == (alone is None), lambda: "the TZID %s is %s after %s was found, though by itself it's %s" % (tzid, "accepted" if e is None else "refused", base, "accepted" if alone is None else "refused"))
        A.require(e is None or A.is_exc(e, ValueError), lambda: "refused with %s" % A.exc_name(e))


def zmix(A, i):
    ks = [["known"], ["known", "known"], ["known", "known2"], ["known2", "known", "known2"], ["utc", "known"], [None, "local", "known"], ["utc", None, "local"], [], ["ics", "known"], ["win", "known2", "ics", "utc"]][i]
    return ks


TID = {"known": BUILTIN + "K", "known2": BUILTIN + "K2", "ics": BUILTIN + "K", "win": BUILTIN + "W"}


def emitted(A, i, kind, where, again):
    """what is written defines exactly what it refers to"""
    es, want = [], []
    for k, z in enumerate(zmix(A, i)):
        x = A.dt("x%d" % k, zone(A, z), unit=S)
        kw = {"uid": "u%d" % k, "dtstamp": A.dt("st", A.utc, unit=S)}
        if where == "end":
            kw["end" if kind == "event" else "due"] = x
            if kind == "event":
                kw["begin"] = x
        else:
            kw["begin"] = x
        if where == "due" and kind == "todo":
            kw["completed"] = x
        if where == "alarm":
            kw["alarms"] = [A.call(A.ics.DisplayAlarm, trigger=x, description="d")]
            if k % 2:
                del kw["begin"]
        es.append(A.call(A.ics.Event if kind == "event" else A.ics.Todo, **kw))
        if z in TID and TID[z] not in want:
            want.append(TID[z])
    own = A.choose([{}, {"method": "PUBLISH"}, {"scale": "GREGORIAN", "method": "X"}], "properties of the calendar")
    cal = A.call(A.ics.Calendar, **{"events" if kind == "event" else "todos": es}, **own)
    c = A.call(A.get(cal, "to_container"))
    if again:
        cal = A.call(A.ics.Calendar, A.call(A.get(cal, "serialize")))
        c = A.call(A.get(cal, "to_container"))
    ls = lines(A, c)
    got = [[y[2] for y in x[1] if y[0] == "TZID"] for x in ls if x[0] == "VTIMEZONE"]
    A.require(sorted(g[0] for g in got) == sorted(want) and all(len(g) == 1 for g in got), lambda: "zones %s are defined instead of %s" % (got, want))
    refs = set()
    def walk(l):
        for x in l:
            if len(x) == 2:
                if x[0] != "VTIMEZONE":
                    walk(x[1])
            else:
                refs.update(x[1].get("TZID", ()))
    walk(ls)
    A.require(refs == set(want), lambda: "the entries refer to %s, defined are %s" % (refs, want))
    names = [x[0] for x in ls]
    first = min([k for k, n in enumerate(names) if n in ("VEVENT", "VTODO")] or [len(names)])
    A.require(all(k < first for k, n in enumerate(names) if n == "VTIMEZONE"), lambda: "a zone is defined after the entries: %s" % names)
    props = [k for k, n in enumerate(names) if n in ("VERSION", "PRODID", "SCALE", "CALSCALE", "METHOD")]
    A.require(len(props) == 2 + len(own) and all(k > max(props) for k, n in enumerate(names) if n == "VTIMEZONE"), "a zone is defined before the calendar's properties")


def rewritten(A, order, used):
    """own definitions are written again as they were if they are used"""
    w = A.text("z")
    tz1 = vtz(A, w + "1", "+0300", [("X-Z", {"P": ["q"]}, "v"), ("TZURL", {}, "http://x.org")])
    tz2 = vtz(A, "Known/K", "-0730")
    def full(z):
        return (z[0], [x if x[0] != "STANDARD" else ("STANDARD", x[1] + [("RRULE", {}, "FREQ=YEARLY;BYMONTH=1"), ("RDATE", {}, "20000101T000000")]) for x in z[1]])
    tz1, tz2 = full(tz1), full(tz2)
    x = A.dt("x", None, unit=S).strftime("%Y%m%dT%H%M%S")
    es = []
    if used & 1:
        es += [entry("VEVENT", "1", w + "1", x), entry("VTODO", "2", w + "1", x)]
    if used & 2:
        es += [entry("VEVENT", "3", "Known/K", x)]
    es += [entry("VEVENT", "4", None, x)]
    items = [tz1, tz2] + es if order == "before" else es + [tz2, tz1]
    cal = load(A, items, "container")
    ls = lines(A, A.call(A.get(cal, "to_container")))
    want = [("VERSION", {}, "2.0"), ("PRODID", {}, "p")] + ([tz1] if used & 1 else []) + ([tz2] if used & 2 else []) + [e for e in es if e[0] == "VEVENT"] + [e for e in es if e[0] == "VTODO"]
    for n in {x[0] for x in ls} | {x[0] for x in want}:
        g, w_ = [x for x in ls if x[0] == n], [x for x in want if x[0] == n]
        A.require(len(g) == len(w_), lambda: "%d %s are written instead of %d" % (len(g), n, len(w_)))
    tid = lambda z: [x[2] for x in z[1] if x[0] == "TZID"][0]
    for z in [x for x in ls if x[0] == "VTIMEZONE"]:
        ref = [x for x in want if x[0] == "VTIMEZONE" and A.text_eq(tid(x), tid(z))]
        A.require(len(ref) == 1, "another zone is written")
        same_lines(A, z[1], ref[0][1], "zone")
    back = A.call(A.ics.Calendar, A.call(A.get(cal, "serialize")))
    for a, b in zip(entries(A, cal), entries(A, back)):
        p, q = A.get(a, "begin"), A.get(b, "begin")
        A.must_eq(p.replace(tzinfo=None), q.replace(tzinfo=None), "wall clock after writing and reading")
        A.require((p.tzinfo is None) == (q.tzinfo is None), "zone after writing and reading")
        if p.tzinfo is not None:
            A.must_eq(A.call(A.get(p, "utcoffset")), A.call(A.get(q, "utcoffset")), "offset after writing and reading")


def alone(A, how):
    """components read by themselves use what the context defines"""
    x = A.dt("x", None, unit=S)
    c = build(A, "VEVENT", entry("VEVENT", "1", "z", x.strftime("%Y%m%dT%H%M%S"))[1])
    f = A.get(A.ics.Event, "from_container")
    for mk in (dict, lambda: A.call(A.mod("collections").defaultdict, lambda: None)):  # a context without anything
        ok = build(A, "VEVENT", entry("VEVENT", "1", "Known/K", x.strftime("%Y%m%dT%H%M%S"))[1])
        e = A.call(f, ok, mk())
        A.require(A.text_eq(A.get(A.get(e, "begin").tzinfo, "tzid"), BUILTIN + "K"), "zone")
        A.raises(f, c, mk(), _msg="an undefined zone is accepted", _exc=ValueError)
        A.require(A.text_eq(lines(A, A.call(A.get(e, "to_container"), mk())), lines(A, A.call(A.get(e, "to_container")))), "written in another way with an empty context")
    A.raises(f, c, _msg="an undefined zone is accepted", _exc=ValueError)
    ctx = A.call(A.mod("collections").defaultdict, lambda: None)
    z = A.call(A.get(A.ics.Timezone, "from_container"), build(A, "VTIMEZONE", vtz(A, "z", "+0300")[1]), ctx)
    e = A.call(f, c, ctx)
    A.require(A.get(e, "begin").tzinfo is z, "not read in the zone of the context")
    A.raises(f, c, _msg="an undefined zone is accepted afterwards", _exc=ValueError)
    e2 = A.call(f, c, ctx)
    A.require(A.get(e2, "begin").tzinfo is z, "not read in the zone of the context the second time")


def scenarios(tier):
    out = []
    for n in ("word", "known", "windows", "system", "prefix"):
        for o in ("before", "after", "between", "swapped", "twice"):
            for k in ("VEVENT", "VTODO"):
                for how in ("container", "text"):
                    out.append(Scenario("own %s %s %s %s" % (n, o, k, how), own, (k, n, o, how)))
    for n in ("olson", "prefix", "windows", "system", "nowhere", "similar", "case"):
        for how in ("container", "text"):
            for d in (False, True):
                out.append(Scenario("fallback %s %s %s" % (n, how, d), fallback, (n, how, d)))
    for f in ("olson", "prefix", "windows", "own", "system"):
        for s in ("last", "case", "upper", "slash", "space", "under", "long", "short", "cut"):
            out.append(Scenario("related %s %s" % (f, s), related, (f, s, "container")))
    for i in range(10):
        for k in ("event", "todo"):
            for w in ("begin", "end", "alarm") + (("due",) if k == "todo" else ()):
                for again in (False, True):
                    out.append(Scenario("emitted %d %s %s %s" % (i, k, w, again), emitted, (i, k, w, again)))
    for o in ("before", "after"):
        for u in range(4):
            out.append(Scenario("rewritten %s %d" % (o, u), rewritten, (o, u)))
    out.append(Scenario("alone", alone, ("",)))
    return out
