"""Every attribute of an event, todo, alarm or calendar that is set is written as its iCalendar property (one per list item) with the
converted value, unset attributes are not written, and reading the result back gives an object with the same attribute values; reading
sets exactly the attributes named by the lines.  Entries, alarms and list items keep their order."""
from absint.dom import percent_format

from .common import *

X = ",;\\\n:\""


def esc(s):
    return s.replace("\\", "\\\\").replace(";", "\\;").replace(",", "\\,").replace("\n", "\\n").replace("\r", "\\r")


def lines(A, c):
    """the lines of a container as (name, params, value) or (name, [items])"""
    out = []
    for x in A.iter(c):
        if A.isinstance(x, A.ics.Container):
            out.append((A.get(x, "name"), lines(A, x)))
        else:
            out.append((A.get(x, "name"), {k: list(v) for k, v in A.get(x, "params").items()}, A.get(x, "value")))
    return out


BASE = {"VEVENT": ["UID", "DTSTAMP"], "VTODO": ["UID", "DTSTAMP"], "VALARM": ["ACTION"], "VCALENDAR": ["VERSION", "PRODID"]}


def written(A, c, want, base):
    got = [x for x in lines(A, c) if x[0] not in base or any(w[0] == x[0] for w in want)]
    A.require(sorted(x[0] for x in lines(A, c) if x[0] in base) == sorted(base), lambda: "base properties %s" % A.show([x[0] for x in lines(A, c)]))
    for n in {w[0] for w in want} | {g[0] for g in got}:
        g, w = [x for x in got if x[0] == n], [x for x in want if x[0] == n]
        A.require(len(g) == len(w), lambda: "%d %s properties instead of %d" % (len(g), n, len(w)))
        for a, b in zip(g, w):
            A.require(A.text_eq(a, b), lambda: "%s is written as %s instead of %s" % (n, A.show(a), A.show(b)))


def fresh(A, kind, **kw):
    """an entry with fixed uid and dtstamp"""
    if kind == "event":
        return A.call(A.ics.Event, uid="u", dtstamp=A.dt("stamp", A.utc, unit=S), **kw)
    return A.call(A.ics.Todo, uid="u", dtstamp=A.dt("stamp", A.utc, unit=S), **kw)


def sget(A, o, n):
    v = A.get(o, n)
    return v


def tzid(A, z):
    return A.get(A.call(A.mod("ics.timezone").Timezone.from_tzinfo, z), "tzid") if str(A.show(z)).find("Known") >= 0 else ""


def same_value(A, a, b, msg):
    if isinstance(b, (dt.date, dt.timedelta)):
        A.require(type(a) is type(b), lambda: "%s: %s" % (msg, A.show(a)))
        if isinstance(b, dt.datetime):
            A.require((a.tzinfo is None) == (b.tzinfo is None), "%s: zone" % msg)
            if b.tzinfo is not None:
                if tzid(A, b.tzinfo).startswith(BUILTIN):  # read back as the bundled definition of that zone
                    A.require(A.text_eq(tzid(A, a.tzinfo), tzid(A, b.tzinfo)), "%s: another zone" % msg)
                else:
                    A.require(A.path.known_eq(a.utcpos - b.utcpos), "%s: another instant" % msg)
        A.must_eq(a.replace(tzinfo=None) if isinstance(a, dt.datetime) else a, b.replace(tzinfo=None) if isinstance(b, dt.datetime) else b, msg)
    elif isinstance(b, list):
        A.require(isinstance(a, list) and len(a) == len(b), lambda: "%s: %s instead of %s" % (msg, A.show(a), A.show(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            same_value(A, x, y, "%s[%d]" % (msg, i))
    elif isinstance(b, str):
        A.require(isinstance(a, str) and A.text_eq(a, b), lambda: "%s: %s instead of %s" % (msg, A.show(a), A.show(b)))
    else:
        A.require(A.eq(a, b), lambda: "%s: %s instead of %s" % (msg, A.show(a), A.show(b)))


ATTRS = {"event": ["summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "attach", "classification", "transparent", "organizer", "geo", "attendees", "categories"],
         "todo": ["summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "attach", "percent", "priority", "completed"]}


def values(A, attr, i):
    """(value to set, value to get back, written lines or None)"""
    w, v = A.text("w"), A.text("v")
    texts = [w, w + X + v, "", X + w, "".join(EXOTIC) + w + "|".join(EXOTIC)]
    url = lambda s: A.call(A.mod("urllib.parse").urlparse, s)
    def st(name, which):
        z = tz(A, which)
        x = A.dt("x", z, unit=S)
        u = dt.datetime.of(inst(x), A.utc, utc=inst(x))
        return x, u, [(name, {}, u.strftime("%Y%m%dT%H%M%SZ"))]
    if attr in ("summary", "description", "location", "uid"):
        t = texts[i]
        return t, t, [(attr.upper(), {}, esc(t))]
    if attr == "classification":
        return texts[i], texts[i], None
    if attr == "url":
        u = "http://%s.org/%s" % (w, v)
        if i == 0:
            return u, u, [("URL", {}, u)]
        return url(u), url(u), [("URL", {"VALUE": ["URI"]}, u)]
    if attr == "status":
        s = ["TENTATIVE", "CONFIRMED", "CANCELLED"][i]
        return s if i else s.lower(), s, [("STATUS", {}, s)]
    if attr in ("created", "last_modified", "dtstamp"):
        return st(attr.upper().replace("_", "-"), [None, "utc", "A", "local", "duutc"][i])
    if attr == "completed":
        x = A.dt("x", [None, A.utc, known_zone(A)][i] if i < 3 else None, unit=S)
        p = {"TZID": [BUILTIN + "K"]} if i == 2 else {}
        return x, x, [("COMPLETED", p, x.strftime("%Y%m%dT%H%M%S") + ("Z" if i == 1 else ""))]
    if attr == "transparent":
        return [True, False][i], [True, False][i], None
    if attr == "priority":
        n = A.num("n", 0, 9)
        return n, n, [("PRIORITY", {}, str(n))]
    if attr == "percent":
        n = A.num("n", 0, 100)
        return n, n, None
    if attr == "geo":
        g = A.call(A.mod("ics.geo").Geo, [1.5, -90.0, 0.0][i], [-2.25, 180.0, 0.125][i])
        return (g if i else (1.5, -2.25)), g, [("GEO", {}, ["1.500000;-2.250000", "-90.000000;180.000000", "0.000000;0.125000"][i])]
    if attr in ("organizer", "attendees"):
        cls = A.ics.Organizer if attr == "organizer" else A.ics.Attendee
        n = i if attr == "attendees" else 1
        ps, ls = [], []
        for k in range(n):
            u = "mailto:%s@x.org" % A.text("u%d" % k)
            ex = [{}, {"CN": [A.text("c%d" % k)]}, {"ROLE": ["CHAIR"], "X-A": [A.text("a"), A.text("b")]}][(i + k) % 3]
            ps.append(A.call(cls, url(u), {a: list(b) for a, b in ex.items()}))
            ls.append(("ORGANIZER" if attr == "organizer" else "ATTENDEE", ex, u))
        return (ps if attr == "attendees" else ps[0]), (ps if attr == "attendees" else ps[0]), ls
    if attr == "categories":
        ts = [A.text("c%d" % k) + ("" if k % 2 else X) for k in range(i)]
        return ts, list(ts), [("CATEGORIES", {}, esc(t)) for t in ts]
    if attr == "attach":
        b, u, b2 = A.octets("b"), url("http://%s.org/x" % w), A.octets("b2")
        vs = [[], [u], [b], [u, b], [b, u], [b, b2, u, u]][i] if i < 6 else ([u, b, b2, u, b] * i)[:i]
        return vs, list(vs), None
    raise AssertionError(attr)


COUNT = {"summary": 5, "uid": 5, "description": 5, "location": 5, "classification": 5, "url": 2, "status": 3, "created": 5, "last_modified": 5, "dtstamp": 5, "completed": 3, "transparent": 2, "priority": 1,
         "percent": 1, "geo": 3, "organizer": 3, "attendees": 4, "categories": 5, "attach": 6}


def attribute(A, kind, attr, i, how):
    v, back, ls = values(A, attr, i)
    if how == "init":
        e = A.call(A.ics.Event if kind == "event" else A.ics.Todo, **dict({"uid": "u", "dtstamp": A.dt("stamp", A.utc, unit=S)}, **{attr: v}))
    else:
        e = fresh(A, kind)
        A.set(e, attr, v)
    same_value(A, A.get(e, attr), back, "attribute %s" % attr)
    c = A.call(A.get(e, "to_container"))
    name = "VEVENT" if kind == "event" else "VTODO"
    A.require(A.get(c, "name") == name, "the component's name")
    if ls is not None:
        written(A, c, ls, BASE[name])
    f = A.call(A.get(type_of(A, kind), "from_container"), c)
    same_value(A, A.get(f, attr), back, "attribute %s read back" % attr)
    # all others keep their values
    for a in ATTRS[kind]:
        if a != attr:
            same_value(A, A.get(f, a), A.get(e, a), "attribute %s read back with %s" % (a, attr))
    A.require(len(A.iter(A.get(f, "extra"))) == 0, lambda: "something is left over: %s" % A.show(A.get(f, "extra")))
    # a second round gives the same lines
    again = A.call(A.get(f, "to_container"))
    A.require(A.text_eq(lines(A, again), lines(A, c)), lambda: "written again as %s instead of %s" % (A.show(lines(A, again)), A.show(lines(A, c))))
    g = A.call(A.get(type_of(A, kind), "from_container"), again)
    A.require(A.eq(f, g), "the entries read from both rounds differ")


def type_of(A, kind):
    return A.ics.Event if kind == "event" else A.ics.Todo


def nothing(A, kind):
    e = fresh(A, kind)
    c = A.call(A.get(e, "to_container"))
    name = "VEVENT" if kind == "event" else "VTODO"
    stamp = A.get(e, "dtstamp").strftime("%Y%m%dT%H%M%SZ")
    written(A, c, [("UID", {}, "u"), ("DTSTAMP", {}, stamp)], BASE[name])
    f = A.call(A.get(type_of(A, kind), "from_container"), c)
    A.require(A.eq(e, f), "an empty entry is not read back")
    for a in ATTRS[kind]:
        if a not in ("uid", "dtstamp"):
            A.require(not A.ip.truth(A.get(f, a)), "%s is set without a line" % a)


def pairs(A, kind, a, b):
    """two attributes at once don't influence each other"""
    va, ba, la = values(A, a, min(1, COUNT[a] - 1))
    vb, bb, lb = values(A, b, min(1, COUNT[b] - 1))
    e = fresh(A, kind)
    A.set(e, a, va)
    A.set(e, b, vb)
    c = A.call(A.get(e, "to_container"))
    if la is not None and lb is not None:
        written(A, c, la + lb, BASE["VEVENT" if kind == "event" else "VTODO"])
    f = A.call(A.get(type_of(A, kind), "from_container"), c)
    for x in ATTRS[kind]:
        same_value(A, A.get(f, x), A.get(e, x), "attribute %s with %s and %s" % (x, a, b))


def spans(A, kind, shape, zone, day, how):
    tzs = (zone, zone)
    s = valid_span(A, kind, shape, tzs, day)
    e = mk_entry(A, s, uid="u", dtstamp=A.dt("stamp", A.utc, unit=S))
    if zone == "A" and not day and (s.b is not None or s.e is not None):
        return spans_unserializable(A, e)
    c = A.call(A.get(e, "to_container"))
    want = []
    def one(n, x):
        if day:
            want.append((n, {"VALUE": ["DATE"]}, x.strftime("%Y%m%d")))
        else:
            z = {} if zone != "K" else {"TZID": [BUILTIN + "K"]}
            want.append((n, z, x.strftime("%Y%m%dT%H%M%S") + ("Z" if zone in ("utc", "duutc") else "")))
    if s.b is not None:
        one("DTSTART", s.b)
    if s.rep() == "end":
        one("DTEND" if kind == "event" else "DUE", s.e)
    elif s.rep() == "duration":
        want.append(("DURATION", {}, A.call(A.get(vconv(A, "DURATION"), "serialize"), s.d)))
    written(A, c, want, BASE["VEVENT" if kind == "event" else "VTODO"])
    f = A.call(A.get(type_of(A, kind), "from_container"), c)
    t, u = A.get(f, "timespan"), A.get(e, "timespan")
    for p in ("begin_time", "end_time", "duration"):
        x, y = A.get(t, p), A.get(u, p)
        A.require((x is None) == (y is None), "%s read back" % p)
        if y is not None:
            same_value(A, x, y, "%s read back" % p)
    A.require(A.get(t, "precision") == A.get(u, "precision"), "precision read back")
    A.require(A.eq(A.get(f, "all_day"), A.get(e, "all_day")), "all-day read back")
    again = A.call(A.get(f, "to_container"))
    A.require(A.text_eq(lines(A, again), lines(A, c)), lambda: "written again as %s instead of %s" % (A.show(lines(A, again)), A.show(lines(A, c))))


def spans_unserializable(A, e):
    A.raises(A.get(e, "to_container"), _msg="a time in a zone without definition is written", _exc=ValueError)


ALARMS = ["AudioAlarm", "DisplayAlarm", "EmailAlarm", "NoneAlarm", "CustomAlarm"]


def alarms(A, cls, i):
    kw, want, base = {}, [], BASE["VALARM"]
    w, v = A.text("w"), A.text("v")
    u = A.call(A.mod("urllib.parse").urlparse, "http://%s.org" % w)
    if i & 1:
        d = A.td("d", -10 ** 6, 10 ** 6, unit=S) if i == 1 else A.td("d", 1, 10 ** 6, unit=DAY)
        kw["trigger"] = d
        want.append(("TRIGGER", {}, A.call(A.get(vconv(A, "DURATION"), "serialize"), d)))
    if i & 2:
        x = A.dt("x", A.utc, unit=S)
        kw["trigger"] = x
        want.append(("TRIGGER", {"VALUE": ["DATE-TIME"]}, x.strftime("%Y%m%dT%H%M%SZ")))
    if i & 4:
        n, d2 = A.num("n", 0, 10 ** 6), A.td("d2", 0, 10 ** 6, unit=S if i == 4 else DAY)
        kw.update(repeat=n, duration=d2)
        want += [("REPEAT", {}, str(n)), ("DURATION", {}, A.call(A.get(vconv(A, "DURATION"), "serialize"), d2))]
    if i & 8:
        if cls == "AudioAlarm":
            kw["attach"] = u
            want.append(("ATTACH", {}, A.call(A.get(u, "geturl"))))
        if cls in ("DisplayAlarm", "EmailAlarm"):
            kw["description"] = w + X + v
            want.append(("DESCRIPTION", {}, esc(w + X + v)))
        if cls == "EmailAlarm":
            kw["summary"] = X + w
            kw["attendees"] = [A.call(A.ics.Attendee, A.call(A.mod("urllib.parse").urlparse, "mailto:a@%s.org" % x), {"CN": [x]}) for x in (w, v)]
            kw["attach"] = [u]
            want += [("SUMMARY", {}, esc(X + w))] + [("ATTENDEE", {"CN": [x]}, "mailto:a@%s.org" % x) for x in (w, v)] + [("ATTACH", {}, A.call(A.get(u, "geturl")))]
    action = {"AudioAlarm": "AUDIO", "DisplayAlarm": "DISPLAY", "EmailAlarm": "EMAIL", "NoneAlarm": "NONE"}.get(cls)
    if cls == "CustomAlarm":
        action = "X-" + A.text("act")
        kw["action"] = action
    a = A.call(getattr(A.ics, cls), **kw)
    c = A.call(A.get(a, "to_container"))
    written(A, c, want + [("ACTION", {}, action)], base)
    b = A.call(A.get(A.mod("ics.alarm").BaseAlarm, "from_container"), c)
    A.require(A.isinstance(b, getattr(A.ics, cls)), "an alarm is read as another kind")
    for n in kw:
        same_value(A, A.get(b, n), A.get(a, n), "alarm %s" % n)
    for n in ("action", "trigger", "repeat", "duration") + {"AudioAlarm": ("attach",), "DisplayAlarm": ("description",), "EmailAlarm": ("summary", "description", "attendees", "attach")}.get(cls, ()):
        if n not in kw:
            same_value(A, A.get(b, n), A.get(a, n), "alarm %s" % n)
    # within an entry, between others
    e = fresh(A, "event", alarms=[A.call(A.ics.NoneAlarm), a, A.call(A.ics.DisplayAlarm, description="z")])
    f = A.call(A.get(A.ics.Event, "from_container"), A.call(A.get(e, "to_container")))
    got = A.get(f, "alarms")
    A.require(len(got) == 3 and A.isinstance(got[0], A.ics.NoneAlarm) and A.isinstance(got[1], getattr(A.ics, cls)) and A.get(got[2], "description") == "z", "alarms of an entry")
    for n in kw:
        same_value(A, A.get(got[1], n), A.get(a, n), "alarm %s within an entry" % n)


def calendars(A, ne, nt, meta, text):
    kw = {}
    w = A.text("w")
    if meta:
        kw.update(method="PUBLISH", prodid="p" + X + w, version="2.0")
    es = [A.call(A.ics.Event, summary=A.text("s%d" % k) + ("," if k else ""), uid="e%d" % k, begin=A.dt("b%d" % k, [A.utc, None, known_zone(A)][k % 3], unit=S), dtstamp=A.dt("stamp", A.utc, unit=S)) for k in range(ne)]
    ts = [A.call(A.ics.Todo, summary=A.text("t%d" % k), uid="t%d" % k, due=A.dt("d%d" % k, A.utc, unit=S), dtstamp=A.dt("stamp", A.utc, unit=S)) for k in range(nt)]
    cal = A.call(A.ics.Calendar, events=es, todos=ts, **kw)
    c = A.call(A.get(cal, "to_container"))
    ls = lines(A, c)
    A.require([x[0] for x in ls if x[0] in ("VEVENT", "VTODO")] == ["VEVENT"] * ne + ["VTODO"] * nt, "the entries written")
    A.require([x[2] for x in ls if x[0] == "VERSION"] == ["2.0"], "the version written")
    if meta:
        A.require([x[2] for x in ls if x[0] == "PRODID"] == [esc("p" + X + w)] and [x[2] for x in ls if x[0] == "METHOD"] == ["PUBLISH"], "the calendar's properties")
    if text:
        new = A.call(A.ics.Calendar, A.call(A.get(cal, "serialize")))
    else:
        new = A.call(A.ics.Calendar, c)
    for n in ("version", "prodid", "method", "scale"):
        same_value(A, A.get(new, n), A.get(cal, n), n)
    for n, old in (("events", es), ("todos", ts)):
        got = A.get(new, n)
        A.require([A.get(x, "uid") for x in got] == [A.get(x, "uid") for x in old], lambda: "%s are read as %s" % (n, A.show([A.get(x, "uid") for x in got])))
        for x, y in zip(got, old):
            for a in ("summary", "dtstamp", "begin", "end"):
                same_value(A, A.get(x, a), A.get(y, a), "%s of %s" % (a, A.get(y, "uid")))
    A.require(len(A.iter(A.get(new, "extra"))) == 0, "something is left over")
    again = A.call(A.get(new, "to_container"))
    A.require(A.text_eq(lines(A, again), ls), "the calendar is written differently a second time")


def reading(A, kind, order):
    """a component is read attribute by attribute, whatever the order of its lines"""
    CL = A.ics.ContentLine
    w = [A.text("w%d" % k) for k in range(8)]
    x, y = A.dt("x", A.utc, unit=S), A.dt("y", A.utc, unit=S)
    A.path.assume(y.pos - x.pos)
    data = [("UID", w[0]), ("SUMMARY", w[1] + "\\,"), ("DTSTAMP", x.strftime("%Y%m%dT%H%M%SZ")), ("DTSTART", x.strftime("%Y%m%dT%H%M%SZ")), ("DTEND" if kind == "event" else "DUE", y.strftime("%Y%m%dT%H%M%SZ")),
            ("LOCATION", w[2]), ("DESCRIPTION", "\\n" + w[3]), ("STATUS", "CONFIRMED")]
    data += [("CATEGORIES", w[4] + "," + w[5]), ("CATEGORIES", w[6])] if kind == "event" else [("PRIORITY", "3"), ("COMPLETED", y.strftime("%Y%m%dT%H%M%SZ"))]
    n = len(data)
    if order == "reversed":
        data = data[::-1]
        cats = [w[6], w[4], w[5]]
    elif order == "rotated":
        data = data[n // 2:] + data[:n // 2]
        cats = [w[4], w[5], w[6]]
    else:
        cats = [w[4], w[5], w[6]]
    c = A.call(A.ics.Container, "VEVENT" if kind == "event" else "VTODO", [A.call(CL, a, value=b) for a, b in data])
    e = A.call(A.get(type_of(A, kind), "from_container"), c)
    for a, b in (("uid", w[0]), ("summary", w[1] + ","), ("dtstamp", x), ("begin", x), ("end", y), ("location", w[2]), ("description", "\n" + w[3]), ("status", "CONFIRMED")):
        same_value(A, A.get(e, a), b, a)
    if kind == "event":
        same_value(A, A.get(e, "categories"), cats, "categories")
        back = [l for l in lines(A, A.call(A.get(e, "to_container"))) if l[0] == "CATEGORIES"]
        A.require([l[2] for l in back] == [b for a, b in data if a == "CATEGORIES"], lambda: "categories are grouped as %s" % A.show(back))
    else:
        A.require(A.eq(A.get(e, "priority"), 3), "priority")
        same_value(A, A.get(e, "completed"), y, "completed")
    rest = set(ATTRS[kind]) - {"uid", "summary", "dtstamp", "location", "description", "status", "categories", "priority", "completed"}
    for a in rest:
        A.require(not A.ip.truth(A.get(e, a)), "%s is set without a line" % a)


def joined(A, n, k):
    """long lists in few lines, an entry with many alarms"""
    w = A.text("w")
    cats = ["%d%s" % (i, w) + ",;\\ "[i % 4].strip() * (i % 3) for i in range(n)]
    cut = [n, n // 2, 1][k]
    c = build_event(A, [("CATEGORIES", ",".join(esc(x) for x in part)) for part in (cats[:cut], cats[cut:]) if part])
    e = A.call(A.ics.Event.from_container, c)
    same_value(A, A.get(e, "categories"), cats, "categories")
    back = [l[2] for l in lines(A, A.call(A.get(e, "to_container"))) if l[0] == "CATEGORIES"]
    A.require(back == [l[2] for l in lines(A, c) if l[0] == "CATEGORIES"], lambda: "categories are grouped as %s" % A.show(back))
    al = [A.call(A.mod("ics.alarm").DisplayAlarm, trigger=A.td_of(seconds=-60 * i), description="%d%s" % (i, w)) for i in range(n)]
    for x in al:
        A.call(A.get(A.get(e, "alarms"), "append"), x)
    f = A.call(A.ics.Event.from_container, A.call(A.get(e, "to_container")))
    A.require(len(A.get(f, "alarms")) == n and all(A.eq(x, y) for x, y in zip(A.get(f, "alarms"), al)), "alarms read back")
    same_value(A, A.get(f, "categories"), cats, "categories read back")
    A.require(A.eq(e, f), "the event read back")


OTHER = {"percent": 7, "priority": 4}
NULLABLE = ["summary", "description", "location", "url", "status", "created", "last_modified", "classification", "transparent", "organizer", "geo", "percent", "priority", "completed"]


def changed(A, kind, attr, i, j, how):
    """an entry that was read and changed is written as one made with the new value, and read back with it"""
    new = OTHER.get(attr) if j == "other" else values(A, attr, j)[0] if isinstance(j, int) else None
    f = A.call(A.get(type_of(A, kind), "from_container"), A.call(A.get(fresh(A, kind, **({attr: values(A, attr, i)[0]} if attr not in ("uid", "dtstamp") else {})), "to_container")))
    if how == "set":
        A.set(f, attr, new)
    elif how == "list":  # its items one by one
        items = A.get(f, attr)
        while A.ip.truth(items):
            A.call(A.get(items, "pop"), 0)
        for x in new:
            A.call(A.get(items, "append"), x)
    else:  # one more and one less
        x = values(A, attr, 3)[0][-1]
        A.call(A.get(A.get(f, attr), "append"), x)
        new = list(A.get(f, attr))
        if how == "shift":
            A.call(A.get(A.get(f, attr), "pop"), 0)
            A.call(A.get(A.get(f, attr), "pop"), 0)
            new = new[2:]
    kw = {"uid": "u", "dtstamp": A.dt("stamp", A.utc, unit=S)}
    if j is not None:
        kw[attr] = new
    e = A.call(type_of(A, kind), **kw)
    got, want = (lines(A, A.call(A.get(x, "to_container"))) for x in (f, e))
    A.require(A.text_eq(got, want), lambda: "%s is written as %s instead of %s" % (attr, A.show(got), A.show(want)))
    g = A.call(A.get(type_of(A, kind), "from_container"), A.call(A.get(f, "to_container")))
    same_value(A, A.get(g, attr), A.get(e, attr), "%s read back" % attr)


def regrouped(A, n, m, k):
    """values read from n lines of m each, then changed: still written exactly once each, in order"""
    w = A.text("w")
    cats = [["%d-%d%s" % (x, y, w) for y in range(m)] for x in range(n)]
    flat = [x for part in cats for x in part]
    e = A.call(A.ics.Event.from_container, build_event(A, [("CATEGORIES", ",".join(p)) for p in cats]))
    got = A.get(e, "categories")
    if k == "append":
        A.call(A.get(got, "append"), "new," + w)
        flat.append("new," + w)
    elif k == "insert":
        A.call(A.get(got, "insert"), 0, "new," + w)
        flat.insert(0, "new," + w)
    elif k == "pop":
        A.call(A.get(got, "pop"))
        flat.pop()
    elif k == "first":
        A.call(A.get(got, "pop"), 0)
        flat.pop(0)
    elif k == "clear":
        A.call(A.get(got, "clear"))
        flat = []
    elif k == "reverse":
        A.call(A.get(got, "reverse"))
        flat.reverse()
    else:
        flat = ["only " + w]
        A.set(e, "categories", flat)
    c = A.call(A.get(e, "to_container"))
    text = ",".join(l[2] for l in lines(A, c) if l[0] == "CATEGORIES")
    A.same_text(text, ",".join(esc(x) for x in flat), "categories written after %s" % k)
    same_value(A, A.get(A.call(A.ics.Event.from_container, c), "categories"), flat, "categories read back after %s" % k)


def respanned(A, kind, old, new):
    """an entry that was read gets another span"""
    f = A.call(A.get(type_of(A, kind), "from_container"), A.call(A.get(mk_entry(A, valid_span(A, kind, old[0], (old[1],) * 2, old[2], "o"), uid="u", dtstamp=A.dt("stamp", A.utc, unit=S)), "to_container")))
    s = valid_span(A, kind, new[0], (new[1],) * 2, new[2])
    A.set(f, "timespan", mk_timespan(A, s))
    e = mk_entry(A, s, uid="u", dtstamp=A.dt("stamp", A.utc, unit=S))
    got, want = (lines(A, A.call(A.get(x, "to_container"))) for x in (f, e))
    A.require(A.text_eq(got, want), lambda: "the span is written as %s instead of %s" % (A.show(got), A.show(want)))


def retriggered(A, cls, old, new):
    """an alarm that was read gets another trigger"""
    trig = {"none": lambda n: None, "before": lambda n: A.td(n, -10 ** 6, 10 ** 6, unit=S), "at": lambda n: A.dt(n, A.utc, unit=S), "zoned": lambda n: A.dt(n, known_zone(A), unit=S)}
    kw = {"action": "X-Y"} if cls == "CustomAlarm" else {}
    make = lambda t: A.call(getattr(A.ics, cls), trigger=t, repeat=2, duration=A.td_of(seconds=60), **kw)
    f = A.call(A.get(A.mod("ics.alarm").BaseAlarm, "from_container"), A.call(A.get(make(trig[old]("o")), "to_container")))
    t = trig[new]("t")
    A.set(f, "trigger", t)
    got, want = (lines(A, A.call(A.get(x, "to_container"))) for x in (f, make(t)))
    A.require(A.text_eq(got, want), lambda: "the alarm is written as %s instead of %s" % (A.show(got), A.show(want)))


def unusual(A, kind, where):
    """values with characters that tend to be taken for something else, written and read as text"""
    A.path.plain_wrap = True
    w = A.text("w")
    vs = exotic(A, w)
    es = []
    if where == "person":
        P = A.ics.Attendee
        es = [fresh(A, kind, attendees=[A.call(P, A.call(A.mod("urllib.parse").urlparse, "mailto:%d@x.org" % k), {"CN": [v, w], "X-A": [v + '"']}) for k, v in enumerate(vs)])]
    elif where == "categories":
        es = [fresh(A, kind, categories=vs)]
    else:
        for v in vs:
            es.append(fresh(A, kind))
            A.set(es[-1], where, v)
    cal = A.call(A.ics.Calendar, **{kind + "s": es})
    back = A.call(A.ics.Calendar, A.call(A.get(cal, "serialize")))
    got = A.get(back, kind + "s")
    A.require(len(got) == len(es) and len(A.iter(A.get(back, "extra"))) == 0, lambda: "%d entries instead of %d" % (len(got), len(es)))
    n = {"person": "attendees"}.get(where, where)
    for g, e in zip(got, es):
        same_value(A, A.get(g, n), A.get(e, n), n)
        A.require(len(A.iter(A.get(g, "extra"))) == 0, lambda: "something is left over: %s" % A.show(A.get(g, "extra")))


def build_event(A, items):
    CL = A.ics.ContentLine
    return A.call(A.ics.Container, "VEVENT", [A.call(CL, a, value=b) for a, b in [("UID", "u"), ("DTSTAMP", "20200101T000000Z")] + items])


def scenarios(tier):
    out = []
    for kind in ("event", "todo"):
        out.append(Scenario("nothing %s" % kind, nothing, (kind,)))
        for a in ATTRS[kind]:
            for i in range(COUNT[a]):
                for how in ("init", "set"):
                    out.append(Scenario("%s %s %d %s" % (kind, a, i, how), attribute, (kind, a, i, how)))
        if tier == "thorough":
            for a in ATTRS[kind]:
                for b in ATTRS[kind]:
                    if a < b:
                        out.append(Scenario("%s %s and %s" % (kind, a, b), pairs, (kind, a, b)))
        else:
            for a, b in zip(ATTRS[kind], ATTRS[kind][1:]):
                out.append(Scenario("%s %s and %s" % (kind, a, b), pairs, (kind, a, b)))
        for sh in valid_shapes(kind):
            for z in (None, "utc", "duutc", "K", "A"):
                for day in (False, True):
                    if day and (z is not None or sh == "-"):
                        continue
                    out.append(Scenario("span %s %s %s %s" % (kind, sh, z, "day" if day else ""), spans, (kind, sh, z, day, None)))
        for o in ("plain", "reversed", "rotated"):
            out.append(Scenario("reading %s %s" % (kind, o), reading, (kind, o)))
    for c in ALARMS:
        for i in range(16):
            if i & 3 != 3:
                out.append(Scenario("alarm %s %d" % (c, i), alarms, (c, i)))
    for a, i in (("categories", 9), ("categories", 40), ("attendees", 10), ("attendees", 33), ("attach", 9), ("attach", 31)):
        out.append(Scenario("many %s %d" % (a, i), attribute, ("event", a, i, "init")))
    out += [Scenario("unusual characters event %s" % a, unusual, ("event", a)) for a in ("summary", "description", "location", "uid", "categories", "person")]
    out += [Scenario("unusual characters todo %s" % a, unusual, ("todo", a)) for a in ("summary", "uid")]
    for ne, nt in ((9, 0), (17, 9), (0, 12)):
        out.append(Scenario("calendar %d %d" % (ne, nt), calendars, (ne, nt, 1, 0)))
    for kind in ("event", "todo"):
        for a in ATTRS[kind]:
            for i in range(COUNT[a]):
                for j in [x for x in range(COUNT[a]) if x != i] + (["other"] if a in OTHER else []) + ([None] if a in NULLABLE else []):
                    if tier == "thorough" or j is None or j == "other" or j in ((i + 1) % COUNT[a], (i + 2) % COUNT[a]):
                        out.append(Scenario("changed %s %s from %d to %s" % (kind, a, i, j), changed, (kind, a, i, j, "set")))
                        if a in ("attendees", "categories", "attach") and kind == "event" or a == "attach":
                            out.append(Scenario("changed %s %s from %d to %s one by one" % (kind, a, i, j), changed, (kind, a, i, j, "list")))
                if a in ("attendees", "categories", "attach"):
                    out.append(Scenario("changed %s %s one more than %d" % (kind, a, i), changed, (kind, a, i, "more", "more")))
                    if i > 1:
                        out.append(Scenario("changed %s %s shifted %d" % (kind, a, i), changed, (kind, a, i, "more", "shift")))
        spans_ = [(sh, z, day) for sh in valid_shapes(kind) for z in (None, "utc", "K") for day in (False, True) if not (sh == "-" and (z or day)) and not (day and z)]
        for x, o in enumerate(spans_):
            for y, n in enumerate(spans_):
                if o != n and (tier == "thorough" or (x + 2 * y) % 5 == 0):
                    out.append(Scenario("respanned %s %s to %s" % (kind, " ".join(map(str, o)), " ".join(map(str, n))), respanned, (kind, o, n)))
    out += [Scenario("regrouped %d of %d %s" % (n, m, k), regrouped, (n, m, k)) for n, m in ((1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (3, 3)) for k in ("append", "insert", "pop", "first", "clear", "reverse", "assign")]
    for c in ALARMS:
        for o in ("none", "before", "at", "zoned"):
            for n in ("none", "before", "at", "zoned"):
                if o != n:
                    out.append(Scenario("retriggered %s %s %s" % (c, o, n), retriggered, (c, o, n)))
    out += [Scenario("joined %d %d" % (n, k), joined, (n, k)) for n in (2, 9, 17, 40) for k in range(3)]
    for ne in range(4):
        for nt in range(3):
            for m in (0, 1):
                for t in (0, 1):
                    out.append(Scenario("calendar %d %d %d %d" % (ne, nt, m, t), calendars, (ne, nt, m, t)))
    return out
