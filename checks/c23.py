"""What an operation does depends on its arguments only: after reading, writing, refusing, failing or overriding anything else, every
operation on other objects gives what it gives in a fresh process."""
from .common import *
from .c17 import lines
from .c18 import build, reader
from .c20 import NV, variant
from .c22 import TZ

CALS = [("VERSION", {}, "2.0"), ("PRODID", {}, "p")]
ZONED = ("VEVENT", [("UID", {}, "zoned"), ("DTSTAMP", {}, "20200101T000000Z"), ("DTSTART", {"TZID": ["z"]}, "20200102T000000"), ("SUMMARY", {}, "s")])
TZ2 = [("TZID", {}, "z"), ("STANDARD", [("DTSTART", {}, "20200101T000000"), ("TZOFFSETFROM", {}, "-0700"), ("TZOFFSETTO", {}, "-0700")])]
BAD = [("UID", {}, "u"), ("DTSTART", {}, "20200101T000000Z"), ("DURATION", {"X": ["leak"]}, "PT1H"), ("CATEGORIES", {}, "leak"), ("SUMMARY", {}, "leak"), ("SUMMARY", {}, "again")]


def cal(A, *more):
    return build(A, "VCALENDAR", CALS + list(more))


def HISTORY(A):
    ev = lambda: A.call(reader(A, "VEVENT"), build(A, "VEVENT", variant(A, "VEVENT", 6, "h")))
    mid = [x for x in variant(A, "VEVENT", 5, "h")]
    return [
        ("reading a calendar with a time zone", lambda: A.call(A.ics.Calendar, cal(A, ("VTIMEZONE", TZ), ZONED))),
        ("reading and writing a calendar with another time zone of that name", lambda: A.call(A.get(A.call(A.ics.Calendar, cal(A, ("VTIMEZONE", TZ2), ZONED)), "serialize"))),
        ("reading an event", ev),
        ("writing an event", lambda: A.call(A.get(ev(), "serialize"))),
        ("a refused event", lambda: A.call(reader(A, "VEVENT"), build(A, "VEVENT", BAD))),
        ("a refused event in a calendar", lambda: A.call(A.ics.Calendar, cal(A, ("VTIMEZONE", TZ), ZONED, ("VEVENT", BAD)))),
        ("a refused alarm in an event", lambda: A.call(reader(A, "VEVENT"), build(A, "VEVENT", [("DTSTART", {}, "20200101T000000Z"), ("CATEGORIES", {}, "leak"), ("VALARM", [("ACTION", {}, "AUDIO"), ("TRIGGER", {}, "PT1S"), ("TRIGGER", {}, "PT2S")])]))),
        ("a refused zone", lambda: A.call(reader(A, "VTIMEZONE"), build(A, "VTIMEZONE", [("TZID", {}, "z"), ("TZID", {}, "y")]))),
        ("an event refused for its text", lambda: A.call(reader(A, "VEVENT"), build(A, "VEVENT", [("SUMMARY", {}, "a\\q")]))),
        ("an event with an unknown zone", lambda: A.call(reader(A, "VEVENT"), build(A, "VEVENT", [("DTSTART", {"TZID": ["No/Where"]}, "20200101T000000")]))),
        ("an event in a known zone", lambda: A.call(reader(A, "VEVENT"), build(A, "VEVENT", [("DTSTART", {"TZID": ["Known/K"]}, "20200101T000000")]))),
        ("writing an event in a known zone", lambda: A.call(A.get(A.call(A.ics.Event, begin=A.dt("hz", known_zone(A), unit=S)), "serialize"))),
        ("writing an event in a zone without definition", lambda: A.call(A.get(A.call(A.ics.Event, begin=A.dt("hz", A.zone("Zone/A"), unit=S), categories=["leak"]), "serialize"))),
        ("malformed text", lambda: A.call(A.ics.Calendar, "BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nSUMMARY")),
        ("unclosed text", lambda: A.iter(A.call(A.mod("ics.contentline").string_to_containers, "BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nSUMMARY:x\r\nEND:VCALENDAR"))),
        ("abandoned reading", lambda: next(iter(A.ip.iter_(A.call(A.mod("ics.contentline").string_to_containers, "A:1\r\nB:2"))))),
        ("an invalid entry", lambda: A.call(A.ics.Event, begin=A.dt("hb", A.utc, unit=S), end=A.dt("hb", A.utc, unit=S) - A.td_of(seconds=1))),
        ("an invalid change", lambda: A.set(ev(), "status", "nonsense")),
        ("setting up again", lambda: A.call(A.mod("ics").initialize_converters)),
        ("changing a new object", lambda: A.get(A.call(A.ics.Event), "extra_params").update({"SUMMARY": {"LEAK": ["1"]}, "CATEGORIES": [{"LEAK": ["1"]}]})),
        ("changing new lists", lambda: [A.get(A.call(A.ics.Event), n).append("leak") for n in ("categories", "attach")]),
        ("a changed line", lambda: A.get(A.call(A.ics.ContentLine, "A"), "params").update({"LEAK": ["1"]})),
        ("iterating a calendar", lambda: A.iter(A.call(A.ics.Calendar, events=[ev()]))),
        ("a timeline", lambda: A.iter(A.get(A.call(A.ics.Calendar, events=[A.call(A.ics.Event, begin=A.dt("hb", A.utc, unit=S))]), "timeline"))),
        ("a custom alarm", lambda: A.call(A.get(A.call(A.ics.CustomAlarm, action="X-LEAK"), "to_container"))),
        ("cloning and stripping", lambda: A.call(A.get(A.call(A.get(ev(), "clone")), "strip_extras"), all_extras=True)),
        ("a calendar of its own", lambda: A.call(A.ics.Calendar, creator="leak", version="9", method="LEAK", events=[ev()])),
    ]


NH = 27


def PROBES(A):
    rd = lambda k, v: lambda: observe(A, A.call(reader(A, k), build(A, k, variant(A, k, v, "q"))))
    wr = lambda k, v: lambda: lines(A, A.call(A.get(A.call(reader(A, k), build(A, k, variant(A, k, v, "q"))), "to_container")))
    out = [rd("VEVENT", v) for v in range(NV)] + [rd("VTODO", v) for v in (2, 5, 7)] + [wr("VEVENT", v) for v in (2, 5, 6, 7)] + [
        lambda: observe(A, A.call(A.ics.Calendar, cal(A, ZONED))),  # its zone is defined elsewhere only
        lambda: lines(A, A.call(A.get(A.call(A.ics.Calendar, cal(A, ("VTIMEZONE", TZ), ZONED)), "to_container"))),
        lambda: [observe(A, A.call(A.get(A.get(A.get(A.call(A.ics.Calendar, cal(A, ("VTIMEZONE", TZ), ZONED)), "events")[0], "begin").tzinfo, "to_container")))],
        lambda: lines(A, A.call(A.get(A.call(A.ics.Calendar, events=[A.call(A.ics.Event, uid="u", dtstamp=A.dt("st", A.utc, unit=S), begin=A.dt("kz", known_zone(A), unit=S))]), "to_container"))),
        lambda: lines(A, A.call(A.get(A.call(A.ics.Calendar, events=[A.call(A.ics.Event, uid="u", dtstamp=A.dt("st", A.utc, unit=S), begin=A.dt("uz", A.utc, unit=S))]), "to_container"))),
        lambda: lines(A, A.call(A.get(A.call(A.ics.Event, uid="u", begin=A.dt("zz", A.zone("Zone/A"), unit=S)), "to_container"))),
        lambda: [observe(A, A.call(A.ics.Event, uid="u", dtstamp=A.dt("st", A.utc, unit=S))), observe(A, A.call(A.ics.Todo, uid="u", dtstamp=A.dt("st", A.utc, unit=S))), observe(A, A.call(A.ics.Calendar)), observe(A, A.call(A.ics.EmailAlarm)), observe(A, A.call(A.ics.Attendee, "mailto:x"))],
        lambda: observe(A, A.call(A.ics.ContentLine, "A")),
        lambda: observe(A, A.call(reader(A, "VEVENT"), build(A, "VEVENT", BAD))),
        lambda: observe(A, A.call(reader(A, "VEVENT"), build(A, "VEVENT", [("DTSTART", {"TZID": ["No/Where"]}, "20200101T000000")]))),
        lambda: A.show(A.iter(A.call(A.mod("ics.contentline").string_to_containers, "BEGIN:X\r\nA;P=q:1\r\n 2\r\nEND:X\r\n"))),
        lambda: A.show(A.iter(A.call(A.mod("ics.contentline").string_to_containers, "BEGIN:X\r\nA;P=q:1\r\n 2\r\n"))),
        lambda: A.call(A.get(A.call(A.ics.ContentLine, "A", {"P": ["x;y"]}, A.text("long") + "b"), "serialize")),
        lambda: A.set(A.call(A.ics.Event), "status", "nonsense"),
        lambda: A.call(A.ics.Event, begin=A.dt("pb", A.utc, unit=S), end=A.dt("pb", A.utc, unit=S) - A.td_of(seconds=1)),
    ]
    return out


NP = 30


def independent(A, h, ps):
    hs = HISTORY(A)
    A.require(len(hs) == NH, "histories")
    name, f = hs[h]
    for p in ps:
        probes = PROBES(A)
        A.w.snap.restore()
        want, e1 = A.attempt(probes[p])
        A.w.snap.restore()
        A.attempt(f)
        got, e2 = A.attempt(probes[p])
        A.require((e1 is None) == (e2 is None), lambda: "after %s, something %s" % (name, "fails: %s" % A.exc_name(e2) if e1 is None else "is accepted: %s" % A.show(got)))
        if e1 is not None:
            A.require(A.exc_name(e1) == A.exc_name(e2), lambda: "after %s, another failure: %s instead of %s" % (name, A.exc_name(e2), A.exc_name(e1)))
        else:
            A.require(same_state(A, want, got), lambda: "after %s: %s" % (name, "; ".join(differences(A, want, got)[:3])))


def chain(A, k):
    """all histories one after another"""
    A.w.snap.restore()
    want = [A.attempt(p) for p in PROBES(A)[k::6]]
    A.w.snap.restore()
    for _ in range(2):
        for name, f in HISTORY(A):
            A.attempt(f)
    for (w, e1), p in zip(want, PROBES(A)[k::6]):
        got, e2 = A.attempt(p)
        A.require((e1 is None) == (e2 is None), lambda: "after everything, something %s" % ("fails: %s" % A.exc_name(e2) if e1 is None else "is accepted: %s" % A.show(got)))
        if e1 is None:
            A.require(same_state(A, w, got), lambda: "after everything: %s" % "; ".join(differences(A, w, got)[:3]))


def scenarios(tier):
    out = []
    for h in range(NH):
        for k in range(0, 30, 5):
            out.append(Scenario("history %d probes %d" % (h, k), independent, (h, range(k, k + 5))))
    out += [Scenario("all histories %d" % k, chain, (k,)) for k in range(6)]
    return out
