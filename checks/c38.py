"""Component classes a user declares and registers are written and read exactly as declared: every attribute under its name in the order of
priority and declaration, ignored ones never, custom converters and nested components included; what isn't declared is kept, required and
single properties are enforced, and the library's own classes stay as they are."""
from .common import *
from .c17 import lines

USER = '''
from datetime import date, datetime, timedelta
from typing import ClassVar, List, Optional, Union
import attr
from dateutil.rrule import rruleset
from ics import Event, EventTimespan, TodoTimespan
from ics.component import Component
from ics.contentline import ContentLine
from ics.converter.base import AttributeConverter
from ics.converter.component import ComponentMeta, ImmutableComponentMeta

@attr.s
class Part(Component):
    NAME = "X-PART"
    label: Optional[str] = attr.ib(default=None)
    SIZE: Optional[int] = attr.ib(default=None)

@attr.s
class BigPart(Part):
    extra_room: Optional[int] = attr.ib(default=None, metadata={"ics_priority": 10})

@attr.s
class Core(Component):
    NAME = "X-CORE"
    label: Optional[str] = attr.ib(default=None)

@attr.s(frozen=True)
class Frozen(Component):
    NAME = "X-FROZEN"
    key: str = attr.ib()
    count: int = attr.ib(default=3)
    items: List[str] = attr.ib(factory=list)

class FlagConverter(AttributeConverter):
    default_priority = 5

    @property
    def filter_ics_names(self):
        return ["X-ON", "X-OFF"]

    def populate(self, component, item, context):
        self.set_or_append_value(component, item.name == "X-ON")
        return True

    def serialize(self, component, output, context):
        value = self.get_value(component)
        if value is not None:
            output.append(ContentLine("X-ON" if value else "X-OFF", value="!"))

@attr.s
class Journal(Component):
    NAME = "VJOURNAL"
    _note: Optional[str] = attr.ib(default=None)
    rank_of_it: Optional[int] = attr.ib(default=None, metadata={"ics_priority": 50})
    renamed: Optional[str] = attr.ib(default=None, metadata={"ics_name": "X-OTHER"})
    hidden: Optional[str] = attr.ib(default="h", metadata={"ics_ignore": True})
    computed: Optional[str] = attr.ib(default="c", init=False)
    shown: Optional[str] = attr.ib(default=None, init=False, metadata={"ics_ignore": False})
    moment: Union[datetime, timedelta, None] = attr.ib(default=None)
    typed = attr.ib(default=None, metadata={"ics_type": bool})
    tags: List[str] = attr.ib(factory=list, metadata={"ics_name": "TAG", "ics_priority": -10})
    moments: List[Union[datetime, timedelta]] = attr.ib(factory=list)
    flag: Optional[bool] = attr.ib(default=None, metadata={"ics_converter": FlagConverter})
    parts: List[Part] = attr.ib(factory=list)
    core: Optional[Core] = attr.ib(default=None, metadata={"ics_priority": 1})

@attr.s
class Strict(Component):
    NAME = "X-STRICT"
    needed: Optional[str] = attr.ib(default=None, metadata={"ics_required": True})
    free: Optional[str] = attr.ib(default=None)

@attr.s
class Lecture(Event):
    timespan: EventTimespan = attr.ib(factory=EventTimespan)
    room: Optional[str] = attr.ib(default=None, metadata={"ics_name": "X-ROOM"})
    seats: Optional[int] = attr.ib(default=None)

@attr.s
class Shift(Component):
    NAME = "X-SHIFT"
    flag: Optional[bool] = attr.ib(default=None, metadata={"ics_converter": FlagConverter, "ics_priority": 0})
    span: EventTimespan = attr.ib(factory=EventTimespan, metadata={"ics_priority": 0})
    after: Optional[str] = attr.ib(default=None)
    before: Optional[str] = attr.ib(default=None, metadata={"ics_priority": 3})
    last: Optional[str] = attr.ib(default=None, metadata={"ics_priority": -1})

@attr.s
class Default(Component):
    NAME = "X-DEFAULT"
    before: Optional[str] = attr.ib(default=None, metadata={"ics_priority": 3})
    flag: Optional[bool] = attr.ib(default=None, metadata={"ics_converter": FlagConverter})
    due: TodoTimespan = attr.ib(factory=TodoTimespan)
    first: Optional[str] = attr.ib(default=None, metadata={"ics_priority": 1001})

@attr.s
class Mixed(Component):
    NAME = "X-MIXED"
    some: Union[None, str, int, bytes] = attr.ib(default=None)
    day: Optional[Union[date, datetime, str]] = attr.ib(default=None)
    many: List[Union[timedelta, int, None, datetime, bool]] = attr.ib(factory=list)
    rate: Union[float, bool, int, str, None] = attr.ib(default=None)

@attr.s
class Slot(Component):
    NAME = "X-SLOT"
    span: EventTimespan = attr.ib(factory=EventTimespan)
    rec: rruleset = attr.ib(factory=rruleset)
    label: Optional[str] = attr.ib(default=None)
    tags: List[str] = attr.ib(factory=list)
    part: Optional[Part] = attr.ib(default=None)

@attr.s
class Table(Component):
    NAME = "X-TABLE"
    span: EventTimespan = attr.ib(factory=EventTimespan)
    rec: rruleset = attr.ib(factory=rruleset)
    label: Optional[str] = attr.ib(default=None)
    slots: List[Slot] = attr.ib(factory=list, metadata={"ics_priority": %d})
    tags: List[str] = attr.ib(factory=list)

@attr.s
class Bare(Component):
    NAME = "X-BARE"
    tags: List[str] = attr.ib(default=None)
    parts: List[Part] = attr.ib(default=None)
    rec: Optional[rruleset] = attr.ib(default=None)
    part: Optional[Core] = attr.ib(default=None)
    label: Optional[str] = attr.ib(default=None)

@attr.s
class Free(Component):
    NAME = "X-FREE"
    span: Optional[EventTimespan] = attr.ib(default=None)
    rec: Optional[rruleset] = attr.ib(default=None)

@attr.s
class Odd(Component):
    NAME = "X-ODD"
    class_: Optional[str] = attr.ib(default=None)
    _from_: Optional[str] = attr.ib(default=None)
    UPPER_case: Optional[str] = attr.ib(default=None)
    double__under: Optional[str] = attr.ib(default=None)
    anything: object = attr.ib(default=None, metadata={"ics_type": int})
    texts: list = attr.ib(factory=list, metadata={"ics_type": List[str]})
    number: Optional[int] = attr.ib(default=None, metadata={"ics_type": Optional[str]})
    late: Optional[str] = attr.ib(default=attr.Factory(lambda self: "of " + str(self.class_), takes_self=True))

@attr.s(frozen=True)
class OddFrozen(Component):
    NAME = "X-ODD"
    class_: Optional[str] = attr.ib()
    _from_: Optional[str] = attr.ib(default=None)
    UPPER_case: Optional[str] = attr.ib(default=None)
    double__under: Optional[str] = attr.ib(default=None)
    anything: object = attr.ib(default=None, metadata={"ics_type": int})
    texts: list = attr.ib(default=attr.Factory(lambda self: ["t0"], takes_self=True), metadata={"ics_type": List[str]})
    number: Optional[int] = attr.ib(default=None, metadata={"ics_type": Optional[str]})
    late: Optional[str] = attr.ib(default=attr.Factory(lambda self: "of " + self.class_, takes_self=True))

ComponentMeta.BY_TYPE[Odd] = ComponentMeta(Odd)
ComponentMeta.BY_TYPE[OddFrozen] = ImmutableComponentMeta(OddFrozen)
for cls in (Part, BigPart, Core, Strict, Lecture, Shift, Default, Mixed, Slot, Table, Bare, Free):
    ComponentMeta.BY_TYPE[cls] = ComponentMeta(cls)
ComponentMeta.BY_TYPE[Frozen] = ImmutableComponentMeta(Frozen)
ComponentMeta.BY_TYPE[Journal] = ComponentMeta(Journal)
'''
# name of the attribute, of the property, priority, in the order of declaration
FIELDS = [("_note", "NOTE", 0), ("rank_of_it", "RANK-OF-IT", 50), ("renamed", "X-OTHER", 0), ("shown", "SHOWN", 0), ("moment", "MOMENT", 0), ("typed", "TYPED", 0), ("tags", "TAG", -10), ("moments", "MOMENTS", 0), ("flag", "X-FLAG", 5), ("parts", "X-PART", 0), ("core", "X-CORE", 1)]
ORDER = sorted(FIELDS, key=lambda f: -f[2])


def user(A, prio=0):
    return A.module("user_components%d" % prio if prio else "user_components", USER % prio)


def cl(A, n, v, p=None):
    return A.call(A.ics.ContentLine, n, p or {}, v)


def comp(A, n, items):
    return A.call(A.ics.Container, n, items)


def item(A, U, f, i):
    """-> (value of the attribute, its lines as (name, params, value), the items to read it from)"""
    w = A.text("w%s" % f)
    if f in ("_note", "renamed", "shown"):
        n = dict((a, b) for a, b, _ in FIELDS)[f]
        return w, [(n, {}, w)]
    if f == "rank_of_it":
        k = A.num("n", 0, 10 ** 6)
        return k, [("RANK-OF-IT", {}, A.str(k))]
    if f == "moment":
        return [(A.dt("d", A.utc, unit=S), None), (A.td_of(seconds=3600 + i), "PT1H0M%dS" % i)][i % 2], None
    if f == "typed":
        return bool(i % 2), [("TYPED", {}, "TRUE" if i % 2 else "FALSE")]
    if f == "tags":
        return [w + str(j) for j in range(i)], [("TAG", {}, w + str(j)) for j in range(i)]
    if f == "flag":
        return bool(i % 2), [("X-ON" if i % 2 else "X-OFF", {}, "!")]
    if f == "core":
        return A.call(U.Core, w) if i else A.call(U.Core), [("X-CORE", [("LABEL", {}, w)] if i else [])]
    if f == "parts":
        v, l = [], []
        for j in range(i):
            if j % 2:
                v.append(A.call(U.BigPart, w, j, 7))
                l.append(("X-PART", [("EXTRA-ROOM", {}, "7"), ("LABEL", {}, w), ("SIZE", {}, str(j))]))
            else:
                v.append(A.call(U.Part, w))
                l.append(("X-PART", [("LABEL", {}, w)]))
        return v, l
    raise AssertionError(f)


def pick(A, U, f, i):
    if f == "moment":
        d = A.dt("d", A.utc, unit=S)
        if i % 2:
            return A.td_of(hours=1, seconds=i), [("MOMENT", {"VALUE": ["DURATION"]}, "PT1H%dS" % i)]
        return d, [("MOMENT", {}, A.call(A.get(d, "strftime"), "%Y%m%dT%H%M%SZ"))]
    if f == "moments":
        d = A.dt("d", A.utc, unit=S)
        s = A.call(A.get(d, "strftime"), "%Y%m%dT%H%M%SZ")
        both = [(d, ("MOMENTS", {}, s)), (A.td_of(hours=2), ("MOMENTS", {"VALUE": ["DURATION"]}, "PT2H"))]
        k = [[], both[:1], both[1:], both, both[::-1], both + both[:1]][i % 6]
        return [x for x, _ in k], [x for _, x in k]
    return item(A, U, f, i)


def to_items(A, ls):
    return [comp(A, l[0], to_items(A, l[1])) if isinstance(l[1], list) else cl(A, l[0], l[2], l[1]) for l in ls]


def same(A, got, want, what):
    A.require(len(got) == len(want), lambda: "%s: %s instead of %s" % (what, A.show(got), A.show(want)))
    for g, w in zip(got, want):
        if isinstance(w[1], list):
            A.require(g[0] == w[0] and isinstance(g[1], list), lambda: "%s: %s instead of %s" % (what, A.show(g), A.show(w)))
            same(A, g[1], w[1], what)
        else:
            A.require(not isinstance(g[1], list) and A.text_eq(g, w), lambda: "%s: %s instead of %s" % (what, A.show(g), A.show(w)))


def again(A, x, want):
    """parts are read as the declared class, which keeps the attributes of the subclass as extra lines, i.e. after its own ones"""
    got, want = [[(l[0], sorted(l[1], key=lambda k: k[0])) if l[0] == "X-PART" else l for l in ls] for ls in (lines(A, A.call(A.get(x, "to_container"))), want)]
    same(A, got, want, "written again")


def attr_is(A, o, f, v, what):
    g = A.get(o, f)
    if isinstance(v, list):
        A.require(isinstance(g, list) and len(g) == len(v), lambda: "%s: %s is %s" % (what, f, A.show(g)))
        pairs = list(zip(g, v))
    else:
        pairs = [(g, v)]
    for a, b in pairs:
        if isinstance(b, str):
            A.same_text(a, b, "%s: %s" % (what, f))
        elif b is None or isinstance(b, bool):
            A.require(a is b, lambda: "%s: %s is %s instead of %s" % (what, f, A.show(a), b))
        else:
            A.require(same_state(A, observe(A, a), observe(A, b)) if not isinstance(b, (dt.datetime, dt.timedelta)) and hasattr(b, "_c") else A.eq(a, b), lambda: "%s: %s is %s instead of %s" % (what, f, A.show(a), A.show(b)))


def written(A, f, i, g, j):
    U = user(A)
    x = A.call(U.Journal)
    vals = {}
    for a, k in ((f, i), (g, j)):
        if a is None or a in vals:
            continue
        v, l = pick(A, U, a, k)
        vals[a] = (v, l)
        A.set(x, a, v)
    want = [l for a, _, _ in ORDER if a in vals for l in vals[a][1]]
    before = observe(A, x)
    c = A.call(A.get(x, "to_container"))
    A.require(A.get(c, "name") == "VJOURNAL", "name of the component")
    same(A, lines(A, c), want, "written")
    unchanged(A, before, x, "writing changes the object")
    # reading it back
    y = A.call(A.get(U.Journal, "from_container"), c)
    for a, _, _ in FIELDS:
        if a == "parts" and a in vals:
            continue  # read back as the declared type
        v = vals[a][0] if a in vals else [] if a in ("tags", "moments", "parts") else None
        attr_is(A, y, a, v, "read back")
    A.require(A.get(y, "hidden") == "h" and A.get(y, "computed") == "c", "ignored attributes are set")
    A.require(len(A.iter(A.get(y, "extra"))) == 0 or "parts" in vals, lambda: "extra lines after reading back: %s" % A.show(lines(A, A.get(y, "extra"))))
    again(A, y, want)


def read(A, order, junk):
    """lines in any order, together with undeclared ones"""
    U = user(A)
    fs = order
    vals, items, extra, nparts = {}, [], [], 0
    for k, f in enumerate(fs):
        v, l = pick(A, U, f, 1 + k % 2)
        vals[f] = v
        items += l
    w = A.text("junk")
    unknown = {"none": [], "hidden": [("HIDDEN", {}, w)], "computed": [("COMPUTED", {"P": ["q"]}, w)], "python-name": [("RENAMED", {}, w), ("RANK_OF_IT", {}, w), ("TAGS", {}, w)], "comp": [("X-UNKNOWN", [("LABEL", {}, w)])], "extra": [("EXTRA", {}, w), ("EXTRA-PARAMS", {}, w)]}[junk]
    at = A.choose([0, len(items)], "undeclared lines at")
    c = comp(A, "VJOURNAL", to_items(A, items[:at] + unknown + items[at:]))
    before = observe(A, c)
    x = A.call(A.get(U.Journal, "from_container"), c)
    unchanged(A, before, c, "reading changes what is read")
    for a, _, _ in FIELDS:
        if a == "parts":
            continue
        attr_is(A, x, a, vals[a] if a in vals else [] if a in ("tags", "moments") else None, "read")
    A.require(A.get(x, "hidden") == "h" and A.get(x, "computed") == "c", "ignored attributes are set")
    same(A, lines(A, A.get(x, "extra")), unknown, "undeclared lines")
    want = [l for a, _, _ in ORDER if a in vals for l in pick(A, U, a, 1 + fs.index(a) % 2)[1]]
    again(A, x, want + unknown)


def single(A, f):
    U = user(A)
    v, l = pick(A, U, f, 1)
    x, e = A.attempt(A.get(U.Journal, "from_container"), comp(A, "VJOURNAL", to_items(A, l + l)))
    A.require(e is not None and A.is_exc(e, ValueError), lambda: "%s twice is accepted (got %s)" % (f, A.exc_name(e)))
    # one after the other is fine
    for _ in range(2):
        attr_is(A, A.call(A.get(U.Journal, "from_container"), comp(A, "VJOURNAL", to_items(A, l))), f, v, "read")


def params(A, f):
    """parameters of declared properties are kept and written again"""
    U = user(A)
    w, p = A.text("w"), A.text("p")
    n = dict((a, b) for a, b, _ in FIELDS)[f]
    k = 2 if f == "tags" else 1
    ls = [(n, {"X-P": [p], "X-Q": ["1", str(j)]}, w) for j in range(k)]
    x = A.call(A.get(U.Journal, "from_container"), comp(A, "VJOURNAL", to_items(A, ls)))
    attr_is(A, x, f, [w] * k if f == "tags" else w, "read")
    same(A, lines(A, A.call(A.get(x, "to_container"))), ls, "written")
    A.call(A.get(x, "strip_extras"), extra_params=True)
    same(A, lines(A, A.call(A.get(x, "to_container"))), [(n, {}, w)] * k, "written without the parameters")


def joined(A):
    """several values of one line"""
    U = user(A)
    a, b, c = A.text("a"), A.text("b"), A.text("c")
    ls = [("TAG", {}, a + "," + b), ("TAG", {}, c)]
    x = A.call(A.get(U.Journal, "from_container"), comp(A, "VJOURNAL", to_items(A, ls)))
    attr_is(A, x, "tags", [a, b, c], "read")
    same(A, lines(A, A.call(A.get(x, "to_container"))), ls, "written")


def required(A, kind):
    U = user(A)
    w = A.text("w")
    f = A.get(U.Strict, "from_container")
    if kind == "strict":
        for c in ([], [("FREE", {}, w)], [("X-OTHER", {}, w)], [("X-STRICT", [("NEEDED", {}, w)])]):
            _, e = A.attempt(f, comp(A, "X-STRICT", to_items(A, c)))
            A.require(e is not None and A.is_exc(e, ValueError), lambda: "a component without a required property is read: %s (got %s)" % (A.show(c), A.exc_name(e)))
        for c in ([("NEEDED", {}, w)], [("FREE", {}, w), ("NEEDED", {}, w)]):
            attr_is(A, A.call(f, comp(A, "X-STRICT", to_items(A, c))), "needed", w, "read")
        return
    F = U.Frozen
    f = A.get(F, "from_container")
    _, e = A.attempt(f, comp(A, "X-FROZEN", to_items(A, [("COUNT", {}, "5")])))
    A.require(e is not None and A.is_exc(e, ValueError), lambda: "a frozen component without a required property is read (got %s)" % A.exc_name(e))
    n = A.num("n", 0, 1000)
    for c, want in (([("KEY", {}, w)], (w, 3, [])), ([("COUNT", {}, A.str(n)), ("KEY", {}, w)], (w, n, [])), ([("ITEMS", {}, "a"), ("KEY", {}, w), ("ITEMS", {"P": ["q"]}, "b"), ("X-MORE", {}, w)], (w, 3, ["a", "b"]))):
        x = A.call(f, comp(A, "X-FROZEN", to_items(A, c)))
        for a, v in zip(("key", "count", "items"), want):
            attr_is(A, x, a, v, "read")
        same(A, lines(A, A.get(x, "extra")), [l for l in c if l[0] == "X-MORE"], "undeclared lines")
        A.raises(A.set, x, "key", "other", _msg="a frozen component can be changed")
        same(A, lines(A, A.call(A.get(x, "to_container"))), sorted([l for l in c if l[0] != "X-MORE"] + ([("COUNT", {}, "3")] if not any(l[0] == "COUNT" for l in c) else []), key=lambda l: ["KEY", "COUNT", "ITEMS"].index(l[0])) + [l for l in c if l[0] == "X-MORE"], "written")
    # what one frozen component got isn't the next one's default
    x = A.call(f, comp(A, "X-FROZEN", to_items(A, [("KEY", {}, w)])))
    attr_is(A, x, "items", [], "read")


ODD = [("class_", "CLASS"), ("_from_", "FROM"), ("UPPER_case", "UPPER-CASE"), ("double__under", "DOUBLE--UNDER"), ("anything", "ANYTHING"), ("texts", "TEXTS"), ("number", "NUMBER"), ("late", "LATE")]


def odd(A, frozen, mask, order):
    """names with underscores at their ends, types overridden by ics_type, defaults computed from other attributes"""
    U = user(A)
    C = U.OddFrozen if frozen else U.Odd
    w = A.text("w")
    vals, ls = {}, []
    for i, (a, n) in enumerate(ODD):
        if not mask >> i & 1 and not (frozen and i == 0):
            continue
        v, t = {"anything": (A.num("n", 0, 99), None), "texts": ([w, "x"], None)}.get(a, (a + w, a + w))
        vals[a] = v
        ls.append([(n, {}, s if isinstance(s, str) else A.str(s)) for s in (v if isinstance(v, list) else [v])])
    given = [l for k in (ls if order == "declared" else ls[::-1]) for l in k]
    x = A.call(A.get(C, "from_container"), comp(A, "X-ODD", to_items(A, given)))
    for a, n in ODD:
        if a == "late" and a not in vals:
            want = "of " + vals["class_"] if frozen else "of None"
        elif a == "texts":
            want = (["t0"] if frozen else []) + vals.get(a, [])
        else:
            want = vals.get(a)
        attr_is(A, x, a, want, "read")
        vals[a] = want
    same(A, lines(A, A.get(x, "extra")), [], "undeclared lines")
    full = []
    for a, n in ODD:
        v = vals[a]
        full += [(n, {}, s if isinstance(s, str) else A.str(s)) for s in (v if isinstance(v, list) else [] if v is None else [v])]
    if not (frozen and mask >> 5 & 1):  # a default item has no parameters
        same(A, lines(A, A.call(A.get(x, "to_container"))), full, "written")
    kw = {a.lstrip("_"): v for a, v in vals.items() if v is not None}
    y = A.call(C, **kw)
    same(A, lines(A, A.call(A.get(y, "to_container"))), full, "written")
    z = A.call(A.get(y, "clone"))
    same(A, lines(A, A.call(A.get(z, "to_container"))), full, "clone written")


def names(A):
    """only components of the right name, only instances of the right class"""
    U = user(A)
    for n in ("VEVENT", "X-PART", "VJOURNA", "VJOURNALS"):
        _, e = A.attempt(A.get(U.Journal, "from_container"), comp(A, n, []))
        A.require(e is not None and A.is_exc(e, ValueError), lambda: "a %s is read as a journal" % n)
    x = A.call(A.get(U.Journal, "from_container"), comp(A, "vjournal", []))
    A.require(x._c is U.Journal, "class")
    # the name written is that of the extra lines
    A.set(A.get(x, "extra"), "name", "X-RENAMED")
    c = A.call(A.get(x, "to_container"))
    A.require(A.get(c, "name") == "X-RENAMED", "the name of the extra lines isn't used")
    y = A.call(U.Part, "a")
    A.call(A.get(y, "populate"), comp(A, "X-PART", to_items(A, [("SIZE", {}, "4")])))
    attr_is(A, y, "label", "a", "populated")
    attr_is(A, y, "SIZE", 4, "populated")
    for y, n in ((A.call(U.Part), "X-CORE"), (A.call(U.Core), "X-PART")):
        _, e = A.attempt(A.get(y, "populate"), comp(A, n, []))
        A.require(e is not None and A.is_exc(e, ValueError), "populated from a component of another name")


def event(A):
    """a subclass of a class of the library has its attributes and those of its own"""
    U = user(A)
    w, n = A.text("w"), A.num("n", 0, 99)
    b = A.dt("b", A.utc, unit=S)
    x = A.call(U.Lecture, timespan=A.call(A.ics.EventTimespan, b), summary="s", room=w, seats=n, uid="u", dtstamp=A.dt("stamp", A.utc, unit=S))
    c = A.call(A.get(x, "to_container"))
    got = {l[0]: l for l in lines(A, c)}
    A.require(sorted(got) == ["DTSTAMP", "DTSTART", "SEATS", "SUMMARY", "UID", "X-ROOM"], lambda: "written: %s" % A.show(sorted(got)))
    A.require(A.text_eq(got["X-ROOM"], ("X-ROOM", {}, w)) and A.text_eq(got["SEATS"], ("SEATS", {}, A.str(n))), "own attributes")
    y = A.call(A.get(U.Lecture, "from_container"), c)
    A.require(A.eq(x, y), "read back")
    attr_is(A, y, "room", w, "read back")
    # a plain event keeps the same lines as extra ones, and a calendar writes the lecture with its own attributes
    e = A.call(A.get(A.ics.Event, "from_container"), c)
    A.require(sorted(l[0] for l in lines(A, A.get(e, "extra"))) == ["SEATS", "X-ROOM"], "a plain event reads the properties of the subclass")
    cal = A.call(A.ics.Calendar)
    A.set(cal, "events", [x, e])
    cc = [k for k in lines(A, A.call(A.get(cal, "to_container"))) if k[0] == "VEVENT"]
    A.require(len(cc) == 2 and sorted(l[0] for l in cc[0][1]) == sorted(l[0] for l in cc[1][1]) == sorted(got), lambda: "entries of a calendar: %s" % A.show(cc))


MIXED = {"some": ["TEXT", "INTEGER", "BINARY"], "day": ["DATE", "DATE-TIME", "TEXT"], "many": ["DURATION", "INTEGER", "DATE-TIME", "BOOLEAN"], "rate": ["FLOAT", "BOOLEAN", "INTEGER", "TEXT"]}


def typed_value(A, t, k=""):
    """-> value, text"""
    if t == "TEXT":
        w = A.text("w" + k)
        return w, w
    if t == "INTEGER":
        n = A.num("n" + k, -5, 10 ** 6)
        return n, A.str(n)
    if t == "BINARY":
        return b"abc", "YWJj"
    if t == "DATE":
        d = A.date("d" + k)
        return d, d.strftime("%Y%m%d")
    if t == "DATE-TIME":
        d = A.dt("t" + k, A.utc, unit=S)
        return d, d.strftime("%Y%m%dT%H%M%SZ")
    if t == "DURATION":
        return A.td_of(hours=2), "PT2H"
    if t == "BOOLEAN":
        b = A.flag("b" + k)
        return b, "TRUE" if b else "FALSE"
    return 2.5, "2.5"


def mixed(A, f, ts):
    """values of any type of a union"""
    U = user(A)
    vs = [typed_value(A, t, str(i)) for i, t in enumerate(ts)]
    want = [(f.upper(), {} if t == MIXED[f][0] else {"VALUE": [t]}, s) for t, (_, s) in zip(ts, vs)]
    x = A.call(U.Mixed)
    many = f == "many"
    v = [v for v, _ in vs] if many else vs[0][0]
    A.set(x, f, v)
    for k in range(2):
        before = observe(A, x)
        c = A.call(A.get(x, "to_container"))
        same(A, lines(A, c), want, "written")
        unchanged(A, before, x, "writing changes the object")
        x = A.call(A.get(U.Mixed, "from_container"), c)
        g = A.get(x, f)
        A.require(not many or len(g) == len(v), "number of values")
        for (a, _), b, t in zip(vs, g if many else [g], ts):
            A.require(A.isinstance(b, {"TEXT": str, "INTEGER": int, "BINARY": bytes, "DATE": A.mod("datetime").date, "DATE-TIME": A.mod("datetime").datetime, "DURATION": A.mod("datetime").timedelta, "BOOLEAN": bool, "FLOAT": float}[t]) and A.isinstance(b, A.mod("datetime").datetime) == (t == "DATE-TIME"), lambda: "%s is read as %s" % (t, A.show(b)))
            A.require(A.text_eq(b, a) if t == "TEXT" else A.eq(b, a), lambda: "%s is read as %s" % (A.show(a), A.show(b)))
    # types that aren't declared are refused
    for t, s in (("URI", "http://x"), ("TIME", "100000"), ("X-NEW", "a"), ("BINARY" if f != "some" else "FLOAT", "1"), ("", "1")):
        _, e = A.attempt(A.get(U.Mixed, "from_container"), comp(A, "X-MIXED", to_items(A, [(f.upper(), {"VALUE": [t]}, s)])))
        A.require(e is not None and A.is_exc(e, ValueError), lambda: "VALUE=%s is accepted for %s (got %s)" % (t, f, A.exc_name(e)))
    # and so are values of other types
    for bad in (object(), [], {}) + ((2.5,) if f != "rate" else (b"x",)):
        x = A.call(U.Mixed)
        A.set(x, f, [bad] if many else bad)
        _, e = A.attempt(A.get(x, "to_container"))
        A.require(e is not None and A.is_exc(e, ValueError), lambda: "%s is written for %s (got %s)" % (A.show(bad), f, A.exc_name(e)))


def half(A, k, rule, tags):
    """-> the properties both kinds of components have, and a check of what was read from them"""
    d, r = A.dt("d%d" % k, None, unit=S), A.dt("r%d" % k, None, unit=S)
    A.assume(d < r)
    w = A.text("w%d" % k)
    st = lambda x: x.strftime("%Y%m%dT%H%M%S")
    ls = [("DTSTART", {}, st(d)), ("DURATION", {}, "PT1H%dS" % (k + 1))] + ([("RRULE", {}, ["FREQ=DAILY", "FREQ=WEEKLY"][k % 2])] if rule else []) + [("RDATE", {}, st(x)) for x in (d, r)] + [("LABEL", {}, w)] + [("TAGS", {}, "%d%d" % (k, j)) for j in range(tags)]
    def check(o, what):
        A.must_eq(A.get(A.get(o, "span"), "begin_time"), d, what + ": begin")
        A.require(A.eq(A.call(A.get(A.get(o, "span"), "get_effective_duration")), A.td_of(hours=1, seconds=k + 1)), what + ": duration")
        rec = A.get(o, "rec")
        A.require([A.get(x, "_freq") for x in A.get(rec, "_rrule")] == ([[3, 2][k % 2]] if rule else []), what + ": rules")
        got = list(A.get(rec, "_rdate"))
        A.require(len(got) == 2 and A.eq(got[0], d) and A.eq(got[1], r), lambda: "%s: dates %s" % (what, A.show(got)))
        A.same_text(A.get(o, "label"), w, what + ": label")
        A.require(A.get(o, "tags") == ["%d%d" % (k, j) for j in range(tags)], what + ": tags")
    return ls, check


def nested(A, n, at, prio, order):
    """nested components with the same properties as the outer one"""
    U = user(A, prio)
    outer, check = half(A, 0, n != 2, 2)
    inner = [half(A, k + 1, k != 1, 2 - k) for k in range(n)]
    part = [("X-PART", [("LABEL", {}, "p"), ("SIZE", {}, "4")])]
    slots = [("X-SLOT", ls + part if k == 0 else ls) for k, (ls, _) in enumerate(inner)]
    rev = (lambda x: x[::-1]) if order == "reversed" else (lambda x: x)
    src = rev(outer)
    i = {"front": 0, "middle": 2, "back": len(src)}[at]
    items = src[:i] + [(m, rev(ls)) for m, ls in slots] + src[i:]
    if order == "reversed":
        items = [(l[0], l[1][:-1] + l[1][-1:]) if isinstance(l[1], list) else l for l in items]
    c = comp(A, "X-TABLE", to_items(A, items))
    before = observe(A, c)
    x = A.call(A.get(U.Table, "from_container"), c)
    unchanged(A, before, c, "reading changes what is read")
    rest = [l for l in outer if l[0] != "TAGS"], [l for l in outer if l[0] == "TAGS"]
    want = {-1: outer + slots, 0: rest[0] + slots + rest[1], 5: rest[0][:2] + slots + rest[0][2:] + rest[1]}[prio]
    if prio == 5:
        want = outer[:2] + slots + outer[2:]
    for _ in range(2):
        if order == "reversed":
            # the order of repeated lines is that of the lines read
            A.require(A.get(x, "tags") == ["01", "00"], "tags")
            A.set(x, "tags", ["00", "01"])
            for o, k in zip(A.get(x, "slots"), range(n)):
                A.set(o, "tags", ["%d%d" % (k + 1, j) for j in range(2 - k)])
            order = "given"
        check(x, "the outer one")
        os = A.get(x, "slots")
        A.require(len(os) == n, "number of nested ones")
        for o, (_, ck), k in zip(os, inner, range(n)):
            ck(o, "nested %d" % k)
            p = A.get(o, "part")
            A.require((p is not None) == (k == 0), "part")
            if p is not None:
                A.require(A.get(p, "label") == "p" and A.get(p, "SIZE") == 4, "part")
        before = observe(A, x)
        c = A.call(A.get(x, "to_container"))
        unchanged(A, before, x, "writing changes the object")
        same(A, lines(A, c), want, "written")
        x = A.call(A.get(U.Table, "from_container"), c)


def optional(A, mask):
    """attributes of any kind without a value"""
    U = user(A)
    w = A.text("w")
    d = A.dt("d", None, unit=S)
    t = d.strftime("%Y%m%dT%H%M%S")
    src = [[("TAGS", {}, w), ("TAGS", {}, "x")], [("X-PART", [("LABEL", {}, w)])], [("DTSTART", {}, t), ("RRULE", {}, "FREQ=DAILY"), ("RDATE", {}, t)], [("X-CORE", [("LABEL", {}, w)])], [("LABEL", {}, w)]]
    want = [l for k, ls in enumerate(src) if mask & 1 << k for l in ls]
    x = A.call(A.get(U.Bare, "from_container"), comp(A, "X-BARE", to_items(A, want if A.flag("in order") else want[::-1] if not mask & 1 else want[2:][::-1] + want[:2])))
    for _ in range(2):
        for k, f in enumerate(("tags", "parts", "rec", "part", "label")):
            v = A.get(x, f)
            A.require((v is not None) == bool(mask & 1 << k), lambda: "%s is %s" % (f, A.show(v)))
        before = observe(A, x)
        c = A.call(A.get(x, "to_container"))
        unchanged(A, before, x, "writing changes the object")
        same(A, lines(A, c), want, "written")
        x = A.call(A.get(U.Bare, "from_container"), c)
    # two of them don't share what was created when reading
    y = A.call(A.get(U.Bare, "from_container"), c)
    for f in ("tags", "parts", "rec"):
        A.require(A.get(x, f) is None or A.get(x, f) is not A.get(y, f), "%s is shared" % f)
    z = A.call(U.Free)
    if mask & 1:
        A.set(z, "span", A.call(A.ics.EventTimespan, d))
    same(A, lines(A, A.call(A.get(z, "to_container"))), [("DTSTART", {}, t)] if mask & 1 else [], "written")


def failing(A, where, kind):
    """one context for several components, of which some are refused"""
    U = user(A)
    ctx = A.call(A.mod("collections").defaultdict, lambda: None)
    A.call(A.get(A.ics.Timezone, "from_container"), comp(A, "VTIMEZONE", to_items(A, [("TZID", {}, "z"), ("STANDARD", [("TZOFFSETFROM", {}, "+0000"), ("TZOFFSETTO", {}, "+0100"), ("DTSTART", {}, "20000101T000000")])])), ctx)
    good, check = half(A, 1, True, 2)
    ok = comp(A, "X-TABLE", to_items(A, good))
    bad = {"value": [("LABEL", {}, "a"), ("TAGS", {}, "t"), ("DTSTART", {}, "2020")], "twice": [("LABEL", {}, "a"), ("LABEL", {}, "b")], "rule": [("DTSTART", {}, "20200101T000000"), ("DURATION", {}, "PT1H"), ("RRULE", {}, "FREQ=NO")], "span": [("DURATION", {}, "PT1H"), ("RDATE", {}, "20200101T000000")]}[kind]
    f = A.get(U.Table, "from_container")
    items = to_items(A, bad if where == "outer" else [("LABEL", {}, "o"), ("DTSTART", {}, "20210101T000000"), ("TAGS", {}, "o"), ("X-SLOT", bad)])
    c = comp(A, "X-TABLE", items)
    for _ in range(2):
        _, e = A.attempt(f, c, ctx)
        A.require(e is not None and A.is_exc(e, ValueError), lambda: "a malformed component is accepted (got %s)" % A.exc_name(e))
        check(A.call(f, ok, ctx), "read afterwards")
    # writing
    x = A.call(f, ok, ctx)
    want = lines(A, A.call(A.get(x, "to_container")))
    y = A.call(f, ok)
    if where == "outer":
        A.set(y, "label", 5)
    else:
        s = A.call(U.Slot)
        A.set(s, "span", A.call(A.ics.EventTimespan, A.dt("q", None, unit=S)))
        A.set(s, "label", 5)
        A.call(A.get(A.get(y, "slots"), "append"), s)
    for _ in range(2):
        _, e = A.attempt(A.get(y, "to_container"), ctx)
        A.require(e is not None and A.is_exc(e, ValueError), lambda: "a wrong value is written (got %s)" % A.exc_name(e))
        same(A, lines(A, A.call(A.get(x, "to_container"), ctx)), want, "written afterwards")


REFUSED = {
    "untyped": "x = attr.ib(default=None)", "object": "x: Optional[object] = attr.ib(default=None)", "list of objects": "x: List[object] = attr.ib(factory=list)",
    "nested list": "x: List[List[str]] = attr.ib(factory=list)", "unregistered component": "x: Optional[Other] = attr.ib(default=None)", "union": "x: Union[str, object] = attr.ib(default=None)",
}
ACCEPTED = {"ignored untyped": 'x = attr.ib(default=None, metadata={"ics_ignore": True})', "not init": "x = attr.ib(default=None, init=False)", "ignored object": 'x: object = attr.ib(default=None, metadata={"ics_ignore": True})'}


def priorities(A, kind, k):
    """explicit priorities, zero included, over those of the kind of attribute"""
    U = user(A)
    w = A.text("w")
    b = A.dt("b", A.utc, unit=S)
    t = b.strftime("%Y%m%dT%H%M%SZ")
    on = [None, True, False][k]
    flag = [] if on is None else [("X-ON" if on else "X-OFF", {}, "!")]
    if kind == "Shift":
        x = A.call(U.Shift, on, A.call(A.ics.EventTimespan, b, None, A.td_of(hours=1)), w, w + "b", w + "l")
        want = [("BEFORE", {}, w + "b")] + flag + [("DTSTART", {}, t), ("DURATION", {}, "PT1H"), ("AFTER", {}, w), ("LAST", {}, w + "l")]
    else:
        x = A.call(U.Default, w, on, A.call(A.ics.TodoTimespan, None, b), w + "f")
        want = [("FIRST", {}, w + "f"), ("DUE", {}, t)] + flag + [("BEFORE", {}, w)]
    same(A, lines(A, A.call(A.get(x, "to_container"))), want, "written")
    again(A, x, want)


def registration(A, kind):
    src = """
from typing import List, Optional, Union
import attr
from ics.component import Component
from ics.converter.component import ComponentMeta

@attr.s
class Other(Component):
    NAME = "X-O"

@attr.s
class C(Component):
    NAME = "X-C"
    %s

def register():
    ComponentMeta.BY_TYPE[C] = ComponentMeta(C)
"""
    M = A.module("registering_" + kind.replace(" ", "_"), src % (REFUSED[kind] if kind in REFUSED else ACCEPTED[kind]))
    _, e = A.attempt(M.register)
    if kind in REFUSED:
        A.require(e is not None and A.is_exc(e, Exception), lambda: "a class with an attribute that can't be converted is registered")
        return
    A.require(e is None, lambda: "a class is refused: %s" % A.exc_name(e))
    w = A.text("w")
    x = A.call(A.get(M.C, "from_container"), comp(A, "X-C", to_items(A, [("X", {}, w)])))
    A.require(A.get(x, "x") is None, "an ignored attribute is read")
    same(A, lines(A, A.call(A.get(x, "to_container"))), [("X", {}, w)], "written")


def scenarios(tier):
    out = []
    fs = [f for f, _, _ in FIELDS]
    n = {"tags": 4, "moments": 6, "parts": 4, "moment": 3, "typed": 2, "flag": 2, "core": 2}
    out.append(Scenario("written nothing", written, (None, 0, None, 0)))
    for k, f in enumerate(fs):
        for i in range(n.get(f, 1)):
            if f == "moment" and i == 0 and False:
                continue
            out.append(Scenario("written %s %d" % (f, i), written, (f, i, None, 0)))
            for g in (fs[k + 1:] if tier == "thorough" or i == n.get(f, 1) - 1 else []):
                for j in (range(n.get(g, 1)) if tier == "thorough" else [n.get(g, 1) - 1]):
                    out.append(Scenario("written %s %d %s %d" % (f, i, g, j), written, (f, i, g, j)))
    orders = [[], fs, fs[::-1]] + [fs[k:] + fs[:k] for k in (3, 5, 8)] + [[f] for f in fs]
    for o in orders:
        for j in ["none", "hidden", "computed", "python-name", "comp", "extra"]:
            out.append(Scenario("read %s %s" % ("+".join(o), j), read, (o, j)))
    out += [Scenario("single %s" % f, single, (f,)) for f in fs if f not in ("tags", "moments", "flag", "parts", "core")]
    out += [Scenario("params %s" % f, params, (f,)) for f in ("_note", "renamed", "shown", "tags")]
    out += [Scenario("required %s" % k, required, (k,)) for k in ("strict", "frozen")]
    out += [Scenario("priorities %s %d" % (c, k), priorities, (c, k)) for c in ("Shift", "Default") for k in range(3)]
    for f, ts in MIXED.items():
        out += [Scenario("mixed %s %s" % (f, t), mixed, (f, [t])) for t in ts]
    out += [Scenario("mixed many %s" % "+".join(ts), mixed, ("many", ts)) for ts in ([], MIXED["many"], MIXED["many"][::-1], ["BOOLEAN", "INTEGER", "BOOLEAN"])]
    for n in (1, 2, 3) if tier == "thorough" else (1, 2):
        for at in ("front", "middle", "back"):
            for prio in (-1, 0, 5):
                for order in ("given", "reversed"):
                    out.append(Scenario("nested %d %s %d %s" % (n, at, prio, order), nested, (n, at, prio, order)))
    out += [Scenario("optional %d" % m, optional, (m,)) for m in range(32)]
    out += [Scenario("failing %s %s" % (w, k), failing, (w, k)) for w in ("outer", "inner") for k in ("value", "twice", "rule", "span")]
    for frozen in (False, True):
        for m in [0, 255] + [1 << i for i in range(8)] + [255 - (1 << i) for i in range(8)]:
            for order in ("declared", "reversed"):
                out.append(Scenario("odd %s %d %s" % (frozen, m, order), odd, (frozen, m, order)))
    out += [Scenario("joined", joined, ()), Scenario("names", names, ()), Scenario("event", event, ())]
    out += [Scenario("registering %s" % k, registration, (k,)) for k in list(REFUSED) + list(ACCEPTED)]
    return out
