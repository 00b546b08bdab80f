"""A container holds content lines and containers only: every list operation does to it what it does to a list of such items, anything
else is refused without effect; looking up and deleting by name concern exactly the direct items of that name; slices and clones are
containers of their own."""
from .common import *

GEN = """
def gen(xs):
    for x in xs:
        yield x

def failing(xs):
    for x in xs:
        yield x
    raise KeyError("broken")
"""


def items(A, n=3):
    """some lines and nested containers"""
    C, L = A.ics.Container, A.ics.ContentLine
    w = A.text("w")
    inner = A.call(C, "VALARM", [A.call(L, "X", {}, w)])
    return [A.call(L, "A", {"P": [w]}, w), inner, A.call(L, "A", {}, "v"), A.call(L, "B", {}, w), A.call(C, "A"), A.call(L, "B", {"Q": ["1", w]}, "")][:n]


def new(A, k):
    return [A.call(A.ics.ContentLine, "N%d" % i, {}, A.text("n%d" % i)) if i % 2 == 0 else A.call(A.ics.Container, "NC%d" % i) for i in range(k)]


def bad(A, k):
    return [None, "A:b", A.text("bad"), 5, [A.call(A.ics.ContentLine, "A")], A.call(A.ics.Event, uid="u", dtstamp=A.dt("st", A.utc, unit=S)), {}, b"x"][k]


NBAD = 8


def holds(A, c, want, msg):
    got = list(A.iter(c))
    A.require(len(got) == len(want) and all(x is y for x, y in zip(got, want)), lambda: "%s: the items are %s instead of %s" % (msg, A.show(got), A.show(want)))
    A.require(A.call(A.get(c, "__len__")) == len(want), lambda: "%s: the length" % msg)


def py(f):
    try:
        return f(), None
    except (IndexError, ValueError, TypeError, KeyError) as e:
        return None, type(e).__name__


OPS = ["append", "insert", "extend", "iadd", "setitem", "setslice", "setext", "delitem", "delslice", "pop", "popi", "remove", "clear", "reverse", "delname", "selfextend", "setself"]


def operate(A, c, model, op, ni=None):
    """one operation on the container and on the list"""
    n = len(model)
    I = lambda: A.choose([0, 1, -1, n - 1, n, -n, -n - 1, 7], "index")
    S_ = lambda: A.choose([slice(0, 0), slice(0, 2), slice(1, None), slice(None), slice(-1, None), slice(5, 9), slice(2, 0)], "slice")
    X = lambda: A.choose([slice(None, None, 2), slice(None, None, -1), slice(1, None, 2)], "extended slice")
    call = lambda name, *a: A.attempt(A.get(c, name), *a)
    if op == "append":
        v = new(A, 1)[0]
        r, e = call("append", v)
        w = py(lambda: model.append(v))
    elif op == "insert":
        i, v = I(), new(A, 2)[A.choose([0, 1])]
        r, e = call("insert", i, v)
        w = py(lambda: model.insert(i, v))
    elif op in ("extend", "iadd"):
        vs = new(A, A.choose([0, 1, 2, 3], "number"))
        form = A.choose(["list", "tuple", "gen", "container"])
        arg = {"list": lambda: list(vs), "tuple": lambda: tuple(vs), "gen": lambda: A.call(A.module("gens", GEN).gen, vs), "container": lambda: A.call(A.ics.Container, "O", vs)}[form]()
        if op == "iadd":
            r, e = call("__iadd__", arg)
            A.require(e is not None or r is c, "+= gives another object")
            r = None
        else:
            r, e = call("extend", arg)
        w = py(lambda: model.extend(vs))
    elif op == "selfextend":
        r, e = call("extend", c)
        w = py(lambda: model.extend(list(model)))
    elif op == "setself":
        s = S_()
        r, e = call("__setitem__", s, c)
        w = py(lambda: model.__setitem__(s, list(model)))
    elif op == "setitem":
        i, v = I(), new(A, 1)[0]
        r, e = call("__setitem__", i, v)
        w = py(lambda: model.__setitem__(i, v))
    elif op == "setslice":
        s, vs = S_(), new(A, A.choose([0, 1, 3], "number"))
        gen = A.flag("generator")
        r, e = call("__setitem__", s, A.call(A.module("gens", GEN).gen, vs) if gen else list(vs))
        w = py(lambda: model.__setitem__(s, vs))
    elif op == "setext":
        s = X()
        vs = new(A, A.choose([0, 1, 2, 3], "number"))
        r, e = call("__setitem__", s, vs)
        w = py(lambda: model.__setitem__(s, list(vs)))
    elif op == "delitem":
        i = I()
        r, e = call("__delitem__", i)
        w = py(lambda: model.__delitem__(i))
    elif op == "delslice":
        s = A.choose([slice(0, 2), slice(None), slice(None, None, 2), slice(-1, None), slice(4, 9)], "slice")
        r, e = call("__delitem__", s)
        w = py(lambda: model.__delitem__(s))
    elif op == "delname":
        nm = A.choose(["A", "B", "VALARM", "X", "NONE", "P"])
        r, e = call("__delitem__", nm)
        keep = [x for x in model if A.get(x, "name") != nm]
        model[:] = keep
        w = (None, None)
    elif op == "pop":
        r, e = call("pop")
        w = py(lambda: model.pop())
    elif op == "popi":
        i = I()
        r, e = call("pop", i)
        w = py(lambda: model.pop(i))
    elif op == "remove":
        k = A.choose(list(range(n)) + [-1], "item")
        v = model[k] if k >= 0 else A.call(A.ics.ContentLine, "NOWHERE")
        r, e = call("remove", v)
        w = (None, "ValueError") if k < 0 else (None, None)
        if k >= 0:
            k = next(i for i, x in enumerate(model) if A.eq(x, v))
            del model[k]
    elif op in ("clear", "reverse"):
        r, e = call(op)
        w = py(getattr(model, op))
    A.require((e is None) == (w[1] is None), lambda: "%s %s" % (op, "is refused with " + A.exc_name(e) if e is not None else "is accepted, a list raises " + w[1]))
    if e is not None:
        A.require(A.exc_name(e).split(":")[0] == w[1], lambda: "%s raises %s, a list %s" % (op, A.exc_name(e), w[1]))
    else:
        A.require(r is w[0], lambda: "%s gives %s" % (op, A.show(r)))
    holds(A, c, model, "after " + op)


def ops(A, *names):
    model = items(A, A.choose([0, 1, 3, 6], "items") if len(names) == 1 else 4)
    c = A.call(A.ics.Container, "VEVENT", list(model))
    for op in names:
        operate(A, c, model, op)
    A.require(A.get(c, "name") == "VEVENT", "the name changed")


def reject(A, op):
    """items that are none"""
    model = items(A)
    c = A.call(A.ics.Container, "VEVENT", list(model))
    b = bad(A, A.choose(range(NBAD), "bad"))
    good = new(A, 3)
    many = A.choose([[b], good + [b], [b] + good, good[:1] + [b] + good[1:], [b, b]], "place")
    gen = A.module("gens", GEN)
    if op == "append":
        r = A.attempt(A.get(c, "append"), b)
    elif op == "insert":
        r = A.attempt(A.get(c, "insert"), A.choose([0, 1, 9]), b)
    elif op == "extend":
        r = A.attempt(A.get(c, "extend"), many)
    elif op == "extendgen":
        r = A.attempt(A.get(c, "extend"), A.call(gen.gen, many))
    elif op == "iadd":
        r = A.attempt(A.get(c, "__iadd__"), many)
    elif op == "setitem":
        r = A.attempt(A.get(c, "__setitem__"), A.choose([0, -1, 2]), b)
    elif op == "setlist":
        r = A.attempt(A.get(c, "__setitem__"), 0, good[:1])
    elif op == "setslice":
        r = A.attempt(A.get(c, "__setitem__"), A.choose([slice(0, 1), slice(None), slice(3, 3)]), many)
    elif op == "setslicegen":
        r = A.attempt(A.get(c, "__setitem__"), A.choose([slice(0, 1), slice(None)]), A.call(gen.gen, many))
    elif op == "setext":
        r = A.attempt(A.get(c, "__setitem__"), slice(None, None, -1), [good[0], b, good[1]])
    elif op == "new":
        r = A.attempt(A.ics.Container, "VEVENT", many)
    elif op == "clone":
        r = A.attempt(A.get(c, "clone"), many)
    elif op == "noiter":
        f = A.choose(["extend", "__iadd__", "set", "new"])
        r = A.attempt(A.get(c, f), 5) if f[0] != "s" and f != "new" else A.attempt(A.get(c, "__setitem__"), slice(0, 1), 5) if f == "set" else A.attempt(A.ics.Container, "X", 5)
    else:
        r = None
    A.require(r[1] is not None, lambda: "%s accepts %s" % (op, A.show(b)))
    A.require(A.is_exc(r[1], TypeError) or op == "extend" and A.is_exc(r[1], TypeError), lambda: "%s refuses %s with %s" % (op, A.show(b), A.exc_name(r[1])))
    holds(A, c, model, "after the refused %s" % op)


def broken(A, op):
    """an iterable that fails midway"""
    model = items(A)
    c = A.call(A.ics.Container, "VEVENT", list(model))
    g = A.call(A.module("gens", GEN).failing, new(A, A.choose([0, 1, 3])))
    if op == "extend":
        r = A.attempt(A.get(c, "extend"), g)
    elif op == "iadd":
        r = A.attempt(A.get(c, "__iadd__"), g)
    else:
        r = A.attempt(A.get(c, "__setitem__"), A.choose([slice(0, 2), slice(None), slice(None, None, 2)]), g)
    A.require(r[1] is not None and A.is_exc(r[1], KeyError), "the failure is lost")
    holds(A, c, model, "after the failed %s" % op)


def look(A, n):
    """read access"""
    model = items(A, n)
    c = A.call(A.ics.Container, "VEVENT", list(model))
    for nm in ("A", "B", "VALARM", "X", "NONE"):
        g = A.call(A.get(c, "__getitem__"), nm)
        want = [x for x in model if A.get(x, "name") == nm]
        A.require(isinstance(g, tuple) and len(g) == len(want) and all(x is y for x, y in zip(g, want)), lambda: "items named %s: %s" % (nm, A.show(g)))
    for i in (0, 1, -1, n - 1, n, -n - 1):
        g, e = A.attempt(A.get(c, "__getitem__"), i)
        if -n <= i < n:
            A.require(e is None and g is model[i], lambda: "item %d" % i)
        else:
            A.require(e is not None and A.is_exc(e, IndexError), lambda: "item %d of %d" % (i, n))
    for s in (slice(None), slice(1, 3), slice(None, None, -1), slice(None, None, 2), slice(4, 1), slice(-2, None)):
        g = A.call(A.get(c, "__getitem__"), s)
        A.require(A.isinstance(g, A.ics.Container) and A.get(g, "name") == "VEVENT", "a slice is no container of that name")
        holds(A, g, model[s], "slice")
        A.call(A.get(g, "append"), new(A, 1)[0])
        A.call(A.get(g, "reverse"))
        holds(A, c, model, "after changing a slice")
    for k, x in enumerate(model):
        A.require(A.call(A.get(c, "__contains__"), x) is True, "an item is not contained")
        first = next(i for i, y in enumerate(model) if A.eq(y, x))
        A.require(A.call(A.get(c, "index"), x) == first, "index")
        A.require(A.call(A.get(c, "count"), x) == sum(1 for y in model if A.eq(y, x)), "count")
    o = A.call(A.ics.ContentLine, "NOWHERE", {}, A.text("w"))
    A.require(A.call(A.get(c, "__contains__"), o) is False and A.call(A.get(c, "count"), o) == 0, "a foreign line is contained")
    A.raises(A.get(c, "index"), o, _msg="a foreign line has an index", _exc=ValueError)
    rev = list(A.iter(A.call(A.get(c, "__reversed__"))))
    A.require(len(rev) == n and all(x is y for x, y in zip(rev, model[::-1])), "reversed order")
    holds(A, c, model, "after reading")


def clones(A, n, deep):
    model = items(A, n)
    c = A.call(A.ics.Container, "VEVENT", list(model))
    before = observe(A, c)
    d = A.call(A.get(c, "clone"), deep=deep)
    A.require(A.eq(c, d) and d is not c, "the clone is not equal")
    A.require(same_state(A, observe(A, d), before), "the clone differs")
    if not deep:
        holds(A, d, model, "clone")
    else:
        def walk(o):
            for x in list(A.iter(o)):
                if A.isinstance(x, A.ics.Container):
                    walk(x)
                    A.call(A.get(x, "append"), new(A, 1)[0])
                else:
                    for k in list(A.get(x, "params")):
                        A.get(x, "params")[k].append("more")
                    A.call(A.get(x, "__setitem__"), "NEW", ["p"])
                    A.set(x, "value", "changed")
        walk(d)
    A.call(A.get(d, "append"), new(A, 1)[0])
    A.call(A.get(d, "__delitem__"), 0) if n else None
    unchanged(A, before, c, "changing the clone")
    sub = new(A, 2)
    e = A.call(A.get(c, "clone"), sub)
    A.require(A.get(e, "name") == "VEVENT", "name of the clone")
    holds(A, e, sub, "clone with other items")
    sub.append(new(A, 1)[0])
    holds(A, e, sub[:2], "clone after changing the list given")


def named(A):
    C, L = A.ics.Container, A.ics.ContentLine
    w = A.text("w")
    a, b = A.call(C, "vevent"), A.call(C, w)
    A.require(A.get(a, "name") == "VEVENT" and A.text_eq(A.get(b, "name"), upper(w)), "names are not upper case")
    A.call(A.get(a, "append"), new(A, 1)[0])
    holds(A, b, [], "another new container")
    A.raises(C, "", _msg="an empty name is accepted")
    A.raises(C, None, _msg="no name is accepted")
    A.require(not A.eq(a, b) and not A.eq(b, A.call(C, "OTHER")) and A.eq(A.call(C, "X", new(A, 2)), A.call(C, "X", new(A, 2))), "equality of containers")
    A.require(not A.eq(A.call(C, "X", new(A, 2)), A.call(C, "X", new(A, 2)[::-1])), "order doesn't matter for equality")
    xs = new(A, 2)
    d = A.call(C, "X", xs)
    xs.pop()
    A.require(A.call(A.get(d, "__len__")) == 2, "the list given is shared")


def line(A):
    L = A.ics.ContentLine
    w, p = A.text("w"), A.text("p")
    ps = {"P": [p], "Q": ["a", w]}
    x = A.call(L, "dtstart", ps, w, 5)
    A.require(A.get(x, "name") == "DTSTART" and A.text_eq(A.get(x, "value"), w), "name and value")
    A.require(A.text_eq(A.call(A.get(x, "__getitem__"), "P"), [p]), "parameter")
    A.raises(A.get(x, "__getitem__"), "NONE", _msg="a missing parameter is found", _exc=KeyError)
    y = A.call(A.get(x, "clone"))
    A.require(A.eq(x, y) and y is not x, "the clone is not equal")
    before = observe(A, x)
    vals = ["n", w]
    A.call(A.get(y, "__setitem__"), "P", vals)
    A.call(A.get(y, "__setitem__"), "N", A.call(A.module("gens", GEN).gen, [w]))
    A.get(y, "params")["Q"].append("z")
    vals.append("later")
    A.require(A.text_eq(A.get(y, "params"), {"P": ["n", w], "Q": ["a", w, "z"], "N": [w]}), lambda: "parameters are %s" % A.show(A.get(y, "params")))
    A.set(y, "name", "x-" + w)
    A.set(y, "value", "other")
    A.require(A.text_eq(A.get(y, "name"), "X-" + upper(w)), "an assigned name is not upper case")
    unchanged(A, before, x, "changing the clone")
    z = A.call(L, "DTSTART", {"P": [p], "Q": ["a", w]}, w, 9)
    A.require(A.eq(x, z), "the line number matters for equality")
    for o in (A.call(L, "DTEND", {"P": [p], "Q": ["a", w]}, w), A.call(L, "DTSTART", {"P": [p]}, w), A.call(L, "DTSTART", {"P": [p], "Q": ["a", w]}, w + "x"), A.call(L, "DTSTART", {"P": [p], "Q": [w, "a"]}, w)):
        A.require(not A.eq(x, o), lambda: "%s equals %s" % (A.show(x), A.show(o)))
    a, b = A.call(L, "A"), A.call(L, "A")
    A.call(A.get(a, "__setitem__"), "P", ["1"])
    A.require(len(A.get(b, "params")) == 0, "new lines share their parameters")


def scenarios(tier):
    out = [Scenario("op %s" % o, ops, (o,)) for o in OPS]
    out += [Scenario("reject %s" % o, reject, (o,)) for o in ("append", "insert", "extend", "extendgen", "iadd", "setitem", "setlist", "setslice", "setslicegen", "setext", "new", "clone", "noiter")]
    out += [Scenario("broken %s" % o, broken, (o,)) for o in ("extend", "iadd", "setslice")]
    out += [Scenario("look %d" % n, look, (n,)) for n in (0, 1, 3, 6)]
    out += [Scenario("clone %d %s" % (n, d), clones, (n, d)) for n in (0, 1, 3, 6) for d in (False, True)]
    out += [Scenario("names", named, ()), Scenario("line", line, ())]
    if tier == "thorough":
        out += [Scenario("op %s then %s" % (o, p), ops, (o, p)) for o in OPS for p in OPS]
    return out
