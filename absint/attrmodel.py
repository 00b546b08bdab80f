"""Abstract model of the ``attr`` package: which methods attr.s generates and what they do."""
import itertools
import types

from .core import BoundV, Cls, FuncV, MISSING, Obj, PropertyV
from .dom import CTX, AnalysisError

_counter = itertools.count()


class _Nothing:
    def __repr__(self):
        return "NOTHING"

    def __bool__(self):
        return False


NOTHING = _Nothing()


class Factory:
    def __init__(self, factory, takes_self=False):
        self.factory, self.takes_self = factory, takes_self

    def __eq__(self, o):
        return isinstance(o, Factory) and o.factory is self.factory and o.takes_self == self.takes_self

    def __hash__(self):
        return 31


def call(f, *a, **k):
    return CTX.interp.call(f, a, k)


class FrozenError(AttributeError):
    pass


class AttrsErr(ValueError):
    pass


class CountingAttr:
    def __init__(self, default, validator, repr_, eq, order, hash_, init, metadata, type_, converter, kw_only, alias):
        self.counter = next(_counter)
        self._default, self._validator, self.repr, self.eq, self.order, self.hash = default, validator, repr_, eq, order, hash_
        self.init, self.metadata, self.type, self.converter, self.kw_only, self.alias = init, metadata, type_, converter, kw_only, alias

    def validator(self, meth):
        self._validator = meth if self._validator is None else and_(self._validator, meth)
        return meth

    def default(self, meth):
        if self._default is not NOTHING:
            raise AttrsErr("default already set")
        self._default = Factory(meth, takes_self=True)
        return meth


_SLOTS = ("name", "default", "validator", "repr", "eq", "eq_key", "order", "order_key", "hash", "init", "metadata", "type", "converter", "kw_only", "alias", "on_setattr")


class Attribute:
    def __init__(self, **kw):
        d = self.__dict__
        for s in _SLOTS + ("inherited",):
            d[s] = kw.get(s)
        d["inherited"] = kw.get("inherited", False)

    def __setattr__(self, n, v):
        raise FrozenError("can't set attribute")

    __delattr__ = lambda self, n: self.__setattr__(n, None)

    def evolve(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Attribute(**d)

    def __eq__(self, o):
        if not isinstance(o, Attribute):
            return NotImplemented
        return all(a is b or CTX.interp.truth(CTX.interp.eq(a, b)) for a, b in ((self.__dict__[s], o.__dict__[s]) for s in _SLOTS))

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Attribute(name=%r)" % self.name


def attrib(default=NOTHING, validator=None, repr=True, cmp=None, hash=None, init=True, metadata=None, type=None, converter=None, factory=None, kw_only=False, eq=None, order=None, on_setattr=None, alias=None):
    if factory is not None:
        if default is not NOTHING:
            raise ValueError("The `default` and `factory` arguments are mutually exclusive.")
        default = Factory(factory)
    if isinstance(validator, (list, tuple)):
        validator = and_(*validator)
    if isinstance(converter, (list, tuple)):
        converter = pipe(*converter)
    if cmp is not None:
        eq = order = cmp
    eqk = None
    if eq is None:
        eq = True
    elif not isinstance(eq, bool):
        eqk, eq = eq, True
    if order is None:
        order = eq
    r = CountingAttr(default, validator, repr, eq, order, hash, init, dict(metadata or {}), type, converter, kw_only, alias)
    r.eqk = eqk
    return r


class Fields(tuple):
    def __getattr__(self, n):
        for a in self:
            if a.name == n:
                return a
        raise AttributeError(n)


def _mk(name, ca, ann):
    t = ca.type
    if t is None:
        t = ann
    return Attribute(name=name, default=ca._default, validator=ca._validator, repr=ca.repr, eq=ca.eq, eq_key=getattr(ca, "eqk", None), order=ca.order, order_key=None,
                     hash=ca.hash, init=ca.init, metadata=types.MappingProxyType(ca.metadata), type=t, converter=ca.converter, kw_only=ca.kw_only,
                     alias=ca.alias or name.lstrip("_"), on_setattr=None, inherited=False)


def attr_s(maybe_cls=None, these=None, repr_ns=None, repr=None, cmp=None, hash=None, init=None, slots=False, frozen=False, weakref_slot=True, str=False, auto_attribs=False,
           kw_only=False, cache_hash=False, auto_exc=False, eq=None, order=None, auto_detect=False, collect_by_mro=False, getstate_setstate=None, on_setattr=None,
           field_transformer=None, match_args=True, unsafe_hash=None, _define=False):
    if unsafe_hash is not None:
        hash = unsafe_hash
    if cmp is not None:
        eq = order = cmp
    opts = dict(these=these, repr=repr, hash=hash, init=init, frozen=frozen, str=str, auto_attribs=auto_attribs, kw_only=kw_only, auto_exc=auto_exc, eq=eq, order=order,
                auto_detect=auto_detect, collect_by_mro=collect_by_mro, define=_define, slots=slots)

    def wrap(cls):
        return build(cls, opts)
    return wrap if maybe_cls is None else wrap(maybe_cls)


def define(maybe_cls=None, *, frozen=False, slots=True, order=False, auto_attribs=None, auto_exc=True, auto_detect=True, **kw):
    def wrap(cls):
        aa = auto_attribs
        if aa is None:
            own = [v for v in cls.ns.values() if isinstance(v, CountingAttr)]
            anns = cls.ns.get("__annotations__", {})
            aa = all(n in anns for n, v in cls.ns.items() if isinstance(v, CountingAttr)) if own else True
        return attr_s(cls, frozen=frozen, slots=slots, order=order, auto_attribs=aa, auto_exc=auto_exc, auto_detect=auto_detect, collect_by_mro=True, _define=not frozen, **kw)
    return wrap if maybe_cls is None else wrap(maybe_cls)


def _is_classvar(t):
    n = getattr(t, "origin", t)
    return getattr(n, "name", None) == "ClassVar" or (isinstance(t, str_) and "ClassVar" in t)


str_ = str


def build(cls, o):
    ip = CTX.interp
    ns = cls.ns
    anns = ns.get("__annotations__", {})
    cas = []
    if o["these"] is not None:
        cas = list(o["these"].items())
    elif o["auto_attribs"]:
        for n, t in anns.items():
            if _is_classvar(t):
                continue
            v = ns.get(n, NOTHING)
            if not isinstance(v, CountingAttr):
                v = attrib() if v is NOTHING else attrib(default=v)
            cas.append((n, v))
    else:
        cas = sorted(((n, v) for n, v in ns.items() if isinstance(v, CountingAttr)), key=lambda t: t[1].counter)
    for n, v in cas:
        if isinstance(ns.get(n), CountingAttr):
            del ns[n]
        elif o["auto_attribs"] and n in ns and o["slots"]:
            del ns[n]
    own = [_mk(n, v, anns.get(n)) for n, v in cas]
    taken = {a.name for a in own}
    base = []
    if o["collect_by_mro"]:
        for b in reversed(cls.mro[1:]):
            if isinstance(b, Cls):
                for a in b.ns.get("__attrs_attrs__", ()):
                    if a.inherited or a.name in taken:
                        continue
                    base.append(a.evolve(inherited=True))
        filtered, seen = [], set()
        for a in reversed(base):
            if a.name in seen:
                continue
            filtered.insert(0, a)
            seen.add(a.name)
        base = filtered
    else:
        for b in cls.mro[1:]:
            if isinstance(b, Cls):
                aa = ip.lookup(b, "__attrs_attrs__")
                if aa is MISSING:
                    continue
                for a in aa:
                    if a.name in taken:
                        continue
                    taken.add(a.name)
                    base.append(a.evolve(inherited=True))
    if o["kw_only"]:
        own = [a.evolve(kw_only=True) for a in own]
        base = [a.evolve(kw_only=True) for a in base]
    attrs = Fields(base + own)
    had_default = False
    for a in attrs:
        if a.init is False or a.kw_only:
            continue
        if had_default and a.default is NOTHING:
            raise ValueError("No mandatory attributes allowed after an attribute with a default value or factory.  Attribute in question: %r" % a)
        if not had_default and a.default is not NOTHING:
            had_default = True
    ns["__attrs_attrs__"] = attrs
    frozen = o["frozen"] or any(isinstance(b, Cls) and b.ns.get("__ai_frozen__") for b in cls.mro[1:])
    is_exc = o["auto_exc"] and any(b is BaseException for b in cls.mro)
    ns["__ai_frozen__"] = frozen
    auto = o["auto_detect"]

    def want(flag, *names):
        if flag is not None:
            return flag
        if auto and any(n in ns and not getattr(ns[n], "_ai_attrgen", False) for n in names):
            return False
        return True

    def put(name, f):
        f._ai_attrgen = True
        ns[name] = f

    if want(o["repr"], "__repr__"):
        put("__repr__", lambda self: _repr(self, attrs))
    if o["str"]:
        put("__str__", lambda self: _repr(self, attrs))
    if frozen:
        def _fs(self, name, value):
            if is_exc and name in ("__cause__", "__context__", "__traceback__", "__suppress_context__", "__notes__"):
                self._d[name] = value
                return
            raise make_frozen(name)

        def _fd(self, name):
            raise make_frozen(name)
        put("__setattr__", _fs)
        put("__delattr__", _fd)
    elif o["define"]:
        def _ds(self, name, value):
            for a in attrs:
                if a.name == name:
                    if a.converter is not None:
                        value = call(a.converter, value)
                    if a.validator is not None:
                        call(a.validator, self, a, value)
            CTX.interp.obj_setattr(self, name, value)
        if "__setattr__" not in ns:
            put("__setattr__", _ds)
    eq_ = want(o["eq"], "__eq__", "__ne__") and not (is_exc and True)
    if eq_:
        eqa = [a for a in attrs if a.eq]

        def _eq(self, other):
            if not isinstance(other, Obj) or other._c is not self._c:
                return NotImplemented
            for a in eqa:
                x, y = CTX.interp.getattr_(self, a.name), CTX.interp.getattr_(other, a.name)
                if a.eq_key is not None:
                    x, y = call(a.eq_key, x), call(a.eq_key, y)
                # tuple comparison: identity first
                if x is y:
                    continue
                if not CTX.interp.truth(CTX.interp.eq(x, y)):
                    return False
            return True

        def _ne(self, other):
            r = CTX.interp.call(CTX.interp.getattr_(self, "__eq__"), (other,), {})
            return NotImplemented if r is NotImplemented else not r
        put("__eq__", _eq)
        put("__ne__", _ne)
    order_ = o["order"] if o["order"] is not None else (o["eq"] if o["eq"] is not None else True)
    if order_ and not is_exc:
        oa = [a for a in attrs if a.order]

        def mkord(op):
            def _ord(self, other):
                if not isinstance(other, Obj) or other._c is not self._c:
                    return NotImplemented
                for a in oa:
                    x, y = CTX.interp.getattr_(self, a.name), CTX.interp.getattr_(other, a.name)
                    if x is y or CTX.interp.truth(CTX.interp.eq(x, y)):
                        continue
                    return CTX.interp.rich(x, y, op)
                return op in ("__le__", "__ge__")
            return _ord
        for op in ("__lt__", "__le__", "__gt__", "__ge__"):
            if not (auto and op in ns):
                put(op, mkord(op))
    h = o["hash"]
    if h is None and auto and "__hash__" in ns and ns["__hash__"] is not None:
        h = False
    if h is True or (h is None and eq_ and frozen and not is_exc):
        ha = [a for a in attrs if a.hash is True or (a.hash is None and a.eq)]

        def _hash(self):
            r = 1
            for a in ha:
                r = (r * 31 + CTX.interp.hash_(CTX.interp.getattr_(self, a.name))) & 0xFFFFFFFF
            return r
        put("__hash__", _hash)
    elif h is None and eq_ and not is_exc:
        ns["__hash__"] = None
    elif h is False or is_exc:
        if ns.get("__hash__", 0) is None and h is False:
            pass
    if want(o["init"], "__init__"):
        put("__init__", mkinit(cls, attrs, frozen, is_exc))
    else:
        put("__attrs_init__", mkinit(cls, attrs, frozen, is_exc))
    if "__match_args__" not in ns:
        ns["__match_args__"] = tuple(a.name for a in attrs if a.init and not a.kw_only)
    return cls


def make_frozen(name):
    return FrozenError("can't set attribute")


def _repr(self, attrs):
    ip = CTX.interp
    parts = []
    for a in attrs:
        if a.repr is False:
            continue
        v = self._d.get(a.name, NOTHING) if a.name in self._d else (ip.getattr_(self, a.name) if ip.hasattr_(self, a.name) else NOTHING)
        parts.append("%s=%s" % (a.name, ip.repr_(v)))
    return "%s(%s)" % (self._c.ns.get("__qualname__", self._c.name), ", ".join(parts))


def mkinit(cls, attrs, frozen, is_exc):
    eff = [a for a in attrs if a.init or a.default is not NOTHING]
    pos = [a for a in eff if a.init and not a.kw_only]
    kwo = {a.alias: a for a in eff if a.init and a.kw_only}
    names = {a.alias: a for a in pos}
    names.update(kwo)
    cname = cls.name

    def __init__(self, *args, **kw):
        ip = CTX.interp
        if len(args) > len(pos):
            raise TypeError("%s.__init__() takes %d positional arguments but %d were given" % (cname, len(pos) + 1, len(args) + 1))
        vals = {a.name: v for a, v in zip(pos, args)}
        for k, v in kw.items():
            a = names.get(k)
            if a is None:
                raise TypeError("%s.__init__() got an unexpected keyword argument %r" % (cname, k))
            if a.name in vals:
                raise TypeError("%s.__init__() got multiple values for argument %r" % (cname, k))
            vals[a.name] = v
        for a in names.values():
            if a.default is NOTHING and a.name not in vals:
                raise TypeError("%s.__init__() missing 1 required positional argument: %r" % (cname, a.alias))
        pre = ip.lookup(self._c, "__attrs_pre_init__")
        if pre is not MISSING:
            ip.call(ip.bind(pre, self, self._c), (), {})
        for a in eff:
            if a.name in vals and vals[a.name] is not NOTHING:
                v = vals[a.name]
            elif isinstance(a.default, Factory):
                v = ip.call(a.default.factory, (self,) if a.default.takes_self else (), {})
            else:
                v = a.default
            if a.converter is not None:
                v = ip.call(a.converter, (v,), {})
            if frozen:
                ip.obj_setattr(self, a.name, v)
            else:
                s = ip.lookup(self._c, "__setattr__")
                if getattr(s, "_ai_attrgen", False):
                    ip.obj_setattr(self, a.name, v)
                else:
                    ip.setattr_(self, a.name, v)
        if CONFIG["run_validators"]:
            for a in eff:
                if a.validator is not None:
                    ip.call(a.validator, (self, a, ip.getattr_(self, a.name)), {})
        post = ip.lookup(self._c, "__attrs_post_init__")
        if post is not MISSING:
            ip.call(ip.bind(post, self, self._c), (), {})
        if is_exc:
            self._d["args"] = tuple(ip.getattr_(self, a.name) for a in attrs if a.init)
    __init__._ai_bind = True
    return __init__


CONFIG = {"run_validators": True}


def fields(cls):
    if not isinstance(cls, Cls):
        o = getattr(cls, "origin", None)
        if isinstance(o, Cls):
            cls = o
        elif isinstance(cls, type):
            raise AttrsErr("%r is not an attrs-decorated class." % cls)
        else:
            raise TypeError("Passed object must be a class.")
    a = CTX.interp.lookup(cls, "__attrs_attrs__")
    if a is MISSING:
        raise AttrsErr("%r is not an attrs-decorated class." % cls)
    return a


def fields_dict(cls):
    return {a.name: a for a in fields(cls)}


def has(cls):
    return isinstance(cls, Cls) and CTX.interp.lookup(cls, "__attrs_attrs__") is not MISSING


def evolve(*args, **changes):
    inst = args[0] if args else changes.pop("inst")
    ip = CTX.interp
    for a in fields(inst._c):
        if not a.init:
            continue
        if a.alias not in changes:
            changes[a.alias] = ip.getattr_(inst, a.name)
    return ip.call(inst._c, (), changes)


def validate(inst):
    ip = CTX.interp
    for a in fields(inst._c):
        if a.validator is not None:
            ip.call(a.validator, (inst, a, ip.getattr_(inst, a.name)), {})


def asdict(inst, recurse=True, filter=None, dict_factory=dict, retain_collection_types=False, value_serializer=None):
    ip = CTX.interp
    out = {}
    for a in fields(inst._c):
        v = ip.getattr_(inst, a.name)
        if filter is not None and not ip.truth(ip.call(filter, (a, v), {})):
            continue
        if recurse:
            if isinstance(v, Obj) and has(v._c):
                v = asdict(v)
            elif isinstance(v, (list, tuple)):
                v = type(v)(asdict(x) if isinstance(x, Obj) and has(x._c) else x for x in v)
            elif isinstance(v, dict):
                v = {k: asdict(x) if isinstance(x, Obj) and has(x._c) else x for k, x in v.items()}
        out[a.name] = v
    return out


def astuple(inst, recurse=True, **k):
    return tuple(asdict(inst, recurse).values())


# ---- validators -----------------------------------------------------------
class V:
    _ai_validator = True


def instance_of(t):
    def v(inst, attr, value):
        if not CTX.interp.isinstance_(value, t):
            raise TypeError("'%s' must be %r (got %s that is a %r)." % (attr.name, t, CTX.interp.repr_(value), CTX.interp.type_of(value)), attr, t, value)
    return v


def and_(*vs):
    def v(inst, attr, value):
        for x in vs:
            call(x, inst, attr, value)
    return v


def v_optional(x):
    if isinstance(x, (list, tuple)):
        x = and_(*x)

    def v(inst, attr, value):
        if value is None:
            return
        call(x, inst, attr, value)
    return v


def in_(options):
    def v(inst, attr, value):
        try:
            ok = CTX.interp.contains(value, options)
        except TypeError:
            ok = False
        if not ok:
            raise ValueError("'%s' must be in %r (got %s)" % (attr.name, options, CTX.interp.repr_(value)))
    return v


def or_(*vs):
    def v(inst, attr, value):
        for x in vs:
            try:
                call(x, inst, attr, value)
            except Exception:
                continue
            return
        raise ValueError("None of the validators satisfied")
    return v


def not_(x, **k):
    def v(inst, attr, value):
        try:
            call(x, inst, attr, value)
        except (ValueError, TypeError):
            return
        raise ValueError("not_ validator")
    return v


def _cmpv(name):
    def mk(bound):
        def v(inst, attr, value):
            ip = CTX.interp
            if not ip.truth(ip.rich(value, bound, name)):
                raise ValueError("'%s' must be %s %r" % (attr.name, name, bound))
        return v
    return mk


def is_callable():
    def v(inst, attr, value):
        if not callable(value):
            raise TypeError("not callable")
    return v


def matches_re(regex, flags=0, func=None):
    from . import libs
    p = libs.re_compile(regex, flags)

    def v(inst, attr, value):
        if not p.fullmatch(value):
            raise ValueError("'%s' must match regex" % attr.name)
    return v


def deep_iterable(member_validator, iterable_validator=None):
    if isinstance(member_validator, (list, tuple)):
        member_validator = and_(*member_validator)

    def v(inst, attr, value):
        if iterable_validator is not None:
            call(iterable_validator, inst, attr, value)
        for m in CTX.interp.iter_(value):
            call(member_validator, inst, attr, m)
    return v


def min_len(n):
    def v(inst, attr, value):
        if len(value) < n:
            raise ValueError("too short")
    return v


def max_len(n):
    def v(inst, attr, value):
        if len(value) > n:
            raise ValueError("too long")
    return v


# ---- converters -----------------------------------------------------------
def c_optional(f):
    def c(v):
        return None if v is None else call(f, v)
    return c


def pipe(*fs):
    def c(v):
        for f in fs:
            v = call(f, v)
        return v
    return c


def default_if_none(default=NOTHING, factory=None):
    def c(v):
        if v is not None:
            return v
        if factory is not None:
            return call(factory)
        return call(default.factory) if isinstance(default, Factory) else default
    return c


def modules(interp, ModuleV):
    val = {"instance_of": instance_of, "optional": v_optional, "in_": in_, "and_": and_, "or_": or_, "not_": not_, "ge": _cmpv("__ge__"), "gt": _cmpv("__gt__"), "le": _cmpv("__le__"),
           "lt": _cmpv("__lt__"), "is_callable": is_callable, "matches_re": matches_re, "deep_iterable": deep_iterable, "min_len": min_len, "max_len": max_len}
    conv = {"optional": c_optional, "pipe": pipe, "default_if_none": default_if_none}
    setters = {"NO_OP": None}
    main = {"s": attr_s, "attrs": attr_s, "attributes": attr_s, "dataclass": lambda c=None, **k: attr_s(c, auto_attribs=True, **k), "ib": attrib, "attrib": attrib, "field": attrib,
            "define": define, "mutable": define, "frozen": lambda c=None, **k: define(c, frozen=True, **k), "fields": fields, "fields_dict": fields_dict, "has": has, "evolve": evolve,
            "assoc": evolve, "validate": validate, "asdict": asdict, "astuple": astuple, "NOTHING": NOTHING, "Factory": Factory, "Attribute": Attribute}

    def set_run(b):
        CONFIG["run_validators"] = b
    main["set_run_validators"] = set_run
    main["get_run_validators"] = lambda: CONFIG["run_validators"]
    out = {}
    for top in ("attr", "attrs"):
        m = ModuleV(top, dict(main))
        for n, d in (("validators", val), ("converters", conv), ("setters", setters), ("exceptions", {"FrozenInstanceError": FrozenError, "FrozenError": FrozenError, "NotAnAttrsClassError": AttrsErr})):
            m.ns[n] = out[top + "." + n] = ModuleV(top + "." + n, dict(d))
        out[top] = m
    return out
