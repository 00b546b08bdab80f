"""Models of the built-ins and of the standard-library modules the analysed code uses."""
import ast
import base64 as _base64
import builtins as _b
import collections as _collections
import collections.abc as _cabc
import copy as _copy
import enum as _enum
import importlib
import os
import re as _re
import sys
import types

from . import dt as _dtm
from .core import (MISSING, BoundV, CachedPropertyV, ClassMV, Cls, FuncV, ModuleV, Obj, PropertyV, PyRaise, StaticV, SuperV, TAlias, TSpecial)
from .dom import (CTX, AFloat, AnalysisError, Lin, Num, P, case_map, has_digit_marker, has_marker, intern_atom, is_marker, marker, marker_info, shadow, text_to_float, text_to_num, tolin)

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


def ip():
    return CTX.interp


# ------------------------------------------------------------------ object / type / exceptions
def make_object(interp):
    c = Cls("object", (), {"__module__": "builtins", "__qualname__": "object"}, None)
    c.mro = [c]

    def _setattr(self, name, value):
        ip().obj_setattr(self, name, value)

    def _delattr(self, name):
        ip().obj_delattr(self, name)

    def _getattribute(self, name):
        return ip().getattr_(self, name)

    def _new(cls, *a, **k):
        if not isinstance(cls, Cls):
            if cls is object or cls is c:
                return Obj(c)
            raise AnalysisError("object.__new__(%r)" % cls)
        if cls.abstract:
            raise TypeError("Can't instantiate abstract class %s" % cls.name)
        for b in cls.mro:
            if not isinstance(b, Cls) and not issubclass(b, BaseException):
                raise AnalysisError("instances of subclasses of native %r are not modelled" % b)
        if (a or k) and ip().lookup(cls, "__init__") is c.ns["__init__"] and ip().lookup(cls, "__new__") is c.ns["__new__"]:
            raise TypeError("%s() takes no arguments" % cls.name)
        return Obj(cls)

    def _init(self, *a, **k):
        if (a or k) and (ip().lookup(self._c, "__new__") is c.ns["__new__"] or ip().lookup(self._c, "__init__") is not c.ns["__init__"]):
            raise TypeError("%s() takes no arguments" % self._c.name)

    def _isc(cls, **kw):
        if kw:
            raise TypeError("%s.__init_subclass__() takes no keyword arguments" % cls.name)

    def _eq(self, o):
        return True if self is o else NotImplemented

    def _ne(self, o):
        r = ip().eq_raw(self, o) if isinstance(self, Obj) else self == o
        return r if r is NotImplemented else not ip().truth(r)

    def _hash(self):
        return id(self) >> 4

    def _repr(self):
        t = ip().type_of(self)
        return "<%s object>" % (t.name if isinstance(t, Cls) else t.__name__)

    def _str(self):
        return ip().repr_(self)

    def _format(self, spec):
        return ip().str_(self)

    c.ns.update({"__setattr__": _setattr, "__delattr__": _delattr, "__getattribute__": _getattribute, "__new__": StaticV(_new), "__init__": _init, "__init_subclass__": ClassMV(_isc),
                 "__eq__": _eq, "__ne__": _ne, "__hash__": _hash, "__repr__": _repr, "__str__": _str, "__format__": _format, "__doc__": None})
    return c


def make_type(interp):
    c = Cls("type", (interp.object_cls,), {"__module__": "builtins", "__qualname__": "type"}, None)
    c.meta = c
    c.mro = [c, interp.object_cls]

    def _call(cls, *a, **k):
        return ip().type_call(cls, a, k)

    def _new(mcs, *a, **kw):
        if len(a) == 1 and mcs is c:
            return ip().type_of(a[0])
        return ip().build_class(a[0], list(a[1]), dict(a[2]), {"metaclass": mcs, **kw}, raw=True)

    def _init(cls, *a, **kw):
        return None

    def _ic(cls, inst):
        return ip().issubclass_(ip().type_of(inst), cls)

    def _sc(cls, sub):
        return ip().issubclass_(sub, cls)

    def _prep(*a, **k):
        return {}

    def _sa(cls, name, value):
        cls.ns[name] = value

    def _repr(cls):
        return repr(cls)
    c.ns.update({"__call__": _call, "__new__": StaticV(_new), "__init__": _init, "__instancecheck__": _ic, "__subclasscheck__": _sc, "__prepare__": ClassMV(_prep), "__setattr__": _sa, "__repr__": _repr})
    return c


def make_excbase(interp):
    c = Cls("BaseException*", (interp.object_cls,), {"__module__": "builtins", "__qualname__": "BaseException", "__cause__": None, "__context__": None, "__traceback__": None,
                                                     "__suppress_context__": False}, interp.type_cls)
    c.mro = [c, interp.object_cls]

    def _new(cls, *a, **k):
        if cls.abstract:
            raise TypeError("Can't instantiate abstract class %s" % cls.name)
        o = Obj(cls)
        o._d["args"] = tuple(a)
        return o

    def _init(self, *a, **k):
        self._d["args"] = tuple(a)

    def _str(self):
        a = self._d.get("args", ())
        if any(b is KeyError for b in self._c.mro) and len(a) == 1:
            return ip().repr_(a[0])
        return "" if not a else ip().str_(a[0]) if len(a) == 1 else repr(a)

    def _repr(self):
        return "%s(%s)" % (self._c.name, ", ".join(ip().repr_(x) for x in self._d.get("args", ())))

    def _wt(self, tb):
        return self

    def _note(self, n):
        self._d.setdefault("__notes__", []).append(n)
    c.ns.update({"__new__": StaticV(_new), "__init__": _init, "__str__": _str, "__repr__": _repr, "with_traceback": _wt, "add_note": _note})
    return c


# ------------------------------------------------------------------ strings
def _cm(op):
    def f(s, *a):
        return case_map(s, op) if has_marker(s) else getattr(s, op)(*a)
    return f


def _whole(op):
    def f(s):
        if not has_marker(s):
            return getattr(s, op)()
        out, first = [], True
        for ch in s:
            if op == "title":
                out.append(case_map(ch, "upper" if first else "lower"))
                first = not ch.isalpha()
            else:
                out.append(case_map(ch, "upper" if first else "lower"))
                first = False
        return "".join(out)
    return f


def _swap(s):
    return s.swapcase() if not has_marker(s) else "".join(case_map(c, "swapcase") if is_marker(c) else c.swapcase() for c in s)


def _shadowed(op):
    def f(s, *a):
        return getattr(shadow(s), op)(*a)
    return f


def _isupper(s):
    return _case_pred(s, "isupper")


def _islower(s):
    return _case_pred(s, "islower")


def _case_pred(s, op):
    if not has_marker(s):
        return getattr(s, op)()
    rest = ""
    for c in s:
        inf = marker_info(c)
        if inf is None:
            rest += c
        elif inf[1] == "word":
            key = inf[0]
            if isinstance(key, tuple) and key and key[0] == "case":
                rest += "A" if key[1] == "upper" else "a"
            elif isinstance(key, tuple) and key and key[0] == "UP":
                rest += "A"
            else:
                p = P()
                ck = ("mcase", c)
                v = p.cache_get(ck) if hasattr(p, "cache_get") else None
                if v is None:
                    v = p.choose(2, "case of %s" % (key,))
                    if hasattr(p, "cache_put"):
                        p.cache_put(ck, v)
                rest += "Aa"[v]
    return getattr(rest, op)()


def _encode(s, encoding="utf-8", errors="strict"):
    if not has_marker(s):
        return s.encode(encoding, errors)
    key = ("enc", s)
    if len(s) == 1:
        k = marker_info(s)[0]
        if k[0] == "dec-bytes":
            return k[1]
        if k[0] == "b64text":
            return ABytes(("b64", k[1]))
    return ABytes(key)


def _str_join(s, it):
    return s.join(ip().iter_(it))


def _str_format(s, *a, **k):
    return s.format(*a, **k)


def _translate(s, table):
    if isinstance(table, Obj):
        return "".join(str(ip().getitem(table, ord(c))) for c in s)
    return s.translate(table)


STR = {"upper": _cm("upper"), "lower": _cm("lower"), "casefold": _cm("casefold"), "title": _whole("title"), "capitalize": _whole("capitalize"), "swapcase": _swap,
       "isdigit": _shadowed("isdigit"), "isdecimal": _shadowed("isdecimal"), "isnumeric": _shadowed("isnumeric"), "isalnum": _shadowed("isalnum"), "isalpha": _shadowed("isalpha"),
       "isidentifier": _shadowed("isidentifier"), "isascii": _shadowed("isascii"), "isupper": _isupper, "islower": _islower, "encode": _encode, "join": _str_join, "format": _str_format,
       "translate": _translate}


class ABytes(bytes):
    """opaque octets identified by their provenance"""

    def __new__(cls, key):
        o = bytes.__new__(cls, b"\x00?")
        o.key = key
        return o

    def __eq__(self, o):
        return isinstance(o, ABytes) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 23

    def decode(self, encoding="utf-8", errors="strict"):
        if self.key[0] == "enc":
            return self.key[1]
        if self.key[0] == "b64":
            return marker(("b64text", self.key[1]), "word")
        return marker(("dec-bytes", self), "word")

    def __bool__(self):
        return True

    def __len__(self):
        raise AnalysisError("length of opaque octets")

    def __repr__(self):
        return "ABytes(%r)" % (self.key,)


def _b64encode(b, altchars=None):
    if isinstance(b, ABytes):
        return ABytes(("b64", b))
    if isinstance(b, str):
        raise TypeError("a bytes-like object is required, not 'str'")
    return _base64.b64encode(b)


def _b64decode(s, altchars=None, validate=False):
    if isinstance(s, str):
        if has_marker(s):
            t = s.strip()
            if len(t) == 1:
                k = marker_info(t)[0]
                if k[0] == "b64text":
                    return k[1]
            return ABytes(("unb64", s))
        return _base64.b64decode(s)
    if isinstance(s, ABytes):
        if s.key[0] == "b64":
            return s.key[1]
        return ABytes(("unb64", s.key))
    return _base64.b64decode(s)


# ------------------------------------------------------------------ regular expressions
class PatternM:
    def __init__(self, rx, src):
        self.rx, self.src = rx, src
    pattern = property(lambda s: s.rx.pattern)
    groups = property(lambda s: s.rx.groups)
    groupindex = property(lambda s: s.rx.groupindex)
    flags = property(lambda s: s.rx.flags)

    def _w(self, m, s):
        return None if m is None else MatchM(m, s, self)

    @staticmethod
    def _txt(s):
        if isinstance(s, Obj) or not isinstance(s, str):
            raise TypeError("expected string or bytes-like object, got %r" % ip().type_name(s))
        return shadow(s)

    def search(self, s, pos=0, endpos=sys.maxsize):
        return self._w(self.rx.search(self._txt(s), ip().idx(pos), endpos), s)

    def match(self, s, pos=0, endpos=sys.maxsize):
        return self._w(self.rx.match(self._txt(s), ip().idx(pos), endpos), s)

    def fullmatch(self, s, pos=0, endpos=sys.maxsize):
        return self._w(self.rx.fullmatch(self._txt(s), ip().idx(pos), endpos), s)

    def finditer(self, s, pos=0, endpos=sys.maxsize):
        for m in self.rx.finditer(self._txt(s), pos, endpos):
            yield MatchM(m, s, self)

    def findall(self, s, pos=0, endpos=sys.maxsize):
        out = []
        for m in self.finditer(s, pos, endpos):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, s, maxsplit=0):
        out, last, n = [], 0, 0
        for m in self.rx.finditer(self._txt(s)):
            if maxsplit and n >= maxsplit:
                break
            if m.start() == m.end() and (m.start() == 0 and False):
                continue
            out.append(s[last:m.start()])
            out += [None if a < 0 else s[a:b] for a, b in (m.span(i + 1) for i in range(self.rx.groups))]
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def subn(self, repl, s, count=0):
        out, last, n = [], 0, 0
        for m in self.rx.finditer(self._txt(s)):
            if count and n >= count:
                break
            out.append(s[last:m.start()])
            mm = MatchM(m, s, self)
            r = mm.expand(repl) if isinstance(repl, str) else ip().call(repl, (mm,), {})
            if not isinstance(r, str):
                raise TypeError("expected str instance, %s found" % ip().type_name(r))
            out.append(r)
            last = m.end()
            n += 1
        out.append(s[last:])
        return "".join(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def __eq__(self, o):
        return isinstance(o, PatternM) and o.rx == self.rx

    def __hash__(self):
        return hash(self.rx)

    def __repr__(self):
        return repr(self.rx)


class MatchM:
    def __init__(self, m, s, p):
        self.m, self.string, self.re = m, s, p
        self.pos, self.endpos, self.lastindex, self.lastgroup = m.pos, m.endpos, m.lastindex, m.lastgroup
        self.regs = m.regs

    def _g(self, i):
        a, b = self.m.span(i)
        return None if a < 0 else self.string[a:b]

    def group(self, *i):
        if not i:
            return self._g(0)
        return self._g(i[0]) if len(i) == 1 else tuple(self._g(x) for x in i)

    __getitem__ = lambda self, i: self._g(i)

    def groups(self, default=None):
        out = []
        for i in range(self.m.re.groups):
            g = self._g(i + 1)
            out.append(default if g is None else g)
        return tuple(out)

    def groupdict(self, default=None):
        d = {}
        for n in self.m.re.groupindex:
            g = self._g(n)
            d[n] = default if g is None else g
        return d

    def start(self, i=0):
        return self.m.start(i)

    def end(self, i=0):
        return self.m.end(i)

    def span(self, i=0):
        return self.m.span(i)

    def expand(self, t):
        out, i = [], 0
        while i < len(t):
            c = t[i]
            if c != "\\":
                out.append(c)
                i += 1
                continue
            n = t[i + 1:i + 2]
            if n == "g":
                j = t.index(">", i)
                k = t[i + 3:j]
                out.append(self._g(int(k) if k.isdigit() else k) or "")
                i = j + 1
            elif n.isdigit():
                out.append(self._g(int(n)) or "")
                i += 2
            else:
                out.append({"n": "\n", "r": "\r", "t": "\t", "\\": "\\"}.get(n, "\\" + n))
                i += 2
        return "".join(out)

    def __repr__(self):
        return "<re.Match %r>" % self._g(0)


_rxcache = {}


def re_compile(p, flags=0):
    if isinstance(p, PatternM):
        return p
    k = (p, int(flags))
    r = _rxcache.get(k)
    if r is None:
        r = _rxcache[k] = PatternM(_re.compile(p, flags), p)
    return r


def re_module():
    ns = {n: getattr(_re, n) for n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII", "U", "UNICODE", "error", "escape", "RegexFlag")}
    ns.update(compile=re_compile, Pattern=PatternM, Match=MatchM, purge=lambda: None)

    def mk(name):
        def f(p, *a, flags=0, **k):
            nargs = {"sub": 2, "subn": 2}.get(name, 1)
            mx = nargs + (1 if name in ("sub", "subn", "split") else 0)
            if len(a) > mx:
                flags = a[mx]
                a = a[:mx]
            return getattr(re_compile(p, flags), name)(*a, **k)
        return f
    for n in ("search", "match", "fullmatch", "finditer", "findall", "split", "sub", "subn"):
        ns[n] = mk(n)
    return ns


# ------------------------------------------------------------------ contextlib / contextvars / functools
class GenCM:
    def __init__(self, gen, recreate=None):
        self.gen = gen
        self.recreate = recreate

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        if v is None:
            v = ip().call(t, (), {})
        exc = PyRaise(v) if isinstance(v, Obj) else v
        try:
            self.gen.throw(exc)
        except StopIteration as e:
            return e is not exc
        except PyRaise as e:
            if e.value is v:
                return False
            raise
        except Exception as e:
            if e is exc or isinstance(exc, StopIteration) and isinstance(e, RuntimeError):
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")

    def __call__(self, f):
        def inner(*a, **k):
            cm = self.recreate()
            cm.__enter__()
            try:
                r = ip().call(f, a, k)
            except (AnalysisError,):
                raise
            except Exception as e:
                v = e.value if isinstance(e, PyRaise) else e
                if not cm.__exit__(ip().type_of(v), v, None):
                    raise
                return None
            cm.__exit__(None, None, None)
            return r
        inner._ai_bind = True
        return inner


def contextmanager(f):
    def cm(*a, **k):
        mk = lambda: GenCM(ip().iter_(ip().call(f, a, k)), mk)
        return mk()
    cm._ai_bind = True
    cm.__name__ = getattr(f, "__name__", "cm")
    cm.__wrapped__ = f
    return cm


class _Simple:
    def __init__(self, enter, exit_):
        self._e, self._x = enter, exit_

    def __enter__(self):
        return self._e()

    def __exit__(self, *a):
        return self._x(*a)


class ExitStackM:
    def __init__(self):
        self.cbs = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        x = ip().getattr_(cm, "__exit__")
        v = ip().call(ip().getattr_(cm, "__enter__"), (), {})
        self.cbs.append(lambda *a: ip().call(x, a, {}))
        return v

    def callback(self, f, *a, **k):
        self.cbs.append(lambda *e: ip().call(f, a, k) and False)
        return f

    def push(self, f):
        self.cbs.append(lambda *e: ip().call(f, e, {}))
        return f

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, v, tb):
        supp = False
        while self.cbs:
            if ip().truth(self.cbs.pop()(t, v, tb)):
                t = v = tb = None
                supp = True
        return supp


def contextlib_module():
    def suppress(*excs):
        return _Simple(lambda: None, lambda t, v, tb: v is not None and ip().isinstance_(v, tuple(excs)))

    def closing(x):
        return _Simple(lambda: x, lambda *a: ip().call_method(x, "close") and False)

    def nullcontext(x=None):
        return _Simple(lambda: x, lambda *a: False)
    acm = Cls("AbstractContextManager", (ip().object_cls,), {"__module__": "contextlib", "__qualname__": "AbstractContextManager", "__enter__": _id1, "__exit__": lambda s, *a: None}, ip().type_cls)
    acm.mro = [acm, ip().object_cls]
    cdec = Cls("ContextDecorator", (ip().object_cls,), {"__module__": "contextlib", "__qualname__": "ContextDecorator", "_recreate_cm": _id1, "__call__": _decorate}, ip().type_cls)
    cdec.mro = [cdec, ip().object_cls]
    return {"ContextDecorator": cdec, "contextmanager": contextmanager, "suppress": suppress, "closing": closing, "nullcontext": nullcontext, "ExitStack": ExitStackM, "AbstractContextManager": acm}


def _id1(self):
    return self


def _decorate(self, f):
    def inner(*a, **k):
        i = ip()
        cm = i.call_method(self, "_recreate_cm")
        x = i.getattr_(cm, "__exit__")
        i.call(i.getattr_(cm, "__enter__"), (), {})
        try:
            r = i.call(f, a, k)
        except Exception as e:
            v = e.value if isinstance(e, PyRaise) else e
            if not i.truth(i.call(x, (i.type_of(v), v, None), {})):
                raise
            return None
        i.call(x, (None, None, None), {})
        return r
    inner._ai_bind = True
    return inner


class CtxVar:
    def __init__(self, name, default=MISSING):
        self.name, self.default, self.value = name, default, MISSING

    def get(self, default=MISSING):
        if self.value is not MISSING:
            return self.value
        if default is not MISSING:
            return default
        if self.default is MISSING:
            raise LookupError(self.name)
        return self.default

    def set(self, v):
        t = CtxToken(self, self.value)
        self.value = v
        return t

    def reset(self, tok):
        if not isinstance(tok, CtxToken):
            raise TypeError("expected an instance of Token")
        if tok.var is not self:
            raise ValueError("token was created by a different ContextVar")
        if tok.used:
            raise RuntimeError("token has already been used")
        tok.used = True
        self.value = tok.old_value

    def __repr__(self):
        return "<ContextVar %r>" % self.name


class CtxToken:
    MISSING = MISSING

    def __init__(self, var, old):
        self.var, self.old_value, self.used = var, old, False


class LruCached:
    _ai_bind = True

    def __init__(self, f, maxsize):
        self.f, self.cache = f, {}
        self.__wrapped__ = f
        self.__name__ = getattr(f, "__name__", "?")

    def __call__(self, *a, **k):
        key = (tuple(_Key(x) for x in a), tuple((n, _Key(v)) for n, v in sorted(k.items())))
        if key in self.cache:
            return self.cache[key]
        r = ip().call(self.f, a, k)
        self.cache[key] = r
        return r

    def cache_clear(self):
        self.cache.clear()

    def cache_info(self):
        raise AnalysisError("cache_info")


class _Key:
    """dictionary key with the interpreted equality"""
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v = v
        self.h = ip().hash_(v)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.v is o.v or ip().truth(ip().eq(self.v, o.v))


def wraps(wrapped, *a, **k):
    def deco(f):
        for n in ("__name__", "__qualname__", "__doc__", "__module__"):
            try:
                setattr(f, n, getattr(wrapped, n))
            except (AttributeError, TypeError):
                pass
        try:
            f.__dict__["__wrapped__"] = wrapped
        except Exception:
            pass
        return f
    return deco


def functools_module():
    import functools as F

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize) and not isinstance(maxsize, int):
            return LruCached(maxsize, 128)
        return lambda f: LruCached(f, maxsize)

    def total_ordering(c):
        def has(n):
            v = ip().lookup(c, n)
            return v is not MISSING and v is not None
        have = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in c.ns]
        if not have:
            raise ValueError("must define at least one ordering operation")
        r = have[0] if "__lt__" not in have else "__lt__"

        def mk(name):
            def f(self, o):
                v = ip().call(ip().getattr_(self, r), (o,), {})
                if v is NotImplemented:
                    return v
                v = ip().truth(v)
                base = r[2:-2]
                want = name[2:-2]
                if base == "lt":
                    if want == "ge":
                        return not v
                    e = ip().truth(ip().eq(self, o))
                    return (not v and not e) if want == "gt" else (v or e)
                if base == "gt":
                    if want == "le":
                        return not v
                    e = ip().truth(ip().eq(self, o))
                    return (not v and not e) if want == "lt" else (v or e)
                if base == "le":
                    if want == "gt":
                        return not v
                    e = ip().truth(ip().eq(self, o))
                    return (v and not e) if want == "lt" else (not v or e)
                if want == "lt":
                    return not v
                e = ip().truth(ip().eq(self, o))
                return (v and not e) if want == "gt" else (not v or e)
            return f
        for n in ("__lt__", "__le__", "__gt__", "__ge__"):
            if n not in c.ns:
                c.ns[n] = mk(n)
        return c

    def reduce(f, it, *init):
        it = ip().iter_(it)
        if init:
            acc = init[0]
        else:
            try:
                acc = next(it)
            except StopIteration:
                raise TypeError("reduce() of empty iterable with no initial value")
        for x in it:
            acc = ip().call(f, (acc, x), {})
        return acc

    class SingleDispatch:
        _ai_bind = True

        def __init__(self, f):
            self.f, self.reg = f, []
            self.__name__ = getattr(f, "__name__", "?")

        def register(self, t, f=None):
            if f is None:
                if isinstance(t, FuncV):
                    args = [a for a in t.node.args.posonlyargs + t.node.args.args if a.annotation is not None]
                    if not args:
                        raise TypeError("Invalid first argument to register()")
                    from .core import Frame
                    an = args[0].annotation
                    if isinstance(an, ast.Constant) and isinstance(an.value, str):
                        an = ast.parse(an.value, mode="eval").body
                    c = ip().eval(an, t.frame) if t.frame is not None else ip().eval(an, ip().stack[-1])
                    return self.register(c, t)
                return lambda g: self.register(t, g)
            self.reg.append((t, f))
            return f

        def dispatch(self, t):
            best = None
            for c, f in self.reg:
                if ip().issubclass_(t, c) and (best is None or ip().issubclass_(c, best[0])):
                    best = (c, f)
            return best[1] if best else self.f

        def __call__(self, *a, **k):
            return ip().call(self.dispatch(ip().type_of(a[0])), a, k)

    def partialmethod(f, *a, **k):
        def g(self, *b, **l):
            return ip().call(f, (self,) + a + b, {**k, **l})
        return g
    return {"wraps": wraps, "update_wrapper": lambda w, f, *a, **k: wraps(f)(w), "lru_cache": lru_cache, "cache": lambda f: LruCached(f, None), "cached_property": CachedPropertyV,
            "partial": F.partial, "partialmethod": partialmethod, "reduce": reduce, "total_ordering": total_ordering, "cmp_to_key": F.cmp_to_key, "singledispatch": SingleDispatch}


# ------------------------------------------------------------------ copy
_ATOMIC = (int, float, str, bytes, bool, type(None), type, Cls, FuncV, BoundV, Num, AFloat, types.FunctionType, types.BuiltinFunctionType, _dtm.timedelta, _dtm.date, _dtm.time, _enum.Enum, ModuleV, TAlias, TSpecial,
           PatternM, frozenset, range, type(NotImplemented), CtxVar)


def _foreign_zone(x):
    """a zone of another library: as good as its copies"""
    return ip().tzinfo_cls in x._c.mro and not any(isinstance(c, Cls) and str(c.ns.get("__module__", "")).startswith("ics") for c in x._c.mro)


def copy_copy(x):
    if isinstance(x, Obj):
        if _foreign_zone(x):
            return x
        m = ip().lookup(x._c, "__copy__")
        if m is not MISSING:
            return ip().call(ip().bind(m, x, x._c), (), {})
        return _reconstruct(x, lambda v: v)
    if isinstance(x, _ATOMIC):
        return x
    if isinstance(x, (list, dict, set, bytearray)):
        return x.copy() if type(x) in (list, dict, set) else _copy.copy(x)
    if isinstance(x, tuple):
        return x
    if isinstance(x, types.GeneratorType):
        raise TypeError("cannot pickle 'generator' object")
    return _copy.copy(x)


def _copy_obj(x, f):
    r = ip().lookup(x._c, "__reduce__")
    if r is not MISSING:
        t = ip().call(ip().bind(r, x, x._c), (), {})
        if isinstance(t, str):
            return x, None
        return ip().call(t[0], tuple(f(v) if f else v for v in t[1]), {}), (t[2] if len(t) > 2 else None)
    if ip().tzinfo_cls in x._c.mro:  # tzinfo.__reduce__
        return ip().call(x._c, (), {}), x._d
    y = Obj(x._c)
    gs = ip().lookup(x._c, "__getstate__")
    state = ip().call(ip().bind(gs, x, x._c), (), {}) if gs is not MISSING else x._d
    return y, state


def _apply_state(y, state):
    ss = ip().lookup(y._c, "__setstate__")
    if ss is not MISSING:
        ip().call(ip().bind(ss, y, y._c), (state,), {})
    elif state:
        y._d.update(state)


def _reconstruct(x, f):
    y, state = _copy_obj(x, f)
    _apply_state(y, f(state) if f else state)
    if any(not isinstance(b, Cls) and issubclass(b, BaseException) for b in x._c.mro):
        y._d.setdefault("args", x._d.get("args", ()))
    return y


def copy_deepcopy(x, memo=None):
    if memo is None:
        memo = {}
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (_dtm.datetime, _dtm.time)) and isinstance(x.tzinfo, Obj):
        z = copy_deepcopy(x.tzinfo, memo)
        if z is x.tzinfo:
            return x
        return _dtm.datetime.of(x.pos, z, x.fold, x._utc) if isinstance(x, _dtm.datetime) else _dtm.time.of(x.us, z, x.fold)
    if isinstance(x, Obj):
        m = ip().lookup(x._c, "__deepcopy__")
        if _foreign_zone(x):
            y = x
        elif m is not MISSING:
            y = ip().call(ip().bind(m, x, x._c), (memo,), {})
        else:
            y, state = _copy_obj(x, lambda v: copy_deepcopy(v, memo))
            memo[id(x)] = y
            if isinstance(state, dict):
                state = {k: copy_deepcopy(v, memo) for k, v in state.items()}
            else:
                state = copy_deepcopy(state, memo)
            _apply_state(y, state)
        memo[id(x)] = y
        return y
    if isinstance(x, _ATOMIC) and not isinstance(x, frozenset):
        return x
    if isinstance(x, list):
        y = []
        memo[id(x)] = y
        y.extend(copy_deepcopy(v, memo) for v in x)
        return y
    if isinstance(x, dict):
        y = type(x)(x.default_factory) if isinstance(x, _collections.defaultdict) else type(x)()
        memo[id(x)] = y
        for k, v in x.items():
            y[copy_deepcopy(k, memo)] = copy_deepcopy(v, memo)
        return y
    if isinstance(x, (set, frozenset)):
        return type(x)(copy_deepcopy(v, memo) for v in x)
    if isinstance(x, tuple):
        vals = [copy_deepcopy(v, memo) for v in x]
        if all(a is b for a, b in zip(vals, x)):
            return x
        return type(x)(*vals) if hasattr(x, "_fields") else tuple(vals)
    if isinstance(x, types.GeneratorType):
        raise TypeError("cannot pickle 'generator' object")
    if isinstance(x, types.SimpleNamespace):
        return types.SimpleNamespace(**copy_deepcopy(vars(x), memo))
    return _copy.deepcopy(x, memo)


# ------------------------------------------------------------------ textwrap
class TextWrapperM:
    """lines are cut at *some* admissible positions (representatives are enumerated)"""

    def __init__(self, width=70, initial_indent="", subsequent_indent="", expand_tabs=True, replace_whitespace=True, fix_sentence_endings=False, break_long_words=True,
                 drop_whitespace=True, break_on_hyphens=True, tabsize=8, *, max_lines=None, placeholder=" [...]"):
        self.width, self.initial_indent, self.subsequent_indent = width, initial_indent, subsequent_indent
        self.expand_tabs, self.replace_whitespace, self.fix_sentence_endings = expand_tabs, replace_whitespace, fix_sentence_endings
        self.break_long_words, self.drop_whitespace, self.break_on_hyphens = break_long_words, drop_whitespace, break_on_hyphens
        self.tabsize, self.max_lines, self.placeholder = tabsize, max_lines, placeholder

    def wrap(self, text):
        if self.expand_tabs:
            text = text.expandtabs(self.tabsize)
        if self.replace_whitespace:
            text = "".join(" " if c in "\t\n\x0b\x0c\r " else c for c in text)
        if self.fix_sentence_endings:
            text = _re.sub(r"([a-z][.!?]) (?=\S)", r"\1  ", text)
        width = ip().idx(self.width)
        if width <= 0:
            raise ValueError("invalid width %r (must be > 0)" % width)
        lines, rest = [], text
        ws = "\t\n\x0b\x0c\r "
        n = 0
        while rest:
            indent = self.subsequent_indent if lines else self.initial_indent
            mx = width - len(indent)
            if self.drop_whitespace and lines:
                rest = rest.lstrip(ws)
                if not rest:
                    break
            if len(rest) <= mx:
                lines.append(indent + (rest.rstrip(ws) if self.drop_whitespace else rest))
                break
            if mx <= 0:
                mx = 1

            def boundary(i):
                return (rest[i - 1] in ws) != (rest[i] in ws) or (self.break_on_hyphens and rest[i - 1] == "-")

            def inside(i):  # a whitespace run that would fit is never torn apart
                if rest[i - 1] not in ws or rest[i] not in ws:
                    return False
                a = b = i
                while a > 0 and rest[a - 1] in ws:
                    a -= 1
                while b < len(rest) and rest[b] in ws:
                    b += 1
                return b - a <= mx
            if self.break_long_words:
                cand = [mx]
                if n < 2 and not getattr(P(), "plain_wrap", False):
                    cand += [i for i in sorted({mx - 1, mx - 2, mx // 2, 1}, reverse=True) if 0 < i < mx]
                    # positions next to something special
                    cand += [i for i in range(1, mx) if boundary(i) and i not in cand][:6]
                cand = [i for i in cand if not inside(i)] or [next(i for i in range(mx, 0, -1) if not inside(i) or i == 1)]
            else:
                cand = [i for i in range(mx, 0, -1) if boundary(i)][:4]
                if not cand:
                    cand = [next((i for i in range(mx + 1, len(rest)) if boundary(i)), len(rest))]
            i = cand[P().choose(len(cand), "line break position") if n < 2 and not getattr(P(), "plain_wrap", False) else 0]
            n += 1
            piece, rest = rest[:i], rest[i:]
            if self.drop_whitespace:
                piece = piece.rstrip(ws)
            if piece or not self.drop_whitespace:
                lines.append(indent + piece)
            if self.max_lines is not None and len(lines) >= self.max_lines:
                lines[-1] += self.placeholder
                break
        return lines

    def fill(self, text):
        return "\n".join(self.wrap(text))


# ------------------------------------------------------------------ uuid / misc models
class UUIDM:
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return marker(("uuid", self.n), "word")

    hex = property(lambda s: marker(("uuidhex", s.n), "word"))
    urn = property(lambda s: marker(("uuidurn", s.n), "word"))

    def __eq__(self, o):
        return isinstance(o, UUIDM) and o.n == self.n

    def __hash__(self):
        return 37


def _uuid(*a):
    p = P()
    p.fresh += 1
    return UUIDM(p.fresh)


# ------------------------------------------------------------------ namedtuple / enum
def _conv(v):
    """interpreted class member -> native descriptor"""
    if isinstance(v, FuncV):
        def w(*a, **k):
            return CTX.interp.call_func(v, a, k)
        w.__name__ = v.__name__
        return w
    if isinstance(v, PropertyV):
        f = lambda g: None if g is None else (lambda *a: CTX.interp.call(g, a, {}))
        return property(f(v.fget), f(v.fset), f(v.fdel))
    if isinstance(v, StaticV):
        return staticmethod(lambda *a, **k: CTX.interp.call(v.f, a, k))
    if isinstance(v, ClassMV):
        return classmethod(lambda *a, **k: CTX.interp.call(v.f, a, k))
    return v


def make_namedtuple(interp, name, ns, funcs=()):
    ann = ns.get("__annotations__", {})
    fields = [f for f in ann]
    defaults = [ns[f] for f in fields if f in ns]
    base = _collections.namedtuple(name, fields, defaults=defaults, module=ns.get("__module__"))
    body = {k: _conv(v) for k, v in ns.items() if k not in fields and k not in ("__ai_funcs__",)}
    body["__slots__"] = ()
    body["_ai_ns"] = dict(ns)
    return type(name, (base,), body)


def make_enum(interp, name, base, ns):
    meta = type(base)
    d = meta.__prepare__(name, (base,))
    for k, v in ns.items():
        if k in ("__annotations__", "__ai_funcs__"):
            continue
        d[k] = _conv(v)
    return meta(name, (base,), d)


ENUM_BASES = {n: getattr(_enum, n) for n in ("Enum", "IntEnum", "Flag", "IntFlag", "StrEnum")}

ABC_NATIVE = {n: getattr(_cabc, n) for n in ("Hashable", "Callable", "Iterable", "Iterator", "Generator", "Reversible", "Sized", "Container", "Collection", "Sequence", "MutableSequence",
                                             "Mapping", "MutableMapping", "Set", "MutableSet", "Awaitable", "KeysView", "ItemsView", "ValuesView")}
_ONE = {"Hashable": ("__hash__",), "Callable": ("__call__",), "Iterable": ("__iter__",), "Iterator": ("__iter__", "__next__"), "Sized": ("__len__",), "Container": ("__contains__",),
        "Collection": ("__len__", "__iter__", "__contains__"), "Reversible": ("__iter__", "__reversed__"), "Generator": ("__iter__", "__next__", "send", "throw", "close"), "Awaitable": ("__await__",)}


def structural(interp, t, name):
    ms = _ONE.get(name)
    if ms is None:
        return any(c in t.mro for c in REGISTERED.get(name, ()))
    for m in ms:
        v = interp.lookup(t, m)
        if v is MISSING or v is None:
            return False
    return True


REGISTERED = {}


# ------------------------------------------------------------------ builtins
def native_class_attr(interp, cls, name):
    if name == "__new__" and cls in (str, int, float, tuple, list, dict, set):
        return lambda c, *a, **k: interp.call(cls, a, k)
    return MISSING


def _int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, Num):
            return x.to_int()
        if isinstance(x, str):
            return text_to_num(x)
        if isinstance(x, AFloat):
            return Num(Lin.atom(intern_atom(("int-of-float", x.key))))
        if isinstance(x, Obj):
            return ip().call_special(x, "__int__", TypeError)
    if len(a) == 2 and isinstance(a[0], str) and a[1] == 10:
        return text_to_num(a[0])
    return int(*a, **k)


def _float(*a):
    if a:
        x = a[0]
        if isinstance(x, Num):
            return Num.mk(x.lin, True)
        if isinstance(x, AFloat):
            return x
        if isinstance(x, str):
            return text_to_float(x)
        if isinstance(x, Obj):
            return ip().call_special(x, "__float__", TypeError)
    return float(*a)


def _str(*a, **k):
    if not a and not k:
        return ""
    x = a[0] if a else k.get("object")
    if len(a) == 1 and not k:
        return ip().str_(x)
    if isinstance(x, ABytes):
        return x.decode()
    return str(*a, **k)


def _bytes(*a, **k):
    if a and isinstance(a[0], str):
        return _encode(*a, **k)
    if a and isinstance(a[0], ABytes):
        return a[0]
    if a and isinstance(a[0], Obj) and ip().lookup(a[0]._c, "__bytes__") is not MISSING:
        return ip().call_special(a[0], "__bytes__", TypeError)
    return bytes(*a, **k)


def _bool(x=False):
    return ip().truth(x)


def _dictf(*a, **k):
    d = {}
    if a:
        x = a[0]
        if isinstance(x, Obj) and ip().hasattr_(x, "keys"):
            for kk in ip().iter_(ip().call_method(x, "keys")):
                d[kk] = ip().getitem(x, kk)
        elif isinstance(x, dict):
            d.update(x)
        else:
            for p in ip().iter_(x):
                kk, v = ip().iter_(p)
                d[kk] = v
    d.update(k)
    return d


def _seq(t):
    def f(*a):
        if len(a) > 1:
            raise TypeError("%s expected at most 1 argument" % t.__name__)
        return t(ip().iter_(a[0])) if a else t()
    return f


_TYPECALL = {int: _int, float: _float, str: _str, bool: _bool, dict: _dictf, list: _seq(list), tuple: _seq(tuple), set: _seq(set), frozenset: _seq(frozenset), bytes: _bytes}


def native_call(interp, f):
    try:
        return _TYPECALL.get(f)
    except TypeError:
        return None


def _unsupported(name):
    def f(*a, **k):
        raise AnalysisError("%s() is not modelled" % name)
    return f


def native_base(interp, t):
    if "builtins._user" not in interp.modules:
        stub(interp, "builtins._user", "builtin_user.py")
    c = interp.modules["builtins._user"].ns["DictBase" if t is dict else "ListBase"]
    c.name = t.__name__
    c.ns["__ai_native__"] = t
    return c


def make_builtins(interp):
    d = {}
    for n in dir(_b):
        v = getattr(_b, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = v
    for n in ("int", "float", "str", "bool", "dict", "list", "tuple", "set", "frozenset", "bytes", "bytearray", "complex", "range", "slice", "enumerate", "zip", "map", "filter", "memoryview", "chr", "ascii",
              "NotImplemented", "Ellipsis", "any", "all", "pow", "divmod", "bin", "hex", "oct", "id"):
        d[n] = getattr(_b, n)
    d.update({"None": None, "True": True, "False": False, "__debug__": True, "__name__": "builtins"})
    d["object"] = interp.object_cls
    d["type"] = interp.type_cls
    d["property"], d["classmethod"], d["staticmethod"] = PropertyV, ClassMV, StaticV

    def b_super(*a):
        if len(a) == 2:
            return SuperV(a[0], a[1])
        raise RuntimeError("super(): no arguments")

    def b_getattr(o, n, *dflt):
        try:
            return ip().getattr_(o, n)
        except AttributeError:
            if dflt:
                return dflt[0]
            raise

    def b_iter(x, *s):
        if s:
            return iter(lambda: ip().call(x, (), {}), s[0])
        return ip().iter_(x)

    def b_next(x, *dflt):
        try:
            if isinstance(x, Obj):
                return ip().call_special(x, "__next__", TypeError)
            return next(x)
        except StopIteration:
            if dflt:
                return dflt[0]
            raise

    def b_callable(x):
        if isinstance(x, Obj):
            return ip().lookup(x._c, "__call__") is not MISSING
        return callable(x) and not isinstance(x, ModuleV)

    def b_hash(x):
        return ip().hash_(x)

    def b_sum(it, start=0):
        acc = start
        for x in ip().iter_(it):
            acc = ip().binop(ast.Add, acc, x)
        return acc

    def mm(op):
        def f(*a, key=None, default=MISSING):
            vals = list(ip().iter_(a[0])) if len(a) == 1 else list(a)
            if not vals:
                if default is not MISSING:
                    return default
                raise ValueError("%s() arg is an empty sequence" % ("min" if op == "__lt__" else "max"))
            kf = (lambda v: v) if key is None else (lambda v: ip().call(key, (v,), {}))
            best, bk = vals[0], kf(vals[0])
            for v in vals[1:]:
                k = kf(v)
                if ip().truth(ip().rich(k, bk, op)):
                    best, bk = v, k
            return best
        return f

    class _K:
        __slots__ = ("k",)

        def __init__(self, k):
            self.k = k

        def __lt__(self, o):
            return ip().truth(ip().rich(self.k, o.k, "__lt__"))

    def b_sorted(it, *, key=None, reverse=False):
        vals = list(ip().iter_(it))
        ks = [(_K(v if key is None else ip().call(key, (v,), {})), v) for v in vals]
        return [v for _, v in sorted(ks, key=lambda t: t[0], reverse=ip().truth(reverse))]

    def b_abs(x):
        return ip().call_special(x, "__abs__", TypeError) if isinstance(x, Obj) else abs(x)

    def b_round(x, nd=None):
        if isinstance(x, Num):
            return x.__round__(nd)
        if isinstance(x, Obj):
            return ip().call_special(x, "__round__", TypeError)
        return round(x) if nd is None else round(x, nd)

    def b_vars(*a):
        if not a:
            raise AnalysisError("vars()")
        return ip().getattr_(a[0], "__dict__")

    def b_dir(*a):
        o = a[0]
        names = set()
        c = o if isinstance(o, Cls) else (o._c if isinstance(o, Obj) else None)
        if isinstance(o, ModuleV):
            return sorted(o.ns)
        if c is None:
            return dir(o)
        for k in c.mro:
            if isinstance(k, Cls):
                names |= set(k.ns)
        if isinstance(o, Obj):
            names |= set(o._d)
        return sorted(names)

    def b_ord(c):
        return ord(c)

    def b_len(x):
        if isinstance(x, Obj):
            r = ip().call_special(x, "__len__", TypeError)
            if isinstance(r, int) and r < 0:
                raise ValueError("__len__() should return >= 0")
            return r
        return len(x)

    def b_isinstance(x, c):
        return ip().isinstance_(x, c)

    def b_issubclass(x, c):
        return ip().issubclass_(x, c)

    def b_zip(*its, strict=False):
        return zip(*[ip().iter_(i) for i in its], strict=strict)

    def b_map(f, *its):
        return map(lambda *a: ip().call(f, a, {}), *[ip().iter_(i) for i in its])

    def b_filter(f, it):
        return (x for x in ip().iter_(it) if ip().truth(x if f is None else ip().call(f, (x,), {})))

    def b_enum(it, start=0):
        return enumerate(ip().iter_(it), start)

    def b_any(it):
        for x in ip().iter_(it):
            if ip().truth(x):
                return True
        return False

    def b_all(it):
        for x in ip().iter_(it):
            if not ip().truth(x):
                return False
        return True

    def b_import(name, *a, **k):
        ip().import_module(name)
        return ip().modules[name.split(".")[0]] if name.split(".")[0] in ip().modules else ip().import_module(name)

    def b_range(*a):
        return range(*[ip().idx(x) if isinstance(x, Num) else x for x in a])
    d.update({"super": b_super, "getattr": b_getattr, "setattr": lambda o, n, v: ip().setattr_(o, n, v), "delattr": lambda o, n: ip().delattr_(o, n), "hasattr": lambda o, n: ip().hasattr_(o, n),
              "iter": b_iter, "next": b_next, "callable": b_callable, "hash": b_hash, "sum": b_sum, "min": mm("__lt__"), "max": mm("__gt__"), "sorted": b_sorted, "abs": b_abs, "round": b_round,
              "vars": b_vars, "dir": b_dir, "ord": b_ord, "len": b_len, "isinstance": b_isinstance, "issubclass": b_issubclass, "zip": b_zip, "map": b_map, "filter": b_filter, "enumerate": b_enum,
              "any": b_any, "all": b_all, "repr": lambda x: ip().repr_(x), "format": lambda x, s="": ip().format_(x, s), "reversed": lambda x: ip().reversed_(x), "print": lambda *a, **k: None,
              "__import__": b_import, "__build_class__": _unsupported("__build_class__"), "range": range})
    for n in ("open", "input", "eval", "exec", "compile", "locals", "globals", "breakpoint"):
        d[n] = _unsupported(n)
    return d


# ------------------------------------------------------------------ modules
def install(interp):
    """boot: modules needed by the interpreter itself"""
    # abc
    tc = interp.type_cls

    def abstractmethod(f):
        if isinstance(f, FuncV):
            f.__dict__["__isabstractmethod__"] = True
        elif isinstance(f, PropertyV):
            abstractmethod(f.fget)
        elif isinstance(f, (StaticV, ClassMV)):
            abstractmethod(f.f)
        else:
            f.__isabstractmethod__ = True
        return f
    meta = Cls("ABCMeta", (tc,), {"__module__": "abc", "__qualname__": "ABCMeta"}, tc)
    meta.mro = [meta, tc, interp.object_cls]

    def register(cls, sub):
        REGISTERED.setdefault(cls.name, []).append(sub)
        return sub
    meta.ns["register"] = register
    abc = Cls("ABC", (interp.object_cls,), {"__module__": "abc", "__qualname__": "ABC"}, meta)
    abc.mro = [abc, interp.object_cls]
    interp.modules["abc"] = ModuleV("abc", {"ABCMeta": meta, "ABC": abc, "abstractmethod": abstractmethod, "abstractproperty": lambda f: PropertyV(abstractmethod(f)),
                                            "abstractclassmethod": lambda f: ClassMV(abstractmethod(f)), "abstractstaticmethod": lambda f: StaticV(abstractmethod(f))})
    stub(interp, "collections.abc", "collections_abc.py")
    m = stub(interp, "datetime", "datetime_tz.py", {"_timedelta": _dtm.timedelta, "_tz_default_name": lambda off: marker(("tzname", off.us), "word")})
    m.ns.update({"timedelta": _dtm.timedelta, "date": _dtm.date, "time": _dtm.time, "datetime": _dtm.datetime, "MINYEAR": 1, "MAXYEAR": 9999})
    for n in ("tzinfo", "timezone"):
        m.ns[n].ns["__module__"] = "datetime"
    m.ns["UTC"] = interp.getattr_(m.ns["timezone"], "utc")
    interp.tzinfo_cls = m.ns["tzinfo"]
    _dtm.UTC_REF[0] = m.ns["UTC"]


def stub(interp, name, fn, extra=None):
    path = os.path.join(STUBS, fn)
    with open(path, encoding="utf-8") as f:
        src = f.read()
    return interp.load_source(name, src, path, False, dict(extra or {}))


def offset_of(key):
    off = _dtm.timedelta.of(Lin.atom(intern_atom(("off", key), -_dtm.DAY // _dtm.MIN + 1, _dtm.DAY // _dtm.MIN - 1)).scale(_dtm.MIN))
    return off


def rrule_before(rule, dt, inc):
    h = ip().rrule_hook
    if h is None:
        raise AnalysisError("recurrence lookup is not modelled here")
    return h(rule, dt, inc)


def typing_module(interp):
    abc = interp.modules["collections.abc"].ns
    S = TSpecial
    ns = {}
    for n in ("Any", "Optional", "ClassVar", "Final", "Literal", "Annotated", "NoReturn", "Never", "Self", "LiteralString", "TypeAlias", "Concatenate", "TypeGuard", "Required", "NotRequired"):
        ns[n] = S(n)
    ns["Union"] = interp.typing_union
    for n, b in (("Dict", dict), ("List", list), ("Set", set), ("FrozenSet", frozenset), ("Tuple", tuple), ("Type", interp.type_cls), ("DefaultDict", _collections.defaultdict),
                 ("OrderedDict", _collections.OrderedDict), ("Deque", _collections.deque), ("Counter", _collections.Counter), ("ChainMap", _collections.ChainMap), ("Text", str)):
        ns[n] = S(n, b)
    ns["Text"] = str
    for n in ("Iterable", "Iterator", "Generator", "Reversible", "Sized", "Container", "Collection", "Sequence", "MutableSequence", "Mapping", "MutableMapping", "Hashable", "Callable", "Awaitable"):
        ns[n] = S(n, abc[n])
    ns["AbstractSet"] = S("AbstractSet", abc.get("Set"))
    ns["MutableSet"] = S("MutableSet", abc.get("MutableSet"))
    ns["Pattern"], ns["Match"] = S("Pattern", PatternM), S("Match", MatchM)
    gen = Cls("Generic", (interp.object_cls,), {"__module__": "typing", "__qualname__": "Generic"}, interp.type_cls)
    gen.mro = [gen, interp.object_cls]
    ns["Generic"] = gen
    prot = Cls("Protocol", (interp.object_cls,), {"__module__": "typing", "__qualname__": "Protocol"}, interp.type_cls)
    prot.mro = [prot, interp.object_cls]
    ns["Protocol"] = prot
    nt = S("NamedTuple")

    class TypeVarM:
        def __init__(self, name, *c, bound=None, covariant=False, contravariant=False):
            self.__name__ = name
            self.__bound__, self.__constraints__ = bound, c

        def __repr__(self):
            return "~" + self.__name__

    class NewTypeM:
        def __init__(self, name, tp):
            self.__name__, self.__supertype__ = name, tp
            self.__qualname__ = name
            self.__module__ = "?"

        def __call__(self, x):
            return x

        def __repr__(self):
            return self.__name__

        def __or__(self, o):
            return TAlias(interp.typing_union, (self, o))
        __ror__ = __or__

    class ForwardRefM:
        def __init__(self, arg):
            self.__forward_arg__ = arg

    def get_origin(t):
        return t.origin if isinstance(t, TAlias) else None

    def get_args(t):
        return t.args if isinstance(t, TAlias) else ()

    def get_type_hints(o, *a, **k):
        ann = {}
        if isinstance(o, Cls):
            for c in reversed(o.mro):
                if isinstance(c, Cls):
                    ann.update(c.ns.get("__annotations__", {}))
        return {k: v for k, v in ann.items()}
    def overload(f):
        return f
    ns.update({"NamedTuple": nt, "TypeVar": TypeVarM, "ParamSpec": TypeVarM, "NewType": NewTypeM, "ForwardRef": ForwardRefM, "cast": lambda t, v: v, "overload": overload, "TYPE_CHECKING": False,
               "no_type_check": lambda f: f, "final": lambda f: f, "override": lambda f: f, "get_origin": get_origin, "get_args": get_args, "get_type_hints": get_type_hints,
               "runtime_checkable": lambda c: (c.ns.__setitem__("__ai_protocol__", True), c)[1], "assert_never": _unsupported("assert_never"), "AnyStr": TypeVarM("AnyStr", str, bytes), "SupportsInt": S("SupportsInt"), "IO": S("IO"), "TextIO": S("TextIO")})
    ns["NoneType"] = type(None)
    ns["TypedDict"] = S("TypedDict")
    return ns


def warnings_module():
    def warn(message, category=UserWarning, stacklevel=1, source=None, **k):
        text = ip().str_(message) if not isinstance(message, str) else message
        cat = ip().type_of(message) if not isinstance(message, str) else category
        if Catch.active and Catch.active[-1][0] is P():
            c = Catch.active[-1][1]
            if c.ignore:
                return
            if c.record:
                c.log.append(types.SimpleNamespace(message=message if not isinstance(message, str) else ip().call(cat, (message,), {}), category=cat, filename="?", lineno=0, line=None))
                return
        P().warnings.append((text, ip().loc()))

    def simple(action, *a, **k):
        if Catch.active and Catch.active[-1][0] is P():
            Catch.active[-1][1].ignore = action == "ignore"
            if action == "error":
                raise AnalysisError("warnings as errors")

    class Catch:
        active = []

        def __init__(self, record=False, **k):
            self.record, self.log, self.ignore = record, [], False

        def __enter__(self):
            Catch.active[:] = [x for x in Catch.active if x[0] is P()] + [(P(), self)]
            return self.log if self.record else None

        def __exit__(self, *a):
            if Catch.active and Catch.active[-1][1] is self:
                Catch.active.pop()
            return False
    return {"warn": warn, "warn_explicit": warn, "catch_warnings": Catch, "simplefilter": simple, "filterwarnings": simple, "resetwarnings": lambda: None, "formatwarning": lambda *a, **k: ""}


def dataclass_module():
    from . import attrmodel

    def field(*, default=attrmodel.NOTHING, default_factory=None, init=True, repr=True, compare=True, hash=None, kw_only=False, metadata=None):
        return attrmodel.attrib(default=default, factory=default_factory, init=init, repr=repr, eq=compare, hash=hash, kw_only=kw_only, metadata=metadata)

    def dataclass(cls=None, *, frozen=False, eq=True, order=False, repr=True, init=True, kw_only=False, unsafe_hash=None, slots=False):
        def wrap(c):
            if "__post_init__" in c.ns:
                c.ns["__attrs_post_init__"] = c.ns["__post_init__"]
            return attrmodel.attr_s(c, auto_attribs=True, frozen=frozen, eq=eq, order=order, repr=repr, init=init, kw_only=kw_only)
        return wrap if cls is None else wrap(cls)
    return {"dataclass": dataclass, "field": field, "replace": attrmodel.evolve, "fields": attrmodel.fields, "asdict": attrmodel.asdict, "astuple": attrmodel.astuple, "is_dataclass": lambda c: attrmodel.has(c if isinstance(c, Cls) else c._c), "KW_ONLY": object(), "InitVar": _unsupported("InitVar"), "FrozenInstanceError": AttributeError}


def math_module():
    import math

    def fl(x):
        from .dom import floor_div
        return Num.mk(floor_div(x.lin, 1)) if isinstance(x, Num) else math.floor(x)

    def ce(x):
        from .dom import floor_div
        return Num.mk(-floor_div(-x.lin, 1)) if isinstance(x, Num) else math.ceil(x)

    def no(f):
        def g(x):
            return False if isinstance(x, (Num, AFloat)) else f(x)
        return g
    ns = {n: getattr(math, n) for n in dir(math) if not n.startswith("_")}
    ns.update({"floor": fl, "ceil": ce, "trunc": lambda x: x.to_int() if isinstance(x, Num) else math.trunc(x), "isnan": no(math.isnan), "isinf": no(math.isinf),
               "isfinite": lambda x: True if isinstance(x, (Num, AFloat)) else math.isfinite(x), "copysign": lambda a, b: math.copysign(a, b)})
    return ns


def load_model(interp, name):
    M = lambda ns: ModuleV(name, ns)
    if name in ("attr", "attrs") or name.startswith(("attr.", "attrs.")):
        if not getattr(interp, "_attr", None):
            from . import attrmodel
            interp._attr = attrmodel.modules(interp, ModuleV)
        return interp._attr.get(name)
    if name == "typing":
        return M(typing_module(interp))
    if name == "re":
        return M(re_module())
    if name == "warnings":
        return M(warnings_module())
    if name == "contextlib":
        return M(contextlib_module())
    if name == "contextvars":
        return M({"ContextVar": CtxVar, "Token": CtxToken, "copy_context": _unsupported("copy_context")})
    if name == "functools":
        return M(functools_module())
    if name == "copy":
        return M({"copy": copy_copy, "deepcopy": copy_deepcopy, "error": _copy.Error, "Error": _copy.Error})
    if name == "textwrap":
        def wrap(text, width=70, **k):
            return TextWrapperM(width, **k).wrap(text)
        import textwrap as tw
        return M({"TextWrapper": TextWrapperM, "wrap": wrap, "fill": lambda t, width=70, **k: TextWrapperM(width, **k).fill(t), "dedent": tw.dedent, "indent": tw.indent, "shorten": _unsupported("shorten")})
    if name == "base64":
        import binascii
        return M({"b64encode": _b64encode, "b64decode": _b64decode, "standard_b64encode": _b64encode, "standard_b64decode": _b64decode,
                  "encodebytes": _unsupported("encodebytes"), "urlsafe_b64encode": lambda b: ABytes(("ub64", b)), "urlsafe_b64decode": lambda b: ABytes(("unub64", b))})
    if name == "uuid":
        return M({"uuid4": _uuid, "uuid1": _uuid, "UUID": UUIDM})
    if name == "dataclasses":
        return M(dataclass_module())
    if name == "math":
        return M(math_module())
    if name == "collections":
        us = stub(interp, "collections._user", "collections_user.py").ns
        ns = {n: getattr(_collections, n) for n in ("defaultdict", "OrderedDict", "deque", "Counter", "ChainMap", "namedtuple")}
        ns.update({n: us[n] for n in ("UserString", "UserDict", "UserList")})
        for n in ("UserString", "UserDict", "UserList"):
            us[n].ns["__module__"] = "collections"
        m = M(ns)
        m.ns["abc"] = interp.modules["collections.abc"]
        return m
    if name == "enum":
        return M({n: getattr(_enum, n) for n in ("Enum", "IntEnum", "Flag", "IntFlag", "StrEnum", "auto", "unique", "EnumMeta")})
    if name == "dateutil":
        return M({"__version__": "2"})
    if name == "dateutil.tz._common":
        interp.import_module("dateutil")
        return stub(interp, name, "dateutil_common.py")
    if name == "dateutil.tz":
        interp.import_module("dateutil")
        interp.import_module("dateutil.tz._common") if "dateutil.tz" in interp.modules else None
        tz = stub(interp, "dateutil.tz.tz", "dateutil_tz.py", {"__ai_local_offset__": lambda: _dtm.timedelta.of(_dtm.local_offset()), "__ai_offset__": offset_of})
        # the package exports the public names only
        m = M({n: tz.ns[n] for n in ("UTC", "tzutc", "tzoffset", "tzlocal", "tzfile", "tzrange", "tzstr", "tzical", "tzwin", "tzwinlocal", "tzrangebase", "gettz")})
        m.ns["tz"] = tz
        return m
    if name == "dateutil.rrule":
        interp.import_module("dateutil")
        return stub(interp, name, "dateutil_rrule.py", {"__ai_rrule_before__": rrule_before, "__ai_unsupported__": lambda n: _unsupported(n)()})
    if name == "ics_vtimezones":
        return stub(interp, name, "ics_vtimezones.py")
    if name == "zoneinfo":
        return stub(interp, name, "zoneinfo.py", {"__ai_offset__": offset_of})
    if name == "types":
        return M({"SimpleNamespace": types.SimpleNamespace, "MappingProxyType": types.MappingProxyType, "FunctionType": FuncV, "MethodType": BoundV, "ModuleType": ModuleV, "NoneType": type(None),
                  "GeneratorType": types.GeneratorType, "new_class": _unsupported("new_class")})
    if name == "sys":
        return M({"version_info": sys.version_info, "platform": "linux", "maxsize": sys.maxsize, "modules": interp.modules, "version": sys.version, "stdout": None, "stderr": None, "argv": [],
                  "getrecursionlimit": lambda: 1000, "intern": lambda s: s, "exc_info": lambda: (None, None, None), "byteorder": "little"})
    if name == "os":
        return M({"environ": {}, "linesep": "\n", "sep": "/", "getenv": lambda k, d=None: d, "getpid": lambda: 1})
    if name == "platform":
        return M({"system": lambda: "Linux", "platform": lambda *a, **k: "Linux-1", "release": lambda: "1", "machine": lambda: "x86_64", "python_version": lambda: "3.12.3", "node": lambda: "host", "python_implementation": lambda: "CPython"})
    if name == "time":
        return M({"time": lambda: AFloat(("time", 0)), "monotonic": lambda: AFloat(("mono", 0)), "sleep": lambda s: None})
    if name == "pprint":
        return M({"pprint": lambda *a, **k: None, "pformat": lambda x, **k: ip().repr_(x)})
    if name == "logging":
        class Log:
            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return lambda *a, **k: None
        lg = Log()
        class Handler:
            def __init__(self, *a, **k):
                pass
        consts = {"NOTSET": 0, "DEBUG": 10, "INFO": 20, "WARNING": 30, "WARN": 30, "ERROR": 40, "CRITICAL": 50, "FATAL": 50}
        return M({**consts, "Logger": Log, "NullHandler": Handler, "StreamHandler": Handler, "Handler": Handler, "Formatter": Handler, "LoggerAdapter": lambda *a, **k: lg, "basicConfig": lambda *a, **k: None, "captureWarnings": lambda *a: None,
                  "exception": lambda *a, **k: None, "critical": lambda *a, **k: None, "log": lambda *a, **k: None, "getLogger": lambda *a: lg, "warning": lambda *a, **k: None, "debug": lambda *a, **k: None, "info": lambda *a, **k: None, "error": lambda *a, **k: None})
    if name == "itertools":
        return M(itertools_module())
    if name == "operator":
        return M(operator_module())
    if name == "builtins":
        return M(dict(interp.builtins))
    if name in ("__future__",):
        return M({"annotations": None})
    if name in ("heapq", "bisect", "string", "numbers", "urllib", "urllib.parse", "keyword", "unicodedata", "html", "io", "decimal", "fractions", "calendar", "locale", "random", "hashlib", "json", "inspect", "weakref", "threading"):
        try:
            nm = importlib.import_module(name)
        except ImportError:
            return None
        if name in ("inspect", "weakref", "threading", "json", "hashlib", "random", "io", "calendar", "locale"):
            ns = {}
            if name == "weakref":
                ns = {"ref": lambda x, *a: (lambda: x), "WeakKeyDictionary": dict, "WeakValueDictionary": dict, "WeakSet": set}
            if name == "io":
                ns = {n: getattr(nm, n) for n in ("StringIO", "BytesIO")}
            if name == "threading":
                ns = {"Lock": lambda: _Simple(lambda: None, lambda *a: False), "RLock": lambda: _Simple(lambda: None, lambda *a: False), "local": types.SimpleNamespace}
            return M(ns)
        return M({n: getattr(nm, n) for n in dir(nm) if not n.startswith("__")})
    return None


def itertools_module():
    import itertools as I
    ns = {n: getattr(I, n) for n in dir(I) if not n.startswith("_")}
    W = lambda f: (lambda *a, **k: f(*[ip().iter_(x) for x in a], **k))
    call = lambda f: (lambda *a: ip().call(f, a, {}))

    def groupby(it, key=None):
        groups, last = [], MISSING

        class G:
            pass
        # lazily, like the real one
        src = ip().iter_(it)
        kf = (lambda x: x) if key is None else call(key)
        st = {"cur": MISSING, "k": MISSING, "done": False}

        def adv():
            try:
                st["cur"] = next(src)
            except StopIteration:
                st["done"] = True
                return False
            st["k"] = kf(st["cur"])
            return True

        def grp(k):
            while True:
                yield st["cur"]
                if not adv() or not ip().truth(ip().eq(st["k"], k)):
                    return

        def outer():
            if not adv():
                return
            while not st["done"]:
                k = st["k"]
                g = grp(k)
                yield (k, g)
                for _ in g:
                    pass
                if not st["done"] and ip().truth(ip().eq(st["k"], k)):
                    # group iterator was exhausted early (or never started)
                    while adv():
                        if not ip().truth(ip().eq(st["k"], k)):
                            break
        return outer()
    ns["groupby"] = groupby

    def dropwhile(p, it):
        it = ip().iter_(it)
        for x in it:
            if not ip().truth(ip().call(p, (x,), {})):
                yield x
                break
        yield from it

    def takewhile(p, it):
        for x in ip().iter_(it):
            if not ip().truth(ip().call(p, (x,), {})):
                return
            yield x

    def filterfalse(p, it):
        for x in ip().iter_(it):
            if not ip().truth(x if p is None else ip().call(p, (x,), {})):
                yield x

    def islice(it, *a):
        return I.islice(ip().iter_(it), *[ip().idx(x) for x in a])

    class chain:
        def __new__(cls, *its):
            def g():
                for i in its:
                    yield from ip().iter_(i)
            return g()

        @staticmethod
        def from_iterable(its):
            for i in ip().iter_(its):
                yield from ip().iter_(i)
    ns.update({"dropwhile": dropwhile, "takewhile": takewhile, "filterfalse": filterfalse, "islice": islice, "chain": chain, "starmap": lambda f, it: (ip().call(f, tuple(x), {}) for x in ip().iter_(it)),
               "zip_longest": W(I.zip_longest), "product": W(I.product), "cycle": W(I.cycle)})
    return ns


def operator_module():
    import operator as O
    ns = {n: getattr(O, n) for n in dir(O) if not n.startswith("_")}
    i = ip

    def attrgetter(*names):
        def get(o, n):
            for p in n.split("."):
                o = i().getattr_(o, p)
            return o
        if len(names) == 1:
            return lambda o: get(o, names[0])
        return lambda o: tuple(get(o, n) for n in names)

    def itemgetter(*ks):
        if len(ks) == 1:
            return lambda o: i().getitem(o, ks[0])
        return lambda o: tuple(i().getitem(o, k) for k in ks)

    def methodcaller(name, *a, **k):
        return lambda o: i().call(i().getattr_(o, name), a, k)
    for n, op in (("lt", "__lt__"), ("le", "__le__"), ("gt", "__gt__"), ("ge", "__ge__")):
        ns[n] = (lambda op: lambda a, b: i().rich(a, b, op))(op)
    ns.update({"attrgetter": attrgetter, "itemgetter": itemgetter, "methodcaller": methodcaller, "eq": lambda a, b: i().eq(a, b), "ne": lambda a, b: i().ne(a, b),
               "not_": lambda a: not i().truth(a), "truth": lambda a: i().truth(a), "contains": lambda c, x: i().contains(x, c), "getitem": lambda o, k: i().getitem(o, k),
               "add": lambda a, b: i().binop(ast.Add, a, b), "sub": lambda a, b: i().binop(ast.Sub, a, b), "mul": lambda a, b: i().binop(ast.Mult, a, b)})
    return ns
