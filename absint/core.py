"""A (static) abstract interpreter for the Python subset used by /repo.

The sources are parsed, never imported: every expression is evaluated over the
abstract values of ``dom``/``dt`` and undecided branches split the trace partition.
"""
import ast
import builtins
import os
import sys
import types

from .dom import CTX, AFloat, AnalysisError, Num, P, PathAbort, case_map, has_digit_marker, has_marker, percent_format, shadow, text_to_float, text_to_num
from . import dt as _dtm


class PyRaise(Exception):
    """an exception instance of an interpreted class in flight"""

    def __init__(self, value):
        self.value = value

    def __str__(self):
        try:
            return "%s: %s" % (self.value._c.name, CTX.interp.str_(self.value))
        except Exception:
            return self.value._c.name


class StepLimit(BaseException):
    pass


class Obj:
    __slots__ = ("_c", "_d", "__weakref__")

    def __init__(self, c):
        object.__setattr__(self, "_c", c)
        object.__setattr__(self, "_d", {})

    def __getattr__(self, n):
        if n.startswith("__") and n in ("__array__", "__wrapped__", "__length_hint__", "__index__", "__int__", "__float__", "__copy__", "__deepcopy__", "__reduce_ex__", "__getstate__", "__fspath__", "__bytes__", "__complex__", "__trunc__"):
            raise AttributeError(n)
        return CTX.interp.getattr_(self, n)

    def __setattr__(self, n, v):
        CTX.interp.setattr_(self, n, v)

    def __delattr__(self, n):
        CTX.interp.delattr_(self, n)

    def __call__(self, *a, **k):
        return CTX.interp.call(self, a, k)

    def __eq__(self, o):
        return CTX.interp.eq_raw(self, o)

    def __ne__(self, o):
        return CTX.interp.ne_raw(self, o)

    def __lt__(self, o):
        return CTX.interp.rich_raw(self, o, "__lt__")

    def __gt__(self, o):
        return CTX.interp.rich_raw(self, o, "__gt__")

    def __le__(self, o):
        return CTX.interp.rich_raw(self, o, "__le__")

    def __ge__(self, o):
        return CTX.interp.rich_raw(self, o, "__ge__")

    def __hash__(self):
        return CTX.interp.hash_(self)

    def __bool__(self):
        return CTX.interp.truth(self)

    def __len__(self):
        return CTX.interp.call_special(self, "__len__", TypeError)

    def __iter__(self):
        return CTX.interp.iter_(self)

    def __next__(self):
        return CTX.interp.call_special(self, "__next__", TypeError)

    def __contains__(self, x):
        return CTX.interp.contains(x, self)

    def __getitem__(self, i):
        return CTX.interp.getitem(self, i)

    def __setitem__(self, i, v):
        CTX.interp.setitem(self, i, v)

    def __delitem__(self, i):
        CTX.interp.call_special(self, "__delitem__", TypeError, i)

    def __str__(self):
        return CTX.interp.str_(self)

    def __repr__(self):
        return CTX.interp.repr_(self)

    def __format__(self, spec):
        return CTX.interp.format_(self, spec)

    def __enter__(self):
        return CTX.interp.call_method(self, "__enter__")

    def __exit__(self, *a):
        return CTX.interp.call_method(self, "__exit__", *a)

    def __add__(self, o):
        return CTX.interp.binop(ast.Add, self, o)

    def __radd__(self, o):
        return CTX.interp.binop(ast.Add, o, self)

    def __reversed__(self):
        return CTX.interp.reversed_(self)


class Cls:
    def __init__(self, name, bases, ns, meta, module=None):
        self.name, self.bases, self.ns, self.meta = name, bases, ns, meta
        self.mro = None
        self.subs = []
        self.module = module
        self.abstract = ()

    def __repr__(self):
        return "<class '%s.%s'>" % (self.ns.get("__module__", "?"), self.name)

    def __call__(self, *a, **k):
        return CTX.interp.call(self, a, k)

    def __getattr__(self, n):
        if n.startswith("_ai_") or n in ("__wrapped__", "__set_name__"):
            raise AttributeError(n)
        ip = CTX.interp
        if ip is None:
            raise AttributeError(n)
        return ip.getattr_(self, n)

    def __getitem__(self, i):
        return CTX.interp.getitem(self, i)

    # identity eq/hash unless the metaclass says otherwise
    def __or__(self, o):
        return TAlias(CTX.interp.typing_union, tuple(_flat((self, o))))

    __ror__ = __or__


def _flat(args):
    out = []
    for a in args:
        if isinstance(a, TAlias) and CTX.interp and a.origin is CTX.interp.typing_union:
            for b in a.args:
                if b not in out:
                    out.append(b)
        else:
            if a is None:
                a = type(None)
            if a not in out:
                out.append(a)
    return out


class TSpecial:
    """typing special forms (Any, Union, ClassVar, ...)"""

    def __init__(self, name, base=None):
        self.name = name
        self.base = base  # runtime class (native or Cls) or None

    def __repr__(self):
        return "typing." + self.name

    def __getitem__(self, args):
        if not isinstance(args, tuple):
            args = (args,)
        if self.name == "Optional":
            args = tuple(_flat(args + (type(None),)))
            return TAlias(CTX.interp.typing_union, args) if len(args) > 1 else args[0]
        if self.name == "Union":
            args = tuple(_flat(args))
            return TAlias(self, args) if len(args) > 1 else args[0]
        return TAlias(self.base if self.base is not None else self, args)

    def __call__(self, *a, **k):
        if self.base is not None:
            return CTX.interp.call(self.base, a, k)
        raise TypeError("%r is not callable" % self)

    def __or__(self, o):
        return TAlias(CTX.interp.typing_union, tuple(_flat((self, o))))

    __ror__ = __or__


class TAlias:
    def __init__(self, origin, args):
        self.origin, self.args = origin, args

    __origin__ = property(lambda s: s.origin)
    __args__ = property(lambda s: s.args)

    def __eq__(self, o):
        if not isinstance(o, TAlias) or o.origin is not self.origin:
            return False
        if self.origin is CTX.interp.typing_union:
            return len(self.args) == len(o.args) and all(a in o.args for a in self.args)
        return self.args == o.args

    def __hash__(self):
        return hash(id(self.origin))

    def __repr__(self):
        return "%r[%s]" % (self.origin, ", ".join(map(repr, self.args)))

    def __call__(self, *a, **k):
        return CTX.interp.call(self.origin, a, k)

    def __getitem__(self, args):
        return TAlias(self.origin, args if isinstance(args, tuple) else (args,))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return CTX.interp.getattr_(self.origin, n)

    def __or__(self, o):
        return TAlias(CTX.interp.typing_union, tuple(_flat((self, o))))

    __ror__ = __or__


def _real_types():
    import datetime as d
    return {_dtm.datetime: d.datetime, _dtm.date: d.date, _dtm.time: d.time, _dtm.timedelta: d.timedelta, Num: int, AFloat: float}


_REAL = _real_types()
_STDLIB = set(sys.stdlib_module_names) - {"this", "antigravity", "idlelib"}


def real_module_has(mod, name):
    """does the standard library's module have that name (although the model of it lacks it)?"""
    if mod.split(".")[0] not in _STDLIB:
        return False
    import importlib
    try:
        return hasattr(importlib.import_module(mod), name)
    except ImportError:
        return False


def unmodelled(mod, name):
    """a name of the standard library that has no model: using it (not merely importing it) ends the analysis of the partition"""
    import importlib
    v = getattr(importlib.import_module(mod), name)
    if isinstance(v, (int, float, str, bytes, tuple, frozenset, type(None))):
        return v
    if isinstance(v, types.ModuleType):
        return CTX.interp.import_module(v.__name__)
    from . import libs
    return libs._unsupported("%s.%s" % (mod, name))


class ModuleV:
    def __init__(self, name, ns=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.ns.setdefault("__name__", name)

    def __getattr__(self, n):
        try:
            return self.ns[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "<module %r>" % self.name


class FuncV:
    """a user function (closure)"""

    def __init__(self, node, name, frame, globs, defaults, kwdefaults, mangle, modfile, qual):
        self.__dict__.update(node=node, frame=frame, globs=globs, defaults=defaults, kwdefaults=kwdefaults, mangle=mangle, file=modfile, defcls=None, info=func_info(node))
        self.__name__ = name
        self.__qualname__ = qual
        self.__doc__ = None
        self.__module__ = globs.get("__name__")

    def __call__(self, *a, **k):
        return CTX.interp.call_func(self, a, k)

    def __get__(self, inst, owner=None):
        if inst is None:
            return self
        return BoundV(self, inst)

    def __repr__(self):
        return "<function %s>" % self.__qualname__

    __defaults__ = property(lambda s: tuple(s.defaults) or None)
    __kwdefaults__ = property(lambda s: dict(s.kwdefaults) or None)


class BoundV:
    __slots__ = ("f", "self_")

    def __init__(self, f, s):
        self.f, self.self_ = f, s

    def __call__(self, *a, **k):
        return CTX.interp.call(self.f, (self.self_,) + tuple(a), k)

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.f == self.f and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.f), id(self.self_)))

    __func__ = property(lambda s: s.f)
    __self__ = property(lambda s: s.self_)
    __name__ = property(lambda s: getattr(s.f, "__name__", "?"))
    __doc__ = property(lambda s: getattr(s.f, "__doc__", None))
    __isabstractmethod__ = property(lambda s: getattr(s.f, "__isabstractmethod__", False))

    def __repr__(self):
        return "<bound method %s>" % self.__name__


class StaticV:
    def __init__(self, f):
        self.f = f
        self.__func__ = f

    __isabstractmethod__ = property(lambda s: getattr(s.f, "__isabstractmethod__", False))

    def __call__(self, *a, **k):
        return CTX.interp.call(self.f, a, k)


class ClassMV:
    def __init__(self, f):
        self.f = f
        self.__func__ = f

    __isabstractmethod__ = property(lambda s: getattr(s.f, "__isabstractmethod__", False))


class PropertyV:
    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel

    __isabstractmethod__ = property(lambda s: any(getattr(f, "__isabstractmethod__", False) for f in (s.fget, s.fset, s.fdel)))

    def getter(self, f):
        return PropertyV(f, self.fset, self.fdel)

    def setter(self, f):
        return PropertyV(self.fget, f, self.fdel)

    def deleter(self, f):
        return PropertyV(self.fget, self.fset, f)


class CachedPropertyV:
    def __init__(self, f):
        self.f = f
        self.name = getattr(f, "__name__", None)


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Frame:
    __slots__ = ("vars", "info", "parent", "globs", "func", "kind", "mangle", "line", "file", "clscell", "overrides", "exc")

    def __init__(self, vars, info, parent, globs, func, kind, mangle, file):
        self.vars, self.info, self.parent, self.globs, self.func = vars, info, parent, globs, func
        self.kind, self.mangle, self.file = kind, mangle, file
        self.line = 0
        self.clscell = None
        self.overrides = None
        self.exc = None


class FInfo:
    __slots__ = ("locals", "globals", "nonlocals", "isgen", "args", "defnode")


_finfo = {}


def _targets(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _targets(e, out)
    elif isinstance(t, ast.Starred):
        _targets(t.value, out)


def scan_scope(body, out, glob, nonl):
    """names bound in this scope; returns whether it contains yield"""
    gen = False
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            stack += n.decorator_list
            if isinstance(n, ast.ClassDef):
                stack += n.bases + [k.value for k in n.keywords]
            else:
                stack += n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        if isinstance(n, ast.Lambda):
            stack += n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets bind in the enclosing scope
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    _targets(w.target, out)
            stack.append(n.generators[0].iter)
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.MatchAs):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.MatchStar):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                out.add(n.rest)
        stack += list(ast.iter_child_nodes(n))
    return gen


def func_info(node):
    fi = _finfo.get(id(node))
    if fi is not None:
        return fi
    fi = FInfo()
    loc, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    body = [node.body] if isinstance(node, ast.Lambda) else node.body
    fi.isgen = scan_scope(body, loc, glob, nonl)
    fi.locals = loc - glob - nonl
    fi.globals, fi.nonlocals = glob, nonl
    fi.args = a
    fi.defnode = node
    _finfo[id(node)] = fi
    return fi


def comp_info(node):
    fi = _finfo.get(id(node))
    if fi is None:
        fi = FInfo()
        loc = set()
        for g in node.generators:
            _targets(g.target, loc)
        fi.locals, fi.globals, fi.nonlocals, fi.isgen, fi.args, fi.defnode = loc, set(), set(), False, None, node
        _finfo[id(node)] = fi
    return fi


def class_info(node):
    fi = _finfo.get(id(node))
    if fi is None:
        fi = FInfo()
        loc, glob, nonl = set(), set(), set()
        scan_scope(node.body, loc, glob, nonl)
        fi.locals, fi.globals, fi.nonlocals, fi.isgen, fi.args, fi.defnode = loc, glob, nonl, False, None, node
        _finfo[id(node)] = fi
    return fi


_hasyield = {}


def has_yield(node):
    r = _hasyield.get(id(node))
    if r is None:
        r = False
        stack = [node]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack += list(ast.iter_child_nodes(n))
        _hasyield[id(node)] = r
        _keep.append(node)
    return r


_keep = []
MISSING = object()
RET, BRK, CNT = "ret", "brk", "cnt"


class Interp:
    def __init__(self, srcdir, step_limit=4_000_000):
        self.srcdir = srcdir
        self.modules = {}
        self.native_mods = {}
        self.files = {}
        self.stack = []
        self.reached = {}
        self.calls = 0
        self.callsites = set()
        self.steps = 0
        self.step_limit = step_limit
        self.trace = []
        self.raise_log = []
        self.entries = None
        self.tracing = False
        CTX.interp = self
        from . import libs
        self.object_cls = libs.make_object(self)
        self.type_cls = libs.make_type(self)
        self.object_cls.meta = self.type_cls
        self.typing_union = TSpecial("Union")
        self.excbase_cls = libs.make_excbase(self)
        self.builtins = libs.make_builtins(self)
        self.tzinfo_cls = None
        self.rrule_hook = None
        self.loading = set()
        libs.install(self)

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        from . import libs
        if name == "ics" or name.startswith("ics."):
            if "." in name:
                self.import_module(name.rsplit(".", 1)[0])
                if name in self.modules:
                    return self.modules[name]
            path = os.path.join(self.srcdir, *name.split("."))
            if os.path.isdir(path):
                pkg, path = True, os.path.join(path, "__init__.py")
            else:
                pkg, path = False, path + ".py"
            if not os.path.exists(path):
                raise ModuleNotFoundError("No module named %r" % name)
            with open(path, encoding="utf-8") as f:
                src = f.read()
            return self.load_source(name, src, path, pkg)
        self.loading.add(name)
        try:
            m = libs.load_model(self, name)
        finally:
            self.loading.discard(name)
        if m is None and name in _STDLIB:
            m = ModuleV(name)  # its names are unmodelled
        if m is None:
            raise ModuleNotFoundError("No module named %r" % name)
        self.modules[name] = m
        self._bind_sub(name, m)
        return m

    def _bind_sub(self, name, m):
        if "." in name:
            p, c = name.rsplit(".", 1)
            if p in self.loading:
                return
            pm = self.import_module(p)
            if isinstance(pm, ModuleV):
                pm.ns[c] = m

    def load_source(self, name, src, path, pkg=False, ns=None):
        tree = ast.parse(src, path)
        self.files[path] = tree
        _keep.append(tree)
        m = ModuleV(name, ns if ns is not None else {})
        m.ns.update({"__name__": name, "__file__": path, "__package__": name if pkg else name.rpartition(".")[0], "__doc__": None, "__builtins__": None})
        self.modules[name] = m
        fr = Frame(m.ns, None, None, m.ns, None, "module", None, path)
        self.stack.append(fr)
        try:
            self.exec_block(tree.body, fr)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack.pop()
        self._bind_sub(name, m)
        return m

    def mod(self, name):
        return self.import_module(name).ns

    def resolve_from(self, node, fr):
        base = node.module or ""
        if node.level:
            pkg = fr.globs.get("__package__") or ""
            parts = pkg.split(".") if pkg else []
            if node.level > 1:
                parts = parts[: -(node.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        return base

    # ------------------------------------------------------------ location
    def loc(self):
        for f in reversed(self.stack):
            if f.file and f.file.startswith(self.srcdir):
                return "%s:%s (%s)" % (os.path.relpath(f.file, os.path.dirname(self.srcdir)), f.line, f.func.__qualname__ if f.func else "<module>")
        return "?"

    # ------------------------------------------------------------ names
    def mangle(self, name, fr):
        if fr.mangle and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (fr.mangle, name)
        return name

    def load_name(self, name, fr):
        f = fr
        if f.kind == "class":
            if name in f.vars:
                return f.vars[name]
            if f.info and name in f.info.globals:
                f = None
            else:
                f = f.parent
        first = True
        while f is not None:
            if f.kind == "class":
                f = f.parent
                continue
            if f.kind == "module":
                break
            info = f.info
            if name in info.locals:
                v = f.vars.get(name, MISSING)
                if v is MISSING:
                    if first:
                        raise UnboundLocalError("cannot access local variable %r where it is not associated with a value" % name)
                    raise NameError("cannot access free variable %r" % name)
                return v
            if name in info.globals:
                break
            if name == "__class__" and f.func is not None and f.func.defcls is not None:
                return f.func.defcls
            f = f.parent
            first = False
        g = fr.globs
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        raise NameError("name %r is not defined" % name)

    def store_name(self, name, v, fr):
        if fr.kind == "module":
            fr.vars[name] = v
            return
        info = fr.info
        if name in info.globals:
            fr.globs[name] = v
            return
        if name in info.nonlocals:
            f = fr.parent
            while f is not None:
                if f.kind == "func" and name in f.info.locals:
                    f.vars[name] = v
                    return
                f = f.parent
            raise AnalysisError("nonlocal %s not found" % name)
        if fr.kind == "comp" and name not in info.locals:
            # walrus inside a comprehension
            return self.store_name(name, v, fr.parent)
        fr.vars[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            sig = self.exec_stmt(s, fr)
            if sig is not None:
                return sig
        return None

    def tick(self, node, fr):
        self.steps += 1
        fr.line = node.lineno
        if self.steps > self.step_limit:
            raise StepLimit("more than %d abstract steps at %s" % (self.step_limit, self.loc()))

    def exec_stmt(self, s, fr):
        self.tick(s, fr)
        m = _STMT.get(type(s))
        if m is None:
            raise AnalysisError("unsupported statement %s at %s:%s" % (type(s).__name__, fr.file, s.lineno))
        return m(self, s, fr)

    def s_expr(self, s, fr):
        self.eval(s.value, fr)

    def s_assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_annassign(self, s, fr):
        if fr.kind in ("class", "module") and isinstance(s.target, ast.Name):
            try:
                ann = self.eval(s.annotation, fr)
            except NameError:
                if s.value is not None:
                    raise
                raise
            name = self.mangle(s.target.id, fr)
            fr.vars.setdefault("__annotations__", {})[name] = ann
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_augassign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            n = self.mangle(t.id, fr)
            v = self.iop(type(s.op), self.load_name(n, fr), self.eval(s.value, fr))
            self.store_name(n, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            n = self.mangle(t.attr, fr)
            self.setattr_(o, n, self.iop(type(s.op), self.getattr_(o, n), self.eval(s.value, fr)))
        else:
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            self.setitem(o, i, self.iop(type(s.op), self.getitem(o, i), self.eval(s.value, fr)))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(self.mangle(t.id, fr), v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise AnalysisError("assign target")

    def unpack(self, elts, v, fr):
        vals = list(self.iter_(v))
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                raise ValueError("not enough values to unpack")
            for e, x in zip(elts[:i], vals):
                self.assign(e, x, fr)
            self.assign(elts[i].value, vals[i:len(vals) - after], fr)
            for e, x in zip(elts[i + 1:], vals[len(vals) - after:]):
                self.assign(e, x, fr)
            return
        if len(vals) < len(elts):
            raise ValueError("not enough values to unpack (expected %d, got %d)" % (len(elts), len(vals)))
        if len(vals) > len(elts):
            raise ValueError("too many values to unpack (expected %d)" % len(elts))
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    def s_delete(self, s, fr):
        for t in s.targets:
            self.delete(t, fr)

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            n = self.mangle(t.id, fr)
            if n in fr.vars:
                del fr.vars[n]
            else:
                raise NameError("name %r is not defined" % n)
        elif isinstance(t, ast.Attribute):
            self.delattr_(self.eval(t.value, fr), self.mangle(t.attr, fr))
        elif isinstance(t, ast.Subscript):
            o, i = self.eval(t.value, fr), self.eval(t.slice, fr)
            if isinstance(o, Obj):
                self.call_special(o, "__delitem__", TypeError, i)
            else:
                del o[self.idx(i)]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, fr)

    def s_if(self, s, fr):
        return self.exec_block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)

    def s_while(self, s, fr):
        while self.truth(self.eval(s.test, fr)):
            self.steps += 1
            if self.steps > self.step_limit:
                raise StepLimit("loop at %s" % self.loc())
            sig = self.exec_block(s.body, fr)
            if sig is not None:
                if sig[0] is BRK:
                    return None
                if sig[0] is RET:
                    return sig
        return self.exec_block(s.orelse, fr)

    def s_for(self, s, fr):
        for v in self.iter_(self.eval(s.iter, fr)):
            self.assign(s.target, v, fr)
            sig = self.exec_block(s.body, fr)
            if sig is not None:
                if sig[0] is BRK:
                    return None
                if sig[0] is RET:
                    return sig
            fr.line = s.lineno
        return self.exec_block(s.orelse, fr)

    def s_return(self, s, fr):
        return (RET, self.eval(s.value, fr) if s.value is not None else None)

    def s_break(self, s, fr):
        return (BRK, None)

    def s_continue(self, s, fr):
        return (CNT, None)

    def s_pass(self, s, fr):
        return None

    def s_raise(self, s, fr):
        if s.exc is None:
            if fr.exc is None:
                f = fr
                while f is not None and f.exc is None:
                    f = f.parent
                if f is None:
                    raise RuntimeError("No active exception to reraise")
                raise f.exc
            raise fr.exc
        e = self.eval(s.exc, fr)
        if s.cause is not None:
            cause = self.eval(s.cause, fr)
            if isinstance(e, Cls) or isinstance(e, type):
                e = self.call(e, (), {})
            if isinstance(e, Obj):
                e._d["__cause__"], e._d["__suppress_context__"] = cause, True
            elif isinstance(e, BaseException) and (cause is None or isinstance(cause, BaseException)):
                e.__cause__ = cause
        self.raise_(e)

    def raise_(self, e):
        if isinstance(e, Cls) or (isinstance(e, type) and issubclass(e, BaseException)):
            e = self.call(e, (), {})
        if isinstance(e, Obj):
            raise PyRaise(e)
        if isinstance(e, BaseException):
            raise e
        raise TypeError("exceptions must derive from BaseException")

    def s_assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise AssertionError(self.str_(self.eval(s.msg, fr)) if s.msg is not None else "")

    @staticmethod
    def exc_value(e):
        return e.value if isinstance(e, PyRaise) else e

    def match_handler(self, e, handlers, fr):
        v = self.exc_value(e)
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, fr)
            if self.isinstance_(v, t):
                return h
        return None

    def note_exc(self, e, fr):
        if not getattr(e, "_ai_loc", None):
            try:
                e._ai_loc = self.loc()
            except Exception:
                pass

    def s_try(self, s, fr):
        sig = None
        try:
            try:
                sig = self.exec_block(s.body, fr)
            except Exception as e:
                self.note_exc(e, fr)
                h = self.match_handler(e, s.handlers, fr)
                if h is None:
                    raise
                sig = self.run_handler(h, e, fr)
            else:
                if sig is None and s.orelse:
                    sig = self.exec_block(s.orelse, fr)
        except (AnalysisError, PathAbort, StepLimit):
            raise
        except BaseException:
            if s.finalbody:
                sig2 = self.exec_block(s.finalbody, fr)
                if sig2 is not None:
                    return sig2
            raise
        if s.finalbody:
            sig2 = self.exec_block(s.finalbody, fr)
            if sig2 is not None:
                return sig2
        return sig

    def run_handler(self, h, e, fr):
        old = fr.exc
        fr.exc = e
        if h.name:
            self.store_name(h.name, self.exc_value(e), fr)
        try:
            return self.exec_block(h.body, fr)
        finally:
            fr.exc = old
            if h.name:
                fr.vars.pop(h.name, None)

    def s_with(self, s, fr):
        return self._with(s.items, s.body, fr)

    def _with(self, items, body, fr):
        if not items:
            return self.exec_block(body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        ent, ext = self.getattr_(cm, "__enter__"), self.getattr_(cm, "__exit__")
        v = self.call(ent, (), {})
        sig = None
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            sig = self._with(items[1:], body, fr)
        except (AnalysisError, PathAbort, StepLimit):
            raise
        except BaseException as e:
            val = self.exc_value(e)
            if not self.truth(self.call(ext, (self.type_of(val), val, None), {})):
                raise
            return None
        self.call(ext, (None, None, None), {})
        return sig

    def s_import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_module(top), fr)

    def s_importfrom(self, s, fr):
        base = self.resolve_from(s, fr)
        if base == "__future__":
            return
        m = self.import_module(base)
        for a in s.names:
            if a.name == "*":
                names = m.ns.get("__all__")
                if names is None:
                    names = [n for n in m.ns if not n.startswith("_")]
                for n in names:
                    self.store_name(n, self.getattr_(m, n), fr)
                continue
            try:
                v = self.getattr_(m, a.name)
            except AttributeError:
                try:
                    v = self.import_module(base + "." + a.name)
                except ModuleNotFoundError:
                    raise ImportError("cannot import name %r from %r" % (a.name, base))
            self.store_name(a.asname or a.name, v, fr)

    def s_scope(self, s, fr):
        return None

    def make_func(self, node, fr, name):
        defaults = [self.eval(d, fr) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        q = name
        if fr.kind == "class":
            q = fr.vars.get("__qualname__", "?") + "." + name
        elif fr.func is not None:
            q = fr.func.__qualname__ + ".<locals>." + name
        parent = fr
        if fr.kind == "module":
            parent = None
        f = FuncV(node, name, parent, fr.globs, tuple(defaults), kwd, fr.mangle, fr.file, q)
        if fr.func is not None and fr.kind != "class" and f.defcls is None:
            f.__dict__["defcls"] = fr.func.defcls
        return f

    def s_funcdef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        if s.body and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) and isinstance(s.body[0].value.value, str):
            f.__doc__ = s.body[0].value.value
        if s.returns is not None or any(a.annotation for a in s.args.args):
            f.__dict__["__annotations__"] = {}
        if fr.kind == "class":
            fr.vars.setdefault("__ai_funcs__", []).append(f)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), (v,), {})
        self.store_name(self.mangle(s.name, fr), v, fr)

    def s_classdef(self, s, fr):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases += list(self.iter_(self.eval(b.value, fr)))
            else:
                bases.append(self.eval(b, fr))
        kw = {}
        for k in s.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, fr))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        q = s.name
        if fr.kind == "class":
            q = fr.vars.get("__qualname__", "?") + "." + s.name
        elif fr.func is not None:
            q = fr.func.__qualname__ + ".<locals>." + s.name
        ns = {"__module__": fr.globs.get("__name__"), "__qualname__": q}
        cf = Frame(ns, class_info(s), fr if fr.kind != "module" else None, fr.globs, fr.func, "class", s.name, fr.file)
        self.stack.append(cf)
        try:
            self.exec_block(s.body, cf)
        finally:
            self.stack.pop()
        funcs = ns.pop("__ai_funcs__", [])
        if s.body and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) and isinstance(s.body[0].value.value, str):
            ns["__doc__"] = s.body[0].value.value
        c = self.build_class(s.name, bases, ns, kw, funcs)
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, fr), (c,), {})
        self.store_name(self.mangle(s.name, fr), c, fr)

    def build_class(self, name, bases, ns, kw, funcs=(), raw=False):
        from . import libs
        meta = kw.pop("metaclass", None)
        rb = []
        for k, b in enumerate(bases):
            if isinstance(b, TAlias):
                b = b.origin
                if isinstance(b, Cls) and b.name == "Generic" and b.ns.get("__module__") == "typing" and any(isinstance(x, TAlias) and x.origin is not b for x in bases[k + 1:]):
                    continue
            if isinstance(b, TSpecial):
                if b.base is not None and isinstance(b.base, Cls) or b.base in (dict, list):
                    b = b.base
                elif b.name == "NamedTuple":
                    return libs.make_namedtuple(self, name, ns, funcs)
                elif b.name == "TypedDict":
                    return lambda *a, **k: dict(*a, **k)
                else:
                    continue
            if b is libs.ENUM_BASES.get(getattr(b, "__name__", None)):
                return libs.make_enum(self, name, b, ns)
            if isinstance(b, type) and hasattr(b, "_member_map_"):
                return libs.make_enum(self, name, b, ns)
            if b is object:
                b = self.object_cls
            if b is dict or b is list:
                b = libs.native_base(self, b)
            rb.append(b)
        if not rb or all(not isinstance(b, Cls) for b in rb):
            rb2 = rb + [self.object_cls]
        else:
            rb2 = rb
        if meta is None:
            for b in rb2:
                if isinstance(b, Cls) and b.meta is not self.type_cls and b.meta is not None:
                    if meta is None or self.issubclass_(b.meta, meta):
                        meta = b.meta
            meta = meta or self.type_cls
        if not raw and isinstance(meta, Cls) and meta is not self.type_cls:
            new = self.lookup(meta, "__new__")
            new = new.f if isinstance(new, StaticV) else new
            init = self.lookup(meta, "__init__")
            if isinstance(new, FuncV) or isinstance(init, FuncV):
                for f in funcs:
                    ns.setdefault("__ai_funcs__", []).append(f)
                if isinstance(new, FuncV):
                    c = self.call(new, (meta, name, tuple(rb), ns), dict(kw))
                else:
                    c = self.build_class(name, rb, ns, {"metaclass": meta, **kw}, raw=True)
                if isinstance(init, FuncV) and isinstance(c, Cls):
                    self.call(init, (c, name, tuple(rb), ns), dict(kw))
                return c
        funcs = list(funcs) + ns.pop("__ai_funcs__", [])
        c = Cls(name, tuple(rb2), ns, meta, ns.get("__module__"))
        c.mro = self.c3(c)
        for f in funcs:
            f.__dict__["defcls"] = c
            self._fix_inner(f, c)
        for v in list(ns.values()):
            for g in self._funcs_of(v):
                if g.defcls is None:
                    g.__dict__["defcls"] = c
        # abstract methods
        ab = set()
        for b in rb2:
            if isinstance(b, Cls):
                ab |= set(b.abstract)
        ab = {n for n in ab if getattr(self.lookup(c, n), "__isabstractmethod__", False)}
        ab |= {n for n, v in ns.items() if self._is_abstract(v)}
        c.abstract = frozenset(ab)
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = None
        for n, v in list(ns.items()):
            if isinstance(v, Obj) and self.lookup(v._c, "__set_name__") is not MISSING:
                self.call_method(v, "__set_name__", c, n)
            elif isinstance(v, CachedPropertyV):
                v.name = n
        for b in rb2:
            if isinstance(b, Cls):
                b.subs.append(c)
        # __init_subclass__
        for b in c.mro[1:]:
            if isinstance(b, Cls) and "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                f = f.f if isinstance(f, (ClassMV, StaticV)) else f
                self.call(f, (c,), kw)
                break
        return c

    def _is_abstract(self, v):
        try:
            return bool(object.__getattribute__(v, "__dict__").get("__isabstractmethod__", False)) if isinstance(v, FuncV) else (isinstance(v, (PropertyV, StaticV, ClassMV)) and v.__isabstractmethod__)
        except AttributeError:
            return False

    def _funcs_of(self, v):
        if isinstance(v, FuncV):
            yield v
        elif isinstance(v, (StaticV, ClassMV, CachedPropertyV)):
            yield from self._funcs_of(v.f)
        elif isinstance(v, PropertyV):
            for f in (v.fget, v.fset, v.fdel):
                yield from self._funcs_of(f)

    def _fix_inner(self, f, c):
        pass

    def c3(self, c):
        seqs = []
        for b in c.bases:
            if isinstance(b, Cls):
                seqs.append(list(b.mro))
            elif isinstance(b, type):
                m = [x for x in b.__mro__ if x is not object]
                if issubclass(b, BaseException):
                    m.append(self.excbase_cls)
                seqs.append(m + [self.object_cls])
            else:
                raise AnalysisError("unsupported base class %r of %s" % (b, c.name))
        seqs.append([b for b in c.bases])
        res = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(any(cand is x for x in t[1:]) for t in seqs):
                    break
            else:
                raise TypeError("Cannot create a consistent method resolution order (MRO)")
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    # ---- match statement
    def s_match(self, s, fr):
        v = self.eval(s.subject, fr)
        for c in s.cases:
            b = {}
            if self.match_pat(c.pattern, v, b, fr):
                for n, x in b.items():
                    self.store_name(n, x, fr)
                if c.guard is None or self.truth(self.eval(c.guard, fr)):
                    return self.exec_block(c.body, fr)
        return None

    def match_pat(self, p, v, b, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, b, fr):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, b, fr) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, bytes)) or not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match_pat(q, x, b, fr) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < len(p.patterns) - 1:
                return False
            if not all(self.match_pat(q, x, b, fr) for q, x in zip(p.patterns[:i], v)):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = list(v[i:len(v) - after])
            return all(self.match_pat(q, x, b, fr) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, fr)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and c in (str, int, float, bool, bytes, list, dict, tuple, set):
                    if not self.match_pat(p.patterns[0], v, b, fr):
                        return False
                else:
                    names = self.getattr_(c, "__match_args__")
                    for n, q in zip(names, p.patterns):
                        if not self.match_pat(q, self.getattr_(v, n), b, fr):
                            return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.hasattr_(v, n) or not self.match_pat(q, self.getattr_(v, n), b, fr):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            for k, q in zip(p.keys, p.patterns):
                kk = self.eval(k, fr)
                if kk not in v or not self.match_pat(q, v[kk], b, fr):
                    return False
            if p.rest:
                b[p.rest] = {k: x for k, x in v.items() if k not in [self.eval(k2, fr) for k2 in p.keys]}
            return True
        raise AnalysisError("pattern %s" % type(p).__name__)

    # ------------------------------------------------------------ generators
    def gexec_block(self, body, fr):
        for s in body:
            if has_yield(s):
                sig = yield from self.gexec_stmt(s, fr)
            else:
                self.stack.append(fr)
                try:
                    sig = self.exec_stmt(s, fr)
                finally:
                    self.stack.pop()
            if sig is not None:
                return sig
        return None

    def on(self, fr, fn, *a):
        self.stack.append(fr)
        try:
            return fn(*a)
        finally:
            self.stack.pop()

    def gexec_stmt(self, s, fr):
        self.tick(s, fr)
        on = self.on
        if isinstance(s, ast.Expr):
            yield from self.geval(s.value, fr)
            return None
        if isinstance(s, ast.Assign):
            v = yield from self.geval(s.value, fr)
            for t in s.targets:
                on(fr, self.assign, t, v, fr)
            return None
        if isinstance(s, ast.AnnAssign):
            v = yield from self.geval(s.value, fr)
            on(fr, self.assign, s.target, v, fr)
            return None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            v = yield from self.geval(s.value, fr)
            n = s.target.id
            self.store_name(n, on(fr, self.iop, type(s.op), self.load_name(n, fr), v), fr)
            return None
        if isinstance(s, ast.Return):
            v = yield from self.geval(s.value, fr)
            return (RET, v)
        if isinstance(s, ast.If):
            t = yield from self.geval(s.test, fr)
            return (yield from self.gexec_block(s.body if on(fr, self.truth, t) else s.orelse, fr))
        if isinstance(s, ast.While):
            while True:
                t = yield from self.geval(s.test, fr)
                if not on(fr, self.truth, t):
                    break
                self.tick(s, fr)
                sig = yield from self.gexec_block(s.body, fr)
                if sig is not None:
                    if sig[0] is BRK:
                        return None
                    if sig[0] is RET:
                        return sig
            return (yield from self.gexec_block(s.orelse, fr))
        if isinstance(s, ast.For):
            it = yield from self.geval(s.iter, fr)
            it = on(fr, self.iter_, it)
            while True:
                self.tick(s, fr)
                self.stack.append(fr)
                try:
                    try:
                        v = next(it)
                    except StopIteration:
                        break
                    self.assign(s.target, v, fr)
                finally:
                    self.stack.pop()
                sig = yield from self.gexec_block(s.body, fr)
                if sig is not None:
                    if sig[0] is BRK:
                        return None
                    if sig[0] is RET:
                        return sig
            return (yield from self.gexec_block(s.orelse, fr))
        if isinstance(s, ast.Try):
            sig = None
            try:
                try:
                    sig = yield from self.gexec_block(s.body, fr)
                except Exception as e:
                    self.note_exc(e, fr)
                    h = on(fr, self.match_handler, e, s.handlers, fr)
                    if h is None:
                        raise
                    old = fr.exc
                    fr.exc = e
                    if h.name:
                        self.store_name(h.name, self.exc_value(e), fr)
                    try:
                        sig = yield from self.gexec_block(h.body, fr)
                    finally:
                        fr.exc = old
                else:
                    if sig is None and s.orelse:
                        sig = yield from self.gexec_block(s.orelse, fr)
            except (AnalysisError, PathAbort, StepLimit):
                raise
            except BaseException:
                if s.finalbody:
                    sig2 = yield from self.gexec_block(s.finalbody, fr)
                    if sig2 is not None:
                        return sig2
                raise
            if s.finalbody:
                sig2 = yield from self.gexec_block(s.finalbody, fr)
                if sig2 is not None:
                    return sig2
            return sig
        if isinstance(s, ast.With):
            return (yield from self._gwith(s.items, s.body, fr))
        if isinstance(s, ast.Match):
            v = yield from self.geval(s.subject, fr)
            for c in s.cases:
                b = {}
                if on(fr, self.match_pat, c.pattern, v, b, fr):
                    for n, x in b.items():
                        self.store_name(n, x, fr)
                    if c.guard is None or on(fr, lambda: self.truth(self.eval(c.guard, fr))):
                        return (yield from self.gexec_block(c.body, fr))
            return None
        if isinstance(s, ast.Raise) and s.cause is None:
            v = yield from self.geval(s.exc, fr)
            on(fr, self.raise_, v)
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            o = on(fr, self.eval, s.target.value, fr)
            old = on(fr, self.getattr_, o, s.target.attr)
            v = yield from self.geval(s.value, fr)
            on(fr, lambda: self.setattr_(o, s.target.attr, self.iop(type(s.op), old, v)))
            return None
        if isinstance(s, ast.Assert):
            v = yield from self.geval(s.test, fr)
            if not on(fr, self.truth, v):
                raise AssertionError(on(fr, lambda: self.str_(self.eval(s.msg, fr))) if s.msg is not None else "")
            return None
        raise AnalysisError("yield inside %s" % type(s).__name__)

    def _gwith(self, items, body, fr):
        if not items:
            return (yield from self.gexec_block(body, fr))
        it = items[0]
        on = self.on
        cm = on(fr, self.eval, it.context_expr, fr)
        ent, ext = self.getattr_(cm, "__enter__"), self.getattr_(cm, "__exit__")
        v = on(fr, self.call, ent, (), {})
        try:
            if it.optional_vars is not None:
                on(fr, self.assign, it.optional_vars, v, fr)
            sig = yield from self._gwith(items[1:], body, fr)
        except (AnalysisError, PathAbort, StepLimit):
            raise
        except BaseException as e:
            val = self.exc_value(e)
            if not on(fr, self.truth, on(fr, self.call, ext, (self.type_of(val), val, None), {})):
                raise
            return None
        on(fr, self.call, ext, (None, None, None), {})
        return sig

    def geval(self, n, fr):
        if n is None:
            return None
        if not has_yield(n):
            return self.on(fr, self.eval, n, fr)
        if isinstance(n, ast.Yield):
            v = yield from self.geval(n.value, fr)
            return (yield v)
        if isinstance(n, ast.YieldFrom):
            v = yield from self.geval(n.value, fr)
            it = self.on(fr, self.iter_, v)
            return (yield from it)
        ov = {}
        stack = [n]
        found = []

        def walk(x):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                found.append(x)
                return
            if isinstance(x, (ast.Lambda,)):
                return
            for c in ast.iter_child_nodes(x):
                walk(c)
        walk(n)
        for y in found:
            ov[id(y)] = yield from self.geval(y, fr)
        fr.overrides = ov
        try:
            return self.on(fr, self.eval, n, fr)
        finally:
            fr.overrides = None

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        m = _EXPR.get(type(n))
        if m is None:
            raise AnalysisError("unsupported expression %s at %s:%s" % (type(n).__name__, fr.file, n.lineno))
        return m(self, n, fr)

    def e_const(self, n, fr):
        return n.value

    def e_name(self, n, fr):
        return self.load_name(self.mangle(n.id, fr), fr)

    def e_attr(self, n, fr):
        return self.getattr_(self.eval(n.value, fr), self.mangle(n.attr, fr))

    def e_sub(self, n, fr):
        return self.getitem(self.eval(n.value, fr), self.eval(n.slice, fr))

    def e_slice(self, n, fr):
        return slice(*(self.eval(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += list(self.iter_(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_list(self, n, fr):
        return self.elts(n.elts, fr)

    def e_tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_set(self, n, fr):
        return set(self.elts(n.elts, fr))

    def e_dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, fr)
                if isinstance(x, Obj):
                    for kk in self.iter_(self.call_method(x, "keys")):
                        d[kk] = self.getitem(x, kk)
                else:
                    d.update(x)
            else:
                kk = self.eval(k, fr)
                d[kk] = self.eval(v, fr)
        return d

    def e_ifexp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def e_boolop(self, n, fr):
        isand = isinstance(n.op, ast.And)
        for e in n.values:
            v = self.eval(e, fr)
            if e is n.values[-1]:
                return v
            if self.truth(v) != isand:
                return v

    def e_unary(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Obj):
            return self.call_special(v, {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(n.op)], TypeError)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_binop(self, n, fr):
        return self.binop(type(n.op), self.eval(n.left, fr), self.eval(n.right, fr))

    def e_compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            res = self.compare(type(op), left, right)
            if len(n.ops) > 1 and not self.truth(res):
                return res
            left = right
        return res

    def e_call(self, n, fr):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and not n.args:
            g = fr
            while g.kind == "comp":
                g = g.parent
            fn = g.func
            cls = fn.defcls if fn is not None else None
            if cls is None:
                raise RuntimeError("super(): no arguments")
            a = fn.info.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else a.vararg.arg
            ff = g
            while ff is not None and (ff.kind != "func" or first not in ff.vars):
                ff = ff.parent
            ov = ff.vars[first]
            return SuperV(cls, ov if (a.posonlyargs + a.args) else ov[0])
        if isinstance(f, ast.Name) and f.id == "locals" and not n.args:
            return dict(fr.vars)
        if isinstance(f, ast.Name) and f.id == "globals" and not n.args:
            return fr.globs
        fv = self.eval(f, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += list(self.iter_(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, Obj):
                    d = {kk: self.getitem(d, kk) for kk in self.iter_(self.call_method(d, "keys"))}
                for kk, v in d.items():
                    if kk in kw:
                        raise TypeError("got multiple values for keyword argument %r" % kk)
                    kw[kk] = v
            else:
                kw[k.arg] = self.eval(k.value, fr)
        fr.line = n.lineno
        self.calls += 1
        if fr.file and fr.file.startswith(self.srcdir):
            self.callsites.add((fr.file, n.lineno, n.col_offset))
        return self.call(fv, tuple(args), kw)

    def e_lambda(self, n, fr):
        return self.make_func(n, fr, "<lambda>")

    def e_joined(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.e_formatted(v, fr))
        return "".join(out)

    def e_formatted(self, n, fr):
        v = self.eval(n.value, fr)
        if n.conversion == ord("r"):
            v = self.repr_(v)
        elif n.conversion == ord("s"):
            v = self.str_(v)
        elif n.conversion == ord("a"):
            v = ascii(self.repr_(v))
        spec = self.eval(n.format_spec, fr) if n.format_spec is not None else ""
        return self.format_(v, spec)

    def e_named(self, n, fr):
        v = self.eval(n.value, fr)
        self.store_name(n.target.id, v, fr)
        return v

    def e_starred(self, n, fr):
        raise AnalysisError("starred")

    def e_yield(self, n, fr):
        if fr.overrides is not None and id(n) in fr.overrides:
            return fr.overrides[id(n)]
        raise AnalysisError("yield in unsupported position")

    def comp_frame(self, n, fr):
        return Frame({}, comp_info(n), fr, fr.globs, fr.func, "comp", fr.mangle, fr.file)

    def run_gens(self, gens, i, fr, outer, first):
        if i == len(gens):
            yield None
            return
        g = gens[i]
        it = first if i == 0 else self.on(fr, lambda: self.iter_(self.eval(g.iter, fr)))
        while True:
            self.stack.append(fr)
            try:
                self.steps += 1
                if self.steps > self.step_limit:
                    raise StepLimit("comprehension at %s" % self.loc())
                try:
                    v = next(it)
                except StopIteration:
                    return
                self.assign(g.target, v, fr)
                ok = all(self.truth(self.eval(c, fr)) for c in g.ifs)
            finally:
                self.stack.pop()
            if ok:
                yield from self.run_gens(gens, i + 1, fr, outer, None)

    def comp_iter(self, n, fr, fn):
        first = self.iter_(self.eval(n.generators[0].iter, fr))
        cf = self.comp_frame(n, fr)
        cf.line = n.lineno

        def gen():
            for _ in self.run_gens(n.generators, 0, cf, fr, first):
                self.stack.append(cf)
                try:
                    v = fn(cf)
                finally:
                    self.stack.pop()
                yield v
        return gen()

    def e_listcomp(self, n, fr):
        return list(self.comp_iter(n, fr, lambda c: self.eval(n.elt, c)))

    def e_setcomp(self, n, fr):
        return set(self.comp_iter(n, fr, lambda c: self.eval(n.elt, c)))

    def e_dictcomp(self, n, fr):
        return dict(self.comp_iter(n, fr, lambda c: (self.eval(n.key, c), self.eval(n.value, c))))

    def e_genexp(self, n, fr):
        return self.comp_iter(n, fr, lambda c: self.eval(n.elt, c))

    # ------------------------------------------------------------ operators
    def truth(self, v):
        if isinstance(v, Obj):
            m = self.lookup(v._c, "__bool__")
            if m is not MISSING:
                return bool(self.call(self.bind(m, v, v._c), (), {}))
            m = self.lookup(v._c, "__len__")
            if m is not MISSING:
                return bool(self.call(self.bind(m, v, v._c), (), {}))
            return True
        if isinstance(v, (Cls, FuncV, BoundV, ModuleV, TAlias, TSpecial)):
            return True
        return bool(v)

    def compare(self, op, a, b):
        if op is ast.Is:
            return a is b or (isinstance(a, type) and isinstance(b, type) and a is b)
        if op is ast.IsNot:
            return a is not b
        if op is ast.In:
            return self.contains(a, b)
        if op is ast.NotIn:
            return not self.contains(a, b)
        if op is ast.Eq:
            return self.eq(a, b)
        if op is ast.NotEq:
            return self.ne(a, b)
        name = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[op]
        return self.rich(a, b, name)

    _refl = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}

    def rich_raw(self, a, b, name):
        m = self.lookup(a._c, name)
        if m is MISSING or m is None:
            return NotImplemented
        return self.call(self.bind(m, a, a._c), (b,), {})

    def rich(self, a, b, name):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                if isinstance(b, Obj) and b._c is not a._c and a._c in b._c.mro:
                    r = self.rich_raw(b, a, self._refl[name])
                    if r is not NotImplemented:
                        return r
                r = self.rich_raw(a, b, name)
                if r is not NotImplemented:
                    return r
            if isinstance(b, Obj):
                r = self.rich_raw(b, a, self._refl[name])
                if r is not NotImplemented:
                    return r
            raise TypeError("'%s' not supported between instances of %r and %r" % (name, self.type_name(a), self.type_name(b)))
        if name == "__lt__":
            return a < b
        if name == "__gt__":
            return a > b
        if name == "__le__":
            return a <= b
        return a >= b

    def eq_raw(self, a, b):
        m = self.lookup(a._c, "__eq__")
        if m is MISSING:
            return NotImplemented if a is not b else True
        return self.call(self.bind(m, a, a._c), (b,), {})

    def ne_raw(self, a, b):
        m = self.lookup(a._c, "__ne__")
        if m is not MISSING:
            return self.call(self.bind(m, a, a._c), (b,), {})
        r = self.eq_raw(a, b)
        return r if r is NotImplemented else not self.truth(r)

    def eq(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                r = self.eq_raw(a, b)
                if r is not NotImplemented:
                    return r
            if isinstance(b, Obj):
                r = self.eq_raw(b, a)
                if r is not NotImplemented:
                    return r
            elif isinstance(a, Obj):
                # reflected native eq never knows Obj
                pass
            return a is b
        if isinstance(a, Cls) or isinstance(b, Cls):
            return a is b
        return a == b

    def ne(self, a, b):
        if isinstance(a, Obj):
            m = self.lookup(a._c, "__ne__")
            if m is not MISSING:
                r = self.call(self.bind(m, a, a._c), (b,), {})
                if r is not NotImplemented:
                    return r
        return not self.truth(self.eq(a, b))

    def contains(self, x, c):
        if isinstance(c, Obj):
            m = self.lookup(c._c, "__contains__")
            if m is not MISSING:
                return self.truth(self.call(self.bind(m, c, c._c), (x,), {}))
            for y in self.iter_(c):
                if y is x or self.truth(self.eq(y, x)):
                    return True
            return False
        if isinstance(c, str) and isinstance(x, str):
            return self.str_contains(x, c)
        if isinstance(c, range) and isinstance(x, Num):
            if c.step == 1:
                return bool(x >= c.start) and bool(x < c.stop)
            raise AnalysisError("abstract in range with step")
        if isinstance(c, Cls):
            raise TypeError("argument of type 'type' is not iterable")
        return x in c

    def str_contains(self, x, c):
        return x in c

    _bin = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"), ast.Div: ("__truediv__", "__rtruediv__"),
            ast.FloorDiv: ("__floordiv__", "__rfloordiv__"), ast.Mod: ("__mod__", "__rmod__"), ast.Pow: ("__pow__", "__rpow__"), ast.BitOr: ("__or__", "__ror__"),
            ast.BitAnd: ("__and__", "__rand__"), ast.BitXor: ("__xor__", "__rxor__"), ast.LShift: ("__lshift__", "__rlshift__"), ast.RShift: ("__rshift__", "__rrshift__"), ast.MatMult: ("__matmul__", "__rmatmul__")}
    import operator as _o
    _binf = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.Div: _o.truediv, ast.FloorDiv: _o.floordiv, ast.Mod: _o.mod, ast.Pow: _o.pow, ast.BitOr: _o.or_, ast.BitAnd: _o.and_, ast.BitXor: _o.xor, ast.LShift: _o.lshift, ast.RShift: _o.rshift}

    def binop(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, str) and op is ast.Mod:
                return percent_format(a, b)
            n, r = self._bin[op]
            if isinstance(a, Obj):
                m = self.lookup(a._c, n)
                if m is not MISSING:
                    v = self.call(self.bind(m, a, a._c), (b,), {})
                    if v is not NotImplemented:
                        return v
            if isinstance(b, Obj):
                m = self.lookup(b._c, r)
                if m is not MISSING:
                    v = self.call(self.bind(m, b, b._c), (a,), {})
                    if v is not NotImplemented:
                        return v
            raise TypeError("unsupported operand type(s) for %s: %r and %r" % (n, self.type_name(a), self.type_name(b)))
        if op is ast.Mod and isinstance(a, str):
            if _has_abs(b):
                return percent_format(a, b)
            return a % b
        return self._binf[op](a, b)

    def iop(self, op, a, b):
        if isinstance(a, Obj):
            n = "__i" + self._bin[op][0][2:]
            m = self.lookup(a._c, n)
            if m is not MISSING:
                v = self.call(self.bind(m, a, a._c), (b,), {})
                if v is not NotImplemented:
                    return v
        elif op is ast.Add and isinstance(a, list):
            a.extend(self.iter_(b))
            return a
        elif isinstance(a, (set, dict)) and not isinstance(b, Obj):
            import operator as o
            return {ast.BitOr: o.ior, ast.BitAnd: o.iand, ast.Sub: o.isub, ast.BitXor: o.ixor}[op](a, b)
        return self.binop(op, a, b)

    def idx(self, i):
        if isinstance(i, Num):
            return i.__index__()
        if isinstance(i, slice):
            return slice(*(x.__index__() if isinstance(x, Num) else self.idx(x) if isinstance(x, Obj) else x for x in (i.start, i.stop, i.step)))
        if isinstance(i, Obj) and self.lookup(i._c, "__index__") is not MISSING:
            return self.idx(self.call_special(i, "__index__", TypeError))
        return i

    def getitem(self, o, i):
        if isinstance(o, Obj):
            return self.call_special(o, "__getitem__", TypeError, i)
        if isinstance(o, Cls):
            m = self.lookup(o.meta, "__getitem__")
            if m is not MISSING:
                return self.call(self.bind(m, o, o.meta), (i,), {})
            m = self.lookup(o, "__class_getitem__")
            if m is not MISSING:
                return self.call(self.bind(m, None, o), (i,), {})
            return TAlias(o, i if isinstance(i, tuple) else (i,))
        if isinstance(o, type):
            if hasattr(o, "_member_map_"):
                return o[i]
            return TAlias(o, i if isinstance(i, tuple) else (i,))
        if isinstance(o, dict):
            return o[i]
        if isinstance(i, (Num, slice, Obj)):
            i = self.idx(i)
        return o[i]

    def setitem(self, o, i, v):
        if isinstance(o, Obj):
            self.call_special(o, "__setitem__", TypeError, i, v)
        elif isinstance(o, dict):
            o[i] = v
        else:
            i = self.idx(i)
            if isinstance(i, slice):
                v = list(self.iter_(v))
            o[i] = v

    # ------------------------------------------------------------ attributes
    def lookup(self, cls, name):
        for c in cls.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name]
        return MISSING

    def bind(self, v, inst, owner):
        if isinstance(v, FuncV):
            return v if inst is None else BoundV(v, inst)
        if isinstance(v, PropertyV):
            if inst is None:
                return v
            if v.fget is None:
                raise AttributeError("unreadable attribute")
            return self.call(v.fget, (inst,), {})
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMV):
            return BoundV(v.f, owner)
        if isinstance(v, CachedPropertyV):
            if inst is None:
                return v
            if v.name not in inst._d:
                inst._d[v.name] = self.call(v.f, (inst,), {})
            return inst._d[v.name]
        if isinstance(v, Obj):
            g = self.lookup(v._c, "__get__")
            if g is not MISSING:
                return self.call(self.bind(g, v, v._c), (inst, owner), {})
            return v
        if isinstance(v, (types.FunctionType, types.MethodDescriptorType, types.WrapperDescriptorType)) or hasattr(v, "_ai_bind"):
            return v if inst is None else BoundV(v, inst)
        return v

    def is_data_desc(self, v):
        return isinstance(v, PropertyV) or (isinstance(v, Obj) and (self.lookup(v._c, "__set__") is not MISSING or self.lookup(v._c, "__delete__") is not MISSING))

    def getattr_(self, o, name):
        if isinstance(o, Obj):
            m = self.lookup(o._c, "__getattribute__")
            v = self.lookup(o._c, name)
            if v is not MISSING and self.is_data_desc(v):
                try:
                    return self.bind(v, o, o._c)
                except AttributeError:
                    ga = self.lookup(o._c, "__getattr__")
                    if ga is MISSING:
                        raise
                    return self.call(self.bind(ga, o, o._c), (name,), {})
            if name in o._d:
                return o._d[name]
            if v is not MISSING:
                return self.bind(v, o, o._c)
            if name == "__class__":
                return o._c
            if name == "__dict__":
                return o._d
            ga = self.lookup(o._c, "__getattr__")
            if ga is not MISSING:
                return self.call(self.bind(ga, o, o._c), (name,), {})
            raise AttributeError("%r object has no attribute %r" % (o._c.name, name))
        if isinstance(o, Cls):
            return self.cls_getattr(o, name)
        if isinstance(o, SuperV):
            return self.super_getattr(o, name)
        if isinstance(o, ModuleV):
            if name in o.ns:
                return o.ns[name]
            if name == "__dict__":
                return o.ns
            # submodule?
            full = o.name + "." + name
            if full in self.modules:
                return self.modules[full]
            if "__getattr__" in o.ns:
                return self.call(o.ns["__getattr__"], (name,), {})
            if real_module_has(o.name, name):
                return unmodelled(o.name, name)
            raise AttributeError("module %r has no attribute %r" % (o.name, name))
        if name == "throw" and isinstance(o, types.GeneratorType):
            def throw(t, v=None, tb=None):
                if isinstance(t, Cls):
                    t = self.call(t, () if v is None else (v,), {})
                return o.throw(PyRaise(t) if isinstance(t, Obj) else t)
            throw._ai_bind = False
            return throw
        if isinstance(o, str):
            from . import libs
            f = libs.STR.get(name)
            if f is not None:
                return lambda *a, **k: f(o, *a, **k)
        if isinstance(o, type):
            from . import libs
            if o is str and name in libs.STR:
                return libs.STR[name]
            v = libs.native_class_attr(self, o, name)
            if v is not MISSING:
                return v
        if name == "__class__":
            return self.type_of(o)
        try:
            return getattr(o, name)
        except AttributeError:
            real = _REAL.get(o if isinstance(o, type) else type(o))
            if real is not None and hasattr(real, name):
                raise AnalysisError("%s.%s is not modelled" % (real.__name__, name))
            raise

    def cls_getattr(self, o, name):
        v = self.lookup(o, name)
        if v is not MISSING:
            return self.bind(v, None, o)
        if name in ("__name__",):
            return o.name
        if name == "__mro__":
            return tuple(o.mro)
        if name == "__bases__":
            return o.bases
        if name == "__dict__":
            return o.ns
        if name == "__class__":
            return o.meta
        if name == "__subclasses__":
            return lambda: list(o.subs)
        if name == "mro":
            return lambda: list(o.mro)
        if name == "__abstractmethods__":
            return o.abstract
        if name == "__doc__":
            return None
        for c in o.mro:
            if not isinstance(c, Cls) and hasattr(c, name) and not name.startswith("__"):
                return getattr(c, name)
        m = self.lookup(o.meta, name) if o.meta else MISSING
        if m is not MISSING:
            return self.bind(m, o, o.meta)
        raise AttributeError("type object %r has no attribute %r" % (o.name, name))

    def super_getattr(self, s, name):
        obj = s.obj
        if isinstance(obj, Cls):
            start = obj if s.cls in obj.mro else obj.meta
        else:
            start = obj._c if isinstance(obj, Obj) else self.type_of(obj)
        mro = start.mro
        i = [k for k, c in enumerate(mro) if c is s.cls]
        if not i:
            # attr.s(slots=True)-like class recreation keeps identity here, so this is a real error
            raise TypeError("super(type, obj): obj must be an instance or subtype of type")
        for c in mro[i[0] + 1:]:
            if isinstance(c, Cls) and name in c.ns:
                v = c.ns[name]
                if isinstance(obj, Cls) and start is obj:
                    return self.bind(v, None, obj) if not isinstance(v, FuncV) or name not in ("__init_subclass__", "__class_getitem__") else BoundV(v, obj)
                return self.bind(v, obj, start)
            if not isinstance(c, Cls) and name in ("__new__",):
                break
        raise AttributeError("'super' object has no attribute %r" % name)

    def hasattr_(self, o, name):
        try:
            self.getattr_(o, name)
            return True
        except AttributeError:
            return False

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            m = self.lookup(o._c, "__setattr__")
            if m is not MISSING and m is not self.object_cls.ns["__setattr__"]:
                self.call(self.bind(m, o, o._c), (name, v), {})
                return
            self.obj_setattr(o, name, v)
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            return
        if isinstance(o, ModuleV):
            o.ns[name] = v
            return
        if isinstance(o, FuncV):
            object.__setattr__(o, name, v)
            return
        if isinstance(o, TAlias):
            return
        setattr(o, name, v)

    def obj_setattr(self, o, name, v):
        d = self.lookup(o._c, name)
        if d is not MISSING:
            if isinstance(d, PropertyV):
                if d.fset is None:
                    raise AttributeError("property %r of %r object has no setter" % (name, o._c.name))
                self.call(d.fset, (o, v), {})
                return
            if isinstance(d, Obj):
                s = self.lookup(d._c, "__set__")
                if s is not MISSING:
                    self.call(self.bind(s, d, d._c), (o, v), {})
                    return
        if "__slots__" in o._c.ns:
            ok = self.slots_of(o._c)
            if ok is not None and name not in ok:
                raise AttributeError("%r object has no attribute %r" % (o._c.name, name))
        o._d[name] = v

    def slots_of(self, c):
        """the names instances may have, None: any"""
        out = set()
        for b in c.mro:
            if b is self.object_cls or b is object:
                continue
            if not isinstance(b, Cls) or "__slots__" not in b.ns:
                return None
            sl = b.ns["__slots__"]
            out |= {sl} if isinstance(sl, str) else set(self.iter_(sl))
        return None if "__dict__" in out else {self.mangle_for(n, c) for n in out} | out

    def mangle_for(self, n, c):
        return "_%s%s" % (c.name.lstrip("_"), n) if n.startswith("__") and not n.endswith("__") else n

    def delattr_(self, o, name):
        if isinstance(o, Obj):
            m = self.lookup(o._c, "__delattr__")
            if m is not MISSING and m is not self.object_cls.ns["__delattr__"]:
                self.call(self.bind(m, o, o._c), (name,), {})
                return
            self.obj_delattr(o, name)
            return
        if isinstance(o, (Cls, ModuleV)):
            if name not in o.ns:
                raise AttributeError(name)
            del o.ns[name]
            return
        delattr(o, name)

    def obj_delattr(self, o, name):
        d = self.lookup(o._c, name)
        if isinstance(d, PropertyV):
            if d.fdel is None:
                raise AttributeError("can't delete attribute")
            self.call(d.fdel, (o,), {})
            return
        if isinstance(d, Obj):
            s = self.lookup(d._c, "__delete__")
            if s is not MISSING:
                self.call(self.bind(s, d, d._c), (o,), {})
                return
        if name not in o._d:
            raise AttributeError(name)
        del o._d[name]

    # ------------------------------------------------------------ types
    def type_of(self, v):
        if isinstance(v, Obj):
            return v._c
        if isinstance(v, Cls):
            return v.meta
        if isinstance(v, Num):
            return float if v.isfloat else int
        if isinstance(v, AFloat):
            return float
        if isinstance(v, type):
            return self.type_cls
        return type(v)

    def type_name(self, v):
        t = self.type_of(v)
        return t.name if isinstance(t, Cls) else t.__name__

    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, TAlias):
            if c.origin is self.typing_union:
                return any(self.isinstance_(v, x) for x in c.args)
            c = c.origin
        if isinstance(c, TSpecial):
            if c.base is None:
                raise TypeError("isinstance() arg 2 must be a type")
            c = c.base
        if isinstance(c, Cls):
            ic = self.lookup(c.meta, "__instancecheck__") if c.meta is not None else MISSING
            if isinstance(ic, FuncV):
                return self.truth(self.call(self.bind(ic, c, c.meta), (v,), {}))
            if c.ns.get("__ai_protocol__") and c.ns.get("_is_runtime", True):
                names = [n for b in c.mro if isinstance(b, Cls) and b.name not in ("Protocol", "Generic") and b is not self.object_cls for n in list(b.ns) + list(b.ns.get("__annotations__", ())) if not n.startswith("__ai_") and n not in ("__module__", "__qualname__", "__doc__", "__annotations__", "__slots__", "__parameters__", "__orig_bases__")]
                return all(self.hasattr_(v, n) for n in names)
            t = self.type_of(v)
            return self.issubclass_(t, c, v)
        if not isinstance(c, type):
            raise TypeError("isinstance() arg 2 must be a type, a tuple of types, or a union")
        if isinstance(v, Num):
            if c is bool:
                return False
            return c is float if v.isfloat else issubclass(int, c) or c.__name__ in ("Integral", "Number", "Real")
        if isinstance(v, AFloat):
            return issubclass(float, c)
        if isinstance(v, Obj):
            if c is object:
                return True
            return self.native_derived(v._c, c)
        if isinstance(v, Cls):
            return c is object or c is type
        if c is object:
            return True
        return isinstance(v, c)

    def native_derived(self, t, c):
        return any(x is c or isinstance(x, Cls) and x.ns.get("__ai_native__") is c for x in t.mro)

    def issubclass_(self, t, c, inst=MISSING):
        if isinstance(c, tuple):
            return any(self.issubclass_(t, x) for x in c)
        if isinstance(c, TAlias):
            c = c.origin
        if isinstance(c, TSpecial):
            c = c.base
        if isinstance(t, (TAlias, TSpecial)):
            raise TypeError("issubclass() arg 1 must be a class")
        if not isinstance(t, (Cls, type)):
            raise TypeError("issubclass() arg 1 must be a class")
        if isinstance(c, Cls):
            if c is self.object_cls:
                return True
            if isinstance(t, Cls) and any(x is c for x in t.mro):
                return True
            from . import libs
            nat = libs.ABC_NATIVE.get(c.name) if c.ns.get("__module__") == "collections.abc" else None
            if nat is not None:
                if isinstance(t, Cls):
                    return libs.structural(self, t, c.name)
                if t in (FuncV, BoundV) and c.name == "Callable":
                    return True
                return issubclass(t, nat)
            return False
        if isinstance(t, Cls):
            return c is object or self.native_derived(t, c)
        if c is None:
            raise TypeError("issubclass() arg 2 must be a class")
        return issubclass(t, c)

    # ------------------------------------------------------------ protocol helpers
    def call_special(self, o, name, err, *args):
        m = self.lookup(o._c, name)
        if m is MISSING or m is None:
            raise err("%r object does not support %s" % (o._c.name, name))
        return self.call(self.bind(m, o, o._c), args, {})

    def call_method(self, o, name, *args, **kw):
        return self.call(self.getattr_(o, name), args, kw)

    def iter_(self, v):
        if isinstance(v, Obj):
            m = self.lookup(v._c, "__iter__")
            if m is not MISSING and m is not None:
                r = self.call(self.bind(m, v, v._c), (), {})
                if isinstance(r, Obj):
                    return ObjIter(r)
                return r
            if self.lookup(v._c, "__getitem__") is not MISSING:
                def g():
                    i = 0
                    while True:
                        try:
                            x = self.getitem(v, i)
                        except IndexError:
                            return
                        yield x
                        i += 1
                return g()
            raise TypeError("%r object is not iterable" % v._c.name)
        if isinstance(v, Cls) and isinstance(v.meta, Cls) and self.lookup(v.meta, "__iter__") is not MISSING:
            return self.iter_(self.call(self.bind(self.lookup(v.meta, "__iter__"), v, v.meta), (), {}))
        if isinstance(v, (Cls, TAlias, ModuleV, FuncV)):
            raise TypeError("%r object is not iterable" % self.type_name(v))
        return iter(v)

    def reversed_(self, v):
        if isinstance(v, Obj):
            m = self.lookup(v._c, "__reversed__")
            if m is not MISSING:
                return self.call(self.bind(m, v, v._c), (), {})
            n = len(v)
            return iter([self.getitem(v, i) for i in range(n - 1, -1, -1)])
        return reversed(v)

    def hash_(self, v):
        if isinstance(v, Obj):
            m = self.lookup(v._c, "__hash__")
            if m is MISSING:
                return id(v) >> 4
            if m is None:
                raise TypeError("unhashable type: %r" % v._c.name)
            return self.call(self.bind(m, v, v._c), (), {})
        return hash(v)

    def str_(self, v):
        if isinstance(v, Obj):
            m = self.lookup(v._c, "__str__")
            if m is not MISSING:
                r = self.call(self.bind(m, v, v._c), (), {})
                if not isinstance(r, str):
                    raise TypeError("__str__ returned non-string (type %s)" % self.type_name(r))
                return r
            return self.repr_(v)
        return str(v)

    def repr_(self, v):
        if isinstance(v, Obj):
            m = self.lookup(v._c, "__repr__")
            if m is not MISSING:
                return self.call(self.bind(m, v, v._c), (), {})
            return "<%s object>" % v._c.name
        return repr(v)

    def format_(self, v, spec):
        if isinstance(v, Obj):
            m = self.lookup(v._c, "__format__")
            if m is not MISSING:
                return self.call(self.bind(m, v, v._c), (spec,), {})
            s = self.str_(v)
            return format(s, spec) if spec else s
        return format(v, spec)

    def tz_label(self, tz):
        if tz is None:
            return "naive"
        if isinstance(tz, Obj):
            return tz._c.name + ":" + str(tz._d.get("tzid", tz._d.get("name", "")))
        return str(tz)

    def is_local_tz(self, tz):
        return isinstance(tz, Obj) and tz._c.name == "tzlocal" and tz._c.ns.get("__module__") == "dateutil.tz"

    def local_fixed_tz(self):
        return self.modules["dateutil.tz"].ns["tzlocal"]()

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.f, (f.self_,) + tuple(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            m = self.lookup(f._c, "__call__")
            if m is MISSING:
                raise TypeError("%r object is not callable" % f._c.name)
            return self.call(self.bind(m, f, f._c), args, kw)
        from . import libs
        if isinstance(f, type) or isinstance(f, types.BuiltinFunctionType):
            g = libs.native_call(self, f)
            if g is not None:
                return g(*args, **kw)
            if f.__name__ == "extend" and type(getattr(f, "__self__", None)) is list and len(args) == 1 and type(args[0]) not in (list, tuple):
                # item by item: the list may be what is being iterated over
                for x in self.iter_(args[0]):
                    self.steps += 1
                    if self.steps > self.step_limit:
                        raise StepLimit("extend at %s" % self.loc())
                    f.__self__.append(x)
                return None
        if f is None or isinstance(f, (str, int, list, dict, tuple, ModuleV)):
            raise TypeError("%r object is not callable" % self.type_name(f))
        return f(*args, **kw)

    def instantiate(self, c, args, kw):
        if c is self.type_cls:
            if len(args) == 1:
                return self.type_of(args[0])
            return self.build_class(args[0], list(args[1]), dict(args[2]), dict(kw))
        if c.meta is not None and c.meta is not self.type_cls:
            m = self.lookup(c.meta, "__call__")
            if m is not MISSING and isinstance(m, FuncV):
                return self.call(BoundV(m, c), args, kw)
        return self.type_call(c, args, kw)

    def type_call(self, c, args, kw):
        if c.abstract:
            raise TypeError("Can't instantiate abstract class %s with abstract methods %s" % (c.name, ", ".join(sorted(c.abstract))))
        new = self.lookup(c, "__new__")
        if new is not MISSING and new is not self.object_cls.ns.get("__new__"):
            new = new.f if isinstance(new, StaticV) else new
            o = self.call(new, (c,) + tuple(args), kw)
            if not (isinstance(o, Obj) and c in o._c.mro):
                return o
        else:
            if self.issubclass_(c, self.type_cls):
                return self.build_class(args[0], list(args[1]), dict(args[2]), {"metaclass": c, **kw})
            for b in c.mro:
                if isinstance(b, type) and b is not object and not issubclass(b, BaseException):
                    raise AnalysisError("instances of subclasses of native %r are not modelled" % b)
            o = Obj(c)
        init = self.lookup(c, "__init__")
        if init is not MISSING:
            self.call(self.bind(init, o, c), args, kw)
        return o

    def call_func(self, f, args, kw):
        info = f.info
        a = info.args
        node = f.node
        vars = {}
        pos = a.posonlyargs + a.args
        npos = len(pos)
        n = len(args)
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if n > npos:
            if a.vararg is None:
                raise TypeError("%s() takes %d positional arguments but %d were given" % (f.__name__, npos, n))
            vars[a.vararg.arg] = tuple(args[npos:])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        if kw:
            names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
            extra = {}
            for k, v in kw.items():
                if k in names:
                    if k in vars:
                        raise TypeError("%s() got multiple values for argument %r" % (f.__name__, k))
                    vars[k] = v
                elif a.kwarg is not None:
                    extra[k] = v
                else:
                    raise TypeError("%s() got an unexpected keyword argument %r" % (f.__name__, k))
            if a.kwarg is not None:
                vars[a.kwarg.arg] = extra
        elif a.kwarg is not None:
            vars[a.kwarg.arg] = {}
        nd = len(f.defaults)
        missing = []
        for i, p in enumerate(pos):
            if p.arg not in vars:
                j = i - (npos - nd)
                if j >= 0:
                    vars[p.arg] = f.defaults[j]
                else:
                    missing.append(p.arg)
        for p in a.kwonlyargs:
            if p.arg not in vars:
                if p.arg in f.kwdefaults:
                    vars[p.arg] = f.kwdefaults[p.arg]
                else:
                    missing.append(p.arg)
        if missing:
            raise TypeError("%s() missing required argument(s): %s" % (f.__name__, ", ".join(missing)))
        fr = Frame(vars, info, f.frame, f.globs, f, "func", f.mangle, f.file)
        fr.line = node.lineno
        if f.file and f.file.startswith(self.srcdir):
            key = (f.file, f.__qualname__)
            self.reached[key] = self.reached.get(key, 0) + 1
            if self.tracing:
                self.trace.append(key)
        if info.isgen:
            return self.run_gen(f, node, fr)
        if len(self.stack) > 600:
            raise RecursionError("maximum recursion depth exceeded")
        entry = self.entries is not None and not self.stack and f.file and f.file.startswith(self.srcdir)
        if entry:
            self.entries.append("%s:%s (%s)" % (os.path.relpath(f.file, os.path.dirname(self.srcdir)), node.lineno, f.__qualname__))
        self.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            sig = self.exec_block(node.body, fr)
            return sig[1] if sig is not None else None
        except Exception as e:
            if not hasattr(e, "_ai_loc"):
                try:
                    e._ai_loc = self.loc()
                except Exception:
                    pass
            if entry:
                self.entries[-1] += " raising %s at %s" % (type(e).__name__ if not isinstance(e, PyRaise) else e.value._c.name, getattr(e, "_ai_loc", "?"))
            raise
        finally:
            self.stack.pop()

    def run_gen(self, f, node, fr):
        sig = yield from self.gexec_block(node.body, fr)
        return sig[1] if sig is not None else None


class ObjIter:
    """native iterator over an interpreted iterator object"""

    def __init__(self, o):
        self.o = o

    def __iter__(self):
        return self

    def __next__(self):
        return CTX.interp.call_special(self.o, "__next__", TypeError)


def _has_abs(b):
    if isinstance(b, (Num, AFloat)):
        return True
    if isinstance(b, tuple):
        return any(isinstance(x, (Num, AFloat)) for x in b)
    if isinstance(b, dict):
        return any(isinstance(x, (Num, AFloat)) for x in b.values())
    return False


I = Interp
_STMT = {ast.Expr: I.s_expr, ast.Assign: I.s_assign, ast.AnnAssign: I.s_annassign, ast.AugAssign: I.s_augassign, ast.Delete: I.s_delete, ast.If: I.s_if,
         ast.While: I.s_while, ast.For: I.s_for, ast.Return: I.s_return, ast.Break: I.s_break, ast.Continue: I.s_continue, ast.Pass: I.s_pass, ast.Raise: I.s_raise,
         ast.Assert: I.s_assert, ast.Try: I.s_try, ast.With: I.s_with, ast.Import: I.s_import, ast.ImportFrom: I.s_importfrom, ast.FunctionDef: I.s_funcdef,
         ast.ClassDef: I.s_classdef, ast.Global: I.s_scope, ast.Nonlocal: I.s_scope, ast.Match: I.s_match}
_EXPR = {ast.Constant: I.e_const, ast.Name: I.e_name, ast.Attribute: I.e_attr, ast.Subscript: I.e_sub, ast.Slice: I.e_slice, ast.List: I.e_list, ast.Tuple: I.e_tuple,
         ast.Set: I.e_set, ast.Dict: I.e_dict, ast.IfExp: I.e_ifexp, ast.BoolOp: I.e_boolop, ast.UnaryOp: I.e_unary, ast.BinOp: I.e_binop, ast.Compare: I.e_compare,
         ast.Call: I.e_call, ast.Lambda: I.e_lambda, ast.JoinedStr: I.e_joined, ast.FormattedValue: I.e_formatted, ast.NamedExpr: I.e_named, ast.ListComp: I.e_listcomp,
         ast.SetComp: I.e_setcomp, ast.DictComp: I.e_dictcomp, ast.GeneratorExp: I.e_genexp, ast.Starred: I.e_starred, ast.Yield: I.e_yield, ast.YieldFrom: I.e_yield}
