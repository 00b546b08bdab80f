"""Exploration of the trace partitions of a scenario, state snapshots, evidence."""
import collections
import json
import multiprocessing
import os
import sys
import time as _time
import types

from . import attrmodel, core, dom, dt, libs
from .core import BoundV, CachedPropertyV, ClassMV, Cls, Frame, FuncV, Interp, ModuleV, Obj, PropertyV, PyRaise, StaticV, StepLimit, TAlias
from .dom import CTX, AnalysisError, Lin, Num, Path, PathAbort, intern_atom, marker, tolin

SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
MISSING = core.MISSING


class Violation(BaseException):
    def __init__(self, msg, tag=None):
        self.msg, self.tag = msg, tag


class Skip(BaseException):
    """the partition is outside the property's precondition"""


# ------------------------------------------------------------------ snapshots of the global state
class Snapshot:
    def __init__(self, interp):
        self.rec = {}
        self.ids = {}
        seen = {}
        keep = []
        stack = [("", interp.modules)]
        for n, m in interp.modules.items():
            stack.append((n, m))
        while stack:
            name, o = stack.pop()
            if id(o) in seen:
                continue
            t = type(o)
            if t in (str, int, float, bool, bytes, type(None), type, types.BuiltinFunctionType):
                continue
            seen[id(o)] = o
            kids = []
            if t is dict or isinstance(o, dict):
                self.rec[id(o)] = (o, dict(o), name)
                kids = [("%s[%s]" % (name, k if isinstance(k, str) else "…"), v) for k, v in o.items()] + [(name + ".key", k) for k in o if not isinstance(k, (str, int))]
            elif t is list:
                self.rec[id(o)] = (o, list(o), name)
                kids = [(name + "[%d]" % i, v) for i, v in enumerate(o)]
            elif t is set:
                self.rec[id(o)] = (o, set(o), name)
                kids = [(name + "{}", v) for v in o]
            elif isinstance(o, tuple):
                kids = [(name + "(%d)" % i, v) for i, v in enumerate(o)]
            elif t is ModuleV:
                self._d(o.ns, o.name)
                kids = [(o.name + "." + str(k), v) for k, v in o.ns.items()]
            elif t is Cls:
                q = "%s.%s" % (o.ns.get("__module__"), o.name)
                self._d(o.ns, q)
                kids = [(q + "." + str(k), v) for k, v in o.ns.items()] + [(q + ".meta", o.meta), (q + ".subs", o.subs)] + [(q, b) for b in o.mro or ()]
            elif t is Obj:
                d = object.__getattribute__(o, "_d")
                self._d(d, name)
                kids = [(name + "." + str(k), v) for k, v in d.items()] + [(name, object.__getattribute__(o, "_c"))]
            elif t is FuncV:
                self._d(o.__dict__, name)
                kids = [(name + ".<default>", o.defaults), (name + ".<kwdefault>", o.kwdefaults)] + [(name + "." + k, v) for k, v in o.__dict__.items() if k not in ("node", "globs", "info", "frame")]
                if o.frame is not None:
                    kids.append((name + ".<closure>", o.frame))
            elif t is Frame:
                self._d(o.vars, name)
                kids = [(name + "." + k, v) for k, v in o.vars.items()] + ([(name, o.parent)] if o.parent is not None else [])
            elif t is BoundV:
                kids = [(name, o.f), (name, o.self_)]
            elif t in (StaticV, ClassMV, CachedPropertyV):
                kids = [(name, o.f)]
            elif t is PropertyV:
                kids = [(name, o.fget), (name, o.fset), (name, o.fdel)]
            elif isinstance(o, types.FunctionType):
                if o.__closure__:
                    for c in o.__closure__:
                        try:
                            kids.append((name, c.cell_contents))
                        except ValueError:
                            pass
            elif isinstance(o, collections.deque):
                self.rec[id(o)] = (o, list(o), name)
                kids = [(name, v) for v in o]
            elif isinstance(o, TAlias):
                kids = []
            elif type(o).__module__.startswith("absint") or isinstance(o, types.SimpleNamespace):
                d = getattr(o, "__dict__", None)
                if isinstance(d, dict):
                    self._d(d, name)
                    kids = [(name + "." + str(k), v) for k, v in d.items()]
            stack += kids
        self.seen = seen

    def _d(self, d, name):
        self.rec[id(d)] = (d, dict(d), name)

    @staticmethod
    def _ids(o):
        if isinstance(o, dict):
            return tuple(map(id, o)), tuple(map(id, o.values()))
        if isinstance(o, set):
            return frozenset(map(id, o))
        return tuple(map(id, o))

    def _same(self, a, b):
        n = self.ids.get(id(a))
        if n is None:
            n = self.ids[id(a)] = self._ids(b)
        return self._ids(a) == n

    def changed(self):
        return [(name, o, saved) for o, saved, name in self.rec.values() if not self._same(o, saved)]

    def restore(self):
        for o, saved, name in self.rec.values():
            if not self._same(o, saved):
                if isinstance(o, dict):
                    dict.clear(o)
                    dict.update(o, saved)
                elif isinstance(o, list):
                    o[:] = saved
                elif isinstance(o, set):
                    o.clear()
                    o.update(saved)
                else:
                    o.clear()
                    o.extend(saved)


# ------------------------------------------------------------------ scenario API
class Api:
    """what a scenario may use: abstract inputs, the interpreted library, obligations"""

    def __init__(self, world, path):
        self.w, self.path, self.ip = world, path, world.ip
        self.ics = _Mod(world.ip, "ics")
        self.obligations = 0
        self.tier = world.tier
        self.thorough = world.tier == "thorough"
        self.soft = []

    # --- abstract inputs
    def mod(self, name):
        return _Mod(self.ip, name)

    def module(self, name, src):
        """a module of a user's program"""
        if name not in self.ip.modules:
            self.ip.load_source(name, src, "<%s>" % name, False, {})
        return _Mod(self.ip, name)

    def pos(self, name, unit=1, lo=None, hi=None):
        lo = 365 * 1000 * dt.DAY // unit if lo is None else lo
        hi = 365 * 9000 * dt.DAY // unit if hi is None else hi
        return Lin.atom(intern_atom(("t", name, unit, lo, hi), lo, hi)).scale(unit)

    def dt(self, name, tz=None, unit=1, fold=0):
        return dt.datetime.of(self.pos(name, unit), tz, fold)

    def date(self, name):
        return dt.date.of(self.pos(name, dt.DAY))

    def td(self, name, lo=None, hi=None, unit=1):
        return dt.timedelta.of(Lin.atom(intern_atom(("d", name, unit, lo, hi), lo, hi)).scale(unit))

    def td_of(self, **kw):
        return dt.timedelta(**kw)

    def num(self, name, lo=None, hi=None):
        return Num(Lin.atom(intern_atom(("n", name, lo, hi), lo, hi)))

    def afloat(self, name):
        return dom.AFloat(("in", name))

    def text(self, name):
        return marker(("in", name), "word")

    def octets(self, name):
        return libs.ABytes(("in", name))

    def choose(self, opts, label=""):
        if isinstance(opts, int):
            return self.path.choose(opts, label)
        opts = list(opts)
        return opts[self.path.choose(len(opts), label)]

    def flag(self, label):
        return bool(self.path.choose(2, label))

    # --- time zones
    @property
    def utc(self):
        return dt.UTC_REF[0]

    def du_utc(self):
        return self.ip.mod("dateutil.tz")["UTC"]

    def zone(self, key):
        """an opaque named zone (tzfile)"""
        return self.ip.call(self.ip.mod("dateutil.tz")["tzfile"], ("System/" + key,), {})

    def local(self):
        return self.ip.call(self.ip.mod("dateutil.tz")["tzlocal"], (), {})

    def fixed(self, td, name="FX"):
        return self.ip.call(self.ip.mod("dateutil.tz")["tzoffset"], (name, td), {})

    # --- obligations
    def assume(self, cond):
        if not cond:
            raise Skip()

    def require(self, cond, msg, tag=None):
        self.obligations += 1
        if isinstance(cond, (Obj, Num)):
            cond = self.ip.truth(cond)
        if not cond:
            if tag is not None and tag in self.w.known:
                self.soft.append(tag)
                return
            raise Violation(msg() if callable(msg) else msg, tag)

    def same(self, a, b, msg, tag=None):
        if not self.eq(a, b):
            self.require(False, lambda: "%s: %s is not %s" % (msg, self.show(a), self.show(b)), tag)
        else:
            self.require(True, msg)

    def eq(self, a, b):
        if type(a) is not type(b) and not isinstance(a, Obj) and not isinstance(b, Obj):
            if isinstance(a, (list, tuple)) != isinstance(b, (list, tuple)):
                return False
        return self.ip.truth(self.ip.eq(a, b))

    def text_eq(self, a, b):
        """equality of (lists, tuples, mappings of) texts on the whole partition"""
        return dom.deep_text_eq(a, b)

    def same_text(self, a, b, msg, tag=None):
        self.require(dom.deep_text_eq(a, b), lambda: "%s: %s instead of %s" % (msg, self.show(a), self.show(b)), tag)

    def must_eq(self, a, b, msg):
        """a and b are equal on the *whole* partition"""
        la, lb = _lin(a), _lin(b)
        if la is not None and lb is not None:
            self.require(self.path.known_eq(la - lb), lambda: "%s: %r is not always %r" % (msg, la, lb))
        else:
            self.same(a, b, msg)

    def show(self, v):
        try:
            return pretty(self.ip.repr_(v) if isinstance(v, Obj) else repr(v))
        except Exception:
            return "<%s>" % type(v).__name__

    def attempt(self, f, *a, **k):
        """-> (value, None) or (None, exception)"""
        try:
            return self.ip.call(f, a, k) if not isinstance(f, types.FunctionType) else f(*a, **k), None
        except Exception as e:
            return None, e

    def call(self, f, *a, **k):
        return self.ip.call(f, a, k)

    def raises(self, f, *a, **k):
        msg = k.pop("_msg", "expected an exception")
        exc = k.pop("_exc", None)
        v, e = self.attempt(f, *a, **k)
        self.require(e is not None, lambda: "%s (got %s)" % (msg, self.show(v)))
        if exc is not None:
            self.require(self.is_exc(e, exc), lambda: "%s (got %s)" % (msg, self.exc_name(e)))
        return e

    def is_exc(self, e, c):
        v = e.value if isinstance(e, PyRaise) else e
        return self.ip.isinstance_(v, c)

    def exc_name(self, e):
        return (e.value._c.name if isinstance(e, PyRaise) else type(e).__name__) + ": " + pretty(str(e))

    def isinstance(self, v, c):
        return self.ip.isinstance_(v, c)

    def get(self, o, n):
        return self.ip.getattr_(o, n)

    def set(self, o, n, v):
        self.ip.setattr_(o, n, v)

    def iter(self, o):
        return list(self.ip.iter_(o))

    def str(self, o):
        return self.ip.str_(o)

    def repr(self, o):
        return self.ip.repr_(o)

    def warnings(self):
        return self.path.warnings


def _lin(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, Num)):
        return tolin(v)
    if isinstance(v, dt.timedelta):
        return v.us
    if isinstance(v, (dt.date,)):
        return v.pos
    return None


class _Mod:
    def __init__(self, ip, name):
        self.__dict__.update(_ip=ip, _name=name)

    def __getattr__(self, n):
        return self._ip.getattr_(self._ip.import_module(self._name), n)

    def __setattr__(self, n, v):
        self._ip.setattr_(self._ip.import_module(self._name), n, v)


def pretty(s):
    """replace markers by readable names"""
    out = []
    for c in s:
        inf = dom.marker_info(c) if 0x4E00 <= ord(c) <= 0x9FFF else None
        if inf is None:
            out.append(c)
        else:
            k = inf[0]
            if isinstance(k, tuple) and k and k[0] == "in":
                out.append("‹%s›" % k[1])
            elif isinstance(k, tuple) and k and k[0] == "case":
                out.append("‹%s:%s›" % (k[1], k[2][1] if isinstance(k[2], tuple) and len(k[2]) > 1 else "?"))
            else:
                out.append("‹%s›" % (k[0] if isinstance(k, tuple) and k else k))
    return "".join(out)


class World:
    def __init__(self, tier="quick", known=()):
        self.tier = tier
        self.known = set(known)
        self.ip = Interp(SRC)
        CTX.path = Path()
        m = self.ip.import_module("ics")
        f = m.ns.get("initialize_converters")
        if f is not None:
            self.ip.call(f, (), {})
        for extra in ("ics.utils", "ics.types", "ics.timeline", "ics.timezone.converters", "ics.contentline.parser", "ics.contentline.container", "dateutil.tz", "dateutil.rrule", "zoneinfo", "ics_vtimezones"):
            try:
                self.ip.import_module(extra)
            except ModuleNotFoundError:
                pass
        self.boot_steps = self.ip.steps
        self.snap = Snapshot(self.ip)

    def reset(self):
        self.snap.restore()
        attrmodel.CONFIG["run_validators"] = True
        self.ip.stack.clear()
        self.ip.rrule_hook = None
        self.ip.steps = 0

    def run_path(self, fn, script, args=()):
        """-> (path, status, info)"""
        self.reset()
        p = CTX.path = Path(script)
        a = Api(self, p)
        try:
            fn(a, *args)
            st, info = "ok", None
        except Skip:
            st, info = "skip", None
        except PathAbort:
            st, info = "empty", None
        except Violation as v:
            st, info = "violation", {"message": v.msg, "tag": v.tag, "where": self.last()}
        except AnalysisError as e:
            st, info = "unknown", {"message": str(e), "where": self.ip.loc()}
        except StepLimit as e:
            st, info = "violation", {"message": "no termination within the step bound: %s" % e, "tag": None, "where": self.ip.loc()}
        except (Exception, RecursionError) as e:
            st, info = "violation", {"message": "unexpected exception %s" % a.exc_name(e), "tag": None, "where": getattr(e, "_ai_loc", None) or self.last()}
            if os.environ.get("AI_DEBUG"):
                import traceback
                traceback.print_exc(limit=-12)
        if info is not None:
            info["choices"] = ["%s -> %d of %d" % (pretty(l[0] % l[1] if isinstance(l, tuple) else str(l)), c, n) for c, n, l in p.log]
            info["facts"] = [pretty(repr(f)) + " >= 0" for f in p.facts[-12:]]
            info["script"] = [c for c, _, _ in p.log]
            if st == "violation" and info["where"] == "?" and self.ip.entries is None:
                info["where"] = self.blame(fn, script, args)
        self.ip.steps_total = getattr(self.ip, "steps_total", 0) + self.ip.steps
        return p, st, info, a

    def blame(self, fn, script, args):
        """the library functions the obligation that failed is about: those the scenario entered last"""
        self.ip.entries = []
        path, steps = CTX.path, self.ip.steps
        try:
            self.run_path(fn, script, args)
            out = []
            for x in reversed(self.ip.entries):
                if x not in out:
                    out.append(x)
                if len(out) == 3:
                    break
            return "; before that ".join(out) or "?"
        finally:
            self.ip.entries = None
            CTX.path, self.ip.steps = path, steps

    def last(self):
        return self.ip.loc()


def explore(world, fn, args=(), limit=20000, deadline=None, stop_on=3, prefix=()):
    """depth-first over all choice scripts"""
    res = {"paths": 0, "ok": 0, "skip": 0, "empty": 0, "obligations": 0, "violations": [], "unknown": [], "truncated": False, "soft": [], "steps": 0}
    script = list(prefix)
    while True:
        p, st, info, a = world.run_path(fn, script, args)
        res["paths"] += 1
        res["steps"] += world.ip.steps
        res["obligations"] += a.obligations
        res["soft"] += [t for t in a.soft if t not in res["soft"]]
        if st == "violation":
            res["violations"].append(info)
            if len(res["violations"]) >= stop_on:
                res["truncated"] = True
                break
        elif st == "unknown":
            if len(res["unknown"]) < 20:
                res["unknown"].append(info)
        else:
            res[st] += 1
        log = p.log
        i = len(log) - 1
        while i >= len(prefix) and log[i][0] + 1 >= log[i][1]:
            i -= 1
        if i < len(prefix):
            break
        script = [c for c, _, _ in log[:i]] + [log[i][0] + 1]
        if res["paths"] >= limit or (deadline and _time.time() > deadline):
            res["truncated"] = True
            break
    return res


def _job(x):
    world, scen, limit, deadline = _CTX[0], _CTX[1][x], _CTX[2], _CTX[3]
    world.ip.reached = {}
    world.ip.callsites = set()
    t = _time.time()
    r = explore(world, scen.fn, scen.args, scen.limit or limit, min(deadline, t + scen.budget) if scen.budget else deadline)
    r["name"] = scen.name
    r["time"] = round(_time.time() - t, 2)
    r["reached"] = sorted("%s:%s" % (os.path.relpath(f, os.path.dirname(SRC)), q) for f, q in world.ip.reached)
    r["callsites"] = sorted("%s:%d" % (os.path.relpath(f, os.path.dirname(SRC)), l) for f, l, c in world.ip.callsites)
    return r


def _bound_memory():
    """what doesn't terminate must not take the machine with it"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


_CTX = [None, None, None, None]


class Scenario:
    def __init__(self, name, fn, args=(), limit=None, budget=None):
        self.name, self.fn, self.args, self.limit, self.budget = name, fn, args, limit, budget


def run_scenarios(world, scens, limit, seconds, procs=None):
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(scens)))
    deadline = _time.time() + seconds
    _CTX[:] = [world, scens, limit, deadline]
    if procs == 1 or len(scens) == 1:
        return [_job(i) for i in range(len(scens))]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs, initializer=_bound_memory) as pool:
        return pool.map(_job, range(len(scens)), chunksize=1)
