"""Abstract domains.

* ``Lin``      linear forms over integer atoms (exact rationals)
* ``Facts``    a convex-polyhedra domain (conjunction of linear constraints over
               integer atoms); emptiness by Fourier-Motzkin elimination
* ``Num``      abstract integers / rationals (linear forms)
* markers      abstract text: single characters standing for "any ordinary text",
               "the digits of <Num>", "the k-th digit of field F of <instant>"
* ``CTX``      the current trace partition (choice script + facts)

No code of the analysed repository is ever executed: these values are what the
abstract interpreter in ``core.py`` computes with.
"""
from fractions import Fraction
from math import gcd


class AnalysisError(BaseException):
    """The analysis cannot interpret something (never a verdict)."""


class PathAbort(BaseException):
    """the current trace partition is empty / to be discarded"""


class Atom:
    __slots__ = ("name", "lo", "hi", "idx")
    table = {}
    count = 0

    def __init__(self, name, lo=None, hi=None):
        self.name, self.lo, self.hi = name, lo, hi
        self.idx = Atom.count
        Atom.count += 1

    def __repr__(self):
        return str(self.name)

    def __lt__(self, o):
        return self.idx < o.idx


def intern_atom(key, lo=None, hi=None):
    a = Atom.table.get(key)
    if a is None:
        a = Atom.table[key] = Atom(key, lo, hi)
    return a


class Lin:
    __slots__ = ("c", "k", "_h", "_n")

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = Fraction(k)
        self._h = self._n = None

    @staticmethod
    def atom(a):
        return Lin({a: Fraction(1)}, 0)

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.c.items()), self.k)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        o = tolin(o)
        c = dict(self.c)
        for a, v in o.c.items():
            n = c.get(a, 0) + v
            if n:
                c[a] = n
            else:
                c.pop(a, None)
        return Lin(c, self.k + o.k)

    def __neg__(self):
        return Lin({a: -v for a, v in self.c.items()}, -self.k)

    def __sub__(self, o):
        return self + (-tolin(o))

    def scale(self, f):
        f = Fraction(f)
        if not f:
            return Lin()
        return Lin({a: v * f for a, v in self.c.items()}, self.k * f)

    @property
    def const(self):
        return not self.c

    def __repr__(self):
        parts = []
        for a, v in sorted(self.c.items(), key=lambda t: t[0].idx):
            parts.append(("%s*" % v if v != 1 else "") + str(a))
        if self.k or not parts:
            parts.append(str(self.k))
        return "+".join(parts)


def tolin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Num):
        return x.lin
    if isinstance(x, (int, Fraction)):
        return Lin({}, x)
    if isinstance(x, float):
        return Lin({}, Fraction(x))
    raise TypeError("not numeric: %r" % (x,))


def _norm(lin):
    """integer-normalise ``lin >= 0``; returns (tuple items, const) with integer tightening"""
    if not lin.c:
        return lin
    d = lin.k.denominator
    for v in lin.c.values():
        d = d * v.denominator // gcd(d, v.denominator)
    g = 0
    for v in lin.c.values():
        g = gcd(g, int(v * d))
    c = {a: Fraction(int(v * d) // g) for a, v in lin.c.items()}
    kk = lin.k * d / g
    k = kk.numerator // kk.denominator  # floor: integer atoms
    return Lin(c, k)


def _negate(lin):
    """not (lin >= 0), over integers:  -lin - 1 >= 0 (after normalisation)"""
    n = _norm(lin)
    if n.const:
        return Lin({}, -1) if n.k >= 0 else Lin({}, 0)
    return Lin({a: -v for a, v in n.c.items()}, -n.k - 1)


_FEAS = {}


def _ikey(l):
    """integer-normalised constraint as (((atom index, coefficient), ...), constant)"""
    n = l._n
    if n is None:
        if l.c:
            m = _norm(l)
            n = (tuple(sorted((a.idx, int(v)) for a, v in m.c.items())), int(m.k))
        else:
            n = ((), -1 if l.k < 0 else 0)
        l._n = n
    return n


def _best(cons):
    best = {}
    for c, k in cons:
        if not c:
            if k < 0:
                return None
        elif c not in best or k < best[c]:
            best[c] = k
    return best


def feasible(cons):
    """Fourier-Motzkin emptiness test of {lin >= 0} with integer tightening"""
    best = _best([_ikey(l) for l in cons])
    if best is None:
        return False
    key = frozenset(best.items())
    r = _FEAS.get(key)
    if r is None:
        if len(_FEAS) > 200000:
            _FEAS.clear()
        r = _FEAS[key] = _fm(best)
    return r


def _combine(p, kp, fp, n, kn, fn):
    d = {}
    for a, v in p:
        d[a] = v * fp
    for a, v in n:
        w = d.get(a, 0) + v * fn
        if w:
            d[a] = w
        else:
            del d[a]
    k = kp * fp + kn * fn
    if not d:
        return (), k
    g = gcd(*d.values())
    if g != 1:
        return tuple(sorted((a, v // g) for a, v in d.items())), k // g
    return tuple(sorted(d.items())), k


def _subst(best):
    """use equalities with a unit coefficient for (exact, integer) substitution"""
    while True:
        hit = None
        for c, k in best.items():
            n = tuple((a, -v) for a, v in c)
            k2 = best.get(n)
            if k2 is None:
                continue
            if k + k2 < 0:
                return None
            if k + k2 == 0:
                for a, v in c:
                    if v == 1 or v == -1:
                        hit = c, k, n, a, v
                        break
            if hit:
                break
        if not hit:
            return best
        c, k, n, a, v = hit
        new = {}
        for e, ke in best.items():
            if e == c or e == n:
                continue
            w = next((x for b, x in e if b == a), 0)
            if w:
                # a = -v * (rest of c + k): add the multiple of the equality which cancels a
                e, ke = _combine(e, ke, 1, c, k, -w * v)
                if not e:
                    if ke < 0:
                        return None
                    continue
            if e not in new or ke < new[e]:
                new[e] = ke
        best = new


def _fm(best):
    best = _subst(best)
    if best is None:
        return False
    while best:
        occ = {}
        for c in best:
            for a, v in c:
                p = occ.get(a)
                if p is None:
                    p = occ[a] = [0, 0]
                p[0 if v > 0 else 1] += 1
        a = min(occ, key=lambda t: (occ[t][0] * occ[t][1] - occ[t][0] - occ[t][1], t))
        pos, neg, rest = [], [], {}
        for c, k in best.items():
            for x, v in c:
                if x == a:
                    (pos if v > 0 else neg).append((c, k, v))
                    break
            else:
                rest[c] = k
        for p, kp, vp in pos:
            for n, kn, vn in neg:
                g = gcd(vp, vn)
                c, k = _combine(p, kp, -vn // g, n, kn, vp // g)
                if not c:
                    if k < 0:
                        return False
                elif c not in rest or k < rest[c]:
                    rest[c] = k
        if len(rest) > 4000:
            raise AnalysisError("polyhedron too large")
        best = rest
    return True


class Path:
    """one trace partition: the choice script and the facts assumed so far"""

    def __init__(self, script=()):
        self.script = list(script)
        self.pos = 0
        self.log = []  # (chosen, n, label)
        self.facts = []
        self.cache = {}
        self.warnings = []
        self.bounded = {}
        self.fresh = 0
        self.nodes = 0

    def choose(self, n, label=""):
        if n <= 1:
            return 0
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
        self.pos += 1
        self.log.append((c, n, label))
        return c

    # ---- facts
    def _bounds(self, lin):
        for a in list(lin.c):
            if a not in self.bounded:
                self.bounded[a] = True
                if a.lo is not None:
                    self.facts.append(Lin({a: Fraction(1)}, -a.lo))
                if a.hi is not None:
                    self.facts.append(Lin({a: Fraction(-1)}, a.hi))
                if isinstance(a.name, tuple) and a.name[0] == "floor":
                    _, inner, k = a.name
                    r = inner - Lin({a: Fraction(k)}, 0)
                    self.facts.append(r)
                    self.facts.append(Lin({}, k) - r - 1 if _integral(inner) else Lin({}, k) - r)
                    self._bounds(inner)

    def relevant(self, lin):
        atoms = set(lin.c)
        rel, rest, changed = [], list(self.facts), True
        while changed:
            changed = False
            nrest = []
            for f in rest:
                if any(a in atoms for a in f.c):
                    rel.append(f)
                    atoms.update(f.c)
                    changed = True
                else:
                    nrest.append(f)
            rest = nrest
        return rel

    def assume(self, lin):
        """assume lin >= 0"""
        self._bounds(lin)
        self.facts.append(_norm(lin) if lin.c else lin)
        self.cache.clear()
        if lin.const:
            if lin.k < 0:
                raise PathAbort()
        elif not feasible(self.relevant(lin)):
            raise PathAbort()

    def sat(self, lin):
        key = lin
        r = self.cache.get(key)
        if r is None:
            if lin.const:
                r = lin.k >= 0
            else:
                self._bounds(lin)
                r = feasible(self.relevant(lin) + [lin])
            self.cache[key] = r
        return r

    def ge0(self, lin, label=None):
        if lin.const:
            return lin.k >= 0
        n = _negate(lin)
        can, cannot = self.sat(lin), self.sat(n)
        if can and not cannot:
            return True
        if cannot and not can:
            return False
        if not can and not cannot:
            raise PathAbort()
        c = self.choose(2, label or ("%r >= 0", lin))
        f = lin if c == 0 else n
        self.facts.append(_norm(f))
        self.cache.clear()
        return c == 0

    def sign(self, lin, label=None):
        if lin.const:
            return (lin.k > 0) - (lin.k < 0)
        pos = _negate(-lin)
        neg = _negate(lin)
        opts = []
        self._bounds(lin)
        # equality
        key = ("eq", lin)
        r = self.cache.get(key)
        if r is None:
            r = feasible(self.relevant(lin) + [lin, -lin]) and _int_eq_ok(lin)
            self.cache[key] = r
        if r:
            opts.append(0)
        if self.sat(pos):
            opts.append(1)
        if self.sat(neg):
            opts.append(-1)
        if not opts:
            raise PathAbort()
        if len(opts) == 1:
            return opts[0]
        o = opts[self.choose(len(opts), label or ("sign of %r", lin))]
        if o == 0:
            self.facts += [_norm(lin), _norm(-lin)]
        else:
            self.facts.append(_norm(pos if o > 0 else neg))
        self.cache.clear()
        return o

    def known(self, lin):
        """lin >= 0 on the whole partition (no fork)"""
        if lin.const:
            return lin.k >= 0
        return not self.sat(_negate(lin))

    def known_eq(self, lin):
        if lin.const:
            return lin.k == 0
        return self.known(lin) and self.known(-lin)


def _integral(lin):
    return lin.k.denominator == 1 and all(v.denominator == 1 for v in lin.c.values())


def _int_eq_ok(lin):
    # gcd test:  sum a_i x_i + k = 0 solvable over the integers
    d = lin.k.denominator
    for v in lin.c.values():
        d = d * v.denominator // gcd(d, v.denominator)
    g = 0
    for v in lin.c.values():
        g = gcd(g, int(v * d))
    return g == 0 or int(lin.k * d) % g == 0


class _Ctx:
    path = None
    interp = None


CTX = _Ctx()


def P():
    if CTX.path is None:
        CTX.path = Path()
    return CTX.path


def floor_div(lin, k):
    """floor(lin / k) for an integer constant k > 0"""
    lin = tolin(lin)
    k = Fraction(k)
    if k < 0:
        return floor_div(-lin, -k)
    if k.denominator != 1:
        lin, k = lin.scale(k.denominator), Fraction(k.numerator)
    if lin.const:
        q = lin.k / k
        return Lin({}, q.numerator // q.denominator)
    # split off the part divisible by k
    div, rem = {}, {}
    for a, v in lin.c.items():
        if (v / k).denominator == 1:
            div[a] = v / k
        else:
            rem[a] = v
    kq = lin.k / k
    kc = Fraction(kq.numerator // kq.denominator)
    base = Lin(div, kc)
    r = Lin(rem, lin.k - kc * k)
    if r.const:
        return base
    if len(r.c) == 1:  # a floor of a floor
        (t, v), = r.c.items()
        if isinstance(t.name, tuple) and t.name[0] == "floor" and v > 0 and (k / v).denominator == 1 and 0 <= r.k < v:
            return base + floor_div(t.name[1], t.name[2] * (k / v))
    # r known within [0,k)?
    p = P()
    if p.known(r) and p.known(Lin({}, k) - r - (1 if _integral(r) else 0)):
        if _integral(r) or p.known(Lin({}, k) - r - Fraction(1, 10 ** 9)):
            return base
    # multiples known on this partition:  inner == k2*F  lets  r  lose an integer multiple of inner
    for f in list(p.bounded):
        n = f.name
        if isinstance(n, tuple) and n[0] == "floor" and n[1] != r and (n[2] / k).denominator == 1:
            for t, v in n[1].c.items():
                if t in r.c:
                    m = r.c[t] / v
                    if m.denominator == 1 and len((r - n[1].scale(m)).c) < len(r.c) and p.known_eq(n[1] - Lin({f: n[2]}, 0)):
                        return base + floor_div(r - n[1].scale(m), k) + Lin({f: m * (n[2] / k)}, 0)
                    break
    a = intern_atom(("floor", r, k))
    p._bounds(Lin.atom(a))
    return base + Lin.atom(a)


def lin_mod(lin, k):
    lin = tolin(lin)
    k = Fraction(k)
    return lin - floor_div(lin, k).scale(k)


class Num:
    """an abstract number (integer or rational linear form)"""

    def __init__(self, lin, isfloat=False):
        self.lin = tolin(lin)
        self.isfloat = isfloat

    @staticmethod
    def mk(lin, isfloat=False):
        lin = tolin(lin)
        if lin.const:
            if isfloat:
                return float(lin.k)
            if lin.k.denominator == 1:
                return int(lin.k)
            return float(lin.k)
        return Num(lin, isfloat)

    def _fl(self, o):
        return self.isfloat or isinstance(o, float) or getattr(o, "isfloat", False)

    def _ok(self, o):
        return isinstance(o, (Num, int, float, Fraction)) and not isinstance(o, str)

    def __add__(self, o):
        return Num.mk(self.lin + tolin(o), self._fl(o)) if self._ok(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return Num.mk(self.lin - tolin(o), self._fl(o)) if self._ok(o) else NotImplemented

    def __rsub__(self, o):
        return Num.mk(tolin(o) - self.lin, self._fl(o)) if self._ok(o) else NotImplemented

    def __mul__(self, o):
        if not self._ok(o):
            return NotImplemented
        l2 = tolin(o)
        if l2.const:
            return Num.mk(self.lin.scale(l2.k), self._fl(o))
        if self.lin.const:
            return Num.mk(l2.scale(self.lin.k), self._fl(o))
        return Num(Lin.atom(intern_atom(("mul", self.lin, l2))), self._fl(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        l2 = tolin(o)
        if l2.const:
            if l2.k == 0:
                raise ZeroDivisionError()
            return Num.mk(self.lin.scale(1 / l2.k), True)
        return Num(Lin.atom(intern_atom(("div", self.lin, l2))), True)

    def __floordiv__(self, o):
        l2 = tolin(o)
        if l2.const:
            if l2.k == 0:
                raise ZeroDivisionError()
            return Num.mk(floor_div(self.lin, l2.k), self._fl(o))
        return Num(Lin.atom(intern_atom(("fdiv", self.lin, l2))), self._fl(o))

    def __mod__(self, o):
        l2 = tolin(o)
        if l2.const:
            if l2.k == 0:
                raise ZeroDivisionError()
            if l2.k > 0:
                return Num.mk(lin_mod(self.lin, l2.k), self._fl(o))
        return Num(Lin.atom(intern_atom(("mod", self.lin, l2))), self._fl(o))

    def __rfloordiv__(self, o):
        return Num(Lin.atom(intern_atom(("fdiv", tolin(o), self.lin))))

    def __rmod__(self, o):
        if isinstance(o, str):
            return percent_format(o, self)
        return Num(Lin.atom(intern_atom(("mod", tolin(o), self.lin))))

    def __rtruediv__(self, o):
        return Num(Lin.atom(intern_atom(("div", tolin(o), self.lin))), True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        return Num.mk(-self.lin, self.isfloat)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if P().ge0(self.lin) else -self

    def __lt__(self, o):
        if not self._ok(o):
            return NotImplemented
        return P().ge0(_lt(self.lin, tolin(o)))

    def __le__(self, o):
        if not self._ok(o):
            return NotImplemented
        return P().ge0(tolin(o) - self.lin)

    def __gt__(self, o):
        if not self._ok(o):
            return NotImplemented
        return P().ge0(_lt(tolin(o), self.lin))

    def __ge__(self, o):
        if not self._ok(o):
            return NotImplemented
        return P().ge0(self.lin - tolin(o))

    def __eq__(self, o):
        if not self._ok(o):
            return NotImplemented
        return P().sign(self.lin - tolin(o)) == 0

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 7

    def __bool__(self):
        return P().sign(self.lin) != 0

    def __int__(self):
        raise AnalysisError("int() of an abstract number escaped to native code")

    def __index__(self):
        # finite domain -> enumerate
        v = self.concretize()
        if v is None:
            raise AnalysisError("abstract number used as index: %r" % self)
        return v

    def concretize(self, limit=64):
        if len(self.lin.c) == 1:
            (a, v), = self.lin.c.items()
            if a.lo is not None and a.hi is not None and a.hi - a.lo < limit:
                opts = list(range(a.lo, a.hi + 1))
                opts = [o for o in opts if P().sat(Lin({a: Fraction(1)}, -o)) and P().sat(Lin({a: Fraction(-1)}, o))]
                o = opts[P().choose(len(opts), "value of %s" % a)]
                P().assume(Lin({a: Fraction(1)}, -o))
                P().assume(Lin({a: Fraction(-1)}, o))
                r = v * o + self.lin.k
                if r.denominator == 1:
                    return int(r)
        return None

    def to_int(self):
        """int(): truncation toward zero"""
        if _integral(self.lin):
            return Num.mk(self.lin)
        if P().ge0(self.lin):
            return Num.mk(floor_div(self.lin, 1))
        return Num.mk(-floor_div(-self.lin, 1))

    def is_integer(self):
        return _integral(self.lin) or P().known_eq(self.lin - floor_div(self.lin, 1))

    def __round__(self, nd=None):
        return Num.mk(floor_div(self.lin + Fraction(1, 2), 1)) if nd is None else self

    def __str__(self):
        if not _integral(self.lin) or self.isfloat:
            return marker(("float-text", self.lin), "word")
        if P().ge0(self.lin):
            return marker(("dec", self.lin), "digits")
        return "-" + marker(("dec", -self.lin), "digits")

    def __format__(self, spec):
        if spec in ("", "d"):
            return str(Num(self.lin))
        import re as _re
        m = _re.fullmatch(r"0(\d)d?", spec)
        if m or (_re.fullmatch(r"0?(\d)\.0f", spec)):
            w = int((m or _re.fullmatch(r"0?(\d)\.0f", spec)).group(1))
            return fixed_digits(self, w)
        return marker(("format", spec, self.lin), "word")

    __repr__ = lambda self: "<Num %r>" % self.lin


def _lt(a, b):
    """a < b as  (b - a [-1]) >= 0"""
    d = b - a
    if d.const:
        return Lin({}, 0 if d.k > 0 else -1)
    return _negate(-d)


def fixed_digits(n, w):
    if not isinstance(n, Num):
        return "%0*d" % (w, n)
    lin = n.lin
    if not _integral(lin):
        lin = floor_div(lin, 1)
    if not P().ge0(lin):
        return "-" + marker(("decneg%d" % w, -lin), "digits")
    if lin.const:
        return "%0*d" % (w, int(lin.k))
    if P().ge0(Lin({}, 10 ** w - 1) - lin):
        return "".join(marker(("dig", lin, w, i), "digit") for i in range(w))
    return marker(("dec", lin), "digits")


# ------------------------------------------------------------------ text markers
# CJK ideographs: alphabetic, caseless, not digits, not whitespace
_BASE = 0x4E00
_markers = {}
_rev = {}


def marker(key, kind):
    """kind: word (ordinary opaque text), digit (one digit), digits (>=1 digits)"""
    ch = _markers.get(key)
    if ch is None:
        ch = chr(_BASE + len(_markers))
        if len(_markers) > 20000:
            raise AnalysisError("too many markers")
        _markers[key] = ch
        _rev[ch] = (key, kind)
    return ch


def is_marker(ch):
    return ch in _rev


def marker_info(ch):
    return _rev.get(ch)


def has_digit_marker(s):
    return any(0x4E00 <= ord(c) <= 0x9FFF and c in _rev and _rev[c][1] != "word" for c in s)


def has_marker(s):
    return any(0x4E00 <= ord(c) <= 0x9FFF and c in _rev for c in s)


def shadow(s):
    """same-length text in which digit markers are replaced by a digit"""
    if not has_digit_marker(s):
        return s
    return "".join("1" if (c in _rev and _rev[c][1] != "word") else c for c in s)


def case_map(s, op):
    out = []
    for c in s:
        if c in _rev:
            key, kind = _rev[c]
            if kind != "word" or (isinstance(key, tuple) and key and key[0] == "UP" and op in ("upper",)):
                out.append(c)
            elif isinstance(key, tuple) and key and key[0] == "case":
                out.append(marker(("case", op, key[2]), "word"))
            else:
                out.append(marker(("case", op, key), "word"))
        else:
            out.append(getattr(c, op)())
    return "".join(out)


def text_to_num(s):
    """decimal text (possibly with markers) -> int | Num; ValueError if it is no number"""
    t = s.strip()
    if not has_marker(t):
        return int(t)
    neg = 1
    if t[:1] in "+-":
        neg = -1 if t[0] == "-" else 1
        t = t[1:]
    t = t.replace("_", "") if False else t
    if any(not (c.isdigit() and not c in _rev) and not (c in _rev and _rev[c][1] != "word") for c in t) or not t:
        raise ValueError("invalid literal for int() with base 10: %r" % s)
    u = t.lstrip("0") or t
    if len(u) == 1 and u in _rev and _rev[u][0][0] == "dec":
        return Num.mk(_rev[u][0][1].scale(neg))
    infos = [_rev[c][0] if c in _rev else None for c in u]
    if all(i and i[0] == "dig" for i in infos):
        lin, w = infos[0][1], infos[0][2]
        if len(infos) == w and all(i[1] == lin and i[2] == w and i[3] == n for n, i in enumerate(infos)):
            return Num.mk(lin.scale(neg))
    if all(i and i[0] == "field" for i in infos):
        from . import dt
        r = dt.field_value(infos)
        if r is not None:
            return r * neg if neg < 0 else r
    a = intern_atom(("int-of-text", u), 0, 10 ** len(u) - 1 if all(c not in _rev or _rev[c][1] == "digit" for c in u) else None)
    return Num.mk(Lin.atom(a).scale(neg))


def percent_format(fmt, args):
    """str % args with abstract arguments"""
    import re as _re
    if not isinstance(args, (tuple, dict)) :
        args = (args,)
    pos = 0
    out = []
    it = iter(args) if not isinstance(args, dict) else None
    for m in _re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1) is not None:
            v = args[m.group(1)]
        else:
            try:
                v = next(it)
            except StopIteration:
                raise TypeError("not enough arguments for format string")
        conv = m.group(5)
        if conv in "sra" and not m.group(3):
            out.append(str(v) if conv == "s" else repr(v))
        elif isinstance(v, (Num, AFloat)):
            if conv in "di" and isinstance(v, Num):
                fl, w = m.group(2), m.group(3)
                if w and "0" in fl:
                    out.append(fixed_digits(v, int(w)))
                elif w:
                    out.append(marker(("pad", w, v.lin), "word"))
                else:
                    out.append(str(Num(v.to_int().lin)) if isinstance(v.to_int(), Num) else str(v.to_int()))
            elif conv in "eEfFgG":
                p = m.group(4) or "6"
                src = v.key if isinstance(v, AFloat) else v.lin
                out.append(marker(("%" + p + conv, m.group(2), m.group(3), src), "word"))
            else:
                raise TypeError("%%%s format: a number is required" % conv)
        else:
            out.append(("%" + m.group(2) + m.group(3) + ("." + m.group(4) if m.group(4) else "") + conv) % (v,))
    out.append(fmt[pos:])
    if it is not None:
        try:
            next(it)
        except StopIteration:
            pass
        else:
            raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


class AFloat:
    """an opaque float identified by its provenance"""

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, AFloat) and o.key == self.key

    def __hash__(self):
        return hash(("AFloat", self.key))

    def __str__(self):
        return marker(("float-repr", self.key), "word")

    __repr__ = __str__

    def __format__(self, spec):
        if spec == "":
            return str(self)
        return marker(("%" + (spec if "." in spec else "6" + spec).lstrip("."), "", "", self.key), "word")

    def __bool__(self):
        return P().choose(2, "float %s == 0" % (self.key,)) == 0

    def __add__(self, o):
        return AFloat(("+", self.key, getattr(o, "key", o)))

    def __mul__(self, o):
        return AFloat(("*", self.key, getattr(o, "key", o)))

    __radd__, __rmul__ = __add__, __mul__

    def __sub__(self, o):
        return AFloat(("-", self.key, getattr(o, "key", o)))

    def __truediv__(self, o):
        return AFloat(("/", self.key, getattr(o, "key", o)))

    def __neg__(self):
        return AFloat(("neg", self.key))

    def __round__(self, nd=None):
        return AFloat(("round", nd, self.key))

    def _cmp(self, o):
        raise AnalysisError("ordering of opaque floats")


    def __lt__(self, o):
        return P().choose(2, "float<") == 0
    __gt__ = __le__ = __ge__ = __lt__


def text_to_float(s):
    if not has_marker(s):
        return float(s)
    t = s.strip()
    if len(t) == 1 and t in _rev:
        key = _rev[t][0]
        if key[0] == "float-repr":
            return AFloat(key[1])
        if isinstance(key, tuple) and str(key[0]).startswith("%"):
            return AFloat(("rounded", key[0], key[3]))
        if key[0] == "dec":
            return Num(key[1], True)
        return AFloat(("float", key))
    return AFloat(("float", t))


# ------------------------------------------------------------------ text equality
def _runs(s):
    """[(is number, text)]: maximal digit runs and the text between them"""
    out = []
    for c in s:
        inf = _rev.get(c)
        num = (inf is not None and inf[1] != "word") or (inf is None and "0" <= c <= "9")
        if out and out[-1][0] == num:
            out[-1][1].append(c)
        else:
            out.append((num, [c]))
    return [(n, "".join(t)) for n, t in out]


def _groups(s):
    """a digit run as [(kind, lin or text, ...)], one entry per formatted number"""
    out = []
    for c in s:
        inf = _rev.get(c)
        k = inf[0] if inf else ("lit",)
        if k[0] == "dig":
            g = ("dig", k[1], k[2], k[3])
        elif k[0] == "field":
            g = ("field", k[1], k[2], k[3])
        elif k[0] == "dec":
            g = ("dec", k[1], None, None)
        else:
            g = ("raw", None, c, None)
        out.append(g)
    return out


def text_known_eq(a, b):
    """the abstract texts a and b are equal on the whole partition"""
    if a == b:
        return True
    ra, rb = _runs(a), _runs(b)
    if len(ra) != len(rb):
        return False
    for (na, ta), (nb, tb) in zip(ra, rb):
        if na != nb:
            return False
        if ta == tb:
            continue
        if not na:
            return False
        ga, gb = _groups(ta), _groups(tb)
        if len(ga) == len(gb) and all(x[0] == y[0] and x[2:] == y[2:] and (x[1] is y[1] or P().known_eq(x[1] - y[1])) for x, y in zip(ga, gb)):
            continue
        def width(gs):
            return None if any(g[0] == "dec" or (g[0] == "raw" and g[2] in _rev) for g in gs) else len(gs)
        try:
            va, vb = tolin(text_to_num(ta)), tolin(text_to_num(tb))
        except ValueError:
            return False
        if not P().known_eq(va - vb):
            return False
        wa, wb = width(ga), width(gb)
        if wa == wb:
            continue
        if wa is not None and wb is not None:
            return False
        # one side is a plain decimal (without leading zeros): the other must have none either
        w = wa or wb
        if w > 1 and not P().known(va - Lin({}, 10 ** (w - 1))):
            return False
    return True


def deep_text_eq(a, b):
    """like ==, with texts compared by text_known_eq within lists, tuples and dicts"""
    if isinstance(a, str) and isinstance(b, str):
        return text_known_eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(deep_text_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and deep_text_eq(a[k], b[k]) for k in a)
    return a == b
