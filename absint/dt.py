"""Abstract model of the ``datetime`` module (positions are linear forms in microseconds)."""
import datetime as _dt
import re as _re

from .dom import (CTX, AnalysisError, Lin, Num, P, fixed_digits, floor_div, intern_atom, lin_mod,
                  marker, marker_info, shadow, text_to_num, tolin, _lt, is_marker)

US = 1
SEC = 10 ** 6
MIN = 60 * SEC
HOUR = 3600 * SEC
DAY = 86400 * SEC


def L(x):
    return Lin({}, x)


def field_value(infos):
    """markers of a date field (all of one field, in order) -> its value"""
    d, code = infos[0][1], infos[0][2]
    w = 4 if code == "Y" else 2
    if len(infos) == w and all(i[1] == d and i[2] == code and i[3] == n for n, i in enumerate(infos)):
        return date_field(d, code)
    return None


def date_field(daylin, code):
    if daylin.const:
        o = _dt.date.fromordinal(int(daylin.k))
        return {"Y": o.year, "m": o.month, "d": o.day}[code]
    lo, hi = {"Y": (1, 9999), "m": (1, 12), "d": (1, 31)}[code]
    return Num(Lin.atom(intern_atom(("datefield", daylin, code), lo, hi)))


def in_range(pos):
    """positions that are known must be a date of the years 1 to 9999"""
    if pos.const and not DAY <= pos.k < 3652060 * DAY:
        raise OverflowError("date value out of range")
    return pos


def ymd_to_day(y, m, d):
    if all(isinstance(v, int) for v in (y, m, d)):
        return L(_dt.date(y, m, d).toordinal())
    srcs = set()
    for v, code in ((y, "Y"), (m, "m"), (d, "d")):
        if isinstance(v, Num) and len(v.lin.c) == 1 and v.lin.k == 0:
            (a, c), = v.lin.c.items()
            if c == 1 and isinstance(a.name, tuple) and a.name[0] == "datefield" and a.name[2] == code:
                srcs.add(a.name[1])
                continue
        srcs.add(("other", code))
    if len(srcs) == 1:
        return srcs.pop()
    return Lin.atom(intern_atom(("ymd", _k(y), _k(m), _k(d))))


def _k(v):
    return v.lin if isinstance(v, Num) else v


class timedelta:
    __slots__ = ("us",)
    _ai_native = True

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        t = Lin()
        for v, f in ((days, DAY), (seconds, SEC), (microseconds, 1), (milliseconds, 1000), (minutes, MIN), (hours, HOUR), (weeks, 7 * DAY)):
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, (int, float, Num)):
                raise TypeError("unsupported type for timedelta component: %s" % type(v).__name__)
            t = t + tolin(v).scale(f)
        self.us = t

    @classmethod
    def of(cls, us):
        r = cls.__new__(cls)
        r.us = tolin(us)
        return r

    @property
    def days(self):
        return Num.mk(floor_div(self.us, DAY))

    @property
    def seconds(self):
        return Num.mk(floor_div(lin_mod(self.us, DAY), SEC))

    @property
    def microseconds(self):
        return Num.mk(lin_mod(self.us, SEC))

    def total_seconds(self):
        n = self.us.scale(_F(1, SEC))
        return float(n.k) if n.const else Num(n, True)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return timedelta.of(self.us + o.us)
        return NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return timedelta.of(self.us - o.us)
        return NotImplemented

    def __neg__(self):
        return timedelta.of(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if P().ge0(self.us) else -self

    def __mul__(self, o):
        if isinstance(o, (int, float, Num)):
            r = Num(self.us) * o
            return timedelta.of(tolin(r))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return Num(self.us) / (Num.mk(o.us))
        if isinstance(o, (int, float)):
            return timedelta.of(self.us.scale(1 / _F(o)))
        return NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return Num(self.us) // Num.mk(o.us)
        if isinstance(o, int):
            return timedelta.of(floor_div(self.us, o))
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, timedelta):
            r = Num(self.us) % Num.mk(o.us)
            return timedelta.of(tolin(r))
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __eq__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return P().sign(self.us - o.us) == 0

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _cmp(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented

    def __lt__(self, o):
        return P().ge0(_lt(self.us, o.us)) if isinstance(o, timedelta) else NotImplemented

    def __gt__(self, o):
        return P().ge0(_lt(o.us, self.us)) if isinstance(o, timedelta) else NotImplemented

    def __le__(self, o):
        return P().ge0(o.us - self.us) if isinstance(o, timedelta) else NotImplemented

    def __ge__(self, o):
        return P().ge0(self.us - o.us) if isinstance(o, timedelta) else NotImplemented

    def __hash__(self):
        return 13

    def __bool__(self):
        return P().sign(self.us) != 0

    def __str__(self):
        return marker(("str-td", self.us), "word")

    def __repr__(self):
        return "timedelta(us=%r)" % self.us

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


from fractions import Fraction as _F


def _num(v):
    return isinstance(v, (int, Num)) and not isinstance(v, bool)


class TimeTuple(tuple):
    """time.struct_time"""
    for _i, _n in enumerate(("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec", "tm_wday", "tm_yday", "tm_isdst")):
        locals()[_n] = property(lambda s, i=_i: s[i])
    del _i, _n


class date:
    __slots__ = ("pos",)
    _ai_native = True

    def __init__(self, year, month=None, day=None):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        self.pos = ymd_to_day(year, month, day).scale(DAY)

    @classmethod
    def of(cls, pos):
        r = date.__new__(date)
        r.pos = tolin(pos)
        return r

    @classmethod
    def today(cls):
        return date.of(floor_div(_now_local(), DAY).scale(DAY))

    @classmethod
    def fromordinal(cls, n):
        return date.of(tolin(n).scale(DAY))

    @property
    def daylin(self):
        return floor_div(self.pos, DAY)

    year = property(lambda s: date_field(s.daylin, "Y"))
    month = property(lambda s: date_field(s.daylin, "m"))
    day = property(lambda s: date_field(s.daylin, "d"))

    def toordinal(self):
        return Num.mk(self.daylin)

    def weekday(self):
        return Num.mk(lin_mod(self.daylin - 1, 7))

    def replace(self, year=None, month=None, day=None):
        return date(self.year if year is None else year, self.month if month is None else month, self.day if day is None else day)

    def strftime(self, fmt):
        return _strftime(fmt, self.pos, None)

    def isoformat(self):
        return _strftime("%Y-%m-%d", self.pos, None)

    __str__ = isoformat

    def __repr__(self):
        return "date(%r)" % self.daylin

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def timetuple(self):
        return TimeTuple((self.year, self.month, self.day, 0, 0, 0, self.weekday(), self.daylin_of_year(), -1))

    def daylin_of_year(self):
        if self.daylin.const:
            return _dt.date.fromordinal(int(self.daylin.k)).timetuple().tm_yday
        return Num(Lin.atom(intern_atom(("yday", self.daylin), 1, 366)))

    def isoweekday(self):
        return self.weekday() + 1

    def __add__(self, o):
        if isinstance(o, timedelta):
            return date.of(in_range(self.pos + floor_div(o.us, DAY).scale(DAY)))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return date.of(in_range(self.pos - floor_div(o.us, DAY).scale(DAY)))
        if isinstance(o, date) and not isinstance(o, datetime):
            return timedelta.of(self.pos - o.pos)
        return NotImplemented

    def _isd(self, o):
        return isinstance(o, date) and not isinstance(o, datetime)

    def __eq__(self, o):
        return P().sign(self.pos - o.pos) == 0 if self._isd(o) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return P().ge0(_lt(self.pos, o.pos)) if self._isd(o) else NotImplemented

    def __gt__(self, o):
        return P().ge0(_lt(o.pos, self.pos)) if self._isd(o) else NotImplemented

    def __le__(self, o):
        return P().ge0(o.pos - self.pos) if self._isd(o) else NotImplemented

    def __ge__(self, o):
        return P().ge0(self.pos - o.pos) if self._isd(o) else NotImplemented

    def __hash__(self):
        return 17

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class time:
    __slots__ = ("us", "tzinfo", "fold")
    _ai_native = True

    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        for v, hi in ((hour, 24), (minute, 60), (second, 60), (microsecond, SEC)):
            if isinstance(v, int) and not 0 <= v < hi:
                raise ValueError("time component out of range")
        self.us = tolin(hour).scale(HOUR) + tolin(minute).scale(MIN) + tolin(second).scale(SEC) + tolin(microsecond)
        self.tzinfo = tzinfo
        self.fold = fold

    @classmethod
    def of(cls, us, tz=None, fold=0):
        r = cls.__new__(cls)
        r.us, r.tzinfo, r.fold = tolin(us), tz, fold
        return r

    hour = property(lambda s: Num.mk(floor_div(s.us, HOUR)))
    minute = property(lambda s: Num.mk(floor_div(lin_mod(s.us, HOUR), MIN)))
    second = property(lambda s: Num.mk(floor_div(lin_mod(s.us, MIN), SEC)))
    microsecond = property(lambda s: Num.mk(lin_mod(s.us, SEC)))

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        if hour is minute is second is microsecond is None:
            return time.of(self.us, self.tzinfo if tzinfo is True else tzinfo)
        return time(self.hour if hour is None else hour, self.minute if minute is None else minute,
                    self.second if second is None else second, self.microsecond if microsecond is None else microsecond,
                    self.tzinfo if tzinfo is True else tzinfo)

    def strftime(self, fmt):
        return _strftime(fmt, self.us, self.tzinfo)

    def isoformat(self, timespec="auto"):
        return marker(("iso-time", self.us, id(self.tzinfo)), "word")

    __str__ = isoformat

    def __repr__(self):
        return "time(%r, %s)" % (self.us, self.tzinfo)

    def utcoffset(self):
        return None if self.tzinfo is None else CTX.interp.call_method(self.tzinfo, "utcoffset", None)

    def tzname(self):
        return None if self.tzinfo is None else CTX.interp.call_method(self.tzinfo, "tzname", None)

    def dst(self):
        return None if self.tzinfo is None else CTX.interp.call_method(self.tzinfo, "dst", None)

    def __eq__(self, o):
        if not isinstance(o, time):
            return NotImplemented
        if self.tzinfo is o.tzinfo or (self.tzinfo is not None and o.tzinfo is not None):
            return P().sign(self.us - o.us) == 0
        return False

    def __lt__(self, o):
        if not isinstance(o, time):
            return NotImplemented
        return P().ge0(_lt(self.us, o.us))

    def __hash__(self):
        return 19

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _now():
    p = P()
    p.fresh += 1
    return Lin.atom(intern_atom(("utcnow", p.fresh)))


def local_offset():
    return Lin.atom(intern_atom(("off", "LOCAL"), -86399, 86399)).scale(SEC)


def _now_local():
    return _now() + local_offset()


class datetime(date):
    __slots__ = ("tzinfo", "fold", "_utc")

    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        for v, hi in ((hour, 24), (minute, 60), (second, 60), (microsecond, SEC)):
            if not _num(v):
                raise TypeError("an integer is required (got type %s)" % type(v).__name__)
            if isinstance(v, int) and not 0 <= v < hi:
                raise ValueError("datetime component out of range")
        if month is None or day is None:
            raise TypeError("function missing required argument")
        self.pos = (ymd_to_day(year, month, day).scale(DAY) + tolin(hour).scale(HOUR) + tolin(minute).scale(MIN)
                    + tolin(second).scale(SEC) + tolin(microsecond))
        if tzinfo is not None:
            _check_tz(tzinfo)
        self.tzinfo, self.fold, self._utc = tzinfo, fold, None

    @classmethod
    def of(cls, pos, tz=None, fold=0, utc=None):
        r = datetime.__new__(datetime)
        r.pos, r.tzinfo, r.fold, r._utc = tolin(pos), tz, fold, utc
        return r

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        if not isinstance(d, date) or not isinstance(t, time):
            raise TypeError("combine() argument types")
        return datetime.of(floor_div(d.pos, DAY).scale(DAY) + t.us, t.tzinfo if tzinfo is True else tzinfo)

    @classmethod
    def now(cls, tz=None):
        if tz is None:
            return datetime.of(_now_local())
        u = _now()
        return datetime.of(u, UTC_REF[0]).astimezone(tz)

    @classmethod
    def today(cls):
        return datetime.of(_now_local())

    @classmethod
    def utcnow(cls):
        return datetime.of(_now())

    @classmethod
    def strptime(cls, text, fmt):
        return _strptime(text, fmt)

    @classmethod
    def fromisoformat(cls, text):
        raise AnalysisError("fromisoformat not modelled")

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        pos = L(_dt.datetime(1970, 1, 1).toordinal() * DAY) + tolin(t).scale(SEC)
        if tz is None:
            return datetime.of(pos + local_offset())
        return datetime.of(pos, CTX.interp.modules["datetime"].ns["UTC"]).astimezone(tz)

    hour = property(lambda s: Num.mk(floor_div(lin_mod(s.pos, DAY), HOUR)))
    minute = property(lambda s: Num.mk(floor_div(lin_mod(s.pos, HOUR), MIN)))
    second = property(lambda s: Num.mk(floor_div(lin_mod(s.pos, MIN), SEC)))
    microsecond = property(lambda s: Num.mk(lin_mod(s.pos, SEC)))

    def date(self):
        return date.of(self.daylin.scale(DAY))

    def time(self):
        return time.of(lin_mod(self.pos, DAY), None, self.fold)

    def timetz(self):
        return time.of(lin_mod(self.pos, DAY), self.tzinfo, self.fold)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        pos = self.pos
        changed = False
        if year is not None or month is not None or day is not None:
            dl = ymd_to_day(self.year if year is None else year, self.month if month is None else month, self.day if day is None else day)
            pos = pos - self.daylin.scale(DAY) + dl.scale(DAY)
            changed = True
        if hour is not None and minute is not None and second is not None and microsecond is not None:
            pos = floor_div(pos, DAY).scale(DAY) + tolin(hour).scale(HOUR) + tolin(minute).scale(MIN) + tolin(second).scale(SEC) + tolin(microsecond)
        else:
            for v, cur, f in ((hour, "hour", HOUR), (minute, "minute", MIN), (second, "second", SEC), (microsecond, "microsecond", 1)):
                if v is not None:
                    pos = pos - tolin(getattr(self, cur)).scale(f) + tolin(v).scale(f)
        if tzinfo is not True and tzinfo is not None:
            _check_tz(tzinfo)
        return datetime.of(pos, self.tzinfo if tzinfo is True else tzinfo, self.fold if fold is None else fold)

    def utcoffset(self):
        if self.tzinfo is None:
            return None
        return CTX.interp.call_method(self.tzinfo, "utcoffset", self)

    def dst(self):
        return None if self.tzinfo is None else CTX.interp.call_method(self.tzinfo, "dst", self)

    def tzname(self):
        return None if self.tzinfo is None else CTX.interp.call_method(self.tzinfo, "tzname", self)

    @property
    def utcpos(self):
        if self._utc is None:
            off = self.utcoffset()
            self._utc = self.pos if off is None else self.pos - off.us
        return self._utc

    def _naive(self):
        return self.tzinfo is None

    def astimezone(self, tz=None):
        if tz is not None:
            _check_tz(tz)
        if self.tzinfo is None:
            utc = self.pos - local_offset()
            if tz is not None and CTX.interp.is_local_tz(tz):
                return datetime.of(self.pos, tz, utc=utc)
        else:
            if tz is self.tzinfo:
                return self
            utc = self.utcpos
        if tz is None:
            tz = CTX.interp.local_fixed_tz()
        if CTX.interp.is_local_tz(tz):
            return datetime.of(utc + local_offset(), tz, utc=utc)
        off = CTX.interp.call_method(tz, "utcoffset", datetime.of(utc, tz))
        return datetime.of(in_range(utc + off.us), tz, utc=in_range(utc))

    def strftime(self, fmt):
        return _strftime(fmt, self.pos, self.tzinfo, self)

    def isoformat(self, sep="T", timespec="auto"):
        return marker(("iso", self.pos, id(self.tzinfo), sep), "word")

    def __str__(self):
        return self.isoformat(" ")

    def __repr__(self):
        return "datetime(%r, tz=%s)" % (self.pos, CTX.interp.tz_label(self.tzinfo))

    def timestamp(self):
        return Num.mk((self.utcpos if self.tzinfo is not None else self.pos - local_offset()).scale(_F(1, SEC)), True)

    def timetuple(self):
        t = self.time()
        dst = None if self.tzinfo is None else self.dst()
        return TimeTuple((self.year, self.month, self.day, t.hour, t.minute, t.second, self.weekday(), self.daylin_of_year(), -1 if dst is None else int(bool(dst))))

    def utctimetuple(self):
        t = datetime.of(self.pos if self.tzinfo is None else self.utcpos).timetuple()
        return TimeTuple(t[:8] + (0,))

    def __add__(self, o):
        if isinstance(o, timedelta):
            return datetime.of(in_range(self.pos + o.us), self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return datetime.of(in_range(self.pos - o.us), self.tzinfo)
        if isinstance(o, datetime):
            if (self.tzinfo is None) != (o.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            if self.tzinfo is o.tzinfo:
                return timedelta.of(self.pos - o.pos)
            return timedelta.of(self.utcpos - o.utcpos)
        return NotImplemented

    def _diff(self, o):
        if self.tzinfo is o.tzinfo:
            return self.pos - o.pos
        if self.tzinfo is None or o.tzinfo is None:
            return None
        return self.utcpos - o.utcpos

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return NotImplemented
        d = self._diff(o)
        return False if d is None else P().sign(d) == 0

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _ord(self, o):
        if not isinstance(o, datetime):
            if isinstance(o, date):
                raise TypeError("can't compare datetime.datetime to datetime.date")
            return NotImplemented
        d = self._diff(o)
        if d is None:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return d

    def __lt__(self, o):
        d = self._ord(o)
        return d if d is NotImplemented else P().ge0(_lt(d, Lin()))

    def __gt__(self, o):
        d = self._ord(o)
        return d if d is NotImplemented else P().ge0(_lt(Lin(), d))

    def __le__(self, o):
        d = self._ord(o)
        return d if d is NotImplemented else P().ge0(-d)

    def __ge__(self, o):
        d = self._ord(o)
        return d if d is NotImplemented else P().ge0(d)

    def __hash__(self):
        return 23


UTC_REF = [None]


def _check_tz(tz):
    if not CTX.interp.isinstance_(tz, CTX.interp.tzinfo_cls):
        raise TypeError("tzinfo argument must be None or of a tzinfo subclass, not type %r" % CTX.interp.type_name(tz))


def _strftime(fmt, pos, tz, obj=None):
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d in "Ymd":
            w = 4 if d == "Y" else 2
            day = floor_div(pos, DAY)
            if day.const:
                out.append("%0*d" % (w, date_field(day, d)))
            else:
                out += [marker(("field", day, d, k), "digit") for k in range(w)]
        elif d == "H":
            out.append(fixed_digits(Num(floor_div(lin_mod(pos, DAY), HOUR)), 2))
        elif d == "M":
            out.append(fixed_digits(Num(floor_div(lin_mod(pos, HOUR), MIN)), 2))
        elif d == "S":
            out.append(fixed_digits(Num(floor_div(lin_mod(pos, MIN), SEC)), 2))
        elif d == "f":
            out.append(fixed_digits(Num(lin_mod(pos, SEC)), 6))
        elif d == "%":
            out.append("%")
        elif d == "Z":
            out.append("" if tz is None else str(CTX.interp.call_method(tz, "tzname", obj)))
        elif d == "z":
            out.append("" if tz is None else marker(("%z", pos, id(tz)), "word"))
        elif d == "T":
            out.append(_strftime("%H:%M:%S", pos, tz, obj))
        elif d == "F":
            out.append(_strftime("%Y-%m-%d", pos, tz, obj))
        else:
            out.append(marker(("strftime", d, pos), "word"))
    return "".join(out)


_DIRS = {"Y": r"\d\d\d\d", "m": r"1[0-2]|0[1-9]|[1-9]|1\d", "d": r"\d\d|\d", "H": r"\d\d|\d", "M": r"\d\d|\d", "S": r"\d\d|\d", "f": r"\d{1,6}", "y": r"\d\d"}
_LIM = {"m": (1, 12), "d": (1, 31), "H": (0, 23), "M": (0, 59), "S": (0, 61)}


def _strptime(text, fmt):
    if not isinstance(text, str):
        raise TypeError("strptime() argument 1 must be str, not %s" % CTX.interp.type_name(text))
    names = []
    rx = ""
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c == "%":
            d = fmt[i + 1]
            i += 2
            if d == "%":
                rx += "%"
                continue
            if d not in _DIRS:
                raise AnalysisError("strptime directive %%%s not modelled" % d)
            names.append(d)
            rx += "(" + _DIRS[d] + ")"
        else:
            rx += _re.escape(c) if not c.isspace() else r"\s+"
            i += 1
    m = _re.fullmatch(rx, shadow(text), _re.ASCII if False else 0)
    if not m:
        raise ValueError("time data %r does not match format %r" % (text, fmt))
    v = {"Y": 1900, "m": 1, "d": 1, "H": 0, "M": 0, "S": 0, "f": 0}
    for n, d in enumerate(names):
        s = text[m.start(n + 1):m.end(n + 1)]
        v[d] = text_to_num(s)
        if d in _LIM and isinstance(v[d], int) and not _LIM[d][0] <= v[d] <= _LIM[d][1]:
            raise ValueError("time data %r does not match format %r" % (text, fmt))
        if d == "f" and isinstance(v[d], int):
            v[d] *= 10 ** (6 - len(s))
    return datetime(v["Y"], v["m"], v["d"], v["H"], v["M"], v["S"], v["f"])


date.min = date.of(L(DAY))
date.max = date.of(L(_dt.date.max.toordinal()).scale(DAY))
date.resolution = timedelta(days=1)
datetime.min = datetime.of(L(DAY))
datetime.max = datetime.of(L(_dt.date.max.toordinal() + 1).scale(DAY) - 1)
datetime.resolution = timedelta(microseconds=1)
time.min = time()
time.max = time.of(L(DAY - 1))
timedelta.resolution = timedelta(microseconds=1)
timedelta.min = timedelta(days=-999999999)
timedelta.max = timedelta(days=999999999)
