"""recurrence rules are opaque: the stub stores what it is given"""
from datetime import datetime

YEARLY, MONTHLY, WEEKLY, DAILY, HOURLY, MINUTELY, SECONDLY = list(range(7))
FREQNAMES = ["YEARLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY", "MINUTELY", "SECONDLY"]


class weekday:
    def __init__(self, wkday, n=None):
        if n == 0:
            raise ValueError("Can't create weekday with n==0")
        self.weekday = wkday
        self.n = n

    def __call__(self, n):
        return self if n == self.n else weekday(self.weekday, n)

    def __eq__(self, other):
        if not isinstance(other, weekday):
            return False
        return self.weekday == other.weekday and self.n == other.n

    def __hash__(self):
        return hash((self.weekday, self.n))

    def __repr__(self):
        s = ("MO", "TU", "WE", "TH", "FR", "SA", "SU")[self.weekday]
        if not self.n:
            return s
        return "%s(%+d)" % (s, self.n)


MO, TU, WE, TH, FR, SA, SU = weekdays = tuple([weekday(x) for x in range(7)])


def _dates_only(r):
    return isinstance(r, rruleset) and r._rdate and not r._rrule and not r._exrule and not r._exdate


class rrulebase:
    def __iter__(self):
        if _dates_only(self):
            return iter(sorted(self._rdate))
        return __ai_unsupported__("iteration of a recurrence rule")

    def before(self, dt, inc=False):
        if _dates_only(self):
            last = None
            for x in self._rdate:
                if (x <= dt if inc else x < dt) and (last is None or x > last):
                    last = x
            return last
        return __ai_rrule_before__(self, dt, inc)

    def after(self, dt, inc=False):
        if _dates_only(self):
            last = None
            for x in self._rdate:
                if (x >= dt if inc else x > dt) and (last is None or x < last):
                    last = x
            return last
        return __ai_rrule_before__(self, dt, ("after", inc))

    def between(self, after, before, inc=False, count=1):
        return [x for x in self if (after <= x <= before if inc else after < x < before)]


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _tuple(v):
    return (v,) if isinstance(v, int) else tuple(v)


class rrule(rrulebase):
    """the constructor of the original as far as it isn't about generating occurrences"""

    def __init__(self, freq, dtstart=None, interval=1, wkst=None, count=None, until=None, bysetpos=None, bymonth=None,
                 bymonthday=None, byyearday=None, byeaster=None, byweekno=None, byweekday=None, byhour=None, byminute=None,
                 bysecond=None, cache=False):
        if not dtstart:
            if until and until.tzinfo:
                dtstart = datetime.now(tz=until.tzinfo).replace(microsecond=0)
            else:
                dtstart = datetime.now().replace(microsecond=0)
        elif not isinstance(dtstart, datetime):
            dtstart = datetime.fromordinal(dtstart.toordinal())
        else:
            dtstart = dtstart.replace(microsecond=0)
        self._dtstart = dtstart
        self._tzinfo = dtstart.tzinfo
        self._freq = freq
        self._interval = interval
        self._count = count
        self._original_rule = o = {}
        if until and not isinstance(until, datetime):
            until = datetime.fromordinal(until.toordinal())
        self._until = until
        if self._dtstart and self._until:
            if (self._dtstart.tzinfo is not None) != (self._until.tzinfo is not None):
                raise ValueError("RRULE UNTIL values must be specified in UTC when DTSTART is timezone-aware")
        if wkst is None:
            self._wkst = 0
        elif isinstance(wkst, int):
            self._wkst = wkst
        else:
            self._wkst = wkst.weekday
        if bysetpos is not None:
            bysetpos = _tuple(bysetpos)
            for pos in bysetpos:
                if pos == 0 or not (-366 <= pos <= 366):
                    raise ValueError("bysetpos must be between 1 and 366, or between -366 and -1")
        if bysetpos:
            o["bysetpos"] = bysetpos
        if byweekno is None and byyearday is None and bymonthday is None and byweekday is None and byeaster is None:
            if freq == YEARLY:
                if bymonth is None:
                    o["bymonth"] = None
                o["bymonthday"] = None
            elif freq == MONTHLY:
                o["bymonthday"] = None
            elif freq == WEEKLY:
                o["byweekday"] = None
        if bymonth is not None and "bymonth" not in o:
            o["bymonth"] = tuple(sorted(set(_tuple(bymonth))))
        if byyearday is not None:
            o["byyearday"] = tuple(sorted(set(_tuple(byyearday))))
        if byeaster is not None:
            o["byeaster"] = tuple(sorted(_tuple(byeaster)))
        if bymonthday is not None and "bymonthday" not in o:
            days = set(_tuple(bymonthday))
            o["bymonthday"] = tuple(sorted([x for x in days if x > 0])) + tuple(sorted([x for x in days if x < 0]))
        if byweekno is not None:
            o["byweekno"] = tuple(sorted(set(_tuple(byweekno))))
        if byweekday is not None:
            if isinstance(byweekday, int) or hasattr(byweekday, "n"):
                byweekday = (byweekday,)
            plain, nth = set(), set()
            for wday in byweekday:
                if isinstance(wday, int):
                    plain.add(wday)
                elif not wday.n or freq > MONTHLY:
                    plain.add(wday.weekday)
                else:
                    nth.add((wday.weekday, wday.n))
            if "byweekday" not in o:
                o["byweekday"] = tuple([weekday(x) for x in sorted(plain)]) + tuple([weekday(x, n) for x, n in sorted(nth)])
        hours = self._times("byhour", byhour, HOURLY, dtstart.hour, 24)
        minutes = self._times("byminute", byminute, MINUTELY, dtstart.minute, 60)
        seconds = self._times("bysecond", bysecond, SECONDLY, dtstart.second, 60)
        if freq < HOURLY and hours and minutes and seconds:
            for vs, base in ((hours, 24), (minutes, 60), (seconds, 60)):
                for v in vs:
                    if not 0 <= v < base:
                        raise ValueError("hour, minute or second out of range")

    def _times(self, name, values, freq, start, base):
        if values is None:
            return {start} if self._freq < freq else None
        values = _tuple(values)
        if self._freq == freq:
            gcd = _gcd(self._interval, base)
            values = set([num for num in values if gcd == 1 or (num - start) % gcd == 0])
            if not values:
                raise ValueError("Invalid rrule byxxx generates an empty set.")
        values = tuple(sorted(set(values)))
        self._original_rule[name] = values
        return values

    def __str__(self):
        output = []
        if self._dtstart:
            output.append(self._dtstart.strftime("DTSTART:%Y%m%dT%H%M%S"))
        parts = ["FREQ=" + FREQNAMES[self._freq]]
        if self._interval != 1:
            parts.append("INTERVAL=" + str(self._interval))
        if self._wkst:
            parts.append("WKST=" + repr(weekday(self._wkst))[0:2])
        if self._count is not None:
            parts.append("COUNT=" + str(self._count))
        if self._until:
            parts.append(self._until.strftime("UNTIL=%Y%m%dT%H%M%S"))
        rule = dict(self._original_rule)
        if rule.get("byweekday") is not None:
            rule["byweekday"] = ["%+d%s" % (w.n, repr(w)[0:2]) if w.n else repr(w) for w in rule["byweekday"]]
        for name, key in (("BYSETPOS", "bysetpos"), ("BYMONTH", "bymonth"), ("BYMONTHDAY", "bymonthday"), ("BYYEARDAY", "byyearday"),
                          ("BYWEEKNO", "byweekno"), ("BYDAY", "byweekday"), ("BYHOUR", "byhour"), ("BYMINUTE", "byminute"),
                          ("BYSECOND", "bysecond"), ("BYEASTER", "byeaster")):
            value = rule.get(key)
            if value:
                parts.append(name + "=" + ",".join([str(v) for v in value]))
        output.append("RRULE:" + ";".join(parts))
        return "\n".join(output)

    def replace(self, **kw):
        new = {"interval": self._interval, "count": self._count, "dtstart": self._dtstart, "freq": self._freq, "until": self._until, "wkst": self._wkst, "cache": False}
        new.update(self._original_rule)
        new.update(kw)
        return rrule(**new)


class rruleset(rrulebase):
    def __init__(self, cache=False):
        self._rrule = []
        self._rdate = []
        self._exrule = []
        self._exdate = []

    def rrule(self, rrule):
        self._rrule.append(rrule)

    def rdate(self, rdate):
        self._rdate.append(rdate)

    def exrule(self, exrule):
        self._exrule.append(exrule)

    def exdate(self, exdate):
        self._exdate.append(exdate)


INTS = ("INTERVAL", "COUNT")
LISTS = ("BYSETPOS", "BYMONTH", "BYMONTHDAY", "BYYEARDAY", "BYEASTER", "BYWEEKNO", "BYHOUR", "BYMINUTE", "BYSECOND")
DAYS = {"MO": 0, "TU": 1, "WE": 2, "TH": 3, "FR": 4, "SA": 5, "SU": 6}


def _weekdays(value):
    out = []
    for wday in value.split(","):
        if "(" in wday:
            w, _, n = wday.partition("(")
            n = int(n[:-1])
        elif len(wday):
            i = 0
            for i in range(len(wday)):
                if wday[i] not in "+-0123456789":
                    break
            n = wday[:i] or None
            w = wday[i:]
            if n:
                n = int(n)
        else:
            raise ValueError("Invalid (empty) BYDAY specification.")
        out.append(weekdays[DAYS[w]](n))
    return out


def _mk(line, dtstart, ignoretz):
    value = line
    if ":" in line:
        name, value = line.split(":")
        if name != "RRULE":
            raise ValueError("unknown parameter name")
    kw = {}
    for pair in value.split(";"):
        name, value = pair.split("=")
        name = name.upper()
        value = value.upper()
        try:
            if name in INTS:
                kw[name.lower()] = int(value)
            elif name in LISTS:
                kw[name.lower()] = [int(x) for x in value.split(",")]
            elif name == "FREQ":
                if value not in FREQNAMES:
                    raise ValueError("freq")
                kw["freq"] = FREQNAMES.index(value)
            elif name == "UNTIL":
                kw["until"] = _dt(value, ignoretz)
            elif name == "WKST":
                kw["wkst"] = DAYS[value]
            elif name == "BYDAY" or name == "BYWEEKDAY":
                kw["byweekday"] = _weekdays(value)
            else:
                name = None
        except (KeyError, ValueError):
            raise ValueError("invalid '%s': %s" % (name, value))
        if name is None:
            raise ValueError("unknown parameter '%s'" % pair)
    return rrule(dtstart=dtstart, **kw)


def _dt(value, ignoretz):
    if value.endswith("Z"):
        from dateutil.tz import UTC
        d = datetime.strptime(value[:-1], "%Y%m%dT%H%M%S")
        return d if ignoretz else d.replace(tzinfo=UTC)
    if "T" not in value:
        return datetime.strptime(value, "%Y%m%d")
    return datetime.strptime(value, "%Y%m%dT%H%M%S")


def _dates(value, parms, ids, ignoretz, tzids):
    zone = None
    for parm in parms:
        if parm.startswith("TZID="):
            tzid = ids.get(parm[5:])
            if tzid is None:
                continue
            if tzids is None:
                from dateutil.tz import gettz
                zone = gettz(tzid)
            elif callable(tzids):
                zone = tzids(tzid)
            else:
                zone = tzids.get(tzid)
        elif parm not in ("VALUE=DATE-TIME", "VALUE=DATE"):
            raise ValueError("unsupported parm: " + parm)
    out = []
    for v in value.split(","):
        d = _dt(v, ignoretz)
        if zone is not None:
            if d.tzinfo is not None:
                raise ValueError("DTSTART/EXDATE specifies multiple timezone")
            d = d.replace(tzinfo=zone)
        out.append(d)
    return out


def rrulestr(s, dtstart=None, cache=False, unfold=False, forceset=False, compatible=False, ignoretz=False, tzids=None, tzinfos=None):
    if compatible:
        forceset = True
        unfold = True
    if not s.strip():
        raise ValueError("empty string")
    lines = []
    if unfold:
        for line in s.splitlines():
            if line and line[0] == " " and lines:
                lines[-1] = lines[-1] + line[1:]
            elif line:
                lines.append(line)
    else:
        lines = s.split()
    if not forceset and len(lines) == 1 and (":" not in s or s.upper().startswith("RRULE:")):
        return _mk(lines[0].upper(), dtstart, ignoretz)
    rr, ex, rd, xd = [], [], [], []
    for line in lines:
        if ":" in line:
            head, _, value = line.partition(":")
        else:
            head, value = "RRULE", line
        parms = head.split(";")
        ids = dict([(p[5:].upper(), p[5:]) for p in parms[1:] if p.upper().startswith("TZID=")])
        parms = [p.upper() for p in parms]
        name = parms.pop(0)
        value = value.upper()
        if name == "RRULE":
            for p in parms:
                if not p.startswith("X-"):
                    raise ValueError("unsupported RRULE parm: " + p)
            rr.append(value)
        elif name == "RDATE":
            for p in parms:
                if p != "VALUE=DATE-TIME":
                    raise ValueError("unsupported RDATE parm: " + p)
            rd.append(value)
        elif name == "EXRULE":
            for p in parms:
                raise ValueError("unsupported EXRULE parm: " + p)
            ex.append(value)
        elif name == "EXDATE":
            xd += _dates(value, parms, ids, ignoretz, tzids)
        elif name == "DTSTART":
            vs = _dates(value, parms, ids, ignoretz, tzids)
            if len(vs) != 1:
                raise ValueError("Multiple DTSTART values specified:" + value)
            dtstart = vs[0]
        else:
            raise ValueError("unsupported property: " + name)
    if not (forceset or len(rr) > 1 or rd or ex or xd):
        return _mk(rr[0], dtstart, ignoretz)
    out = rruleset()
    for v in rr:
        out.rrule(_mk(v, dtstart, ignoretz))
    for v in rd:
        for d in v.split(","):
            out.rdate(_dt(d, ignoretz))
    for v in ex:
        out.exrule(_mk(v, dtstart, ignoretz))
    for v in xd:
        out.exdate(v)
    if compatible and dtstart:
        out.rdate(dtstart)
    return out
