from datetime import timedelta
from dateutil.tz._common import _tzinfo, tzrangebase

ZERO = timedelta(0)


class tzutc(_tzinfo):
    def __new__(cls):
        if "_inst" not in cls.__dict__:
            cls._inst = object.__new__(cls)
        return cls._inst

    def utcoffset(self, dt):
        return ZERO

    def dst(self, dt):
        return ZERO

    def tzname(self, dt):
        return "UTC"

    def __eq__(self, other):
        if not isinstance(other, (tzutc, tzoffset)):
            return NotImplemented
        return isinstance(other, tzutc) or (isinstance(other, tzoffset) and other._offset == ZERO)

    __hash__ = None

    def __repr__(self):
        return "tzutc()"


UTC = tzutc()


class tzoffset(_tzinfo):
    def __init__(self, name, offset):
        self._name = name
        if not isinstance(offset, timedelta):
            offset = timedelta(seconds=offset)
        self._offset = offset

    def utcoffset(self, dt):
        return self._offset

    def dst(self, dt):
        return ZERO

    def tzname(self, dt):
        return self._name

    def __eq__(self, other):
        if not isinstance(other, tzoffset):
            return NotImplemented
        return self._offset == other._offset

    __hash__ = None

    def __repr__(self):
        return "tzoffset(...)"


class tzlocal(_tzinfo):
    def utcoffset(self, dt):
        if dt is None:
            return None
        return __ai_local_offset__()

    def dst(self, dt):
        return ZERO

    def tzname(self, dt):
        return "LOCAL"

    def __eq__(self, other):
        if isinstance(other, tzlocal):
            return True
        return NotImplemented

    __hash__ = None

    def __repr__(self):
        return "tzlocal()"


class tzfile(_tzinfo):
    def __init__(self, fileobj, filename=None):
        self._filename = filename if filename is not None else fileobj

    def utcoffset(self, dt):
        if dt is None:
            return None
        return __ai_offset__(("tzfile", self._filename))

    def dst(self, dt):
        return ZERO

    def tzname(self, dt):
        return "TZFILE"

    def __eq__(self, other):
        if not isinstance(other, tzfile):
            return NotImplemented
        return self._filename == other._filename

    __hash__ = None

    def __repr__(self):
        return "tzfile(" + repr(self._filename) + ")"


class tzrange(tzrangebase):
    def __init__(self, stdabbr, *a, **k):
        self._name = stdabbr

    def utcoffset(self, dt):
        return __ai_offset__(("tzrange", self._name))

    __hash__ = None

    def __repr__(self):
        return "tzrange(...)"


class tzstr(tzrange):
    def __init__(self, s, posix_offset=False):
        self._s = s
        self._name = s

    def __repr__(self):
        return "tzstr(" + repr(self._s) + ")"


class _tzicalvtz(_tzinfo):
    def __init__(self, tzid, comps=()):
        self._tzid = tzid

    def utcoffset(self, dt):
        return __ai_offset__(("tzical", self._tzid))

    def __repr__(self):
        return "<tzicalvtz " + repr(self._tzid) + ">"


class tzical:
    pass


tzwin = None
tzwinlocal = None


def gettz(name=None):
    if name is not None and name.startswith("System/"):
        return tzfile(name)
    if name == "UTC":
        return UTC
    return None


def tz_utc():
    return UTC
