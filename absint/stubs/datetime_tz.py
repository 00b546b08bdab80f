class tzinfo:
    def utcoffset(self, dt):
        raise NotImplementedError("a tzinfo subclass must implement utcoffset()")

    def tzname(self, dt):
        raise NotImplementedError("a tzinfo subclass must implement tzname()")

    def dst(self, dt):
        raise NotImplementedError("a tzinfo subclass must implement dst()")

    def fromutc(self, dt):
        return dt + self.utcoffset(dt)


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        if not isinstance(offset, _timedelta):
            raise TypeError("offset must be a timedelta")
        self._offset = offset
        self._name = name

    def utcoffset(self, dt):
        return self._offset

    def tzname(self, dt):
        if self._name is None:
            return _tz_default_name(self._offset)
        return self._name

    def dst(self, dt):
        return None

    def __eq__(self, other):
        if isinstance(other, timezone):
            return self._offset == other._offset
        return NotImplemented

    def __hash__(self):
        return 29

    def __str__(self):
        return self.tzname(None)

    def __repr__(self):
        return "datetime.timezone(...)"


timezone.utc = timezone(_timedelta(0), "UTC")
