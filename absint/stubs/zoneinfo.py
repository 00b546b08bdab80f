from datetime import tzinfo


class ZoneInfoNotFoundError(KeyError):
    pass


class ZoneInfo(tzinfo):
    def __init__(self, key):
        self.key = key

    def utcoffset(self, dt):
        if dt is None:
            return None
        return __ai_offset__(("zoneinfo", self.key))

    def tzname(self, dt):
        return self.key

    def dst(self, dt):
        return None

    def __str__(self):
        return self.key or "ZoneInfo"
