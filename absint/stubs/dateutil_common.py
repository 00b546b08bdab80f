from datetime import tzinfo


class _tzinfo(tzinfo):
    def is_ambiguous(self, dt):
        return False

    def _fold(self, dt):
        return getattr(dt, "fold", 0)

    def fromutc(self, dt):
        return dt + self.utcoffset(dt)


class tzrangebase(_tzinfo):
    pass
