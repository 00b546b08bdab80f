"""the time zone database is opaque: any name below 'Known/' (and a few others) exists"""
BUILTIN_TZID_PREFIX = "/ics.py/2020.1/"


class _File:
    def __init__(self, tzid, offset="+0130"):
        self.tzid = tzid
        self.offset = offset

    def read_text(self):
        return ("BEGIN:VCALENDAR\r\nPRODID:-//ics.py//builtin//EN\r\nVERSION:2.0\r\nBEGIN:VTIMEZONE\r\nTZID:" + self.tzid
                + "\r\nBEGIN:STANDARD\r\nDTSTART:19700101T000000\r\nRRULE:FREQ=YEARLY;COUNT=1\r\nTZNAME:KN\r\nTZOFFSETFROM:" + self.offset + "\r\nTZOFFSETTO:" + self.offset + "\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\nEND:VCALENDAR\r\n")


def find_vtimezone_ics_file(tzid):
    base = tzid
    if base.startswith(BUILTIN_TZID_PREFIX):
        base = base[len(BUILTIN_TZID_PREFIX):]
    elif base.startswith("/usr/share/zoneinfo/"):
        base = base[20:]
    if base in ("UTC", "Etc/UTC"):
        return _File(BUILTIN_TZID_PREFIX + "Etc/UTC", "+0000")
    if base.startswith("Known/"):
        return _File(BUILTIN_TZID_PREFIX + base)
    return None


def windows_to_olson(tzid):
    if tzid.startswith("Windows "):
        return "Known/" + tzid[8:]
    return None
