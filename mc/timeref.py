"""
Reference material for the properties of times: zones and instants, computed
with the standard library only.
"""
import datetime as dt

UTC = dt.timezone.utc
US = dt.timedelta(microseconds=1)
DAY = dt.timedelta(days=1)


class Dst(dt.tzinfo):
    """A zone with summer time: 1 April to 1 October, at 01:00 UTC; base +hh:mm."""

    def __init__(self, minutes):
        self.base = dt.timedelta(minutes=minutes)

    def _summer(self, utc):
        y = utc.year
        return dt.datetime(y, 4, 1, 1) <= utc < dt.datetime(y, 10, 1, 1)

    def fromutc(self, d):
        utc = d.replace(tzinfo=None, fold=0)
        summer = self._summer(utc)
        wall = utc + self.base + (dt.timedelta(hours=1) if summer else dt.timedelta(0))
        fold = 0
        if not summer and self._summer(utc - dt.timedelta(hours=1)):
            fold = 1
        return wall.replace(tzinfo=self, fold=fold)

    def dst(self, d):
        wall = d.replace(tzinfo=None, fold=0)
        a = self._summer(wall - self.base - dt.timedelta(hours=1))
        b = self._summer(wall - self.base)
        if a == b:
            return dt.timedelta(hours=1) if a else dt.timedelta(0)
        # a gap or an ambiguous hour
        if a and not b:        # just before the end as summer, just after as winter
            return dt.timedelta(0) if d.fold else dt.timedelta(hours=1)
        return dt.timedelta(hours=1) if d.fold else dt.timedelta(0)

    def utcoffset(self, d):
        return self.base + self.dst(d)

    def tzname(self, d):
        return 'DST%+d' % (self.base.total_seconds() // 60,)

    def __repr__(self):
        return 'Dst(%d)' % (self.base.total_seconds() // 60,)


class Zone(object):
    """A named zone, given to the code under test in one of several forms."""

    def __init__(self, name, tz, ref, dst=False):
        self.name, self.tz, self.ref, self.dst = name, tz, ref, dst

    def __repr__(self):
        return self.name


def fixed(minutes):
    """FixedOffset for a number of minutes, in the code's own class."""
    from epsilon.extime import FixedOffset
    sign = -1 if minutes < 0 else 1
    return FixedOffset(sign * (abs(minutes) // 60), sign * (abs(minutes) % 60))


def zones(minutes=(0, 60, -60, 330, -210, 765, -720, 840, 1, -1, 1439, -1439), dst=(0, -300, 120)):
    out = [Zone('None', None, UTC)]
    for m in minutes:
        ref = dt.timezone(dt.timedelta(minutes=m))
        out.append(Zone('FixedOffset(%+d)' % m, fixed(m), ref))
    out.append(Zone('stdlib+0530', dt.timezone(dt.timedelta(minutes=330)), dt.timezone(dt.timedelta(minutes=330))))
    for m in dst:
        out.append(Zone('Dst(%+d)' % m, Dst(m), Dst(m), True))
    return out


def instants(micro=True, lo=1000, hi=9998):
    """Naive UTC datetimes: edges of years, months, leap days, seconds, minutes."""
    out = []
    for y in (2, 3, 400, 999, 1000, 1582, 1600, 1700, 1899, 1900, 1901, 1969, 1970, 1996, 1999, 2000, 2001, 2004, 2005, 2010,
              2038, 2100, 2200, 2239, 2400, 9998):
        if not lo <= y <= hi:
            continue
        days = [(1, 1), (1, 31), (2, 1), (2, 28), (3, 1), (4, 1), (6, 30), (10, 1), (12, 31)]
        if y % 4 == 0 and (y % 100 or y % 400 == 0):
            days.append((2, 29))
        for m, d in days:
            for h, mi, s in ((0, 0, 0), (0, 0, 1), (0, 59, 59), (1, 0, 0), (11, 59, 59), (12, 0, 0), (12, 30, 9), (23, 59, 59)):
                for us in ((0, 1, 500000, 999999) if micro and 1700 <= y <= 2239 else (0,)):
                    out.append(dt.datetime(y, m, d, h, mi, s, us))
    return out


def utcOf(t):
    """The start of a Time, as a naive UTC datetime, through its public API."""
    return t.asDatetime().replace(tzinfo=None)
