"""
C18: human-readable output shows the time in the viewer's zone, unambiguously.
"""
import datetime as dt, itertools, time

from mc.core import check, same, op
from mc.timeref import zones, utcOf, US, DAY, UTC

MO = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def local(utc, z):
    return utc.replace(tzinfo=UTC).astimezone(z.ref).replace(tzinfo=None)


def expected(utc, allDay, z, now, seconds, dates=None):
    # periods of a day or more are dates, the same for everyone
    shown = utc if allDay or dates else local(utc, z)
    today = local(now, z)
    h = shown.hour % 12 or 12
    clock = ('%02d:%02d:%02d' % (h, shown.minute, shown.second) if seconds else '%02d:%02d' % (h, shown.minute)) + \
        (' am' if shown.hour < 12 else ' pm')
    if shown.date() == today.date():
        return 'all day' if allDay else clock
    res = '%d %s' % (shown.day, MO[shown.month - 1])
    if shown.year != today.year:
        res += ' %d' % shown.year
    if not allDay:
        res += ', ' + clock
    return res


def make(utc, allDay):
    from epsilon.extime import Time
    if allDay:
        return Time.fromISO8601TimeAndDate('%04d-%02d-%02d' % (utc.year, utc.month, utc.day))
    return Time.fromDatetime(utc)


def shown(t, z, now, seconds, default):
    from epsilon.extime import Time
    op()
    kw = {}
    if z.tz is not None or not default:
        kw['tzinfo'] = z.tz
    if seconds:
        kw['precision'] = Time.Precision.SECONDS
    elif not default:
        kw['precision'] = Time.Precision.MINUTES
    return t.asHumanly(now=Time.fromDatetime(now), **kw)


def pairs(case):
    now, z = case
    for utc, allDay in TIMES:
        t = make(utc, allDay)
        for seconds in (False, True):
            got = shown(t, z, now, seconds, False)
            same(got, expected(utc, allDay, z, now, seconds),
                 '%s%s seen at %s in %r' % (utc, ' (all day)' if allDay else '', now, z))
    return now, repr(z)


def near(case):
    """Everything around the viewer's midnights and new year."""
    now, z, deltas = case
    texts = {}
    for k in deltas:
        utc = now + dt.timedelta(seconds=k)
        t = make(utc, False)
        for seconds in (False, True):
            got = shown(t, z, now, seconds, True)
            same(got, expected(utc, False, z, now, seconds), '%s seen at %s in %r' % (utc, now, z))
            l = local(utc, z).replace(microsecond=0)
            if not seconds:
                l = l.replace(second=0)
            key = (seconds, got)
            if not z.dst:
                check(texts.setdefault(key, l) == l, 'two times get the same text', got, texts[key], l)
    return now, repr(z)


def allDays(case):
    now, z = case
    texts = {}
    for k in range(-400, 400):
        utc = (now + k * DAY).replace(hour=0, minute=0, second=0, microsecond=0)
        t = make(utc, True)
        for seconds in (False, True):
            got = shown(t, z, now, seconds, False)
            same(got, expected(utc, True, z, now, seconds), 'all day %s seen at %s in %r' % (utc.date(), now, z))
            check(texts.setdefault(got, utc) == utc, 'two days get the same text', got)
    return now, repr(z)


LENGTHS = ['%Y', '%Y-%m', '%Y-%m-%d', '%Y-%m-%dT%H', '%Y-%m-%dT%H:%M', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%dT%H:%M:%S.5', 'week']


def lengths(case):
    """Periods of every length: only a day is shown without a time."""
    from epsilon.extime import Time
    now, z = case
    for when in (now, now.replace(month=1, day=1), now - 40 * DAY, now - 400 * DAY):
        for f in LENGTHS:
            text = '%04d-W%02d' % when.isocalendar()[:2] if f == 'week' else when.strftime(f)
            t = Time.fromISO8601TimeAndDate(text)
            for seconds in (False, True):
                got = shown(t, z, now, seconds, False)
                same(got, expected(utcOf(t), f == '%Y-%m-%d', z, now, seconds, 'T' not in text), '%s seen at %s in %r' % (text, now, z))
    return now, repr(z)


def precision(case):
    from epsilon.extime import Time, InvalidPrecision
    p, allDay, now = case
    t = make(dt.datetime(2004, 2, 29, 12, 30), allDay)
    op()
    try:
        got = t.asHumanly(now=Time.fromDatetime(now), precision=JUNK[p])
    except InvalidPrecision:
        return 'refused'
    check(False, 'an unknown precision was accepted', JUNK[p], got)


def realNow(case):
    """Without a now the present is used."""
    from epsilon.extime import Time
    for attempt in range(4):
        a = Time()
        today = a.asHumanly(precision=Time.Precision.SECONDS)
        b = Time()
        if utcOf(a).date() == utcOf(b).date():
            break
    z = zones()[0]
    same(today, expected(utcOf(a), False, z, utcOf(a), True), 'the present')
    old = Time.fromDatetime(dt.datetime(2001, 2, 3, 4, 5, 6)).asHumanly()
    same(old, '3 Feb 2001, 04:05 am', 'long ago')
    return case


class Since(dt.tzinfo):
    """A zone in which a day begins at a given instant."""

    def __init__(self, instant):
        past = instant - instant.replace(hour=0, minute=0, second=0, microsecond=0)
        self.offset = -past if past < DAY / 2 else DAY - past
        self.ref = self

    def utcoffset(self, when):
        return self.offset

    def dst(self, when):
        return dt.timedelta(0)

    def tzname(self, when):
        return 'since'


def newDay(case):
    """The present goes on: what was today is yesterday as soon as midnight has passed."""
    from epsilon.extime import Time
    a = Time()
    for i in range(case):
        a.asHumanly()
    a = Time()
    time.sleep(0.01)
    midnight = utcOf(Time()) - dt.timedelta(milliseconds=5)
    zone = Since(midnight)
    op()
    got = a.asHumanly(tzinfo=zone)
    later = utcOf(Time())
    same(got, expected(utcOf(a), False, zone, later, False), 'a time before midnight, shown after midnight')
    b = Time()
    same(b.asHumanly(tzinfo=zone), expected(utcOf(b), False, zone, utcOf(b), False), 'a time after midnight')
    return case


JUNK = [None, 0, 1, 'minutes', 'MINUTES', 'seconds', object(), '', (), 3.5, True]
TIMES = []


def run(ctx):
    ctx.assumptions += ['years from 1000; the C locale for month names; in zones with summer time the repeated hour is shown twice']
    q = ctx.quick
    Z = zones()
    base = [dt.datetime(y, m, d, h, mi, s, us) for y in (2003, 2004, 2005, 1066) for m, d in
            ((1, 1), (2, 28), (3, 1), (7, 4), (12, 31)) for h, mi, s, us in
            ((0, 0, 0, 0), (0, 0, 59, 999999), (11, 59, 0, 0), (12, 0, 1, 0), (13, 1, 0, 0), (23, 59, 59, 999999))]
    TIMES.extend([(b, False) for b in base] + [(b.replace(hour=0, minute=0, second=0, microsecond=0), True) for b in base[::6]])
    nows = base[::4 if q else 1]
    ctx.sweep('pairs', [(n, z) for n in nows for z in Z], pairs, parallel=True)
    deltas = sorted(set(list(range(-86400 * 2, 86400 * 2, 1801 if q else 300)) + list(range(-130, 130)) + list(range(-86500, -86300, 7))
                        + list(range(86300, 86500, 7)) + [k * 86400 for k in range(-370, 371, 5)] + [366 * 86400, 365 * 86400]))
    some = [dt.datetime(2004, 12, 31, 23, 59, 59), dt.datetime(2005, 1, 1, 0, 0, 0), dt.datetime(2004, 2, 29, 12, 0, 0),
            dt.datetime(2004, 4, 1, 0, 30), dt.datetime(2004, 10, 1, 0, 30), dt.datetime(2004, 1, 1, 13, 0, 0, 5)]
    ctx.sweep('near', [(n, z, deltas) for n in some for z in Z], near, parallel=True)
    ctx.sweep('all-day', [(n, z) for n in some for z in Z], allDays, parallel=True)
    ctx.sweep('lengths', [(n, z) for n in some + [dt.datetime(2005, 1, 1, 12), dt.datetime(2004, 3, 1, 0, 30), dt.datetime(2007, 1, 1, 5, 0)]
                          for z in Z], lengths, parallel=True)
    ctx.sweep('precision', [(p, a, n) for p in range(len(JUNK)) for a in (False, True) for n in some[:3]], precision)
    ctx.sweep('real-now', [0, 1], realNow)
    ctx.sweep('midnight-passes', [0, 1, 5], newDay)
