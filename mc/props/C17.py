"""
C17: human-typed times resolve to the promised occurrence.
"""
import datetime as dt

from mc.core import check, same, op
from mc.timeref import zones, utcOf, US, DAY, UTC

MINUTE = dt.timedelta(minutes=1)
DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']


def spell(text, how):
    if how == 1:
        return text.upper()
    if how == 2:
        return '  ' + text.title() + '\t'
    if how == 3:
        return '\n' + ''.join(c.upper() if i % 2 else c for i, c in enumerate(text)) + ' '
    return text


def human(text, z, now):
    from epsilon.extime import Time
    op()
    kw = {}
    if z is not None and z.tz is not None:
        kw['tzinfo'] = z.tz
    return Time.fromHumanly(text, now=Time.fromDatetime(now), **kw)


def firstAtOrAfter(hour, minute, z, now):
    """Walk minute by minute? No: the occurrence of the day before, today or after."""
    off = z.ref.utcoffset(None)
    wall = now + off
    floor = wall.replace(second=0, microsecond=0)
    cands = [dt.datetime(wall.year, wall.month, wall.day, hour, minute) + k * DAY for k in (-1, 0, 1)]
    return min(c for c in cands if c >= floor) - off


def summer(case):
    """
    Zones whose offset changes: the occurrence is one on the wall clock.
    Clock times which some day concerned does not have, or has twice, are
    passed over.
    """
    now, z, texts = case
    n = 0
    for text, hour, minute in texts:
        wall = now.replace(tzinfo=UTC).astimezone(z.ref).replace(tzinfo=None, fold=0)
        instants = []
        for k in (-1, 0, 1, 2):
            w = dt.datetime(wall.year, wall.month, wall.day, hour, minute) + k * DAY
            found = {(w.replace(tzinfo=z.ref, fold=f).astimezone(UTC)).replace(tzinfo=None) for f in (0, 1)}
            if len(found) != 1:
                break
            instants += found
        else:
            t = human(text, z, now)
            want = min(i for i in instants if i + MINUTE > now)
            same(utcOf(t), want, '%r at %s UTC in %r' % (text, now, z))
            same(t.resolution, MINUTE, 'resolution of %r' % text)
            n += 1
    return now, repr(z), n


def clockTimes(case):
    now, z, how = case
    for h in range(0, 24):
        for m in range(0, 60, STEP):
            for text in ('%d:%02d' % (h, m), '%02d:%02d' % (h, m)):
                t = human(spell(text, how), z, now)
                same(utcOf(t), firstAtOrAfter(h, m, z, now), '%r at %s UTC in %r' % (text, now, z))
                same(t.resolution, MINUTE, 'resolution of %r' % text)
    return now, repr(z)


def nearNow(case):
    """All minutes around now, where the occurrence moves to the next day."""
    now, z = case
    wall = now + z.ref.utcoffset(None)
    for k in range(-3, 4):
        w = wall + k * MINUTE
        for text in ('%02d:%02d' % (w.hour, w.minute),
                     '%d:%02d %s' % ((w.hour % 12) or 12, w.minute, 'am' if w.hour < 12 else 'pm')):
            t = human(text, z, now)
            want = firstAtOrAfter(w.hour, w.minute, z, now)
            same(utcOf(t), want, '%r at %s UTC in %r' % (text, now, z))
            check(utcOf(t) + MINUTE > now and utcOf(t) < now + DAY, 'not the next occurrence', text, utcOf(t), now)
    for text, h in (('noon', 12), ('midnight', 0)):
        t = human(text, z, now)
        same(utcOf(t), firstAtOrAfter(h, 0, z, now), '%r at %s UTC in %r' % (text, now, z))
        same(t.resolution, MINUTE, 'resolution of %r' % text)
    return now, repr(z)


def twelve(case):
    now, z, how = case
    for h in range(1, 13):
        for m in range(0, 60, STEP):
            for ap in ('am', 'pm'):
                hour = h % 12 + (12 if ap == 'pm' else 0)
                for text in ('%d:%02d%s', '%02d:%02d %s', '%d:%02d  %s'):
                    s = text % (h, m, ap)
                    t = human(spell(s, how), z, now)
                    same(utcOf(t), firstAtOrAfter(hour, m, z, now), '%r at %s UTC in %r' % (s, now, z))
                    same(t.resolution, MINUTE, 'resolution of %r' % s)
    return now, repr(z)


def days(case):
    """Words for days; a day is the UTC day."""
    now, z, how = case
    today = now.replace(hour=0, minute=0, second=0, microsecond=0)
    for text, delta in (('today', 0), ('tomorrow', 1), ('yesterday', -1)):
        t = human(spell(text, how), z, now)
        same(utcOf(t), today + delta * DAY, '%r at %s' % (text, now))
        same(t.resolution, DAY, 'resolution of %r' % text)
        check(t.isAllDay(), 'whole day')
    for i, name in enumerate(DAYS):
        for prefix in ('', 'next ', 'this ', 'next   ', 'this\t'):
            s = prefix + name
            t = human(spell(s, how), z, now)
            want = today + DAY
            while want.weekday() != i:
                want += DAY
            same(utcOf(t), want, '%r at %s' % (s, now))
            same(t.resolution, DAY, 'resolution of %r' % s)
    t = human(spell('now', how), z, now)
    same(utcOf(t), now, '"now"')
    same(t.resolution, US, 'resolution of "now"')
    return now, repr(z), how


def nowOfDay(case):
    """'now' given as a period: 'now' is its first instant."""
    from epsilon.extime import Time
    text, want = case
    now = Time.fromISO8601TimeAndDate(text)
    t = Time.fromHumanly('now', now=now)
    same(utcOf(t), want, '"now" when now is %r' % text)
    same(t.resolution, US, 'resolution')
    same(now.resolution, Time.fromISO8601TimeAndDate(text).resolution, 'the given now was changed')
    same(utcOf(Time.fromHumanly('today', now=now)), want.replace(hour=0, minute=0, second=0), 'today')
    return text


def refused(case):
    text, now, z = case
    try:
        t = human(text, z, now)
    except ValueError:
        return 'refused'
    check(False, '%r was accepted' % (text,), t, t.resolution)


def defaults(case):
    """Without a now, the present is used."""
    from epsilon.extime import Time
    text = case
    for attempt in range(3):
        a = Time()
        t = Time.fromHumanly(text)
        b = Time()
        da, db = utcOf(a), utcOf(b)
        if da.replace(second=0, microsecond=0) == db.replace(second=0, microsecond=0):
            break
    if text == 'now':
        check(a <= t <= b, 'now', t, a, b)
    else:
        z = zones()[0]
        want = {'today': da.replace(hour=0, minute=0, second=0, microsecond=0),
                'tomorrow': da.replace(hour=0, minute=0, second=0, microsecond=0) + DAY,
                'noon': firstAtOrAfter(12, 0, z, da), 'midnight': firstAtOrAfter(0, 0, z, da),
                '12:34': firstAtOrAfter(12, 34, z, da)}[text]
        same(utcOf(t), want, text)
    return text


STEP = 1


def run(ctx):
    global STEP
    ctx.assumptions += ['in zones whose offset changes, clock times which exist exactly once on each day concerned; days are UTC days in every zone']
    q = ctx.quick
    STEP = 7 if q else 1
    Z = [z for z in zones() if not z.dst]
    nows = [dt.datetime(2004, 2, 28, 23, 59, 59, 999999), dt.datetime(2004, 12, 31, 12, 0, 0), dt.datetime(2005, 1, 1, 0, 0, 0),
            dt.datetime(2004, 2, 29, 11, 59, 30), dt.datetime(2005, 7, 14, 12, 0, 0, 1), dt.datetime(2005, 3, 6, 0, 0, 59),
            dt.datetime(1999, 12, 31, 18, 30, 0), dt.datetime(2010, 10, 10, 5, 45, 1)]
    ctx.sweep('clock', [(n, z, h) for n in nows for z in Z for h in (0, 2)], clockTimes, parallel=True)
    ctx.sweep('twelve-hour', [(n, z, h) for n in nows[::2 if q else 1] for z in Z for h in range(4)], twelve, parallel=True)
    around = [dt.datetime(2004, 2, 28) + dt.timedelta(minutes=k * (13 if q else 1), seconds=s, microseconds=u)
              for k in range(0, 2 * 1440 // (13 if q else 1)) for s, u in ((0, 0), (0, 1), (59, 999999))]
    ctx.sweep('near-now', [(n, z) for n in around for z in (Z if not q else Z[:8])], nearNow, parallel=True)
    every = [dt.datetime(2003, 12, 25) + dt.timedelta(hours=h) for h in range(0, 24 * 80, 1 if not q else 5)]
    ctx.sweep('days', [(n, z, h) for n in every + nows for z in Z[::3] for h in range(4)], days, parallel=True)
    ctx.sweep('now-a-period', [('2004-02-29', dt.datetime(2004, 2, 29)), ('2004-02-29T13Z', dt.datetime(2004, 2, 29, 13)),
                               ('2004', dt.datetime(2004, 1, 1)), ('2004-W10', dt.datetime(2004, 3, 1))], nowOfDay)
    junk = ['', ' ', '12', '1200', '12:0', '12:000', '123:00', '-1:00', ':30', '12:', '12:00:00', '12:00 xm', '12:00 a', '12:00 ampm',
            'noonish', 'afternoon', 'no on', 'noon noon', 'noon midnight', 'next noon', 'this today', 'next tomorrow', 'today tomorrow',
            'today,', 'next', 'this', 'mon', 'mondays', 'last monday', 'next next monday', 'nextmonday', 'monday tuesday', 'monday 12:00',
            '12:00 monday', 'now now', 'nowadays', 'right now', 'next now', 'the day after tomorrow', '12.30', '12h30', '1:2', 'a1:20', '1:20b']
    junk += ['%d:00' % h for h in range(24, 100)] + ['12:%02d' % m for m in range(60, 100)]
    junk += ['%d:%02d %s' % (h, m, a) for a in ('am', 'pm') for h, m in [(0, 0), (0, 30), (13, 0), (23, 59), (24, 0), (12, 60), (99, 0)]]
    junk += ['00:15am', '00:00pm', '13:30PM']
    good = ['monday', 'next sunday', 'today', 'tomorrow', 'yesterday', '12:30', '1:05 pm', 'noon', 'midnight', 'now']
    junk += [g + x for g in good for x in ('.', ' .', ',', '!', '?', ';', ' x', 'x', ' 1', '1', '-', ' -', '\0', ' \xa0x', 's', "'s", ' z', 'Z', '/', ' utc', ' +0000')]
    junk += [x + g for g in good for x in ('.', '. ', '-', '~', '>', 'x', 'x ', '1', 'at ', 'the ', 'on ', '\0', '(', '"', '@ ')
             if x + g != '11:05 pm']
    junk += ['monday\ntuesday', 'next\nnow', 'next-monday', 'next_monday', 'this-monday', '12 :30', '12: 30', '12;30', '12:30\x00am', '12:30-am', '12:30.am']
    ctx.sweep('refused', [(j, n, z) for j in junk for n in nows[::2] for z in Z[::5]], refused, parallel=True)
    texts = [('noon', 12, 0), ('midnight', 0, 0)] + [('%d:%02d' % (h, m), h, m) for h in range(24) for m in (0, 30, 59)] + \
        [('%d:15 %s' % (h % 12 or 12, 'am' if h < 12 else 'pm'), h, 15) for h in range(24)]
    turns = [dt.datetime(2004, mo, 1, 1) + dt.timedelta(minutes=k, seconds=s) for mo in (4, 10) for k in range(-40 * 60, 41 * 60, 30 if q else 7) for s in (0, 59)]
    ctx.sweep('summer-time', [(n, z, texts) for n in turns for z in zones() if z.dst], summer, parallel=True)
    ctx.sweep('real-now', ['now', 'today', 'now', 'tomorrow', 'noon', 'now', 'midnight', '12:34', 'now'], defaults)
