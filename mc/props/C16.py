"""
C16: conversions between Time and other formats preserve the instant.
"""
import calendar, datetime as dt, email.utils, itertools, time

from mc.core import check, same, op
from mc.timeref import zones, fixed, instants, utcOf, UTC, Dst, US

WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MO = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def sec(d):
    return d.replace(microsecond=0)


def local(utc, ref):
    return utc.replace(tzinfo=UTC).astimezone(ref)


def rfc2822(utc):
    from epsilon.extime import Time
    t = Time.fromDatetime(utc)
    for z in ZONES:
        want = local(sec(utc), z.ref)
        for dow in (True, False):
            op()
            text = t.asRFC2822(z.tz, dow)
            head, _, rest = text.rpartition(', ')
            same(head, WD[want.weekday()] if dow else '', 'day of the week of %r in %r' % (text, z))
            parts = rest.split(' ')
            same(len(parts), 5, 'parts of %r' % (text,))
            off = int(want.utcoffset().total_seconds()) // 60
            zone = '-0000' if z.tz is None else '%s%02d%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
            same((int(parts[0]), parts[1], parts[2], parts[3], parts[4]),
                 (want.day, MO[want.month - 1], '%04d' % want.year, '%02d:%02d:%02d' % (want.hour, want.minute, want.second), zone),
                 'fields of the RFC 2822 text')
            # another reader
            other = email.utils.parsedate_to_datetime(text)
            if z.tz is None:
                same(other, sec(utc), 'the standard library reads %r' % (text,))
            else:
                same(other.astimezone(UTC), want.astimezone(UTC), 'the standard library reads %r' % (text,))
            back = Time.fromRFC2822(text)
            same(utcOf(back), sec(utc), 'instant of %r' % (text,))
            same(back.resolution, dt.timedelta(seconds=1), 'resolution')
    return utc


def rfc1123(utc):
    from epsilon.extime import Time
    t = Time.fromDatetime(utc)
    op()
    text = t.asRFC1123()
    same(text, '%s, %02d %s %04d %02d:%02d:%02d GMT' % (WD[utc.weekday()], utc.day, MO[utc.month - 1], utc.year, utc.hour,
                                                       utc.minute, utc.second), 'RFC 1123 text of %s' % utc)
    same(utcOf(Time.fromRFC2822(text)), sec(utc), 'instant of %r' % text)
    return utc


def posix(utc):
    from epsilon.extime import Time
    t = Time.fromDatetime(utc)
    op()
    got = t.asPOSIXTimestamp()
    whole = calendar.timegm(utc.timetuple())
    if not utc.microsecond:
        check(got == whole, 'POSIX timestamp of %s' % utc, got, whole)
    check(abs(got - (whole + utc.microsecond / 1e6)) < 1e-6, 'POSIX timestamp of %s' % utc, got)
    op()
    back = Time.fromPOSIXTimestamp(got)
    same(utcOf(back), utc, 'instant back from %r' % (got,))
    check(back == t, 'equality')
    same(utcOf(Time.fromPOSIXTimestamp(whole)), sec(utc), 'instant of the integer %r' % whole)
    return utc


def struct(utc):
    from epsilon.extime import Time
    t = Time.fromDatetime(utc)
    for z in ZONES:
        op()
        st = t.asStructTime(z.tz)
        want = local(utc, z.ref).timetuple()
        same(tuple(st)[:8], tuple(want)[:8], 'struct_time of %s in %r' % (utc, z))
        check(isinstance(st, time.struct_time), 'type', type(st))
        if z.dst:
            continue
        for v in (st, tuple(st), tuple(st)[:6] + (0, 1, -1), list(st)):
            back = Time.fromStructTime(v) if z.tz is None else Time.fromStructTime(v, z.tz)
            same(utcOf(back), sec(utc), 'instant back from %r in %r' % (tuple(st), z))
        same(back.resolution, dt.timedelta(seconds=1), 'resolution')
    return utc


def structFields(case):
    """Fields out of range: refused, or the moment after; never another."""
    from epsilon.extime import Time
    y, mo, d, h, mi, s, zi = case
    z = ZONES[zi]
    valid = 1 <= mo <= 12 and 1 <= d <= calendar.monthrange(y, mo)[1] and h < 24 and mi < 60 and s < 60
    out = []
    for v in ((y, mo, d, h, mi, s, 0, 1, 0), time.struct_time((y, mo, d, h, mi, s, 0, 1, 0)), [y, mo, d, h, mi, s, 6, 366, -1]):
        op()
        try:
            t = Time.fromStructTime(v) if z.tz is None else Time.fromStructTime(v, z.tz)
        except ValueError:
            check(not valid, 'a valid time was refused', v)
            out.append('refused')
            continue
        month = dt.datetime(y + (mo - 1) // 12, (mo - 1) % 12 + 1, 1)
        want = month + dt.timedelta(days=d - 1, hours=h, minutes=mi, seconds=s)
        same(utcOf(t), want.replace(tzinfo=z.ref).astimezone(UTC).replace(tzinfo=None), 'instant of %r in %r' % (v, z))
        out.append('taken')
    return tuple(out)


def datetimes(utc):
    from epsilon.extime import Time
    t = Time.fromDatetime(utc)
    same(utcOf(t), utc, 'naive datetime')
    for z in ZONES:
        op()
        d = t.asDatetime(z.tz)
        want = local(utc, z.ref)
        same(d.replace(tzinfo=None), want.replace(tzinfo=None), 'datetime of %s in %r' % (utc, z))
        same(d.utcoffset(), want.utcoffset(), 'offset of the datetime of %s in %r' % (utc, z))
        if z.tz is not None:
            check(d.tzinfo is z.tz, 'zone of the datetime', d)
        check(d.astimezone(UTC) == want.astimezone(UTC), 'instant of the datetime', d)
        back = Time.fromDatetime(d)
        same(utcOf(back), utc, 'instant back from %r' % (d,))
        check(back == t, 'equality')
        n = t.asNaiveDatetime(z.tz)
        check(n.tzinfo is None, 'naive', n)
        same(n, want.replace(tzinfo=None), 'naive datetime of %s in %r' % (utc, z))
        same(utcOf(Time.fromDatetime(want)), utc, 'instant of %r' % (want,))
    return utc


def periods(case):
    """Whole days, weeks, months and years begin with midnight in any zone."""
    from epsilon.extime import Time
    text, start = case
    t = Time.fromISO8601TimeAndDate(text)
    same(utcOf(t), start, 'start of %r' % text)
    for z in ZONES:
        op()
        d = t.asDatetime(z.tz)
        want = start.replace(tzinfo=z.tz or UTC)
        same(d.replace(tzinfo=None), start, 'datetime of %r in %r' % (text, z))
        same(d.utcoffset(), want.utcoffset(), 'offset of the datetime of %r in %r' % (text, z))
        if z.tz is not None:
            check(d.tzinfo is z.tz, 'zone of the datetime', d)
        n = t.asNaiveDatetime(z.tz)
        same((n, n.tzinfo), (start, None), 'naive datetime of %r in %r' % (text, z))
        same(tuple(t.asStructTime(z.tz))[:8], tuple(start.timetuple())[:8], 'struct_time of %r in %r' % (text, z))
        off = int(want.utcoffset().total_seconds()) // 60
        zone = '-0000' if z.tz is None else '%s%02d%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
        same(t.asRFC2822(z.tz).replace(', 0', ', '), '%s, %d %s %04d 00:00:00 %s' % (WD[start.weekday()], start.day, MO[start.month - 1], start.year, zone),
             'RFC 2822 text of %r in %r' % (text, z))
    return text


def offsets(minutes):
    """The zone class itself, and zones in RFC 2822 texts."""
    from epsilon.extime import Time, FixedOffset
    z = fixed(minutes)
    td = dt.timedelta(minutes=minutes)
    name = '%s%02d%02d' % ('-' if minutes < 0 else '+', abs(minutes) // 60, abs(minutes) % 60)
    for d in (None, dt.datetime(2004, 1, 1), dt.datetime(2004, 7, 1)):
        same((z.utcoffset(d), z.dst(d), z.tzname(d)), (td, dt.timedelta(0), name), 'the zone of %d minutes' % minutes)
    same(FixedOffset(0, minutes).utcoffset(None), td, 'zone given in minutes')
    for utc in (dt.datetime(2004, 2, 29, 23, 59, 59), dt.datetime(2004, 12, 31, 0, 0, 0), dt.datetime(1999, 3, 1)):
        op()
        w = utc + td
        text = '%d %s %04d %02d:%02d:%02d %s' % (w.day, MO[w.month - 1], w.year, w.hour, w.minute, w.second, name)
        same(utcOf(Time.fromRFC2822(text)), utc, 'instant of %r' % text)
        text = Time.fromDatetime(utc).asRFC2822(z)
        check(text.endswith(' ' + name), 'zone in %r' % text)
    return name


def nearest(y, mo, d, h, mi, s):
    """The closest valid date and time, field by field."""
    y = max(1, min(9999, y))
    mo = max(1, min(12, mo))
    d = max(1, min(calendar.monthrange(y, mo)[1], d))
    return dt.datetime(y, mo, d, max(0, min(23, h)), max(0, min(59, mi)), max(0, min(59, s)))


def outOfRange(case):
    from epsilon.extime import Time
    y, mo, d, h, mi, s, zone, off = case
    text = '%d %s %d %02d:%02d:%02d %s' % (d, MO[mo - 1], y, h, mi, s, zone)
    p = email.utils.parsedate_tz(text)
    op()
    if p is None:
        try:
            t = Time.fromRFC2822(text)
        except ValueError:
            return 'refused'
        check(False, 'an unparseable text was accepted', text, t)
    same(p[:2], (y, mo), 'the standard library reads', text, p)
    want = nearest(*p[:6]) - dt.timedelta(minutes=off)
    same(utcOf(Time.fromRFC2822(text)), want, 'instant of %r' % text)
    return want


def bad(text):
    from epsilon.extime import Time
    op()
    try:
        t = Time.fromRFC2822(text)
    except ValueError:
        return text
    check(False, 'an unparseable text was accepted', text, t)


def named(case):
    """Texts in the spellings RFC 2822 allows."""
    from epsilon.extime import Time
    fmt, zone, off = case
    utc = dt.datetime(2004, 2, 29, 3, 4, 5)
    text = fmt % dict(d=29, m='Feb', y=2004, z=zone)
    op()
    same(utcOf(Time.fromRFC2822(text)), utc - dt.timedelta(minutes=off), 'instant of %r' % text)
    return text


ZONES = []


def run(ctx):
    ctx.assumptions += ['offsets of whole minutes; RFC texts for years from 1000 (RFC 1123: 1900); '
                        'microseconds of POSIX timestamps between 1700 and 2239, where a float holds them',
                        'struct_time is read back in zones without summer time only']
    q = ctx.quick
    ZONES.extend(zones())
    I = [d for d in instants() if d.year > 1000]
    days = [dt.datetime(2004, 1, 1) + dt.timedelta(days=k, seconds=(k * 7919) % 86400) for k in range(0, 366 * 2)]
    changes = [dt.datetime(2004, m, 1, 1) + dt.timedelta(minutes=k) for m in (4, 10) for k in range(-90, 91, 10)] + \
        [dt.datetime(2004, m, 1, 1) + k * US for m in (4, 10) for k in (-1, 1)]
    S = I + days + changes if not q else I[::3] + days[::2] + changes
    ctx.sweep('rfc2822', S, rfc2822, parallel=True)
    ctx.sweep('rfc1123', [d for d in I + days if d.year >= 1900], rfc1123, parallel=True)
    every = [dt.datetime(2004, 2, 28, 23, 0, 0) + dt.timedelta(seconds=k, microseconds=(k * 104729) % 1000000)
             for k in range(0, 20000 if q else 400000)]
    ctx.sweep('posix', instants(lo=2) + days + every, posix, parallel=True)
    ctx.sweep('struct_time', instants(lo=3)[::3 if q else 1] + days[::2] + changes, struct, parallel=True)
    plain = [i for i, z in enumerate(ZONES) if not z.dst]
    ctx.sweep('struct-fields', [(y, mo, d, h, mi, s, z) for y in (2003, 2004) for mo, d in
                                [(m, k) for m in range(0, 14) for k in (0, 1, 28, 29, 30, 31, 32)]
                                for h, mi, s in ((0, 0, 0), (23, 59, 59), (23, 59, 60), (12, 30, 60), (12, 30, 61), (12, 30, 62), (24, 0, 0),
                                                 (23, 60, 0), (25, 0, 0)) for z in plain[:2]], structFields, parallel=True)
    ctx.sweep('datetime', instants(lo=3)[::2 if q else 1] + days + changes, datetimes, parallel=True)
    whole = [dt.datetime(y, 1, 1) + dt.timedelta(days=k) for y in (2003, 2004) for k in range(0, 366, 9 if q else 1)]
    ctx.sweep('periods', [(d.strftime('%Y-%m-%d'), d) for d in whole] +
              [('2004-%02d' % m, dt.datetime(2004, m, 1)) for m in range(1, 13)] + [('%04d' % y, dt.datetime(y, 1, 1)) for y in range(1990, 2030)] +
              [('2004-W%02d' % w, dt.datetime(2003, 12, 29) + dt.timedelta(weeks=w - 1)) for w in range(1, 54)], periods, parallel=True)
    ctx.sweep('offsets', list(range(-1439, 1440)), offsets, parallel=True)
    zs = [('+0000', 0), ('-0000', 0), ('+0530', 330), ('-0730', -450), ('GMT', 0), ('EST', -300)]
    cases = []
    for y in (1900, 2003, 2004, 9998):
        for mo in range(1, 13):
            for d in range(0, 100):
                cases.append((y, mo, d, 12, 0, 0) + zs[(mo + d) % 6])
    for h in range(100):
        for mi, s in ((0, 0), (59, 59), (60, 0), (99, 99)):
            for z in zs:
                cases.append((2004, 2, 29, h, mi, s) + z)
    for a in range(100):
        for z in zs:
            cases += [(2004, 2, 29, 1, a, 0) + z, (2004, 12, 31, 23, 0, a) + z, (2003, 2, 30, 24, a, 61) + z]
    for y in (9999, 10000, 12345, 99999):
        cases += [(y, mo, d, h, 0, 0, '+0000', 0) for mo in (1, 2, 12) for d in (0, 1, 31, 32) for h in (0, 23, 24)]
    ctx.sweep('out-of-range', cases, outOfRange, parallel=True)
    ctx.sweep('unparseable', ['', ' ', 'x', 'Tomorrow', '2004', 'Sun, 29 Foo 2004 00:00:00 +0000', 'Sun, xx Feb 2004 00:00:00 +0000',
                              'Sun, 29 Feb 2004 aa:bb:cc +0000', '29', 'Feb', 'Sun,', 'Sun, 29 Feb', '2004-02-29T00:00:00'], bad)
    fmts = ['Sun, %(d)d %(m)s %(y)d 03:04:05 %(z)s', '%(d)d %(m)s %(y)d 03:04:05 %(z)s', 'sun, %(d)02d %(m)s %(y)d 03:04:05 %(z)s',
            '%(d)d   %(m)s  %(y)d   03:04:05   %(z)s', 'Sunday, %(d)d %(m)s %(y)d 03:04:05 %(z)s', 'Sun, %(d)d-%(m)s-%(y)d 03:04:05 %(z)s']
    nz = [('+0000', 0), ('-0000', 0), ('GMT', 0), ('UT', 0), ('UTC', 0), ('Z', 0), ('EST', -300), ('EDT', -240), ('CST', -360),
          ('CDT', -300), ('MST', -420), ('MDT', -360), ('PST', -480), ('PDT', -420), ('+0100', 60), ('-0130', -90), ('+1400', 840),
          ('-1200', -720), ('-0030', -30), ('-0001', -1), ('', 0)]
    ctx.sweep('spellings', [(f, z, o) for f in fmts for z, o in nz if z or '-' not in f], named)
