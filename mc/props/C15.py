"""
C15: ISO 8601 text denotes the right period, and formatting is lossless.
"""
import datetime as dt, fractions, itertools, re

from mc.core import check, same, op
from mc.timeref import zones, utcOf, US, DAY, UTC

HOUR, MINUTE, SECOND = dt.timedelta(hours=1), dt.timedelta(minutes=1), dt.timedelta(seconds=1)
WEEK = dt.timedelta(weeks=1)


# ---- the reference: what a text denotes

FORMS = [
    # (pattern of a date, kind)
    (r'(\d{4})', 'y'),
    (r'(\d{4})(-?)(\d\d)', 'ym'),
    (r'(\d{4})(-?)W(\d\d)', 'yw'),
    (r'(\d{4})(-?)(\d\d)(-?)(\d\d)', 'ymd'),
    (r'(\d{4})(-?)W(\d\d)(-?)(\d)', 'ywd'),
    (r'(\d{4})(-?)(\d{3})', 'yd'),
]
FORMS = [(re.compile(p + r'\Z', re.ASCII), k) for p, k in FORMS]
TIME = re.compile(r'(\d\d)(?:(:?)(\d\d)(?:(:?)(\d\d)(?:[.,](\d+))?)?)?(Z|([+-])(\d\d)(?:(:?)(\d\d))?)?\Z', re.ASCII)


class Vague(Exception):
    """The reference says neither that this is a text nor that it is not."""


def isLeap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def monthLength(y, m):
    return 29 if m == 2 and isLeap(y) else MONTHS[m - 1]


def weeks(y):
    """Number of ISO weeks in a year: 53 if it begins or ends on a Thursday."""
    def wd(y, m, d):
        return dt.date(y, m, d).isoweekday()
    return 53 if wd(y, 1, 1) == 4 or wd(y, 12, 31) == 4 else 52


def denote(text, zone=UTC):
    """
    (start in UTC, length, exact) of what a text denotes, or None if it denotes
    nothing.  Raises Vague where the property does not say.
    """
    date, t, rest = text.partition('T')
    seps = set()
    found = None
    for p, k in FORMS:
        m = p.match(date)
        if m:
            found = (k, m.groups())
            break
    if found is None:
        return None
    k, g = found
    y = int(g[0])
    if not 2 <= y <= 9998 and not (y == 9999 and k == 'y'):
        raise Vague()
    if len(g) > 1:
        seps.add(g[1])
    if k == 'y':
        start, length = dt.date(y, 1, 1), (366 if isLeap(y) else 365) * DAY
    elif k == 'ym':
        mo = int(g[2])
        if not 1 <= mo <= 12:
            return None
        start, length = dt.date(y, mo, 1), monthLength(y, mo) * DAY
    elif k in ('yw', 'ywd'):
        w = int(g[2])
        wd = 1
        if k == 'ywd':
            seps.add(g[3])
            wd = int(g[4])
        if not 1 <= w <= weeks(y) or not 1 <= wd <= 7:
            return None
        jan4 = dt.date(y, 1, 4)
        monday = jan4.toordinal() - (jan4.isoweekday() - 1)
        start = dt.date.fromordinal(monday + (w - 1) * 7 + wd - 1)
        length = WEEK if k == 'yw' else DAY
    elif k == 'ymd':
        seps.add(g[3])
        mo, d = int(g[2]), int(g[4])
        if not 1 <= mo <= 12 or not 1 <= d <= monthLength(y, mo):
            return None
        start, length = dt.date(y, mo, d), DAY
    else:
        n = int(g[2])
        if not 1 <= n <= (366 if isLeap(y) else 365):
            return None
        start, length = dt.date.fromordinal(dt.date(y, 1, 1).toordinal() + n - 1), DAY
    start = dt.datetime(start.year, start.month, start.day)
    if not t:
        if len(seps) > 1:
            raise Vague()
        return start, length, True
    if k not in ('ymd', 'ywd', 'yd'):
        return None
    m = TIME.match(rest)
    if not m:
        return None
    h, s1, mi, s2, s, frac, z, sign, zh, s3, zm = m.groups()
    colons = set(x for x in (s1, s2) if x is not None)
    doubtful = False
    if int(h) > 23 or int(mi or 0) > 59 or int(s or 0) > 59:
        # The end of a day, and leap seconds, may be refused; they must not be
        # taken for another moment.
        if int(h) == 24 and int(mi or 0) == 0 and int(s or 0) == 0 and not (frac or '').strip('0'):
            doubtful = True
        elif int(h) < 24 and int(mi or 0) < 60 and int(s or 0) in (60, 61):
            doubtful = True
        else:
            return None
    length = HOUR if mi is None else MINUTE if s is None else SECOND
    start += dt.timedelta(hours=int(h), minutes=int(mi or 0), seconds=int(s or 0))
    exact = True
    if frac is not None:
        digits = (frac + '000000')[:6]
        start += dt.timedelta(microseconds=int(digits))
        if frac[6:].strip('0'):
            # to the nearest microsecond; which one if there are two is open
            past = fractions.Fraction(int(frac[6:]), 10 ** len(frac[6:]))
            if abs(past - fractions.Fraction(1, 2)) < fractions.Fraction(1, 10 ** 6):
                exact = False
            elif past * 2 > 1:
                start += US
        length = max(US, dt.timedelta(microseconds=10 ** (6 - len(frac)))) if len(frac) <= 6 else US
    if z is not None:
        if z == 'Z':
            off = dt.timedelta(0)
        else:
            if s3 is not None:
                colons.add(s3)
            if int(zh) > 23 or int(zm or 0) > 59:
                raise Vague()
            off = dt.timedelta(hours=int(zh), minutes=int(zm or 0))
            if sign == '-':
                off = -off
        start -= off
    else:
        w = start.replace(tzinfo=zone)
        start = w.astimezone(UTC).replace(tzinfo=None)
    mixed = len(seps) > 1 or len(colons) > 1 or ('-' in seps and '' in colons) or ('' in seps and ':' in colons)
    if mixed or doubtful:
        raise Mixed(start, length, exact)
    return start, length, exact


class Mixed(Exception):
    """
    Separators used in only some places, or a moment which may be said not to
    exist: may be refused, but must not be misunderstood.
    """


def parse(text, tz=None):
    from epsilon.extime import Time
    op()
    try:
        t = Time.fromISO8601TimeAndDate(text) if tz is None else Time.fromISO8601TimeAndDate(text, tz)
    except ValueError:
        return None
    return t


def agree(text, zone=None):
    """Compare the code with the reference on one text."""
    t = parse(text, zone.tz if zone is not None else None)
    optional = False
    try:
        want = denote(text, zone.ref if zone is not None else UTC)
    except Vague:
        return None
    except Mixed as e:
        optional, want = True, e.args
    if want is None:
        check(t is None, '%r denotes nothing and was accepted' % (text,), t)
        return None
    if t is None and optional:
        return None
    check(t is not None, '%r was refused' % (text,))
    start, length, exact = want
    got = utcOf(t)
    if exact:
        same(got, start, 'start of %r (default zone %r)' % (text, zone))
    else:
        check(start <= got <= start + US, 'start of %r' % (text,), got, start)
    same(t.resolution, length, 'length of %r' % (text,))
    return t


def roundTrip(t, zs, what):
    start = utcOf(t)
    for z in zs:
        for delim in (True, False):
            for incl in (True, False):
                if not incl and z.dst:
                    continue
                op()
                text = t.asISO8601TimeAndDate(includeDelimiters=delim, tzinfo=z.tz, includeTimezone=incl)
                # a reader who knows the zone meant, and one who need not
                readers = [z.tz] if not incl else [None, ZONES[-2].tz]
                for tz in readers:
                    back = parse(text, tz)
                    check(back is not None, 'formatted %r of %s in %r can not be parsed' % (text, what, z))
                    same(utcOf(back), start, 'instant of %s formatted in %r as %r' % (what, z, text))
                    check(back == t, 'equality', text)
                # and the text means it for everyone else too
                try:
                    want = denote(text, z.ref if not incl else UTC)
                except (Vague, Mixed):
                    continue
                check(want is not None, '%r is not ISO 8601' % (text,))
                same(want[0], start, 'what %r means' % (text,))
                if t.resolution >= SECOND and z.name in ('None', 'FixedOffset(+0)') \
                        and not (t.resolution == HOUR and start.minute):
                    same(want[1], t.resolution, 'length of the period after formatting it as %r' % (text,))
                if delim:
                    check('-' in text[4:5] or text[4:] == '', 'delimiters', text)
                elif t.resolution <= WEEK:
                    check(':' not in text and '-' not in text.split('T')[0], 'delimiters in %r' % (text,))


def year(y):
    """Every calendar, ordinal and week date of one year, valid or not."""
    n = 0
    for sep in ('-', ''):
        for mo in range(0, 15):
            if sep == '-':
                agree('%04d-%02d' % (y, mo))
            for d in range(0, 34):
                t = agree('%04d%s%02d%s%02d' % (y, sep, mo, sep, d))
                n += t is not None
        for k in list(range(0, 370)) + [400, 999]:
            n += agree('%04d%s%03d' % (y, sep, k)) is not None
        for w in range(0, 56):
            n += agree('%04d%sW%02d' % (y, sep, w)) is not None
            for wd in range(0, 10):
                n += agree('%04d%sW%02d%s%d' % (y, sep, w, sep, wd)) is not None
    for m in range(1, 13):
        agree('%04d%02d' % (y, m))
    t = agree('%04d' % y)
    return n, t is not None


def yearEdges(y):
    """The dates of a year where calendars differ, with formatting."""
    texts = ['%04d' % y, '%04d-02-28' % y, '%04d-02-29' % y, '%04d-060' % y, '%04d-365' % y, '%04d-366' % y,
             '%04d-W52' % y, '%04d-W53' % y, '%04d-W53-7' % y, '%04d-W01' % y, '%04d-W01-1' % y, '%04dW537' % y,
             '%04d-01' % y, '%04d-02' % y, '%04d-12' % y, '%04d-12-31T23:59:59Z' % y, '%04d-01-01T00:00:00Z' % y]
    out = []
    if y == 9999:
        texts = texts[:1]
    for s in texts:
        t = agree(s)
        out.append(t is not None)
        if t is not None:
            roundTrip(t, ZONES[:4], s)
    return tuple(out)


def clock(case):
    """Every time of day field, valid or not."""
    fmt, date, fields, z = case
    n = 0
    for f in itertools.product(*[range(a, b) for a, b in fields]):
        for suffix in ('', 'Z', '+05:30' if ':' in fmt else '+0530', '-07'):
            n += agree(date + 'T' + fmt % f + suffix, z) is not None
    return case[0], n


def fraction(case):
    digits, point, suffix, z, base = case
    t = agree(base + point + digits + suffix, z)
    if t is not None:
        roundTrip(t, ZONES, base + point + digits + suffix)
    return len(digits), utcOf(t).microsecond


def offset(case):
    sign, h, sep = case
    n = 0
    for m in [None] + list(range(60)):
        for base in ('2004-12-31T23:30', '2004-03-01T00:15', '2004-12-31T23') if sep else \
                ('20041231T2330', '20040301T0015', '20041231T23'):
            text = base + sign + '%02d' % h + ('' if m is None else '%s%02d' % (sep, m))
            for z in (None, ZONES[3]):
                t = agree(text, z)
                n += t is not None
            if m in (None, 0, 1, 30, 59) and t is not None:
                roundTrip(t, [ZONES[0], ZONES[2], ZONES[4]], text)
    return sign, n


def hugeOffset(case):
    """No zone is a day or more away from UTC: refused, or at least not taken for another one."""
    from epsilon.extime import Time
    sign, h, sep = case
    for m in ('', '00', '01', '59'):
        text = ('2004-12-31T23:30' if sep else '20041231T2330') + sign + '%02d' % h + (sep if m else '') + m
        away = dt.timedelta(hours=h, minutes=int(m or 0))
        op()
        try:
            t = Time.fromISO8601TimeAndDate(text)
        except ValueError:
            continue
        same(utcOf(t), dt.datetime(2004, 12, 31, 23, 30) + (-away if sign == '+' else away), text)
    return case


def formatting(text):
    t = agree(text)
    check(t is not None, 'refused', text)
    roundTrip(t, ZONES, text)
    same(str(t), t.asISO8601TimeAndDate(), 'str')
    return utcOf(t)


def defaultZone(case):
    text, z = case
    t = agree(text, z)
    if t is not None:
        roundTrip(t, ZONES[:6], text)
    return t is not None and utcOf(t)


def edits(text):
    """Every text one character away."""
    n = 0
    alphabet = '0159-:TWZ+.,x '
    seen = set()
    for i in range(len(text) + 1):
        for c in alphabet:
            seen.add(text[:i] + c + text[i:])
            if i < len(text):
                seen.add(text[:i] + c + text[i + 1:])
        seen.add(text[:i] + text[i + 1:])
    for s in sorted(seen):
        for z in (None, ZONES[5]):
            n += agree(s, z) is not None
    return n


def lowered(case):
    """Letters in the other case: refused, or taken for the same."""
    text, z = case
    n = 0
    spots = [i for i, c in enumerate(text) if c.isalpha()]
    for which in itertools.product((False, True), repeat=len(spots)):
        if not any(which):
            continue
        low = dict(zip(spots, which))
        other = ''.join(c.lower() if low.get(i) else c for i, c in enumerate(text))
        t = parse(other, z.tz if z is not None else None)
        if t is None:
            continue
        n += 1
        try:
            want = denote(text, z.ref if z is not None else UTC)
        except Mixed as e:
            want = e.args
        check(want is not None, '%r denotes nothing in either case and was accepted' % (other,), t)
        same(utcOf(t), want[0], 'start of %r (default zone %r)' % (other, z))
        same(t.resolution, want[1], 'length of %r' % (other,))
    return n


ZONES = []


def run(ctx):
    ctx.assumptions += ['years 0002-9998 (and the year 9999 alone); offsets up to 23:59; hour 24 and seconds 60, 61 may be '
                        'refused or mean the moment after; half a microsecond may be rounded either way; texts which use '
                        'separators in only some places may be refused; formatting without a zone is read back in that zone, '
                        'which has a fixed offset']
    q = ctx.quick
    ZONES.extend(zones())
    ctx.sweep('years', [2, 3, 4, 5, 100, 400, 1900, 2000] + list(range(2001, 2013)) + [2015, 2016, 2020, 2026, 2032, 2100, 9997, 9998] if q
              else list(range(2, 9999, 7)) + list(range(1900, 2101)), year, parallel=True)
    ctx.sweep('year-edges', list(range(2, 9999, 37 if q else 1)) + list(range(1970, 2060)) + [9999], yearEdges, parallel=True)
    z = ZONES
    dates = ['2004-02-29', '2005-365', '2004-W53-7']
    cases = []
    for d in dates:
        for zz in (None, z[3], z[6]):
            cases += [('%02d', d, [(0, 100)], zz)]
            for a in range(0, 24 if q else 100, 8 if q else 1):
                cases += [('%02d:%02d', d, [(a, a + 1), (0, 100)], zz)]
            for a in ((0, 23) if q else range(24)):
                for b in (0, 59) if q else range(0, 60, 7):
                    cases += [('%02d:%02d:%02d', d, [(a, a + 1), (b, b + 1), (0, 100)], zz)]
    for c in list(cases):
        cases.append((c[0].replace(':', ''), c[1].replace('-', ''), c[2], c[3]))
    ctx.sweep('clock', cases, clock, parallel=True)
    fr = set()
    for n in range(1, 4 if q else 5):
        fr |= set(str(i).zfill(n) for i in range(0, 10 ** n, 1 if n < 3 else 7))
    for n in range(4, 9 if q else 13):
        fr |= set(a * n for a in '0159') | set('0' * (n - 1) + a for a in '159') | set('9' * (n - 1) + a for a in '0458') \
            | set('5' + '0' * (n - 1) for _ in '1') | {'49' + '9' * (n - 2), '123456789012'[:n]}
    bases = ['2004-12-31T23:59:59', '2004-02-29T00:00:00']
    ctx.sweep('fractions', [(f, p, s, zz, b) for f in sorted(fr) for p in '.,' for s in ('', 'Z', '-11:30') for zz in (None, z[4])
                            for b in bases][::1 if not q else 3], fraction, parallel=True)
    ctx.sweep('offsets', [(s, h, c) for s in '+-' for h in range(24) for c in (':', '')], offset, parallel=True)
    ctx.sweep('huge-offsets', [(s, h, c) for s in '+-' for h in range(24, 100) for c in (':', '')], hugeOffset)
    texts = ['2004', '2004-02', '2004-12', '2005-02', '2004-W01', '2004-W53', '2005-W01', '2008-W01', '2004-02-29', '2004-366',
             '2004-W53-7', '2004-01-01T00', '2004-12-31T23', '2004-12-31T23Z', '2004-12-31T23+00:30', '2004-06-15T05:45',
             '2004-12-31T23:59', '2004-01-01T00:00:00', '2004-12-31T23:59:59', '2004-06-15T12:30:45.5', '2004-06-15T12:30:45.05',
             '2004-06-15T12:30:45.000001', '2004-06-15T12:30:45.999999', '2004-06-15T12:30:45.0', '2004-06-15T12:30:45.100000',
             '2004-03-31T23:30-01:30', '0002-01-02T00:00:00', '9998-12-30T23:59:59', '1000-01', '0999-12-31', '0100']
    ctx.sweep('formatting', texts, formatting)
    ctx.sweep('default-zone', [(t, zz) for t in texts for zz in ZONES], defaultZone, parallel=True)
    ctx.sweep('letters', [(t, zz) for t in texts + ['20040229T12Z', '20041231T2359Z', '20041231T235959.5Z', '2004-W53-7T12Z',
                                                   '2004W537T12+0130', '2004-060T01:02Z', '2004-01T12Z', '2004-W53T12']
                          if any(c.isalpha() for c in t) for zz in [None] + ZONES], lowered)
    ctx.sweep('edits', texts[:24:2] + ['20040229', '2004W537', '20041231T235959.5Z', '2004366T12+0130', '2004-060T01:02-03:04']
              if q else texts + ['20040229', '2004W537', '20041231T235959.5Z', '2004366T12+0130', '2004-060T01:02-03:04',
                                 '200412', '2004060', '20040229T1234Z'], edits, parallel=True)
