"""
C19: ordering, arithmetic, containment and bounds of times are consistent.
"""
import datetime as dt, itertools, operator

from mc.core import check, same, op
from mc.timeref import zones, instants, utcOf, US, DAY, UTC

OPS = ['lt', 'le', 'gt', 'ge', 'eq', 'ne']
S = dt.timedelta(seconds=1)


def make(spec):
    """(Time, start, length) of a specification; a fresh Time each time."""
    from epsilon.extime import Time
    kind, x = spec
    if kind.startswith('sub'):
        # applications extend Time
        Time, kind = type('Sub', (Time,), {}), kind[3:]
    if kind == 'iso':
        t = Time.fromISO8601TimeAndDate(x)
    elif kind == 'dt':
        t = Time.fromDatetime(x)
    elif kind == 'posix':
        t = Time.fromPOSIXTimestamp(x)
    elif kind == 'struct':
        t = Time.fromStructTime(x)
    else:
        t = Time.fromDatetime(x).oneDay()
    return t


def spanOf(spec):
    """What the specification means, without the code under test."""
    kind, x = spec
    kind = kind[3:] if kind.startswith('sub') else kind
    if kind == 'iso':
        from mc.props.C15 import denote
        return denote(x)[:2]
    if kind == 'dt':
        return x, US
    if kind == 'posix':
        return dt.datetime(1970, 1, 1) + dt.timedelta(seconds=x), dt.timedelta(0)
    if kind == 'struct':
        return dt.datetime(*x[:6]), S
    return x.replace(hour=0, minute=0, second=0, microsecond=0), DAY


def order(case):
    a, b = SPECS[case[0]], SPECS[case[1]]
    ta, tb = make(a), make(b)
    (sa, ra), (sb, rb) = spanOf(a), spanOf(b)
    same((utcOf(ta), ta.resolution), (sa, ra), 'span of %r' % (a,))
    out = []
    for o in OPS:
        op()
        got = getattr(operator, o)(ta, tb)
        want = getattr(operator, o)(sa, sb)
        check(got is want or got == want, '%r %s %r' % (a, o, b), got, want)
        out.append(got)
    if sa == sb:
        # times need not be hashable, but if they are equal ones are one key
        try:
            keys = hash(ta), hash(tb)
        except TypeError:
            keys = None
        if keys is not None:
            same(keys[0], keys[1], 'hashes of equal times')
    for f in (min, max):
        got = f(ta, tb)
        same(utcOf(got), f(sa, sb), f.__name__)
    same(sorted([ta, tb]) == sorted([tb, ta]), True, 'sorting')
    # containment
    want = sb >= sa and sb + rb <= sa + ra
    same(tb in ta, want, '%r contains %r' % (a, b))
    # difference
    d = ta - tb
    check(isinstance(d, dt.timedelta), 'difference', d)
    same(d, sa - sb, 'difference')
    back = tb + d
    check(back == ta and ta == back, 'adding the difference', back)
    same(utcOf(ta - d), sb, 'subtracting the difference')
    check((ta - d) == tb, 'equality of the difference')
    # nothing has changed
    same((utcOf(ta), ta.resolution, utcOf(tb), tb.resolution), (sa, ra, sb, rb), 'operands afterwards')
    return sa < sb, want


def arithmetic(case):
    i, delta = case
    spec = SPECS[i]
    t = make(spec)
    s, r = spanOf(spec)
    try:
        want = s + delta
    except OverflowError:
        return 'overflow'
    if not 2 <= want.year <= 9998:
        return 'edge'
    op()
    u = t + delta
    same(utcOf(u), want, '%r + %r' % (spec, delta))
    for x in (u, u - delta, t - -delta):
        check(x.resolution <= dt.timedelta.resolution, 'the result of arithmetic is an instant', spec, delta, x.resolution)
    check((u - delta) == t and (t - -delta) == u, 'addition and subtraction are inverse', spec, delta)
    same(u - t, delta, 'subtracting the original')
    same(t - u, -delta, 'subtracting the sum')
    check((u > t) == (delta > dt.timedelta(0)) and (u == t) == (delta == dt.timedelta(0)), 'order', spec, delta)
    same((utcOf(t), t.resolution), (s, r), 'operand afterwards')
    return delta


def bounds(case):
    i, zi = case
    spec, z = SPECS[i], ZONES[zi]
    t = make(spec)
    s, r = spanOf(spec)
    op()
    lo, hi = t.getBounds(z.tz) if z.tz is not None else t.getBounds()
    lo, hi = utcOf(lo), utcOf(hi)
    if r < DAY:
        same((lo, hi), (s, s + r), 'bounds of %r in %r' % (spec, z))
        return 'exact'
    zs = s.replace(tzinfo=z.ref).astimezone(UTC).replace(tzinfo=None)
    ze = (s + r).replace(tzinfo=z.ref).astimezone(UTC).replace(tzinfo=None)
    check(lo <= s and hi >= s + r, 'the bounds leave out part of the period in UTC', spec, z, lo, hi)
    check(lo <= zs and hi >= ze, 'the bounds leave out part of the period in the zone', spec, z, lo, hi, zs, ze)
    check(hi - lo <= r + 2 * DAY + dt.timedelta(hours=2), 'the bounds are wider than any zone needs', spec, lo, hi)
    if z.tz is None:
        same((lo, hi), (s, s + r), 'bounds in UTC')
    same((utcOf(t), t.resolution), (s, r), 'the time afterwards')
    return 'wide'


def days(case):
    spec = SPECS[case]
    t = make(spec)
    s, r = spanOf(spec)
    op()
    d = t.oneDay()
    same((utcOf(d), d.resolution), (s.replace(hour=0, minute=0, second=0, microsecond=0), DAY), 'day of %r' % (spec,))
    check(d.isAllDay(), 'whole day')
    check(not d.isTimezoneDependent(), 'zone dependence of a day')
    same(t.isAllDay(), r == DAY, 'isAllDay of %r' % (spec,))
    same(t.isTimezoneDependent(), r < DAY, 'isTimezoneDependent of %r' % (spec,))
    same((utcOf(t), t.resolution), (s, r), 'the time afterwards')
    if r <= US:
        check(t in d, 'the day contains the instant')
    return utcOf(d)


class Odd(object):
    pass


def foreign(case):
    i, j = case
    t = make(SPECS[i])
    x = FOREIGN[j]
    for a, b in ((t, x), (x, t)):
        op()
        same(a == b, False, 'equality with %r' % (x,))
        same(a != b, True, 'inequality with %r' % (x,))
        for o in OPS[:4]:
            try:
                got = getattr(operator, o)(a, b)
            except TypeError:
                continue
            check(False, 'order with a non-time', o, x, got)
    for f in (lambda: x in t, lambda: t + x, lambda: t - x, lambda: x - t):
        if isinstance(x, dt.timedelta):
            continue
        try:
            got = f()
        except TypeError:
            continue
        check(False, 'an operation with a non-time', x, got)
    return j


def sorting(case):
    specs = [SPECS[i] for i in case]
    ts = [make(s) for s in specs]
    want = sorted(spanOf(s)[0] for s in specs)
    op()
    same([utcOf(t) for t in sorted(ts)], want, 'sorted')
    same([utcOf(t) for t in sorted(ts, reverse=True)], want[::-1], 'sorted backwards')
    same((utcOf(min(ts)), utcOf(max(ts))), (want[0], want[-1]), 'min and max')
    return len(set(want))


def spread(case):
    """Real now: times made later are never earlier."""
    from epsilon.extime import Time
    a = Time()
    w = dt.datetime.now(dt.timezone.utc).replace(tzinfo=None)
    b = Time()
    check(a <= b, 'the present runs backwards', a, b)
    check(utcOf(a) <= w <= utcOf(b), 'the present', a, w, b)
    return case


SPECS, ZONES, FOREIGN = [], [], []


def run(ctx):
    ctx.assumptions += ['years 0003-9997; results of arithmetic within them; the clock is not set back during the run']
    q = ctx.quick
    ZONES.extend(zones())
    iso = ['2004', '2003', '2004-02', '2004-12', '2003-12', '2004-W01', '2004-W53', '2004-02-29', '2004-02-28', '2004-12-31', '2005-01-01',
           '2004-03-01', '2004-04-01', '2004-10-01', '2004-02-29T00', '2004-02-29T23', '2004-02-29T23:59', '2004-02-29T00:00', '2004-02-29T23:59:59',
           '2004-02-29T00:00:00', '2004-02-29T00:00:00.5', '2004-02-29T00:00:00.50', '2004-02-29T23:59:59.999999', '2004-12-31T23:59:59.9',
           '2004-02-29T12:30+01:30', '2004-02-29T00:00-12:00', '2004-02-29T12:00:00.000001']
    D = dt.datetime
    SPECS.extend([('iso', t) for t in iso])
    SPECS.extend([('dt', x) for x in (D(2004, 2, 29), D(2004, 2, 29, 0, 0, 0, 1), D(2004, 2, 28, 23, 59, 59, 999999), D(2004, 3, 1),
                                      D(2004, 2, 29, 23, 59, 59, 999999), D(2005, 1, 1), D(2004, 1, 1), D(1969, 12, 31, 23, 59, 59),
                                      D(3, 1, 2), D(9997, 12, 30), D(2004, 2, 29, 12, 30))])
    SPECS.extend([('posix', x) for x in (0, 1078012800, 1078012800.5, -1, 1078012799)])
    SPECS.extend([('struct', (2004, 2, 29, 0, 0, 0, 0, 0, 0)), ('struct', (2004, 2, 29, 23, 59, 59, 6, 60, -1))])
    SPECS.extend([('day', D(2004, 2, 29, 23, 59, 59, 999999)), ('day', D(2004, 12, 31))])
    SPECS.extend([('subiso', '2004-02-29'), ('subiso', '2004-02-29T12:30+01:30'), ('subdt', D(2004, 2, 29, 12, 30)), ('subposix', 1078012800)])
    n = len(SPECS)
    ctx.sweep('order', [(i, j) for i in range(n) for j in range(n)], order, parallel=True)
    T = dt.timedelta
    deltas = [T(0), US, -US, S, T(days=1), T(days=-1), T(days=1, microseconds=-1), T(days=365), T(days=-366), T(seconds=86399), T(days=400 * 365),
              T(hours=-5, minutes=-30), T(microseconds=999999), T(days=-1, seconds=1, microseconds=1), T(weeks=1)]
    deltas += [T(seconds=k * 997, microseconds=k * 7) for k in (range(-40, 40) if q else range(-500, 500))]
    ctx.sweep('arithmetic', [(i, d) for i in range(n) for d in deltas], arithmetic, parallel=True)
    years = range(2003, 2006) if q else range(1999, 2009)
    SPECS.extend([('dt', x) for x in instants(lo=3, hi=9997)[::41 if q else 5]])
    SPECS.extend([('iso', '%04d-%02d' % (y, m)) for y in years for m in range(1, 13)])
    SPECS.extend([('iso', '%04d-W%02d' % (y, w)) for y in years for w in range(1, 53)])
    SPECS.extend([('iso', '%04d-%03d' % (y, w)) for y in years for w in range(1, 366)])
    m = len(SPECS)
    # every period of two years against every other: years, months, weeks
    spans = [i for i, x in enumerate(SPECS) if x[0] == 'iso' and (x[1][:4] in ('2003', '2004', '2005') and (len(x[1]) == 7 and x[1][5:] < '13' or 'W' in x[1] or len(x[1]) == 4))]
    ctx.sweep('periods', [(i, j) for i in spans for j in spans], order, parallel=True)
    ctx.sweep('bounds', [(i, z) for i in range(m) for z in range(len(ZONES))], bounds, parallel=True)
    ctx.sweep('days', list(range(m)), days, parallel=True)
    FOREIGN.extend([None, 0, 1.5, 'x', b'', (), [], {}, D(2004, 2, 29), dt.date(2004, 2, 29), T(1), Odd(), object, 1078012800])
    ctx.sweep('foreign', [(i, j) for i in range(n) for j in range(len(FOREIGN))], foreign, parallel=True)
    some = [7, 14, 19, 20, 27, 28, 29, 9] if q else list(range(7, 33))
    ctx.sweep('sorting', list(itertools.permutations(some[:7], 5)) if q else list(itertools.permutations(some, 4)), sorting, parallel=True)
    ctx.sweep('present', list(range(20)), spread)
