"""
C20: case-insensitive strings behave as their lowercase everywhere.
"""
import itertools, operator

from mc.core import check, same, op, Violation

CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def words(alphabet, n):
    return [''.join(w) for k in range(n + 1) for w in itertools.product(alphabet, repeat=k)]


def run1(f):
    try:
        return ('ok', f())
    except (ValueError, IndexError) as e:
        return (type(e).__name__,)


def wrap(s, how):
    from epsilon.caseless import Caseless
    if how == 0:
        return Caseless(s)
    if how == 1:
        return Caseless(Caseless(s))
    return s


def comparisons(a):
    """One string against all others, in every mix of operands."""
    from epsilon.caseless import Caseless
    n = 0
    for b in WORDS:
        for ha, hb in ((0, 0), (0, 2), (2, 0), (1, 0), (0, 1)):
            x, y = wrap(a, ha), wrap(b, hb)
            for o in CMP:
                f = getattr(operator, o)
                got, want = f(x, y), f(a.lower(), b.lower())
                if got is not want:
                    check(False, '%s of %r and %r' % (o, x, y), got, want)
                n += 1
            if (ha, hb) != (2, 0) and hb != 2 and a.lower() == b.lower():
                same(hash(x), hash(y), 'hashes of %r and %r' % (x, y))
    op(n)
    same(hash(Caseless(a)), hash(Caseless(Caseless(a))), 'hash of a wrapped wrapper')
    same(hash(Caseless(a)) == hash(Caseless(a.swapcase())), a.lower() == a.swapcase().lower() or
         hash(a.lower()) == hash(a.swapcase().lower()), 'hashes')
    same(hash(Caseless(a)), hash(a.lower()), 'a plain lowercase string and its wrapper are equal, so their hashes are')
    return n


def searching(a):
    """Every searching method, for every needle and range."""
    from epsilon.caseless import Caseless
    low = a.lower()
    n = 0
    for b in NEEDLES if isinstance(a, str) else BNEEDLES:
        lb = b.lower()
        for needle in (b, Caseless(b)):
            for c in (Caseless(a),):
                same(needle in c, lb in low, '%r in %r' % (needle, c))
                for name in ('startswith', 'endswith', 'count', 'find', 'index', 'rfind', 'rindex'):
                    for r in RANGES:
                        got = run1(lambda: getattr(c, name)(needle, *r))
                        want = run1(lambda: getattr(low, name)(lb, *r))
                        n += 1
                        if got != want or (got[0] == 'ok' and type(got[1]) is not type(want[1])):
                            check(False, '%r.%s(%r, %r)' % (c, name, needle, r), got, want)
    op(n)
    return n


def tuples(case):
    """Tuples of prefixes and suffixes, of plain and wrapped strings."""
    from epsilon.caseless import Caseless
    a, t = case
    low = a.lower()
    n = 0
    for mask in itertools.product((0, 2), repeat=len(t)):
        for name in ('startswith', 'endswith'):
            for r in RANGES[:9]:
                c = Caseless(a)
                given = tuple(wrap(s, m) for s, m in zip(t, mask))
                got = run1(lambda: getattr(c, name)(given, *r))
                want = run1(lambda: getattr(low, name)(tuple(s.lower() for s in t), *r))
                n += 1
                same(got, want, '%r.%s(%r, %r)' % (c, name, given, r))
                same(tuple(getattr(g, 'cased', g) for g in given), t, 'the tuple given')
    op(n)
    return n


def delegated(a):
    from epsilon.caseless import Caseless
    for c in (Caseless(a), Caseless(Caseless(a)), Caseless(Caseless(Caseless(a)))):
        op()
        same(len(c), len(a), 'length of %r' % (a,))
        same(list(c), list(a), 'iteration of %r' % (a,))
        for i in range(-len(a) - 1, len(a) + 1):
            same(run1(lambda: c[i]), run1(lambda: a[i]), '%r[%d]' % (a, i))
        for s in itertools.product((None, 0, 1, 2, -1, -2, 5), (None, 0, 1, -1, 5), (None, 1, -1, 2)):
            sl = slice(*s)
            got = c[sl]
            check(got == a[sl] and type(got) is type(a), 'slice of %r' % (a,), sl, got)
        same(str(c), str(a), 'text of %r' % (a,))
        same('%s' % (c,), '%s' % (a,), 'formatting')
        for name in ('lower', 'upper', 'title', 'swapcase'):
            got = getattr(c, name)()
            check(type(got) is type(a), 'type of %s' % name, got)
            same(got, getattr(a, name)(), '%s of %r' % (name, a))
        same(c.cased, a, 'the wrapped string')
        check(type(c.cased) is type(a), 'the wrapped string is wrapped again', c.cased)
        same(bool(c), bool(a), 'truth of %r' % (a,))
    same(repr(Caseless(a)), repr(Caseless(Caseless(a))), 'repr of a wrapped wrapper')
    check(repr(a) in repr(Caseless(a)), 'repr', repr(Caseless(a)))
    return len(a)


def containers(case):
    """Dictionaries, sets, lists and sorting."""
    from epsilon.caseless import Caseless
    keys = case
    d = {}
    ref = {}
    for i, k in enumerate(keys):
        d[Caseless(k)] = i
        ref[k.lower()] = i
        op()
    same(len(d), len(ref), 'size of a dictionary keyed by %r' % (keys,))
    for k in WORDS[:60]:
        for how in (0, 1):
            same(d.get(wrap(k, how)), ref.get(k.lower()), 'lookup of %r in a dictionary keyed by %r' % (k, keys))
        same(wrap(k, 0) in set(map(Caseless, keys)), k.lower() in ref, 'membership in a set')
        same(wrap(k, 0) in list(keys), k.lower() in ref, 'membership in a list of plain strings')
        same(k in [Caseless(x) for x in keys], k.lower() in ref, 'membership of a plain string')
    same(sorted(keys, key=Caseless), sorted(keys, key=lambda s: s.lower()), 'sorting of %r' % (keys,))
    same([c.cased for c in sorted(map(Caseless, keys))], sorted(keys, key=lambda s: s.lower()), 'sorting of wrappers')
    same(max(map(Caseless, keys)).lower(), max(k.lower() for k in keys), 'max')
    return len(ref)


WORDS, NEEDLES, BNEEDLES = [], [], []
RANGES = [(), (0,), (1,), (-1,), (None,), (0, 1), (1, 2), (-2, -1), (None, 2), (2,), (3,), (0, 0), (0, 2), (1, None), (2, 1), (0, 9),
          (-9, 9), (-1, None), (None, -1), (None, None)]


def run(ctx):
    ctx.assumptions += ['operands are strings of the same kind; strings never contain wrappers']
    q = ctx.quick
    special = ['\u00df', '\u1e9e', '\u0130', '\u0131', '\u03a3', '\u03c3', '\u03c2', '\u0178', '\u01c5', 'K', '\u212a', '\u00c9']
    base = words('aAbB', 3) + words('aA-', 2)
    extra = special + [a + b for a in special[:7] for b in ('a', 'A', '\u03a3', '')] + ['A\u03a3', 'A\u03a3 ', '\u0130b', 'aA\u0130']
    WORDS.extend(sorted(set(base + extra)))
    if not q:
        WORDS.extend(sorted(set(words('aAbZ', 4)) - set(WORDS)))
    NEEDLES.extend(words('aAb', 2) + special[:6] + ['i', 'I', 'i\u0307', 'ss', 'Z'])
    BNEEDLES.extend([w.encode() for w in words('aAb', 2)] + [b'Z', b'\xff', b'\xc3'])
    ctx.sweep('comparisons', list(WORDS), comparisons, parallel=True)
    hay = sorted(set(words('aAbB', 3) + extra + ['abABab', 'AaAaAa', 'xaXAxa', 'aBaBaB']))
    ctx.sweep('searching', hay if q else sorted(set(hay + words('aAb', 5))), searching, parallel=True)
    ctx.sweep('searching-bytes', [w.encode() for w in words('aAb', 3)] + [b'abABab', b'\xffA\xff', b'\xc3\xa9A'], searching, parallel=True)
    parts = ['', 'a', 'A', 'aB', 'b', 'BA']
    ctx.sweep('tuples', [(h, t) for h in words('aAb', 3) + ['abAB'] for k in range(0, 3) for t in itertools.product(parts, repeat=k)],
              tuples, parallel=True)
    ctx.sweep('delegated', list(WORDS) + [w.encode() for w in words('aAb', 3)] + [b'\xff\x00A'], delegated, parallel=True)
    some = ['a', 'A', 'b', 'aB', 'Ab', 'AB', '\u0130', 'i\u0307', '\u03a3', '\u03c3', '']
    ctx.sweep('containers', [c for k in (1, 2, 3) for c in itertools.product(some, repeat=k)], containers, parallel=True)
