"""
C23: a sliced view always equals the corresponding slice of its sequence.
"""
import itertools

from mc.core import check, same, op


class Seq(object):
    """A sequence with nothing but reading; counts what is asked of it."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise AssertionError('the underlying sequence was sliced')
        return self.items[i]


def view(seq, *slices):
    from epsilon.view import SlicedView
    v = SlicedView(seq, slices[0])
    for s in slices[1:]:
        v = v[s]
    return v


def expect(items, *slices):
    r = list(items)
    for s in slices:
        r = r[s]
    return r


BADINDEX = [0.0, 1.0, '0', None, (0,)]


def iterate(v, limit):
    out = []
    for x in v:
        out.append(x)
        if len(out) > limit:
            break
    return out


def compare(v, want, what):
    if len(v) != len(want):
        check(False, 'length of %s' % (what,), len(v), want)
    got = iterate(v, len(want) + 2)
    if got != want:
        check(False, 'elements of %s' % (what,), got, want)
    n = len(want)
    for i in range(-n - 2, n + 2):
        op()
        try:
            g = v[i]
        except IndexError:
            g = IndexError
        try:
            w = want[i]
        except IndexError:
            w = IndexError
        if g is not w and g != w:
            check(False, 'index %d of %s' % (i, what), g, w)
    for i in BADINDEX:
        op()
        try:
            g = v[i]
        except TypeError:
            continue
        check(False, 'index %r of %s is not refused as a list refuses it' % (i, what), g)
    if list(reversed(v)) != want[::-1]:
        check(False, 'reversed %s' % (what,), list(reversed(v)), want[::-1])
    for x in want:
        if x not in v:
            check(False, 'membership in %s' % (what,), x)
    if bool(v) != bool(want):
        check(False, 'truth of %s' % (what,), bool(v))


def slices(n, steps, step=1):
    b = [None] + list(range(-n - 2, n + 3, step))
    return [slice(a, c, s) for a in b for c in b for s in steps]


def single(case):
    kind, n = case
    items = list(range(10, 10 + n))
    made = {'list': list, 'tuple': tuple, 'seq': Seq, 'str': lambda x: ''.join(chr(55 + i) for i in x),
            'range': lambda x: range(10, 10 + n)}[kind]
    seq = made(items)
    if kind == 'str':
        items = list(seq)
    m = 0
    for s in slices(n, (None, 1, 2, 3, 7, -1, -2, -3, -7)):
        compare(view(seq, s), items[s], '%r of %d' % (s, n))
        m += 1
    same(list(seq), items, 'the sequence afterwards')
    return kind, n, m


def chain2(case):
    n, s1 = case
    items = list(range(10, 10 + n))
    seq = Seq(items)
    v = view(seq, s1)
    m = len(items[s1])
    for s2 in slices(min(m, 3), (None, 1, 2, -1, -2)):
        compare(v[s2], items[s1][s2], '%r of %r of %d' % (s2, s1, n))
    same(seq.items, items, 'the sequence afterwards')
    return n, m


def chain3(case):
    n, s1, s2 = case
    items = list(range(10, 10 + n))
    seq = Seq(items)
    for s3 in CHAIN:
        compare(view(seq, s1, s2, s3), items[s1][s2][s3], '%r, %r, %r of %d' % (s1, s2, s3, n))
        for s4 in CHAIN[::5]:
            w = view(seq, s1, s2, s3, s4)
            want = items[s1][s2][s3][s4]
            if [w[i] for i in range(len(w))] != want:
                check(False, 'a chain of four', s1, s2, s3, s4, n)
    return n


MUT = ['append', 'pop', 'pop0', 'insert0', 'set', 'clear', 'extend', 'del-mid', 'reverse']


def mutate(l, how, k):
    if how == 'append':
        l.append(k)
    elif how == 'pop':
        if l:
            l.pop()
    elif how == 'pop0':
        if l:
            l.pop(0)
    elif how == 'insert0':
        l.insert(0, k)
    elif how == 'set':
        if l:
            l[len(l) // 2] = k
    elif how == 'clear':
        del l[:]
    elif how == 'extend':
        l.extend([k, k + 1, k + 2])
    elif how == 'del-mid':
        del l[1:-1]
    else:
        l.reverse()


def live(ch):
    """Histories of changes; views made before keep following the sequence."""
    n = ch.choose((0, 1, 4), 'length')
    base = list(range(10, 10 + n))
    s = ch.choose(LIVE, 'slice')
    views = []
    for t in [(s,)] + [(s, u) for u in LIVE[:4]]:
        views.append((view(base, *t), t))
    for v, t in views:
        compare(v, expect(base, *t), t)
    for k in range(DEPTH):
        how = ch.choose(MUT, 'change')
        mutate(base, how, 100 * (k + 1))
        copy = list(base)
        for v, t in views:
            compare(v, expect(base, *t), t)
        same(base, copy, 'the sequence after reading views')
        ch.obs(tuple(base))


def interleaved(case):
    """Views of one sequence do not disturb one another, and reading in any order is the same."""
    n, a, b = case
    items = list(range(10, 10 + n))
    va, vb = view(items, a), view(items, b)
    ia, ib = iter(va), iter(vb)
    ga, gb = [], []
    for _ in range(n + 1):
        for it, g in ((ia, ga), (ib, gb)):
            try:
                g.append(next(it))
            except StopIteration:
                pass
        len(va), len(vb)
        op()
    same((ga, gb), (items[a], items[b]), 'two views iterated together')
    return n


def underway(case):
    """
    The sequence changes while a view of it is iterated: what is iterated is
    always what the view has at that place then, to its end.
    """
    n, t, changes = case
    base = list(range(10, 10 + n))
    v = view(base, *t)
    it = iter(v)
    got = []
    for k in range(40):
        if k < len(changes) and changes[k]:
            mutate(base, changes[k], 100 * (k + 1))
        want = expect(base, *t)
        op()
        try:
            x = next(it)
        except StopIteration:
            check(k >= len(want), 'iteration ended before the view did', case, k, want)
            break
        except Exception as e:
            check(False, 'iteration failed', case, k, e)
        check(k < len(want), 'iteration went on after the end of the view', case, k, x)
        same(x, want[k], 'element %d of a view being iterated' % k)
        got.append(x)
    return tuple(got)


CHAIN, LIVE = [], []
DEPTH = 3


def run(ctx):
    global DEPTH
    ctx.assumptions += ['steps other than zero; sequences support len and integer indexing']
    q = ctx.quick
    DEPTH = 3 if q else 4
    ctx.sweep('single', [(k, n) for k in ('list', 'tuple', 'seq', 'str', 'range') for n in range(0, 7 if q else 11)], single, parallel=True)
    ctx.sweep('chain-of-two', [(n, s) for n in ((0, 1, 3, 5) if q else range(0, 8))
                               for s in slices(n, (None, 1, 2, -1, -3) if q else (None, 1, 2, 3, -1, -2, -3))], chain2, parallel=True)
    CHAIN.extend(slice(*t) for t in [(None,), (1, None), (None, -1), (1, -1), (None, None, -1), (None, None, 2), (None, None, -2), (2, None, 3),
                                     (-2, None), (None, 2), (4, 1, -1), (-1, None, -2), (5, 5), (-9, 9), (3, 0, -2)])
    ctx.sweep('chain-of-three', [(n, a, b) for n in (0, 1, 2, 5, 6, 9) for a in CHAIN for b in CHAIN], chain3, parallel=True)
    LIVE.extend(slice(*t) for t in [(1, None), (None, -1), (None, None, -1), (1, 3), (None, None, 2), (-2, None), (-2, None, -1), (3, None, -1),
                                    (None,), (5, 1, -2), (-3, -1)])
    ctx.explore('live', live, parallel=True)
    ctx.sweep('underway', [(n, t, c) for n in (0, 1, 2, 4, 5) for t in [(s,) for s in LIVE] + [(LIVE[2], s) for s in LIVE]
                           for c in itertools.product([None] + MUT, repeat=3 if q else 4)], underway, parallel=True)
    ctx.sweep('interleaved', [(n, a, b) for n in (0, 1, 4, 7) for a in CHAIN for b in CHAIN], interleaved, parallel=True)
