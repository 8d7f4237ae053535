"""
C22: printing a record always terminates and is independent of other threads.
"""
import itertools, os, threading

from mc.core import check, same, op
from mc.env import REPO
from mc.threads import Scheduler


class Leaf(object):
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


class Bomb(object):
    """Printing this raises until it is defused."""
    armed = True

    def __repr__(self):
        if self.armed:
            raise RuntimeError('boom')
        return 'BOMB'


def shapes():
    from epsilon.structlike import record

    class Pair(record('x y')):
        pass

    class One(record('only', only=None)):
        extra = 'not printed'

    class Rev(record('zeta alpha')):
        pass
    return Pair, One, Rev


# node kinds: (how to build, slots)
KINDS = {'P': 2, 'R': 2, 'O': 1, 'L': 2, 'l': 1, 'D': 2, 'T': 2}


class Model(object):
    """
    An object graph: nodes with a kind and slots; a slot is a node number or
    None for the leaf.
    """

    def __init__(self, kinds, slots):
        self.kinds = kinds
        self.slots = slots

    def build(self):
        Pair, One, Rev = SHAPES
        objs = []
        for k in self.kinds:
            if k == 'P':
                objs.append(Pair(None, None))
            elif k == 'R':
                objs.append(Rev(None, None))
            elif k == 'O':
                objs.append(One())
            elif k == 'D':
                objs.append({})
            else:
                objs.append([])
        for k, o, s in zip(self.kinds, objs, self.slots):
            v = [LEAF if t is None else objs[t] for t in s]
            if k == 'P':
                o.x, o.y = v
            elif k == 'R':
                o.zeta, o.alpha = v
            elif k == 'O':
                o.only, = v
            elif k == 'D':
                o['a'], o['b'] = v
            else:
                o.extend(v)
        return objs

    def text(self, i, active=()):
        """What printing node i must give."""
        k = self.kinds[i]
        if i in active:
            return {'P': 'Pair(...)', 'R': 'Rev(...)', 'O': 'One(...)', 'L': '[...]', 'l': '[...]', 'D': '{...}'}[k]
        a = active + (i,)
        v = ['LEAF' if t is None else self.text(t, a) for t in self.slots[i]]
        if k == 'P':
            return 'Pair(x=%s, y=%s)' % tuple(v)
        if k == 'R':
            return 'Rev(zeta=%s, alpha=%s)' % tuple(v)
        if k == 'O':
            return 'One(only=%s)' % tuple(v)
        if k == 'D':
            return "{'a': %s, 'b': %s}" % tuple(v)
        return '[%s]' % ', '.join(v)


def graphs(case):
    kinds, first = case
    n = len(kinds)
    targets = [None] + list(range(n))
    count = 0
    slots = [KINDS[k] for k in kinds]
    total = sum(slots) - len(first)
    for rest in itertools.product(targets, repeat=total):
        flat = tuple(first) + rest
        it = iter(flat)
        m = Model(kinds, [tuple(next(it) for _ in range(s)) for s in slots])
        objs = m.build()
        for i in range(n):
            got = repr(objs[i])
            want = m.text(i)
            if got != want:
                check(False, 'printed form of node %d of %r %r' % (i, kinds, m.slots), got, want)
            count += 1
        # and again, in the other order
        for i in reversed(range(n)):
            if str(objs[i]) != m.text(i):
                check(False, 'printed form of node %d of %r %r, printed again' % (i, kinds, m.slots), str(objs[i]), m.text(i))
    op(count)
    return kinds, first, count


def tree(case):
    """Deep chains and wide trees, shared children."""
    depth, back = case
    Pair, One, Rev = SHAPES
    shared = One(LEAF)
    top = x = Pair(None, shared)
    want = ''
    chain = [x]
    for i in range(depth):
        nxt = (Pair if i % 2 else Rev)(None, shared)
        if isinstance(x, Pair):
            x.x = nxt
        else:
            x.zeta = nxt
        x = nxt
        chain.append(x)
    end = LEAF if back is None else chain[back]
    if isinstance(x, Pair):
        x.x = end
    else:
        x.zeta = end
    names = ['Pair' if isinstance(c, Pair) else 'Rev' for c in chain]
    want = 'LEAF' if back is None else names[back] + '(...)'
    for c in reversed(chain):
        if isinstance(c, Pair):
            want = 'Pair(x=%s, y=One(only=LEAF))' % want
        else:
            want = 'Rev(zeta=%s, alpha=%s)' % (want, 'One(only=LEAF)' if c.alpha is shared else repr(c.alpha))
    op()
    same(repr(top), want, 'printed form of a chain')
    return case


def raising(ch):
    """Prints that raise leave nothing behind."""
    Pair, One, Rev = SHAPES
    bomb = Bomb()
    inner = One(bomb)
    pair = Pair(LEAF, inner)
    loop = Pair(None, pair)
    loop.x = loop
    objs = [inner, pair, loop, [pair, inner]]
    good = ['One(only=BOMB)', 'Pair(x=LEAF, y=One(only=BOMB))',
            'Pair(x=Pair(...), y=Pair(x=LEAF, y=One(only=BOMB)))', '[Pair(x=LEAF, y=One(only=BOMB)), One(only=BOMB)]']
    for k in range(5):
        i = ch.choose(len(objs), 'print')
        bomb.armed = ch.flag('bomb armed')
        op()
        try:
            got = repr(objs[i])
        except RuntimeError as e:
            same(str(e), 'boom', 'error')
            check(bomb.armed, 'printing raised')
            got = None
        if got is not None:
            same(got, good[i], 'printed form after earlier prints that raised')
        check((got is None) == bomb.armed, 'printed a bomb')
        ch.obs((k, got))


class Careful(object):
    """Prints something several times, whatever happens."""

    def __init__(self, *objs):
        self.objs = objs

    def __repr__(self):
        out = []
        for o in self.objs:
            try:
                out.append(repr(o))
            except RuntimeError as e:
                out.append('<%s>' % e)
        return '|'.join(out)


def recovered(ch):
    """Prints which raise inside another print that carries on."""
    Pair, One, Rev = SHAPES
    bombs = [Bomb(), Bomb()]

    class Fuse(object):
        """Raises as often as it is set to."""
        left = 0

        def __repr__(self):
            if self.left:
                self.left -= 1
                raise RuntimeError('fuse')
            return 'FUSE'
    fuse = Fuse()
    inner = One(fuse)
    mid = Pair(LEAF, inner)
    kids = [inner, mid, LEAF]
    pick = [kids[ch.choose(3, 'kid')] for _ in range(3)]
    outer = Pair(None, None)
    careful = Careful(*pick)
    if ch.flag('in a list'):
        outer.x, outer.y = [careful], inner
    else:
        outer.x, outer.y = careful, inner
    outerText = 'Pair(x=%s, y=%s)'
    fuse.left = n = ch.choose(4, 'failures')
    roots = [outer, careful, [outer, Careful(outer)]]
    root = ch.choose(3, 'root')

    def text(o):
        # what printing must give, with the failures left in n
        nonlocal n
        if o is fuse:
            if n:
                n -= 1
                raise RuntimeError('fuse')
            return 'FUSE'
        if o is LEAF:
            return 'LEAF'
        if o is inner:
            return 'One(only=%s)' % text(fuse)
        if o is mid:
            return 'Pair(x=LEAF, y=%s)' % text(inner)
        if isinstance(o, Careful):
            out = []
            for x in o.objs:
                try:
                    out.append(text(x))
                except RuntimeError as e:
                    out.append('<%s>' % e)
            return '|'.join(out)
        if isinstance(o, list):
            return '[%s]' % ', '.join([text(x) for x in o])
        return outerText % (text(o.x), text(o.y))

    for again in range(3):
        op()
        try:
            want = text(roots[root])
        except RuntimeError as e:
            want = '<%s>' % e
        try:
            got = repr(roots[root])
        except RuntimeError as e:
            got = '<%s>' % e
        same(got, want, 'printed form, a print inside having raised')
        ch.obs((again, got))


def details(case):
    """Class names, missing, extra and odd attributes."""
    from epsilon.structlike import record
    i = case
    if i == 0:
        R = record('a b')
        same(repr(R(1, 'x')), "Record<a b>(a=1, b='x')", 'anonymous record')
    elif i == 1:
        class Sub(record('b a', a=3)):
            pass

        class SubSub(Sub):
            pass
        same((repr(Sub(1)), repr(SubSub(1, 2))), ('Sub(b=1, a=3)', 'SubSub(b=1, a=2)'), 'subclasses')
    elif i == 2:
        class Q(record('a b')):
            pass
        q = Q(1, 2)
        q.c = 3
        same(repr(q), 'Q(a=1, b=2)', 'undeclared attributes')
        q.a = u'\u00e9\n'
        same(repr(q), 'Q(a=%r, b=2)' % (u'\u00e9\n',), 'changed attribute')
    elif i == 3:
        class S(record('a b')):
            pass
        s = S(1, 2)
        t = S(s, s)
        same(repr(t), 'S(a=S(a=1, b=2), b=S(a=1, b=2))', 'a shared record')
        u = S(t, [t, (t, {'k': s})])
        st = repr(t)
        same(repr(u), "S(a=%s, b=[%s, (%s, {'k': S(a=1, b=2)})])" % (st, st, st), 'shared records')
    elif i == 4:
        class V(record('a')):
            def __eq__(self, other):
                return True
            __hash__ = None
        v = V(V(V(1)))
        same(repr(v), 'V(a=V(a=V(a=1)))', 'equal but different records')
    elif i == 5:
        class W(record('a')):
            pass

        class Wrapper(object):
            def __init__(self, o):
                self.o = o

            def __repr__(self):
                return '<%r>' % (self.o,)
        w = W(None)
        w.a = Wrapper(w)
        same(repr(w), 'W(a=<W(...)>)', 'a cycle through an object')
        same(repr(w.a), '<W(a=<W(...)>)>'.replace('<W(...)>', '<W(...)>'), 'the same cycle from the object')
    elif i == 6:
        # records made and thrown away while printing: identities may be reused
        class X(record('a b')):
            pass

        class Fresh(object):
            n = 0

            def __repr__(self):
                return repr(X(1, 2)) + repr(X(3, X(4, 5)))
        same(repr(X(Fresh(), Fresh())), 'X(a=%s, b=%s)' % ((('X(a=1, b=2)X(a=3, b=X(a=4, b=5))',) * 2)), 'records made while printing')
    elif i == 7:
        # fields kept elsewhere: properties, slots and computed attributes
        class Y(record('a b')):
            @property
            def a(self):
                return self._a * 2

            @a.setter
            def a(self, value):
                self._a = value
        y = Y(3, 'x')
        same(repr(y), "Y(a=6, b='x')", 'a field which is a property')
        y.b = y
        same(repr(y), "Y(a=6, b=Y(...))", 'a field which is a property')

        class Z(record('a b')):
            def __getattribute__(self, name):
                if name == 'b':
                    return [self.a]
                return super(Z, self).__getattribute__(name)
        same(repr(Z(1, 2)), 'Z(a=1, b=[1])', 'a computed field')
    elif i == 8:
        # values of every kind
        class A(record('a')):
            pass
        for v in (None, 0, False, '', b'', (), [], {}, u'\u20ac', 1.5, A, len, Ellipsis, '...', 'A(...)'):
            same(repr(A(v)), 'A(a=%r)' % (v,), 'a value')
            same(repr(A([A(v)])), 'A(a=[A(a=%r)])' % (v,), 'a value')
    elif i == 9:
        names = ['f%d' % k for k in range(60)]

        class Wide(record(' '.join(names))):
            pass
        same(repr(Wide(*range(60))), 'Wide(%s)' % ', '.join('f%d=%d' % (k, k) for k in range(60)), 'many fields')
    elif i == 10:
        # fields that change while the record is printed
        class Moving(record('a b')):
            pass

        class Mover(object):
            def __repr__(self):
                m.b = 'moved'
                return 'mover'
        m = Moving(Mover(), 1)
        got = repr(m)
        check(got in ("Moving(a=mover, b='moved')", 'Moving(a=mover, b=1)'), 'a record changed while printed', got)
        same(repr(m), "Moving(a=mover, b='moved')", 'a record changed while printed, again')
    return i


def threads(shape, nthreads, lines=False):
    """Several threads print the same records; every interleaving."""
    def scenario(ch):
        from epsilon.structlike import record

        class Rec(record('first second')):
            pass
        sched = Scheduler(ch, os.path.join(REPO, 'epsilon') if lines else None)

        class Stop(object):
            def __init__(self, n):
                self.n = n

            def __repr__(self):
                sched.pause()
                return 'stop%d' % self.n
        if shape == 'flat':
            r = Rec(Stop(1), Stop(2))
            roots = [r] * nthreads
            want = ['Rec(first=stop1, second=stop2)'] * nthreads
        elif shape == 'self':
            r = Rec(Stop(1), None)
            r.second = r
            roots = [r] * nthreads
            want = ['Rec(first=stop1, second=Rec(...))'] * nthreads
        elif shape == 'nested':
            inner = Rec(Stop(1), None)
            outer = Rec(inner, Stop(2))
            roots = [outer, inner, outer][:nthreads]
            t = ['Rec(first=Rec(first=stop1, second=None), second=stop2)', 'Rec(first=stop1, second=None)']
            want = [t[0], t[1], t[0]][:nthreads]
        elif shape == 'raising':
            # the first thread's print raises while the second is printing
            class Fails(object):
                def __repr__(self):
                    sched.pause()
                    if sched.current == 0:
                        raise RuntimeError('boom')
                    return 'fine'
            r = Rec(Stop(1), Fails())
            roots = [r] * nthreads
            want = ['boom'] + ['Rec(first=stop1, second=fine)'] * (nthreads - 1)
        else:
            a, b = Rec(Stop(1), None), Rec(Stop(2), None)
            a.second, b.second = b, a
            roots = [a, b, a][:nthreads]
            ta = 'Rec(first=stop1, second=Rec(first=stop2, second=Rec(...)))'
            tb = 'Rec(first=stop2, second=Rec(first=stop1, second=Rec(...)))'
            want = [ta, tb, ta][:nthreads]
        results = {}

        def worker(i):
            def work():
                try:
                    results[i] = repr(roots[i])
                except RuntimeError as e:
                    results[i] = str(e)
                if shape in ('flat', 'raising') and nthreads == 2:
                    again = None
                    try:
                        again = repr(roots[i])
                    except RuntimeError as e:
                        again = str(e)
                    check(again == results[i], 'printed again differently', again, results[i])
            return work
        sched.run([worker(i) for i in range(nthreads)])
        for i in range(nthreads):
            same(results.get(i), want[i], 'printed by thread %d' % i)
        ch.obs(tuple(sched.history) if not lines else tuple(sorted(results.items())))
    return scenario


SHAPES = ()
LEAF = Leaf('LEAF')


def run(ctx):
    global SHAPES
    ctx.assumptions += ['containers are printed by Python itself; threads may be switched whenever a field is printed']
    q = ctx.quick
    SHAPES = shapes()
    cases = []
    kinds = [''.join(k) for n in (1, 2) for k in itertools.product('PROLD', repeat=n)]
    kinds += [''.join(k) for k in itertools.product('POL' if q else 'PROLD', repeat=3)]
    if not q:
        kinds += [''.join(k) for k in itertools.product('PO', repeat=4)] + ['POLl', 'OLOD']
    for k in kinds:
        n = len(k)
        slots = sum(KINDS[c] for c in k)
        cut = min(2 if n < 4 else 4, slots)
        for first in itertools.product([None] + list(range(n)), repeat=cut):
            cases.append((k, first))
    ctx.sweep('graphs', cases, graphs, parallel=True)
    ctx.sweep('chains', [(d, b) for d in (1, 2, 3, 10, 40) for b in [None] + list(range(0, d + 1, max(1, d // 8)))], tree)
    ctx.sweep('details', list(range(11)), details)
    ctx.explore('raising', raising, parallel=True)
    ctx.explore('recovered', recovered, parallel=True)
    for shape in ('flat', 'self', 'nested', 'cycle', 'raising'):
        ctx.explore('two-threads-' + shape, threads(shape, 2), parallel=True)
        ctx.explore('preempted-' + shape, threads(shape, 2, True), maxdev=1 if q else 2, parallel=True)
        if not q or shape in ('flat', 'nested', 'cycle'):
            ctx.explore('three-threads-' + shape, threads(shape, 3), parallel=True)
