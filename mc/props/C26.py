"""
C26: computed attributes: remembered once, required until set, read-only by default.
"""
import itertools

from mc.core import check, same, op, Alike

VALUES = [None, 0, False, '', (), 1, 'x', [], {}, object(), NotImplemented]


class Boom(Exception):
    pass


def remembering(ch):
    """Histories of accesses to several remembered attributes of several instances."""
    from epsilon.remember import remembered
    log = []
    plan = {}

    def fn(name):
        def f(self):
            log.append((name, self.tag))
            v = plan[(name, self.tag)]
            if v is Boom:
                raise Boom(name)
            if v == 'nested':
                return [self.two]
            return v
        return f

    def same_name(self):
        return fn('three')(self)

    def same_name2(self):
        return fn('four')(self)
    same_name2.__name__ = 'same_name'

    class C(Alike):
        def __init__(self, tag):
            self.tag = tag
        one = remembered(fn('one'))
        two = remembered(fn('two'))
        three = remembered(same_name)
        four = remembered(same_name2)

    class D(C):
        two = remembered(fn('D.two'))
    names = ('one', 'two', 'three', 'four')
    objs = [C('c'), D('d')]
    got = {}
    for k in range(DEPTH):
        i = ch.choose(2, 'instance')
        n = ch.choose(names, 'attribute')
        o = objs[i]
        func = 'D.two' if (n == 'two' and i == 1) else n
        key = (func, o.tag)
        if key not in got:
            v = ch.choose((None, 'v', Boom) if n != 'one' else (0, Boom, 'nested'), 'value')
            plan[key] = v
            if v == 'nested':
                inner = ('D.two' if i else 'two', o.tag)
                if inner not in got:
                    plan[inner] = ()
        before = len(log)
        op()
        try:
            r = getattr(o, n)
        except Boom:
            check(key not in got and plan[key] is Boom, 'an error')
            same(log[before:], [key], 'computations')
            ch.obs((key, 'boom'))
            continue
        if key in got:
            check(r is got[key], 'another value', n, r, got[key])
            same(log[before:], [], 'computed again')
        else:
            want = [key]
            if plan[key] == 'nested':
                inner = ('D.two' if i else 'two', o.tag)
                if inner not in got:
                    want.append(inner)
                    got[inner] = ()
                check(r == [got[inner]], 'nested value', r)
            else:
                check(r is plan[key], 'value', r, plan[key])
            same(log[before:], want, 'computations')
            got[key] = r
        ch.obs((key, before))


def remembered1(case):
    """Every kind of value; read many times, on several instances."""
    from epsilon.remember import remembered
    i, j = case
    calls = []

    class C(Alike):
        def __init__(self, v):
            self.v = v

        @remembered
        def attr(self):
            calls.append(self)
            return self.v

        @remembered
        def other(self):
            return [self.attr]
    a, b = C(VALUES[i]), C(VALUES[j])
    for x in (a, a, b, a, b, b):
        op()
        check(x.attr is x.v, 'value', x.attr, x.v)
    same(calls, [a, b], 'computations')
    check(a.other is a.other and a.other[0] is a.v, 'another attribute')
    check(a.attr is a.v, 'value after reading another attribute')
    a.v = 'changed'
    check(a.attr is VALUES[i], 'value after its source changed')
    same(len(calls), 2, 'computations')

    class E(C):
        pass
    e = E(3)
    check(e.attr == 3 and e.attr == 3 and len(calls) == 3, 'a subclass')
    return i


class Answering(object):
    """Has a value for every name: an instance which delegates, like a proxy."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return 'delegated ' + name


class Counted(object):
    """Attributes may be set by the class too."""

    def __setattr__(self, name, value):
        if not name.startswith('_'):
            raise AttributeError(name)
        object.__setattr__(self, name, value)


def unusual(case):
    """Instances of classes with their own ideas of attributes."""
    from epsilon.remember import remembered
    base, i, reads = case
    calls = []

    class C(base):
        @remembered
        def attr(self):
            calls.append(id(self))
            return VALUES[i]

        @remembered
        def failing(self):
            calls.append('failing')
            if len(calls) < 4:
                raise Boom('failing')
            return VALUES[i]
    a, b = C(), C()
    for k, r in enumerate(reads):
        o = (a, b)[r]
        n = calls.count(id(o))
        op()
        check(o.attr is VALUES[i], 'value', o.attr, VALUES[i])
        same(calls.count(id(o)), 1, 'computations')
    del calls[:]
    got = []
    for k in range(6):
        try:
            check(a.failing is VALUES[i], 'value', VALUES[i])
            got.append('ok')
        except Boom:
            got.append('boom')
    same((got, len(calls)), (['boom'] * 3 + ['ok'] * 3, 4), 'an attribute whose computation fails at first')
    return i, reads


def overriding(ch):
    """Remembered attributes which override each other and use what they override."""
    from epsilon.remember import remembered
    log, fails = [], {}

    def step(self, k):
        log.append((k, self.tag))
        if fails.get((k, self.tag)):
            raise Boom(k)

    class A(Alike):
        @remembered
        def x(self):
            step(self, 'A')
            return ['A', self.tag]

    class B(A):
        @remembered
        def x(self):
            if early:
                step(self, 'B')
            under = super(B, self).x
            if not early:
                step(self, 'B')
            return ['B', under]

    class C(B):
        @remembered
        def x(self):
            if early:
                step(self, 'C')
            under = super(C, self).x
            if not early:
                step(self, 'C')
            return ['C', under]
    early = ch.flag('fails before using the other')
    chain = {'A': ['A'], 'B': ['B', 'A'], 'C': ['C', 'B', 'A']}
    objs = []
    for i, k in enumerate((C, ch.choose((A, B, C), 'class'))):
        objs.append(k())
        objs[-1].tag = i
    got = {}
    for n in range(DEPTH - 1):
        i = ch.choose(2, 'instance')
        o = objs[i]
        top = type(o).__name__
        through = ch.choose(chain[top], 'seen as')
        for k in 'ABC':
            fails[(k, i)] = False
        bad = ch.choose([None] + [k for k in chain[through] if (k, i) not in got], 'fails')
        if bad:
            fails[(bad, i)] = True
        # what is to happen
        want, todo = [], []
        for k in chain[through]:
            if (k, i) in got:
                break
            todo.append(k)
        boom = bad in todo
        if early:
            for k in todo:
                want.append((k, i))
                if k == bad:
                    break
        else:
            for k in reversed(todo):
                want.append((k, i))
                if k == bad:
                    break
        before = len(log)
        op()
        try:
            if through == top:
                r = o.x
            else:
                above = {('C', 'B'): C, ('C', 'A'): B, ('B', 'A'): B}[top, through]
                r = super(above, o).x
        except Boom:
            check(boom, 'an error', through)
            r = None
        else:
            check(not boom, 'no error', through, r)
        same(log[before:], want, 'computations for %s seen as %s' % (top, through))
        if not boom or not early:
            for k in reversed(todo):
                if k == bad:
                    break
                got[(k, i)] = True
        if not boom:
            same(r, shape(through, i), 'value of %s seen as %s' % (top, through))
            check(got.setdefault((through, i, 'object'), r) is r, 'another value', r)
        ch.obs((i, through, bad, tuple(want)))


def alikeNames(case):
    """Classes named like the one they extend, from another place."""
    from epsilon.remember import remembered
    where1, where2, order = case
    log = []

    def made(where, base, f):
        f.__name__ = 'x'
        return type(where[1].split('.')[-1], (base,), {'__module__': where[0], '__qualname__': where[1], 'x': remembered(f)})

    def below(self):
        log.append('below')
        return ['below']

    def above(self):
        log.append('above')
        return ['above', super(Above, self).x]
    Below = made(where1, object, below)
    Above = made(where2, Below, above)
    o = Above()
    want = {'above': ['above', ['below']], 'below': ['below']}
    seen = {}
    for k in order:
        op()
        r = o.x if k == 'above' else super(Above, o).x
        same(r, want[k], 'value of %s' % k)
        check(seen.setdefault(k, r) is r, 'another value', k)
    same(sorted(log), sorted(set(['below'] + list(order))), 'computations')
    return order


def shape(k, i):
    return ['A', i] if k == 'A' else [k, shape({'B': 'A', 'C': 'B'}[k], i)]


def raisingOnce(case):
    from epsilon.remember import remembered
    fails, value = case
    state = [0]

    class C(Alike):
        @remembered
        def attr(self):
            state[0] += 1
            if state[0] <= fails:
                raise Boom()
            return VALUES[value]
    c = C()
    for k in range(fails):
        try:
            c.attr
            check(False, 'no error')
        except Boom:
            pass
        op()
    for k in range(3):
        check(c.attr is VALUES[value], 'value after errors')
    same(state[0], fails + 1, 'computations')
    return case


def oneShot(case):
    """Descriptors with any combination of operations, under any history of them."""
    from epsilon.descriptor import attribute
    defined, history = case
    log = []
    body = {}
    if 'get' in defined:
        def get(self):
            log.append(('get', self.tag))
            return ('value', self.tag)
        body['get'] = get
    if 'set' in defined:
        def set(self, value):
            log.append(('set', self.tag, value))
        body['set'] = set
    if 'delete' in defined:
        def delete(self):
            log.append(('delete', self.tag))
        body['delete'] = delete
    dyn = type(attribute)('dyn', (attribute,), dict(body))
    ro = type(attribute)('ro', (attribute,), {'get': lambda self: 'ro'})

    class C(Alike):
        other = ro

        def __init__(self, tag):
            self.tag = tag
    C.dyn = dyn
    D = type('D', (C,), {})
    objs = [C('c'), D('d')]
    for who, what in history:
        o = objs[who]
        del log[:]
        op()
        try:
            if what == 'get':
                r = o.dyn
                same(r, ('value', o.tag), 'got')
            elif what == 'set':
                o.dyn = 17
            else:
                del o.dyn
        except AttributeError:
            check(what not in defined, 'a defined operation failed', what)
            same(log, [], 'what ran')
        else:
            check(what in defined, 'an operation which is not defined succeeded', what)
            same(log, [(what, o.tag) + ((17,) if what == 'set' else ())], 'what ran')
        same(vars(o), {'tag': o.tag}, 'attributes of the instance')
        same(hasattr(o, 'dyn'), 'get' in defined, 'hasattr')
        same(o.other, 'ro', 'another descriptor')
    check(isinstance(C.dyn, attribute), 'the descriptor itself')
    return defined, len(history)


def required(ch):
    """Histories over a required attribute, its subclasses and instances."""
    from epsilon.descriptor import requiredAttribute

    class Base(Alike):
        needed = requiredAttribute('needed')
        also = requiredAttribute('also')

    class Given(Base):
        needed = 'from the class'

    class NoneGiven(Base):
        needed = None
    classes = [Base, Given, type('Plain', (Base,), {}), NoneGiven]
    objs = [classes[0](), classes[0](), classes[1](), classes[2](), classes[3]()]
    cls = {2: 'from the class', 4: None}
    state = {}
    for k in range(DEPTH):
        i = ch.choose(len(objs), 'instance')
        n = ch.choose(('needed', 'also'), 'attribute')
        v = ch.choose((None, 'set', 0), 'value')
        op()
        setattr(objs[i], n, v)
        state[(i, n)] = v
        for j, o in enumerate(objs):
            for m in ('needed', 'also'):
                if (j, m) in state:
                    want = state[(j, m)]
                elif m == 'needed' and j in cls:
                    want = cls[j]
                else:
                    same(hasattr(o, m), False, 'a required attribute which nobody gave')
                    try:
                        getattr(o, m)
                        check(False, 'no AttributeError')
                    except AttributeError as e:
                        check(m in str(e), 'the error names the attribute', str(e))
                    continue
                check(getattr(o, m) is want, 'required attribute', j, m, getattr(o, m), want)
        ch.obs(tuple(sorted((k2, repr(v2)) for k2, v2 in state.items())))


DEPTH = 4


def run(ctx):
    global DEPTH
    q = ctx.quick
    DEPTH = 3 if q else 4
    ctx.sweep('values', [(i, j) for i in range(len(VALUES)) for j in range(len(VALUES))], remembered1)
    ctx.sweep('unusual', [(c, i, r) for c in (object, Alike, Answering, Counted) for i in range(len(VALUES))
                           for n in (1, 2, 3, 4) for r in itertools.product((0, 1), repeat=n)], unusual)
    ctx.sweep('errors-first', [(f, v) for f in range(4) for v in range(len(VALUES))], raisingOnce)
    ctx.explore('remembered', remembering, parallel=True)
    ops = [(w, o) for w in (0, 1) for o in ('get', 'set', 'delete')]
    defs = [frozenset(s) for r in range(4) for s in itertools.combinations(('get', 'set', 'delete'), r)]
    ctx.sweep('one-shot', [(d, h) for d in defs for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for h in itertools.product(ops, repeat=n)],
              oneShot, parallel=True)
    places = [('one', 'Thing'), ('two', 'Thing'), ('one', 'Outer.Thing'), ('one', 'f.<locals>.Thing'), ('one', 'Other')]
    ctx.sweep('alike-names', [(a, b, o) for a in places for b in places if a != b
                              for n in (1, 2, 3) for o in itertools.product(('above', 'below'), repeat=n)], alikeNames)
    ctx.explore('overriding', overriding, parallel=True)
    ctx.explore('required', required, parallel=True)
