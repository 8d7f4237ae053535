"""
C24: only methods exposed under a key can be obtained through that exposer.
"""
import itertools

from mc.core import check, same, op, Alike

KEYS = ['k1', 'k2', 'm', 'n', 'zzz', ('t', 1), None]
OPTIONS = ['-', 'plain', 'E1:k1', 'E1:k2', 'E2:k1', 'E1:k1+k2', 'E1:', 'none']


class World(object):
    """Two exposers and a record of what was exposed."""

    def __init__(self):
        from epsilon.expose import Exposer
        self.E = {'E1': Exposer('one'), 'E2': Exposer('two')}
        self.exposed = {}         # (exposer, key) -> functions
        self.serial = 0

    def function(self, name, option):
        """An attribute for a class body, or nothing."""
        if option == '-':
            return False, None
        if option == 'none':
            return True, None
        self.serial += 1
        tag = self.serial

        def f(self):
            return (tag, self)
        f.__name__ = name
        if option != 'plain':
            e, _, keys = option.partition(':')
            for k in keys.split('+'):
                k = k or None
                r = self.E[e].expose(k)(f) if k is not None else self.E[e].expose()(f)
                check(r is f, 'exposing returned something else')
                self.exposed.setdefault((e, k or name), []).append(f)
        return True, f

    def make(self, clsname, bases, spec):
        d = {}
        for name, option in spec:
            there, v = self.function(name, option)
            if there:
                d[name] = v
        return type(clsname, bases, d)

    def judge(self, obj, e, key):
        """
        (may, must): the functions that may be returned for a key, and the ones
        of which one has to be returned (empty: refusal is right or allowed).
        """
        cls = type(obj)
        right = self.exposed.get((e, key), [])
        used = {}
        for c in reversed(cls.__mro__):
            used.update(c.__dict__)
        may = [f for f in right if any(v is f for v in used.values())]
        must = []
        for c in cls.__mro__:
            here = [(n, v) for n, v in c.__dict__.items() if any(v is f for f in right)]
            if here:
                if all(used[n] is v for n, v in here):
                    must = [v for n, v in here]
                break
        return may, must

    def check(self, obj, what):
        from epsilon.expose import MethodNotExposed
        out = []
        for e in ('E1', 'E2'):
            for key in KEYS:
                op()
                may, must = self.judge(obj, e, key)
                try:
                    m = self.E[e].get(obj, key)
                except MethodNotExposed:
                    if must:
                        check(False, 'an exposed method was refused', what, e, key)
                    out.append(0)
                    continue
                f = getattr(m, '__func__', None)
                if not any(f is x for x in may):
                    check(False, 'got a method which is not exposed under that key, or is overridden', what, e, key, m)
                if must and not any(f is x for x in must):
                    check(False, 'got a method of a base class instead of the most specific one', what, e, key, m)
                if m.__self__ is not obj:
                    check(False, 'got a method of another object', what, e, key)
                check(m() == f(obj) and m()[1] is obj, 'calling it', what)
                out.append(1)
        return tuple(out)


def chain(case):
    """Three classes in a row, two names; all ways to define and expose them."""
    specs = case
    w = World()
    cls = Alike
    seen = []
    classes = []
    for i, (om, on) in enumerate(specs):
        cls = w.make('C%d' % i, (cls,), [('m', om), ('n', on)])
        classes.append(cls)
    for c in classes:
        for o in (c(), c()):
            r = w.check(o, (c.__name__, specs))
        seen.append(r)
    # an object of no such class, and an instance attribute of that name
    o = classes[-1]()
    o.k1 = o.m = o.n = lambda: 'no'
    w.check(o, ('instance attributes', specs))

    class Other(object):
        def m(self):
            pass

        def k1(self):
            pass
    w.check(Other(), ('an unrelated class', specs))
    return tuple(seen)


def diamond(case):
    specs = case
    w = World()
    A = w.make('A', (object,), [('m', specs[0]), ('n', specs[1])])
    B = w.make('B', (A,), [('m', specs[2])])
    C = w.make('C', (A,), [('m', specs[3]), ('n', specs[4])])
    D = w.make('D', (B, C), [('n', specs[5])])
    return tuple(w.check(c(), (c.__name__, specs)) for c in (D, A, B, C))


def hierarchies(n):
    """All ways for n classes to have up to two of the earlier ones as bases."""
    per = []
    for i in range(n):
        opts = [()] + [(j,) for j in range(i)] + list(itertools.permutations(range(i), 2))
        per.append(opts)
    out = []
    for bases in itertools.product(*per):
        classes = []
        try:
            for b in bases:
                classes.append(type('X', tuple(classes[j] for j in b) or (object,), {}))
        except TypeError:
            continue          # no such class can exist
        out.append(bases)
    return out


def hierarchy(case):
    """One or two names defined anywhere in a hierarchy of classes."""
    bases, opts = case
    out = []
    for spec in itertools.product(opts, repeat=len(bases)):
        w = World()
        classes = []
        for i, (b, o) in enumerate(zip(bases, spec)):
            classes.append(w.make('C%d' % i, tuple(classes[j] for j in b) or (object,), [('m', o)]))
        out.append(w.check(classes[-1](), (bases, spec)))
    return tuple(sorted(set(out)))


def dynamic(ch):
    """Histories: exposing, overriding, defining and removing as the program runs."""
    w = World()
    A = w.make('A', (object,), [('m', 'E1:k1')])
    B = w.make('B', (A,), [])
    objs = [A(), B()]
    for k in range(DEPTH):
        c = ch.choose((A, B), 'class')
        name = ch.choose(('m', 'n'), 'name')
        how = ch.choose(['plain', 'E1:k1', 'E2:k1', 'E1:', 'delete', 'alias'], 'how')
        op()
        if how == 'delete':
            if name in c.__dict__:
                delattr(c, name)
        elif how == 'alias':
            if 'm' in A.__dict__:
                setattr(c, name, A.__dict__['m'])
        else:
            setattr(c, name, w.function(name, how)[1])
        seen = tuple(w.check(o, (type(o).__name__, k)) for o in objs)
        ch.obs(seen)


def names(case):
    """Anything without a name of its own needs a key."""
    from epsilon.expose import Exposer, NameRequired, MethodNotExposed
    i, key = case
    e = Exposer('doc')
    check(e.__doc__ == 'doc', 'documentation')
    thing = THINGS[i]
    op()
    try:
        got = e.expose(key)(thing)
    except NameRequired:
        check(key is None, 'a key was given')
        try:
            e.get(Holder(), None)
            check(False, 'something was exposed under None')
        except MethodNotExposed:
            pass
        return 'refused'
    check(key is not None, 'a nameless thing was exposed without a key')
    check(got is thing, 'exposing returned something else')
    cls = type('T', (object,), {'it': thing})
    o = cls()
    m = e.get(o, key)
    same(m, thing.__get__(o, cls), 'the thing exposed')
    for k in ('it', 'other', None, str(key), repr(key), str(key).encode(), (key,), 0, b'key'):
        if k != key:
            try:
                e.get(o, k)
                check(False, 'found under another key', k)
            except MethodNotExposed:
                pass
    return 'exposed'


class Holder(object):
    it = None


class Desc(object):
    def __get__(self, o, t):
        return ('desc', o, t)

    def __call__(self):
        pass


THINGS = [Desc(), classmethod(lambda c: c), property(lambda s: 3), staticmethod(len)]
DEPTH = 3


class Likeness(object):
    """Something like a method, equal to everything else of its kind."""
    def __init__(self, tag, func=None):
        self.tag, self.func = tag, func

    def __get__(self, o, t=None):
        return (self.tag, o, t)

    def __eq__(self, other):
        return isinstance(other, (Likeness, Alike))

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


def likenesses(case):
    """
    Method-like objects which are all equal, in three classes, each exposed
    under one of two keys or not at all; only the ones exposed are found.
    """
    from epsilon.expose import Exposer, MethodNotExposed
    shape, hows, order = case
    e = Exposer('doc')
    things = [Likeness(i) for i in range(4)]
    for i in order:
        if hows[i]:
            op()
            check(e.expose(hows[i])(things[i]) is things[i], 'exposing returned something else')
    A = type('A', (Alike,), {'x': things[0], 'y': things[1]})
    B = type('B', (A,) if shape else (Alike,), {'y' if shape == 2 else 'x': things[2]})
    C = type('C', (Alike,), {'z': things[3], 'alike': Alike()})
    out = []
    for cls in (A, B, C):
        o = cls()
        used = {}
        for c in reversed(cls.__mro__):
            used.update((n, v) for n, v in c.__dict__.items() if isinstance(v, Likeness))
        for key in ('k', 'l'):
            may = [t for t in used.values() if hows[t.tag] == key]
            hidden = [t for c in cls.__mro__ for t in c.__dict__.values() if isinstance(t, Likeness) and hows[t.tag] == key
                      and not any(t is u for u in used.values())]
            op()
            try:
                got = e.get(o, key)
            except MethodNotExposed:
                check(not may or hidden, 'an exposed method-like object was refused', case, cls.__name__, key)
                out.append(0)
            else:
                check(any(got[0] == t.tag for t in may), 'got something which is not exposed under that key, or is overridden', case,
                      cls.__name__, key, got)
                check(got[1] is o and got[2] is cls, 'bound to something else', got)
                out.append(1)
    return tuple(out)


def run(ctx):
    global DEPTH
    ctx.assumptions += ['where several functions of one class share a key and one of them is overridden, either refusal or a method that '
                        'is still in use is right']
    q = ctx.quick
    DEPTH = 3 if q else 4
    O = OPTIONS
    one = list(itertools.product(O, O))
    ctx.sweep('one-class', [(a,) for a in one], chain)
    ctx.sweep('two-classes', [(a, b) for a in one for b in one], chain, parallel=True)
    few = ['-', 'plain', 'E1:k1', 'E1:', 'none']
    ctx.sweep('three-classes', [(a, b, c) for a in itertools.product(few[:4], few[:3]) for b in itertools.product(few, few[:3])
                                for c in itertools.product(few, few[:3])], chain, parallel=True)
    opt = ['-', 'plain', 'E1:k1', 'E1:k2', 'none'] if q else O
    ctx.sweep('diamond', list(itertools.product(opt[2:] + ['-'], opt[:3], opt, opt, opt[:3], opt[:3])), diamond, parallel=True)
    ctx.sweep('hierarchies', [(b, ('-', 'plain', 'E1:k1')) for b in hierarchies(4)] +
              ([] if q else [(b, ('-', 'plain', 'E1:k1')) for b in hierarchies(5)] + [(b, O) for b in hierarchies(4)]), hierarchy, parallel=True)
    ctx.explore('dynamic', dynamic, parallel=True)
    ctx.sweep('likenesses', [(s, h, o) for s in range(3) for h in itertools.product((None, 'k', 'l'), repeat=4)
                             for o in ((0, 1, 2, 3), (3, 2, 1, 0))], likenesses)
    ctx.sweep('names', [(i, k) for i in range(len(THINGS)) for k in (None, 'key', ('t', 1), 0, '0', 'None', "b'key'")], names)
