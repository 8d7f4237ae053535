"""
C25: modal objects behave according to their current mode only.
"""
import itertools

from mc.core import check, same, op, Alike


def make(spec, attr, sub, initial='a', hooks=None):
    """
    A modal class.  spec: {mode: set of methods it defines}; attr: its mode
    attribute; sub: make a subclass of it that defines no modes.
    """
    from epsilon.modal import Modal, mode
    log = []

    def implement(m, meth):
        def f(self, *a, **k):
            log.append((self.tag, m, meth))
            return (m, meth, self, a, tuple(sorted(k.items())))
        f.__name__ = meth
        return f

    def enter(m):
        def __enter__(self):
            log.append((self.tag, m, 'enter', getattr(self, attr)))
            if hooks and ('enter', m) in hooks:
                hooks[('enter', m)](self)
        return __enter__

    def leave(m):
        def __exit__(self):
            log.append((self.tag, m, 'exit', getattr(self, attr)))
            if hooks and ('exit', m) in hooks:
                hooks[('exit', m)](self)
        return __exit__
    attrs = {'initialMode': initial}
    if attr != 'mode':
        attrs['modeAttribute'] = attr
    for m, meths in spec.items():
        d = {meth: implement(m, meth) for meth in meths}
        d['__enter__'] = enter(m)
        d['__exit__'] = leave(m)
        attrs[m] = type(m, (mode,), d)

    def plain(self):
        return ('plain', self)
    attrs['plain'] = plain

    def init(self, tag):
        self.tag = tag
    attrs['__init__'] = init
    attrs['shared'] = 7
    # instances which compare equal are different instances all the same
    for name in ('__eq__', '__ne__', '__hash__', '__bool__'):
        attrs[name] = getattr(Alike, name)
    cls = type(Modal)('Machine', (Modal,), attrs)
    if sub:
        cls = type(Modal)('Child', (cls,), {'more': lambda self: 'more', 'hello': 1})
    return cls, log


def call(o, meth, *a, **k):
    op()
    try:
        return getattr(o, meth)(*a, **k)
    except AttributeError:
        return None


METHODS = ['run', 'stop']


def verify(objs, modes, spec, attr, log):
    for o, m in zip(objs, modes):
        same(getattr(o, attr), m, 'the mode attribute of object %r' % (o.tag,))
        for meth in METHODS:
            del log[:]
            got = call(o, meth, 1, x=2)
            if meth in spec[m]:
                check(got == (m, meth, o, (1,), (('x', 2),)) and got[2] is o, 'object %r in mode %r: %s' % (o.tag, m, meth), got)
                same(log, [(o.tag, m, meth)], 'what ran')
            else:
                check(got is None, 'mode %r does not define %s' % (m, meth), got)
                same(log, [], 'what ran')
        check(o.plain() == ('plain', o) and o.shared == 7, 'what is not modal')
    del log[:]


def histories(case):
    """Every assignment of methods to modes, with all transitions up to a length."""
    defs, attr, sub, initial = case
    modes = 'abc'[:len(defs)]
    spec = {m: d for m, d in zip(modes, defs)}
    cls, log = make(spec, attr, sub, initial)
    n = 0
    for path in itertools.product(modes, repeat=LENGTH):
        o, other = cls('o'), cls('other')
        cur = [initial, initial]
        verify((o, other), cur, spec, attr, log)
        for k, to in enumerate(path):
            op()
            who = 1 if k == 1 else 0
            x = (o, other)[who]
            del log[:]
            x.transitionTo(to)
            same(log, [(x.tag, cur[who], 'exit', cur[who]), (x.tag, to, 'enter', to)], 'the transition from %r to %r' % (cur[who], to))
            cur[who] = to
            verify((o, other), cur, spec, attr, log)
            n += 1
        fresh = cls('fresh')
        verify((fresh,), [initial], spec, attr, log)
    return n


def twoMachines(ch):
    """Two classes with the same mode and method names, different attributes."""
    A, logA = make({'a': {'run'}, 'b': {'run', 'stop'}}, 'mode', False)
    B, logB = make({'a': {'stop'}, 'b': set()}, 'state', True, 'b')
    objs = [A('A'), B('B'), A('A2')]
    specs = [{'a': {'run'}, 'b': {'run', 'stop'}}, {'a': {'stop'}, 'b': set()}, {'a': {'run'}, 'b': {'run', 'stop'}}]
    attrs = ['mode', 'state', 'mode']
    cur = ['a', 'b', 'a']
    for k in range(DEPTH):
        i = ch.choose(3, 'object')
        to = ch.choose(('a', 'b'), 'to')
        op()
        objs[i].transitionTo(to)
        cur[i] = to
        for o, m, s, a, l in zip(objs, cur, specs, attrs, (logA, logB, logA)):
            verify((o,), (m,), s, a, l)
        ch.obs(tuple(cur))


def nested(case):
    """Transitions made from inside enter and exit."""
    where, first, second = case
    hooks = {}
    done = []

    def hook(self):
        if not done:
            done.append(1)
            self.transitionTo(second)
    hooks[('enter', first)] = hook
    cls, log = make({'a': set(), 'b': set(), 'c': set()}, where, False, 'a', hooks)
    o = cls('o')
    op()
    o.transitionTo(first)
    want = [('o', 'a', 'exit', 'a'), ('o', first, 'enter', first), ('o', first, 'exit', first), ('o', second, 'enter', second)]
    same(log, want, 'a transition from inside enter')
    same(getattr(o, where), second, 'mode afterwards')
    return case


def raising(case):
    """An exit that raises leaves the mode as it was; an enter that raises comes after the change."""
    which, attr = case
    hooks = {}

    def boom(self):
        raise ZeroDivisionError()
    hooks[(which, 'a' if which == 'exit' else 'b')] = boom
    cls, log = make({'a': {'run'}, 'b': {'stop'}}, attr, False, 'a', hooks)
    o = cls('o')
    try:
        o.transitionTo('b')
        check(False, 'the error disappeared')
    except ZeroDivisionError:
        pass
    op()
    same(getattr(o, attr), 'a' if which == 'exit' else 'b', 'mode after %s raised' % which)
    same(len(log), 1 if which == 'exit' else 2, 'what ran')
    return case


def base(case):
    """A modal class without any declaration begins in the default mode and can leave it."""
    from epsilon.modal import Modal, mode

    class M(Modal):
        class other(mode):
            def __enter__(self):
                self.entered = True

            def __exit__(self):
                pass

            def f(self):
                return 5
    m = Modal()
    same(m.mode, 'nil', 'initial mode')
    m.transitionTo('nil')
    same(m.mode, 'nil', 'mode')
    op(2)
    m = M()
    same(m.mode, 'nil', 'initial mode')
    same(call(m, 'f'), None, 'a method of another mode')
    m.transitionTo('other')
    same((m.mode, m.entered, m.f()), ('other', True, 5), 'a declared mode')
    m.transitionTo('nil')
    same((m.mode, call(m, 'f')), ('nil', None), 'back in the initial mode')
    return case


def inherited(case):
    """
    Modes spread over classes: the base class's modes, those a subclass adds,
    and modes derived from other modes; any of enter, exit and a method may be
    defined by the mode, by the mode it derives from, or by nobody.
    """
    from epsilon.modal import Modal, mode
    defs, attr, derive, second = case
    log = []

    def body(m, names):
        d = {}
        for name in names:
            def f(self, m=m, name=name):
                log.append((self.tag, m, name, getattr(self, attr)))
                return (m, name)
            d[name] = f
        return d

    names = 'abcd'
    modes, what = {}, {}
    for m, names_ in zip(names, defs):
        parent = mode
        what[m] = {n: m for n in names_}
        if m == derive[0]:
            parent = modes[derive[1]]
            what[m] = dict(what[derive[1]], **what[m])
        modes[m] = type(m, (parent,), body(m, names_))
    attrs = {'initialMode': 'a'}
    if attr != 'mode':
        attrs['modeAttribute'] = attr
    n = len(defs)
    first = [m for m in names[:n] if m not in second]
    attrs.update((m, modes[m]) for m in first)
    Base = type(Modal)('Base', (Modal,), attrs)
    Sub = type(Modal)('Sub', (Base,), {m: modes[m] for m in names[:n] if m in second})
    Leaf = type(Modal)('Leaf', (Sub,), {})
    for cls, there in ((Base, first), (Sub, names[:n]), (Leaf, names[:n])):
        o, idle = cls(), cls()
        o.tag, idle.tag = 'o', 'idle'
        cur = 'a'
        for path in PATHS:
            for to in path:
                if to not in there:
                    continue
                op()
                del log[:]
                o.transitionTo(to)
                want = []
                if '__exit__' in what[cur]:
                    want.append(('o', what[cur]['__exit__'], '__exit__', cur))
                if '__enter__' in what[to]:
                    want.append(('o', what[to]['__enter__'], '__enter__', to))
                check(log == want, 'the transition from %r to %r' % (cur, to), cls.__name__, case, log, want)
                cur = to
                for x, m in ((o, cur), (idle, 'a')):
                    got = call(x, 'run')
                    check(got == ((what[m]['run'], 'run') if 'run' in what[m] else None), 'in mode %r' % m, cls.__name__, case, got)
                    check(getattr(x, attr) == m, 'mode', case)
    return case


def assigned(ch):
    """The mode attribute may be assigned directly, inside and outside of modal methods."""
    from epsilon.modal import Modal, mode
    log = []

    class M(Modal):
        initialMode = 'a'

        class a(mode):
            'The first mode.'
            def run(self, to):
                self.mode = to
                return ('a', self.mode)

        class b(mode):
            def run(self, to):
                self.transitionTo(to)
                return ('b', self.mode)

            def __enter__(self):
                log.append('enter b')

        class c(mode):
            def __exit__(self):
                log.append('exit c')
    objs = [M(), M()]
    cur = ['a', 'a']
    for k in range(4):
        i = ch.choose(2, 'object')
        how = ch.choose(('assign', 'run'), 'how')
        to = ch.choose('abc', 'to')
        op()
        del log[:]
        want = []
        if how == 'assign':
            objs[i].mode = to
        else:
            got = call(objs[i], 'run', to)
            m = cur[i]
            if m == 'c':
                check(got is None, 'a method the mode does not define', got)
                to = m
            else:
                check(got == (m, to), 'result', got)
                if m == 'b' and to == 'b':
                    want = ['enter b']
        same(log, want, 'what ran')
        cur[i] = to
        same([o.mode for o in objs], cur, 'modes')
        ch.obs(tuple(cur))


def edges(case):
    """
    What a modal method is where there is no mode to select it by, and a method
    of the same name which is not modal.
    """
    from epsilon.modal import Modal, ModalType, mode
    kind, attr, levels = case
    meta = type(Modal)
    m = type('a', (mode,), {'run': lambda self: ('a', 'run')})
    attrs = {'initialMode': 'a', 'a': m}
    if attr != 'mode':
        attrs['modeAttribute'] = attr

    def refuses(f, error):
        op()
        try:
            got = f()
        except error:
            return
        check(False, 'was to raise %s' % error.__name__, case, got)

    def below(cls):
        for k in range(levels):
            cls = meta('Below%d' % k, (cls,), {})
        return cls
    if kind == 'class':
        cls = below(meta('M', (Modal,), attrs))
        refuses(lambda: cls.run, AttributeError)
        check(not hasattr(cls, 'run'), 'a modal method of a class')
        same(cls().run(), ('a', 'run'), 'result')
    elif kind == 'unknown':
        cls = below(meta('M', (Modal,), attrs))
        for bad in ('b', '', None, 'run', 0, ('a',)):
            o, other = cls(), cls()
            setattr(o, attr, bad)
            refuses(lambda: o.run, AttributeError)
            check(not hasattr(o, 'run'), 'a modal method in an unknown mode')
            same(other.run(), ('a', 'run'), 'the other instance')
            setattr(o, attr, 'a')
            same(o.run(), ('a', 'run'), 'back in its mode')
    elif kind == 'missing':
        # the metaclass alone, its mode attribute taken away
        cls = below(meta('M', (object,), dict(attrs, modeAttribute=attr)))
        o = cls()
        same((getattr(o, attr), o.run()), ('a', ('a', 'run')), 'initial mode')
        for c in cls.__mro__:
            if attr in c.__dict__:
                delattr(c, attr)
        if not hasattr(o, attr):
            refuses(lambda: o.run, AttributeError)
        setattr(o, attr, 'a')
        same(o.run(), ('a', 'run'), 'with a mode of its own')
    elif kind == 'undeclared':
        for gone in ('modeAttribute', 'initialMode'):
            d = dict(attrs, modeAttribute=attr)
            del d[gone]
            for bases in ((object,), (dict,), (type('Plain', (object,), {}),), (type('One', (object,), {}), type('Two', (object,), {}))):
                refuses(lambda: meta('M', bases, d), TypeError)
    elif kind == 'mixed':
        # declared by the second base only, or by a base's base
        mix = type('Mix', (object,), {'modeAttribute': attr})
        mix2 = type('Mix2', (mix,), {'initialMode': 'a'})
        other = type('Other', (object,), {})
        for bases in ((mix2,), (other, mix2), (mix2, other), (type('Mix3', (mix2,), {}), other)):
            cls = below(meta('M', bases, {'a': m}))
            o = cls()
            same((getattr(o, attr), o.run()), ('a', ('a', 'run')), 'initial mode')
            same(cls.initialMode, 'a', 'declared initial mode')
    elif kind == 'plain':
        # an ordinary method of that name in a base class: the modes replace it
        plain = type('Plain', (object,), {'run': lambda self: 'plain', 'stop': lambda self: 'plain stop'})
        base = meta('Base', (Modal, plain), dict(attrs, a=type('a', (mode,), {})))
        o = base()
        same(o.run(), 'plain', 'an ordinary method')
        sub = below(meta('Sub', (base,), {'b': type('b', (mode,), {'run': lambda self: ('b', 'run')})}))
        o = sub()
        same(o.stop(), 'plain stop', 'an ordinary method')
        refuses(lambda: o.run, AttributeError)
        o.transitionTo('b')
        same((o.run(), o.stop()), (('b', 'run'), 'plain stop'), 'in the mode')
    elif kind == 'hidden':
        # an ordinary method of a subclass hides the modal one; modes of its subclass do not bring it back
        base = meta('Base', (Modal,), attrs)
        mid = meta('Mid', (base,), {'run': lambda self: 'plain'})
        same(mid().run(), 'plain', 'an ordinary method')
        same(base().run(), ('a', 'run'), 'the modal method')
        o = below(meta('Sub', (mid,), {'b': type('b', (mode,), {'run': lambda self: ('b', 'run')})}))()
        o.transitionTo('b')
        same(o.run(), ('b', 'run'), 'in the mode')
    return case


def several(case):
    """
    A class of several modal bases has the modes of all of them; what is common
    to them it has from the first.
    """
    from epsilon.modal import Modal, mode
    defs, order, attrs, own, shape = case
    meta = type(Modal)
    log = []

    def body(m, names):
        d = {}
        for name in names:
            def f(self, m=m, name=name):
                log.append((m, name))
                return (m, name)
            d[name] = f
        return d
    what = {m: names for m, names in zip('abc', defs)}
    modes = {m: type(m, (mode,), body(m, names)) for m, names in what.items()}
    root = Modal
    if shape == 'diamond':
        root = meta('Root', (Modal,), {'initialMode': 'r', 'r': type('r', (mode,), body('r', ('run', '__exit__')))})
        what['r'] = ('run', '__exit__')
    bases = {}
    for m, attr in zip('ab', attrs):
        d = {m: modes[m]}
        if shape != 'diamond' or m == 'b':
            d['initialMode'] = m
        if attr != 'mode':
            d['modeAttribute'] = attr
        bases[m] = meta(m.upper(), (root,), d)
    if shape == 'deep':
        bases = {m: meta('Below' + m, (b,), {}) for m, b in bases.items()}
    d = {}
    there = 'ab' + ('r' if shape == 'diamond' else '')
    if own:
        d['c'] = modes['c']
        there += 'c'
    cls = meta('Both', tuple(bases[m] for m in order), d)
    if shape == 'leaf':
        cls = meta('Leaf', (cls,), {})
    attr = cls.modeAttribute
    if attrs[0] == attrs[1]:
        same(attr, attrs[0], 'mode attribute')
    initial = order[0] if shape != 'diamond' or order[0] == 'b' else 'r'
    for path in itertools.product(there, repeat=3):
        o, idle = cls(), cls()
        cur = initial
        for to in path:
            op()
            del log[:]
            o.transitionTo(to)
            want = [(m, n) for m, n in ((cur, '__exit__'), (to, '__enter__')) if n in what[m]]
            check(log == want, 'the transition from %r to %r' % (cur, to), case, log, want)
            cur = to
            for x, m in ((o, cur), (idle, initial)):
                got = call(x, 'run')
                check(got == ((m, 'run') if 'run' in what[m] else None), 'in mode %r' % m, case, got)
                check(getattr(x, attr) == m, 'mode', case)
    # the bases are as they were
    for m, b in bases.items():
        o = b()
        if shape == 'diamond' and m == 'a':
            o.transitionTo('a')
        got = call(o, 'run')
        check(got == ((m, 'run') if 'run' in what[m] else None), 'a base', case, got)
    return case


PATHS = ['abab', 'acbc', 'caad', 'bdda', 'dcdb']
NAMES = [{'a': '', 'b': 'nil', 'c': 'x y'}, {'a': 'run', 'b': 'mode', 'c': 'stop'}, {'a': 'None', 'b': u'\u00e9', 'c': '0'},
         {'a': 'b', 'b': '', 'c': 'a'}]


def oddNames(case):
    """Modes of any name."""
    names, attr, defs = case
    spec = {names[m]: d for m, d in zip('abc', defs)}
    if attr in spec or set(spec) & {'run', 'stop'}:
        # a mode is an attribute of its class as well: only names without methods or attribute of that name
        spec = {k + '_': v for k, v in spec.items()}
    first = list(spec)[0]
    cls, log = make(spec, attr, False, first)
    for path in itertools.product(spec, repeat=2):
        o = cls('o')
        cur = first
        for to in path:
            del log[:]
            o.transitionTo(to)
            same(log, [('o', cur, 'exit', cur), ('o', to, 'enter', to)], 'the transition from %r to %r' % (cur, to))
            cur = to
            verify((o,), [cur], spec, attr, log)
    return case


LENGTH = 3
DEPTH = 4


def run(ctx):
    global LENGTH, DEPTH
    ctx.assumptions += ['a mode is defined once along a chain of classes (redefining one in a subclass is not specified), transitions go to modes that exist']
    q = ctx.quick
    LENGTH = 4 if q else 6
    DEPTH = 5 if q else 6
    subsets = [frozenset(s) for r in range(3) for s in itertools.combinations(METHODS, r)]
    cases = []
    for k in (2, 3):
        for defs in itertools.product(subsets, repeat=k):
            for attr in ('mode', 'state', '_m'):
                for sub in (False, True):
                    for initial in 'abc'[:k]:
                        if k == 3 and q and attr == '_m':
                            continue
                        cases.append((defs, attr, sub, initial))
    ctx.sweep('histories', cases, histories, parallel=True)
    ctx.explore('two-machines', twoMachines, parallel=True)
    ctx.sweep('nested', [(w, f, s) for w in ('mode', 'state') for f in 'abc' for s in 'abc'], nested)
    ctx.sweep('raising', [(w, a) for w in ('enter', 'exit') for a in ('mode', 'state')], raising)
    ctx.sweep('base', [0], base)
    ctx.explore('assigned', assigned, parallel=True)
    ctx.sweep('odd-names', [(n, a, d) for n in NAMES for a in ('mode', 'state') for d in itertools.product(subsets, repeat=3)], oddNames,
              parallel=True)
    parts = ['__enter__', '__exit__', 'run']
    all_ = [tuple(p for p, b in zip(parts, bits) if b) for bits in itertools.product((0, 1), repeat=3)]
    some = all_ if not q else [(), ('run',), ('__enter__', 'run'), ('__exit__',)]
    cases = [(d, a, der, sec) for d in itertools.product(all_, some, some) for a in ('mode', 'state')
             for der in (('', ''), ('b', 'a'), ('c', 'a'), ('c', 'b')) for sec in ('', 'b', 'c', 'bc')]
    if not q:
        cases += [(d, 'mode', der, sec) for d in itertools.product(all_[1:], some, some, all_) for der in (('', ''), ('d', 'b')) for sec in ('bd', 'd', 'cd')]
    ctx.sweep('inherited', cases, inherited, parallel=True)
    ctx.sweep('several', [(d, o, a, w, sh) for d in itertools.product(all_ if not q else some[:3] + [tuple(parts)], all_[1:] if not q else [('run',), tuple(parts)], [('run',), ()])
                          for o in ('ab', 'ba') for a in (('mode', 'mode'), ('st', 'st'), ('mode', 'st'), ('st', 'mode'))
                          for w in (False, True) for sh in ('', 'leaf', 'deep', 'diamond')], several, parallel=True)
    ctx.sweep('edges', [(k, a, n) for k in ('class', 'unknown', 'missing', 'undeclared', 'mixed', 'plain', 'hidden') for a in ('mode', 'state') for n in range(3)], edges)
