"""
C21: record classes construct exactly like the equivalent Python function.
"""
import itertools

from mc.core import check, same, op


class Sentinel(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


D = {}


def reference(names, defaults):
    """The Python function with these parameters, or None if there is no such function."""
    src = 'def f(%s): return dict(locals())' % ', '.join(
        n + ('=D[%r]' % n if n in defaults else '') for n in names)
    ns = {'D': defaults}
    try:
        exec(src, ns)
    except SyntaxError:
        return None
    return ns['f']


def attempt(f, a, k):
    try:
        return f(*a, **k)
    except TypeError:
        return None


def values(obj, names):
    return {n: getattr(obj, n) for n in names}


def sameValues(got, want):
    return set(got) == set(want) and all(got[k] is want[k] for k in want)


def declare(names, defaults, form):
    """Declare a record in one of the spellings; returns the class or None."""
    from epsilon.structlike import record
    op()
    d = dict(defaults)
    try:
        if form == 'kw':
            r = record(**d)
        else:
            r = record(form.join(names) if form in (' ', '  ', '\n', ' \t') else form % ' '.join(names), **d)
    except TypeError:
        r = None
    same(d, defaults, 'the defaults given')
    return r


def calls(names):
    """All calls: positional count, keyword subset (with an unknown one)."""
    pool = list(names)
    for extra in ('z', 'zz'):
        if extra not in pool:
            pool.append(extra)
            break
    # one the class has an attribute by the name of
    pool.append(HAS[len(names) % len(HAS)])
    out = []
    for npos in range(len(names) + 2):
        for r in range(len(pool) + 1):
            for ks in itertools.combinations(pool, r):
                out.append((npos, ks))
    return out


def construct(case):
    names, dn, form = case
    defaults = {n: D[n] for n in dn}
    f = reference(names, defaults)
    cls = declare(names, defaults, form)
    if f is None or any(n not in names for n in dn):
        check(cls is None, 'an illegal declaration was accepted', names, dn)
        return 'illegal'
    check(cls is not None, 'a legal declaration was refused', names, dn)

    class Sub(cls):
        extra = 1

    # one whose class has attributes (and methods) named like the parameters
    Shadow = type('Shadow', (cls,), dict([(x, Sentinel('class-' + x)) for x in names[::2]] + [(x, lambda self: 1) for x in names[1::2]]))

    # one which looks at what is assigned to its attributes
    def checked(x):
        def get(self):
            return self.seen[x]

        def set(self, value):
            self.__dict__.setdefault('seen', {})[x] = value
        return property(get, set)
    Checked = type('Checked', (cls,), dict([(x, checked(x)) for x in names]))

    class Mixin(object):
        def __init__(self):
            self.mixed = True

    class Mixed(cls, Mixin):
        pass
    n = 0
    for npos, ks in calls(names):
        a = tuple(Sentinel('p%d' % i) for i in range(npos))
        k = {x: Sentinel('k' + x) for x in ks}
        want = attempt(f, a, k)
        k0 = dict(k)
        for c in (cls, Sub, Shadow, Mixed, Checked):
            op()
            got = attempt(c, a, k)
            same(k, k0, 'the arguments given')
            if want is None:
                check(got is None, 'a call was accepted which the function refuses', names, dn, npos, ks)
                continue
            check(got is not None, 'a call was refused which the function accepts', names, dn, npos, ks)
            check(type(got) is c, 'type of the instance', got)
            v = values(got, names)
            check(sameValues(v, want), 'attributes', names, dn, npos, ks, v, want)
            same(set(vars(got)) - set(names), {'mixed'} if c is Mixed else {'seen'} if c is Checked and names else set(), 'attributes other than the declared ones')
            n += 1
    return names, dn, n


def wide(case):
    """Many fields: so many positional, the rest by keyword, one more or one less."""
    n, nd, npos = case
    names = tuple('f%d' % i for i in range(n))
    defaults = {x: Sentinel('default-' + x) for x in names[n - nd:]}
    f = reference(names, defaults)
    cls = declare(names, defaults, ' ')
    check(cls is not None, 'a legal declaration was refused', names, nd)
    a = tuple(Sentinel('p%d' % i) for i in range(npos))
    rest = names[npos:]
    sets = [(), rest, rest[:-1], rest[1:], tuple(reversed(rest)), rest[:max(0, len(rest) - nd)], rest + ('other',), names[:1] + rest, names[npos - 1:]]
    for ks in sets:
        op()
        k = {x: Sentinel('k' + x) for x in ks}
        want = attempt(f, a, k)
        got = attempt(cls, a, k)
        check((got is None) == (want is None), 'acceptance', n, nd, npos, ks)
        if want is not None:
            check(sameValues(values(got, names), want), 'attributes', n, nd, npos, ks)
    return case


def keywordOnly(case):
    """Declared by defaults alone: the parameters are in alphabetical order."""
    dn = case
    defaults = {n: D[n] for n in dn}
    names = tuple(sorted(dn))
    cls = declare(names, defaults, 'kw')
    if not names:
        check(cls is None, 'a record with no attributes')
        return 'none'
    f = reference(names, defaults)
    check(cls is not None, 'a legal declaration was refused', dn)
    for npos, ks in calls(names):
        a = tuple(Sentinel('p%d' % i) for i in range(npos))
        k = {x: Sentinel('k' + x) for x in ks}
        want = attempt(f, a, k)
        got = attempt(cls, a, k)
        op()
        check((got is None) == (want is None), 'acceptance', dn, npos, ks)
        if want is not None:
            check(sameValues(values(got, names), want), 'attributes', dn, npos, ks, values(got, names), want)
    return dn


def badDeclarations(case):
    from epsilon.structlike import record
    a, k = case
    op()
    try:
        r = record(*a, **k)
    except TypeError:
        return 'refused'
    check(False, 'an illegal declaration was accepted', a, k, r)


def declarations(case):
    """Every choice of which names have which defaults."""
    from epsilon.structlike import record
    given, extra = case
    names = 'abcd'[:len(given)]
    d = {n: v for n, v in zip(names, given) if v is not NONE}
    if extra:
        d[extra] = None
    has = [v is not NONE for v in given]
    legal = has == sorted(has) and not extra
    op()
    try:
        cls = record(' '.join(names), **d)
    except TypeError:
        check(not legal, 'a legal declaration was refused', case)
        return 'refused'
    check(legal, 'an illegal declaration was accepted', case)
    need = has.count(False)
    x = cls(*range(need))
    for k, n in enumerate(names):
        check(getattr(x, n) is given[k] if has[k] else getattr(x, n) == k, 'value of %s' % n, case)
    return 'accepted'


NONE = ('none',)


def defaultsKinds(case):
    """Every kind of default value is a default."""
    from epsilon.structlike import record
    i, form = case
    v = KINDS[i]
    cls = record('a b', b=v) if form else record(b=v)
    x = cls(1) if form else cls()
    check(x.b is v, 'default', x.b, v)
    y = cls(a=1, b=None) if form else cls(b=None)
    check(y.b is None, 'given', y.b)
    check((cls(1) if form else cls()).b is v, 'default after an explicit value')
    return i


def independent(ch):
    """Histories of declarations, constructions and changes."""
    from epsilon.structlike import record
    live = []                 # (object, expected dict)
    classes = []              # (class, names, defaults)
    for k in range(DEPTH):
        acts = ['declare'] if len(classes) < 3 else []
        acts += [('make', i, how) for i in range(len(classes)) for how in ('default', 'args', 'fail')]
        acts += [('set', i) for i in range(len(live))][:3]
        if len(classes) > 1:
            acts.append('mark')
        a = ch.choose(acts, 'do')
        op()
        if a == 'declare':
            which = ch.choose(3, 'shape')
            # equal declarations, too, make classes of their own
            v = ONE if ch.flag('a default used before') else Sentinel('d%d' % k)
            if which == 0:
                c, names, d = record('a b', b=v), ('a', 'b'), {'b': v}
            elif which == 1:
                c, names, d = record(a=v, b=v), ('a', 'b'), {'a': v, 'b': v}
            else:
                base = classes[0] if classes else (record('a b', b=v), ('a', 'b'), {'b': v})
                c, names, d = type('Child', (base[0],), {}), base[1], base[2]
            classes.append((c, names, d))
        elif a == 'mark':
            c = classes[-1][0]
            c.a, c.mark = Sentinel('class a'), k
            for c2, names, d in classes[:-1]:
                check(not hasattr(c2, 'mark'), 'an attribute of one class shows on another')
            del c.a, c.mark
        elif a[0] == 'make':
            c, names, d = classes[a[1]]
            if a[2] == 'fail':
                try:
                    c(1, 2, 3)
                    check(False, 'too many arguments were accepted')
                except TypeError:
                    pass
                try:
                    c(1, a=2)
                    check(False, 'a duplicate argument was accepted')
                except TypeError:
                    pass
            else:
                vals = {n: Sentinel('v%d%s' % (k, n)) for n in names if a[2] == 'args' or n not in d}
                o = c(**vals)
                e = dict(d)
                e.update(vals)
                live.append((o, e))
        else:
            o, e = live[a[1]]
            v = Sentinel('s%d' % k)
            o.b = v
            e['b'] = v
        for o, e in live:
            check(sameValues(values(o, ('a', 'b')), e), 'attributes', values(o, ('a', 'b')), e)
    ch.obs(([len(live)], [sorted(x.name for x in e.values()) for o, e in live]))


HAS = ['extra', '__repr__', '__doc__', '__names__', '__defaults__', '__class__']
KINDS = [None, 0, False, '', (), [], {}, object(), NotImplemented, Ellipsis, 1.5, lambda: 1, int]
DEPTH = 4
ONE = Sentinel('one')


def run(ctx):
    global DEPTH
    ctx.assumptions += ['attribute names are identifiers other than self and names with special meaning to classes']
    q = ctx.quick
    DEPTH = 4 if q else 5
    for n in ('a', 'b', 'c', 'd', 'e', 'x', 'z', 'zz', 'args', 'kw', 'n', 'v'):
        D[n] = Sentinel('default-' + n)
    lists = [()] + [t for k in (1, 2, 3) for t in itertools.product(('a', 'b', 'c'), repeat=k)]
    lists += [('a', 'b', 'c', 'd'), ('d', 'c', 'b', 'a'), ('args', 'kw'), ('kw', 'args', 'n'), ('n', 'v'), ('b', 'a', 'b', 'c')]
    if not q:
        lists += [t for t in itertools.permutations(('a', 'b', 'c', 'd'))] + [('a', 'b', 'c', 'd', 'e')]
    cases = []
    for names in lists:
        pool = sorted(set(names)) + ['x']
        for r in range(len(pool) + 1):
            for dn in itertools.combinations(pool, r):
                for form in (' ', '\n'):
                    cases.append((names, dn, form))
    cases += [(('a', 'b', 'c'), ('c',), f) for f in ('  ', ' \t', ' %s', '%s ', '\n%s\t')]
    ctx.sweep('construct', cases, construct, parallel=True)
    ctx.sweep('wide', [(n, nd, p) for n in (5, 6, 7, 8, 9, 10, 11, 12, 17, 33) + (() if q else (65, 129, 257)) for nd in sorted(set([0, 1, 2, n // 2, n - 1, n]))
                       for p in range(n + 2)], wide, parallel=True)
    ctx.sweep('by-defaults', [s for r in range(5) for s in itertools.permutations(('a', 'b', 'c', 'd'), r)], keywordOnly)
    ctx.sweep('bad-declarations', [(('a', 'b'), {}), (('a b', 'c d'), {}), (('a b', 'c'), {'c': 1}), ((), {}), (('a b',), {'a': 1}),
                                   (('a b c',), {'b': 1}), (('a b c',), {'a': 1, 'c': 1}), (('a',), {'x': 1}), (('a b',), {'b': 1, 'x': 2}),
                                   (('',), {'x': 1}), (('a a',), {}), (('a b a',), {})], badDeclarations)
    ctx.sweep('declarations', [(g, e) for n in range(1, 5) for g in itertools.product((NONE, None, 0, (), 'x'), repeat=n) for e in ('', 'z', 'A')], declarations)
    ctx.sweep('kinds-of-default', [(i, f) for i in range(len(KINDS)) for f in (False, True)], defaultsKinds)
    ctx.explore('histories', independent, parallel=True)
