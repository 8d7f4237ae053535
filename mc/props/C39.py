"""
C39: text read back as data gives the printed value, and never runs anything.
"""
import ast, builtins, itertools

from mc.core import check, op

LEAVES = [0, 1, -1, 7, 255, -10 ** 20, 10 ** 40, 0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 1e-300, 1e16, 5e-324,
          2j, -2j, 1 + 2j, -1 - 2j, 0.5 - 0j, complex(-0.0, 1), True, False, None,
          '', 'a', "it's", '"', '\'"', '\\', '\\n', '\n', '\0', '\x7f', 'caf\xe9', '\u20ac', '\U0001f600',
          '\ud800', '#', '%s', '{}', '()', 'None', '1', '__import__("os")', ' a ', '\t', '\r\n', '\u2028', '"""', "'''",
          b'', b'a', b"it's", b'\0\xff', b'\\', b'\n', b'"', b'None']
SMALL = [0, -1.5, 1 - 2j, True, None, '', "a'\n", b'\xff']


def alike(a, b):
    """Equal and of the same types throughout."""
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if type(a) is set:
        return len(a) == len(b) and a == b and sorted(type(x).__name__ for x in a) == sorted(type(x).__name__ for x in b)
    if type(a) is dict:
        return len(a) == len(b) and all(
            alike(k, l) and alike(v, w) for (k, v), (l, w) in zip(a.items(), b.items()))
    if type(a) is float:
        return repr(a) == repr(b)
    return a == b


def hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


def containers(items, sizes=(0, 1, 2, 3)):
    for n in sizes:
        for c in itertools.product(items, repeat=n):
            yield list(c)
            yield tuple(c)
            if all(map(hashable, c)):
                if len(set(c)) == n:
                    yield set(c)
                if n == 2:
                    yield {c[0]: c[1]}
                if n == 1:
                    yield {c[0]: None}
                    yield {'k': c[0], c[0]: 'v', 3: c[0]}
            elif n and hashable(c[0]):
                yield {c[0]: list(c)}
    yield {}


def unrepr(text):
    from epsilon.unrepr import unrepr
    return unrepr(text)


def values(x):
    op()
    for text in (repr(x), ' ' + repr(x) if not repr(x).startswith(' ') else repr(x), '(%r)' % (x,)):
        got = unrepr(text)
        if not alike(got, x):
            check(False, 'value read from %r' % (text,), got, x)
    first, again = unrepr(repr(x)), unrepr(repr(x))
    spoil(first)
    if not alike(again, x) or not alike(unrepr(repr(x)), x):
        check(False, 'a reading of %r notices what becomes of another' % (x,), again, x)


def spoil(x):
    """Change everything in a value that can be changed."""
    if type(x) in (list, tuple):
        for y in x:
            spoil(y)
        if type(x) is list:
            x.append('spoilt')
    elif type(x) is dict:
        for y in x.values():
            spoil(y)
        x['spoilt'] = 1
    elif type(x) is set:
        x.add('spoilt')


def deep(case):
    kind, depth = case
    x = 5
    for i in range(depth):
        x = [x] if kind == 'list' else (x,) if kind == 'tuple' else {i: x} if kind == 'dict' else \
            [[x], (x,)] if kind == 'both' and i < 8 else [x]
    op(depth)
    check(alike(unrepr(repr(x)), x), 'nested %s, %s levels' % case)


def wide(case):
    kind, n = case
    x = {'list': lambda: list(range(n)), 'dict': lambda: {i: str(i) for i in range(n)},
         'text': lambda: 'a\'"\\\n\u20ac' * n, 'bytes': lambda: bytes(range(256)) * n,
         'int': lambda: 7 ** n, 'set': lambda: set(range(n)),
         'chars': lambda: [chr(i) for i in range(n)]}[kind]()
    op(n)
    check(alike(unrepr(repr(x)), x), 'large %s, size %s' % case)


class Canary(object):
    """Notes every way of touching it."""

    def __init__(self, log):
        object.__setattr__(self, 'log', log)

    def __getattribute__(self, name):
        object.__getattribute__(self, 'log').append(name)
        return self

    def __call__(self, *a, **k):
        object.__getattribute__(self, 'log').append('()')
        return self

    def __getitem__(self, i):
        object.__getattribute__(self, 'log').append('[]')
        return self

    def __mul__(self, other):
        object.__getattribute__(self, 'log').append('*')
        return self
    __add__ = __radd__ = __rmul__ = __sub__ = __neg__ = __mul__

    def __iter__(self):
        object.__getattribute__(self, 'log').append('iter')
        return iter(())


def plain(tree):
    """
    Whether a parsed text is data and nothing else; None where opinions of what
    counts as data may differ.
    """
    if isinstance(tree, ast.Expression):
        return plain(tree.body)
    if isinstance(tree, ast.Constant):
        return None if tree.value is Ellipsis else True
    parts = None
    if isinstance(tree, (ast.List, ast.Tuple, ast.Set)):
        parts = tree.elts
    elif isinstance(tree, ast.Dict):
        if None in tree.keys:
            return False
        parts = tree.keys + tree.values
    elif isinstance(tree, ast.UnaryOp) and isinstance(tree.op, (ast.USub, ast.UAdd)):
        if isinstance(tree.operand, ast.Constant) and type(tree.operand.value) in (int, float, complex):
            return True if isinstance(tree.op, ast.USub) else None
        return False if runs(tree) else None
    elif isinstance(tree, ast.BinOp) and isinstance(tree.op, (ast.Add, ast.Sub)):
        return False if runs(tree) else None
    if parts is None:
        return False if runs(tree) or isinstance(tree, (ast.BinOp, ast.Compare, ast.BoolOp, ast.IfExp,
                                                        ast.Subscript, ast.JoinedStr)) else None
    marks = [plain(p) for p in parts]
    return False if False in marks else None if None in marks else True


def runs(tree):
    """Whether the text looks a name up or calls something."""
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'set' \
                and not node.args and not node.keywords:
            return False
        if isinstance(node, (ast.Name, ast.Call, ast.Attribute, ast.Lambda, ast.ListComp, ast.SetComp,
                             ast.DictComp, ast.GeneratorExp, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom,
                             ast.Starred)):
            return True
    return False


REFUSED = (ValueError, SyntaxError, TypeError, MemoryError, RecursionError)


def text(t):
    op()
    log = []
    builtins.zork = Canary(log)
    try:
        try:
            tree = ast.parse(t.lstrip(' \t'), mode='eval')
        except (SyntaxError, ValueError):
            want = False
        else:
            want = plain(tree)
        try:
            got = unrepr(t)
        except REFUSED as e:
            if want:
                try:
                    # a dictionary or set of things that cannot be in one
                    eval(t.lstrip(' \t'), {'__builtins__': {}})
                except TypeError:
                    want = None
            check(not want, 'reading %r' % (t,), e, 'data')
            result = 'refused'
        else:
            check(want is not False, 'reading %r is refused' % (t,), got)
            if want:
                ref = eval(t.lstrip(' \t'), {'__builtins__': {}})
                check(alike(got, ref), 'value of %r' % (t,), got, ref)
            result = 'read'
        check(not log, 'reading %r touched an object by its name' % (t,), log)
    finally:
        del builtins.zork
    return result


TOKENS = ['1', '-', '+', '2j', "'a'", "b'x'", 'None', 'True', 'zork', '(', ')', '[', ']', '{', '}', ',', ':',
          '.', '*', ' ', '=', 'f', 'lambda', 'for', 'in', '\n', '1.5']

ATTACKS = ["__import__('os')", "zork()", 'zork', 'zork.x', 'zork[0]', '[zork]', '(zork,)', '{zork: 1}', '{1: zork}',
           '{zork}', '1 + zork', 'zork + 1', '-zork', '[*zork]', '{**zork}', 'f"{zork}"', "f'{zork()}'", '[x for x in zork]',
           'lambda: zork', '(lambda: zork())()', 'zork if 1 else 2', '1 if zork else 2', '1 and zork()', 'not zork',
           '1 < zork', '(z := zork)', 'zork(1)(2)', "'%s' % zork", "'a' * 1000", '2 ** 10', '1 << 4', '1 * 2', '6 / 2', '7 % 3',
           "'a' 'b'", "'a' + 'b'", '[1] + [2]', '[1][0]', "'abc'[1]", '{1: 2}[1]', '1 == 1', '1 or 2', '~1', 'not 1',
           'zork = 1', 'import os', 'del zork', 'print(1)', '1; 2', '1\n2', 'raise', 'exec("zork()")', 'eval("zork")',
           "open('/dev/null')", 'int("5")', 'list()', 'dict()', 'frozenset()', 'set([1])', 'float("inf")', 'nan', 'inf', '-inf',
           '().__class__', '"".join(["a"])', '[].append', '...', '[...]', 'set()', '[set()]', '', ' ', '\n', '#', '(', ')', '[1',
           '1]', "'", 'a b', '01', '0x1f', '0b11', '0o17', '1_000', '1e5', '1e999', '"\\x41"', 'r"\\n"', 'u"a"', 'b"\\xff"', 'b"\xe9"',
           '[1,]', '(1)', '(1,)', '{1,}', '{1:2,}', '[,]', '(,)', '{,}', '{1:}', '{:1}', '[1 2]', '1,2', '1,', '{[1]: 2}', '{[1]}',
           '{{}}', '-1', '--1', '+1', '-+1', '- 1', '-True', '-None', "-'a'", '-[1]', '1+2j', '1-2j', '-1+2j', '1+2', '2j+1', '1j+2j',
           '1+2j+3', '1+-2j', 'True+1j', 'None', 'none', 'NULL', 'true', 'nil', 'undefined', 'True', 'False', '__debug__', 'Ellipsis',
           'NotImplemented', '[None, True]', '{None: None}', "{'a': zork}", "{'a': [1, (2, {3: zork()})]}", '((((zork))))',
           'await zork', 'yield zork', 'async', '(yield)', '*zork', '*[1]', '[*[1]]', '{**{1: 2}}', '\x00', '1\x00', '\ufeff1', '1 #c',
           '1 # zork()', '"zork"', "'''zork'''", '\\\n1', '1\\\n', '  1', '\t1', '1  ', '1\n', '\n1', '(\n1)', '[\n1,\n2\n]']


def values_all(q):
    out = list(LEAVES)
    level1 = list(containers(SMALL, (0, 1, 2)))
    out += list(containers(LEAVES, (1, 2)))
    out += list(containers(SMALL, (3,)))
    some = level1[::7 if q else 2] + [[], (), {}, set()]
    out += list(containers(some, (1,)))
    out += list(containers(some[::3 if q else 1] + SMALL[:4], (2,)))
    level2 = list(containers(some[::4], (1, 2)))
    out += list(containers(level2[::9 if q else 3], (1,)))
    return out


def run(ctx):
    q = ctx.quick
    ctx.assumptions += ['nan and the infinities have no literal form and are left out',
                        'whether +1, ... and sums of numbers count as data is left open']
    ctx.sweep('values', values_all(q), values, parallel=True)
    ctx.sweep('deep', [(k, n) for k in ('list', 'tuple', 'dict', 'both') for n in list(range(0, 40)) + [60, 80]], deep)
    sizes = [0, 1, 2, 10, 100, 1000, 4000] if q else [0, 1, 2, 10, 100, 1000, 4000, 60000]
    ctx.sweep('wide', [(k, n) for k in ('list', 'dict', 'text', 'bytes', 'set', 'chars') for n in sizes] +
              [('int', n) for n in (0, 1, 100, 1000, 4000)], wide)
    ctx.sweep('attacks', ATTACKS + [w % a for a in ATTACKS for w in ('[%s]', '(%s, 1)', '{1: %s}', '{%s: 1}', ' %s', '%s ', '(%s)', '-%s', '1,%s')],
              text)
    texts = set(''.join(c) for k in (1, 2, 3) for c in itertools.product(TOKENS, repeat=k))
    texts.update(''.join(c) for c in itertools.product(TOKENS[:17] if q else TOKENS, repeat=4))
    ctx.sweep('texts', sorted(texts), text, parallel=True)
    if not q:
        ctx.sweep('texts-5', sorted(set(''.join(c) for c in itertools.product(TOKENS[:17], repeat=5))), text,
                  parallel=True)
