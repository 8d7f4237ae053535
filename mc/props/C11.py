"""
C11: Juice arguments arrive with the value and type that was sent.
"""
import itertools, math
from datetime import datetime, timedelta

from twisted.internet.defer import maybeDeferred
from twisted.python.filepath import FilePath

from mc.core import check, same, op, known, short
from mc.net import Link

TEXT = [u'', u'x', u' ', u' x ', u'a: b', u'\r\n', u'\r\n\r\n', u'line\r\nline: 2\r\n', u'\r', u'\n', u'\u00e9t\u00e9',
        u'\u4e2d\u6587', u'\U0001f600', u'\u0a0d\u0d0a', u'\0', u'True', u'None', u'1', u',', u';', u'%s', u'x' * 1000,
        u'\ud7ff\ue000', u'\x7f\x80\xff', u'\u2028\x85', u'\ufeff', u'\tq\t', u'-Ask: 1', u'\\', u'"', u"'", u'&amp;', u'=?',
        u'e\u0301', u'\u1e9b\u0323', u'\ufb01\u00df\u0130', u'\uff21\u212b', u'x\r\n', u'\r\n x', u'x ', u'ABC def', u'\u200b\u00ad', u'a\0b', u'\r\r\n\n']
INTS = [0, 1, -1, 7, 10, 99, 100, 255, 256, -256, 2**31 - 1, 2**31, -2**31 - 1, 2**63, -2**64, 10**100, -10**300, 3 * 10**999]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-7, 1e22, 1e23, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1 / 3.0,
          math.pi, float('inf'), float('-inf'), float('nan'), 123456789.123456789, 1e16, 0.30000000000000004]
BYTES = [b'', b'\0', b'\r\n', b'\xff\xfe', bytes(range(256)), b'x' * 1000, b'a', b'ab', b'abc', b'abcd', b'====', b'\xfb\xff\xbf']
PATHS = [u'/', u'/a', u'/a b/c', u'/\u00e9/\u4e2d', u'/a: b', u'/x' * 100, u'/tmp/\U0001f600', u'/%s', u'/a ', u'/ a', u'/a\n', u'/a\r\n/b', u'/a/\t', u'/.a', u'/a.', u'/e\u0301', u'/\u00e9', u'/A', u'/a\\b', u'/~', u'/$HOME', u'/a%20b', u'/a/..b']


def times():
    from epsilon.extime import Time
    out = []
    for y, mo, d, h, mi, s, us in [(1970, 1, 1, 0, 0, 0, 0), (2004, 2, 29, 23, 59, 59, 0), (2004, 12, 31, 12, 30, 15, 1),
                                   (1999, 1, 1, 1, 1, 1, 999999), (2038, 1, 19, 3, 14, 8, 500000), (1000, 1, 1, 0, 0, 0, 10),
                                   (9000, 6, 15, 6, 7, 8, 123456), (2000, 1, 2, 3, 4, 5, 120000), (1900, 3, 1, 0, 0, 0, 999)]:
        out.append(Time.fromDatetime(datetime(y, mo, d, h, mi, s, us)))
    for t in ('2004-02-29', '2004-12-31T23', '2004-001T00:00', '2004-W53', '2004', '2004-06', '1999-12-31T23:59:59.25'):
        out.append(Time.fromISO8601TimeAndDate(t))
    out.append(Time.fromPOSIXTimestamp(0))
    out.append(Time.fromPOSIXTimestamp(1234567890.5))
    return out


def catalogue():
    """name -> (constructor, values, accepts optional)"""
    from epsilon import juice as j
    T = times()
    cat = {
        'Integer': (j.Integer, INTS, True),
        'String': (j.String, TEXT, True),
        'Unicode': (j.Unicode, TEXT, True),
        'Body': (j.Body, TEXT, True),
        'Float': (j.Float, FLOATS, True),
        'Boolean': (j.Boolean, [True, False], True),
        'Base64': (j.Base64Binary, BYTES, True),
        'Path': (j.Path, [FilePath(p) for p in PATHS], True),
        'Time': (j.Time, T, True),
    }
    for enc in ('utf-8', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-7', 'unicode_escape'):
        cat['Encoded-' + enc] = (lambda enc=enc, **kw: j.EncodedString(enc), TEXT, False)
    def fits(t, enc):
        try:
            t.encode(enc)
            return True
        except UnicodeError:
            return False
    cat['Encoded-latin-1'] = (lambda **kw: j.EncodedString('latin-1'), [t for t in TEXT if fits(t, 'latin-1')], False)
    cat['Encoded-ascii'] = (lambda **kw: j.EncodedString('ascii'), [t for t in TEXT if fits(t, 'ascii')], False)
    cat['Encoded-koi8-r'] = (lambda **kw: j.EncodedString('koi8-r'), [u'', u'\u0416\u0451', u'abc', u'\r\n\u0416'], False)
    cat['Encoded-cp037'] = (lambda **kw: j.EncodedString('cp037'), [u'', u'abc', u'\r\n', u'%\x05'], False)

    def lists(values, delim=u', '):
        texts = [v for v in values if not isinstance(v, str) or delim not in v]
        out = [[v] for v in texts]
        out += [list(p) for p in itertools.product(texts[:9], repeat=2)]
        out += [texts, texts[::-1]]
        return out
    for base in ('Integer', 'Unicode', 'String', 'Float', 'Boolean', 'Base64', 'Path', 'Time'):
        make, values = cat[base][:2]
        cat['ListOf-' + base] = (lambda make=make, **kw: j.ListOf(make()), lists(values), False)
    cat['ListOf-Integer;'] = (lambda **kw: j.ListOf(j.Integer(), ';'), lists(INTS, ';'), False)
    cat['ListOf-Unicode|'] = (lambda **kw: j.ListOf(j.Unicode(), '|'), lists(TEXT, '|'), False)
    cat['ListOf-ListOf'] = (lambda **kw: j.ListOf(j.ListOf(j.Integer(), ','), ';'),
                            [[[1]], [[1, 2], [3]], [[0], [-1, 5, 7], [10**30]]], False)
    rows = [[]]
    for v in TEXT:
        rows.append([{'a': 1, 'b': v}])
    rows += [[{'a': i, 'b': v} for i, v in enumerate(TEXT)], [{'a': -5, 'b': u'\r\n'}] * 3, [{'a': k, 'b': u''} for k in range(300)]]
    cat['JuiceList'] = (lambda **kw: j.JuiceList([('a', j.Integer()), ('b', j.Unicode())]), rows, False)
    cat['JuiceList-body'] = (lambda **kw: j.JuiceList([('a', j.Integer()), ('body', j.String())]),
                             [[dict(a=1, body=t)] for t in TEXT] + [[dict(a=k, body=t) for k, t in enumerate(TEXT)]], False)
    cat['JuiceList-optional'] = (lambda **kw: j.JuiceList([('a', j.Integer(optional=True)), ('b', j.Unicode(optional=True)),
                                                          ('c', j.Boolean())]),
                                 [[dict(a=x, b=y, c=z) for x in (None, 0, 5) for y in (None, u'', u'\r\n') for z in (True, False)],
                                  [dict(a=None, b=None, c=True)]], False)
    cat['JuiceList-typed'] = (lambda **kw: j.JuiceList([('t', j.Time()), ('p', j.Path()), ('f', j.Float()), ('x', j.Base64Binary()),
                                                       ('l', j.ListOf(j.Integer()))]),
                              [[dict(t=T[k], p=FilePath(PATHS[k % len(PATHS)]), f=FLOATS[k], x=BYTES[k], l=INTS[:k + 1])
                                for k in range(9)]], False)
    inner = [[], [{'n': 1}], [{'n': k} for k in range(5)]]
    cat['JuiceList-nested'] = (lambda **kw: j.JuiceList([('k', j.Unicode()), ('rows', j.JuiceList([('n', j.Integer())]))]),
                               [[dict(k=u'\r\n', rows=r)] for r in inner] + [[dict(k=u'%d' % i, rows=r) for i, r in enumerate(inner)]], False)
    return cat


def equal(a, b):
    if type(a) is not type(b) and not (isinstance(a, (bool, int)) and isinstance(b, int) and type(b) is type(a)):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(equal(a[k], b[k]) for k in a)
    return a == b


def echo(arguments, response=None, server=None):
    """A connected pair whose command hands its arguments back."""
    from epsilon import juice
    resp = arguments if response is None else response

    class Echo(juice.Command):
        commandName = 'Echo'
    Echo.arguments = arguments
    Echo.response = resp
    seen = []

    class Server(juice.Juice):
        def command_ECHO(self, **kw):
            seen.append(kw)
            return server(kw) if server is not None else dict(kw)
        command_ECHO.command = Echo
    client, srv = juice.Juice(False), Server(True)
    link = Link(client, srv)
    return Echo, client, link, seen


def exchange(arguments, values, response=None, server=None, chunk=None):
    Echo, client, link, seen = echo(arguments, response, server)
    got = []
    op()
    maybeDeferred(Echo(**values).do, client).addBoth(got.append)
    if chunk is None:
        link.pump()
    else:
        while link.deliver(1, chunk):
            pass
        while link.deliver(0, chunk):
            pass
    return seen, got, link


def one(case):
    name, i, pos, chunk = case
    make, values, opt = CAT[name]
    v = values[i]
    arguments = [(pos, make())]
    seen, got, link = exchange(arguments, {pos: v}, chunk=chunk)
    same(len(seen), 1, 'executions of the command')
    check(sorted(seen[0]) == [pos] and equal(v, seen[0][pos]), 'argument as received', 'sent %s' % short(v), 'received %s' % short(seen[0]))
    check(len(got) == 1 and isinstance(got[0], dict) and sorted(got[0]) == [pos] and equal(v, got[0][pos]),
          'response as received', 'sent %s' % short(v), 'received %s' % short(got))
    check(not any(t.disconnecting for t in link.trans), 'a connection was closed')
    return name, i


def pairs(case):
    """Two arguments of any two types, in either order, do not disturb each other."""
    a, b, k, posb = case
    va = CAT[a][1][k % len(CAT[a][1])]
    vb = CAT[b][1][(k * 3 + 1) % len(CAT[b][1])]
    arguments = [('first', CAT[a][0]()), (posb, CAT[b][0]())]
    seen, got, link = exchange(arguments, {'first': va, posb: vb})
    same(len(seen), 1, 'executions')
    for where, d in (('arguments', seen[0]), ('response', got[0])):
        check(isinstance(d, dict) and sorted(d) == sorted(['first', posb]) and equal(va, d['first']) and equal(vb, d[posb]),
              '%s as received' % where, (va, vb), d)
    return a, b


def optional(case):
    """Every optional argument of three, given, None or omitted, in both directions."""
    name, mask, mask2, pos = case
    make, values, opt = CAT[name]
    names = ['a_one', pos, 'z_last']
    arguments = [(n, make(optional=True)) for n in names]
    sent = {}
    for n, m in zip(names, mask):
        if m == 'none':
            sent[n] = None
        elif m == 'value':
            sent[n] = values[len(n) % len(values)]
        elif m == 'falsy':
            sent[n] = values[0]
    answer = {}
    for n, m in zip(names, mask2):
        if m == 'none':
            answer[n] = None
        elif m == 'value':
            answer[n] = values[(len(n) + 1) % len(values)]
        elif m == 'falsy':
            answer[n] = values[0]
    seen, got, link = exchange(arguments, sent, server=lambda kw: dict(answer))
    same(len(seen), 1, 'executions')
    for what, d, src in (('arguments', seen[0], sent), ('response', got[0], answer)):
        check(isinstance(d, dict), 'result', d)
        for n in names:
            want = src.get(n)
            have = d.get(n, None)
            check(have is None if want is None else equal(want, have), '%s: %s' % (what, n), want, have)
    return name, mask, mask2


def rows(case):
    """
    Rows whose fields may be left out: every row arrives, those with nothing
    in them too, and the caller's own rows stay as they were.
    """
    given, pos, twice = case
    from epsilon import juice as j
    names = ['a', pos]
    types = {'a': j.Integer(optional=True), pos: j.Unicode(optional=True)}
    values = {'a': 0, pos: u''} if twice else {'a': 7, pos: u'\r\n\u00e9'}
    arguments = [('rows', j.JuiceList([(n, types[n]) for n in names]))]
    sent = [dict((n, None if how == 'none' else values[n]) for n, how in zip(names, row) if how != 'omit') for row in given]
    want = [dict((n, r.get(n)) for n in names) for r in sent]
    kept = [dict(r) for r in sent]
    answers = []

    def server(kw):
        answers.append([dict(r) for r in kept])
        return {'rows': answers[-1]}
    for k in range(2 if twice else 1):
        seen, got, link = exchange(arguments, {'rows': sent}, server=server)
        same(len(seen), 1, 'executions')
        check(equal(want, seen[0]['rows']), 'rows as received', kept, seen)
        check(len(got) == 1 and isinstance(got[0], dict) and equal(want, got[0]['rows']), 'response', kept, got)
        same(sent, kept, "the caller's rows")
        same(answers[-1], kept, "the responder's rows")
    return given


def missing(case):
    """A required argument left out: refused, nothing sent."""
    name, present, noise = case
    make = CAT[name][0]
    v = CAT[name][1][0]
    names = ['one', 'two', 'body']
    arguments = [(n, make()) for n in names]
    Echo, client, link, seen = echo(arguments)
    kw = dict((n, v) for n in present)
    if noise:
        kw['unrelated'] = 3
    got = []
    maybeDeferred(lambda: Echo(**kw).do(client)).addBoth(got.append)
    if sorted(present) == sorted(names):
        link.pump()
        same(len(seen), 1, 'a complete command')
        return 'sent'
    check(len(got) == 1 and hasattr(got[0], 'check'), 'a command without a required argument was not refused', got)
    same(link.trans[0].written, b'', 'a command without a required argument was sent')
    link.pump()
    same(seen, [], 'executions')
    return 'refused'


class Nothing(object):
    def __len__(self):
        return 0


def truth(case):
    """A Boolean may be given as anything that is true or false."""
    i, where = case
    from epsilon import juice as j
    v = TRUTH[i]
    if where == 'row':
        seen, got, link = exchange([('rows', j.JuiceList([('arg', j.Boolean())]))], {'rows': [{'arg': v}]}, server=lambda kw: {'rows': [{'arg': v}]})
        want = {'rows': [{'arg': bool(v)}]}
    elif where == 'list':
        seen, got, link = exchange([('arg', j.ListOf(j.Boolean()))], {'arg': [v, True, v]}, server=lambda kw: {'arg': [v, True, v]})
        want = {'arg': [bool(v), True, bool(v)]}
    else:
        seen, got, link = exchange([(where, j.Boolean())], {where: v}, server=lambda kw: {where: v})
        want = {where: bool(v)}
    check(len(seen) == 1 and equal(want, seen[0]), 'as received', v, seen)
    check(len(got) == 1 and isinstance(got[0], dict) and equal(want, got[0]), 'response', v, got)
    return case


def unencodable(case):
    """Text the encoding of the argument has no way to write is refused, not changed."""
    enc, text, where = case
    from epsilon import juice as j
    if where == 'response':
        seen, got, link = exchange([], {}, [('arg', j.EncodedString(enc))], server=lambda kw: {'arg': text})
    else:
        seen, got, link = exchange([(where, j.EncodedString(enc))], {where: text})
        same(link.trans[0].written, b'', 'a command with an argument that cannot be written was sent')
        same(seen, [], 'executions')
    check(len(got) == 1 and hasattr(got[0], 'check'), 'text which cannot be written in %s was not refused' % enc, text, got)
    return case


def mixedOptional(case):
    """Required and optional arguments together; only the required ones must be there."""
    given, = case
    from epsilon import juice as j
    arguments = [('r', j.Integer()), ('o', j.Integer(optional=True)), ('s', j.Unicode()), ('p', j.Unicode(optional=True))]
    values = {'r': 0, 'o': 0, 's': u'', 'p': u''}
    Echo, client, link, seen = echo(arguments)
    kw = dict((k, values[k]) for k in given)
    got = []
    maybeDeferred(lambda: Echo(**kw).do(client)).addBoth(got.append)
    if 'r' in given and 's' in given:
        link.pump()
        same(seen, [dict((k, values[k] if k in given else None) for k in values)], 'arguments')
        same(got, [seen[0]], 'response')
        return 'sent'
    same(link.trans[0].written, b'', 'a command without a required argument was sent')
    check(len(got) == 1 and hasattr(got[0], 'check'), 'not refused', got)
    return 'refused'


def emptyList(case):
    name = case
    make = CAT[name][0]
    seen, got, link = exchange([('arg', make())], {'arg': []})
    if seen == [{'arg': []}] and got == [{'arg': []}]:
        return 'ok'
    known('empty:%s' % name, 'an empty %s does not arrive as an empty list' % name)
    return 'known'


def repeated(case):
    """Many commands over one connection; arguments never mix."""
    name, n = case
    make, values, opt = CAT[name]
    Echo, client, link, seen = echo([('n', CAT['Integer'][0]()), ('arg', make())])
    got = []
    for k in range(n):
        Echo(n=k, arg=values[k % len(values)]).do(client).addBoth(got.append)
    link.pump()
    same(len(got), n, 'answers')
    for k in range(n):
        check(isinstance(got[k], dict) and got[k]['n'] == k and equal(values[k % len(values)], got[k]['arg']), 'answer %d' % k, got[k])
        check(seen[k]['n'] == k and equal(values[k % len(values)], seen[k]['arg']), 'arguments %d' % k, seen[k])
    return case


def spellings(case):
    """
    Arguments may be given under any spelling of their name, keywords of the
    language included; they arrive under the name declared.
    """
    name, declared, given, where = case
    from epsilon import juice as j
    make, values, opt = CAT[name]
    v = values[0]
    other = ('zz', j.Integer())
    if where == 'row':
        arguments = [('rows', j.JuiceList([(declared, make()), other]))]
        seen, got, link = exchange(arguments, {'rows': [{given: v, 'zz': 1}, {'zz': 2, given: v}]})
        want = {'rows': [{declared: v, 'zz': 1}, {declared: v, 'zz': 2}]}
    elif where == 'response':
        arguments = [(declared, make()), other]
        seen, got, link = exchange(arguments, {declared: v, 'zz': 0}, server=lambda kw: {given: kw[declared], 'zz': kw['zz']})
        want = {declared: v, 'zz': 0}
    else:
        arguments = [(declared, make()), other]
        seen, got, link = exchange(arguments, {given: v, 'zz': 0})
        want = {declared: v, 'zz': 0}
    same(len(seen), 1, 'executions')
    check(equal(want, seen[0]), 'arguments given as %r' % given, want, seen[0])
    check(len(got) == 1 and isinstance(got[0], dict) and equal(want, got[0]), 'response', want, got)
    return declared, given


CAT = {}
TRUTH = []


def run(ctx):
    ctx.assumptions += ['values lie in the domain of their type: text without lone surrogates, absolute text paths, list '
                        'elements without the list delimiter; argument names are declared in their canonical form: lower case with underscores, and keywords capitalised',
                        'empty ListOf values are a recorded known finding']
    q = ctx.quick
    CAT.update(catalogue())
    names = sorted(CAT)
    ctx.sweep('values', [(n, i, p, c) for n in names for i in range(len(CAT[n][1])) for p in ('arg', 'body', 'two_words')
                         for c in (None, 1)], one, parallel=True)
    ctx.sweep('pairs', [(a, b, k, p) for a in names for b in names for k in range(3 if q else 20) for p in ('second', 'body')],
              pairs, parallel=True)
    opts = [n for n in names if CAT[n][2]]
    masks = list(itertools.product(('none', 'omit', 'value', 'falsy'), repeat=3))
    ctx.sweep('optional', [(n, m, ('value', 'omit', 'none'), p) for n in opts for m in masks for p in ('m', 'body')]
              + [(n, ('omit',) * 3, m, p) for n in opts for m in masks for p in ('m', 'body')], optional, parallel=True)
    row = list(itertools.product(('omit', 'none', 'value'), repeat=2))
    ctx.sweep('rows', [(g, p, t) for n in range(4) for g in itertools.product(row, repeat=n) for p in ('b', 'body') for t in (False, True)], rows, parallel=True)
    subsets = [s for r in range(4) for s in itertools.combinations(('one', 'two', 'body'), r)]
    ctx.sweep('missing', [(n, s, x) for n in names for s in subsets for x in (False, True)], missing, parallel=True)
    ctx.sweep('mixed', [(s,) for r in range(5) for s in itertools.combinations('rosp', r)], mixedOptional)
    TRUTH[:] = [0, 1, 2, -1, u'', u'x', u'False', 0.0, 0.5, [], [0], (), {}, {0: 0}, Nothing(), Nothing, object()]
    ctx.sweep('truth', [(i, w) for i in range(len(TRUTH)) for w in ('arg', 'body', 'list', 'row')], truth)
    ctx.sweep('unencodable', [(e, t, w) for e, t in [('ascii', u'\xe9'), ('ascii', u'a\u4e2db'), ('latin-1', u'\u20ac'), ('latin-1', u'x\U0001f600'),
                                                     ('koi8-r', u'\xe5'), ('cp037', u'\u4e2d'), ('utf-8', u'\ud800'), ('utf-16', u'a\udc00')]
                              for w in ('arg', 'body', 'response')], unencodable)
    ctx.sweep('empty-lists', [n for n in names if n.startswith('ListOf')], emptyList)
    ctx.sweep('repeated', [(n, 40 if q else 600) for n in names], repeated, parallel=True)
    ways = {'arg': ['arg', 'Arg', 'ARG'], 'two_words': ['two_words', 'Two_Words', 'two-words', 'TWO-words', 'Two-Words'], 'Class': ['Class', 'class', 'CLASS'],
            'From': ['From', 'FROM'], 'Not': ['Not', 'not'], 'If': ['if'], 'not_in': ['not_in', 'Not-In'], 'class_': ['class_', 'Class-'], 'body': ['body', 'Body'],
            'a1': ['a1', 'A1'], 'self_': ['self_'], 'none': ['none', 'None'], 'true': ['True'], 'command': ['command', 'Command'], 'ask': ['ask'], 'error': ['Error']}
    ctx.sweep('spellings', [(n, d, g, w) for n in names for d in sorted(ways) for g in ways[d] for w in ('argument', 'response', 'row')], spellings, parallel=True)
