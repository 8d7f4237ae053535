"""
C14: Juice only runs commands exposed under the requested name and namespace.
"""
import itertools
from twisted.internet.defer import maybeDeferred, Deferred

from mc.core import check, same, op
from mc.net import Link, Transport

NAMES = ['foo', 'FOO', 'Foo', 'fOo', 'foo-bar', 'FOO_BAR', 'Foo-Bar', 'foobar', 'fo', 'fooo', 'foo_', '_foo', '-foo', '', '-', '_',
         'bar', 'raw', 'RAW', 'raw-two', 'RAW_TWO', 'command_FOO', 'juice_RAW', 'command-foo', '__init__', '__class__', 'FOO()', 'foo.bar',
         'foo:bar', 'a:foo', 'None', 'foo\0', 'x' * 200, 'dispatchCommand', 'normalizeCommand', '1', 'negotiate', 'old', 'gone', 'priv',
         'child', 'CHILD', 'wrapped', 'fo-o', 'foo--bar', 'foo__bar', '-foo-bar', 'dict', 'doc__']
NAMESPACES = [None, 'a', 'b', '', 'A', 'foo', 'none', 'None', 'aa', 'ad', 'admin', 'admins', 'a.b']


def canonical(name):
    return name.upper().replace('-', '_')


DECLARED = [[None], ['a'], ['a', 'b'], [None, 'a'], [], [''], ['admin'], ['aa', 'a.b']]


def build(nsFoo, nsBar, wrapper=False, base=None):
    """An object exposing some commands, and a table of what it exposes."""
    from epsilon import juice
    calls = []
    inWrapper = []

    def command(cname, ns, args):
        class C(juice.Command):
            commandName = cname
            arguments = args
            namespaces = ns
            response = [('who', juice.String())]
        return C

    def handler(key, com):
        def h(self, **kw):
            calls.append((key, kw, bool(inWrapper)))
            return {'who': key}
        h.command = com
        return h

    def raw(key):
        def h(self, box):
            calls.append((key, dict(box), bool(inWrapper)))
            return juice.Box(who=key)
        return h
    args = [('n', juice.Integer()), ('s', juice.Unicode(optional=True))]
    foo = command('Foo', nsFoo, args)
    bar = command('Foo-Bar', nsBar, [])
    child = command('Child', [None], [('n', juice.Integer())])

    class Parent(object):
        command_CHILD = handler('child', child)
        juice_OLD = raw('old')

    attrs = dict(command_FOO=handler('foo', foo), command_FOO_BAR=handler('foo-bar', bar),
                 juice_RAW=raw('raw'), juice_RAW_TWO=raw('raw-two'), foo=handler('no', foo), FOO=handler('no', foo),
                 command_foo=handler('no', foo), juice_foo=raw('no'), Command_FOO=handler('no', foo),
                 raw=raw('no'), RAW=raw('no'), priv=handler('no', foo), _command_PRIV=handler('no', foo))
    table = {'FOO': ('foo', nsFoo, 'auto'), 'FOO_BAR': ('foo-bar', nsBar, 'auto'), 'CHILD': ('child', [None], 'child'),
             'RAW': ('raw', [None], 'raw'), 'RAW_TWO': ('raw-two', [None], 'raw'), 'OLD': ('old', [None], 'raw')}
    if wrapper:
        def wrap(self, f):
            def wrapped(*a, **kw):
                inWrapper.append(1)
                try:
                    return f(*a, **kw)
                finally:
                    inWrapper.pop()
            return wrapped
        attrs['wrapper'] = wrap
    if base is None:
        base = juice.DispatchMixin
    cls = type('Exposing', (base, Parent), attrs)
    return cls, table, calls


def dispatch(case):
    name, namespace, nsFoo, nsBar, wrapper = case
    from epsilon import juice
    cls, table, calls = build(nsFoo, nsBar, wrapper)
    o = cls()
    proto = juice.Juice(True)
    proto.makeConnection(Transport())
    box = juice.Box(n='41', s=u'x', extra='y')
    box['_command'] = name
    got = []
    op()
    before = dict(box)
    maybeDeferred(o.dispatchCommand, proto, name, box, namespace).addBoth(got.append)
    same(len(got), 1, 'outcomes of a dispatch')
    entry = table.get(canonical(name))
    if entry is not None and namespace in entry[1]:
        key, ns, style = entry
        want = {'auto': {'n': 41, 's': u'x'} if key == 'foo' else {}, 'child': {'n': 41}, 'raw': before}[style]
        same(calls, [(key, want, wrapper)], 'handlers run (handler, arguments, inside the wrapper)')
        check(not hasattr(got[0], 'check'), 'a command which was run reported a failure', got[0])
        same(got[0].get('who'), key, 'response')
        return 'ran ' + key
    same(calls, [], 'handlers run for a command which is not exposed')
    check(hasattr(got[0], 'check'), 'a command which is not exposed gave a result', got[0])
    check(got[0].check(juice.UnhandledCommand), 'a command which is not exposed was not reported as unhandled', got[0])
    return 'unhandled'


def wire(case):
    name, nsFoo, wanted = case
    from epsilon import juice
    cls, table, calls = build(nsFoo, [None], False, juice.Juice)
    server = cls(True)
    client = juice.Juice(False)
    link = Link(client, server)
    got = []
    d = client.sendBoxCommand(name, juice.Box(n='41', s=u'x'), requiresAnswer=wanted)
    if d is not None:
        d.addBoth(got.append)
    while link.waiting(1):
        link.deliver(1)
    while link.waiting(0):
        link.deliver(0)
    op()
    entry = table.get(canonical(name))
    if entry is not None and None in entry[1]:
        same([c[0] for c in calls], [entry[0]], 'handlers run')
        if wanted:
            check(not hasattr(got[0], 'check') and got[0].get('who') == entry[0], 'answer', got)
        return 'ran'
    same(calls, [], 'handlers run for a command which is not exposed')
    if canonical(name) == 'NEGOTIATE':
        return 'builtin'
    if wanted:
        check(len(got) == 1 and hasattr(got[0], 'check'), 'a command which is not exposed was answered', got)
    return 'unhandled'


def arguments(case):
    """The handler gets exactly the declared arguments, decoded, plus the extras."""
    declared, sent, extras = case
    from epsilon import juice
    calls = []

    class X(juice.ExtraArg):
        def __init__(self, tag):
            self.tag = tag

        def fromTransport(self, transport):
            return (self.tag, transport)
    types = {'i': juice.Integer, 'u': juice.Unicode, 'b': juice.Boolean, 'o': lambda: juice.Integer(optional=True), 'body': juice.String}
    values = {'i': ('5', 5), 'u': (u'\u00e9', u'\u00e9'), 'b': ('True', True), 'o': ('0', 0), 'body': ('B', 'B'), 'zz': ('q', None)}

    class C(juice.Command):
        commandName = 'C'
        extra = [('x%d' % k, X(k)) for k in range(extras)]
    C.arguments = [(d, types[d]()) for d in declared]

    class D(juice.DispatchMixin):
        def command_C(self, **kw):
            calls.append(kw)
            return {}
        command_C.command = C
    proto = juice.Juice(True)
    t = Transport()
    proto.makeConnection(t)
    box = juice.Box()
    for s in sent:
        box[s] = values[s][0]
    got = []
    maybeDeferred(D().dispatchCommand, proto, 'c', box).addBoth(got.append)
    op()
    if any(d not in sent and d != 'o' for d in declared):
        same(calls, [], 'ran without its arguments')
        check(hasattr(got[0], 'check'), 'missing arguments were not reported')
        return 'refused'
    want = dict((d, values[d][1] if d in sent else None) for d in declared)
    for k in range(extras):
        want['x%d' % k] = (k, t)
    same(calls, [want], 'arguments of the handler')
    check(not hasattr(got[0], 'check'), 'failed', got[0])
    return 'ran'


def subclasses(case):
    """Exposure follows the class of the receiving object."""
    overridden, removed, name = case
    from epsilon import juice
    cls, table, calls = build([None], ['a'])

    class C2(juice.Command):
        commandName = 'Foo'
        namespaces = ['b']
    if overridden:
        def command_FOO(self):
            calls.append(('sub', {}, False))
            return {}
        command_FOO.command = C2
        sub = type('Sub', (cls,), {'command_FOO': command_FOO})
    else:
        sub = type('Sub', (cls,), {})
    if removed:
        sub.command_CHILD = None
    out = []
    for ns in NAMESPACES:
        del calls[:]
        proto = juice.Juice(True)
        proto.makeConnection(Transport())
        got = []
        maybeDeferred(sub().dispatchCommand, proto, name, juice.Box(n='1'), ns).addBoth(got.append)
        op()
        c = canonical(name)
        want = []
        if c == 'FOO':
            want = (['sub'] if ns == 'b' else []) if overridden else (['foo'] if ns is None else [])
        elif c == 'CHILD':
            want = ['child'] if ns is None and not removed else []
        elif c in table and ns in table[c][1]:
            want = [table[c][0]]
        same([x[0] for x in calls], want, 'handlers run', name, ns)
        check(hasattr(got[0], 'check') == (not want), 'outcome', got)
        out.append(want)
    return out


def asyncOnce(case):
    """Handlers that finish later run once, inside the wrapper, whatever they give."""
    name, order = case
    from epsilon import juice
    cls, table, calls = build([None], [None], True, juice.Juice)
    server = cls(True)
    client = juice.Juice(False)
    link = Link(client, server)
    got = []
    for k in range(order):
        client.sendBoxCommand(name, juice.Box(n=str(k), s=u'')).addBoth(got.append)
    link.pump()
    same(len(calls), order, 'handlers run')
    check(all(c[2] for c in calls), 'ran outside the wrapper')
    same(len(got), order, 'answers')
    return order

class Hollow(object):
    """Something to call which is false, or empty."""

    def __init__(self, how, function):
        self.function = function
        self.how = how

    def __call__(self, *a, **kw):
        return self.function(*a, **kw)

    def __len__(self):
        return 0

    def __bool__(self):
        return self.how == 'true'


def hollow(case):
    """What is exposed counts, whatever its truth, and wherever it is kept."""
    name, ns, how, where, wrapper, wired = case
    from epsilon import juice
    calls = []
    wrapped = []

    class C(juice.Command):
        commandName = 'Foo'
        arguments = [('n', juice.Integer())]
        namespaces = ['a', None]

    def foo(n):
        calls.append(('foo', n, len(wrapped)))
        return {}

    def raw(box):
        calls.append(('raw', int(box['n']), len(wrapped)))
        return juice.Box()
    h, r = Hollow(how, foo), Hollow(how, raw)
    h.command = C

    def wrap(f):
        def inner(*a):
            wrapped.append(f)
            return f(*a)
        return inner
    attrs = {'command_FOO': h, 'juice_RAW': r}
    if wrapper:
        attrs['wrapper'] = Hollow(how, wrap)
    cls = type('Exposing', (juice.Juice,), attrs if where == 'class' else {})
    o = cls(True)
    if where == 'instance':
        vars(o).update(attrs)
    got = []
    op()
    if wired:
        client = juice.Juice(False)
        link = Link(client, o)
        client.sendBoxCommand(name, juice.Box(n='41')).addBoth(got.append)
        link.pump()
    else:
        o.makeConnection(Transport())
        maybeDeferred(o.dispatchCommand, o, name, juice.Box(n='41'), ns).addBoth(got.append)
    key = canonical(name)
    if key == 'FOO' and ns in ('a', None) or key == 'RAW' and ns is None:
        same(calls, [(key.lower(), 41, int(wrapper))], 'handlers run (handler, argument, times wrapped)')
        check(not hasattr(got[0], 'check'), 'a command which was run reported a failure', got)
    else:
        same(calls, [], 'handlers run')
        check(hasattr(got[0], 'check'), 'a command which was not run gave', got)
    return case


class Who(object):
    def __init__(self, domain, resource):
        self.domain, self.resource = domain, resource


class Q2QTransport(Transport):
    """A transport which knows who is at either end."""

    def getQ2QPeer(self):
        return self.peer

    def getQ2QHost(self):
        return self.host


def calling(case):
    """
    A command as it is called: the name and namespace it goes out under, and
    the facts about the connection both sides are given.
    """
    kind, explicit, ns, declared, extras, exposed = case
    from twisted.internet.protocol import Protocol, ClientFactory
    from epsilon import juice
    calls, inner, failures = [], [], []
    names = {'peer': juice.Peer, 'peer_domain': juice.PeerDomain, 'peer_user': juice.PeerUser,
             'host': juice.Host, 'host_domain': juice.HostDomain, 'host_user': juice.HostUser}
    base = juice.ProtocolSwitchCommand if kind == 'switch' else juice.Command
    attrs = dict(arguments=[('n', juice.Integer())], response=[] if kind == 'switch' else [('m', juice.Integer())],
                 namespaces=declared, extra=[(x, names[x]()) for x in extras])
    if explicit:
        attrs['commandName'] = 'By-Name'
    cmd = type('ByClass', (base,), attrs)

    class Server(juice.Juice):
        def dispatchCommand(self, proto, name, box, namespace=None):
            if ':' in name:
                namespace, name = name.split(':', 1)
            return juice.Juice.dispatchCommand(self, proto, name, box, namespace)

        def _both(self, kind, **kw):
            calls.append((kind, kw))
            return Protocol() if base is not juice.Command else {'m': kw['n'] + 1}

        def command_BYCLASS(self, **kw):
            return self._both('class', **kw)

        def command_BY_NAME(self, **kw):
            return self._both('name', **kw)
        command_BYCLASS.command = command_BY_NAME.command = cmd
    if not exposed:
        del Server.command_BYCLASS, Server.command_BY_NAME
        Server.juice_BYCLASS = Server.juice_BY_NAME = lambda self, box: calls.append('old') or juice.Box(m='42')

    class Factory(ClientFactory):
        def buildProtocol(self, addr):
            inner.append(Protocol())
            return inner[-1]

        def clientConnectionFailed(self, connector, reason):
            failures.append(reason)
    client, server = juice.Juice(False), Server(True)
    link = Link(client, server, transport=Q2QTransport)
    for k, t in enumerate(link.trans):
        t.peer = Who('peer%d.example' % k, 'p%d' % k)
        t.host = Who('host%d.example' % k, 'h%d' % k)

    def facts(t):
        all = {'peer': t.peer, 'peer_domain': t.peer.domain, 'peer_user': t.peer.resource,
               'host': t.host, 'host_domain': t.host.domain, 'host_user': t.host.resource}
        return dict((x, all[x]) for x in extras)
    got = []
    op()
    if kind == 'switch':
        d = cmd(Factory(), n=41).do(client, namespace=ns) if ns is not None else cmd(Factory(), n=41).do(client)
    elif kind == 'noanswer':
        d = cmd(n=41).do(client, namespace=ns, requiresAnswer=False)
        check(d is None, 'a command which wants no answer gave a result', d)
    else:
        d = cmd(n=41).do(client, namespace=ns) if ns is not None else cmd(n=41).do(client)
    if d is not None:
        d.addBoth(got.append)
    same(calls, [], 'ran before it arrived')
    link.pump()
    if ns in declared and exposed:
        same(calls, [('name' if explicit else 'class', dict(facts(link.trans[1]), n=41))], 'handlers run')
        if kind == 'plain':
            same(got, [dict(facts(link.trans[0]), m=42)], 'response')
        elif kind == 'switch':
            same((len(inner), len(failures), len(got)), (1, 0, 1), 'new protocols, failures, results')
        return 'ran'
    if not exposed and ns is None:
        same(calls, ['old'], 'handlers run')
        return 'old'
    same(calls, [], 'ran in a namespace it is not declared for')
    same(inner, [], 'protocols made')
    if d is not None:
        check(len(got) == 1 and hasattr(got[0], 'check'), 'a command which was not run gave', got)
    return 'refused'



def run(ctx):
    ctx.assumptions += ['command names are ASCII without surrounding blanks']
    q = ctx.quick
    D = DECLARED
    ctx.sweep('dispatch', [(n, ns, a, b, w) for n in NAMES for ns in NAMESPACES for a in D for b in ([[None], ['a'], []] if q else D)
                           for w in (False, True)], dispatch, parallel=True)
    ctx.sweep('wire', [(n, a, w) for n in NAMES if ': ' not in n for a in D for w in (True, False)], wire, parallel=True)
    alpha = ''.join
    short = ['fFoO-_', 'fobar-']
    gen = sorted(set(''.join(t) for k in range(1, 5 if q else 6) for t in itertools.product('foO-_', repeat=k)))
    ctx.sweep('all-names', [(n, ns, [None], ['a'], False) for n in gen for ns in (None, 'a')], dispatch, parallel=True)
    keys = ('i', 'u', 'b', 'o', 'body')
    subs = [s for r in range(6) for s in itertools.combinations(keys, r)]
    ctx.sweep('arguments', [(d, s + z, x) for d in subs for s in subs for z in ((), ('zz',)) for x in (0, 1, 2)], arguments, parallel=True)
    ctx.sweep('subclasses', [(o, r, n) for o in (False, True) for r in (False, True) for n in NAMES], subclasses, parallel=True)
    ctx.sweep('repeated', [(n, k) for n in ('foo', 'FOO-BAR', 'raw', 'child', 'OLD') for k in (1, 2, 40)], asyncOnce)
    ctx.sweep('hollow', [(n, ns, h, w, wr, wd) for n in ('foo', 'Foo', 'raw', 'other') for ns in (None, 'a', 'b') for h in ('true', 'false')
                         for w in ('class', 'instance') for wr in (False, True) for wd in (False, True) if ns is None or not wd], hollow)
    facts = ['peer', 'peer_domain', 'peer_user', 'host', 'host_domain', 'host_user']
    ctx.sweep('calling', [(k, e, ns, d, x, h) for h in (True, False) for k in ('plain', 'noanswer', 'switch') for e in (False, True) for ns in (None, 'a', 'b', 'A')
                          for d in D if ns is None or d for x in [(), ('peer',), ('host_user', 'peer_domain'), tuple(facts)]
                          + ([] if q else [c for r in (1, 2, 3) for c in itertools.combinations(facts, r)])], calling, parallel=True)
