"""
C10: Juice errors arrive as the declared error and only fatal ones disconnect.
"""
from twisted.internet.defer import Deferred, fail, maybeDeferred

from mc.core import check, same, op
from mc.net import Link, pieces
from mc import juicenet
from mc.juicenet import DeclaredA, DeclaredB, SubOfA, FatalError, SubOfFatal, Undeclared

MESSAGES = [u'', u'x', u'two words', u'a: b', u'line\r\nbreak', u'\r\n', u'\r\n\r\n', u'\u00e9\u4e2d', u' lead', u'trail ',
            u'%s %d', u'x' * 500, u'\0', u'\r', u'\n', u'-Error: 1']
SECRET = u'SECRET-topsecret-detail'

# exception class -> (what the caller must get, is the connection closed)
RAISES = {
    'A': (DeclaredA, DeclaredA, False),
    'B': (DeclaredB, DeclaredB, False),
    'subA': (SubOfA, DeclaredA, False),
    'fatal': (FatalError, FatalError, True),
    'subFatal': (SubOfFatal, FatalError, True),
    'undeclared': (Undeclared, None, True),
    'key': (KeyError, None, True),
    'base': (Exception, None, True),
    'type': (TypeError, None, True),
}


def commands():
    from epsilon import juice

    class Base(juice.Command):
        commandName = 'Base'
        arguments = [('n', juice.Integer())]
        response = [('n', juice.Integer())]
        errors = {DeclaredA: 'DECL-A', DeclaredB: 'DECL-B'}
        fatalErrors = {FatalError: 'FATAL'}

    class Child(Base):
        commandName = 'Child'

    class Moved(juice.Command):
        commandName = 'Moved'
        arguments = [('n', juice.Integer())]
        response = [('n', juice.Integer())]
        fatalErrors = {FatalError: 'fatal.two', DeclaredA: 'Declared a, 2'}

    class Plain(juice.Command):
        commandName = 'Plain'
        arguments = [('n', juice.Integer())]
        response = [('n', juice.Integer())]

    class Nobody(juice.Command):
        commandName = 'Nobody'
        arguments = [('n', juice.Integer())]
        errors = {DeclaredA: 'DECL-A'}
    return dict(base=Base, child=Child, moved=Moved, plain=Plain, nobody=Nobody)


# which exceptions are declared where
EXPECT = {
    'base': RAISES,
    'child': RAISES,
    'moved': {'A': (DeclaredA, DeclaredA, True), 'B': (DeclaredB, None, True), 'subA': (SubOfA, DeclaredA, True),
              'fatal': (FatalError, FatalError, True), 'undeclared': (Undeclared, None, True),
              'key': (KeyError, None, True)},
    'plain': {'A': (DeclaredA, None, True), 'fatal': (FatalError, None, True), 'undeclared': (Undeclared, None, True)},
}


class Pair(object):
    def __init__(self, cmds):
        from epsilon import juice
        pair = self
        self.cmds = cmds
        self.behaviour = None      # (exception or None, asynchronous)
        self.waiting = []
        self.ran = []

        class Server(juice.Juice):
            def handle(self, n):
                pair.ran.append(n)
                exc, how = pair.behaviour
                if exc is None:
                    return {'n': n}
                if how == 'sync':
                    raise exc
                if how == 'fail':
                    return fail(exc)
                d = Deferred()
                pair.waiting.append((d, exc))
                return d

            def command_BASE(self, n):
                return self.handle(n)
            command_BASE.command = cmds['base']

            def command_CHILD(self, n):
                return self.handle(n)
            command_CHILD.command = cmds['child']

            def command_MOVED(self, n):
                return self.handle(n)
            command_MOVED.command = cmds['moved']

            def command_PLAIN(self, n):
                return self.handle(n)
            command_PLAIN.command = cmds['plain']

            def juice_RAW(self, box):
                return self.handle(int(box['n']))
        self.client = juice.Juice(False)
        self.server = Server(True)
        self.link = Link(self.client, self.server)

    def ask(self, which, n, wanted=True):
        got = []
        op()
        if which == 'raw':
            d = self.client.sendCommand('raw', n=str(n)) if wanted else \
                self.client.sendBoxCommand('raw', self.box(n=str(n)), requiresAnswer=False)
        else:
            d = self.cmds[which](n=n).do(self.client, requiresAnswer=wanted)
        if d is not None:
            d.addBoth(got.append)
        return got

    def box(self, **kw):
        from epsilon.juice import JuiceBox
        return JuiceBox(**kw)

    def deliverAll(self, cut=None):
        t = self.link.trans[0]
        while self.link.waiting(1):
            self.link.deliver(1)
        while self.waiting:
            d, exc = self.waiting.pop(0)
            d.errback(exc)
        while self.link.waiting(0):
            self.link.deliver(0, cut)


def ctxLogs(ctx):
    n = len(ctx.logged)
    del ctx.logged[:]
    return n


def checkOutcome(p, got, expected, closes, text, exc):
    from epsilon import juice
    same(len(got), 1, 'the request completed once')
    f = got[0]
    check(hasattr(f, 'check'), 'a failing command gave a result', f)
    if expected is not None:
        check(f.type is expected, 'the caller got %s instead of the declared error %s' % (f.type, expected), f)
        same(str(f.value), text, 'message of the error')
    else:
        check(f.check(juice.UnhandledRemoteJuiceError) or f.check(juice.RemoteJuiceError),
              'the caller of a failing command got something else than a generic remote failure', f)
        check(SECRET not in str(f.value) and SECRET not in repr(vars(f.value)), 'detail of an undeclared error was disclosed')
        wire = p.link.trans[1].written
        check(SECRET.encode() not in wire, 'detail of an undeclared error was sent')
        check(exc is None or type(exc) is Exception or type(exc).__name__.encode() not in wire, 'the type of an undeclared error was sent', wire)
    same(p.link.trans[1].disconnecting, closes, 'the responder closes the connection')
    same(p.link.trans[0].disconnecting, False, 'the caller closes the connection')
    same(p.link.trans[1].lateWrites, 0, 'writes after the close')


def busy(case):
    """
    An error while the responder itself has asked the caller something which
    is not answered yet, or never wanted one, or has been answered before.
    """
    which, raised, how, own = case
    p = Pair(CMDS)
    cls, expected, closes = EXPECT[which][raised]
    exc = cls(SECRET if expected is None else 'm')
    mine = []
    hold = []

    def back(box):
        hold.append(Deferred())
        return hold[-1]
    p.client.juice_BACK = back
    for k in range(1 if own == 'one' else 3 if own == 'three' else 0):
        p.server.sendCommand('back').addBoth(mine.append)
    if own == 'quiet':
        p.server.sendBoxCommand('back', p.box(), requiresAnswer=False)
    if own == 'answered':
        p.client.juice_BACK = lambda box: p.box(a='1')
        p.server.sendCommand('back').addBoth(mine.append)
    while p.link.waiting(0):
        p.link.deliver(0)
    if own == 'answered':
        p.link.deliver(1)
        same(len(mine), 1, 'answers')
    p.behaviour = (exc, how)
    got = p.ask(which, 77)
    p.deliverAll()
    checkOutcome(p, got, expected, closes, 'm', exc)
    if not closes:
        for d in hold:
            d.callback(p.box(a='2'))
        p.link.pump()
        check(all(not hasattr(m, 'check') for m in mine), 'answers to the responder', mine)
    else:
        p.link.lose(1)
        check(len(mine) == {'one': 1, 'three': 3, 'quiet': 0, 'answered': 1, 'none': 0}[own], 'completions of its own requests', mine)
        p.link.lose(0)
    return case, closes


def secretive(cls, shape):
    """An error which carries the secret somewhere."""
    if shape == 'second':
        return cls('nothing', SECRET)
    if shape == 'inside':
        return cls({'k': [SECRET]}, 3)
    if shape == 'attribute':
        e = cls()
        e.detail = e.description = e.message = e.errorCode = SECRET
        return e
    if shape == 'cause':
        e = cls()
        e.__cause__ = ValueError(SECRET)
        e.__notes__ = [SECRET]
        return e
    if shape == 'multi-line':
        return cls('nothing\r\n' + SECRET)
    return cls(SECRET)


SHAPES = ['first', 'second', 'inside', 'attribute', 'cause', 'multi-line']


def matrix(case):
    which, raised, how, text, before = case
    p = Pair(CMDS)
    cls, expected, closes = EXPECT[which][raised]
    if expected is None:
        exc = secretive(cls, text)
    else:
        exc = cls(text)
    shown = str(exc)
    for k in range(before):
        p.behaviour = (None, None)
        got = p.ask(which, k)
        p.deliverAll()
        same(got, [{'n': k}], 'an undisturbed request')
    p.behaviour = (exc, how)
    got = p.ask(which, 77)
    p.deliverAll()
    same(p.ran[before:], [77], 'the handler ran once')
    checkOutcome(p, got, expected, closes, shown, exc)
    if not closes:
        for which2 in ('base', 'child', 'plain'):
            p.behaviour = (None, None)
            got = p.ask(which2, 5)
            p.deliverAll()
            same(got, [{'n': 5}], 'a request after a declared error')
        # and the same error again
        p.behaviour = (exc, how)
        got = p.ask(which, 78)
        p.deliverAll()
        checkOutcome(p, got, expected, closes, shown, exc)
    else:
        # everything ends
        p.link.lose(1)
        p.link.lose(0)
        same(len(got), 1, 'completions after the connection is gone')
    return (which, raised, how, closes)


def unknown(case):
    which, wanted, cut = case
    p = Pair(CMDS)
    p.behaviour = (None, None)
    got = p.ask(which, 1, wanted) if which == 'nobody' else []
    if which != 'nobody':
        d = p.client.sendBoxCommand(which, p.box(n='1', secret=SECRET), requiresAnswer=wanted)
        if d is not None:
            d.addBoth(got.append)
    p.deliverAll(cut)
    same(p.ran, [], 'handlers run by an unknown command')
    if wanted:
        checkOutcome(p, got, None, True, None, None)
    else:
        same(got, [], 'result of a command which wants no answer')
        same(p.link.trans[1].written, b'', 'answer to a command which wants none')
        check(p.link.trans[1].disconnecting, 'the connection stays open after an unknown command')
    return case


def badArguments(case):
    """Commands whose arguments do not decode are refused like any undeclared failure."""
    which, fields, wanted = case
    p = Pair(CMDS)
    p.behaviour = (None, None)
    got = []
    b = p.box()
    b.update(fields)
    d = p.client.sendBoxCommand(which, b, requiresAnswer=wanted)
    if d is not None:
        d.addBoth(got.append)
    p.deliverAll()
    same(p.ran, [], 'the handler ran without valid arguments')
    if wanted:
        checkOutcome(p, got, None, True, None, None)
    else:
        same(p.link.trans[1].written, b'', 'answer to a command which wants none')
    return case


def quiet(case):
    which, raised, how = case
    p = Pair(CMDS)
    cls, expected, closes = EXPECT[which][raised]
    p.behaviour = (cls(SECRET), how)
    got = p.ask(which, 3, wanted=False)
    p.deliverAll()
    same(p.ran, [3], 'the handler ran once')
    for d, e in p.waiting:
        d.errback(e)
    p.deliverAll()
    same(got, [], 'results of a request which wants no answer')
    same(p.link.trans[1].written, b'', 'answer to a command which wants none')
    if expected is None:
        check(p.link.trans[1].disconnecting, 'the connection stays open after an undeclared error')
    return case


def badResponse(case):
    """A handler whose answer does not fit the declared response is an undeclared failure."""
    p = Pair(CMDS)
    p.behaviour = (None, None)
    p.server.handle = lambda n: case[1]
    got = p.ask(case[0], 3)
    p.deliverAll()
    checkOutcome(p, got, None, True, None, None)
    return case[0], repr(case[1])


def sequences(depth):
    """Histories of failing and succeeding requests, answers in any order."""
    def scenario(ch):
        p = Pair(CMDS)
        reqs = []
        closed = False
        for k in range(depth):
            which = ch.choose(('base', 'child'), 'command')
            raised = ch.choose((None, 'A', 'subA', 'B', 'fatal', 'undeclared'), 'raises')
            how = ch.choose(('sync', 'later'), 'how')
            exc = None
            if raised is not None:
                cls, expected, closes = EXPECT[which][raised]
                exc = cls('m%d' % k)
            p.behaviour = (exc, how)
            got = p.ask(which, k)
            reqs.append((got, raised, k, which, how))
            while p.link.waiting(1):
                p.link.deliver(1)
            if raised is not None and EXPECT[which][raised][2] and how == 'sync':
                closed = True
            same(p.link.trans[1].disconnecting, closed, 'connection closed')
            if closed:
                break
        order = ch.choose(2, 'order')
        while p.waiting and not p.link.trans[1].disconnecting:
            d, exc = p.waiting.pop(0 if order else -1)
            d.errback(exc)
        while p.link.waiting(0):
            p.link.deliver(0)
        anyClosed = p.link.trans[1].disconnecting
        same(anyClosed, any(r[1] is not None and EXPECT[r[3]][r[1]][2] for r in reqs), 'closed in the end')
        if anyClosed:
            p.link.lose(1)
            p.link.lose(0)
        from epsilon import juice
        for got, raised, k, which, how in reqs:
            same(len(got), 1, 'completions')
            if raised is None:
                check(got[0] == {'n': k} , 'result of a successful request', got)
            else:
                expected = EXPECT[which][raised][1]
                f = got[0]
                check(hasattr(f, 'check'), 'result of a failing request', f)
                if how == 'sync':
                    if expected is not None:
                        check(f.type is expected and str(f.value) == 'm%d' % k, 'error of a failing request', f)
                    else:
                        check(f.check(juice.RemoteJuiceError), 'generic failure', f)
        ch.obs([(r[1], r[3], r[4]) for r in reqs])
    return scenario


CMDS = {}


def run(ctx):
    ctx.assumptions += ['declared errors of one command do not derive from one another; errors are identified by their '
                        'str() and type']
    q = ctx.quick
    CMDS.update(commands())
    cases = [(w, r, h, m, b) for w in sorted(EXPECT) for r in sorted(EXPECT[w]) for h in ('sync', 'fail', 'later')
             for m in (MESSAGES if EXPECT[w][r][1] is not None else SHAPES) for b in (0, 1, 2)]
    ctx.sweep('errors', cases, matrix, parallel=True)
    ctx.sweep('busy', [(w, r, h, o) for w in sorted(EXPECT) for r in sorted(EXPECT[w]) for h in ('sync', 'fail', 'later')
                       for o in ('none', 'one', 'three', 'quiet', 'answered')], busy)
    ctx.sweep('unknown', [(w, wa, c) for w in ('nobody', 'no-such', '', 'base2', 'juice_raw', 'command_base', '__class__', 'handle',
                                               '_puke', 'transport', 'Base: x')
                          for wa in (True, False) for c in (None, 1, 7)], unknown)
    ctx.sweep('bad-arguments', [(w, f, wa) for w in ('Base', 'Child', 'Plain')
                                for f in ({}, {'n': ''}, {'n': 'x'}, {'n': '1.5'}, {'m': '1'}) for wa in (True, False)],
              badArguments)
    ctx.sweep('no-answer', [(w, r, h) for w in sorted(EXPECT) for r in sorted(EXPECT[w]) for h in ('sync', 'fail', 'later')], quiet)
    ctx.sweep('bad-response', [(w, r) for w in ('base', 'plain') for r in (None, {}, {'n': 'x'}, {'m': 1}, 5)], badResponse)
    ctx.explore('sequences', sequences(3 if q else 4), parallel=True)
