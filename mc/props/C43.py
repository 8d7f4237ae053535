"""
C43: what a hotfix installs repairs the defect it is for.

The defective library of old is simulated in the installed Twisted, the hotfix
is required as an application does, and the repaired parts of the library are
driven through everything up to a bound, against plain models of what they are
documented to do.  Everything the hotfix has changed is put back afterwards.
"""
import contextlib, importlib, itertools, os, sys, warnings

from mc.core import check, same, op, known, short, Violation
from mc.props.C32 import Patch, FIXES, fresh, affected, MISSING


@contextlib.contextmanager
def repaired(name, prepare=None):
    """The library with the defect, and then the hotfix."""
    saved = [(o, dict(vars(o))) for o in affected()]
    full = 'epsilon.hotfixes.' + FIXES[name][0]
    import epsilon.hotfixes as pkg
    module = sys.modules.pop(full, None)
    p = Patch()
    try:
        FIXES[name][1](p)
        if prepare is not None:
            prepare(p)
        # imported anew: installing changes the hotfix's module too
        vars(pkg).pop(FIXES[name][0], None)
        with fresh() as hotfix:
            for i in range(2):
                hotfix.require('twisted', name)
        yield
    finally:
        for o, was in saved:
            for k in list(vars(o)):
                if k not in was:
                    if k not in ('__warningregistry__', '__annotations__', '__abstractmethods__'):
                        delattr(o, k)
                elif vars(o)[k] is not was[k]:
                    setattr(o, k, was[k])
            for k in was:
                if k not in vars(o):
                    setattr(o, k, was[k])
        p.undo = [u for u in p.undo if not any(u[0] is o for o in affected())]
        p.restore()
        sys.modules.pop(full, None)
        vars(pkg).pop(FIXES[name][0], None)
        if module is not None:
            sys.modules[full] = module
            setattr(pkg, FIXES[name][0], module)


# ---- TimeoutMixin

def oldMixin(p):
    from twisted.protocols import policies

    def broken(self, *a):
        raise Violation('the defective mixin is still in use')
    for n in ('setTimeout', 'resetTimeout', 'timeoutConnection'):
        p.set(policies.TimeoutMixin, n, broken)


def timeouts(ch):
    from twisted.internet import reactor
    from twisted.internet.task import Clock
    from twisted.protocols import policies
    clock = Clock()
    p = Patch()
    with repaired('timeoutmixin_calllater', oldMixin):
        how = ch.choose(('reactor', 'own', 'restart'), 'protocol')
        fired = []

        class Transport(object):
            def loseConnection(self):
                fired.append(clock.seconds())

        class Proto(policies.TimeoutMixin):
            transport = Transport()
            if how != 'reactor':
                def callLater(self, period, func):
                    return clock.callLater(period, func)
            if how == 'restart':
                def timeoutConnection(self):
                    fired.append(clock.seconds())
                    if len(fired) == 1:
                        back.append(self.setTimeout(2))
        back = []
        if how == 'reactor':
            p.set(reactor, 'callLater', clock.callLater)
        try:
            proto, other = Proto(), Proto()
            same(proto.timeOut, None, 'timeout of a new protocol')
            other.setTimeout(1000)
            period = deadline = None
            now, want = 0, []
            for i in range(DEPTH):
                what, arg = ch.choose(OPS, 'operation')
                op()
                if what == 'set':
                    same(proto.setTimeout(arg), period, 'the previous timeout')
                    period = arg
                    deadline = None if arg is None else now + arg
                elif what == 'reset':
                    same(proto.resetTimeout(), None, 'resetTimeout')
                    if deadline is not None and period is not None:
                        deadline = now + period
                else:
                    now += arg
                    clock.advance(arg)
                    while deadline is not None and deadline <= now:
                        want.append(now)
                        deadline = None
                        if how == 'restart' and len(want) == 1:
                            same(back, [period], 'the previous timeout, asked as it expires')
                            period, deadline = 2, now + 2
                same((proto.timeOut, fired), (period, want), 'timeout and expiries after %d operations' % (i + 1))
                same(len(clock.getDelayedCalls()), 1 + (deadline is not None), 'pending calls')
                ch.obs((period, deadline and deadline - now, len(want)))
            proto.setTimeout(None)
            clock.advance(50)
            same(fired, want, 'expiries once there is no timeout')
            same(other.timeOut, 1000, 'another protocol')
        finally:
            p.restore()


OPS = [('set', 2), ('advance', 1), ('reset', None), ('set', None), ('set', 5), ('advance', 3), ('set', 0)]


# ---- DelayedCall

def sinceBoot(p):
    from twisted.internet import base
    # the library the hotfix is for has this
    p.set(base, 'seconds', lambda: NOW[0])


NOW = [0]


def function(*a, **k):
    pass


class Thing(object):
    def method(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        pass

    def __repr__(self):
        return '<a thing>'


def delayed(ch):
    """A call by itself: what its owner is asked for, and when it is to run."""
    from twisted.internet import base, error
    from twisted.internet.interfaces import IDelayedCall
    with repaired('delayedcall_seconds', sinceBoot):
        own = ch.flag('its own clock')
        debug = ch.flag('debug')
        func, name = ch.choose([(function, 'function'), (Thing().method, 'Thing.method'), (Thing(), '<a thing>')], 'function')
        args = ch.choose([(), (1, 'x')], 'arguments') if func is function else (7,)
        kw = {'key': 'value'} if func is not function else {}
        clock = [100]
        NOW[0] = 100
        events = []
        more = ((lambda: clock[0]),) if own else ()
        call = base.DelayedCall(110, func, args, kw, lambda c: events.append(('cancel', c is call)), lambda c: events.append(('reset', c is call)), *more)
        call.debug = debug
        if debug:
            call.creator = ['here\n']
        check(IDelayedCall.providedBy(call), 'the interface')
        sched, at, state, want = 110, 110, 'pending', []
        for i in range(DEPTH):
            what, arg = ch.choose(CALLS, 'operation')
            op()
            refusal = {'cancelled': error.AlreadyCancelled, 'called': error.AlreadyCalled}.get(state)
            if what == 'pass':
                clock[0] += arg
                NOW[0] += arg
            elif what == 'run':
                if state == 'pending':
                    same((call.func, call.args, call.kw), (func, args, kw), 'what is to be called')
                    call.called = 1
                    state = 'called'
            else:
                try:
                    r = getattr(call, what)(*arg)
                except (error.AlreadyCancelled, error.AlreadyCalled) as e:
                    same(type(e), refusal, 'refusal of %s' % what)
                else:
                    same((r, refusal), (None, None), what)
                    if what == 'cancel':
                        state = 'cancelled'
                        want.append(('cancel', True))
                    elif what == 'reset':
                        at = clock[0] + arg[0]
                        if at < sched:
                            sched = at
                            want.append(('reset', True))
                    else:
                        at += arg[0]
                        if at < sched:
                            sched = at
                            want.append(('reset', True))
            same((call.getTime(), bool(call.active()), events), (at, state == 'pending', want), 'time, activity and notices after %d operations' % (i + 1))
            text = str(call)
            if state != 'cancelled' or debug:
                check(name in text, 'the text does not name the function', text, name)
                for a in args:
                    check(repr(a) in text, 'the text does not name the argument', text, a)
                for k, v in kw.items():
                    check('%s=%r' % (k, v) in text, 'the text does not name the argument', text, k)
            if not (debug and state == 'cancelled'):
                check('called=%d cancelled=%d' % (state == 'called', state == 'cancelled') in text.replace('=False', '=0').replace('=True', '=1'), 'the text does not tell the state', text)
            same('here' in text, debug, 'creation in the text')
            ch.obs((at - clock[0], sched - clock[0], state))
        later = base.DelayedCall(sched + 1, func, (), {}, None, None)
        check(call <= later and not later <= call, 'order')


CALLS = [('reset', (3,)), ('delay', (5,)), ('pass', 4), ('delay', (-7,)), ('cancel', ()), ('run', None), ('reset', (30,)), ('delay', (0,)), ('delay', (-0.5,))]


# ---- Clock: both hotfixes which matter to it

def clockwork(ch, name):
    from twisted.internet import error
    from twisted.internet.task import Clock
    with repaired(name, sinceBoot if name == 'delayedcall_seconds' else None):
        clock = Clock()
        now, calls, log = 0, [], []

        def ran(n, *a, **k):
            same((a, k), ((n, 'arg'), {'k': n}), 'arguments')
            calls[n]['ran'] = clock.seconds()
            log.append(n)
            if calls[n]['more']:
                later(1, False)

        def later(delay, more):
            n = len(calls)
            calls.append(dict(at=clock.seconds() + delay, ran=None, more=more, state='pending'))
            op()
            c = clock.callLater(delay, ran, n, n, 'arg', k=n)
            check(not any(c is o['call'] for o in calls[:-1]), 'another call was returned')
            calls[n]['call'] = c
            same(c.getTime(), calls[n]['at'], 'time of the call')

        for i in range(DEPTH):
            what, arg = ch.choose([('later', 2), ('later', 0), ('later', 5), ('advance', 1), ('advance', 4), ('more', 1)] +
                                  [(w, n) for n in range(min(len(calls), 2)) for w in ('cancel', 'soon', 'put off')], 'operation')
            if what in ('later', 'more'):
                later(arg, what == 'more')
            elif what == 'advance':
                now += arg
                before = len(log)
                clock.advance(arg)
                due = [calls[n]['at'] for n in log[before:]]
                same(due, sorted(due), 'times of the calls in the order they ran')
                for n in log[before:]:
                    calls[n]['state'] = 'called'
            else:
                c = calls[arg]
                refusal = {'cancelled': error.AlreadyCancelled, 'called': error.AlreadyCalled}.get(c['state'])
                op()
                try:
                    if what == 'cancel':
                        c['call'].cancel()
                    elif what == 'soon':
                        c['call'].reset(1)
                    else:
                        c['call'].delay(3)
                except (error.AlreadyCancelled, error.AlreadyCalled) as e:
                    same(type(e), refusal, 'refusal')
                else:
                    same(refusal, None, '%s of a call which is %s' % (what, c['state']))
                    if what == 'cancel':
                        c['state'] = 'cancelled'
                    elif what == 'soon':
                        c['at'] = now + 1
                    else:
                        c['at'] += 3
            for n, c in enumerate(calls):
                want = c['state'] == 'called' or (c['state'] == 'pending' and c['at'] <= now and c['ran'] is not None)
                same(c['ran'] is not None, want, 'call %d ran' % n)
                check(c['ran'] is None or c['at'] <= c['ran'], 'a call ran too early')
                if c['state'] == 'pending' and what == 'advance':
                    check(c['at'] > now, 'a call which was due did not run', n)
            same(sorted(log), sorted(set(log)), 'calls made once')
            same(sorted(id(x) for x in clock.getDelayedCalls()), sorted(id(c['call']) for c in calls if c['state'] == 'pending'), 'pending calls')
            ch.obs(tuple((c['state'], c['at'] - now) for c in calls))


# ---- deferredGenerator

def oldGenerators(p):
    from twisted.internet import defer

    class waitForDeferred(object):
        def __init__(self, d):
            self.d = d

        def getResult(self):
            return self.result

    def _deferGenerator(g, deferred=None):
        # enough of the old one for the hotfix to see what it looks for
        for w in g:
            w.d.addCallback(lambda x: setattr(w, 'result', x))

    def deferredGenerator(f):
        def run(*a, **k):
            return defer._deferGenerator(f(*a, **k))
        return run
    for n, v in (('waitForDeferred', waitForDeferred), ('deferredGenerator', deferredGenerator), ('_deferGenerator', _deferGenerator)):
        p.set(defer, n, v)


class Oops(Exception):
    pass


def generators(ch):
    """Every generator of a few steps, every Deferred ready, or fired, or failed later."""
    from twisted.internet import defer
    from twisted.python.failure import Failure
    with repaired('deferredgenerator_tfailure', oldGenerators):
        n = ch.choose(range(1, STEPS + 1), 'steps')
        steps = []
        for i in range(n):
            kind = ch.choose(('wait', 'plain', 'raise', 'deferred'), 'step')
            if kind == 'wait':
                steps.append((kind, ch.choose(('ready', 'before', 'late'), 'when'), ch.choose(('value', 'none', 'fail'), 'outcome'), ch.flag('caught')))
            else:
                steps.append((kind,))
                if kind in ('raise', 'deferred'):
                    break
        ds = [defer.Deferred() for s in steps]
        log = []

        def run(first, key):
            same((first, key), (1, 2), 'arguments')
            for i, s in enumerate(steps):
                log.append(('step', i))
                if s[0] == 'plain':
                    yield i
                elif s[0] == 'raise':
                    raise Oops('raised')
                elif s[0] == 'deferred':
                    yield ds[i]
                else:
                    w = defer.waitForDeferred(ds[i])
                    yield w
                    if s[3]:
                        try:
                            log.append(('got', i, w.getResult()))
                        except Oops as e:
                            log.append(('failed', i, e.args))
                    else:
                        log.append(('got', i, w.getResult()))

        def fire(i):
            o = steps[i][2]
            if o == 'fail':
                ds[i].errback(Failure(Oops(i)))
            else:
                ds[i].callback(i * 10 if o == 'value' else None)

        def upto(fired):
            """What has happened once those Deferreds have fired: log and result."""
            want, result = [], None
            for i, s in enumerate(steps):
                want.append(('step', i))
                if s[0] == 'plain':
                    result = i
                elif s[0] == 'raise':
                    return want, ('fail', Oops)
                elif s[0] == 'deferred':
                    return want, ('fail', TypeError)
                else:
                    result = None
                    if i not in fired:
                        return want, None
                    if s[2] != 'fail':
                        want.append(('got', i, i * 10 if s[2] == 'value' else None))
                    elif s[3]:
                        want.append(('failed', i, (i,)))
                    else:
                        return want, ('fail', Oops)
            return want, ('ok', result)

        fired = set()
        for i, s in enumerate(steps):
            if s[0] == 'wait' and s[1] == 'ready':
                fire(i)
                fired.add(i)
        op()
        d = defer.deferredGenerator(run)(1, key=2)
        check(isinstance(d, defer.Deferred), 'result of the call', d)
        out = []
        d.addCallbacks(lambda r: out.append(('ok', r)), lambda f: out.append(('fail', f.type)))

        def compare():
            want, result = upto(fired)
            same((log, out), (want, [] if result is None else [result]), 'steps taken and result, with %r fired, of %r' % (sorted(fired), steps))
            ch.obs((len(want), result))
        compare()
        # those which fire out of turn, and then the others in turn
        for when in ('before', 'late'):
            for i, s in reversed(list(enumerate(steps))) if when == 'before' else enumerate(steps):
                if s[0] == 'wait' and s[1] == when:
                    op()
                    fire(i)
                    fired.add(i)
                    compare()
        for x in ds:
            x.addErrback(lambda f: None)


# ---- StringTransport

def transport(case):
    from twisted.test import proto_helpers
    with repaired('proto_helpers_stringtransport'):
        t, other = proto_helpers.StringTransport(), proto_helpers.StringTransport()
        want = b''
        for x in case:
            op()
            if isinstance(x, str):
                try:
                    t.write(x)
                except TypeError:
                    pass
                else:
                    check(False, 'text was accepted', x)
            else:
                same(t.write(x), None, 'write')
                want += bytes(x)
            same(t.value(), want, 'what was written')
        same(other.value(), b'', 'what was written to another')
        t.clear()
        t.write(b'again')
        same((t.value(), want == b''), (b'again', not want), 'what was written after clearing')
    return want


# ---- assertWarns

FILES = ['/x/one.py', '/x/two.py']
class Narrower(UserWarning):
    pass


CATEGORIES = [UserWarning, Narrower, DeprecationWarning]


def warned(case):
    from twisted.trial import unittest
    shown, category, message, filename, filters, ends, times = case

    class T(unittest.TestCase):
        def test(self):
            pass
    with repaired('trial_assertwarns'):
        t = T('test')
        registry = {}

        def f(*a, **k):
            same((a, k), ((1, 2), {'k': 3}), 'arguments')
            for c, m, fn in shown:
                warnings.warn_explicit(m, c, fn, 7, 'module', registry)
            if ends == 'raise':
                raise Oops('raised')
            return ends
        with warnings.catch_warnings():
            warnings.simplefilter(filters)
            state = list(warnings.filters), warnings.showwarning, warnings.warn_explicit
            for i in range(times):
                op()
                # names as they are kept for compiled files
                expected = filename + 'c' if i == 1 else filename
                try:
                    got = 'ok', (t.failUnlessWarns if i % 2 else t.assertWarns)(category, message, expected, f, 1, 2, k=3)
                except Oops:
                    got = 'raised', None
                except t.failureException:
                    got = 'fail', None
                if ends == 'raise':
                    want = 'raised', None
                elif shown and all(s[:2] == (category, message) for s in shown) and expected.startswith(shown[0][2]):
                    want = 'ok', ends
                else:
                    want = 'fail', None
                same(got, want, 'the assertion, %d' % (i + 1))
                same((list(warnings.filters), warnings.showwarning, warnings.warn_explicit), state, 'treatment of warnings afterwards')
    return got


def plainWarn(case):
    """Warnings as programs give them."""
    from twisted.trial import unittest
    how, filters = case

    class T(unittest.TestCase):
        def test(self):
            pass

    def f():
        for i in range(2):
            if how == 'text':
                warnings.warn('message', DeprecationWarning)
            elif how == 'instance':
                warnings.warn(DeprecationWarning('message'))
            elif how == 'caller':
                warnings.warn('message', category=DeprecationWarning, stacklevel=2)
        return 5
    with repaired('trial_assertwarns'):
        t = T('test')
        import twisted.trial.unittest
        with warnings.catch_warnings():
            warnings.simplefilter(filters)
            for i in range(3):
                where = sys.modules['epsilon.hotfixes.trial_assertwarns'].__file__ if how == 'caller' else __file__
                op()
                try:
                    same(t.assertWarns(DeprecationWarning, 'message', where, f), 5, 'result')
                    check(how != 'none', 'no warning is not what was asserted')
                except t.failureException as e:
                    check(how == 'none', 'the warning was not seen', how, e)
    return case


# ---- plugin paths

def plugins(case):
    """Where the function does not exist it is supplied: for every layout of directories."""
    import shutil, tempfile
    import twisted.plugin
    kinds, name = case
    top = tempfile.mkdtemp(prefix='mc-c43-')
    saved = list(sys.path)
    try:
        with repaired('plugin_package_paths'):
            dirs = []
            for i, kind in enumerate(kinds):
                d = os.path.join(top, str(i))
                sub = os.path.join(d, *name.split('.'))
                os.makedirs(sub if kind != 'none' else d)
                if kind not in ('none', 'dir'):
                    open(os.path.join(sub, kind), 'w').close()
                dirs.append(d)
            sys.path[:] = dirs
            op()
            same(twisted.plugin.pluginPackagePaths(name),
                 [os.path.join(d, *name.split('.')) for d, k in zip(dirs, kinds) if k != '__init__.py'], 'directories')
            sys.path[:] = saved
        return case
    finally:
        sys.path[:] = saved
        shutil.rmtree(top)


# ---- loopback

def oldLoopback(p, reactor):
    """The loopback transport as it was before Twisted 8.2, which ran a protocol from within its own write."""
    import twisted.internet
    from twisted.internet import defer, main
    from twisted.protocols import loopback
    from twisted.python import failure

    def pump(q, target):
        sent = False
        while q:
            sent = True
            data = q.get()
            if data:
                target.dataReceived(data)
        return sent

    def body(server, toClient, client, toServer):
        while True:
            sent = pump(toClient, client)
            sent = pump(toServer, server) or sent
            if toClient.disconnect or toServer.disconnect:
                pump(toClient, client)
                pump(toServer, server)
                for x in (server, client):
                    x.connectionLost(failure.Failure(main.CONNECTION_DONE))
                return defer.succeed(None)
            if not sent:
                d = defer.Deferred()
                toClient._notificationDeferred = toServer._notificationDeferred = d
                d.addCallback(lambda r: loopback._loopbackAsyncContinue(r, server, toClient, client, toServer))
                return d

    def again(ignored, server, toClient, client, toServer):
        toServer._notificationDeferred = toClient._notificationDeferred = None
        return body(server, toClient, client, toServer)
    p.set(loopback, '_loopbackAsyncBody', body)
    p.set(loopback, '_loopbackAsyncContinue', again)
    p.set(twisted.internet, 'reactor', reactor)


def loop(ch):
    from twisted.internet.task import Clock
    from twisted.protocols import loopback
    clock = Clock()
    with repaired('loopbackasync_reentrancy', lambda p: oldLoopback(p, clock)):
        busy = [None]

        class End(object):
            def __init__(self, name):
                self.name, self.got, self.sent, self.lost, self.gone = name, b'', b'', 0, False

            def makeConnection(self, transport):
                self.transport = transport

            def enter(self):
                check(busy[0] is None, 'a protocol was run from within a write', busy[0], self.name)
                busy[0] = self.name

            def act(self, what):
                for i in range({'one': 1, 'two': 2}.get(what, 0)):
                    data = ('%s%d.' % (self.name, len(self.sent))).encode()
                    self.sent += data
                    self.transport.write(data)
                if what == 'lose' and not self.gone:
                    self.gone = True
                    self.transport.loseConnection()

            def dataReceived(self, data):
                self.enter()
                check(not self.lost, 'data after the end')
                self.got += data
                if len(events) < EVENTS:
                    what = ch.choose(('nothing', 'one', 'two', 'lose'), '%s answers' % self.name)
                    events.append(what)
                    if not any(e.gone for e in ends):
                        self.act(what)
                busy[0] = None

            def connectionLost(self, reason):
                self.enter()
                self.lost += 1
                busy[0] = None
        events, done = [], []
        ends = server, client = End('s'), End('c')
        q1, q2 = loopback._LoopbackQueue(), loopback._LoopbackQueue()
        server.makeConnection(loopback._LoopbackTransport(q1))
        client.makeConnection(loopback._LoopbackTransport(q2))
        op()
        loopback._loopbackAsyncBody(server, q1, client, q2).addCallbacks(done.append, lambda f: done.append(f.value))
        for i in range(DEPTH):
            who, what = ch.choose([(None, 'run')] + [(e, w) for e in ends for w in ('one', 'two', 'lose')], 'next')
            if who is None:
                clock.advance(1)
            elif not any(e.gone for e in ends):
                busy[0] = 'the application'
                op()
                who.act(what)
                busy[0] = None
            ch.obs((server.got, client.got, len(done)))
        if not any(e.gone for e in ends):
            busy[0] = 'the application'
            server.act('lose')
            busy[0] = None
        for i in range(20):
            clock.advance(1)
        same((server.got, client.got), (client.sent, server.sent), 'what was received')
        same((server.lost, client.lost, done), (1, 1, [None]), 'the end of the connection')
        same(len(clock.getDelayedCalls()), 0, 'calls left over')


def missing(case):
    """The hotfix which can not be installed."""
    name = 'filepath_copyTo'
    try:
        with repaired(name):
            from twisted.python import filepath
            check(filepath.FilePath('a') == filepath.FilePath('a'), 'equal paths are unequal')
    except ImportError as e:
        known('install:' + name, 'requiring %s where it is needed raises %s: %s' % (name, type(e).__name__, e))
    return case


DEPTH = STEPS = EVENTS = 0




def run(ctx):
    global DEPTH, STEPS, EVENTS
    q = ctx.quick
    ctx.assumptions += ['the defective libraries are simulated: the hotfixes are for versions of Twisted which do not run on Python 3']
    items = [b'', b'a', b'\0\xff', u'', u'a', u'\xe9', b'x' * 70000, 'bytes']
    ctx.sweep('transport', [c for n in range(4) for c in itertools.product(items, repeat=n)], transport, parallel=True)
    W = [(c, m, f) for c in CATEGORIES[:2] for m in ('one', 'two') for f in FILES]
    ctx.sweep('warnings', [(s, c, m, f, fl, e, 3) for n in range(3 if q else 4) for s in itertools.product(W, repeat=n) for c in CATEGORIES for m in ('one', 'two', '')
                           for f in FILES for fl, e in (('default', 5), ('ignore', None), ('error', 'x'), ('once', 'raise'))], warned, parallel=True)
    ctx.sweep('given-warnings', [(h, f) for h in ('text', 'instance', 'caller', 'none') for f in ('default', 'ignore', 'error', 'once', 'module')], plainWarn)
    ctx.sweep('plugins', [(k, n) for r in range(4) for k in itertools.product(('none', 'dir', '__init__.py', 'other.py', '__init__.pyc'), repeat=r)
                          for n in ('p', 'a.b.c')], plugins, parallel=True)
    DEPTH = 4 if q else 5
    ctx.explore('timeouts', timeouts, parallel=True)
    DEPTH = 3 if q else 5
    ctx.explore('delayed-calls', delayed, parallel=True)
    DEPTH = 4 if q else 5
    for name in ('internet_task_Clock', 'delayedcall_seconds'):
        ctx.explore('clock-' + name, lambda ch: clockwork(ch, name), parallel=True)
    STEPS = 3 if q else 4
    ctx.explore('generators', generators, parallel=True)
    DEPTH, EVENTS = (3, 2) if q else (4, 3)
    ctx.explore('loopback', loop, parallel=True)
    ctx.sweep('unavailable', [0], missing)
