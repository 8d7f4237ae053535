"""
C27: react runs the reactor until the main result fires, and stops it once.

The reactor is Twisted's own reactor core (ReactorBase) with virtual time and
no descriptors; every moment at which the result can fire and at which someone
else can stop the reactor is enumerated.
"""
import itertools

from mc.core import check, same, op
import mc.core as core


class Wanted(Exception):
    pass


def reactorClass():
    from twisted.internet.base import ReactorBase

    class VirtualReactor(ReactorBase):
        """ReactorBase with virtual time."""
        _registerAsIOThread = False

        def __init__(self):
            self.now = 0.0
            self.tick = None
            self.stuck = False
            self.runs = 0
            self.stops = 0
            self.events = []
            ReactorBase.__init__(self)

        def seconds(self):
            return self.now

        def installWaker(self):
            pass

        def wakeUp(self):
            pass

        def run(self, installSignalHandlers=True):
            self.runs += 1
            ReactorBase.run(self, False)

        def stop(self):
            ReactorBase.stop(self)      # raises if there is nothing to stop
            self.stops += 1
            self.events.append(('stop', self.now))

        def doIteration(self, delay):
            if not self._started or self.threadCallQueue or self._justStopped:
                return
            self._insertNewDelayedCalls()
            calls = self.getDelayedCalls()
            if not calls:
                # nothing can ever happen again
                self.stuck = True
                self.crash()
                return
            # whole seconds: several calls can share an iteration
            self.now = max(self.now, float(-(-min(c.getTime() for c in calls) // 1)))

        def removeAll(self):
            return []

        def getReaders(self):
            return []
        getWriters = getReaders

        def addReader(self, x):
            pass
        addWriter = removeReader = removeWriter = addReader
    return VirtualReactor


class OddException(Wanted, KeyError):
    pass


def kinds():
    from twisted.internet.error import ReactorNotRunning, ConnectionLost
    return [SystemExit, KeyboardInterrupt, GeneratorExit, StopIteration, ReactorNotRunning, OddException, BaseException, ConnectionLost]


KINDS = kinds()
CLASS = None
MOMENTS = ['early', 'main', 'main-after', 'before-startup', 'running', 'thread', 'timer0', 'timer0.6', 'timer1', 'timer2', 'on-result', 'before', 'before-late', 'during', 'after']


def at(r, when, what):
    """Have what() called at that moment."""
    if when == 'before-startup':
        r.addSystemEventTrigger('before', 'startup', what)
    elif when in ('running', 'early', 'main-after'):
        r.callWhenRunning(what)
    elif when == 'thread':
        r.callFromThread(what)
    elif when.startswith('timer'):
        r.callLater(float(when[5:]), what)
    elif when == 'before-late':
        from twisted.internet.defer import Deferred

        def slow():
            d = Deferred()

            def go():
                what()
                d.callback(None)
            r.callLater(5, go)
            return d
        r.addSystemEventTrigger('before', 'shutdown', slow)
    elif when in ('before', 'during', 'after'):
        r.addSystemEventTrigger(when, 'shutdown', what)
    else:
        raise AssertionError(when)


def scenario(case):
    from twisted.internet.defer import Deferred, succeed, fail
    from twisted.internet.error import ReactorNotRunning
    from epsilon.react import react
    result, fails, stops, argv, chained = case
    logged = core._ctx.logged
    del logged[:]
    r = CLASS()
    ev = r.events
    for phase in ('before', 'during', 'after'):
        r.addSystemEventTrigger(phase, 'startup', ev.append, ('startup', phase))
        r.addSystemEventTrigger(phase, 'shutdown', lambda phase=phase: ev.append(('shutdown', phase, r.now)))
    state = {'fired': None, 'calls': [], 'others': 0, 'refused': 0}

    def stopper():
        op()
        try:
            r.stop()
        except ReactorNotRunning:
            state['refused'] += 1
        else:
            state['others'] += 1
    for s in stops:
        if s == 'early':
            at(r, s, stopper)
    held = []

    def main(reactor, *args):
        state['calls'].append((reactor, args))
        check(reactor is r and not r.running and r.runs == 0, 'main called once the reactor runs')
        d = Deferred()
        inner = Deferred()

        def fire():
            op()
            state['fired'] = r.now
            if fails:
                inner.errback(fails('x'))
            else:
                inner.callback('result')
        for s in stops:
            if s in ('on-result',):
                inner.addBoth(lambda x: (stopper(), x)[1])
        order = [s for s in stops if s not in ('early', 'on-result', 'main-after')]
        for s in order:
            if s == 'main':
                stopper()       # not running yet: refused
            else:
                at(r, s, stopper)
        if result == 'main':
            fire()
        elif result == 'return':
            held.append(fire)
        elif result != 'never':
            at(r, result, fire)
        for s in stops:
            if s == 'main-after':
                at(r, s, stopper)
        if chained:
            d.callback(None)
            d.addCallback(lambda ign: inner)
            return d
        return inner
    args = list(argv)
    got = react(r, main, args)
    same(got, None, 'result of react')
    same(args, list(argv), 'the arguments afterwards')
    same(len(state['calls']), 1, 'calls of main')
    same(state['calls'][0][1], tuple(argv), 'arguments of main')
    same(r.runs, 1, 'runs of the reactor')
    check(not r.stuck, 'the reactor was left running with nothing to stop it', ev)
    check(not r.running, 'react returned while the reactor runs')
    same([e for e in ev if e[0] == 'startup'], [('startup', p) for p in ('before', 'during', 'after')], 'startup')
    downs = [e for e in ev if e[0] == 'shutdown']
    same([e[1] for e in downs], ['before', 'during', 'after'], 'shutdown events')
    same(r.stops, 1, 'times the reactor was stopped')
    names = [e[0] for e in ev]
    check(names.index('shutdown') > max(i for i, n in enumerate(names) if n == 'startup'), 'shut down before it had started', ev)
    if not stops:
        same(downs[0][2], state['fired'], 'time of the shutdown')
    for h in held:
        h()
    same(r.stops, 1, 'times the reactor was stopped in the end')
    errors = [e.get('log_failure') or e.get('failure') for e in logged]
    same([getattr(e, 'type', e) for e in errors], [fails] if fails and state['fired'] is not None else [], 'errors logged')
    del logged[:]
    return downs[0][2], state['others'], state['refused'], fails


def cases(q):
    results = [m for m in MOMENTS if m not in ('early', 'main-after', 'on-result')] + ['never', 'return']
    out = []
    n = 3 if q else 4
    sets = [s for k in range(n + 1) for s in itertools.product(MOMENTS, repeat=k)
            if len(set(s)) == len(s)]
    ends = ('before', 'before-late', 'during', 'after')      # happen only once someone stops it
    for res in results:
        for s in sets:
            live = [x for x in s if x not in ends + ('main', 'on-result')]
            if res in ends + ('never', 'return') and not live:
                continue
            if res == 'never' and 'on-result' in s:
                continue
            for fails in (None, Wanted):
                if fails and res == 'never':
                    continue
                for chained in (False, True):
                    out.append((res, fails, s, ('a', 'b'), chained))
    for a in ((), (1,), (None,), ('x', ()), (1, 2, 3, 4)):
        out.append(('timer1', None, (), a, False))
        out.append(('main', Wanted, (), a, False))
    for f in KINDS:
        for res in results:
            for s in sets:
                live = [x for x in s if x not in ends + ('main', 'on-result')]
                if len(s) <= 1 and (live or res not in ends + ('never', 'return')) and res != 'never':
                    out.append((res, f, s, (), False))
    return out


def run(ctx):
    global CLASS
    CLASS = reactorClass()
    ctx.assumptions += ["Twisted's ReactorBase is the reactor; time is virtual and there are no descriptors",
                        'main returns a Deferred']
    ctx.sweep('react', cases(ctx.quick), scenario, parallel=True)
