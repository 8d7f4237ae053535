"""
C28: pending events and scheduled iterators complete exactly once.
"""
import itertools

from mc.core import check, same, op, Alike


class Boom(Exception):
    pass


class Hollow(Boom):
    """An error which is false."""
    def __len__(self):
        return 0


# -- pending events

def pending(ch):
    """
    Every history of obtaining waiters (which may themselves obtain another,
    announce something, or raise when they fire), announcing and cancelling.
    """
    from epsilon.pending import PendingEvent
    from twisted.internet.defer import CancelledError
    from twisted.python.failure import Failure
    events = [PendingEvent(), PendingEvent()]
    waiting = [[], []]         # model: waiter numbers, in order
    expect = []                # model: what is to be delivered, in order
    got = []
    waiters = []
    cancelled = set()
    n = [0]

    def obtain(e, behaviour):
        i = len(waiters)
        op()
        d = events[e].deferred()
        check(all(d is not w for w in waiters), 'the same waiter twice')
        check(not d.called, 'a waiter which has already fired', i)
        waiters.append(d)
        waiting[e].append(i)

        def fired(x):
            got.append((i, value(x)))
            if behaviour == 'again':
                obtain(e, 'plain')
            elif behaviour == 'announce':
                announce(e, 'value')
            elif behaviour == 'announce-again':
                obtain(e, 'plain')
                announce(e, 'failure')
            elif behaviour == 'raise':
                raise Boom('from a waiter')
            elif behaviour == 'cross':
                obtain(1 - e, 'plain')
                announce(1 - e, 'value')
        d.addBoth(fired)
        d.addErrback(lambda f: None)
        return d

    def value(x):
        if isinstance(x, Failure):
            if x.check(CancelledError):
                return 'cancelled'
            return ('failure', str(x.value))
        return x

    def announce(e, kind):
        n[0] += 1
        tag = 'n%d' % n[0]
        ws, waiting[e] = waiting[e], []
        live = [w for w in ws if w not in cancelled]
        if kind == 'value':
            want = tag
        elif kind == 'none':
            want = None
        elif kind == 'empty':
            want = []
        else:
            want = ('failure', tag)
        before = len(got)
        op()
        if kind == 'value':
            events[e].callback(tag)
        elif kind == 'none':
            events[e].callback(None)
        elif kind == 'empty':
            events[e].callback([])
        elif kind == 'bare':
            events[e].errback(Boom(tag))
        elif kind == 'hollow':
            try:
                raise KeyError('of something else')
            except KeyError:
                events[e].errback(Hollow(tag))
        elif kind == 'failure':
            events[e].errback(Failure(Boom(tag)))
        elif kind == 'current':
            try:
                raise Boom(tag)
            except Boom:
                events[e].errback()
        # nested announcements and new waiters of callbacks come in between
        mine = [g for g in got[before:] if g[0] in live]
        same(mine, [(w, want) for w in live], 'delivered by announcement %s' % (tag,))
        for w in live:
            check(waiters[w].called, 'waiter which did not fire', w)
    for k in range(DEPTH):
        what = ch.choose(('get', 'announce', 'cancel'), 'what')
        e = ch.choose(2, 'event') if k and what != 'cancel' else 0
        if what == 'get':
            obtain(e, ch.choose(('plain', 'again', 'announce', 'announce-again', 'raise', 'cross'), 'behaviour'))
        elif what == 'announce':
            announce(e, ch.choose(('value', 'none', 'empty', 'failure', 'current', 'bare', 'hollow') if k < 2 else ('value', 'none', 'failure', 'current'), 'kind'))
        else:
            live = [i for i in waiting[0] + waiting[1] if i not in cancelled]
            if not live:
                break
            w = ch.choose(live, 'waiter')
            cancelled.add(w)
            before = len(got)
            op()
            waiters[w].cancel()
            same(got[before:before + 1], [(w, 'cancelled')], 'cancelling')
        for e2 in (0, 1):
            for w in waiting[e2]:
                check(waiters[w].called == (w in cancelled), 'a waiter fired without an announcement', w)
        counts = [g[0] for g in got]
        check(len(counts) == len(set(counts)), 'a waiter fired twice', got)
        ch.obs((tuple(got), tuple(map(tuple, waiting))))


# -- scheduling

class FakeTime(object):
    """Virtual time for Twisted's time slices and its reactor's timers."""
    def __init__(self):
        from twisted.internet import task, reactor
        self.clock = task.Clock()
        self.now = 1000.0
        self.saved = (task.time, reactor.callLater if 'callLater' in vars(reactor) else None)
        task.time = self
        reactor.callLater = self.clock.callLater

    def time(self):
        return self.now

    def tick(self):
        self.clock.advance(1)

    def restore(self):
        from twisted.internet import task, reactor
        task.time = self.saved[0]
        if self.saved[1] is None:
            del reactor.callLater
        else:
            reactor.callLater = self.saved[1]


class Iterator(Alike):
    def __init__(self, world, i, script):
        self.w, self.i, self.script = world, i, script
        self.pos = 0
        self.waiting = None
        self.result = []
        self.mayEnd = None      # acceptable results besides the normal one
        self.turns = 0

    def __iter__(self):
        return self

    def __next__(self):
        w = self.w
        op()
        check(w.running, 'iterator %d advanced while the service does not run' % self.i)
        check(not self.result, 'iterator %d advanced after its result fired' % self.i)
        check(self.waiting is None, 'iterator %d advanced while it waits' % self.i)
        w.advances.append(self.i)
        self.turns += 1
        w.time.now += w.slice
        check(self.pos < len(self.script), 'iterator %d advanced after its end' % self.i)
        s = self.script[self.pos]
        self.pos += 1
        if s == 'step':
            return self.pos
        if s == 'wait':
            from twisted.internet.defer import Deferred
            self.waiting = Deferred()
            return self.waiting
        if s == 'end':
            raise StopIteration()
        raise Boom('iterator %d' % self.i)
    next = __next__


SCRIPTS = [('step', 'end'), ('step', 'step', 'step', 'end'), ('boom',), ('step', 'boom'), ('wait', 'end'), ('step', 'wait', 'step', 'end')]


class World(object):
    def __init__(self, ch):
        from epsilon.cooperator import SchedulingService
        self.ch = ch
        self.time = FakeTime()
        self.service = SchedulingService()
        self.running = False
        self.stopped = False
        self.its = []
        self.advances = []
        self.fired = []
        self.slice = 0.001

    def add(self, script, reaction):
        from twisted.internet.task import SchedulerStopped
        it = Iterator(self, len(self.its), script)
        self.its.append(it)
        op()
        d = self.service.addIterator(it)

        def done(x):
            it.result.append(x)
            self.fired.append(it.i)
            if reaction == 'add':
                self.add(('step', 'end'), None)
            elif reaction == 'stop' and self.running:
                self.stop()
            elif reaction == 'start' and not self.running and not self.stopping:
                self.start()
        it.d = d
        it.startedStopped = self.stopped
        d.addBoth(done)
        if it.startedStopped:
            check(len(it.result) == 1, 'an iterator added to a stopped service is told so')
            self.isStopped(it)
            same(it.turns, 0, 'times it was advanced')
        else:
            same(it.result, [], 'result of an iterator just added')

    def isStopped(self, it):
        from twisted.internet.task import SchedulerStopped
        from epsilon.cooperator import SchedulerStopped as S2
        check(S2 is SchedulerStopped, 'the stopped failure')
        check(len(it.result) == 1 and hasattr(it.result[0], 'check') and it.result[0].check(SchedulerStopped),
              'iterator %d got something else than the stopped failure' % it.i, it.result)

    stopping = False

    def start(self):
        op()
        self.running = True
        self.stopped = False
        self.service.startService()

    def stop(self):
        live = [it for it in self.its if not it.result and it.waiting is None]
        waiting = [it for it in self.its if not it.result and it.waiting is not None]
        op()
        self.running = False
        self.stopped = True
        outer, self.stopping = self.stopping, True
        self.service.stopService()
        self.stopping = outer
        for it in live:
            self.isStopped(it)
        for it in waiting:
            it.mayEnd = True       # told now, or when what it waits for is there
            if it.result:
                self.isStopped(it)

    def release(self, it, ok):
        d = it.waiting
        it.waiting = None
        before = len(self.advances)
        op()
        if ok:
            d.callback(None)
        else:
            d.errback(Boom('wait %d' % it.i))
            if not it.mayEnd:
                check(len(it.result) == 1 and it.result[0].check(Boom) and str(it.result[0].value) == 'wait %d' % it.i,
                      'result of an iterator whose wait failed', it.result)
            else:
                check(len(it.result) == 1, 'result', it.result)
        if self.stopped and not self.running:
            self.isStopped(it) if ok else None
        same(self.advances[before:], [], 'advanced at once')

    def tick(self):
        ready = [it for it in self.its if not it.result and it.waiting is None]
        before = len(self.advances)
        self.time.tick()
        op()
        if not self.running and not self.advances[before:]:
            return
        if ready and self.running:
            check(len(self.advances) > before, 'no iterator was advanced', [x.i for x in ready])
        self.verify()

    def verify(self):
        for it in self.its:
            check(len(it.result) <= 1, 'a result fired twice')
            last = it.script[it.pos - 1] if it.pos else None
            if last == 'end':
                check(it.result and it.result[0] is it, 'an exhausted iterator gives itself', it.i, it.result)
            elif last == 'boom':
                check(it.result and it.result[0].check(Boom) and str(it.result[0].value) == 'iterator %d' % it.i,
                      'an iterator which raised gives its error', it.result)
            elif it.result:
                f = it.result[0]
                check(hasattr(f, 'check'), 'an iterator which is not done gave a result', it.i, it.pos, f)

    def close(self):
        self.time.restore()


def scheduling(ch):
    w = World(ch)
    try:
        w.slice = ch.choose((1.0, 0.001), 'slice', dev=True)
        for k in range(SDEPTH):
            opts = ['start' if not w.running else 'stop', 'tick']
            if not w.running and not w.stopped:
                opts.append('stop')
            if len(w.its) < MAXITS:
                opts.append('add')
            waits = [it for it in w.its if it.waiting is not None]
            if waits:
                opts += ['release', 'fail']
            o = ch.choose(opts, 'op')
            if o == 'start':
                w.start()
            elif o == 'stop':
                w.stop()
            elif o == 'tick':
                w.tick()
            elif o == 'add':
                w.add(ch.choose(SCRIPTS, 'script'), ch.choose((None, 'add', 'stop', 'start'), 'reaction', dev=True))
            else:
                w.release(ch.choose(waits, 'which') if len(waits) > 1 else waits[0], o == 'release')
            w.verify()
            ch.obs((w.running, w.stopped, tuple((it.pos, len(it.result), it.waiting is not None) for it in w.its), tuple(w.advances)))
        # in the end everything completes, as long as it runs
        for k in range(60):
            if all(it.result for it in w.its):
                break
            if not w.running:
                w.start()
            for it in w.its:
                if it.waiting is not None:
                    w.release(it, True)
            w.tick()
        for it in w.its:
            same(len(it.result), 1, 'results of iterator %d in the end' % it.i)
    finally:
        w.close()


def fairness(case):
    """Running iterators of given lengths, one advance per slice: none falls behind."""
    lengths, slice, late = case
    w = World(None)
    try:
        w.slice = slice
        for n in lengths[:len(lengths) - late]:
            w.add(('step',) * n + ('end',), None)
        w.start()
        added = len(lengths) - late
        worst = 0
        for k in range(200):
            if all(it.result for it in w.its) and added == len(lengths):
                break
            w.tick()
            if added < len(lengths):
                w.add(('step',) * lengths[added] + ('end',), None)
                added += 1
            # how far the least advanced live iterator is behind, not counting
            # the turn it may lose when another one goes away
            live = [it for it in w.its if not it.result]
            gone = sum(1 for it in w.its if it.result)
            if live and not late:
                lag = max(it.turns for it in live) - min(it.turns for it in live)
                worst = max(worst, lag - gone)
                check(lag <= 1 + gone, 'an iterator is left behind', [(it.i, it.turns) for it in live], lag, gone)
        for it in w.its:
            check(it.result == [it], 'result', it.i, it.result)
            same(it.turns, len(it.script), 'turns')
        if len(set(lengths)) == 1 and slice >= 1 and not late and lengths[0]:
            n = len(lengths)
            same(w.advances[:n * lengths[0]], list(range(n)) * lengths[0], 'order of the turns')
        w.service.stopService()
        return tuple(w.advances), worst
    finally:
        w.close()


def inReactor(case):
    """iterateInReactor: each to its end, result exactly once."""
    from epsilon.cooperator import iterateInReactor
    from twisted.python.failure import Failure
    scripts, slice = case
    t = FakeTime()
    try:
        turns = []

        def run(i, script):
            for s in script:
                t.now += slice
                turns.append(i)
                if s == 'boom':
                    raise Boom(i)
                yield None
        its, results = [], []
        for i, s in enumerate(scripts):
            g = run(i, s)
            its.append(g)
            r = []
            results.append(r)
            op()
            iterateInReactor(g).addBoth(r.append)
        same(turns, [], 'advanced at once')
        for k in range(50):
            t.tick()
        for i, s in enumerate(scripts):
            same(len(results[i]), 1, 'results')
            if 'boom' in s:
                check(isinstance(results[i][0], Failure) and results[i][0].check(Boom), 'an error', results[i])
            else:
                check(results[i][0] is its[i], 'gives the iterator', results[i])
            same(turns.count(i), s.index('boom') + 1 if 'boom' in s else len(s), 'turns')
        return tuple(turns)
    finally:
        t.restore()


DEPTH = 4
SDEPTH = 5
MAXITS = 3


def run(ctx):
    global DEPTH, SDEPTH
    q = ctx.quick
    ctx.assumptions += ["Twisted's Cooperator advances the iterators; its clock and its reactor's timers are virtual",
                        'an iterator which waits for a Deferred when the service stops is told at once or when that fires']
    DEPTH = 4 if q else 5
    ctx.explore('pending-event', pending, parallel=True)
    ctx.explore('service', scheduling, maxdev=1 if q else None, parallel=True)
    ctx.sweep('fairness', [(l, s, late) for n in (1, 2, 3, 4) for l in itertools.product(range(4 if q else 6), repeat=n)
                           for s in (1.0, 0.004, 0.0) for late in ((0, 1) if n > 1 else (0,))], fairness, parallel=True)
    S = [(), ('step',), ('step', 'step', 'step'), ('boom',), ('step', 'boom')]
    ctx.sweep('in-reactor', [(s, sl) for n in (1, 2, 3) for s in itertools.product(S, repeat=n) for sl in (1.0, 0.001)], inReactor)
