"""
C09: each Juice request gets its own answer, exactly once, or a failure.
"""
import re

from twisted.internet.defer import Deferred, maybeDeferred

from twisted.internet.error import ConnectionDone, ConnectionLost

from mc.core import check, same, op, Violation
from mc.net import Link, reason
from mc import juicenet
from mc.juicenet import DeclaredA, Undeclared


ASKED = re.compile(b'^-ask: (.*)\r\n', re.I | re.M)


class Request(object):
    def __init__(self, side, n, kind):
        self.side, self.n, self.kind = side, n, kind
        self.got = []
        self.answered = None       # what its handler was made to produce


class World(object):
    def __init__(self, ch=None):
        self.pending = []
        self.asks = juicenet.catalogue()
        self.parties = juicenet.parties(self.pending, 2, self.asks)
        self.link = Link(*self.parties)
        self.requests = []
        self.lost = [None, None]
        self.again = False

    def send(self, side, kind):
        """kind: ask (a Command), raw (a bare box), quiet (no answer wanted)"""
        op()
        r = Request(side, len(self.requests) + 1, kind)
        self.requests.append(r)
        p = self.parties[side]
        Ask = self.asks[0]
        if kind == 'ask':
            d = maybeDeferred(Ask(n=r.n).do, p)
        elif kind == 'raw':
            d = maybeDeferred(p.sendCommand, 'raw', n=str(r.n))
        elif kind == 'quiet':
            x = maybeDeferred(Ask(n=r.n).do, p, requiresAnswer=False)
            x.addBoth(r.got.append)
            return r

        def done(result):
            r.got.append(result)
            if self.again and hasattr(result, 'check') and self.lost[side]:
                # ask again from inside the failure
                self.again = False
                r2 = self.send(side, 'ask')
                same(len(r2.got), 1, 'a request made while the connection is being lost fails at once')
            return None
        d.addBoth(done)
        if self.lost[side]:
            same(len(r.got), 1, 'a request on a lost connection must fail at once')
        else:
            same(r.got, [], 'a request was answered before anything was received')
        return r

    def handlers(self):
        return [(h[0], h[1]) for h in self.pending]

    def answer(self, i, kind):
        """Let the i-th waiting handler finish."""
        op()
        who, n, d = self.pending.pop(i)
        r = self.requests[n - 1]
        check(r.side == 1 - who, 'a command ran on the wrong side')
        check(r.answered is None, 'a command ran twice')
        r.answered = kind
        if kind == 'ok':
            if r.kind == 'raw':
                from epsilon.juice import JuiceBox
                d.callback(JuiceBox(n=str(n), who=str(who)))
            else:
                d.callback({'n': n, 'who': who})
        else:
            d.errback(DeclaredA('no %d' % n))

    def lose(self, side):
        op()
        self.lost[side] = True
        self.why = reason('lost' if side else 'done')
        self.link.lose(side, self.why)

    def checkAll(self, arrived):
        """arrived: the answers known to have been delivered to the asking side"""
        for r in self.requests:
            check(len(r.got) <= 1, 'request %d completed %d times' % (r.n, len(r.got)), r.got)
            if r.kind == 'quiet':
                continue
            if r.got:
                g = r.got[0]
                if hasattr(g, 'check'):
                    if self.lost[r.side] and not (r.answered and g.check(DeclaredA)):
                        check(g.check(ConnectionDone, ConnectionLost),
                              'request %d did not fail with the connection\'s failure' % r.n, g)
                        continue
                    check(r.answered == 'fail' or (r.answered is not None and r.kind == 'raw'),
                          'request %d failed for no reason' % r.n, g, r.answered)
                    if r.kind == 'ask':
                        check(g.check(DeclaredA), 'request %d failed otherwise than its handler' % r.n, g)
                        same(str(g.value), 'no %d' % r.n, 'error of request %d' % r.n)
                else:
                    same(r.answered, 'ok', 'request %d succeeded' % r.n)
                    same((int(g['n']), int(g['who'])), (r.n, 1 - r.side), 'answer to request %d' % r.n)
            else:
                check(not self.lost[r.side], 'request %d is still waiting on a lost connection' % r.n)

    def idle(self):
        """Everything delivered: exactly the answered requests are complete."""
        if any(self.lost) or self.link.waiting(0) or self.link.waiting(1):
            return
        for r in self.requests:
            if r.kind != 'quiet':
                same(bool(r.got), r.answered is not None, 'completion of request %d with nothing in flight' % r.n)

    def settleClose(self):
        for s in (0, 1):
            if self.link.trans[s].disconnecting and not self.link.waiting(1 - s) and not self.lost[s]:
                self.lose(s)
                if not self.lost[1 - s]:
                    self.lose(1 - s)


def schedules(depth, maxreq, kinds, split=False, lossy=True, again=False):
    def scenario(ch):
        w = World()
        w.again = again
        for k in range(depth):
            acts = []
            if len(w.requests) < maxreq:
                for s in (0, 1):
                    for kind in kinds:
                        if not (w.lost[s] and kind == 'quiet'):
                            acts.append(('send', s, kind))
            for to in (0, 1):
                n = w.link.waiting(to)
                if n and not w.lost[to]:
                    acts.append(('deliver', to, n))
                    if split and n > 1:
                        acts.append(('deliver', to, n // 2))
                        acts.append(('deliver', to, n - 1))
            for i in range(len(w.pending)):
                acts.append(('answer', i, 'ok'))
                if w.requests[w.pending[i][1] - 1].kind == 'ask':
                    acts.append(('answer', i, 'fail'))
            if lossy:
                acts += [('lose', s) for s in (0, 1) if not w.lost[s]]
            if not acts:
                break
            a = ch.choose(acts, 'do')
            if a[0] == 'deliver':
                op()
                w.link.deliver(a[1], a[2])
            else:
                getattr(w, a[0])(*a[1:])
            w.settleClose()
            w.checkAll(None)
            w.idle()
            ch.obs(([(r.side, r.kind, len(r.got), r.answered) for r in w.requests], w.lost,
                    len(w.pending), [bool(w.link.waiting(t)) for t in (0, 1)]))
        # let it all end
        if not any(w.lost):
            w.link.pump()
            w.checkAll(None)
            w.idle()
            while w.pending:
                w.answer(0, 'ok')
                w.link.pump()
            w.checkAll(None)
            w.idle()
        for s in (0, 1):
            if not w.lost[s]:
                w.lose(s)
        w.checkAll(None)
        for r in w.requests:
            if r.kind == 'quiet':
                same(r.got, [None], 'result of a request which wants no answer')
            else:
                same(len(r.got), 1, 'completions of request %d in the end' % r.n)
        while w.pending:
            # handlers that finish after the connection is gone disturb nobody
            w.answer(0, 'ok')
        ch.obs('end')
    return scenario


def quietOnTheWire(case):
    """Requests without answer: nothing comes back, nothing is left."""
    kinds, outcome = case
    w = World()
    for k, kind in enumerate(kinds):
        w.send(k % 2, kind)
    w.link.pump()
    while w.pending:
        w.answer(0, outcome if w.requests[w.pending[0][1] - 1].kind == 'quiet' and outcome == 'ok' else 'ok')
    w.link.pump()
    asked = {}
    for s in (0, 1):
        boxes = juicenet.boxesOf(w.link.trans[s].written)
        asks = [b for b in boxes if '_command' in b]
        answers = [b for b in boxes if '_answer' in b or '_error' in b]
        same(len(asks) + len(answers), len(boxes), 'boxes on the wire')
        same(len([b for b in asks if '_ask' in b]),
             len([r for r in w.requests if r.side == s and r.kind != 'quiet']), 'requests wanting an answer')
        same(len(answers), len([r for r in w.requests if r.side != s and r.kind != 'quiet']), 'answers')
    w.checkAll(None)
    w.idle()
    return kinds


def many(case):
    n, order, quietEvery, lose, step = case
    w = World()
    for k in range(n):
        w.send(k % 2 if order != 'one-side' else 0, 'quiet' if quietEvery and k % quietEvery == 0 else ('ask', 'raw')[k % 3 == 0])
        if step and k % step == 0:
            w.link.pump()
    w.link.pump()
    same(len(w.pending), n, 'handlers running')
    check(not any(t.disconnecting for t in w.link.trans), 'a connection was closed')
    k = 0
    stop = n // 2 if lose else 0
    while len(w.pending) > stop:
        if order in ('fifo', 'one-side'):
            i = 0
        elif order == 'lifo':
            i = len(w.pending) - 1
        else:
            i = (k * 7919) % len(w.pending)
        r = w.requests[w.pending[i][1] - 1]
        w.answer(i, 'fail' if r.kind == 'ask' and k % 5 == 0 else 'ok')
        if k % 17 == 0:
            w.link.pump()
            w.checkAll(None)
            w.idle()
        k += 1
    w.link.pump()
    w.checkAll(None)
    w.idle()
    w.lose(0)
    w.lose(1)
    w.checkAll(None)
    for r in w.requests:
        same(len(r.got), 1, 'completions of request %d' % r.n)
    return case


def long(case):
    """
    Requests which stay outstanding, at both ends, while very many others are
    made and answered: each still gets its own answer afterwards.
    """
    n, held, quietEvery, lose = case
    w = World()
    early = [w.send(k % 2, ('ask', 'raw')[k % 2]) for k in range(held)]
    w.link.pump()
    same(len(w.pending), held, 'handlers running')
    p, other = w.parties[0], w.link.trans[0]
    got = []
    for k in range(n):
        if quietEvery and k % quietEvery == 0:
            w.asks[0](n=1).do(p, requiresAnswer=False)
            other.forget()
            continue
        before = len(got)
        op()
        d = p.sendCommand('elsewhere', n=str(k))
        d.addBoth(got.append)
        tag = ASKED.findall(other.forget())[-1]
        check(len(got) == before, 'answered before anything was received')
        p.dataReceived(b'-Answer: %s\r\nN: %d\r\n\r\n' % (tag, k))
        same(len(got), before + 1, 'completions')
        same(getattr(got[-1], 'get', lambda x: got[-1])('n'), str(k), 'answer')
        del got[:]
        check(not any(r.got for r in early), 'a request completed which nobody answered', case, k)
    if lose:
        w.lose(0)
        w.lose(1)
    else:
        while w.pending:
            w.answer(len(w.pending) - 1, 'ok')
            w.link.pump()
        w.idle()
    w.checkAll(None)
    for r in early:
        same(len(r.got), 1, 'completions of request %d' % r.n)
    return case


def unattended(case):
    """
    Requests whose callers only look at the result after the connection is
    gone: each has failed, whatever became of the others.
    """
    who, answered, why = case
    w = World()
    kept = []
    for k, (side, late) in enumerate(who):
        op()
        d = w.parties[side].sendCommand('raw', n=str(k + 1)) if k % 2 else w.asks[0](n=k + 1).do(w.parties[side])
        r = Request(side, k + 1, 'raw' if k % 2 else 'ask')
        w.requests.append(r)
        if late:
            kept.append((d, r))
        else:
            d.addBoth(r.got.append)
    w.link.pump()
    same(len(w.pending), len(who), 'handlers running')
    for i in range(answered):
        w.answer(0, 'ok')
        w.link.pump()
    for s in (0, 1):
        w.lose(s)
    for d, r in kept:
        d.addBoth(r.got.append)
    w.checkAll(None)
    for r in w.requests:
        same(len(r.got), 1, 'completions of request %d' % r.n)
    return case


def run(ctx):
    ctx.assumptions += ['both ends are this implementation; callers handle the failures of their requests']
    q = ctx.quick
    ctx.explore('asks', schedules(9 if q else 11, 2, ('ask',)), parallel=True)
    ctx.explore('three', schedules(7 if q else 8, 3, ('ask',), lossy=False), parallel=True)
    ctx.explore('kinds', schedules(6 if q else 7, 3, ('ask', 'raw', 'quiet')), parallel=True)
    ctx.explore('split', schedules(6 if q else 8, 2, ('ask', 'raw'), split=True), parallel=True)
    ctx.explore('again', schedules(6 if q else 8, 3, ('ask',), again=True), parallel=True)
    import itertools
    ctx.sweep('quiet', [(k, o) for n in (1, 2, 3, 4) for k in itertools.product(('ask', 'quiet', 'raw'), repeat=n)
                        for o in ('ok',)], quietOnTheWire)
    ctx.sweep('unattended', [(w, a, 'lost') for n in (1, 2, 3, 4) for w in itertools.product(((0, True), (0, False), (1, True), (1, False)), repeat=n)
                             for a in (0, 1) if a < n and not (a and w[0][1])], unattended, parallel=True)
    ctx.sweep('many', [(n, o, qe, l, s) for n in (17, 40, 300 if q else 5000) for o in ('fifo', 'lifo', 'mixed', 'one-side')
                       for qe in (0, 3) for l in (False, True) for s in (0, 1)], many, parallel=True)
    ctx.sweep('long', [(n, h, qe, l) for n in ((300, 4200) if q else (300, 4200, 1100000)) for h in (1, 2, 4) for qe in (0, 2) for l in (False, True)] +
              [(66000, 2, 0, False)], long, parallel=True)
