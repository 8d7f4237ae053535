"""
C37: Juice protocol versions change only by agreement.
"""
import itertools

from twisted.internet.defer import maybeDeferred

from mc.core import check, same, op
from mc.net import Link, reason, pieces
from mc import juicenet


class Supporting(object):
    """
    What each side supports: the list of versions is one per process, so it is
    set to the right one whenever a side is given control.
    """

    def __init__(self, lists):
        self.lists = [list(l) for l in lists]

    def of(self, side):
        from epsilon import juice
        keep = juice.VERSIONS
        world = self

        class Scope(object):
            def __enter__(self):
                juice.VERSIONS = list(world.lists[side])

            def __exit__(self, *exc):
                left = juice.VERSIONS
                juice.VERSIONS = keep
                if exc[0] is None:
                    same(left, world.lists[side], 'list of supported versions')
        return Scope()


class World(object):
    def __init__(self, lists):
        self.support = Supporting(lists)
        self.pending = []
        self.asks = juicenet.catalogue()
        self.parties = juicenet.parties(self.pending, 2, self.asks)
        self.link = Link(*self.parties)
        self.start = [p.protocolVersion for p in self.parties]
        self.model = list(self.start)
        self.talks = []            # [side, version, results]
        self.asked = []
        self.lost = [False, False]
        self.parsed = [{}, {}]

    def versions(self):
        return [p.protocolVersion for p in self.parties]

    def offer(self, side, versions):
        """The bare command, as any peer may send it."""
        from epsilon import juice
        op()
        got = []
        with self.support.of(side):
            d = maybeDeferred(lambda: juice.Negotiate(versions=list(versions)).do(self.parties[side]))
        d.addBoth(got.append)
        return got

    def renegotiate(self, side, version):
        op()
        before = len(self.link.trans[side].written)
        got = []
        with self.support.of(side):
            d = maybeDeferred(self.parties[side].renegotiateVersion, version)
        d.addBoth(got.append)
        if version not in self.support.lists[side]:
            check(got and hasattr(got[0], 'check'), 'a version this side does not support was not refused', got)
            same(len(self.link.trans[side].written), before, 'bytes sent for a version this side does not support')
            return None
        talk = [side, version, got]
        self.talks.append(talk)
        if self.lost[side]:
            check(got and hasattr(got[0], 'check'), 'negotiation over a lost connection')
        else:
            same(got, [], 'a negotiation ended before anything was received')
        return talk

    def busy(self):
        return [t for t in self.talks if not t[2]]

    def deliver(self, to, n=None):
        op()
        with self.support.of(to):
            self.link.deliver(to, n)

    def closing(self):
        for s in (0, 1):
            if self.link.trans[s].disconnecting and not self.link.waiting(1 - s):
                for k in (s, 1 - s):
                    self.lose(k)

    def lose(self, side):
        if not self.lost[side]:
            self.lost[side] = True
            with self.support.of(side):
                self.link.lose(side, reason('lost' if side else 'done'))

    def pump(self):
        for i in range(1000):
            if not (self.link.waiting(0) or self.link.waiting(1)):
                break
            for to in (0, 1):
                if self.link.waiting(to) and not self.lost[to]:
                    self.deliver(to)
            self.closing()
            if all(self.lost):
                break

    def answersBy(self, side):
        """The versions this side has put into its answers, in order."""
        data = self.link.trans[side].written
        if len(data) not in self.parsed[side]:
            self.parsed[side][len(data)] = [int(b['version']) for b in juicenet.boxesOf(data)
                                            if '_answer' in b and 'version' in b]
        return self.parsed[side][len(data)]


def offers(case):
    """Every list of supported versions against every offer, cut anywhere."""
    supported, offer, first = case
    w = World([[1], supported])
    if first is not None:
        w.support.lists[0] = [first]
        w.renegotiate(0, first)
        w.pump()
        if any(w.lost):
            return case
        same(w.versions(), [first, first], 'versions after a first negotiation')
    before = w.versions()
    got = w.offer(0, offer)
    w.pump()
    w.closing()
    agreed = [v for v in offer if v in supported][:1]
    same(len(got), 1, 'completions of the offer')
    if agreed:
        check(not hasattr(got[0], 'check'), 'an offer with a supported version was refused', got)
        same(got[0]['version'], agreed[0], 'version answered')
        same(w.parties[1].protocolVersion, agreed[0], 'version of the responder')
        check(not any(t.disconnecting for t in w.link.trans), 'the connection was closed')
    else:
        check(hasattr(got[0], 'check'), 'an offer with no supported version was accepted', got)
        same(w.versions(), before, 'versions after a refused offer')
        same(w.answersBy(1)[1 if first is not None else 0:], [], 'versions answered')
    return case


def fresh(case):
    """A negotiation is about its own connection only."""
    order = case
    ws = [World([[1, 2], [1, 2]]) for i in range(3)]
    want = [list(w.start) for w in ws]
    for i, v in order:
        talk = ws[i].renegotiate(0 if i % 2 else 1, v)
        ws[i].pump()
        same(talk[2], [v], 'result of the negotiation')
        want[i] = [v, v]
        same([w.versions() for w in ws], want, 'versions of all connections')
    w = World([[1, 2], [1, 2]])
    same(w.versions(), w.start, 'versions of a new connection')
    same(w.start, [0, 0], 'version before any negotiation')
    return case


def schedules(lists, wanted, depth, split, crossing, asks=1):
    def scenario(ch):
        w = World(lists)
        started = 0
        for k in range(depth):
            acts = []
            if started < 3:
                for s in (0, 1):
                    for v in wanted:
                        ok = v in w.support.lists[s]
                        busy = w.busy()
                        # negotiations which cross each other are about the same version
                        if ok and busy and not (crossing and all(t[1] == v for t in busy)):
                            continue
                        acts.append(('negotiate', s, v))
            if len(w.asked) < asks:
                acts += [('ask', s) for s in (0, 1) if not w.lost[s]]
            acts += [('answer', i) for i in range(len(w.pending))]
            for to in (0, 1):
                n = w.link.waiting(to)
                if n and not w.lost[to]:
                    acts.append(('deliver', to, n))
                    if split and n > 1:
                        acts += [('deliver', to, n // 2)] + ([('deliver', to, n - 1)] if split > 1 else [])
            acts += [('lose', s) for s in (0, 1) if not w.lost[s]]
            if not acts:
                break
            a = ch.choose(acts, 'do')
            before = w.versions()
            answered = [len(w.answersBy(s)) for s in (0, 1)]
            done = [len(t[2]) for t in w.talks]
            if a[0] == 'negotiate':
                started += 1
                w.renegotiate(*a[1:])
            elif a[0] == 'ask':
                op()
                got = []
                w.asked.append([a[1], len(w.asked) + 1, got, False])
                w.asks[0](n=len(w.asked)).do(w.parties[a[1]]).addBoth(got.append)
            elif a[0] == 'answer':
                op()
                who, n, d = w.pending.pop(a[1])
                w.asked[n - 1][3] = True
                d.callback({'n': n, 'who': who})
            elif a[0] == 'deliver':
                w.deliver(*a[1:])
            else:
                w.lose(a[1])
            w.closing()
            # what may have changed
            for s in (0, 1):
                new = w.answersBy(s)[answered[s]:]
                if new:
                    w.model[s] = new[-1]
                    for v in new:
                        check(v in w.support.lists[s], 'a version was accepted which is not supported', v)
                        check(any(t[0] == 1 - s and t[1] == v for t in w.talks), 'a version was accepted which nobody asked for', v)
            for i, t in enumerate(w.talks):
                check(len(t[2]) <= 1, 'a negotiation ended twice', t)
                if t[2] and (i >= len(done) or not done[i]):
                    if hasattr(t[2][0], 'check'):
                        check(w.lost[t[0]] or t[1] not in w.support.lists[1 - t[0]],
                              'a negotiation failed for no reason', t[2][0])
                    else:
                        same(t[2][0], t[1], 'version reported')
                        w.model[t[0]] = t[1]
            same(w.versions(), w.model, 'versions of the two ends')
            for s, n, got, answered_ in w.asked:
                if got and not hasattr(got[0], 'check'):
                    same((got[0]['n'], got[0]['who'], answered_), (n, 1 - s, True), 'answer to another request')
            ch.obs((w.versions(), [(t[0], t[1], len(t[2])) for t in w.talks], w.lost,
                    [(x[0], len(x[2]), x[3]) for x in w.asked]))
        before = w.versions()
        if not any(w.lost):
            clean = [t for t in w.talks if t[1] in w.support.lists[1 - t[0]]]
            w.pump()
            if not any(w.lost):
                for t in w.talks:
                    same(len(t[2]), 1, 'completions of a negotiation')
                if w.talks:
                    same(w.versions(), [w.talks[-1][1]] * 2, 'versions of the two ends in the end')
        for s in (0, 1):
            w.lose(s)
        for t in w.talks:
            same(len(t[2]), 1, 'completions of a negotiation, all told')
    return scenario


def cut(case):
    """One negotiation, its bytes delivered in three pieces each way, lost between any two."""
    c0, c1, drop = case
    w = World([[1, 2], [2]])
    talk = w.renegotiate(0, 2)
    steps = 0
    for to, c in ((1, c0), (0, c1)):
        data = w.link.trans[1 - to].pending
        for p in pieces(data, [x for x in c if x < len(data)]):
            if steps == drop:
                w.lose(0)
                w.lose(1)
                same(len(talk[2]), 1, 'completions')
                check(hasattr(talk[2][0], 'check'), 'a negotiation succeeded over a lost connection')
                same(w.parties[0].protocolVersion, 0, 'version of an end whose negotiation failed')
                same(w.parties[1].protocolVersion, 2 if w.answersBy(1) else 0, 'version of the responder')
                return case
            complete = w.link.waiting(to) == len(p)
            same(w.parties[to].protocolVersion, 0, 'version before the box is complete')
            w.deliver(to, len(p))
            steps += 1
            same(w.parties[to].protocolVersion, 2 if complete else 0, 'version of the receiving end')
    same(talk[2], [2], 'result')
    return case


def run(ctx):
    ctx.assumptions += ['both ends are this implementation; negotiations which cross on the wire ask for the same version']
    q = ctx.quick
    vs = (0, 1, 2, 3)
    supports = [p for n in (1, 2, 3) for p in itertools.permutations(vs, n)]
    lists = [p for n in (1, 2, 3) for p in itertools.product((0, 1, 2, 4) if q else (0, 1, 2, 3, 4, -1), repeat=n)]
    ctx.sweep('offers', [(s, o, None) for s in supports for o in lists]
              + [(s, o, f) for s in supports for o in lists if len(o) == 2 for f in (1, 2)]
              + [((10, 1), (11, 10), None), ((12345678901,), (1, 12345678901), None), ((-1, 1), (-1,), None)],
              offers, parallel=True)
    ctx.sweep('fresh', [tuple(o) for n in (1, 2, 3) for o in itertools.product([(i, v) for i in range(3) for v in (1, 2)], repeat=n)],
              fresh)
    cuts = [()] + [(i,) for i in range(1, 70, 2)] + [(i, j) for i in range(1, 70, 5) for j in range(i + 1, 70, 5)]
    ctx.sweep('cut', [(a, b, d) for a in cuts for b in ((), (7,), (20, 30)) for d in (None, 0, 1, 2, 3, 4)]
              + [(a, b, d) for b in cuts for a in ((), (7,), (20, 30)) for d in (None, 0, 1, 2, 3, 4)], cut, parallel=True)
    ctx.explore('same', schedules([[1], [1]], (1,), 6 if q else 8, 1 if q else 2, True), parallel=True)
    ctx.explore('refused', schedules([[1], [1]], (1, 2), 4 if q else 6, 0, True, 2), parallel=True)
    ctx.explore('two', schedules([[1, 2], [2, 1]], (1, 2), 6 if q else 8, 0, True), parallel=True)
    ctx.explore('unequal', schedules([[1, 2], [2, 3]], (1, 2, 3), 4 if q else 6, 0, True), parallel=True)
