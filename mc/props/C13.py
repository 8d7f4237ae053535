"""
C13: while TLS is being prepared nothing is sent in clear, and nothing is lost.
"""
from twisted.internet.defer import Deferred

from mc.core import check, same, op
from mc.net import Transport, Link
from mc import juicenet


class Certificate(object):
    """Stands in for a certificate: remembers what options were asked of it."""

    def __init__(self, name):
        self.name = name

    def options(self, *authorities):
        return ('options', self.name, authorities)


class Side(object):
    """One connection and the model of its output."""

    def __init__(self, number=0):
        from epsilon import juice
        side = self

        class P(juice.Juice):
            def juice_WAIT(self, box):
                d = Deferred()
                side.asked.append(d)
                return d
        self.asked = []
        self.asks = 0
        self.cert = None
        self.closed = False
        self.p = P(bool(number))
        self.t = Transport()
        self.p.makeConnection(self.t)
        self.expect = []          # ('box', serial) and ('tls', options)
        self.held = None
        self.tls = False
        self.serial = number * 1000
        self.started = []

    def fresh(self, cls=None, *a):
        from epsilon import juice
        self.serial += 1
        if cls is None:
            return juice.Box(n=str(self.serial))
        return cls(*a, n=str(self.serial))

    def emit(self, n):
        if self.held is not None:
            self.held.append(n)
        else:
            self.expect.append(('box', n))

    def begin(self, options):
        self.tls = True
        self.expect.append(('tls', options))
        held, self.held = self.held, None
        for n in held or ():
            self.expect.append(('box', n))

    # operations

    def send(self):
        b = self.fresh()
        self.emit(self.serial)
        b.sendTo(self.p)

    def request(self):
        self.serial += 1
        self.emit(self.serial)
        d = self.p.sendCommand('thing', n=str(self.serial))
        d.addErrback(lambda e: None)

    def prepare(self):
        self.p.prepareTLS()
        if self.held is None:
            self.held = []

    def peerAsks(self):
        """The peer asks for something which is not answered at once."""
        from epsilon import juice
        self.asks += 1
        b = juice.Box(_ask='%x' % self.asks, _command='wait')
        self.p.dataReceived(b.serialize())

    def answer(self):
        from epsilon import juice
        self.serial += 1
        self.emit(self.serial)
        self.asked.pop(0).callback(juice.Box(n=str(self.serial)))

    def answerLast(self):
        self.asked.insert(0, self.asked.pop())
        self.answer()

    def failHard(self):
        """An error nobody declared: the connection is closed, still without a word in clear."""
        if self.held is None:
            self.expect.append(('error',))
        self.expect.append(('lose',))
        self.closed = True
        self.asked.pop(0).errback(ZeroDivisionError('x'))

    def quit(self):
        from epsilon import juice
        b = self.fresh(juice.QuitBox)
        self.emit(self.serial)
        self.held = None
        self.expect.append(('lose',))
        self.closed = True
        b.sendTo(self.p)

    def startFalsy(self):
        self.start(Nobody())

    def tlsBoxFalsy(self):
        self.tlsBox(Nobody())

    def startSame(self):
        """With the very certificate of an earlier attempt, if any."""
        self.start(again=True)

    def start(self, *authorities, again=False):
        c = self.cert if again and self.cert is not None else Certificate('c%d' % len(self.expect))
        self.cert = c
        if self.tls:
            self.refused(lambda: self.p.startTLS(c, *authorities))
        else:
            self.begin(('options', c.name, authorities))
            self.p.startTLS(c, *authorities)

    def startVerified(self):
        self.start('authority')

    def startVerified2(self):
        self.start('authority', 'other')

    def tlsBox(self, verify=None):
        from epsilon import juice
        c = self.cert = Certificate('b%d' % len(self.expect))
        mark = []
        b = self.fresh(juice.TLSBox, c, verify, lambda: mark.append(1))
        if self.tls:
            # refused; whether the box itself goes out is not specified
            before = len(self.t.events)
            self.refused(lambda: b.sendTo(self.p))
            same(mark, [], 'the TLS started callback of a refused attempt')
            if len(self.t.events) > before:
                self.emit(self.serial)
            return
        self.emit(self.serial)
        self.begin(('options', c.name, () if verify is None else (verify,)))
        b.sendTo(self.p)
        same(mark, [1], 'the TLS started callback')

    def tlsBoxVerified(self):
        self.tlsBox('authority')

    def refused(self, f):
        try:
            f()
        except Exception:
            pass
        else:
            check(False, 'TLS could be started twice on one connection')

    def observed(self):
        out = []
        for e in self.t.events:
            if e[0] == 'write':
                for b in juicenet.boxesOf(e[1]):
                    out.append(('box', int(b['n'])) if 'n' in b else ('error',))
            else:
                out.append(('tls', e[1]) if e[0] == 'tls' else e)
        return out

    def verify(self):
        same(self.observed(), self.expect, 'what went out, in order')


class Nobody(object):
    """An authority which is false, though it is there."""

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Nobody)

    __hash__ = None

    def __repr__(self):
        return 'nobody'


OPS = ['send', 'prepare', 'start', 'startVerified', 'tlsBox', 'tlsBoxVerified', 'request', 'startVerified2']


def sequences(depth, ops, sides=1):
    def scenario(ch):
        ss = [Side(i) for i in range(sides)]
        for k in range(depth):
            s = ss[ch.choose(sides, 'side')] if sides > 1 else ss[0]
            allowed = [o for o in ops if not (o == 'prepare' and s.tls) and not (o in ('answer', 'failHard') and not s.asked)
                       and not (o == 'answerLast' and len(s.asked) < 2)]
            o = ch.choose(allowed, 'op')
            op()
            getattr(s, o)()
            for x in ss:
                x.verify()
            if s.closed:
                ch.obs(('closed', s.expect))
                return
            ch.obs([(len(x.expect), x.held is not None and len(x.held), x.tls) for x in ss])
        for x in ss:
            # whatever is held comes out when TLS starts
            if not x.tls:
                x.start()
            x.send()
            x.verify()
    return scenario


def exchange(depth):
    """
    Both ends: one asks for TLS, the other answers with a TLS box; requests go
    out on both sides at every moment and are all executed once, in order.
    """
    from epsilon import juice

    class StartTLS(juice.Command):
        commandName = 'Go'

    class Note(juice.Command):
        commandName = 'Note'
        arguments = [('n', juice.Integer())]

    def scenario(ch):
        log = [[], []]
        tls = []

        class P(juice.Juice):
            def __init__(self, who):
                juice.Juice.__init__(self, bool(who))
                self.who = who

            def juice_GO(self, box):
                self.prepareTLS()
                return juice.TLSBox(Certificate('server'))

            def command_NOTE(self, n):
                log[self.who].append(n)
                return {}
            command_NOTE.command = Note
        ps = [P(0), P(1)]
        link = Link(*ps)
        sent = [[], []]
        done = []
        answers = []
        asked = False
        for k in range(depth):
            acts = [('note', 0), ('note', 1)]
            if not asked:
                acts.append(('go',))
            acts += [('deliver', t) for t in (0, 1) if link.waiting(t)]
            a = ch.choose(acts, 'do')
            op()
            if a[0] == 'note':
                n = len(sent[a[1]])
                sent[a[1]].append(n)
                Note(n=n).do(ps[a[1]]).addBoth(answers.append)
            elif a[0] == 'go':
                asked = True
                d = ps[0].sendCommand('go')
                ps[0].prepareTLS()

                def switch(box):
                    ps[0].startTLS(Certificate('client'))
                    done.append(1)
                d.addCallback(switch)
            else:
                link.deliver(a[1])
            # nothing may be written by the client between asking and starting
            if asked and not done:
                ev = link.trans[0].events
                gos = [i for i, e in enumerate(ev) if e[0] == 'write' and b'go' in e[1].lower() and b'Command: go' in e[1]]
                check(gos and not [e for e in ev[gos[-1] + 1:] if e[0] == 'write'],
                      'written in clear while TLS is being prepared', ev)
            ch.obs((sent, log, bool(done), asked))
        link.pump()
        same(log, [sent[1], sent[0]], 'requests executed at the other side, in order')
        same(len(answers), len(sent[0]) + len(sent[1]), 'requests answered')
        for i in (0, 1):
            same(len([e for e in link.trans[i].events if e[0] == 'tls']), int(asked), 'TLS starts')
        ch.obs('end')
    return scenario


def many(n):
    s = Side()
    s.send()
    s.prepare()
    for k in range(n):
        s.send() if k % 3 else s.request()
    s.verify()
    s.start('a')
    s.send()
    s.verify()
    return n


def run(ctx):
    ctx.assumptions += ['the transport\'s own TLS is trusted; preparing again after TLS was started is not specified']
    q = ctx.quick
    ctx.explore('operations', sequences(5 if q else 7, OPS), parallel=True)
    ctx.explore('two-connections', sequences(4 if q else 5, OPS[:5], 2), parallel=True)
    ctx.explore('long', sequences(7 if q else 9, ['send', 'prepare', 'start', 'tlsBox']), parallel=True)
    ctx.explore('answers', sequences(6 if q else 8, ['prepare', 'peerAsks', 'answer', 'answerLast', 'request', 'failHard', 'start']), parallel=True)
    ctx.explore('quit', sequences(5 if q else 7, ['send', 'prepare', 'quit', 'start', 'startSame', 'startFalsy', 'tlsBoxFalsy', 'tlsBox']), parallel=True)
    ctx.explore('exchange', exchange(7 if q else 9), parallel=True)
    ctx.sweep('many', [0, 1, 20, 500], many)
