"""
C12: switching protocol hands over the byte stream without loss or overlap.
"""
from twisted.internet.defer import Deferred, maybeDeferred
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.internet.protocol import ClientFactory, Protocol

from mc.core import check, same, op
from mc.net import Link, Transport, reason, pieces
from mc import juicenet


class Refused(Exception):
    pass


class Inner(Protocol):
    """The protocol switched to."""

    def __init__(self, hello=b''):
        self.events = []
        self.hello = hello

    def connectionMade(self):
        self.events.append('made')
        if self.hello:
            self.transport.write(self.hello)

    def dataReceived(self, data):
        if self.events and isinstance(self.events[-1], bytes):
            self.events[-1] += data
        else:
            self.events.append(data)

    def connectionLost(self, reason):
        self.events.append('lost')


class Factory(ClientFactory):
    def __len__(self):
        # a factory which counts something is as good as any
        return self.count

    def __init__(self, hello=b''):
        self.count = len(hello) % 2
        self.built = []
        self.failed = []
        self.lost = []
        self.hello = hello

    def buildProtocol(self, addr):
        same(addr[0], 'peer', 'the address a protocol is asked for')
        p = Inner(self.hello)
        self.built.append(p)
        return p

    def clientConnectionFailed(self, connector, reason):
        self.failed.append(reason)

    def clientConnectionLost(self, connector, reason):
        self.lost.append(reason)


def commands():
    from epsilon import juice

    class Switch(juice.ProtocolSwitchCommand):
        commandName = 'Switch'
        arguments = [('name', juice.Unicode(optional=True)), ('body', juice.String(optional=True))]
        errors = {Refused: 'REFUSED'}

    class Note(juice.Command):
        commandName = 'Note'
        arguments = [('n', juice.Integer())]
        response = [('n', juice.Integer())]

    class Missing(juice.ProtocolSwitchCommand):
        commandName = 'Missing'
    return Switch, Note, Missing


class World(object):
    def __init__(self, verdict='ok', serverHello=b'', clientHello=b'', delayed=False):
        from epsilon import juice
        w = self
        self.Switch, self.Note, self.Missing = CMDS
        self.serverInner = []
        self.waiting = []
        self.notes = [[], []]
        self.verdict = verdict
        Switch, Note = self.Switch, self.Note

        class P(juice.Juice):
            def __init__(self, who):
                juice.Juice.__init__(self, bool(who))
                self.who = who

            def command_NOTE(self, n):
                w.notes[self.who].append(n)
                return {'n': n}
            command_NOTE.command = Note

            def command_SWITCH(self, name, body):
                if delayed:
                    d = Deferred()
                    w.waiting.append(d)
                    return d
                return w.decide()
            command_SWITCH.command = Switch
        self.serverHello = serverHello
        self.factory = Factory(clientHello)
        self.parties = [P(0), P(1)]
        self.link = Link(*self.parties)
        self.got = []

    def decide(self):
        if self.verdict == 'ok':
            p = Inner(self.serverHello)
            self.serverInner.append(p)
            return p
        if self.verdict == 'refuse':
            raise Refused('no')
        raise ValueError('boom')

    def complete(self):
        d = self.waiting.pop(0)
        maybeDeferred(self.decide).chainDeferred(d)

    def switch(self, name=None, body=None, missing=False):
        op()
        kw = {}
        if name is not None:
            kw['name'] = name
        if body is not None:
            kw['body'] = body
        cmd = self.Missing(self.factory) if missing else self.Switch(self.factory, **kw)
        cmd.do(self.parties[0]).addBoth(self.got.append)

    def inner(self, side):
        l = self.serverInner if side else self.factory.built
        return l[0] if l else None


def settleCloses(link):
    for s in (0, 1):
        if link.trans[s].disconnecting and not link.waiting(1 - s) and not link.lost[s]:
            link.lose(s)
            link.lose(1 - s)


def handover(case):
    """A successful switch; all bytes of both new streams, cut anywhere."""
    hello0, hello1, body, cutUp, cutDown, pre = case
    w = World('ok', hello1, hello0)
    if pre:
        w.Note(n=5).do(w.parties[0]).addBoth(lambda r: None)
        w.link.pump()
    w.switch(u'x', body)
    streams = [hello1, hello0]       # what each side must receive: [client, server]
    # request to the server, in pieces
    data = w.link.trans[0].take()
    for p in pieces(data, [c for c in cutUp if c < len(data)]):
        w.parties[1].dataReceived(p)
        op()
    check(len(w.serverInner) == 1, 'the server switched once', w.serverInner)
    more = b'more\r\n\r\nfrom: server\r\n'
    w.serverInner[0].transport.write(more)
    streams[0] += more
    data = w.link.trans[1].take()
    for p in pieces(data, [c for c in cutDown if c < len(data)]):
        w.parties[0].dataReceived(p)
        op()
    same(len(w.factory.built), 1, 'new protocols at the client')
    same(len(w.got), 1, 'completions of the switch request')
    check(not hasattr(w.got[0], 'check'), 'a switch which was accepted failed', w.got)
    c = w.factory.built[0]
    up = b'-Ask: 1\r\n-Command: note\r\nN: 7\r\n\r\n'
    c.transport.write(up)
    streams[1] += up
    data = w.link.trans[0].take()
    for p in pieces(data, [x for x in cutUp if x < len(data)]):
        w.parties[1].dataReceived(p)
        op()
    for side in (0, 1):
        p = w.inner(side)
        same(p.events, ['made'] + ([streams[side]] if streams[side] else []), 'stream of the new protocol, side %d' % side)
    w.link.lose(0)
    w.link.lose(1)
    for side in (0, 1):
        p = w.inner(side)
        same(p.events, ['made'] + ([streams[side]] if streams[side] else []) + ['lost'], 'end of the new protocol, side %d' % side)
    same(w.notes, [[], [5] if pre else []], 'commands executed')
    same(w.factory.failed, [], 'connection failures reported for a successful switch')
    return (len(hello0), len(hello1), body is None)


def pipelined(case):
    """Bytes that arrive right behind the request belong to the new protocol too."""
    body, tail, cut = case
    from epsilon import juice
    w = World('ok', b'hi')
    box = juice.Box(name=u'n')
    if body is not None:
        box['body'] = body
    box['_command'] = 'Switch'
    box['_ask'] = '1'
    data = box.serialize() + tail
    for p in pieces(data, [c for c in cut if c < len(data)]):
        w.parties[1].dataReceived(p)
        op()
    same(len(w.serverInner), 1, 'new protocols')
    same(w.serverInner[0].events, ['made'] + ([tail] if tail else []), 'stream of the new protocol')
    w.link.lose(1)
    same(w.serverInner[0].events[-1], 'lost', 'end of the stream')
    return len(tail)


def drops(case):
    """The connection drops after any number of bytes of the exchange."""
    verdict, total, chunk, first, why, body = case
    missing = verdict == 'missing'
    w = World('ok' if missing else verdict, b'hello', b'hey' if first else b'he')
    w.switch(u'x', body, missing)
    moved = 0
    link = w.link
    while moved < total:
        n0 = moved
        for to in (1, 0):
            n = min(chunk, total - moved)
            if n and link.waiting(to) and not link.lost[to]:
                moved += link.deliver(to, n)
                op()
        if moved == n0:
            break
    switched = bool(w.factory.built)
    for s in ((0, 1) if not first else (1, 0)):
        link.lose(s, reason(why))
    same(len(w.got), 1, 'completions of the switch request')
    if switched:
        same(verdict, 'ok', 'verdict of a switch that happened')
        check(not hasattr(w.got[0], 'check'), 'result', w.got)
        same(len(w.factory.built), 1, 'protocols built')
        ev = w.factory.built[0].events
        same((ev.count('made'), ev.count('lost'), ev[0], ev[-1]), (1, 1, 'made', 'lost'), 'life of the new protocol')
        same(w.factory.failed, [], 'failures reported')
        same(len(w.factory.lost), 1, 'losses told to the client factory')
    else:
        check(hasattr(w.got[0], 'check'), 'a switch which did not happen succeeded', w.got)
        same(w.factory.built, [], 'protocols built')
        same(len(w.factory.failed), 1, 'times the client factory was told of the failure')
        same(w.factory.lost, [], 'losses reported of a connection that never was')
    for p in w.serverInner:
        ev = p.events
        same((ev.count('made'), ev.count('lost'), ev[0], ev[-1]), (1, 1, 'made', 'lost'), 'life of the new protocol at the server')
    check(len(w.serverInner) <= 1, 'protocols made by the server')
    return (verdict, switched)


def pending(depth, verdict):
    """
    What happens while the switch is pending: own sends, peer requests and
    notices, answers to earlier requests, the verdict, the loss.
    """
    def scenario(ch):
        from epsilon import juice
        w = World(verdict, b'S', b'C', delayed=True)
        early = []
        w.Note(n=1).do(w.parties[0]).addBoth(early.append)
        answeredEarly = ch.flag('earlier request answered first')
        if answeredEarly:
            w.link.pump()
        w.switch()
        locked = True
        peerAsks = []
        notices = []
        lost = False
        for k in range(depth):
            acts = []
            if not lost:
                acts += ['send', 'quiet', 'raw', 'lose']
                if not w.serverInner and not w.link.trans[1].disconnecting:
                    acts.append('peer')
                    if len(notices) < NOTICES:
                        acts.append('notice')
                acts += [('deliver', t) for t in (1, 0) if w.link.waiting(t)]
            if w.waiting:
                acts.append('decide')
            if not acts:
                break
            a = ch.choose(acts, 'do')
            op()
            written = w.link.trans[0].written
            decidedHere = bool(w.got)
            if a in ('send', 'quiet', 'raw'):
                r = []
                if a == 'raw':
                    maybeDeferred(w.parties[0].sendCommand, 'note', n='9').addBoth(r.append)
                else:
                    maybeDeferred(lambda: w.Note(n=9).do(w.parties[0], requiresAnswer=(a == 'send'))).addBoth(r.append)
                same(w.link.trans[0].written, written, 'written while a switch is pending (or after it)')
                check(a == 'quiet' or not r or hasattr(r[0], 'check'), 'a request made while a switch is pending succeeded')
            elif a == 'lose':
                lost = True
                w.link.lose(0)
                w.link.lose(1)
            elif a == 'peer':
                r = []
                w.Note(n=50 + k).do(w.parties[1]).addBoth(r.append)
                peerAsks.append(r)
            elif a == 'notice':
                # nothing the client has promised keeps it from doing this
                notices.append(70 + k)
                w.Note(n=70 + k).do(w.parties[1], requiresAnswer=False)
            elif a == 'decide':
                w.complete()
            else:
                w.link.deliver(a[1])
            if not lost:
                settleCloses(w.link)
                lost = w.link.lost[0]
            same(w.notes[0], notices[:len(w.notes[0])], 'peer requests executed while a switch is pending')
            same([n for n in w.notes[1] if n != 1], [], 'requests executed at the peer')
            check(len(w.got) <= 1 and len(w.factory.built) <= 1 and len(w.factory.failed) <= 1, 'switch completed twice')
            check(not (w.factory.built and w.factory.failed), 'switch both done and failed')
            if lost:
                same(len(w.got), 1, 'completion of the switch when the connection is lost')
                same(len(w.factory.built) + len(w.factory.failed), 1, 'outcome told to the factory')
            ch.obs((lost, len(w.got), len(w.factory.built), len(w.factory.failed), len(w.serverInner), len(w.waiting),
                    len(early), w.notes))
        if not lost:
            w.link.pump()
            while w.waiting:
                w.complete()
                w.link.pump()
            if not w.link.lost[0] and verdict == 'ok':
                same(len(w.factory.built), 1, 'the switch happens in the end')
                same(len(early), 1, 'the earlier request is answered')
                same(w.notes[0], notices, 'peer requests without answer executed')
            elif verdict != 'ok':
                same(len(w.factory.failed), 1, 'failures told to the factory')
            w.link.lose(0)
            w.link.lose(1)
        same(len(early), 1, 'completions of the earlier request')
        same(len(w.got), 1, 'completions of the switch')
        if w.factory.failed:
            check(hasattr(w.got[0], 'check'), 'a failed switch gave a result')
            if w.waiting == [] and verdict == 'refuse' and not lost:
                check(w.got[0].check(Refused), 'error of a refused switch', w.got[0])
        for p in w.factory.built + w.serverInner:
            if p in w.serverInner and not p.events:
                continue        # made by the application when the connection was already lost
            same((p.events.count('made'), p.events.count('lost'), p.events[0], p.events[-1]), (1, 1, 'made', 'lost'), 'life')
        for p, x in ((w.inner(0), b'S'), (w.inner(1), b'C')):
            if p is not None:
                data = b''.join(e for e in p.events if isinstance(e, bytes))
                check(data in (b'', x), 'stream of the new protocol', p.events)
                check(lost or not p.events or data == x, 'stream of the new protocol', p.events)
        for r in peerAsks:
            check(len(r) == 1 and hasattr(r[0], 'check'), 'a peer request which was dropped must fail with the connection', r)
        while w.waiting:
            w.waiting.pop(0).callback(Inner())
        ch.obs('end')
    return scenario


def insideInner(case):
    """
    The connection is lost, or asked to be, from inside a callback of a new
    protocol.
    """
    side, where, how, body, delayed = case
    w = World('ok', b'S', b'C', delayed=delayed)

    def act(p):
        if p.lostBy:
            return
        p.lostBy = True
        if how == 'ask':
            p.transport.loseConnection()
        else:
            w.link.lose(side, reason(how))

    class Acting(Inner):
        lostBy = False

        def connectionMade(self):
            Inner.connectionMade(self)
            if where == 'made':
                act(self)

        def dataReceived(self, data):
            Inner.dataReceived(self, data)
            if where == 'data':
                act(self)
    if side == 0:
        def build(addr):
            p = Acting(b'C')
            w.factory.built.append(p)
            return p
        w.factory.buildProtocol = build
    else:
        def decide():
            p = Acting(b'S')
            w.serverInner.append(p)
            return p
        w.decide = decide
    w.switch(u'x', body)
    for k in range(10):
        for to in (1, 0):
            if w.link.waiting(to) and not w.link.lost[to]:
                w.link.deliver(to)
                op()
        if w.waiting:
            w.complete()
    for s in (side, 1 - side):
        if not w.link.lost[s]:
            w.link.lose(s)
    same(len(w.got), 1, 'completions of the switch request')
    same(len(w.serverInner), 1, 'new protocols at the server')
    if w.factory.built:
        same(w.factory.failed, [], 'connection failures reported for a successful switch')
        same(len(w.factory.lost), 1, 'losses told to the client factory')
    else:
        same(len(w.factory.failed), 1, 'connection failures reported')
    for p in w.factory.built + w.serverInner:
        # (the rest of the segment being delivered may follow the loss)
        same((p.events.count('made'), p.events.count('lost'), p.events[0]), (1, 1, 'made'), 'life of the new protocol')
    return case, len(w.factory.built)


def long(case):
    """A large stream after the switch, in pieces of any size."""
    size, step = case
    w = World('ok')
    w.switch()
    w.link.pump()
    data = (b'\r\n-Command: note\r\n\r\n\0\xff' * (size // 22 + 1))[:size]
    for side in (0, 1):
        w.inner(1 - side).transport.write(data)
        d = w.link.trans[1 - side].take()
        for p in pieces(d, range(step, len(d), step)):
            w.parties[side].dataReceived(p)
        same(w.inner(side).events[0], 'made', 'first event')
        check(b''.join(w.inner(side).events[1:]) == data, 'a large stream did not arrive as sent')
    return case


CMDS = ()
NOTICES = 0


def run(ctx):
    global CMDS, NOTICES
    ctx.assumptions += ['no other command is unanswered at the responder when it switches']
    CMDS = commands()
    q = ctx.quick
    hellos = [b'', b'x', b'\r\n', b'A: b\r\n\r\n', b'-Answer: 1\r\n\r\n']
    cuts = [()] + [(i,) for i in range(1, 60)] + [tuple(range(1, 200)), tuple(range(2, 200, 2)), tuple(range(3, 200, 3))]
    bodies = [None, '', 'b', 'x\r\n\r\n', '\u00e9']
    ctx.sweep('handover', [(h0, h1, b, c, d, pre) for h0 in hellos for h1 in hellos for b in bodies
                           for c, d in [(c, ()) for c in cuts] + [((), c) for c in cuts] + [(cuts[-1], cuts[-1]), (cuts[-3], cuts[-3])]
                           for pre in ((False,) if q else (False, True))], handover, parallel=True)
    tails = [b'', b'x', b'\r\n', b'a\r\nb\r\n\r\n', b'-Ask: 2\r\n-Command: note\r\nN: 3\r\n\r\n']
    ctx.sweep('pipelined', [(b, t, c) for b in bodies for t in tails for c in
                            cuts + [(i, i + 1) for i in range(1, 90)] + ([] if q else [(i, j) for i in range(1, 80) for j in range(i, 80)])],
              pipelined, parallel=True)
    ctx.sweep('drops', [(v, t, c, f, y, b) for v in ('ok', 'refuse', 'error', 'missing') for t in list(range(0, 130)) + [1000]
                        for c in ((1, 1000) if q else (1, 2, 5, 13, 1000)) for f in (0, 1) for y in ('done', 'lost')
                        for b in (None, 'bb')], drops, parallel=True)
    for v in ('ok', 'refuse', 'error'):
        ctx.explore('pending-' + v, pending(5 if q else 7, v), parallel=True)
    NOTICES = 1 if q else 2
    for v in ('ok', 'refuse'):
        ctx.explore('notices-' + v, pending(4 if q else 6, v), parallel=True)
    ctx.sweep('inside', [(s, w, h, b, d) for s in (0, 1) for w in ('made', 'data') for h in ('ask', 'done', 'lost')
                         for b in (None, '', 'xx') for d in (False, True)], insideInner)
    ctx.sweep('large', [(s, k) for s in (100, 5000, 200000) for k in (1, 7, 1460) if s // k < 60000], long)
