"""
An in-memory network with nothing automatic about it: every byte that moves and
every connection that drops does so because the harness says so.
"""
from zope.interface import implementer
from twisted.internet.interfaces import ITransport
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.python.failure import Failure


@implementer(ITransport)
class Transport(object):
    """Records what is written; delivers nothing by itself."""
    disconnecting = False
    disconnected = False
    connected = True

    def __init__(self, name='t'):
        self.name = name
        self.pending = b''       # written and not yet taken by the harness
        self.written = b''       # everything ever written
        self.events = []         # ('write', bytes) / ('tls', ...) / ('lose',)
        self.lateWrites = 0

    def write(self, data):
        if not isinstance(data, bytes):
            raise TypeError('transport.write of %r' % (type(data),))
        if self.disconnected:
            self.lateWrites += 1
            return
        if self.disconnecting:
            # a real transport drops what is written after loseConnection
            self.lateWrites += 1
            return
        self.pending += data
        self.written += data
        self.events.append(('write', data))

    def writeSequence(self, seq):
        for x in seq:
            self.write(x)

    def loseConnection(self):
        if not self.disconnecting:
            self.events.append(('lose',))
        self.disconnecting = True

    def abortConnection(self):
        self.loseConnection()

    def getPeer(self):
        return ('peer', self.name)

    def getHost(self):
        return ('host', self.name)

    def startTLS(self, options, *a):
        self.events.append(('tls', options) + a)

    def take(self):
        data, self.pending = self.pending, b''
        return data

    def forget(self):
        """Like take, and keep no record, so that a long history stays cheap."""
        data = self.take()
        self.written, self.events = b'', []
        return data

    def registerProducer(self, producer, streaming):
        pass

    def unregisterProducer(self):
        pass


def reason(kind='done'):
    return Failure(ConnectionDone() if kind == 'done' else ConnectionLost())


class Link(object):
    """Two protocols connected back to back; side 0 and side 1."""

    def __init__(self, p0, p1, makeServerFirst=False, transport=Transport):
        self.protos = [p0, p1]
        self.trans = [transport('0'), transport('1')]
        self.lost = [False, False]
        order = (1, 0) if makeServerFirst else (0, 1)
        for i in order:
            self.protos[i].makeConnection(self.trans[i])

    def deliver(self, to, n=None):
        """Deliver the first n bytes (all by default) on their way to a side."""
        t = self.trans[1 - to]
        data = t.pending if n is None else t.pending[:n]
        t.pending = t.pending[len(data):]
        if data and not self.lost[to]:
            self.protos[to].dataReceived(data)
        return len(data)

    def waiting(self, to):
        return len(self.trans[1 - to].pending)

    def lose(self, side, why=None):
        if not self.lost[side]:
            self.lost[side] = True
            self.trans[side].disconnected = True
            self.protos[side].connectionLost(why if why is not None else reason())

    def pump(self, limit=10000):
        """Deliver everything, both ways, and honour close requests."""
        for i in range(limit):
            moved = False
            for to in (0, 1):
                if self.waiting(to):
                    self.deliver(to)
                    moved = True
            for s in (0, 1):
                if (self.trans[s].disconnecting and not self.lost[s]
                        and not self.trans[s].pending):
                    self.lose(s)
                    self.lose(1 - s)
                    moved = True
            if not moved:
                return
        raise AssertionError('traffic never ends')


def cuts2(n, step=1):
    """All segmentations of n bytes into at most three pieces."""
    out = [()]
    pts = list(range(step, n, step))
    for i in pts:
        out.append((i,))
    for a in range(len(pts)):
        for b in range(a + 1, len(pts)):
            out.append((pts[a], pts[b]))
    return out


def pieces(data, cut):
    prev = 0
    out = []
    for c in tuple(cut) + (len(data),):
        out.append(data[prev:c])
        prev = c
    return [p for p in out if p]


def allcuts(n):
    """Every segmentation of n bytes (2**(n-1) of them)."""
    for m in range(1 << max(0, n - 1)):
        yield tuple(i + 1 for i in range(n - 1) if m >> i & 1)
