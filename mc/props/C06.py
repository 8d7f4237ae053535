"""
C06: AMP routes start and stop their receivers exactly once, in the right order.
"""
from zope.interface import implementer
from twisted.internet.error import ConnectionDone
from twisted.protocols.amp import AmpBox, IBoxReceiver, IBoxSender
from twisted.python.failure import Failure

from mc.core import check, same, op, Alike, Violation


class Boom(Exception):
    pass


@implementer(IBoxSender)
class Sender(object):
    def __init__(self):
        self.boxes = []

    def sendBox(self, box):
        self.boxes.append(dict(box))

    def unhandledError(self, failure):
        raise failure.value


@implementer(IBoxReceiver)
class Receiver(Alike):
    """Checks each call against the model and may act on the router from inside it."""

    def __init__(self, world, entry):
        self.world, self.entry = world, entry

    def startReceivingBoxes(self, sender):
        self.world.started(self.entry, sender)

    def ampBoxReceived(self, box):
        self.world.received(self.entry, box)

    def stopReceivingBoxes(self, reason):
        self.world.stopped(self.entry, reason)


class Entry(object):
    def __init__(self, number, name):
        self.number, self.name = number, name
        self.route = None
        self.connected = False
        self.alive = True
        self.starts = 0
        self.stops = 0
        self.boxes = []
        self.boundWhileStopping = False


class World(object):
    """
    phases: 0 not started, 1 running, 2 stopping, 3 stopped.
    """

    def __init__(self, ch, reentrant=0, cbs=('start', 'stop', 'box')):
        from epsilon.amprouter import Router
        self.ch = ch
        self.router = Router()
        self.phase = 0
        self.entries = []
        self.sender = Sender()
        self.reentrant = reentrant
        self.cbs = cbs
        self.reason = Failure(ConnectionDone())
        self.log = []
        self.atStop = []
        self.serial = 0
        self.expectBox = None

    # callbacks of receivers

    def started(self, e, sender):
        op()
        check(self.phase == 1, 'receiver %d started while the router is not running' % e.number, self.phase)
        check(e.connected, 'receiver %d started before its route is connected' % e.number)
        check(e.alive, 'receiver %d started although its route is unbound' % e.number)
        check(not e.starts, 'receiver %d started twice' % e.number)
        if e.route is not None:
            check(sender is e.route, 'receiver %d started with another sender than its route' % e.number)
        e.starts += 1
        self.log.append(('start', e.number))
        # a receiver may make use of its sender at once
        n = len(self.sender.boxes)
        sender.sendBox(AmpBox(first=b'%d' % e.number))
        same([b.get('first', b.get(b'first')) for b in self.sender.boxes[n:]], [b'%d' % e.number], 'boxes sent when started')
        self.act('start')

    def stopped(self, e, reason):
        op()
        check(self.phase == 2, 'receiver %d stopped while the router is not stopping' % e.number, self.phase)
        check(e.alive, 'receiver %d stopped although its route is unbound' % e.number)
        check(not e.stops, 'receiver %d stopped twice' % e.number)
        check(reason is self.reason, 'receiver %d stopped with another reason' % e.number)
        e.stops += 1
        self.log.append(('stop', e.number))
        self.act('stop')

    def received(self, e, box):
        op()
        check(e.alive, 'receiver %d fed although its route is unbound' % e.number)
        check(self.expectBox is not None and self.expectBox[0] is e, 'receiver %d fed another\'s box' % e.number)
        same(dict(box), self.expectBox[1], 'box')
        self.expectBox = None
        e.boxes.append(dict(box))
        self.log.append(('box', e.number))
        self.act('box')

    def act(self, where):
        """Maybe do something to the router from inside this callback."""
        if self.reentrant <= 0 or where not in self.cbs:
            return
        acts = [None] + self.acts(inside=True)
        if where == 'stop':
            acts.append('raise')
        a = self.ch.choose(acts, 'inside ' + where)
        if a is not None:
            self.reentrant -= 1
            if a == 'raise':
                raise Boom('raised when stopped')
            self.do(a)

    # operations

    def current(self, name):
        for e in self.entries:
            if e.alive and e.name == name:
                return e

    def acts(self, inside=False):
        out = []
        if self.phase < 3:
            if len(self.entries) < self.maxroutes:
                out += [('bind', n) for n in self.names]
            for e in self.entries:
                if e.alive and e.route is not None:
                    out += [('connect', e.number, r) for r in self.far(e)]
                    out.append(('unbind', e.number))
            if not inside:
                if self.phase == 0:
                    out.append(('startRouter',))
                elif self.phase == 1:
                    out.append(('stopRouter',))
            if self.phase == 1 and self.expectBox is None and self.cbs != ('start', 'stop'):
                out += [('feed', e.number) for e in self.entries if e.alive and e.route is not None]
        else:
            for e in self.entries:
                if e.alive:
                    out.append(('connect', e.number))
                    out.append(('unbind', e.number))
        return out

    names = ('auto', None, u'r')
    maxroutes = 3

    def do(self, a):
        op()
        getattr(self, a[0])(*a[1:])

    def bind(self, name):
        e = Entry(len(self.entries), name)
        r = Receiver(self, e)
        old = self.current(name) if name != 'auto' else None
        if old is not None:
            # a name bound again belongs to the new route from now on
            old.alive = False
        self.entries.append(e)
        if self.phase == 2:
            e.boundWhileStopping = True
        route = self.router.bindRoute(r) if name == 'auto' else self.router.bindRoute(r, name)
        e.name = route.localRouteName
        e.route = route
        check(not e.starts, 'a receiver was started while being bound')

    remotes = None

    def far(self, e):
        """The names e may be connected to: all, or one chosen by its number."""
        if self.remotes is not None:
            return self.remotes
        return [(u'far', None, u'')[e.number % 3]]

    def connect(self, i, remote='unset'):
        e = self.entries[i]
        if remote == 'unset':
            remote = self.far(e)[0]
        first = not e.connected
        e.connected = True
        before = e.starts
        e.route.connectTo(remote)
        if self.phase == 1 and e.alive:
            same(e.starts, 1, 'a route connected while its router runs is started at once')
        elif self.phase in (0, 3):
            same(e.starts, before, 'a route was started although its router is not running')

    def unbind(self, i):
        e = self.entries[i]
        e.alive = False
        e.route.unbind()

    def startRouter(self):
        self.phase = 1
        self.router.startReceivingBoxes(self.sender)
        for e in self.entries:
            if e.alive and e.connected:
                same(e.starts, 1, 'receiver %d of a connected route, after the router started' % e.number)

    def feed(self, i):
        e = self.entries[i]
        self.serial += 1
        box = AmpBox()
        box[b'n'] = b'%d' % self.serial
        self.expectBox = (e, dict(box))
        if e.name is not None:
            box[b'_route'] = e.name.encode('utf-8')
        self.router.ampBoxReceived(box)
        check(self.expectBox is None or self.expectBox[0] is not e, 'a box did not reach receiver %d' % i)

    def stopRouter(self):
        self.phase = 2
        bound = [e for e in self.entries if e.alive]
        try:
            self.router.stopReceivingBoxes(self.reason)
        except Boom:
            pass
        self.phase = 3
        for e in bound:
            if e.alive:
                same(e.stops, 1, 'stops of receiver %d, bound when the router stopped' % e.number)
            else:
                check(e.stops <= 1, 'stops of receiver %d' % e.number)

    def state(self):
        return (self.phase, [(e.name is None, e.connected, e.alive, e.starts, e.stops, len(e.boxes))
                             for e in self.entries], self.log)


def lifecycle(depth, reentrant, maxroutes=3, names=('auto', None, u'r'), cbs=('start', 'stop', 'box'), remotes=None):
    def scenario(ch):
        w = World(ch, reentrant, cbs)
        w.maxroutes = maxroutes
        w.names = names
        w.remotes = remotes
        for k in range(depth):
            acts = w.acts()
            if not acts:
                break
            a = ch.choose(acts, 'do')
            w.do(a)
            ch.obs(w.state())
        if w.phase == 0:
            w.do(('startRouter',))
            ch.obs(w.state())
        if w.phase == 1:
            w.do(('stopRouter',))
        ch.obs(w.state())
    return scenario


def placed(maxroutes, inside):
    """
    All routes set up in a fixed way first (each bound/connected or not), then
    start, feed, stop, with `inside` re-entrant actions placed anywhere.
    """
    def scenario(ch):
        w = World(ch, 0)
        w.maxroutes = maxroutes + 1
        w.names = ('auto',)
        for i in range(maxroutes):
            w.do(('bind', 'auto'))
            if ch.flag('connect %d' % i):
                w.do(('connect', i))
        w.reentrant = inside
        w.do(('startRouter',))
        ch.obs(w.state())
        for e in list(w.entries):
            if e.alive and e.connected:
                w.do(('feed', e.number))
                break
        late = ch.choose(maxroutes + 1, 'late')
        if late and w.entries[late - 1].alive:
            w.do(('connect', late - 1))
        w.do(('stopRouter',))
        ch.obs(w.state())
    return scenario


def many(case):
    n, order = case
    w = World(None, 0)
    w.reentrant = 0
    w.maxroutes = n
    for i in range(n):
        if order == 'mid' and i == n // 2:
            w.startRouter()
        w.bind('auto' if i % 5 else u'n%d' % i)
        if i % 3:
            w.connect(i)
        if i % 4 == 3:
            w.unbind(i - 1)
    if w.phase == 0:
        w.startRouter()
    for i in range(0, n, 3):
        if w.entries[i].alive:
            w.connect(i)
    for e in w.entries:
        if e.alive:
            w.feed(e.number)
    w.stopRouter()
    return [(e.starts, e.stops) for e in w.entries]


def run(ctx):
    ctx.assumptions += [
        'a route bound while the router is stopping, and operations after it stopped, need only never start a receiver',
        'unbinding from inside a stop callback may come too late for the receiver being stopped itself',
    ]
    q = ctx.quick
    ctx.explore('lifecycle', lifecycle(6 if q else 7, 0), parallel=True)
    ctx.explore('deep', lifecycle(8 if q else 10, 0, 2, ('auto', u'r')), parallel=True)
    ctx.explore('one-inside', lifecycle(6 if q else 7, 1, 3, ('auto', u'r'), ('start', 'stop')), parallel=True)
    ctx.explore('two-inside', lifecycle(5 if q else 6, 2, 3, (u'r', 'auto')), parallel=True)
    ctx.explore('placed', placed(3, 2 if q else 3), parallel=True)
    ctx.explore('remotes', lifecycle(5 if q else 6, 0, 3, ('auto', None), remotes=(None, u'', u'far')), parallel=True)
    ctx.sweep('many', [(n, o) for n in (1, 2, 10, 50, 300) for o in ('start', 'mid')], many)
