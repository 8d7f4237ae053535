"""
C05: AMP routes deliver each box to exactly the receiver it was addressed to.
"""
from zope.interface import implementer
from twisted.protocols.amp import (AmpBox, IBoxReceiver, IBoxSender, BinaryBoxProtocol, BoxDispatcher,
                                   CommandLocator, Command, Integer, AMP)

from mc.core import check, same, op, Alike
from mc.net import Transport, pieces

AUTO = 'auto'


@implementer(IBoxReceiver)
class Receiver(Alike):
    def __init__(self, number):
        self.number = number
        self.events = []

    def startReceivingBoxes(self, sender):
        self.sender = sender

    def ampBoxReceived(self, box):
        self.events.append(dict(box))

    def stopReceivingBoxes(self, reason):
        pass


@implementer(IBoxSender)
class Direct(object):
    """Hands each box to the peer, at once or when told to."""

    def __init__(self, net, side):
        self.net, self.side = net, side

    def sendBox(self, box):
        self.net.queue.append((1 - self.side, box))
        self.net.sent[self.side] += 1
        if not self.net.queued:
            self.net.flush()

    def unhandledError(self, failure):
        raise failure.value


class Net(object):
    """Two routers and the plain model of what is bound where."""

    def __init__(self, wiring, started=(True, True)):
        from epsilon.amprouter import Router
        self.wiring = wiring
        self.routers = [Router(), Router()]
        self.bound = [{}, {}]            # name -> receiver number
        self.routes = []                 # [side, route, receiver number, local name, remote, alive]
        self.receivers = []
        self.expected = []               # per receiver
        self.queue = []
        self.queued = wiring == 'queued'
        self.sent = [0, 0]
        self.serial = 0
        self.autoNames = [set(), set()]
        if wiring == 'amp':
            self.trans = [Transport('0'), Transport('1')]
            self.protos = [BinaryBoxProtocol(r) for r in self.routers]
        self.running = [False, False]
        for side in (0, 1):
            if started[side]:
                self.start(side)
        self.dead = False

    def start(self, side):
        self.running[side] = True
        if self.wiring == 'amp':
            self.protos[side].makeConnection(self.trans[side])
        else:
            self.routers[side].startReceivingBoxes(Direct(self, side))

    def flush(self):
        """Deliver everything; says how many boxes nobody wanted."""
        while self.queue:
            side, box = self.queue.pop(0)
            try:
                self.routers[side].ampBoxReceived(box)
            except Exception as e:
                if self.sure:
                    raise

    sure = True

    def bind(self, side, name):
        op()
        r = Receiver(len(self.receivers))
        self.receivers.append(r)
        self.expected.append([])
        if name == AUTO:
            route = self.routers[side].bindRoute(r)
            local = route.localRouteName
            check(local is not None, 'an automatic name is None')
            check(local not in self.bound[side], 'an automatic name coincides with a bound one',
                  local, sorted(map(repr, self.bound[side])))
            self.fresh(side, local)
        else:
            route = self.routers[side].bindRoute(r, name)
            local = route.localRouteName
            same(local, name, 'the name a route was bound under')
        self.bound[side][local] = r.number
        self.routes.append([side, route, r.number, local, 'unset', True, name])
        return len(self.routes) - 1

    def fresh(self, side, name):
        # what was promised to the peer before may still be on its way
        check(name not in self.autoNames[side], 'an automatic name was chosen before', name)
        self.autoNames[side].add(name)

    def identifier(self, side):
        op()
        name = self.routers[side].createRouteIdentifier()
        check(name not in self.bound[side], 'a generated identifier is already bound', name)
        self.fresh(side, name)
        return name

    def connect(self, k, remote):
        op()
        side, route = self.routes[k][:2]
        route.connectTo(remote)
        self.routes[k][4] = remote

    def unbind(self, k):
        op()
        r = self.routes[k]
        if self.bound[r[0]].get(r[3]) == r[2]:
            del self.bound[r[0]][r[3]]
        r[5] = False
        r[1].unbind()

    def makeBox(self, flavour=0):
        self.serial += 1
        if flavour == 2:
            box = {'n': str(self.serial), '': '', '_answer': 'x'}
            return box, dict(box)
        box = AmpBox()
        box[b'n'] = b'%d' % (self.serial,)
        if flavour:
            box[b'route'] = b'_route'
            box[b'_command'] = b''
            box[b'bin'] = bytes(range(256))
        return box, dict(box)

    def send(self, k, flavour=0, box=None):
        from epsilon.amprouter import RouteNotConnected
        op()
        side, route, number, local, remote, alive, asked = self.routes[k]
        if box is None:
            box, content = self.makeBox(flavour)
        else:
            content = dict(box)
        before = self.wire(side)
        if remote == 'unset':
            try:
                route.sendBox(box)
            except RouteNotConnected:
                pass
            else:
                check(False, 'sending through a route which is not connected was not refused')
            same(self.wire(side), before, 'something was sent through a route which is not connected')
            return 'refused'
        target = self.bound[1 - side].get(remote)
        self.sure = target is not None
        if target is not None:
            self.expected[target].append(content)
        route.sendBox(box)
        if self.wiring != 'amp':
            return 'sent'
        check(self.wire(side) != before, 'nothing was written')
        return self.deliver(1 - side)

    def wire(self, side):
        if self.wiring == 'amp':
            return self.trans[side].written
        return self.sent[side]

    def deliver(self, to, cut=()):
        data = self.trans[1 - to].take()
        for p in pieces(data, cut):
            try:
                self.protos[to].dataReceived(p)
            except Exception:
                if self.sure:
                    raise
                self.dead = True        # a real transport drops the connection here
                return 'undeliverable'
        return 'sent'

    def settle(self):
        if self.queued:
            self.flush()

    def invariant(self):
        for r in self.receivers:
            same(r.events, self.expected[r.number], 'boxes at receiver %d' % (r.number,))

    def state(self):
        # automatic names are the implementation's business: only who has one matters
        return ([sorted(b.values()) for b in self.bound],
                [(r[0], r[6] if r[6] != AUTO else 'auto', r[4] == 'unset', self.bound[1 - r[0]].get(r[4]), r[5])
                 for r in self.routes], [len(e) for e in self.expected])


NAMES = [AUTO, None, u'0', u'1', u'r', u'\u00e9', u'']


def histories(wiring, depth, names, started=(True, True), flavour=0, maxroutes=3):
    def scenario(ch):
        n = Net(wiring, started)
        for k in range(depth):
            acts = []
            if len(n.routes) < maxroutes:
                acts += [('bind', s, name) for s in (0, 1) for name in names]
            for j, (side, route, number, local, remote, alive, asked) in enumerate(n.routes):
                if not alive:
                    continue
                acts += [('connect', j, None), ('connect', j, u'nowhere')]
                acts += [('connect', j, r[3]) for r in n.routes if r[0] != side and r[3] is not None]
                if n.running[0] and n.running[1]:
                    acts.append(('send', j, flavour))
                acts.append(('unbind', j))
            acts += [('start', s) for s in (0, 1) if not n.running[s]]
            if not acts:
                break
            a = ch.choose(acts, 'do')
            r = getattr(n, a[0])(*a[1:])
            n.settle()
            n.invariant()
            ch.obs((n.state(), a[0]))
            if n.dead:
                return
        # afterwards every connected route still sends where it should
        for s in (0, 1):
            if not n.running[s]:
                n.start(s)
            n.identifier(s)
        for j, r in enumerate(n.routes):
            if r[5] and not n.dead and (wiring != 'amp' or r[4] == 'unset' or n.bound[1 - r[0]].get(r[4]) is not None):
                n.send(j, flavour)
                n.settle()
                n.invariant()
        ch.obs(n.state())
    return scenario


def matrix(case):
    """Every pair of names; one route each; default receivers present."""
    a, b, wiring, flavour, autos = case
    n = Net(wiring)
    ids = []
    for side in (0, 1):
        ids.append(n.bind(side, None))
        for i in range(autos):
            n.bind(side, AUTO)
    ra = n.bind(0, a)
    rb = n.bind(1, b)
    n.connect(ra, n.routes[rb][3])
    n.connect(rb, n.routes[ra][3])
    n.connect(ids[0] if a is not None else ra, None)
    n.connect(ids[1] if b is not None else rb, None)
    for k in (ra, rb, ids[0], ids[1], rb, ra):
        if n.routes[k][4] == 'unset' or n.bound[n.routes[k][0]].get(n.routes[k][3]) != n.routes[k][2]:
            continue
        n.send(k, flavour)
        n.settle()
        n.invariant()
    return (repr(a), repr(b))


def autonames(case):
    """Automatic names never collide with explicit ones, however they mix."""
    explicit, when, unbindEvery, started = case
    n = Net('direct', started)
    for k in range(40):
        if k == when:
            for e in explicit:
                n.bind(0, e)
        j = n.bind(0, AUTO)
        n.identifier(0)
        if unbindEvery and k % unbindEvery == 0:
            n.unbind(j)
        if k == 20 and not n.running[0]:
            n.start(0)
    return len(n.bound[0])


def long(case):
    """Hundreds of routes and boxes in one byte stream, cut in every fixed size."""
    nroutes, nboxes, step = case
    n = Net('amp')
    left, right = [], []
    for k in range(nroutes):
        left.append(n.bind(0, AUTO))
        right.append(n.bind(1, AUTO if k % 3 else u'name-%d' % k))
    for k in range(nroutes):
        n.connect(left[k], n.routes[right[nroutes - 1 - k]][3])
        n.connect(right[k], n.routes[left[nroutes - 1 - k]][3])
    for side, routes in ((0, left), (1, right)):
        for b in range(nboxes):
            k = routes[(b * 7) % nroutes]
            box, content = n.makeBox(b % 2)
            target = n.bound[1 - side][n.routes[k][4]]
            n.expected[target].append(content)
            n.routes[k][1].sendBox(box)
            op()
        data = len(n.trans[side].pending)
        n.deliver(1 - side, range(step, data, step) if step else ())
        n.invariant()
    return case


class Ask(Command):
    arguments = [(b'n', Integer())]
    response = [(b'who', Integer()), (b'n', Integer())]


def commands(perms):
    """Real AMP dispatchers on several routes over one connection, answers in any order."""
    from twisted.internet.defer import Deferred

    def scenario(ch):
        from epsilon.amprouter import Router
        routers = [Router(), Router()]
        protos = [BinaryBoxProtocol(r) for r in routers]
        trans = [Transport('0'), Transport('1')]
        pending = []

        class Locator(CommandLocator):
            def __init__(self, who):
                self.who = who

            @Ask.responder
            def ask(self, n):
                d = Deferred()
                pending.append((d, self.who, n))
                return d
        disp = [[BoxDispatcher(Locator(side * 10 + k)) for k in range(3)] for side in (0, 1)]
        routes = [[routers[side].bindRoute(disp[side][k]) for k in range(3)] for side in (0, 1)]
        early = ch.flag('connect before start')
        shift = ch.choose(3, 'shift')

        def connect():
            for k in range(3):
                routes[0][k].connectTo(routes[1][(k + shift) % 3].localRouteName)
                routes[1][(k + shift) % 3].connectTo(routes[0][k].localRouteName)
        if early:
            connect()
        for s in (0, 1):
            protos[s].makeConnection(trans[s])
        if not early:
            connect()
        results = {}

        def pump():
            while trans[0].pending or trans[1].pending:
                protos[1].dataReceived(trans[0].take() or b'')
                protos[0].dataReceived(trans[1].take() or b'')
        for n in range(6):
            side, k = n % 2, n // 2
            op()
            d = disp[side][k].callRemote(Ask, n=n)
            d.addBoth(lambda r, n=n: results.setdefault(n, []).append(r))
        pump()
        same(len(pending), 6, 'every command arrived once')
        while pending:
            d, who, n = pending.pop(ch.choose(len(pending), 'answer'))
            d.callback({'who': who, 'n': n})
            pump()
            side, k = n % 2, n // 2
            want = (1 - side) * 10 + ((k + shift) % 3 if side == 0 else (k - shift) % 3)
            same(results.get(n), [{'who': want, 'n': n}], 'answer to command %d' % n)
            ch.obs(sorted(results))
        same(len(results), 6, 'answers')
    return scenario


def reuse(case):
    """One box object sent through several routes one after the other."""
    order, wiring = case
    n = Net(wiring)
    targets = [n.bind(1, None), n.bind(1, u'x'), n.bind(1, u'y')]
    src = [n.bind(0, AUTO) for t in targets]
    for s, t in zip(src, (None, u'x', u'y')):
        n.connect(s, t)
    box, content = n.makeBox()
    for k in order:
        n.expected[n.routes[targets[k]][2]].append(content)
        n.routes[src[k]][1].sendBox(box)
        if wiring == 'amp':
            n.deliver(1)
        n.settle()
        n.invariant()
        if wiring == 'amp':
            same(dict(box), content, 'the box of the caller')
    return order


def errors(case):
    """
    A failure a receiver reports through its route is reported once, as it is,
    to the connection underneath, whatever became of the route.
    """
    nroutes, which, state, repeat = case
    from twisted.python.failure import Failure
    from epsilon.amprouter import Router
    reported, boxes = [], []

    @implementer(IBoxSender)
    class Sender(Alike):
        def sendBox(self, box):
            boxes.append(box)

        def unhandledError(self, failure):
            reported.append(failure)
    router = Router()
    receivers = [Receiver(k) for k in range(nroutes)]
    routes = [router.bindRoute(r, u'r%d' % k) for k, r in enumerate(receivers)]
    if state != 'unconnected':
        for r in routes:
            r.connectTo(None if state == 'default' else u'elsewhere')
    router.startReceivingBoxes(Sender())
    if state == 'unbound':
        routes[which].unbind()
    op()
    wanted = []
    for k in range(repeat):
        f = Failure(ValueError('problem %d' % k))
        wanted.append(f)
        routes[which].unhandledError(f)
        check(len(reported) == len(wanted) and all(a is b for a, b in zip(reported, wanted)), 'failures reported to the connection', reported)
    same(boxes, [], 'boxes sent')
    same([r.events for r in receivers], [[]] * nroutes, 'boxes received')
    return state


def garbled(case):
    """Route names which no route can have: such a box is nobody's."""
    raw, names, native = case
    from epsilon.amprouter import Router
    router = Router()
    receivers = [Receiver(k) for k in range(len(names))]
    for r, n in zip(receivers, names):
        router.bindRoute(r, n).connectTo(u'x')
    router.startReceivingBoxes(Direct(None, 0))
    op()
    for k in (0, 1):
        box = AmpBox()
        box[b'_route'] = raw
        box[b'k'] = b'v'
        try:
            router.ampBoxReceived(box)
        except Exception:
            pass           # a real transport would drop the connection
        same([r.events for r in receivers], [[]] * len(names), 'receivers of a box for %r' % (raw,))
    return raw


def run(ctx):
    ctx.assumptions += ['two routers, up to three routes per history; route names are text or None',
                        'an undeliverable box may raise (a real transport then drops the connection)']
    q = ctx.quick
    for wiring in ('direct', 'amp', 'queued'):
        ctx.explore('histories-' + wiring, histories(wiring, (5 if wiring == 'amp' else 4) + (not q), [AUTO, None, u'r', u'0']), parallel=True)
    ctx.explore('deep-amp', histories('amp', 5 if q else 7, [AUTO, None], maxroutes=2), parallel=True)
    ctx.explore('rebind', histories('direct', 5 if q else 6, [u'r'], maxroutes=3), parallel=True)
    ctx.explore('before-start', histories('direct', 4 if q else 5, [AUTO, u'0', None], (False, False)), parallel=True)
    ctx.explore('before-start-amp', histories('amp', 4 if q else 5, [AUTO, u'r'], (False, True), 1), parallel=True)
    ctx.explore('native-boxes', histories('direct', 4, [AUTO, None, u'r'], flavour=2), parallel=True)
    names = NAMES + [u'\U0001f600', u'a' * 300, u'_route', u'None', u'\0', u'2', u'00', u'-1', u' ']
    ctx.sweep('names', [(a, b, w, f, au) for a in names for b in names for w in ('direct', 'amp')
                        for f in (0, 1) for au in (0, 3)], matrix, parallel=True)
    explicit = [()] + [(u'%d' % k,) for k in range(45)] + [tuple(u'%d' % k for k in range(a, a + w))
                                                          for a in range(0, 40, 3) for w in (2, 5, 40)]
    ctx.sweep('automatic-names', [(e, w, u, (s, s)) for e in explicit for w in (0, 1, 5, 19, 21) for u in (0, 1, 2, 3)
                                  for s in (True, False)], autonames, parallel=True)
    ctx.sweep('long', [(1, 600, 0), (20, 300, 0), (300, 300, 0), (40, 60, 1), (40, 60, 13)]
              + [(5, 8, s) for s in range(1, 80)], long)
    ctx.explore('commands', commands(6), parallel=True)
    import itertools
    ctx.sweep('reuse', [(o, w) for r in (2, 3) for o in itertools.product(range(3), repeat=r)
                        for w in ('amp', 'direct')], reuse)
    garbage = [b'\xff', b'\xff0', b'0\xff', b'\xc3', b'r\xc3', b'\xc3\x28', b'\xed\xa0\x80', b'\xff\xfe0\0', b'\xe9', b'r\xff\xff', b'\xf8r',
               b'1', b' 0', b'0 ', b'0\0', b'00', b'R', b'x', b'b', b"b'r'", b'None', b'?r', b'r?', b'\xef\xbb\xbfr', b'\xef\xbb\xbf']
    ctx.sweep('garbled', [(g, names, 0) for g in garbage for names in ((u'0', u'r', None), (None,), (u'\xe9', u'', u'\ufffd', u'\ufffdr'), (u'',))], garbled)
    ctx.sweep('errors', [(n, w, s, r) for n in (1, 2, 3) for w in range(n) for s in ('unconnected', 'default', 'named', 'unbound') for r in (1, 2)], errors)
