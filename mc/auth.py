"""
A world of AMP connections to an authenticating server, for C01 to C03.
"""
from hashlib import sha1
from zope.interface import implementer
from twisted.cred.portal import IRealm, Portal
from twisted.cred.checkers import ICredentialsChecker
from twisted.cred.credentials import IUsernameHashedPassword
from twisted.cred.error import UnauthorizedLogin
from twisted.internet.defer import Deferred, maybeDeferred
from twisted.protocols.amp import IBoxReceiver, AmpBox, parseString

from mc.core import check, same, Violation, Alike
from mc.net import Transport, reason


def proof(challenge, nonce, password):
    return sha1(challenge + b' ' + nonce + b' ' + password).digest()


class AvatarError(RuntimeError):
    """The avatar itself raised this."""


@implementer(IBoxReceiver)
class Avatar(Alike):
    def __init__(self, world, avatarId, serial):
        self.world = world
        self.avatarId = avatarId
        self.serial = serial
        self.events = []

    def startReceivingBoxes(self, sender):
        self.events.append(('start', sender))

    def ampBoxReceived(self, box):
        self.events.append(('box', dict(box)))

    def stopReceivingBoxes(self, reason):
        self.events.append(('stop',))


class Logout(Alike):
    """Logs one avatar out; no better than any other object otherwise."""

    def __init__(self, world, serial):
        self.world = world
        self.serial = serial

    def __call__(self):
        self.world.logouts[self.serial] += 1
        events = self.world.avatars[self.serial].events
        if events and ('stop',) not in events:
            self.world.loggedOutInUse.append(self.serial)


@implementer(IRealm)
class Realm(object):
    def __init__(self, world):
        self.world = world

    def requestAvatar(self, avatarId, mind, *interfaces):
        return self.world.requestAvatar(avatarId, interfaces)


@implementer(ICredentialsChecker)
class Passwords(object):
    credentialInterfaces = (IUsernameHashedPassword,)

    def __init__(self, world):
        self.world = world

    def requestAvatarId(self, credentials):
        def verdict():
            pw = self.world.passwords.get(credentials.username)
            if pw is None:
                raise UnauthorizedLogin('no such user')
            if not credentials.checkPassword(pw):
                raise UnauthorizedLogin('bad password')
            return credentials.username
        return self.world.decide('check', verdict)


class World(object):
    """
    Connections, users, pads; `delayed` makes checker ('check') or realm
    ('realm') answers wait for complete().
    """

    def __init__(self, passwords, pads, delayed=(), pads_checker=None):
        from epsilon import ampauth
        self.passwords = passwords
        self.pads = pads
        self.delayed = delayed
        self.avatars = []
        self.logouts = []
        self.loggedOutInUse = []      # before they were told that it is over
        self.pending = []
        portal = Portal(Realm(self))
        portal.registerChecker(Passwords(self))
        portal.registerChecker(ampauth.OneTimePadChecker(pads))
        self.factory = ampauth.CredAMPServerFactory(portal)
        self.conns = []

    # what the portal is made of

    def decide(self, what, verdict):
        if what not in self.delayed:
            return verdict()
        d = Deferred()
        self.pending.append((what, d, verdict))
        return d

    def complete(self, i, fail=None):
        what, d, verdict = self.pending.pop(i)
        if fail is not None:
            d.errback(fail)
        else:
            m = maybeDeferred(verdict)
            m.chainDeferred(d)

    noAvatar = ()

    def requestAvatar(self, avatarId, interfaces):
        def verdict():
            same(tuple(interfaces), (IBoxReceiver,), 'interfaces asked of the realm')
            if avatarId in self.noAvatar:
                raise NotImplementedError('no avatar')
            a = self.makeAvatar(avatarId, len(self.avatars))
            self.avatars.append(a)
            self.logouts.append(0)

            return (IBoxReceiver, a, Logout(self, a.serial))
        return self.decide('realm', verdict)

    def makeAvatar(self, avatarId, serial):
        return Avatar(self, avatarId, serial)

    # the wire

    def connect(self):
        c = Conn(self, self.factory.buildProtocol(None), len(self.conns))
        self.conns.append(c)
        return c


class Conn(object):
    def __init__(self, world, proto, number):
        self.world = world
        self.proto = proto
        self.number = number
        self.trans = Transport(str(number))
        self.asks = 0
        self.answers = {}
        self.closed = False
        proto.makeConnection(self.trans)

    def send(self, command, **fields):
        """Send a command; return its tag."""
        self.asks += 1
        tag = b'%d' % (self.asks,)
        box = AmpBox()
        box[b'_command'] = command
        box[b'_ask'] = tag
        for k, v in fields.items():
            box[k.encode('ascii')] = v
        self.lastBox = dict(box)
        self.proto.dataReceived(box.serialize())
        self.collect()
        return tag

    def collect(self):
        data = self.trans.take()
        if data:
            for box in parseString(data):
                if b'_answer' in box:
                    tag = box.pop(b'_answer')
                    kind = 'ok'
                elif b'_error' in box:
                    tag = box.pop(b'_error')
                    kind = 'error'
                else:
                    raise Violation('the server sent something that is no answer: %r' % (box,))
                check(tag not in self.answers, 'a command was answered twice', tag, self.answers)
                self.answers[tag] = (kind, dict(box))

    def lose(self):
        if not self.closed:
            self.closed = True
            self.trans.disconnected = True
            try:
                self.proto.connectionLost(reason())
            except AvatarError:
                pass               # which a reactor would log

    def settle(self):
        """Close the connection if the server asked for that."""
        self.collect()
        if self.trans.disconnecting and not self.closed:
            self.lose()
