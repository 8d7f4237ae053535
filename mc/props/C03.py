"""
C03: every avatar logged in over AMP is logged out exactly once.
"""
from twisted.cred.error import UnauthorizedLogin
from twisted.protocols.amp import AmpBox

from mc.core import check, same, op
from mc.auth import World, Avatar, AvatarError, proof


class TalkingAvatar(Avatar):
    """Sends a box as soon as it is started, so its sender is observable."""

    def startReceivingBoxes(self, sender):
        Avatar.startReceivingBoxes(self, sender)
        b = AmpBox()
        b[b'_answer'] = b'hello-%d' % (self.serial,)
        sender.sendBox(b)


class Login(object):
    """One attempt, from its command to its completion."""

    def __init__(self, conn, tag, ident):
        self.conn, self.tag, self.ident = conn, tag, ident
        self.stage = None


class Server(object):
    def __init__(self, nconns, delayed):
        self.w = World({b'alice': b'sesame'},
                       dict((b'pad%d' % k, b'user%d' % k) for k in range(6)), delayed)
        self.w.makeAvatar = lambda ident, serial: TalkingAvatar(self.w, ident, serial)
        self.delayed = delayed
        self.conns = [self.w.connect() for i in range(nconns)]
        self.active = [None] * nconns
        self.queue = []           # attempts, in step with w.pending
        self.expectLogouts = []
        self.expectBoxes = [[] for i in range(nconns)]
        self.npads = 0

    def up(self, i):
        return not self.conns[i].closed

    def otp(self, i):
        pad = b'pad%d' % (self.npads,)
        ident = b'user%d' % (self.npads,)
        if self.active[i] is None:
            self.npads += 1
        return self.attempt(i, ident, b'OTPLogin', pad=pad)

    def badOtp(self, i):
        return self.attempt(i, None, b'OTPLogin', pad=b'nonsense')

    def password(self, i, pw):
        c = self.conns[i]
        if self.active[i] is not None:
            return self.attempt(i, None, b'PasswordLogin', username=b'alice')
        tag = c.send(b'PasswordLogin', username=b'alice')
        chal = c.answers[tag][1][b'challenge']
        return self.attempt(i, b'alice' if pw == b'sesame' else None, b'PasswordChallengeResponse',
                            cnonce=b'n', response=proof(chal, b'n', pw))

    def attempt(self, i, ident, command, **kw):
        op()
        c = self.conns[i]
        n = len(self.w.pending)
        tag = c.send(command, **kw)
        if self.active[i] is not None:
            self.expectBoxes[i].append(c.lastBox)
            check(tag not in c.answers, 'answered in place of the avatar')
            return 'box'
        l = Login(i, tag, ident)
        if len(self.w.pending) > n:
            check(tag not in c.answers, 'answered before the login was decided')
            self.queue.append(l)
            return 'waiting'
        return self.end(l)

    def end(self, l, failed=False):
        """The login has been decided; compare what it led to."""
        i = l.conn
        c = self.conns[i]
        c.settle()
        a = c.answers.get(l.tag)
        if l.ident is None or failed:
            same(len(self.w.avatars), len(self.expectLogouts), 'avatars after a failed login')
            if self.up(i):
                check(a is not None and a[0] == 'error', 'a failed login was not reported as one', a)
            return 'failed'
        same(len(self.w.avatars), len(self.expectLogouts) + 1, 'avatars after a login')
        av = self.w.avatars[-1]
        same(av.avatarId, l.ident, 'avatar')
        if not self.up(i) or self.active[i] is not None:
            self.expectLogouts.append(1)
            check(a is None or a[0] == 'error', 'a login which cannot be used was reported as success', a)
            if self.up(i):
                check(a is not None, 'no answer to a late login')
            same(av.events, [], 'events of an avatar which is not used')
            return 'late'
        self.expectLogouts.append(0)
        self.active[i] = av.serial
        check(a is not None and a[0] == 'ok', 'a successful login was not reported as one', a)
        same([e[0] for e in av.events], ['start'], 'events of a new avatar')
        hello = b'hello-%d' % (av.serial,)
        for c2 in self.conns:
            same(hello in c2.answers, c2 is c, 'the avatar sends through its own connection')
        return 'in'

    def complete(self, k, fail):
        op()
        l = self.queue.pop(k)
        n = len(self.w.pending) - 1
        self.w.complete(k, UnauthorizedLogin() if fail else None)
        if len(self.w.pending) > n:
            self.queue.append(l)
            return 'next stage'
        return self.end(l, fail)

    def app(self, i):
        op()
        c = self.conns[i]
        tag = c.send(b'App', x=b'%d' % len(self.expectBoxes[i]))
        if self.active[i] is not None:
            self.expectBoxes[i].append(c.lastBox)
        else:
            c.settle()
        return 'app'

    def lose(self, i):
        op()
        self.conns[i].lose()
        if self.active[i] is not None:
            self.expectLogouts[self.active[i]] += 1
        return 'lost'

    def invariant(self):
        same(self.w.logouts, self.expectLogouts, 'logouts of each avatar')
        same(self.w.loggedOutInUse, [], 'avatars logged out before they were told of the end')
        for i, c in enumerate(self.conns):
            if self.active[i] is not None:
                av = self.w.avatars[self.active[i]]
                want = ['start'] + ['box'] * len(self.expectBoxes[i]) + (['stop'] if c.closed else [])
                same([e[0] for e in av.events], want, 'events of the avatar in use')
                same([e[1] for e in av.events if e[0] == 'box'], self.expectBoxes[i], 'boxes')
        for av in self.w.avatars:
            if av.serial not in self.active:
                same(av.events, [], 'events of an avatar not in use')

    def state(self):
        return (tuple(self.expectLogouts), tuple(self.active), tuple(c.closed for c in self.conns),
                tuple((l.conn, l.ident) for l in self.queue), tuple(map(len, self.expectBoxes)))


def schedules(depth, nconns, delayed, attempts=3, kinds=('otp', 'pw', 'badpw', 'badOtp')):
    def scenario(ch):
        s = Server(nconns, delayed)
        made = 0
        for k in range(depth):
            acts = []
            for i in range(nconns):
                if s.up(i):
                    if made < attempts:
                        if 'otp' in kinds:
                            acts.append(('otp', i))
                        if 'pw' in kinds:
                            acts.append(('password', i, b'sesame'))
                        if 'badpw' in kinds:
                            acts.append(('password', i, b'wrong'))
                        if 'badOtp' in kinds:
                            acts.append(('badOtp', i))
                    acts.append(('app', i))
                    acts.append(('lose', i))
            for q in range(len(s.queue)):
                acts.append(('complete', q, False))
                acts.append(('complete', q, True))
            if not acts:
                break
            a = ch.choose(acts, 'do')
            if a[0] in ('otp', 'password', 'badOtp'):
                made += 1
            r = getattr(s, a[0])(*a[1:])
            ch.note(r)
            s.invariant()
            ch.obs((s.state(), r))
        # the end of everything: connections go, then the undecided logins succeed
        # (or the other way round)
        order = ch.choose(2, 'end')
        for part in ((0, 1) if order else (1, 0)):
            if part:
                for i in range(nconns):
                    if s.up(i):
                        s.lose(i)
                        s.invariant()
            else:
                while s.queue:
                    s.complete(0, False)
                    s.invariant()
        same(s.w.logouts, [1] * len(s.w.avatars), 'every avatar logged out once in the end')
        ch.obs(s.state())
    return scenario


class ActiveAvatar(Avatar):
    """Does something to its connection when it is started or given a box."""

    def __init__(self, world, ident, serial, acts):
        Avatar.__init__(self, world, ident, serial)
        self.acts = acts

    def act(self, where):
        what, conn = self.acts.get((self.avatarId, where), (None, None))
        if what == 'lose':
            conn.lose()
        elif what == 'ask':
            conn.trans.loseConnection()
        elif what == 'raise':
            raise AvatarError('raised when it should ' + where)

    def startReceivingBoxes(self, sender):
        Avatar.startReceivingBoxes(self, sender)
        self.act('start')

    def ampBoxReceived(self, box):
        Avatar.ampBoxReceived(self, box)
        self.act('box')

    def stopReceivingBoxes(self, reason):
        Avatar.stopReceivingBoxes(self, reason)
        self.act('stop')


def inside(ch, depth=4):
    """
    Avatars which lose their connection, ask for that, or raise, when started
    or given a box, or raise when stopped; several logins pipelined.
    """
    delayed = ch.choose([(), ('realm',), ('check', 'realm')], 'delayed')
    w = World({}, dict((b'pad%d' % k, b'user%d' % k) for k in range(3)), delayed)
    acts = {}
    w.makeAvatar = lambda ident, serial: ActiveAvatar(w, ident, serial, acts)
    n = ch.choose([1, 2], 'connections')
    conns = [w.connect() for i in range(n)]
    k = 0

    def invariant():
        same(w.loggedOutInUse, [], 'avatars logged out before they were told of the end')
        for c in conns:
            c.settle()
            for i, a in enumerate(w.avatars):
                check(w.logouts[i] <= 1, 'an avatar was logged out twice')
                check([e[0] for e in a.events].count('start') <= 1, 'an avatar was started twice')
                if owner[a.avatarId].closed:
                    same(w.logouts[i], 1, 'logouts of an avatar whose connection is gone')
                elif a.events:
                    same(w.logouts[i], 0, 'logouts of an avatar in use')
    owner = {}

    def send(c, *args, **kw):
        try:
            c.send(*args, **kw)
        except AvatarError:
            # the avatar's own error, which ends a real connection
            c.lose()
    for step in range(depth):
        acts_ = []
        if k < 3:
            acts_ += [('otp', c, s, b) for c in range(n) if not conns[c].closed
                      for s in (None, 'lose', 'ask', 'raise') for b in (('lose', 'raise', 'stop') if s is None else (None,))]
        acts_ += [('complete', i) for i in range(len(w.pending))]
        acts_ += [('app', c) for c in range(n) if not conns[c].closed]
        if not acts_:
            break
        a = ch.choose(acts_, 'do')
        op()
        if a[0] == 'otp':
            c = conns[a[1]]
            ident = b'user%d' % k
            owner[ident] = c
            acts[ident, 'start'] = (a[2], c)
            acts[ident, 'box'] = (None if a[3] == 'stop' else a[3], c)
            acts[ident, 'stop'] = ('raise' if a[3] in ('stop', 'raise') else None, c)
            before = len(w.avatars) + len(w.pending)
            send(c, b'OTPLogin', pad=b'pad%d' % k)
            if len(w.avatars) + len(w.pending) > before:
                k += 1
        elif a[0] == 'complete':
            w.complete(a[1])
        else:
            send(conns[a[1]], b'App', x=b'x')
        invariant()
        ch.obs((tuple(w.logouts), tuple(c.closed for c in conns), tuple(tuple(e[0] for e in a.events) for a in w.avatars), len(w.pending)))
    for c in conns:
        c.lose()
        invariant()
    while w.pending:
        w.complete(0)
        invariant()
    same(w.logouts, [1] * len(w.avatars), 'every avatar logged out once in the end')


def many(n):
    """n logins pipelined on one connection, completed in reverse; one wins."""
    out = []
    for order in (1, -1):
        s = Server(1, ('realm',))
        s.w.pads.update(dict((b'pad%d' % k, b'user%d' % k) for k in range(n)))
        for k in range(n):
            s.otp(0)
        while s.queue:
            s.complete(0 if order > 0 else len(s.queue) - 1, False)
            s.invariant()
        s.lose(0)
        s.invariant()
        same(s.w.logouts, [1] * n, 'logouts')
        out.append(s.active)
    return out


def run(ctx):
    ctx.assumptions += ['the realm may answer at any later time; connection loss is reported once']
    q = ctx.quick
    ctx.explore('sync', schedules(5 if q else 6, 1, ()), parallel=True)
    ctx.explore('sync-two', schedules(4 if q else 5, 2, (), kinds=('otp', 'badpw')), parallel=True)
    ctx.explore('realm', schedules(5 if q else 7, 1, ('realm',), kinds=('otp', 'pw', 'badpw')), parallel=True)
    ctx.explore('checker', schedules(5 if q else 7, 1, ('check',), kinds=('otp', 'pw', 'badpw')), parallel=True)
    ctx.explore('both', schedules(6 if q else 7, 1, ('check', 'realm'), kinds=('otp', 'pw')), parallel=True)
    ctx.explore('two-connections', schedules(5 if q else 6, 2, ('realm',), kinds=('otp',)), parallel=True)
    ctx.explore('inside', inside if q else (lambda ch: inside(ch, 5)), parallel=True)
    ctx.sweep('pipelined', [2, 3, 10, 40 if q else 400], many)
