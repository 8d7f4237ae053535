"""
C01: an AMP login succeeds exactly when it carries a valid proof.
"""
from mc.core import check, same, op, Violation
from mc.auth import World, proof
from mc.net import pieces

PW = {b'alice': b'sesame', b'bob': b'hunter2'}
SEEN = set()          # every challenge ever issued in this process


def freshChallenge(c, answer):
    same(sorted(answer[1]), [b'challenge'], 'fields of the answer to a challenge request')
    ch = answer[1][b'challenge']
    check(len(ch) >= 8, 'a challenge too short to be unguessable', ch)
    check(ch not in SEEN, 'a challenge was issued twice', ch)
    SEEN.add(ch)
    return ch


class Model(object):
    """What each connection may do, computed from what was sent on it."""

    def __init__(self, nconns, delayed=(), pads=None, passwords=PW):
        self.passwords = dict(passwords)
        self.pads = dict(pads if pads is not None else {b'pad-1': b'carol', b'pad-2': b'dave'})
        self.w = World(dict(self.passwords), dict(self.pads), delayed)
        self.conns = [self.w.connect() for i in range(nconns)]
        self.challenge = [None] * nconns      # (challenge, user) in force
        self.history = [[] for i in range(nconns)]
        self.avatar = [None] * nconns         # serial of the avatar in use
        self.expect = [[] for i in range(nconns)]  # boxes the avatar must have got
        self.nonce = 0
        self.lastCR = [None] * nconns
        self.waiting = []                      # (conn, tag, who or None)

    def join(self):
        """One more connection."""
        self.conns.append(self.w.connect())
        for l, v in ((self.challenge, None), (self.history, []), (self.avatar, None), (self.expect, []), (self.lastCR, None)):
            l.append(v)

    def newNonce(self):
        self.nonce += 1
        return b'nonce%d' % (self.nonce,)

    def usable(self, i):
        return not self.conns[i].closed

    def send(self, i, command, **fields):
        """Send; return the answer, or None after login (then the box is the avatar's)."""
        c = self.conns[i]
        op()
        tag = c.send(command, **fields)
        if self.avatar[i] is not None:
            self.expect[i].append(c.lastBox)
            check(tag not in c.answers, 'something but the avatar answered after login', c.answers.get(tag))
            return None, None
        c.settle()
        return tag, c.answers.get(tag)

    def pl(self, i, user):
        tag, a = self.send(i, b'PasswordLogin', username=user)
        if tag is None:
            return 'box'
        check(a is not None and a[0] == 'ok', 'no challenge for a challenge request', user, a)
        ch = freshChallenge(self.conns[i], a)
        self.challenge[i] = (ch, user)
        self.history[i].append(ch)
        return 'challenged'

    def verdict(self, i, nonce, response):
        if self.challenge[i] is None:
            return None
        ch, user = self.challenge[i]
        pw = self.passwords.get(user)
        if pw is not None and response == proof(ch, nonce, pw):
            return user
        return None

    def cr(self, i, nonce, response):
        who = self.verdict(i, nonce, response)
        self.lastCR[i] = (nonce, response)
        tag, a = self.send(i, b'PasswordChallengeResponse', cnonce=nonce, response=response)
        if tag is None:
            return 'box'
        return self.outcome(i, tag, a, who)

    def otp(self, i, pad):
        if self.avatar[i] is None:
            who = self.pads.pop(pad, None)
        else:
            who = None
        tag, a = self.send(i, b'OTPLogin', pad=pad)
        if tag is None:
            return 'box'
        return self.outcome(i, tag, a, who)

    def outcome(self, i, tag, a, who):
        if a is None and self.w.delayed and len(self.w.pending) > len(self.waiting):
            self.waiting.append((i, tag, who))
            return 'waiting'
        return self.settled(i, tag, who)

    def settled(self, i, tag, who):
        c = self.conns[i]
        a = c.answers.get(tag)
        if who is None or c.closed or self.avatar[i] is not None:
            check(a is None and c.closed or a is not None and a[0] == 'error',
                  'a login without a valid proof was not refused', a)
            if a is not None and self.challenge[i] is not None:
                same(a[1].get(b'_error_code'), b'UNAUTHORIZED_LOGIN', 'error of a refused login')
            return 'refused'
        check(a is not None and a[0] == 'ok', 'a login with a valid proof was refused', who, a)
        same(a[1], {}, 'answer to a successful login')
        self.avatar[i] = len(self.w.avatars) - 1
        same(self.w.avatars[-1].avatarId, who, 'avatar given to a login')
        self.expect[i] = []
        return 'in as %s' % (who.decode('latin-1'),)

    def bound(self):
        return [s for s in self.avatar if s is not None]

    def complete(self, k):
        i, tag, who = self.waiting.pop(k)
        self.w.complete(k)
        self.conns[i].settle()
        return self.settled(i, tag, who)

    def app(self, i):
        tag, a = self.send(i, b'Application', payload=b'x')
        if tag is None:
            return 'box'
        check(a is None and self.conns[i].closed or a is not None and a[0] == 'error',
              'an application box was answered before login', a)
        return 'unhandled'

    def invariant(self):
        w = self.w
        used = self.bound()
        same(len(used), len(set(used)), 'two connections share an avatar')
        for av in w.avatars:
            boxes = [e[1] for e in av.events if e[0] == 'box']
            if av.serial in used:
                i = self.avatar.index(av.serial)
                same(boxes, self.expect[i], 'boxes of the avatar of connection %d' % i)
            else:
                same(boxes, [], 'boxes of an avatar nobody uses')
        if not w.delayed:
            same(len(w.avatars), len(used), 'avatars handed out')
        for c in self.conns:
            same(c.trans.pending, b'', 'unexpected output on connection %d' % c.number)

    def state(self):
        return (tuple(None if c is None else c[1] for c in self.challenge),
                tuple(None if a is None else self.w.avatars[a].avatarId for a in self.avatar),
                tuple(c.closed for c in self.conns), tuple(sorted(self.pads)),
                tuple(len(e) for e in self.expect), len(self.waiting))


def source(m, i, src):
    """A challenge an attacker can try on connection i."""
    if src == 'latest':
        return m.challenge[i] and m.challenge[i][0]
    if src == 'earlier':
        return m.history[i][-2] if len(m.history[i]) > 1 else None
    if src == 'first':
        return m.history[i][0] if len(m.history[i]) > 1 else None
    if src == 'foreign':
        j = 1 - i
        return m.challenge[j] and m.challenge[j][0]
    if src == 'empty':
        return b''


def mutants(ch, nonce, pw):
    right = proof(ch, nonce, pw)
    return [
        (b'', right), (nonce + b'x', right), (nonce[:-1], right), (nonce.upper(), right),
        (nonce, b''), (nonce, right[:-1]), (nonce, right + b'\0'), (nonce, right[1:]),
        (nonce, bytes([right[0] ^ 1]) + right[1:]), (nonce, right[:-1] + bytes([right[-1] ^ 0x80])),
        (nonce, right[::-1]), (nonce, right.hex().encode()), (nonce, pw), (nonce, ch),
        (nonce, proof(nonce, ch, pw)), (nonce, proof(ch, pw, nonce)), (nonce, proof(ch, nonce, b'')),
        (nonce, proof(ch, b'', pw)), (nonce, proof(b'', nonce, pw)),
        (nonce, b'\0' * 20), (right, nonce),
    ]


def menu(rich):
    ops = [('pl', b'alice'), ('pl', b'bob')]
    if rich:
        ops += [('pl', b'nobody'), ('pl', b'')]
    for src in ('latest', 'earlier', 'foreign') + (('empty', 'first') if rich else ()):
        for pw in (b'sesame', b'hunter2') + ((b'wrong', b'') if rich else ()):
            ops.append(('cr', src, pw))
    ops += [('replay', 'own'), ('replay', 'other')]
    if rich:
        ops += [('mutant', k) for k in range(21)]
        ops += [('otp', b'pad-2'), ('otp', b'')]
    ops += [('otp', b'pad-1'), ('otp', b'pad-x'), ('app',)]
    return ops


def perform(m, i, o):
    """Returns None when the operation is not possible here."""
    if not m.usable(i):
        return None
    if o[0] == 'pl':
        return m.pl(i, o[1])
    if o[0] == 'cr':
        ch = source(m, i, o[1])
        if ch is None:
            return None
        nonce = m.newNonce()
        return m.cr(i, nonce, proof(ch, nonce, o[2]))
    if o[0] == 'replay':
        last = m.lastCR[i if o[1] == 'own' else 1 - i]
        if last is None:
            return None
        return m.cr(i, *last)
    if o[0] == 'mutant':
        if m.challenge[i] is None:
            return None
        ch, user = m.challenge[i]
        nonce = m.newNonce()
        return m.cr(i, *mutants(ch, nonce, m.passwords.get(user, b'sesame'))[o[1]])
    if o[0] == 'otp':
        return m.otp(i, o[1])
    if o[0] == 'app':
        return m.app(i)


def histories(depth, rich):
    ops = menu(rich)

    def scenario(ch):
        m = Model(2)
        for k in range(depth):
            i = 0 if k == 0 else ch.choose(2, 'conn')
            o = ch.choose(ops, 'op')
            r = perform(m, i, o)
            ch.note(r)
            if r is None:
                return
            m.invariant()
            ch.obs((m.state(), r))
    return scenario


def delayed(depth, kind):
    """Checkers or realms that answer later, in any order."""
    def scenario(ch):
        m = Model(2, delayed=(kind,))
        ops = [('pl', b'alice'), ('pl', b'bob'), ('cr', 'latest', b'sesame'),
               ('cr', 'latest', b'hunter2'), ('otp', b'pad-1'), ('app',)]
        for k in range(depth):
            acts = []
            for i in ((0,) if k == 0 else (0, 1)):
                if m.usable(i):
                    acts += [(i, o) for o in ops]
            acts += [('complete', n) for n in range(len(m.waiting))]
            a = ch.choose(acts, 'do')
            if a[0] == 'complete':
                r = m.complete(a[1])
            else:
                r = perform(m, *a)
            ch.note(r)
            if r is None:
                return
            m.invariant()
            ch.obs((m.state(), r))
        while m.waiting:
            r = m.complete(0)
            m.invariant()
            ch.obs((m.state(), r))
    return scenario


def servers(depth):
    """
    Two servers in one process, with their own users and pads: what opens one
    is worth nothing at the other, in whichever order they are visited.
    """
    pws = [{b'alice': b'sesame'}, {b'alice': b'hunter2', b'bob': b'sesame'}]
    pads = [{b'pad': b'carol', b'p0': b'x'}, {b'pad': b'dave', b'p1': b'y'}]

    def scenario(ch):
        ms = [Model(0, pads=dict(pads[k]), passwords=pws[k]) for k in (0, 1)]
        conns = []
        for k in range(depth):
            acts = [('connect', s) for s in (0, 1) if len(ms[s].conns) < 2]
            for n, (s, i) in enumerate(conns):
                m = ms[s]
                if not m.usable(i):
                    continue
                if m.avatar[i] is not None:
                    acts.append(('app', n))
                    continue
                acts += [('pl', n, b'alice')]
                if m.challenge[i] is not None:
                    acts += [('cr', n, b'sesame'), ('cr', n, b'hunter2')]
                acts += [('otp', n, b'pad'), ('otp', n, b'p0')]
            a = ch.choose(acts, 'do')
            if a[0] == 'connect':
                ms[a[1]].join()
                conns.append((a[1], len(ms[a[1]].conns) - 1))
                r = 'connected'
            else:
                s, i = conns[a[1]]
                m = ms[s]
                if a[0] == 'cr':
                    r = perform(m, i, ('cr', 'latest', a[2]))
                else:
                    r = perform(m, i, (a[0],) + a[2:])
            ch.note(r)
            for m in ms:
                m.invariant()
            ch.obs((tuple(conns), tuple(m.state() for m in ms), r))
    return scenario


PASSWORDS = [b'', b'a', b'A', b'aa', b'a\0', b'a\0b', b'a\n', b'\x00', b'\xff', b'\xfe', b'\xc3\xa9',
             b'e\xcc\x81', b'0', b'pass', b'Pass', b'password', b'password1', b'password12345678',
             b'password123456789', b'x' * 20, b'x' * 55, b'x' * 56, b'x' * 63, b'x' * 64, b'x' * 65,
             b'x' * 72, b'x' * 73, b'x' * 255, b'x' * 256, b'x' * 1000, b'%s', b'%', b'{}',
             u'\u00e9t\u00e9'.encode('utf-8'), u'\u00e9t\u00e8'.encode('utf-8')]
USERS = [b'', b'alice', b'Alice', b'ALICE', b'alice ', b' alice', b'alic', b'alicea', b'a\0', b'\xff',
         b'alice\0', b'alice@example.com', u'\u00e9'.encode('utf-8'), b'x' * 255]


def passwordPairs(case):
    stored, given, text, viaClient = case
    pws = {b'u': stored.decode('utf-8') if text else stored}
    m = Model(1, passwords={b'u': stored})
    m.w.passwords.update(pws)
    m.pl(0, b'u')
    chal = m.challenge[0][0]
    if viaClient:
        from epsilon.ampauth import PasswordChallengeResponse
        g = given.decode('utf-8') if text else given
        args = PasswordChallengeResponse.determineFrom(chal, g)
        same(sorted(args), ['cnonce', 'response'], 'arguments determined for a response')
        check(len(args['cnonce']) >= 8, 'a nonce too short to be unguessable', args['cnonce'])
        check(args['cnonce'] not in SEEN, 'a client nonce was used twice')
        SEEN.add(args['cnonce'])
        nonce, resp = args['cnonce'], args['response']
        same(resp, proof(chal, nonce, given), 'response computed by the client')
    else:
        nonce = b'n'
        resp = proof(chal, nonce, given)
    r = m.cr(0, nonce, resp)
    m.invariant()
    same(r, 'in as u' if stored == given else 'refused', 'login verdict')
    return r


def userPairs(case):
    asked, other = case
    # both exist, with different passwords; only the asked one's password works
    m = Model(1, passwords={asked: b'first', other: b'second'} if other != asked else {asked: b'first'})
    out = []
    m.pl(0, asked)
    for pw in (b'second', b'first'):
        chal = m.challenge[0][0]
        r = m.cr(0, b'nn', proof(chal, b'nn', pw))
        out.append(r)
        m.invariant()
    same(out[0], 'refused', 'login with another user\'s password')
    check(out[1].startswith('in'), 'login with the user\'s own password refused')
    same(m.w.avatars[-1].avatarId, asked, 'avatar')
    # and an unknown user gets nowhere
    return out


def segmented(case):
    """The whole exchange cut anywhere: two pipelined commands and an application box."""
    cut, good = case
    from twisted.protocols.amp import AmpBox
    m = Model(1)
    m.pl(0, b'alice')
    chal = m.challenge[0][0]
    c = m.conns[0]

    def box(tag, cmd, **kw):
        b = AmpBox()
        b[b'_command'] = cmd
        b[b'_ask'] = tag
        for k, v in kw.items():
            b[k.encode()] = v
        return b
    n = b'nonce'
    bad = box(b'a1', b'PasswordChallengeResponse', cnonce=n, response=b'\0' * 20)
    if good:
        ok = box(b'a2', b'PasswordChallengeResponse', cnonce=n, response=proof(chal, n, b'sesame'))
    else:
        ok = box(b'a2', b'OTPLogin', pad=b'pad-1')
    app = box(b'a3', b'Application', x=b'y')
    wire = bad.serialize() + ok.serialize() + app.serialize()
    for p in pieces(wire, [x for x in cut if x < len(wire)]):
        c.proto.dataReceived(p)
        op()
    c.collect()
    same(sorted((k, v[0]) for k, v in c.answers.items() if k.startswith(b'a')),
         [(b'a1', 'error'), (b'a2', 'ok')], 'answers')
    same([a.avatarId for a in m.w.avatars], [b'alice' if good else b'carol'], 'avatars')
    same([e[1] for e in m.w.avatars[0].events if e[0] == 'box'], [dict(app)], 'boxes of the avatar')
    return (len(cut), good)


def many(n):
    """Every challenge of a long history is new, whoever asks."""
    m = Model(3)
    for k in range(n):
        same(m.pl(k % 3, [b'alice', b'bob', b'alice'][k // 3 % 3]), 'challenged', 'answer')
    # and the very last one still works, only it, on its own connection
    for i in range(3):
        user = m.challenge[i][1]
        old = m.history[i][-2]
        same(m.cr(i, b'n', proof(old, b'n', PW[user])), 'refused', 'stale challenge')
        same(m.cr(i, b'n', proof(m.history[i][0], b'n', PW[user])), 'refused', 'stale challenge')
        same(m.cr(i, b'n', proof(m.history[i - 1][-1], b'n', PW[user])), 'refused', 'foreign challenge')
        check(m.cr(i, b'n', proof(m.challenge[i][0], b'n', PW[user])).startswith('in'), 'refused')
    m.invariant()
    return n


def brute(n):
    """Many failed attempts change nothing: no lockout bypass, no exhaustion."""
    m = Model(1)
    m.pl(0, b'alice')
    ch = m.challenge[0][0]
    for k in range(n):
        same(m.cr(0, b'%d' % k, proof(ch, b'%d' % k, b'guess%d' % k)), 'refused', 'wrong password')
    check(m.cr(0, b'n', proof(ch, b'n', b'sesame')).startswith('in'), 'the right password was refused')
    m.invariant()
    return n


def run(ctx):
    ctx.assumptions += [
        'the transport, twisted.cred.Portal and twisted.protocols.amp are trusted',
        'two connections, two users, two pads; attacker builds messages from everything seen on the wire',
    ]
    ctx.explore('histories-rich', histories(3 if ctx.quick else 4, True), parallel=True)
    ctx.explore('histories', histories(4 if ctx.quick else 5, False), parallel=True)
    ctx.explore('delayed-checker', delayed(5 if ctx.quick else 6, 'check'), parallel=True)
    ctx.explore('delayed-realm', delayed(4 if ctx.quick else 6, 'realm'), parallel=True)
    ctx.explore('two-servers', servers(5 if ctx.quick else 7), parallel=True)
    pairs = [(a, b, False, v) for a in PASSWORDS for b in PASSWORDS for v in (False, True)]

    def isText(x):
        try:
            x.decode('utf-8')
            return True
        except UnicodeDecodeError:
            return False
    texts = [p for p in PASSWORDS if isText(p)]
    pairs += [(a, b, True, v) for a in texts for b in texts for v in (False, True)]
    ctx.sweep('password-pairs', pairs, passwordPairs, parallel=True)
    ctx.sweep('user-pairs', [(a, b) for a in USERS for b in USERS], userPairs)
    n = 330
    cuts = [(i,) for i in range(1, n)] + [tuple(range(1, n))] + [tuple(range(s, n, s)) for s in (2, 3, 5, 7, 50)]
    if not ctx.quick:
        cuts += [(i, j) for i in range(1, n) for j in range(i + 1, n)]
    ctx.sweep('segmented', [(c, g) for c in cuts for g in (True, False)], segmented, parallel=True)
    ctx.sweep('many-challenges', [3000 if ctx.quick else 100000], many)
    ctx.sweep('many-failures', [300 if ctx.quick else 5000], brute)
