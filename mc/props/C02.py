"""
C02: a one-time pad admits exactly one login, whoever presents it first.
"""
from zope.interface import implementer
from twisted.cred.error import UnauthorizedLogin
from twisted.internet.defer import maybeDeferred

from mc.core import check, same, op
from mc.auth import World


class Pads(object):
    """A server with pads, and the plain-dictionary model of what they are worth."""

    def __init__(self, pads, delayed=(), noAvatar=(), nconns=3):
        self.mapping = dict(pads)          # given to the code under test
        self.valid = dict(pads)            # the model
        self.w = World({b'alice': b'sesame'}, self.mapping, delayed)
        self.w.noAvatar = noAvatar
        self.noAvatar = noAvatar
        self.conns = []
        self.who = []
        self.waiting = []
        self.asked = []

    def issue(self, pad, ident):
        op()
        self.mapping[pad] = ident
        self.valid[pad] = ident
        return 'issued'

    def present(self, i, pad):
        op()
        if i == len(self.conns):
            self.conns.append(self.w.connect())
            self.who.append(None)
        c = self.conns[i]
        if self.who[i] is not None:
            n = len(self.w.avatars)
            tag = c.send(b'OTPLogin', pad=pad)
            check(tag not in c.answers, 'a pad was answered for after login')
            return 'box'
        good = pad in self.valid
        ident = self.valid.pop(pad, None)
        tag = c.send(b'OTPLogin', pad=pad)
        if good and self.w.delayed:
            check(tag not in c.answers, 'answered before the realm did', c.answers.get(tag))
            self.waiting.append((i, tag, ident))
            return 'waiting'
        return self.settled(i, tag, good, ident)

    def settled(self, i, tag, good, ident):
        c = self.conns[i]
        a = c.answers.get(tag)
        check(a is not None, 'no answer to a pad')
        if not good:
            same(a[0], 'error', 'an invalid pad was accepted')
            same(a[1][b'_error_code'], b'UNAUTHORIZED_LOGIN', 'error for an invalid pad')
            return 'refused'
        if ident in self.noAvatar:
            same(a[0], 'error', 'login without an avatar')
            return 'no avatar'
        if self.who[i] is not None:
            same(a[0], 'error', 'a second login on one connection')
            return 'late'
        same(a[0], 'ok', 'a valid pad was refused', a[1])
        av = self.w.avatars[-1]
        same((av.avatarId, type(av.avatarId)), (ident, type(ident)), 'identity admitted by a pad')
        self.who[i] = av.serial
        return 'in as %r' % (ident,)

    def complete(self, k):
        i, tag, ident = self.waiting.pop(k)
        self.w.complete(k)
        self.conns[i].collect()
        return self.settled(i, tag, True, ident)

    def invariant(self):
        same(self.mapping, self.valid, 'pads that are still valid')
        for c in self.conns:
            check(not c.trans.disconnecting, 'the server closed the connection')

    def state(self):
        return (sorted(self.valid.items(), key=repr),
                [None if s is None else self.w.avatars[s].avatarId for s in self.who],
                [w[2] for w in self.waiting])


ALPHABETS = {
    'plain': {b'p1': b'alice', b'p2': b'bob', b'p3': b'alice'},
    'odd': {b'': b'alice', b'\0': b'', b'\xff\xfe': None, b'p1 ': 0},
    'alike': {b'pad': b'a', b'PAD': b'b', b'pad\0': b'c', b'pa': b'd'},
}


def histories(depth, pads, delayed=(), noAvatar=(), idents=(b'alice', b'zed')):
    names = sorted(pads)

    def scenario(ch):
        s = Pads(dict(list(sorted(pads.items()))[:2]), delayed, noAvatar)
        for k in range(depth):
            acts = [('issue', p, x) for p in names for x in (pads[p], idents[1])]
            conns = range(min(3, len(s.conns) + 1))
            acts += [('present', i, p) for i in conns for p in names + [b'unknown']]
            acts += [('complete', n) for n in range(len(s.waiting))]
            a = ch.choose(acts, 'do')
            r = getattr(s, a[0])(*a[1:])
            ch.note(r)
            s.invariant()
            ch.obs((s.state(), r))
        while s.waiting:
            s.complete(0)
            s.invariant()
        ch.obs(s.state())
    return scenario


def checker(depth):
    """The checker itself, given any credentials object."""
    from epsilon.ampauth import OneTimePadChecker
    from epsilon.iepsilon import IOneTimePad

    @implementer(IOneTimePad)
    class Cred(object):
        def __init__(self, v):
            self.padValue = v
    names = [b'p1', u'p1', b'', u'', b'\xff', u'\u00e9', 0, (1, 2)]
    idents = [b'alice', b'', None, 0, u'x']

    def scenario(ch):
        mapping, valid = {}, {}
        first = ch.choose(len(names), 'initial')
        for j, n in enumerate(names[:first]):
            mapping[n] = valid[n] = idents[j % 5]
        c = OneTimePadChecker(mapping)
        # the same credentials object each time, or a new one
        creds = dict((repr(n), Cred(n)) for n in names) if first % 2 else {}
        same(IOneTimePad in c.credentialInterfaces, True, 'the checker handles pads')
        for k in range(depth):
            n = ch.choose(names, 'pad')
            a = ch.choose(('present', 'issue'), 'op')
            if a == 'issue':
                mapping[n] = valid[n] = ch.choose(idents, 'as')
                continue
            op()
            got = []
            maybeDeferred(c.requestAvatarId, creds.get(repr(n)) or Cred(n)).addBoth(got.append)
            same(len(got), 1, 'the checker answers at once')
            if n in valid:
                same(got[0], valid.pop(n), 'identity of a valid pad')
            else:
                check(hasattr(got[0], 'check') and got[0].check(UnauthorizedLogin),
                      'a pad which is not valid was not refused', got[0])
            same(mapping, valid, 'pads that are still valid')
            ch.obs((repr(n), k, sorted(map(repr, valid))))
    return scenario


def long(n):
    """Many pads issued and used over many connections; each exactly once."""
    pads = dict((b'pad%d' % k, b'user%d' % (k % 7)) for k in range(n))
    s = Pads(pads)
    s.who = []
    for k in range(n):
        r = s.present(k, b'pad%d' % k)
        same(r, 'in as %r' % (b'user%d' % (k % 7),), 'first presentation')
    s.conns.append(s.w.connect())
    s.who.append(None)
    for k in range(n):
        same(s.present(n, b'pad%d' % k), 'refused', 'second presentation')
    s.invariant()
    for k in range(0, n, 7):
        s.issue(b'pad%d' % k, b'again')
    for k in range(0, n, 7):
        s.conns.append(s.w.connect())
        s.who.append(None)
        same(s.present(len(s.conns) - 1, b'pad%d' % k), "in as b'again'", 'reissued pad')
    s.invariant()
    return n


def run(ctx):
    ctx.assumptions += ['up to three connections and four pad values per alphabet; twisted.cred and AMP are trusted']
    d = 4 if ctx.quick else 5
    ctx.explore('wire-plain', histories(d, ALPHABETS['plain']), parallel=True)
    ctx.explore('wire-odd', histories(d - 1, ALPHABETS['odd']), parallel=True)
    ctx.explore('wire-alike', histories(d - 1, ALPHABETS['alike']), parallel=True)
    ctx.explore('wire-delayed', histories(d, ALPHABETS['plain'], ('realm',)), parallel=True)
    ctx.explore('wire-no-avatar', histories(d - 1, ALPHABETS['plain'], (), (b'bob',)), parallel=True)
    ctx.explore('checker', checker(3 if ctx.quick else 4), parallel=True)
    ctx.sweep('long', [50, 300 if ctx.quick else 3000], long)
