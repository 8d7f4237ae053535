"""
C04: the AMP client login call ends exactly once and truthfully.
"""
from zope.interface import implementer
from twisted.cred.credentials import IUsernamePassword, UsernamePassword
from twisted.cred.error import UnauthorizedLogin
from twisted.internet.defer import maybeDeferred
from twisted.protocols.amp import AMP, parseString

from mc.core import check, same, op
from mc.auth import World
from mc.net import Link, Transport, reason


@implementer(IUsernamePassword)
class Cred(object):
    def __init__(self, username, password):
        self.username = username
        self.password = password

    def checkPassword(self, password):
        return self.password == password


PLAIN = object()
PADS = {}


class Exchange(object):
    """A client and an authenticating server, and the state of each login."""

    def __init__(self, passwords, delayed=(), noAvatar=(), server=None):
        self.w = World(passwords, PADS, delayed)
        self.w.noAvatar = noAvatar
        self.client = AMP()
        self.server = AMP() if server is PLAIN else self.w.factory.buildProtocol(None)
        self.link = Link(self.client, self.server)
        self.results = []

    shared = None          # credentials objects to be used again, if a dictionary

    def login(self, username, password, credFactory=Cred):
        from epsilon.ampauth import login
        got = []
        self.results.append(got)
        op()
        c = credFactory(username, password)
        if self.shared is not None:
            c = self.shared.setdefault((username, password), c)
        d = maybeDeferred(login, self.client, c)
        d.addBoth(got.append)
        return got

    def verdicts(self):
        """What the server said, by client command: from the bytes on the wire."""
        asks = {}
        for box in parseString(self.link.trans[0].written):
            if box.get(b'_command') == b'PasswordChallengeResponse':
                asks[box[b'_ask']] = None
        for box in parseString(self.link.trans[1].written):
            for k in (b'_answer', b'_error'):
                if box.get(k) in asks:
                    asks[box[k]] = (k, box.get(b'_error_code'))
        return asks


def kind(x, client):
    if x is client:
        return 'ok'
    check(hasattr(x, 'check'), 'the login call gave something else than the client', x)
    if x.check(UnauthorizedLogin):
        return 'unauthorized'
    return 'failed'


OUTCOMES = {
    # name: (passwords, username, password, noAvatar, server, expected)
    'accepted': ({b'u': b'pw'}, b'u', b'pw', (), None, 'ok'),
    'accepted-text': ({b'u': b'pw'}, b'u', u'pw', (), None, 'ok'),
    'wrong': ({b'u': b'pw'}, b'u', b'pW', (), None, 'unauthorized'),
    'unknown': ({b'u': b'pw'}, b'v', b'pw', (), None, 'unauthorized'),
    'no-avatar': ({b'u': b'pw'}, b'u', b'pw', (b'u',), None, 'failed'),
    'plain-server': ({}, b'u', b'pw', (), PLAIN, 'failed'),
}


def drops(case):
    """Move the exchange n bytes at a time; drop the connection after `total` bytes."""
    name, chunk, total, why, first = case
    passwords, user, pw, noAvatar, server, expected = OUTCOMES[name]
    x = Exchange(passwords, (), noAvatar, server)
    got = x.login(user, pw)
    moved = 0
    finished = False
    while moved < total:
        progress = False
        for to in (1, 0):
            n = min(chunk, total - moved)
            if n and x.link.waiting(to):
                moved += x.link.deliver(to, n)
                op()
                progress = True
                if got:
                    finished = True
        if not progress:
            break
    dropped = moved >= total and not finished
    complete = not (x.link.waiting(0) or x.link.waiting(1))
    if finished or complete:
        same([kind(g, x.client) for g in got], [expected], 'outcome of an undisturbed login')
    else:
        same(got, [], 'the login ended before its outcome arrived')
    for s in ((0, 1) if first == 0 else (1, 0)):
        x.link.lose(s, reason(why))
    same(len(got), 1, 'a login must end exactly once, whatever happens')
    k = kind(got[0], x.client)
    if finished:
        same(k, expected, 'outcome')
    else:
        check(k != 'ok', 'the login succeeded although the connection was lost first')
    return (k, finished)


SECRETS = [u'', u'a', u'sesame', u'pass word', u'\u00e9t\u00e9', u'\u4e2d\u6587', u'\U0001f511', u'x' * 300,
           u'a\0b', u'%s%%', u'\r\n', u'A', u'\u00e9' * 200]


def secrets(case):
    stored, given, storedText, givenText, factory, chunk = case
    enc = stored.encode('utf-8')
    x = Exchange({b'u': stored if storedText else enc})
    got = x.login(b'u', given if givenText else given.encode('utf-8'),
                  Cred if factory else UsernamePassword)
    while True:
        n = 0
        for to in (1, 0):
            n += x.link.deliver(to, chunk)
            op()
        if not n:
            break
    want = 'ok' if stored == given else 'unauthorized'
    same([kind(g, x.client) for g in got], [want], 'outcome')
    g = given.encode('utf-8')
    if len(g) > 3:
        for t in x.link.trans:
            check(g not in t.written, 'the password crossed the wire')
            check(g.hex().encode() not in t.written, 'the password crossed the wire in hex')
    same([a.avatarId for a in x.w.avatars], [b'u'] if want == 'ok' else [], 'avatars')
    check(not x.link.trans[0].disconnecting and not x.link.trans[1].disconnecting, 'the connection was closed')
    return want


def usernames(case):
    name, chunk = case
    x = Exchange({name: b'pw', name + b'x': b'other'})
    got = x.login(name, b'pw')
    while x.link.deliver(1, chunk) + x.link.deliver(0, chunk):
        op()
    same([kind(g, x.client) for g in got], ['ok'], 'outcome')
    same([a.avatarId for a in x.w.avatars], [name], 'avatar')
    return name


def badCredentials(case):
    from epsilon.ampauth import UnhandledCredentials
    make = CREDS[case]
    x = Exchange({b'u': b'pw'})
    got = x.login(None, None, lambda a, b: make())
    same(len(got), 1, 'credentials without username and password are refused at once')
    check(hasattr(got[0], 'check') and got[0].check(UnhandledCredentials),
          'credentials without username and password must be refused as unhandled', got[0])
    same(x.link.trans[0].written, b'', 'something was sent with unusable credentials')
    # and the client still works
    got = x.login(b'u', b'pw')
    x.link.pump()
    same([kind(g, x.client) for g in got], ['ok'], 'a later login')
    return case


class Unlabelled(object):
    username = b'u'
    password = b'pw'

    def checkPassword(self, p):
        return True


def _cred(iface):
    @implementer(iface)
    class X(Unlabelled):
        padValue = b'pad'
    return X


def _creds():
    from twisted.cred import credentials as c
    from epsilon.iepsilon import IOneTimePad
    return {
        'none': lambda: None, 'object': object, 'string': lambda: b'u', 'tuple': lambda: (b'u', b'pw'),
        'anonymous': c.Anonymous, 'unlabelled': Unlabelled,
        'hashed': _cred(c.IUsernameHashedPassword), 'pad': _cred(IOneTimePad),
        'icredentials': _cred(c.ICredentials),
    }


CREDS = {}


def concurrent(depth, logins, shared=False):
    """Several logins at once, server answers delayed, connection lost at any time."""
    def scenario(ch):
        x = Exchange({b'a': b'pa', b'b': b'pb'}, delayed=('check',))
        if shared:
            x.shared = {}
        plan = list(logins)
        lost = False
        for k in range(depth):
            acts = []
            if plan:
                acts.append('login')
            if not lost:
                acts += [('to', t) for t in (1, 0) if x.link.waiting(t)]
            for i in range(len(x.w.pending)):
                acts += [('decide', i, None), ('decide', i, UnauthorizedLogin), ('decide', i, ValueError)]
            if not lost:
                acts += [('lose', 0), ('lose', 1)]
            if not acts:
                break
            a = ch.choose(acts, 'do')
            if a == 'login':
                x.login(*plan.pop(0))
            elif a[0] == 'to':
                x.link.deliver(a[1])
            elif a[0] == 'decide':
                op()
                x.w.complete(a[1], a[2] and a[2]())
            else:
                lost = True
                x.link.lose(a[1], reason('lost'))
                x.link.lose(1 - a[1], reason('lost'))
            for s in (0, 1):
                if x.link.trans[s].disconnecting and not x.link.waiting(1 - s) and not lost:
                    lost = True
                    x.link.lose(s)
                    x.link.lose(1 - s)
            kinds = [[kind(g, x.client) for g in r] for r in x.results]
            check(all(len(r) <= 1 for r in x.results), 'a login ended twice', x.results)
            v = x.verdicts()
            if lost:
                same([len(r) for r in x.results], [1] * len(x.results), 'logins left when the connection is lost')
            said = sorted(e for e in v.values() if e is not None)
            oks = sum(1 for e in said if e[0] == b'_answer')
            unauth = sum(1 for e in said if e[1] == b'UNAUTHORIZED_LOGIN')
            check(sum(r == ['ok'] for r in kinds) <= oks, 'a login succeeded without the server\'s consent', kinds, v)
            check(sum(r == ['unauthorized'] for r in kinds) <= unauth,
                  'a login was refused without the server saying so', kinds, v)
            if not lost and not x.link.waiting(0):
                same(sum(r == ['ok'] for r in kinds), oks, 'logins the server accepted')
                same(sum(r == ['unauthorized'] for r in kinds), unauth, 'logins the server refused')
            ch.obs((kinds, lost, len(x.w.pending), oks, unauth, len(plan)))
        if not lost:
            x.link.lose(0)
            x.link.lose(1)
        same([len(r) for r in x.results], [1] * len(x.results), 'logins in the end')
    return scenario


def sequence(depth):
    """Logins one after the other on one client, each left to finish."""
    tries = [(b'a', b'pa'), (b'a', b'pb'), (b'b', u'pb'), (b'c', b'pa')]

    def scenario(ch):
        pw = {b'a': b'pa', b'b': b'pb'}
        xs = [Exchange(pw), Exchange(pw)]
        shared = {}
        if ch.flag('same credentials objects'):
            for x in xs:
                x.shared = shared
        inside = [False, False]
        out = []
        for k in range(depth):
            i = ch.choose(2, 'client') if k else 0
            x = xs[i]
            u, p = ch.choose(tries, 'login')
            got = x.login(u, p)
            x.link.pump()
            if inside[i]:
                same(got, [], 'nobody answers a second login but the avatar')
                break
            good = pw.get(u) == (p if isinstance(p, bytes) else p.encode())
            same([kind(g, x.client) for g in got], ['ok' if good else 'unauthorized'], 'outcome')
            inside[i] = inside[i] or good
            out.append((i, good))
            ch.obs(out)
        for x in xs:
            x.link.lose(0)
            x.link.lose(1)
            same([len(r) for r in x.results], [1] * len(x.results), 'logins in the end')
            got = x.login(b'a', b'pa')
            same([kind(g, x.client) for g in got], ['failed'], 'login on a lost connection')
    return scenario


def run(ctx):
    ctx.assumptions += ['the server side is the repository\'s own; AMP and twisted.cred are trusted']
    CREDS.update(_creds())
    q = ctx.quick
    cases = []
    for name in sorted(OUTCOMES):
        for total in list(range(0, 260)) + [10000]:
            for chunk in ((1, 7, 1000) if q else (1, 2, 3, 7, 16, 50, 1000)):
                cases.append((name, chunk, total, 'lost' if total % 2 else 'done', total // 2 % 2))
    ctx.sweep('drops', cases, drops, parallel=True)
    ctx.sweep('secrets', [(s, g, st, gt, f, 10000) for s in SECRETS for g in SECRETS for st in (0, 1)
                          for gt in (0, 1) for f in (0, 1)]
              + [(s, s, 0, gt, 1, c) for s in SECRETS for gt in (0, 1) for c in range(1, 60)],
              secrets, parallel=True)
    ctx.sweep('usernames', [(n, c) for n in (b'', b'u', b'U', b'\xff\0', b'a b', b'x' * 300, b'a@b')
                            for c in (1, 3, 1000)], usernames)
    ctx.sweep('credentials', sorted(CREDS), badCredentials)
    ctx.explore('concurrent', concurrent(11 if q else 14, [(b'a', b'pa'), (b'b', b'pb')]), parallel=True)
    ctx.explore('concurrent-same', concurrent(10 if q else 13, [(b'a', b'pa'), (b'a', b'no'), (b'a', b'pa')]), parallel=True)
    ctx.explore('concurrent-shared', concurrent(9 if q else 12, [(b'a', b'pa'), (b'a', b'pa')], True), parallel=True)
    ctx.explore('sequence', sequence(3 if q else 5))
