"""
C38: a misbehaving Juice peer can neither forge, repeat nor strand a request.
"""
import itertools

from twisted.internet.defer import maybeDeferred
from twisted.python.failure import Failure

from mc.core import check, same, op
from mc.net import Transport, reason, pieces
from mc import juicenet
from mc.juicenet import DeclaredA


def raw(*pairs):
    return b''.join(k + b': ' + v + b'\r\n' for k, v in pairs) + b'\r\n'


def other(tag):
    return tag.swapcase() if tag.swapcase() != tag else b'0x' + tag


# name -> (bytes with %(a)s and %(b)s for the tags of the two requests, whom it
# is addressed to ('a', 'b' or nobody), what that request gets, is it well formed)
def alphabet(a, b):
    a, b = a.encode('ascii'), b.encode('ascii')
    N, W = (b'N', b'7'), (b'Who', b'8')
    out = {
        'ans-a': (raw((b'-Answer', a), N, W), 'a', 'ok', True),
        'ans-b': (raw((b'-Answer', b), N, W), 'b', 'ok', True),
        'ans-a-extra': (raw((b'-Answer', a), N, W, (b'X', b'y')), 'a', 'ok', True),
        'ans-a-missing': (raw((b'-Answer', a), N), 'a', 'fail', True),
        'ans-a-bad': (raw((b'-Answer', a), N, (b'Who', b'zz')), 'a', 'fail', True),
        'err-a': (raw((b'-Error', a), (b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), 'a', 'declared', True),
        'err-b': (raw((b'-Error', b), (b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), 'b', 'declared', True),
        'err-a-code': (raw((b'-Error', a), (b'-Error-Code', b'OTHER'), (b'-Error-Description', b'why')), 'a', 'fail', True),
        'err-a-nocode': (raw((b'-Error', a), (b'-Error-Description', b'why')), 'a', 'fail', False),
        'err-a-nodesc': (raw((b'-Error', a), (b'-Error-Code', b'DECL-A')), 'a', 'fail', False),
        'err-b-none': (raw((b'-Error', b)), 'b', 'fail', False),
        'ans-unknown': (raw((b'-Answer', b'77'), N, W), None, None, False),
        'ans-quiet': (raw((b'-Answer', QUIET), N, W), None, None, False),
        'ans-next': (raw((b'-Answer', NEXT), N, W), None, None, False),
        'ans-empty': (raw((b'-Answer', b''), N, W), None, None, False),
        'ans-padded': (raw((b'-Answer', a + b' '), N, W), None, None, False),
        'ans-zero': (raw((b'-Answer', b'0' + a), N, W), None, None, False),
        'ans-both': (raw((b'-Answer', a + b', ' + b), N, W), None, None, False),
        'err-unknown': (raw((b'-Error', b'77'), (b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), None, None, False),
        'err-padded': (raw((b'-Error', a + b' '), (b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), None, None, False),
        'err-zero': (raw((b'-Error', b'0' + b), (b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), None, None, False),
        'err-empty': (raw((b'-Error', b''), (b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), None, None, False),
        'ans-case': (raw((b'-Answer', other(a)), N, W), None, None, False),
        'err-case': (raw((b'-Error', other(b)), (b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), None, None, False),
        'cmd': (raw((b'-Command', b'Ask'), (b'N', b'5')), None, 'run', True),
        'cmd-ask': (raw((b'-Command', b'Ask'), (b'-Ask', a), (b'N', b'5')), None, 'run', True),
        'cmd-blank': (raw((b'-Command', b'Ask'), (b'-Ask', b''), (b'N', b'5')), None, 'run', True),
        'cmd-unknown': (raw((b'-Command', b'Nothing'), (b'-Ask', a), (b'N', b'5')), None, None, False),
        'cmd-badarg': (raw((b'-Command', b'Ask'), (b'-Ask', a), (b'N', b'five')), None, None, False),
        'cmd-noarg': (raw((b'-Command', b'Ask'), (b'-Ask', b)), None, None, False),
        'ask-only': (raw((b'-Ask', a), N), None, None, False),
        'nothing': (raw(N, W), None, None, False),
        'empty': (b'\r\n', None, None, False),
        'junk': (b'junk\r\n\r\n', None, None, False),
        'indent': (b' x\r\n\r\n', None, None, False),
        'length': (raw((b'-Answer', a), (b'-Length', b'many'), N, W), None, None, False),
        'code-only': (raw((b'-Error-Code', b'DECL-A'), (b'-Error-Description', b'why')), None, None, False),
    }
    return out


QUIET = b'1'
NEXT = b'2'


class World(object):
    def __init__(self, warm=1):
        global QUIET, NEXT
        self.asks = juicenet.catalogue()
        self.pending = []
        self.proto = juicenet.parties(self.pending, 1, self.asks)[0]
        self.trans = Transport('x')
        self.proto.makeConnection(self.trans)
        self.got = {'a': [], 'b': []}
        self.lost = False
        self.ran = 0
        Ask = self.asks[0]
        for i in range(warm):
            same(Ask(n=9).do(self.proto, requiresAnswer=False), None, 'result of a request without an answer')
        tags = {}
        for n, who in ((1, 'a'), (2, 'b')):
            Ask(n=n).do(self.proto).addBoth(self.got[who].append)
        boxes = juicenet.boxesOf(self.trans.written)
        same(len(boxes), warm + 2, 'boxes sent')
        check('_ask' not in boxes[0], 'a request without an answer asks for one')
        self.tags = (boxes[warm]['_ask'], boxes[warm + 1]['_ask'])
        check(self.tags[0] != self.tags[1], 'two requests have the same tag')
        # guesses at the tags of the request without an answer and of the next
        used = set(self.tags)
        free = [t for t in ('1', '2', '3', '4', '0', 'x') if t not in used]
        QUIET, NEXT = free[0].encode('ascii'), free[1].encode('ascii')
        self.boxes = alphabet(*self.tags)

    def receive(self, data):
        """As a transport does: what the protocol lets escape ends the connection."""
        op()
        try:
            self.proto.dataReceived(data)
        except Exception:
            self.lose(Failure())
            return
        if self.trans.disconnecting:
            self.lose(reason())

    def lose(self, why):
        if not self.lost:
            self.lost = True
            self.trans.disconnected = True
            self.proto.connectionLost(why)


def judge(w, name, before):
    """One whole box has been received; was it allowed to do what it did?"""
    data, to, result, wellFormed = w.boxes[name]
    for who in 'ab':
        check(len(w.got[who]) <= 1, 'request %s completed %d times' % (who, len(w.got[who])))
    for who in 'ab':
        now = w.got[who]
        if before[who]:
            continue
        if who == to:
            if w.lost and not wellFormed:
                same(len(now), 1, 'completions of request %s after the connection was lost' % who)
                check(hasattr(now[0], 'check'), 'request %s succeeded' % who, now)
                continue
            same(len(now), 1, 'completions of request %s by %s' % (who, name))
            if result == 'ok':
                check(not hasattr(now[0], 'check'), 'request %s failed' % who, now)
                same((now[0]['n'], now[0]['who']), (7, 8), 'answer to request %s' % who)
            elif result == 'declared':
                check(hasattr(now[0], 'check') and now[0].check(DeclaredA), 'request %s: another failure' % who, now)
                same(str(now[0].value), 'why', 'message')
            else:
                check(hasattr(now[0], 'check'), 'request %s succeeded' % who, now)
        elif w.lost:
            same(len(now), 1, 'completions of request %s after the connection was lost' % who)
            check(hasattr(now[0], 'check'), 'request %s succeeded' % who, now)
        else:
            same(len(now), 0, 'completions of request %s by %s' % (who, name))
    if wellFormed and to is not None and not before[to]:
        check(not w.lost, 'a proper %s ended the connection' % name)
    if result == 'run':
        check(not w.lost, 'a proper command ended the connection')
        w.ran += 1
    same(len(w.pending), w.ran, 'commands run')


def finish(w, names):
    if not w.lost:
        # the handlers' answers carry the tags they were asked with
        sent = len(w.trans.written)
        asks = [n for n in names if n in ('cmd', 'cmd-ask', 'cmd-blank')]
        same(len(w.pending), len(asks), 'commands run')
        for k, (who, n, d) in enumerate(w.pending):
            same(n, 5, 'argument')
            d.callback({'n': 50 + k, 'who': 1})
        boxes = [b for b in juicenet.boxesOf(w.trans.written[sent:])]
        same([(b.get('_answer'), b.get('n')) for b in boxes],
             [('' if n == 'cmd-blank' else w.tags[0], str(50 + k)) for k, n in enumerate(asks) if n != 'cmd'], 'answers given')
        left = dict((k, list(v)) for k, v in w.got.items())
        w.lose(reason('lost'))
        for who in 'ab':
            if left[who]:
                same(len(w.got[who]), 1, 'completions of request %s' % who)
    for who in 'ab':
        same(len(w.got[who]), 1, 'completions of request %s in the end' % who)
    late = []
    maybeDeferred(w.asks[0](n=3).do, w.proto).addBoth(late.append)
    check(late and hasattr(late[0], 'check'), 'a request over a lost connection did not fail at once')


def sequences(case):
    names, mode, warm = case
    w = World(warm)
    for k, name in enumerate(names):
        before = dict((who, bool(w.got[who])) for who in 'ab')
        data = w.boxes[name][0]
        if mode == 'whole':
            w.receive(data)
        else:
            step = 1 if mode == 'bytes' else (len(data) + 1) // 2
            for i in range(0, len(data), step):
                if i:
                    check(all(before[who] or w.lost or not w.got[who] for who in 'ab'), 'completed by part of a box')
                if not w.lost:
                    w.receive(data[i:i + step])
        judge(w, name, before)
        if w.lost:
            break
    finish(w, names)
    return case


def together(case):
    """All in one segment: what was received before the bad box counts, in order."""
    names = case
    w = World()
    op()
    w.receive(b''.join(w.boxes[n][0] for n in names))
    state = {'a': None, 'b': None}
    dropped = False
    for n in names:
        data, to, result, wellFormed = w.boxes[n]
        if to and state[to] is None and not dropped:
            state[to] = result
        elif to or not wellFormed:
            # whatever this does, it may end the connection
            dropped = dropped or w.lost
        if to and not wellFormed:
            dropped = dropped or w.lost
    for who in 'ab':
        check(len(w.got[who]) <= 1, 'request %s completed %d times' % (who, len(w.got[who])))
        if state[who] == 'ok':
            check(w.got[who] and not hasattr(w.got[who][0], 'check'), 'request %s did not succeed' % who, w.got[who])
            same((w.got[who][0]['n'], w.got[who][0]['who']), (7, 8), 'answer to request %s' % who)
        elif state[who] == 'declared':
            check(w.got[who] and hasattr(w.got[who][0], 'check') and w.got[who][0].check(DeclaredA),
                  'request %s did not get its error' % who, w.got[who])
        elif state[who] == 'fail' or w.lost:
            check(w.got[who] and hasattr(w.got[who][0], 'check'), 'request %s did not fail' % who, w.got[who])
        else:
            same(len(w.got[who]), 0, 'completions of request %s' % who)
    if not w.lost:
        w.lose(reason())
    for who in 'ab':
        same(len(w.got[who]), 1, 'completions of request %s in the end' % who)
    return case


def run(ctx):
    ctx.assumptions += ['an exception that escapes dataReceived ends the connection, as with every Twisted transport',
                        'callers handle the failures of their requests']
    q = ctx.quick
    names = sorted(alphabet('2', '3'))
    seqs = [s for n in (1, 2) for s in itertools.product(names, repeat=n)]
    three = list(itertools.product(names, repeat=3))
    ctx.sweep('whole', [(s, 'whole', 1) for s in seqs + three], sequences, parallel=True)
    ctx.sweep('cut', [(s, m, 1) for m in ('halves', 'bytes') for s in (seqs if q else seqs + three)], sequences, parallel=True)
    ctx.sweep('letters', [(s, 'whole', w) for w in (9, 14, 25) for s in seqs], sequences, parallel=True)
    few = ['ans-a', 'ans-b', 'ans-a-bad', 'err-a', 'err-b', 'err-a-nocode', 'err-b-none', 'ans-unknown', 'err-unknown', 'ans-padded',
           'cmd', 'cmd-ask', 'junk']
    ctx.sweep('together', seqs + (list(itertools.product(few, repeat=3)) if q else three), together, parallel=True)
    if not q:
        some = [n for n in names if n.split('-')[0] in ('ans', 'err')]
        ctx.sweep('four', [(s, 'whole', 1) for s in itertools.product(some, repeat=4)], sequences, parallel=True)
