"""
C07: Juice boxes survive the wire unchanged under any segmentation.
"""
import io
import itertools

from mc.core import check, same, op
from mc.net import Transport, Link, pieces, allcuts, cuts2

VALUES = [u'', u'x', u' ', u' x', u'x ', u':', u': ', u'a: b', u'\r\n', u'\r\n\r\n', u'\r\nx: y', u'\r', u'\n',
          u'\n\r', u'\r\r\n', u'\r\n ', u'x\r', u'\nx', u'\r\n\r\nA: b\r\n\r\n', u'\u00e9', u'\u4e2d\r\n\u00e9', u'\U0001f600',
          u'\udcff\udcfe', u'\0', u'-Length: 5', u'3', u'x\r\n', u'\t', u'x' * 300,
          u'\u2028', u'\x85', u'\x0b\x0c', u'\u00a0', u'\ufeff']
BODIES = [None, u'', u'x', u'\r\n', u'\r\n\r\n', u'A: b\r\n\r\n', u'\u00e9\r\n', u' ', u'\n', u'\r', u'-Length: 3\r\n\r\nxyz',
          u'\u4e2d', u'\udcff', u'0', u'x' * 40, u'\u00e9' * 20]
KEYS = [u'a', u'b', u'Class', u'From', u'Not', u'class_', u'_ask', u'_answer', u'long_key_name', u'a1_b2', u'length', u'x' * 50, u'_', u'_x_', u'command',
        u'type', u'match', u'case', u'print', u'exec', u'none', u'true', u'false', u'self', u'ask', u'answer', u'error', u'version']


def receiver():
    from epsilon.juice import Juice

    class Receiver(Juice):
        def __init__(self):
            Juice.__init__(self, False)
            self.got = []

        def juiceBoxReceived(self, box):
            self.got.append(dict(box))
    return Receiver()


def box(fields):
    from epsilon.juice import JuiceBox
    b = JuiceBox()
    b.update(fields)
    return b


def make(value, body=None, key=u'a'):
    f = {key: value} if value is not None else {}
    if body is not None:
        f[u'body'] = body
    return f


def feed(wire, cut):
    r = receiver()
    r.makeConnection(Transport())
    for p in pieces(wire, cut):
        r.dataReceived(p)
    op(len(cut) + 1)
    return r.got


def segmentations(n, quick, two):
    for i in range(1, n):
        yield (i,)
    yield ()
    yield tuple(range(1, n))
    for s in (2, 3, 5):
        yield tuple(range(s, n, s))
    if two:
        for i in range(1, n - 1):
            yield (i, i + 1)
        if two > 1:
            for c in cuts2(n):
                yield c


def sequences(case):
    boxes, two = case
    wire = b''.join(box(f).serialize() for f in boxes)
    check(isinstance(wire, bytes), 'a serialized box is bytes')
    want = [dict(f) for f in boxes]
    for cut in segmentations(len(wire), True, two if len(wire) <= 120 else 0):
        got = feed(wire, cut)
        if got != want:
            same(got, want, 'boxes received', 'cut %r of %r' % (cut, wire))
    return len(wire), len(boxes)


def every(case):
    """All segmentations of a short exchange."""
    boxes = case
    wire = b''.join(box(f).serialize() for f in boxes)
    want = [dict(f) for f in boxes]
    for cut in allcuts(len(wire)):
        got = feed(wire, cut)
        if got != want:
            same(got, want, 'boxes received', 'cut %r of %r' % (cut, wire))
    return len(wire)


def connected(case):
    """Written by one Juice connection, read by another, and by the parsing functions."""
    from epsilon import juice
    boxes = case
    a, b = receiver(), receiver()
    link = Link(a, b)
    for f in boxes:
        bb = box(f)
        before = dict(bb)
        bb.sendTo(a)
        same(dict(bb), before, 'the box after it was sent')
    want = [dict(f) for f in boxes]
    wire = link.trans[0].written
    link.deliver(1)
    same(b.got, want, 'boxes received over a connection')
    same([dict(x) for x in juice.parseString(wire)], want, 'boxes parsed from a string')
    same([dict(x) for x in juice.parse(io.BytesIO(wire))], want, 'boxes parsed from a file')
    same(link.trans[1].written, b'', 'output of the receiver')
    return len(wire)


def long(case):
    n, kind, step = case
    boxes = []
    for k in range(n):
        if kind == 'body':
            boxes.append({u'n': u'%d' % k, u'body': u'B%d\r\n\r\n' % k * (k % 4)})
        elif kind == 'mixed':
            boxes.append({u'n': u'%d' % k, u'v': VALUES[k % len(VALUES)]})
            if k % 3 == 0:
                boxes[-1][u'body'] = BODIES[1 + k % (len(BODIES) - 1)]
        else:
            boxes.append({u'n': u'%d' % k})
    wire = b''.join(box(f).serialize() for f in boxes)
    got = feed(wire, range(step, len(wire), step) if step else ())
    same(len(got), len(boxes), 'number of boxes received')
    for k in range(len(boxes)):
        same(got[k], boxes[k], 'box %d' % k)
    return case


def big(case):
    where, n, step = case
    text = (u'0123456789\r\n\u00e9' * (n // 13 + 1))[:n]
    f = {u'a': u'1'}
    f[where] = text
    boxes = [f, {u'b': u'2'}]
    wire = b''.join(box(x).serialize() for x in boxes)
    got = feed(wire, range(step, len(wire), step) if step else ())
    check(got == boxes, 'a large %s was not received as sent' % where, len(got), n, step)
    return case


def commands(case):
    """
    Boxes sent as commands by name, with content given as text, between
    connections made by the factories; answers likewise.
    """
    body, value, key, answer, reply = case
    from epsilon import juice
    got, results = [], []

    class P(juice.Juice):
        def juice_TAKE(self, b):
            got.append(dict(b))
            return juice.Box(reply, a=value) if reply is not None else juice.Box(a=value)
    cf, sf = juice.JuiceClientFactory(), juice.JuiceServerFactory()
    cf.protocol = sf.protocol = P
    a, b = cf.buildProtocol(None), sf.buildProtocol(None)
    check((a.factory, b.factory) == (cf, sf), 'factories')
    check((a.isClient, a.isServer, b.isClient, b.isServer) == (True, False, False, True), 'roles')
    link = Link(a, b)
    kw = {str(key): value}
    if not answer:
        d = a.sendCommand('take', body, False, **kw)
        check(d is None, 'a result although no answer is wanted', d)
    elif body:
        d = a.sendCommand('take', body, **kw)
    else:
        d = a.sendCommand('take', **kw)
    if d is not None:
        d.addBoth(results.append)
    link.pump()
    op()
    want = dict(kw)
    if body:
        want['body'] = body
    same(len(got), 1, 'boxes received')
    # the protocol's own fields begin with an underscore
    same({k: v for k, v in got[0].items() if not k.startswith('_')}, want, 'box received')
    same('_ask' in got[0], bool(answer), 'an answer is asked for')
    if answer:
        same(len(results), 1, 'answers')
        check(isinstance(results[0], dict), 'answer', results)
        want = {'a': value}
        if reply:
            want['body'] = reply
        same({k: v for k, v in results[0].items() if not k.startswith('_')}, want, 'answer')
    else:
        same(link.trans[1].written, b'', 'output although no answer is wanted')
    check(not any(t.disconnecting for t in link.trans), 'a connection was closed')
    return body, value


def copies(case):
    """A copy of a box is a box of its own, of the same kind."""
    from epsilon import juice
    f, cls = case
    b = {'box': juice.Box, 'quit': juice.QuitBox, 'tls': juice.JuiceBox}[cls]()
    b.update(f)
    c = b.copy()
    op()
    check(type(c) is type(b) and dict(c) == f and c is not b, 'a copy', c)
    c['new'] = u'1'
    c.update({k: u'changed' for k in f})
    same(dict(b), f, 'the box after its copy was changed')
    b.clear()
    same(sorted(c), sorted(set(f) | {'new'}), 'the copy after the box was changed')
    return len(f)


def run(ctx):
    ctx.assumptions += ['keys are lower-case identifiers with underscores, Python keywords capitalised (the wire '
                        'format folds case and dashes); values and bodies are text']
    q = ctx.quick
    singles = [make(v, b) for v in VALUES for b in BODIES]
    singles += [make(u'v', b, k) for k in KEYS for b in (None, u'', u'x\r\n')]
    sentinel = {u'zz': u'end'}
    ctx.sweep('one-box', [((f, sentinel), 2 if not q else 1) for f in singles], sequences, parallel=True)
    short = [make(v, b) for v in (u'', u'x', u' ', u'\r\n', u': ', u'\r\n\r\n', u'\r', u'\n', u'\u00e9')
             for b in (None, u'', u'\r\n', u'x', u'A: b\r\n\r\n', u'\u00e9')] + [{}]
    ctx.sweep('two-boxes', [((a, b), 0 if q else 1) for a in short for b in short], sequences, parallel=True)
    if not q:
        tri = [make(v, b) for v in (u'', u'\r\n', u' ', u'\r') for b in (None, u'', u'\r\n', u'\u00e9')] + [{}]
        ctx.sweep('three-boxes', [((a, b, c), 1) for a in tri for b in tri for c in tri], sequences, parallel=True)
    tiny = [(make(v, b),) for v in (None, u'', u'\r\n', u' ') for b in (None, u'\r\n')]
    tiny = [t for t in tiny if len(box(t[0]).serialize()) <= (16 if q else 20)]
    tiny += [({}, make(u'x')), (make(u'x'), {}), (make(u'x'),)]
    ctx.sweep('all-segmentations', tiny, every, parallel=False)
    pairs = [{u'x': v, u'y': w} for v in VALUES for w in VALUES]
    ctx.sweep('two-fields', [((f, sentinel), 0) for f in pairs], sequences, parallel=True)
    ctx.sweep('connected', [(f, g) for f in singles for g in (sentinel, make(u'\r\n', u'\r\n'))], connected, parallel=True)
    ctx.sweep('pipeline', [(n, k, s) for n in (400, 1500 if q else 20000) for k in ('plain', 'body', 'mixed')
                           for s in (0, 1, 7, 1000)], long, parallel=False)
    ctx.sweep('big', [(w, n, s) for w in (u'a', u'body') for n in (1000, 65535, 65536, 70000, 300000)
                      for s in (0, 1460, 65536)] + [(u'body', 3000, 1), (u'a', 3000, 1)]
              + ([] if q else [(w, 3000000, 0) for w in (u'a', u'body')]), big)
    ctx.sweep('commands', [(b or u'', v, k, a, r) for b in BODIES for v in VALUES[:24] for k in (u'a', u'Class', u'two_words') for a in (True, False)
                           for r in ((None, u'x') if not a else (None, u'', u'\r\n', u'A: b\r\n\r\n'))], commands, parallel=True)
    ctx.sweep('copies', [(f, c) for f in singles + [{}] for c in ('box', 'quit', 'tls')], copies)
