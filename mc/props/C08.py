"""
C08: line reception does not depend on how the stream is cut.
"""
import itertools

from mc.core import check, same, op
from mc.net import Transport, pieces, allcuts


def model(stream, policy, delim, rawEnd):
    """
    What must be delivered: the stream decides, and the application's actions
    after each line ('-' nothing, 'rN' take N raw bytes, 'R' raw for ever,
    'b' raw and back at once, 'dX' lines end with X from now on, 'c' close).
    """
    out = []
    pos = 0
    n = 0
    while True:
        end = stream.find(delim, pos)
        if end == -1:
            return out, 'line'
        out.append(('line', stream[pos:end]))
        pos = end + len(delim)
        act = policy[n % len(policy)] if n < 64 or len(policy) > 8 else '-'
        n += 1
        if act == 'c':
            return out, 'closed'
        if act[0] == 'd':
            delim = act[1:].encode()
        if act == 'R':
            if stream[pos:]:
                out.append(('raw', stream[pos:]))
            return out, 'raw'
        if act[0] == 'r':
            k = int(act[1:])
            got = stream[pos:pos + k]
            if got:
                out.append(('raw', got))
            pos += len(got)
            if len(got) < k:
                return out, 'raw'
            if rawEnd == 'close':
                return out, 'closed'


class App(object):
    """The actions, made into a protocol of the repository."""

    def __init__(self, policy, delim, rawEnd, transport=True):
        from epsilon.liner import LineReceiver
        app = self
        self.events = []
        self.n = 0
        self.want = 0
        self.closed = False
        self.late = 0

        class P(LineReceiver):
            delimiter = delim

            def lineReceived(self, line):
                app.late += app.closed
                app.events.append(('line', line))
                act = policy[app.n % len(policy)] if app.n < 64 or len(policy) > 8 else '-'
                app.n += 1
                if act == 'c':
                    app.close()
                elif act[0] == 'd':
                    self.delimiter = act[1:].encode()
                elif act == 'R':
                    app.want = -1
                    self.setRawMode()
                elif act == 'b':
                    self.setRawMode()
                    self.setLineMode()
                elif act[0] == 'r':
                    app.want = int(act[1:])
                    self.setRawMode()

            def rawDataReceived(self, data):
                app.late += app.closed
                if not data:
                    return
                if app.want < 0:
                    app.raw(data)
                    return
                take, rest = data[:app.want], data[app.want:]
                app.raw(take)
                app.want -= len(take)
                if not app.want:
                    if rawEnd == 'close':
                        app.close()
                    else:
                        self.setLineMode(rest)
        self.p = P()
        self.transport = Transport()
        if transport:
            self.p.makeConnection(self.transport)

    def raw(self, data):
        if self.events and self.events[-1][0] == 'raw':
            self.events[-1] = ('raw', self.events[-1][1] + data)
        else:
            self.events.append(('raw', data))

    def close(self):
        self.closed = True
        self.transport.loseConnection()


def merge(events):
    out = []
    for e in events:
        if e[0] == 'raw' and out and out[-1][0] == 'raw':
            out[-1] = ('raw', out[-1][1] + e[1])
        else:
            out.append(e)
    return out


def run1(stream, policy, delim, rawEnd, cut, want, transport=True):
    a = App(policy, delim, rawEnd, transport)
    for p in pieces(stream, cut):
        a.p.dataReceived(p)
    op(len(cut) + 1)
    if a.events != want or a.late:
        same(a.late, 0, 'deliveries after the application asked to close',
             'stream %r cut %r policy %r' % (stream, cut, policy))
        same(a.events, want, 'lines and raw data', 'stream %r cut %r policy %r delimiter %r' % (
            stream, cut, policy, delim))


def streams(case):
    stream, policies, delim, rawEnds = case
    out = []
    for policy in policies:
        for rawEnd in rawEnds:
            want = merge(model(stream, policy, delim, rawEnd)[0])
            out.append(want)
            for cut in allcuts(len(stream)):
                run1(stream, policy, delim, rawEnd, cut, want)
    return out


def noTransport(case):
    stream, policy = case
    want = merge(model(stream, policy, b'\r\n', 'line')[0])
    for cut in allcuts(len(stream)):
        run1(stream, policy, b'\r\n', 'line', cut, want, transport=False)
    return want


def long(case):
    n, policy, step, body = case
    stream = b''.join(b'%d\r\n%s' % (k, body) for k in range(n))
    want = merge(model(stream, policy, b'\r\n', 'line')[0])
    run1(stream, policy, b'\r\n', 'line', range(step, len(stream), step) if step else (), want)
    return len(want)


def huge(case):
    '''Lines, and raw data, far longer than any internal limit one may think of.'''
    n, policy, step = case
    stream = b'a' * n + b'\r\n' + b'b' * n + b'\r\nc\r\n'
    want = merge(model(stream, policy, b'\r\n', 'line')[0])
    run1(stream, policy, b'\r\n', 'line', range(step, len(stream), step) if step else (), want)
    return len(want)


def closings(case):
    """Close from outside the callbacks, between two chunks."""
    stream, at, cut = case
    a = App(('-',), b'\r\n', 'line')
    want = merge(model(stream[:at], ('-',), b'\r\n', 'line')[0])
    for p in pieces(stream[:at], [c for c in cut if c < at]):
        a.p.dataReceived(p)
    a.close()
    for p in pieces(stream[at:], [c - at for c in cut if c > at]):
        a.p.dataReceived(p)
    same(a.events, want, 'lines before the close')
    same(a.late, 0, 'deliveries after the close')
    return len(want)


def run(ctx):
    ctx.assumptions += ['raw consumers hand back what they do not want; lines are unlimited in length']
    q = ctx.quick
    acts = ['-', 'r1', 'r2', 'b', 'c', 'R']
    pol = list(itertools.product(acts, repeat=2))
    n = 6 if q else 8
    al = (b'a', b'\r', b'\n')
    cases = []
    for k in range(0, n + 1):
        for t in itertools.product(al, repeat=k):
            s = b''.join(t)
            if b'\r\n' in s:
                cases.append((s, pol, b'\r\n', ('line', 'close')))
            else:
                cases.append((s, pol[:1], b'\r\n', ('line',)))
    ctx.sweep('streams', cases, streams, parallel=True)
    tok = (b'a', b'\r\n', b'\r', b'\n', b'')
    cases = []
    for t in itertools.product((b'a', b'\r\n', b'b\r\n', b'\r'), repeat=4 if q else 5):
        s = b''.join(t)
        if len(s) <= (8 if q else 11):
            cases.append((s, [p + ('-',) for p in itertools.product(('-', 'r1', 'r3'), repeat=2)], b'\r\n', ('line',)))
    ctx.sweep('tokens', cases, streams, parallel=True)
    for delim, al, k in ((b'\n', (b'a', b'\n', b'\r'), 6), (b'aab', (b'a', b'b'), 9), (b'\0', (b'x', b'\0'), 7),
                         (b'\r\n\r\n', (b'\r', b'\n'), 9)):
        ctx.sweep('delimiter-%s' % delim.hex(), [(b''.join(t), [('-', '-'), ('r1', '-'), ('-', 'r2'), ('R', '-')], delim, ('line',))
                                                 for j in range(k + (0 if q else 1)) for t in itertools.product(al, repeat=j)],
                  streams, parallel=True)
    ctx.sweep('no-transport', [(b''.join(t), p) for t in itertools.product((b'a', b'\r', b'\n'), repeat=5)
                               for p in (('-',), ('r1', '-'), ('b',), ('R',))], noTransport, parallel=True)
    ctx.sweep('long', [(n, p, s, b) for n in (500, 3000) for s in (0, 1, 2, 3, 1000)
                       for p, b in ((('-',), b''), (('r1',) * 9, b'x'), (('r2', '-') * 5, b'\r\n'), (('b',) * 9, b''),
                                    (('r3',) * 9, b'\r\nx'))], long, parallel=True)
    ctx.sweep('changing', [(b''.join(t), [('d\n', '-'), ('-', 'd\n'), ('d\n', 'd\r\n'), ('da', 'd\r'), ('d\n', 'r1'), ('r1', 'da'),
                                         ('b', 'd\r')], b'\r\n', ('line',))
                           for k in range(7 if q else 9) for t in itertools.product((b'a', b'\r', b'\n'), repeat=k)
                           if b'\r\n' in b''.join(t)], streams, parallel=True)
    ctx.sweep('huge', [(n, p, s) for n in (16384, 65535, 65537, 1 << 20, (1 << 20) + 1) for p in (('-',), ('r70000', '-'), ('R',))
                       for s in (0, 4096, 65536, 1000003)], huge, parallel=True)
    st = b'a\r\nbb\r\n\r\nc\r\n'
    ctx.sweep('closings', [(st, at, (i, j)) for at in range(len(st) + 1) for i in range(1, len(st)) for j in range(i + 1, len(st))],
              closings, parallel=True)
