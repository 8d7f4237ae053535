"""
C29: a benchmarked child process is reported exactly once and truthfully.
"""
import os, sys, json, shutil, signal, subprocess, tempfile

from mc.core import check, same, op
from mc import bench
from mc.env import REPO

LIMIT = 900


def spawner(calls):
    def spawnProcess(processProtocol, executable, args=(), env={}, path=None,
                     uid=None, gid=None, usePTY=0, childFDs=None):
        calls.append(dict(proto=processProtocol, executable=executable, args=list(args), env=env,
                          path=path, uid=uid, gid=gid, usePTY=usePTY, childFDs=childFDs))
        return None
    return spawnProcess


class One(object):
    """One child, its model, and the real protocol."""

    def __init__(self, s, i, cls, path='/tmp'):
        from twisted.python.failure import Failure
        self.s, self.i = s, i
        calls = []
        env = {'A': str(i)}
        args = ['x', str(i)]
        op()
        d = cls.spawn('/bin/child%d' % i, args, path, env, spawnProcess=spawner(calls))
        same(len(calls), 1, 'spawned processes')
        c = calls[0]
        same((c['executable'], c['args'], c['path'], c['env']),
             ('/bin/child%d' % i, ['/bin/child%d' % i, 'x', str(i)], path, {'A': str(i)}), 'what is spawned')
        same((args, env), (['x', str(i)], {'A': str(i)}), "the caller's arguments")
        fds = c['childFDs']
        same({k: fds.get(k) for k in (0, 1, 2)}, {0: 'w', 1: 'r', 2: 'r'}, 'standard descriptors of the child')
        same((fds[cls.BACKCHANNEL_OUT], fds[cls.BACKCHANNEL_IN]), ('r', 'w'), 'back channels of the child')
        self.proto = c['proto']
        self.fired = []
        d.addBoth(self.fired.append)
        self.t = bench.Child([])
        self.proto.makeConnection(self.t)
        self.last = s.clock.seconds()
        self.output = []
        self.killed = False        # killed for silence
        self.silentKilled = False  # already killed in this silent period
        self.ended = False
        self.extra = 0

    def event(self):
        self.last = self.s.clock.seconds()
        if self.silentKilled:
            self.silentKilled = False

    def data(self, fd, b):
        op()
        self.output.append((fd, b))
        self.event()
        self.proto.childDataReceived(fd, b)

    def mark(self, b):
        """A message on the back channel: an event, but not output."""
        op()
        self.event()
        self.proto.childDataReceived(self.proto.BACKCHANNEL_OUT, b)

    def close(self, fd):
        op()
        self.output.append((fd, None))
        self.event()
        self.proto.childConnectionLost(fd)

    def passed(self, before):
        """Time passed: compare the signals sent with the limit."""
        now = self.s.clock.seconds()
        new = self.t.signals[before:]
        if self.ended:
            same(new, [], 'signals sent after the child ended')
            return
        due = now - self.last >= LIMIT and not self.silentKilled
        if due and not self.killed:
            same(new, ['KILL'], 'signals after %r s of silence' % (now - self.last,))
        elif due:
            # already killed before: killing it once more is allowed
            check(new in ([], ['KILL']), 'signals sent', new)
        else:
            same(new, [], 'signals sent after %r s of silence' % (now - self.last,))
        if due:
            self.killed = True
            self.silentKilled = True

    def end(self, how):
        from twisted.internet import error
        from twisted.python.failure import Failure
        from epsilon.scripts.benchmark import ProcessDied
        same(self.fired, [], 'results before the child ended')
        if how[0] == 'done':
            reason = Failure(error.ProcessDone(how[1]))
        elif how[0] == 'terminated':
            reason = Failure(error.ProcessTerminated(*how[1:]))
        else:
            reason = Failure(error.ConnectionLost('odd'))
        op()
        self.proto.processEnded(reason)
        self.ended = True
        same(len(self.fired), 1, 'results when the child ended')
        r = self.fired[0]
        if how[0] == 'done':
            check(isinstance(r, tuple) and len(r) == 3, 'result of a child which exited cleanly', r)
            check(r[0] is self.proto, 'the process of the result')
            same((r[1], list(r[2])), (how[1], self.output), 'status and output')
        else:
            check(isinstance(r, Failure), 'a result instead of a failure', r)
            if self.killed:
                check(r.check(error.TimeoutError), 'a child killed for its silence', r)
            else:
                check(not r.check(error.TimeoutError), 'a timeout error for a child which was not killed', r)
                if how[0] == 'terminated':
                    check(r.check(ProcessDied), 'failure of a child which died', r)
                    v = r.value
                    same((v.exitCode, v.signal, v.status, list(v.output)), how[1:] + (self.output,), 'how it died')
                else:
                    check(r.check(error.ConnectionLost), 'failure of a child lost for another reason', r)
        same(len(self.t.signals) <= (1 + self.extra) or self.killed, True, 'signals')


ENDS = [('done', 0), ('terminated', 3, None, 768), ('terminated', None, 9, 9), ('terminated', 1, None, 256), ('other',)]
TIMES = [450, 899.75, 900, 2500]
DATA = [(1, b'a'), (2, b'bc'), (1, b'')]


def histories(ch):
    from epsilon.scripts.benchmark import BasicProcess
    with bench.System() as s:
        ps = [One(s, i, BasicProcess) for i in range(CHILDREN)]
        closed = set()
        for k in range(DEPTH):
            live = [p for p in ps if not p.ended]
            if not live:
                break
            what = ch.choose(('time', 'data', 'close', 'end'), 'what')
            if what == 'time':
                before = [len(p.t.signals) for p in ps]
                s.clock.advance(ch.choose(TIMES, 'seconds'))
                for p, b in zip(ps, before):
                    p.passed(b)
                ch.obs(('time', s.clock.seconds(), tuple(p.killed for p in ps)))
                continue
            p = live[ch.choose(len(live), 'child')]
            before = len(p.t.signals)
            if what == 'data':
                p.data(*ch.choose(DATA, 'data'))
            elif what == 'close':
                p.close(ch.choose((1, 2, 3), 'fd'))
            else:
                p.end(ch.choose(ENDS, 'how'))
                ch.obs((p.i, 'ended', repr(p.fired[0])[:40] if not isinstance(p.fired[0], tuple) else p.fired[0][1:]))
            same(p.t.signals[before:], [], 'signals sent at an event')
            ch.obs((p.i, p.output, p.killed))
        for p in ps:
            if not p.ended:
                p.end(('done', 0))
        same(list(s.clock.getDelayedCalls()), [], 'timers left')
        before = [len(p.t.signals) for p in ps]
        s.clock.advance(5000)
        for p, b in zip(ps, before):
            same(len(p.fired), 1, 'results in the end')
            same(p.t.signals[b:], [], 'signals sent after the end')


def marked(ch):
    """A child which talks over the back channel too."""
    from epsilon.scripts.benchmark import BenchmarkProcess
    files = {bench.MOUNTS: '/dev/sdz9 / ext4 rw 0 0\n', bench.DISKSTATS: ''}
    with bench.System(files) as s:
        p = One(s, 0, BenchmarkProcess, BASE)
        for k in range(DEPTH):
            what = ch.choose(('time', 'start', 'stop', 'data', 'back', 'close', 'end'), 'what')
            before = len(p.t.signals)
            if what == 'time':
                s.clock.advance(ch.choose(TIMES[:3], 'seconds'))
                p.passed(before)
                ch.obs(('time', s.clock.seconds(), p.killed))
                continue
            if what == 'end':
                p.end(ch.choose(ENDS, 'how'))
                ch.obs(('ended', repr(p.fired[0])[:40] if not isinstance(p.fired[0], tuple) else p.fired[0][1:]))
                break
            if what == 'start':
                p.mark(p.proto.START)
            elif what == 'stop':
                p.mark(p.proto.STOP)
            elif what == 'back':
                p.mark(p.proto.START + p.proto.STOP)
            elif what == 'data':
                p.data(1, b'a')
            else:
                p.close(3)
            same(p.t.signals[before:], [], 'signals sent at an event')
            ch.obs((p.output, p.killed))
        if not p.ended:
            p.end(('done', 0))
        same(list(s.clock.getDelayedCalls()), [], 'timers left')
        before = len(p.t.signals)
        s.clock.advance(5000)
        same((len(p.fired), p.t.signals[before:]), (1, []), 'results and signals after the end')


# -- the stand-ins against real child processes

CHILDREN_SCRIPTS = [
    ('import sys', ('done', 0), b'', b''),
    ('import os; os.write(1, b"out"); os.write(2, b"err")', ('done', 0), b'out', b'err'),
    ('import os; os.write(1, b"x" * 200000)', ('done', 0), b'x' * 200000, b''),
    ('import os; os._exit(3)', ('died', 3, None), b'', b''),
    ('import os; os.write(2, b"dying"); os._exit(255)', ('died', 255, None), b'', b'dying'),
    ('import os, signal; os.kill(os.getpid(), signal.SIGKILL)', ('died', None, 9), b'', b''),
    ('import os, signal; os.write(1, b"q"); os.kill(os.getpid(), signal.SIGTERM)', ('died', None, 15), b'q', b''),
    ('import os; os.close(1); os.close(2); os._exit(0)', ('done', 0), b'', b''),
    ('import os, sys; os.write(1, os.environ["MARK"].encode() + os.getcwd().encode() + repr(sys.argv[1:]).encode())',
     ('done', 0), None, b''),
]

DRIVER = r'''
import sys, json, os
sys.path.insert(0, %(verif)r)
sys.path.insert(0, %(repo)r)
from mc import bench
benchmark = bench.module()
from twisted.internet import reactor
from twisted.python.failure import Failure
script, where = sys.argv[1:3]
got = []
d = benchmark.BasicProcess.spawn(sys.executable, ['-c', script, 'arg1', 'arg2'], where, {'MARK': 'mark', 'PATH': os.environ.get('PATH', '')})
def done(x):
    if isinstance(x, Failure):
        if x.check(benchmark.ProcessDied):
            got.append(('died', x.value.exitCode, x.value.signal, [(fd, None if b is None else b.decode('latin-1')) for fd, b in x.value.output]))
        else:
            got.append(('other', repr(x)))
    else:
        got.append(('done', x[1], [(fd, None if b is None else b.decode('latin-1')) for fd, b in x[2]]))
    reactor.callLater(0, reactor.stop)
d.addBoth(done)
reactor.callLater(50, reactor.stop)
reactor.run()
json.dump([got, [repr(c) for c in reactor.getDelayedCalls() if c.getTime() - reactor.seconds() > 100]], open(sys.argv[3], 'w'))
'''


def real(case):
    """A real child under the real reactor gives the outcome the stand-ins are given."""
    script, how, out, err = CHILDREN_SCRIPTS[case]
    d = tempfile.mkdtemp(prefix='mc-c29-')
    try:
        env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        where = os.path.join(d, 'cwd')
        os.mkdir(where)
        where = os.path.realpath(where)
        p = subprocess.run([sys.executable, '-c', DRIVER % dict(verif=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), repo=REPO),
                            script, where, os.path.join(d, 'result')],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=55)
        check(p.returncode == 0, 'the driver failed', p.stdout[-2000:])
        got, timers = json.load(open(os.path.join(d, 'result')))
        same(len(got), 1, 'results')
        g = got[0]
        same(tuple(g[:len(how)]), how, 'how the child ended')
        same(timers, [], 'timers left')
        events = [(fd, b) for fd, b in g[len(how)]]
        text = {1: '', 2: '', 3: ''}
        ends = []
        for fd, b in events:
            if b is None:
                ends.append(fd)
            else:
                check(fd not in ends, 'output after its end')
                text[fd] += b
        check(set(ends) >= {1, 2, 3} and len(set(ends)) == len(ends), 'ends of output', ends)
        if out is None:
            same(text[1], 'mark' + where + repr(['arg1', 'arg2']), 'environment, directory and arguments')
        else:
            same(text[1], out.decode('latin-1'), 'standard output')
        same(text[2], err.decode('latin-1'), 'standard error')
        return case, how
    finally:
        shutil.rmtree(d, ignore_errors=True)


DEPTH = 5
CHILDREN = 1
BASE = None


def run(ctx):
    global DEPTH, CHILDREN, BASE
    bench.module()
    q = ctx.quick
    ctx.assumptions += ['a child which is told to die has not already been reaped',
                        'a second kill of a child which shows life after the first is allowed']
    DEPTH, CHILDREN = (5 if q else 6), 1
    ctx.explore('histories', histories, parallel=True)
    DEPTH, CHILDREN = (4 if q else 5), 2
    ctx.explore('two-children', histories, parallel=True)
    DEPTH = 5 if q else 7
    BASE = tempfile.mkdtemp(prefix='mc-c29-')
    try:
        ctx.explore('back-channel', marked, parallel=True)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
    ctx.sweep('real-children', list(range(len(CHILDREN_SCRIPTS))), real, parallel='each')
