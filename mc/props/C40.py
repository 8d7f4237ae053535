"""
C40: a benchmark run is reported truthfully, appended, and leaves nothing behind.

The runner's main function is run as it is, in a scratch directory; the
reactor's run plays a history of events of the child, whose timers, disk
figures and time of day are virtual.
"""
import contextlib, io, itertools, os, shutil, subprocess, sys, tempfile

from mc.core import check, same, op
from mc import bench
from mc.env import REPO
from mc.props.C30 import parseBoxes

MOUNTED = '/dev/sdz9 / ext4 rw 0 0\n'
EARLIER = b'Name: earlier\r\n\r\n'
DISK = ['readCount', 'mergedReadCount', 'readSectorCount', 'readMilliseconds', 'writeCount', 'mergedWriteCount',
        'writeSectorCount', 'writeMilliseconds', 'outstandingIOCount', 'ioMilliseconds', 'weightedIOMilliseconds']


# things written to standard error
ERRORS = {'err-newline': b'\n', 'err-blank': b' ', 'err-nul': b'\0', 'err-zero': b'0', 'err-warning': b'Warning: x\n', 'err-binary': b'\xff\xfe'}


class Interrupted(BaseException):
    pass


class Host(object):
    """The machine: every look at it finds it a little further on."""

    def __init__(self, layout):
        self.layout = layout
        self.tick = 0
        self.files = {bench.MOUNTS: MOUNTED, bench.DISKSTATS: ''}
        self.disks()

    def disks(self):
        k = self.tick
        lines = ['   8  0 sda ' + ' '.join(['5'] * 11)]
        if 'd' in self.layout:
            lines.append('   8 16 sdz ' + ' '.join(str(100 + i * 7 + k * (i + 1)) for i in range(11)))
        if 'p' in self.layout:
            lines.append('   8 25 sdz9 ' + ' '.join(str(50 + i * 3 + k * (i + 20)) for i in range(11)))
        self.files[bench.DISKSTATS] = '\n'.join(lines) + '\n'

    def move(self):
        self.tick += 1
        self.disks()

    def now(self):
        return 1000.0 + self.tick * 2.5


@contextlib.contextmanager
def patched(obj, **new):
    old = {k: (k in vars(obj), vars(obj).get(k)) for k in new}
    for k, v in new.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, (had, v) in old.items():
            if had:
                setattr(obj, k, v)
            else:
                delattr(obj, k)


def tree(d):
    """What a directory holds, the file of results aside."""
    found = {}
    for where, dirs, files in os.walk(d):
        for n in dirs:
            found[os.path.relpath(os.path.join(where, n), d)] = None
        for n in files:
            p = os.path.join(where, n)
            if p != os.path.join(d, 'output'):
                with open(p, 'rb') as f:
                    found[os.path.relpath(p, d)] = f.read()
    return found


def play(script, args, earlier, layout, history, also=None):
    """
    Run main() once.  history: what the child does; returns what was seen.
    """
    from twisted.internet import error, reactor
    from twisted.python import log
    from twisted.python.failure import Failure
    from epsilon.scripts import benchmark
    d = os.path.realpath(tempfile.mkdtemp(dir=BASE))
    cwd = os.getcwd()
    host = Host(layout)
    spawned, stops, runs = [], [], []
    seen = dict(marks=[], overall=[None, None], size={})
    errors = []

    def observer(event):
        if event.get('isError'):
            errors.append(event)

    def spawnProcess(proto, executable, args=(), env={}, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
        check(os.path.isdir(path), 'the directory of the child is not there', path)
        same(os.listdir(path), [], 'contents of the directory of the child')
        check(os.path.realpath(path).startswith(d + os.sep), 'directory of the child', path)
        spawned.append(dict(proto=proto, executable=executable, args=list(args), env=env, path=path, childFDs=childFDs))
        seen['overall'][0] = host.tick
        seen['size'][host.tick] = 0
        proto.makeConnection(transport)
    transport = bench.Child([])
    grown = [0]

    def run(*a, **k):
        runs.append(1)
        check(not stops, 'stopped before running')
        same(len(spawned), 1, 'children spawned')
        c = spawned[0]
        proto = c['proto']

        def end(reason):
            for fd in range(5):
                if fd not in closed:
                    proto.childConnectionLost(fd)
            host.move()
            seen['overall'][1] = host.tick
            seen['size'][host.tick] = grown[0]
            proto.processEnded(Failure(reason))
        closed = set()
        for ev in history:
            op()
            host.move()
            if ev in ('start', 'stop'):
                seen['marks'].append((ev, host.tick))
                seen['size'][host.tick] = grown[0]
                proto.childDataReceived(3, b'\0' if ev == 'start' else b'\1')
            elif ev == 'out':
                proto.childDataReceived(1, b'words')
            elif ev == 'err':
                proto.childDataReceived(2, b'complaint')
            elif ev in ERRORS:
                proto.childDataReceived(2, ERRORS[ev])
            elif ev == 'grow':
                grown[0] += 10
                with open(os.path.join(c['path'], 'f%d' % host.tick), 'wb') as f:
                    f.write(b'x' * 10)
            elif ev.startswith('link '):
                name, target = ev.split()[1:]
                os.makedirs(os.path.join(c['path'], os.path.dirname(name)), exist_ok=True)
                os.symlink(target, os.path.join(c['path'], name))
            elif ev == 'gone':
                shutil.rmtree(c['path'])
            elif ev == 'close2':
                closed.add(2)
                proto.childConnectionLost(2)
            elif ev == 'silence':
                s.clock.advance(901)
            elif ev == 'exit':
                end(error.ProcessDone(0))
            elif ev == 'exit3':
                end(error.ProcessTerminated(3, None, 3 << 8))
            elif ev == 'segv':
                end(error.ProcessTerminated(None, 11, 11))
            elif ev == 'killed':
                end(error.ProcessTerminated(None, 9, 9))
            elif ev == 'lost':
                end(error.ConnectionLost())
            elif ev == 'interrupt':
                raise Interrupted()
        if stops != [1]:
            check(False, 'the runner was to stop exactly once, when the child ended', stops, history)
    try:
        os.chdir(d)
        if script is not None:
            os.makedirs(os.path.dirname(os.path.join(d, script)) or d, exist_ok=True)
            open(os.path.join(d, script), 'w').close()
        if earlier:
            with open('output', 'wb') as f:
                f.write(earlier)
        for n, contents in sorted((also or {}).items()):
            if contents is None:
                os.makedirs(n)
            else:
                with open(n, 'wb') as f:
                    f.write(contents)
        before = tree(d)
        argv = ['benchmark'] + args(d)
        given = list(argv)
        real = sys.stdout
        savedArgv = sys.argv
        interrupted = False
        with bench.System(files=host.files, now=host.now) as s, \
                patched(reactor, spawnProcess=spawnProcess, run=run, stop=lambda: stops.append(1)), \
                patched(log, startLogging=lambda *a, **k: None):
            log.addObserver(observer)
            # the size is taken of real files, the figures of virtual ones
            sys.stdout = io.StringIO()
            sys.argv = argv
            try:
                benchmark.main()
            except Interrupted:
                interrupted = True
            finally:
                printed = sys.stdout.getvalue()
                sys.stdout = real
                sys.argv = savedArgv
                log.removeObserver(observer)
            same(argv, given, "the runner's arguments")
            left = [c for c in s.clock.getDelayedCalls()]
            if not interrupted:
                same(len(left), 0, 'timers left')
        same(runs, [1], 'times the reactor ran')
        check(interrupted == ('interrupt' in history), 'interruption')
        c = spawned[0]
        check(not os.path.exists(c['path']), 'the directory of the child is still there')
        after = set(os.listdir(d))
        data = b''
        if 'output' in after:
            with open('output', 'rb') as f:
                data = f.read()
        same(tree(d), before, 'files left behind')
        seen.update(spawned=c, data=data, there='output' in after, host=host, d=d, argv=argv, errors=errors, printed=printed,
                    signals=transport.signals, block=os.statvfs(d).f_bsize)
        return seen
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def figures(layout, a, b, seen):
    """What the report must say about the time between two ticks."""
    n = b - a
    f = dict(elapsed=2.5 * n, filesystem_growth=seen['size'][b] - seen['size'][a])
    if 'p' in layout:
        for key, name in (('read_count', 'readCount'), ('read_sectors', 'readSectorCount'),
                          ('write_count', 'writeCount'), ('write_sectors', 'writeSectorCount')):
            f[key] = n * (DISK.index(name) + 20)
    if 'd' in layout:
        for key, name in (('read_ms', 'readMilliseconds'), ('write_ms', 'writeMilliseconds')):
            f[key] = n * (DISK.index(name) + 1)
    return f


def judge(seen, name, layout, history, earlier, growth=True):
    end = history[-1]
    data = seen['data']
    check(data.startswith(earlier), 'earlier results are kept', data[:200])
    boxes = parseBoxes(data[len(earlier):])
    if end != 'exit':
        same(boxes, [], 'results of a run which ended with %r' % end)
        return 'none'
    want = [(name + '-overall',) + tuple(seen['overall'])]
    starts = [t for e, t in seen['marks'] if e == 'start']
    stops = [t for e, t in seen['marks'] if e == 'stop']
    open_ = 0
    proper = True
    for e, t in seen['marks']:
        open_ += 1 if e == 'start' else -1
        proper = proper and open_ in (0, 1)
    proper = proper and not open_
    if proper and starts:
        want.append((name + '-benchmark', starts[-1], stops[-1]))
    if not proper and len(boxes) == 2:
        # marks which do not pair: whatever is said about them
        check(boxes[1]['name'] == name + '-benchmark', 'results', boxes)
        boxes = boxes[:1]
    same([b['name'] for b in boxes], [w[0] for w in want], 'results reported')
    bad = any(e.startswith('err') for e in history)
    for b, (n, a, z) in zip(boxes, want):
        same((b['error'], b['timeout']), (str(bad), 'False'), 'error and timeout of %s after %r' % (n, history))
        f = figures(layout, a, z, seen)
        for k in ('elapsed', 'filesystem_growth', 'read_count', 'read_sectors', 'write_count', 'write_sectors', 'read_ms', 'write_ms'):
            got = b.get(k)
            w = f.get(k)
            if k == 'filesystem_growth' and not growth:
                check(abs(float(got)) < 10 ** 6, 'growth', got)
                continue
            check((got is None and w is None) or (got is not None and w is not None and float(got) == w),
                  '%s of %s' % (k, n), got, w, history)
        same(b['sector_size'], str(seen['block']), 'sector size')
    if not proper or starts:
        return 'reported'
    return 'overall only'


def histories(case):
    earlier, layout, history = case
    earlier = EARLIER * earlier
    seen = play('s.py', lambda d: ['s.py'], earlier, layout, history)
    r = judge(seen, 's.py', layout, history, earlier)
    same(seen['signals'].count('KILL'), history.count('silence'), 'kills')
    return layout, r, history


OTHERS = [
    {'.stat': b'mine'}, {'.stat': None}, {'.stat': None, '.stat/kept': b'mine'}, {'.stat0': b'', 'stat': b'x', '.stat.tmp': None},
    {'.stat': None, '.stat/s.py': b'no', 'output.old': b'mine', 'f1': b'mine'},
]


def others(case):
    """Files which are already there are let be."""
    which, end = case
    h = ('start', 'grow', 'stop', end)
    seen = play('s.py', lambda d: ['s.py'], EARLIER, 'dp', h, OTHERS[which])
    return which, judge(seen, 's.py', 'dp', h, EARLIER)


LINKS = ['link l .', 'link l ..', 'link l l', 'link d/l ..', 'link d/l ../d', 'link d/e/l ../..', 'link l nowhere', 'link l d', 'link l d/e', 'link l output/x',
         'link l ../s.py', 'link l ../s.py/x', 'link d/l ../../s.py', 'link m l']


def links(case):
    """What the child leaves in its directory does not keep its run from being reported."""
    what, where, end = case
    h = ['start', 'grow', 'stop']
    h[where:where] = what
    h = tuple(h) + (end,)
    seen = play('s.py', lambda d: ['s.py'], EARLIER, 'dp', h)
    return case, judge(seen, 's.py', 'dp', h, EARLIER, False)


def gone(case):
    """
    The child removes its directory: it ends all the same, and nothing is left
    (what can be told about it is not said).
    """
    before, after, end = case
    h = before + ('gone',) + after + (end,)
    seen = play('s.py', lambda d: ['s.py'], EARLIER, 'dp', h)
    check(seen['data'].startswith(EARLIER), 'earlier results')
    names = [b['name'] for b in parseBoxes(seen['data'][len(EARLIER):])]
    check(end == 'exit' or not names, 'results of a run which failed', names)
    check(set(names) <= {'s.py-overall', 's.py-benchmark'}, 'results', names)
    return case, len(names)


def commandLine(case):
    """How the script may be named, and what is handed to it."""
    kind, extra, end = case
    script = {'plain': 's.py', 'below': 'a/b/s.py', 'blank': 'a b.py', 'dot': 's.py', 'absolute': 's.py', 'up': 's.py', 'accent': 'caf\xe9.py'}[kind]
    name = {'dot': './s.py', 'up': '../%s/s.py'}.get(kind, script)
    names = []

    def args(d):
        n = os.path.join(d, script) if kind == 'absolute' else name % os.path.basename(d) if kind == 'up' else name
        names.append(n)
        return [n] + list(extra)
    seen = play(script, args, b'', 'dp', ('start', 'stop', end))
    c = seen['spawned']
    same(c['executable'], sys.executable, 'executable')
    same(c['args'][0], sys.executable, 'name of the program')
    rest = c['args'][1:]
    tail = len(extra) + 1
    check(all(x.startswith('-') for x in rest[:-tail]), 'arguments of the interpreter', rest)
    same(tuple(rest[-tail + 1:]) if extra else (), tuple(extra), "the script's own arguments")
    target = rest[-tail]
    full = os.path.normpath(os.path.join(c['path'], target))
    same(os.path.realpath(full), os.path.realpath(os.path.join(seen['d'], script)), 'script run, seen from its directory')
    check(all(c['env'].get(k) == v for k, v in os.environ.items()), "the caller's environment", c['env'])
    judge(seen, names[0], 'dp', ('start', 'stop', end), b'')
    return case


def twice(case):
    """Several runs in one directory add to one file of results (one process each, as from the command line)."""
    ends = case
    d = os.path.realpath(tempfile.mkdtemp(dir=BASE))
    data = b''
    try:
        want = []
        for i, end in enumerate(ends):
            seen = play('s%d.py' % i, lambda d: ['s%d.py' % i], data, 'p', ('start', 'grow', 'stop', end))
            check(seen['data'].startswith(data), 'earlier results are kept')
            data = seen['data']
            if end == 'exit':
                want += ['s%d.py-overall' % i, 's%d.py-benchmark' % i]
        same([b['name'] for b in parseBoxes(data)], want, 'results of %r' % (ends,))
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- everything together, with real children

SCRIPTS = {
    'ok': 'from epsilon.scripts import benchmark as b\nb.start()\nopen("grown", "w").write("z" * 1000)\nb.stop()\n',
    'args': 'import sys\nassert sys.argv[1:] == ["x", "y z", ""], sys.argv\nfrom epsilon.scripts import benchmark as b\nb.start()\nb.stop()\n',
    'bare': 'print("no marks")\n',
    'loop': 'import os\nos.mkdir("d")\nos.symlink("..", "d/l")\nos.symlink("x", "x")\n',
    'gone': 'import os\nos.rmdir(os.getcwd())\n',
    'died': 'import os\nos.kill(os.getpid(), 9)\n',
}
DRIVER = '''
import sys
sys.path[:0] = [%r, %r]
from mc import bench
b = bench.module()
sys.argv[:] = %r
b.main()
'''


def real(case):
    kind, relative = case
    d = os.path.realpath(tempfile.mkdtemp(dir=BASE))
    try:
        os.mkdir(os.path.join(d, 'sub'))
        path = os.path.join(d, 'sub', 'script.py')
        with open(path, 'w') as f:
            f.write(SCRIPTS[kind])
        with open(os.path.join(d, 'output'), 'wb') as f:
            f.write(EARLIER)
        name = 'sub/script.py' if relative else path
        argv = ['benchmark', name] + (['x', 'y z', ''] if kind == 'args' else [])
        verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        op()
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', DRIVER % (REPO, verif, argv)], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        check(p.returncode == 0, 'the benchmark runner failed', p.stdout[-2000:])
        same(sorted(os.listdir(d)), ['output', 'sub'], 'files left')
        data = open(os.path.join(d, 'output'), 'rb').read()
        check(data.startswith(EARLIER), 'earlier results')
        boxes = parseBoxes(data[len(EARLIER):])
        want = {'died': [], 'gone': [], 'bare': ['-overall'], 'loop': ['-overall']}.get(kind, ['-overall', '-benchmark'])
        same([b['name'] for b in boxes], [name + w for w in want], 'results', p.stdout[-2000:])
        same([b['error'] for b in boxes], ['False'] * len(want), 'errors', p.stdout[-2000:])
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)


BASE = None


def run(ctx):
    global BASE
    q = ctx.quick
    ctx.assumptions += ['a child closes its descriptors before it is reported as ended, as Twisted promises',
                        'marks which do not pair (stop before start, start twice) say nothing about the benchmark result',
                        'the module reads /proc and the time of day through stand-ins, except in the runs with real children']
    bench.module()
    BASE = tempfile.mkdtemp(prefix='mc-c40-')
    try:
        events = ['start', 'stop', 'out', 'err', 'grow', 'close2']
        ends = ['exit', 'exit3', 'segv', 'lost', 'interrupt']
        cases = []
        for n in range(0, 4 if q else 6):
            for h in itertools.product(events, repeat=n):
                if 'err' in h and 'close2' in h and h.index('close2') < len(h) - 1 - h[::-1].index('err') or h.count('close2') > 1:
                    continue
                for e in ends:
                    if e != 'exit' and n > (2 if q else 4):
                        continue
                    cases.append((len(cases) % 3, ('dp', 'd', 'p', '')[len(cases) // 3 % 4], h + (e,)))
                    if n <= 2:
                        for layout in ('dp', 'd', 'p', ''):
                            for earlier in (0, 1):
                                cases.append((earlier, layout, h + (e,)))
        # longer ones with the marks in order
        for n in range(3, 6 if q else 8):
            for h in itertools.product(('start', 'stop', 'grow', 'err'), repeat=n):
                marks = [e for e in h if e in ('start', 'stop')]
                if marks != ['start', 'stop'] * (len(marks) // 2) or not marks or (q and n == 5 and h.count('err') > 1):
                    continue
                cases.append((1, 'dp', h + ('exit',)))
        cases += [(0, 'dp', h + ('silence', 'killed')) for n in range(3) for h in itertools.product(events, repeat=n) if h.count('close2') < 2
                  and not ('err' in h and 'close2' in h and h.index('close2') < h.index('err'))]
        ctx.sweep('histories', cases, histories, parallel=True)
        extras = [(), ('x',), ('a b', ''), ('-v', '--x=1'), ('s.py',), ('*', '$HOME', 'caf\xe9')]
        ctx.sweep('command-line', [(k, x, e) for k in ('plain', 'below', 'blank', 'dot', 'absolute', 'up', 'accent') for x in extras for e in ('exit', 'exit3')],
                  commandLine)
        ctx.sweep('errors', [(1, 'dp', h[:i] + (e,) + h[i:] + ('exit',)) for e in sorted(ERRORS) for h in ((), ('start', 'stop'), ('out', 'start', 'grow', 'stop'),
                                                                                                     ('start', e, 'stop')) for i in range(len(h) + 1)],
                  histories, parallel=True)
        ctx.sweep('links', [(w, i, e) for n in (1, 2) for w in itertools.combinations(LINKS, n) if len({x.split()[1] for x in w}) == n
                            and not {'link l d', 'link l d/e'} & set(w) - set(w[:1]) for i in range(4) for e in ('exit',) + (() if n == 2 else tuple(ends[1:]))],
                  links, parallel=True)
        ctx.sweep('gone', [(b, a, e) for b in ((), ('start',), ('grow',), ('start', 'stop'), ('start', 'grow', 'stop')) for a in ((), ('out',), ('err',))
                           for e in ends] + [(b, a + ('silence',), 'killed') for b in ((), ('start', 'stop')) for a in ((), ('out',))], gone)
        ctx.sweep('others', [(i, e) for i in range(len(OTHERS)) for e in ends], others)
        ctx.sweep('several', [c for n in (1, 2, 3) for c in itertools.product(('exit', 'exit3', 'segv'), repeat=n)], twice)
        ctx.sweep('real', [(k, r) for k in (('ok', 'bare') if q else sorted(SCRIPTS)) for r in (True, False)] + ([('args', True), ('died', True), ('loop', True)] if q else []),
                  real, parallel=True)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
