"""
C30: benchmark measurements match the start and stop marks and the system's figures.
"""
import itertools, os, shutil, socket, subprocess, sys, tempfile

from mc.core import check, same, op
from mc import bench
from mc.env import REPO

DISK = ['readCount', 'mergedReadCount', 'readSectorCount', 'readMilliseconds',
        'writeCount', 'mergedWriteCount', 'writeSectorCount', 'writeMilliseconds',
        'outstandingIOCount', 'ioMilliseconds', 'weightedIOMilliseconds']
PART = ['readCount', 'readSectorCount', 'writeCount', 'writeSectorCount']


def scratch():
    return os.path.realpath(tempfile.mkdtemp(prefix='mc-c30-'))


# -- marks

class World(object):
    """A child with a working directory, disk figures and a clock that all move."""

    def __init__(self, layout):
        self.dir = scratch()
        self.work = os.path.join(self.dir, 'work')
        os.mkdir(self.work)
        self.count = 0
        self.now = 5000.0
        self.size = 0
        self.layout = layout
        self.files = {}
        self.figures()

    def figures(self):
        n = self.count
        self.expectDisk = [1000 * (i + 1) + 7 * n for i in range(11)]
        self.expectPart = [100000 * (i + 1) + 3 * n for i in range(11)]
        lines = ['   8       9 sdz 1 2 3 4 5 6 7 8 9 10 11']
        short = self.layout == 'old'
        if self.layout != 'nodisk':
            lines.append('   8       0 sda ' + ' '.join(map(str, self.expectDisk)) + (' 5 6 7 8' if self.layout == 'new' else ''))
        if self.layout != 'nopart':
            part = self.expectPart[:4] if short else self.expectPart
            lines.append('   8       1 sda1 ' + ' '.join(map(str, part)))
        lines.append('   8       2 sda11 9 9 9 9 9 9 9 9 9 9 9')
        self.files[bench.DISKSTATS] = '\n'.join(lines) + '\n'
        self.files[bench.MOUNTS] = 'rootfs / rootfs rw 0 0\n/dev/sda1 %s ext4 rw 0 0\n/dev/sdz %s ext4 rw 0 0\n' % (
            os.path.dirname(self.dir), self.dir + 'x')

    def move(self):
        """Something happens: time passes, the disk is used, a file grows."""
        self.count += 1
        self.now += 0.5 + self.count
        with self.real(os.path.join(self.work, 'f%d' % (self.count % 2)), 'ab') as f:
            f.write(b'x' * (10 + self.count))
        self.figures()

    def real(self, path, mode):
        return os.fdopen(os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600), mode)

    def total(self):
        n = os.stat(self.work).st_size
        for x in os.listdir(self.work):
            n += os.stat(os.path.join(self.work, x)).st_size
        return n

    def snapshot(self):
        disk = None if self.layout == 'nodisk' else tuple(self.expectDisk)
        part = None if self.layout == 'nopart' else (tuple(self.expectPart[:4]) if self.layout == 'old' else tuple(self.expectPart))
        return (self.now, disk, part, self.total())

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def flat(s):
    """A ResourceSnapshot as plain values."""
    def stat(x):
        if x is None:
            return None
        names = DISK if hasattr(x, 'ioMilliseconds') else PART
        return tuple(getattr(x, n) for n in names)
    return (s.time, stat(s.disk), stat(s.partition), s.size)


def marks(ch):
    from epsilon.scripts import benchmark
    P = benchmark.BenchmarkProcess
    layout = ch.choose(LAYOUTS, 'layout')
    w = World(layout)
    cwd = os.getcwd()
    try:
        os.chdir(w.dir)
        with bench.System(w.files, lambda: w.now) as s:
            calls = []

            def spawnProcess(proto, *a, **k):
                calls.append(proto)
            first = w.snapshot()
            op()
            d = P.spawn('/bin/true', [], w.work, {}, spawnProcess=spawnProcess)
            fired = []
            d.addBoth(fired.append)
            proto = calls[0]
            w.move()
            log = []
            t = bench.Child(log)
            proto.makeConnection(t)
            before = after = None
            acks = b''
            quits = 0
            out = []
            for k in range(DEPTH):
                w.move()
                n = ch.choose((0, 1, 2, 3), 'marks in the segment')
                if n == 0:
                    fd = ch.choose((1, 2), 'fd')
                    out.append((fd, b'\0\1q'))
                    op()
                    proto.childDataReceived(fd, b'\0\1q')
                else:
                    seg = b''.join(ch.choose((P.START, P.STOP, b'?'), 'mark') for i in range(n))
                    for c in seg:
                        c = bytes([c])
                        if c == P.START:
                            before = w.snapshot()
                            acks += c
                        elif c == P.STOP:
                            after = w.snapshot()
                            acks += c
                        else:
                            quits += 1
                    op()
                    proto.childDataReceived(P.BACKCHANNEL_OUT, seg)
                same(b''.join(t.toChild.get(P.BACKCHANNEL_IN, [])), acks, 'acknowledgements')
                same([fd for fd in t.toChild if fd != P.BACKCHANNEL_IN], [], 'other descriptors written to')
                check(all(x == 'QUIT' for x in t.signals), 'signals', t.signals)
                check(bool(t.signals) == bool(quits) and len(t.signals) <= quits, 'told to quit', t.signals, quits)
                c = proto.benchmarkChange
                if before is not None:
                    same(flat(c.before), before, 'figures at the last start mark')
                if after is not None:
                    same(flat(c.after), after, 'figures at the last stop mark')
                ch.obs((layout, acks, quits, len(out)))
            w.move()
            from twisted.python.failure import Failure
            from twisted.internet.error import ProcessDone
            last = w.snapshot()
            op()
            proto.processEnded(Failure(ProcessDone(0)))
            same(flat(proto.overallChange.before), first, 'figures when the child was made')
            same(flat(proto.overallChange.after), last, 'figures when the child ended')
            if before is not None:
                same(flat(proto.benchmarkChange.before), before, 'figures at the start mark, in the end')
            if after is not None:
                same(flat(proto.benchmarkChange.after), after, 'figures at the stop mark, in the end')
            same([x[1:] for x in fired], [(0, out)], 'result')
            check(fired[0][0] is proto, 'the process of the result')
            same(list(s.clock.getDelayedCalls()), [], 'timers left')
    finally:
        os.chdir(cwd)
        w.close()


def bytesOfMarks(case):
    """Every byte there is, alone and among marks."""
    from epsilon.scripts import benchmark
    from twisted.python.failure import Failure
    from twisted.internet.error import ProcessDone
    P = benchmark.BenchmarkProcess
    value, where = case
    b = bytes([value])
    seg = {'alone': b, 'first': b + P.START, 'last': P.STOP + b, 'twice': b + b, 'within': P.START + b + P.STOP}[where]
    w = World('full')
    cwd = os.getcwd()
    try:
        os.chdir(w.dir)
        with bench.System(w.files, lambda: w.now) as s:
            calls = []
            d = P.spawn('/bin/true', [], w.work, {}, spawnProcess=lambda proto, *a, **k: calls.append(proto))
            d.addBoth(lambda r: None)
            proto = calls[0]
            t = bench.Child([])
            proto.makeConnection(t)
            op()
            proto.childDataReceived(P.BACKCHANNEL_OUT, seg)
            known = (P.START, P.STOP)
            same(b''.join(t.toChild.get(P.BACKCHANNEL_IN, [])), b''.join(x for x in [bytes([c]) for c in seg] if x in known), 'acknowledgements of %r' % seg)
            odd = sum(bytes([c]) not in known for c in seg)
            check(bool(odd) == bool(t.signals) and len(t.signals) <= odd and all(x == 'QUIT' for x in t.signals), 'signals after %r' % seg, t.signals)
            proto.processEnded(Failure(ProcessDone(0)))
    finally:
        os.chdir(cwd)
        w.close()
    return case


def deviceNames(case):
    """The figures are those of the partition mounted here, and of the disk it is on."""
    from epsilon.scripts import benchmark
    from twisted.python.failure import Failure
    from twisted.internet.error import ProcessDone
    P = benchmark.BenchmarkProcess
    disk, number = case
    part = disk + number
    names = [disk, part] + [x for x in ('sda', 'sda1', 'sda12', 'sdb', 'hda', 'hda2', 'sd', 'sda2') if x not in (disk, part)]
    w = World('full')
    cwd = os.getcwd()
    try:
        os.chdir(w.dir)
        figures = {n: [1000 * i + j for j in range(11)] for i, n in enumerate(names)}
        w.files[bench.DISKSTATS] = ''.join('  8  %d %s %s\n' % (i, n, ' '.join(map(str, figures[n]))) for i, n in enumerate(sorted(set(names))))
        w.files[bench.MOUNTS] = '/dev/%s / ext4 rw 0 0\n' % part
        with bench.System(w.files, lambda: w.now) as s:
            calls = []
            d = P.spawn('/bin/true', [], w.work, {}, spawnProcess=lambda proto, *a, **k: calls.append(proto))
            d.addBoth(lambda r: None)
            proto = calls[0]
            proto.makeConnection(bench.Child([]))
            op()
            proto.childDataReceived(P.BACKCHANNEL_OUT, P.START + P.STOP)
            proto.processEnded(Failure(ProcessDone(0)))
            for c in (proto.overallChange, proto.benchmarkChange):
                for snap in (c.before, c.after):
                    same(flat(snap)[1:3], (tuple(figures[disk]), tuple(figures[part])), 'figures of %s on %s' % (part, disk))
    finally:
        os.chdir(cwd)
        w.close()
    return case


# -- disk figures

NUMBERS = [0, 1, 7, 4294967295, 18446744073709551615]


def diskLine(case):
    from epsilon.scripts import benchmark
    fields, at, number, sep, binary, name = case
    want = [101 + i for i in range(fields)]
    if at is not None:
        want[at] = number
    line = sep + sep.join(['8', '0', name] + [str(x) for x in want]) + '\n'
    if binary:
        line = line.encode()
    op()
    dev, stat = benchmark.parseDiskStatLine(line)
    same(dev, name, 'device')
    check(type(dev) is str, 'type of the device name', dev)
    if fields == 4:
        same([getattr(stat, n) for n in PART], want, 'partition figures')
        check(not hasattr(stat, 'ioMilliseconds'), 'figures a partition line does not give')
    else:
        same([getattr(stat, n) for n in DISK], want[:11], 'disk figures')
    return fields, at


def diskFile(case):
    """Whole files, through /proc/diskstats and through a given file."""
    import io
    from epsilon.scripts import benchmark
    kinds = case
    lines, want = [], {}
    for i, k in enumerate(kinds):
        n = {'d': 11, 'p': 4, 'n': 15}[k]
        vals = [1000 * i + j for j in range(n)]
        name = 'dev%d' % i
        lines.append('%4d %7d %s %s' % (i, i, name, ' '.join(map(str, vals))))
        want[name] = tuple(vals[:11] if n != 4 else vals)
    text = ''.join(l + '\n' for l in lines)

    def plain(d):
        return {k: tuple(getattr(v, n) for n in (PART if len(want[k]) == 4 else DISK)) for k, v in d.items()}
    op()
    got = list(benchmark.parseDiskStats(io.BytesIO(text.encode())))
    same([g[0] for g in got], ['dev%d' % i for i in range(len(kinds))], 'devices')
    same(plain(dict(got)), want, 'figures')
    with bench.System({bench.DISKSTATS: text}):
        op()
        same(plain(benchmark.captureStats()), want, 'captured figures')
    return kinds


# -- the working device

def device(case):
    """Every table of mounts over a fixed set of mount points."""
    from epsilon.scripts import benchmark
    table, cwd, how = case
    base = BASE
    lines = []
    best, dev = None, '<unknown>'
    real = base + cwd
    for i, mp in enumerate(table):
        path = mp if mp in ('/', '/other') else base + mp
        name = '/dev/d%d' % i
        lines.append('%s %s ext4 rw,relatime 0 0' % (name, path.replace('\\', '\\134').replace(' ', '\\040').replace('\t', '\\011')))
        if path == '/' or real == path or real.startswith(path + '/'):
            if best is None or len(path) >= len(best):
                best, dev = path, name
    text = ''.join(l + '\n' for l in lines)
    os.chdir(real)
    try:
        op()
        if how == 'file':
            f = os.path.join(base, 'mounts')
            fd = os.open(f, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.write(fd, text.encode())
            os.close(fd)
            got = benchmark.discoverCurrentWorkingDevice(f)
        else:
            with bench.System({bench.MOUNTS: text}):
                got = benchmark.discoverCurrentWorkingDevice()
    finally:
        os.chdir('/')
    same(got, dev, 'device of %s' % real, text)
    return table, cwd


BASE = None
POINTS = ['/', '', '/a', '/a/b', '/ab', '/a/b/c', '/sp ace', '/other', '/a/bb', '/back\\slash']
DIRS = ['', '/a', '/a/b', '/ab', '/a/b/c', '/sp ace', '/sp ace/in', '/a/bb', '/sp', '/back\\slash']


# -- sizes

def trees(depth, width):
    """Every tree of files (of a few sizes), broken links and directories."""
    leaf = [('f', 0), ('f', 5), ('l', 'nowhere'), ('l', 'a/longer/nowhere'), ('l', 'n0'), ('l', '../n0/x'), ('l', '.')]
    if depth == 0:
        return leaf
    sub = trees(depth - 1, width)
    return leaf + [('d', kids) for n in range(width + 1) for kids in itertools.combinations_with_replacement(sub, n)]


def build(path, t):
    """Make the tree."""
    kind, arg = t
    if kind == 'f':
        with open(path, 'wb') as f:
            f.write(b'y' * arg)
    elif kind == 'l':
        os.symlink(arg, path)
    else:
        os.mkdir(path)
        for i, k in enumerate(arg):
            build(os.path.join(path, 'n%d' % i), k)


def ownSizes(path):
    """
    What may be said to be the size of one thing.  A link has a length, and
    when it leads somewhere that has a size.
    """
    found = {os.lstat(path).st_size}
    if os.path.islink(path) and os.path.exists(path):
        found.add(os.stat(path).st_size)
    return found


def totalSizes(path, top=True):
    """What is found below links is not below the directory, unless that itself is given by a link."""
    found = ownSizes(path)
    if os.path.isdir(path) and (top or not os.path.islink(path)):
        for n in os.listdir(path):
            below = totalSizes(os.path.join(path, n), False)
            found = {a + b for a in found for b in below}
    return found


def size(case):
    from epsilon.scripts import benchmark
    from twisted.python.filepath import FilePath
    d = scratch()
    try:
        p = os.path.join(d, 'top')
        build(p, case)
        op()
        check(benchmark.getSize(FilePath(p)) in totalSizes(p), 'size', case, benchmark.getSize(FilePath(p)), totalSizes(p))
        own = benchmark.getOneSize(FilePath(p))
        check(own in ownSizes(p), 'own size', own, ownSizes(p))
        same(benchmark.getSectorSize(FilePath(d)), os.statvfs(d).f_bsize, 'sector size')
        return case[0], own
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- the report

def parseBoxes(data):
    boxes = []
    for chunk in data.split(b'\r\n\r\n'):
        if chunk:
            box = {}
            for line in chunk.split(b'\r\n'):
                k, v = line.split(b': ', 1)
                box[k.decode().lower().replace('-', '_')] = v.decode()
            boxes.append(box)
    return boxes


def report(case):
    from epsilon.scripts import benchmark
    from epsilon import juice
    disk, part, error, timeout, name, sector, base, scale = case

    def snap(k):
        d = benchmark.diskstat(*[base + 10 * i + k * (i + 3) for i in range(11)]) if disk else None
        if part == 'disk':
            p = benchmark.diskstat(*[base * 2 + 1000 * i + k * (i + 17) for i in range(11)])
        elif part == 'part':
            p = benchmark.partitionstat(*[base * 2 + 1000 * i + k * (i + 29) for i in range(4)])
        else:
            p = None
        return benchmark.ResourceSnapshot(time=123.5 + k * 7.25, disk=d, partition=p, size=4096 + k * 1717)
    before, after = snap(0), snap(scale)
    op()
    data = benchmark.formatResults(name, sector, before, after, error, timeout)
    boxes = parseBoxes(data)
    same(len(boxes), 1, 'boxes')
    b = boxes[0]
    same(b.pop('_command').lower() if '_command' in b else None, 'result', 'the command')
    check('_ask' not in b, 'an answer is asked for')
    import twisted, epsilon
    delta = {'disk': {n: (i + 17) * scale for i, n in enumerate(DISK)}, 'part': {n: (i + 29) * scale for i, n in enumerate(PART)}}.get(part, {})
    ms = {n: (i + 3) * scale for i, n in enumerate(DISK)}
    want = dict(version='0', error=str(error), timeout=str(timeout), name=name, host='host.example',
                sector_size=str(sector), python_version=str(sys.hexversion), filesystem_growth=str(1717 * scale),
                twisted_version=twisted.version.short(), divmod_version=epsilon.version.short())
    if part:
        want.update(read_count=str(delta['readCount']), read_sectors=str(delta['readSectorCount']),
                    write_count=str(delta['writeCount']), write_sectors=str(delta['writeSectorCount']))
    if disk:
        want.update(read_ms=str(ms['readMilliseconds']), write_ms=str(ms['writeMilliseconds']))
    same(float(b.pop('elapsed')), 7.25 * scale, 'elapsed')
    same(b, want, 'fields')
    return case[:4]


# -- the child's side

def child(case):
    """start() and stop() of a forked child, whose parent answers as it pleases."""
    from epsilon.scripts import benchmark
    P = benchmark.BenchmarkProcess
    calls, answers = case
    outR, outW = os.pipe()       # child -> parent
    inR, inW = os.pipe()         # parent -> child
    resR, resW = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            keep = os.dup2(resW, 20)
            os.dup2(outW, 18)
            os.dup2(inR, 19)
            os.dup2(18, P.BACKCHANNEL_OUT)
            os.dup2(19, P.BACKCHANNEL_IN)
            for fd in list(range(5, 20)) + list(range(21, 64)):
                try:
                    os.close(fd)
                except OSError:
                    pass
            for c in calls:
                try:
                    getattr(benchmark, c)()
                    r = b'ok'
                except RuntimeError:
                    r = b'RE'
                except BaseException as e:
                    r = b'??'
                os.write(20, r)
        finally:
            os._exit(0)
    os.close(outW); os.close(inR); os.close(resW)
    op(len(calls))
    try:
        closed = False
        for c, a in zip(calls, answers):
            m = os.read(outR, 10)
            same(m, P.START if c == 'start' else P.STOP, 'mark sent by %s' % c)
            if a is None:
                if not closed:
                    os.close(inW)
                    closed = True
            else:
                os.write(inW, a)
            r = os.read(resR, 2)
            want = b'ok' if a == m else b'RE'
            same(r, want, '%s answered by %r' % (c, a))
        same(os.read(outR, 10), b'', 'anything else sent')
    finally:
        os.close(outR); os.close(resR)
        if not closed:
            os.close(inW)
        os.waitpid(pid, 0)
    return case


# -- everything together, with a real child

SCRIPTS = [
    ('from epsilon.scripts import benchmark as b\nb.start()\nopen("grown", "w").write("z" * 1000)\nb.stop()\n', 'ok'),
    ('from epsilon.scripts import benchmark as b\nb.start()\nb.stop()\nimport sys\nsys.stderr.write("complaint")\n', 'error'),
    ('from epsilon.scripts import benchmark as b\nb.start()\nb.stop()\nraise SystemExit(3)\n', 'died'),
    ('import os\nos.write(3, b"?")\nimport time\ntime.sleep(30)\n', 'died'),
]
DRIVER = '''
import sys, signal, resource
signal.signal(signal.SIGQUIT, signal.SIG_DFL)
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.path[:0] = [%r, %r]
from mc import bench
b = bench.module()
sys.argv[:] = ['benchmark', %r]
b.main()
'''


def whole(case):
    script, how = SCRIPTS[case]
    d = scratch()
    try:
        path = os.path.join(d, 'script.py')
        with open(path, 'w') as f:
            f.write(script)
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, '-c', DRIVER % (REPO, verif, path)], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=25)
        check(p.returncode == 0, 'the benchmark runner failed', p.stdout[-2000:])
        left = sorted(os.listdir(d))
        if how == 'died':
            same(left, ['script.py'], 'files left')
            return case
        same(left, ['output', 'script.py'], 'files left')
        boxes = parseBoxes(open(os.path.join(d, 'output'), 'rb').read())
        same([b['name'] for b in boxes], [path + '-overall', path + '-benchmark'], 'results reported')
        for b in boxes:
            same((b['error'], b['timeout']), (str(how == 'error'), 'False'), 'error and timeout')
            same(b['sector_size'], str(os.statvfs(d).f_bsize), 'sector size')
            check(0 <= float(b['elapsed']) < 25, 'elapsed', b)
        if how == 'ok':
            check(int(boxes[1]['filesystem_growth']) >= 1000 and int(boxes[0]['filesystem_growth']) >= 1000, 'growth', boxes)
        check(float(boxes[0]['elapsed']) >= float(boxes[1]['elapsed']), 'the benchmark took longer than the whole run', boxes)
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)


DEPTH = 3
LAYOUTS = ['full', 'old', 'new', 'nodisk', 'nopart']


def run(ctx):
    global DEPTH, BASE, LAYOUTS
    bench.module()
    q = ctx.quick
    ctx.assumptions += ['device names have the form sdXN: the disk is the partition without its number',
                        'directory trees contain files, directories and links']
    DEPTH = 2
    ctx.explore('marks', marks, parallel=True)
    if not q:
        DEPTH = 3
        LAYOUTS = ['full']
        ctx.explore('marks-longer', marks, parallel=True)
    ctx.sweep('mark-bytes', [(v, x) for v in range(256) for x in ('alone', 'first', 'last', 'twice', 'within')], bytesOfMarks, parallel=True)
    ctx.sweep('device-names', [(d, n) for d in ('sda', 'sdb', 'hda', 'sdaa', 'vda', 'xvda') for n in ('1', '2', '9', '10', '12', '15', '100', '0', '')] +
              # those whose names end in a number
              [(d, n) for d in ('nvme0n1', 'nvme1n12', 'nvme10n1', 'mmcblk0', 'mmcblk11', 'md127', 'md0', 'loop7', 'nbd0') for n in ('p1', 'p2', 'p10', '')] +
              [('dm-0', ''), ('dm-12', ''), ('sdp', '1'), ('vdp', '12'), ('sdp', '')], deviceNames)
    ctx.sweep('disk-line', [(n, at, v, sep, b, name) for n in (4, 11, 15, 17) for at in [None] + list(range(n)) for v in NUMBERS
                            for sep in (' ', '   ') for b in (False, True) for name in ('sda', 'sda1', 'md127', 'nvme0n1')], diskLine)
    ctx.sweep('disk-file', [k for n in range(5 if q else 7) for k in itertools.product('dpn', repeat=n)], diskFile)
    BASE = scratch()
    try:
        for d in DIRS:
            os.makedirs(BASE + d, exist_ok=True)
        tables = [t for n in range(4 if q else 5) for t in itertools.product(POINTS, repeat=n)]
        ctx.sweep('device', [(t, c, h) for t in tables for c in DIRS for h in ('proc',)] +
                  [(t, c, 'file') for t in tables if len(t) < 3 for c in DIRS], device)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
    t1 = trees(1, 2 if q else 3)
    small = [x for x in t1 if x[0] != 'd' or len(x[1]) < 2]
    two = [('d', kids) for n in range(3) for kids in itertools.combinations_with_replacement(t1 if not q else small, n)]
    ctx.sweep('size', t1 + two, size, parallel=True)
    ctx.sweep('report', [(d, p, e, t, n, s, b, k) for d in (False, True) for p in (None, 'disk', 'part') for e in (False, True) for t in (False, True)
                         for n in ('x', 'a name') for s in (512, 4096) for b in (0, 5, 10 ** 12) for k in (0, 1, 2, 10 ** 9, -1)], report)
    P = [b'\0', b'\1', b'?', None]
    ctx.sweep('child-side', [(c, a) for n in (1, 2, 3) for c in itertools.product(('start', 'stop'), repeat=n)
                             for a in itertools.product(P, repeat=n)
                             if None not in a[:-1]], child)
    if socket.gethostname() != 'localhost':
        ctx.sweep('whole', list(range(len(SCRIPTS))), whole, parallel='each')
