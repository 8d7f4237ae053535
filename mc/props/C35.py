"""
C35: child processes get the caller's environment plus the packages they need.
"""
import itertools, json, os, shutil, subprocess, sys, tempfile

from mc.core import check, same, op
from mc.env import REPO

BASE = None
# name -> the directory it adds to the search path (below BASE), None: left out
WHERE = {}
ENVS = [
    {}, {'A': '1'}, {'PYTHONPATH': '/one'}, {'PYTHONPATH': '/one:/two:/three', 'HOME': '/h'}, {'PYTHONPATH': '', 'X': ''},
    {'PYTHONPATH': '/b:/a:/b'}, {'PATH': '/bin', 'PYTHONPATHX': '/no', 'pythonpath': '/no'}, 'same-dir',
    {'PYTHONPATH': '/one::/two:'}, {'PYTHONPATH': ':/one'}, {'PYTHONPATH': '.:rel/dir: '},
]


def layout():
    """Packages and modules in a few directories, some of them below the interpreter's prefix."""
    def put(*parts):
        p = os.path.join(BASE, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('')
    put('one', 'mcpka', '__init__.py')
    put('one', 'mcpka', 'sub', '__init__.py')
    put('one', 'mcpka', 'mod.py')
    put('one', 'mcpkb', '__init__.py')
    put('two', 'mcmodc.py')
    put('two', 'mcpkd', '__init__.py')
    put('three', 'mcpke', '__init__.py')
    put('prefix', 'lib', 'pythonX', 'mcpkf', '__init__.py')
    put('prefix', 'lib', 'pythonX', 'mcmodg.py')
    put('prefix', 'share', 'mcpkh', '__init__.py')
    WHERE.update({
        'mcpka': 'one', 'mcpka.sub': 'one/mcpka', 'mcpka.mod': 'one/mcpka', 'mcpkb': 'one', 'mcmodc': 'two', 'mcpkd': 'two', 'mcpke': 'three',
        'mcpkf': None, 'mcmodg': None, 'mcpkh': 'prefix/share'})
    sys.path[:0] = [os.path.join(BASE, d) for d in ('one', 'two', 'three', 'prefix/lib/pythonX', 'prefix/share')]
    sys.prefix = os.path.join(BASE, 'prefix')


class Spawner(object):
    """Stands in for the reactor's spawnProcess."""
    def __init__(self):
        self.calls = []

    def __call__(self, processProtocol, executable, args=(), env={}, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
        self.calls.append(dict(processProtocol=processProtocol, executable=executable, args=args, env=None if env is None else dict(env), path=path,
                               uid=uid, gid=gid, usePTY=usePTY, childFDs=childFDs))
        self.env = env
        self.result = object()
        return self.result


def environment(e):
    if e == 'same-dir':
        return {'PYTHONPATH': os.path.join(BASE, 'two') + ':/x'}
    return dict(e)


def verify(call, proto, executable, args, env, options, packages):
    check(call['processProtocol'] is proto, 'the protocol')
    same(call['executable'], executable, 'the executable')
    same(list(call['args']), list(args), 'the arguments')
    for k in ('path', 'uid', 'gid', 'usePTY'):
        same(call[k], options.get(k, 0 if k == 'usePTY' else None), k)
    check(not call['childFDs'], 'descriptors', call['childFDs'])
    got = dict(call['env'])
    got.pop('PYTHONPATH', None)
    same(got, {k: v for k, v in env.items() if k != 'PYTHONPATH'}, 'the environment')
    # an empty entry stands for the working directory, an empty path for no path
    entries, old = [p.split(os.pathsep) if p else [] for p in (call['env'].get('PYTHONPATH', ''), env.get('PYTHONPATH', ''))]
    want = {os.path.join(BASE, WHERE[p]) for p in packages if WHERE[p] is not None}
    n = len(entries) - len(old)
    same(entries[n:] if n >= 0 else entries, old, 'the entries which were there before', entries)
    same(sorted(entries[:n]), sorted(want), 'the entries added')


def spawn(case):
    """Every list of packages in every environment."""
    from twisted.internet import reactor
    from epsilon import process
    python, packages, e, args, options, how = case
    s = Spawner()
    old = vars(reactor).get('spawnProcess')
    reactor.spawnProcess = s
    try:
        proto = object()
        env = environment(e) if e is not None else None
        keep = dict(env) if env is not None else {}
        a = list(args)
        pk = {'list': list(packages), 'tuple': tuple(packages), 'iter': iter(packages)}[how]
        kw = dict(options)
        if env is not None:
            kw['env'] = env
        if a:
            kw['args'] = a
        if packages:
            kw['packages'] = pk
        op()
        if python:
            r = process.spawnPythonProcess(proto, **kw)
        else:
            r = process.spawnProcess(proto, '/bin/exe', **kw)
        same(len(s.calls), 1, 'processes spawned')
        check(r is s.result, 'result')
        verify(s.calls[0], proto, sys.executable if python else '/bin/exe', args, keep, options, packages)
        if env is not None:
            same(env, keep, "the caller's environment")
            check(s.env is not env, "the caller's own environment was handed on")
        same(a, list(args), "the caller's arguments")
        if how == 'list':
            same(pk, list(packages), "the caller's packages")
        return packages, python
    finally:
        if old is None:
            del reactor.spawnProcess
        else:
            reactor.spawnProcess = old


def histories(ch):
    """Several spawns, sharing an environment or using the default: none affects another."""
    from twisted.internet import reactor
    from epsilon import process
    s = Spawner()
    old = vars(reactor).get('spawnProcess')
    reactor.spawnProcess = s
    try:
        shared = {'S': '1', 'PYTHONPATH': '/shared'}
        keep = dict(shared)
        args = ['x', 'y']
        for k in range(DEPTH):
            python = ch.flag('python')
            packages = ch.choose(((), ('mcpka',), ('mcmodc', 'mcpka'), ('mcpke', 'mcpkf')), 'packages')
            mode = ch.choose(('default', 'shared', 'positional'), 'environment')
            proto = object()
            op()
            if mode == 'positional':
                env = {'P': str(k)}
                opts = dict(path='/p', uid=5, gid=6, usePTY=1)
                if python:
                    process.spawnPythonProcess(proto, args, env, '/p', 5, 6, 1, packages)
                else:
                    process.spawnProcess(proto, '/bin/exe', args, env, '/p', 5, 6, 1, packages)
                same(env, {'P': str(k)}, "the caller's environment")
                want, wargs = env, args
            else:
                opts = {}
                kw = {} if mode == 'default' else dict(env=shared)
                if python:
                    process.spawnPythonProcess(proto, packages=packages, **kw)
                else:
                    process.spawnProcess(proto, '/bin/exe', packages=packages, **kw)
                want, wargs = ({} if mode == 'default' else keep), ()
            same(len(s.calls), k + 1, 'processes spawned')
            verify(s.calls[-1], proto, sys.executable if python else '/bin/exe', wargs, want, opts, packages)
            same(shared, keep, 'the shared environment')
            same(args, ['x', 'y'], 'the arguments')
            ch.obs((python, packages, mode))
    finally:
        if old is None:
            del reactor.spawnProcess
        else:
            reactor.spawnProcess = old


# -- real processes

REAL = r'''
import sys, os, json
sys.path.insert(0, %(repo)r)
from twisted.internet import reactor, protocol
from epsilon import process
sys.path[:0] = %(dirs)r
log = []
class P(protocol.ProcessProtocol):
    out = b''
    def outReceived(self, data):
        self.out += data
    errReceived = outReceived
    def processEnded(self, reason):
        log.append(self.out.decode())
        reactor.stop()
env = %(env)r
f = process.spawnPythonProcess if %(python)r else process.spawnProcess
a = (P(),) if %(python)r else (P(), sys.executable)
f(*a, args=['child', '-c', %(code)r], env=env, packages=%(packages)r)
reactor.callLater(40, reactor.stop)
reactor.run()
json.dump(log, open(sys.argv[1], 'w'))
'''
CHILD = '''
import sys, os, json
r = {}
for n in %r:
    try:
        __import__(n)
        r[n] = True
    except ImportError:
        r[n] = False
print(json.dumps([r, os.environ.get("MARK"), sys.path]))
'''


def runDriver(text, stdin=b''):
    d = tempfile.mkdtemp(prefix='r', dir=BASE)
    try:
        env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        p = subprocess.run([sys.executable, '-c', text, os.path.join(d, 'result')], cwd=d, env=env, input=stdin,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
        check(p.returncode == 0, 'the driver failed', p.stderr[-2000:])
        return json.load(open(os.path.join(d, 'result'))), p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def realSpawn(case):
    python, packages, env = case
    names = ['mcpka', 'mcmodc', 'mcpke']
    dirs = [os.path.join(BASE, x) for x in ('one', 'two', 'three')]
    log, out = runDriver(REAL % dict(repo=REPO, dirs=dirs, env=env, python=python, packages=packages, code=CHILD % (names,)))
    same(len(log), 1, 'children')
    got, mark, path = json.loads(log[0].strip().splitlines()[-1])
    added = {WHERE[p] for p in packages}
    same(got, {n: WHERE[n] in added for n in names}, 'what the child can import')
    same(mark, env.get('MARK'), 'environment of the child')
    for p in env.get('PYTHONPATH', '').split(':'):
        check(not p or p in path, 'entry of the search path', p, path)
    return case


STDIO = r'''
import sys, os, json
sys.path.insert(0, %(repo)r)
from twisted.internet import reactor, protocol
from twisted.application.service import IService, MultiService
from epsilon.process import StandardIOService
log = []
class P(protocol.Protocol):
    got = b''
    def connectionMade(self):
        log.append('made')
        self.transport.write(b'hello')
    def dataReceived(self, data):
        self.got += data
        if self.got.endswith(b'.'):
            log.append(self.got.decode())
            self.transport.write(b'/' + self.got)
            reactor.callLater(0.05, reactor.stop)
p = P()
s = StandardIOService(p)
log.append(IService.providedBy(s) and s.protocol is p)
parent = MultiService()
if %(parent)r:
    s.setServiceParent(parent)
log.append('created')
if %(when)r == 'before':
    (parent if %(parent)r else s).startService()
    log.append('started')
else:
    def start():
        log.append('now')
        (parent if %(parent)r else s).startService()
        log.append('started')
    reactor.callLater(0.1, start)
reactor.callLater(20, reactor.stop)
reactor.run()
json.dump(log, open(sys.argv[1], 'w'))
'''


def stdio(case):
    parent, when = case
    log, out = runDriver(STDIO % dict(repo=REPO, parent=parent, when=when), b'abc.')
    same(log, [True, 'created'] + (['now'] if when == 'later' else []) + ['made', 'started', 'abc.'], 'what happened')
    same(out, b'hello/abc.', 'written to standard output')
    return case


def real(case):
    return stdio(case[1]) if case[0] == 'stdio' else realSpawn(case[1])


DEPTH = 3


def run(ctx):
    global BASE, DEPTH
    q = ctx.quick
    from epsilon import process
    ctx.assumptions += ['spawnProcess of the reactor is replaced by a recorder, except in the conformance runs with real children',
                        'empty entries of a search path mean nothing', 'packages are all importable by the parent',
                        'only directories below lib of sys.prefix count as installed with the interpreter']
    BASE = os.path.realpath(tempfile.mkdtemp(prefix='mc-c35-'))
    prefix, path = sys.prefix, list(sys.path)
    try:
        layout()
        names = sorted(WHERE)
        lists = [p for n in range(3 if q else 4) for p in itertools.product(names, repeat=n)]
        if q:
            lists += [p for p in itertools.product(('mcpka', 'mcpkb', 'mcmodc', 'mcpkf'), repeat=3)]
        ctx.sweep('packages', [(py, p, e, ('a', 'b'), {}, h) for py in (False, True) for p in lists for e in ENVS
                               for h in ('list',)], spawn, parallel=True)
        options = [dict(x) for n in range(5) for x in itertools.combinations([('path', '/p'), ('uid', 12), ('gid', 0), ('usePTY', 1)], n)]
        ctx.sweep('options', [(py, p, e, a, o, h) for py in (False, True) for p in ((), ('mcpka', 'mcmodc')) for e in (None, {}, ENVS[3])
                              for a in ((), ('x',), ('--', '', 'y z')) for o in options for h in ('list', 'tuple', 'iter')], spawn)
        DEPTH = 3 if q else 4
        ctx.explore('histories', histories, parallel=True)
        sys.prefix = prefix
        sys.path[:] = path
        ctx.sweep('real', [('spawn', c) for c in ((True, ['mcpka', 'mcmodc'], {'MARK': 'm'}), (False, ['mcpke'], {'PYTHONPATH': '/nowhere:/else'}),
                                                  (True, [], {}), (False, ['mcpka.sub', 'mcpka'], {'MARK': 'n', 'PYTHONPATH': '/q'}))] +
                  [('stdio', (p, w)) for p in (False, True) for w in ('before', 'later')], real, parallel='each')
    finally:
        sys.prefix = prefix
        sys.path[:] = path
        shutil.rmtree(BASE, ignore_errors=True)
