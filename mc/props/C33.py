"""
C33: automatic setup ships every package and every file exactly once.
"""
import contextlib, io, itertools, os, shutil, sys, tempfile

from mc.core import check, same, op

BASE = None
COUNT = [0]


class Dist(object):
    commands = []
    command_obj = {}
    have_run = {}

    def get_command_obj(self, command, create=1):
        return self.command_obj.get(command)


class Recorder(object):
    hook = None

    def __init__(self):
        self.calls = []

    def __call__(self, **kw):
        if self.hook is not None:
            return self.hook(**kw)
        self.calls.append(kw)
        self.dist = Dist()
        return self.dist


RECORD = Recorder()


def load():
    import distutils.core
    distutils.core.setup = RECORD
    for m in ('epsilon.setuphelper',):
        sys.modules.pop(m, None)
    import epsilon.setuphelper
    return epsilon.setuphelper


def build(path, tree):
    """tree: (files, {name: tree})"""
    for f in tree[0]:
        with open(os.path.join(path, f), 'wb') as fh:
            fh.write(b'# x\n')
    for name, sub in tree[1].items():
        os.mkdir(os.path.join(path, name))
        build(os.path.join(path, name), sub)


def model(tree):
    """The packages and the data of every top-level package, from the tree itself."""
    packages, data = [], {}

    def walk(parts, t):
        files, dirs = t
        if parts and ('__init__.py' in files or 'plugins' in dirs):
            packages.append('.'.join(parts))
        for name, sub in dirs.items():
            if not name.startswith('.'):
                walk(parts + [name], sub)

    def collect(prefix, t):
        files, dirs = t
        out = []
        for f in files:
            if f == 'dropin.cache':
                continue
            module = '__init__.py' in files and f.rsplit('.', 1)[-1] in ('py', 'pyc', 'pyo') and '.' in f[1:]
            if not module:
                out.append('/'.join(prefix + [f]))
        for name, sub in dirs.items():
            if not name.startswith('.'):
                out += collect(prefix + [name], sub)
        return out
    walk([], tree)
    for p in packages:
        if '.' not in p:
            data[p] = collect([], tree[1][p])
    return packages, data


def autosetup(tree, kw):
    where = tempfile.mkdtemp(prefix='t', dir=BASE)
    cwd = os.getcwd()
    path = list(sys.path)
    try:
        build(where, tree)
        os.chdir(where)
        op()
        from epsilon.setuphelper import autosetup as f
        del RECORD.calls[:]
        with contextlib.redirect_stdout(io.StringIO()):
            return f(**kw)
    finally:
        os.chdir(cwd)
        sys.path[:] = path
        shutil.rmtree(where, ignore_errors=True)


def one(tree):
    kw = {'name': 'thing', 'version': '1.0', 'scripts': ['a'], 'extra': None}
    given = dict(kw, scripts=list(kw['scripts']))
    dist = autosetup(tree, kw)
    same(len(RECORD.calls), 1, 'calls of setup')
    got = dict(RECORD.calls[0])
    packages, data = got.pop('packages'), got.pop('package_data')
    wantP, wantD = model(tree)
    same(sorted(packages), sorted(wantP), 'packages')
    same({k: sorted(v) for k, v in data.items()}, {k: sorted(v) for k, v in wantD.items()}, 'data files')
    same(got, given, 'other arguments')
    check(dist is RECORD.dist, 'result')
    return tuple(sorted(packages)), sum(len(v) for v in data.values())


def passed(case):
    """Arguments of the caller; lists of packages are refused."""
    kw = dict(case)
    tree = ((), {'p': (('__init__.py', 'd.txt'), {})})
    refused = 'packages' in kw or 'package_data' in kw
    keep = dict(kw)
    try:
        autosetup(tree, kw)
    except Exception as e:
        check(refused, 'refused', kw, e)
        same(RECORD.calls, [], 'calls of setup')
        return case
    check(not refused, 'a list of packages was silently overridden', kw)
    got = dict(RECORD.calls[0])
    same(got.pop('packages'), ['p'], 'packages')
    same(got.pop('package_data'), {'p': ['d.txt']}, 'data')
    same(got, keep, 'arguments')
    return case


FILES = [(), ('__init__.py',), ('__init__.py', 'm.py', 'd.txt'), ('m.py', 'd.txt'), ('__init__.py', 'c.pyc', 'o.pyo', 'dropin.cache', '.hid'),
         ('dropin.cache', 'c.pyc', '.hid'), ('__init__.py', 'noext', 'x.PY', 'y.py.in'), ('noext', 'y.py'), ('__init__.pyc', 'a.b.py'),
         ('__init__.py', 'w.pyw', 'e.pyd', 'x.pyx', 'i.pyi', 's.so', 'a.cache', 'dropin.cache.bak', 'my-dropin.cache', 'm.py~', 'b.bak', 'x.txt.py')]


def trees(q):
    few = FILES if not q else FILES[:7]
    tiny = FILES[:4]
    deep = [None] + [(f, {}) for f in tiny] + [(f, {'plugins': (('z.py',), {})}) for f in tiny]
    subs = [None] + [(f, {} if d is None else {'deep': d}) for f in few for d in deep]
    plugs = [None, ((), {}), (('x.py', 'dropin.cache'), {}), (('__init__.py', 'x.py'), {}), (('__init__.py', 'x.txt'), {'in': (('k.txt',), {})})]
    hidden = [None, (('__init__.py', 'h.txt'), {}), ((), {'sub': (('__init__.py',), {})}),
              (('h.txt',), {'sub': (('d.txt', 'm.py'), {'deep': (('__init__.py', 'e.txt'), {})})})]
    out = []
    for f in FILES:
        for s in subs:
            for p in plugs:
                for h in hidden:
                    d = {}
                    if s is not None:
                        d['sub'] = s
                    if p is not None:
                        d['plugins'] = p
                    if h is not None:
                        d['.svn'] = h
                    out.append(((), {'p': (f, d)}))
    # names which are nothing special
    for name in ('_static', '__data__', 'build', 'dist', 'test', 'CVS', 'in-valid', 'setup', '1st', '~', 'plugin', 'plugins', 'x' * 40, 'p', u'\xe9', 'a b'):
        for f in FILES[:4]:
            for g in FILES:
                out.append(((), {'p': (f, {name: (g, {})})}))
                out.append(((), {'p': (f, {'sub': (FILES[1], {name: (g, {name: (FILES[2], {})})})})}))
    # several top-level directories, and files beside them
    for rootfiles in ((), ('setup.py', 'README', 'top.py')):
        for a, b in itertools.product(FILES, FILES):
            for s in (None, (FILES[2], {}), (FILES[3], {})):
                d = {} if s is None else {'sub': s}
                out.append((rootfiles, {'p': (a, d), 'pp': (b, dict(d)), '.hidden': (FILES[1], {})}))
                out.append((rootfiles, {'p': (a, d), 'docs': (b, {'p': (FILES[2], {})})}))
    return out


def run(ctx):
    global BASE
    load()
    ctx.assumptions += ['the root of the source tree is not itself a package or plugin directory', 'names of directories contain no dots besides a leading one',
                        'no symbolic links and no byte-code caches in directories of their own']
    BASE = tempfile.mkdtemp(prefix='mc-c33-')
    try:
        ctx.sweep('trees', trees(ctx.quick), one, parallel=True)
        opts = [('packages', []), ('packages', ['p']), ('package_data', {}), ('name', 'n'), ('license', None), ('py_modules', ['x']), ('data_files', [])]
        ctx.sweep('arguments', [c for n in range(len(opts) + 1) for c in itertools.combinations(opts, n)], passed)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
