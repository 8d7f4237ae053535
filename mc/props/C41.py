"""
C41: plugin modules are found whatever else is broken, and an installation
refreshes the plugin caches.
"""
import contextlib, gc, importlib, io, itertools, os, pickle, shutil, sys, tempfile

from mc.core import check, same, op
from mc.props import C33

BASE = None
SERIAL = itertools.count()

PLUGIN = '''from zope.interface import implementer
from twisted.plugin import IPlugin
@implementer(IPlugin)
class P(object):
    tag = %r
p = P()
'''
BROKEN = {'value': 'raise ValueError("no")\n', 'import': 'import nothing_of_that_name\n', 'syntax': 'def (:\n', 'key': 'raise KeyError(3)\n',
          'empty': 'raise ValueError("Empty module name")\n', 'attr': 'import os\nos.nothing_like_it\n', 'type': 'raise TypeError\n',
          'exit': 'raise SystemExit(0)\n', 'quits': 'import sys\nsys.exit("no")\n', 'bare': 'raise ValueError()\n', 'number': 'raise ValueError(None, 3)\n'}
PACKAGE = 'from twisted.plugin import pluginPackagePaths\n__path__.extend(pluginPackagePaths(__name__))\n__all__ = []\n'


def write(path, text=''):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=BASE)
    cwd, path, mods = os.getcwd(), list(sys.path), set(sys.modules)
    out, err, dont = sys.stdout, sys.stderr, sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield d
    finally:
        sys.stdout, sys.stderr, sys.dont_write_bytecode = out, err, dont
        os.chdir(cwd)
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            if m.startswith('mcp'):
                del sys.modules[m]
        sys.path_importer_cache.clear()
        importlib.invalidate_caches()
        shutil.rmtree(d, ignore_errors=True)


KINDS = ['good', 'other', 'package', 'missing', 'missing-sub', 'value', 'import', 'syntax', 'empty-value', '', '.', 'a..b', 'bare', 'exit', 'quits', 'key', 'attr', 'type', 'number']


def modules(case):
    """Every list of names, looked at to every point."""
    kinds, stop = case
    from epsilon.setuphelper import pluginModules
    with scratch() as d:
        u = 'mcp%d_%d' % (os.getpid(), next(SERIAL))
        write(os.path.join(d, u, '__init__.py'))
        write(os.path.join(d, u, 'good.py'), 'x = 1\n')
        write(os.path.join(d, u, 'other.py'), 'x = 2\n')
        write(os.path.join(d, u, 'plugins', '__init__.py'), 'x = 3\n')
        for k, v in BROKEN.items():
            write(os.path.join(d, u, 'broken_%s.py' % k), v)
        sys.path.insert(0, d)
        importlib.invalidate_caches()
        name = {'good': u + '.good', 'other': u + '.other', 'package': u + '.plugins', 'missing': u + 'nothere', 'missing-sub': u + '.nothere.plugins',
                'empty-value': u + '.broken_empty'}
        for k in BROKEN:
            name[k] = u + '.broken_' + k
        want = [{'good': 1, 'other': 2, 'package': 3}[k] for k in kinds if k in ('good', 'other', 'package')]
        names = [name.get(k, k) for k in kinds]
        given = list(names)
        op()
        it = iter(pluginModules(names))
        got = []
        if stop is None:
            got = list(it)
        else:
            for k in range(min(stop, len(want))):
                got.append(next(it))
            want = want[:stop]
            if hasattr(it, 'close'):
                it.close()
            same(list(it), [], 'modules after the search was abandoned')
        same([getattr(m, 'x', None) for m in got], want, 'modules found for %r' % (kinds,))
        check(all(m is sys.modules.get(m.__name__) for m in got), 'modules', got)
        same(names, given, 'list of names')
    return len(got)


class Install(object):
    pass


class Dist(object):
    def get_command_obj(self, command, create=1):
        return self.command_obj.get(command)

    get_option_dict = lambda self, command: {}

    @property
    def have_run(self):
        return dict.fromkeys(self.command_obj, 1)


def tree(parent, name, plugins):
    for p, kind in plugins:
        write(os.path.join(parent, name, 'plugins', p + '.py'), PLUGIN % (kind,) if kind in ('good', 'new') else BROKEN[kind])


def install(case):
    """
    An automatic setup whose installation is played by copying the files, with
    the packages the plugins are for installed before.
    """
    packages, commands, shadow, stale = case
    from epsilon import setuphelper
    with scratch() as d:
        src, lib, old = [os.path.join(d, x) for x in ('src', 'lib', 'old')]
        for x in (src, lib, old):
            os.mkdir(x)
        u = 'mcp%d_%d' % (os.getpid(), next(SERIAL))
        names = []
        for k, (state, plugins) in enumerate(packages):
            name = u + 'abc'[k]
            names.append(name)
            os.makedirs(os.path.join(src, name, 'plugins'))
            tree(src, name, plugins)
            if state != 'absent':
                write(os.path.join(lib, name, '__init__.py'), '' if state == 'ok' else BROKEN['value'])
                write(os.path.join(lib, name, 'plugins', '__init__.py'), PACKAGE)
            if stale and state == 'ok':
                # the cache of an earlier version, with a plugin gone since
                with open(os.path.join(lib, name, 'plugins', 'dropin.cache'), 'wb') as f:
                    f.write(pickle.dumps({}))
                os.utime(f.name, (1, 1))
            if shadow:
                # another copy further down the path
                write(os.path.join(old, name, '__init__.py'), 'raise RuntimeError("the old one")\n')
                write(os.path.join(old, name, 'plugins', '__init__.py'), PACKAGE)
        if shadow:
            sys.path.insert(0, old)
        before = list(sys.path)
        importlib.invalidate_caches()

        def setup(**kw):
            calls.append(kw)
            if 'install' in commands:
                for name in names:
                    for f in os.listdir(os.path.join(src, name, 'plugins')):
                        os.makedirs(os.path.join(lib, name, 'plugins'), exist_ok=True)
                        shutil.copy(os.path.join(src, name, 'plugins', f), os.path.join(lib, name, 'plugins', f))
                importlib.invalidate_caches()
            dist = Dist()
            dist.commands = list(commands)
            dist.command_obj = {}
            for c in commands:
                dist.command_obj[c] = Install()
                # as given by the user, maybe relative
                dist.command_obj[c].install_lib = lib if not stale else os.path.relpath(lib, src)
            return dist
        calls = []
        os.chdir(src)
        op()
        C33.RECORD.hook = setup
        try:
            dist = setuphelper.autosetup(name='thing')
        finally:
            C33.RECORD.hook = None
        check(isinstance(dist, Dist), 'result')
        same(len(calls), 1, 'calls of setup')
        same(sorted(calls[0]['packages']), sorted(names), 'packages')
        for name, (state, plugins) in zip(names, packages):
            for where in (src, old):
                check(not os.path.exists(os.path.join(where, name, 'plugins', 'dropin.cache')), 'a cache beside the installation', where)
            cache = os.path.join(lib, name, 'plugins', 'dropin.cache')
            if 'install' in commands and state == 'ok':
                good = sorted(p for p, kind in plugins if kind in ('good', 'new'))
                if good or os.path.exists(cache):
                    check(os.path.exists(cache), 'no cache was written for %s' % name, packages)
                    with open(cache, 'rb') as f:
                        data = pickle.load(f)
                    same(sorted(data), good, 'plugin modules in the cache of %s' % name)
                    for k in data:
                        same([p.name for p in data[k].plugins], ['p'], 'plugins of %s' % k)
            elif 'install' not in commands:
                check(not os.path.exists(cache) or stale and state == 'ok', 'a cache although nothing was installed')
                if os.path.exists(cache):
                    with open(cache, 'rb') as f:
                        same(pickle.load(f), {}, 'the cache although nothing was installed')
        if 'install' not in commands:
            same(sys.path, before, 'the search path')
    return packages, commands


def run(ctx):
    global BASE
    C33.load()
    from twisted.logger import globalLogBeginner
    globalLogBeginner.beginLoggingTo([lambda e: None], redirectStandardIO=False, discardBuffer=True)
    ctx.assumptions += ['setup itself is played by copying the files; module names are new in each case, so nothing is imported already',
                        'plugin packages extend their path as the plugin system asks for']
    q = ctx.quick
    BASE = os.path.realpath(tempfile.mkdtemp(prefix='mc-c41-'))
    try:
        n = 3 if q else 4
        few = ['good', 'other', 'missing', 'value', '', 'a..b', 'syntax', 'bare']
        lists = [l for k in range(n) for l in itertools.product(KINDS, repeat=k)] + [l for l in itertools.product(few, repeat=n)]
        cases = []
        for l in lists:
            goods = sum(k in ('good', 'other', 'package') for k in l)
            for stop in [None] + list(range(goods + 1)):
                cases.append((l, stop))
        ctx.sweep('modules', cases, modules, parallel=True)
        kinds = ['good', 'value', 'import', 'syntax']
        sets = [tuple(zip(('one', 'two', 'three'), c)) for r in range(1, 3 if q else 4) for c in itertools.product(kinds, repeat=r)]
        packs = [(s, p) for s in ('ok', 'absent', 'broken') for p in (sets if s == 'ok' else sets[:5])]
        cases = []
        for c in (('install',), ('build', 'install'), ('build',), (), ('install', 'upload')):
            for shadow in (False, True):
                for stale in (False, True):
                    cases.append(((), c, shadow, stale))
                    for a in packs:
                        cases.append(((a,), c, shadow, stale))
                    pairs = packs if 'install' in c and not q else packs[:3] + [('absent', sets[0]), ('broken', sets[0])]
                    for a, b in itertools.product(pairs, repeat=2) if c != ('install', 'upload') else ():
                        cases.append(((a, b), c, shadow, stale))
        ctx.sweep('install', cases, install, parallel=True)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
