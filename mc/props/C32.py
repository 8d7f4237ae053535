"""
C32: hotfixes are applied once, only when needed, and unknown ones are refused.

The defect each hotfix is for is simulated in the installed Twisted; the
hotfix's own install() is replaced by one that records, repairs or fails.
"""
import contextlib, importlib, itertools, sys, types

from mc.core import check, same, op

MISSING = object()


class Patch(object):
    """Sets attributes and puts them back."""

    def __init__(self):
        self.undo = []

    def set(self, obj, name, value):
        self.undo.append((obj, name, vars(obj).get(name, MISSING)))
        if value is MISSING:
            if name in vars(obj):
                delattr(obj, name)
        else:
            setattr(obj, name, value)

    def restore(self):
        while self.undo:
            obj, name, old = self.undo.pop()
            if old is MISSING:
                if name in vars(obj):
                    delattr(obj, name)
            else:
                setattr(obj, name, old)


def breakFilepath(p):
    from twisted.python import filepath
    p.set(filepath.FilePath, '__eq__', object.__eq__)
    p.set(filepath.FilePath, '__ne__', object.__ne__)
    p.set(filepath.FilePath, '__hash__', object.__hash__)


def breakTimeout(p):
    from twisted.protocols import policies
    p.set(policies.TimeoutMixin, 'callLater', MISSING)


def breakDelayedCall(p):
    from twisted.internet import base

    real = base.DelayedCall.__init__

    def __init__(self, time, func, args, kw, cancel, reset, *more):
        real(self, time, func, args, kw, cancel, reset, *more)
    p.set(base.DelayedCall, '__init__', __init__)


def generators(value):
    def fix(p):
        from twisted.internet import defer

        class waitForDeferred(object):
            def __init__(self, d):
                d.addCallback(lambda x: setattr(self, 'result', x))

            def getResult(self):
                return self.result if value == 1 else None

        def deferredGenerator(f):
            def run(*a, **k):
                for x in f(*a, **k):
                    pass
            return run
        p.set(defer, 'waitForDeferred', waitForDeferred)
        p.set(defer, 'deferredGenerator', deferredGenerator)
    return fix


def breakTransport(p):
    from twisted.test import proto_helpers
    p.set(proto_helpers.StringTransport, 'write', lambda self, data: None)


def breakClock(p):
    from twisted.internet import task
    real = task.Clock.callLater

    def callLater(self, *a, **k):
        real(self, *a, **k)
        return self.calls[-1]
    p.set(task.Clock, 'callLater', callLater)


def breakWarns(p):
    from twisted.trial import unittest
    for c in unittest.TestCase.__mro__:
        if 'failUnlessWarns' in vars(c):
            p.set(c, 'failUnlessWarns', MISSING)


def breakPlugin(p):
    import twisted.plugin
    p.set(twisted.plugin, 'pluginPackagePaths', MISSING)


def breakLoopback(p):
    import twisted
    from incremental import Version
    p.set(twisted, 'version', Version('Twisted', 8, 1, 0))


FIXES = {
    'filepath_copyTo': ('filepath_copyTo', breakFilepath),
    'timeoutmixin_calllater': ('timeoutmixin_calllater', breakTimeout),
    'delayedcall_seconds': ('delayedcall_seconds', breakDelayedCall),
    'deferredgenerator_tfailure': ('deferredgenerator_tfailure', generators(1)),
    'proto_helpers_stringtransport': ('proto_helpers_stringtransport', breakTransport),
    'internet_task_Clock': ('internet_task_clock', breakClock),
    'trial_assertwarns': ('trial_assertwarns', breakWarns),
    'plugin_package_paths': ('plugin_package_paths', breakPlugin),
    'loopbackasync_reentrancy': ('loopbackasync_reentrancy', breakLoopback),
}
NAMES = sorted(FIXES)
UNKNOWN = [('twisted', 'nope'), ('other', 'filepath_copyTo'), ('', ''), ('twisted', 'Filepath_copyTo'), ('twisted', 'filepath_copyTo '),
           ('twisted', 'internet_task_clock'), ('Twisted', 'trial_assertwarns'), ('twisted', ''), (None, None), ('twisted', None),
           ('filepath_copyTo', 'twisted'), ('twisted', 'twisted'), ('epsilon', 'plugin_package_paths'), ('twisted', 'install')]


_affected = None


def affected():
    """Everything a hotfix may patch."""
    import twisted, twisted.plugin
    from twisted.python import filepath
    from twisted.protocols import policies, loopback
    from twisted.internet import base, defer, task
    from twisted.test import proto_helpers
    from twisted.trial import unittest
    global _affected
    if _affected is None:
        _affected = [twisted, twisted.plugin, filepath, filepath.FilePath, policies, policies.TimeoutMixin, loopback, base, base.DelayedCall,
            defer, task, task.Clock, proto_helpers, proto_helpers.StringTransport, unittest.TestCase] + list(unittest.TestCase.__mro__[1:-1])
    return _affected


def snapshot():
    return [{k: id(v) for k, v in vars(o).items() if k not in ('__warningregistry__',)} for o in affected()]


class Broken(Exception):
    pass


@contextlib.contextmanager
def fresh():
    """A hotfix module which has not been asked for anything yet."""
    saved = sys.modules.get('epsilon.hotfix')
    import epsilon
    savedAttr = vars(epsilon).get('hotfix')
    sys.modules.pop('epsilon.hotfix', None)
    try:
        yield importlib.import_module('epsilon.hotfix')
    finally:
        if saved is not None:
            sys.modules['epsilon.hotfix'] = saved
            epsilon.hotfix = savedAttr


class Stub(object):
    """Replaces a hotfix's install()."""

    def __init__(self, p, world, name):
        import epsilon.hotfixes as pkg
        self.calls = 0
        module, self.breaker = FIXES[name]
        self.mode = 'repair'
        self.fails = 0
        full = 'epsilon.hotfixes.' + module
        m = sys.modules.get(full)
        if m is None:
            m = types.ModuleType(full)
            world.modules.append((full, sys.modules.get(full)))
            sys.modules[full] = m
            p.set(pkg, module, m)
        p.set(m, 'install', self.install)

    def install(self):
        self.calls += 1
        if self.fails:
            self.fails -= 1
            raise Broken('install failed')
        if self.mode == 'repair':
            self.broken.restore()


class World(object):
    def __init__(self):
        self.modules = []
        self.p = Patch()
        self.stubs = {n: Stub(self.p, self, n) for n in NAMES}

    def defect(self, name):
        s = self.stubs[name]
        s.broken = Patch()
        s.breaker(s.broken)

    def close(self):
        for s in self.stubs.values():
            if hasattr(s, 'broken'):
                s.broken.restore()
        self.p.restore()
        for full, old in self.modules:
            if old is None:
                sys.modules.pop(full, None)
            else:
                sys.modules[full] = old


def attempt(hotfix, pkg, name):
    op()
    try:
        r = hotfix.require(pkg, name)
    except Broken:
        return 'broken'
    except hotfix.NoSuchHotfix:
        return 'unknown'
    check(r is None, 'result of require', r)
    return 'ok'


def histories(ch):
    """Requests in every order, in every world."""
    w = World()
    try:
        present = set()
        for n in SUBJECTS:
            if ch.flag('defect ' + n):
                w.defect(n)
                present.add(n)
                w.stubs[n].mode = ch.choose(('repair', 'record'), 'install')
                w.stubs[n].fails = ch.choose(2, 'failures first')
        with fresh() as hotfix:
            done = set()
            applied = {n: 0 for n in NAMES}
            fails = {n: w.stubs[n].fails for n in NAMES}
            for k in range(DEPTH):
                pkg, name = ch.choose([('twisted', n) for n in SUBJECTS] + UNKNOWN[:UNKNOWNS], 'require')
                before = snapshot()
                got = attempt(hotfix, pkg, name)
                if pkg != 'twisted' or name not in FIXES:
                    same(got, 'unknown', 'requiring %r' % ((pkg, name),))
                    check(snapshot() == before, 'an unknown hotfix changed the library')
                elif name in done or name not in present:
                    same(got, 'ok', 'requiring %s again or needlessly' % name)
                    check(snapshot() == before, 'requiring %s changed a library which does not need it' % name)
                    done.add(name)
                elif fails[name]:
                    fails[name] -= 1
                    applied[name] += 1
                    same(got, 'broken', 'requiring %s, whose installation fails' % name)
                else:
                    applied[name] += 1
                    same(got, 'ok', 'requiring %s' % name)
                    done.add(name)
                for n in NAMES:
                    same(w.stubs[n].calls, applied[n], 'installations of %s' % n)
                ch.obs((got, tuple(sorted(done)), tuple(sorted(applied.items()))))
    finally:
        w.close()


def single(case):
    """Every hotfix by itself: with and without its defect, or with another's, required again and again."""
    name, defects, others = case
    w = World()
    try:
        for d in defects:
            w.defect(d)
        with fresh() as hotfix:
            for o in others:
                attempt(hotfix, 'twisted', o)
            before = snapshot()
            n0 = {n: w.stubs[n].calls for n in NAMES}
            same([attempt(hotfix, 'twisted', name) for i in range(3)], ['ok'] * 3, 'requiring %s' % name)
            for n in NAMES:
                want = 1 if n == name and name in defects and name not in others else 0
                same(w.stubs[n].calls - n0[n], want, 'installations of %s' % n)
            if name not in defects:
                check(snapshot() == before, 'a library which does not need %s was changed' % name)
            for pkg, u in UNKNOWN:
                same([attempt(hotfix, pkg, u) for i in range(2)], ['unknown'] * 2, 'requiring %r' % ((pkg, u),))
        return case
    finally:
        w.close()


def notDefective(case):
    """The generator hotfix where the library behaves."""
    w = World()
    p = Patch()
    try:
        generators(None)(p)
        with fresh() as hotfix:
            same(attempt(hotfix, 'twisted', 'deferredgenerator_tfailure'), 'ok', 'requiring it')
            same(w.stubs['deferredgenerator_tfailure'].calls, 0, 'installations')
        return case
    finally:
        p.restore()
        w.close()


def versions(case):
    """The hotfix which goes by the version of the library: fixed in 8.2."""
    major, minor = case
    import twisted
    from incremental import Version
    w = World()
    p = Patch()
    w.stubs['loopbackasync_reentrancy'].mode = 'record'
    try:
        p.set(twisted, 'version', Version('Twisted', major, minor, 0))
        with fresh() as hotfix:
            for i in range(2):
                same(attempt(hotfix, 'twisted', 'loopbackasync_reentrancy'), 'ok', 'requiring it')
            same(w.stubs['loopbackasync_reentrancy'].calls, int(case < (8, 2)), 'installations with version %d.%d' % case)
        return case
    finally:
        p.restore()
        w.close()


def pluginPaths(case):
    """The plugin search path which the hotfix supplies is that of the repaired library."""
    import os, shutil, tempfile
    import twisted.plugin
    packages, name, order = case
    from epsilon.hotfixes import plugin_package_paths
    base = tempfile.mkdtemp(prefix='mc-c32-')
    saved = list(sys.path)
    try:
        dirs = []
        for i, kind in enumerate(packages):
            d = os.path.join(base, str(i))
            os.mkdir(d)
            dirs.append(d)
            if kind != 'none':
                sub = os.path.join(d, *name.split('.'))
                os.makedirs(sub)
                if kind != 'dir':
                    open(os.path.join(sub, kind), 'w').close()
        sys.path[:] = [dirs[i] for i in order]
        op()
        same(plugin_package_paths.pluginPackagePaths(name), twisted.plugin.pluginPackagePaths(name), 'plugin directories of %s' % name)
        same(plugin_package_paths.pluginPackagePaths(name),
             [os.path.join(dirs[i], *name.split('.')) for i in order if packages[i] != '__init__.py'], 'plugin directories of %s' % name)
        return case
    finally:
        sys.path[:] = saved
        shutil.rmtree(base)


def realInstall(case):
    """The hotfixes which can really be installed here repair what they are for."""
    name = case
    p = Patch()
    keep = Patch()
    try:
        import twisted.plugin
        from twisted.internet import task
        from twisted.trial import unittest
        from twisted.protocols import loopback
        for obj, attrs in ((twisted.plugin, ['pluginPackagePaths']), (unittest.TestCase, ['failUnlessWarns', 'assertWarns']),
                           (task.Clock, ['callLater']), (loopback, ['_loopbackAsyncContinue'])):
            for a in attrs:
                keep.undo.append((obj, a, vars(obj).get(a, MISSING)))
        FIXES[name][1](p)
        with fresh() as hotfix:
            op()
            hotfix.require('twisted', name)
            if name == 'plugin_package_paths':
                f = twisted.plugin.pluginPackagePaths
                same(len(f('no.such.package')), len(sys.path), 'plugin paths')
                check(all(x.endswith('no/such/package') for x in f('no.such.package')), 'plugin paths')
            elif name == 'trial_assertwarns':
                import warnings

                class T(unittest.TestCase):
                    def test(self):
                        pass
                t = T('test')

                def warn():
                    warnings.warn('message', UserWarning, stacklevel=1)
                    return 5
                check(hasattr(t, 'failUnlessWarns'), 'the missing assertion')
            elif name == 'loopbackasync_reentrancy':
                same(loopback._loopbackAsyncContinue.__module__, 'epsilon.hotfixes.loopbackasync_reentrancy', 'patched function')
            snap = snapshot()
            hotfix.require('twisted', name)
            check(snapshot() == snap, 'required again')
        return case
    finally:
        keep.restore()
        p.restore()


def importFails(case):
    """A hotfix that cannot even be imported is reported every time."""
    name, times = case
    w = World()
    try:
        module = 'epsilon.hotfixes.' + FIXES[name][0]
        import epsilon.hotfixes as pkg
        w.defect(name)
        saved = sys.modules.get(module)
        attr = vars(pkg).pop(FIXES[name][0], MISSING)
        sys.modules[module] = None
        try:
            with fresh() as hotfix:
                for i in range(times):
                    op()
                    try:
                        hotfix.require('twisted', name)
                    except ImportError:
                        pass
                    else:
                        check(False, 'a failure to apply %s was not reported' % name)
                sys.modules[module] = saved
                if attr is not MISSING:
                    setattr(pkg, FIXES[name][0], attr)
                same(attempt(hotfix, 'twisted', name), 'ok', 'requiring it once it can be imported')
                same(w.stubs[name].calls, 1, 'installations')
        finally:
            sys.modules[module] = saved
            if attr is not MISSING:
                setattr(pkg, FIXES[name][0], attr)
        return case
    finally:
        w.close()


DEPTH = 3
SUBJECTS = []
UNKNOWNS = 3


def run(ctx):
    global DEPTH, SUBJECTS, UNKNOWNS
    q = ctx.quick
    ctx.assumptions += ['the defects are simulated in the installed Twisted; installing is replaced by a stand-in except where the hotfix can really be installed']
    affected()
    for n in NAMES:
        try:
            importlib.import_module('epsilon.hotfixes.' + FIXES[n][0])
        except Exception:
            pass
    from epsilon import hotfix
    ctx.sweep('single', [(n, d, o) for n in NAMES for d in itertools.chain([()], [(x,) for x in NAMES], [tuple(NAMES)])
                         for o in itertools.chain([()], [(x,) for x in NAMES])], single, parallel=True)
    ctx.sweep('not-defective', [0], notDefective)
    ctx.sweep('versions', [(a, b) for a in (0, 1, 2, 7, 8, 9, 10, 26) for b in (0, 1, 2, 3, 4, 10)], versions)
    kinds = ('none', 'dir', '__init__.py', '__init__.pyc', 'plugin.py')
    ctx.sweep('plugin-paths', [(k, n, o) for k in itertools.product(kinds, repeat=2) for n in ('a', 'a.plugins', 'a.b.plugins')
                               for o in ((), (0,), (0, 1), (1, 0), (0, 1, 0))], pluginPaths)
    ctx.sweep('real-install', ['plugin_package_paths', 'trial_assertwarns', 'loopbackasync_reentrancy'], realInstall)
    # the clock hotfix is imported to find out whether it is needed
    ctx.sweep('import-fails', [(n, t) for n in NAMES for t in (1, 2, 3)], importFails)
    UNKNOWNS = 3 if q else 5
    DEPTH = 3 if q else 4
    groups = [NAMES[i:i + 2] for i in range(0, len(NAMES) - 1)] if not q else [NAMES[i:i + 2] for i in range(0, len(NAMES), 2)]
    for g in groups:
        SUBJECTS = g
        ctx.explore('histories ' + '+'.join(g), histories, parallel=True)
