"""
C31: signal handlers and tracers are always put back as they were.
"""
import io, itertools, os, re, signal, sys, threading

from mc.core import check, same, op

SIGS = [signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP]


class Handler(object):
    def __init__(self, tag):
        self.tag = tag
        self.calls = 0

    def __call__(self, signum, frame):
        self.calls += 1

    def __repr__(self):
        return self.tag


def services(ch):
    """Nested services over overlapping signals, started and stopped again and again."""
    from epsilon.spewer import SignalService
    saved = {s: signal.getsignal(s) for s in SIGS}
    try:
        before = [Handler('before'), signal.SIG_IGN, signal.SIG_DFL]
        now = {}
        for s, h in zip(SIGS, before):
            signal.signal(s, h)
            now[s] = h
        shared = Handler('shared')
        maps = []
        for i in range(NSERVICES):
            which = ch.choose(MAPS, 'signals of service %d' % i)
            maps.append({s: shared if kind == 's' else signal.SIG_IGN if kind == 'i' else signal.SIG_DFL if kind == 'd' else Handler('h%d' % i)
                         for s, kind in zip(SIGS, which) if kind != '-'})
        svcs = [SignalService(dict(m)) for m in maps]
        stack = []
        meddle = OTHERS
        for k in range(DEPTH):
            opts = [('start', i) for i in range(NSERVICES) if i not in [x for x, old in stack]]
            if stack:
                opts.append(('stop', stack[-1][0]))
            if meddle and stack:
                opts += [('meddle', s) for s in SIGS[:2]]
            what, i = ch.choose(opts, 'op')
            op()
            if what == 'meddle':
                # something else takes the signal over while the service runs
                meddle -= 1
                now[i] = Handler('other')
                signal.signal(i, now[i])
                ch.obs((what, i, tuple(repr(now[s]) for s in SIGS)))
                continue
            if what == 'start':
                old = {s: now[s] for s in maps[i]}
                stack.append((i, old))
                now.update(maps[i])
                svcs[i].startService()
            else:
                now.update(stack.pop()[1])
                svcs[i].stopService()
            for s in SIGS:
                h = signal.getsignal(s)
                check(h == now[s], 'handler of %s' % s.name, h, now[s], what, i)
            for j in range(NSERVICES):
                same(bool(svcs[j].running), j in [x for x, old in stack], 'service %d runs' % j)
            for s in SIGS:
                if isinstance(now[s], Handler):
                    n = now[s].calls
                    signal.raise_signal(s)
                    same(now[s].calls, n + 1, 'deliveries of %s' % s.name)
            ch.obs((what, i, tuple(repr(now[s]) for s in SIGS)))
        while stack:
            i, old = stack.pop()
            now.update(old)
            svcs[i].stopService()
            for s in SIGS:
                check(signal.getsignal(s) == now[s], 'handler of %s' % s.name, signal.getsignal(s), now[s])
        for s, h in zip(SIGS, before):
            if meddle < OTHERS:
                break          # the signal may not be one of the services'
            check(signal.getsignal(s) is h or signal.getsignal(s) == h, 'handler of %s in the end' % s.name)
    finally:
        for s in SIGS:
            signal.signal(s, saved[s])


def imperfect(case):
    """
    A map with something in it which cannot be installed, or which its owner
    changes while the service runs.
    """
    from epsilon.spewer import SignalService
    order, bad, change = case
    saved = {s: signal.getsignal(s) for s in SIGS}
    try:
        for s in SIGS:
            signal.signal(s, Handler('before'))
        before = {s: signal.getsignal(s) for s in SIGS}
        sigmap = {}
        for k, s in enumerate(order):
            if bad is not None and bad[0] == k:
                sigmap[bad[1]] = bad[2]
            sigmap[s] = Handler('mine%d' % k)
        own = dict(sigmap)
        svc = SignalService(sigmap)
        for turn in (0, 1):
            op()
            try:
                svc.startService()
            except Exception:
                check(bad is not None, 'a service failed to start')
            else:
                check(bad is None, 'a handler which cannot be installed was ignored')
                for s in SIGS:
                    check(signal.getsignal(s) is own.get(s, before[s]), 'handler of %s' % s.name)
                if change == 'clear':
                    sigmap.clear()
                elif change == 'more':
                    sigmap.update((s, Handler('later')) for s in SIGS)
                elif change == 'less':
                    del sigmap[order[0]]
            svc.stopService()
            for s in SIGS:
                check(signal.getsignal(s) is before[s], 'handler of %s after the service was stopped' % s.name, signal.getsignal(s), turn)
            own = dict(sigmap)
            if change == 'less' and turn == 0:
                sigmap[order[0]] = own[order[0]] = Handler('again')
    finally:
        for s in SIGS:
            signal.signal(s, saved[s])


# -- tracers

def probe(n):
    m = n + 1
    return m


def probe2(n):
    try:
        probe3(n)
    except ZeroDivisionError:
        n = probe(n)
    return n


def probe3(n):
    return n / 0


def tracing(ch):
    """Every sequence of operations on a tracer, seen from this and from a new thread."""
    from epsilon.spewer import Tracer
    old = sys.gettrace(), threading.gettrace()
    log = []

    class T(Tracer):
        def trace_CALL(self, frame, arg):
            if frame.f_code is probe.__code__:
                log.append(('call', frame.f_locals['n']))

        def trace_RETURN(self, frame, arg):
            if frame.f_code is probe.__code__:
                log.append(('return', arg))

        def trace_LINE(self, frame, arg):
            if frame.f_code is probe.__code__:
                log.append(('line',))
    try:
        t = T()
        on = False
        for k in range(DEPTH):
            what = ch.choose(('install', 'uninstall', 'toggle'), 'op')
            op()
            getattr(t, what)()
            on = {'install': True, 'uninstall': False, 'toggle': not on}[what]
            full = [('call', 1), ('line',), ('line',), ('return', 2)] if on else []
            del log[:]
            probe(1)
            same(log, full, 'traced after %s' % what)
            same(bool(sys.gettrace()), on, 'tracing of this thread after %s' % what)
            if ch.flag('look at a new thread', dev=True):
                del log[:]
                th = threading.Thread(target=probe, args=(1,))
                th.start()
                th.join()
                same(log, full, 'traced in a new thread after %s' % what)
            ch.obs((k, on))
        if on:
            t.uninstall()
        check(sys.gettrace() is None and threading.gettrace() is None, 'tracing in the end', sys.gettrace(), threading.gettrace())
        del log[:]
        probe(1)
        same(log, [], 'traced in the end')
    finally:
        sys.settrace(old[0])
        threading.settrace(old[1])


def twoTracers(ch):
    """
    Two tracers.  Only the tracer which is installed is uninstalled or toggled
    off: what anything else means is not specified.
    """
    from epsilon.spewer import Tracer
    old = sys.gettrace(), threading.gettrace()
    log = []

    class T(Tracer):
        def __init__(self, tag):
            self.tag = tag

        def trace_CALL(self, frame, arg):
            if frame.f_code is probe.__code__:
                log.append((self.tag, 'call'))
            return self.skip
    try:
        ts = [T(0), T(1)]
        active = None
        stale = set()
        for k in range(DEPTH):
            ops = [('install', i) for i in (0, 1)]
            if active is not None:
                ops += [('uninstall', active), ('toggle', active)]
            ops += [('toggle', i) for i in (0, 1) if i != active and i not in stale]
            what, i = ch.choose(ops, 'op')
            op()
            getattr(ts[i], what)()
            if what == 'uninstall' or (what == 'toggle' and active == i):
                active = None
                stale.discard(i)
            else:
                if active not in (None, i):
                    stale.add(active)
                active = i
                stale.discard(i)
            full = [] if active is None else [(active, 'call')]
            del log[:]
            probe(1)
            same(log, full, 'traced after %s' % what)
            del log[:]
            if NEWTHREAD or k == DEPTH - 1:
                th = threading.Thread(target=probe, args=(1,))
                th.start()
                th.join()
                same(log, full, 'traced in a new thread after %s' % what)
            ch.obs((k, active))
        for t in ts:
            t.uninstall()
        check(sys.gettrace() is None and threading.gettrace() is None, 'tracing in the end', sys.gettrace(), threading.gettrace())
    finally:
        sys.settrace(old[0])
        threading.settrace(old[1])


NEWTHREAD = False
ANSWERS = ['none', 'skip', 'other', 'false']
CODES = [probe.__code__, probe2.__code__, probe3.__code__]


def answers(case):
    """Every combination of answers of the handlers, against a plain trace function."""
    from epsilon.spewer import Tracer
    per = dict(zip(('call', 'line', 'return', 'exception'), case[:4]))
    onlyIn = case[4]
    old = sys.gettrace(), threading.gettrace()
    inst = []

    def make(log):
        def other(frame, event, arg):
            if frame.f_code in CODES:
                log.append(('other', event, frame.f_code.co_name))
            return other

        class False_(object):
            def __call__(self, frame, event, arg):
                if frame.f_code in CODES:
                    log.append(('false', event, frame.f_code.co_name))
                return self

            def __len__(self):
                return 0
        false = False_()

        def answer(frame, event, arg, skip):
            if frame.f_code not in CODES:
                return skip
            log.append((event, frame.f_code.co_name, frame.f_lineno,
                        arg if event == 'return' else arg[0].__name__ if event == 'exception' else None))
            if onlyIn is not None and frame.f_code is not CODES[onlyIn]:
                return None
            return {'none': None, 'skip': skip, 'other': other, 'false': false}[per[event]]
        return answer
    got, want = [], []
    a = make(got)

    class T(Tracer):
        def trace_CALL(self, frame, arg):
            inst.append(self)
            return a(frame, 'call', arg, self.skip)

        def trace_LINE(self, frame, arg):
            return a(frame, 'line', arg, self.skip)

        def trace_RETURN(self, frame, arg):
            return a(frame, 'return', arg, self.skip)

        def trace_EXCEPTION(self, frame, arg):
            return a(frame, 'exception', arg, self.skip)
    r = make(want)
    SKIP = object()

    def reference(frame, event, arg):
        x = r(frame, event, arg, SKIP)
        return None if x is SKIP else reference if x is None else x
    try:
        sys.settrace(reference)
        probe2(3)
        sys.settrace(None)
        t = T()
        t.install()
        probe2(3)
        t.uninstall()
    finally:
        sys.settrace(old[0])
        threading.settrace(old[1])
    op(len(got))
    same(got, want, 'events')
    check(all(x is t for x in inst), 'the tracer whose handler is called')
    return case


# -- printing

class Strange(object):
    def __repr__(self):
        raise ValueError('no repr')


def printed(case):
    from epsilon.spewer import Spewer
    nargs, defaults, star, kwonly, kwstar, method, closure, values = case
    names = ['a', 'b', 'c'][:nargs]
    params = ['%s=%d' % (n, 90 + i) if i >= nargs - defaults else n for i, n in enumerate(names)]
    if star:
        params.append('*rest')
    elif kwonly:
        params.append('*')
    if kwonly:
        params += ['k=70', 'l=71'][:kwonly]
    if kwstar:
        params.append('**more')
    if method:
        params.insert(0, 'self')
    seen = names + (['rest'] if star else []) + ['k', 'l'][:kwonly] + (['more'] if kwstar else [])
    body = '    return (lambda: (%s))() and None' % ''.join(n + ', ' for n in seen) if closure else '    pass'
    src = 'def probeF(%s):\n%s\n' % (', '.join(params), body)
    ns = {}
    exec(src, ns)
    f = ns['probeF']

    class Holder(object):
        pass
    Holder.probeF = f
    holder = Holder()
    vals = {'plain': [1, 'two', (3,)], 'odd': [None, '', {}], 'strange': [Strange(), [], 'x']}[values]
    given = vals[:nargs]
    calls = []
    full = dict(zip(names, given))
    extra = {}
    if star:
        full['rest'] = (7, 8) if nargs == len(given) else ()
    if kwonly:
        full.update(dict(zip(['k', 'l'], [70, 71][:kwonly])))
        extra['k'] = full['k'] = 'kk'
    if kwstar:
        full['more'] = {'z': 5}
        extra['z'] = 5
    args = list(given) + ([7, 8] if star else [])
    short = list(given[:nargs - defaults])
    shortFull = dict(full)
    for i in range(nargs - defaults, nargs):
        shortFull[names[i]] = 90 + i
    if star:
        shortFull['rest'] = ()
    old = sys.gettrace(), threading.gettrace()
    out = sys.stdout
    sys.stdout = buf = io.StringIO()
    t = Spewer()
    try:
        t.install()
        if method:
            holder.probeF(*args, **extra)
            holder.probeF(*short, **extra)
        else:
            f(*args, **extra)
            f(*short, **extra)
        t.uninstall()
    finally:
        sys.stdout = out
        sys.settrace(old[0])
        threading.settrace(old[1])
    lines = [l for l in buf.getvalue().splitlines() if re.search(r'(^|[ .])probeF\(', l)]
    op(2)
    same(len(lines), 2, 'calls reported', buf.getvalue())
    if values == 'strange' and nargs:
        # an argument which cannot be printed takes several lines
        text = buf.getvalue()
        for n in full:
            same(len(re.findall(r'[(,] ?%s=' % n, text)), 2, 'reports of argument %s' % n, text)
        return src, values
    for line, want in zip(lines, (full, shortFull)):
        head, rest = line.split('probeF(', 1)
        check(rest.endswith(')'), 'form of the line', line)
        rest = rest[:-1]
        if method:
            check('Holder.' in head, 'class of the method', line)
        for n, v in want.items():
            if isinstance(v, Strange):
                check((n + '=<') in rest, 'argument %s' % n, line)
            else:
                check((n + '=' + repr(v)) in rest, 'argument %s' % n, line)
        found = re.findall(r'(?:^|, )(self|a|b|c|rest|k|l|more)=', rest)
        same(sorted(found), sorted(list(want) + (['self'] if method else [])), 'arguments reported', line)
    return src, values


def returns(case):
    """Nested calls are each reported, whatever happens in them."""
    from epsilon.spewer import Spewer
    seq = case
    old = sys.gettrace(), threading.gettrace()

    def probeC(todo):
        if not todo:
            return None
        if todo[0] == 'call':
            probeC(todo[1:])
            return len(todo)
        if todo[0] == 'none':
            probeC(todo[1:])
            return None
        if todo[0] == 'catch':
            try:
                probeC(('raise',) + todo[1:])
            except KeyError:
                pass
            return 'caught'
        probeC(todo[1:])
        raise KeyError('x')
    want = []

    def model(todo):
        want.append('probeC(todo=%r)' % (todo,))
        if todo and todo[0] == 'catch':
            model(('raise',) + todo[1:])
        elif todo:
            model(todo[1:])
    model(seq)
    out = sys.stdout
    sys.stdout = buf = io.StringIO()
    t = Spewer()
    try:
        t.install()
        try:
            probeC(seq)
        except KeyError:
            pass
        t.uninstall()
    finally:
        sys.stdout = out
        sys.settrace(old[0])
        threading.settrace(old[1])
    got = [re.search(r'probeC\(.*\)$', l).group(0) for l in buf.getvalue().splitlines() if re.search(r'[ .]probeC\(', l)]
    op(len(got))
    same(got, want, 'calls reported', buf.getvalue())
    return seq


DEPTH = 4
NSERVICES = 2
MAPS = None
OTHERS = 0


def run(ctx):
    global DEPTH, NSERVICES, MAPS, OTHERS
    q = ctx.quick
    ctx.assumptions += ['only the tracer which is installed is uninstalled or toggled off', 'a service is started only when stopped and stopped only when started']
    MAPS = [''.join(x) for x in itertools.product('-hs', repeat=3)] + ['ihd', 'dih', 'hdi']
    DEPTH, NSERVICES = (6, 2) if q else (8, 2)
    ctx.explore('signal-services', services, parallel=True)
    MAPS = ['hhh', 'h-s', '-hs', 's--', 'sih'] if q else MAPS[::2]
    DEPTH, NSERVICES = (6, 3)
    ctx.explore('three-services', services, parallel=True)
    MAPS, OTHERS = ['h--', '-h-', 'hh-', 'si-', 'ss-'], 1 if q else 2
    DEPTH, NSERVICES = (5, 2)
    ctx.explore('taken-over', services, parallel=True)
    OTHERS = 0
    orders = [o for n in (1, 2, 3) for o in itertools.permutations(SIGS, n)]
    ctx.sweep('imperfect', [(o, (k, s, h), None) for o in orders for k in range(len(o)) for s, h in
                            [(signal.SIGKILL, signal.SIG_IGN), (100000, Handler('x')), (signal.SIGALRM, 'not a handler'), (signal.SIGALRM, None), ('SIGALRM', signal.SIG_IGN)]]
              + [(o, None, c) for o in orders for c in ('clear', 'more', 'less', None)], imperfect)
    DEPTH = 6 if q else 8
    ctx.explore('tracer', tracing, maxdev=2, parallel=True)
    DEPTH = 5 if q else 7
    ctx.explore('two-tracers', twoTracers, parallel=True)
    ctx.sweep('answers', [a + (o,) for a in itertools.product(ANSWERS, repeat=4) for o in (None, 0, 1, 2)], answers)
    ctx.sweep('printed', [(n, d, s, k, w, m, c, v) for n in range(4) for d in range(n + 1) for s in (False, True) for k in (0, 1, 2)
                          for w in (False, True) for m in (False, True) for c in (False, True) for v in ('plain', 'odd', 'strange')
                          if not (s and d and False)], printed, parallel=True)
    ctx.sweep('nested', [s for n in range(5 if q else 7) for s in itertools.product(('call', 'none', 'catch', 'raise'), repeat=n)], returns, parallel=True)
