"""
C42: the printing tracer shows the tree of calls as it happened.
"""
import io
import itertools
import re
import sys
import threading

from mc.core import check, same, op

PROG = [(), (), ()]
RESULT = [None, None, None]
OFF = [None]


class Failing(Exception):
    pass


class Strange(object):
    """A result which cannot be shown."""

    def __repr__(self):
        raise ValueError('no repr')


def probeF(k, how='f'):
    for step in PROG[k]:
        what, j = step
        if what == 'call':
            probeF(j)
        elif what == 'method':
            HOLDER.probeM(j)
        elif what == 'try':
            try:
                probeF(j)
            except Failing:
                pass
        elif what == 'fin':
            try:
                probeF(j)
            finally:
                j = 0
        elif what == 'other':
            try:
                probeF(j)
            except Failing:
                raise Failing()
        elif what == 'own':
            try:
                raise Failing('own', k)
            except Failing:
                pass
        elif what == 'raise':
            raise Failing('E%d' % k)
        elif what == 'gen':
            for x in probeG(j):
                probeF(j)
        elif what == 'left':
            for x in probeG(j):
                break
        elif what == 'off':
            OFF[0]()
    return RESULT[k]


class Holder(object):
    def probeM(self, k):
        return probeF(k)


class Derived(Holder):
    def __len__(self):
        return 0


HOLDER = Derived()


def probeG(k):
    yield 'y%d' % k
    yield None
    probeF(k)
    yield 'z%d' % k


def begin(k):
    try:
        probeF(k)
    except Failing:
        pass


def showing(v):
    try:
        return repr(v)
    except Exception:
        return ''


def reference(off):
    """What Python itself says happens, and how deep."""
    events = []

    def depth(frame):
        n = 0
        while frame.f_code is not begin.__code__:
            frame = frame.f_back
            n += 1
        return n

    def trace(frame, event, arg):
        name = frame.f_code.co_name
        if not name.startswith('probe') and frame.f_code is not begin.__code__:
            return None
        if event == 'call':
            shown = [name + '(', 'k=%d' % frame.f_locals['k']]
            if name == 'probeF':
                shown.append("how='f'")
            if name == 'probeM':
                shown.insert(0, 'Derived.')
            events.append(('call', depth(frame), shown))
        elif event == 'return' and arg is not None:
            events.append(('result', depth(frame), [showing(arg)]))
        elif event == 'exception':
            events.append(('error', depth(frame), [arg[0].__name__, showing(arg[1])]))
        return trace
    OFF[0] = lambda: sys.settrace(None)
    sys.settrace(trace)
    begin(0)
    begin(0)
    sys.settrace(None)
    return events


def report(text, me):
    """The lines of a report: what, indentation, text."""
    out = []
    for l in text.splitlines():
        m = re.match(r'([0-9A-F]+) ( *)(.*)$', l)
        if m is None:
            # of an object that could not be shown
            if out:
                out[-1][2] += '\n' + l
            continue
        kind = 'result' if m.group(3).startswith('<= ') else 'error' if m.group(3).startswith('^- ') else 'call'
        same(m.group(1), me, 'thread of a line', l)
        out.append([kind, len(m.group(2)), m.group(3)])
    return out


def session(t, on, off, events):
    """One session of tracing; the column in which its first call is reported."""
    buf = io.StringIO()
    out = sys.stdout
    OFF[0] = lambda: t.installed and getattr(t, off)()
    sys.stdout = buf
    try:
        getattr(t, on)()
        begin(0)
        begin(0)
        if t.installed:
            getattr(t, off)()
    finally:
        sys.settrace(None)
        threading.settrace(None)
        sys.stdout = out
    lines = report(buf.getvalue(), '%X' % id(threading.current_thread()))
    first = [i for i, l in enumerate(lines) if l[0] == 'call' and 'begin(' in l[2]]
    check(len(first) == sum(e[0] == 'call' and e[1] == 0 for e in events), 'reports of the outermost calls', buf.getvalue())
    margin = lines[first[0]][1]
    lines = lines[first[0]:]
    op(len(events))
    for n, (kind, depth, shown) in enumerate(events):
        check(n < len(lines), 'the report ends early', buf.getvalue(), events[n])
        got = lines[n]
        check((got[0], got[1]) == (kind, margin + depth), 'line %d of the report: kind and indentation' % n,
              got, (kind, margin + depth, shown), buf.getvalue())
        check(all(s in got[2] for s in shown), 'line %d of the report' % n, got, shown, buf.getvalue())
    rest = [l for l in lines[len(events):] if 'probe' in l[2] or l[0] != 'call']
    check(not rest, 'more is reported than happened', rest, buf.getvalue())
    return margin


def setup(prog, results):
    PROG[:] = prog
    RESULT[:] = [None if r is None else Strange() if r == 'strange' else r for r in results]


def programs(case):
    from epsilon.spewer import Spewer
    head, results = case
    old = sys.gettrace(), threading.gettrace()
    n = 0
    try:
        for s1 in SECOND:
            for s2 in THIRD:
                setup((head, s1, s2), results)
                events = reference(None)
                t = Spewer()
                m = session(t, 'install', 'uninstall', events)
                n += len(events)
                check(session(t, 'toggle', 'uninstall', events) == m, 'a later report begins in another column')
    finally:
        sys.settrace(old[0])
        threading.settrace(old[1])
    return head, n


def sessions(case):
    """Several sessions, with one tracer or two, ended from outside or from within the calls."""
    from epsilon.spewer import Spewer
    ways, progs, tracers, inside = case
    old = sys.gettrace(), threading.gettrace()
    ts = [Spewer() for _ in range(tracers)]
    margins = []

    def go():
        for k, ((on, off), p) in enumerate(zip(ways, progs)):
            setup(ENDING[p], ('a', None, 5))
            events = reference(None)
            margins.append(session(ts[k % tracers], on, off, events))
    try:
        if inside:
            failed = []

            def body():
                try:
                    go()
                except BaseException as e:
                    failed.append(e)
            th = threading.Thread(target=body)
            th.start()
            th.join()
            if failed:
                raise failed[0]
        else:
            go()
    finally:
        sys.settrace(old[0])
        threading.settrace(old[1])
    check(len(set(margins)) == 1, 'reports begin in different columns', margins)
    return progs, len(ways)


def deep(case):
    """Long chains of calls, returning or failing all the way."""
    from epsilon.spewer import Spewer
    n, how, catchAt, thrice = case
    old = sys.gettrace(), threading.gettrace()
    PROG[:] = []
    RESULT[:] = []
    for k in range(n):
        PROG.append((('try' if k == catchAt else 'fin' if how == 'fin' else 'call', k + 1),) * (1 + (thrice and k == 0) * 2))
        RESULT.append(k if how == 'result' else None)
    PROG.append((('raise', 0),) if how in ('raise', 'fin') else ())
    RESULT.append('end')
    try:
        events = reference(None)
        session(Spewer(), 'install', 'uninstall', events)
    finally:
        PROG[:] = [(), (), ()]
        RESULT[:] = [None] * 3
        sys.settrace(old[0])
        threading.settrace(old[1])
    return case, len(events)


FIRST = [('call', 1), ('try', 1), ('fin', 1), ('other', 1), ('gen', 1), ('left', 1), ('method', 1), ('own', 0), ('raise', 0)]
SECOND = [()] + [(a,) for a in [('call', 2), ('try', 2), ('gen', 2), ('own', 0), ('raise', 0)]] + [
    (('try', 2), ('raise', 0)), (('own', 0), ('call', 2)), (('try', 2), ('try', 2))]
THIRD = [(), (('raise', 0),), (('own', 0),)]
ENDING = {
    'plain': ((('call', 1), ('try', 1)), (('call', 2),), ()),
    'failing': ((('try', 1), ('try', 1)), (('call', 2),), (('raise', 0),)),
    'failed': ((('call', 1),), (('fin', 2),), (('raise', 0),)),
    'off': ((('call', 1), ('call', 2)), (('call', 2), ('off', 0), ('call', 2)), (('own', 0),)),
    'off-deep': ((('call', 1), ('try', 1)), (('call', 2), ('call', 2)), (('off', 0), ('raise', 0))),
    'off-first': ((('off', 0), ('call', 1)), (('raise', 0),), ()),
    'gen': ((('gen', 1), ('left', 2)), (('gen', 2),), ()),
    'gen-off': ((('gen', 1),), (('off', 0), ('gen', 2),), ()),
}


def probePlain(a, b=2):
    pass


def probeMany(a, *rest, **more):
    pass


def probeOnly(a, *, b, c=3):
    a = b = c = None


def probeWith(*given):
    class Local(object):
        pass
    return [len(str(x)) for x in ()] or None


def probeKept(a, b=7):
    def inner():
        return a, b
    return inner and None


def probeLong(a):
    return 'r' * a


CALLED = [(probePlain, (1,), {}, ['a=1', 'b=2']), (probePlain, (None, False), {}, ['a=None', 'b=False']),
          (probePlain, ('strange',), {}, ['a=', 'b=2']), (probePlain, (1, 'strange'), {}, ['a=1', 'b=']),
          (probePlain, ('x' * 5000, 3), {}, ["a='" + 'x' * 5000 + "'", 'b=3']),
          (probeMany, (1,), {}, ['a=1', 'rest=()', 'more={}']), (probeMany, (1, 2, 'x'), {'k': 5}, ['a=1', "rest=(2, 'x')", "more={'k': 5}"]),
          (probeMany, (1, 'strange'), {'k': 5}, ['a=1', "more={'k': 5}"]),
          (probeOnly, (1,), {'b': 4}, ['a=1', 'b=4', 'c=3']), (probeOnly, (1,), {'b': 'strange', 'c': 0}, ['a=1', 'c=0']),
          (probeWith, (), {}, ['given=()']), (probeWith, ([1], {}), {}, ['given=([1], {})']),
          (probeKept, (1,), {}, ['a=1', 'b=7']), (probeKept, ('strange', ()), {}, ['a=', 'b=()']),
          (probeLong, (3,), {}, ['a=3']), (probeLong, (0,), {}, ['a=0']), (probeLong, (4000,), {}, ['a=4000'])]


def arguments(case):
    """What was called with which arguments, however they are passed or shown."""
    from epsilon.spewer import Spewer
    old = sys.gettrace(), threading.gettrace()
    t = Spewer()
    buf, out = io.StringIO(), sys.stdout

    calls = [(f, [Strange() if a == 'strange' else a for a in args], {k: Strange() if a == 'strange' else a for k, a in kw.items()}, want)
             for f, args, kw, want in (CALLED[i] for i in case)]
    sys.stdout = buf
    try:
        t.install()
        for f, args, kw, want in calls:
            f(*args, **kw)
        t.uninstall()
    finally:
        sys.settrace(old[0])
        threading.settrace(old[1])
        sys.stdout = out
    lines = [l for l in report(buf.getvalue(), '%X' % id(threading.current_thread())) if 'spewer' not in l[2]]
    lines = [l for l in lines if l[0] != 'call' or l[2].startswith('probe')]
    for f, args, kw, want in calls:
        op()
        check(lines and lines[0][0] == 'call' and lines[0][2].startswith(f.__name__ + '('), 'the call of %s is not reported' % f.__name__, lines[:2])
        got = lines.pop(0)[2]
        for w in want:
            check(w in got, 'the report of a call', got, w)
        if f is probeLong:
            same(lines.pop(0)[::2], ['result', '<= %r' % ('r' * args[0])], 'the report of a result')
    same(lines, [], 'further lines')
    return case


def run(ctx):
    ctx.assumptions += ['one thread is traced at a time; tracing begins outside the calls reported',
                        'what the tracer reports of its own methods is not looked at']
    q = ctx.quick
    n = 2 if q else 3
    heads = [h for k in range(1, n + 1) for h in itertools.product(FIRST, repeat=k)]
    results = [('a', None, 5), (None, (1, 2), 'strange')] if q else list(itertools.product(('a', None), (0, None), ('strange', [])))
    ctx.sweep('programs', [(h, r) for h in heads for r in results], programs, parallel=True)
    pairs = list(itertools.product(('install', 'toggle'), ('uninstall', 'toggle')))
    cases = []
    for k in range(1, 4 if q else 5):
        for ps in itertools.product(sorted(ENDING), repeat=k):
            for i, ws in enumerate(itertools.product(pairs, repeat=k)):
                if k > 2 and i % ((29 if q else 7) if k == 3 else 31):
                    continue
                cases += [(ws, ps, t, s) for t in (1, 2) for s in (False, True)]
    ctx.sweep('arguments', [c for n in (1, 2) for c in itertools.product(range(len(CALLED)), repeat=n)], arguments)
    ctx.sweep('sessions', cases, sessions, parallel=True)
    ctx.sweep('deep', [(n, h, c, x) for n in (1, 2, 5, 20, 100) for h in ('result', 'none', 'raise', 'fin') for c in sorted(set([0, n // 2, n - 1, -1]))
                       for x in (False, True)], deep, parallel=True)
