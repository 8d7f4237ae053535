"""
A small stateless model checker for Python code, in two modes.

explore(): a *scenario* is a function of a Chooser.  Everything that can differ
between two runs (which operation comes next, which pending event is delivered,
how a stream is cut, which answer the environment gives, which thread runs) is
asked of the chooser.  The explorer enumerates every sequence of answers, depth
first, optionally bounded in the number of deviations from the default answer,
re-executing the scenario on fresh objects of the real code for each sequence.

sweep(): every element of a finite, fully enumerated space of inputs is run
through the real code and compared with a reference model.

Every execution is compared with a reference model by the scenario itself,
which raises Violation on disagreement.  Any exception which the scenario does
not expect is a violation as well, and so is an execution that does not end.
"""
import os, sys, json, time, signal, hashlib, traceback, resource
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)


RAISED = []              # the violations of the execution being run


class Violation(Exception):
    """
    The property does not hold on this execution.  Noted when it is created:
    one found in a callback of the code under test counts even if that code
    catches, logs or drops what its callbacks raise.
    """

    def __init__(self, *args):
        Exception.__init__(self, *args)
        RAISED.append(self)


class Divergence(Exception):
    """The same choices led to a different execution."""


def short(x, n=2000):
    try:
        s = x if isinstance(x, str) else repr(x)
    except BaseException as e:
        s = '<unprintable %s: %s>' % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...[%d more]' % (len(s) - n)


def digest(x):
    return hashlib.blake2b(
        (x if isinstance(x, str) else repr(x)).encode('utf-8', 'surrogatepass'),
        digest_size=8).digest()


def check(cond, msg, *detail):
    if not cond:
        raise Violation(msg + (': ' + '; '.join(short(d) for d in detail) if detail else ''))


def same(got, want, msg, *detail):
    if got != want:
        raise Violation('%s: got %s, expected %s%s' % (
            msg, short(got), short(want),
            (' [' + '; '.join(short(d) for d in detail) + ']') if detail else ''))


class Counters:
    """What has been covered; merged over worker processes."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.maxdepth = 0
        self.samples = []
        self.known = {}

    def export(self):
        return (self.states, self.outcomes, self.transitions, self.traces,
                self.maxdepth, self.samples[:3], self.known)

    def merge(self, t):
        self.states |= t[0]
        self.outcomes |= t[1]
        self.transitions += t[2]
        self.traces += t[3]
        self.maxdepth = max(self.maxdepth, t[4])
        self.samples = (self.samples + t[5])[:3]
        self.known.update(t[6])


CUR = Counters()         # counters of the harness being run in this process
_ctx = None              # the Ctx of this process


def op(n=1):
    """Count operations applied to the code under test."""
    CUR.transitions += n


def known(key, msg):
    """
    Report a failure identified by C{key}: silently recorded when the
    known-findings file lists exactly that key, a violation otherwise.
    """
    if key in _ctx.knownKeys:
        CUR.known[key] = msg
        return
    raise Violation('%s [%s]' % (msg, key))


class Chooser:
    def __init__(self, prefix, maxdev):
        self.prefix = prefix
        self.maxdev = maxdev
        self.taken = []
        self.widths = []
        self.devs = []
        self.labels = []
        self.trace = []
        self.obsdigest = hashlib.blake2b(digest_size=8)
        self.last = None

    def choose(self, options, label='', dev=False):
        """
        Return one of the options (a sequence, or a number n for range(n)).
        With dev=True any answer but the first is a deviation, and the
        harness's deviation bound applies.
        """
        if isinstance(options, int):
            options = range(options)
        n = len(options)
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence('choice %d out of %d at %d (%s)' % (c, n, i, label))
        else:
            c = 0
        self.taken.append(c)
        self.widths.append(n)
        self.devs.append(bool(dev))
        got = options[c]
        if len(self.trace) < 400:
            self.trace.append('%s=%s' % (label, short(got, 80)) if label else short(got, 80))
        CUR.transitions += 1
        return got

    def flag(self, label='', dev=False):
        return self.choose((False, True), label, dev)

    def obs(self, x):
        """Record an observed state (must be deterministic)."""
        d = digest(x)
        CUR.states.add(d)
        self.obsdigest.update(d)
        self.last = x

    def note(self, x):
        if len(self.trace) < 400:
            self.trace.append(short(x, 120))

    def used(self, upto):
        return sum(1 for i in range(upto) if self.devs[i] and self.taken[i])

    def nextPrefix(self, floor):
        """The next prefix in depth-first order which keeps the first floor choices."""
        for i in range(len(self.taken) - 1, floor - 1, -1):
            c = self.taken[i] + 1
            if c < self.widths[i]:
                if self.maxdev is not None and self.devs[i] and self.used(i) + 1 > self.maxdev:
                    continue
                return self.taken[:i] + [c]
        return None


class Alike(object):
    """Instances of one class are all equal, hash alike and are false."""

    def __eq__(self, other):
        return type(self) is type(other)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def __bool__(self):
        return False


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, out, limit):
        self.prop = prop
        self.tier = tier
        self.quick = tier != 'thorough'
        self.seed = seed
        self.out = out
        self.t0 = time.time()
        self.total = Counters()
        self.harnesses = {}
        self.assumptions = []
        self.knownKeys = {}
        self.logged = []
        self.replay = None
        self.limit = limit
        self.current = None      # (harness, what) being executed, for the watchdog
        self.exhaustive = True
        try:
            with open(KNOWN) as f:
                for e in json.load(f)['known']:
                    if e['property'] == prop:
                        self.knownKeys[e['key']] = e['what']
        except FileNotFoundError:
            pass

    # -- reporting

    def replayPath(self):
        return os.path.join(EVIDENCE, 'replay-%s.json' % (self.prop,))

    def violationRecord(self, harness, payload, msg, trace=()):
        rec = dict(property=self.prop, harness=harness, message=short(msg, 6000),
                   trace=list(trace)[:400], tier=self.tier)
        rec.update(payload)
        return rec

    def writeEvidence(self, violations=0):
        t = self.total
        samples = []
        for name, h in self.harnesses.items():
            for s in h['samples'][:2]:
                samples.append({'harness': name, 'case': s})
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
            coverage=dict(
                states=len(t.states), transitions=t.transitions,
                traces_validated_against_impl=t.traces,
                distinct_outcomes=len(t.outcomes), max_depth=t.maxdepth,
                exhaustive=bool(self.exhaustive and not violations),
                harnesses={n: {k: v for k, v in h.items() if k != 'samples'}
                           for n, h in self.harnesses.items()},
                samples=samples[:24] or ['(none)']),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 3), violations=violations)
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=short)
            f.write('\n')
        os.replace(tmp, os.path.join(EVIDENCE, self.prop + '.json'))

    def fail(self, rec):
        os.makedirs(EVIDENCE, exist_ok=True)
        path = self.replayPath()
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=short)
            f.write('\n')
        self.writeEvidence(violations=1)
        self.out.write('%s: %s\n' % (rec['harness'], rec['message']))
        for s in rec.get('trace', ())[:60]:
            self.out.write('   %s\n' % (s,))
        self.out.write('VIOLATION property=%s replay=%s\n' % (self.prop, path))
        self.out.flush()

    # -- watchdog

    def guard(self, harness, payload):
        self.current = (harness, payload)
        signal.setitimer(signal.ITIMER_REAL, self.limit)

    def unguard(self):
        signal.setitimer(signal.ITIMER_REAL, 0)
        self.current = None

    # -- running one execution

    def runOne(self, name, scenario, prefix, maxdev):
        ch = Chooser(prefix, maxdev)
        # filled in place, so the watchdog sees how far it got
        self.guard(name, ch)
        err = None
        del RAISED[:]
        try:
            scenario(ch)
            if RAISED:
                raise RAISED[0]
        except Violation as e:
            err = str(e)
        except Divergence as e:
            err = 'the code under test did not behave the same way twice: %s' % (e,)
        except Exception as e:
            err = 'unexpected %s: %s\n%s' % (
                type(e).__name__, short(str(e), 500), traceback.format_exc(limit=-8))
        except (SystemExit, GeneratorExit) as e:
            err = 'unexpected %s\n%s' % (type(e).__name__, traceback.format_exc(limit=-8))
        finally:
            self.unguard()
        CUR.traces += 1
        CUR.maxdepth = max(CUR.maxdepth, len(ch.taken))
        CUR.outcomes.add(ch.obsdigest.digest())
        if err is None and len(ch.taken) < len(prefix):
            err = ('the code under test did not behave the same way twice: '
                   'execution ended after %d of %d choices' % (len(ch.taken), len(prefix)))
        if err is not None:
            return ch, self.violationRecord(name, dict(choices=ch.taken), err, ch.trace)
        if len(CUR.samples) < 3 and (not CUR.samples or len(ch.trace) > len(CUR.samples[-1]['steps'])):
            CUR.samples.append(dict(choices=list(ch.taken), steps=list(ch.trace)[:40],
                                    observed=short(ch.last, 400)))
        return ch, None

    def runSubtree(self, name, scenario, prefix, maxdev, cap):
        """Enumerate every execution whose choices begin with prefix."""
        floor = len(prefix)
        n = 0
        while prefix is not None:
            ch, rec = self.runOne(name, scenario, prefix, maxdev)
            if rec is not None:
                return rec, n
            n += 1
            if n == 1 or n % 997 == 0:
                ch2, rec = self.runOne(name, scenario, ch.taken, maxdev)
                CUR.traces -= 1
                if rec is not None:
                    return rec, n
                if ch2.obsdigest.digest() != ch.obsdigest.digest() or ch2.widths != ch.widths:
                    return self.violationRecord(
                        name, dict(choices=ch.taken),
                        'the same choices gave two different executions', ch.trace), n
            if cap is not None and n >= cap and ch.nextPrefix(floor) is not None:
                return 'capped', n
            prefix = ch.nextPrefix(floor)
        return None, n

    def explore(self, name, scenario, maxdev=None, parallel=False, cap=None):
        """
        Enumerate every execution of the scenario (with at most maxdev
        deviations when given).
        """
        global CUR
        CUR = Counters()
        t0 = time.time()
        if self.replay is not None:
            if self.replay['harness'] != name:
                return
            ch, rec = self.runOne(name, scenario, self.replay['choices'], maxdev)
            raise Replayed(rec)
        rec = None
        if not parallel:
            rec, n = self.runSubtree(name, scenario, [], maxdev, cap)
        else:
            # split the tree near the root
            frontier, leaves = [[]], []
            while frontier and len(frontier) + len(leaves) < 48 * WORKERS // 8 + 16:
                # expand the shallowest prefix
                frontier.sort(key=len)
                p = frontier.pop(0)
                save = CUR
                CUR = Counters()
                ch, rec = self.runOne(name, scenario, p, maxdev)
                CUR = save
                if rec is not None:
                    break
                i = len(p)
                if i >= len(ch.taken):
                    leaves.append(p)
                    continue
                used = ch.used(i)
                for c in range(ch.widths[i]):
                    if c and maxdev is not None and ch.devs[i] and used + 1 > maxdev:
                        continue
                    frontier.append(p + [c])
            if rec is None:
                rec = self.pool(name, _subtree,
                                [(name, scenario, p, maxdev, cap) for p in frontier + leaves])
        if rec == 'capped':
            self.exhaustive = False
            rec = None
            capped = True
        else:
            capped = False
        self.done(name, t0, dict(kind='explore', deviation_bound=maxdev, capped=capped))
        if rec is not None:
            raise Failed(rec)

    def sweep(self, name, cases, fn, parallel=False):
        """Run fn on every case.  fn returns what it observed."""
        global CUR
        CUR = Counters()
        t0 = time.time()
        if not hasattr(cases, '__len__'):
            cases = list(cases)
        if self.replay is not None:
            if self.replay['harness'] != name:
                return
            rec = self.runCases(name, cases, fn, self.replay['index'], self.replay['index'] + 1)
            raise Replayed(rec)
        if not parallel or (len(cases) < 64 and parallel != 'each'):
            rec = self.runCases(name, cases, fn, 0, len(cases))
        else:
            k = WORKERS * 6
            step = 1 if parallel == 'each' else max(1, (len(cases) + k - 1) // k)
            rec = self.pool(name, _cases, [(name, cases, fn, i, min(len(cases), i + step))
                                           for i in range(0, len(cases), step)])
        self.done(name, t0, dict(kind='sweep', cases=len(cases)))
        if rec is not None:
            raise Failed(rec)

    def runCases(self, name, cases, fn, a, b):
        for i in range(a, b):
            case = cases[i]
            self.guard(name, (i, case))
            err = None
            del RAISED[:]
            try:
                o = fn(case)
                if RAISED:
                    raise RAISED[0]
            except Violation as e:
                err = str(e)
            except Exception as e:
                err = 'unexpected %s: %s\n%s' % (
                    type(e).__name__, short(str(e), 500), traceback.format_exc(limit=-8))
            except (SystemExit, GeneratorExit) as e:
                err = 'unexpected %s\n%s' % (type(e).__name__, traceback.format_exc(limit=-8))
            if err is not None:
                self.unguard()
                return self.violationRecord(name, dict(index=i, case=short(case)), err,
                                            ['case %s' % (short(case),)])
            CUR.traces += 1
            CUR.transitions += 1
            d = digest((name, o))
            CUR.states.add(d)
            CUR.outcomes.add(d)
            if len(CUR.samples) < 2:
                CUR.samples.append(dict(case=short(case, 300), observed=short(o, 300)))
        self.unguard()
        return None

    def pool(self, name, work, tasks):
        global _tasks
        _tasks = (work, tasks)
        vpath = os.path.join(EVIDENCE, '.hang-%s-%d' % (self.prop, os.getpid()))
        os.makedirs(EVIDENCE, exist_ok=True)
        self.hangPath = vpath
        rec = None
        capped = False
        mpc = multiprocessing.get_context('fork')
        ex = ProcessPoolExecutor(WORKERS, mp_context=mpc)
        try:
            futures = [ex.submit(_work, i) for i in range(len(tasks))]
            for f in futures:
                try:
                    r, export = f.result()
                except BrokenProcessPool:
                    try:
                        with open(vpath) as fh:
                            rec = json.load(fh)
                        os.unlink(vpath)
                    except (OSError, ValueError):
                        rec = self.violationRecord(name, dict(choices=[]), 'an execution killed its process')
                    break
                CUR.merge(export)
                if r == 'capped':
                    capped = True
                elif r is not None:
                    rec = r
                    break
        finally:
            for f in futures:
                f.cancel()
            if rec is not None:
                for p in list((ex._processes or {}).values()):
                    p.kill()
            ex.shutdown(wait=True, cancel_futures=True)
            self.hangPath = None
        return rec if rec is not None else ('capped' if capped else None)

    hangPath = None

    def done(self, name, t0, extra):
        c = CUR
        self.total.merge(c.export())
        h = dict(states=len(c.states), transitions=c.transitions, executions=c.traces,
                 distinct_outcomes=len(c.outcomes), max_depth=c.maxdepth,
                 wall_s=round(time.time() - t0, 3), samples=c.samples)
        h.update(extra)
        self.harnesses[name] = h
        print('  %-34s %s' % (name, {k: v for k, v in h.items() if k != 'samples'}), file=sys.stderr)

    def onAlarm(self, signum, frame):
        name, what = self.current or ('?', None)
        if isinstance(what, Chooser):
            payload, trace = dict(choices=what.taken), what.trace
        elif what is not None:
            payload, trace = dict(index=what[0], case=short(what[1])), ['case %s' % short(what[1])]
        else:
            payload, trace = {}, []
        rec = self.violationRecord(
            name, payload, 'an execution did not end within %ss\n%s' % (
                self.limit, ''.join(traceback.format_stack(frame, limit=8))), trace)
        if self.hangPath is not None and multiprocessing.parent_process() is not None:
            with open(self.hangPath, 'w') as f:
                json.dump(rec, f, default=short)
        else:
            try:
                self.fail(rec)
            finally:
                os._exit(1)
        os._exit(1)


_tasks = None


def _work(i):
    global CUR
    CUR = Counters()
    work, tasks = _tasks
    r = work(*tasks[i])
    return r, CUR.export()


def _subtree(name, scenario, prefix, maxdev, cap):
    r, n = _ctx.runSubtree(name, scenario, prefix, maxdev, cap)
    return r


def _cases(name, cases, fn, a, b):
    return _ctx.runCases(name, cases, fn, a, b)


class Failed(Exception):
    def __init__(self, rec):
        self.rec = rec


class Replayed(Exception):
    def __init__(self, rec):
        self.rec = rec


def main(argv):
    global _ctx
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(argv) > 2 and argv[2] in ('quick', 'thorough'):
        tier = argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED') or '0')
    except ValueError:
        seed = 0
    # keep our own stdout; what the code under test prints goes nowhere
    out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.stdout = open(os.devnull, 'w')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    ctx = _ctx = Ctx(prop, tier, seed, out, 60.0)
    signal.signal(signal.SIGALRM, ctx.onAlarm)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            ctx.replay = json.load(f)
        ctx.tier = ctx.replay.get('tier', ctx.tier)
        ctx.quick = ctx.tier != 'thorough'
    import importlib
    rc = 0
    try:
        from mc import env
        env.prepare(ctx)
        mod = importlib.import_module('mc.props.' + prop)
        mod.run(ctx)
        if ctx.replay is not None:
            out.write('no harness named %r\n' % (ctx.replay['harness'],))
            return 2
        for key, msg in sorted(ctx.total.known.items()):
            out.write('KNOWN-FINDING: property=%s %s (%s)\n' % (prop, ctx.knownKeys[key], key))
        ctx.writeEvidence()
        t = ctx.total
        out.write('OK property=%s tier=%s states=%d transitions=%d executions=%d outcomes=%d wall=%.1fs\n' % (
            prop, tier, len(t.states), t.transitions, t.traces, len(t.outcomes), time.time() - ctx.t0))
    except Failed as e:
        ctx.fail(e.rec)
        rc = 1
    except Replayed as e:
        if e.rec is None:
            out.write('replay: the property held\n')
        else:
            out.write('replay: %s: %s\n' % (e.rec['harness'], e.rec['message']))
            for s in e.rec['trace']:
                out.write('   %s\n' % (s,))
            out.write('VIOLATION property=%s replay=%s\n' % (prop, argv[argv.index('--replay') + 1]))
            rc = 1
    except Violation as e:
        ctx.fail(ctx.violationRecord('setup', {}, str(e)))
        rc = 1
    except Exception as e:
        # importing or setting up the code under test failed
        ctx.fail(ctx.violationRecord('setup', {}, 'unexpected %s: %s\n%s' % (
            type(e).__name__, short(str(e), 500), traceback.format_exc(limit=-8))))
        rc = 1
    out.flush()
    return rc


if __name__ == '__main__':
    from mc import core
    rc = core.main(sys.argv)
    sys.stderr.flush()
    os._exit(rc)
