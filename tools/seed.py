"""
Make or validate planted bugs.  seed.py make SPEC.py ...: a spec file is a list
SEEDS of dicts (id, property, file, edits [(old, new)], demo, needs, breaks).
seed.py check [ID ...]: apply each bug to /repo, run its property's quick check
(or all with --all), undo, and print what caught it.

Bugs are validated in /repo's working tree itself, one at a time, because
build.sh and test.sh only look there; the tree is restored afterwards.
"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
REPO = '/repo'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh('git', '-C', REPO, 'checkout', '--', '.')


def stable():
    out = tempfile.mktemp()
    sh('bash', '/opt/vp/test.sh', out)
    o = json.load(open(out)); os.remove(out)
    b = json.load(open('/opt/vp/BASELINE.json'))
    return sorted(set(b['stable']) - set(o.get('passed', o.get('pass', []))))


def original(diff, path):
    """How many removed lines of the diff come from the base commit, and how many do not."""
    blame = sh('git', '-C', REPO, 'blame', '-s', '-l', 'HEAD', '--', path).stdout.splitlines()
    import re
    n = None
    yes = no = 0
    for l in diff.splitlines():
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)); continue
        if n is None:
            continue
        if l.startswith('-'):
            if blame[n - 1].lstrip('^').startswith(BASE[:39]):
                yes += 1
            else:
                no += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    return yes, no


def demo(d):
    t = tempfile.mkdtemp()
    for f in os.listdir(d):
        if f not in ('patch.diff', 'meta.json'):
            sh('cp', '-a', os.path.join(d, f), t)
    try:
        r = subprocess.run(['bash', os.path.join(t, 'demo.sh')], cwd=REPO, capture_output=True, text=True, timeout=300)
        return r
    finally:
        sh('rm', '-rf', t)


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    for s in ns['SEEDS']:
        d = os.path.join(S, s['id'])
        if os.path.exists(os.path.join(d, 'meta.json')):
            continue
        clean()
        bad = None
        files = s['file'] if isinstance(s['file'], list) else [s['file']] * len(s['edits'])
        for f, (old, new) in zip(files, s['edits']):
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = 'edit matches %d times: %r' % (t.count(old), old[:60]); break
            open(p, 'w').write(t.replace(old, new))
        if bad is None:
            diff = sh('git', '-C', REPO, 'diff').stdout
            y = n = 0
            for f in sorted(set(files)):
                a, b = original(sh('git', '-C', REPO, 'diff', '--', f).stdout, f)
                y += a; n += b
            if n or not y:
                bad = 'touches %d original and %d own lines' % (y, n)
        if bad is None:
            b = sh('bash', '/opt/vp/build.sh')
            if b.returncode:
                bad = 'build: ' + b.stderr[-300:]
        if bad is None:
            m = stable()
            if m:
                bad = 'tests fail: %s' % m[:4]
        if bad is None:
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# cwd: the repository, built\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC\n'
                'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r = demo(d)
            if r.returncode == 0:
                bad = 'demo passes with the bug'
            why = (r.stderr.strip().splitlines() or [''])[-1][:150]
            clean()
            sh('bash', '/opt/vp/build.sh')
            r = demo(d)
            if r.returncode != 0:
                bad = 'demo fails without the bug: ' + r.stderr[-600:]
            if bad:
                sh('rm', '-rf', d)
        clean()
        print(s['id'], 'REJECTED ' + bad if bad else 'ok (%s)' % why, flush=True)
    clean()
    sh('bash', '/opt/vp/build.sh')


def check(ids, all_):
    ids = ids or sorted(os.listdir(S))
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    for i in ids:
        d = os.path.join(S, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        clean()
        r = sh('git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff'))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr); continue
        got = []
        try:
            for p in (props if all_ else [meta['property']]):
                r = sh('bash', os.path.join(V, 'run.sh'), p, 'quick', cwd=V)
                if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout:
                    got.append(p)
                elif r.returncode:
                    got.append('%s(exit %d)' % (p, r.returncode))
        finally:
            clean()
        C = os.path.join(V, 'tools', 'caught.json')
        rec = json.load(open(C)) if os.path.exists(C) else {}
        rec[i] = sorted(set(g for g in got if '(' not in g) | (set() if all_ else set(rec.get(i, [])) - {meta['property']}))
        json.dump(rec, open(C, 'w'), indent=1, sort_keys=True)
        print(i, meta['property'], 'CAUGHT by ' + ' '.join(got) if meta['property'] in got else 'MISSED' + (' but ' + ' '.join(got) if got else ''), flush=True)


if sys.argv[1] == 'make':
    for f in sys.argv[2:]:
        make(f)
else:
    check([a for a in sys.argv[2:] if a != '--all'], '--all' in sys.argv)
