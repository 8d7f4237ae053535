"""
C34: template expansion writes each file with exactly its own substituted lines.
"""
import contextlib, datetime, io, itertools, os, runpy, shutil, sys, tempfile, time

from mc.core import check, same, op

BASE = None


def expand(line, proj, cap, day):
    return line.replace('_project_', proj).replace('_Project_', cap).replace('_date_', day)


def model(lines, proj, cap, day):
    files, current = {}, None
    for l in lines:
        l = expand(l, proj, cap, day)
        if '###file:' in l:
            current = l.split('###file:')[1].strip()
            files[current] = ''
        else:
            files[current] += l
    return files


def listing(top):
    out = {}
    for d, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(d, f)
            with open(p, newline='', encoding='utf-8') as fh:
                out[os.path.relpath(p, top)] = fh.read()
    return out


REAL = time.time


def shifted(case):
    """
    Expansions on several days, one after the other, in one process that
    lives through all of them.
    """
    days, how, before = case
    out = []
    try:
        for d in days:
            # Python's own clock, which dates are computed from
            time.time = lambda: REAL() + 86400 * d
            out.append(one((LINES, 'zoop', 'Zoop', how, before)))
    finally:
        time.time = REAL
    return tuple(out)


def one(case):
    lines, proj, cap, how, existing = case
    top = tempfile.mkdtemp(prefix='t', dir=BASE)
    cwd = os.getcwd()
    stdin, stderr = sys.stdin, sys.stderr
    try:
        os.chdir(top)
        for name, text in existing.items():
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            with open(name, 'w') as f:
                f.write(text)
        from epsilon import asplode
        days = [str(datetime.date.today())]
        sys.stderr = io.StringIO()
        op()
        if how == 'main':
            sys.stdin = io.StringIO(''.join(lines))
            asplode.main(['asplode'])
        elif how == 'script':
            sys.stdin = io.StringIO(''.join(lines))
            argv, sys.argv = sys.argv, ['asplode']
            try:
                runpy.run_module('epsilon.asplode', run_name='__main__')
            finally:
                sys.argv = argv
        else:
            asplode.splode(list(lines) if how == 'list' else iter(lines), proj, cap)
        sys.stderr = stderr
        days.append(str(datetime.date.today()))
        got = listing(top)
        wants = []
        for d in days:
            w = dict(existing)
            w.update(model(lines, proj, cap, d))
            wants.append(w)
        check(got in wants, 'files', got, wants[0])
        return tuple(sorted(got))
    finally:
        sys.stdin, sys.stderr = stdin, stderr
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


NAMES = ['plain.txt', '_project_/setup.py', 'a/b/_project_/c.py', '_Project_-_date_.txt', '_project_/_project_.py', 'x_project__Project_']
CONTENT = ['plain\n', '_project_ and _Project_ and _project_ again\n', '\n', '  on _date_ _date_\n', '_project__Project__date_\n',
           '# file: ##file: x\n', '_PROJECT_ project _project date_\n', 'na\xefve _project_ \u20ac\n', 'dos _date_\r\n', 'last without newline']
LINES = ('###file:_project_/_date_.txt\n', 'on _date_\n', '###file:x\n', '_date_ _project_\n')


def cases(q):
    out = []
    # every sequence of up to three lines in one file, every name
    for name in NAMES:
        for n in range(3 if q else 4):
            for body in itertools.product(CONTENT, repeat=n):
                if 'last without newline' in body[:-1]:
                    continue
                out.append((('###file:' + name + '\n',) + body, 'zoop', 'Zoop', 'list', {}))
    # every sequence of up to three files
    bodies = [(), ('plain\n',), ('_project_\n', '\n'), ('_Project_ _date_', )]
    for n in (2, 3) if q else (2, 3, 4):
        for names in itertools.permutations(NAMES, n):
            for bs in itertools.product(bodies if n < 4 else bodies[1:3], repeat=n):
                if any(not b[-1].endswith('\n') for b in bs[:-1] if b):
                    continue
                lines = []
                for nm, b in zip(names, bs):
                    lines.append('###file: %s \n' % nm if n == 3 else '###file:%s\n' % nm)
                    lines += b
                out.append((tuple(lines), 'zoop', 'Zoop', 'main' if n == 2 else 'iter', {}))
    # files named more than once, in a row or not
    for names in itertools.product(NAMES[:2], repeat=3):
        for bs in itertools.product(bodies[:3], repeat=3):
            for how in ('list', 'iter', 'main', 'script'):
                lines = []
                for nm, b in zip(names, bs):
                    lines += ['###file:%s\n' % nm] + list(b)
                out.append((tuple(lines), 'zoop', 'Zoop', how, {}))
    # many files, and many lines
    for n in (10, 100, 1000):
        for k in (0, 1, 50):
            for how in ('list', 'iter', 'main'):
                lines = []
                for i in range(n if k < 50 else 5):
                    lines.append('###file:_project_/d%d/f%d.py\n' % (i % 7, i))
                    lines += ['%d _project_ ' % j + '_Project_ ' * (j % 20) + '\n' for j in range(k if k < 50 else n)]
                out.append((tuple(lines), 'zoop', 'Zoop', how, {}))
    # project names, and files that were there before
    for proj, cap in (('zoop', 'Zoop'), ('a', 'B'), ('my proj', 'My Proj'), ('x-1', ''), ('FooBar', 'FooBar'), ('fooBAR', 'Foobar'), ('ZOOP', 'zoop')):
        for how in ('list', 'iter'):
            for existing in ({}, {'plain.txt': 'old contents which are much longer than the new\n' * 5}, {'%s/other.py' % proj: 'kept\n'}):
                for names in itertools.permutations(NAMES, 2):
                    out.append((('###file:%s\n' % names[0], CONTENT[1], '###file:%s\n' % names[1], CONTENT[3], CONTENT[4]), proj, cap, how, existing))
    return out


def run(ctx):
    global BASE
    ctx.assumptions += ['a template begins with a marker and gives a file named twice the lines after the last marker naming it', 'files are written in UTF-8, the encoding of the locale']
    BASE = tempfile.mkdtemp(prefix='mc-c34-')
    try:
        ctx.sweep('templates', cases(ctx.quick), one, parallel=True)
        ctx.sweep('days', [(d, h, {}) for n in (1, 2, 3) for d in itertools.product((0, 1, -1, 40, 400), repeat=n) for h in ('list', 'main')],
                  shifted, parallel=True)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
