"""
Systematic mutation of the package: every small change of every non-test module
that the repository's own tests let pass, against the checks of the properties
anchored in that module.  Works on copies only.

mutate.py OUT.jsonl [--files a.py,b.py] [--jobs N] [--limit N] [--ops structural]

Each line of OUT: file, line, what was changed, and 'killed' (by the tests),
'caught' (by which check) or 'survived'.
"""
import ast, copy, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
EXTRA = {'epsilon/liner.py': ['C08', 'C07'], 'epsilon/structlike.py': ['C21', 'C22', 'C26'],
         'epsilon/extime.py': ['C19', 'C16', 'C15', 'C17', 'C18']}


def where():
    table = {}
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        for f in p['anchors']['files']:
            table.setdefault(f, []).append(p['id'])
    table.update(EXTRA)
    return table


CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body:
            f = n.body[0]
            if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
                out.add(id(f.value))
                out.add(id(f))
    return out


def edits(node, skip):
    """The changes that can be made at a node: (description, function)."""
    out = []
    if isinstance(node, ast.Compare):
        for i, o in enumerate(node.ops):
            if type(o) in CMP:
                def f(n, i=i, o=o):
                    n.ops[i] = CMP[type(o)]()
                out.append(('%s->%s' % (type(o).__name__, CMP[type(o)].__name__), f))
    if isinstance(node, ast.BoolOp):
        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        out.append(('and<->or', f))
        for i in range(len(node.values)):
            def f(n, i=i):
                del n.values[i]
            out.append(('drop operand %d' % i, f))
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        def f(n):
            n.test = ast.UnaryOp(ast.Not(), n.test)
        out.append(('negate condition', f))
        def f(n):
            n.test = ast.Constant(False)
        if not isinstance(node, ast.While):
            def g(n):
                n.test = ast.Constant(True)
            out.append(('condition True', g))
        out.append(('condition False', f))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        def f(n):
            n.op = BIN[type(n.op)]()
        out.append(('%s->%s' % (type(node.op).__name__, BIN[type(node.op)].__name__), f))
    if isinstance(node, ast.Constant) and id(node) not in skip:
        v = node.value
        new = []
        if v is True or v is False:
            new = [not v]
        elif isinstance(v, int):
            new = [v + 1, v - 1]
        elif isinstance(v, float):
            new = [v + 1]
        elif isinstance(v, str) and 0 < len(v) <= 12:
            new = [v[:-1]]
        elif isinstance(v, bytes) and v:
            new = [v[:-1]]
        for x in new:
            if x != v or type(x) != type(v):
                def f(n, x=x):
                    n.value = x
                out.append(('%r->%r' % (v, x), f))
    if isinstance(node, ast.Slice):
        for k in ('lower', 'upper', 'step'):
            if getattr(node, k) is not None:
                def f(n, k=k):
                    setattr(n, k, None)
                out.append(('drop %s' % k, f))
    if isinstance(node, ast.Call):
        if node.args and not isinstance(node.args[-1], ast.Starred):
            def f(n):
                n.args.pop()
            out.append(('drop last argument', f))
        for i, k in enumerate(node.keywords):
            if k.arg:
                def f(n, i=i):
                    del n.keywords[i]
                out.append(('drop keyword %s' % k.arg, f))
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
            def f(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append(('swap arguments', f))
        # x.f(...) -> x
        if isinstance(node.func, ast.Attribute) and node.func.attr in (
                'strip', 'lower', 'upper', 'copy', 'encode', 'decode', 'replace', 'astimezone', 'append', 'extend'):
            def f(n):
                n.func = ast.Name('_idf', ast.Load())
                n.args = [node.func.value]
                n.keywords = []
            out.append(('drop .%s' % node.func.attr, 'unwrap'))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        out.append(('drop unary', 'unary'))
    if isinstance(node, ast.ExceptHandler) and node.type is not None:
        def f(n):
            n.type = ast.Name('ZeroDivisionError', ast.Load())
        out.append(('handler catches nothing', f))
    if isinstance(node, ast.Try) and node.finalbody:
        def f(n):
            n.finalbody = [ast.Pass()]
        out.append(('drop finally', f))
    if isinstance(node, (ast.Break, ast.Continue)):
        out.append(('break<->continue', 'flip'))
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)) and id(node) not in skip:
        out.append(('delete statement', 'pass'))
    if isinstance(node, ast.Return) and node.value is not None and not (
            isinstance(node.value, ast.Constant) and node.value.value is None):
        def f(n):
            n.value = None
        out.append(('return nothing', f))
    return out


HELPERS = """
def _memo(f):
    import functools
    cache = {}
    @functools.wraps(f)
    def memoised(*a, **k):
        try:
            key = (a, tuple(sorted(k.items())))
            hash(key)
        except TypeError:
            return f(*a, **k)
        if key not in cache:
            cache[key] = f(*a, **k)
        return cache[key]
    return memoised
_kept = {}
def _keep(n, make):
    if n not in _kept:
        _kept[n] = make()
    return _kept[n]
"""
PLAIN = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Raise, ast.Return)


def structural(node, skip):
    """Changes of the kind a careless refactoring or optimisation makes."""
    out = []
    for field in ('body', 'orelse', 'finalbody'):
        body = getattr(node, field, None)
        if isinstance(body, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
            for i in range(len(body)):
                for d in (1, 2):
                    if i + d < len(body) and all(isinstance(x, PLAIN) and id(x) not in skip for x in body[i:i + d + 1]):
                        def f(n, field=field, i=i, d=d):
                            b = getattr(n, field)
                            x = b.pop(i)
                            b.insert(i + d, x)
                        out.append(('move %s %d down %d' % (field, i, d), f))
                if isinstance(body[i], ast.Expr) and id(body[i]) not in skip:
                    def f(n, field=field, i=i):
                        b = getattr(n, field)
                        b.insert(i, copy.deepcopy(b[i]))
                    out.append(('twice %s %d' % (field, i), f))
    if isinstance(node, ast.FunctionDef) and not node.decorator_list and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
        def f(n):
            n.decorator_list.append(ast.Name('_memo', ast.Load()))
        out.append(('memoise %s' % node.name, f))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        o, c = node.ops[0], node.comparators[0]
        if isinstance(o, (ast.Is, ast.IsNot)):
            if isinstance(c, ast.Constant) and c.value is None:
                out.append(('truth instead of None', 'truth'))
            else:
                def f(n, o=o):
                    n.ops[0] = ast.Eq() if isinstance(o, ast.Is) else ast.NotEq()
                out.append(('is->==', f))
        if isinstance(o, (ast.Eq, ast.NotEq)):
            def f(n, o=o):
                n.ops[0] = ast.Is() if isinstance(o, ast.Eq) else ast.IsNot()
            out.append(('==->is', f))
        if isinstance(o, ast.In):
            out.append(('in->.get', 'get'))
    if isinstance(node, ast.Call):
        name = node.func.id if isinstance(node.func, ast.Name) else None
        if name in ('list', 'dict', 'tuple', 'set', 'copy', 'sorted', 'reversed', 'bool', 'bytes', 'str') and len(node.args) == 1 and not node.keywords:
            out.append(('alias %s()' % name, 'arg'))
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'pop' and node.args:
            out.append(('pop->subscript', 'sub'))
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'get' and node.args:
            out.append(('get->subscript', 'sub'))
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'copy':
            out.append(('alias .copy()', 'unwrap'))
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load) and not (
            node.slice.lower or node.slice.upper or node.slice.step):
        out.append(('alias [:]', 'value'))
    if isinstance(node, ast.Assign) and getattr(node, 'col_offset', 0) >= 8 and (isinstance(node.value, (ast.List, ast.Dict)) or isinstance(node.value, ast.Call) and not node.value.args
                                         and not node.value.keywords and isinstance(node.value.func, ast.Name)):
        def f(n):
            n.value = ast.Call(ast.Name('_keep', ast.Load()), [ast.Constant(getattr(n, 'lineno', 0)), ast.Lambda(
                ast.arguments([], [], None, [], [], None, []), n.value)], [])
        out.append(('keep the value', f))
    if isinstance(node, ast.Try) and node.finalbody:
        out.append(('finally only on success', 'flat'))
    if isinstance(node, ast.ExceptHandler) and node.type is not None:
        def f(n):
            n.type = ast.Name('Exception', ast.Load())
        out.append(('handler catches everything', f))
    if isinstance(node, ast.For):
        for what, tmpl in (('skip first', 'list(X)[1:]'), ('skip last', 'list(X)[:-1]'), ('backwards', 'list(X)[::-1]'), ('first only', 'list(X)[:1]')):
            def f(n, tmpl=tmpl):
                t = ast.parse(tmpl, mode='eval').body
                for x in ast.walk(t):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'list':
                        x.args = [n.iter]
                n.iter = t
            out.append(('loop %s' % what, f))
    return out


class Apply(ast.NodeTransformer):
    def __init__(self, target, how):
        self.target, self.how = target, how

    def visit(self, node):
        if getattr(node, '_mark', None) == self.target:
            h = self.how
            if h == 'pass':
                return ast.copy_location(ast.Pass(), node)
            if h == 'unary':
                return node.operand
            if h == 'unwrap':
                return node.func.value
            if h == 'flip':
                return ast.copy_location(ast.Continue() if isinstance(node, ast.Break) else ast.Break(), node)
            if h == 'truth':
                t = node.left
                return ast.UnaryOp(ast.Not(), t) if isinstance(node.ops[0], ast.Is) else t
            if h == 'get':
                return ast.Call(ast.Attribute(node.comparators[0], 'get', ast.Load()), [node.left], [])
            if h == 'arg':
                return node.args[0]
            if h == 'value':
                return node.value
            if h == 'sub':
                return ast.Subscript(node.func.value, node.args[0], ast.Load())
            if h == 'flat':
                inner = [ast.Try(node.body, node.handlers, node.orelse, [])] if node.handlers else node.body
                return inner + node.finalbody
            h(node)
            if isinstance(node, ast.BoolOp) and len(node.values) == 1:
                return node.values[0]
            return node
        return self.generic_visit(node)


OPS = [edits]


def withHelpers(text):
    """Put the helpers after the docstring and the imports from the future."""
    t = ast.parse(text)
    k = 0
    while k < len(t.body) and (isinstance(t.body[k], ast.Expr) and isinstance(t.body[k].value, ast.Constant)
                               or isinstance(t.body[k], ast.ImportFrom) and t.body[k].module == '__future__'):
        k += 1
    t.body[k:k] = ast.parse(HELPERS).body
    return ast.unparse(t)


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        n._mark = i
    skip = docstrings(tree)
    base = ast.unparse(tree)
    seen = {base}
    for i, n in enumerate(nodes):
        for what, how in [e for ops in OPS for e in ops(n, skip)]:
            t = copy.deepcopy(tree)
            t = ast.fix_missing_locations(Apply(i, how).visit(t))
            try:
                text = ast.unparse(t)
            except Exception:
                continue
            if text in seen:
                continue
            seen.add(text)
            if '_memo' in text or '_keep' in text:
                text = withHelpers(text)
            try:
                compile(text, path, 'exec')
            except Exception:
                continue
            yield {'file': path, 'line': getattr(n, 'lineno', 0), 'what': what, 'text': text,
                   'was': (src.split('\n')[getattr(n, 'lineno', 1) - 1]).strip()[:100]}


def runTests(repo):
    work = tempfile.mkdtemp(prefix='mut-t-')
    env = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONPATH=repo,
               PIP_NO_INDEX='1', SETUPTOOLS_SCM_PRETEND_VERSION='0.8.0')
    try:
        try:
            subprocess.run(['timeout', '-k', '5', '90', '/opt/venv/bin/python', '/opt/vp/trial_lines.py', work + '/raw', '20',
                            '--temp-directory=' + work + '/_trial', 'epsilon'],
                           cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            return False
        try:
            lines = open(work + '/raw').read().split('\n')
        except IOError:
            return False
        ok = set(l[5:] for l in lines if l.startswith('PASS '))
        ok |= set(re.sub(r'^\S+ ', '', l) for l in lines if l.startswith('PASS '))
        return STABLE <= ok
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    out = argv[0]
    files = None
    jobs, limit = 8, None
    lines = None
    for a, b in zip(argv[1::2], argv[2::2]):
        if a == '--files':
            files = b.split(',')
        elif a == '--jobs':
            jobs = int(b)
        elif a == '--limit':
            limit = int(b)
        elif a == '--ops':
            OPS[:] = [structural] if b == 'structural' else [edits]
        elif a == '--again':
            # run the survivors of an earlier run again
            lines = set((r['file'], r['line'], r['what'], r['was']) for r in map(json.loads, open(b)) if r['result'] == 'survived')
    table = where()
    todo = []
    for f in sorted(table):
        if (files is None or f in files) and f.endswith('.py'):
            todo += list(mutants(f))
    if lines is not None:
        todo = [m for m in todo if (m['file'], m['line'], m['what'], m['was']) in lines]
    if limit:
        todo = todo[:limit]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['what'], r['was'], r['n']))
    count = {}
    for m in todo:
        k = (m['file'], m['line'], m['what'], m['was'])
        count[k] = count.get(k, 0) + 1
        m['n'] = count[k]
    todo = [m for m in todo if (m['file'], m['line'], m['what'], m['was'], m['n']) not in done]
    print('%d mutants' % len(todo), flush=True)
    top = tempfile.mkdtemp(prefix='mutate-')
    slots = queue.Queue()
    for k in range(jobs):
        d = os.path.join(top, str(k))
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        slots.put(d)

    pristine = dict((f, open(os.path.join(REPO, f)).read()) for f in set(m['file'] for m in todo))

    def one(m):
        d = slots.get()
        try:
            target = os.path.join(d, 'repo', m['file'])
            open(target, 'w').write(m['text'])
            r = dict((k, m[k]) for k in ('file', 'line', 'what', 'was', 'n'))
            t0 = time.time()
            if not runTests(d + '/repo'):
                r['result'] = 'killed'
            else:
                r['result'] = 'survived'
                for p in table[m['file']]:
                    env = dict(os.environ, MC_REPO=d + '/repo', MC_WORKERS='1', VERIF_SEED='1', VERIF_TIER='quick')
                    c = subprocess.run(['timeout', '-k', '5', '600', 'bash', d + '/verif/run.sh', p, 'quick'], env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
                    if c.returncode:
                        r['result'] = 'caught'
                        r['by'] = p
                        r['rc'] = c.returncode
                        r['saying'] = c.stdout.decode('utf-8', 'replace')[:200]
                        break
            r['s'] = round(time.time() - t0, 1)
            open(target, 'w').write(pristine[m['file']])
            return r
        finally:
            slots.put(d)
    try:
        with ThreadPoolExecutor(jobs) as ex, open(out, 'a') as f:
            for r in ex.map(one, todo):
                f.write(json.dumps(r) + '\n')
                f.flush()
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])
