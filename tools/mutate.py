"""Mutation analysis of the checks (not part of any check).

usage: mutate.py OUT.jsonl N SEED [FILE.py ...]
Samples N single-site mutants of the library's modules; those that compile and
pass the stable tests are run through the quick checks until one reports a
violation.  Survivors are either equivalent or show what is not judged."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get('MUT_VERIF', '/verif')
CHECKS = {
    'causetevent.py': '01 03 04 02 31 18 05 08 12 13 14 19 27',
    'causet.py': '18 01 05 03 04 06 07 08 09 10 11 12 13 14 15 16 17 19 02 31',
    'embeddedcauset.py': '19 25 31 18 27 24 04',
    'sprinkledcauset.py': '24 25 19 18 31',
    'shapes.py': '23 24 28 31 25 19 27 18',
    'spacetimes.py': '20 21 22 26 19 31 27 23',
    'calculations.py': '30',
    'colorschemes.py': '29 27',
    'causetplotting.py': '27 28 29 26'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
NAMES = {'_prec': '_succ', '_succ': '_prec', '_lprec': '_lsucc',
         '_lsucc': '_lprec', 'any': 'all', 'all': 'any', 'min': 'max',
         'max': 'min', 'update': 'difference_update',
         'difference_update': 'update', 'add': 'discard', 'discard': 'add',
         'PresentOrPast': 'PresentOrFuture', 'Past': 'Future',
         'PresentOrFuture': 'PresentOrPast', 'Future': 'Past',
         'cos': 'sin', 'sin': 'cos', 'floor': 'ceil', 'ceil': 'floor',
         'log': 'log1p', 'LinkPast': 'Past', 'LinkFuture': 'Future',
         'i': 'j', 'j': 'i', 'a': 'b', 'b': 'a', 'x': 'y', 'y': 'x',
         'PastOf': 'FutureOf', 'FutureOf': 'PastOf', 'append': 'remove'}


def sites(tree):
    """(description, function that mutates the node in place)"""
    doc = set()
    for n in ast.walk(tree):
        b = getattr(n, 'body', None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and \
                isinstance(b[0].value, ast.Constant):
            doc.add(id(b[0]))
            doc.add(id(b[0].value))
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                doc |= {id(m) for m in ast.walk(a)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            doc |= {id(m) for m in ast.walk(n)}
    k = -1
    for n in ast.walk(tree):
        k += 1
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in CMP:
            yield k, 'cmp'
            yield k, 'neg'
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and \
                type(n.op) in BIN:
            yield k, 'bin'
            if isinstance(n, ast.AugAssign):
                yield k, 'drop'
        elif isinstance(n, ast.BoolOp):
            yield k, 'bool'
            yield k, 'first'
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub)):
            yield k, 'un'
        elif isinstance(n, ast.Constant) and isinstance(
                n.value, (int, float, bool)):
            yield k, 'const'
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield k, 'drop'
        elif isinstance(n, ast.If):
            yield k, 'iffalse'
            yield k, 'iftrue'
        elif isinstance(n, ast.IfExp):
            yield k, 'swap'
        elif isinstance(n, ast.Name) and n.id in NAMES and \
                isinstance(n.ctx, ast.Load):
            yield k, 'name'
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and \
                isinstance(n.ctx, ast.Load):
            yield k, 'name'
        elif isinstance(n, (ast.Assign, ast.Delete)) :
            yield k, 'drop'
        elif isinstance(n, ast.Raise):
            yield k, 'drop'


def mutate(tree, k, op):
    n = list(ast.walk(tree))[k]
    old = ast.unparse(n).split('\n')[0]
    if op == 'cmp':
        n.ops = [CMP[type(n.ops[0])]()]
    elif op == 'neg':
        c = copy.copy(n)
        n.__class__ = ast.UnaryOp
        n.op, n.operand = ast.Not(), c
    elif op == 'bin':
        n.op = BIN[type(n.op)]()
    elif op == 'bool':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif op == 'first':
        n.values = n.values[1:] if len(n.values) > 2 else \
            [n.values[0], n.values[0]]
    elif op == 'un':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not()
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif op == 'const':
        v = n.value
        n.value = (not v) if isinstance(v, bool) else \
            v + 1 if isinstance(v, int) else v * 1.5 + .25
    elif op == 'drop':
        for m in ast.walk(tree):
            for f, val in ast.iter_fields(m):
                if isinstance(val, list) and n in val:
                    val[val.index(n)] = ast.copy_location(ast.Pass(), n)
    elif op in ('iffalse', 'iftrue'):
        n.test = ast.Constant(op == 'iftrue')
    elif op == 'swap':
        n.body, n.orelse = n.orelse, n.body
    elif op == 'name':
        if isinstance(n, ast.Name):
            n.id = NAMES[n.id]
        else:
            n.attr = NAMES[n.attr]
    ast.fix_missing_locations(tree)
    return getattr(n, 'lineno', 0), old


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, timeout=timeout,
                           stderr=subprocess.STDOUT, text=True, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def one(f, k, op):
    top = tempfile.mkdtemp(prefix='mut-')
    try:
        R = os.path.join(top, 'repo')
        shutil.copytree('/repo', R, symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        path = os.path.join(R, f)
        tree = ast.parse(open(path).read())
        line, old = mutate(tree, k, op)
        try:
            src = ast.unparse(tree)
            compile(src, f, 'exec')
        except Exception as e:
            return {'file': f, 'site': k, 'op': op, 'result': 'nocompile'}
        open(path, 'w').write(src + '\n')
        res = {'file': f, 'site': k, 'op': op, 'line': line, 'old': old}
        env = dict(os.environ, PYTHONPATH=os.path.join(top, 'p'),
                   MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
        os.makedirs(os.path.join(top, 'p'))
        os.symlink(R, os.path.join(top, 'p', 'causets'))
        os.makedirs(os.path.join(top, 'w'))
        mods = [x[:-3] for x in sorted(os.listdir(R))
                if x.startswith('test_') and x.endswith('.py')]
        rc, out = run(['/opt/venv/bin/python', '-m', 'unittest'] +
                      ['causets.' + x for x in mods], 60, env=env,
                      cwd=os.path.join(top, 'w'))
        if rc:
            return dict(res, result='tests')
        for c in CHECKS[f].split():
            rc, out = run(['/opt/venv/bin/python', 'harness/run.py', 'C' + c,
                           '--tier', 'quick', '--seed', '1'], 200, cwd=V,
                          env=dict(os.environ, CAUSETS_REPO=R,
                                   CAUSETS_WATCHDOG='10',
                                   CAUSETS_EVIDENCE=os.path.join(top, 'e')))
            if rc:
                return dict(res, result=f'C{c}', rc=rc, info=[
                    x[:160] for x in out.splitlines() if 'x] ' in x][:1])
        return dict(res, result='SURVIVED')
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(CHECKS)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['file'], r['site'], r['op']))
    todo = [(f, k, op) for f in files
            for k, op in sites(ast.parse(open('/repo/' + f).read()))]
    print(len(todo), 'sites', {f: sum(t[0] == f for t in todo)
                               for f in files}, flush=True)
    random.Random(seed).shuffle(todo)
    todo = [t for t in todo[:N] if t not in done]
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '3'))) as ex:
        for r in ex.map(lambda t: one(*t), todo):
            with open(out, 'a') as h:
                h.write(json.dumps(r) + '\n')
            if r['result'] == 'SURVIVED':
                print(r, flush=True)


if __name__ == '__main__':
    main()
