"""Behaviour-preserving rewrites of the library, on which every check has to
stay quiet (not part of any check).

usage: refactor.py [MODE ...] [--checks 01 02 ...]
Each mode rewrites all modules of a scratch copy, runs the stable tests and then
the quick checks against the copy."""
import ast, json, os, shutil, subprocess, sys, tempfile
V = os.environ.get('MUT_VERIF', '/verif')
FILES = ['causet.py', 'causetevent.py', 'embeddedcauset.py',
         'sprinkledcauset.py', 'shapes.py', 'spacetimes.py',
         'calculations.py', 'colorschemes.py', 'causetplotting.py']
PRIVATE = ['_prec', '_succ', '_lprec', '_lsucc', '_events', '_coordinates',
           '_position', '_spacetime', '_shape', '_intensity', '_dim', '_name',
           '_metricname', '_params', '_center', '_isBall', '_alpha',
           '_alpha_sq', '_r_S', '_lookup', '_addToPast', '_addToFuture',
           '_discard', '_XT_slice2',
           '_T_slice_sampling', '_light_S', '_light_EF', '_samplingsize']


class Invert(ast.NodeTransformer):
    '''if c: A else: B  ->  if not c: B else: A'''
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse, n.body
        return n


class Swap(ast.NodeTransformer):
    '''a < b -> b > a;  a == b -> b == a'''
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
         ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [self.M[type(n.ops[0])]()]
        return n


class Return(ast.NodeTransformer):
    '''return x -> _result = x; return _result'''
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Constant):
            return n
        return [ast.Assign([ast.Name('_result', ast.Store())], n.value),
                ast.Return(ast.Name('_result', ast.Load()))]


class Noop(ast.NodeTransformer):
    '''A statement without effect in each function and loop.'''
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant) else 0
        n.body.insert(k, ast.Assign([ast.Name('_unused', ast.Store())],
                                    ast.Constant(0)))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body.append(ast.Pass())
        return n


class While(ast.NodeTransformer):
    '''for x in L: B  ->  an explicit iterator'''
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        While.k += 1
        it = f'_it{While.k}'
        get = ast.Try(
            body=[ast.Assign([n.target], ast.Call(
                ast.Name('next', ast.Load()), [ast.Name(it, ast.Load())],
                []))],
            handlers=[ast.ExceptHandler(ast.Name('StopIteration',
                                                 ast.Load()), None,
                                        [ast.Break()])],
            orelse=[], finalbody=[])
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(
            ast.Name('iter', ast.Load()), [n.iter], [])),
            ast.While(ast.Constant(True), [get] + n.body, [])]


class Comp(ast.NodeTransformer):
    '''{x for ...} -> set([x for ...]); any(gen) -> any([list])'''
    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('set', ast.Load()),
                        [ast.ListComp(n.elt, n.generators)], [])

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return ast.ListComp(n.elt, n.generators)


class RevSet(ast.NodeTransformer):
    '''Sets are traversed the other way around.'''
    def wrap(self, x):
        return ast.Call(ast.Name('_turned', ast.Load()), [x], [])

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.wrap(n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self.wrap(n.iter)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple') \
                and len(n.args) == 1:
            n.args[0] = self.wrap(n.args[0])
        return n


TURNED = '''
def _turned(x):
    if type(x) is set:
        return list(x)[::-1]
    return x
'''


class Commute(ast.NodeTransformer):
    '''a & b -> b & a and a + b -> b + a for numbers (floats may differ in
    nothing), a * b -> b * a'''
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Mult)) and not any(
                isinstance(x, (ast.List, ast.ListComp, ast.Constant)) and
                not isinstance(getattr(x, 'value', None), (int, float))
                for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
        return n


class Elif(ast.NodeTransformer):
    '''if ..: return A else: B -> if ..: return A; B'''
    def fix(self, body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                tail, s.orelse = s.orelse, []
                out.extend(self.fix(tail))
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse'):
            if isinstance(getattr(n, f, None), list):
                setattr(n, f, self.fix(getattr(n, f)))
        return n


class Private(ast.NodeTransformer):
    '''Other names of private attributes and methods.'''
    def name(self, x):
        return x + 'X' if x in PRIVATE else x

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.name(n.attr)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.name = self.name(n.name)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, str):
            n.value = self.name(n.value)
        return n


class Locals(ast.NodeTransformer):
    '''Other names of local variables (functions without inner scopes).'''
    def visit_FunctionDef(self, n):
        inner = [m for m in ast.walk(n) if m is not n and isinstance(m, (
            ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global,
            ast.Nonlocal))]
        if inner:
            self.generic_visit(n)
            return n
        args = {a.arg for m in ast.walk(n) if isinstance(m, ast.arguments)
                for a in m.args + m.kwonlyargs + [m.vararg, m.kwarg] if a}
        names = {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and
                 isinstance(m.ctx, ast.Store)} - args
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and m.id in names:
                m.id = 'v_' + m.id
            elif isinstance(m, ast.ExceptHandler) and m.name in names:
                m.name = 'v_' + m.name
        return n


class Extract(ast.NodeTransformer):
    '''The condition of each if in a method becomes a helper function.'''
    k = 0

    def visit_FunctionDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.If) and not any(isinstance(m, (
                    ast.NamedExpr, ast.Await, ast.Yield))
                    for m in ast.walk(s.test)):
                Extract.k += 1
                f = f'_cond{Extract.k}'
                out.append(ast.FunctionDef(
                    f, ast.arguments([], [], None, [], [], None, []),
                    [ast.Return(s.test)], [], None, type_params=[]))
                s.test = ast.Call(ast.Name(f, ast.Load()), [], [])
            out.append(s)
        n.body = out
        return n


class Nothing(ast.NodeTransformer):
    pass


MODES = {'unparse': Nothing, 'invert': Invert, 'swap': Swap,
         'return': Return, 'noop': Noop, 'while': While, 'comp': Comp,
         'revset': RevSet, 'commute': Commute, 'elif': Elif,
         'private': Private, 'locals': Locals, 'extract': Extract}


def rewrite(R, mode):
    for f in FILES:
        path = os.path.join(R, f)
        tree = ast.parse(open(path).read())
        if mode == 'noannot':
            pass
        tree = MODES[mode]().visit(tree)
        ast.fix_missing_locations(tree)
        src = ast.unparse(tree)
        if mode == 'revset':
            lines = src.split('\n')
            k = max(i for i, l in enumerate(lines) if l.startswith(
                ('from ', 'import '))) + 1
            lines[k:k] = TURNED.split('\n')
            src = '\n'.join(lines)
        open(path, 'w').write(src + '\n')


def run(mode, checks):
    top = tempfile.mkdtemp(prefix='ref-')
    try:
        R = os.path.join(top, 'repo')
        shutil.copytree('/repo', R, symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        rewrite(R, mode)
        env = dict(os.environ, PYTHONPATH=os.path.join(top, 'p'),
                   MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
        os.makedirs(os.path.join(top, 'p'))
        os.symlink(R, os.path.join(top, 'p', 'causets'))
        os.makedirs(os.path.join(top, 'w'))
        mods = [x[:-3] for x in sorted(os.listdir(R))
                if x.startswith('test_') and x.endswith('.py')]
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'unittest'] +
                           ['causets.' + x for x in mods], env=env,
                           cwd=os.path.join(top, 'w'), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(mode, 'tests', p.returncode, p.stdout.strip()[-300:]
              if p.returncode else '', flush=True)
        if p.returncode:
            return
        for c in checks:
            p = subprocess.run(
                ['/opt/venv/bin/python', 'harness/run.py', 'C' + c,
                 '--tier', 'quick'], cwd=V, text=True,
                env=dict(os.environ, CAUSETS_REPO=R,
                         CAUSETS_EVIDENCE=os.path.join(top, 'ev')),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                print(mode, c, 'EXIT', p.returncode, p.stdout[-1500:],
                      flush=True)
        print(mode, 'done', flush=True)
    finally:
        shutil.rmtree(top)


if __name__ == '__main__':
    a = sys.argv[1:]
    checks = [f'{i:02d}' for i in range(1, 32)]
    if '--checks' in a:
        k = a.index('--checks')
        checks, a = a[k + 1:], a[:k]
    for mode in a or MODES:
        run(mode, checks)
