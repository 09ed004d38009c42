'''C30: harmonic numbers and Newton's method.'''
from fractions import Fraction
import math
import warnings
from causets import calculations as calc
from core import W
import numpy as np

RULE = ('harmonic: random n (small, around the threshold, up to 10^5, large '
        'up to 10^15, as int or integer of numpy) and thresholds against the defining sum (exact '
        'fractions, compensated sums) within the next term of the asymptotic '
        'expansion, and the vector element by element (vectors: long ones); '
        'exact fractions against a recursive splitting. newton: random convex, concave and '
        'linear functions with known roots, levels, starting points, bounds '
        'and precisions: found roots, number of iterations (counted in the '
        'hooked function), defaults for vanishing derivatives, functions '
        'without a root and too few iterations. Non-trivial: every case.')
ASSUMPTIONS = ['the asymptotic expansion is cut after its third term: an '
               'error of 1/(252 n^6) is inherent (thresholds of 0 are not '
               'sensible)',
               'roots closer to a bound than the precision are not judged']
REQUIRED = {'monitor:harmonic': 300, 'monitor:vector': 60,
            'monitor:fraction': 60, 'monitor:fractions': 40,
            'monitor:root': 150, 'monitor:default': 80,
            'monitor:iterations': 200, 'monitor:bounds': 150,
            'monitor:growth': 300, 'numpy_int': 40}
_exact = [Fraction(0)]
_float = [0.0]


def exact(n):
    while len(_exact) <= n:
        _exact.append(_exact[-1] + Fraction(1, len(_exact)))
    return _exact[n]


def reference(n):
    '''H_n to full precision.'''
    if n <= 300:
        return float(exact(n))
    if n <= 200000:
        return math.fsum(1.0 / k for k in range(1, n + 1))
    x = float(n)
    return math.log(x) + 0.57721566490153286 + .5 / x - 1 / (12 * x**2) + \
        1 / (120 * x**4)


def tolerance(n, threshold):
    t = 1e-12
    if n >= threshold and n > 0:
        t += 1.01 / 252 / float(n)**6
    return t


def harmonic(ctx, rng, index):
    threshold = rng.choice([1, 2, 3, 5, 10, 30, 100, 100, 1000])
    kw = {} if threshold == 100 and rng.random() < .7 else \
        {'approximate': threshold}
    k = rng.random()
    if k < .35:
        n = rng.randint(0, 40)
    elif k < .7:
        n = max(0, threshold + rng.randint(-3, 3))
    elif k < .95:
        n = int(10**rng.uniform(1, 4.5))
    else:
        n = int(10**rng.uniform(5, 15))
    if rng.random() < .15:      # also an entry of an array
        if rng.random() < .5:
            n = rng.randint(1, 9) * 2**rng.randint(14, 40)
        n = np.int64(n)
        ctx.count('numpy_int')
    ctx.describe(('H', int(n), threshold, type(n).__name__))
    what = f'n {n} threshold {threshold}'
    h = ctx.call('HarmonicNumber', calc.HarmonicNumber, n, **kw)
    ctx.close(h, reference(n), 'harmonic', 1e-12, tolerance(n, threshold),
              what)
    if n < 20000:
        V = ctx.call('HarmonicNumbers', calc.HarmonicNumbers, n, **kw)
        ctx.check(isinstance(V, np.ndarray) and V.shape == (n + 1,),
                  'vector', lambda: f'{V}: {what}')
        for m in sorted({0, n, min(n, threshold), min(n, threshold - 1),
                         rng.randint(0, n), rng.randint(0, min(n, 300)),
                         rng.randint(0, n)}):
            one = ctx.call('HarmonicNumber', calc.HarmonicNumber, m, **kw)
            ctx.close(float(V[m]), one, 'vector', 1e-12, 1e-12,
                      f'element {m}; {what}')
            ctx.close(float(V[m]), reference(m), 'harmonic', 1e-12,
                      tolerance(m, threshold), f'element {m}; {what}')
        if threshold >= 30:
            step = np.diff(V) * np.arange(1, n + 1)
            ctx.check(((step > .99) & (step < 1.01)).all() if n < 10000
                      else True, 'growth',
                      lambda: f'{step.min()} {step.max()}; {what}')
        ctx.n['monitor:growth'] += n > 0


_long = []


def vectors(ctx, rng, index):
    '''Long vectors of harmonic numbers, every element.'''
    if not _long:
        _long.append(np.concatenate([[0.0], np.cumsum(
            1 / np.arange(1, 2**18 + 9, dtype=np.longdouble))]))
    n = rng.choice([2**16, 2**17, 2**18]) + rng.randint(-3, 8)
    threshold = rng.choice([1000, 100, 30, 10000])
    kw = {} if threshold == 100 else {'approximate': threshold}
    ctx.describe(('V', n, threshold))
    V = ctx.call('HarmonicNumbers', calc.HarmonicNumbers, n, **kw)
    ctx.equal(len(V), n + 1, 'vector', f'length for {n}')
    want = _long[0][:n + 1]
    k = np.arange(n + 1)
    tol = 1e-12 * (1 + want) + np.where(
        k >= threshold, 1.01 / 252 / np.maximum(k, 1.0)**6, 0)
    wrong = np.flatnonzero(~(np.abs(V - want) <= tol))
    ctx.check(not len(wrong), 'vector', lambda: f'{len(wrong)} of {n} '
              f'elements differ, the first is {wrong[0]}: {V[wrong[0]]}')
    for m in (2**rng.randint(14, 50), 10**rng.randint(4, 15)):
        ctx.close(ctx.call('HarmonicNumber', calc.HarmonicNumber, m, **kw),
                  reference(m), 'harmonic', 1e-12, tolerance(m, threshold),
                  f'n {m}')


def fractions(ctx, rng, index):
    n = rng.choice([0, 1, 2, 3, rng.randint(0, 60), rng.randint(0, 300)])
    ctx.describe(('F', n, index))
    f = ctx.call('HarmonicNumberFraction', calc.HarmonicNumberFraction, n)
    ctx.check(isinstance(f, Fraction), 'fraction', repr(f))
    ctx.equal(f, exact(n), 'fraction', f'n {n}')
    F = ctx.call('HarmonicNumberFractions', calc.HarmonicNumberFractions, n)
    ctx.equal(len(F), n + 1, 'fractions', f'n {n}')
    ctx.equal([x for x in F], _exact[:n + 1] if n < len(_exact) else None,
              'fractions', f'n {n}')
    ctx.check(all(isinstance(x, Fraction) for x in F), 'fractions', 'type')
    if n:
        ctx.close(ctx.call('HarmonicNumber', calc.HarmonicNumber, n),
                  float(f), 'harmonic', 1e-12, 1e-12, f'n {n}')


class Hooked:
    '''Counts the evaluations.'''

    def __init__(self, f):
        self.f, self.calls, self.seen = f, 0, []

    def __call__(self, x):
        self.calls += 1
        self.seen.append(x)
        return self.f(x)


def family(rng):
    '''(name, f, f', g) with g the inverse of f on its branch, increasing or
    decreasing, convex or concave; (lo, hi) a range of roots.'''
    s = rng.choice([-1, 1])
    k = rng.randrange(6)
    c = rng.uniform(.3, 2)
    if k == 0:
        return ('exp', lambda x: s * math.exp(c * x),
                lambda x: s * c * math.exp(c * x), -1, 2, 'any')
    if k == 1:
        return ('square', lambda x: s * c * x * x, lambda x: 2 * s * c * x,
                .5, 4, 'positive')
    if k == 2:
        return ('line', lambda x: s * c * x + 1, lambda x: s * c, -4, 4,
                'any')
    if k == 3:
        return ('cubic', lambda x: s * (x**3 + c * x),
                lambda x: s * (3 * x * x + c), .5, 3, 'positive')
    if k == 4:
        return ('log', lambda x: s * math.log(x) if x > 0 else math.nan,
                lambda x: s / x if x > 0 else math.nan, .5, 3, 'left')
    return ('ray', lambda x: s * (x + c * math.log1p(x)),
            lambda x: s * (1 + c / (1 + x)), .5, 3, 'positive')


def newton(ctx, rng, index):
    name, f, fp, lo, hi, side = family(rng)
    root = rng.uniform(lo, hi)
    p = rng.choice([1e-6, 1e-6, 1e-3, 1e-2, 1e-9])
    far = 0.0
    if rng.random() < .4:
        # the same function around a far root
        far = rng.choice([-1, 1]) * rng.choice([16.0, 256.0, 1024.0, 8192.0])
        if p < 1e-8:
            far /= 16
        g, gp = f, fp
        f, fp = (lambda x: g(x - far)), (lambda x: gp(x - far))
        ctx.count('far')
    y = f(root + far)
    if rng.random() < .3:
        f0, y0 = f, y
        f, y = (lambda x: f0(x) - y0), 0.0
    if side == 'left':
        x0 = root * rng.uniform(.4, 1)
    elif side == 'positive':
        x0 = root * rng.uniform(.6, 2.5)
    else:
        x0 = root + rng.uniform(-1.5, 1.5)
    if rng.random() < .1:
        x0 = root
    root, x0 = root + far, x0 + far
    kw = {'precission': p} if p != 1e-6 or rng.random() < .3 else {}
    if y != 0.0 or rng.random() < .3:
        kw['y'] = y
    sentinel = rng.choice([-77.5, math.nan, 0.0, 1e9])
    if sentinel != 0.0:
        kw['default'] = sentinel
    bounded = rng.random() < .6
    if bounded:
        a, b = rng.choice([(1, 0), (0, 1), (1, 1)])
        if a:
            kw['xmin'] = root - rng.choice([.05, .3, 2])
            if side in ('positive', 'left') and kw['xmin'] < far:
                kw['xmin'] = far
            x0 = max(x0, kw['xmin'] + p)
        if b:
            kw['xmax'] = root + rng.choice([.05, .3, 2])
            x0 = min(x0, kw['xmax'] - p)
    if rng.random() < .3:
        kw['maxIterations'] = rng.choice([0, 1, 2, 3, 5, 20, 100])
    limit = kw.get('maxIterations', 50)
    F, FP = Hooked(f), Hooked(fp)
    ctx.describe((name, round(root, 3), round(x0, 3), tuple(sorted(kw)), p))
    what = f'{name} root {root} start {x0} {kw}'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = ctx.call('NewtonsMethod', calc.NewtonsMethod, F, FP, x0, **kw)
    ctx.check(F.calls <= limit and FP.calls <= limit, 'iterations',
              lambda: f'{F.calls} evaluations; {what}')
    for x in F.seen + FP.seen:
        ctx.check(x == x0 or kw.get('xmin', -math.inf) <= x <=
                  kw.get('xmax', math.inf), 'bounds',
                  lambda: f'evaluated at {x}; {what}')
    isdefault = r == sentinel or (r != r and sentinel != sentinel)
    # how many steps the plain iteration needs to the root
    steps, x = 0, x0
    while steps < 200 and abs(x - root) > max(p * .01, 1e-15 * abs(far)):
        nxt = x - (f(x) - y) / fp(x)
        if 'xmin' in kw and nxt < kw['xmin']:
            nxt = kw['xmin'] + p
        if 'xmax' in kw and nxt > kw['xmax']:
            nxt = kw['xmax'] - p
        x, steps = nxt, steps + 1
    if steps + 2 <= limit:
        ctx.check(not isdefault or abs(sentinel - root) < 2 * p, 'root',
                  f'not found in {F.calls} iterations; {what}')
    if steps > limit + 2 and not isdefault:
        ctx.check(abs(r - root) < .1, 'root', f'{r}; {what}')
    if not isdefault:
        ctx.check(abs(r - root) <= 2 * p, 'root', lambda: f'{r}; {what}')
        ctx.check(kw.get('xmin', -math.inf) <= r <=
                  kw.get('xmax', math.inf), 'bounds',
                  lambda: f'{r}; {what}')
        ctx.count('found')
    else:
        ctx.count('not_found')


def hopeless(ctx, rng, index):
    '''No root, or no derivative.'''
    k = rng.randrange(4)
    sentinel = rng.choice([None, -3.25, 7.0, 1e9])
    kw = {} if sentinel is None else {'default': sentinel}
    want = 0.0 if sentinel is None else sentinel
    if rng.random() < .3:
        kw['maxIterations'] = rng.choice([0, 1, 10])
    limit = kw.get('maxIterations', 50)
    if k == 0:
        f, fp, x0 = (lambda x: 3.0), (lambda x: 0.0), rng.uniform(-5, 5)
    elif k == 1:
        c = rng.uniform(.5, 3)
        f, fp, x0 = (lambda x: x * x + c), (lambda x: 2 * x), 0.0
    elif k == 2:
        # the tangents lead away for ever
        f, fp = math.exp, math.exp
        x0 = rng.uniform(-2, 2)
        kw['maxIterations'] = limit = min(limit, 40)
    else:
        # the cycle 0 -> 1 -> 0 -> ... of x^3 - 2 x + 2
        f, fp = (lambda x: x**3 - 2 * x + 2), (lambda x: 3 * x * x - 2)
        x0 = rng.choice([0.0, 1.0])
    F, FP = Hooked(f), Hooked(fp)
    ctx.describe(('none', k, x0, tuple(sorted(kw)), index))
    what = f'kind {k} start {x0} {kw}'
    r = ctx.call('NewtonsMethod', calc.NewtonsMethod, F, FP, x0, **kw)
    ctx.equal(r, want, 'default', what)
    ctx.check(F.calls <= limit and FP.calls <= max(limit, 1), 'iterations',
              lambda: f'{F.calls} evaluations; {what}')
    if k in (2, 3) and limit:
        ctx.check(F.calls >= limit - 1, 'iterations', lambda: f'gave up '
                  f'after {F.calls} iterations; {what}')


WORKLOADS = [W(harmonic, 6400, 128000), W(fractions, 960, 19200),
             W(vectors, 24, 480),
             W(newton, 8000, 160000), W(hopeless, 3200, 64000)]
