'''C20: causality of flat spacetime, also on periodic space.'''
from causets.spacetimes import FlatSpacetime
from core import W
from build import large
import model
from geo import flat
from checks.geocommon import as_pair, judge_causet, judge_pairs
import numpy as np

RULE = ('points: sets of random points (uniform, dyadic lattice, clustered '
        'around the light cones, far apart, equal times or positions) in '
        'flat spacetime of dimension 1-11, optionally periodic in some or all '
        'directions; every pair against exact rational arithmetic, as '
        'function and as relation of embedded events, and again after '
        'translation, reflection and whole windings. null: exactly null '
        'pairs (Pythagorean tuples). remote: close points (dyadic '
        'differences) up to 10^6 away from the origin. '
        '*_large: the same with 30-70 events. '
        'Non-trivial: a causal and a spacelike '
        'pair.')
ASSUMPTIONS = ['pairs within 1e-7 (relative) of the light cone, but not '
               'exactly on it, are not judged (rounding tolerance)',
               'coordinate differences are of order 1e-5 or larger (the '
               'library keeps an absolute tolerance of 1e-12 on the square)']
REQUIRED = {'large': 20, 'before': 1500, 'after': 1500, 'spacelike': 1500,
            'monitor:embedded': 3000, 'monitor:transitive': 1000,
            'monitor:null': 200, 'wound': 300, 'remote': 3000, 'short period': 100, 'monitor:invalid': 50,
            'monitor:translated': 1000}


def dyadic(rng, span, steps=64):
    return rng.randint(-int(span * steps), int(span * steps)) / steps


def random_points(rng, d, n, span):
    kind = rng.choice(['uniform', 'dyadic', 'cone', 'far', 'mixed'])
    pts = []
    for k in range(n):
        if kind == 'cone' and pts:
            b = pts[0]
            v = [rng.gauss(0, 1) for _ in range(d - 1)]
            r = sum(c * c for c in v)**.5 or 1.0
            s = rng.uniform(.1, span)
            t = b[0] + rng.choice([-1, 1]) * s * (
                1 + rng.choice([-1, 1]) * 10**rng.uniform(-5, -1))
            pts.append([t] + [b[i + 1] + s * v[i] / r for i in range(d - 1)])
        elif kind == 'dyadic' or (kind == 'mixed' and k % 2):
            pts.append([dyadic(rng, span, 4) for _ in range(d)])
        elif kind == 'far':
            pts.append([rng.uniform(-span, span) * rng.choice([1, 1, 20])
                        for _ in range(d)])
        else:
            pts.append([rng.uniform(-span, span) for _ in range(d)])
        if pts and rng.random() < .1:
            i = rng.randrange(d)
            pts[-1][i] = pts[0][i]
    return pts, kind


def random_period(rng, d):
    k = rng.random()
    if d == 1 or k < .35:
        return None, {}
    if k < .6:
        P = rng.choice([1.0, .75, 2.5])
        return [P] * (d - 1), {'period': P}
    P = tuple(rng.choice([0.0, 1.0, .5, 3.25, 1.3]) for _ in range(d - 1))
    return list(P), {'period': P}


def points(ctx, rng, index):
    d = rng.choice([1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8, 11])
    period, kw = random_period(rng, d)
    span = rng.choice([1.0, 1.0, 3.0])
    pts, kind = random_points(rng, d, model.SIZE or rng.randint(2, 7),
                              span)
    what = f'flat {d} period {kw.get("period")}'
    M = ctx.call('FlatSpacetime', FlatSpacetime, d, **kw)
    causal = M.Causality()

    def oracle(x, y):
        return flat(x, y, period)
    V = judge_pairs(ctx, causal, pts, oracle, what)
    flatV = [c for r in V for c in r if c is not None]
    ctx.describe((what, kind, pts), nontrivial=0 in flatV and
                 (1 in flatV or d == 1))
    judge_causet(ctx, M, pts, V, what)
    # invariance: dyadic translations and windings are exact enough
    shift = [dyadic(rng, 4) for _ in range(d)]
    flip = [1] + [rng.choice([-1, 1]) for _ in range(d - 1)]
    for i in range(len(pts)):
        for j in range(i):
            x = np.array([f * (c + s) for c, s, f in
                          zip(pts[i], shift, flip)])
            y = np.array([f * (c + s) for c, s, f in
                          zip(pts[j], shift, flip)])
            if period is not None:
                for m in range(1, d):
                    if period[m - 1] > 0:
                        w = rng.randint(-3, 3)
                        x[m] += w * period[m - 1]
                        ctx.count('wound', w != 0)
            if V[i][j] is None or oracle(list(x), list(y)) is None:
                continue
            got = as_pair(causal(x, y))
            ctx.equal(got, (V[i][j] > 0, V[i][j] < 0), 'translated',
                      lambda: f'{x.tolist()} to {y.tolist()} in {what}')


def remote(ctx, rng, index):
    '''Close points (dyadic differences) far away from the origin.'''
    d = rng.choice([1, 2, 3, 4, 4, 5])
    unit = 2.0**-rng.randint(4, 16)
    base = [rng.choice([0.0, 1.0, -1.0]) * rng.randint(1, 2**12) *
            rng.choice([1.0, 16.0, 256.0]) for _ in range(d)]
    pts = [[b + unit * rng.randint(-12, 12) for b in base]
           for _ in range(rng.randint(2, 6))]
    kw = {}
    if d > 1 and rng.random() < .3:
        P = rng.choice([2.0**22, unit * rng.randint(5, 40)])
        kw = {'period': tuple(rng.choice([0.0, P]) for _ in range(d - 1))}
        ctx.count('short period', 0 < max(kw['period']) < 2.0**22)
    per = list(kw['period']) if kw else None
    what = f'flat {d} {kw} at {base}'
    M = FlatSpacetime(d, **kw)
    V = judge_pairs(ctx, M.Causality(), pts,
                    lambda x, y: flat(x, y, per, local=True), what)
    V1 = [c for r in V for c in r if c is not None]
    ctx.count('remote', len(V1))
    ctx.describe((what, pts), nontrivial=any(c != 0 for c in V1))
    judge_causet(ctx, M, pts, V, what)


TUPLES = [(5, 3, 4), (13, 5, 12), (17, 8, 15), (25, 7, 24), (3, 1, 2, 2),
          (7, 2, 3, 6), (9, 1, 4, 8), (11, 2, 6, 9), (2, 1, 1, 1, 1),
          (4, 2, 2, 2, 2), (5, 1, 2, 2, 4), (1, 1), (7, 7), (3, 3, 0),
          (6, 0, 6), (1, 0, 0, 1)]


def null(ctx, rng, index):
    T = rng.choice(TUPLES)
    d = len(T)
    scale = 2.0**rng.randint(-5, 3)
    sp = list(T[1:])
    rng.shuffle(sp)
    a = [dyadic(rng, 2, 16) for _ in range(d)]
    b = [a[0] + scale * T[0]] + [c + rng.choice([-1, 1]) * scale * s
                                 for c, s in zip(a[1:], sp)]
    kw = {}
    if rng.random() < .4 and d > 1:
        # windings of dyadic periods stay exact
        P = [rng.choice([0.0, 64.0, 128.0 * scale]) for _ in range(d - 1)]
        kw = {'period': tuple(P)}
        for m in range(1, d):
            if P[m - 1] > 2 * abs(b[m] - a[m]):
                b[m] += rng.randint(-2, 2) * P[m - 1]
    per = list(kw['period']) if kw else None
    want = flat(a, b, per)
    ctx.describe((a, b, per), nontrivial=True)
    causal = FlatSpacetime(d, **kw).Causality()
    if want is None:
        return
    ctx.equal(as_pair(causal(np.array(a), np.array(b))),
              (want > 0, want < 0), 'null', lambda: f'{a} to {b} {per}')
    ctx.equal(as_pair(causal(np.array(b), np.array(a))),
              (want < 0, want > 0), 'null', lambda: f'{b} to {a} {per}')


def invalid(ctx, rng, index):
    d = rng.randint(2, 5)
    for bad in (0, -1, -rng.randint(2, 9)):
        ctx.raises('invalid', ValueError, FlatSpacetime, bad)
    for bad in ((1.0,) * d, (1.0,) * (d - 2), 'x', [1.0] * (d - 1), None):
        ctx.raises('invalid', ValueError, FlatSpacetime, d, period=bad)
    M = FlatSpacetime(d, period=(0.0,) * (d - 1))
    ctx.check(not M.Parameter('isPeriodic'), 'invalid', 'zero periods')
    ctx.equal(M.Dim, d, 'invalid', 'Dim')


WORKLOADS = [W(points, 6400, 128000), W(null, 3200, 64000),
             W(remote, 2400, 48000),
             large(points, 24, 480), W(invalid, 40, 40)]
