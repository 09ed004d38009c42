'''C22: causality of the two-dimensional black hole spacetime.'''
import math
from causets.spacetimes import BlackHoleSpacetime
from core import W
from build import large
import model
from geo import blackhole, _null_coordinates
from checks.geocommon import as_pair, judge_causet, judge_pairs
import numpy as np

RULE = ('points: random sets of points on one or both sides of black holes '
        'of radius 0.1-4 in both metrics, inside, outside and across the '
        'horizon or (Eddington-Finkelstein) exactly on it, at any time, '
        'spread or clustered around the light rays of the first '
        'point; every pair judged by its null coordinates, as function and '
        'as relation of embedded events; again after time translation and '
        'reflection; rays: pairs placed on either side of a numerically '
        'integrated light ray (Runge-Kutta of the metric, an oracle that '
        'does not use the closed form). '
        'nearby: points 1e-1 to 1e-6 radii apart (also close to the horizon and '
        'the centre) around their light rays, for radii 1e-3 to 1e3. '
        '*_large: the same with 30-70 events. '
        'Non-trivial: a causal and a '
        'spacelike pair.')
ASSUMPTIONS = ['pairs within 1e-6 of a light ray or the singularity are not '
               'judged (rounding)',
               'points within 1e-9 of the horizon are judged only if they '
               'are exactly on it in Eddington-Finkelstein coordinates '
               '(Schwarzschild coordinates do not cover it)']
REQUIRED = {'large': 20, 'before': 1000, 'after': 1000, 'spacelike': 1000,
            'monitor:embedded': 3000, 'monitor:transitive': 600,
            'monitor:moved': 1000, 'inside-inside': 300,
            'across': 500, 'on horizon': 300, 'opposite': 300, 'outside-outside': 300,
            'near ray': 200, 'monitor:nearby': 8000,
            'nearby related': 1500, 'nearby spacelike': 1500,
            'nearby across': 200, 'nearby 1e-6': 500, 'nearby 1e-5': 500, 'monitor:ray': 200, 'monitor:invalid': 40}
METRICS = ('Eddington-Finkelstein', 'Schwarzschild')


def random_points(ctx, rng, rs, edd, n):
    spread = rng.choice([.5, 2.0, 5.0])
    bothsides = rng.random() < .5
    pts = []
    for k in range(model.SIZE or n):
        r = rs * rng.choice([rng.uniform(.02, .98), rng.uniform(.02, .98),
                             rng.uniform(1.02, 3), rng.uniform(1.001, 8)])
        if edd and rng.random() < .15:  # on the horizon
            r = rs
            ctx.count('on horizon')
        t = rs * rng.uniform(-spread, spread)
        if pts and rs not in (r, abs(pts[0][1])) and rng.random() < .4:
            v, w = _null_coordinates(pts[0], rs, edd)
            v2, w2 = _null_coordinates([0, r], rs, edd)
            t = rng.choice([v - v2, w - w2]) + rng.choice([-1, 1]) * \
                10**rng.uniform(-4, -1)
            ctx.count('near ray')
        side = -1 if bothsides and rng.random() < .5 else 1
        if pts and rng.random() < .1:
            r = abs(pts[0][1])
        pts.append([t, side * r])
    if rng.random() < .2:  # far from time zero
        offset = rng.choice([-1, 1]) * 10**rng.uniform(1, 3)
        pts = [[t + offset, r] for t, r in pts]
    if not bothsides and rng.random() < .5:
        pts = [[t, -r] for t, r in pts]
    return pts


def points(ctx, rng, index):
    metric = rng.choice(METRICS)
    edd = metric == METRICS[0]
    rs = rng.choice([1.0, .5, rng.uniform(.1, 4)])
    M = BlackHoleSpacetime(2, r_S=rs, metric=metric)

    def oracle(x, y):
        return blackhole(x, y, rs, edd)
    pts = random_points(ctx, rng, rs, edd, rng.randint(2, 8))
    what = f'black hole {rs} {metric}'
    causal = ctx.call('Causality', M.Causality)
    V = judge_pairs(ctx, causal, pts, oracle, what)
    known = [c for r in V for c in r if c is not None]
    ctx.describe((what, pts), nontrivial=0 in known and 1 in known)
    for i, x in enumerate(pts):
        for y in pts[:i]:
            inside = (abs(x[1]) < rs) + (abs(y[1]) < rs)
            ctx.count(('outside-outside', 'across', 'inside-inside')[inside]
                      if x[1] * y[1] > 0 else 'opposite')
    judge_causet(ctx, M, pts, V, what)
    dt, flip = rng.uniform(-2, 2), rng.choice([-1, 1])
    moved = [[t + dt, flip * r] for t, r in pts]
    for i in range(len(pts)):
        for j in range(len(pts)):
            if i == j or V[i][j] is None or \
                    oracle(moved[i], moved[j]) is None:
                continue
            got = as_pair(causal(np.array(moved[i]), np.array(moved[j])))
            ctx.equal(got, (V[i][j] > 0, V[i][j] < 0), 'moved',
                      lambda: f'{moved[i]} to {moved[j]} in {what}')


def slopes(r, rs, edd):
    '''dt/dr of the two radial light rays, from the line element.'''
    if edd:     # ds^2 = (1-rs/r)dt^2 - 2rs/r dt dr - (1+rs/r)dr^2 = 0
        A, B, C = 1 - rs / r, -2 * rs / r, -(1 + rs / r)
    else:       # ds^2 = (1-rs/r)dt^2 - dr^2/(1-rs/r)
        A, B, C = 1 - rs / r, 0.0, -1 / (1 - rs / r)
    D = math.sqrt(B * B - 4 * A * C)
    return (-B - D) / (2 * A), (-B + D) / (2 * A)


def integrate(r0, r1, which, rs, edd):
    n = 400
    h = (r1 - r0) / n
    t = 0.0
    for k in range(n):
        r = r0 + k * h
        f = [slopes(q, rs, edd)[which] for q in (r, r + h / 2, r + h)]
        t += h * (f[0] + 4 * f[1] + f[2]) / 6
    return t


def rays(ctx, rng, index):
    metric = rng.choice(METRICS)
    edd = metric == METRICS[0]
    rs = rng.choice([1.0, .5, rng.uniform(.2, 3)])
    inside = rng.random() < .5
    lo, hi = (.15, .9) if inside else (1.15, 4.0)
    r0, r1 = rs * rng.uniform(lo, hi), rs * rng.uniform(lo, hi)
    if abs(r0 - r1) < .1 * rs:
        return
    t0 = rng.uniform(-1, 1)
    A = integrate(r0, r1, 0, rs, edd)
    B = integrate(r0, r1, 1, rs, edd)
    eps = .01 * rs
    causal = BlackHoleSpacetime(2, r_S=rs, metric=metric).Causality()
    side = rng.choice([-1, 1])
    ctx.describe((metric, rs, r0, r1, t0), nontrivial=True)

    def ask(dt):
        return as_pair(causal(np.array([t0, side * r0]),
                              np.array([t0 + dt, side * r1])))
    lo, hi = min(A, B), max(A, B)
    inward = r1 < r0
    # between and beyond the two rays, from (t0, r0) to radius r1
    between = (inward, not inward) if inside else (False, False)
    above = (False, False) if inside else (True, False)
    below = (False, False) if inside else (False, True)
    for dt, want in ((lo - eps, below), (lo + eps, between),
                     ((lo + hi) / 2, between), (hi - eps, between),
                     (hi + eps, above)):
        if hi - lo < 3 * eps and want == between:
            continue
        ctx.equal(ask(dt), want, 'ray',
                  lambda: f'({t0}, {r0}) to radius {r1} after {dt}, rays '
                          f'arrive after {lo}, {hi}; {metric} {rs}')


def nearby(ctx, rng, index):
    '''Points 1e-1 to 1e-6 radii apart, also close to the horizon and to the
    centre, for black holes of any size.'''
    metric = rng.choice(METRICS)
    edd = metric == METRICS[0]
    rs = rng.choice([1.0, 10**rng.uniform(-3, 3)])
    causal = ctx.call('Causality', BlackHoleSpacetime(
        2, r_S=rs, metric=metric).Causality)
    r = rs * rng.choice([rng.uniform(.01, .99), rng.uniform(1.01, 6),
                         1 + rng.choice([-1, 1]) * 10**rng.uniform(-4, -2)])
    step = rng.choice([-1, 1]) * rs * 10**rng.uniform(-6, -1)
    if edd and rng.random() < .1:   # close to the horizon, on either side
        r, step = rs * (1 - 10**rng.uniform(-4, -2)), abs(step)
    side = rng.choice([-1, 1])
    q = r + step if r + step > .001 * rs else r - step
    x = [rs * rng.choice([0.0, rng.uniform(-5, 5)]), side * r]
    what = f'black hole {rs} {metric}'
    ctx.describe((what, x, q), nontrivial=True)
    v, w = (b - a for a, b in zip(_null_coordinates([0.0, r], rs, edd),
                                  _null_coordinates([0.0, q], rs, edd)))
    for k in range(8):
        f = rng.choice([1 + rng.choice([-1, 1]) * 10**rng.uniform(-3, -.5),
                        rng.uniform(-3, 3)])
        y = [x[0] - f * rng.choice([v, w]), side * q]
        want = blackhole(x, y, rs, edd, 1e-10 * rs)
        if want is None or blackhole(y, x, rs, edd, 1e-10 * rs) is None:
            ctx.count('undecided')
            continue
        for a, b, s in ((x, y, want), (y, x, -want)):
            got = as_pair(causal(np.array(a), np.array(b)))
            ctx.equal(got, (s > 0, s < 0), 'nearby',
                      lambda: f'{a} to {b} in {what}')
        ctx.count(f'nearby 1e{math.floor(math.log10(abs(q - r) / rs))}')
        ctx.count('nearby ' + ('related' if want else 'spacelike'))
        if (r < rs) != (q < rs):
            ctx.count('nearby across')


def invalid(ctx, rng, index):
    for d in (1, 0, 3, 4, -rng.randint(1, 5)):
        ctx.raises('invalid', ValueError, BlackHoleSpacetime, d)
    ctx.raises('invalid', ValueError, BlackHoleSpacetime, 2,
               r_S=-rng.random())
    ctx.raises('invalid', ValueError, BlackHoleSpacetime, 2, r_S=0.0)
    for m in ('Kerr', '', 'schwarzschild'):
        ctx.raises('invalid', ValueError, BlackHoleSpacetime, 2, metric=m)
    ctx.equal(BlackHoleSpacetime(2).MetricName, METRICS[0], 'invalid',
              'default metric')
    ctx.describe('invalid', nontrivial=False)


WORKLOADS = [W(points, 9600, 192000), W(rays, 1920, 38400), 
             W(invalid, 20, 20), W(nearby, 2000, 40000), large(points, 24, 480)]
