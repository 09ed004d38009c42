'''C21: causality of de Sitter and anti-de Sitter spacetime.'''
import math
from causets.spacetimes import deSitterSpacetime, AntideSitterSpacetime
from core import W
from build import large
import model
from geo import antidesitter, desitter, nearby_travel
from checks.geocommon import as_pair, judge_causet, judge_pairs
import numpy as np

RULE = ('points: random sets of points of de Sitter (inside, across and '
        'outside the horizon) and anti-de Sitter space (also separated by '
        'more than half a period of the conformal sphere), of dimension 2-7 '
        'and radius 0.1-4, spread, clustered around the light cone of the '
        'first point (at travel times 1+-1e-1..1e-4), at equal times or '
        'positions, around time zero or times of up to 30000 radii; every pair judged by the light travel time in static '
        'coordinates, as function and as relation of embedded events, and '
        'again after time translation and spatial rotation. '
        'nearby: points 1e-1 to 3e-5 radii apart, off by 1e-4 to some times the '
        'travel time, judged in 60 digits. '
        '*_large: the same with 30-70 events. '
        'Non-trivial: a '
        'causal and a spacelike pair.')
ASSUMPTIONS = ['pairs within 1e-5 radii of the light cone, the horizon or '
               'half the conformal period are not judged (rounding)',
               'pairs of points whose squared distances differ by less than '
               '1e-10 are not judged (the library keeps an absolute '
               'tolerance of 1e-12)']
REQUIRED = {'large': 20, 'before': 1500, 'after': 1500, 'spacelike': 1500,
            'monitor:embedded': 4000, 'monitor:transitive': 1000,
            'monitor:moved': 1500, 'outside horizon': 60,
            'beyond half period': 150, 'large times': 500,
            'long separations': 200, 'near cone': 300,
            'monitor:nearby': 8000, 'nearby related': 1500,
            'nearby spacelike': 1500, 'nearby 1e-4': 500, 'nearby 1e-5': 100,
            'monitor:invalid': 40}


def unit(rng, k):
    v = [rng.gauss(0, 1) for _ in range(k)]
    r = math.sqrt(sum(c * c for c in v)) or 1.0
    return [c / r for c in v]


def travel_time(kind, x, y, a):
    d = sum(p * q for p, q in zip(x[1:], y[1:])) / a**2
    r, s = (sum(p * p for p in q[1:]) / a**2 for q in (x, y))
    if kind == 'dS':
        if r >= 1 or s >= 1:
            return None
        return a * math.acosh(max(1, (1 - d) / math.sqrt((1 - r) * (1 - s))))
    c = (1 + d) / math.sqrt((1 + r) * (1 + s))
    return a * math.acos(max(-1, min(1, c)))


def random_points(ctx, rng, kind, d, a, n):
    spread = rng.choice([.3, 1.0, 2.5])
    pts = []
    for k in range(n):
        if kind == 'dS':
            r = a * rng.choice([rng.random(), rng.random()**.5 * .97, 0.0,
                                rng.uniform(1.0, 2.0)
                                if rng.random() < .4 else .5])
        else:
            r = a * rng.choice([rng.random(), rng.uniform(0, 4), 0.0,
                                10**rng.uniform(0, 3)])
        x = [0.0] + [r * c for c in unit(rng, d - 1)]
        if kind == 'AdS' and pts and rng.random() < .1:
            # far out on about the opposite side
            x[1:] = [-10**rng.uniform(-.3, 2.5) * c for c in pts[0][1:]]
            ctx.count('opposite')
        if pts and rng.random() < .1:
            x[1:] = pts[0][1:]
        x[0] = a * rng.uniform(-spread, spread)
        if pts and rng.random() < .4:
            T = travel_time(kind, pts[0], x, a)
            if T is not None:
                f = 1 + rng.choice([-1, 1]) * 10**rng.uniform(-4, -1)
                x[0] = pts[0][0] + rng.choice([-1, 1]) * T * f
                ctx.count('near cone')
        elif pts and rng.random() < .1:
            x[0] = pts[0][0]
        if abs(x[0]) > 6 * a:
            x[0] = a
        pts.append(x)
    if rng.random() < .3:  # far from time zero
        offset = a * rng.choice([-1, 1]) * 10**rng.uniform(.5, 4.5)
        for x in pts:
            x[0] += offset
        ctx.count('large times')
    if rng.random() < .1:  # far apart
        pts[-1][0] += a * rng.choice([-1, 1]) * 10**rng.uniform(1, 4)
        ctx.count('long separations')
    return pts


def rotation(rng, k):
    A = np.array([[rng.gauss(0, 1) for _ in range(k)] for _ in range(k)])
    Q, _ = np.linalg.qr(A)
    return Q


def points(ctx, rng, index):
    kind = rng.choice(['dS', 'AdS'])
    d = rng.choice([2, 2, 3, 3, 4, 5, 7])
    a = rng.choice([1.0, .5, rng.uniform(.1, 4)])
    M = deSitterSpacetime(d, r_dS=a) if kind == 'dS' \
        else AntideSitterSpacetime(d, r_AdS=a)
    f = desitter if kind == 'dS' else antidesitter

    def oracle(x, y):
        return f(x, y, a)
    pts = random_points(ctx, rng, kind, d, a,
                        model.SIZE or rng.randint(2, 8))
    what = f'{kind} {d} radius {a}'
    causal = ctx.call('Causality', M.Causality)
    V = judge_pairs(ctx, causal, pts, oracle, what)
    known = [c for r in V for c in r if c is not None]
    ctx.describe((what, pts), nontrivial=0 in known and 1 in known)
    for x in pts:
        if kind == 'dS' and sum(c * c for c in x[1:]) > a * a:
            ctx.count('outside horizon')
        for y in pts:
            if kind == 'AdS' and abs(x[0] - y[0]) > math.pi * a * 1.0001:
                ctx.count('beyond half period')
    judge_causet(ctx, M, pts, V, what)
    Q = rotation(rng, d - 1)
    dt = a * rng.uniform(-1, 1)
    moved = [[x[0] + dt] + list(Q @ np.array(x[1:])) for x in pts]
    for i in range(len(pts)):
        for j in range(len(pts)):
            if i == j or V[i][j] is None or \
                    oracle(moved[i], moved[j]) is None:
                continue
            got = as_pair(causal(np.array(moved[i]), np.array(moved[j])))
            ctx.equal(got, (V[i][j] > 0, V[i][j] < 0), 'moved',
                      lambda: f'{moved[i]} to {moved[j]} in {what}')


def nearby(ctx, rng, index):
    '''Points 1e-1 to 3e-5 radii apart, around and far from the origin, and
    times between 0 and some multiple of the travel time.'''
    kind = rng.choice(['dS', 'AdS'])
    d = rng.choice([2, 2, 3, 4, 5])
    a = rng.choice([1.0, .5, rng.uniform(.3, 4), rng.uniform(4, 50)])
    M = deSitterSpacetime(d, r_dS=a) if kind == 'dS' \
        else AntideSitterSpacetime(d, r_AdS=a)
    r = a * rng.choice([0.0, rng.uniform(0, .5), rng.uniform(.5, .95)
                        if kind == 'dS' else rng.uniform(.5, 3)])
    x = [a * rng.choice([0.0, rng.uniform(-1, 1), rng.uniform(-40, 40)])]
    x += [r * c for c in unit(rng, d - 1)]
    distance = a * 10**rng.uniform(-4.5, -1)
    y = [0.0] + [p + distance * c for p, c in zip(x[1:], unit(rng, d - 1))]
    if kind == 'dS' and sum(c * c for c in y[1:]) > .95 * a * a:
        y[1:] = [.8 * c for c in x[1:]]
        y[1] += distance
        x[1:] = [.8 * c for c in x[1:]]
    T = nearby_travel(x, y, a, kind == 'dS')
    sign = -1 if kind == 'dS' else 1
    f2 = (1 + sign * sum(c * c for c in x[1:]) / a**2)  # lapse squared
    causal = ctx.call('Causality', M.Causality)
    what = f'{kind} {d} radius {a}'
    ctx.describe((what, x, y), nontrivial=True)
    for k in range(8):
        f = rng.choice([1 + rng.choice([-1, 1]) * rng.uniform(.02, .5),
                        rng.uniform(0, .9), 1 + 10**rng.uniform(-1.5, 1),
                        1 + rng.choice([-1, 1]) * 10**rng.uniform(-4, -1.5)])
        y[0] = x[0] + rng.choice([-1, 1]) * f * T
        if abs(f - 1) * f2 * T * T < 1e-10 * max(1.0, a * a) or \
                abs(f - 1) * T < 1e-10 * a or f * T > 2 * a:
            ctx.count('undecided')
            continue
        want = 0 if f < 1 else 1 if y[0] > x[0] else -1
        for p, q, w in ((x, y, want), (y, x, -want)):
            got = as_pair(causal(np.array(p), np.array(q)))
            ctx.equal(got, (w > 0, w < 0), 'nearby',
                      lambda: f'{p} to {q} in {what}: {f} of the travel '
                              f'time {T}')
        ctx.count(f'nearby 1e{math.floor(math.log10(T / a))}')
        ctx.count('nearby ' + ('related' if want else 'spacelike'))


def invalid(ctx, rng, index):
    for S, key in ((deSitterSpacetime, 'r_dS'),
                   (AntideSitterSpacetime, 'r_AdS')):
        for d in (1, 0, -rng.randint(1, 5)):
            ctx.raises('invalid', ValueError, S, d)
        for r in (0.0, -rng.uniform(.01, 3)):
            ctx.raises('invalid', ValueError, S, rng.randint(2, 5),
                       **{key: r})
        d, r = rng.randint(2, 6), rng.uniform(.1, 9)
        M = S(d, **{key: r})
        ctx.equal((M.Dim, M.Parameter(key)), (d, r), 'invalid', 'parameters')
    ctx.describe('invalid', nontrivial=False)


WORKLOADS = [W(points, 9600, 192000), W(invalid, 40, 40),
             W(nearby, 2000, 40000),
             large(points, 24, 480)]
