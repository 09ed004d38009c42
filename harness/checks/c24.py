'''C24: sprinkling places events inside the shape, uniformly, in Poisson
numbers.'''
import json
import math
import os
import subprocess
import sys
from causets.shapes import CoordinateShape
from causets.spacetimes import FlatSpacetime, deSitterSpacetime
from causets.spacetimes import AntideSitterSpacetime, BlackHoleSpacetime
from causets.sprinkledcauset import SprinkledCauset
from core import W
from region import Region, random_shape, shape_state, NAMES
import numpy as np

RULE = ('placement: sprinkles and intensifications (several rounds, with '
        'default and given generators, into the whole or another shape) in '
        'random shapes of dimension 1-6 (units of length from 1e-12 to '
        '1e12) and all spacetimes: every event lies '
        'in the region and outside the hollow part, the requested number is '
        'created. uniformity: sprinkles with seeded generators in fixed '
        'shapes of random position and size; each point is transformed to '
        'independent uniform numbers (radial volume fraction, time '
        'fraction, angles, coordinates), pooled over the run per shape, '
        'dimension and hollow fraction, and judged offline by '
        'Kolmogorov-Smirnov and chi-squared tests (each at 1e-9), also for '
        'the independence of numbers and of consecutive events, and the number '
        'of repetitions among neighbouring events. poisson: '
        'counts of intensify (and of the constructor), transformed by the '
        'Poisson distribution, judged likewise. processes: programs run at the '
        'same time, without generators given, have different events. '
        'Non-trivial: more than one '
        'event.')
ASSUMPTIONS = ['coordinates are single precision: membership to 3e-6 of the '
               'size and distance of the shape', 'the hole of a hollow '
               'cylinder extends through its duration; hollow cylinders '
               'without space dimension have no volume and are excluded',
               'uniformity is decided statistically: deviations of the '
               'cumulative distribution below about 3.3/sqrt(N) are not seen '
               '(N per shape in stats)']
REQUIRED = {'monitor:inside': 5000, 'monitor:count': 300,
            'monitor:uniform': 60, 'monitor:independent': 60,
            'monitor:poisson': 5, 'hollow events': 800,
            'uniform events': 15000, 'repetition pairs': 100000, 'poisson counts': 400,
            'other shape': 60, 'monitor:created': 300,
            'monitor:processes': 6, 'monitor:distinct': 2000}
NEAR = 1e-5         # numbers this close count as repetitions
LAMBDA = 3.4        # KS: 2 exp(-2 x^2) = 1.8e-10
CHI = {15: 85.0, 1: 40.0}


class Void(FlatSpacetime):
    '''A spacetime without causal relations (cheap to sprinkle into).'''

    def Causality(self):
        return lambda x, y: (False, False)


def coords_of(events):
    return np.array([np.array(e.Coordinates, dtype=float) for e in events])


def judge_inside(ctx, R, events, what):
    if not events:
        return
    X = coords_of(events)
    scale = min([R.radius] if R.name not in ('cube', 'cuboid')
                else R.halfwidths())
    if R.name == 'cylinder':
        scale = min(R.radius, R.duration / 2)
    tol = 3e-6 * (1 + (np.max(np.abs(R.center)) +
                       max(R.halfwidths())) / scale)
    ok = R.inside(X, tol)
    ctx.n['monitor:inside'] += len(events)
    if R.hollow > 0:
        ctx.count('hollow events', len(events))
    if not ok.all():
        k = int(np.argmin(ok))
        ctx.check(False, 'inside', f'{X[k].tolist()} (gauge '
                  f'{[float(g[k]) for g in R.gauge(X)]}) in {what}')


def placement(ctx, rng, index):
    d, name, kw, R = random_shape(rng, wide=12)
    ST = [FlatSpacetime]
    if d >= 2:
        ST += [FlatSpacetime, deSitterSpacetime, AntideSitterSpacetime]
    if d == 2:
        ST += [BlackHoleSpacetime]
    M = rng.choice(ST)(d)
    what = f'{name} {d} {kw} in {M}'
    if rng.random() < .25:      # by name: the default shape of this name
        shape, R = name, Region(d, name)
        what = f'{name} {d} by name in {M}'
    else:
        shape = CoordinateShape(d, name, **kw)
    n = rng.choice([0, 1, 5, 12])
    lam = rng.choice([0.0, 3.0, 8.0])
    whole = None if isinstance(shape, str) else shape_state(shape)
    C = ctx.call('SprinkledCauset', SprinkledCauset, card=n,
                 intensity=lam, spacetime=M, shape=shape)
    whole = whole or shape_state(C.Shape)
    if n > 0 or lam == 0.0:
        ctx.equal(C.Card, n, 'count', what)
    judge_inside(ctx, R, list(C), what)
    for _ in range(rng.randint(1, 3)):
        seen = set(C)
        args = {}
        if rng.random() < .6:
            args['rng'] = np.random.default_rng(rng.getrandbits(32))
        R2 = R
        if rng.random() < .4:
            _, name2, kw2, R2 = random_shape(rng, dims=(d,), wide=6)
            args['shape'] = CoordinateShape(d, name2, **kw2)
            state = shape_state(args['shape'])
            ctx.count('other shape')
        if rng.random() < .6:
            k = rng.choice([0, 1, 2, 7, 15])
            new = ctx.call('sprinkle', C.sprinkle, k, **args)
            ctx.equal(len(new), k, 'count', what)
        else:
            new = ctx.call('intensify', C.intensify,
                           rng.choice([0.0, .5, 4.0, 9.0]), **args)
        ctx.check(set(C) == seen | set(new) and not (seen & set(new)),
                  'created', 'the events returned are not the events added '
                             f'in {what}')
        if 'shape' in args:
            ctx.equal(shape_state(args['shape']), state, 'unchanged', what)
        ctx.equal(shape_state(C.Shape), whole, 'unchanged', what)
        judge_inside(ctx, R2, list(new), f'{R2.__dict__} in {what}')
    ctx.describe((what, n, lam), nontrivial=C.Card > 1)


# -- uniform numbers --------------------------------------------------------
def direction(E):
    '''Uniform numbers of isotropic vectors (rows).'''
    k = E.shape[1]
    if k == 0:
        return []
    if k == 1:
        return [('sign', E[:, 0])]
    out = [(f'angle{i}', np.arctan2(E[:, i + 1], E[:, i]) / (2 * np.pi) + .5)
           for i in range(k - 1)]
    out = [(a, np.clip(u, 0, 1)) for a, u in out]
    if k > 2:
        q = np.sum(E**2, axis=1)
        for i in range(k - 1):
            z = np.clip((E[:, i]**2 + E[:, i + 1]**2) / q, 0, 1)
            out.append((f'share{i}', 1 - (1 - z)**((k - 2) / 2)))
    return out


def uniforms(R, X):
    '''Transforms uniformly distributed points to named uniform numbers in
    [0, 1] and signs; numbers of the first list are independent.'''
    d, h = R.dim, R.hollow
    Y = X - R.center
    if R.name in ('cube', 'cuboid'):
        return [(f'x{i}', Y[:, i] / R.edges[i] + .5) for i in range(d)]
    g = R.gauge(X)[0]

    def radial(g, k):
        return (g**k - h**k) / (1 - h**k)
    if R.name == 'ball':
        return [('radial', radial(g, d))] + direction(Y)
    if R.name == 'cylinder':
        out = [('time', Y[:, 0] / R.duration + .5)]
        if d > 1:
            out.append(('radial', radial(g, d - 1)))
        return out + direction(Y[:, 1:])
    out = [('radial', radial(g, d)), ('time sign', Y[:, 0])]
    if d > 1:
        tau = np.abs(Y[:, 0]) / (g * R.radius)
        out.append(('slope', np.clip(1 - tau, 0, 1)**(d - 1)))
    return out + direction(Y[:, 1:])


def uniformity(ctx, rng, index):
    combos = [(n, d, h) for d in (1, 2, 3, 4, 5)
              for n in ('ball', 'bicone', 'cylinder', 'cuboid')
              for h in ((0.0, .5) if d < 3 else (0.0, .6))
              if not (h and (n == 'cuboid' or (n == 'cylinder' and d == 1)))]
    combos.append(('cube', 3, 0.0))
    name, d, h = combos[index % len(combos)]
    kw = {'center': [rng.uniform(-1, 1) for _ in range(d)]}
    if name in ('ball', 'bicone', 'cylinder'):
        kw['radius'] = rng.choice([1.0, rng.uniform(.5, 3)])
        kw['hollow'] = h
        if name == 'cylinder':
            kw['duration'] = rng.uniform(.5, 3)
    elif name == 'cuboid':
        kw['edges'] = [rng.uniform(.5, 3) for _ in range(d)]
    else:
        kw['edge'] = rng.uniform(.5, 3)
    R = Region(d, name, **kw)
    S = CoordinateShape(d, name, **kw)
    C = SprinkledCauset(spacetime=Void(d), shape=S)
    g = np.random.default_rng(rng.getrandbits(63))
    k = rng.choices([60, 400, 1100], [56, 7, 1])[0]
    if rng.random() < .5:
        ctx.call('sprinkle', C.sprinkle, k, rng=g)
    else:
        ctx.call('intensify', C.intensify, float(k), rng=g)
    if C.Card < 2:
        return
    ev = sorted(C, key=lambda e: e.Label)
    X = coords_of(ev)
    judge_inside(ctx, R, ev, f'{name} {d} {kw}')
    ctx.describe((name, d, h, index), nontrivial=True)
    ctx.count('uniform events', len(ev))
    for i in range(d):      # single precision: practically never equal
        few = 2 + 1e-5 * len(ev)**2
        ctx.check(len(ev) - len(set(X[:, i].tolist())) <= few, 'distinct',
                  lambda: f'equal coordinates {sorted(X[:, i].tolist())}')
    for nm, u in uniforms(R, X):
        ctx.stats[f'U|{name} {d} hollow {h}|{nm}'] += [
            round(float(c), 6) for c in u]
        if 'sign' not in nm:
            u = np.asarray(u)
            near = [int(np.sum(np.abs(u[m:] - u[:-m]) < NEAR))
                    for m in range(1, min(5, len(u)))]
            pairs = sum(len(u) - m for m in range(1, min(5, len(u))))
            ctx.stats[f'R|{name} {d} hollow {h}|{nm}'] += [sum(near), pairs]


def pmf(lam, k):
    return math.exp(-lam + k * math.log(lam) - math.lgamma(k + 1))


def pit(lam, k, rng):
    F = sum(pmf(lam, i) for i in range(k))
    return min(1.0, F + rng.random() * pmf(lam, k))


def poisson(ctx, rng, index):
    lam = rng.choice([.3, 2.0, 2.0, 7.5, 20.0])
    S = CoordinateShape(2, 'cube')
    C = SprinkledCauset(spacetime=Void(2), shape=S)
    for _ in range(3):
        n = C.Card
        ctx.call('intensify', C.intensify, lam,
                 rng=np.random.default_rng(rng.getrandbits(63)))
        ctx.stats[f'P|intensify {lam}'].append(pit(lam, C.Card - n, rng))
        ctx.count('poisson counts')
    # the constructor uses the generator of the library, one per process
    C = ctx.call('SprinkledCauset', SprinkledCauset, intensity=lam,
                 spacetime=Void(2), shape=S)
    ctx.stats[f'P|constructor {os.getpid()}'].append(pit(lam, C.Card, rng))
    ctx.describe((lam, index), nontrivial=C.Card > 0)


class Loose(SprinkledCauset):
    '''Counts events only.'''

    def relate(self, link=True):
        pass


def counts(ctx, rng, index):
    '''Many counts of larger expected numbers: mean and dispersion.'''
    lam = rng.choice([30.0, 30.0, 55.5])
    C = Loose(spacetime=Void(2), shape=CoordinateShape(2, 'cube'))
    g = np.random.default_rng(rng.getrandbits(63))
    last = 0
    for _ in range(100):
        ctx.call('intensify', C.intensify, lam, rng=g)
        k, last = C.Card - last, C.Card
        ctx.stats[f'P|intensify {lam}'].append(pit(lam, k, rng))
        ctx.stats[f'Z|{lam}'].append(k)
        ctx.count('poisson counts')
    ctx.describe((lam, index))


CHILD = """
import json
from causets.sprinkledcauset import SprinkledCauset
from causets.shapes import CoordinateShape
out = {}
def rec(key, C):
    out[key] = [float(c) for e in sorted(C, key=lambda e: e.Label)
                for c in e.Coordinates]
rec('constructor', SprinkledCauset(card=6))
C = SprinkledCauset()
C.sprinkle(6)
rec('sprinkle', C)
C = SprinkledCauset(shape=CoordinateShape(3, 'cylinder'))
C.intensify(20.0)
rec('intensify', C)
print(json.dumps(out))
"""


def processes(ctx, rng, index):
    """Runs of a program do not repeat each other: the generators that are
    not given start differently in every process."""
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path
                                                      if p))
    ps = [subprocess.Popen([sys.executable, '-c', CHILD], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
          for _ in range(3)]
    seen = []
    for p in ps:
        try:
            text = p.communicate(timeout=120)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            continue
        if p.returncode == 0:
            seen.append(json.loads(text))
    ctx.describe(('processes', len(seen)), nontrivial=len(seen) > 1)
    for i, a in enumerate(seen):
        for b in seen[:i]:
            for key in a:
                # float coordinates of independent events differ
                k = min(len(a[key]), len(b[key]))
                same = sum(x == y for x, y in zip(a[key], b[key]))
                ctx.check(k == 0 or same < max(2, k // 2), 'processes',
                          f'{key} gives the same events in two processes: '
                          f'{a[key][:4]}')


def ks(u):
    u = np.sort(np.asarray(u))
    n = len(u)
    i = np.arange(1, n + 1)
    D = max(np.max(i / n - u), np.max(u - (i - 1) / n))
    return D * math.sqrt(n)


def cells(u, sign):
    return (np.asarray(u) > 0).astype(int) if sign else \
        np.clip((np.asarray(u) * 4).astype(int), 0, 3)


def independent(ctx, a, sa, b, sb, what):
    ka, kb = (2 if sa else 4), (2 if sb else 4)
    ca, cb = cells(a, sa), cells(b, sb)
    T = np.bincount(ca * kb + cb, minlength=ka * kb)
    N = len(ca)
    if N < 40 * ka * kb:
        return
    e = N / (ka * kb)
    chi = float(np.sum((T - e)**2) / e)
    ctx.check(chi < 85.0, 'independent',
              lambda: f'chi-squared {chi:.1f} with {ka * kb - 1} degrees of '
                      f'freedom, {N} events: {what}, table {T.tolist()}')


def offline(ctx, stats):
    groups = {}
    for key, u in stats.items():
        kind, group, *rest = key.split('|')
        if kind == 'Z':
            lam, N = float(group), len(u)
            if N < 1000:
                continue
            z = (sum(u) / N - lam) / math.sqrt(lam / N)
            ctx.check(abs(z) < 6.5, 'poisson', f'mean {sum(u) / N} of {N} '
                      f'counts with intensity {lam}: {z:.1f} sigma off')
            # variance of (k - lam)^2 is lam + 2 lam^2
            z = (sum((k - lam)**2 for k in u) / N - lam) / \
                math.sqrt((lam + 2 * lam**2) / N)
            ctx.check(abs(z) < 7.5, 'poisson', f'dispersion of {N} counts '
                      f'with intensity {lam}: {z:.1f} sigma off')
        elif kind == 'P':
            if len(u) < 20:
                continue
            x = ks(u)
            ctx.check(x < LAMBDA, 'poisson',
                      f'{group}: counts deviate from the Poisson '
                      f'distribution, sqrt(N) D = {x:.2f}, N = {len(u)}')
        elif kind == 'R':
            # equal numbers of neighbouring events, by the Poisson tail
            c, mean = sum(u[::2]), 3 * NEAR * sum(u[1::2])
            ctx.n['repetition pairs'] += sum(u[1::2])
            tail = math.exp(c * math.log(mean) - mean - math.lgamma(c + 1)) \
                if c > mean else 1.0
            ctx.check(tail > 1e-10, 'independent',
                      f'{rest[0]} in {group}: {c} repetitions among '
                      f'{sum(u[1::2])} pairs of neighbouring events, at '
                      f'most {mean:.2g} expected')
        else:
            groups.setdefault(group, {})[rest[0]] = u
    for group, named in groups.items():
        names = list(named)
        N = min(len(u) for u in named.values())
        ctx.n[f'N {group}'] = N
        if N < 100:
            continue
        for nm, u in named.items():
            what = f'{nm} in {group}'
            if 'sign' in nm:
                z = abs(2 * sum(c > 0 for c in u) - len(u)) / \
                    math.sqrt(len(u))
                ctx.check(z < 6.5, 'uniform',
                          f'{what}: {z:.1f} sigma off, N = {len(u)}')
            else:
                x = ks(u)
                ctx.check(x < LAMBDA, 'uniform',
                          f'{what}: not uniform, sqrt(N) D = {x:.2f}, '
                          f'N = {len(u)}')
            independent(ctx, u[:-1], 'sign' in nm, u[1:], 'sign' in nm,
                        f'{what}, consecutive events')
        for i, a in enumerate(names):
            for b in names[:i]:
                if {a[:5], b[:5]} <= {'angle', 'share'} :
                    continue    # components of one direction
                independent(ctx, named[a], 'sign' in a, named[b],
                            'sign' in b, f'{a} and {b} in {group}')


WORKLOADS = [W(placement, 600, 12000), W(uniformity, 1960, 39200),
             W(poisson, 480, 9600), W(counts, 160, 1600),
             W(processes, 4, 40)]
