'''C23: coordinate shapes.'''
import math
from causets.shapes import CoordinateShape
from core import W
from region import Region, random_shape, NAMES
import numpy as np

RULE = ('shapes: random shapes of every name, dimension 1-20, centers '
        '(list, tuple, array or default), radii, hollow fractions, durations '
        'and edges (given or default); volume, limits, extents, center, '
        'name, parameters and text forms against an independent model, '
        'asked in random order and repeatedly, in units of length from '
        '1e-25 to 1e25; measured: the volume against '
        'the fraction of uniform points of the limits box found inside; '
        'invalid: every documented kind of invalid input. Non-trivial: '
        'a shape with a center or a hollow part.')
ASSUMPTIONS = ['sizes are kept in single precision by the library: compared '
               'to 2e-6 relative', 'the hole of a hollow cylinder extends '
               'through its whole duration (as Volume, sprinkling and plots '
               'of the library agree on)']
REQUIRED = {'monitor:volume': 300, 'monitor:limits': 1000,
            'monitor:extent': 400, 'monitor:given': 400,
            'monitor:text': 400, 'monitor:invalid': 300, 'hollow': 100,
            'monitor:measured': 30, 'monitor:alias': 60, 'iterators': 300, 'units': 1000}
REL = 2e-6


def shapes(ctx, rng, index):
    d, name, kw, R = random_shape(rng, dims=(1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9,
                                             10, 11, 12, 15, 20),
                                 wide=25 if rng.random() < .5 else 6)
    big = max(R.halfwidths())
    if abs(math.log10(big)) * d > 250:
        return      # the volume is not a number
    if not .005 < big < 10:
        ctx.count('units')
    what = f'{name} {d} {kw}'
    given_ = dict(kw)
    for key in ('center', 'edges'):     # any iterable
        if key in kw and rng.random() < .15:
            given_[key] = rng.choice([iter, lambda x: (c for c in x),
                                      lambda x: map(float, x)])(kw[key])
            ctx.count('iterators')
    S = ctx.call('CoordinateShape', CoordinateShape, d, name, **given_)
    ctx.describe(what, nontrivial=R.hollow > 0 or 'center' in kw)
    ctx.count('hollow', R.hollow > 0)
    # arrays given by the user stay independent
    for key in ('center', 'edges', 'radius', 'hollow', 'duration', 'edge'):
        if isinstance(kw.get(key), np.ndarray):
            kw[key][...] += 17.0
            ctx.n['monitor:alias'] += 1

    def volume():
        ctx.close(float(ctx.call('Volume', lambda: S.Volume)), R.volume(),
                  'volume', REL * (d + 2) / (1 - R.hollow)
                  if R.hollow else REL * (d + 2), 1e-12 * big**d, what)

    def limits():
        for i in range(d):
            lo, hi = ctx.call('Limits', S.Limits, i)
            h, c = R.halfwidth(i), R.center[i]
            tol = REL * (abs(c) + h)
            ctx.check(abs(lo - (c - h)) <= tol and abs(hi - (c + h)) <= tol,
                      'limits', lambda: f'{(lo, hi)} of axis {i}, expected '
                                        f'{(c - h, c + h)}; {what}')
        for i in (-1, d, d + rng.randint(1, 5)):
            ctx.raises('limits', ValueError, S.Limits, i)

    def extent():
        # the dimensions of a plot: at least one of space
        if d == 1:
            return
        dims = rng.sample(range(d), rng.randint(2, min(d, 3)))
        ctx.close(float(ctx.call('MaxEdgeHalf', S.MaxEdgeHalf, dims)),
                  max(R.halfwidth(i) for i in dims), 'extent', REL, 0,
                  f'{dims}; {what}')

    def given():
        ctx.equal((S.Dim, S.Name), (d, R.name), 'given', what)
        ctx.check(np.shape(S.Center) == (d,) and
                  np.allclose(S.Center, R.center, REL, 0), 'given',
                  lambda: f'Center {S.Center} of {what}')
        want = {'ball': {'radius': R.radius, 'hollow': R.hollow},
                'bicone': {'radius': R.radius, 'hollow': R.hollow},
                'cylinder': {'radius': R.radius, 'hollow': R.hollow,
                             'duration': R.duration},
                'cube': {'edge': R.edges[0]}, 'cuboid': {'edges': R.edges}}
        for k, v in want[R.name].items():
            got = ctx.call('Parameter', S.Parameter, k)
            ctx.check(np.shape(got) == np.shape(v) and
                      np.allclose(got, v, REL, 0), 'given',
                      lambda: f'{k} is {got}, expected {v}; {what}')
        for k in {'radius', 'hollow', 'duration', 'edge', 'edges', 'nope'} \
                - set(want[R.name]):
            try:
                S.Parameter(k)
            except KeyError:
                ctx.count('no parameter')
            except Exception:     # another rejection is as good
                ctx.count('no parameter')
            else:
                ctx.check(False, 'given', f'has parameter {k}; {what}')

    def text():
        want = f'hollow {d}-{R.name}' if R.hollow > 0 else f'{d}-{R.name}'
        ctx.equal(ctx.call('str', str, S), want, 'text', what)
        r = ctx.call('repr', repr, S)
        ctx.check(isinstance(r, str) and R.name in r and str(d) in r, 'text',
                  lambda: f'repr {r} of {what}')
    steps = [volume, limits, extent, given, text]
    for step in [rng.choice(steps) for _ in range(4)] + steps:
        step()


def measured(ctx, rng, index):
    '''Volume as the share of the limits box.'''
    d, name, kw, R = random_shape(rng, dims=(1, 2, 2, 3, 3, 4), wide=12)
    if R.name in ('cube', 'cuboid') or (R.hollow > 0 and d == 1):
        return
    S = CoordinateShape(d, name, **kw)
    lim = [S.Limits(i) for i in range(d)]
    N = 40000
    g = np.random.default_rng(rng.getrandbits(32))
    X = np.stack([g.uniform(float(a), float(b), N) for a, b in lim], axis=1)
    p = float(np.mean(R.inside(X)))
    box = math.prod(float(b - a) for a, b in lim)
    q = float(S.Volume) / box
    ctx.describe((name, d, kw), nontrivial=True)
    sigma = math.sqrt(max(q * (1 - q), 1e-4) / N)
    ctx.check(abs(p - q) < 7 * sigma, 'measured',
              lambda: f'volume is {q} of the box, measured {p} +- {sigma}; '
                      f'{name} {d} {kw}')


def invalid(ctx, rng, index):
    bad = lambda *a, **k: ctx.raises('invalid', ValueError, CoordinateShape,
                                     *a, **k)
    d = rng.randint(1, 5)
    for name in NAMES:
        for dim in (0, -1, -rng.randint(2, 9)):
            bad(dim, name)
        for n in (d + 1, d - 1, d + 3):
            bad(d, name, center=[0.0] * n)
        bad(d, name, center=1.0)
        bad(d, name, center=[[0.0] * d])
    for name in ('', 'sphere', 'Ball', 'ball ', 'cubes', 'cone'):
        bad(d, name)
    v = -rng.uniform(.01, 5)
    nan = float('nan')
    for name in ('ball', 'bicone', 'diamond', 'cylinder'):
        for r in (0.0, v, nan):
            bad(d, name, radius=r)
        for h in (1.0, v, 1 + rng.random(), 1.5, nan):
            bad(d, name, hollow=h)
    for x in (0.0, v, nan):
        bad(d, 'cylinder', duration=x)
        bad(d, 'cube', edge=x)
        e = [1.0] * d
        e[rng.randrange(d)] = x
        bad(d, 'cuboid', edges=e)
    bad(d, 'cuboid', edges=[1.0] * (d + 1))
    bad(d, 'cuboid', edges=[1.0] * (d - 1))
    bad(d, 'cuboid', edges=2.0)
    bad(d, 'cuboid', edges=iter([1.0] * (d + 1)))
    bad(d, 'ball', center=iter([1.0] * (d + 1)))
    ctx.describe('invalid', nontrivial=False)


WORKLOADS = [W(shapes, 9600, 192000), W(measured, 2400, 48000),
             W(invalid, 60, 60)]
