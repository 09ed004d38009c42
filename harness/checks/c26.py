'''C26: plotted light cones against the causality of the spacetime.'''
import itertools
import math
from matplotlib.figure import Figure
from matplotlib.path import Path
from matplotlib import pyplot as plt
import mpl_toolkits.mplot3d  # noqa: F401
from causets import spacetimes as st
from core import W
import geo
import numpy as np

RULE = ('plane: cones of random origins and slices (both sides of time) in '
        'all plot planes (space-time in both orders, space-space) of flat, '
        'periodic, de Sitter and black hole spacetimes (both metrics, both '
        'sides, inside, outside and on the horizon, origins from 0.01 to 12 '
        'radii, slices up to 50 radii away, far from time zero, units of '
        'length from 1e-4 to 1e4, for black holes 1e-8 to 1e8); random points of the '
        'plane and points close to the drawn edge, judged inside or outside '
        'of the drawn polygon against Causality() of the spacetime. '
        'surface: vertices of the 3D surfaces of flat, periodic and de '
        'Sitter spacetime are light-like to the origin, cover all '
        'directions and reach from the origin to the slice. refused: wrong '
        'side of time, no fading left, origin beyond the horizon. '
        'Non-trivial: points inside and outside were judged.')
ASSUMPTIONS = ['points within a small margin of the drawn edge (0.4-4 % of '
               'the cone size, the sampling error) are not judged',
               'de Sitter cones in more than three dimensions are plotted '
               'exactly only if the coordinates that are not shown vanish '
               '(documented as not implemented otherwise): only these are '
               'judged', 'anti-de Sitter cones are not implemented in the '
               'library', 'inside the horizon in Schwarzschild coordinates '
               'the future cone is the whole cone to the singularity, and '
               'cones of origins exactly on the horizon are judged only in '
               'Eddington-Finkelstein coordinates']
REQUIRED = {'monitor:point': 6000, 'inside': 1500, 'outside': 1500,
            'monitor:null': 2000, 'monitor:refused': 100,
            'monitor:alpha': 60, 'flat': 60, 'periodic': 60, 'dS': 60,
            'EF': 60, 'S': 60, 'monitor:added': 200, 'monitor:covered': 60,
            'monitor:outline': 1500}


def parts_of(XY):
    '''The closed polygons of a vertex list broken by nan.'''
    out, cur = [], []
    for row in np.asarray(XY, dtype=float):
        if np.isnan(row).any():
            if len(cur) > 2:
                out.append(Path(np.array(cur + [cur[0]])))
            cur = []
        else:
            cur.append(list(row))
    if len(cur) > 2:
        out.append(Path(np.array(cur + [cur[0]])))
    return out


def covers(parts, q):
    return any(p.contains_point(q) for p in parts)


def scenario(rng):
    '''(kind, spacetime, origin, dims, slice, sign, window, margin, full)'''
    kind = rng.choice(['flat', 'periodic', 'periodic', 'dS', 'dS', 'EF', 'EF',
                       'S', 'S'])
    sign = rng.choice([-1, 1])
    u = 1.0     # unit of length
    if rng.random() < .3:
        u = 10**(rng.uniform(-8, 8) if kind in ('EF', 'S')
                 else rng.uniform(-4, 4))
    if kind in ('flat', 'periodic'):
        d = rng.randint(2, 4)
        kw = {}
        if kind == 'periodic':
            kw['period'] = rng.choice([1.0 * u, .2 * u, tuple(
                u * rng.choice([0.0, .2, 1.0, 1.5]) for _ in range(d - 1))])
        M = st.FlatSpacetime(d, **kw)
        o = [u * rng.uniform(-2, 2) for _ in range(d)]
        if rng.random() < .2:
            o[rng.randrange(d)] = 0.0
        size = u * rng.uniform(.1, 1.4)
    elif kind == 'dS':
        d = rng.choice([2, 2, 3, 3, 4])
        a = u * rng.choice([1.0, rng.uniform(.5, 3)])
        M = st.deSitterSpacetime(d, a)
        o = [u * rng.uniform(-2, 2)] + [0.0] * (d - 1)
        size = a * rng.choice([rng.uniform(.1, 1.2), rng.uniform(1, 30)])
    else:
        d, a = 2, rng.choice([1.0, rng.uniform(.4, 2), 10**rng.uniform(-2, 2)])
        a *= u
        M = st.BlackHoleSpacetime(2, a, metric='Eddington-Finkelstein'
                                  if kind == 'EF' else 'Schwarzschild')
        r = a * rng.choice([rng.uniform(.15, .85), rng.uniform(.01, .99),
                            rng.uniform(1.2, 3), rng.uniform(1.01, 12)])
        if kind == 'EF' and rng.random() < .1:
            r = a
        o = [u * rng.uniform(-2, 2), rng.choice([-1, 1]) * r]
        size = a * rng.choice([rng.uniform(.15, 2.5),
                               10**rng.uniform(-1.3, 1.7)])
    if rng.random() < .2:  # far from time zero
        o[0] += u * rng.choice([-1, 1]) * 10**rng.uniform(1, 3)
    k = rng.random()
    if d == 2 or k < .6:
        dims = [0, rng.randint(1, d - 1)]
        if rng.random() < .6:
            dims.reverse()
    else:
        dims = rng.sample(range(1, d), 2)
    if kind == 'dS':
        s = [i for i in dims if i > 0]
        free = list(range(1, d)) if d < 4 else s
        v = [rng.gauss(0, 1) for _ in free]
        n = math.sqrt(sum(c * c for c in v)) or 1.0
        rad = a * rng.choice([rng.uniform(0, .9), rng.uniform(0, .5), 0.0])
        for i, c in zip(free, v):
            o[i] = rad * c / n
    return kind, M, o, dims, size, sign, u


def outline(ctx, M, o, dims, t1, size, XY, what, u):
    '''Every drawn line is light-like to (a copy of) the origin or lies on
    the slice.'''
    mid = (XY[1:] + XY[:-1]) / 2
    mid = mid[~np.isnan(mid).any(axis=1)]
    X = np.tile(np.array(o), (len(mid), 1))
    X[:, 0] = t1
    for k, i in enumerate(dims):
        X[:, i] = mid[:, k]
    Y = np.abs(X[:, 1:] - np.array(o)[1:])
    period = M.Parameter('period') if M.Parameter('isPeriodic') \
        else [0.0] * Y.shape[1]
    best = np.full(len(Y), np.inf)
    dt = np.abs(X[:, 0] - o[0])
    for shift in itertools.product(*[(-1, 0, 1) if P > 0 else (0,)
                                     for P in period]):
        Z = Y - np.array(shift) * np.array(period)
        best = np.minimum(best, np.abs(np.linalg.norm(Z, axis=1) - dt))
    ok = best < .01 * (u + size)
    if 0 in dims:
        ok |= np.abs(X[:, 0] - t1) < 1e-9 * (u + abs(t1))
    ctx.n['monitor:outline'] += len(ok)
    ctx.check(ok.all(), 'outline', lambda: f'line across {mid[~ok][0]} of '
                                           f'{what}')


def plane(ctx, rng, index):
    kind, M, o, dims, size, sign, u = scenario(rng)
    if u != 1:
        ctx.count(f'unit of {kind}')
    t0, d = o[0], len(o)
    t1 = t0 + sign * size
    what = f'{M!r} origin {o} dims {dims} slice {t1} sign {sign}'
    ax = target = Figure().add_subplot()
    if rng.random() < .15:
        # the current axes unless others are given
        plt.close('all')
        plt.figure()
        target = None
        ctx.count('current axes')
    params = {'facecolor': 'red'}
    kw, fade = {}, None
    if rng.random() < .5:
        fade = rng.uniform(.3, 2)
        kw['dynamicAlpha'] = lambda r: min(1.0, fade / (1.0 + r))
    if rng.random() < .3:
        kw['samplingsize'] = rng.choice([-1, 64, 200])
    if kind in ('EF', 'S'):
        kw['samplingsize'] = 600
    plotter = ctx.call('ConePlotter', M.ConePlotter, dims, params, sign,
                       target, **kw)
    if target is None:
        ax = plt.gca()
        plt.close('all')
    org = np.array(o)
    # refused slices
    for bad in (t0, t0 - sign * rng.uniform(.01, 3)):
        ctx.check(ctx.call('cone', plotter, org, bad) is None, 'refused',
                  lambda: f'slice {bad}; {what}')
    ctx.equal(len(ax.patches), 0, 'refused', what)
    p = ctx.call('cone', plotter, org, t1)
    ctx.check(p is not None and hasattr(p, 'get_xy'), 'added', what)
    ctx.check([id(q) for q in ax.patches] == [id(p)], 'added', what)
    ctx.check((org == o).all(), 'argument', what)
    if fade is not None:
        ctx.close(p.get_alpha(), min(1.0, fade / (1.0 + size)), 'alpha',
                  1e-9, 0, what)
    ctx.count(kind)
    XY = np.asarray(p.get_xy(), dtype=float)
    parts = parts_of(XY)
    good = XY[~np.isnan(XY).any(axis=1)]
    causal = ctx.call('Causality', M.Causality)
    spacetimeplane = 0 in dims

    def related(point):
        x, y = (org, point) if sign > 0 else (point, org)
        return bool(causal(x, y)[0])
    hidden = None
    if kind == 'dS' and d == 3 and spacetimeplane:
        # the projection along the direction that is not shown
        hidden = ({1, 2} - set(dims)).pop()
        grid = np.linspace(-1, 1, 161) * M.Parameter('r_dS') * .9999

    def oracle(q):
        x = list(o)
        x[0] = t1
        for i, c in zip(dims, q):
            x[i] = c
        if spacetimeplane and not (kind == 'S' and sign > 0 and
                                   abs(o[1]) < M.Parameter('r_S')):
            cap = sign * (t1 - x[0]) >= 0
            # inside, Schwarzschild time may run either way
            start = kind == 'S' or sign * (x[0] - t0) >= 0
            if not cap or not start:
                return False
        if kind == 'periodic' and M.Parameter('isPeriodic'):
            for i in dims:
                if i > 0:
                    P = M.Parameter('period')[i - 1]
                    if P > 0 and abs(x[i] - o[i]) > 1.5 * P:
                        return None
        if kind in ('EF', 'S'):
            if geo.blackhole(o, x, M.Parameter('r_S'), kind == 'EF',
                             1e-6 * u) is None:
                return None if abs(o[1]) != M.Parameter('r_S') else \
                    related(np.array(x, dtype=float))
        if hidden is not None:
            for c in grid:
                x[hidden] = c
                if related(np.array(x, dtype=float)):
                    return True
            return False
        return related(np.array(x, dtype=float))
    if kind in ('flat', 'periodic'):
        outline(ctx, M, o, dims, t1, size, XY, what, u)
    if len(parts) > 1:
        for q in parts:
            ctx.check(np.allclose(q.vertices[0], q.vertices[-2], 1e-9,
                                  1e-9 * u), 'outline',
                      lambda: f'a part is not closed: {what}')
    lo, hi = good.min(axis=0), good.max(axis=0)
    ext = np.maximum(hi - lo, 1e-3 * u)
    tol = ext * {'flat': .004, 'periodic': .004, 'dS': .01}.get(kind, .03)
    if kind in ('flat', 'periodic', 'dS'):
        # causality has a tolerance of 1e-12 for squared separations
        tol = tol + 2e-6
    if hidden is not None:
        tol = tol + np.array([.0 if i == 0 else .02 * u for i in dims])
    inner = outer = 0
    N = 40 if hidden is None else 12
    for k in range(N):
        if k % 2:
            v = good[rng.randrange(len(good))]
            q = [v[i] + rng.choice([-1, 1]) * rng.uniform(1.2, 6) * tol[i]
                 for i in (0, 1)]
        else:
            q = [rng.uniform(lo[i] - .4 * ext[i], hi[i] + .4 * ext[i])
                 for i in (0, 1)]
        want = oracle(q)
        if want is None:
            continue
        if kind in ('EF', 'S'):
            # all lines of one side crowd together at the horizon
            m = dims.index(1)
            if kind == 'S' and abs(abs(q[m]) - M.Parameter('r_S')) < tol[m]:
                ctx.count('edge')
                continue
        near = [oracle([q[0] + a * c * tol[0], q[1] + b * c * tol[1]])
                for c in ((1, .3, .1, .03) if hidden is None else (1,))
                for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1),
                             (.7, .7), (-.7, .7), (.7, -.7), (-.7, -.7))]
        if any(c != want for c in near):
            ctx.count('edge')
            continue
        got = covers(parts, q)
        ctx.equal(got, want, 'point', lambda: f'{q} of {what}')
        inner, outer = inner + got, outer + (not got)
    ctx.count('inside', inner)
    ctx.count('outside', outer)
    ctx.describe(what, nontrivial=inner and outer)


def surface(ctx, rng, index):
    kind = rng.choice(['flat', 'periodic', 'dS'])
    sign = rng.choice([-1, 1])
    d = rng.choice([3, 4]) if kind != 'dS' else 3
    o = [rng.uniform(-2, 2) for _ in range(d)]
    size = rng.uniform(.2, 1.3)
    period = None
    if kind == 'flat':
        M = st.FlatSpacetime(d)
    elif kind == 'periodic':
        period = tuple(rng.choice([0.0, 1.0, 1.5]) for _ in range(d - 1))
        M = st.FlatSpacetime(d, period)
    else:
        a = rng.uniform(1, 3)
        M = st.deSitterSpacetime(d, a)
        r, phi = a * rng.uniform(0, .8), rng.uniform(0, 7)
        o[1:] = [r * math.cos(phi), r * math.sin(phi)]
    dims = rng.sample(range(d), 3)
    if 0 not in dims and kind == 'dS':
        dims[0] = 0
    t1 = o[0] + sign * size
    what = f'{M!r} origin {o} dims {dims} slice {t1} sign {sign}'
    ctx.describe(what, nontrivial=True)
    ax = target = Figure().add_subplot(projection='3d')
    if rng.random() < .15:
        plt.close('all')
        plt.figure()
        target = None
        ctx.count('current axes')
    fade = rng.uniform(.3, 2)
    plotter = ctx.call('ConePlotter', M.ConePlotter, dims, {'color': 'red'},
                       sign, target, lambda r: min(1.0, fade / (1.0 + r)),
                       rng.choice([-1, 24, 33]))
    if target is None:
        ax = plt.gca()
        plt.close('all')
    org = np.array(o)
    ctx.check(ctx.call('cone', plotter, org, o[0] - sign * size) is None,
              'refused', what)
    S = ctx.call('cone', plotter, org, t1)
    ctx.count(kind)
    ctx.check(isinstance(S, list) and len(S) >= 1, 'added', what)
    ctx.equal(len(ax.collections), len(S), 'added', what)
    shown = [i for i in dims if i > 0]
    copies = 1
    if period is not None:
        for i in shown:
            copies *= 3 if period[i - 1] > 0 else 1
    ctx.equal(len(S), copies, 'copies', what)
    seen = set()
    for XYZ in S:
        P = np.stack([np.asarray(c, dtype=float).ravel() for c in XYZ], 1)
        X = np.tile(org, (len(P), 1))
        X[:, 0] = t1
        for k, i in enumerate(dims):
            X[:, i] = P[:, k]
        ctx.check(not np.isnan(X).any(), 'null', what)
        dt = sign * (X[:, 0] - o[0])
        ctx.check((dt > -1e-9).all() and (dt < size + 1e-9).all() and
                  abs(dt.max() - size) < 1e-9, 'covered', what)
        if 0 in dims:
            ctx.check(abs(dt.min()) < 1e-9, 'covered', what)
        Y = X[:, 1:] - org[1:]
        if period is not None:
            top = Y[dt > size - 1e-9]
            mid = (top.max(axis=0) + top.min(axis=0)) / 2
            shift = [0.0] * (d - 1)
            for i in shown:
                Pi = period[i - 1]
                if Pi > 0:
                    # the center of this copy
                    shift[i - 1] = round(mid[i - 1] / Pi) * Pi
            seen.add(tuple(shift))
            Y = Y - np.array(shift)
        if kind == 'dS':
            for k in range(0, len(X), max(1, len(X) // 60)):
                a2 = a * a
                x, y = org[1:], X[k, 1:]
                A, B = x @ x / a2, y @ y / a2
                travel = a * math.acosh(max(1.0, (1 - x @ y / a2) / math.sqrt(
                    max(1e-300, (1 - A) * (1 - B)))))
                ctx.close(travel, dt[k], 'null', 1e-4, 1e-4 * a,
                          lambda: f'{X[k].tolist()}; {what}')
        else:
            dist = np.linalg.norm(Y, axis=1)
            ctx.n['monitor:null'] += len(dist)
            bad = np.abs(dist - dt) > 1e-9 * (1 + size)
            ctx.check(not bad.any(), 'null', lambda: f'{X[bad][0]}; {what}')
        # all directions of the last slice are there
        top = Y[dt > size - 1e-9]
        if kind == 'dS':
            top = top - (top.max(axis=0) + top.min(axis=0)) / 2
        for u, v in ([(shown[0], shown[1])] if len(shown) == 2 else
                     [(shown[0], shown[1]), (shown[1], shown[2])]):
            w = top[np.hypot(top[:, u - 1], top[:, v - 1]) >
                    .3 * np.abs(top[:, [u - 1, v - 1]]).max()]
            ang = np.sort(np.arctan2(w[:, v - 1], w[:, u - 1]))
            gap = max(np.diff(ang).max(), ang[0] + 2 * math.pi - ang[-1])
            ctx.check(gap < .6, 'covered',
                      lambda: f'gap of {gap} between directions; {what}')
    if period is not None:
        ctx.equal(len(seen), copies, 'copies', lambda: f'{seen} {what}')


def refused(ctx, rng, index):
    fig = Figure()
    ax = fig.add_subplot()
    sign = rng.choice([-1, 1])
    # exactly on the horizon only where its square is exact
    a = rng.choice([1.0, 2.0, rng.uniform(.5, 2)])
    exact = [1.0] if a in (1.0, 2.0) else [1.0001]
    for d in (2, 3, 4):
        M = st.deSitterSpacetime(d, a)
        for dims in ([0, 1], [1, 0], [1, 2]):
            if max(dims) >= d:
                continue
            o = np.zeros(d)
            o[1] = a * rng.choice(exact + [rng.uniform(1.0001, 3)]) * \
                rng.choice([-1, 1])
            f = ctx.call('ConePlotter', M.ConePlotter, dims, {}, sign, ax)
            ctx.check(ctx.call('cone', f, o, sign * 1.0) is None, 'refused',
                      lambda: f'{o} in {M!r}')
    for M, d in ((st.FlatSpacetime(2), 2), (st.deSitterSpacetime(3), 3),
                 (st.FlatSpacetime(3, 1.0), 3),
                 (st.BlackHoleSpacetime(2), 2)):
        limit = rng.uniform(.2, .8)
        f = ctx.call('ConePlotter', M.ConePlotter, [1, 0],
                     rng.choice([{}, {'alpha': .9}]), sign, ax,
                     lambda r: limit - r)
        o = np.zeros(d)
        o[1] = .7
        for r in (limit, limit + .1, 3.0):
            ctx.check(ctx.call('cone', f, o, sign * r) is None, 'refused',
                      lambda: f'faded {M!r} {r} of {limit}')
        ctx.equal(len(ax.patches), 0, 'refused', 'patches')
        p = ctx.call('cone', f, o, sign * limit * .5)
        ctx.check(p is not None, 'added', repr(M))
        ctx.close(p.get_alpha(), limit * .5, 'alpha', 1e-9)
        p.remove()
        # every cone of a plotter has its own opacity
        for q in (rng.uniform(.1, .45), rng.uniform(.55, .9)):
            p2 = ctx.call('cone', f, o, sign * limit * q)
            ctx.close(p2.get_alpha(), limit * (1 - q), 'alpha', 1e-9)
            p2.remove()
        ctx.close(p.get_alpha(), limit * .5, 'alpha', 1e-9)
        # without a fade, the opacity is the given one
        f = ctx.call('ConePlotter', M.ConePlotter, [1, 0], {'alpha': .375},
                     sign, ax)
        p = ctx.call('cone', f, o, sign * rng.uniform(.1, .5))
        ctx.check(p is not None, 'added', repr(M))
        ctx.close(p.get_alpha(), .375, 'alpha', 1e-9)
        p.remove()
    ctx.describe('refused', nontrivial=False)


WORKLOADS = [W(plane, 1000, 20000), W(surface, 120, 2400), W(refused, 20, 400)]
