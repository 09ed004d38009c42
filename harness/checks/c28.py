'''C28: outlines and surfaces of coordinate shapes.'''
import math
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from matplotlib.transforms import Affine2D
import mpl_toolkits.mplot3d  # noqa: F401
from causets import shapes as shp
from causets.shapes import CoordinateShape
from core import W
from region import random_shape, shape_state
import numpy as np

RULE = ('outlines: random shapes (units of length from 1e-6 to 1e6) plotted in every pair of dimensions (time '
        'on either axis or hidden); the polygons that matplotlib draws: '
        'every point of every line lies on the boundary of the central cut, '
        'the length of the outline is the perimeter, its extent the extent '
        'of the shape, and the filled area (winding number) contains exactly '
        'the points of the cut. surfaces: the same with vertices, extent and '
        'mesh area of 3D surfaces; the shape is the same afterwards. helpers: sizes and values of edge and '
        'surface functions for random arguments. Non-trivial: a hollow '
        'shape or one with a center.')
ASSUMPTIONS = ['curves are sampled: 0.1 % of the radius', 'the documented '
               'matrix size of cuboid surfaces (5 x 4) describes neither '
               'the matrices nor their broadcast (4 x 4) and is not judged',
               'the hole of a hollow cylinder extends through its duration']
REQUIRED = {'monitor:boundary': 5000, 'monitor:perimeter': 100,
            'monitor:extent': 300, 'monitor:filled': 2000,
            'monitor:surface': 20000, 'monitor:area': 30,
            'monitor:size': 150, 'monitor:options': 100, 'monitor:unchanged': 150, 'hollow': 60,
            'rotated': 50}


def boundary_distance(R, X):
    '''How far (in gauge) the points are from the boundary of the shape.'''
    g = R.gauge(X)
    outer = np.max(np.stack(g), axis=0)
    out = np.abs(outer - 1)
    if R.name in ('ball', 'bicone', 'cylinder') and R.hollow > 0:
        # the outer boundary reaches from the hollow part outwards
        miss = np.maximum(R.hollow - g[0], 0)
        out = np.maximum(out, miss)
        beyond = np.zeros_like(g[0])
        for c in g[1:]:
            beyond = np.maximum(beyond, c - 1)
        out = np.minimum(out, np.maximum(np.abs(g[0] - R.hollow),
                                         np.maximum(beyond, 0)))
    return out


def embed(R, dims, P):
    X = np.tile(R.center, (len(P), 1))
    for k, i in enumerate(dims):
        X[:, i] = P[:, k]
    return X


def drawn_polygons(patch, big):
    '''The closed and open lines as drawn, in data coordinates.'''
    scale = 1e4 / big
    path = patch.get_patch_transform().transform_path(patch.get_path())
    path = Affine2D().scale(scale).transform_path(path)
    out = []
    for q in path.to_polygons(closed_only=False):
        q = np.asarray(q) / scale
        broken = np.isnan(q).any(axis=1)
        for part in np.split(q, np.flatnonzero(broken)):
            part = part[~np.isnan(part).any(axis=1)]
            if len(part) > 1:
                out.append(part)
    return out


def winding(polys, q):
    w = 0.0
    for p in polys:
        v = np.vstack([p, p[:1]]) - q
        a = np.arctan2(v[:, 1], v[:, 0])
        d = np.diff(a)
        d = (d + np.pi) % (2 * np.pi) - np.pi
        w += d.sum()
    return round(w / (2 * np.pi))


def perimeter(R, dims):
    h = R.hollow
    if R.name in ('cube', 'cuboid'):
        return 2 * sum(R.edges[i] for i in dims)
    if R.name == 'ball' or 0 not in dims:
        return 2 * math.pi * R.radius * (1 + h)
    if R.name == 'bicone':
        return 4 * math.sqrt(2) * R.radius * (1 + h)
    if h > 0:
        return 4 * ((1 - h) * R.radius + R.duration)
    return 2 * (2 * R.radius + R.duration)


def outlines(ctx, rng, index):
    d, name, kw, R = random_shape(rng, dims=(2, 2, 3, 4), wide=6)
    dims = rng.sample(range(d), 2)
    S = CoordinateShape(d, name, **kw)
    ax = Figure().add_subplot()
    opt = {}
    if rng.random() < .5:
        opt = {'edgecolor': 'red', 'facecolor': 'green', 'alpha': .5}
    what = f'{name} {d} {kw} dims {dims}'
    ctx.describe(what, nontrivial=R.hollow > 0 or 'center' in kw)
    ctx.count('hollow', R.hollow > 0)
    ctx.count('rotated', dims[0] == 0)
    before, given = shape_state(S), list(dims)
    p = ctx.call('plot', S.plot, given, ax, **opt)
    ctx.equal((shape_state(S), given), (before, dims), 'unchanged', what)
    ctx.check(len(ax.patches) == 1 and ax.patches[0] is p, 'options', what)
    want = opt or {'edgecolor': 'black', 'facecolor': 'black', 'alpha': .05}
    ctx.equal((p.get_alpha(), to_rgba(p.get_edgecolor())[:3],
               to_rgba(p.get_facecolor())[:3]),
              (want['alpha'], to_rgba(want['edgecolor'])[:3],
               to_rgba(want['facecolor'])[:3]), 'options', what)
    big = max(R.halfwidths())
    polys = drawn_polygons(p, big)
    ctx.check(len(polys) > 0, 'boundary', what)
    length, pts = 0.0, []
    for q in polys:
        length += np.hypot(*np.diff(q, axis=0).T).sum()
        for s in (0.0, .27, .5, .81):
            pts.append(q[:-1] * (1 - s) + q[1:] * s)
    pts = np.concatenate(pts)
    size = min(R.halfwidth(i) for i in dims)
    tol = 1.5e-3 + 1e-5 * (big + np.abs(R.center).max()) / size
    off = boundary_distance(R, embed(R, dims, pts))
    ctx.n['monitor:boundary'] += len(pts)
    ctx.check((off <= tol).all(), 'boundary',
              lambda: f'{pts[int(off.argmax())].tolist()} is off the '
                      f'boundary by {off.max()}; {what}')
    ctx.close(length, perimeter(R, dims), 'perimeter', 3e-3, 1e-5 * big,
              what)
    for k, i in enumerate(dims):
        h, c = R.halfwidth(i), R.center[i]
        ctx.close(float(pts[:, k].min()), c - h, 'extent', 1e-5,
                  1e-3 * h + 1e-5 * abs(c), what)
        ctx.close(float(pts[:, k].max()), c + h, 'extent', 1e-5,
                  1e-3 * h + 1e-5 * abs(c), what)
    Q = np.array([[R.center[i] + 1.3 * R.halfwidth(i) * rng.uniform(-1, 1)
                   for i in dims] for _ in range(25)])
    X = embed(R, dims, Q)
    far = boundary_distance(R, X) > 4 * tol
    for q, ins, ok in zip(Q, R.inside(X), far):
        if ok:
            ctx.equal(winding(polys, q) != 0, bool(ins), 'filled',
                      lambda: f'{q.tolist()} of {what}')


def mesh_area(XYZ):
    X, Y, Z = np.broadcast_arrays(*[np.asarray(c, dtype=float) for c in XYZ])
    P = np.stack([X, Y, Z], axis=-1)
    a = P[1:, :-1] - P[:-1, :-1]
    b = P[:-1, 1:] - P[:-1, :-1]
    c = P[1:, 1:] - P[:-1, 1:]
    e = P[1:, 1:] - P[1:, :-1]
    return (np.linalg.norm(np.cross(a, b), axis=-1) / 2 +
            np.linalg.norm(np.cross(c, e), axis=-1) / 2).sum()


def area(R, dims):
    h, r = R.hollow, R.radius
    if R.name == 'ball' or 0 not in dims:
        return 4 * math.pi * r**2 * (1 + h**2)
    if R.name == 'bicone':
        return 2 * math.sqrt(2) * math.pi * r**2 * (1 + h**2)
    return 2 * math.pi * r**2 * (1 - h**2) + \
        2 * math.pi * r * R.duration * (1 + h)


def surfaces(ctx, rng, index):
    d, name, kw, R = random_shape(rng, dims=(3, 3, 4), wide=6)
    dims = rng.sample(range(d), 3)
    S = CoordinateShape(d, name, **kw)
    ax = Figure().add_subplot(projection='3d')
    what = f'{name} {d} {kw} dims {dims}'
    ctx.describe(what, nontrivial=R.hollow > 0 or 'center' in kw)
    ctx.count('hollow', R.hollow > 0)
    ctx.count('rotated', 0 in dims and dims.index(0) < 2)
    opt = {'color': 'red', 'alpha': .5} if rng.random() < .5 else {}
    before, given = shape_state(S), list(dims)
    L = ctx.call('plot3d', S.plot, given, ax, **opt)
    ctx.equal((shape_state(S), given), (before, dims), 'unchanged', what)
    ctx.check(isinstance(L, list) and len(L) == len(ax.collections) > 0,
              'options', what)
    ctx.equal(ax.collections[0].get_alpha(), opt.get('alpha', .05),
              'options', what)
    pts, total = [], 0.0
    faces = set()
    for XYZ in L:
        P = np.stack([c.ravel() for c in np.broadcast_arrays(
            *[np.asarray(c, dtype=float) for c in XYZ])], axis=1)
        pts.append(P)
        total += mesh_area(XYZ)
        if R.name in ('cube', 'cuboid'):
            flat = [k for k in range(3) if np.ptp(P[:, k]) <
                    1e-6 * (min(R.edges) + abs(P[0, k]))]
            ctx.equal(len(flat), 1, 'surface', f'face of {what}')
            k = flat[0]
            faces.add((k, P[0, k] > R.center[dims[k]]))
            for m in range(3):
                if m != k:
                    e = R.edges[dims[m]]
                    ctx.close(np.ptp(P[:, m]), e, 'extent', 1e-5, 1e-5 * (
                        e + abs(R.center[dims[m]])),
                              f'face of {what}')
    pts = np.concatenate(pts)
    size = min(R.halfwidth(i) for i in dims)
    tol = 1e-5 * (10 * size + np.abs(R.center).max()) / size
    off = boundary_distance(R, embed(R, dims, pts))
    ctx.n['monitor:surface'] += len(pts)
    ctx.check((off <= tol).all(), 'surface',
              lambda: f'{pts[int(off.argmax())].tolist()} is off the '
                      f'boundary by {off.max()}; {what}')
    for k, i in enumerate(dims):
        h, c = R.halfwidth(i), R.center[i]
        ctx.close(float(pts[:, k].min()), c - h, 'extent', 1e-5,
                  2e-3 * h + 1e-5 * abs(c), what)
        ctx.close(float(pts[:, k].max()), c + h, 'extent', 1e-5,
                  2e-3 * h + 1e-5 * abs(c), what)
    if R.name in ('cube', 'cuboid'):
        ctx.equal(len(faces), 6, 'faces', what)
    else:
        ctx.close(total, area(R, dims), 'area', 1e-2, 1e-5 * size**2, what)


def helpers(ctx, rng, index):
    n = rng.choice([-1, 0, 1, 2, 3, 8, 31, 64, rng.randint(1, 200)])
    N = n if n > 0 else shp.default_samplingsize
    r, h = rng.uniform(.1, 4), rng.uniform(.1, 5)
    hollow = rng.choice([0.0, rng.uniform(.05, .95)])
    z = rng.randrange(3)
    c2 = np.array([rng.uniform(-3, 3) for _ in range(2)])
    c3 = np.array([rng.uniform(-3, 3) for _ in range(3)])
    keep = c2.copy(), c3.copy()
    what = f'sampling {n} radius {r} height {h} hollow {hollow} axis {z}'
    ctx.describe(what, nontrivial=hollow > 0)
    m = 2 * N + 3 if hollow else N + 1
    E = ctx.call('CircleEdge', shp.CircleEdge, c2, r, hollow, n)
    ctx.equal(E.shape, (m, 2), 'size', what)
    rad = np.hypot(*(E - c2).T)
    ok = np.isnan(rad) | np.isclose(rad, r) | np.isclose(rad, hollow * r)
    ctx.check(ok.all() and np.isnan(rad).sum() == (hollow > 0), 'value', what)
    ab = np.array([r, h])
    E = ctx.call('EllipseEdge', shp.EllipseEdge, c2, ab, hollow, n)
    ctx.equal(E.shape, (m, 2), 'size', what)
    rad = np.hypot(*((E - c2) / ab).T)
    ok = np.isnan(rad) | np.isclose(rad, 1) | np.isclose(rad, hollow)
    ctx.check(ok.all() and np.isnan(rad).sum() == (hollow > 0), 'value', what)
    m = 11 if hollow else 5
    ctx.equal(ctx.call('BiconeEdge', shp.BiconeEdge, c2, r, hollow).shape,
              (m, 2), 'size', what)
    ctx.equal(ctx.call('CylinderCutEdge', shp.CylinderCutEdge, c2, r, h,
                       hollow).shape, (m, 2), 'size', what)
    E = ctx.call('RectangleEdge', shp.RectangleEdge, c2[0], c2[1], r, h)
    want = {(c2[0], c2[1]), (c2[0] + r, c2[1]), (c2[0], c2[1] + h),
            (c2[0] + r, c2[1] + h)}
    ctx.check(E.shape == (5, 2) and {tuple(q) for q in E} == want and
              (E[0] == E[4]).all() and
              all((E[i] != E[i + 1]).sum() == 1 for i in range(4)), 'size',
              what)
    for XYZ in ctx.call('BallSurface', shp.BallSurface, c3, r, n):
        for c in XYZ:
            ctx.check(c.shape[0] == N + 1 and
                      abs(c.shape[1] - (N + 1) / 2) <= .5, 'size', what)
        rad = np.sqrt(sum((XYZ[k] - c3[k])**2 for k in range(3)))
        q = (XYZ[2] - c3[2]) / r
        ctx.check(np.allclose(rad, r) and
                  (q.shape[1] < 2 or np.isclose(q.max(), 1) and
                   np.isclose(q.min(), -1)), 'value', what)
    L = ctx.call('CylinderSurface', shp.CylinderSurface, c3, r, h, hollow, z,
                 n)
    ctx.equal(len(L), 1, 'size', what)
    for c in L[0]:
        ctx.equal(c.shape, (5 if hollow else 4, N + 1), 'size', what)
    axes = [k for k in range(3) if k != z]
    rad = np.hypot(*[L[0][k] - c3[k] for k in axes])
    t = np.abs(L[0][z] - c3[z])
    ctx.check(np.allclose(t, h / 2) and
              (np.isclose(rad, r) | np.isclose(rad, hollow * r)).all(),
              'value', what)
    for up in (h, -h):
        L = ctx.call('OpenConeSurface', shp.OpenConeSurface, c3, r, up, z, n)
        ctx.equal(len(L), 1, 'size', what)
        for c in L[0]:
            ctx.equal(c.shape, (2, N + 1), 'size', what)
        rad = np.hypot(*[L[0][k] - c3[k] for k in axes])
        t = (L[0][z] - c3[z]) / up
        ctx.check(np.allclose(rad / r, t) and np.isclose(t.max(), 1) and
                  np.isclose(t.min(), 0), 'value', what)
    ctx.check((c2 == keep[0]).all() and (c3 == keep[1]).all(), 'argument',
              what)


WORKLOADS = [W(outlines, 1600, 32000), W(surfaces, 320, 6400),
             W(helpers, 240, 4800)]
