'''Independent model of coordinate shapes: membership, volume, extents.'''
import math
import numpy as np

NAMES = ('ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid')


class Region:
    '''A coordinate shape described by plain numbers.'''

    def __init__(self, dim, name, center=None, radius=1.0, hollow=0.0,
                 duration=None, edge=1.0, edges=None):
        self.dim = dim
        self.name = 'bicone' if name == 'diamond' else name
        f = np.float32
        self.center = np.array([0.0] * dim if center is None else
                               [float(f(c)) for c in center])
        self.radius, self.hollow = float(f(radius)), float(f(hollow))
        self.duration = 2 * self.radius if duration is None \
            else float(f(duration))
        self.edges = [float(f(e)) for e in
                      ([edge] * dim if name == 'cube' else
                       [1.0] * dim if edges is None else edges)]

    def gauge(self, X):
        '''The points scaled such that the outer boundary has gauge 1; rows
        are points. For cylinders the radial gauge and the time gauge.'''
        X = np.asarray(X, dtype=float) - self.center
        if self.name == 'ball':
            return (np.linalg.norm(X, axis=-1) / self.radius,)
        if self.name == 'bicone':
            return ((np.abs(X[..., 0])
                     + np.linalg.norm(X[..., 1:], axis=-1)) / self.radius,)
        if self.name == 'cylinder':
            return (np.linalg.norm(X[..., 1:], axis=-1) / self.radius,
                    np.abs(X[..., 0]) / (self.duration / 2))
        return tuple(np.abs(X[..., i]) / (self.edges[i] / 2)
                     for i in range(self.dim))

    def inside(self, X, tol=0.0):
        g = self.gauge(X)
        ok = np.ones(np.shape(g[0]), dtype=bool)
        for c in g:
            ok &= c <= 1 + tol
        if self.name in ('ball', 'bicone', 'cylinder') and self.hollow > 0:
            ok &= g[0] >= self.hollow - tol
        return ok

    def halfwidth(self, i):
        if self.name in ('cube', 'cuboid'):
            return self.edges[i] / 2
        if self.name == 'cylinder' and i == 0:
            return self.duration / 2
        return self.radius

    def volume(self):
        d, h = self.dim, self.hollow
        if self.name == 'ball':
            return unitball(d) * self.radius**d * (1 - h**d)
        if self.name == 'bicone':
            return 2 * unitball(d - 1) / d * self.radius**d * (1 - h**d)
        if self.name == 'cylinder':
            # the hole goes through the whole duration
            return unitball(d - 1) * self.radius**(d - 1) * self.duration * \
                (1 - h**(d - 1) if h > 0 else 1)
        return math.prod(self.edges)

    def halfwidths(self):
        return [self.halfwidth(i) for i in range(self.dim)]


def unitball(d):
    return 1.0 if d == 0 else 2.0 if d == 1 else \
        2 * math.pi / d * unitball(d - 2)


def shape_state(S):
    """Everything public about a shape, to see that nothing changes it."""
    par = {'cube': ('edge',), 'cuboid': ('edges',),
           'cylinder': ('radius', 'hollow', 'duration')}.get(
               S.Name, ('radius', 'hollow'))
    return (S.Name, S.Dim, np.asarray(S.Center).tolist(),
            [np.asarray(S.Parameter(k)).tolist() for k in par],
            [tuple(map(float, S.Limits(i))) for i in range(S.Dim)],
            float(S.Volume), str(S), repr(S))


def random_shape(rng, dims=(1, 2, 2, 3, 3, 4, 5, 6), names=NAMES, wide=0):
    '''(dim, name, keyword arguments, region); with `wide` some of them in
    units of up to 10 to this power.'''
    d = rng.choice(dims)
    name = rng.choice(names)
    kw = {}
    if rng.random() < .6:
        kw['center'] = [round(rng.uniform(-4, 4), 3) for _ in range(d)]
        if rng.random() < .3:
            kw['center'] = tuple(kw['center'])
        elif rng.random() < .3:
            kw['center'] = np.array(kw['center'], dtype=rng.choice(
                (np.float64, np.float32)))
    if name in ('ball', 'bicone', 'diamond', 'cylinder'):
        if rng.random() < .7:
            kw['radius'] = rng.choice([2, .5, rng.uniform(.05, 5)])
        if rng.random() < .6:
            kw['hollow'] = rng.choice([.5, .9, 0.0, rng.uniform(.01, .98),
                                       10**-rng.uniform(1, 4)])
        if name == 'cylinder' and rng.random() < .7:
            kw['duration'] = rng.choice([1, 3.5, rng.uniform(.05, 8)])
    elif name == 'cube':
        if rng.random() < .7:
            kw['edge'] = rng.choice([2, .5, rng.uniform(.05, 5)])
    elif rng.random() < .8:
        kw['edges'] = [rng.choice([1, 2.5, rng.uniform(.05, 5)])
                       for _ in range(d)]
        if rng.random() < .5:
            kw['edges'] = np.array(kw['edges'], dtype=rng.choice(
                (np.float64, np.float32)))
    if wide and rng.random() < .3:      # any unit of length
        u = 10**rng.uniform(-wide, wide)
        if 'center' in kw:
            kw['center'] = [float(c) * u for c in kw['center']]
        for key in {'cube': ('edge',), 'cuboid': ('edges',),
                    'cylinder': ('radius', 'duration')}.get(
                        name, ('radius',)):
            kw[key] = [float(e) * u for e in kw.get(key, [1.0] * d)] \
                if key == 'edges' else float(kw.get(key, 1.0)) * u
    if name == 'cylinder' and d == 1:
        kw.pop('hollow', None)      # there is no space to be hollow
    for key in ('radius', 'hollow', 'duration', 'edge'):
        if key in kw and rng.random() < .15:
            kw[key] = np.array(kw[key], dtype=np.float32)
    return d, name, kw, Region(d, name, **kw)
