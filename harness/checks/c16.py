'''C16: distances along maximal antichains and shortest spacelike paths.'''
import itertools
import numpy as np
from causets.causet import Causet
from core import W
from build import scene, large
from checks.c12 import in_range, numbers
from model import bits, mask, popcount, random_maximal_antichain

RULE = ('distances: DistanceMatrix of random maximal antichains in random '
        'list order (list, tuple), both counting methods, recursive or not, '
        'against neighbours and steps computed in the model; antipaths: all '
        'pairs, with and without given distances, against all shortest '
        'chains of neighbours. '
        '*_large: the same with 30-70 events; long: the ends of an open '
        'fence, more than 130 steps apart. '
        'Non-trivial: an antichain of two or more.')
ASSUMPTIONS = ['antichains are maximal in the causet, as documented for '
               'Antipaths']
REQUIRED = {'large': 20, 'monitor:Distance': 300, 'dist_ge2': 60, 'disconnected': 100,
            'monitor:Antipaths': 1000, 'long_paths': 30, 'several_paths': 15,
            'counting_differs': 30}


def slices(p, A):
    S = A
    while True:
        up, dn = numbers(p, S)
        T = in_range(up, dn, -1, 1)
        if popcount(T) <= popcount(S):
            return
        S = T
        yield S


def card(p, a, b, S, A):
    P, F = p.past[a] & p.past[b] & S, p.fut[a] & p.fut[b] & S
    if P and F:
        return min(popcount(p.interval(x, y) & A) for x in bits(P)
                   for y in bits(F))
    if P:
        return min(popcount(p.fut[x] & A) for x in bits(P))
    if F:
        return min(popcount(p.past[y] & A) for y in bits(F))
    return 0


def reference(p, L, counting, recursive):
    n = len(L)
    A = mask(L)
    D = [[0 if i == j else -1 for j in range(n)] for i in range(n)]
    for S in slices(p, A):
        for i, j in itertools.combinations(range(n), 2):
            if D[i][j] < 1:
                d = card(p, L[i], L[j], S, A) - 1
                if counting == 'ziczac':
                    d = min(1, d)
                D[i][j] = D[j][i] = d
        if not recursive:
            break
        # chains of neighbours, by number of steps
        for k in range(1, n):
            new = []
            for i in range(n):
                for j in range(n):
                    if D[i][j] < 0 and any(D[i][m] == k and D[j][m] == 1
                                           for m in range(n)):
                        new.append((i, j))
            for i, j in new:
                D[i][j] = D[j][i] = k + 1
    return D


def shortest(D, a, b):
    if a == b:
        return [(a,)]
    if D[a][b] < 0:
        return []
    if D[a][b] == 1:
        return [(a, b)]
    n = len(D)
    return [(a,) + q for m in range(n)
            if D[a][m] == 1 and D[m][b] == D[a][b] - 1
            for q in shortest(D, m, b)]


def antichain(ctx, rng):
    s = scene(ctx, rng, kind=rng.choice(
        ['order2d', 'order2d', 'order2d', 'dag', 'sparse', 'fence', 'layered',
         'kr', 'grid', 'antichain', None]),
        n=rng.randint(1, rng.choice([8, 16, 24])))
    A = random_maximal_antichain(rng, s.p)
    L = list(bits(A))
    rng.shuffle(L)
    ctx.nontrivial = len(L) > 1
    ctx.sigparts.append(tuple(L))
    return s, L


def check_matrix(ctx, s, L, got, counting, recursive):
    p = s.p

    def d():
        return (f'{counting} recursive={recursive} antichain {L} of '
                f'{p.describe()}; got {np.asarray(got).tolist()}')
    ctx.check(isinstance(got, np.ndarray) and got.shape == (len(L),) * 2
              and np.issubdtype(got.dtype, np.integer), 'shape', d)
    ctx.check((got == got.T).all() and not np.diag(got).any(), 'symmetric', d)
    want = reference(p, L, counting, recursive)
    ctx.equal(got.tolist(), want, 'Distance', d)
    return want


def distances(ctx, rng, index):
    s, L = antichain(ctx, rng)
    E = [s.ev[i] for i in L]
    first = None
    for counting in ('ziczac', 'intersection'):
        for rec in (True, False):
            arg = tuple(E) if rng.random() < .5 else list(E)
            kw = {} if counting == 'ziczac' and rng.random() < .5 else \
                {'counting': counting}
            if not rec or rng.random() < .5:
                kw['recursive'] = rec
            got = ctx.call('DistanceMatrix', s.C.DistanceMatrix, arg, **kw)
            want = check_matrix(ctx, s, L, got, counting, rec)
            flat = [x for r in want for x in r]
            ctx.count('dist_ge2', any(x >= 2 for x in flat))
            ctx.count('disconnected', any(x < 0 for x in flat))
            if rec and first is None:
                first = want
            elif rec:
                ctx.count('counting_differs', first != want)
    ctx.equal([s.v.i(e) for e in E], L, 'argument', 'antichain list')
    ctx.raises('counting', ValueError, s.C.DistanceMatrix, E, 'steps')


def antipaths(ctx, rng, index):
    s, L = antichain(ctx, rng)
    E = [s.ev[i] for i in L]
    D = reference(s.p, L, 'ziczac', True)
    given = s.C.DistanceMatrix(E)
    prs = [(a, b) for a in range(len(L)) for b in range(len(L))]
    rng.shuffle(prs)
    for a, b in prs[:16]:
        want = sorted(shortest(D, a, b))
        if len(want) > 500:
            continue
        how = rng.randint(0, 2)
        if how == 0:
            along = rng.choice([list, set, iter, np.array])(E)
            it = s.C.Antipaths(E[a], E[b], along)
        elif how == 1:
            it = s.C.Antipaths(E[a], E[b], tuple(E), given.copy())
        else:
            along = rng.choice([list, iter, np.array])(E)
            it = s.C.Antipaths(E[a], E[b], along=along, distances=given)
        got = ctx.call('Antipaths', list, it)
        pos = {id(e): k for k, e in enumerate(E)}
        got = sorted(tuple(pos.get(id(e), -1) for e in q) for q in got)
        ctx.equal(got, want, 'Antipaths',
                  lambda: f'from {L[a]} to {L[b]} along {L} of '
                          f'{s.p.describe()}')
        ctx.count('long_paths', D[a][b] >= 2)
        ctx.count('several_paths', len(want) > 1)
    ctx.equal([s.v.i(e) for e in E], L, 'argument', 'antichain list')
    ctx.check((given == np.array(D)).all(), 'argument', 'distances')
    # events outside of the antichain have no path along it
    out = [i for i in range(s.p.n) if i not in L]
    if out and L:
        o = s.ev[rng.choice(out)]
        ctx.equal(list(s.C.Antipaths(o, E[0], E)), [], 'Antipaths', 'outside')
        ctx.equal(list(s.C.Antipaths(E[0], o, E)), [], 'Antipaths', 'outside')
        ctx.equal(list(s.C.Antipaths(o, o, E)), [], 'Antipaths', 'outside')


def weighted(ctx, rng, index):
    '''Antipaths for distances of the other counting method.'''
    s, L = antichain(ctx, rng)
    E = [s.ev[i] for i in L]
    D = s.C.DistanceMatrix(E, 'intersection')
    pos = {id(e): k for k, e in enumerate(E)}
    for a, b in itertools.product(range(len(L)), repeat=2):
        if D[a, b] > 1 and rng.random() < .7:
            continue
        got = ctx.call('Antipaths(intersection)', list,
                       itertools.islice(s.C.Antipaths(E[a], E[b], E, D), 50))
        for q in got:
            ctx.check(pos.get(id(q[0])) == a and pos.get(id(q[-1])) == b,
                      'ends', lambda: f'{D.tolist()}, {a} to {b}')
            ctx.count('weighted_paths')


def long(ctx, rng, index):
    '''A distance of more than 130 steps: the ends of an open fence.'''
    n = rng.randint(131, 134)
    C = Causet.NewFence(n, 1, False)
    low = [e for e in C if not e.LinkPast]
    ctx.check(len(low) == n, 'shape', lambda: f'fence of {n}: {len(low)} low')
    # walk along the fence from an end that has a single link
    ends = [e for e in low if len(e.LinkFuture) == 1]
    e, row, seen = ends[0], [ends[0]], set()
    while len(row) < n:
        up = [u for u in e.LinkFuture if u not in seen][0]
        seen.add(up)
        e = [b for b in up.LinkPast if b is not e][0]
        row.append(e)
    order = list(range(n))
    rng.shuffle(order)
    ctx.describe((n, order), nontrivial=True)
    got = ctx.call('DistanceMatrix', C.DistanceMatrix, [row[i] for i in order])
    want = np.abs(np.subtract.outer(order, order))
    ctx.check(got.shape == want.shape and (got == want).all(), 'Distance',
              lambda: f'open fence of {n}: distances from {got.min()} to '
                      f'{got.max()}')
    a, b = order.index(0), order.index(n - 1)
    E = [row[i] for i in order]
    q = ctx.call('Antipaths', list, C.Antipaths(E[a], E[b], E, got))
    ctx.check([list(x) for x in q] == [row], 'Antipaths',
              lambda: f'open fence of {n}: {[len(x) for x in q]}')
    ctx.count('very_long')


WORKLOADS = [W(distances, 2400, 48000), W(antipaths, 3600, 72000),
             W(weighted, 360, 7200), W(long, 1, 4, sized=True), large(distances, 32, 640),
             large(antipaths, 32, 640)]
