'''C06: matrix construction, matrix output and rejection of loops.'''
import numpy as np
from causets.causet import Causet
import model
from core import W
from build import View, scene, huge, large
from model import Poset, bits, mask, random_poset, random_size, random_subset

RULE = ('construct: matrices of random orders with rows in random order, of '
        'all relations, of links only or of links plus some relations, with '
        'bool/int/uint8/float dtype, square or with missing last rows; '
        'loops: orders with an added back relation (loops of every length), '
        'self relations, too many rows; output: all four matrices for '
        'random event lists and dtypes and reconstruction from them. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation.')
REQUIRED = {'large': 20, 'huge': 8, 'built': 300, 'monitor:loop': 100, 'rectangular': 30,
            'monitor:output': 300, 'reconstructed': 100, 'links_only': 50}
DTYPES = [bool, int, np.uint8, np.float64]


def element_events(ctx, C, n, what):
    ev = [None] * n
    for e in C:
        ctx.check(isinstance(e.Label, (int, np.integer)) and
                  1 <= e.Label <= n and ev[e.Label - 1] is None,
                  'labels', lambda: f'{what}: label {e.Label!r}')
        ev[e.Label - 1] = e
    ctx.check(all(e is not None for e in ev), 'labels', what)
    ctx.equal(C.Card, n, 'card', what)
    return ev


def judge(ctx, C, p, what):
    ev = element_events(ctx, C, p.n, what)
    v = View(ev)
    for i in range(p.n):
        ctx.equal(v.m(ev[i].Past), p.past[i], 'relation',
                  lambda: f'past of {i + 1}, {what()}')
        ctx.equal(v.m(ev[i].Future), p.fut[i], 'relation',
                  lambda: f'future of {i + 1}, {what()}')
    return ev


def past_matrix(p, src, dtype):
    M = np.zeros((p.n, p.n), dtype)
    for b in range(p.n):
        for a in bits(src[b]):
            M[b, a] = 1
    return M


def construct(ctx, rng, index):
    p, kind = random_poset(rng, model.SIZE or rng.randint(1, 12) if index % 5 else
                           rng.randint(12, 25))
    lp = p.links()[0]
    form = rng.choice(['full', 'links', 'mixed'])
    src = p.past if form == 'full' else lp if form == 'links' else \
        [lp[i] | random_subset(rng, p.past[i]) for i in range(p.n)]
    if form == 'links':
        ctx.count('links_only')
    M = past_matrix(p, src, rng.choice(DTYPES))
    if rng.random() < .3:
        # drop empty last rows, as many as possible or some of them
        k = p.n
        while k > 1 and not M[k - 1].any():
            k -= 1
        k = rng.randint(k, p.n)
        if k < p.n:
            M = M[:k]
            ctx.count('rectangular')
    ctx.describe((kind, form, M.astype(int).tolist()),
                 nontrivial=p.relations() > 0)

    def what():
        return f'{form} {M.shape} {M.astype(int).tolist()}'
    keep = M.copy()
    C = ctx.call('FromPastMatrix', Causet.FromPastMatrix, M)
    judge(ctx, C, p, what)
    if M.shape[0] == M.shape[1] or rng.random() < .5:
        judge(ctx, ctx.call('FromFutureMatrix', Causet.FromFutureMatrix,
                            M.T), p, what)
    ctx.check(np.array_equal(M, keep), 'argument', 'input matrix changed')
    ctx.count('built')


def rectangular(ctx, rng, index):
    '''Fewer rows than columns: the first rows speak, the rest is empty.'''
    n = model.SIZE or rng.randint(2, 9)
    r = rng.randint(1, n - 1)
    # elements r..n-1 have no past; a random order on the first r
    p0, _ = random_poset(rng, r)
    prs = [(a, b) for b in range(r) for a in bits(p0.past[b])]
    extra = [(a, b) for a in range(r, n) for b in range(r)
             if rng.random() < .4]
    p = Poset.from_relation(n, prs + extra)
    src = p.links()[0] if rng.random() < .5 else p.past
    M = past_matrix(p, src, rng.choice(DTYPES))[:r]
    ctx.describe(('rect', M.astype(int).tolist()),
                 nontrivial=p.relations() > 0)
    judge(ctx, ctx.call('FromPastMatrix', Causet.FromPastMatrix, M), p,
          lambda: f'{M.astype(int).tolist()}')
    judge(ctx, ctx.call('FromFutureMatrix', Causet.FromFutureMatrix, M.T), p,
          lambda: f'{M.astype(int).tolist()}')
    ctx.count('rectangular')
    ctx.count('built')
    ctx.raises('rows', ValueError, Causet.FromPastMatrix, M.T)
    ctx.raises('rows', ValueError, Causet.FromFutureMatrix, M)


def loops(ctx, rng, index):
    k = index % 9 + 1              # length of the loop
    n = max(k, model.SIZE or 0) + rng.randint(0, 5)
    p, kind = random_poset(rng, n)
    M = past_matrix(p, p.links()[0] if rng.random() < .6 else p.past,
                    rng.choice(DTYPES))
    cyc = rng.sample(range(n), k)
    for a, b in zip(cyc, cyc[1:] + cyc[:1]):
        M[b, a] = 1
    ctx.describe(('loop', k, M.astype(int).tolist()))
    ctx.raises('loop', ValueError, Causet.FromPastMatrix, M)
    ctx.raises('loop', ValueError, Causet.FromFutureMatrix, M)


def output(ctx, rng, index):
    s = scene(ctx, rng, big=index % 5 == 0)
    p, ev, v, C = s.p, s.ev, s.v, s.C
    lp, lf = p.links()
    order = list(range(p.n))
    rng.shuffle(order)
    if rng.random() < .3:
        order = order[:rng.randint(0, p.n)]
    L = [ev[i] for i in order]
    dt = rng.choice([None] + DTYPES)
    kw = {} if dt is None else {'dtype': dt}
    for name, src, tr in (('PastMatrix', p.past, False),
                          ('FutureMatrix', p.past, True),
                          ('LinkPastMatrix', lp, False),
                          ('LinkFutureMatrix', lp, True)):
        f = getattr(C, name)
        M = ctx.call(name, f, L, **kw)
        want = np.array([[(src[a] >> b) & 1 for b in order] for a in order],
                        dtype=bool).reshape(len(order), len(order))
        want = want.T if tr else want

        def d():
            return f'{name} for {order} of {p.describe()}: {M.tolist()}'
        ctx.equal(M.dtype, np.dtype(bool if dt is None else dt), 'dtype', d)
        ctx.check(M.shape == want.shape and
                  np.array_equal(M.astype(bool), want), 'output', d)
        # the default list is the causal sort
        D = ctx.call(name, f)
        sort = [v.i(e) for e in C.sortedByCausality()]
        want = np.array([[(src[a] >> b) & 1 for b in sort] for a in sort],
                        dtype=bool).reshape(p.n, p.n)
        if len(set(sort)) == p.n:
            if s.labels == 'str' or s.labels == 'int' or s.labels == 'rev':
                # distinct labels: the sort is deterministic
                ctx.check(np.array_equal(D, want.T if tr else want),
                          'output', d)
    # reconstruction
    if len(order) == p.n and p.n > 0:
        q = p.restrict(order)
        judge(ctx, ctx.call('FromPastMatrix', Causet.FromPastMatrix,
                            C.PastMatrix(L, **kw)), q,
              lambda: f'reconstructed {p.describe()}')
        judge(ctx, ctx.call('FromPastMatrix', Causet.FromPastMatrix,
                            C.LinkPastMatrix(L, **kw)), q,
              lambda: f'reconstructed from links {p.describe()}')
        judge(ctx, ctx.call('FromFutureMatrix', Causet.FromFutureMatrix,
                            C.FutureMatrix(L, **kw)), q,
              lambda: f'reconstructed {p.describe()}')
        judge(ctx, ctx.call('FromFutureMatrix', Causet.FromFutureMatrix,
                            C.LinkFutureMatrix(L, **kw)), q,
              lambda: f'reconstructed from links {p.describe()}')
        ctx.count('reconstructed')


ALL3 = 512


def all_matrices(ctx, rng, index):
    '''Every 3x3 logical matrix: accepted iff loop-free.'''
    M = np.array([[(index >> (3 * i + j)) & 1 for j in range(3)]
                  for i in range(3)], dtype=rng.choice(DTYPES))
    p = Poset.from_relation(3, [(j, i) for i in range(3) for j in range(3)
                                if M[i, j]])
    ctx.describe(M.astype(int).tolist())
    if p.is_strict_order():
        judge(ctx, ctx.call('FromPastMatrix', Causet.FromPastMatrix, M), p,
              lambda: f'{M.tolist()}')
        ctx.count('built')
    else:
        ctx.raises('loop', ValueError, Causet.FromPastMatrix, M)


WORKLOADS = [W(construct, 4000, 80000), W(rectangular, 960, 19200),
             W(loops, 1920, 38400), W(output, 2400, 48000),
             W(all_matrices, ALL3, ALL3), large(construct, 32, 640),
             large(rectangular, 32, 640), large(loops, 32, 640),
             large(output, 32, 640),
             huge(construct),
             huge(rectangular),
             huge(loops),
             huge(output)]
