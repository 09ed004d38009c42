'''C12: layers, layer numbers and the layered decomposition.'''
from causets.causet import Causet
from core import W
from build import scene, huge, large
from model import bits, mask, popcount, random_maximal_antichain, \
    random_subset

RULE = ('layers: Layers/LayerNumbers of random event sets (single events, '
        'antichains, random, all) of random orders for random and open-ended '
        'ranges against the largest interval cardinality; decomposition: '
        'layered() of the causet and of convex event sets in both '
        'directions against the height decomposition. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least '
        'one relation.')
ASSUMPTIONS = ['layered() of event sets that are not convex is not documented '
               'and not judged']
REQUIRED = {'large': 20, 'huge': 8, 'monitor:Layers': 1500, 'layers_nonempty': 500,
            'monitor:LayerNumbers': 500, 'monitor:layered': 200,
            'layers_deep': 50}


def numbers(p, S):
    '''(future numbers of S|future, past numbers of S|past) by element.'''
    up, dn = {}, {}
    rel_f, rel_p = S, S
    for i in bits(S):
        rel_f |= p.fut[i]
        rel_p |= p.past[i]
    for b in bits(rel_f):
        A = p.past[b] & S
        up[b] = max((popcount(p.interval(a, b)) - 1 for a in bits(A)),
                    default=0)
    for a in bits(rel_p):
        B = p.fut[a] & S
        dn[a] = -max((popcount(p.interval(a, b)) - 1 for b in bits(B)),
                     default=0)
    return up, dn


def in_range(up, dn, first, last):
    want = 0
    if first > last:
        return 0
    for a, n in dn.items():
        if first <= n <= min(0, last):
            want |= 1 << a
    if last > 0:
        for b, n in up.items():
            if max(first, 0) <= n <= last:
                want |= 1 << b
    return want


def sets(rng, p):
    cand = [0, p.all, random_maximal_antichain(rng, p),
            random_subset(rng, p.all), random_subset(rng, p.all, .2)]
    if p.n:
        cand += [1 << rng.randrange(p.n) for _ in range(2)]
    return cand


def layers(ctx, rng, index):
    s = scene(ctx, rng, big=index % 5 == 0)
    p, v = s.p, s.v
    for S in sets(rng, p):
        up, dn = numbers(p, S)
        rngs = [(k, None) for k in range(-3, 4)]
        for _ in range(5):
            a = rng.randint(-5, 5)
            rngs.append((a, rng.randint(a - 1, a + 5)))
        rngs += [(-p.n - 2, p.n + 2), (0, p.n + 2), (-p.n - 2, 0)]
        for first, last in rngs:
            want = in_range(up, dn, first, first if last is None else last)
            arg = v.s(S)
            got = ctx.call('Layers', Causet.Layers, arg, first) \
                if last is None else \
                ctx.call('Layers', Causet.Layers, arg, first, last)

            def d():
                return f'Layers({list(bits(S))}, {first}, {last}) of ' \
                       f'{p.describe()}'
            ctx.equal(v.m(got), want, 'Layers', d)
            ctx.equal(v.m(arg), S, 'argument', d)
            ctx.count('layers_nonempty', bool(want))
            ctx.count('layers_deep', bool(want) and
                      min(abs(first), abs(last or 0)) > 1)
        order = list(bits(S))
        rng.shuffle(order)
        L = [s.ev[i] for i in order]
        for rev in (None, False, True):
            src = dn if rev else up
            got = ctx.call('LayerNumbers', Causet.LayerNumbers, L) \
                if rev is None else \
                ctx.call('LayerNumbers', Causet.LayerNumbers, L, reverse=rev)
            ctx.equal(list(got), [src[i] for i in order], 'LayerNumbers',
                      lambda: f'{order} reverse={rev} of {p.describe()}')


def convex(rng, p):
    S = random_subset(rng, p.all)
    while True:
        T = S
        for a in bits(S):
            for b in bits(S & p.fut[a]):
                T |= p.fut[a] & p.past[b]
        if T == S:
            return S
        S = T


def heights(p, S, rev):
    '''Mask of every level of the height decomposition of S.'''
    out = []
    rest = S
    while rest:
        src = p.fut if rev else p.past
        lev = mask(i for i in bits(rest) if not src[i] & rest)
        out.append(lev)
        rest &= ~lev
    return out


def decomposition(ctx, rng, index):
    s = scene(ctx, rng, big=index % 5 == 0)
    p, v = s.p, s.v
    for S in (None, p.all, convex(rng, p), convex(rng, p)):
        for rev in (None, False, True):
            kw = {} if rev is None else {'reverse': rev}
            if S is not None:
                kw['eventSet'] = v.s(S)
            got = ctx.call('layered', s.C.layered, **kw)
            want = heights(p, p.all if S is None else S, rev)
            ctx.equal([v.m(x) for x in got], want, 'layered',
                      lambda: f'{S and list(bits(S))} reverse={rev} of '
                              f'{p.describe()}')
            if S is not None:
                ctx.equal(v.m(kw['eventSet']), S, 'argument', 'layered')
    ctx.equal(v.m(s.C), p.all, 'argument', 'layered changed the causet')


WORKLOADS = [W(layers, 1200, 24000), W(decomposition, 1800, 36000),
             large(layers, 32, 640), large(decomposition, 32, 640),
             huge(layers),
             huge(decomposition)]
