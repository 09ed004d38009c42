'''C15: central antichains.'''
from core import W
from build import scene, huge, large
from causets.causet import Causet
from model import bits, popcount, random_subset

RULE = ('antichains: CentralAntichain of random causets, without and with '
        'every event as reference, repeated under different set iteration '
        'orders; checked for antichain, maximality, containment of the '
        'reference and that no left-out event is closer to the reference '
        'difference than all of its related members; also after discarding. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation.')
REQUIRED = {'large': 20, 'huge': 8, 'monitor:antichain': 1000, 'monitor:maximal': 1000,
            'monitor:contains': 500, 'monitor:closest': 1000}


def judge(ctx, s, S, A, diff, what):
    p = s.p
    m = s.v.m(A)

    def d():
        return f'{what}: {list(bits(m))} of {p.describe()}'
    ctx.check(m >= 0 and m & ~S == 0, 'members', d)
    ctx.check(p.is_antichain(m), 'antichain', d)
    ctx.check(all(p.cone(x) & m for x in bits(S)), 'maximal', d)

    def size(x):
        return abs(popcount(p.past[x]) - popcount(p.fut[x]) - diff)
    for x in bits(S & ~m):
        ctx.check(any(size(y) <= size(x) for y in bits(p.cone(x) & m)),
                  'closest', lambda: f'{x} left out, ' + d())
    return m


def antichains(ctx, rng, index):
    s = scene(ctx, rng, big=index % 4 == 0)
    p = s.p
    judge(ctx, s, p.all, ctx.call('CentralAntichain', s.C.CentralAntichain),
          0, 'central')
    for i in range(p.n):
        diff = popcount(p.past[i]) - popcount(p.fut[i])
        A = ctx.call('CentralAntichain', s.C.CentralAntichain, s.ev[i]) \
            if rng.random() < .5 else \
            ctx.call('CentralAntichain', s.C.CentralAntichain, e=s.ev[i])
        m = judge(ctx, s, p.all, A, diff, f'near {i}')
        # e itself has size zero; only another event of size zero related to
        # it could take its place, and related events never have equal
        # differences
        ctx.check((m >> i) & 1, 'contains',
                  lambda: f'{i} not in {list(bits(m))} of {p.describe()}')
        A.clear()
    ctx.equal(s.v.m(s.C), p.all, 'alias', 'the causet changed')
    # a fresh causet object iterates its set in another order
    D = Causet(set(reversed(s.ev)))
    judge(ctx, s, p.all, D.CentralAntichain(), 0, 'central')
    S = p.all & ~random_subset(rng, p.all)
    D.discard(s.v.s(p.all & ~S))
    judge(ctx, s, S, ctx.call('CentralAntichain', D.CentralAntichain), 0,
          'after discard')


WORKLOADS = [W(antichains, 4000, 80000), large(antichains, 32, 640),
             huge(antichains)]
