'''C02: comparisons, separations, cones and cardinalities follow the order.'''
from causets.causetevent import CausetEvent
from core import W
from build import scene, huge, large
from machine import Machine
from build import View
from model import bits, mask, popcount, random_subset

RULE = ('pairs: random orders (17 kinds, 9 construction routes), every pair '
        'and every event queried, with random event subsets; after_history: '
        'the same after a random history of modifications; foreign: events '
        'of different causets. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation. Distinct '
        'by order and route.')
REQUIRED = {'large': 20, 'huge': 8, 'pairs': 5000, 'pairs_related': 1000, 'pairs_same': 500,
            'pairs_spacelike': 1000, 'monitor:cards': 500,
            'monitor:spacelike_card': 500}


def pairs(ctx, rng, p, ev, v):
    for a in range(p.n):
        for b in range(p.n):
            x, y = ev[a], ev[b]
            lt, gt = p.lt(a, b), p.lt(b, a)

            def d():
                return f'events {a},{b} of {p.describe()}'
            ctx.equal((bool(x < y), bool(x <= y), bool(x > y), bool(x >= y)),
                      (lt, lt or a == b, gt, gt or a == b), 'compare', d)
            ctx.equal(bool(x == y), a == b, 'identity', d)
            ctx.equal(bool(x != y), a != b, 'identity', d)
            ctx.equal(bool(x.isCausalTo(y)), lt or gt or a == b, 'causal', d)
            ctx.equal(bool(x.isSpacelikeTo(y)),
                      not (lt or gt or a == b), 'spacelike', d)
            ctx.count('pairs')
            ctx.count('pairs_same' if a == b else 'pairs_related'
                      if lt or gt else 'pairs_spacelike')


def cones(ctx, rng, p, ev, v):
    for i, e in enumerate(ev):
        def d():
            return f'event {i} of {p.describe()}'
        me = 1 << i
        ctx.equal(v.m(e.Past), p.past[i], 'cone', d)
        ctx.equal(v.m(e.Future), p.fut[i], 'cone', d)
        ctx.equal(v.m(e.Cone), p.cone(i), 'cone', d)
        ctx.equal(v.m(e.PresentOrPast), p.past[i] | me, 'cone', d)
        ctx.equal(v.m(e.PresentOrFuture), p.fut[i] | me, 'cone', d)
        ctx.equal((e.PastCard, e.FutureCard, e.ConeCard),
                  (popcount(p.past[i]), popcount(p.fut[i]),
                   popcount(p.cone(i))), 'cards', d)
        for S in (p.all, random_subset(rng, p.all),
                  random_subset(rng, p.all) | me,
                  random_subset(rng, p.all) & ~me):
            want = S & ~p.cone(i)

            def d2():
                return f'event {i}, set {list(bits(S))} of {p.describe()}'
            ctx.equal(v.m(ctx.call('Spacelike', e.Spacelike, v.s(S))), want,
                      'spacelike_set', d2)
            ctx.equal(ctx.call('SpacelikeCard', e.SpacelikeCard, v.s(S)),
                      popcount(want), 'spacelike_card', d2)


def orders(ctx, rng, index):
    s = scene(ctx, rng, big=True)
    pairs(ctx, rng, s.p, s.ev, s.v)
    cones(ctx, rng, s.p, s.ev, s.v)


def after_history(ctx, rng, index):
    m = Machine(ctx, rng, nmax=10)
    try:
        for _ in range(rng.randint(2, 10)):
            getattr(m, 'op_' + rng.choice(
                ['new', 'new', 'merge', 'disjoin', 'causet', 'link',
                 'unlink', 'query']))()
        v = View(m.ev)
        pairs(ctx, rng, m.p, m.ev, v)
        cones(ctx, rng, m.p, m.ev, v)
    finally:
        ctx.describe(m.ops, nontrivial=m.p.relations() > 0)


def foreign(ctx, rng, index):
    '''Events of causally disjoint causets are spacelike to each other.'''
    s, t = scene(ctx, rng), scene(ctx, rng)
    for x in s.ev:
        for y in t.ev:
            ctx.equal((bool(x < y), bool(x <= y), bool(x > y), bool(x >= y),
                       bool(x.isCausalTo(y)), bool(x.isSpacelikeTo(y))),
                      (False,) * 5 + (True,), 'foreign', '')


WORKLOADS = [W(orders, 6400, 128000), W(after_history, 3200, 64000),
             W(foreign, 800, 16000), large(orders, 32, 640),
             huge(orders)]
