'''C10: PastOf, FutureOf, ConeOf and SpacelikeTo.'''
from causets.causet import Causet
from core import W
from build import assert_order, scene, huge, large
from model import bits, popcount, random_subset

RULE = ('sets: random orders and event sets (empty, single, random, all) '
        'through all flag combinations of PastOf/FutureOf/ConeOf and through '
        'SpacelikeTo, results modified afterwards to expose aliases. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation.')
REQUIRED = {'large': 20, 'huge': 8, 'monitor:of': 5000, 'monitor:of_intersect': 2000,
            'intersect_nonempty': 300, 'monitor:spacelike': 500}


def sets(ctx, rng, index):
    s = scene(ctx, rng, big=index % 4 == 0)
    p, v = s.p, s.v
    cand = [0, p.all] + [random_subset(rng, p.all) for _ in range(3)]
    if p.n:
        cand += [1 << rng.randrange(p.n) for _ in range(2)]
    if p.n > 1:
        # few events, so that intersections are not empty
        cand += [sum(1 << i for i in rng.sample(range(p.n), 2))
                 for _ in range(4)]
    for S in cand:
        for name, one in (('PastOf', p.past), ('FutureOf', p.fut),
                          ('ConeOf', [p.past[i] | p.fut[i]
                                      for i in range(p.n)])):
            f = getattr(Causet, name)
            for present in (None, False, True):
                for inter in (None, False, True):
                    kw = {}
                    if present is not None:
                        kw['includePresent'] = present
                    if inter is not None:
                        kw['intersect'] = inter
                    pr = name == 'ConeOf' if present is None else present
                    if inter:
                        want = p.all if S else 0
                        for i in bits(S):
                            want &= one[i] | (pr << i)
                        if want:
                            ctx.count('intersect_nonempty')
                    else:
                        want = S if pr else 0
                        for i in bits(S):
                            want |= one[i]
                    arg = v.s(S)
                    got = ctx.call(name, f, arg, **kw)

                    def d():
                        return f'{name}({list(bits(S))}, {kw}) of ' \
                               f'{p.describe()}'
                    ctx.equal(v.m(got), want,
                              'of_intersect' if inter else 'of', d)
                    ctx.check(isinstance(got, set), 'type', d)
                    ctx.equal(v.m(arg), S, 'argument', d)
                    got.clear()
                    ctx.equal(v.m(arg), S, 'alias', d)
            if rng.random() < .3:
                a, b = rng.random() < .5, rng.random() < .5
                ctx.equal(v.m(f(v.s(S), a, b)),
                          v.m(f(v.s(S), includePresent=a, intersect=b)),
                          'positional', name)
        want = p.all & ~S
        for i in bits(S):
            want &= ~p.cone(i)
        got = ctx.call('SpacelikeTo', s.C.SpacelikeTo, v.s(S))
        ctx.equal(v.m(got), want, 'spacelike',
                  lambda: f'{list(bits(S))} of {p.describe()}')
        got.clear()
    assert_order(ctx, s.ev, p, 'queries (results cleared)')
    ctx.equal(v.m(s.C), p.all, 'members', '')
    # after discarding, the complement is taken in what is left
    D, S = random_subset(rng, p.all), random_subset(rng, p.all)
    s.C.discard(v.s(D))
    want = p.all & ~S & ~D
    for i in bits(S):
        want &= ~p.cone(i)
    ctx.equal(v.m(s.C.SpacelikeTo(v.s(S))), want, 'spacelike',
              lambda: f'{list(bits(S))} without {list(bits(D))} of '
                      f'{p.describe()}')


WORKLOADS = [W(sets, 1920, 38400), large(sets, 32, 640),
             huge(sets)]
