'''C13: ranks.'''
import math
from causets.causet import Causet
from core import W
from build import SLIM, scene, huge, large
from checks.c12 import in_range, sets
from model import bits, popcount, random_subset

RULE = ('pairs: Rank of every pair of events of random orders (including '
        'ladders, where shortest and longest paths differ) in random link '
        'states; ranks: Ranks/RankNumbers of random event sets and ranges '
        'against the shortest link paths. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one '
        'relation.')
REQUIRED = {'large': 20, 'huge': 8, 'monitor:Rank': 5000, 'rank_ge3': 200, 'rank_differs': 8,
            'monitor:Ranks': 1000, 'monitor:RankNumbers': 300,
            'ranks_nonempty': 200}


def pairs(ctx, rng, index):
    s = scene(ctx, rng, kind=rng.choice([None, None, 'ladder', 'sparse',
                                         'grid', 'layered']),
              big=index % 6 == 0)
    p = s.p
    prs = [(a, b) for a in range(p.n) for b in range(p.n)]
    rng.shuffle(prs)
    memo = {}
    for a, b in prs[:200]:
        r = p.rank(a, b)
        if p.n > 20 and p.rank_work(a, b, memo) > 20000:
            ctx.count('left out for time')
            continue
        got = ctx.call('Rank', s.ev[a].Rank, s.ev[b])
        ctx.equal(got, math.inf if r is None else r, 'Rank',
                  lambda: f'({a}, {b}) of {p.describe()}')
        if r is not None and r >= 2:
            ctx.count('rank_differs', p.longest(a, b) != r)
            ctx.count('rank_ge3', r >= 3)
        if rng.random() < .05:
            rng.choice([s.C.link, s.C.unlink, s.ev[a].unlink])()


def ranks(ctx, rng, index):
    s = scene(ctx, rng, kind=rng.choice([None, None, 'ladder', 'sparse']))
    p, v = s.p, s.v
    memo = {}
    for S in sets(rng, p):
        rf, rp = S, S
        for i in bits(S):
            rf |= p.fut[i]
            rp |= p.past[i]
        if p.n > 20:
            # Rank tries all pairs of links: exponential on some orders
            work = sum(p.rank_work(a, b, memo)
                       for a in bits(S) for b in bits(p.fut[a])) + \
                sum(p.rank_work(a, b, memo)
                    for b in bits(S) for a in bits(p.past[b]))
            if work > 20000:
                ctx.count('left out for time')
                continue
        up = {b: max((p.rank(a, b) for a in bits(p.past[b] & S)), default=0)
              for b in bits(rf)}
        dn = {a: -max((p.rank(a, b) for b in bits(p.fut[a] & S)), default=0)
              for a in bits(rp)}
        todo = [(k, None) for k in range(-3, 4)] + [(-p.n - 1, p.n + 1)]
        for _ in range(4):
            a = rng.randint(-4, 4)
            todo.append((a, rng.randint(a - 1, a + 4)))
        for first, last in todo:
            want = in_range(up, dn, first, first if last is None else last)
            arg = v.s(S)
            got = ctx.call('Ranks', Causet.Ranks, arg, first) \
                if last is None else \
                ctx.call('Ranks', Causet.Ranks, arg, first, last)
            ctx.equal(v.m(got), want, 'Ranks',
                      lambda: f'Ranks({list(bits(S))}, {first}, {last}) of '
                              f'{p.describe()}')
            ctx.equal(v.m(arg), S, 'argument', 'Ranks')
            ctx.count('ranks_nonempty', bool(want))
        order = list(bits(S))
        rng.shuffle(order)
        L = [s.ev[i] for i in order]
        for rev in (None, False, True):
            src = dn if rev else up
            got = ctx.call('RankNumbers', Causet.RankNumbers, L) \
                if rev is None else \
                ctx.call('RankNumbers', Causet.RankNumbers, L, reverse=rev)
            ctx.equal(list(got), [src[i] for i in order], 'RankNumbers',
                      lambda: f'{order} reverse={rev} of {p.describe()}')


WORKLOADS = [W(pairs, 4000, 80000), W(ranks, 1600, 32000),
             large(pairs, 32, 640), large(ranks, 32, 640),
             huge(pairs, kinds=SLIM),
             huge(ranks, kinds=SLIM)]
