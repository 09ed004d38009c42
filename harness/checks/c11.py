'''C11: causal intervals and their parts.'''
from causets.causet import Causet
from core import W
from build import SLIM, scene, huge, large
from model import bits, mask, popcount, random_subset

RULE = ('intervals: every pair of events of random orders, with and without '
        'boundary; smallest: SmallestIntervalCard for every pair with random '
        'searching and intersecting sets. *_large: the same with 30-70 '
        'events. Non-trivial: some pair with an event in between.')
ASSUMPTIONS = ['SmallestIntervalCard for a causal pair of which exactly one '
               'event is searched takes the entire future or past of this '
               'event, and for one of which no event is searched the smallest '
               'interval around both, as for spacelike pairs']
REQUIRED = {'large': 20, 'huge': 8, 'nonempty': 300, 'monitor:Interval': 3000, 'perimetral': 150,
            'internal': 100, 'smallest_causal': 1000,
            'smallest_spacelike': 500, 'smallest_both': 100,
            'smallest_half': 200, 'smallest_one_sided': 100}


def intervals(ctx, rng, index):
    s = scene(ctx, rng, big=index % 5 == 0)
    p, v = s.p, s.v
    lp, lf = p.links()
    prs = [(a, b) for a in range(p.n) for b in range(p.n)]
    rng.shuffle(prs)
    for a, b in prs[:150]:
        x, y = s.ev[a], s.ev[b]
        inner = p.fut[a] & p.past[b]
        full = p.interval(a, b)

        def d():
            return f'({a}, {b}) of {p.describe()}'
        ctx.equal(v.m(ctx.call('Interval', Causet.Interval, x, y)), full,
                  'Interval', d)
        ctx.equal(v.m(Causet.Interval(x, y, True)), full, 'Interval', d)
        ctx.equal(ctx.call('IntervalCard', Causet.IntervalCard, x, y),
                  popcount(full), 'IntervalCard', d)
        ctx.equal(Causet.IntervalCard(x, y, includeBoundary=True),
                  popcount(full), 'IntervalCard', d)
        want = full if a == b else inner
        got = ctx.call('Interval', Causet.Interval, x, y,
                       includeBoundary=False)
        ctx.equal(v.m(got), want, 'Interval', d)
        got.clear()
        ctx.equal(Causet.IntervalCard(x, y, False), popcount(want),
                  'IntervalCard', d)
        per = lf[a] & lp[b] if p.lt(a, b) else 0
        ctx.equal(v.m(ctx.call('PerimetralEvents', Causet.PerimetralEvents,
                               x, y)), per, 'Perimetral', d)
        ctx.equal(Causet.PerimetralEventCount(x, y), popcount(per),
                  'Perimetral', d)
        ctx.equal(v.m(ctx.call('InternalEvents', Causet.InternalEvents,
                               x, y)), inner & ~per, 'Internal', d)
        ctx.equal(Causet.InternalEventCount(x, y), popcount(inner & ~per),
                  'Internal', d)
        ctx.count('nonempty', bool(inner))
        ctx.count('perimetral', bool(per))
        ctx.count('internal', bool(inner & ~per))


def smallest(ctx, rng, index):
    s = scene(ctx, rng, n=rng.randint(2, 11))
    p, v, C = s.p, s.v, s.C
    for _ in range(3):
        search = None if rng.random() < .4 else \
            random_subset(rng, p.all, rng.choice([.3, .6, .9]))
        inter = None if rng.random() < .5 else random_subset(rng, p.all)
        kw = {}
        if search is not None:
            kw['searching'] = v.s(search)
        if inter is not None:
            kw['intersecting'] = v.s(inter)
        S = p.all if search is None else search

        def size(m):
            return popcount(m if inter is None else m & inter)
        for a in range(p.n):
            for b in range(p.n):
                lo, hi = (a, b) if p.le(a, b) else (b, a)
                slo, shi = (S >> lo) & 1, (S >> hi) & 1
                if p.le(lo, hi) and (slo or shi):
                    if slo and shi:
                        want = size(p.interval(lo, hi))
                        ctx.count('smallest_causal')
                    else:   # the entire future or past instead
                        want = size(p.fut[lo] if slo else p.past[hi])
                        ctx.count('smallest_half')
                else:
                    P = p.past[a] & p.past[b] & S
                    F = p.fut[a] & p.fut[b] & S
                    if P and F:
                        want = min(size(p.interval(x, y)) for x in bits(P)
                                   for y in bits(F))
                        ctx.count('smallest_both')
                    elif P:
                        want = min(size(p.fut[x]) for x in bits(P))
                        ctx.count('smallest_one_sided')
                    elif F:
                        want = min(size(p.past[y]) for y in bits(F))
                        ctx.count('smallest_one_sided')
                    else:
                        want = 0
                    ctx.count('smallest_spacelike')
                got = ctx.call('SmallestIntervalCard',
                               C.SmallestIntervalCard, s.ev[a], s.ev[b],
                               **kw)
                ctx.equal(got, want, 'Smallest',
                          lambda: f'({a}, {b}) searching {search and list(bits(search))} '
                                  f'intersecting {inter and list(bits(inter))} of {p.describe()}')
        for k, m in (('searching', search), ('intersecting', inter)):
            if k in kw:
                ctx.equal(v.m(kw[k]), m, 'argument', k)


WORKLOADS = [W(intervals, 4000, 80000), W(smallest, 2400, 48000),
             large(intervals, 32, 640), large(smallest, 32, 640),
             huge(intervals, kinds=SLIM),
             huge(smallest, kinds=SLIM)]
