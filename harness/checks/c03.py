'''C03: links are exactly the covering pairs, in every link query.'''
import numpy as np
from causets.causetevent import CausetEvent
from causets.causet import Causet
from core import W
from build import scene, huge, large
from model import bits, mask, popcount, random_subset

RULE = ('orders: random orders (17 kinds, 9 construction routes) in a random '
        'link-memory state (none, some events, all, linked causet, '
        'linked-then-unlinked); every link query of every event in random '
        'order against the covering relation, repeated after a change of the '
        'memory state. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation.')
REQUIRED = {'large': 20, 'huge': 8, 'events_checked': 1000, 'monitor:isLink': 5000,
            'monitor:LinkCount': 300, 'monitor:matrix': 100,
            'links_seen': 1000}


def queries(ctx, rng, p, ev, v, C, i):
    '''The link queries of event i as (name, observed, expected).'''
    lp, lf = p.links()
    e = ev[i]
    js = list(range(p.n))
    rng.shuffle(js)

    def per(name, f, want):
        for j in js:
            got = bool(ctx.call(name, f, ev[j]))
            ctx.equal(got, bool((want >> j) & 1), name,
                      lambda: f'{name} of {i} and {j}, order {p.describe()}')
    return [
        lambda: ctx.equal(v.m(e.LinkPast), lp[i], 'LinkPast',
                          lambda: f'event {i} of {p.describe()}'),
        lambda: ctx.equal(v.m(e.LinkFuture), lf[i], 'LinkFuture',
                          lambda: f'event {i} of {p.describe()}'),
        lambda: ctx.equal(v.m(e.LinkCone), lp[i] | lf[i], 'LinkCone',
                          lambda: f'event {i} of {p.describe()}'),
        lambda: ctx.equal(e.LinkPastCard, popcount(lp[i]), 'LinkPastCard',
                          lambda: f'event {i} of {p.describe()}'),
        lambda: ctx.equal(e.LinkFutureCard, popcount(lf[i]),
                          'LinkFutureCard',
                          lambda: f'event {i} of {p.describe()}'),
        lambda: ctx.equal(e.LinkConeCard, popcount(lp[i] | lf[i]),
                          'LinkConeCard',
                          lambda: f'event {i} of {p.describe()}'),
        lambda: per('isPastLink', e.isPastLink, lp[i]),
        lambda: per('isFutureLink', e.isFutureLink, lf[i]),
        lambda: per('isLinkedTo', e.isLinkedTo, lp[i] | lf[i]),
        lambda: per('isLink', lambda x: CausetEvent.isLink(e, x), lf[i]),
    ]


def counts(ctx, rng, p, ev, v, C):
    lp, lf = p.links()
    ctx.equal(ctx.call('LinkCount', C.LinkCount),
              sum(popcount(m) for m in lp), 'LinkCount',
              lambda: f'{p.describe()}')
    for S in (random_subset(rng, p.all), p.all, 0):
        want = sum(popcount(lp[i] & S) for i in bits(S))
        ctx.equal(ctx.call('LinkCount', C.LinkCount, v.s(S)), want,
                  'LinkCount', lambda: f'{list(bits(S))} of {p.describe()}')
        ctx.equal(ctx.call('LinkCountOf', CausetEvent.LinkCountOf, v.s(S)),
                  want, 'LinkCount',
                  lambda: f'{list(bits(S))} of {p.describe()}')


def matrices(ctx, rng, p, ev, v, C):
    lp, lf = p.links()
    order = list(range(p.n))
    rng.shuffle(order)
    if rng.random() < .5:
        order = order[:rng.randint(0, p.n)]
    L = [ev[i] for i in order]
    want = np.array([[bool((lp[a] >> b) & 1) for b in order] for a in order],
                    dtype=bool).reshape(len(order), len(order))
    M = ctx.call('LinkPastMatrix', C.LinkPastMatrix, L)
    ctx.check(np.array_equal(M, want), 'matrix',
              lambda: f'LinkPastMatrix {order} of {p.describe()}: {M}')
    M = ctx.call('LinkFutureMatrix', C.LinkFutureMatrix, L)
    ctx.check(np.array_equal(M, want.T), 'matrix',
              lambda: f'LinkFutureMatrix {order} of {p.describe()}: {M}')


def orders(ctx, rng, index):
    s = scene(ctx, rng, big=index % 4 == 0)
    p, ev, v, C = s.p, s.ev, s.v, s.C
    ctx.describe(('state', s.state))
    for turn in range(2):
        todo = [lambda: counts(ctx, rng, p, ev, v, C),
                lambda: matrices(ctx, rng, p, ev, v, C)]
        for i in range(p.n):
            todo += queries(ctx, rng, p, ev, v, C, i)
            ctx.count('events_checked')
        rng.shuffle(todo)
        for t in todo:
            t()
            if rng.random() < .03 and p.n:
                e = rng.choice(ev)
                rng.choice([e.link, e.unlink, C.link, C.unlink,
                            lambda: e.LinkPast, lambda: e.LinkFuture])()
        if turn == 0:
            rng.choice([C.link, C.unlink, lambda: None])()
            for e in ev:
                if rng.random() < .3:
                    rng.choice([e.link, e.unlink])()
    ctx.count('links_seen', sum(popcount(m) for m in p.links()[0]))


def linked_flag(ctx, rng, index):
    '''hasBeenLinked follows link() and unlink().'''
    s = scene(ctx, rng, link=False)
    s.C.unlink()
    for e in s.ev:
        ctx.equal(e.hasBeenLinked(), False, 'flag', 'after causet.unlink()')
    s.C.link()
    for e in s.ev:
        ctx.equal(e.hasBeenLinked(), True, 'flag', 'after causet.link()')
    for e in s.ev:
        if rng.random() < .5:
            e.unlink()
            ctx.equal(e.hasBeenLinked(), False, 'flag', 'after unlink()')
            if rng.random() < .5:
                e.unlink()
            e.link()
            ctx.equal(e.hasBeenLinked(), True, 'flag', 'after link()')


def discarded(ctx, rng, index):
    '''Links between events of a causet from which events were discarded:
    the count is that of links between the remaining events.'''
    s = scene(ctx, rng)
    D = random_subset(rng, s.p.all)
    s.C.discard(s.v.s(D))
    S = s.p.all & ~D
    lp = s.p.links()[0]
    want = sum(popcount(lp[i] & S) for i in bits(S))
    if rng.random() < .5:
        ctx.call('link', s.C.link)
    ctx.equal(ctx.call('LinkCount', s.C.LinkCount), want, 'LinkCount',
              lambda: f'discarded {list(bits(D))} from {s.p.describe()}')
    for i in range(s.p.n):
        ctx.equal(s.v.m(s.ev[i].LinkPast), lp[i], 'LinkPast',
                  lambda: f'event {i} after discard of {list(bits(D))}')


WORKLOADS = [W(orders, 4000, 80000), W(linked_flag, 640, 12800),
             W(discarded, 1280, 25600), large(orders, 32, 640),
             large(linked_flag, 32, 640), large(discarded, 32, 640),
             huge(orders),
             huge(linked_flag),
             huge(discarded)]
