'''C09: chain, path, antichain, disjointness and infinity tests.'''
from causets.causet import Causet
from core import W
from build import scene, huge, large
from model import bits, mask, popcount, random_subset, \
    random_maximal_antichain

RULE = ('orders: random orders, event sets that are random, chains, paths, '
        'antichains, zigzags of links, singletons, empty, or one step away '
        'from these, given as set, list, tuple or generator; whole: the same '
        'questions for the whole causet before and after discard/add. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation.')
REQUIRED = {'large': 20, 'huge': 8, 'true:isChain': 200, 'true:isPath': 100, 'true:isAntichain': 200,
            'false:isPath': 200, 'zigzag': 20, 'chain_not_path': 20,
            'monitor:disjoint': 300, 'monitor:infinity': 300,
            'whole_discarded': 50}


def is_path(p, S):
    if not S or not p.is_chain(S):
        return False
    order = sorted(bits(S), key=lambda i: popcount(p.past[i]))
    return all(p.link(a, b) for a, b in zip(order, order[1:]))


def random_chain(rng, p):
    S = 0
    order = list(range(p.n))
    rng.shuffle(order)
    for i in order:
        if S & ~p.cone(i) == 0:
            S |= 1 << i
    return S


def random_path(rng, p):
    lp, lf = p.links()
    if not p.n:
        return 0
    x = rng.randrange(p.n)
    S = 1 << x
    while lf[x] and rng.random() < .8:
        x = rng.choice(list(bits(lf[x])))
        S |= 1 << x
    return S


def zigzag(rng, p):
    '''A connected set of events with at most two links each.'''
    lp, lf = p.links()
    if not p.n:
        return 0
    x = rng.randrange(p.n)
    S, up = 1 << x, rng.random() < .5
    for _ in range(rng.randint(1, 6)):
        nxt = (lf[x] if up else lp[x]) & ~S
        if not nxt:
            break
        x = rng.choice(list(bits(nxt)))
        S |= 1 << x
        if rng.random() < .8:
            up = not up
    return S


def give(rng, v, S):
    k = rng.choice(['set', 'set', 'list', 'tuple', 'gen', 'frozenset'])
    L = v.l(S)
    rng.shuffle(L)
    return {'set': set, 'list': list, 'tuple': tuple,
            'frozenset': frozenset, 'gen': lambda x: (e for e in x)}[k](L)


def ask(ctx, rng, s, S):
    p = s.p
    want = {'isChain': p.is_chain(S), 'isAntichain': p.is_antichain(S),
            'isPath': is_path(p, S)}
    if want['isChain'] and S and not want['isPath']:
        ctx.count('chain_not_path')
    for name, w in want.items():
        got = ctx.call(name, getattr(s.C, name), give(rng, s.v, S))
        ctx.equal(bool(got), w, name,
                  lambda: f'{list(bits(S))} of {p.describe()}')
        ctx.count(f'{str(w).lower()}:{name}')


def subsets(ctx, rng, index):
    s = scene(ctx, rng, big=index % 4 == 0)
    p = s.p
    cand = [0, p.all]
    for i in range(min(p.n, 3)):
        cand.append(1 << rng.randrange(p.n))
    for _ in range(4):
        cand.append(random_subset(rng, p.all))
        cand.append(random_chain(rng, p))
        cand.append(random_subset(rng, random_chain(rng, p)))
        cand.append(random_path(rng, p))
        cand.append(random_maximal_antichain(rng, p))
        z = zigzag(rng, p)
        if popcount(z) >= 3 and not p.is_chain(z):
            ctx.count('zigzag')
        cand.append(z)
    if p.n:
        cand += [c ^ (1 << rng.randrange(p.n)) for c in cand[2:10]]
    # crowns: closed zigzags
    for S in cand:
        ask(ctx, rng, s, S)


def disjointness(ctx, rng, index):
    s = scene(ctx, rng, big=index % 4 == 0)
    p = s.p
    for S in (None, p.all, 0, random_subset(rng, p.all),
              random_subset(rng, p.all)):
        m = p.all if S is None else S
        want = sorted(p.components(m))
        arg = None if S is None else s.v.s(S)
        got = ctx.call('disjoint', s.C.disjoint) if S is None else \
            ctx.call('disjoint', s.C.disjoint, arg)

        def d():
            return f'{list(bits(m))} of {p.describe()}'
        ctx.equal(sorted(s.v.m(c) for c in got), want, 'disjoint', d)
        if arg is not None:
            ctx.equal(s.v.m(arg), S, 'argument', 'the set was changed')
        got = s.C.isDisjoint() if S is None else s.C.isDisjoint(s.v.s(S))
        ctx.equal(bool(got), len(want) > 1, 'disjoint', d)
    ctx.equal(s.v.m(s.C), p.all, 'argument', 'disjoint changed the causet')


def infinities(ctx, C, v, p, S, what):
    mn = mask(i for i in bits(S) if not p.past[i] & S)
    mx = mask(i for i in bits(S) if not p.fut[i] & S)

    def d():
        return f'{what} {list(bits(S))} of {p.describe()}'
    ctx.equal((v.m(C.PastInf), v.m(C.FutureInf)), (mn, mx), 'infinity', d)
    ctx.equal((C.PastInfCard, C.FutureInfCard),
              (popcount(mn), popcount(mx)), 'infinity', d)


def infinity(ctx, rng, index):
    s = scene(ctx, rng, big=index % 4 == 0)
    p, v = s.p, s.v
    infinities(ctx, s.C, v, p, p.all, 'causet')
    for S in (0, p.all, random_subset(rng, p.all),
              random_subset(rng, p.all)):
        mn = mask(i for i in bits(S) if not p.past[i] & S)
        mx = mask(i for i in bits(S) if not p.fut[i] & S)

        def d():
            return f'{list(bits(S))} of {p.describe()}'
        X = v.s(S)
        ctx.equal(v.m(Causet.PastInfOf(X)), mn, 'infinity', d)
        ctx.equal(v.m(Causet.FutureInfOf(X)), mx, 'infinity', d)
        ctx.equal((Causet.PastInfCardOf(X), Causet.FutureInfCardOf(X)),
                  (popcount(mn), popcount(mx)), 'infinity', d)
        ctx.equal(v.m(X), S, 'argument', d)


def whole(ctx, rng, index):
    '''The whole causet, also after events were discarded or added back.'''
    s = scene(ctx, rng)
    p, S = s.p, s.p.all
    for turn in range(3):
        want = {'isChain': p.is_chain(S), 'isAntichain': p.is_antichain(S),
                'isPath': is_path(p, S)}
        for name, w in want.items():
            ctx.equal(bool(ctx.call(name, getattr(s.C, name))), w,
                      name, lambda: f'whole {list(bits(S))} of '
                                    f'{p.describe()}')
            ctx.count(f'{str(w).lower()}:{name}')
        infinities(ctx, s.C, s.v, p, S, 'whole')
        D = random_chain(rng, p) if rng.random() < .5 else \
            random_subset(rng, p.all)
        if turn == 1 and rng.random() < .5:
            s.C.add(s.v.s(D))
            S |= D
        else:
            D = S & ~D if rng.random() < .5 else D
            s.C.discard(s.v.s(D))
            S &= ~D
            ctx.count('whole_discarded')


WORKLOADS = [W(subsets, 2880, 57600), W(disjointness, 2400, 48000),
             W(infinity, 1920, 38400), W(whole, 2400, 48000),
             large(subsets, 32, 640), large(disjointness, 32, 640),
             large(infinity, 32, 640), large(whole, 32, 640),
             huge(subsets),
             huge(disjointness),
             huge(infinity),
             huge(whole)]
