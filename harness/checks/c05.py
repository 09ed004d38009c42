'''C05: named generators produce the documented orders and labels.'''
import itertools
from causets.causet import Causet
import model
from core import W
from build import huge, large
from model import Poset, bits, mask

RULE = ('permutations (all of size <= 5, random up to 24), chain, antichain, '
        'simplex (dimension <= 9), fences and crowns (length <= 40, height '
        '<= 12, open and closed) with integer, formatted and empty labels; '
        'the relation is compared event by event (located by label, or by '
        'isomorphism invariants when unlabelled) with the definition. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: more than one event.')
REQUIRED = {'large': 20, 'huge': 8, 'monitor:relation': 300, 'perm_all': 100, 'fences': 50,
            'simplices': 8, 'unlabelled': 20, 'simplices_high': 8,
            'fences_large': 50}
FORMATS = [None, None, None, '', 'e{:03d}', 'my label {:.2f}', '{}']


def by_label(ctx, C, labels, what):
    '''Events in the order of the expected labels.'''
    ev = list(C)
    ctx.equal(len(ev), len(labels), 'card', what)
    ctx.equal(C.Card, len(labels), 'card', what)
    got = {}
    for e in ev:
        ctx.check(e.Label not in got, 'labels', f'{what}: double {e.Label!r}')
        got[e.Label] = e
    ctx.equal(sorted(map(repr, got)), sorted(map(repr, labels)), 'labels',
              what)
    for lab in labels:
        ctx.equal(type(next(x for x in got if x == lab)), type(lab),
                  'labels', what)
    return [got[lab] for lab in labels]


def compare(ctx, ev, lt, what):
    idx = {id(e): i for i, e in enumerate(ev)}
    n = len(ev)
    for i in range(n):
        want = {j for j in range(n) if lt(j, i)}
        ctx.equal({idx.get(id(x), -1) for x in ev[i].Past}, want, 'relation',
                  lambda: f'{what}: past of element {i}')
        want = {j for j in range(n) if lt(i, j)}
        ctx.equal({idx.get(id(x), -1) for x in ev[i].Future}, want,
                  'relation', lambda: f'{what}: future of element {i}')


def unlabelled(ctx, C, n, lt, what):
    '''Compare as far as possible without identity: the degree profile.'''
    ev = list(C)
    ctx.equal(len(ev), n, 'card', what)
    ctx.check(all(e.Label is None for e in ev), 'labels', what)
    got = sorted((len(e.Past), len(e.Future),
                  sorted((len(x.Past), len(x.Future)) for x in e.Past))
                 for e in ev)
    deg = [(sum(lt(j, i) for j in range(n)), sum(lt(i, j) for j in range(n)))
           for i in range(n)]
    want = sorted((deg[i][0], deg[i][1],
                   sorted(deg[j] for j in range(n) if lt(j, i)))
                  for i in range(n))
    ctx.equal(got, want, 'relation', what)
    # all other queries still work on unlabelled events
    ctx.call('sort', C.sortedByCausality)
    ctx.call('matrix', C.PastMatrix)
    ctx.call('repr', repr, C)
    ctx.count('unlabelled')


def judge(ctx, C, n, lt, fmt, what):
    if fmt == '':
        unlabelled(ctx, C, n, lt, what)
    else:
        labels = [i + 1 if fmt is None else fmt.format(i + 1)
                  for i in range(n)]
        compare(ctx, by_label(ctx, C, labels, what), lt, what)


def perm_case(ctx, P, fmt, positional):
    what = f'FromPermutation({P}, {fmt!r})'
    C = ctx.call('FromPermutation', Causet.FromPermutation, list(P), fmt) \
        if positional else ctx.call('FromPermutation',
                                    Causet.FromPermutation, list(P),
                                    labelFormat=fmt)
    pos = {p: i for i, p in enumerate(P)}
    judge(ctx, C, len(P),
          lambda i, j: i < j and pos[i + 1] < pos[j + 1], fmt, what)


ALL = [p for n in range(0, 6) for p in itertools.permutations(range(1, n + 1))]


def all_permutations(ctx, rng, index):
    P = ALL[index]
    ctx.describe(P, nontrivial=len(P) > 1)
    perm_case(ctx, P, rng.choice(FORMATS), rng.random() < .5)
    ctx.count('perm_all')


def permutations(ctx, rng, index):
    n = model.SIZE or rng.randint(6, 24)
    P = list(range(1, n + 1))
    rng.shuffle(P)
    fmt = rng.choice(FORMATS)
    ctx.describe((P, fmt))
    keep = list(P)
    perm_case(ctx, P, fmt, True)
    ctx.equal(P, keep, 'argument', 'permutation list was changed')


def chains(ctx, rng, index):
    n = model.SIZE or rng.choice([0, 1, 2, 3, rng.randint(4, 30)])
    fmt = rng.choice(FORMATS)
    ctx.describe((n, fmt), nontrivial=n > 1)
    a = (n,) if fmt is None and rng.random() < .5 else (n, fmt)
    judge(ctx, ctx.call('NewChain', Causet.NewChain, *a), n,
          lambda i, j: i < j, fmt, f'NewChain({a})')
    judge(ctx, ctx.call('NewAntichain', Causet.NewAntichain, *a), n,
          lambda i, j: False, fmt, f'NewAntichain({a})')


def simplex(ctx, rng, index):
    simplex_of(ctx, index % 6, index // 6 % 2 == 0, index)


def simplex_high(ctx, rng, index):
    '''Ten and more vertices: labels of several digits.'''
    ctx.count('simplices_high')
    simplex_of(ctx, (9, 8, 7, 6)[index % 4] if index < 16 else 10,
               index // 4 % 2 == 0, index)


def simplex_of(ctx, d, central, index):
    ctx.describe((d, central), nontrivial=d > 0)
    ctx.count('simplices')
    C = ctx.call('NewSimplex', Causet.NewSimplex, d) \
        if central and index >= 12 else \
        ctx.call('NewSimplex', Causet.NewSimplex, d, central)
    top = d + 1 if central else max(d, 1)
    faces = [f for k in range(1, top + 1)
             for f in itertools.combinations(range(1, d + 2), k)]
    ev = by_label(ctx, C, ['-'.join(map(str, f)) for f in faces],
                  f'NewSimplex({d}, {central})')
    compare(ctx, ev, lambda i, j: set(faces[i]) < set(faces[j]),
            f'NewSimplex({d}, {central})')


def fence(ctx, rng, index):
    length = rng.choice([-1, 0, 1, 2, 3, 4, 5, rng.randint(6, 9)])
    height = rng.choice([-1, 0, 1, 1, 2, 3, 4])
    if index % 16 == 0:
        length, height = rng.choice([(rng.randint(10, 40), rng.randint(0, 2)),
                                     (rng.randint(2, 5), rng.randint(5, 12))])
        if index % 400 == 0:    # more labels than a byte can hold
            length, height = rng.randint(125, 300), 1
        ctx.count('fences_large')
    closed = rng.random() < .5
    what = f'NewFence({length}, {height}, {closed})'
    ctx.describe(what, nontrivial=length > 1)
    ctx.count('fences')
    if height == 1 and closed and rng.random() < .5:
        what = f'NewCrown({length})'
        C = ctx.call('NewCrown', Causet.NewCrown, length)
    elif height == 1 and closed:
        C = ctx.call('NewFence', Causet.NewFence, length)
    elif rng.random() < .5:
        C = ctx.call('NewFence', Causet.NewFence, length, height, closed)
    else:
        C = ctx.call('NewFence', Causet.NewFence, length, height=height,
                     closed=closed)
    if length < 1 or height < 0:
        ctx.equal(C.Card, 0, 'card', what)
        return
    n = length * (height + 1)
    links = []
    for h in range(1, height + 1):
        for k in range(length):
            me, below = h * length + k, (h - 1) * length
            if length == 1:
                links.append((below, me))
                continue
            links.append((below + k, me))
            if k > 0 or closed:
                links.append((below + (k - 1) % length, me))
    p = Poset.from_relation(n, links)
    ev = by_label(ctx, C, list(range(1, n + 1)), what)
    compare(ctx, ev, p.lt, what)


def default_crown(ctx, rng, index):
    C = ctx.call('NewCrown', Causet.NewCrown)
    p = Poset.from_relation(6, [(0, 3), (2, 3), (0, 4), (1, 4), (1, 5),
                                (2, 5)])
    ev = by_label(ctx, C, list(range(1, 7)), 'NewCrown()')
    compare(ctx, ev, p.lt, 'NewCrown()')
    C = ctx.call('Causet()', Causet)
    ctx.equal(C.Card, 0, 'card', 'Causet()')
    D = Causet()
    C.add({e for e in Causet.NewChain(2)})
    ctx.equal(D.Card, 0, 'card', 'Causet() after another was filled')
    ctx.equal(Causet().Card, 0, 'card', 'Causet() after another was filled')


WORKLOADS = [W(all_permutations, len(ALL), len(ALL)),
             W(permutations, 960, 19200), W(chains, 480, 9600),
             W(simplex, 24, 24), W(simplex_high, 8, 18, sized=True), W(fence, 1920, 38400), W(default_crown, 2, 2),
             large(permutations, 32, 640), large(chains, 32, 640),
             huge(permutations),
             huge(chains)]
