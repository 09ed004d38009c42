'''C04: remembered links follow every structural change.'''
from causets.causetevent import CausetEvent
from causets.causet import Causet
from causets.embeddedcauset import EmbeddedCauset
from core import W
from build import View, assert_links, scene, huge, large
from machine import Machine
from model import Poset, bits, mask, popcount

RULE = ('history: a random order whose link memory is filled (fully, partly), '
        'then random structural changes, with every link query of every '
        'event compared with the covering relation after each change (so the '
        'memory stays filled) or only at the end; embedded: creation, '
        're-relation and re-embedding of events of an embedded causet. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: a change happened while links were remembered.')
REQUIRED = {'large': 20, 'huge': 8, 'link_states_compared': 1000, 'op:new_between': 30,
            'op:merge': 30, 'op:disjoin': 30, 'op:add': 20, 'op:discard': 20,
            'changes_with_memory': 300}


def history(ctx, rng, index):
    m = Machine(ctx, rng, nmax=rng.choice([5, 8, 13]))
    mode = rng.choice(['always', 'sometimes', 'end'])
    weights = rng.choice([
        dict(new=4, merge=2, merge_disjoint=1, disjoin=2, add=1, discard=1,
             link=1, unlink=1, query=1),
        dict(new=3, disjoin=3, query=2), dict(new=3, merge=3, query=2),
        dict(new=6, query=2)])
    names = list(weights)
    fill = rng.choice(['all', 'some', 'causet'])
    try:
        for e in m.ev:
            if fill == 'all' or (fill == 'some' and rng.random() < .5):
                e.link()
        if fill == 'causet' and m.ev:
            Causet(set(m.ev)).link()
        for _ in range(rng.randint(2, 12)):
            op = rng.choices(names, [weights[k] for k in names])[0]
            had = any(e.hasBeenLinked() for e in m.ev)
            getattr(m, 'op_' + op)()
            if had and op in ('new', 'merge', 'disjoin'):
                ctx.count('changes_with_memory')
            if mode == 'always' or (mode == 'sometimes' and
                                    rng.random() < .4):
                m.check_links()
        order = list(range(m.p.n))
        rng.shuffle(order)
        m.check_links(order)
    finally:
        ctx.describe((mode, fill, m.ops), nontrivial=True)


def exhaustive(ctx, rng, index):
    '''Every order on four elements with all links remembered: every single
    insertion of a fifth element, and every disjoining.'''
    n = 4
    prs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    p0 = Poset.from_relation(n, [pr for k, pr in enumerate(prs)
                                 if (index >> k) & 1])
    from build import build
    for P in range(16):
        for F in range(16):
            dn, up = P, F
            for i in bits(P):
                dn |= p0.past[i]
            for i in bits(F):
                up |= p0.fut[i]
            if dn & up:
                continue
            p = Poset.from_relation(n, [(a, b) for b in range(n)
                                        for a in bits(p0.past[b])])
            ev, _ = build(rng, p, 'past_full', 'int', touch=False)
            for e in ev:
                e.link()
            ev.append(CausetEvent(past=[ev[i] for i in bits(P)],
                                  future=[ev[i] for i in bits(F)]))
            p.add(P, F)
            assert_links(ctx, ev, p, f'insert {bin(P)} {bin(F)}')
            ctx.count('changes_with_memory')
            ctx.count('link_states_compared')
    for i in range(n):
        p = Poset.from_relation(n, [(a, b) for b in range(n)
                                    for a in bits(p0.past[b])])
        ev, _ = build(rng, p, 'past_full', 'int', touch=False)
        for e in ev:
            e.link()
        ev[i].disjoin()
        p.isolate(i)
        assert_links(ctx, ev, p, f'disjoin {i}')
        ctx.count('changes_with_memory')
    ctx.describe((p0.key(),), nontrivial=p0.relations() > 0)


def embedded(ctx, rng, index):
    '''create/relate of an embedded causet while links are remembered.'''
    C = EmbeddedCauset(dim=2, shape='cube')
    pts = {}

    def model():
        ev = list(C)
        prs = []
        for i, a in enumerate(ev):
            for j, b in enumerate(ev):
                x, y = a.Coordinates, b.Coordinates
                if i != j and y[0] - x[0] > abs(y[1] - x[1]):
                    prs.append((i, j))
        return ev, Poset.from_relation(len(ev), prs)
    hist = []
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(['create', 'create', 'move', 'link', 'unlink',
                         'outsider'])
        hist.append(op)
        if op == 'create':
            new = C.create([[rng.uniform(-.5, .5), rng.uniform(-.5, .5)]
                            for _ in range(rng.randint(0, 5))])
            for e in new:
                if rng.random() < .3:
                    e.LinkPast
        elif op == 'move' and C.Card:
            e = rng.choice(C.sortedByLabels())
            e.embed([rng.uniform(-.5, .5), rng.uniform(-.5, .5)],
                    reembed=True)
            ctx.call('relate', C.relate, link=rng.random() < .5)
        elif op == 'link':
            C.link()
        elif op == 'unlink':
            ctx.call('unlink', C.unlink)
        elif op == 'outsider' and C.Card:
            # relating the causet cuts the events outside of it off
            L = C.sortedByLabels()
            a, b = rng.choice(L), rng.choice(L)
            xs = [CausetEvent(past=[a]), CausetEvent(future=[b])]
            both = b is a or b in a.Past
            for x in xs:
                rng.choice([lambda: x.link(), lambda: x.LinkPast,
                            lambda: x.LinkFuture, lambda: None])()
            ctx.call('relate', C.relate, link=rng.random() < .5)
            hi, lo = xs
            for x, pst, fut in ((hi, {lo}, set()), (lo, set(), {hi})):
                if not both:
                    pst = fut = set()
                ctx.check(x.Past == pst == x.LinkPast and
                          x.Future == fut == x.LinkFuture and
                          x.LinkCone == pst | fut and
                          x.LinkConeCard == len(pst | fut), 'outsider',
                          lambda: f'{x!r} after {hist}')
        ev, p = model()
        assert_links(ctx, ev, p, str(hist))
        ctx.count('link_states_compared')
    if C.Card > 1 and rng.random() < .5:
        # without relating, the new event is isolated
        C.create([[0.0, 0.0]], relate=False)
        iso = [e for e in C if not e.Past and not e.Future]
        ctx.check(all(not e.LinkPast and not e.LinkFuture for e in iso),
                  'isolated', '')
    for link in (True, False):
        ctx.call('relate', C.relate, link=link)
        ev, p = model()
        assert_links(ctx, ev, p, f'relate(link={link})')
    ctx.describe((hist, C.Card), nontrivial=C.Card > 1)


WORKLOADS = [W(history, 8000, 160000), W(exhaustive, 64, 64),
             W(embedded, 960, 19200), large(history, 32, 640),
             huge(history)]
