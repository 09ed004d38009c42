'''C01: the events form exactly the implied strict partial order.'''
import importlib
import io
import unittest
from causets.causetevent import CausetEvent
from causets.causet import Causet
from core import W
from build import View, assert_order, build, routes, huge, large
from machine import Machine
from model import Poset, bits, random_poset, random_size

RULE = ('history: random sequences of new/merge/disjoin/causet/add/discard/'
        'link/unlink/query on up to 14 events, the whole relation compared '
        'with the model after every operation; routes: random orders built '
        'along nine public construction routes; suite: the repository\'s own '
        'test cases run with monitors over all live events. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at '
        'least one relation existed. Distinct by operation sequence.')
ASSUMPTIONS = ['events are not related in contradictory (cyclic) ways by the '
               'caller, which the documentation leaves unchecked']
REQUIRED = {'large': 20, 'huge': 8, 'orders_compared': 500, 'op:merge': 20, 'op:disjoin': 20,
            'op:new_between': 20, 'monitor:axioms': 100}


def axioms(ctx, events, where):
    '''Strict partial order, mirrored, without any model.'''
    ev = list(events)
    inside = {id(e) for e in ev}
    for e in ev:
        P, F = set(e.Past), set(e.Future)
        ctx.check(e not in P and e not in F, 'axioms', f'irreflexive {where}')
        ctx.check(not (P & F), 'axioms', f'antisymmetric {where}')
        for a in P:
            ctx.check(e in a.Future, 'axioms', f'mirror past {where}')
            ctx.check(set(a.Past) <= P, 'axioms', f'transitive {where}')
        for b in F:
            ctx.check(e in b.Past, 'axioms', f'mirror future {where}')
            ctx.check(set(b.Future) <= F, 'axioms', f'transitive {where}')
    return inside


def history(ctx, rng, index):
    m = Machine(ctx, rng, nmax=14)
    weights = rng.choice([
        dict(new=5, merge=2, merge_disjoint=1, disjoin=1, causet=1, add=1,
             discard=1, link=1, unlink=1, query=1),
        dict(new=3, merge=3, merge_disjoint=1, disjoin=3, query=2),
        dict(new=6, merge=1, query=3)])
    names = list(weights)
    try:
        for _ in range(rng.randint(4, 16)):
            op = rng.choices(names, [weights[k] for k in names])[0]
            getattr(m, 'op_' + op)()
            m.check_order()
        axioms(ctx, m.ev, 'after history')
    finally:
        ctx.describe(m.ops, nontrivial=m.p.relations() > 0)


def route(ctx, rng, index):
    p, kind = random_poset(rng, random_size(rng, big=True))
    r = rng.choice(routes(p))
    ctx.describe((kind, r, p.describe()), nontrivial=p.relations() > 0)
    ev, r = ctx.call('build', build, rng, p, r)
    assert_order(ctx, ev, p, r)
    axioms(ctx, ev, r)


def generators(ctx, rng, index):
    '''Named generators and random permutations: only the axioms.'''
    k = rng.randint(0, 9)
    P = list(range(1, k + 1))
    rng.shuffle(P)
    make = rng.choice([
        lambda: Causet.FromPermutation(P),
        lambda: Causet.NewFence(rng.randint(1, 6), rng.randint(0, 3),
                                rng.random() < .5),
        lambda: Causet.NewSimplex(rng.randint(0, 4), rng.random() < .5),
        lambda: Causet.NewCrown(rng.randint(2, 6))])
    C = ctx.call('generator', make)
    axioms(ctx, C, 'generator')
    ctx.describe((P, C.Card), nontrivial=C.Card > 1)


SUITES = ['test_causet', 'test_calculations', 'test_embeddedcauset',
          'test_shapes', 'test_spacetimes', 'test_sprinkledcauset',
          'test_deSitterRadii', 'test_causetplotting']


def suite(ctx, rng, index):
    '''The repository's own tests as workload; their results are irrelevant,
    the monitor inspects every event that is alive after each test.'''
    name = SUITES[index % len(SUITES)]
    try:
        mod = importlib.import_module('causets.' + name)
    except Exception:  # noqa: BLE001  a test module may be absent
        return
    born = []
    orig = CausetEvent.__init__

    def spy(self, *a, **k):
        orig(self, *a, **k)
        born.append(self)
    CausetEvent.__init__ = spy
    import matplotlib.pyplot as plt
    try:
        for test in unittest.defaultTestLoader.loadTestsFromModule(mod):
            for t in test:
                born.clear()
                t.run(unittest.TestResult())
                plt.close('all')
                ctx.count('suite_tests')
                ev = born if len(born) < 250 else rng.sample(born, 250)
                axioms(ctx, ev, name)
                ctx.count('suite_events', len(ev))
    finally:
        CausetEvent.__init__ = orig
    ctx.describe((name,), nontrivial=True)


def exhaustive(ctx, rng, index):
    '''Every order on up to four elements (given by any relation on i<j),
    built by insertion with every way to split into past and future.'''
    n = 4
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    p = Poset.from_relation(n, [pr for k, pr in enumerate(pairs)
                                if (index >> k) & 1])
    for r in routes(p):
        ev, r2 = ctx.call('build', build, rng, p, r)
        assert_order(ctx, ev, p, r2)
    ctx.describe((p.key(),), nontrivial=p.relations() > 0)


WORKLOADS = [W(history, 11200, 224000), W(route, 6400, 128000),
             W(generators, 960, 19200), W(exhaustive, 64, 64),
             W(suite, len(SUITES), len(SUITES)), large(history, 32, 640),
             large(route, 32, 640),
             huge(history),
             huge(route)]
