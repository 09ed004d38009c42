'''C18: queries change nothing and answer the same again.'''
import os
import types
import numpy as np
from causets.causet import Causet
from causets.causetevent import CausetEvent
from core import W, scratch
from build import SLIM, assert_links, scene, huge, large
from model import bits, random_maximal_antichain, random_subset

RULE = ('queries: histories of random queries (every public query of events '
        'and causets, each asked twice) on random orders in random link '
        'states, with coordinates and positions on some events; order, '
        'membership, labels, embedding and every argument are compared with '
        'the snapshot after each query, the link memory with the model at '
        'the end. drawings: the same around plots of embedded causets and '
        'event lists, with the option containers watched. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at '
        'least one relation.')
REQUIRED = {'large': 20, 'huge': 8, 'monitor:state': 8000, 'monitor:repeat': 5000,
            'monitor:argument': 4000,
            'monitor:drawing_state': 60, 'links_final': 100}


def norm(v, x, depth=0):
    if isinstance(x, CausetEvent):
        return ('e', v.i(x))
    if isinstance(x, (set, frozenset)):
        return ('s', v.m(x))
    if isinstance(x, Causet):
        return ('C', v.m(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [norm(v, y) for y in x])
    if isinstance(x, np.ndarray):
        return ('a', x.shape, x.tolist())
    if isinstance(x, (types.GeneratorType, map, filter, zip)) or \
            (hasattr(x, '__next__')):
        return ('it', sorted((norm(v, y) for y in x), key=repr))
    if isinstance(x, dict):
        return ('d', sorted((repr(k), norm(v, y)) for k, y in x.items()))
    return x


def snapshot(s):
    v = s.v
    out = [v.m(s.C)]
    for e in s.ev:
        out.append((v.m(e.Past), v.m(e.Future), e.Label, e.isEmbedded,
                    list(e.Coordinates) if e.isEmbedded else None,
                    list(e.Position), e.CoordinatesDim))
    return out


class Args:
    '''Random arguments.'''

    def __init__(self, s, rng):
        self.s, self.rng = s, rng

    def e(self):
        return self.s.ev[self.rng.randrange(self.s.p.n)]

    def S(self):
        return self.s.v.s(random_subset(self.rng, self.s.p.all))

    def L(self):
        x = list(bits(random_subset(self.rng, self.s.p.all)))
        self.rng.shuffle(x)
        return [self.s.ev[i] for i in x]

    def all(self):
        x = list(self.s.ev)
        self.rng.shuffle(x)
        return x

    def A(self):
        x = list(bits(random_maximal_antichain(self.rng, self.s.p)))
        self.rng.shuffle(x)
        return [self.s.ev[i] for i in x]

    def other(self):
        return Causet(self.S()) if self.rng.random() < .3 else self.S()

    def k(self):
        return self.rng.randint(-3, 3)

    def b(self):
        return self.rng.random() < .5


def queries():
    Q = {}
    E = CausetEvent
    for name in ('Past', 'Future', 'Cone', 'PresentOrPast', 'PresentOrFuture',
                 'PastCard', 'FutureCard', 'ConeCard', 'LinkPast',
                 'LinkFuture', 'LinkCone', 'LinkPastCard', 'LinkFutureCard',
                 'LinkConeCard', 'Position', 'isEmbedded', 'CoordinatesDim'):
        def q(a, name=name):
            x = a.e()
            return lambda: getattr(x, name), ()
        Q['event.' + name] = q
    for name in ('isPastLink', 'isFutureLink', 'isCausalTo', 'isLinkedTo',
                 'isSpacelikeTo', 'Rank', '__lt__', '__le__', '__gt__',
                 '__ge__'):
        def q(a, name=name):
            return getattr(a.e(), name), (a.e(),)
        Q['event.' + name] = q
    for name in ('Spacelike', 'SpacelikeCard'):
        def q(a, name=name):
            return getattr(a.e(), name), (a.S(),)
        Q['event.' + name] = q
    Q['event.isLink'] = lambda a: (E.isLink, (a.e(), a.e()))
    Q['event.LinkCountOf'] = lambda a: (E.LinkCountOf, (a.S(),))
    Q['event.str'] = lambda a: (str, (a.e(),))
    Q['event.repr'] = lambda a: ((lambda x: (repr(x), None)[1]), (a.e(),))

    def cp(x):
        y = x.copy()
        return (y.Label, y.Past, y.Future, y.LinkPast, y.LinkFuture)
    Q['event.copy'] = lambda a: (cp, (a.e(),))
    Q['causet.repr'] = lambda a: ((lambda x: len(repr(x)) >= 0), (a.s.C,))
    Q['causet.iter'] = lambda a: (set, (a.s.C,))
    for name in ('Card', 'PastInf', 'FutureInf', 'PastInfCard',
                 'FutureInfCard'):
        def q(a, name=name):
            return (lambda: getattr(a.s.C, name)), ()
        Q['causet.' + name] = q
    Q['causet.len'] = lambda a: (Causet.len, (a.s.C,))
    Q['causet.LinkCount'] = lambda a: (a.s.C.LinkCount, ())
    Q['causet.LinkCount(S)'] = lambda a: (a.s.C.LinkCount, (a.S(),))
    for name in ('PastMatrix', 'FutureMatrix', 'LinkPastMatrix',
                 'LinkFutureMatrix'):
        def q(a, name=name):
            return getattr(a.s.C, name), (a.all(),)
        Q['causet.' + name] = q

        def q(a, name=name):
            return getattr(a.s.C, name), (a.L(),)
        Q['causet.' + name + '(L)'] = q

        def q(a, name=name):
            return getattr(a.s.C, name), ()
        Q['causet.' + name + '()'] = q
    Q['causet.find'] = lambda a: (a.s.C.find, (a.e().Label,))
    Q['causet.findAny'] = lambda a: (a.s.C.findAny,
                                     (a.e().Label, a.e().Label))
    Q['causet.findAll'] = lambda a: (a.s.C.findAll,
                                     (a.e().Label, a.e().Label))
    Q['causet.contains'] = lambda a: (a.s.C.__contains__, (a.e(),))
    for name in ('__sub__', '__or__', '__and__', '__xor__', '__rsub__',
                 '__ror__', '__rand__', '__rxor__', 'difference',
                 'intersection', 'symmetric_difference', 'union'):
        def q(a, name=name):
            return getattr(a.s.C, name), (a.other(),)
        Q['causet.' + name] = q
    for name in ('isChain', 'isPath', 'isAntichain'):
        def q(a, name=name):
            return getattr(a.s.C, name), ((a.L() if a.b() else a.S()),)
        Q['causet.' + name] = q

        def q(a, name=name):
            return getattr(a.s.C, name), ()
        Q['causet.' + name + '()'] = q
    for name in ('PastInfOf', 'FutureInfOf', 'PastInfCardOf',
                 'FutureInfCardOf'):
        def q(a, name=name):
            return getattr(Causet, name), (a.S(),)
        Q['causet.' + name] = q
    for name in ('PastOf', 'FutureOf', 'ConeOf'):
        def q(a, name=name):
            return getattr(Causet, name), (a.S(), a.b(), a.b())
        Q['causet.' + name] = q
    Q['causet.SpacelikeTo'] = lambda a: (a.s.C.SpacelikeTo, (a.S(),))
    for name in ('Interval', 'IntervalCard'):
        def q(a, name=name):
            return getattr(Causet, name), (a.e(), a.e(), a.b())
        Q['causet.' + name] = q
    for name in ('PerimetralEvents', 'PerimetralEventCount',
                 'InternalEvents', 'InternalEventCount'):
        def q(a, name=name):
            return getattr(Causet, name), (a.e(), a.e())
        Q['causet.' + name] = q
    Q['causet.CentralAntichain'] = lambda a: (a.s.C.CentralAntichain, ())
    Q['causet.CentralAntichain(e)'] = lambda a: (a.s.C.CentralAntichain,
                                                 (a.e(),))
    Q['causet.Layers'] = lambda a: (Causet.Layers, (a.S(), a.k(), a.k()))
    Q['causet.LayerNumbers'] = lambda a: (Causet.LayerNumbers, (a.L(), a.b()))
    Q['causet.Ranks'] = lambda a: (Causet.Ranks, (a.S(), a.k(), a.k()))
    Q['causet.RankNumbers'] = lambda a: (Causet.RankNumbers, (a.L(), a.b()))
    Q['causet.Paths'] = lambda a: (Causet.Paths, (
        a.e(), a.e(), a.rng.choice(['any', 'min', 'max', 3, [2, 4]])))
    Q['causet.SmallestIntervalCard'] = lambda a: (
        a.s.C.SmallestIntervalCard, (a.e(), a.e(), a.S(), a.S()))
    Q['causet.DistanceMatrix'] = lambda a: (
        a.s.C.DistanceMatrix,
        (a.A(), a.rng.choice(['ziczac', 'intersection']), a.b()))

    def ap(a):
        A = a.A()
        return a.s.C.Antipaths, (a.rng.choice(A), a.rng.choice(A), A)
    Q['causet.Antipaths'] = ap
    Q['causet.disjoint'] = lambda a: (a.s.C.disjoint, (a.S(),))
    Q['causet.disjoint()'] = lambda a: (a.s.C.disjoint, ())
    Q['causet.isDisjoint'] = lambda a: (a.s.C.isDisjoint, (a.S(),))
    for name in ('sortedByLabels', 'sortedByCausality', 'layered'):
        def q(a, name=name):
            return getattr(a.s.C, name), (a.S(), a.b())
        Q['causet.' + name] = q

        def q(a, name=name):
            return getattr(a.s.C, name), ()
        Q['causet.' + name + '()'] = q

    def csv(C, f):
        C.saveAsCSV(f)
        with open(f) as h:
            return h.read()
    Q['causet.saveAsCSV'] = lambda a: (csv, (
        a.s.C, os.path.join(scratch(), f'q{os.getpid()}.csv')))

    def ctor(S):
        return Causet(S)
    Q['Causet(S)'] = lambda a: (ctor, (a.S(),))
    return Q


QUERIES = queries()
REQUIRED.update({'used:' + name: 20 for name in QUERIES})
UNORDERED = ('disjoint',)
# these take time proportional to the number of link paths
BYPATHS = {'event.Rank', 'causet.Ranks', 'causet.RankNumbers', 'causet.Paths'}


def history(ctx, rng, index):
    s = scene(ctx, rng, n=rng.randint(1, 12))
    v = s.v
    for e in s.ev:
        if rng.random() < .4:
            e.embed([rng.uniform(-1, 1) for _ in range(rng.randint(1, 3))])
        if rng.random() < .4:
            e.Position = [rng.random(), rng.random()]
    if rng.random() < .3 and s.p.n > 1:
        out = random_subset(rng, s.p.all, .3)
        s.C.discard(v.s(out))
    before = snapshot(s)
    a = Args(s, rng)
    names = list(QUERIES)
    rng.shuffle(names)
    if s.p.n > 12 and sum(s.p.count_paths(i, j) for i in range(s.p.n)
                          if not s.p.past[i] for j in bits(s.p.fut[i])
                          if not s.p.fut[j]) > 20000:
        names = [name for name in names if name not in BYPATHS]
    for name in names[:45]:
        fn, args = QUERIES[name](a)
        keep = [norm(v, x) for x in args if not hasattr(x, '__next__')]
        order = [list(map(id, x)) for x in args if isinstance(x, list)]

        def ask():
            try:
                r = fn(*args)
                return norm(v, r)
            except Exception as ex:  # noqa: BLE001  judged by other checks
                ctx.count('raised:' + name)
                return ('raised', type(ex).__name__)
        first = ask()
        ctx.equal(snapshot(s), before, 'state',
                  lambda: f'changed by {name} of {s.p.describe()}')
        second = ask()
        if name.split('.')[-1].startswith(UNORDERED):
            first, second = repr(sorted(map(repr, first[1]))), \
                repr(sorted(map(repr, second[1])))
        ctx.equal(second, first, 'repeat',
                  lambda: f'{name} asked again of {s.p.describe()}')
        ctx.equal(snapshot(s), before, 'state',
                  lambda: f'changed by {name} of {s.p.describe()}')
        ctx.equal([norm(v, x) for x in args], keep, 'argument', name)
        ctx.equal([list(map(id, x)) for x in args if isinstance(x, list)],
                  order, 'argument', name)
        ctx.n['used:' + name] += 1
        if rng.random() < .05:
            rng.choice([s.C.link, s.C.unlink])()
    assert_links(ctx, s.ev, s.p, 'a history of queries',
                 kind='links_final')
    ctx.count('links_final')


def drawings(ctx, rng, index):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    import causets.causetplotting as cp
    from causets.embeddedcauset import EmbeddedCauset
    from causets.shapes import CoordinateShape
    from causets.spacetimes import FlatSpacetime
    d = rng.choice([2, 2, 3])
    n = rng.randint(1, 7)
    C = EmbeddedCauset(spacetime=FlatSpacetime(d),
                       shape=CoordinateShape(d, rng.choice(
                           ['cube', 'ball', 'diamond', 'cylinder'])),
                       coordinates=[[rng.uniform(-1, 1) for _ in range(d)]
                                    for _ in range(n)])
    s = type('S', (), {})()
    s.C, s.ev = C, C.sortedByLabels()
    from build import View
    s.v = View(s.ev)
    for e in s.ev:
        e.Position = [rng.uniform(-1, 1), rng.uniform(-1, 1)]
    before = snapshot(s)
    fig = Figure()
    dims = [1, 0] if d == 2 or rng.random() < .5 else [1, 2, 0]
    ax = fig.add_subplot(111, projection='3d') if len(dims) == 3 else \
        fig.add_subplot(111)
    opts = {'dims': dims, 'links': {'color': 'cs:red'},
            'events': {'markerfacecolor': 'cs:lime'},
            'labels': rng.random() < .5,
            'time': [rng.uniform(-1, 1), rng.uniform(-1, 1)]}
    if rng.random() < .6:
        opts['pastcones'] = {'alpha': .3}
        opts['futurecones'] = rng.random() < .5
    if rng.random() < .4:
        opts['timedepth'] = rng.choice([-1.0, 1.5])
        opts['timefade'] = rng.choice(['linear', 'exponential', 'intensity'])
    if rng.random() < .3:
        opts['linkgapsize'] = 3.0
    if rng.random() < .5:
        opts['axislim'] = {k: (-1.0, 1.0) for k in ('xlim', 'ylim', 'zlim')}
    keep = norm(s.v, opts)
    E = rng.choice([C, list(s.ev), s.ev[0]])
    order = list(E) if isinstance(E, list) else None
    scheme = dict(cp.default_colors)
    ctx.describe((d, n, dims, sorted(opts)), nontrivial=True)
    ctx.call('plot', cp.plot, E, plotAxes=ax, spacetime=C.Spacetime, **opts)
    ctx.equal(snapshot(s), before, 'drawing_state', 'changed by plot')
    C.Shape.plot(dims, ax)
    ctx.equal(snapshot(s), before, 'drawing_state', 'changed by Shape.plot')
    ctx.equal(norm(s.v, opts), keep, 'drawing_state', 'plot options changed')
    ctx.equal(dict(cp.default_colors), scheme, 'drawing_state',
              'default colours changed')
    if order is not None:
        ctx.check(len(order) == len(E) and all(
            x is y for x, y in zip(order, E)), 'drawing_state', 'event list')
    if len(dims) == 2:
        ctx.call('plotDiagram', cp.plotDiagram, list(s.ev), plotAxes=ax,
                 dims=[0, 1])
        ctx.equal(snapshot(s), before, 'drawing_state',
                  'changed by plotDiagram without permutation')
    fig.clear()




WORKLOADS = [W(history, 2000, 40000), W(drawings, 320, 6400),
             large(history, 32, 640),
             huge(history, kinds=SLIM)]
