'''C32: a rejected request changes nothing.'''
import os
import numpy as np
from causets.causet import Causet
from causets.causetevent import CausetEvent
from causets.embeddedcauset import EmbeddedCauset
from causets.shapes import CoordinateShape
from causets.sprinkledcauset import SprinkledCauset
from core import Violated, W, scratch
from build import View, assert_links, scene
from checks.c19 import random_spacetime, coords as random_coords
from model import Poset, bits, random_subset
from region import shape_state

RULE = ('abstract: random orders in random link states meet requests that '
        'cannot be met: events created with a past, future, coordinates or '
        'position that fail (iterators that raise after some items, entries '
        'that are no events, no pairs), merges of failing sets, repeated '
        'embeddings, missing labels and files, matrices with loops, unknown '
        'options and arguments of the wrong kind for every query. embedded: '
        'causets of all spacetimes, sprinkled and not: events of another '
        'dimension (alone or among others), failing coordinates and label '
        'formats, negative, undefined and too large intensities, shapes of '
        'another dimension, generators that fail after some numbers, '
        'relating and relabelling with events that are not embedded, '
        'drawings that cannot be drawn. After every rejection order, labels, '
        'embedding, membership, intensity, shape are compared with the '
        'snapshot before; in the end links and the answers to further valid '
        'requests with the model. Non-trivial: at least one relation.')
ASSUMPTIONS = ['requests that are accepted although unusual are not judged, '
               'except for the kinds listed as rejected',
               'add and discard with failing iterators follow the update of '
               'Python sets and are not judged']
REQUIRED = {'monitor:unchanged': 20000, 'monitor:rejected': 3000,
            'rejected:create': 200, 'rejected:sprinkle shape': 100,
            'rejected:generator': 300, 'rejected:event': 1000,
            'rejected:merge': 200, 'rejected:relate': 100,
            'rejected:position': 300, 'rejected:embed': 200,
            'rejected:query': 1000, 'monitor:after': 1000}


class Broken(Exception):
    pass


def failing(items, k):
    for i, x in enumerate(items):
        if i == k:
            raise Broken()
        yield x
    raise Broken()


class FailingGenerator:
    '''A random generator that fails after some requests.'''

    def __init__(self, seed, k):
        self._g, self._k = np.random.default_rng(seed), k

    def __getattr__(self, name):
        f = getattr(self._g, name)

        def request(*args, **kwargs):
            if self._k <= 0:
                raise Broken()
            self._k -= 1
            return f(*args, **kwargs)
        return request


def state_of(ev, causets):
    v = View(ev)
    out = []
    for e in ev:
        out.append((v.m(e.Past), v.m(e.Future), repr(e.Label), e.isEmbedded,
                    [float(c) for c in e.Coordinates] if e.isEmbedded
                    else None, [float(c) for c in e.Position]))
    for C in causets:
        out.append((v.m(C), C.Card))
        if isinstance(C, EmbeddedCauset):
            out.append((shape_state(C.Shape), repr(C.Spacetime), C.Dim))
        if isinstance(C, SprinkledCauset):
            out.append((float(C.Intensity), float(C.Density)))
    return out


class Watch:
    '''Judges requests that are rejected.'''

    def __init__(self, ctx, ev, causets, what):
        self.ctx, self.ev, self.causets = ctx, ev, causets
        self.what = what
        self.before = state_of(ev, causets)

    def renew(self):
        self.before = state_of(self.ev, self.causets)

    def reject(self, kind, fn, error=None):
        """True if the request was rejected. With `error`, it has to be."""
        ctx = self.ctx
        try:
            r = fn()
            if hasattr(r, '__next__'):
                r = list(r)
        except (KeyboardInterrupt, SystemExit, MemoryError, Violated):
            raise
        except Exception as ex:  # noqa: BLE001
            if type(ex).__name__ == 'CaseTimeout':
                raise
            ctx.check(error is None or isinstance(ex, error), 'rejected',
                      lambda: f'{kind} rejected by {type(ex).__name__}: {ex}; '
                              f'{self.what()}')
            ctx.equal(state_of(self.ev, self.causets), self.before,
                      'unchanged', lambda: f'{kind} rejected by '
                      f'{type(ex).__name__}: {ex}; {self.what()}')
            ctx.count('rejected:' + kind)
            return True
        ctx.check(error is None, 'rejected',
                  lambda: f'{kind} accepted; {self.what()}')
        ctx.count('accepted:' + kind)
        return False


def spoiled(rng, items):
    '''The items with something unusable among them.'''
    k = rng.randint(0, len(items))
    bad = rng.choice([None, 3, 'x', object()])
    return rng.choice([
        lambda: failing(items, k),
        lambda: items[:k] + [bad] + items[k:],
        lambda: tuple(items[:k]) + (bad,)])()


def abstract(ctx, rng, index):
    s = scene(ctx, rng, n=rng.randint(1, 9))
    p, ev, C = s.p, s.ev, s.C
    for e in ev:
        if rng.random() < .4:
            e.embed([rng.uniform(-1, 1), rng.uniform(-1, 1)])
        if rng.random() < .3:
            e.Position = [rng.random(), rng.random()]
    log = []
    w = Watch(ctx, ev, [C], lambda: f'{log[-6:]} on {p.describe()}')
    loop = np.zeros((3, 3), dtype=bool)
    loop[0, 1] = loop[1, 2] = loop[2, 0] = True

    def cut():
        '''A past and a future that may be given to a new event.'''
        P = random_subset(rng, p.all)
        F = random_subset(rng, p.all)
        for i in bits(P):
            P |= p.past[i]
        for i in bits(F):
            F |= p.fut[i]
        for f in bits(F):
            if P >> f & 1 or p.fut[f] & P:
                F = 0
                break
        return s.v.l(P), s.v.l(F)

    for _ in range(rng.randint(6, 14)):
        op = rng.choice(['event', 'event', 'event', 'position', 'embed',
                         'merge', 'query', 'query', 'query', 'build'])
        log.append(op)
        e = rng.choice(ev)
        if op == 'event':
            P, F = cut()
            kw = {'past': rng.choice([list, set, iter])(P), 'future': F}
            bad = rng.choice(['past', 'future', 'coordinates', 'coordinates',
                              'position', 'position'])
            log[-1] = (op, bad)
            error = None
            if bad in ('past', 'future'):
                kw[bad] = spoiled(rng, list(kw[bad]))
            elif bad == 'coordinates':
                kw[bad] = rng.choice([5, 1.5, failing([1.0, 2.0],
                                                      rng.randint(0, 2))])
            else:
                if rng.random() < .5:
                    kw[bad] = [[], [1.0], (1.0, 2.0, 3.0), np.zeros(4)][
                        rng.randrange(4)]
                    error = ValueError
                else:
                    kw[bad] = rng.choice([3.5, failing([1.0], 1)])
            if not w.reject('event', lambda: CausetEvent(**kw), error):
                return
        elif op == 'position':
            value, error = rng.choice([
                ([1.0], ValueError), ((1.0, 2.0, 3.0), ValueError),
                ([], ValueError), (np.zeros(3), ValueError), (2.5, None),
                (failing([1.0, 2.0], 1), None)])
            if not w.reject(op, lambda: setattr(e, 'Position', value), error):
                return
        elif op == 'embed':
            again = e.isEmbedded
            if again and rng.random() < .6:
                w.reject(op, lambda: e.embed([3.0, 4.0]), AttributeError)
            elif not again and rng.random() < .5:
                if not w.reject(op, e.disembed, AttributeError):
                    return
            else:
                value = rng.choice([7.5, failing([1.0, 2.0], 1)])
                if not w.reject(op, lambda: e.embed(value, reembed=again)):
                    return
        elif op == 'merge':
            P, F = cut()
            if rng.random() < .5:
                args = spoiled(rng, P), F
            else:
                args = P, spoiled(rng, F)
            kw = rng.choice([{}, {'disjoint': True}, {'disjoint': False}])
            if not w.reject(op, lambda: Causet.merge(*args, **kw)):
                return
        elif op == 'build':
            f = os.path.join(scratch(), 'no such file')
            name, fn, error = rng.choice([
                ('loop', lambda: Causet.FromPastMatrix(loop), ValueError),
                ('rows', lambda: Causet.FromPastMatrix(
                    np.zeros((3, 2), dtype=bool)), ValueError),
                ('file', lambda: Causet.FromTextFile(f), None),
                ('permutation', lambda: Causet.FromPermutation([1, 5]), None),
                ('folder', lambda: C.saveAsCSV(os.path.join(f, 'x')), None)])
            log[-1] = (op, name)
            if not w.reject(op, fn, error):
                return
        else:
            L = s.v.l(random_subset(rng, p.all))
            a, b = rng.choice(ev), rng.choice(ev)
            bad = spoiled(rng, L)
            no = rng.choice([None, 5, 'x'])
            Q = {
                'find': lambda: C.find(object()),
                'length': lambda: Causet.Paths(a, b, 2.5),
                'counting': lambda: C.DistanceMatrix(L, counting='steps'),
                'isChain': lambda: C.isChain(bad),
                'isPath': lambda: C.isPath(bad),
                'isAntichain': lambda: C.isAntichain(bad),
                'union': lambda: C | bad, 'sub': lambda: C - bad,
                'rsub': lambda: bad - C, 'and': lambda: C & bad,
                'Causet': lambda: Causet(bad),
                'PastOf': lambda: Causet.PastOf(bad),
                'FutureOf': lambda: Causet.FutureOf(bad, True),
                'ConeOf': lambda: Causet.ConeOf(bad),
                'Layers': lambda: Causet.Layers(bad, -1, 1),
                'LayerNumbers': lambda: Causet.LayerNumbers(bad),
                'Ranks': lambda: Causet.Ranks(bad, -1, 1),
                'RankNumbers': lambda: Causet.RankNumbers(bad),
                'PastMatrix': lambda: C.PastMatrix(bad),
                'LinkPastMatrix': lambda: C.LinkPastMatrix(bad),
                'LinkCount': lambda: C.LinkCount(bad),
                'disjoint': lambda: C.disjoint(bad),
                'sortedByLabels': lambda: C.sortedByLabels(bad),
                'sortedByCausality': lambda: C.sortedByCausality(bad),
                'layered': lambda: C.layered(bad),
                'CentralAntichain': lambda: C.CentralAntichain(no),
                'Antipaths': lambda: C.Antipaths(a, b, bad),
                'Interval': lambda: Causet.Interval(a, no),
                'Perimetral': lambda: Causet.PerimetralEvents(no, b),
                'Smallest': lambda: C.SmallestIntervalCard(a, no),
                'Smallest searching': lambda: C.SmallestIntervalCard(
                    a, b, bad, bad),
                'Rank': lambda: a.Rank(no), 'lt': lambda: a < no,
                'isLink': lambda: CausetEvent.isLink(a, no),
                'isSpacelikeTo': lambda: a.isSpacelikeTo(no),
                'Spacelike': lambda: a.Spacelike(no),
                'SpacelikeCard': lambda: a.SpacelikeCard(bad),
            }
            name = rng.choice(sorted(Q))
            log[-1] = (op, name)
            error = {'length': ValueError, 'counting': ValueError,
                     'find': ValueError}.get(name)
            if not w.reject('query', Q[name], error):
                # also an answer to an unusual question changes nothing
                ctx.equal(state_of(ev, [C]), w.before, 'unchanged',
                          lambda: f'{name} on {p.describe()}')
    # later requests are answered as if nothing had been
    assert_links(ctx, ev, p, 'rejected requests', kind='after')
    P, F = cut()
    x = ctx.call('event', CausetEvent, past=P, future=F)
    v = View(ev + [x])
    ctx.equal((v.m(x.Past), v.m(x.Future)), (v.m(P), v.m(F)), 'after',
              'event created after rejected requests')
    for q in P:
        ctx.check(all(f in q.Future for f in F) and x in q.Future, 'after',
                  'relations of the event created')


def draws(rng, C):
    '''Drawings that cannot be drawn.'''
    import causets.causetplotting as cp
    from matplotlib.figure import Figure
    ax = Figure().add_subplot()
    d = C.Dim
    return rng.choice([
        lambda: cp.plot(C, ax, dims=[1, d + 2]),
        lambda: cp.plot(list(C), ax, dims=[0, d + 1], links=False),
        lambda: cp.plot(C, ax, dims=[1, 0], events={'nothing': 3}),
        lambda: cp.plot(C, ax, dims=[1, 0], links={'nothing': 3}),
        lambda: cp.plotDiagram(list(C), [], ax, links={'nothing': 3}),
        lambda: C.Shape.plot([0, d + 1], ax),
        lambda: C.Shape.plot([0, 1], ax, nothing=3),
        lambda: C.Shape.Limits(d + 1), lambda: C.Shape.Limits(-1),
        lambda: C.Shape.Parameter('nothing')])


def embedded(ctx, rng, index):
    M, d = random_spacetime(rng)
    shape = rng.choice([None, 'cube', 'ball', 'cylinder', 'bicone'])
    sprinkled = rng.random() < .6
    if sprinkled:
        C = ctx.call('SprinkledCauset', SprinkledCauset, spacetime=M,
                     shape=shape)
    else:
        C = ctx.call('EmbeddedCauset', EmbeddedCauset, spacetime=M,
                     shape=shape)
    first = random_coords(rng, rng.randint(1, 5), d, .6)
    C.create(first)
    if sprinkled and rng.random() < .7:
        C.sprinkle(rng.randint(0, 3),
                   rng=np.random.default_rng(rng.getrandbits(32)))
    outside = CausetEvent(past=random_sub(rng, list(C)))
    ev = list(C) + [outside]
    if rng.random() < .5:
        C.unlink()
    log = []
    w = Watch(ctx, ev, [C], lambda: f'{log[-6:]} in {M!r} {shape}, '
                                    f'{len(ev) - 1} events')
    other = [k for k in (d - 1, d + 1, d + 2) if k > 0]
    ops = ['create', 'create', 'failing create', 'format', 'relate',
           'relabel', 'draw']
    if sprinkled:
        ops += ['shape', 'shape', 'generator', 'generator', 'negative',
                'undefined']
    stray = None
    for _ in range(rng.randint(4, 10)):
        op = rng.choice(ops)
        log.append(op)
        if op == 'create':
            k = rng.choice(other)
            rows = random_coords(rng, rng.randint(1, 3), k, .6)
            if rng.random() < .5:
                rows += random_coords(rng, rng.randint(1, 3), d, .6)
                rng.shuffle(rows)
                arg = rows
            else:
                arg = np.array(rows) if rng.random() < .5 else rows
            kw = rng.choice([{}, {'relate': False}])
            if not w.reject(op, lambda: C.create(arg, **kw), ValueError):
                return
        elif op == 'failing create':
            rows = random_coords(rng, rng.randint(1, 3), d, .6)
            k = rng.randint(0, len(rows))
            arg = rng.choice([failing(rows, k), rows[:k] + [None], rows + [3],
                              5])
            if not w.reject(op, lambda: C.create(arg)):
                return
        elif op == 'format':
            rows = random_coords(rng, rng.randint(1, 3), d, .6)
            fmt = rng.choice(['{', '{x}', '{:q}', '{} {}', 5])
            if not w.reject(op, lambda: C.create(rows, fmt)):
                return
        elif op == 'relate':
            # an event that is not embedded among the others
            stray = CausetEvent(label='stray')
            C.add({stray})
            ev.append(stray)
            w.renew()
            ok = w.reject(op, lambda: C.relate(**rng.choice(
                [{}, {'link': False}, {'link': True}])), AttributeError)
            if ok and rng.random() < .5:
                ok = w.reject('relabel', C.relabel, AttributeError)
            if not ok:
                return
            C.discard({stray})
            ev.remove(stray)
            w.renew()
        elif op == 'relabel':
            if not w.reject(op, lambda: C.relabel(dim=d + rng.randint(0, 2))):
                return
        elif op == 'draw':
            if not w.reject(op, draws(rng, C)):
                ctx.equal(state_of(ev, [C]), w.before, 'unchanged',
                          'a drawing')
        elif op == 'shape':
            k = rng.choice(other)
            sh = CoordinateShape(k, rng.choice(['cube', 'ball', 'bicone',
                                                'cuboid', 'cylinder']))
            n = rng.choice([1, 2, 3.0])
            fn = (lambda: C.intensify(float(n), shape=sh)) \
                if rng.random() < .5 else \
                (lambda: C.sprinkle(int(n), shape=sh))
            if not w.reject('sprinkle shape', fn, ValueError):
                return
        elif op == 'generator':
            g = FailingGenerator(rng.getrandbits(32), rng.choice([0, 0, 1, 2,
                                                                  4]))
            sh = rng.choice([None, CoordinateShape(d, rng.choice(
                ['cube', 'ball', 'bicone', 'cuboid', 'cylinder']))])
            n = rng.choice([1, 3, 6])
            fn = (lambda: C.intensify(float(n), rng=g, shape=sh)) \
                if rng.random() < .5 else \
                (lambda: C.sprinkle(n, rng=g, shape=sh))
            if not w.reject(op, fn):
                # few numbers were needed: an ordinary sprinkle
                ev = list(C) + [outside]
                w.ev = ev
                w.renew()
        elif op == 'negative':
            fn = rng.choice([lambda: C.sprinkle(-rng.randint(1, 5)),
                             lambda: C.intensify(-rng.uniform(.01, 9))])
            w.reject(op, fn, ValueError)
        elif op == 'undefined':
            x = rng.choice([float('nan'), 1e300, float('inf')])
            if not w.reject(op, lambda: C.intensify(x), (ValueError,
                                                         OverflowError)):
                return
    # later requests are answered as if nothing had been
    n = C.Card
    intensity = float(C.Intensity) if sprinkled else None
    rows = random_coords(rng, rng.randint(1, 2), d, .6)
    new = ctx.call('create', C.create, rows)
    ctx.equal(sorted(e.Label for e in new),
              list(range(n + 1, n + 1 + len(rows))), 'after', w.what)
    if sprinkled:
        ctx.close(float(C.Intensity), intensity + len(rows), 'after', 1e-12,
                  0, w.what)
    ev = list(C)
    causal = M.Causality()
    v = View(ev)
    p = Poset(len(ev))
    X = [np.array(e.Coordinates, dtype=float) for e in ev]
    for i, a in enumerate(ev):
        past = fut = 0
        for j in range(len(ev)):
            if i != j:
                ij, ji = causal(X[i], X[j])
                fut |= bool(ij) << j
                past |= bool(ji) << j
        ctx.equal((v.m(a.Past), v.m(a.Future)), (past, fut), 'after', w.what)
        p.past[i], p.fut[i] = past, fut
    assert_links(ctx, ev, p, 'rejected requests', kind='after')
    ctx.describe((repr(M), shape, log, first),
                 nontrivial=p.relations() > 0)


def random_sub(rng, L):
    return {e for e in L if rng.random() < .4 and not e.Past}


WORKLOADS = [W(abstract, 6000, 120000), W(embedded, 3000, 60000)]
