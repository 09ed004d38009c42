'''C33: operations affect nothing but the objects they are called for.'''
import contextlib
import io
import locale
import os
import random
import sys
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib._pylab_helpers import Gcf  # noqa: E402
import numpy as np  # noqa: E402
from causets import calculations as calc  # noqa: E402
from causets import causetplotting as cp  # noqa: E402
from causets import colorschemes as cs  # noqa: E402
from causets import shapes as shp  # noqa: E402
from causets import spacetimes as st  # noqa: E402
from causets.causet import Causet  # noqa: E402
from causets.causetevent import CausetEvent  # noqa: E402
from causets.embeddedcauset import EmbeddedCauset  # noqa: E402
from causets.shapes import CoordinateShape  # noqa: E402
from causets.sprinkledcauset import SprinkledCauset  # noqa: E402
from core import W, scratch  # noqa: E402
from build import View, build, link_state  # noqa: E402
from checks.c18 import QUERIES, Args  # noqa: E402
from model import random_poset, random_subset  # noqa: E402
from region import random_shape, shape_state  # noqa: E402

RULE = ('bystanders: 3-7 families of objects (abstract events with two '
        'causets over them, embedded and sprinkled causets, spacetimes with '
        'causality and cone functions taken from them, shapes, option '
        'dictionaries, drawings, generators), some of them made with the '
        'same shape, spacetime, arrays and lists; random operations on one '
        'family (construction, queries, changes, sprinkles, drawings into '
        'given axes, files, rejected requests), after each of them all other '
        'families are compared with their snapshots, the causet that was not '
        'asked for with its membership, and the interpreter (random states, '
        'numpy and matplotlib settings, figures, colours, working folder, '
        'files, environment, printed text) with what it was. defaults: after '
        'such histories whatever is made with default arguments is compared '
        'with what was made first in the process. alternating: two objects '
        'of the same kind used in turns answer like objects used alone. '
        'Non-trivial: at least two families.')
ASSUMPTIONS = ['a generator that is not given is shared by all sprinkles '
               '(default argument) and is not observed',
               'drawings without given axes may make figures (documented) '
               'and are left out',
               'ConePlotter updates the opacity in the dictionary it was '
               'given (its own argument)',
               'warnings are not judged']
REQUIRED = {'monitor:bystander': 10000, 'monitor:globals': 3000,
            'monitor:defaults': 2000, 'monitor:sibling': 1000,
            'monitor:alternating': 500, 'shared shape': 100,
            'shared spacetime': 100, 'shared rows': 100,
            'op:query': 500, 'op:event': 50, 'op:sprinkle': 50,
            'op:create': 50, 'op:plot': 50, 'op:cone': 50, 'op:rejected': 50,
            'op:make': 100, 'op:merge': 20, 'op:file': 20, 'op:colours': 10}


def plain(x):
    '''Comparable form of anything.'''
    if isinstance(x, np.ndarray):
        return ('a', str(x.dtype), repr(x.tolist()))
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return ('d', sorted((repr(k), plain(y)) for k, y in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(y) for y in x])
    if isinstance(x, (str, int, float, bool, type(None))):
        return repr(x)
    return f'<{type(x).__name__}>'


# ---------------------------------------------------------------- families
class Family:
    '''Objects of which operations on others must not be seen.'''
    kind = ''

    def state(self):
        raise NotImplementedError

    def operate(self, rng, world):
        '''Does something with these objects only; returns its name.'''
        raise NotImplementedError


def event_state(v, e):
    return (v.m(e.Past), v.m(e.Future), repr(e.Label),
            [float(c) for c in e.Coordinates] if e.isEmbedded else None,
            [float(c) for c in e.Position])


class Abstract(Family):
    kind = 'abstract'

    def __init__(self, ctx, rng):
        p, kind = random_poset(rng, rng.randint(1, 8))
        self.p = p
        self.ev, self.route = build(rng, p)
        self.v = View(self.ev)
        self.C = Causet(set(self.ev))
        self.other = Causet(self.v.s(random_subset(rng, p.all)))
        link_state(rng, self.ev, self.C)
        self.ctx = ctx
        for e in self.ev:
            if rng.random() < .3:
                e.embed([rng.uniform(-1, 1), rng.uniform(-1, 1)])

    def state(self):
        return ([event_state(self.v, e) for e in self.ev],
                self.v.m(self.C), self.v.m(self.other))

    def operate(self, rng, world):
        ctx, v = self.ctx, self.v
        op = rng.choice(['query'] * 5 + ['event', 'make', 'members',
                                         'members', 'links', 'merge', 'file',
                                         'embed', 'rejected'])
        s = type('S', (), {})()
        s.ev, s.v, s.p, s.C = self.ev, v, self.p, self.C
        a = Args(s, rng)
        other = v.m(self.other)
        if op == 'query':
            for name in rng.sample(sorted(QUERIES), 4):
                fn, args = QUERIES[name](a)
                try:
                    r = fn(*args)
                    if hasattr(r, '__next__'):
                        list(r)
                except Exception:  # noqa: BLE001  judged elsewhere
                    pass
        elif op == 'event':
            # a past closed under taking pasts, whatever the link states are
            P = {e for e in random_sub(rng, self.ev)}
            ctx.call('event', CausetEvent, past=P, label='new')
            # the new one belongs to this family
            self.renew()
        elif op == 'make':
            make_something(ctx, rng)
        elif op == 'members':
            S = random_sub(rng, self.ev)
            name = rng.choice(['add', 'discard'])
            getattr(self.C, name)(S)
            ctx.equal(v.m(self.other), other, 'sibling',
                      lambda: f'{name} of another causet of the same events')
        elif op == 'links':
            rng.choice([self.C.link, self.C.unlink,
                        lambda: rng.choice(self.ev).link(),
                        lambda: rng.choice(self.ev).unlink(),
                        lambda: rng.choice(self.ev).LinkPast])()
        elif op == 'merge':
            top = [CausetEvent(label=f'm{i}') for i in range(2)]
            ctx.call('merge', Causet.merge, self.ev, top)
            self.renew()
        elif op == 'file':
            f = os.path.join(folder(), 'x.csv')
            ctx.call('saveAsCSV', self.C.saveAsCSV, f)
            os.remove(f)
        elif op == 'embed':
            e = rng.choice(self.ev)
            if e.isEmbedded:
                e.disembed()
            else:
                e.embed([rng.uniform(-1, 1)] * 3)
            e.Position = [rng.random(), rng.random()]
        else:
            for fn in (lambda: CausetEvent(past=[None]),
                       lambda: self.C.find(object()),
                       lambda: CausetEvent(past=list(self.ev), position=[1])):
                try:
                    fn()
                except Exception:  # noqa: BLE001
                    pass
        if op != 'members':
            ctx.equal(v.m(self.other) if op not in ('event', 'merge')
                      else other, other, 'sibling', op)
        return op

    def renew(self):
        '''Events made from these ones stay outside of the causets.'''
        seen = {id(e) for e in self.ev}
        more = []
        for e in list(self.ev):
            for x in list(e.Past) + list(e.Future):
                if id(x) not in seen:
                    seen.add(id(x))
                    more.append(x)
        self.ev = self.ev + more
        self.v = View(self.ev)
        p = type(self.p)(len(self.ev))
        p.past = [self.v.m(e.Past) for e in self.ev]
        p.fut = [self.v.m(e.Future) for e in self.ev]
        self.p = p


def random_sub(rng, L):
    return {e for e in L if rng.random() < .4}


def make_something(ctx, rng):
    '''Whatever the constructors make is new.'''
    k = rng.randint(1, 4)
    P = list(range(1, k + 1))
    rng.shuffle(P)
    M = np.tril(np.array([[rng.random() < .5 for _ in P] for _ in P]), -1)
    name, fn = rng.choice([
        ('Causet', lambda: Causet()), ('Event', lambda: CausetEvent()),
        ('chain', lambda: Causet.NewChain(k)),
        ('antichain', lambda: Causet.NewAntichain(k)),
        ('simplex', lambda: Causet.NewSimplex(k)),
        ('fence', lambda: Causet.NewFence(2 * k)),
        ('permutation', lambda: Causet.FromPermutation(list(P))),
        ('embedded permutation', lambda: EmbeddedCauset.FromPermutation(
            list(P))),
        ('matrix', lambda: Causet.FromPastMatrix(M)),
        ('embedded', lambda: EmbeddedCauset()),
        ('sprinkled', lambda: SprinkledCauset(dim=2)),
        ('shape', lambda: CoordinateShape(2, 'cuboid')),
        ('flat', lambda: st.FlatSpacetime(3)),
        ('options', lambda: cp.plot_parameters(dims=[0, 1])),
        ('harmonic', lambda: (calc.HarmonicNumber(120), calc.HarmonicNumbers(
            k + 100), calc.HarmonicNumberFractions(k),
            calc.HarmonicNumberFraction(k))),
        ('newton', lambda: calc.NewtonsMethod(
            lambda x: x**3, lambda x: 3 * x * x, 1.0, 2.0)),
        ('no root', lambda: calc.NewtonsMethod(
            lambda x: x * x + 1, lambda x: 2 * x, 1.0)),
        ('colours', lambda: colour_queries(rng))])
    x = ctx.call(name, fn)
    e = CausetEvent(label='stray')
    if isinstance(x, EmbeddedCauset):
        x.create([[0.1] * x.Dim, [.2] * x.Dim])
    elif isinstance(x, Causet):
        x.add({e, CausetEvent(label='top', past={e})})
        x.link()
    elif isinstance(x, CausetEvent):
        x.embed([1.0, 2.0])
        x.Position = [3.0, 4.0]
        CausetEvent(past={x})
    elif isinstance(x, dict):
        for value in x.values():
            if isinstance(value, dict):
                value['zorder'] = 77
            elif isinstance(value, list):
                value.append('x')
    return x


def colour_queries(rng):
    name = rng.choice(['UniYork', 'ImperialLondon', 'matplotlib', None])
    try:
        cs.getColor('cs:red', name)
        cs.convertColorsInDict({'color': 'cs:blue', 'x': 'cs:green'}, name)
        cs.convertColorsInList(['cs:blue', 'k'], name)
        cs.getColor(rng.choice(['cs:nothing', 'k']), name)
    except KeyError:
        pass
    try:
        cs.pickColorScheme(rng.choice(['UniYork', 'nothing']))
    except ValueError:
        pass


def random_spacetime(rng, d=None):
    d = d or rng.choice([2, 2, 3])
    k = rng.randrange(6)
    if k == 0:
        return st.FlatSpacetime(d)
    if k == 1:
        return st.FlatSpacetime(d, rng.choice([1.0, 1.7]))
    if k == 2:
        return st.FlatSpacetime(d, tuple(rng.choice([0.0, .8, 1.2])
                                         for _ in range(d - 1)))
    if k == 3:
        return st.deSitterSpacetime(d, rng.choice([1.0, 2.5]))
    if k == 4:
        return st.AntideSitterSpacetime(d, rng.choice([.5, 1.3]))
    if d > 2:
        return st.FlatSpacetime(d, .9)
    return st.BlackHoleSpacetime(2, .5, metric=rng.choice(
        ['Eddington-Finkelstein', 'Schwarzschild']))


PARAMETERS = ('period', 'isPeriodic', 'r_dS', 'r_AdS', 'r_S', 'alpha')


def spacetime_state(M):
    out = [repr(M), str(M), M.Dim, M.Name, M.MetricName]
    for k in PARAMETERS:
        try:
            out.append((k, plain(M.Parameter(k))))
        except KeyError:
            out.append((k, 'none'))
    out.append(shape_state(M.DefaultShape()))
    return out


PROBES = {d: [np.array([(7 * i + 3 * j) % 11 / 6. - .85
                        for j in range(d)]) for i in range(5)]
          for d in (1, 2, 3, 4)}


def answers(causal, d):
    return [tuple(map(bool, causal(x, y)))
            for x in PROBES[d] for y in PROBES[d] if x is not y]


def cone_of(M, rng):
    '''A cone function with an origin, or None where there are none.'''
    if isinstance(M, st.AntideSitterSpacetime):
        return None
    dims = rng.choice([[1, 0], [0, 1]])
    sign = rng.choice([-1, 1])
    ax = Figure().add_subplot()
    f = M.ConePlotter(dims, {'facecolor': 'red'}, sign, ax,
                      samplingsize=rng.choice([-1, -1, 16, 300]))
    o = np.array([.1, 1.2, .3, .2][:M.Dim])
    return f, o, o[0] + sign * .7


def cone_answer(c):
    if c is None:
        return None
    f, o, t = c
    p = f(o.copy(), t)
    if p is None:
        return 'nothing'
    XY = np.asarray(p.get_xy(), dtype=float)
    return [[None if x != x else x for x in row] for row in XY.tolist()]


class Spacetime(Family):
    kind = 'spacetime'

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.M = random_spacetime(rng)
        self.causal = self.M.Causality()
        self.cone = cone_of(self.M, rng)

    def state(self):
        return (spacetime_state(self.M), answers(self.causal, self.M.Dim),
                cone_answer(self.cone))

    def operate(self, rng, world):
        M, d = self.M, self.M.Dim
        k = rng.randrange(4)
        if k == 0:
            f = self.ctx.call('Causality', M.Causality)
            for _ in range(5):
                f(np.array([rng.uniform(-2, 2) for _ in range(d)]),
                  np.array([rng.uniform(-2, 2) for _ in range(d)]))
            return 'causality'
        if k == 1:
            S = self.ctx.call('DefaultShape', M.DefaultShape)
            S.plot([1, 0] if d > 1 else [0, 0], Figure().add_subplot())
            return 'default shape'
        if k == 2:
            c = cone_of(M, rng)
            if c is not None:
                c[0](c[1], c[2])
            if d == 3 and isinstance(M, st.FlatSpacetime):
                ax = Figure().add_subplot(projection='3d')
                self.ctx.call('ConePlotter', M.ConePlotter, [1, 2, 0],
                              {'color': 'b'}, 1, ax, samplingsize=6)(
                    np.zeros(3), 1.0)
            return 'cone'
        self.ctx.call('spacetime', random_spacetime, rng, d).Causality()(
            *PROBES[d][:2])
        return 'make'


class Shape(Family):
    kind = 'shape'

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.d, self.name, self.kw, R = random_shape(rng, (2, 2, 3))
        self.S = CoordinateShape(self.d, self.name, **self.kw)

    def state(self):
        return shape_state(self.S), plain(self.kw)

    def operate(self, rng, world):
        S, d = self.S, self.d
        k = rng.randrange(4)
        if k == 0:
            S.plot(rng.sample(range(d), 2), Figure().add_subplot(),
                   **rng.choice([{}, {'facecolor': 'blue'},
                                 {'alpha': .4}]))
            return 'shape plot'
        if k == 1:
            [S.Limits(i) for i in range(d)], S.Volume, repr(S)
            return 'shape read'
        if k == 2:
            # another one of the same arguments, used and forgotten
            T = CoordinateShape(d, self.name, **self.kw)
            C = SprinkledCauset(spacetime=st.FlatSpacetime(d), shape=T)
            C.sprinkle(3, rng=np.random.default_rng(rng.getrandbits(32)))
            return 'sprinkle'
        if d == 3:
            S.plot([0, 1, 2], Figure().add_subplot(projection='3d'))
        return 'shape plot'


class Embedded(Family):
    kind = 'embedded'

    def __init__(self, ctx, rng, pool):
        self.ctx = ctx
        d = pool['d']
        self.given = []
        kw = {}
        if rng.random() < .6:
            kw['spacetime'] = pool['M']
            ctx.count('shared spacetime')
        else:
            kw['spacetime'] = random_spacetime(rng, d)
        if rng.random() < .6:
            kw['shape'] = pool['S']
            ctx.count('shared shape')
        elif rng.random() < .5:
            kw['shape'] = rng.choice(['cube', 'ball', 'cylinder', 'bicone'])
        self.sprinkled = rng.random() < .5
        rows = pool['rows']
        if self.sprinkled:
            self.g = np.random.default_rng(rng.getrandbits(32))
            self.C = SprinkledCauset(**kw)
            if rng.random() < .5:
                self.C.create(rows)
                ctx.count('shared rows')
        else:
            if rng.random() < .7:
                kw['coordinates'] = rows
                ctx.count('shared rows')
            self.C = EmbeddedCauset(**kw)
        self.kind = 'sprinkled' if self.sprinkled else 'embedded'
        self.rows = rows

    def state(self):
        C = self.C
        ev = sorted(C, key=lambda e: [float(x) for x in e.Coordinates]
                    + [str(e.Label)])
        v = View(ev)
        out = [[event_state(v, e) for e in ev], C.Card, C.Dim,
               shape_state(C.Shape), spacetime_state(C.Spacetime),
               plain(self.rows)]
        if self.sprinkled:
            out += [float(C.Intensity), float(C.Density),
                    plain(self.g.bit_generator.state)]
        return out

    def operate(self, rng, world):
        C, ctx = self.C, self.ctx
        d = C.Dim
        ops = ['create', 'relate', 'relabel', 'plot', 'plot', 'shape',
               'discard', 'rejected', 'diagram']
        if self.sprinkled:
            ops += ['sprinkle'] * 3
        op = rng.choice(ops)
        if op == 'create' and C.Card < 20:
            rows = self.rows if rng.random() < .4 else \
                [[rng.uniform(-1, 1) for _ in range(d)]
                 for _ in range(rng.randint(1, 3))]
            ctx.call('create', C.create, rows)
        elif op == 'relate':
            ctx.call('relate', C.relate, link=rng.random() < .5)
        elif op == 'relabel':
            ctx.call('relabel', C.relabel, rng.randrange(d),
                     rng.random() < .5)
        elif op == 'plot':
            self.draw(rng, world)
        elif op == 'shape':
            C.Shape.plot([1, 0] if d > 1 else [0, 0], Figure().add_subplot())
        elif op == 'discard':
            S = random_sub(rng, list(C))
            ctx.call('discard', C.discard, S)
        elif op == 'sprinkle' and C.Card < 20:
            if rng.random() < .5:
                ctx.call('sprinkle', C.sprinkle, rng.randint(0, 4),
                         rng=self.g)
            else:
                ctx.call('intensify', C.intensify, rng.uniform(0, 4.),
                         rng=self.g, shape=rng.choice([
                             None, CoordinateShape(d, 'ball')]))
        elif op == 'diagram':
            ax = Figure().add_subplot()
            E = C.sortedByLabels()
            P = list(range(1, len(E) + 1))
            rng.shuffle(P)
            ctx.call('plotDiagram', cp.plotDiagram, E, P, plotAxes=ax)
        else:
            op = 'rejected'
            for fn in (lambda: C.create([[1.0] * (d + 1)]),
                       lambda: C.relabel(dim=d + 3),
                       lambda: cp.plot(C, Figure().add_subplot(),
                                       dims=[0, d + 2])):
                try:
                    fn()
                except Exception:  # noqa: BLE001
                    pass
        return op

    def draw(self, rng, world):
        C, ctx = self.C, self.ctx
        d = C.Dim
        dims = [1, 0]
        opts = {'links': rng.choice([True, False, {'color': 'cs:red'}]),
                'events': rng.choice([True, {'markerfacecolor': 'cs:lime'}]),
                'labels': rng.random() < .5}
        if rng.random() < .5:
            opts['time'] = [rng.uniform(-1, 1), rng.uniform(-1, 1)]
            if not isinstance(C.Spacetime, st.AntideSitterSpacetime):
                opts['pastcones'] = rng.choice([True, {'alpha': .3}])
            if rng.random() < .5:
                opts['timedepth'] = rng.choice([-1.0, 1.5])
        if rng.random() < .3:
            opts['linkgapsize'] = 3.0
        if rng.random() < .4:
            opts['axislim'] = rng.choice(
                ['shape', {'xlim': (-1.0, 1.0), 'ylim': (-2., 2.)}])
        keep = plain(opts)
        E = rng.choice([C, list(C), None]) if C.Card else C
        if E is None:
            E = rng.choice(list(C))
        if not isinstance(E, EmbeddedCauset):
            opts['spacetime'] = C.Spacetime
            if opts.get('axislim') == 'shape':
                opts['shape'] = C.Shape
            keep = plain(opts)
        if rng.random() < .3 and d == 3:
            dims = [1, 2, 0]
            opts.pop('pastcones', None)
            if isinstance(opts.get('axislim'), dict):
                opts.pop('axislim')
            ax = Figure().add_subplot(projection='3d')
            opts['dims'] = dims
            keep = plain(opts)
        else:
            ax = Figure().add_subplot()
        ctx.call('plot', cp.plot, E, plotAxes=ax, **opts)
        ctx.equal(plain(opts), keep, 'bystander', 'options given to plot')


class Options(Family):
    kind = 'options'

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.own = {'links': {'color': 'cs:red', 'alpha': .5},
                    'events': {'markerfacecolor': 'cs:blue'},
                    'axislim': {'xlim': (0., 1.), 'ylim': (0., 1.)},
                    'dims': [0, 1], 'time': [0.0, 1.0]}
        self.full = cp.plot_parameters(**self.own)

    def state(self):
        return plain(self.own), plain(self.full)

    def operate(self, rng, world):
        x = self.ctx.call('plot_parameters', cp.plot_parameters,
                          **rng.choice([{}, {'links': True}, self.own]))
        plain(x)
        return 'options'


class Drawing(Family):
    '''A figure of the user, one of them the current one.'''
    kind = 'drawing'

    def __init__(self, ctx, rng):
        self.ctx = ctx
        if rng.random() < .5:
            self.fig = plt.figure()
            self.ax = self.fig.add_subplot()
        else:
            self.fig = Figure()
            self.ax = self.fig.add_subplot()
        C = EmbeddedCauset(coordinates=[[0., 0.], [1., .2], [.5, 1.3]])
        self.C = C
        cp.plot(C, plotAxes=self.ax, labels=True, pastcones=True)

    def state(self):
        ax = self.ax
        out = [len(self.fig.axes), ax.get_xlim(), ax.get_ylim(),
               ax.get_xlabel(), ax.get_ylabel(), ax.get_title()]
        for a in ax.lines:
            out.append((plain(np.array(a.get_xdata(), dtype=float)),
                        plain(np.array(a.get_ydata(), dtype=float)),
                        repr(a.get_color()), a.get_alpha()))
        for a in ax.texts:
            out.append((a.get_text(), repr(a.get_position())))
        for a in ax.patches:
            out.append((plain(np.asarray(a.get_xy())), a.get_alpha(),
                        repr(a.get_facecolor())))
        out.append(len(ax.collections))
        return plain(out)

    def operate(self, rng, world):
        self.ctx.call('plot', cp.plot, self.C, plotAxes=self.ax,
                      links=rng.random() < .5)
        return 'plot'


# ----------------------------------------------------------------- globals
def folder():
    f = os.path.join(scratch(), f'c33-{os.getpid()}')
    os.makedirs(f, exist_ok=True)
    return f


def interpreter():
    '''What every program in the process shares.'''
    s = np.random.get_state()
    return {
        'np.random': (s[0], s[1].tolist(), s[2:]),
        'random': hash(random.getstate()),
        'np.geterr': np.geterr(), 'np.printoptions': plain(
            np.get_printoptions()),
        'recursion limit': sys.getrecursionlimit(),
        'warning filters': len(warnings.filters),
        'figures': [(n, len(m.canvas.figure.axes)) for n, m in
                    sorted(Gcf.figs.items())],
        'current figure': id(Gcf.get_active()),
        'cwd': os.getcwd(), 'environment': hash(frozenset(
            os.environ.items())),
        'path': list(sys.path), 'locale': locale.setlocale(locale.LC_ALL),
        'samplings': [getattr(m, k, None) for m in (st, shp) for k in
                      ('default_samplingsize', 'causality_eps')],
        'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'files': sorted(os.listdir('.')), 'scratch': sorted(
            os.listdir(folder()))}


def settings():
    '''Costly or allowed to change on request.'''
    return {'rcParams': sorted((k, repr(x)) for k, x in
                               dict.items(matplotlib.rcParams))}


def colours():
    return {'default colours': dict(cp.default_colors),
            'scheme': dict(cs.getGlobalColorScheme()),
            'registry': plain(cs.ColorSchemes)}


def restore_colours(saved):
    cp.default_colors.clear()
    cp.default_colors.update(saved)
    cs.setGlobalColorScheme('matplotlib')
    plt.close('all')


def pool_of(rng):
    d = rng.choice([2, 2, 3])
    k = rng.randint(1, 4)
    rows = [[rng.uniform(-1, 1) for _ in range(d)] for _ in range(k)]
    if rng.random() < .5:
        rows = np.array(rows)
    dd, name, kw, R = random_shape(rng, (d,))
    return {'d': d, 'M': random_spacetime(rng, d), 'rows': rows,
            'S': CoordinateShape(d, name, **kw)}


def bystanders(ctx, rng, index):
    first = baseline()
    # each process makes it once: settings that are left changed by the first
    # use of something stay as they are in all later cases
    ctx.equal((first['first'], first['printed']), ([], ''), 'globals',
              'the first use of default arguments')
    saved = dict(cp.default_colors)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            run_bystanders(ctx, rng, first)
        ctx.equal(out.getvalue(), '', 'globals', 'printed text')
    finally:
        restore_colours(saved)


def run_bystanders(ctx, rng, first):
    pool = pool_of(rng)
    F = []
    for _ in range(rng.randint(3, 6)):
        k = rng.choice(['a', 'a', 'e', 'e', 'e', 's', 'm', 'o', 'd'])
        F.append({'a': lambda: Abstract(ctx, rng),
                  'e': lambda: Embedded(ctx, rng, pool),
                  's': lambda: Shape(ctx, rng),
                  'm': lambda: Spacetime(ctx, rng),
                  'o': lambda: Options(ctx, rng),
                  'd': lambda: Drawing(ctx, rng)}[k]())
    shared = shape_state(pool['S']), spacetime_state(pool['M']), \
        plain(pool['rows'])
    states = [f.state() for f in F]
    log = []
    rc = settings()
    col = colours()
    ctx.describe([f.kind for f in F], nontrivial=len(F) > 1)
    for _ in range(rng.randint(5, 12)):
        i = rng.randrange(len(F))
        shared_globals = interpreter()
        if rng.random() < .06:
            name = rng.choice(['matplotlib', 'UniYork', 'ImperialLondon'])
            cp.setDefaultColors(name, **rng.choice(
                [{}, {'links': 'cs:blue'}, {'eventsface': 'cs:cyan'}]))
            i, op = -1, 'colours'
            registry = col['registry']
            col = colours()
            ctx.equal(col['registry'], registry, 'globals',
                      'colour schemes after setDefaultColors')
        else:
            op = F[i].operate(rng, F)
        ctx.count('op:' + op)
        log.append((F[i].kind if i >= 0 else '', op))
        for j, f in enumerate(F):
            if j != i:
                ctx.equal(f.state(), states[j], 'bystander',
                          lambda: f'{f.kind} after {log[-5:]}')
        if i >= 0:
            states[i] = F[i].state()
        ctx.equal((shape_state(pool['S']), spacetime_state(pool['M']),
                   plain(pool['rows'])), shared, 'bystander',
                  lambda: f'shared arguments after {log[-5:]}')
        now = interpreter()
        for k in now:
            ctx.equal(now[k], shared_globals[k], 'globals',
                      lambda: f'{k} after {log[-5:]}')
        now = colours()
        for k in now:
            ctx.equal(now[k], col[k], 'globals',
                      lambda: f'{k} after {log[-5:]}')
    ctx.equal(settings(), rc, 'globals', lambda: f'rcParams after {log}')
    if col['default colours'] == first['colours'] and \
            col['scheme'] == first['scheme']:
        judge_defaults(ctx, first, log)
    plt.close('all')


# ---------------------------------------------------------------- defaults
BASE = {}


def causet_state(C):
    L = C.sortedByLabels() if C.Card and not any(
        e.Label is None for e in C) else list(C)
    return (C.Card, [repr(e.Label) for e in L],
            plain(C.PastMatrix(L)), plain(C.LinkPastMatrix(L)),
            [[float(x) for x in e.Coordinates] if e.isEmbedded else None
             for e in L], [[float(x) for x in e.Position] for e in L])


def line_state(a):
    '''A line, whatever its direction; events have no line colour.'''
    points = [(float(x), float(y))
              for x, y in zip(a.get_xdata(), a.get_ydata())]
    return repr((sorted(points), len(points) > 1 and a.get_color(),
                 a.get_linewidth(), a.get_alpha(), a.get_marker(),
                 a.get_markerfacecolor() if a.get_marker() not in
                 ('', 'None', None) else ''))


def made():
    '''What is made with default arguments, in a comparable form.'''
    out = {}
    e = CausetEvent()
    out['event'] = (len(e.Past), len(e.Future), repr(e.Label), e.isEmbedded,
                    list(e.Position), e.CoordinatesDim)
    out['related event'] = [len(x) for x in (
        CausetEvent(past={e}).Past, CausetEvent(past={CausetEvent()}).Future,
        CausetEvent(future={CausetEvent()}).Past)]
    out['causet'] = causet_state(Causet())
    out['chain'] = causet_state(Causet.NewChain(3))
    out['antichain'] = causet_state(Causet.NewAntichain(3))
    out['simplex'] = causet_state(Causet.NewSimplex(2))
    out['fence'] = causet_state(Causet.NewFence(4))
    out['permutation'] = causet_state(Causet.FromPermutation([2, 3, 1]))
    C = EmbeddedCauset()
    out['embedded'] = (causet_state(C), shape_state(C.Shape),
                       spacetime_state(C.Spacetime))
    out['calculations'] = (calc.HarmonicNumber(7), calc.HarmonicNumber(150),
                           plain(calc.HarmonicNumbers(120)),
                           repr(calc.HarmonicNumberFractions(6)),
                           calc.NewtonsMethod(lambda x: x**3,
                                              lambda x: 3 * x * x, 1.0, 2.0))
    C = EmbeddedCauset(coordinates=[[0., 0.], [1., .2], [.5, 1.3]])
    out['embedded rows'] = causet_state(C)
    D = EmbeddedCauset.FromPermutation([2, 3, 1])
    out['embedded permutation'] = (causet_state(D), shape_state(D.Shape),
                                   spacetime_state(D.Spacetime))
    D = SprinkledCauset(dim=2)
    out['sprinkled'] = (causet_state(D), shape_state(D.Shape),
                        spacetime_state(D.Spacetime), float(D.Intensity))
    D.sprinkle(4, rng=np.random.default_rng(3))
    out['sprinkle'] = sorted([float(x) for x in e.Coordinates] for e in D), \
        float(D.Intensity)
    for name in ('ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid'):
        for d in (2, 3):
            out[name, d] = shape_state(CoordinateShape(d, name))
    for name, M in (('flat', st.FlatSpacetime(2)),
                    ('flat3', st.FlatSpacetime(3)),
                    ('dS', st.deSitterSpacetime(2)),
                    ('AdS', st.AntideSitterSpacetime(2)),
                    ('EF', st.BlackHoleSpacetime(2))):
        out[name] = spacetime_state(M), answers(M.Causality(), M.Dim)
    for name, M in (('flat', st.FlatSpacetime(2)),
                    ('flat3', st.FlatSpacetime(3)),
                    ('dS', st.deSitterSpacetime(2)),
                    ('EF', st.BlackHoleSpacetime(2))):
        for dims in ([1, 0], [1, 2]):
            if max(dims) < M.Dim:
                f = M.ConePlotter(dims, {}, 1, Figure().add_subplot())
                out['cone', name, str(dims)] = cone_answer(
                    (f, np.array([.1, .8, 0.][:M.Dim]), .6))
    out['surface'] = [plain(x) for part in shp.BallSurface(
        np.zeros(3), 1.0) for x in part]
    out['options'] = plain(cp.plot_parameters())
    ax = Figure().add_subplot()
    cp.plot(C, plotAxes=ax)
    out['plot'] = sorted(line_state(a) for a in ax.lines)
    ax = Figure().add_subplot()
    cp.plotDiagram(C.sortedByLabels(), plotAxes=ax)
    out['diagram'] = sorted(line_state(a) for a in ax.lines)
    ax = Figure().add_subplot()
    CoordinateShape(2, 'ball').plot([1, 0], ax)
    out['shape plot'] = [repr(a.get_facecolor()) for a in ax.patches]
    return out


def baseline():
    '''Made once per process, before anything else.'''
    if not BASE:
        before = dict(interpreter(), **settings())
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            BASE['made'] = made()
        after = dict(interpreter(), **settings())
        BASE['first'] = [(k, after[k], before[k]) for k in before
                         if after[k] != before[k]]
        BASE['printed'] = out.getvalue()
        BASE['colours'] = dict(cp.default_colors)
        BASE['scheme'] = dict(cs.getGlobalColorScheme())
    return BASE


def judge_defaults(ctx, first, log):
    now = ctx.call('made', made)
    for k, x in first['made'].items():
        ctx.equal(now[k], x, 'defaults', lambda: f'{k} after {log}')


def alternating(ctx, rng, index):
    '''Objects of one kind in turns: each answers as it does alone.'''
    baseline()
    d = rng.choice([2, 2, 3])
    what = rng.choice(['causality', 'sprinkle', 'cone', 'shape', 'create',
                       'plotter', 'plotter'])
    seeds = [rng.getrandbits(32) for _ in range(3)]
    steps = rng.randint(2, 4)

    def player(seed):
        r = random.Random(seed)
        M = random_spacetime(r, d)
        dd, name, kw, R = random_shape(r, (d,))
        S = CoordinateShape(d, name, **kw)
        if what == 'causality':
            f = M.Causality()

            def go():
                return tuple(map(bool, f(
                    np.array([r.uniform(-2, 2) for _ in range(d)]),
                    np.array([r.uniform(-2, 2) for _ in range(d)]))))
        elif what == 'sprinkle':
            g = np.random.default_rng(seed)
            C = SprinkledCauset(spacetime=st.FlatSpacetime(d), shape=S)

            def go():
                x = C.sprinkle(r.randint(0, 4), rng=g) if r.random() < .6 \
                    else C.intensify(r.uniform(0, 4), rng=g)
                return (sorted(([float(c) for c in e.Coordinates], e.Label,
                                len(e.Past), len(e.Future)) for e in x),
                        float(C.Intensity))
        elif what == 'cone':
            c = cone_of(M, r)

            def go():
                return cone_answer(c if c is None else (
                    c[0], c[1] + r.uniform(0, .5),
                    c[2] + r.uniform(-.5, 1.5)))
        elif what == 'shape':
            def go():
                ax = Figure().add_subplot()
                S.plot(r.sample(range(d), 2), ax)
                return plain([np.asarray(p.get_xy()) if hasattr(p, 'get_xy')
                              else np.asarray(p.get_path().vertices)
                              for p in ax.patches]), shape_state(S)
        elif what == 'plotter':
            C = EmbeddedCauset(spacetime=M, shape=S, coordinates=[
                [r.uniform(-1, 1) for _ in range(d)]
                for _ in range(r.randint(1, 5))])
            E = C if r.random() < .5 else C.sortedByLabels()
            opts = {'spacetime': M, 'labels': r.random() < .5}
            if r.random() < .6:
                opts['timedepth'] = r.choice([-1.0, 1.5, .5])
            if r.random() < .5 and not isinstance(
                    M, st.AntideSitterSpacetime):
                opts['pastcones'] = r.choice([True, {'alpha': .3}])
                if r.random() < .5:
                    opts['conetimedepth'] = 1.0
            if r.random() < .5:
                opts['links'] = {'linewidth': r.choice([1.0, 3.0])}
            if r.random() < .5:
                opts['events'] = {'alpha': r.choice([.3, .7])}
            if r.random() < .3:
                opts['linkgapsize'] = r.choice([3.0, .1])
            ax = Figure().add_subplot()
            f = cp.Plotter(E, ax, **opts)

            def go():
                t = [r.uniform(-1, 1) for _ in range(r.randint(1, 2))]
                h = f(np.array(t) if r.random() < .5 else t)
                return (sorted(h), sorted(line_state(a) for a in ax.lines),
                        sorted(repr((a.get_alpha(), len(a.get_xy())))
                               for a in ax.patches),
                        sorted((a.get_text(), a.get_position())
                               for a in ax.texts))
        else:
            C = EmbeddedCauset(spacetime=M, shape=S)

            def go():
                x = C.create([[r.uniform(-1, 1) for _ in range(d)]
                              for _ in range(r.randint(1, 3))])
                return sorted((repr(e.Label), [float(c) for c in
                                               e.Coordinates], len(e.Past),
                               len(e.LinkFuture)) for e in x)
        return go
    alone = []
    for s in seeds:
        go = ctx.call('player', player, s)
        alone.append([ctx.call(what, go) for _ in range(steps)])
    players = [player(s) for s in seeds]
    turns = [i for i in range(len(seeds)) for _ in range(steps)]
    rng.shuffle(turns)
    got = [[] for _ in seeds]
    for i in turns:
        got[i].append(ctx.call(what, players[i]))
    for i in range(len(seeds)):
        for a, b in zip(got[i], alone[i]):
            ctx.equal(a, b, 'alternating',
                      lambda: f'{what}: object {i} of {seeds} in the order '
                              f'{turns}')
    ctx.describe((what, d, seeds), nontrivial=True)


WORKLOADS = [W(bystanders, 1000, 24000), W(alternating, 500, 12000)]
