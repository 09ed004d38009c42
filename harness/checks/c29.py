'''C29: colour schemes.'''
import warnings
import matplotlib
matplotlib.use('Agg')
from matplotlib.colors import to_rgba, CSS4_COLORS, TABLEAU_COLORS
from matplotlib.figure import Figure
from causets import causetplotting as cp
from causets import colorschemes as cs
from causets.causetevent import CausetEvent
from core import W
import copy

RULE = ('resolve: every colour of every scheme by name, globally and with an '
        'explicit scheme, is a colour matplotlib accepts; random plain '
        'colours pass unchanged. containers: random lists and dictionaries '
        'of colours and other values against single conversions. history: '
        'sequences of setGlobalColorScheme, setDefaultColors (known and '
        'unknown schemes, random colours), conversions and plots against a '
        'model of scheme and default colours. Non-trivial: every case.')
ASSUMPTIONS = []
REQUIRED = {'monitor:valid': 300, 'monitor:plain': 100,
            'monitor:container': 300, 'monitor:refused': 60,
            'monitor:scheme': 300, 'monitor:default': 500,
            'monitor:drawn': 60, 'unknown_colour': 20}
NAMES = ['matplotlib', 'UniYork', 'ImperialLondon']
KEYS = ['links', 'linksedge', 'linksface', 'eventsedge', 'eventsface',
        'conesedge', 'conesface']
PLAIN = sorted(CSS4_COLORS)[::7] + sorted(TABLEAU_COLORS) + \
    ['r', 'k', '#12aB9f', 'none', '0.5', 'C3', 'xkcd:sky blue', 'cs', 'Cs:x',
     ' cs:blue', 'CS:blue', '']
MINIMUM = ['core', 'black', 'gray', 'grey', 'white', 'purple', 'blue', 'cyan',
           'green', 'lime', 'yellow', 'orange', 'red', 'pink']


class Restored:
    def __enter__(self):
        self.colors = dict(cp.default_colors)
        self.schemes = copy.deepcopy(cs.ColorSchemes)

    def __exit__(self, *a):
        cp.default_colors.clear()
        cp.default_colors.update(self.colors)
        for k in list(cs.ColorSchemes):
            if k not in self.schemes:
                del cs.ColorSchemes[k]
            else:
                cs.ColorSchemes[k].clear()
                cs.ColorSchemes[k].update(self.schemes[k])
        cs.setGlobalColorScheme('matplotlib')


def valid(ctx, c, what):
    try:
        to_rgba(c)
        ok = isinstance(c, str)
    except ValueError:
        ok = False
    ctx.check(ok, 'valid', lambda: f'{c!r} is no colour: {what}')


def resolve(ctx, rng, index):
    with Restored():
        for name in NAMES:
            ctx.check(name in cs.ColorSchemes, 'valid', name)
        name = sorted(cs.ColorSchemes)[index % len(cs.ColorSchemes)]
        scheme = ctx.call('pickColorScheme', cs.pickColorScheme, name)
        ctx.equal(scheme, cs.ColorSchemes[name], 'scheme', name)
        ctx.describe((name, index))
        other = rng.choice(NAMES)
        ctx.call('setGlobalColorScheme', cs.setGlobalColorScheme, other)
        for k in sorted(set(scheme) | set(MINIMUM)):
            c = ctx.call('getColor', cs.getColor, 'cs:' + k, name)
            valid(ctx, c, f'{k} of {name}')
            ctx.equal(c, scheme[k], 'scheme', f'{k} of {name}')
        ctx.equal(to_rgba(scheme['gray']), to_rgba(scheme['grey']), 'valid',
                  f'gray and grey of {name}')
        ctx.equal(ctx.call('getGlobalColorScheme', cs.getGlobalColorScheme),
                  cs.ColorSchemes[other], 'scheme', 'changed by getColor')
        ctx.call('setGlobalColorScheme', cs.setGlobalColorScheme, name)
        for k in sorted(scheme):
            c = ctx.call('getColor', cs.getColor, 'cs:' + k)
            valid(ctx, c, f'{k} of {name}')
            ctx.equal(c, scheme[k], 'scheme', f'{k} of global {name}')
        for k in KEYS:
            ctx.check(k in cp.default_colors, 'valid', k)
        for k, v in cp.default_colors.items():
            valid(ctx, ctx.call('getColor', cs.getColor, v),
                  f'default {k} in {name}')
        for c in rng.sample(PLAIN, 12):
            for kw in ({}, {'schemeName': name}):
                ctx.equal(ctx.call('getColor', cs.getColor, c, **kw), c,
                          'plain', name)


def any_colour(rng, common=True):
    return 'cs:' + rng.choice(MINIMUM) if rng.random() < .6 \
        else rng.choice(PLAIN)


def containers(ctx, rng, index):
    with Restored():
        g = rng.choice(NAMES)
        cs.setGlobalColorScheme(g)
        name = rng.choice([None, None] + NAMES)
        kw = {} if name is None else {'schemeName': name}
        if rng.random() < .3 and name is not None:
            kw = None
        CS = cs.ColorSchemes[name or g]

        def single(c):
            if isinstance(c, str) and c.startswith('cs:'):
                return CS[c[3:]]
            return c
        L = [any_colour(rng) for _ in range(rng.choice([0, 1, 3, 8]))]
        ctx.describe((g, name, tuple(L)))
        given = list(L)
        want = [single(c) for c in L]
        r = ctx.call('convertColorsInList', cs.convertColorsInList, L,
                     *([name] if kw is None else []), **(kw or {}))
        ctx.equal(list(r), want, 'container', f'list {given} {g} {name}')
        ctx.check(r is L or L == given, 'container', f'half converted {L}')
        ctx.equal([ctx.call('getColor', cs.getColor, c, name)
                   for c in given], want, 'container', 'single')
        extra = {'alpha': .5, 'n': 3, 'markevery': [], 'rgb': [0., 0., 0.],
                 'none': None, 'flag': True, 'list': ['cs:blue']}
        D = {f'k{i}': any_colour(rng) for i in range(rng.choice([0, 2, 6]))}
        for k in rng.sample(sorted(extra), rng.randint(0, 5)):
            D[k] = extra[k]
        given = dict(D)
        want = {k: single(v) for k, v in D.items()}
        r = ctx.call('convertColorsInDict', cs.convertColorsInDict, D,
                     *([name] if kw is None else []), **(kw or {}))
        ctx.equal(r, want, 'container', f'dict {given} {g} {name}')
        ctx.equal(list(r), list(given), 'container', 'keys')
        ctx.check(r is D or D == given, 'container', f'half converted {D}')
        # converting again changes nothing
        ctx.equal(ctx.call('convertColorsInDict', cs.convertColorsInDict,
                           dict(r), **(kw or {})), want, 'container',
                  'twice')
        ctx.equal(cs.getGlobalColorScheme(), cs.ColorSchemes[g], 'scheme',
                  'changed by conversion')
        for bad in ('unknown', '', 'uniyork', 'core'):
            for f, x in ((cs.getColor, 'cs:blue'), (cs.getColor, 'red'),
                         (cs.convertColorsInList, ['cs:blue']),
                         (cs.convertColorsInDict, {'a': 'cs:blue'}),
                         ):
                y = copy.copy(x)
                ctx.raises('refused', ValueError, f, y, bad)
                ctx.equal(y, x, 'refused', 'changed')


def history(ctx, rng, index):
    with Restored(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        scheme = 'matplotlib'
        colours = dict(cp.default_colors)
        ops = []
        for step in range(rng.randint(3, 8)):
            op = rng.choice(['scheme', 'bad', 'default', 'default',
                             'baddefault', 'draw', 'draw'])
            ops.append(op)
            if op == 'scheme':
                scheme = rng.choice(NAMES)
                ctx.call('setGlobalColorScheme', cs.setGlobalColorScheme,
                         scheme)
            elif op == 'bad':
                bad = rng.choice(['x', '', 'Matplotlib', 'blue'])
                ctx.raises('refused', ValueError, cs.setGlobalColorScheme,
                           bad)
                ctx.raises('refused', ValueError, cs.pickColorScheme, bad)
            elif op == 'default':
                new = {k: rng.choice(['cs:' + rng.choice(MINIMUM), 'red',
                                      '#102030'])
                       for k in rng.sample(KEYS, rng.randint(0, 4))}
                if rng.random() < .3:
                    scheme = 'matplotlib'
                    ctx.call('setDefaultColors', cp.setDefaultColors, **new)
                else:
                    scheme = rng.choice(NAMES)
                    ctx.call('setDefaultColors', cp.setDefaultColors, scheme,
                             **new)
                colours.update(new)
            elif op == 'baddefault':
                ctx.raises('refused', ValueError, cp.setDefaultColors,
                           'nowhere', links='cs:red')
            else:
                ax = Figure().add_subplot()
                b = CausetEvent(label=2)
                a = CausetEvent(label=1, future=[b])
                a.Position, b.Position = [0., 0.], [1., .2]
                h = ctx.call('plot', cp.plot, [a, b], ax, futurecones=True,
                             time=.5, conetimefade='')
                got = {'links': h['links'][0][0].get_color(),
                       'eventsface': h['events'][0][0].get_markerfacecolor(),
                       'eventsedge': h['events'][0][0].get_markeredgecolor(),
                       'linksedge': h['links'][0][0].get_markeredgecolor(),
                       'linksface': h['links'][0][0].get_markerfacecolor(),
                       'conesedge': h['futurecones'][0].get_edgecolor()[:3]}
                for k, v in got.items():
                    w = colours[k]
                    w = cs.ColorSchemes[scheme][w[3:]] \
                        if w.startswith('cs:') else w
                    ctx.equal(to_rgba(v)[:3], to_rgba(w)[:3], 'drawn',
                              f'{k} after {ops}')
            ctx.equal(ctx.call('getGlobalColorScheme',
                               cs.getGlobalColorScheme),
                      cs.ColorSchemes[scheme], 'scheme', f'after {ops}')
            for k in KEYS:
                ctx.equal(cp.default_colors.get(k), colours[k], 'default',
                          f'{k} after {ops}')
            ctx.equal(set(cp.default_colors), set(colours), 'default',
                      f'after {ops}')
            k = rng.choice(sorted(cs.ColorSchemes[scheme]))
            ctx.equal(ctx.call('getColor', cs.getColor, 'cs:' + k),
                      cs.ColorSchemes[scheme][k], 'scheme', f'after {ops}')
            try:
                cs.getColor('cs:nocolour')
                ctx.check(False, 'unknown', 'unknown colour accepted')
            except (KeyError, ValueError):
                ctx.count('unknown_colour')
        ctx.describe((tuple(ops), index))


WORKLOADS = [W(resolve, 480, 9600), W(containers, 1200, 24000),
             W(history, 800, 16000)]
