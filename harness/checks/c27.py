'''C27: plots of causets.'''
import math
import warnings
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
import mpl_toolkits.mplot3d  # noqa: F401
from causets import causetplotting as cp
from causets import colorschemes as cs
from causets.causet import Causet
from causets.causetevent import CausetEvent
from causets.embeddedcauset import EmbeddedCauset
from causets.shapes import CoordinateShape
from causets import spacetimes as st
from core import W
from build import build, View
from model import random_poset
from region import random_shape
import numpy as np

RULE = ('embedded: random coordinates (generic and on lattices, where events '
        'lie on links) in every spacetime, plotted as causet, list, sub-list '
        'or single event in random dimension orders, 2D and 3D, with random '
        'options; every artist returned and every artist found in the axes '
        'is matched one to one with the events, the links (from the public '
        'past and future sets) and the cones. dynamic: the same with time '
        'depths of both signs and several slices of one plotter. diagram: '
        'events with positions and permutations. gaps: events on links, in '
        'units of length from 1.5e-5 to 1.6e4. fading: the fading '
        'functions. Non-trivial: at least one link or cone.')
ASSUMPTIONS = ['the size of the markers of link gaps is not documented and '
               'not judged', 'the exponential fading may halve or divide by '
               'e on the time depth (documentation says half-time)',
               'a time depth of exactly 0 and fading by intensity towards '
               'the past are not documented and not judged',
               'cones of anti-de Sitter spacetime and spatial 3D slices of de '
               'Sitter cones are not implemented in the library']
REQUIRED = {'monitor:event': 3000, 'monitor:link': 1500,
            'monitor:label': 1500, 'monitor:cone': 200, 'monitor:axes': 300,
            'monitor:limits': 200, 'monitor:colour': 300,
            'monitor:state': 300, 'on_link': 20, 'on_link_3d': 20, 'gaps_rounded': 20, 'gaps_scaled': 60, 'monitor:cut': 40,
            'monitor:whole': 60, 'hidden_events': 100, 'hidden_links': 100,
            'monitor:fade': 300, 'monitor:refused': 20, '3d': 60,
            'monitor:position': 300, 'current_axes': 5}
TOL = 1e-9
DEFAULTS = {'events': {'marker': 'o', 'markersize': 7.0},
            'links': {'linestyle': '-', 'linewidth': 2.0},
            'labels': {'verticalalignment': 'top',
                       'horizontalalignment': 'right'}}


def set_scheme(rng):
    name = rng.choice(['matplotlib', 'matplotlib', 'UniYork',
                       'ImperialLondon'])
    cp.setDefaultColors(name)
    return name


class Restored:
    '''Colours are global: leave them as they were.'''

    def __enter__(self):
        self.saved = dict(cp.default_colors)

    def __exit__(self, *a):
        cp.default_colors.clear()
        cp.default_colors.update(self.saved)
        cs.setGlobalColorScheme('matplotlib')
        plt.close('all')


def style(rng, kind):
    '''(option value, expected properties) of one kind of object.'''
    k = rng.random()
    if k < .5:
        return True, {}
    if k < .65:
        return {}, {}
    if kind == 'events':
        d = {'markerfacecolor': rng.choice(['cs:red', 'cs:green', '#123456']),
             'marker': rng.choice(['s', 'o', '^'])}
        if rng.random() < .4:
            d['alpha'] = rng.choice([.25, .5, 1.0])
        if rng.random() < .3:
            d['markersize'] = 3.0
    elif kind == 'links':
        d = {'color': rng.choice(['cs:red', 'cs:orange', 'k']),
             'linewidth': rng.choice([.5, 1.0, 3.0])}
        if rng.random() < .4:
            d['linestyle'] = '--'
    elif kind == 'labels':
        d = {'color': rng.choice(['cs:red', 'cs:pink', 'g']),
             'fontsize': 7.0}
    else:
        d = {'alpha': rng.choice([.25, .6])}
    return d, dict(d)


def colour(c):
    return to_rgba(cs.getColor(c))


def check_style(ctx, artist, kind, want, what, dynamic=False):
    get = {'markerfacecolor': 'get_markerfacecolor', 'color': 'get_color',
           'marker': 'get_marker', 'markersize': 'get_markersize',
           'linewidth': 'get_linewidth', 'linestyle': 'get_linestyle',
           'fontsize': 'get_fontsize', 'alpha': 'get_alpha'}
    for k, v in want.items():
        if dynamic and k in ('alpha', 'linewidth'):
            continue
        got = getattr(artist, get[k])()
        if 'color' in k:
            ctx.equal(to_rgba(got), colour(v), 'colour',
                      lambda: f'{k} of {kind}: {what}')
        else:
            ctx.equal(got, v, 'option', lambda: f'{k} of {kind}: {what}')
    for k, v in DEFAULTS.get(kind, {}).items():
        if k not in want and not (dynamic and k in ('alpha', 'linewidth')):
            ctx.equal(getattr(artist, 'get_' + k)(), v, 'default',
                      lambda: f'{k} of {kind}: {what}')
    if kind == 'events':
        if 'markerfacecolor' not in want:
            ctx.equal(to_rgba(artist.get_markerfacecolor()),
                      colour(cp.default_colors['eventsface']), 'colour',
                      'events face: ' + what)
        ctx.equal(to_rgba(artist.get_markeredgecolor()),
                  colour(cp.default_colors['eventsedge']), 'colour',
                  'events edge: ' + what)
        ctx.check(artist.get_marker() not in ('', 'None', None), 'option',
                  'no marker: ' + what)
    elif kind == 'links':
        if 'color' not in want:
            ctx.equal(to_rgba(artist.get_color()),
                      colour(cp.default_colors['links']), 'colour',
                      'links: ' + what)
        ctx.check(artist.get_linestyle() not in ('', 'None', ' '), 'option',
                  'no line: ' + what)
    ctx.check(artist.get_visible(), 'option', 'invisible: ' + what)


def points_of(line, is3d):
    if is3d:
        return np.array([np.asarray(c, dtype=float).ravel()
                         for c in line.get_data_3d()]).T
    return np.array([np.asarray(line.get_xdata(), dtype=float).ravel(),
                     np.asarray(line.get_ydata(), dtype=float).ravel()]).T


def text_position(t, is3d):
    if is3d:
        return np.array(t.get_position_3d(), dtype=float)
    return np.array(t.get_position(), dtype=float)


def near(a, b, scale):
    return a.shape == b.shape and bool((np.abs(a - b) <= TOL * scale).all())


def same_multiset(ctx, got, want, kind, what, scale):
    '''Points or segments (arrays) agree as multisets.'''
    ctx.equal(len(got), len(want), kind, lambda: f'number of {kind}s; {what}')
    rest = list(want)
    for g in got:
        ctx.n['monitor:' + kind] += 1
        for k, w in enumerate(rest):
            if near(g, w, scale):
                del rest[k]
                break
        else:
            ctx.check(False, kind, lambda: f'{g.tolist()} is none of the '
                      f'expected {short_list(rest)}; {what}')


def short_list(L):
    return str([x.tolist() for x in L[:8]]) + ('...' if len(L) > 8 else '')


class Artists:
    '''What is in the axes besides `before`.'''

    def __init__(self, ax):
        self.ax = ax
        self.seen = set()
        self.keep = []

    def new(self):
        out = {'lines': [], 'texts': [], 'patches': [], 'collections': []}
        for k in out:
            for a in getattr(self.ax, k):
                if id(a) not in self.seen:
                    self.seen.add(id(a))
                    self.keep.append(a)
                    out[k].append(a)
        return out


def flat_list(h):
    out = []
    for x in h:
        if x is None:
            continue
        if isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    return out


def is_link(a, b):
    if b in a.Future:
        return not (set(a.Future) & set(b.Past))
    if a in b.Future:
        return not (set(b.Future) & set(a.Past))
    return False


def spacetime_scene(rng, n=None):
    d = rng.choice([2, 2, 3, 3, 4])
    k = rng.random()
    cones = True
    if k < .45:
        M = st.FlatSpacetime(d)
    elif k < .6:
        M = st.FlatSpacetime(d, tuple(rng.choice([0.0, 1.0, 1.5])
                                      for _ in range(d - 1)))
    elif k < .75:
        M = st.deSitterSpacetime(d, 2.5)
    elif k < .85:
        M = st.AntideSitterSpacetime(d, 1.3)
        cones = False
    else:
        d = 2
        M = st.BlackHoleSpacetime(2, .5)
    n = rng.choice([0, 1, 2, 5, 8, 12, 16]) if n is None else n
    if isinstance(M, st.FlatSpacetime) and rng.random() < .5:
        step = rng.choice([1.0, .5, .25])
        rows = set()
        for _ in range(n):
            rows.add(tuple(step * rng.randint(-3, 3) for _ in range(d)))
        rows = [list(r) for r in rows]
        if len(rows) > 1 and d > 2 and rng.random() < .6:
            # events that lie on the plot of a link only, not in between
            for _ in range(rng.choice([1, 2])):
                a, b = rng.sample(rows, 2)
                if abs(a[0] - b[0]) < 1e-9:
                    continue
                if rng.random() < .5:   # make it a steep one
                    b = [b[0]] + [x + step * rng.randint(-1, 1) / 2
                                  for x in a[1:]]
                    rows.append(b)
                axis = rng.randrange(d)
                for f in rng.sample([.25, .5, .75], rng.choice([1, 1, 2, 3])):
                    c = [x + f * (y - x) for x, y in zip(a, b)]
                    c[axis] += rng.choice([-1, 1]) * 16 * step
                    rows.append(c)
            rows = [list(r) for r in {tuple(r) for r in rows}]
        rng.shuffle(rows)
        lattice = True
    else:
        rows = [[rng.uniform(-1.2, 1.2) for _ in range(d)] for _ in range(n)]
        lattice = False
    return M, d, rows, lattice, cones


def make_causet(ctx, rng, M, d, rows):
    kw = {}
    if rng.random() < .6:
        dd, name, kws, R = random_shape(rng, (d,))
        kw['shape'] = CoordinateShape(d, name, **kws)
    else:
        R = None
    C = ctx.call('EmbeddedCauset', EmbeddedCauset, M, coordinates=rows, **kw)
    for i, e in enumerate(C):
        e.Label = [i + 1, f'e{i}', f'${i}$', None][rng.randrange(4)]
    return C, R


def options(rng, d, is3d_ok=True):
    kw, want = {}, {}
    dims = [1, 0]
    if rng.random() < .75:
        m = 3 if d > 2 and is3d_ok and rng.random() < .45 else 2
        dims = rng.sample(range(d), m)
        kw['dims'] = list(dims)
    for k in ('links', 'events', 'labels'):
        r = rng.random()
        if r < .25:
            want[k] = {}
        elif r < .4:
            kw[k] = False
        else:
            kw[k], want[k] = style(rng, k)
    return kw, want, list(dims)


def cone_options(rng, kw, want, ok):
    if not ok:
        return
    for k in ('pastcones', 'futurecones'):
        if rng.random() < .4:
            kw[k], want[k] = style(rng, k)
    if rng.random() < .7:
        kw['conetimefade'] = rng.choice(['', 'linear', 'exponential',
                                         'intensity'])
        if rng.random() < .8:
            kw['conetimedepth'] = rng.choice([.5, 1.0, 3.0, -.7])


def cones_ok(M, dims, n):
    '''Spatial 3D slices of de Sitter cones are not implemented; the copies
    of cones in periodic space take too long.'''
    if len(dims) == 2 or 0 in dims:
        return True
    if isinstance(M, st.FlatSpacetime):
        return n <= 3 or 'period' not in repr(M)
    return not isinstance(M, st.deSitterSpacetime)


def cone_alpha(kw, amax, dt, D):
    '''Admissible alpha values of a cone that reaches over dt.'''
    fade = kw.get('conetimefade', 'intensity')
    T = abs(kw.get('conetimedepth', 0.0))
    if fade == '':
        return [amax]
    if fade == 'intensity':
        return [amax / (1 + dt)**k for k in D]
    if T == 0.0:
        return [0.0]
    if fade == 'linear':
        return [max(0.0, amax * (1 - dt / T))]
    return [amax * math.exp(-dt / T), amax * 2**(-dt / T)]


def draw(ctx, rng, kw, is3d, use_current=False):
    if use_current:
        plt.close('all')
        return None
    if is3d:
        return Figure().add_subplot(projection='3d')
    return Figure().add_subplot()


def snapshot(events):
    return [(list(e.Position), list(e.Coordinates) if e.isEmbedded else None,
             set(e.Past), set(e.Future), e.Label) for e in events]


def judge_cones(ctx, h, new, kw, want, events, coords, dims, M, slices, what):
    is3d = len(dims) == 3
    expected = 0
    for key, sign, slc in (('pastcones', -1, slices[0]),
                           ('futurecones', 1, slices[-1])):
        ctx.equal(key in h, key in want, 'requested', f'{key}; {what}')
        if key not in want:
            continue
        amax = want[key].get('alpha', .1)
        exp = []
        loose = 0
        for c in coords:
            dt = sign * (slc - c[0])
            if dt <= 0:
                continue
            if dt < 1e-8:   # a matter of rounding
                loose += 1
                continue
            A = cone_alpha(kw, amax, dt, {len(dims) - 1, len(c) - 1})
            if max(A) <= 0:
                continue
            if max(A) < 1e-300:
                loose += 1
                continue
            exp.append((c, dt, A))
        got = h[key]
        ctx.check(isinstance(got, list) and len(exp) <= len(got) <=
                  len(exp) + loose, 'cone',
                  lambda: f'{len(got)} {key} for {len(exp)} events; {what}')
        if loose:
            expected = None
        # in the order of the events
        if not loose:
            for art, (c, dt, A) in zip(got, exp):
                ctx.count('monitor:cone')
                if is3d:
                    continue
                ctx.equal(to_rgba(art.get_edgecolor())[:3],
                          colour(cp.default_colors['conesedge'])[:3],
                          'colour', 'edge of cones; ' + what)
                ctx.equal(art.get_facecolor()[3], 0.0, 'default',
                          'cones are filled; ' + what)
                al = art.get_alpha()
                ctx.check(any(abs(al - a) < 1e-9 for a in A), 'conealpha',
                          lambda: f'{al}, expected {A}; {c.tolist()}, {what}')
                if 0 in dims and not isinstance(M, st.BlackHoleSpacetime):
                    XY = np.asarray(art.get_xy(), dtype=float)
                    tt = XY[:, dims.index(0)]
                    tt = tt[~np.isnan(tt)]
                    lo, hi = sorted([c[0], c[0] + sign * dt])
                    ctx.check(abs(tt.min() - lo) < 1e-6 * (1 + dt) and
                              abs(tt.max() - hi) < 1e-6 * (1 + dt), 'cone',
                              lambda: f'reaches {tt.min()}..{tt.max()}, '
                              f'expected {lo}..{hi}: {c.tolist()} {what}')
        if expected is not None and not is3d:
            expected += len(exp)
    if not is3d:
        if expected is not None:
            ctx.equal(len(new['patches']), expected, 'axes',
                      f'cones in the axes; {what}')
            ids = {id(a) for k in ('pastcones', 'futurecones')
                   for a in flat_list(h.get(k, []))}
            ctx.equal({id(a) for a in new['patches']}, ids, 'axes',
                      f'cones in the axes; {what}')
    else:
        ctx.check(bool(new['collections']) ==
                  bool(h.get('pastcones') or h.get('futurecones')), 'axes',
                  f'cones in the axes; {what}')


def limits(ctx, rng, kw, want, C, d, R, dims):
    '''Chooses axis limits; returns the expected ones.'''
    k = rng.random()
    is3d = len(dims) == 3
    if k < .3:
        L = {}
        for a in ('xlim', 'ylim', 'zlim')[:len(dims)]:
            lo = round(rng.uniform(-5, 2), 2)
            L[a] = (lo, lo + round(rng.uniform(.5, 6), 2))
        kw['axislim'] = L
        return [L[a] for a in ('xlim', 'ylim', 'zlim')[:len(dims)]]
    if k < .6 and (C is not None or rng.random() < .5):
        S = C.Shape if C is not None else None
        if C is None:
            dd, name, kws, R = random_shape(rng, (d,))
            S = CoordinateShape(d, name, **kws)
            kw['shape'] = S
        elif rng.random() < .3:
            kw['shape'] = S
        kw['axislim'] = 'shape'
        if C is None and rng.random() < .5:
            del kw['axislim']
        if R is None:
            lim = [tuple(S.Limits(i)) for i in dims]
            ctr, half = list(S.Center), [(b - a) / 2 for a, b in lim]
        else:
            ctr = list(R.center)
            half = [R.halfwidth(i) for i in dims]
        if is3d:
            half = [max(half)] * 3
        return [(ctr[i] - w, ctr[i] + w) for i, w in zip(dims, half)]
    return None


def judge_limits(ctx, ax, lims, dims, what):
    got = [ax.get_xlim(), ax.get_ylim()]
    if len(dims) == 3:
        got.append(ax.get_zlim())
    for g, w in zip(got, lims):
        ctx.check(abs(g[0] - w[0]) < 1e-6 * (1 + abs(w[0])) and
                  abs(g[1] - w[1]) < 1e-6 * (1 + abs(w[1])), 'limits',
                  lambda: f'{got}, expected {lims}; {what}')


def choose_events(rng, C):
    '''(argument, events in order, spacetime argument needed)'''
    k = rng.random()
    events = list(C)
    if k < .5 or not events:
        return C, events, False
    if k < .7:
        rng.shuffle(events)
        return events, events, True
    if k < .9:
        sub = rng.sample(events, rng.randint(1, len(events)))
        return sub, sub, True
    e = rng.choice(events)
    return e, [e], True


def judge_static(ctx, h, new, want, events, P, is3d, what, scale):
    '''P: plotted points of the events.'''
    n = len(events)
    links = [(i, j) for i in range(n) for j in range(i + 1, n)
             if is_link(events[i], events[j])]
    drawn = []
    for key in ('links', 'events', 'labels'):
        ctx.equal(key in h, key in want, 'requested', f'{key}; {what}')
    if 'events' in want:
        got = flat_list(h['events'])
        drawn += got
        same_multiset(ctx, [points_of(l, is3d) for l in got],
                      [p.reshape(1, -1) for p in P], 'event', what, scale)
        for l, i in zip(got, range(n)):
            # in the order of the events
            ctx.check(near(points_of(l, is3d)[0], P[i], scale), 'event',
                      lambda: f'artist {i}; {what}')
            check_style(ctx, l, 'events', want['events'], what)
    if 'labels' in want:
        got = flat_list(h['labels'])
        ctx.equal(len(got), n, 'label', what)
        for t, e, p in zip(got, events, P):
            ctx.equal(t.get_text().strip(), str(e.Label), 'label', what)
            ctx.check(near(text_position(t, is3d), p, scale), 'label',
                      lambda: f'{t}; {what}')
            check_style(ctx, t, 'labels', want['labels'], what)
        ctx.equal([id(t) for t in new['texts']], [id(t) for t in got],
                  'axes', 'labels; ' + what)
    else:
        ctx.equal(len(new['texts']), 0, 'axes', 'labels; ' + what)
    if 'links' in want:
        got = flat_list(h['links'])
        drawn += got
        ctx.equal(len(got), len(links), 'link', 'number of links; ' + what)
        rest = list(links)
        for l in got:
            Q = points_of(l, is3d)
            ctx.n['monitor:link'] += 1
            for k, (i, j) in enumerate(rest):
                if covers_segment(Q, P[i], P[j], scale):
                    del rest[k]
                    break
            else:
                ctx.check(False, 'link', lambda: f'line {Q.tolist()} is no '
                          f'link, missing '
                          f'{[(P[i].tolist(), P[j].tolist()) for i, j in rest[:5]]}'
                          f'; {what}')
            if len(Q) > 2:
                ctx.count('on_link')
                ctx.count('on_link_3d', is3d)
                # marked at the other events that it passes through
                me = list(l.get_markevery() or [])
                others = [P[m] for m in range(n) if m not in (i, j)]
                ctx.check(len(set(me)) == len(Q) - 2 and all(
                    any(near(Q[m], p, scale) for p in others) for m in me),
                    'linkmarker', lambda: f'markers {me} of {Q.tolist()}; '
                    f'{what}')
                # drawn once from one end to the other
                ctx.close(float(np.linalg.norm(np.diff(Q, axis=0),
                                               axis=1).sum()),
                          float(np.linalg.norm(Q[-1] - Q[0])), 'link',
                          1e-6, 1e-6 * scale,
                          lambda: f'length of {Q.tolist()}; {what}')
            else:
                ctx.check(not l.get_markevery(), 'linkmarker',
                          lambda: f'marker of the link visible; {what}')
            on = sum(m not in (i, j) and on_segment(P[m], P[i], P[j])
                     for m in range(n))
            ctx.check(len(Q) >= 2 + on, 'linkmarker', lambda: f'{on} events '
                      f'lie on the link {Q.tolist()}; {what}')
            check_style(ctx, l, 'links', want['links'], what)
    ctx.equal({id(a) for a in new['lines']}, {id(a) for a in drawn}, 'axes',
              'lines; ' + what)
    return links


def on_segment(q, a, b):
    '''Lies (without any doubt) on the segment.'''
    if not ((np.minimum(a, b) <= q) & (q <= np.maximum(a, b))).all():
        return False
    n2 = float((b - a) @ (b - a))
    s = float((q - a) @ (b - a)) / n2 if n2 else 0.0
    return np.abs(q - a - s * (b - a)).max() <= 1e-12


def covers_segment(Q, a, b, scale):
    '''All vertices lie on the segment, and both ends are there.'''
    ab = b - a
    n2 = float(ab @ ab)
    # collinearity is judged by the library relative to the length
    tol = TOL * scale + 1e-6 * math.sqrt(n2)
    has = [False, False]
    for q in Q:
        if (np.abs(q - a) <= TOL * scale).all():
            has[0] = True
        if (np.abs(q - b) <= TOL * scale).all():
            has[1] = True
        if n2 == 0.0:
            d = q - a
        else:
            s = min(1.0, max(0.0, float((q - a) @ ab) / n2))
            d = q - (a + s * ab)
        if np.abs(d).max() > tol:
            return False
    return has[0] and has[1]


def embedded(ctx, rng, index):
    with Restored(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        M, d, rows, lattice, cones = spacetime_scene(rng)
        C, R = make_causet(ctx, rng, M, d, rows)
        arg, events, needs = choose_events(rng, C)
        kw, want, dims = options(rng, d)
        cone_options(rng, kw, want, cones_ok(M, dims, len(events)) and cones)
        if rng.random() < .3:
            kw['linkgapsize'] = rng.choice([0.0, 3.0, 5.0])
        if len(dims) == 3 and not needs and rng.random() < .2:
            pass
        isC = isinstance(arg, EmbeddedCauset)
        lims = limits(ctx, rng, kw, want, C if isC else None, d,
                      R if isC else None, dims)
        aspect = None
        if rng.random() < .3:
            aspect = rng.choice([['auto', 'box'], ['equal', 'datalim'],
                                 [2.0, 'box']])
            kw['aspect'] = aspect
        is3d = len(dims) == 3
        scheme = set_scheme(rng)
        slices = [0.0, 0.0]
        tk = rng.random()
        if tk < .35:
            t = rng.choice([.5, -1, rng.uniform(-2, 2), np.float64(.25), 0])
            kw['time'] = t
            slices = [t, t]
        elif tk < .7:
            t = rng.choice([[-1.0, 1.0], [rng.uniform(-2, 2)],
                            [rng.uniform(-2, 2), rng.uniform(-2, 2)]])
            slices = [t[0], t[-1]]
            kw['time'] = rng.choice([list, tuple, np.array])(t)
        if needs:
            kw['spacetime'] = M
        what = f'{M!r} dims {dims} {len(events)} events {kw} {scheme}'
        ctx.describe((repr(M), tuple(dims), len(events),
                      tuple(sorted(kw)), lattice, index % 97),
                     nontrivial=False)
        before = snapshot(events)
        givens = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
        current = rng.random() < .1
        ax = draw(ctx, rng, kw, is3d, current)
        if ax is None:
            ctx.count('current_axes')
            h = ctx.call('plot', cp.plot, arg, **kw)
            ctx.equal(len(plt.gcf().axes), 1, 'axes', what)
            ax = plt.gca()
        elif rng.random() < .5:
            h = ctx.call('plot', cp.plot, arg, ax, **kw)
        else:
            kk = {k: v for k, v in kw.items() if k != 'time'}
            f = ctx.call('Plotter', cp.Plotter, arg, ax, **kk)
            ctx.equal(len(ax.lines) + len(ax.texts) + len(ax.patches) +
                      len(ax.collections), 0, 'axes',
                      'before plotting; ' + what)
            tt = kw.get('time', 0.0)
            if isinstance(tt, (int,)):
                tt = float(tt)
            h = ctx.call('Plotter()', f, tt)
        new = Artists(ax).new()
        ctx.equal(snapshot(events), before, 'state', what)
        for k, v in givens.items():
            ctx.equal(kw[k], v, 'state', f'option {k}; {what}')
        coords = [np.array(e.Coordinates, dtype=float) for e in events]
        P = [c[dims] for c in coords]
        scale = 1 + max((np.abs(c).max() for c in coords), default=0.0)
        links = judge_static(ctx, h, new, want, events, P, is3d, what, scale)
        judge_cones(ctx, h, new, kw, want, events, coords, dims, M, slices,
                    what)
        if lims is not None:
            judge_limits(ctx, ax, lims, dims, what)
        if not is3d:
            a = ax.get_aspect()
            if aspect is None:
                ctx.check(a in (1.0, 'equal'), 'aspect', f'{a}; {what}')
            else:
                ctx.check(a == aspect[0] or (aspect[0] == 'equal' and
                                             a == 1.0), 'aspect',
                          f'{a}; {what}')
                ctx.equal(ax.get_adjustable(), aspect[1], 'aspect', what)
        else:
            ctx.count('3d')
        ctx.equal(set(h), set(want), 'requested', what)
        ctx.nontrivial = bool(links) and ('links' in want)


def dynamic(ctx, rng, index):
    with Restored(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        M, d, rows, lattice, cones = spacetime_scene(
            rng, rng.choice([3, 6, 10, 14]))
        C, R = make_causet(ctx, rng, M, d, rows)
        arg, events, needs = choose_events(rng, C)
        kw, want, dims = options(rng, d)
        is3d = len(dims) == 3
        T = rng.choice([-1, 1]) * rng.choice([.4, .8, 1.5, 3])
        kw['timedepth'] = T
        fade = 'linear'
        if rng.random() < .7:
            fade = rng.choice(['linear', 'exponential', 'intensity'])
            kw['timefade'] = fade
        cone_options(rng, kw, want, cones_ok(M, dims, len(events)) and cones and
                     rng.random() < .3)
        if needs:
            kw['spacetime'] = M
        what = f'{M!r} dims {dims} {len(events)} events {kw}'
        ctx.describe((repr(M), tuple(dims), len(events), tuple(sorted(kw)),
                      T, fade, index % 97), nontrivial=False)
        ax = draw(ctx, rng, kw, is3d)
        f = ctx.call('Plotter', cp.Plotter, arg, ax, **kw)
        watch = Artists(ax)
        coords = [np.array(e.Coordinates, dtype=float) for e in events]
        P = [c[dims] for c in coords]
        scale = 1 + max((np.abs(c).max() for c in coords), default=0.0)
        n = len(events)
        links = [(i, j) for i in range(n) for j in range(i + 1, n)
                 if is_link(events[i], events[j])]
        amax = want.get('events', {}).get('alpha', 1.0)
        wmax = want.get('links', {}).get('linewidth', 2.0)
        before = snapshot(events)
        D = {len(dims) - 1, d - 1}
        for k in range(rng.choice([1, 2, 3])):
            t = rng.choice([rng.uniform(-1.5, 1.5), 0.0, .25, -.5])
            tt = rng.choice([t, [t], [t, t + .3], np.array([t, t])])
            slices = [t, tt[-1] if not isinstance(tt, float) else t]
            w2 = f'slice {tt} #{k} of {what}'
            h = ctx.call('Plotter()', f, tt)
            new = watch.new()
            ctx.equal(snapshot(events), before, 'state', w2)
            ctx.equal(set(h), set(want), 'requested', w2)
            dist = [c[0] - t for c in coords]
            vis = [math.copysign(1, T) * x >= 0 and
                   (fade != 'linear' or abs(x) < abs(T)) for x in dist]
            unsure = [fade == 'linear' and abs(abs(x) - abs(T)) < 1e-9
                      for x in dist]
            if any(unsure):
                continue
            drawn = []
            if 'events' in want:
                ctx.equal(len(h['events']), n, 'event', w2)
                for i, a in enumerate(h['events']):
                    ctx.n['monitor:event'] += 1
                    ctx.check((a is not None) == vis[i], 'event',
                              lambda: f'event {i} at distance {dist[i]} '
                              f'visible: {a is not None}; {w2}')
                    if a is None:
                        ctx.count('hidden_events')
                        continue
                    l, = flat_list([a])
                    drawn.append(l)
                    ctx.check(near(points_of(l, is3d)[0], P[i], scale),
                              'event', lambda: f'event {i}; {w2}')
                    ctx.check(fade_ok(l.get_alpha(), amax, fade, T, dist[i],
                                      D), 'fade', lambda:
                              f'{l.get_alpha()} at distance {dist[i]}; {w2}')
                    check_style(ctx, l, 'events', want['events'], w2, True)
            if 'labels' in want:
                ctx.equal(len(h['labels']), n, 'label', w2)
                for i, a in enumerate(h['labels']):
                    ctx.check((a is not None) == vis[i], 'label',
                              lambda: f'label {i}; {w2}')
                    if a is not None:
                        ctx.equal(a.get_text().strip(),
                                  str(events[i].Label), 'label', w2)
                        ctx.check(near(text_position(a, is3d), P[i], scale),
                                  'label', lambda: f'label {i}; {w2}')
                        check_style(ctx, a, 'labels', want['labels'], w2)
            ctx.equal({id(a) for a in new['texts']},
                      {id(a) for a in flat_list(h.get('labels', []))},
                      'axes', 'labels; ' + w2)
            if 'links' in want:
                got = flat_list(h['links'])
                drawn += got
                expect, optional = [], []
                for i, j in links:
                    cut = None
                    if vis[i] and vis[j]:
                        far = max(dist[i], dist[j], key=abs)
                        expect.append((P[i], P[j], False, far))
                        continue
                    if vis[i] != vis[j]:
                        a, b = (i, j) if vis[i] else (j, i)
                        if dist[b] * T < 0:
                            s = dist[a] / (dist[a] - dist[b])
                            cut = P[a] + s * (P[b] - P[a])
                            if abs(s) > 1e-9:
                                expect.append((P[a], cut, True, dist[a]))
                            else:
                                optional.append((P[a], cut, True,
                                                 dist[a]))
                            continue
                    ctx.count('hidden_links')
                left = len(got) - len(expect)
                ctx.check(0 <= left <= len(optional), 'link',
                          lambda: f'{len(got)} links drawn, expected '
                          f'{len(expect)}; {w2}')
                pool = expect + optional
                for l in got:
                    Q = points_of(l, is3d)
                    ctx.n['monitor:link'] += 1
                    hit = None
                    me = list(l.get_markevery() or [])
                    # links may lie upon each other: prefer the same marks
                    # and the same opacity
                    pool.sort(key=lambda x: (x[2] != bool(me), not fade_ok(
                        l.get_alpha(), amax, fade, T, x[3], D)))
                    for m, (a, b, c, far) in enumerate(pool):
                        if near(Q[[0, -1]], np.array([a, b]), scale) or \
                                near(Q[[0, -1]], np.array([b, a]), scale):
                            hit = (a, b, c, far)
                            del pool[m]
                            break
                    ctx.check(hit is not None, 'link', lambda: f'line '
                              f'{Q.tolist()} is no visible link; {w2}')
                    if hit[2]:
                        ctx.equal(me, [1], 'cut', w2)
                        ctx.check(near(Q[1], hit[1], scale), 'cut',
                                  lambda: f'marker at {Q[1]}; {w2}')
                    else:
                        ctx.check(not me, 'whole', lambda: f'markers {me} '
                                  f'of a whole link; {w2}')
                    ctx.check(0 < l.get_linewidth() <= wmax * (1 + 1e-9),
                              'fadedlink', lambda: f'{l.get_linewidth()}; '
                              f'{w2}')
                    if abs(hit[3]) > 1e-12:
                        ctx.check(fade_ok(l.get_linewidth(), wmax, fade, T,
                                          hit[3], D), 'fadedlink', lambda:
                                  f'width {l.get_linewidth()} of a link '
                                  f'whose outer event has distance {hit[3]};'
                                  f' {w2}')
                    ctx.check(fade_ok(l.get_alpha(), amax, fade, T, hit[3],
                                      D), 'fadedlink', lambda:
                              f'alpha {l.get_alpha()} of a link whose '
                              f'outer event has distance {hit[3]}; {w2}')
                    check_style(ctx, l, 'links', want['links'], w2, True)
            ctx.equal({id(a) for a in new['lines']}, {id(a) for a in drawn},
                      'axes', 'lines; ' + w2)
            judge_cones(ctx, h, new, kw, want, events, coords, dims, M,
                        slices, w2)
            ctx.nontrivial = ctx.nontrivial or bool(links)
        if is3d:
            ctx.count('3d')


def gaps(ctx, rng, index):
    '''Events that lie on the plot of a link, but not in between.'''
    with Restored(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = rng.choice([3, 4, 4])
        hidden = rng.randrange(d)
        dims = [m for m in range(d) if m != hidden]
        rng.shuffle(dims)
        a = [rng.randint(-3, 3) / 2 for _ in range(d)]
        v = [0.0] * d
        while not any(v[m] for m in dims):
            v = [rng.choice([2.0, 4.0])] + [rng.choice([0.0, 1.0, -1.0, .5])
                                            for _ in range(d - 1)]
        rows = [a, [x + y for x, y in zip(a, v)]]
        if rng.random() < .3:   # a second link
            rows.append([x + 8 * (m == 0) for m, x in enumerate(a)])
        for f in rng.sample([.25, .5, .75, .125, 1.5, -.5],
                            rng.choice([1, 2, 3, 4])):
            c = [x + f * y for x, y in zip(a, v)]
            if rng.random() < .2:   # next to the link
                c[rng.choice(dims)] += rng.choice([-.25, .25])
            c[hidden] += rng.choice([-1, 1]) * rng.choice([32, 64])
            rows.append(c)
        flat = [m for m in dims if m and not v[m]]
        if flat and rng.random() < .5:  # with rounding errors
            m = rng.choice(flat)
            y = rng.choice([(.3, .1 + .2), (.1 + .2, .3)])
            for r in rows[2:]:
                if r[m] == a[m]:
                    r[m] = rng.choice(y)
            rows[0][m], rows[1][m] = y
            ctx.count('gaps_rounded')
        unit = rng.choice([1.0, 1.0, 2.0**-16, 2.0**-12, 2.0**14])
        ctx.count('gaps_scaled', unit != 1.0)
        rows = [[unit * x for x in r] for r in rows]
        rng.shuffle(rows)
        M = st.FlatSpacetime(d)
        C = ctx.call('EmbeddedCauset', EmbeddedCauset, M, coordinates=rows)
        events = list(C)
        rng.shuffle(events)
        _, want, _ = options(rng, d)
        kw = {k: (want[k] or True) if k in want else False
              for k in ('links', 'events', 'labels')}
        kw['dims'] = list(dims)
        if rng.random() < .5:
            kw['linkgapsize'] = rng.choice([0.0, 3.0])
        is3d = len(dims) == 3
        what = f'{rows} dims {dims} {kw}'
        ctx.describe(('gaps', tuple(map(tuple, rows)), tuple(dims)))
        ax = draw(ctx, rng, kw, is3d)
        h = ctx.call('plot', cp.plot, events, ax, spacetime=M, **kw)
        P = [np.array(e.Coordinates, dtype=float)[dims] for e in events]
        judge_static(ctx, h, Artists(ax).new(), want, events, P, is3d, what,
                     70.0 * unit)


def fade_ok(got, amax, fade, T, x, D):
    '''The opacity of an event at the distance x from the slice.'''
    x, T2 = abs(x), abs(T)
    if fade == 'linear':
        ok = [amax * (1 - x / T2)]
    elif fade == 'exponential':
        ok = [amax * math.exp(-x / T2), amax * 2**(-x / T2)]
    elif T > 0:
        ok = [amax / (1 + x)**k for k in D]
    else:
        return 0 < got <= amax
    return any(abs(got - a) <= 1e-9 for a in ok)


def diagram(ctx, rng, index):
    '''Hasse diagrams: positions instead of coordinates.'''
    with Restored(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        n = rng.choice([0, 1, 2, 5, 8, 12])
        p, kind = random_poset(rng, n)
        ev, route = build(rng, p)
        grid = rng.random() < .5
        for e in ev:
            if rng.random() < .9:
                e.Position = [rng.randint(-3, 3) * 1.0, rng.randint(-3, 3) *
                              1.0] if grid else [rng.uniform(-2, 2),
                                                 rng.uniform(-2, 2)]
            if rng.random() < .3:
                e.embed([7.0, 7.0, 7.0])
        events = list(ev)
        rng.shuffle(events)
        kw, want, dims = options(rng, 2, False)
        perm = None
        usediagram = rng.random() < .6
        if usediagram and rng.random() < .6:
            perm = list(range(1, n + 1))
            rng.shuffle(perm)
            if rng.random() < .2:
                perm = perm[:-1]    # another length: no permutation
        cone_options(rng, kw, want, rng.random() < .4)
        arg = events[0] if n == 1 and rng.random() < .5 and not usediagram \
            else events
        what = f'{p.describe()} by {route} perm {perm} {kw}'
        ctx.describe((p.describe(), route, str(perm), tuple(sorted(kw))),
                     nontrivial=False)
        before = snapshot(events)
        current = usediagram and rng.random() < .3
        if current:
            # the current axes unless others are given
            plt.close('all')
            plt.figure()
            plotto = None
        else:
            ax = plotto = Figure().add_subplot()
        if usediagram:
            if perm is not None and rng.random() < .5:
                h = ctx.call('plotDiagram', cp.plotDiagram, events,
                             permutation=perm, plotAxes=plotto, **kw)
            else:
                h = ctx.call('plotDiagram', cp.plotDiagram, events,
                             perm or [], plotto, **kw)
            if current:
                ctx.count('current axes')
                ctx.equal(len(plt.gcf().axes), 1, 'axes', what)
                ax = plt.gca()
            ctx.check(not ax.axison, 'axes', 'axis not off: ' + what)
        else:
            h = ctx.call('plot', cp.plot, arg, ax, **kw)
            ctx.check(ax.axison, 'axes', 'axis off: ' + what)
        after = snapshot(events)
        ctx.equal([s[1:] for s in after], [s[1:] for s in before], 'state',
                  what)
        if perm is not None and len(perm) == n:
            # light-cone coordinates (i, perm[i]): the position tells the
            # order of the permutation, later is to the future
            pos = [a[0] for a in after]
            ranks = {}
            for q in pos:
                ctx.equal(len(q), 2, 'position', what)
            us = sorted(range(n), key=lambda i: pos[i][0] + pos[i][1])
            vs = sorted(range(n), key=lambda i: pos[i][0] - pos[i][1])
            ranks = {i: (us.index(i), vs.index(i)) for i in range(n)}
            inv = [0] * n
            for v, q in enumerate(perm):
                inv[q - 1] = v
            exp = [(j, inv[j]) for j in range(n)]
            got = [ranks[i] for i in range(n)]
            exp2 = [(i, perm[i] - 1) for i in range(n)]
            mirror = [(b, a) for a, b in exp]
            mirror2 = [(b, a) for a, b in exp2]
            ctx.n['monitor:position'] += n
            ctx.check(got in (exp, mirror, exp2, mirror2), 'position',
                      lambda: f'ranks {got}, expected {exp}; {what}')
            for i in range(n):
                for j in range(i):
                    u = pos[i][0] + pos[i][1] - pos[j][0] - pos[j][1]
                    v = pos[i][0] - pos[i][1] - pos[j][0] + pos[j][1]
                    ctx.check(abs(u) > 1e-9 and abs(v) > 1e-9, 'position',
                              lambda: f'{i} and {j} on top of each other; '
                              f'{what}')
        else:
            ctx.equal([s[0] for s in after], [s[0] for s in before],
                      'position', what)
            ctx.n['monitor:position'] += n
        new = Artists(ax).new()
        coords = [np.array(e.Position, dtype=float) for e in events]
        P = [c[dims] for c in coords]
        scale = 1 + max((np.abs(c).max() for c in coords), default=0.0)
        links = judge_static(ctx, h, new, want, events, P, False, what,
                             scale)
        judge_cones(ctx, h, new, kw, want, events, coords, dims, None,
                    [0.0, 0.0], what)
        ctx.equal(set(h), set(want), 'requested', what)
        ctx.nontrivial = bool(links) and 'links' in want


def hasse(ctx, rng, index):
    '''The diagram of the causet of a permutation, labels in order, with this
    permutation: positions in causal order, every link drawn at them.'''
    with Restored(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        n = rng.choice([1, 2, 3, 4, 6, 9, 14, 25])
        perm = list(range(1, n + 1))
        kind = rng.randrange(4)
        if kind == 0:
            perm = perm[1:] + perm[:1]
        elif kind == 1:
            perm.reverse()
            perm = perm[-2:] + perm[:-2]
        else:
            rng.shuffle(perm)
        C = ctx.call('FromPermutation', Causet.FromPermutation, perm)
        events = ctx.call('sortedByLabels', C.sortedByLabels)
        what = f'diagram of the causet of permutation {perm}'
        ctx.describe(('hasse', str(perm)), nontrivial=False)
        where = [perm.index(u + 1) for u in range(n)]
        below = [[i < j and where[i] < where[j] for j in range(n)]
                 for i in range(n)]
        ax = Figure().add_subplot()
        form = rng.randrange(3)
        given = perm if form == 0 else tuple(perm) if form == 1 else \
            np.array(perm)
        kw, want, dims = options(rng, 2, False)
        h = ctx.call('plotDiagram', cp.plotDiagram, events, given, ax, **kw)
        X = [np.array(e.Position, dtype=float) for e in events]
        for i in range(n):
            ctx.equal(len(X[i]), 2, 'position', what)
            ctx.check(np.abs(X[i]).max() <= 1 + 1e-9, 'position',
                      lambda: f'{i + 1} at {X[i]} off the diagram; {what}')
            for j in range(n):
                if i == j:
                    continue
                d = X[j] - X[i]
                got = bool(d[0] > abs(d[1]))
                ctx.check(got == below[i][j], 'position', lambda:
                          f'{i + 1} at {X[i]}, {j + 1} at {X[j]}: in causal '
                          f'order {below[i][j]}; {what}')
        ctx.n['monitor:position'] += n * n
        new = Artists(ax).new()
        judge_static(ctx, h, new, want, events, [x[dims] for x in X], False,
                     what, 2.0)
        ctx.nontrivial = any(map(any, below))


def fading(ctx, rng, index):
    fade = rng.choice(['linear', 'exponential', 'intensity'])
    T = rng.choice([-1, 1]) * rng.choice([.1, 1.0, rng.uniform(.05, 10)])
    dim = rng.randint(2, 4)
    amax = rng.choice([1.0, .1, 2.0, rng.uniform(.01, 3)])
    what = f'{fade} dim {dim} depth {T} max {amax}'
    f = ctx.call('dynamic_parameter', cp.dynamic_parameter, fade, dim, T,
                 amax)
    ctx.describe((fade, dim, round(T, 3), round(amax, 3)))
    s = math.copysign(1, T)
    ctx.close(float(f(0.0)), amax, 'fade', 1e-12, 0, what)
    last = None
    for k in range(12):
        x = s * abs(T) * (k + rng.random()) / 4
        v = float(f(x))
        if fade == 'linear' and abs(x) >= abs(T):
            ctx.check(v <= 1e-12, 'fade', f'{v} at {x}; {what}')
        else:
            ctx.check(fade_ok(v, amax, fade, T, x, {dim - 1}), 'fade',
                      f'{v} at {x}; {what}')
        ctx.check(last is None or v <= last + 1e-15, 'fade',
                  f'not decreasing at {x}; {what}')
        last = v
        ctx.check(float(f(-x)) <= 0 or x == 0, 'fade',
                  f'visible on the wrong side {-x}; {what}')
    for bad in ([0], [0, 1, 2, 1], []):
        ctx.raises('refused', ValueError, cp.plot_parameters, dims=bad)
        ctx.raises('refused', ValueError, cp.plot, CausetEvent(),
                   Figure().add_subplot(), dims=bad)


WORKLOADS = [W(embedded, 520, 10400), W(dynamic, 440, 8800),
             W(diagram, 240, 4800), W(hasse, 60, 1200),
             W(fading, 80, 1600),
             W(gaps, 160, 3200)]
