'''Builds real events/causets for a model order, along many public routes.'''
import numpy as np
from causets.causetevent import CausetEvent
from causets.causet import Causet
import model
from core import W
from model import bits, mask, random_linear_extension

LABELS = ('int', 'int', 'int', 'str', 'str', 'rev', 'rev', 'none', 'same')


def label_of(scheme, i, n):
    if scheme == 'int':
        return i + 1
    if scheme == 'str':
        return f'e{i:03d}'
    if scheme == 'rev':
        return n - i
    if scheme == 'same':
        return 'x' if i % 2 else 'y'
    return None


def routes(p):
    return ['past_full', 'past_links', 'future_full', 'future_links',
            'insert', 'matrix_full', 'matrix_links', 'fmatrix_links',
            'premerged']


def build(rng, p, route=None, labels=None, touch=True):
    '''Returns (list of events indexed like the model, route). With `touch`,
    link memories of random events are filled on the way, so that later
    construction steps meet events with and without them.'''
    route = route or rng.choice(routes(p))
    scheme = labels or rng.choice(LABELS)
    n = p.n
    ev = [None] * n
    lp, lf = p.links()

    def poke():
        if touch and rng.random() < .3:
            made = [e for e in ev if e is not None]
            for e in rng.sample(made, min(len(made), rng.randint(1, 3))):
                rng.choice([lambda: e.LinkPast, lambda: e.LinkFuture,
                            lambda: e.link()])()

    def pick(m):
        return [ev[i] for i in bits(m)]

    if route in ('past_full', 'past_links'):
        src = p.past if route == 'past_full' else lp
        for i in random_linear_extension(rng, p):
            ev[i] = CausetEvent(label=label_of(scheme, i, n),
                                past=set(pick(src[i])))
            poke()
    elif route in ('future_full', 'future_links'):
        src = p.fut if route == 'future_full' else lf
        for i in reversed(random_linear_extension(rng, p)):
            ev[i] = CausetEvent(label=label_of(scheme, i, n),
                                future=set(pick(src[i])))
            poke()
    elif route == 'insert':
        order = list(range(n))
        rng.shuffle(order)
        done = 0
        for i in order:
            ev[i] = CausetEvent(label=label_of(scheme, i, n),
                                past=pick(p.past[i] & done),
                                future=pick(p.fut[i] & done))
            done |= 1 << i
            poke()
    elif route.startswith(('matrix', 'fmatrix')):
        src = p.past if route.endswith('full') else lp
        order = list(range(n))
        rng.shuffle(order)  # row k describes element order[k]
        pos = {e: k for k, e in enumerate(order)}
        M = np.zeros((n, n), dtype=bool)
        for b in range(n):
            for a in bits(src[b]):
                M[pos[b], pos[a]] = True
        if n == 0:
            return [], route
        C = Causet.FromPastMatrix(M) if route.startswith('matrix') \
            else Causet.FromFutureMatrix(M.T)
        for e in C:
            ev[order[e.Label - 1]] = e
        for i, e in enumerate(ev):
            e.Label = label_of(scheme, i, n)
    elif route == 'premerged':
        # a lower part and an upper part whose cross relations are complete
        # can be merged; otherwise fall back to insertion
        cut = None
        ext = random_linear_extension(rng, p)
        for k in range(1, n):
            low, high = mask(ext[:k]), mask(ext[k:])
            if all(p.past[b] & low == low for b in bits(high)):
                cut = k
                break
        if cut is None:
            return build(rng, p, 'insert', labels, touch)
        for i in ext[:cut]:
            ev[i] = CausetEvent(label=label_of(scheme, i, n),
                                past=pick(p.past[i]))
            poke()
        low = mask(ext[:cut])
        for i in ext[cut:]:
            ev[i] = CausetEvent(label=label_of(scheme, i, n),
                                past=pick(p.past[i] & ~low))
            poke()
        Causet.merge({ev[i] for i in ext[:cut]}, {ev[i] for i in ext[cut:]})
    return ev, route


def link_state(rng, ev, C=None):
    '''Puts the link memories into some state a user may have left them in.'''
    s = rng.choice(['none', 'some', 'all', 'causet', 'causet-unlink'])
    if s == 'some':
        for e in ev:
            if rng.random() < .5:
                e.link()
    elif s == 'all':
        for e in ev:
            e.link()
    elif s.startswith('causet'):
        C = C if C is not None else Causet(set(ev))
        C.link()
        if s.endswith('unlink'):
            C.unlink()
    return s


class View:
    '''Maps between real events and model indices.'''

    def __init__(self, ev):
        self.ev = ev
        self.idx = {id(e): i for i, e in enumerate(ev)}

    def m(self, events):
        '''Mask of a collection of events; -1 if it holds a stranger or a
        duplicate.'''
        r = 0
        try:
            for e in events:
                i = self.idx.get(id(e))
                if i is None or (r >> i) & 1:
                    return -1
                r |= 1 << i
        except TypeError:
            return -2
        return r

    def i(self, e):
        return self.idx.get(id(e), -1)

    def s(self, m):
        return {self.ev[i] for i in bits(m)}

    def l(self, m):
        return [self.ev[i] for i in bits(m)]


def observed_order(ev):
    '''The relation the public Past/Future report, as masks.'''
    v = View(ev)
    return [v.m(e.Past) for e in ev], [v.m(e.Future) for e in ev]


def assert_order(ctx, ev, p, where, kind='order'):
    '''Monitor: the events report exactly the model's order, mirrored.'''
    v = View(ev)
    for i, e in enumerate(ev):
        ctx.equal(v.m(e.Past), p.past[i], kind + ':past',
                  lambda: f'Past of {i} after {where}; model {p.describe()}')
        ctx.equal(v.m(e.Future), p.fut[i], kind + ':future',
                  lambda: f'Future of {i} after {where}; '
                          f'model {p.describe()}')
    ctx.count('orders_compared')


def assert_links(ctx, ev, p, where, order=None, kind='links'):
    v = View(ev)
    lp, lf = p.links()
    for i in (order if order is not None else range(len(ev))):
        ctx.equal(v.m(ev[i].LinkPast), lp[i], kind + ':past',
                  lambda: f'LinkPast of {i} after {where}; {p.describe()}')
        ctx.equal(v.m(ev[i].LinkFuture), lf[i], kind + ':future',
                  lambda: f'LinkFuture of {i} after {where}; {p.describe()}')


def large(fn, quick, thorough, lo=30, hi=70, suffix='_large'):
    '''The same workload with large orders: whatever depends on a size.'''
    def run(ctx, rng, index):
        model.SIZE = rng.randint(lo, hi)
        try:
            fn(ctx, rng, index)
            ctx.count(suffix[1:])
        finally:
            model.SIZE = None
    return W(run, quick, thorough, fn.__name__ + suffix, sized=True)


def huge(fn, quick=8, thorough=160, kinds=None):
    '''Beyond any count that fits into eight bit.'''
    w = large(fn, quick, thorough, 256, 300, '_huge')
    if kinds is None:
        return w

    def run(ctx, rng, index):
        model.KINDS = kinds
        try:
            w.fn(ctx, rng, index)
        finally:
            model.KINDS = None
    return W(run, quick, thorough, w.name, sized=True)


# orders of which the number of paths does not grow exponentially
SLIM = ['sandwich', 'sandwich', 'antichain', 'tree']


class Scene:
    pass


def scene(ctx, rng, big=False, kind=None, labels=None, n=None, link=True,
          route=None, sig=None):
    '''A random order, real events for it, their causet and a link state.'''
    from model import random_poset, random_size
    s = Scene()
    size = random_size(rng, big) if n is None or model.SIZE else n
    s.p, s.kind = random_poset(rng, size, kind)
    s.route = route or rng.choice(routes(s.p))
    s.labels = labels or rng.choice(LABELS)
    ctx.describe((s.kind, s.route, s.labels, s.p.describe()),
                 nontrivial=s.p.relations() > 0)
    s.ev, s.route = ctx.call('build', build, rng, s.p, s.route, s.labels)
    s.v = View(s.ev)
    s.C = ctx.call('causet', Causet, set(s.ev))
    s.state = link_state(rng, s.ev, s.C) if link else 'untouched'
    ctx.count('orders_built')
    return s
