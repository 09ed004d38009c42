'''A random history of public operations on real events, mirrored by a model
order.  Used by the order (C01) and link memory (C04) monitors.'''
from causets.causetevent import CausetEvent
from causets.causet import Causet
import model
from model import Poset, bits, mask, popcount, random_poset
from build import View, build, label_of


def down(p, m):
    r = m
    for i in bits(m):
        r |= p.past[i]
    return r


def up(p, m):
    r = m
    for i in bits(m):
        r |= p.fut[i]
    return r


class Machine:
    def __init__(self, ctx, rng, nmax=12, start=True):
        self.ctx, self.rng, self.nmax = ctx, rng, nmax
        n0 = model.SIZE or rng.randint(0, 6) if start else 0
        nmax += model.SIZE or 0
        self.nmax = nmax
        p, kind = random_poset(rng, n0)
        self.ev, route = build(rng, p, labels='int')
        self.p = p
        self.C = []            # list of [causet, member mask]
        self.ops = [f'start:{kind}:{route}:{p.describe()["links"]}']

    # -- helpers ------------------------------------------------------------
    def log(self, *x):
        self.ops.append(' '.join(str(y) for y in x))
        self.ctx.log(*x)

    def events(self, m):
        return [self.ev[i] for i in bits(m)]

    def container(self, m, once=False):
        ev = self.events(m)
        self.rng.shuffle(ev)
        k = self.rng.choice(['set', 'list', 'tuple'] + (['gen'] if once else
                                                        []))
        return {'set': set, 'list': list, 'tuple': tuple,
                'gen': lambda x: (e for e in x)}[k](ev)

    def subset(self, S=None, small=True):
        S = self.p.all if S is None else S
        if not S or self.rng.random() < .1:
            return 0
        k = self.rng.choice([1, 1, 2, 3]) if small else 99
        b = list(bits(S))
        return mask(self.rng.sample(b, min(k, len(b))))

    # -- operations ---------------------------------------------------------
    def op_new(self):
        p = self.p
        if p.n >= self.nmax:
            return self.op_disjoin()
        P = self.subset() if self.rng.random() < .8 else 0
        bad = down(p, P)
        ok = mask(i for i in range(p.n) if not (bad >> i) & 1)
        F = self.subset(ok) if self.rng.random() < .6 else 0
        kw = {}
        if P or self.rng.random() < .3:
            kw['past'] = self.container(P, once=True)
        if F or self.rng.random() < .3:
            kw['future'] = self.container(F, once=True)
        if self.rng.random() < .2:
            kw['coordinates'] = [0.5, 1.0]
        self.log('new', p.n, list(bits(P)), list(bits(F)))
        e = self.ctx.call('new', CausetEvent, label=label_of('int', p.n, 0),
                          **kw)
        p.add(P, F)
        self.ev.append(e)
        self.ctx.count('op:new')
        if P and F:
            self.ctx.count('op:new_between')

    def op_merge(self, disjoint=False):
        p = self.p
        if p.n < 2:
            return self.op_new()
        A = self.subset()
        if disjoint:
            B = self.subset()
        else:
            ok = mask(i for i in range(p.n)
                      if not (down(p, A) >> i) & 1)
            B = self.subset(ok)
        if self.rng.random() < .4 and not disjoint:
            A = down(p, A)      # closed sets, as two whole causets are
            B = up(p, B)
        self.log('merge', list(bits(A)), list(bits(B)), disjoint)
        a, b = self.container(A, once=True), self.container(B, once=True)
        C = self.ctx.call('merge', Causet.merge, a, b, disjoint) \
            if disjoint or self.rng.random() < .5 else \
            self.ctx.call('merge', Causet.merge, a, b)
        if not disjoint and A and B:
            p.relate_all(A, B)
        m = self.closure(A | B)
        self.ctx.equal(View(self.ev).m(C), m, 'merge:members',
                       lambda: f'merge {a} {b}')
        self.C.append([C, m])
        self.ctx.count('op:merge_disjoint' if disjoint else 'op:merge')

    def closure(self, m):
        r = 0
        for c in self.p.components(self.p.all):
            if c & m:
                r |= c
        return r

    def op_merge_disjoint(self):
        self.op_merge(disjoint=True)

    def op_disjoin(self):
        if not self.p.n:
            return self.op_new()
        i = self.rng.randrange(self.p.n)
        self.log('disjoin', i)
        self.ctx.call('disjoin', self.ev[i].disjoin)
        self.p.isolate(i)
        self.ctx.count('op:disjoin')

    def op_causet(self):
        m = self.subset(small=self.rng.random() < .7)
        self.log('causet', list(bits(m)))
        C = self.ctx.call('causet', Causet, set(self.events(m)))
        m = self.closure(m)
        self.ctx.equal(View(self.ev).m(C), m, 'causet:members', '')
        self.C.append([C, m])
        self.ctx.count('op:causet')

    def pick_causet(self):
        if not self.C:
            self.op_causet()
        return self.rng.choice(self.C)

    def op_add(self):
        c = self.pick_causet()
        m = self.subset()
        u = self.rng.random() < .5
        self.log('add', self.C.index(c), list(bits(m)), u)
        self.ctx.call('add', c[0].add, self.container(m, once=True), u)
        c[1] |= m
        self.ctx.equal(View(self.ev).m(c[0]), c[1], 'add:members', '')
        self.ctx.count('op:add')

    def op_discard(self):
        c = self.pick_causet()
        m = self.subset()
        u = self.rng.random() < .5
        self.log('discard', self.C.index(c), list(bits(m)), u)
        self.ctx.call('discard', c[0].discard, self.container(m, once=True),
                      u)
        c[1] &= ~m
        self.ctx.equal(View(self.ev).m(c[0]), c[1], 'discard:members', '')
        self.ctx.count('op:discard')

    def op_link(self):
        r = self.rng.random()
        if r < .5 and self.ev:
            i = self.rng.randrange(self.p.n)
            self.log('link', i)
            self.ctx.call('link', self.ev[i].link)
        else:
            c = self.pick_causet()
            self.log('causet.link', self.C.index(c))
            self.ctx.call('causet.link', c[0].link)
        self.ctx.count('op:link')

    def op_unlink(self):
        r = self.rng.random()
        if r < .5 and self.ev:
            i = self.rng.randrange(self.p.n)
            self.log('unlink', i)
            self.ctx.call('unlink', self.ev[i].unlink)
        else:
            c = self.pick_causet()
            self.log('causet.unlink', self.C.index(c))
            self.ctx.call('causet.unlink', c[0].unlink)
        self.ctx.count('op:unlink')

    def op_query(self):
        '''A link query, which fills the link memory of one event.'''
        if not self.ev:
            return
        i = self.rng.randrange(self.p.n)
        e = self.ev[i]
        q = self.rng.choice(['LinkPast', 'LinkFuture', 'LinkCone',
                             'LinkPastCard', 'LinkFutureCard',
                             'LinkConeCard'])
        self.log('query', q, i)
        self.ctx.call('query', getattr, e, q)
        self.ctx.count('op:query')

    def check_links(self, order=None):
        '''Every link query of every event against the model.'''
        ctx, p, v = self.ctx, self.p, View(self.ev)
        lp, lf = p.links()
        idx = list(range(p.n)) if order is None else order
        for i in idx:
            e = self.ev[i]

            def d():
                return f'event {i}, order {p.describe()}, history {self.ops}'
            ctx.equal(v.m(e.LinkPast), lp[i], 'links:past', d)
            ctx.equal(v.m(e.LinkFuture), lf[i], 'links:future', d)
            ctx.equal(v.m(e.LinkCone), lp[i] | lf[i], 'links:cone', d)
            ctx.equal((e.LinkPastCard, e.LinkFutureCard, e.LinkConeCard),
                      (popcount(lp[i]), popcount(lf[i]),
                       popcount(lp[i]) + popcount(lf[i])), 'links:cards', d)
        ctx.count('link_states_compared')

    def check_order(self):
        ctx, p, v = self.ctx, self.p, View(self.ev)
        for i, e in enumerate(self.ev):
            def d():
                return f'event {i}, order {p.describe()}, history {self.ops}'
            ctx.equal(v.m(e.Past), p.past[i], 'order:past', d)
            ctx.equal(v.m(e.Future), p.fut[i], 'order:future', d)
        ctx.count('orders_compared')


__all__ = ['Machine', 'Poset', 'down', 'up']
