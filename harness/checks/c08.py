'''C08: a causet behaves as a set of events.'''
from causets.causet import Causet
from causets.causetevent import CausetEvent
from core import W
from build import View, scene, huge, large
from model import bits, mask, popcount, random_poset, random_subset

RULE = ('algebra: random causets and operands (set, frozenset, list with '
        'repetitions, tuple, generator, causet; members and strangers) '
        'through every operator on either side and every named method '
        'against Python sets; closure: causets built from parts of orders; '
        'mutation: random add/discard histories of several causets that '
        'share events, with aliases watched. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: a non-empty causet '
        'and operand.')
REQUIRED = {'large': 20, 'huge': 8, 'monitor:op': 2000, 'monitor:rop': 500, 'monitor:find': 300,
            'monitor:closure': 200, 'monitor:alias': 1000}


def operand(rng, ev, m, C2=None):
    L = [ev[i] for i in bits(m)]
    rng.shuffle(L)
    k = rng.choice(['set', 'frozenset', 'list', 'dup', 'tuple', 'gen'])
    return k, {'set': lambda: set(L), 'frozenset': lambda: frozenset(L),
               'list': lambda: list(L), 'dup': lambda: L + L[:2],
               'tuple': lambda: tuple(L),
               'gen': lambda: (e for e in L)}[k]()


def algebra(ctx, rng, index):
    s = scene(ctx, rng, link=False)
    t = scene(ctx, rng, link=False, n=rng.randint(0, 4))
    ev = s.ev + t.ev
    v = View(ev)
    n = len(ev)
    S = s.p.all
    C = s.C
    allm = (1 << n) - 1
    for _ in range(6):
        m = random_subset(rng, allm)
        k, o = operand(rng, ev, m)
        ops = {'-': S & ~m, '|': S | m, '&': S & m, '^': S ^ m}
        for op, want in ops.items():
            k, o = operand(rng, ev, m)
            got = ctx.call('op', {'-': lambda: C - o, '|': lambda: C | o,
                                  '&': lambda: C & o, '^': lambda: C ^ o}[op])

            def d():
                return f'causet {list(bits(S))} {op} {k} {list(bits(m))}'
            ctx.check(isinstance(got, set), 'op', d)
            ctx.equal(v.m(got), want, 'op', d)
            got.clear()
        rops = {'-': m & ~S, '|': S | m, '&': S & m, '^': S ^ m}
        for op, want in rops.items():
            k, o = operand(rng, ev, m)
            got = ctx.call('rop', {'-': lambda: o - C, '|': lambda: o | C,
                                   '&': lambda: o & C, '^': lambda: o ^ C}[op])

            def d():
                return f'{k} {list(bits(m))} {op} causet {list(bits(S))}'
            ctx.equal(v.m(got), want, 'rop', d)
        for name, want in (('difference', S & ~m), ('intersection', S & m),
                           ('symmetric_difference', S ^ m),
                           ('union', S | m)):
            k, o = operand(rng, ev, m)
            got = ctx.call('method', getattr(C, name), o)
            ctx.check(isinstance(got, set), 'op', name)
            ctx.equal(v.m(got), want, 'op', lambda: f'{name} {k}')
            got.clear()
        ctx.equal(v.m(C), S, 'alias', 'set algebra changed the causet')
    # causet with causet
    D = t.C
    T = allm & ~S
    for a, b, A, B in ((C, D, S, T), (D, C, T, S), (C, C, S, S)):
        ctx.equal(v.m(a - b), A & ~B, 'op', 'causet - causet')
        ctx.equal(v.m(a | b), A | B, 'op', 'causet | causet')
        ctx.equal(v.m(a & b), A & B, 'op', 'causet & causet')
        ctx.equal(v.m(a ^ b), A ^ B, 'op', 'causet ^ causet')
        ctx.equal(v.m(a.union(b)), A | B, 'op', 'causet.union(causet)')
        ctx.equal(v.m(a.difference(b)), A & ~B, 'op', 'causet.difference')
    for i, e in enumerate(ev):
        ctx.equal(e in C, bool((S >> i) & 1), 'contains', f'{i}')
        ctx.equal(e in D, not (S >> i) & 1, 'contains', f'{i}')
    ctx.equal(C.Card, popcount(S), 'card', '')
    ctx.equal(Causet.len(C), popcount(S), 'card', '')
    ctx.equal(v.m(iter(C)), S, 'iter', '')
    ctx.equal(len(list(C)), popcount(S), 'iter', '')


def finding(ctx, rng, index):
    '''find, findAny and findAll with repeated, missing and odd labels.'''
    s = scene(ctx, rng, link=False)
    labels = [1, 2, 'a', 'b', None, 3.5, (1, 2), 'x y']
    for e in s.ev:
        e.Label = rng.choice(labels)
    for _ in range(6):
        ask = [rng.choice(labels + ['zz', 99])
               for _ in range(rng.randint(0, 4))]
        want = mask(i for i, e in enumerate(s.ev) if e.Label in ask)

        def d():
            return f'{ask} among {[e.Label for e in s.ev]}'
        ctx.equal(s.v.m(ctx.call('findAll', s.C.findAll, *ask)), want,
                  'find', d)
        ctx.equal(s.v.m(list(ctx.call('findAny', s.C.findAny, *ask))), want,
                  'find', d)
        lab = rng.choice(labels + ['zz', 99])
        have = [e for e in s.ev if e.Label == lab]
        if have:
            e = ctx.call('find', s.C.find, lab)
            ctx.check(any(e is x for x in have), 'find', d)
        else:
            ctx.raises('find', ValueError, s.C.find, lab)


def closure(ctx, rng, index):
    s = scene(ctx, rng, link=False)
    m = random_subset(rng, s.p.all, rng.choice([.1, .3, .7]))
    want = 0
    for c in s.p.components(s.p.all):
        if c & m:
            want |= c
    arg = s.v.s(m)
    C = ctx.call('Causet', Causet, arg)
    ctx.equal(s.v.m(C), want, 'closure',
              lambda: f'{list(bits(m))} of {s.p.describe()}')
    ctx.equal(s.v.m(arg), m, 'alias', 'the argument was changed')
    # the argument and the causet are independent afterwards
    extra = CausetEvent(label='extra')
    arg.add(extra)
    ctx.check(extra not in C, 'alias', 'argument shared with the causet')
    C.add({extra})
    D = ctx.call('Causet', Causet, s.v.s(m))
    ctx.check(extra not in D, 'alias', 'causets share their events')
    C.discard(list(C))
    ctx.equal(s.v.m(D), want, 'alias', 'discard changed another causet')
    # a fully closed set is not aliased either
    full = s.v.s(s.p.all)
    E = Causet(full)
    E.discard(s.ev[:1])
    ctx.equal(s.v.m(full), s.p.all, 'alias', 'argument shared')
    ctx.equal(Causet().Card, 0, 'alias', 'Causet() is not empty')
    Causet().add(s.ev)
    ctx.equal(Causet().Card, 0, 'alias', 'Causet() is not empty any more')


def mutation(ctx, rng, index):
    s = scene(ctx, rng)
    t = scene(ctx, rng, n=rng.randint(0, 5))
    ev = s.ev + t.ev
    v = View(ev)
    allm = (1 << len(ev)) - 1
    cs = [[Causet(set(s.ev)), s.p.all],
          [Causet(set(t.ev)), allm & ~s.p.all],
          [Causet(), 0]]
    hist = []
    for _ in range(rng.randint(2, 12)):
        c = rng.choice(cs)
        op = rng.choice(['add', 'discard'])
        m = random_subset(rng, allm)
        r = rng.random()
        if r < .2:
            other = rng.choice(cs)
            k, o, m = 'causet', other[0], other[1]
            if other is c:
                k, o = 'self', rng.choice([c[0], getattr(c[0], '_events', c[0])]) \
                    if hasattr(c[0], '_events') else c[0]
                o = list(o) if op == 'discard' else set(o)
        else:
            k, o = operand(rng, ev, m)
        u = rng.choice([(), (True,), (False,)])
        hist.append((cs.index(c), op, k, list(bits(m)), u))
        ctx.call(op, getattr(c[0], op), o, *u)
        c[1] = c[1] | m if op == 'add' else c[1] & ~m
        for j, (C, M) in enumerate(cs):
            ctx.equal(v.m(C), M, 'alias',
                      lambda: f'causet {j} after {hist}')
            ctx.equal(C.Card, popcount(M), 'card', lambda: f'{hist}')
    ctx.describe(hist)


WORKLOADS = [W(algebra, 1440, 28800), W(finding, 960, 19200),
             W(closure, 3000, 60000), W(mutation, 1800, 36000),
             large(algebra, 32, 640), large(finding, 32, 640),
             large(closure, 32, 640), large(mutation, 32, 640),
             huge(algebra),
             huge(finding),
             huge(closure),
             huge(mutation)]
