'''C19: embedded causets.'''
import math
import numpy as np
from causets.causet import Causet
from causets.causetevent import CausetEvent
from causets.embeddedcauset import EmbeddedCauset
from causets.shapes import CoordinateShape
from causets import spacetimes as st
from core import W
import model
from build import View, assert_links, huge, large
from model import Poset, bits

RULE = ('relabelled: labels by coordinates that are almost equal; '
        'integers: integer coordinates of every type and size; '
        'histories: create (lists, arrays, formats, with and without '
        'relate), re-embedding, relate, relabel on embedded causets of every '
        'spacetime; after each step every pair is compared with the '
        'spacetime\'s own causality, labels and coordinates with what was '
        'given, links with the relation. permutations: embedded against '
        'abstract. construction: names, defaults and every mismatch of '
        'dimensions. shared: embedded causets that share events and are '
        'related to events outside of them, with creation, relate, add, '
        'discard, disjoin, merge: the whole relation (both sides) and all '
        'links against a model. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: two or more events.')
ASSUMPTIONS = ['events with exactly equal coordinates are not judged',
               'the causality functions themselves are judged by C20-C22']
REQUIRED = {'relabelled': 300, 'integers': 500, 'monitor:relation': 1500, 'norelate': 50, 'large': 20, 'huge': 8, 'related': 1000, 'unrelated': 1000,
            'monitor:perm': 150, 'monitor:mismatch': 100, 'monitor:name': 60,
            'monitor:labels': 200, 'monitor:shared': 3000,
            'outside': 1000, 'reembedded': 20, 'monitor:scale': 100}


def random_spacetime(rng):
    k = rng.randrange(7)
    if k == 0:
        d = rng.randint(1, 4)
        return st.FlatSpacetime(d), d
    if k == 1:
        d = rng.randint(2, 4)
        return st.FlatSpacetime(d, rng.choice([1.0, .7])), d
    if k == 2:
        d = rng.randint(2, 4)
        return st.FlatSpacetime(d, tuple(rng.choice([0.0, .8, 1.2])
                                         for _ in range(d - 1))), d
    if k == 3:
        d = rng.randint(2, 4)
        return st.deSitterSpacetime(d, rng.choice([1.0, 2.5])), d
    if k == 4:
        d = rng.randint(2, 4)
        return st.AntideSitterSpacetime(d, rng.choice([.5, 1.3])), d
    if k == 5:
        return st.BlackHoleSpacetime(2, rng.choice([.5, 1.0])), 2
    return st.BlackHoleSpacetime(2, .5, metric='Schwarzschild'), 2


def coords(rng, n, d, scale):
    return [[rng.uniform(-scale, scale) for _ in range(d)] for _ in range(n)]


def as_given(rng, rows):
    k = rng.randrange(3)
    if k == 0 or not rows:
        return [list(r) for r in rows], 'lists'
    if k == 1:
        return np.array(rows), 'array'
    return [np.array(r) for r in rows], 'arrays'


def judge(ctx, C, M, rows, labels, what):
    '''`rows`/`labels`: what the events (in order of creation) must carry.'''
    ctx.equal(C.Card, len(rows), 'card', what)
    left = list(C)
    ev = []
    for r, lab in zip(rows, labels):
        hit = [e for e in left if list(e.Coordinates) == list(r)
               and e.Label == lab and type(e.Label) is type(lab)]
        ctx.equal(len(hit), 1, 'labels',
                  lambda: f'{what}: label {lab!r} at {r}; has '
                          f'{[(e.Label, list(e.Coordinates)) for e in C]}')
        ev.append(hit[0])
        left.remove(hit[0])
        ctx.equal(hit[0].CoordinatesDim, len(r), 'coordinates', what)
    return ev


def relations(ctx, C, M, ev, rows, what):
    causal = M.Causality()
    v = View(ev)
    n = len(ev)
    for i in range(n):
        past = fut = 0
        for j in range(n):
            if i == j:
                continue
            ij, ji = causal(np.array(rows[i], dtype=float),
                            np.array(rows[j], dtype=float))
            if ij:
                fut |= 1 << j
            if ji:
                past |= 1 << j
            ctx.count('related' if ij or ji else 'unrelated')

        def d():
            return f'{what}: event {i} of {rows} in {M!r}'
        ctx.equal(v.m(ev[i].Past), past, 'relation', d)
        ctx.equal(v.m(ev[i].Future), fut, 'relation', d)
    p = Poset(n)
    p.past = [v.m(e.Past) for e in ev]
    p.fut = [v.m(e.Future) for e in ev]
    assert_links(ctx, ev, p, what)


def histories(ctx, rng, index):
    M, d = random_spacetime(rng)
    scale = rng.choice([.3, .7, 1.5])
    rows, labels, log = [], [], []
    shape = rng.choice([None, None, 'cube', 'ball', 'other', 'other'])
    if shape == 'other':        # the density refers to the given shape
        shape = CoordinateShape(
            d, rng.choice(['bicone', 'ball', 'cylinder']),
            radius=rng.uniform(.5, 3),
            center=[rng.uniform(-1, 1) for _ in range(d)])
    first = coords(rng, model.SIZE or rng.randint(0, 5), d, scale)
    if first and rng.random() < .5:
        arg, how = as_given(rng, first)
        C = ctx.call('EmbeddedCauset', EmbeddedCauset, spacetime=M,
                     shape=shape, coordinates=arg)
        rows += first
        labels += list(range(1, len(first) + 1))
        log.append(('init', how, first))
    else:
        C = ctx.call('EmbeddedCauset', EmbeddedCauset, spacetime=M,
                     shape=shape)
    ctx.check(C.Spacetime is M and C.Dim == d and C.Shape.Dim == d, 'name',
              'spacetime and shape')
    ev = judge(ctx, C, M, rows, labels, log)
    relations(ctx, C, M, ev, rows, log)
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(['create', 'create', 'norelate', 'reembed', 'relate',
                         'relabel'])
        if op in ('create', 'norelate'):
            new = coords(rng, rng.randint(0, 4), d, scale)
            fmt = rng.choice([None, None, 'x{:02d}', 'p{}'])
            arg, how = as_given(rng, new)
            kw = {} if fmt is None else {'labelFormat': fmt}
            if op == 'norelate':
                kw['relate'] = False
            was = [(e, set(e.Past), set(e.Future)) for e in C]
            got = ctx.call('create', C.create, arg, **kw)
            labels += [k if fmt is None else fmt.format(k) for k in
                       range(len(rows) + 1, len(rows) + len(new) + 1)]
            rows += new
            log.append((op, how, fmt, new))
            if isinstance(arg, np.ndarray):
                arg += 1000.0        # the caller may reuse its array
            ctx.equal(sorted(tuple(map(float, e.Coordinates)) for e in got),
                      sorted(map(tuple, new)), 'coordinates',
                      lambda: f'returned by {log}')
            ctx.equal(len(got), len(new), 'card', 'events returned by create')
            ctx.check(all(e in C for e in got), 'card', 'events in causet')
            if op == 'norelate':
                ctx.check(all(not e.Past and not e.Future for e in got) and
                          all((set(e.Past), set(e.Future)) == (x, y)
                              for e, x, y in was), 'norelate',
                          lambda: f'relations changed without relate: {log}')
                ctx.count('norelate')
                ctx.call('relate', C.relate)
        elif op == 'reembed' and rows:
            for i in range(len(rows)):
                if rng.random() < .5:
                    rows[i] = coords(rng, 1, d, scale)[0]
                    if rng.random() < .5:
                        ev[i].embed(rows[i], reembed=True)
                    else:
                        ev[i].disembed()
                        ev[i].embed(tuple(rows[i]))
            kw = rng.choice([{}, {'link': True}, {'link': False}])
            ctx.call('relate', C.relate, **kw)
            ctx.count('reembedded')
            log.append(('reembed', kw))
        elif op == 'relate':
            kw = rng.choice([{}, {'link': False}])
            ctx.call('relate', C.relate, **kw)
            log.append(('relate', kw))
        elif op == 'relabel' and rows:
            k = rng.randrange(d)
            desc = rng.random() < .5
            if rng.random() < .5:
                ctx.call('relabel', C.relabel, dim=k, descending=desc)
            else:
                k, desc = 0, False
                ctx.call('relabel', C.relabel)
            order = sorted(range(len(rows)), key=lambda i: rows[i][k],
                           reverse=desc)
            for lab, i in enumerate(order):
                labels[i] = lab + 1
            log.append(('relabel', k, desc))
        ev = judge(ctx, C, M, rows, labels, log)
        relations(ctx, C, M, ev, rows, log)
    if isinstance(shape, CoordinateShape):
        ctx.check(C.Shape is shape, 'name', 'shape given')
    V = float(C.Shape.Volume)
    n = len(rows)
    ctx.close(C.Density, n / V, 'scale', rel=1e-6, detail='Density')
    ctx.close(C.LengthScale, 0.0 if n == 0 else (n / V)**(-1.0 / d), 'scale',
              rel=1e-6, detail=lambda: f'LengthScale of {n} in {V}, d={d}')
    ctx.describe((repr(M), repr(shape), log), nontrivial=len(rows) > 1)


def permutations(ctx, rng, index):
    n = model.SIZE or rng.randint(0, 9)
    P = list(range(1, n + 1))
    rng.shuffle(P)
    keep = list(P)
    r = rng.choice([1.0, 1.0, .5, 3.0])
    fmt = rng.choice([None, None, 'a{}', 'a{:03d}'])
    kw = {} if r == 1.0 and rng.random() < .5 else {'radius': r}
    if fmt is not None:
        kw['labelFormat'] = fmt
    ctx.describe((P, r, fmt), nontrivial=n > 1)
    C = ctx.call('FromPermutation', EmbeddedCauset.FromPermutation, P, **kw)
    D = Causet.FromPermutation(P, *([fmt] if fmt else []))

    def order(X):
        return sorted(
            (repr(e.Label), tuple(sorted(repr(x.Label) for x in e.Past)),
             tuple(sorted(repr(x.Label) for x in e.Future))) for e in X)
    ctx.equal(order(C), order(D), 'perm', lambda: f'{P} radius {r}')
    unit = {e.Label: e.Coordinates for e in
            EmbeddedCauset.FromPermutation(P, fmt)}
    for e in C:
        ctx.check(np.abs(e.Coordinates - r * np.asarray(unit[e.Label])).max()
                  <= 1e-9 * r, 'scaled', lambda:
                  f'{P}: {e.Coordinates} with radius {r}, '
                  f'{unit[e.Label]} with radius 1')
    pos = {p: i for i, p in enumerate(P)}
    for e in C:
        t, x = e.Coordinates
        ctx.check(abs(t) + abs(x) <= r * (1 + 1e-9), 'inside',
                  lambda: f'{P}: {e.Coordinates} outside of radius {r}')
    want = {(fmt.format(i) if fmt else i):
            {(fmt.format(j) if fmt else j) for j in range(1, i)
             if pos[j] < pos[i]} for i in range(1, n + 1)}
    ctx.equal({e.Label: {x.Label for x in e.Past} for e in C}, want, 'perm',
              lambda: f'{P}')
    ctx.equal(P, keep, 'argument', 'permutation')
    ctx.check(C.Shape.Name == 'bicone' and
              abs(C.Shape.Parameter('radius') - r) < 1e-6, 'inside', 'shape')


def shared(ctx, rng, index):
    """Embedded causets that share events with each other and are related to
    events outside of them: relating resets the relations of the members and
    leaves no one-sided relation."""
    M, d = random_spacetime(rng)
    causal = M.Causality()
    ev, log = [], []
    past, fut = {}, {}
    Cs, members = [], []

    def known(e):
        ev.append(e)
        past[e], fut[e] = set(), set()

    def relate(S):
        for x in S:
            for y in past.pop(x) - S:
                fut[y].discard(x)
            for y in fut.pop(x) - S:
                past[y].discard(x)
            past[x], fut[x] = set(), set()
        L = list(S)
        for x in L:
            for y in L:
                if x is not y and causal(np.array(x.Coordinates),
                                         np.array(y.Coordinates))[0]:
                    fut[x].add(y)
                    past[y].add(x)

    def create(k, n):
        new = ctx.call('create', Cs[k].create,
                       coords(rng, n, d, .7), relate=True)
        for e in new:
            known(e)
        members[k] |= set(new)
        relate(members[k])
    for k in range(rng.randint(1, 3)):
        Cs.append(EmbeddedCauset(spacetime=M))
        members.append(set())
        create(k, rng.randint(1, 4))
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(['create', 'relate', 'relate', 'add', 'add',
                         'discard', 'outsider', 'outsider', 'disjoin', 'link',
                         'merge'])
        k = rng.randrange(len(Cs))
        C, S = Cs[k], members[k]
        if op == 'create':
            create(k, rng.randint(0, 2))
        elif op == 'relate':
            kw = rng.choice([{}, {'link': False}])
            ctx.call('relate', C.relate, **kw)
            relate(S)
            outside = set().union(*[past[e] | fut[e] for e in ev
                                    if e not in S]) if ev else set()
            ctx.count('outside', len(ev) - len(S))
            ctx.check(not outside & S, 'model', 'model of relate')
        elif op == 'add':
            j = rng.randrange(len(Cs))
            sub = {e for e in ev if e in members[j] and rng.random() < .7}
            C.add(sub if rng.random() < .5 else list(sub))
            S |= sub
        elif op == 'discard':
            sub = {e for e in ev if e in S and rng.random() < .4}
            C.discard(sub, unlink=rng.random() < .3)
            S -= sub
        elif op == 'outsider':
            P = {e for e in ev if rng.random() < .2}
            F = {e for e in ev if rng.random() < .1}
            P |= set().union(*[past[e] for e in P]) if P else set()
            F |= set().union(*[fut[e] for e in F]) if F else set()
            if P & F or any(f in past[q] for q in P for f in F):
                F = set()
            e = ctx.call('CausetEvent', CausetEvent, past=P, future=F)
            known(e)
            for q in P:
                for f in F:
                    fut[q].add(f)
                    past[f].add(q)
                fut[q].add(e)
            for f in F:
                past[f].add(e)
            past[e], fut[e] = P, F
        elif op == 'disjoin':
            e = rng.choice(ev)
            e.disjoin()
            for y in past[e]:
                fut[y].discard(e)
            for y in fut[e]:
                past[y].discard(e)
            past[e], fut[e] = set(), set()
        elif op == 'link':
            for e in ev:
                if rng.random() < .5:
                    e.link()
        elif op == 'merge':
            j = rng.randrange(len(Cs))
            P = set(members[k])
            P |= set().union(*[past[e] for e in P]) if P else set()
            F = set(members[j])
            F |= set().union(*[fut[e] for e in F]) if F else set()
            if P & F or any(f in past[q] for q in P for f in F):
                continue
            ctx.call('merge', Causet.merge, members[k], members[j])
            for q in P:
                fut[q] |= F
            for f in F:
                past[f] |= P
        log.append((op, k))
        v = View(ev)
        for i, e in enumerate(ev):
            ctx.equal(v.m(e.Past), v.m(past[e]), 'shared',
                      lambda: f'past of {i} after {log} in {M!r}')
            ctx.equal(v.m(e.Future), v.m(fut[e]), 'shared',
                      lambda: f'future of {i} after {log} in {M!r}')
        p = Poset(len(ev))
        p.past = [v.m(e.Past) for e in ev]
        p.fut = [v.m(e.Future) for e in ev]
        assert_links(ctx, ev, p, log)
        for D, T in zip(Cs, members):
            ctx.equal(v.m(D), v.m(T), 'shared', lambda: f'members, {log}')
    v = View(ev)
    ctx.describe((repr(M), log, [v.m(past[e]) for e in ev]),
                 nontrivial=len(ev) > 2)


NAMES = {'flat': st.FlatSpacetime, 'Minkowski': st.FlatSpacetime,
         'dS': st.deSitterSpacetime, 'de Sitter': st.deSitterSpacetime,
         'AdS': st.AntideSitterSpacetime,
         'Anti-de Sitter': st.AntideSitterSpacetime,
         'black hole': st.BlackHoleSpacetime,
         'Schwarzschild': st.BlackHoleSpacetime}


def construction(ctx, rng, index):
    d = rng.randint(2, 4)
    for name, cls in NAMES.items():
        dd = 2 if cls is st.BlackHoleSpacetime else d
        C = ctx.call('named', EmbeddedCauset, name, dim=dd)
        ctx.check(type(C.Spacetime) is cls and C.Spacetime.Dim == dd, 'name',
                  lambda: f'{name}: {C.Spacetime!r}')
        ctx.equal((C.Shape.Name, C.Shape.Dim),
                  ('bicone' if cls is st.FlatSpacetime else 'cylinder', dd),
                  'name', name)
        ctx.equal(C.Card, 0, 'name', name)
    ctx.raises('mismatch', ValueError, EmbeddedCauset,
               rng.choice(['Flat', 'ads', 'x', 'Kerr', '']))
    if d != 2:
        ctx.raises('mismatch', ValueError, EmbeddedCauset, 'black hole',
                   dim=d)
    C = EmbeddedCauset()
    ctx.equal((C.Dim, type(C.Spacetime), C.Shape.Name),
              (2, st.FlatSpacetime, 'bicone'), 'name', 'defaults')
    for sh in ('ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid'):
        C = ctx.call('shaped', EmbeddedCauset, shape=sh, dim=d)
        ctx.equal((C.Shape.Name, C.Dim), ('bicone' if sh == 'diamond' else sh,
                                          d), 'name', sh)
    S = CoordinateShape(d, 'ball', radius=2.0)
    C = EmbeddedCauset(shape=S)
    ctx.check(C.Shape is S and C.Spacetime.Dim == d, 'name', 'shape given')
    rows = coords(rng, 3, d, 1.0)
    C = ctx.call('rows', EmbeddedCauset, coordinates=as_given(rng, rows)[0])
    ctx.equal((C.Dim, C.Card), (d, 3), 'name', 'dimension of coordinates')
    for empty, dim in (([], 2), (np.empty((0, d)), d)):
        C = ctx.call('no rows', EmbeddedCauset, coordinates=empty)
        ctx.equal((C.Dim, C.Card), (dim, 0), 'name', 'no coordinates')
    k = d + rng.choice([-1, 1])
    M = st.FlatSpacetime(d)
    bad = coords(rng, 3, k, 1.0)
    mixed = coords(rng, 2, d, 1.0) + coords(rng, 1, k, 1.0)
    for kw in ({'spacetime': M, 'dim': k},
               {'spacetime': M, 'shape': CoordinateShape(k, 'cube')},
               {'shape': CoordinateShape(k, 'cube'), 'dim': d},
               {'spacetime': M, 'coordinates': np.array(bad)},
               {'spacetime': M, 'coordinates': bad},
               {'spacetime': M, 'coordinates': mixed},
               {'spacetime': M, 'coordinates': [np.array(r) for r in mixed]},
               {'spacetime': M, 'coordinates': np.array([1.0] * d)},
               {'shape': CoordinateShape(d, 'ball'), 'coordinates': bad},
               {'coordinates': bad, 'dim': d},
               {'spacetime': 'flat', 'coordinates': bad, 'dim': d}):
        ctx.raises('mismatch', ValueError, EmbeddedCauset, **kw)
    for crd in (bad, mixed, np.array(bad), [np.array(r) for r in mixed]):
        C = ctx.call('matching', EmbeddedCauset, coordinates=rows)
        ctx.raises('mismatch', ValueError, C.create, crd,
                   relate=rng.random() < .5)
    for kw in ({'spacetime': M, 'dim': d},
               {'spacetime': M, 'shape': CoordinateShape(d, 'cube')},
               {'spacetime': M, 'coordinates': []},
               {'spacetime': M, 'coordinates': np.array(rows),
                'shape': 'ball', 'dim': d}):
        ctx.call('matching', EmbeddedCauset, **kw)
    ctx.describe((d, k, rows), nontrivial=True)


def relabelled(ctx, rng, index):
    '''Labels in the order of coordinates that are almost equal.'''
    n, d = rng.randint(2, 40), rng.randint(2, 4)
    step = 10**rng.uniform(-12, 1)
    rows = [[rng.choice([0.0, 1.0, -7.5]) + step * rng.choice(
        [rng.randint(-3, 3), rng.randint(-999, 999)]) for _ in range(d)]
        for _ in range(n)]
    ctx.describe((step, rows), nontrivial=True)
    C = EmbeddedCauset(dim=d)
    C.create(rows, relate=False)
    for _ in range(3):
        k, desc = rng.randrange(d), rng.random() < .5
        ctx.call('relabel', C.relabel, k, desc)
        L = sorted(C, key=lambda e: e.Label)
        ctx.equal([e.Label for e in L], list(range(1, n + 1)), 'relabel',
                  f'{rows}')
        x = [float(e.Coordinates[k]) for e in L]
        ctx.equal(x, sorted(x, reverse=desc), 'relabel',
                  lambda: f'dim {k} descending={desc} {rows}')
    ctx.count('relabelled')


def integers(ctx, rng, index):
    '''Integer coordinates of any type and size mean what they mean as
    floats.'''
    n, d = rng.randint(2, 12), rng.randint(2, 4)
    kind, lo, hi = rng.choice([
        (None, -10**rng.randint(1, 14), 10**rng.randint(1, 14)),
        (np.uint8, 0, 255), (np.int8, -128, 127), (np.uint16, 0, 65535),
        (np.int16, -2**15, 2**15 - 1), (np.int32, -2**31, 2**31 - 1),
        (np.uint32, 0, 2**32 - 1), (np.int64, -10**12, 10**12)])
    if rng.random() < .5:
        lo, hi = max(lo, -9), min(hi, 9)
    rows = [[rng.randint(lo, hi) for _ in range(d)] for _ in range(n)]
    rows = [r for k, r in enumerate(rows) if r not in rows[:k]]
    n = len(rows)
    given = [list(r) for r in rows] if kind is None else \
        np.array(rows, dtype=kind)
    if kind is not None and rng.random() < .3:
        given = list(given)
    M = st.FlatSpacetime(d, **rng.choice(
        [{}, {}, {'period': (hi - lo) / math.e}]))
    if rng.random() < .3:
        M = rng.choice([st.deSitterSpacetime, st.AntideSitterSpacetime])(
            d, float(hi - lo))
    if d == 2 and rng.random() < .3:
        M = st.BlackHoleSpacetime(2, (hi - lo) / 5.5, metric=rng.choice(
            ['Schwarzschild', 'Eddington-Finkelstein']))
    ctx.describe((kind and kind.__name__, rows), nontrivial=True)
    C = ctx.call('EmbeddedCauset', EmbeddedCauset, M, coordinates=given)
    ev = judge(ctx, C, M, rows, list(range(1, n + 1)), 'integers')
    relations(ctx, C, M, ev, rows, f'integers {kind}')
    ctx.count('integers')


WORKLOADS = [W(relabelled, 1200, 24000), W(integers, 2000, 40000), W(histories, 8000, 160000), W(permutations, 2400, 48000),
             W(construction, 200, 200), W(shared, 3200, 64000),
             large(histories, 32, 640), large(permutations, 32, 640, 100, 400),
             huge(histories)]
