'''C31: life cycle, copies and text forms of events.'''
import math
import re
from causets.causet import Causet
from causets.causetevent import CausetEvent
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset
from causets.shapes import CoordinateShape
from causets import shapes as shp  # noqa: F401
from causets import spacetimes as st
from core import W
from build import build, View, link_state
from model import Poset, bits, random_poset
from region import random_shape
import numpy as np

RULE = ('cycle: random histories of embed (lists, tuples, arrays, '
        'generators, with and without reembed), disembed, Position (pairs '
        'and everything else), label and link operations on a few related '
        'events against a model; after every operation all attributes of all '
        'events are compared. copies: copies of events in random orders and '
        'link states, then changes of original and copy. text: str and repr '
        'of events (parsed), causets, shapes and spacetimes (evaluated). '
        'Non-trivial: related events.')
ASSUMPTIONS = ['falsy labels (0, empty, None) are not shown in text forms',
               'labels are integers or strings (documented)',
               'the position of a copy is not documented and not judged']
REQUIRED = {'monitor:attributes': 6000, 'monitor:refused': 600,
            'monitor:copy': 400, 'monitor:independent': 200,
            'monitor:text': 1000, 'monitor:spacetime': 60,
            'monitor:shape': 40, 'embedded_twice': 80, 'disembedded': 50,
            'repositioned': 150}


def given(rng, v):
    k = rng.randrange(4)
    return [lambda: list(v), lambda: tuple(v), lambda: np.array(v),
            lambda: (x for x in list(v))][k]()


def cycle(ctx, rng, index):
    n = rng.randint(1, 5)
    p, kind = random_poset(rng, n)
    ev, route = build(rng, p)
    v = View(ev)
    model = [{'pos': None, 'crd': None, 'label': e.Label} for e in ev]
    if rng.random() < .5:
        # a fresh event with keywords
        kw = {}
        m = {'pos': None, 'crd': None, 'label': None}
        if rng.random() < .6:
            m['crd'] = [rng.uniform(-2, 2) for _ in range(rng.randint(1, 4))]
            kw['coordinates'] = given(rng, m['crd'])
        if rng.random() < .6:
            m['pos'] = [rng.uniform(-2, 2), 0.0]
            kw['position'] = given(rng, m['pos'])
        if rng.random() < .5:
            m['label'] = kw['label'] = rng.choice([7, 'x', 'a b'])
        e = ctx.call('CausetEvent', CausetEvent, **kw)
        ev.append(e)
        model.append(m)
        p = Poset.from_relation(n + 1, p.relations()) if False else p
    ctx.describe((p.describe(), len(ev), index), nontrivial=len(ev) > 1)
    ops = []
    past = [set(e.Past) for e in ev]
    fut = [set(e.Future) for e in ev]

    def compare():
        for i, (e, m) in enumerate(zip(ev, model)):
            d = f'event {i} after {ops[-8:]}'
            ctx.equal(ctx.call('isEmbedded', lambda: e.isEmbedded),
                      m['crd'] is not None, 'attributes', d)
            ctx.equal(e.CoordinatesDim, len(m['crd'] or []), 'attributes', d)
            if m['crd'] is None:
                ctx.raises('attributes', AttributeError,
                           lambda: e.Coordinates)
            else:
                ctx.equal(list(ctx.call('Coordinates',
                                        lambda: e.Coordinates)), m['crd'],
                          'attributes', d)
            ctx.equal(list(ctx.call('Position', lambda: e.Position)),
                      m['pos'] or [0.0, 0.0], 'attributes', d)
            ctx.equal(e.Label, m['label'], 'attributes', d)
            ctx.check(set(e.Past) == past[i] and set(e.Future) == fut[i],
                      'attributes', f'relations of {d}')
    compare()
    # whatever is done to the answer for one event without a position
    fresh = ctx.call('Position', lambda: CausetEvent().Position)
    if isinstance(fresh, (list, np.ndarray)):
        fresh[0] = 9.5
    ctx.equal(list(CausetEvent().Position), [0.0, 0.0], 'attributes',
              'default position')
    compare()
    for step in range(rng.randint(4, 14)):
        i = rng.randrange(len(ev))
        e, m = ev[i], model[i]
        op = rng.choice(['embed', 'embed', 'reembed', 'disembed', 'position',
                         'badposition', 'label', 'link', 'embeddim', 'read'])
        ops.append((op, i))
        if op == 'embed':
            c = [rng.uniform(-2, 2) for _ in range(rng.randint(1, 4))]
            if m['crd'] is None:
                r = ctx.call('embed', e.embed, given(rng, c))
                m['crd'] = c
            else:
                ctx.count('embedded_twice')
                args = rng.choice([{}, {'reembed': False}])
                ctx.raises('refused', AttributeError, e.embed,
                           given(rng, c), **args)
        elif op == 'reembed':
            c = [rng.uniform(-2, 2) for _ in range(rng.randint(1, 4))]
            ctx.call('embed', e.embed, given(rng, c), reembed=True)
            m['crd'] = c
        elif op == 'embeddim' and m['crd'] is None:
            # the event keeps its own copy of the coordinates
            c = [1.0, 2.0]
            ctx.call('embed', e.embed, c)
            m['crd'] = list(c)
            c[0] = 5.0
            c.append(3.0)
        elif op == 'disembed':
            if m['crd'] is None:
                ctx.raises('refused', AttributeError, e.disembed)
            else:
                ctx.call('disembed', e.disembed)
                m['crd'] = None
                ctx.count('disembedded')
        elif op == 'position':
            c = [rng.uniform(-2, 2), rng.choice([0.0, rng.uniform(-9, 9)])]

            def assign():
                e.Position = given(rng, c)
            ctx.call('Position=', assign)
            m['pos'] = c
            ctx.count('repositioned')
        elif op == 'badposition':
            for bad in ([], [1.0], [1.0, 2.0, 3.0], np.zeros(3),
                        (0.0,) * 4):
                def assign():
                    e.Position = bad
                ctx.raises('refused', ValueError, assign)
        elif op == 'label':
            m['label'] = e.Label = rng.choice([3, 'lab', 0, '', None])
        elif op == 'link':
            rng.choice([e.link, e.unlink, lambda: e.LinkPast, lambda: str(e),
                        lambda: repr(e)])()
        compare()


def copies(ctx, rng, index):
    n = rng.choice([1, 2, 4, 7, 10])
    p, kind = random_poset(rng, n)
    ev, route = build(rng, p)
    state = link_state(rng, ev)
    lp, lf = p.links()
    v = View(ev)
    for e in ev:
        if rng.random() < .4:
            e.embed([1.0, 2.0])
        if rng.random() < .3:
            e.Label = rng.choice([0, '', None, 'same', 5])
        if rng.random() < .3:
            e.Position = [3.0, 4.0]
    what = f'{p.describe()} by {route}, links {state}'
    ctx.describe((p.describe(), route, state), nontrivial=any(p.past))
    made = []
    asked = rng.random() < .7
    for i in rng.sample(range(n), min(n, 4)):
        e = ev[i]
        was = e.isEmbedded, list(e.Position), e.Label
        c = ctx.call('copy', e.copy)
        made.append((i, c))
        d = f'copy of {i}, {what}'
        ctx.check(isinstance(c, CausetEvent) and c is not e, 'copy', d)
        ctx.check(c.Label == e.Label and type(c.Label) is type(e.Label),
                  'copy', lambda: f'label {c.Label!r}; {d}')
        ctx.check(not c.isEmbedded, 'copy', f'embedded: {d}')
        ctx.equal(v.m(c.Past), p.past[i], 'copy', 'Past of ' + d)
        ctx.equal(v.m(c.Future), p.fut[i], 'copy', 'Future of ' + d)
        if asked:
            ctx.equal(v.m(ctx.call('LinkPast', lambda: c.LinkPast)), lp[i],
                      'copy', 'LinkPast of ' + d)
            ctx.equal(v.m(ctx.call('LinkFuture', lambda: c.LinkFuture)),
                      lf[i], 'copy', 'LinkFuture of ' + d)
        ctx.equal((e.isEmbedded, list(e.Position), e.Label), was, 'copy',
                  'original of ' + d)
    # nothing happened to the originals
    for i, e in enumerate(ev):
        ctx.check(v.m(e.Past) == p.past[i] and v.m(e.Future) == p.fut[i] and
                  v.m(e.LinkPast) == lp[i] and v.m(e.LinkFuture) == lf[i],
                  'independent', f'original {i} changed by copies, {what}')
    # changes of copies do not reach the originals and vice versa
    for i, c in made:
        ctx.call('embed', c.embed, [9.0])
        c.Label = 'changed'
        if isinstance(c.Position, list) and rng.random() < .5:
            c.Position[0] = 8.0  # a list of its own
        else:
            c.Position = [8.0, 8.0]
    for i, e in enumerate(ev):
        ctx.check(e.Label != 'changed' and list(e.Position)[0] != 8.0 and
                  (not e.isEmbedded or list(e.Coordinates) != [9.0]),
                  'independent', f'attributes of {i}, {what}')
    new = [ctx.call('CausetEvent', CausetEvent, past=[ev[i]])
           for i in rng.sample(range(n), min(2, n))]
    for i, c in made:
        d = f'copy of {i} after a new event, {what}'
        ctx.check(not any(x in c.LinkFuture or x in c.LinkCone
                          for x in new), 'independent', 'links of ' + d)
        if asked:
            ctx.check(v.m(c.LinkPast) == lp[i] and
                      v.m(c.LinkFuture) == lf[i], 'independent',
                      'links of ' + d)
    ev[0].unlink()
    gone = rng.randrange(n)
    ctx.call('disjoin', ev[gone].disjoin)
    for i, c in made:
        d = f'copy of {i} after changes, {what}'
        ctx.equal(v.m(c.Past), p.past[i], 'independent', 'Past of ' + d)
        ctx.equal(v.m(c.Future), p.fut[i], 'independent', 'Future of ' + d)
        ctx.check(not any(x in c.Future or x in c.Past for x in new),
                  'independent', d)


def shown(label):
    return f"#{label}" if isinstance(label, int) else f"#'{label}'"


def text(ctx, rng, index):
    n = rng.choice([1, 2, 3, 6])
    p, kind = random_poset(rng, n)
    ev, route = build(rng, p)
    lp, lf = p.links()
    link_state(rng, ev)
    kw = []
    for i, e in enumerate(ev):
        e.Label = rng.choice([i + 1, i + 1, f'e{i}', f'a {i}-b', None, 0,
                              ''])
        if rng.random() < .5:
            e.embed([rng.uniform(-2, 2) for _ in range(rng.randint(1, 3))])
    what = f'{p.describe()} labels {[e.Label for e in ev]}'
    ctx.describe((p.describe(), str([e.Label for e in ev])),
                 nontrivial=any(p.past))

    def name(e):
        return shown(e.Label) if e.Label else '#Event'
    for i, e in enumerate(ev):
        ctx.equal(ctx.call('str', str, e), name(e), 'text', what)
        s = ctx.call('repr', repr, e)
        ctx.check(s.startswith('CausetEvent(') and s.endswith(')'), 'text',
                  lambda: f'{s}; {what}')
        body = s[len('CausetEvent('):-1]
        m = re.match(r'past=\{(.*?)\}(, |$)', body)
        want = sorted(name(ev[j]) for j in bits(lp[i]))
        got = sorted(m.group(1).split(', ')) if m else []
        ctx.equal(got, want, 'text', lambda: f'past in {s}; {what}')
        rest = body[m.end():] if m else body
        c = re.search(r'coordinates=(\[.*\])$', rest)
        ctx.equal(c is not None, e.isEmbedded, 'text',
                  lambda: f'coordinates in {s}; {what}')
        if c:
            ctx.equal(eval(c.group(1), {}), list(e.Coordinates), 'text',
                      lambda: f'coordinates in {s}; {what}')
            rest = rest[:c.start()].rstrip(', ')
        wl = f'label={shown(e.Label)[1:]}' if e.Label else ''
        ctx.equal(rest, wl, 'text', lambda: f'label in {s}; {what}')
    C = Causet(set(ev))
    for f in (str, repr):
        s = ctx.call(f.__name__, f, C)
        for e in ev:
            ctx.check(repr(e) in s or str(e) in s, 'text',
                      lambda: f'{e!r} not in {s}')
    ctx.call('repr', repr, Causet(set()))
    ctx.call('str', str, Causet(set()))


def objects(ctx, rng, index):
    '''Text forms of spacetimes, shapes and embedded causets.'''
    k = rng.randrange(6)
    d = rng.randint(2, 4)
    if k == 0:
        M, par = st.FlatSpacetime(d), {}
    elif k == 1:
        M, par = st.FlatSpacetime(d, rng.uniform(.5, 3)), None
    elif k == 2:
        M, par = st.FlatSpacetime(d, tuple(rng.choice([0.0, 1.5])
                                           for _ in range(d - 1))), None
    elif k == 3:
        M, par = st.deSitterSpacetime(d, rng.uniform(.5, 3)), None
    elif k == 4:
        M, par = st.AntideSitterSpacetime(d, rng.uniform(.5, 3)), None
    else:
        d = 2
        M, par = st.BlackHoleSpacetime(2, rng.uniform(.5, 3), metric=rng
                                       .choice(['Eddington-Finkelstein',
                                                'Schwarzschild'])), None
    s = ctx.call('str', str, M)
    ctx.check(str(d) in s and M.Name in s, 'spacetime', s)
    r = ctx.call('repr', repr, M)
    ctx.describe((type(M).__name__, d, index))
    ctx.check(r.startswith(type(M).__name__ + '('), 'spacetime', r)
    N = ctx.call('eval', eval, r, vars(st) | {'array': np.array})
    ctx.check(type(N) is type(M) and N.Dim == M.Dim and N.Name == M.Name and
              N.MetricName == M.MetricName, 'spacetime', r)
    f, g = M.Causality(), N.Causality()
    for _ in range(20):
        x, y = (np.array([rng.uniform(-1.2, 1.2) for _ in range(d)])
                for _ in 'xy')
        ctx.equal(tuple(map(bool, f(x, y))), tuple(map(bool, g(x, y))),
                  'spacetime', lambda: f'causality of {r} at {x} {y}')
    dd, name, kws, R = random_shape(rng)
    S = ctx.call('CoordinateShape', CoordinateShape, dd, name, **kws)
    s = ctx.call('str', str, S)
    ctx.check(str(dd) in s and S.Name in s, 'shape', s)
    ctx.equal('hollow' in s, kws.get('hollow', 0) > 0 if name != 'diamond'
              and name not in ('cube', 'cuboid') else 'hollow' in s, 'shape',
              lambda: f'{s}: {kws}')
    r = ctx.call('repr', repr, S)
    ctx.check(type(S).__name__ in r and S.Name in r and str(dd) in r,
              'shape', r)
    for nm in sorted(kws):
        if nm != 'center':
            ctx.check(nm in r or name == 'diamond', 'shape',
                      lambda: f'{nm} not in {r}')
    C = rng.choice([lambda: EmbeddedCauset(M), lambda: SprinkledCauset(
        4, spacetime=st.FlatSpacetime(d)), lambda: EmbeddedCauset(
            M, coordinates=[[0.1] * d, [.2] * d])])()
    for F in (str, repr):
        s = ctx.call(F.__name__, F, C)
        ctx.check(isinstance(s, str), 'shape', 'text of a causet')


WORKLOADS = [W(cycle, 5600, 112000), W(copies, 4000, 80000), W(text, 4800, 96000),
             W(objects, 3000, 3000)]
