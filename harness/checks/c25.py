'''C25: bookkeeping of sprinkled causets.'''
import math
from causets.causet import Causet
from causets.causetevent import CausetEvent
from causets.shapes import CoordinateShape
from causets.sprinkledcauset import SprinkledCauset
from core import W
from region import Region, random_shape
from checks.c19 import random_spacetime, relations, coords, as_given
import numpy as np

RULE = ('histories: construction by number or intensity, then up to 12 '
        'operations sprinkle, intensify, create, add, discard (single '
        'events, parts, all, foreign events; sets, lists, generators, '
        'causets; with and without unlinking) and rejected calls, on '
        'sprinkled causets of all spacetimes and shapes; after every step '
        'number, intensity, density, length scale, returned events and '
        'labels against a model of plain numbers, at the end every relation '
        'against the spacetime. reproducible: the same calls with equally '
        'seeded generators, interleaved on two causets. Non-trivial: three '
        'or more different operations.')
ASSUMPTIONS = ['which intensity the operations add is taken from the '
               'implementation (the requested one, not the resulting number '
               'of events); discarding scales by the fraction kept']
REQUIRED = {'monitor:intensity': 1500, 'monitor:density': 1500,
            'monitor:card': 1500, 'monitor:relation': 2000,
            'monitor:reproduced': 300, 'monitor:rejected': 200,
            'op:sprinkle': 150, 'op:intensify': 150, 'op:create': 150,
            'op:add': 150, 'op:discard': 150, 'emptied': 20,
            'refilled': 10, 'monitor:labels': 300}


def shaped(rng, M, d):
    if rng.random() < .3:
        return None, None
    _, name, kw, R = random_shape(rng, dims=(d,))
    return CoordinateShape(d, name, **kw), R


def as_operand(rng, events):
    events = list(events)
    return rng.choice([set, list, iter, lambda e: Causet(set(e))])(events)


def histories(ctx, rng, index):
    M, d = random_spacetime(rng)
    shape, R = shaped(rng, M, d)
    args = {'spacetime': M, 'shape': shape}
    how = rng.randrange(3)
    I = 0.0
    if how == 0:
        n = rng.randint(1, 8)
        C = ctx.call('SprinkledCauset', SprinkledCauset, card=n, **args)
        ctx.equal(C.Card, n, 'card', 'constructor')
        I = float(n)
    elif how == 1:
        I = rng.choice([.5, 3.0, 6.25])
        C = ctx.call('SprinkledCauset', SprinkledCauset, intensity=I, **args)
    else:
        C = ctx.call('SprinkledCauset', SprinkledCauset, **args)
        ctx.equal(C.Card, 0, 'card', 'constructor')
    if shape is None:
        vol = float(C.Shape.Volume)
    else:
        vol = R.volume()
    mine = set(C)
    log = [('init', how, I)]
    what = lambda: f'{log} in {M!r} {shape!r}'

    def judge():
        ctx.equal(set(C), mine, 'card', what)
        ctx.equal(C.Card, len(mine), 'card', what)
        ctx.close(float(C.Intensity), I, 'intensity', 1e-9, 1e-9, what)
        ctx.close(float(ctx.call('Density', lambda: C.Density)), I / vol,
                  'density', 1e-4, 1e-12, what)
        L = 0.0 if I == 0 else (vol / I)**(1 / d)
        ctx.close(float(ctx.call('LengthScale', lambda: C.LengthScale)), L,
                  'density', 1e-4, 1e-12, what)

    def created(new, count=None):
        if count is not None:
            ctx.equal(len(new), count, 'card', what)
        ctx.check(not (set(new) & mine), 'returned', what)
        ctx.equal(sorted(e.Label for e in new),
                  list(range(len(mine) + 1, len(mine) + len(new) + 1)),
                  'labels', what)
        mine.update(new)
    judge()
    hollow_flat = R is not None and R.volume() == 0
    if hollow_flat:
        return
    kinds = set()
    related = True
    for _ in range(rng.randint(2, 12)):
        op = rng.choice(['sprinkle', 'intensify', 'create', 'add', 'discard',
                         'rejected'])
        if len(mine) > 18 and op in ('sprinkle', 'intensify', 'create'):
            op = 'discard'
        kinds.add(op)
        ctx.count('op:' + op)
        gen = {} if rng.random() < .3 else \
            {'rng': np.random.default_rng(rng.getrandbits(32))}
        if rng.random() < .2:
            gen['shape'] = CoordinateShape(d, 'cube', edge=.25)
        if not mine and op in ('sprinkle', 'intensify'):
            ctx.count('refilled')
        if op == 'sprinkle':
            k = rng.choice([0, 1, 2, 5])
            log.append((op, k))
            created(ctx.call(op, C.sprinkle, k, **gen), k)
            I += k
            related = True
        elif op == 'intensify':
            lam = rng.choice([0.0, .5, 2.0, 4.5])
            log.append((op, lam))
            created(ctx.call(op, C.intensify, lam, **gen))
            I += lam
            related = True
        elif op == 'create':
            rows = coords(rng, rng.choice([0, 1, 3]), d, .4)
            given, _ = as_given(rng, rows)
            if rng.random() < .25:
                given = (r for r in given)
                ctx.count('iterators')
            log.append((op, len(rows)))
            flag = rng.random() < .8
            created(ctx.call(op, C.create, given, relate=flag), len(rows))
            I += len(rows)
            related = flag
        elif op == 'add':
            fresh = [CausetEvent(label=f'a{k}', coordinates=r) for k, r in
                     enumerate(coords(rng, rng.choice([0, 1, 2, 4]), d, .4))]
            old = rng.sample(sorted(mine, key=id), min(len(mine), 2)) \
                if rng.random() < .4 else []
            log.append((op, len(fresh), len(old)))
            ctx.call(op, C.add, as_operand(rng, fresh) if not old else
                     set(fresh + old), unlink=rng.random() < .3)
            mine.update(fresh)
            I += len(fresh)
            related = related and not fresh
        elif op == 'discard':
            k = rng.random()
            ev = sorted(mine, key=lambda e: (str(e.Label), list(e.Coordinates)))
            if k < .15:
                gone = ev
            elif k < .3:
                gone = []
            else:
                gone = rng.sample(ev, rng.randint(0, len(ev)))
            foreign = [CausetEvent()] if rng.random() < .3 else []
            log.append((op, len(gone), len(mine)))
            ctx.call(op, C.discard, rng.choice([set, list, iter])(
                gone + foreign), unlink=rng.random() < .3)
            if mine:
                I *= (len(mine) - len(gone)) / len(mine)
            mine.difference_update(gone)
            if gone and not mine:
                ctx.count('emptied')
        else:
            log.append((op,))
            ctx.raises('rejected', ValueError, C.sprinkle,
                       -rng.randint(1, 5), **gen)
            ctx.raises('rejected', ValueError, C.intensify,
                       -rng.uniform(.01, 5), **gen)
        judge()
    ctx.describe((repr(M), log), nontrivial=len(kinds) > 2)
    if not related:
        ctx.call('relate', C.relate)
        judge()
    ev = sorted(mine, key=lambda e: (str(e.Label), list(e.Coordinates)))
    rows = [list(e.Coordinates) for e in ev]
    if len({tuple(r) for r in rows}) == len(rows):
        gap = [e for e in ev if any((f in C) is False
                                    for f in e.Past | e.Future)]
        if not gap:
            relations(ctx, C, M, ev, rows, what)


def reproducible(ctx, rng, index):
    M, d = random_spacetime(rng)
    _, name, kw, R = random_shape(rng, dims=(d,))
    seed = rng.getrandbits(40)
    pair = []
    for _ in range(2):
        pair.append((SprinkledCauset(spacetime=M, shape=CoordinateShape(
            d, name, **kw)), np.random.default_rng(seed), []))
    steps = [(rng.random() < .5, rng.randint(0, 6))
             for _ in range(rng.randint(1, 4))]
    ctx.describe((repr(M), name, kw, seed, steps),
                 nontrivial=len(steps) > 1)
    order = [k for k in (0, 1) for _ in steps]
    rng.shuffle(order)
    done = [0, 0]
    for k in order:
        C, g, out = pair[k]
        fixed, m = steps[done[k]]
        done[k] += 1
        new = ctx.call('sprinkle', C.sprinkle, m, rng=g) if fixed else \
            ctx.call('intensify', C.intensify, float(m), rng=g)
        out.append([tuple(map(float, e.Coordinates)) for e in
                    sorted(new, key=lambda e: e.Label)])
    ctx.equal(pair[0][2], pair[1][2], 'reproduced',
              lambda: f'{name} {kw} seed {seed} {steps}')
    A, B = (sorted(p[0], key=lambda e: e.Label) for p in pair)
    for a, b in zip(A, B):
        ctx.equal([e.Label for e in A if e in a.Past],
                  [e.Label for e in B if e in b.Past], 'reproduced',
                  'relations')


WORKLOADS = [W(histories, 6400, 128000), W(reproducible, 1920, 38400)]
