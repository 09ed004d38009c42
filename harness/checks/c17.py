'''C17: sorting by causality and by label.'''
import itertools
from causets.causet import Causet
from causets.causetevent import CausetEvent
import model
from core import W
from build import View, build, label_of, huge, large
from model import Poset, bits, random_poset, random_size, random_subset

RULE = ('sorting: random orders up to 40 events, labelled by integers '
        '(also beyond 2^53), '
        'floats, strings, repeated labels, an adversarial order, or none, '
        'in seeded set iteration orders; the whole causet and event sets, '
        'ascending and reversed; exhaustive: every labelling (permutation) '
        'of random orders of up to 5 events. Judged: every event exactly '
        'once, never before an event of its past, labels monotone. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation.')
ASSUMPTIONS = ['labels are mutually comparable (all numbers or all strings)']
REQUIRED = {'large': 20, 'huge': 8, 'monitor:linear_extension': 1500, 'monitor:labels': 1500,
            'monitor:permutation': 3000, 'repeated': 50, 'unlabelled': 20,
            'mixed_none': 15, 'subset': 200, 'exhaustive': 200}


def relabel(rng, ev, p):
    how = rng.choice(['perm', 'perm', 'antitone', 'repeat', 'none', 'partly',
                      'str', 'float', 'negative', 'same', 'huge', 'tiny'])
    n = len(ev)
    ext = p.linear_extension()
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    for k, i in enumerate(ext):
        ev[i].Label = {
            'perm': perm[k], 'antitone': n - k,
            'repeat': rng.randint(1, max(1, n // 3)), 'none': None,
            'partly': perm[k] if rng.random() < .6 else None,
            'str': rng.choice(['e10', 'e9', 'b', 'ä', 'E', str(k), f'{k:03}']),
            'float': rng.uniform(-3, 3), 'negative': perm[k] - n // 2 - .5,
            'same': 7, 'huge': 2**rng.choice([53, 63, 80]) + perm[k],
            'tiny': perm[k] * 1e-300}[how]
    return how


def judge(ctx, p, v, C, S, ev, how):
    for rev in (False, True):
        for whole in ((True, False) if S == p.all else (False,)):
            arg = v.s(S)
            args = () if whole else (arg,)
            kw = {'reverse': True} if rev else {}

            def d():
                return (f'{how} labels {[e.Label for e in ev]} of '
                        f'{list(bits(S))} reverse={rev} of {p.describe()}')
            got = ctx.call('sortedByCausality', C.sortedByCausality,
                           *args, **kw)
            idx = [v.i(e) for e in got]
            ctx.equal(sorted(idx), list(bits(S)), 'permutation', d)
            seq = idx[::-1] if rev else idx
            seen = 0
            for i in seq:
                ctx.check(not p.fut[i] & seen, 'linear_extension',
                          lambda: f'{idx}; ' + d())
                seen |= 1 << i
            got2 = ctx.call('sortedByLabels', C.sortedByLabels, *args, **kw)
            idx2 = [v.i(e) for e in got2]
            ctx.equal(sorted(idx2), list(bits(S)), 'permutation', d)
            labs = [e.Label for e in got2 if e.Label is not None]
            if rev:
                labs.reverse()
            ctx.check(all(x <= y for x, y in zip(labs, labs[1:])), 'labels',
                      lambda: f'{labs}; ' + d())
            gap = [k for k, e in enumerate(got2) if e.Label is None]
            ctx.check(not gap or gap[-1] - gap[0] == len(gap) - 1,
                      'labels', lambda: f'unlabelled at {gap}; ' + d())
            ctx.equal(v.m(arg), S, 'argument', 'event set')
            got.clear()
            got2.clear()
            ctx.equal(v.m(C), p.all, 'alias', 'causet changed')


def sorting(ctx, rng, index):
    n = rng.randint(12, 40) if index % 5 == 0 and not model.SIZE \
        else random_size(rng)
    p, kind = random_poset(rng, n)
    ev, route = build(rng, p)
    how = relabel(rng, ev, p)
    ctx.describe((kind, route, how, p.describe()),
                 nontrivial=p.relations() > 0)
    ctx.count('repeated', how in ('repeat', 'same', 'str'))
    ctx.count('unlabelled', how == 'none')
    ctx.count('mixed_none', how == 'partly')
    v = View(ev)
    C = Causet(set(ev))
    judge(ctx, p, v, C, p.all, ev, how)
    for _ in range(2):
        judge(ctx, p, v, C, random_subset(rng, p.all), ev, how)
        ctx.count('subset')


def exhaustive(ctx, rng, index):
    p, kind = random_poset(rng, rng.randint(2, 5))
    ev, route = build(rng, p)
    ctx.describe((kind, p.describe()), nontrivial=p.relations() > 0)
    v = View(ev)
    C = Causet(set(ev))
    for perm in itertools.permutations(range(1, p.n + 1)):
        for e, lab in zip(ev, perm):
            e.Label = lab
        judge(ctx, p, v, C, p.all, ev, 'perm')
        ctx.count('exhaustive')


WORKLOADS = [W(sorting, 12800, 256000), W(exhaustive, 480, 9600),
             large(sorting, 32, 640),
             huge(sorting)]
