'''C14: path enumeration.'''
import collections
from causets.causet import Causet
from core import W
from build import scene, huge, large
from model import bits

RULE = ('paths: every pair (or a sample) of random orders, with every kind '
        'of length argument, against all link paths enumerated in the model; '
        'the iterator is consumed fully, and partly. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: a pair '
        'with several paths or a path through an inner event.')
ASSUMPTIONS = ['paths longer than the recursion limit of Python (about 1000 '
               'events) are not judged']
REQUIRED = {'large': 20, 'huge': 8, 'monitor:Paths': 3000, 'multi': 200,
            'unequal_lengths': 40,
            'len:min': 300, 'len:max': 300, 'len:int': 300, 'len:list': 300,
            'len:any': 300}


def arguments(rng, lens):
    for n in {min(lens), max(lens), rng.choice(lens)} if lens else ():
        yield 'int', n, lambda lens, n=n: lambda k: k == n
        m = n + rng.randint(0, 3)
        yield 'list', [n, m], lambda lens, a=n, b=m: lambda k: a <= k <= b
    yield 'any', None, lambda lens: lambda k: True
    yield 'any', 'any', lambda lens: lambda k: True
    yield 'min', 'min', lambda lens: lambda k: k == min(lens)
    yield 'max', 'max', lambda lens: lambda k: k == max(lens)
    yield 'max', 'timegeo', lambda lens: lambda k: k == max(lens)
    for n in range(1, 8):
        if n < 6 or rng.random() < .5:
            yield 'int', n, lambda lens, n=n: lambda k: k == n
    for _ in range(4):
        a = rng.randint(0, 6)
        b = rng.randint(max(a, 1), 8)
        yield 'list', [a, b], lambda lens, a=a, b=b: lambda k: a <= k <= b
    # a range without any length
    b = rng.randint(1, 5)
    yield 'empty', [b + rng.randint(1, 3), b], lambda lens: lambda k: False
    n = rng.randint(1, 6)
    yield 'list', [n], lambda lens, n=n: lambda k: k == n
    yield 'list', [rng.randint(1, 3), 500], None


def paths(ctx, rng, index):
    s = scene(ctx, rng, kind=rng.choice([None, 'ladder', 'ladder', 'layered',
                                         'grid', 'sparse', 'dag', 'order2d',
                                         'boolean', 'kr']),
              n=rng.randint(0, 12))
    p, v = s.p, s.v
    prs = [(a, b) for a in range(p.n) for b in range(p.n)]
    rng.shuffle(prs)
    prs.sort(key=lambda q: (-min(p.count_paths(*q), 3), not p.lt(*q)))
    seen = 0
    for a, b in prs[:12] + prs[-2:]:
        if p.count_paths(a, b) > 400:
            continue
        ref = p.paths(a, b)
        lens = [len(q) for q in ref]
        if len(ref) > 1:
            ctx.count('multi')
            ctx.count('unequal_lengths', len(set(lens)) > 1)
        for kind, arg, sel in arguments(rng, lens):
            if sel is None:
                def ok(k, lo=arg[0]):
                    return lo <= k
            else:
                ok = sel(lens) if lens else (lambda k: True)
            want = sorted(q for q in ref if ok(len(q)))
            keep = list(arg) if isinstance(arg, list) else arg
            it = ctx.call('Paths', Causet.Paths, s.ev[a], s.ev[b]) \
                if arg is None else \
                ctx.call('Paths', Causet.Paths, s.ev[a], s.ev[b], arg) \
                if rng.random() < .5 else \
                ctx.call('Paths', Causet.Paths, s.ev[a], s.ev[b],
                         length=arg)
            got = ctx.call('Paths', list, it)
            idx = sorted(tuple(v.i(e) for e in q) for q in got)
            ctx.equal(idx, want, 'Paths',
                      lambda: f'({a}, {b}) length={arg!r} of {p.describe()}')
            ctx.equal(arg, keep, 'argument', 'length list')
            ctx.count('len:' + kind)
            seen += len(want)
        if len(ref) > 1:
            it = iter(s.C.Paths(s.ev[a], s.ev[b]))
            first = tuple(v.i(e) for e in next(it))
            ctx.check(first in ref, 'Paths', 'first of partial iteration')
            # consumers may keep and modify what they were given
            got = []
            for q in s.C.Paths(s.ev[a], s.ev[b]):
                got.append(tuple(v.i(e) for e in q))
                q.reverse()
            ctx.equal(sorted(got), sorted(ref), 'Paths',
                      'lists modified during the iteration')
    ctx.describe(('paths', seen), nontrivial=seen > 0)


def invalid(ctx, rng, index):
    s = scene(ctx, rng, n=3, kind='chain')
    for bad in (1.5, None, {'min'}):
        ctx.raises('length', ValueError,
                   lambda: list(s.C.Paths(s.ev[0], s.ev[1], bad)))


WORKLOADS = [W(paths, 4800, 96000), W(invalid, 20, 20), large(paths, 32, 640),
             huge(paths)]
