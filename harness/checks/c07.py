'''C07: text files preserve the causet.'''
import os
import pathlib
import numpy as np
from causets.causet import Causet
import model
from core import W, scratch
from build import View, assert_order, scene, huge, large
from model import bits, random_poset

RULE = ('roundtrip: random causets (1..25 events) written by saveAsCSV, the '
        'file inspected, and read back by FromTextFile; read: files written '
        'by the harness with various delimiters, orientation, header and '
        'comment lines, file objects. '
        '*_large: the same with 30-70 events, *_huge with 256-300. '
        'Non-trivial: at least one relation.')
REQUIRED = {'large': 20, 'huge': 8, 'roundtrips': 100, 'single_event': 3, 'monitor:file': 100,
            'reads': 100, 'monitor:read': 100, 'rectangular': 50,
            'refused:more': 20, 'refused:loop': 20, 'refused:self': 20}


def fname(rng):
    d = os.path.join(scratch(), f'files{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{rng.getrandbits(40)}.csv')


def events_by_label(ctx, C, n, what):
    ev = [None] * n
    for e in C:
        ctx.check(1 <= e.Label <= n and ev[e.Label - 1] is None, 'labels',
                  what)
        ev[e.Label - 1] = e
    ctx.check(None not in ev, 'labels', what)
    return ev


def compare(ctx, C, p, kind, what):
    ctx.equal(C.Card, p.n, kind, what)
    ev = events_by_label(ctx, C, p.n, what)
    v = View(ev)
    for i in range(p.n):
        ctx.equal(v.m(ev[i].Past), p.past[i], kind, what)
        ctx.equal(v.m(ev[i].Future), p.fut[i], kind, what)


def roundtrip(ctx, rng, index):
    n = 1 if index % 20 == 0 else rng.randint(1, 12) if index % 5 else \
        rng.randint(13, 25)
    s = scene(ctx, rng, n=n)
    n = s.p.n
    if n == 1:
        ctx.count('single_event')
    path = fname(rng)
    order = [s.v.i(e) for e in s.C.sortedByCausality()]
    ctx.call('saveAsCSV', s.C.saveAsCSV, path)
    try:
        with open(path) as f:
            rows = [line.strip() for line in f if line.strip()]
        q = s.p.restrict(order)
        want = [','.join(str((q.past[i] >> j) & 1) for j in range(n))
                for i in range(n)]
        ctx.equal(rows, want, 'file', lambda: f'{s.p.describe()}')
        C = ctx.call('FromTextFile', Causet.FromTextFile, path) \
            if rng.random() < .5 else \
            ctx.call('FromTextFile', Causet.FromTextFile, path, True, ',')
        compare(ctx, C, q, 'roundtrip', lambda: f'{s.p.describe()}')
        # the future matrix of the same file is the reversed order
        D = ctx.call('FromTextFile', Causet.FromTextFile, path,
                     isPastMatrix=False)
        r = q.restrict(list(range(n)))
        r.past, r.fut = q.fut, q.past
        compare(ctx, D, r, 'roundtrip', lambda: f'{s.p.describe()}')
    finally:
        os.unlink(path)
    assert_order(ctx, s.ev, s.p, 'saving')
    ctx.equal(s.v.m(s.C), s.p.all, 'members', '')
    ctx.count('roundtrips')


def read(ctx, rng, index):
    p, kind = random_poset(rng, model.SIZE or rng.randint(1, 12))
    past = rng.random() < .5
    src = rng.choice([p.past, p.links()[0]]) if past else \
        rng.choice([p.fut, p.links()[1]])
    M = np.array([[(src[i] >> j) & 1 for j in range(p.n)]
                  for i in range(p.n)], dtype=int)
    delim = rng.choice([',', ';', ' ', '\t', '|'])
    head = rng.choice([0, 0, 1, 3])
    comment = rng.random() < .3
    missing = rng.random() < .3
    rows = M
    if missing:     # less rows (columns of a future matrix)
        N = M if past else M.T
        k = p.n
        while k > 1 and not N[k - 1].any():
            k -= 1
        N = N[:rng.randint(k, p.n)]
        rows = N if past else N.T
        ctx.count('rectangular', len(N) < p.n)
    bad = ''
    if rng.random() < .15:
        bad = rng.choice(['more', 'loop', 'self'])
        k = rng.randint(1, 3)
        if bad == 'more':   # rows (columns) too many
            add = np.array([[rng.randint(0, 1) for _ in range(p.n)]
                            for _ in range(k)])
            N = np.vstack([M if past else M.T, add])
            rows = N if past else N.T
        elif bad == 'self' or p.n == 1:
            rows = M.copy()
            i = rng.randrange(p.n)
            rows[i, i] = 1
        else:               # a cycle over some events
            rows = M.copy()
            c = rng.sample(range(p.n), rng.randint(2, p.n))
            for i, j in zip(c, c[1:] + c[:1]):
                rows[i, j] = 1
    ctx.describe((past, delim, head, rows.tolist()),
                 nontrivial=p.relations() > 0)
    path = fname(rng)
    with open(path, 'w') as f:
        for h in range(head):
            f.write(f'header {h}\n')
        if comment:
            f.write('# a comment\n')
        for r in rows:
            f.write(delim.join(map(str, r)) + '\n')
    kw = {}
    if head:
        kw['skip_header'] = head
    if not past or rng.random() < .3:
        kw['isPastMatrix'] = past
    if delim != ',' or rng.random() < .3:
        kw['delimiter'] = delim
    try:
        if bad:
            ctx.raises('refused', ValueError, Causet.FromTextFile, path, **kw)
            ctx.count(f'refused:{bad}')
            return
        k = rng.random()
        if k < .3:
            with open(path) as f:
                C = ctx.call('FromTextFile', Causet.FromTextFile, f, **kw)
        elif k < .4:
            C = ctx.call('FromTextFile', Causet.FromTextFile,
                         pathlib.Path(path), **kw)
        elif k < .5:
            with open(path) as f:
                C = ctx.call('FromTextFile', Causet.FromTextFile,
                             f.read().split('\n'), **kw)
        else:
            C = ctx.call('FromTextFile', Causet.FromTextFile, path, **kw)
        compare(ctx, C, p, 'read', lambda: f'{kw} {rows.tolist()}')
    finally:
        os.unlink(path)
    ctx.count('reads')


WORKLOADS = [W(roundtrip, 1920, 38400), W(read, 1920, 38400),
             large(roundtrip, 32, 640), large(read, 32, 640),
             huge(roundtrip),
             huge(read)]
