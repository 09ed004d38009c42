'''Shared monitors of the causality checks.'''
import numpy as np
from causets.embeddedcauset import EmbeddedCauset


def as_pair(r):
    return (bool(r[0]), bool(r[1]))


def judge_pairs(ctx, causal, pts, oracle, what):
    '''Every ordered pair of distinct points against the oracle. Returns the
    matrix of verdicts.'''
    n = len(pts)
    V = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            x = np.array(pts[i], dtype=float)
            y = np.array(pts[j], dtype=float)
            want = oracle(pts[i], pts[j])
            V[i][j] = want
            if want is None:
                ctx.count('undecided')
                continue
            got = as_pair(ctx.call('Causality', causal, x, y))
            ctx.equal(got, (want > 0, want < 0), 'pair',
                      lambda: f'{pts[i]} to {pts[j]} in {what}')
            ctx.check((x == pts[i]).all() and (y == pts[j]).all(),
                      'argument', what)
            ctx.count(('before', 'spacelike', 'after')[1 - want])
    return V


def judge_causet(ctx, M, pts, V, what, shape=None):
    '''The events created from the points have exactly these relations, and
    the relation is transitive.'''
    C = ctx.call('EmbeddedCauset', EmbeddedCauset, spacetime=M,
                 coordinates=[list(p) for p in pts])
    ev = sorted(C, key=lambda e: e.Label)
    n = len(pts)
    for i in range(n):
        for j in range(n):
            if i == j or V[i][j] is None:
                continue
            ctx.equal((ev[j] in ev[i].Future, ev[j] in ev[i].Past),
                      (V[i][j] > 0, V[i][j] < 0), 'embedded',
                      lambda: f'{pts[i]} to {pts[j]} in {what}')
    if any(V[i][j] is None for i in range(n) for j in range(n) if i != j):
        return
    for i in range(n):
        ctx.check(ev[i] not in ev[i].Past, 'strict', what)
        for x in ev[i].Past:
            ctx.check(x.Past <= ev[i].Past, 'transitive',
                      lambda: f'{pts} in {what}')
