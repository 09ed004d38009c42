'''Reference model: finite strict partial orders on 0..n-1 as bit masks.

Deliberately written from the definitions, without looking like the library:
every derived notion (links, ranks, paths, layers, ...) is computed from the
relation alone.'''
import itertools
import random


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


def mask(it):
    m = 0
    for i in it:
        m |= 1 << i
    return m


def popcount(m):
    return bin(m).count('1')


class Poset:
    def __init__(self, n=0):
        self.n = n
        self.past = [0] * n
        self.fut = [0] * n
        self._links = None

    # -- construction -------------------------------------------------------
    @classmethod
    def from_relation(cls, n, pairs):
        '''Transitive closure of the pairs (a, b), meaning a < b.'''
        p = cls(n)
        direct = [0] * n
        for a, b in pairs:
            direct[b] |= 1 << a
        past = direct[:]
        changed = True
        while changed:
            changed = False
            for b in range(n):
                m = past[b]
                for a in bits(past[b]):
                    m |= past[a]
                if m != past[b]:
                    past[b] = m
                    changed = True
        p.past = past
        for b in range(n):
            for a in bits(past[b]):
                p.fut[a] |= 1 << b
        return p

    def is_strict_order(self):
        return all(not (self.past[i] >> i) & 1 for i in range(self.n))

    def add(self, past, fut):
        '''New element above all of `past` and below all of `fut` (masks of
        existing elements); the order is closed transitively. Returns its
        index.'''
        P = past
        for a in bits(past):
            P |= self.past[a]
        F = fut
        for b in bits(fut):
            F |= self.fut[b]
        i = self.n
        self.n += 1
        self.past.append(P)
        self.fut.append(F)
        for a in bits(P):
            self.fut[a] |= F | (1 << i)
        for b in bits(F):
            self.past[b] |= P | (1 << i)
        self._links = None
        return i

    def relate_all(self, A, B):
        '''Every element of A below every element of B, closed.'''
        P = A
        for a in bits(A):
            P |= self.past[a]
        F = B
        for b in bits(B):
            F |= self.fut[b]
        for a in bits(P):
            self.fut[a] |= F
        for b in bits(F):
            self.past[b] |= P
        self._links = None

    def isolate(self, i):
        m = ~(1 << i)
        for j in range(self.n):
            self.past[j] &= m
            self.fut[j] &= m
        self.past[i] = self.fut[i] = 0
        self._links = None

    def restrict(self, keep):
        '''Induced order on the list `keep`, renumbered.'''
        idx = {e: k for k, e in enumerate(keep)}
        q = Poset(len(keep))
        for e in keep:
            q.past[idx[e]] = mask(idx[x] for x in bits(self.past[e])
                                  if x in idx)
            q.fut[idx[e]] = mask(idx[x] for x in bits(self.fut[e])
                                 if x in idx)
        return q

    # -- queries ------------------------------------------------------------
    @property
    def all(self):
        return (1 << self.n) - 1

    def lt(self, a, b):
        return bool((self.past[b] >> a) & 1)

    def le(self, a, b):
        return a == b or self.lt(a, b)

    def cone(self, a):
        return self.past[a] | self.fut[a] | (1 << a)

    def link(self, a, b):
        return self.lt(a, b) and not (self.fut[a] & self.past[b])

    def links(self):
        '''(lpast, lfut) masks of the covering relation.'''
        if self._links is None:
            lp, lf = [0] * self.n, [0] * self.n
            for b in range(self.n):
                for a in bits(self.past[b]):
                    if not (self.fut[a] & self.past[b]):
                        lp[b] |= 1 << a
                        lf[a] |= 1 << b
            self._links = (lp, lf)
        return self._links

    def relations(self):
        return sum(popcount(p) for p in self.past)

    def interval(self, a, b):
        if a == b:
            return 1 << a
        if not self.lt(a, b):
            return 0
        return (self.fut[a] & self.past[b]) | (1 << a) | (1 << b)

    def rank(self, a, b):
        '''Least number of links of a path from a to b, None if a !<= b.'''
        if not self.le(a, b):
            return None
        lf = self.links()[1]
        front, d = 1 << a, 0
        while not (front >> b) & 1:
            nxt = 0
            for x in bits(front):
                nxt |= lf[x]
            front = nxt
            d += 1
        return d

    def rank_work(self, a, b, memo):
        '''The calls that Rank takes from a to b if it tries all pairs of a
        link future of a and a link past of b (an estimate of time).'''
        key = (a, b)
        if key not in memo:
            memo[key] = 1
            r = self.rank(a, b)
            if r is not None and r >= 3:
                lp, lf = self.links()
                memo[key] = popcount(lf[a]) * popcount(lp[b]) if r == 3 else \
                    1 + sum(self.rank_work(x, y, memo)
                            for x in bits(lf[a]) for y in bits(lp[b]))
        return memo[key]

    def longest(self, a, b):
        '''Greatest number of links of a path from a to b.'''
        if not self.le(a, b):
            return None
        lf = self.links()[1]
        lim = self.interval(a, b)
        front, d, best = 1 << a, 0, 0
        while front:
            if (front >> b) & 1:
                best = d
            nxt = 0
            for x in bits(front):
                nxt |= lf[x] & lim
            front, d = nxt, d + 1
        return best

    def paths(self, a, b, limit=200000):
        '''All paths of links from a to b, as tuples.'''
        if not self.le(a, b):
            return []
        lf = self.links()[1]
        lim = self.interval(a, b)
        out = []
        stack = [(a,)]
        while stack:
            p = stack.pop()
            if p[-1] == b:
                out.append(p)
                if len(out) > limit:
                    return None
                continue
            for x in bits(lf[p[-1]] & lim):
                stack.append(p + (x,))
        return out

    def count_paths(self, a, b):
        if not self.le(a, b):
            return 0
        lf = self.links()[1]
        lim = self.interval(a, b)
        memo = {}

        def f(x):
            if x == b:
                return 1
            if x not in memo:
                memo[x] = sum(f(y) for y in bits(lf[x] & lim))
            return memo[x]
        return f(a)

    def height(self):
        h = [0] * self.n
        for i in self.linear_extension():
            for a in bits(self.past[i]):
                h[i] = max(h[i], h[a] + 1)
        return h

    def linear_extension(self):
        return sorted(range(self.n), key=lambda i: popcount(self.past[i]))

    def is_chain(self, S):
        return all(S & ~self.cone(e) == 0 for e in bits(S))

    def is_antichain(self, S):
        return all((self.cone(e) & S) == (1 << e) for e in bits(S))

    def components(self, S):
        comps = []
        rest = S
        while rest:
            c = rest & -rest
            while True:
                d = c
                for e in bits(c):
                    d |= self.cone(e) & S
                if d == c:
                    break
                c = d
            comps.append(c)
            rest &= ~c
        return comps

    def key(self):
        return (self.n, tuple(self.past))

    def describe(self):
        lp = self.links()[0]
        return {'n': self.n, 'links': [(a, b) for b in range(self.n)
                                       for a in bits(lp[b])]}


# --------------------------------------------------------------------------
# generators
def random_poset(rng, n, kind=None):
    kinds = ['dag', 'dag', 'sparse', 'order2d', 'order2d', 'order3d',
             'layered', 'chain', 'antichain', 'union', 'series', 'fence',
             'boolean', 'tree', 'grid', 'kr', 'ladder', 'sandwich']
    kind = rng.choice(KINDS) if KINDS else kind or rng.choice(kinds)
    if n == 0:
        return Poset(0), kind
    pairs = []
    if kind == 'dag':
        p = rng.choice([0.15, 0.3, 0.5, 0.8])
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)
                 if rng.random() < p]
    elif kind == 'sparse':
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)
                 if rng.random() < 1.3 / max(n, 1)]
    elif kind in ('order2d', 'order3d'):
        d = 2 if kind == 'order2d' else 3
        c = [[rng.random() for _ in range(d)] for _ in range(n)]
        pairs = [(a, b) for a in range(n) for b in range(n) if a != b and
                 all(x < y for x, y in zip(c[a], c[b]))]
    elif kind == 'layered':
        layers = [[] for _ in range(rng.randint(2, max(2, n // 2 + 1)))]
        for i in range(n):
            rng.choice(layers).append(i)
        p = rng.choice([0.3, 0.6, 1.0])
        for k in range(len(layers) - 1):
            pairs += [(a, b) for a in layers[k] for b in layers[k + 1]
                      if rng.random() < p]
    elif kind == 'kr':
        a, b = n // 4, n // 4 + n // 2
        pairs = [(x, y) for x in range(a) for y in range(a, b)
                 if rng.random() < .5]
        pairs += [(x, y) for x in range(a, b) for y in range(b, n)
                  if rng.random() < .5]
    elif kind == 'chain':
        pairs = [(a, a + 1) for a in range(n - 1)]
    elif kind == 'union':
        k = rng.randint(0, n)
        p, q = random_poset(rng, k)[0], random_poset(rng, n - k)[0]
        pairs = [(a, b) for b in range(k) for a in bits(p.past[b])]
        pairs += [(k + a, k + b) for b in range(n - k)
                  for a in bits(q.past[b])]
    elif kind == 'series':
        k = rng.randint(0, n)
        p, q = random_poset(rng, k)[0], random_poset(rng, n - k)[0]
        pairs = [(a, b) for b in range(k) for a in bits(p.past[b])]
        pairs += [(k + a, k + b) for b in range(n - k)
                  for a in bits(q.past[b])]
        pairs += [(a, b) for a in range(k) for b in range(k, n)]
    elif kind == 'fence':
        k = max(1, n // 2)
        pairs = [(i, k + (i + s) % k) for i in range(k) for s in (0, 1)
                 if k + (i + s) % k < n]
    elif kind == 'boolean':
        pairs = [(a, b) for a in range(n) for b in range(n)
                 if a != b and a & b == a]
    elif kind == 'tree':
        for b in range(1, n):
            a = rng.randrange(b)
            pairs.append((a, b))
        if rng.random() < .5:
            pairs = [(n - 1 - b, n - 1 - a) for a, b in pairs]
    elif kind == 'grid':
        w = rng.randint(1, 4)
        pairs = [(i, i + 1) for i in range(n - 1) if (i + 1) % w]
        pairs += [(i, i + w) for i in range(n - w)]
    elif kind == 'sandwich':
        # almost everything between (or above, or below) a few elements
        a = min(n - 1, rng.randint(0, 2))
        b = min(n - a, rng.randint(0, 2))
        if n > 256 and rng.random() < .6:   # exactly 256 in the middle
            a = rng.randint(1, n - 256) if n > 257 else 1
            b = n - 256 - a
        for x in range(a, n - b):
            pairs += [(y, x) for y in range(a)]
            pairs += [(x, y) for y in range(n - b, n)]
    elif kind == 'ladder':
        # two chains of different lengths sharing their ends: minimal and
        # maximal paths differ
        k = rng.randint(1, max(1, n - 2))
        mid = list(range(1, n - 1))
        up, dn = mid[:k], mid[k:]
        for ch in (up, dn):
            ch = [0] + ch + ([n - 1] if n > 1 else [])
            pairs += [(a, b) for a, b in zip(ch, ch[1:]) if a != b]
    p = Poset.from_relation(n, pairs)
    perm = list(range(n))
    rng.shuffle(perm)
    q = Poset.from_relation(n, [(perm[a], perm[b]) for b in range(n)
                                for a in bits(p.past[b])])
    return q, kind


KINDS = None    # the same for the kinds of orders
SIZE = None     # set while a workload runs with large orders


def random_size(rng, big=False):
    if SIZE is not None:
        return SIZE
    r = rng.random()
    if r < .05:
        return rng.randint(0, 1)
    if r < .35:
        return rng.randint(2, 5)
    if r < .9 or not big:
        return rng.randint(4, 11)
    return rng.randint(12, 30)


def random_subset(rng, S, p=None):
    p = rng.choice([.2, .5, .8]) if p is None else p
    return mask(i for i in bits(S) if rng.random() < p)


def random_linear_extension(rng, p):
    left = set(range(p.n))
    out = []
    while left:
        m = mask(left)
        ready = [i for i in left if not p.past[i] & m]
        i = rng.choice(sorted(ready))
        out.append(i)
        left.remove(i)
    return out


def random_maximal_antichain(rng, p):
    order = list(range(p.n))
    rng.shuffle(order)
    S = 0
    for i in order:
        if not p.cone(i) & S:
            S |= 1 << i
    return S


__all__ = [k for k in dir() if not k.startswith('_') and
           k not in ('itertools', 'random')]
