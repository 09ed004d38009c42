'''Independent causality oracles of the supported spacetimes.

Each oracle answers for two points x, y: +1 (x before y), -1 (y before x),
0 (unrelated), or None if the pair is too close to a light cone (or another
boundary) to be judged in floating point arithmetic.'''
import math
from decimal import Decimal, localcontext
from fractions import Fraction


def flat(x, y, period=None, margin=1e-7, local=False):
    '''Exact rational arithmetic; null pairs are judged if they are exactly
    null (all numbers of moderate size, dyadic). The margin scales with the
    coordinates, or if `local` with the separation (plus 1e-11, for points
    with exact coordinate differences).'''
    dt = Fraction(y[0]) - Fraction(x[0])
    r2 = Fraction(0)
    for i in range(1, len(x)):
        d = abs(Fraction(y[i]) - Fraction(x[i]))
        P = Fraction(0) if period is None else Fraction(period[i - 1])
        if P > 0:
            d = d % P
            d = min(d, P - d)
        r2 += d * d
    s = dt * dt - r2
    scale = max([1] + [abs(Fraction(c)) for c in list(x) + list(y)])
    if s == 0:
        return (1 if dt > 0 else -1) if dt != 0 else None
    if local:
        if abs(s) < Fraction(margin) * max(dt * dt, r2) + Fraction(1e-11):
            return None
    elif abs(s) < Fraction(margin) * scale * scale:
        return None
    if s < 0:
        return 0
    return 1 if dt > 0 else -1


def _dot(x, y):
    return math.fsum(a * b for a, b in zip(x[1:], y[1:]))


def desitter(x, y, alpha, margin=1e-5):
    a, b = _dot(x, x) / alpha**2, _dot(y, y) / alpha**2
    if abs(a - 1) < 1e-6 or abs(b - 1) < 1e-6:
        return None
    if a > 1 or b > 1:
        return 0
    c = (1 - _dot(x, y) / alpha**2) / math.sqrt((1 - a) * (1 - b))
    travel = math.acosh(max(1.0, c))
    dt = (y[0] - x[0]) / alpha
    s = math.sqrt((1 - a) * (1 - b)) * (
        math.cosh(min(abs(dt), 300.)) - math.cosh(travel))
    if abs(abs(dt) - travel) < margin or (1 - a) < 1e-4 or \
            (1 - b) < 1e-4 or abs(s) * alpha**2 < 1e-8 * (1 + alpha**2):
        return None
    if abs(dt) < travel:
        return 0
    return 1 if dt > 0 else -1


def antidesitter(x, y, alpha, margin=1e-5):
    a, b = _dot(x, x) / alpha**2, _dot(y, y) / alpha**2
    c = (1 + _dot(x, y) / alpha**2) / math.sqrt((1 + a) * (1 + b))
    travel = math.acos(max(-1.0, min(1.0, c)))
    dt = (y[0] - x[0]) / alpha
    s = math.sqrt((1 + a) * (1 + b)) * (math.cos(dt) - math.cos(travel))
    if abs(abs(dt) - travel) < margin or abs(abs(dt) - math.pi) < margin:
        return None
    if abs(dt) < math.pi and abs(s) * alpha**2 < 1e-8 * (1 + alpha**2):
        return None
    if abs(dt) < travel:
        return 0
    return 1 if dt > 0 else -1


def nearby_travel(x, y, alpha, desitter):
    '''Travel time of light between the positions of close points of (anti-)
    de Sitter space in static coordinates, free of cancellation: the (hyper-)
    spherical distance of the conformal metric, in 60 digits.'''
    with localcontext() as c:
        c.prec = 60
        k = Decimal(-1 if desitter else 1) / Decimal(alpha)**2
        X, Y = ([Decimal(v) for v in p[1:]] for p in (x, y))
        a = 1 + k * sum(v * v for v in X)
        b = 1 + k * sum(v * v for v in Y)
        d = 1 + k * sum(v * w for v, w in zip(X, Y))
        square = d * d / (a * b) - 1    # sinh^2 or -sin^2 of the distance
        root = math.sqrt(max(0.0, float(square if desitter else -square)))
    return alpha * (math.asinh(root) if desitter else math.asin(root))


def _null_coordinates(p, rs, eddington):
    '''(v, w): the ingoing ray is v = const, the outgoing w = const.'''
    t, r = p[0], abs(p[1])
    if eddington:
        return t + r, t - r - 2 * rs * math.log(abs(r - rs))
    tortoise = r + rs * math.log(abs(r - rs))
    return t + tortoise, t - tortoise


def blackhole(x, y, rs, eddington, margin=1e-6):
    rx, ry = abs(x[1]), abs(y[1])
    near = 1e-9 * min(1.0, rs)
    if min(rx, ry) < near or \
            any(abs(r - rs) < near and not (eddington and r == rs)
                for r in (rx, ry)):
        return None
    if (x[1] < 0) != (y[1] < 0):
        return 0
    if rs in (rx, ry):
        # exactly on the horizon, which is a light ray of its own: its points
        # precede exactly the points on it or inside beyond the ingoing ray
        dv = y[0] + ry - x[0] - rx
        if abs(dv) < margin:
            return None
        if dv > 0:
            return 1 if ry <= rs <= rx else 0
        return -1 if rx <= rs <= ry else 0
    if abs(rx - ry) < margin and (rx < rs or not eddington):
        if abs(x[0] - y[0]) < margin:
            return None
    vx, wx = _null_coordinates(x, rs, eddington)
    vy, wy = _null_coordinates(y, rs, eddington)
    if abs(vx - vy) < margin or abs(wx - wy) < margin:
        return None

    def before(va, wa, ra, vb, wb, rb):
        if va > vb:         # v never decreases towards the future
            return False
        if ra < rs:         # inside: the other ray runs inwards as well
            return rb < rs and wb < wa
        return rb < rs or wb > wa
    if before(vx, wx, rx, vy, wy, ry):
        return 1
    if before(vy, wy, ry, vx, wx, rx):
        return -1
    return 0
