"""Root finding."""
from .common import eval_mono, numbers


class Table:
    """arbitrary function: a fresh input for every point it is asked for"""

    def __init__(self, h, name='f', lo=-2, hi=2, keep=None):
        self.h, self.name, self.lo, self.hi = h, name, lo, hi
        self.v = {}
        self.keep = keep

    def at(self, x):
        x = float(x)
        if x not in self.v:
            self.v[x] = self.h.real("%s(%r)" % (self.name, x),
                                    self.lo, self.hi)
        return self.v[x]

    def __call__(self, x):
        x = self.h.np.asarray(x)
        if x.ndim == 0:
            return self.h.np.asarray(self.at(x))
        return self.h.arr([self.at(p) for p in x])


def _neg(h, f, x):
    return h.truth(f.at(x) < 0)


def _expected(h, f, grid):
    """hits, and intervals with a sign change, decided by definition"""
    zero = [h.truth(f.at(x) == 0) for x in grid]
    hits = [x for x, z in zip(grid, zero) if z]
    ivs = []
    for i in range(len(grid) - 1):
        if not zero[i] and not zero[i + 1] \
                and _neg(h, f, grid[i]) != _neg(h, f, grid[i + 1]):
            ivs.append((grid[i], grid[i + 1]))
    return hits, ivs


def _match(h, roots, hits, ivs, inside):
    """roots are the hits and one point per interval, in ascending order"""
    roots = [float(r) for r in roots]
    h.check("ascending", all(a <= b for a, b in zip(roots, roots[1:])))
    h.check("number of roots", len(roots) == len(hits) + len(ivs))
    rest = list(roots)
    for x in hits:
        h.check("zero on the grid", float(x) in rest)
        rest.remove(float(x))
    h.check("one point per sign change", len(rest) == len(ivs)
            and all(a <= r <= b for r, (a, b) in zip(sorted(rest), ivs)))
    for r, (a, b) in zip(sorted(rest), ivs):
        inside(r, a, b)


def discrete(h):
    """arbitrary functions of the integers on grids of up to four integers,
    spaced by up to 6 (the function takes arbitrary values between them)"""
    grid = h.choice('grid', [
        [0, 1], [0, 1, 2, 3], [0, 2, 3], [0, 3, 4], [-5, 0], [0, 1, 6],
        [-3, 1, 3], [3, 7], [0, 2, 4], [5]])
    f = Table(h)
    roots = h.mod('_roots').find_all(f, h.arr(grid), type='discrete')
    hits, ivs = _expected(h, f, grid)

    def inside(r, a, b):
        h.check("integer before the sign change", a <= r < b
                and _neg(h, f, r) != _neg(h, f, r + 1))
    _match(h, roots, hits, ivs, inside)


def plain(h):
    """the same for grids that are plain lists; other grids are rejected"""
    grid = h.choice('grid', [[0, 2, 3], [-3, 1]])
    f = Table(h)
    find = h.mod('_roots').find_all
    roots = find(f, list(grid), type='discrete')
    hits, ivs = _expected(h, f, grid)

    def inside(r, a, b):
        h.check("integer before the sign change", a <= r < b
                and _neg(h, f, r) != _neg(h, f, r + 1))
    _match(h, roots, hits, ivs, inside)
    h.raises("matrix", ValueError, lambda: find(f, h.arr([grid, grid]),
                                                type='discrete'))
    h.raises("scalar", ValueError, lambda: find(f, grid[0], type='discrete'))


def discrete_far(h):
    """one interval of up to 24 integers"""
    grid = h.choice('grid', [[0, 16], [2, 25], [-7, 16]])
    f = Table(h)
    roots = h.mod('_roots').find_all(f, h.arr(grid), type='discrete')
    hits, ivs = _expected(h, f, grid)

    def inside(r, a, b):
        h.check("integer before the sign change", a <= r < b
                and _neg(h, f, r) != _neg(h, f, r + 1))
    _match(h, roots, hits, ivs, inside)


def _continuous(h, grid, last):
    """grid in single precision, closed by a far point that fixes the precision
    at last/2**23"""
    np = h.np
    f = Table(h)
    grid = grid + [last]
    # no sign change in the last interval
    h.assume(f.at(grid[-2]) > 0)
    h.assume(f.at(last) > 0)
    seen = h.arr(grid, np.float32)
    roots = h.mod('_roots').find_all(f, seen)
    hits, ivs = _expected(h, f, grid)
    eps = last / 2.0**23

    def inside(r, a, b):
        pts = sorted(x for x in f.v if a <= x <= b)
        near = [(p, q) for p, q in zip(pts, pts[1:]) if p <= r <= q
                and q - p < eps and _neg(h, f, p) != _neg(h, f, q)]
        h.check("sign change within rounding", bool(near))
    _match(h, roots, hits, ivs, inside)
    h.check("grid unchanged", [float(x) for x in seen] == grid)


def continuous(h):
    """arbitrary functions on grids of up to four points (and a far point), two
    to four bisection steps in an interval, intervals of different length"""
    grid, last = h.choice('grid', [
        ([0.0, 1.0], 2.0**22), ([0.0, .5, 1.0], 2.0**21),
        ([-1.0, 0.0, .25], 2.0**21), ([-2.0, -1.5, 0.0, 1.0], 2.0**22),
        ([0.0, .25, 1.0], 2.0**20)])
    _continuous(h, list(grid), last)


def continuous_deep(h):
    """one interval, 7 bisection steps"""
    _continuous(h, [0.0, 1.0], 2.0**17)


# ------------------------------------------------ piecewise polynomials

def _linear(h, vals, knots):
    """coefficients of the piecewise linear function through nodal values"""
    rows = [[], []]
    for (a, b), (x, y) in zip(zip(vals, vals[1:]), zip(knots, knots[1:])):
        nrm = h.np.sqrt((y - x) / 2)
        rows[0].append((a + b) / 2 * nrm)
        rows[1].append((b - a) / 2 * nrm)
    return h.arr(rows)


def _poly(h, data, knots, symm):
    return h.lib.poly.PiecewiseLegendrePoly(
        data, h.arr(knots, h.np.float32), symm=h.np.asarray(symm))


FAR = 2.0**20       # resolution 1/8


def _roots_spec(h, roots, f, grid, eps, odd_centre=None):
    """one root per interval of grid where f changes sign, close to it"""
    roots = [float(r) for r in roots]
    h.check("ascending", all(a <= b for a, b in zip(roots, roots[1:])))
    neg = {x: h.truth(f(x) < 0) for x in grid}
    for a, b in zip(grid, grid[1:]):
        inside = [r for r in roots if a <= r <= b]
        want = int(neg[a] != neg[b])
        h.check("roots in interval", len(inside) == want)
        for r in inside:
            lo, hi = max(r - eps, a), min(r + eps, b)
            if neg[a]:
                h.check("root is close", [f(lo) <= 0, f(hi) >= 0])
            else:
                h.check("root is close", [f(lo) >= 0, f(hi) <= 0])


def even_roots(h):
    """even piecewise linear functions of arbitrary nodal values at distance 0,
    1, 2 from the middle; alpha = 1, 2; domain centred at 0 or 2"""
    far = h.pick(2.0**21, 2.0**20)
    alpha = h.choice('alpha', [1, 2])
    x0 = h.choice('centre', [0.0, 2.0])
    v = h.reals('v', 3, -1, 1)
    for x in v:
        h.assume(abs(x) >= .0625)
    h.assume(v[2] > 0)
    knots = [-far, -2.0, -1.0, 0.0, 1.0, 2.0, far]
    data = _linear(h, [1.0, v[2], v[1], v[0], v[1], v[2], 1.0], knots)
    p = _poly(h, data, [x + x0 for x in knots], 1)
    roots = p.roots(alpha) if alpha != 2 else p.roots()
    neg = [h.truth(x < 0) for x in v]
    h.check("number", len(roots) == 2 * sum(
        neg[i] != neg[i + 1] for i in range(2)))
    roots = h.arr(roots) - x0
    h.eq("symmetric", roots, -roots[::-1])
    _roots_spec(h, roots[len(roots)//2:], lambda x:
                v[0] + (v[1] - v[0]) * x if x <= 1 else
                v[1] + (v[2] - v[1]) * (x - 1),
                [0.0, 1.0, 2.0], (far + x0) / 2**23)


def even_no_knot(h):
    """even functions without a knot in the middle: parabola there"""
    knots = [-FAR, -1.0, 1.0, FAR]
    alpha = h.choice('alpha', [1, 2])
    x0 = h.choice('centre', [0.0, 2.0])
    v = h.reals('v', 2, -1, 1)
    for x in v:
        h.assume(abs(x) >= .0625)
    h.assume(v[1] > 0)
    lin = _linear(h, [1.0, v[1], v[1], 1.0], knots)
    quad = v[1] - v[0]              # x**2 = 1/3 + 2/3 P_2
    rows = [[lin[0][0], v[0] + quad / 3, lin[0][2]],
            [lin[1][0], 0, lin[1][2]], [0, quad * h.num(2) / 3, 0]]
    p = _poly(h, h.arr(rows), [x + x0 for x in knots], 1)
    roots = p.roots(alpha) if alpha != 2 else p.roots()
    h.check("number", len(roots) == (2 if h.truth(v[0] < 0) else 0))
    roots = h.arr(roots) - x0
    h.eq("symmetric", roots, -roots[::-1])
    _roots_spec(h, roots[len(roots)//2:], lambda x: v[0] + quad * x * x,
                [0.0, 1.0], (FAR + x0) / 2**23)


def odd_roots(h):
    """odd piecewise linear functions of arbitrary nodal values; the value in
    the middle deviates from zero by up to 1/1024 on either side"""
    alpha = h.choice('alpha', [1, 2])
    d = h.real('dev', -2.0**-10, 2.0**-10)
    v = h.reals('v', 2, -1, 1)
    for x in v:
        h.assume(abs(x) >= .0625)
    h.assume(v[1] > 0)
    knots = [-FAR, -1.0, -.5, 0.0, .5, 1.0, FAR]
    right = _linear(h, [d, v[0], v[1], 1.0], knots[3:])
    left = _linear(h, [-1.0, -v[1], -v[0], -d], knots[:4])
    p = _poly(h, h.np.hstack([left, right]), knots, -1)
    roots = p.roots(alpha) if alpha != 2 else p.roots()
    h.check("number", len(roots) == (3 if h.truth(v[0] < 0) else 1))
    h.check("middle once", sum(float(r) == 0 for r in roots) == 1)
    if len(roots) == 3:
        f = lambda x: v[0] + (v[1] - v[0]) * (x - .5) * 2
        _roots_spec(h, roots[2:], f, [.5, 1.0], FAR / 2**23)
    h.eq("symmetric", h.arr(roots), -h.arr(roots)[::-1])


def plain_roots(h):
    """functions without parity: two pieces of degree 2 without extremum, in a
    domain that is not centred; alpha = 1, 2 (thorough: 3)"""
    alpha = h.choice('alpha', h.pick([1, 2], [1, 2, 3]))
    far = h.pick(2.0**21, 2.0**20)
    knots = [-far, 0.0, 1.0, 2.0]
    v = [h.real('v0', .0625, 1)]
    up = []
    for i in range(2):
        step = h.real('d%d' % i, .0625, 2)
        up.append(h.choice('up%d' % i, [True, False]))
        v.append(v[-1] + step if up[-1] else v[-1] - step)
        h.assume(abs(v[-1]) >= .0625)
    # bend smaller than slope: monotonic on each piece
    b = h.reals('b', 2, -.0078125, .0078125)
    lin = _linear(h, [1.0, v[0], v[1], v[2]], knots)
    s = h.np.sqrt(.5)
    # 3 b (t**2 - 1) = 2 b (P_2 - P_0) vanishes at the knots
    rows = [[lin[0][0], lin[0][1] - 2 * b[0] * s, lin[0][2] - 2 * b[1] * s],
            list(lin[1]), [0, 2 * b[0] * s, 2 * b[1] * s]]
    p = _poly(h, h.arr(rows), knots, 0)
    roots = p.roots(alpha) if alpha != 2 else p.roots()

    def f(x):
        i = 0 if x <= 1 else 1
        t = 2 * (x - i) - 1
        return (v[i] + v[i + 1]) / 2 + t * (v[i + 1] - v[i]) / 2 \
            + b[i] * 3 * (t * t - 1)
    _roots_spec(h, roots, f, [0.0, 1.0, 2.0], far / 2**23)
    neg = [h.truth(x < 0) for x in v]
    h.check("number", len(roots) == sum(
        neg[i] != neg[i + 1] for i in range(2)))


def several(h):
    """a set of functions has no roots: select one first"""
    data = h.reals('c', (1, 1, 2), -1, 1)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr([-1.0, 1.0]))
    h.raises("set of functions", ValueError, p.roots)


def _signs(n, flips):
    s, out = 1, []
    for i in range(n):
        if i in flips:
            s = -s
        out.append(s)
    return out


def large_discrete(h):
    """grids of 60 points, of which 0 to 59 pairs of neighbours differ in sign
    (fixed pattern of signs, arbitrary values), two intervals being four wide"""
    grid = list(range(-20, 10)) + [14] + list(range(15, 40)) \
        + [44, 45, 46, 47]
    n = len(grid)
    f = Table(h)
    flips = h.choice('flips', [[30, 56], [], [1, 7, 30], [n - 1],
                               list(range(1, n))])
    for x, s in zip(grid, _signs(n, flips)):
        f.v[float(x)] = h.real("f(%r)" % float(x), *(
            (.25, 2) if s == 1 else (-2, -.25)))
    roots = h.mod('_roots').find_all(f, h.arr(grid), type='discrete')
    ivs = [(grid[i - 1], grid[i]) for i in flips]

    def inside(r, a, b):
        h.check("integer before the sign change", a <= r < b
                and _neg(h, f, r) != _neg(h, f, r + 1))
    _match(h, roots, [], ivs, inside)


def large_roots(h):
    """piecewise linear functions on 34 segments with 0 to 32 roots, of any
    parity (fixed pattern of signs, arbitrary nodal values)"""
    far = 2.0**21
    parity = h.choice('parity', [0, 1, -1])
    half = 16
    flips = h.choice('flips', [[16], [], [1, 8], [3, 4, 15],
                               list(range(1, 17))])
    sg = _signs(half + 1, flips)
    sg = [s * sg[-1] for s in sg]
    size = numbers(half + 1, 3, .25, 1)
    k = h.choice('which', [0, 5, half])
    size[k] = h.real('v', .125, 1)
    v = [s * a for s, a in zip(sg, size)]
    inner = [float(x) for x in range(half + 1)]
    if parity == 0:
        knots = [-far] + inner
        vals = [v[0]] + v
    elif parity == 1:
        knots = [-far] + [-x for x in inner[:0:-1]] + inner + [far]
        vals = [v[-1]] + v[:0:-1] + v + [v[-1]]
    else:
        knots = [-far] + [-x for x in inner[:0:-1]] + inner + [far]
        vals = [-v[-1]] + [-a for a in v[:0:-1]] + [0.0] + v[1:] + [v[-1]]
        if flips and flips[0] == 1:
            flips = flips[1:]
    p = _poly(h, _linear(h, vals, knots), knots, parity)
    alpha = h.choice('alpha', [1, 2])
    roots = p.roots(alpha) if alpha != 2 else p.roots()
    want = {0: len(flips), 1: 2 * len(flips), -1: 2 * len(flips) + 1}[parity]
    h.check("number", len(roots) == want)
    if parity == -1:
        h.check("middle", float(roots[len(flips)]) == 0)
    if parity:
        h.eq("symmetric", h.arr(roots), -h.arr(roots)[::-1])
    right = [float(r) for r in (roots[-len(flips):] if flips else [])]
    h.check("ascending", all(a <= b for a, b in zip(right, right[1:])))
    h.check("one root between the knots", [
        j - 1 <= r <= j for j, r in zip(flips, right)])


HARNESSES = [(discrete, {}), (plain, {}), (discrete_far, {}), (continuous, {}),
             (continuous_deep, {}), (even_roots, {}),
             (even_no_knot, {}), (odd_roots, {}),
             (plain_roots, {}), (several, {}),
             (large_discrete, {}), (large_roots, {})]
