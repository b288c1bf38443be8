"""Adapter with the interface of irbasis."""
import math

from .common import fake_sve, many_knots, mixed, piece, value
from .c10 import integral

TOL = dict(tol=1e-8, stol=1e-9)
X0 = [-1.0, -.5, .125, 1.0]


def _adapter(h, size=3, symm=True, order=2, cut=False, stat=None):
    stat = stat or h.choice('statistics', ['F', 'B'])
    K = {'F': h.lib.LogisticKernel, 'B': h.lib.RegularizedBoseKernel}[stat]
    s = [h.real('s0', .5, 2)]
    for i in range(1, size):
        s.append(h.real('s%d' % i, 2.**-7, 2))
        h.assume(s[i] <= s[i-1])
    res = fake_sve(h, size, order, (-1.0, 0.0, 1.0), kernel=K(8.0), symm=symm,
                   s=h.arr(s), eps=.25 if cut else 2.**-20,
                   knots_v=(-1.0, -.5, .5, 1.0))
    return h.mod('adapter').Basis(stat, 8.0, res), res, s, stat


def functions(h):
    """three functions of order 4 with arbitrary coefficients on two segments:
    values and derivatives by single index, index array, and all at once; one
    arbitrary point and given ones"""
    b, res, s, stat = _adapter(h, symm=False, order=4)
    h.check("dim", b.dim() == 3)
    h.check("parameters", b.Lambda == 8.0 and b.statistics == stat)
    which = h.choice('function', ['u', 'v'])
    order = h.choice('derivative', [None, 0, 1, 2, 3])
    p = {'u': res.u, 'v': res.v}[which]
    if order is None:
        f = {'u': b.ulx, 'v': b.vly}[which]
    else:
        g = {'u': b.d_ulx, 'v': b.d_vly}[which]
        f = lambda l, x: g(l, x, order)
        p = p.deriv(order)
    x = h.real('x', -1, 1)
    h.assume(h.either(x <= -2.**-20, x >= 2.**-20))
    ks = list(p.knots)
    ref = [value(h, p.data, ks, x, (l,)) for l in range(3)]
    for l in range(3):
        h.eq("single", f(l, x), ref[l], **TOL)
    got = f(h.arr([2, 0]), x)
    h.check("shape", tuple(got.shape) == (2,))
    h.eq("indices", got, h.arr([ref[2], ref[0]]), **TOL)
    got = f(None, x)
    h.check("shape of all", tuple(got.shape) == (3,))
    h.eq("all", got, h.arr(ref), **TOL)
    xs = h.arr([.5, x])
    at = [value(h, p.data, ks, .5, (l,)) for l in range(3)]
    h.eq("single at points", f(1, xs), h.arr([at[1], ref[1]]), **TOL)
    h.eq("pairs", f(h.arr([2, 1]), xs), h.arr([at[2], ref[1]]), **TOL)
    h.eq("table", f(h.arr([[2], [0]]), xs[None, :]),
         h.arr([[at[2], ref[2]], [at[0], ref[0]]]), **TOL)
    h.eq("all at points", f(None, xs), h.arr(list(zip(at, ref))), **TOL)


def values(h):
    """singular values, by index, indices and all; sections; as many as the
    accuracy of the expansion allows"""
    b, res, s, stat = _adapter(h, cut=h.choice('cut', [False, True]))
    n = sum(1 for x in s if h.truth(x >= res.eps * s[0]))
    h.check("dim", b.dim() == n)
    h.check("number", tuple(b.sl().shape) == (n,))
    for l in range(n):
        h.eq("single", b.sl(l), s[l])
        h.eq("of all", b.sl()[l], s[l])
    h.eq("indices", b.sl(h.arr([n - 1, 0])), h.arr([s[n - 1], s[0]]))
    h.eq("edges x", b.section_edges_x, h.arr([-1.0, 0.0, 1.0]))
    h.eq("edges y", b.section_edges_y, h.arr([-1.0, -.5, .5, 1.0]))
    h.check("sections", b.num_sections_x() == 2 and b.num_sections_y() == 3)
    h.check("functions", tuple(b.ulx(None, .5).shape) == (n,)
            and tuple(b.vly(None, .5).shape) == (n,)
            and (n == 1 or tuple(b.compute_unl([0, 1]).shape) == (2, n)))


def transforms(h):
    """even and odd functions, frequency indices up to 10^6 in magnitude"""
    b, res, s, stat = _adapter(h)
    zeta = 1 if stat == 'F' else 0
    ns = h.choice('n', [[0, 1, -2], [-1, 5, 3]])
    ref = [[integral(h, res.u.data, list(res.u.knots), 2*n + zeta, (l,))
            for l in range(3)] for n in ns]
    got = b.compute_unl(h.arr(ns))
    h.check("shape", tuple(got.shape) == (3, 3))
    h.eq("all", got, h.arr(ref), **TOL)
    h.eq("list of frequencies", b.compute_unl(ns), got)
    h.eq("one frequency", b.compute_unl(ns[1]), h.arr(ref[1]), **TOL)
    for l in range(3):
        one = b.compute_unl(h.arr(ns), l)
        h.check("shape of one", tuple(one.shape) == (3,))
        h.eq("one function", one, h.arr([r[l] for r in ref]), **TOL)
    h.eq("indices", b.compute_unl(h.arr(ns), [2, 0]),
         h.arr([[r[2], r[0]] for r in ref]), **TOL)
    h.eq("array of indices", b.compute_unl(h.arr(ns), h.arr([1, 2])),
         h.arr([[r[1], r[2]] for r in ref]), **TOL)
    h.raises("no index", ValueError, lambda: b.compute_unl([.5]))


def loading(h):
    """the kernel by statistics, any Lambda; computed once"""
    sv = h.mod('sve')
    lam = h.real('Lambda', .25, 1e4)
    stat = h.choice('statistics', ['F', 'B'])
    if not h.symbolic:
        lam = float(lam)
    calls = []
    res = fake_sve(h, 2, 2, symm=True)
    old = sv.compute

    def compute(K, *a, **kw):
        calls.append((K, a, kw))
        return res
    sv.compute = compute
    ad = h.mod('adapter')
    try:
        b = ad.load(stat, lam)
        h.raises("statistics", (KeyError, ValueError),
                 lambda: ad.load('X', lam))
    finally:
        sv.compute = old
    h.check("computed", len(calls) == 1)
    want = h.lib.LogisticKernel if stat == 'F' \
        else h.lib.RegularizedBoseKernel
    h.check("kernel", type(calls[0][0]) is want)
    h.check("cutoff", calls[0][0].lambda_ == lam)
    h.check("default accuracy", calls[0][1:] == ((), {}))
    h.check("kept", b.Lambda == lam and b.statistics == stat)
    h.eq("u", b.ulx(None, .5), res.u(.5))


class Roots:
    """takes the place of the root finder, which `roots` is about"""

    def __init__(self, h, f):
        self.mod, self.f = h.mod('adapter'), f

    def __enter__(self):
        self.old = self.mod._find_roots
        self.mod._find_roots = self.f

    def __exit__(self, *exc):
        self.mod._find_roots = self.old


def _ascending(h, n, lo, hi):
    xs = []
    for i in range(n):
        xs.append(h.real('r%d' % i, lo + 2.**-8, hi - 2.**-8))
        if i:
            h.assume(xs[i] >= xs[i-1] + 2.**-8)
    return xs


def _interlace(h, pts, roots, lo, hi):
    edges = [lo] + list(roots) + [hi]
    h.check("one more than roots", tuple(pts.shape) == (len(roots) + 1,))
    for p, a, b in zip(pts, edges[:-1], edges[1:]):
        h.check("between", [p > a, p < b])
    h.eq("middle", pts, h.arr([(a + b) / 2 for a, b in
                               zip(edges[:-1], edges[1:])]), **TOL)


def points(h):
    """any location of up to three roots in (-1, 1) for x, of up to two in
    (0, 1) for y; every function of a basis of four"""
    b, res, s, stat = _adapter(h, size=4)
    l = h.choice('l', [0, 1, 2, 3])
    asked = []
    what = h.choice('what', ['x', 'y'])
    ad = h.mod('adapter')
    if what == 'x':
        roots = _ascending(h, h.choice('roots', [0, 1, 3]), -1, 1)

        def find(f):
            asked.append(f(.5))
            return h.arr(roots) if roots else h.np.zeros(0)
        with Roots(h, find):
            pts = b.sampling_points_x(l)
            again = ad.sampling_points_x(b, l)
        h.eq("of this function", asked[0], res.u[l](.5))
        _interlace(h, pts, roots, -1.0, 1.0)
    else:
        half = _ascending(h, h.choice('roots', [0, 1, 2]), 0, 1)

        def find(f):
            # on (-1, 1), where -1 and 1 are 0 and 1
            asked.extend([f(-.5), f(.25)])
            return h.arr([2 * r - 1 for r in half]) if half \
                else h.np.zeros(0)
        with Roots(h, find):
            pts = b.sampling_points_y(l)
            again = ad.sampling_points_y(b, l)
        h.eq("of this function", h.arr(asked[:2]),
             h.arr([res.v[l](.25), res.v[l](.625)]), **TOL)
        roots = [-r for r in half[::-1]] + ([0.0] if l % 2 else []) + half
        _interlace(h, pts, roots, -1.0, 1.0)
    h.eq("function and method", again, pts)


CACHE = {}


class Floats:
    """numpy with hyperbolic functions and pi as floating-point numbers"""
    pi = math.pi

    def __init__(self, h):
        self.h = h

    def __getattr__(self, name):
        np = self.h.np
        if name not in ('sinh', 'tanh', 'exp', 'log'):
            return getattr(np, name)
        f = getattr(math, name)

        def call(x):
            if not np.ndim(x):
                return self.h.num(f(float(x)))
            key = (name, x.size, float(x[0]), float(x[1]), float(x[-1]))
            if key not in CACHE:
                CACHE[key] = np.array([self.h.num(f(float(z))) for z in x])
            return CACHE[key].copy()
        return call


def roots(h):
    """functions with one or two sign changes: each at any place in a window
    of 2^-46 (thorough: 2^-44) around one of some points between mesh points,
    the other at a given point that may be three mesh spacings away, of
    either sign; no further ones are found"""
    n = h.choice('sign changes', [1, 2])
    first = h.choice('window', [-.9, .3, 0.0])
    mid = [first] + [h.choice('other', [.55, .303])
                     for _ in range(n - 1)]
    width = h.pick(2.**-46, 2.**-44)
    rs = [mid[0] + h.real('r', -1, 1) * width] + mid[1:]
    sign = h.choice('sign', [1.0, -1.0])

    def f(x):
        x = float(x)
        val = sign
        for m, r in zip(mid, rs):
            if abs(x - m) <= 1.5 * width:
                val = val * (x - r)
            elif x < m:
                val = -val
        return val
    ad = h.mod('adapter')
    old = ad._np
    if h.symbolic:
        ad._np = Floats(h)
    try:
        got = ad._find_roots(f)
    finally:
        ad._np = old
    h.check("number", tuple(got.shape) == (n,))
    for g, r in zip(got, rs):
        h.check("place", abs(g - r) <= 2e-14)


class Unl:
    """basis that takes arbitrary values at given frequency indices"""

    def __init__(self, h, stat, l, grid, part, dim):
        self.h, self.statistics, self.l, self.part = h, stat, l, part
        self.vals = dict(zip(grid, h.reals('f', (len(grid),), -2, 2)))
        self.n = dim

    def dim(self):
        return self.n

    rest = 0.0

    def fill(self):
        """tiny elsewhere, of the sign of the given value before it"""
        sgn = {n: 1 if self.h.truth(v > 0) else -1
               for n, v in self.vals.items()}
        if self.statistics == 'B' and self.part == 'imag':
            sgn[0] = sgn[5]
        for n in range(10**4):
            cur = sgn.get(n, cur if n else 1)
            self.vals.setdefault(n, cur * 2.**-20)
        self.rest = cur * 2.**-20

    def compute_unl(self, n, l=None):
        if l != self.l:
            raise ValueError("wrong function")
        v = self.h.arr([self.vals.get(int(k), self.rest) for k in n])
        return v + 0j if self.part == 'real' else 1j * v


def frequencies(h):
    """sampling frequencies are symmetric about zero and sorted, whatever
    values the function takes on a grid of three or four indices, or at
    three indices while it is tiny at others"""
    stat = h.choice('statistics', ['F', 'B'])
    l = h.choice('l', [2, 3])
    grid = h.choice('grid', [[0, 1, 2], [0, 1, 2, 7], [0, 5, 400]])
    full = len(grid) == 3 and grid[-1] == 400
    part = 'real' if l % 2 == (1 if stat == 'F' else 0) else 'imag'
    dim = 3 if l == 2 and full else 5
    b = Unl(h, stat, l, grid, part, dim)
    vals = [b.vals[n] for n in grid]
    if stat == 'B' and part == 'imag':
        h.assume(vals[0] == 0)
        vals[0] = 0.0
    for i, x in enumerate(vals):
        if i or not (stat == 'B' and part == 'imag'):
            h.assume(h.either(x >= 2.**-10, x <= -2.**-10))
        for y in vals[:i]:
            for s in (1, -1):
                h.assume(h.either(x - s*y >= 2.**-12, x - s*y <= -2.**-12))
    ad = h.mod('adapter')
    old = ad._start_guesses, ad._np
    if not full:
        ad._start_guesses = lambda *a: h.arr(grid)
    else:
        b.fill()
        if h.symbolic:
            ad._np = Floats(h)
    try:
        got = [int(n) for n in ad.sampling_points_matsubara(b, l)]
        h.raises("too large", RuntimeError,
                 lambda: ad.sampling_points_matsubara(b, dim))
    finally:
        ad._start_guesses, ad._np = old
    h.check("ascending", all(p < q for p, q in zip(got[:-1], got[1:])))
    mirror = [-n - 1 for n in got[::-1]] if stat == 'F' \
        else [-n for n in got[::-1]]
    h.check("symmetric", got == mirror)
    h.check("zero", stat == 'F' or 0 in got)
    # the largest value of each run of one sign
    runs, sgn = [], None
    for n, x in zip(grid, vals):
        zero = type(x) is float
        s = None if zero else h.truth(x > 0)
        if not runs or (not zero and sgn is not None and s != sgn):
            runs.append([])
        runs[-1].append((n, x))
        sgn = s if not zero else None
    want = []
    for run in runs:
        best = run[0]
        for n, x in run[1:]:
            if h.truth(abs(x) > abs(best[1])):
                best = (n, x)
        want.append(best[0])
    if stat == 'B':
        want = [n for n in want if n]
        want = [-n for n in want[::-1]] + [0] + want
    else:
        want = [-n - 1 for n in want[::-1]] + want
    h.check("extrema", got == want)


def large(h):
    """20 functions of order 8 on 12 segments, some arbitrary coefficients;
    values and second derivatives by index, indices and all, at one arbitrary
    point and fixed ones; singular values"""
    size, order = 20, 8
    ks = many_knots(12)
    P = h.lib.poly.PiecewiseLegendrePoly
    free = [(0, 0, 0), (7, 11, 19), (3, 5, 13), (1, 8, 4), (6, 2, 11)]
    u, v = [P(mixed(h, n, (order, 12, size), free, i), h.arr(ks))
            for i, n in enumerate('uv')]
    s = [2.0**-l for l in range(size)]
    j = h.choice('free', [1, 12, 18])
    s[j] = h.real('s', s[j + 1], s[j - 1])
    res = h.lib.sve.SVEResult(u, h.arr(s), v, h.lib.LogisticKernel(8.0),
                              2.0**-30)
    b = h.mod('adapter').Basis('F', 8.0, res)
    h.check("dim", b.dim() == size)
    h.eq("values", b.sl(), h.arr(s))
    h.eq("some values", b.sl(h.arr([19, j, 0])), h.arr([s[19], s[j], s[0]]))
    h.eq("edges", b.section_edges_x, h.arr(ks))
    h.check("sections", b.num_sections_x() == 12)
    i = h.choice('segment', [0, 5, 11])
    t = h.real('t', .015625, .984375)
    x = ks[i] + (ks[i + 1] - ks[i]) * t
    for f, g, p in ((b.ulx, b.d_ulx, u), (b.vly, b.d_vly, v)):
        for what, q in ((f, p), (lambda l, x: g(l, x, 2), p.deriv(2))):
            def ref(l):
                return piece(h, [q.data[k, i, l] for k in
                                 range(q.data.shape[0])],
                             ks[i], ks[i + 1], x)
            for l in (0, 4, 19):
                h.eq("single", what(l, x), ref(l), **TOL)
            h.eq("indices", what(h.arr([13, 4]), x),
                 h.arr([ref(13), ref(4)]), **TOL)
            got = what(None, x)
            h.check("shape", tuple(got.shape) == (size,))
            h.eq("all", got, h.arr([ref(l) for l in range(size)]), **TOL)


HARNESSES = [(functions, {}), (values, {}), (transforms, {}), (loading, {}),
             (points, {}), (roots, dict(budget=120)), (frequencies, {}),
             (large, {})]
