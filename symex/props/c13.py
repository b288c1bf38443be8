"""Discrete extrema, sign changes and default Matsubara points."""
from .c08 import Table
from .common import numbers


def _abs_gt(h, a, b):
    return h.truth(abs(a) > abs(b))


def _extrema(h, f, grid):
    """strict local extrema and outer points, by definition"""
    n = len(grid)
    v = [f.at(x) for x in grid]
    out = []
    if _abs_gt(h, v[0], v[1]) or h.truth(v[0] * v[1] < 0):
        out.append(grid[0])
    for i in range(1, n - 1):
        if h.truth(v[i] > v[i-1]) == h.truth(v[i] > v[i+1]):
            out.append(grid[i])
    if _abs_gt(h, v[-1], v[-2]) or h.truth(v[-1] * v[-2] < 0):
        out.append(grid[-1])
    return out


def _changes(h, f, grid):
    """zeros, and the integers before sign changes, by definition"""
    v = [f.at(x) for x in grid]
    zero = [h.truth(a == 0) for a in v]
    neg = [not z and h.truth(a < 0) for a, z in zip(v, zero)]
    return [x for i, x in enumerate(grid) if zero[i] or
            i + 1 < len(grid) and not zero[i + 1] and neg[i] != neg[i + 1]]


def _distinct(h, f, grid):
    """neighbouring values differ and none vanishes"""
    for a, b in zip(grid[:-1], grid[1:]):
        h.assume(h.either(f.at(a) > f.at(b), f.at(a) < f.at(b)))
    for a in grid:
        h.assume(h.either(f.at(a) > 0, f.at(a) < 0))


def extrema_consecutive(h):
    """arbitrary sequences of 2 to 4 (thorough: 5) non-zero values on consecutive integers,
    neighbours different"""
    n = h.choice('length', h.pick([2, 3, 4], [2, 3, 4, 5]))
    start = h.choice('start', [0, -2, 7])
    grid = list(range(start, start + n))
    f = Table(h)
    _distinct(h, f, grid)
    got = h.mod('_roots').discrete_extrema(f, h.arr(grid))
    h.check("extrema", [int(x) for x in got] == _extrema(h, f, grid))


def extrema_sparse(h):
    """magnitude strictly rising up to some integer and falling from there,
    seen on a grid that shows a rise and a fall: that integer is found"""
    grid = h.choice('grid', h.pick(
        [[0, 3, 6], [0, 1, 5], [0, 4, 5, 8], [2, 5, 6, 7, 9], [0, 2, 4, 6],
         [-4, 0, 2]],
        [[0, 3, 6], [0, 1, 5], [0, 4, 5, 8], [2, 5, 6, 7, 9], [0, 2, 4, 6],
         [-4, 0, 2], [0, 5, 11], [0, 1, 4, 9, 16], [0, 8, 16], [0, 7, 13]]))
    lo, hi = grid[0], grid[-1]
    peak = h.choice('peak', list(range(lo + 1, hi)))
    sign = h.choice('sign', [1, -1])
    g = Table(h, lo=0)
    for x in range(lo, hi):
        d = g.at(x + 1) - g.at(x)
        h.assume(d > 0 if x < peak else d < 0)
    h.assume(g.at(lo) > 0)
    h.assume(g.at(hi) > 0)
    # there are a rise and a fall on the grid
    h.assume(g.at(grid[1]) > g.at(lo))
    h.assume(g.at(hi) < g.at(grid[-2]))
    got = h.mod('_roots').discrete_extrema(
        lambda x: sign * g(x), h.arr(grid))
    h.check("peak", [int(x) for x in got] == [peak])


class _Poly:
    """what a transform needs to know of polynomials"""
    xmin, xmax = -1, 1

    def __init__(self, h, nf, symm):
        self.h, self.nf, self.sym = h, nf, symm

    shape = property(lambda s: () if s.nf is None else (s.nf,))
    size = property(lambda s: 1 if s.nf is None else s.nf)
    ndim = property(lambda s: 0 if s.nf is None else 1)

    @property
    def symm(self):
        return self.h.arr(self.sym)


def _table_ft(h, freq, tables, symm, grid):
    """the real class with a table of arbitrary values as its transform"""
    FT = h.lib.poly.PiecewiseLegendreFT

    class TableFT(FT):
        _DEFAULT_GRID = h.arr(grid)

        def __init__(self, tables, symm):
            single = not isinstance(tables, list)
            FT.__init__(self, _Poly(h, None if single else len(tables), symm),
                        freq)
            self.tables = tables

        def __getitem__(self, l):
            return TableFT(self.tables[l], self.poly.sym[l])

        def __call__(self, n):
            n = h.np.asarray(n)
            zeta = {'odd': 1, 'even': 0}[freq]
            m = (n - zeta) // 2
            re, im = self.tables
            return re(m) + 1j * im(m)

    return TableFT(tables, symm)


def _reflect(xs, zeta):
    n = [2*x + zeta for x in xs]
    return sorted(set(n) | {-x for x in n})


PART = {(1, 0): 0, (1, 1): 1, (-1, 0): 1, (-1, 1): 0}


def transform_points(h):
    """extrema and sign changes of a transform that takes arbitrary values at
    up to three consecutive frequencies (thorough: four), of either parity and statistics,
    with the part given or found, on the given or default grid"""
    zeta = h.choice('zeta', [0, 1])
    symm, part = h.choice('symm and part', [
        (1, None), (-1, None), (1, 'real'), (1, 'imag')])
    grid = list(range(h.choice('length', h.pick([2, 3], [2, 3, 4]))))
    tabs = (Table(h, 're'), Table(h, 'im'))
    f = tabs[PART[symm, zeta] if part is None else
             ['real', 'imag'].index(part)]
    what = h.choice('what', ['extrema', 'sign_changes'])
    if what == 'extrema':
        _distinct(h, f, grid)
    default = part is None and what == 'extrema'
    ft = _table_ft(h, ['even', 'odd'][zeta], tabs, symm,
                   grid if default else [0, 9])
    kw = {} if part is None else dict(part=part)
    if not default:
        kw['grid'] = h.arr(grid)
    fnc = getattr(ft, what)
    half = fnc(positive_only=True, **kw)
    full = fnc(**kw)
    ref = (_extrema if what == 'extrema' else _changes)(h, f, grid)
    h.check("positive only", [int(x) for x in half] ==
            [2*x + zeta for x in ref])
    h.check("all", [int(x) for x in full] == _reflect(ref, zeta))
    h.check("integers", bool(h.np.issubdtype(full.dtype, h.np.integer))
            or not ref)


def polynomial_points(h):
    """transforms of even and odd polynomials of order up to 4 with one arbitrary
    coefficient, on three consecutive frequencies (thorough: four)"""
    zeta = h.choice('zeta', [0, 1])
    symm = h.choice('symm', [1, -1])
    a, b = h.real('a', -2, 2), h.choice('b', h.pick([.5], [.5, -1.25]))
    data = [a, 0, b] if symm == 1 else [0, a, 0, b]
    p = h.lib.poly.PiecewiseLegendrePoly(
        h.arr([[x] for x in data]), h.arr([-1.0, 1.0]), symm=h.arr(symm))
    ft = h.lib.poly.PiecewiseLegendreFT(p, ['even', 'odd'][zeta])
    grid = list(range(h.pick(3, 4)))
    vals = ft(h.arr([2*m + zeta for m in grid]))
    vals = vals.imag if PART[symm, zeta] else vals.real
    other = ft(h.arr([2*m + zeta for m in grid]))
    other = other.real if PART[symm, zeta] else other.imag
    h.eq("other part vanishes", other, 0 * vals)
    what = h.choice('what', h.pick(['sign_changes'],
                                   ['extrema', 'sign_changes']))
    f = Table(h)
    for m in grid:
        f.v[float(m)] = vals[m]
        # stay clear of rounding
        h.assume(h.either(vals[m] > 1e-6, vals[m] < -1e-6))
    for m in grid[:-1]:
        for s in (1, -1) if what == 'extrema' else ():
            d = vals[m + 1] - s * vals[m]
            h.assume(h.either(d > 1e-6, d < -1e-6))
    ref = (_extrema if what == 'extrema' else _changes)(h, f, grid)
    got = getattr(ft, what)(grid=h.arr(grid))
    h.check("points", [int(x) for x in got] == _reflect(ref, zeta))
    half = getattr(ft, what)(grid=h.arr(grid), positive_only=True)
    h.check("non-negative", [int(x) for x in half] ==
            [2*x + zeta for x in ref])


def single_only(h):
    """extrema of several functions at once, and of functions of unknown
    parity, are refused"""
    what = h.choice('what', ['extrema', 'sign_changes'])
    zeta = h.choice('zeta', [0, 1])
    tab = (Table(h, 're'), Table(h, 'im'))
    freq = ['even', 'odd'][zeta]
    many = _table_ft(h, freq, [tab, tab], [1, -1], [0, 1, 2])
    h.raises("several", ValueError, lambda: getattr(many, what)())
    none = _table_ft(h, freq, tab, 0, [0, 1, 2])
    h.raises("no parity", ValueError, lambda: getattr(none, what)())
    h.raises("bad part", ValueError,
             lambda: getattr(many[0], what)(part='abs'))


def default_points(h):
    """default points from sets of 1 to 4 functions with arbitrary values at
    three (thorough: four) consecutive frequencies, 1 to 5 points requested"""
    zeta = h.choice('zeta', [0, 1])
    nf, L = h.choice('functions and L', [
        (1, 1), (2, 1), (2, 2), (2, 5), (4, 1), (4, 2), (4, 3)])
    grid = list(range(h.pick(3, 4)))
    tabs = [(Table(h, 're%d' % l), Table(h, 'im%d' % l)) for l in range(nf)]
    symm = [(-1)**l for l in range(nf)]
    uhat = _table_ft(h, ['even', 'odd'][zeta], tabs, symm, grid)
    # the smallest number of sign changes of this parity that suffices
    want = L + (L + zeta + 1) % 2
    if want < nf:
        l, ref = want, _changes
    else:
        l, ref = nf - 1, _extrema
    f = tabs[l][PART[symm[l], zeta]]
    if ref is _extrema:
        _distinct(h, f, grid)
    else:
        h.assume(h.either(f.at(0) > 0, f.at(0) < 0))
        h.assume(h.truth(f.at(0) > 0) != h.truth(f.at(1) > 0))
    fnc = h.mod('basis')._default_matsubara_sampling_points
    full = [int(x) for x in fnc(uhat, L)]
    half = [int(x) for x in fnc(uhat, L, positive_only=True)]
    h.check("sorted and distinct", all(a < b for a, b in
                                       zip(full[:-1], full[1:])))
    h.check("parity", all(x % 2 == zeta for x in full + half))
    h.check("symmetric", [-x for x in full[::-1]] == full)
    h.check("non-negative half", half == [x for x in full if x >= 0])
    if zeta == 0 and ref is _extrema:
        h.check("zero included", 0 in full and 0 in half)
    pts = ref(h, f, grid)
    if zeta == 0 and ref is _extrema and 0 not in pts:
        pts = [0] + pts
    h.check("points", full == _reflect(pts, zeta))


def fence(h):
    """fencing 20 or 42 points whose outermost is an arbitrary integer keeps
    them, their parity, order and symmetry"""
    zeta = h.choice('zeta', [0, 1])
    positive = h.choice('positive', [False, True])
    size = h.choice('size', [4, 20, 42])
    n = size if positive else size // 2
    inner = [2*k + 2 - zeta for k in range(n - 1)]
    m = h.int('m', n + 1, 2**20)
    half = inner + [2*m - zeta]
    wn = half if positive else [-x for x in half[::-1]] + half
    got = h.mod('basis')._fence_matsubara_sampling(h.arr(wn), positive)
    got = list(got)
    h.check("sorted", [a < b for a, b in zip(got[:-1], got[1:])])
    h.check("parity", [x % 2 == zeta for x in got])
    if not positive:
        h.check("symmetric", [a == -b for a, b in zip(got, got[::-1])])
    for x in wn:
        h.check("kept", h.truth(sum(h.np.where(h.arr(got) == x, 1, 0)) == 1))
    h.check("at most two points per end", len(got) <=
            len(wn) + 2 * (1 if positive else 2))


def large_extrema(h):
    """40 values on consecutive integers, fixed but for two arbitrary ones next
    to each other"""
    grid = list(range(-3, 37))
    f = Table(h)
    k = h.choice('place', [0, 13, 38])
    for i, (x, v) in enumerate(zip(grid, numbers(40, h.choice(
            'seed', [1, 2]), -2, 2, 24))):
        if i not in (k, k + 1):
            f.v[float(x)] = v if i % 3 else abs(v)
    _distinct(h, f, grid)
    got = h.mod('_roots').discrete_extrema(f, h.arr(grid))
    h.check("extrema", [int(x) for x in got] == _extrema(h, f, grid))


def large_points(h):
    """default points from sets of 12 and 24 functions with fixed values at 60
    consecutive frequencies but for two arbitrary ones, 3 to 24 points
    requested; extrema and sign changes of one of the functions"""
    zeta = h.choice('zeta', [0, 1])
    nf, L = h.choice('functions and L', [(12, 3), (12, 10), (24, 24),
                                         (24, 23), (24, 30), (24, 16)])
    grid = list(range(60))
    want = L + (L + zeta + 1) % 2
    l, ref = (want, _changes) if want < nf else (nf - 1, _extrema)
    tabs = []
    for k in range(nf):
        pair = []
        for part in 're', 'im':
            t = Table(h, '%s%d' % (part, k))
            # alternate up to some frequency, then keep the sign
            for x, v in zip(grid, numbers(60, 2 * k + (part == 'im'), .5, 2,
                                          24)):
                s = 1 if x > k or (x + k) % 2 else -1
                t.v[float(x)] = s * v
            pair.append(t)
        tabs.append(tuple(pair))
    symm = [(-1)**k for k in range(nf)]
    f = tabs[l][PART[symm[l], zeta]]
    at = h.choice('free', [3, 30, 58])
    for x in at, at + 1:
        f.v[float(x)] = h.real('free%d' % x, .25, 2) * (
            1 if f.v[float(x)] > 0 else -1)
    uhat = _table_ft(h, ['even', 'odd'][zeta], tabs, symm, grid)
    if ref is _extrema:
        _distinct(h, f, grid)
    fnc = h.mod('basis')._default_matsubara_sampling_points
    full = [int(x) for x in fnc(uhat, L)]
    half = [int(x) for x in fnc(uhat, L, positive_only=True)]
    pts = ref(h, f, grid)
    if zeta == 0 and ref is _extrema and 0 not in pts:
        pts = [0] + pts
    h.check("points", full == _reflect(pts, zeta))
    h.check("non-negative half", half == [x for x in full if x >= 0])
    name = 'extrema' if ref is _extrema else 'sign_changes'
    if not (ref is _extrema and zeta == 0):
        h.check("of the function", [int(x) for x in getattr(uhat[l], name)(
            positive_only=True, grid=h.arr(grid))] == half)


HARNESSES = [(extrema_consecutive, {}), (extrema_sparse, {}),
             (transform_points, {}), (polynomial_points, {}),
             (single_only, {}), (default_points, {}), (fence, {}),
             (large_extrema, {}), (large_points, {})]
