"""Expansion of arbitrary kernels: from kernel to matrix and back."""
from fractions import Fraction as Fr

from .common import (free_knots, legendre, many_knots, mixed,
                     exact_orthogonal)

TOL = dict(tol=1e-8, stol=1e-9)


class Hints:
    def __init__(self, sx, sy, ngauss, nsvals=9):
        self.segments_x, self.segments_y = sx, sy
        self.ngauss, self.nsvals = ngauss, nsvals


class Kernel:
    """kernel that takes the values T[i, j] where the i-th x and the j-th y
    are asked for, and records where it was"""
    def __init__(self, h, table, sx, sy, ngauss, sym=None, dt=None):
        self.h, self.table, self.sym = h, table, sym
        self.hints = Hints(h.arr(sx), h.arr(sy), ngauss)
        self.calls = []
        self.eps = []
        self.xrange = sx[0], sx[-1]
        self.yrange = sy[0], sy[-1]
        self.lambda_ = 8.0
        self.ypower = 0

    @property
    def is_centrosymmetric(self):
        return self.sym is not None

    def get_symmetrized(self, sign):
        return self.sym[sign]

    def sve_hints(self, eps):
        self.eps.append(eps)
        return self.hints

    def __call__(self, x, y, x_plus=None, x_minus=None):
        self.calls.append((x, y, x_plus, x_minus))
        t = self.table
        assert tuple(self.h.np.broadcast_shapes(x.shape, y.shape)) == t.shape
        return self.h.arr(t).astype(x.dtype)


def _small_rules(h):
    return {1: ([0.0], [2.0]),
            2: ([-h.np.sqrt(h.num(Fr(1, 3))), h.np.sqrt(h.num(Fr(1, 3)))], [1.0, 1.0]),
            3: ([-h.np.sqrt(h.num(Fr(3, 5))), 0.0, h.np.sqrt(h.num(Fr(3, 5)))],
                [h.num(Fr(5, 9)), h.num(Fr(8, 9)), h.num(Fr(5, 9))])}


def nodes(h, n, segs):
    """Gauss nodes and weights on all segments, from the textbook"""
    if n > 3:
        rule = h.mod('_gauss').legendre(n)
        r = {n: (list(rule.x), list(rule.w))}
    else:
        r = _small_rules(h)
    r = r[n]
    x, w = [], []
    for a, b in zip(segs[:-1], segs[1:]):
        for t, s in zip(*r):
            x.append((a + b) / 2 + (b - a) / 2 * t)
            w.append((b - a) / 2 * s)
    return x, w


def _segs(h, nseg, tag, end=None):
    k = free_knots(h, nseg, tag, step=.25)
    if end is not None:         # last one fixed
        k = [a - k[-1] + end for a in k[:-1]] + [end]
    return k


def matrix(h):
    """any kernel values, orders 1 to 3, one or two segments per axis with any
    ends, order given or hinted"""
    n = h.choice('n', [1, 2, 3])
    gx, gy = h.choice('segments', [(1, 1), (2, 1), (1, 2)])
    sx, sy = _segs(h, gx, 'x'), _segs(h, gy, 'y')
    T = h.reals('K', (n * gx, n * gy), -2, 2)
    given = h.choice('given', [False, True])
    K = Kernel(h, T, sx, sy, 7 if given else n)
    sve = h.mod('sve').SamplingSVE(K, 1e-8, n_gauss=n if given else None)
    m, = sve.matrices
    x, wx = nodes(h, n, sx)
    y, wy = nodes(h, n, sy)
    h.check("shape", tuple(m.shape) == T.shape)
    (cx, cy, cp, cm), = K.calls
    for i in range(len(x)):
        h.eq("x", cx[i, 0], x[i], **TOL)
        h.eq("x - xmin", cp[i, 0], x[i] - sx[0], **TOL)
        h.eq("xmax - x", cm[i, 0], sx[-1] - x[i], **TOL)
        for j in range(len(y)):
            h.eq("matrix", m[i, j], h.np.sqrt(wx[i]) * T[i, j]
                 * h.np.sqrt(wy[j]), **TOL)
    for j in range(len(y)):
        h.eq("y", cy[0, j], y[j], **TOL)
    h.check("same again", sve.matrices[0] is not m)
    h.eq("repeated", sve.matrices[0], m)
    h.check("hint", sve.nsvals_hint == 9)
    h.check("accuracy handed on", K.eps == [1e-8])


def _gram_check(h, data, gram, label):
    """the integrals of products of any two functions are the products of the
    vectors, so that orthonormal vectors give orthonormal functions; the
    overall sign is open"""
    order, nseg, size = data.shape
    for l in range(size):
        for m in range(l + 1):
            s = sum(data[k, i, l] * data[k, i, m] * h.num(Fr(2, 2*k + 1))
                    for k in range(order) for i in range(nseg))
            if l == m:
                h.eq(label, s, gram(l, m), **TOL)
            else:
                h.eq(label, s * s, gram(l, m)**2, **TOL)


def _values_at(h, p, x, w, n):
    """node values times root of weight"""
    seg = [i // n for i in range(len(x))]
    out = []
    for xi, wi, i in zip(x, w, seg):
        lo, hi = p.knots[i], p.knots[i + 1]
        c = p.data[:, i]
        t = (2 * xi - (lo + hi)) / (hi - lo)
        leg = legendre(c.shape[0], t)
        row = sum(a * q for a, q in zip(c, leg)) * h.np.sqrt(2 / (hi - lo))
        out.append(row * h.np.sqrt(wi))
    return out


def _svd_factors(h, m, n, size, name=''):
    u = h.reals(name + 'u', (m, size), -1, 1)
    v = h.reals(name + 'v', (n, size), -1, 1)
    s = [h.real(name + 's0', .5, 4)]
    for l in range(1, size):
        s.append(h.real('%ss%d' % (name, l), .25, 4))
        h.assume(s[-2] >= s[-1] + .015625)
    return u, h.arr(s), v


def postprocess(h):
    """order 2 on one or two segments each, order 1 and 3 on one; any
    vectors, any singular values, two of them (or one)"""
    n, gx, gy = h.choice('case', [(2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1),
                                  (1, 2, 2)])
    size = h.choice('size', [1, 2])
    sx = _segs(h, gx, 'x', 1.0)
    sy = _segs(h, gy, 'y')
    K = Kernel(h, h.arr([[0.] * (n*gy)] * (n*gx)), sx, sy, n)
    sve = h.mod('sve').SamplingSVE(K, .125)
    u, s, v = _svd_factors(h, n * gx, n * gy, size)
    res = sve.postprocess([u], [s], [v], float)
    x, wx = nodes(h, n, sx)
    y, wy = nodes(h, n, sy)
    h.eq("knots x", res.u.knots, h.arr(sx))
    h.eq("knots y", res.v.knots, h.arr(sy))
    h.eq("values", res.s, s)
    h.check("kernel", res.K is K and res.eps == .125)
    h.check("sizes", res.u.size == res.v.size == size
            and res.u.polyorder == n)
    _gram_check(h, res.u.data, lambda l, m: u[:, l] @ u[:, m],
                "u orthonormal")
    _gram_check(h, res.v.data, lambda l, m: v[:, l] @ v[:, m],
                "v orthonormal")
    ux, vy = _values_at(h, res.u, x, wx, n), _values_at(h, res.v, y, wy, n)
    for l in range(size):
        end = sum(res.u.data[k, -1, l] for k in range(n))
        h.check("sign", end >= 0)
        for i in range(len(x)):
            for j in range(len(y)):
                h.eq("products", ux[i][l] * vy[j][l], u[i, l] * v[j, l],
                     **TOL)


def sign(h):
    """order 1 on up to three segments, any vectors: the sign at the end, and
    pairs stay pairs, for up to three functions"""
    size = h.choice('size', [1, 3])
    P = h.lib.poly.PiecewiseLegendrePoly
    du, dv = h.reals('u', (2, 1, size), -2, 2), h.reals('v', (1, 2, size),
                                                       -2, 2)
    u, v = P(du, h.arr([-1., 1.])), P(dv, h.arr([-1., .5, 1.]))
    for l in range(size):
        e = du[0, 0, l] + du[1, 0, l]
        h.assume(h.either(e > 1e-6, e < -1e-6))
    h.mod('sve')._canonicalize(u, v)
    for l in range(size):
        up = h.truth(du[0, 0, l] + du[1, 0, l] > 0)
        s = 1.0 if up else -1.0
        h.eq("u", u.data[:, :, l], s * du[:, :, l])
        h.eq("v", v.data[:, :, l], s * dv[:, :, l])


ROT = [((.6, .8), (.28, -.96)), ((-.8, .6), (.96, .28))]


def _rot(h, name, even):
    """two singular triples with fixed vectors and arbitrary values"""
    (a, b), (c, d) = ROT[0 if even else 1]
    _, s, _ = _svd_factors(h, 2, 2, 2, name)
    return h.arr([[a, b], [b, -a]]), s, h.arr([[c, -d], [d, c]])


def _centro(h, n, g, ne, no, fixed=False):
    """centrosymmetric kernel from arbitrary expansions of its even and odd
    part"""
    hx = [0.0] + [h.real('x%d' % i, .25, .75) for i in range(1, g)] + [1.0]
    hy = [0.0] + [h.real('y%d' % i, .25, .75) for i in range(1, g)] + [1.0]
    fx = [-a for a in hx[:0:-1]] + hx
    fy = [-a for a in hy[:0:-1]] + hy
    z = h.arr([[0.] * (n * g)] * (n * g))
    sym = {s: Kernel(h, z, hx, hy, n) for s in (1, -1)}
    K = Kernel(h, None, fx, fy, n, sym)
    even = _svd_factors(h, n * g, n * g, ne, 'e')
    odd = _svd_factors(h, n * g, n * g, no, 'o')
    if fixed:
        even, odd = _rot(h, 'E', True), _rot(h, 'O', False)
    # kernels of the blocks, so that their matrices have these factors
    x, wx = nodes(h, n, hx)
    y, wy = nodes(h, n, hy)
    for s, (a, b, c) in ((1, even), (-1, odd)):
        m = (a * b) @ c.T
        t = [[m[i, j] / (h.np.sqrt(wx[i]) * h.np.sqrt(wy[j]))
              for j in range(len(y))] for i in range(len(x))]
        sym[s].table = h.arr(t)
    return K, even, odd, (hx, hy, fx, fy), (x, wx, y, wy)


def _merged(h, even, odd):
    """(value, sign, index) in descending order"""
    out = [(even[1][i], 1, i) for i in range(even[1].size)] \
        + [(odd[1][i], -1, i) for i in range(odd[1].size)]
    res = []
    for o in out:
        pos = len(res)
        while pos and h.truth(o[0] > res[pos - 1][0]):
            pos -= 1
        res.insert(pos, o)
    return res


def _check_centro(h, res, even, odd, segs, nd, n, keep=None):
    hx, hy, fx, fy = segs
    x, wx, y, wy = nd
    order = _merged(h, even, odd)[:keep]
    h.check("number", res.s.size == res.u.size == res.v.size == len(order))
    h.eq("values", res.s, h.arr([o[0] for o in order]))
    h.eq("parity", res.u.symm, h.arr([float(o[1]) for o in order]))
    h.eq("parity of v", res.v.symm, h.arr([float(o[1]) for o in order]))
    h.eq("knots", res.u.knots, h.arr(fx))
    h.eq("knots of v", res.v.knots, h.arr(fy))
    def gram(which):
        def f(l, m):
            (_, a, i), (_, b, j) = order[l], order[m]
            u = (even, odd)[a < 0][which]
            return u[:, i] @ u[:, j] if a == b else 0.0
        return f
    _gram_check(h, res.u.data, gram(0), "u orthonormal")
    _gram_check(h, res.v.data, gram(2), "v orthonormal")
    xs = [-a for a in x[::-1]] + x
    ys = [-a for a in y[::-1]] + y
    ux = _values_at(h, res.u, xs, wx[::-1] + wx, n)
    vy = _values_at(h, res.v, ys, wy[::-1] + wy, n)
    N = len(x)
    for l, (s, sg, i) in enumerate(order):
        a, b = (even if sg == 1 else odd)[::2]
        h.check("sign", sum(res.u.data[k, -1, l] for k in range(n)) >= 0)
        for p in range(N):
            h.eq("even or odd", ux[N - 1 - p][l], sg * ux[N + p][l], **TOL)
            h.eq("even or odd, v", vy[N - 1 - p][l], sg * vy[N + p][l], **TOL)
            for q in range(N):
                h.eq("products", 2 * ux[N + p][l] * vy[N + q][l],
                     a[p, i] * b[q, i], **TOL)


def centrosymm(h):
    """one or two segments per half axis, order 1 or 2, up to two functions of
    either parity, any factors, in any order, of either parity tiny or not"""
    n, g = h.choice('case', [(2, 1), (1, 2)])
    ne, no = h.choice('sizes', [(1, 1), (2, 1), (1, 2), (0, 1), (1, 0)])
    K, even, odd, segs, nd = _centro(h, n, g, max(ne, 1), max(no, 1))
    even = even[0][:, :ne], even[1][:ne], even[2][:, :ne]
    odd = odd[0][:, :no], odd[1][:no], odd[2][:, :no]
    tiny = h.choice('values', ['alike', 'tiny even', 'tiny odd'])
    for a in even[1]:
        for b in odd[1]:
            h.assume(h.either(a >= b + 2.**-20, a <= b - 2.**-20))
    if tiny == 'tiny even':
        even = even[0], even[1] * 2.**-60, even[2]
    elif tiny == 'tiny odd':
        odd = odd[0], odd[1] * 2.**-60, odd[2]
    sve = h.mod('sve').CentrosymmSVE(K, .125)
    h.check("hint", sve.nsvals_hint == 9)
    res = sve.postprocess([even[0], odd[0]], [even[1], odd[1]],
                          [even[2], odd[2]], float)
    h.check("kernel", res.K is K and res.eps == .125)
    _check_centro(h, res, even, odd, segs, nd, n)


def compute(h):
    """order 1 on two segments or 2 on one, fixed vectors and arbitrary
    distinct singular values, two of either parity; all strategies; everything
    kept, or the leading ones; with and without use of symmetry"""
    sve = h.mod('sve')
    n, g = h.choice('case', [(2, 1), (1, 2)])
    K, even, odd, segs, nd = _centro(h, n, g, 1, 1, fixed=True)
    for f in even, odd:
        h.svd_known((f[0] * f[1]) @ f[2].T, *f)
    for a in even[1]:
        for b in odd[1]:
            h.assume(h.either(a >= b + .015625, a <= b - .015625))
    keep = h.choice('n_sv', [None, 3, 1])
    strat = h.choice('strategy', ['fast', 'default', 'accurate'])
    res = sve.compute(K, eps=1e-8, n_sv=keep, work_dtype=float,
                      svd_strat=strat)
    _check_centro(h, res, even, odd, segs, nd, n, keep)


def plain(h):
    """the same for a kernel without symmetry, or with symmetry unused:
    working precision and order given or not"""
    sve = h.mod('sve')
    n, g = h.choice('case', [(2, 1), (1, 2)])
    sx, sy = _segs(h, g, 'x', 1.0), _segs(h, g, 'y')
    u, s, v = _rot(h, 'E', True)
    x, wx = nodes(h, n, sx)
    y, wy = nodes(h, n, sy)
    m = (u * s) @ v.T
    T = h.arr([[m[i, j] / (h.np.sqrt(wx[i]) * h.np.sqrt(wy[j]))
                for j in range(2)] for i in range(2)])
    strat = h.choice('sve_strat', [None, 'sampling'])
    given = h.choice('given', [False, True])
    K = Kernel(h, T, sx, sy, 7 if given else n, sym=None if strat is None
               else {})
    h.svd_known(m, u, s, v)
    kw = dict(n_gauss=n) if given else {}
    if strat is not None:
        kw['sve_strat'] = sve.SamplingSVE
    cut = h.choice('cutoff', [None, 'some'])
    keep = 2
    if cut is not None:
        # between the two
        kw['cutoff'] = .5
        keep = 2 if h.truth(s[1] > s[0] / 2) else 1
        h.assume(h.either(s[1] >= s[0] / 2 + .0009765625,
                          s[1] <= s[0] / 2 - .0009765625))
    eps = h.choice('eps', [None, 1e-8, 1e-3])
    dt = h.choice('work', [None, float])
    res = sve.compute(K, eps=eps, work_dtype=dt, **kw)
    h.check("number", res.s.size == res.u.size == res.v.size == keep)
    h.eq("values", res.s, s[:keep], **TOL)
    h.check("accuracy", K.eps[0] == res.eps)
    h.check("accuracy at least as required", eps is None or dt is not None
            or res.eps <= eps)
    ux, vy = _values_at(h, res.u, x, wx, n), _values_at(h, res.v, y, wy, n)
    for l in range(keep):
        h.check("sign", sum(res.u.data[k, -1, l] for k in range(n)) >= 0)
        for i in range(2):
            for j in range(2):
                h.eq("products", ux[i][l] * vy[j][l], u[i, l] * v[j, l],
                     **TOL)


def _vectors(h, name, m, size):
    """fixed orthonormal vectors"""
    turn = 1 if name == 'v' else 0
    return exact_orthogonal(h, m, turn)[:, :size]


def large(h):
    """sizes as in real use: order 10 (with symmetry: 16) on 4 and 2 segments per axis, 12
    functions with fixed orthonormal vectors and some arbitrary singular
    values; kernels with and without symmetry"""
    sve = h.mod('sve')
    centro = h.choice('symmetry', [True, False])
    n, gx, gy, size = 16 if centro else 10, 4, 2, 12
    hx = [0.0, .125, .25, .5, 1.0]
    hy = [0.0, .5, 1.0]
    fx = [-a for a in hx[:0:-1]] + hx if centro else hx
    fy = [-a for a in hy[:0:-1]] + hy if centro else hy
    z = h.arr([[0.] * (n * gy)] * (n * gx))
    x, wx = nodes(h, n, hx)
    y, wy = nodes(h, n, hy)

    def factors(name):
        s = [2.0**-(i // 2) * (1 - (i % 2) / 4) for i in range(size)]
        if name == 'o':
            s = [a * 7 / 8 for a in s]
        k = h.choice('free' + name, [0, size - 1]) if name == 'e' else 4
        lo = s[k + 1] if k + 1 < size else s[k] / 2
        hi = s[k - 1] if k else 2 * s[k]
        s[k] = h.real('s' + name, lo + (s[k] - lo) / 2, hi - (hi - s[k]) / 2)
        return (_vectors(h, 'u', n * gx, size), h.arr(s),
                _vectors(h, 'v', n * gy, size))
    even = factors('e')
    if not centro:
        K = Kernel(h, z, hx, hy, n)
        u, s, v = even
        res = sve.SamplingSVE(K, .125).postprocess([u], [s], [v], float)
        h.eq("values", res.s, s)
        h.check("sizes", res.u.size == res.v.size == size
                and res.u.polyorder == n)
        ux, vy = _values_at(h, res.u, x, wx, n), _values_at(h, res.v, y, wy,
                                                            n)
        for l in range(size):
            h.check("sign", sum(res.u.data[k, -1, l] for k in range(n)) >= 0)
            for i in 0, 17, n * gx - 1:
                for j in 0, 6, n * gy - 1:
                    h.eq("products", ux[i][l] * vy[j][l], u[i, l] * v[j, l],
                         **TOL)
        return
    odd = factors('o')
    sym = {s: Kernel(h, z, hx, hy, n) for s in (1, -1)}
    K = Kernel(h, None, fx, fy, n, sym)
    for e in even[1]:
        for o in odd[1]:
            h.assume(h.either(e >= o + 2.**-20, e <= o - 2.**-20))
    res = sve.CentrosymmSVE(K, .125).postprocess(
        [even[0], odd[0]], [even[1], odd[1]], [even[2], odd[2]], float)
    order = _merged(h, even, odd)
    h.check("number", res.s.size == res.u.size == res.v.size == 2 * size)
    h.eq("values", res.s, h.arr([o[0] for o in order]))
    h.eq("parity", res.u.symm, h.arr([float(o[1]) for o in order]))
    h.eq("parity of v", res.v.symm, h.arr([float(o[1]) for o in order]))
    h.eq("knots", res.u.knots, h.arr(fx))
    ux = _values_at(h, res.u, [-a for a in x[::-1]] + x, wx[::-1] + wx, n)
    vy = _values_at(h, res.v, [-a for a in y[::-1]] + y, wy[::-1] + wy, n)
    N, M = len(x), len(y)
    for l, (s, sg, i) in enumerate(order):
        a, b = (even if sg == 1 else odd)[::2]
        h.check("sign", sum(res.u.data[k, -1, l] for k in range(n)) >= 0)
        for p in 0, 17, N - 1:
            h.eq("even or odd", ux[N - 1 - p][l], sg * ux[N + p][l], **TOL)
            for q in 0, 6, M - 1:
                h.eq("even or odd, v", vy[M - 1 - q][l],
                     sg * vy[M + q][l], **TOL)
                h.eq("products", 2 * ux[N + p][l] * vy[M + q][l],
                     a[p, i] * b[q, i], **TOL)


def large_matrix(h):
    """order 10 and 16 on many segments per axis, some kernel values
    arbitrary: nodes, offsets and weights"""
    n, gx, gy = h.choice('sizes', [(10, 12, 4), (16, 3, 8)])
    sx, sy = many_knots(gx), [2 * k for k in many_knots(gy)]
    T = mixed(h, 'K', (n * gx, n * gy), [(0, 0), (5, 7), (n*gx - 1, 0)])
    K = Kernel(h, T, sx, sy, n)
    m, = h.mod('sve').SamplingSVE(K, 1e-8).matrices
    x, wx = nodes(h, n, sx)
    y, wy = nodes(h, n, sy)
    h.check("shape", tuple(m.shape) == T.shape)
    (cx, cy, cp, cm), = K.calls
    h.eq("x", cx[:, 0], h.arr(x), **TOL)
    h.eq("x - xmin", cp[:, 0], h.arr(x) - sx[0], **TOL)
    h.eq("xmax - x", cm[:, 0], sx[-1] - h.arr(x), **TOL)
    h.eq("y", cy[0], h.arr(y), **TOL)
    for i in 0, 5, n * gx // 2, n * gx - 1:
        for j in 0, 7, n * gy - 1:
            h.eq("matrix", m[i, j], h.np.sqrt(wx[i]) * T[i, j]
                 * h.np.sqrt(wy[j]), **TOL)


HARNESSES = [(matrix, {}), (postprocess, {}), (sign, {}), (centrosymm, {}),
             (compute, {}), (plain, {}),
             (large, {}), (large_matrix, {})]
