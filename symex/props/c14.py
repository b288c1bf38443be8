"""Sampling: evaluation and least-squares fit."""
from .common import indices, exact_orthogonal, mixed


def phases(h, name, q):
    """rows times arbitrary phases"""
    ph = [a + 1j * h.np.sqrt(1 - a*a) for a in h.reals(name, q.shape[0],
                                                       -1, 1)]
    return h.arr([[p * x for x in row] for p, row in zip(ph, q)])


def mat(h, name, m, n, cplx=False, s=None, lo=.25):
    """arbitrary m x n matrix given by its decomposition (rotations, up to
    phases), registered as what the library SVD returns"""
    k = min(m, n)
    u = h.orthonormal(name + 'u', m, k)
    v = h.orthonormal(name + 'v', n, k)
    if s is None:
        s = [h.real(name + 's%d' % i, lo, 4) for i in range(k)]
        for a, b in zip(s[:-1], s[1:]):
            h.assume(a >= b + .125)
    if cplx:
        u = phases(h, name + 'p', u)
        v = phases(h, name + 'q', v)
    s = h.arr(s)
    a = (u * s) @ v.T.conj()
    h.svd_known(a, u, s, v.conj())
    return a, u, s, v


class Basis:
    """a basis that takes the values A[i, l] at the i-th of some points"""
    def __init__(self, h, pts, a, well=False, stat='F'):
        self.h, self.pts, self.a = h, [float(p) for p in pts], a
        self.is_well_conditioned = well
        self.size = a.shape[1]
        self.shape = self.size,
        self.statistics = stat
        self.beta = 1.0

    def _row(self, p):
        for i, q in enumerate(self.pts):
            if self.h.truth(p == q):
                return i
        return 0

    def u(self, x):
        rows = [self._row(p) for p in self.h.np.asarray(x)]
        if len(rows) == len(self.pts) and all(
                self.pts[i] == q for i, q in zip(rows, self.pts)):
            rows = range(len(rows))     # repeated points
        return self.h.arr([self.a[i] for i in rows]).T

    def uhat(self, n):
        return self.u(n)

    def default_tau_sampling_points(self, *, npoints=None):
        return self.h.arr(self.pts)

    def default_matsubara_sampling_points(self, *, npoints=None,
                                          positive_only=False):
        return self.h.arr(self.pts)


TAU = [0.0, 1.0, .5, .25]
WN = [3, -1, 1, 5]


def contract(h, a, x, axis):
    """sum over the given axis of x, by definition"""
    ax = axis % x.ndim
    out = {}
    for i in indices(x.shape[:ax] + (a.shape[0],) + x.shape[ax+1:]):
        out[i] = sum(a[i[ax], l] * x[i[:ax] + (l,) + i[ax+1:]]
                     for l in range(a.shape[1]))
    return out


def _data(h, name, shape, axis, n, cplx):
    shape = list(shape)
    shape[axis % len(shape)] = n
    if cplx == 'whole':
        return h.ints(name, tuple(shape), -9, 9)
    f = h.cplx if cplx else h.reals
    return f(name, tuple(shape), -2, 2)


SHAPES = [((0,), 0), ((0, 2), 0), ((2, 0), 1), ((2, 0), -1), ((0, 2, 2), 0),
          ((2, 0, 3), 1), ((2, 2, 0), 2), ((2, 2, 0), -1), ((0, 2, 1), -3),
          ((2, 0, 3, 2), 1), ((2, 2, 2, 0), -1), ((0, 2, 2, 2), 0),
          ((2, 2, 0, 3), 2), ((2, 2, 2, 0), 3), ((0, 1, 2, 1, 2), 0),
          ((2, 1, 0, 1, 2), 2), ((2, 1, 2, 1, 0), -1), ((1, 2, 1, 0, 2), -2)]


def _sampling(h, kind, a, pts=None, **kw):
    m = a.shape[0]
    if kind == 'tau':
        b = Basis(h, TAU[:m], a, **kw)
        return h.lib.TauSampling(b, pts), b
    b = Basis(h, WN[:m], a, **kw)
    return h.lib.MatsubaraSampling(b, pts), b


def evaluate(h):
    """arbitrary 3 x 2 and 2 x 3 matrices, real and complex data of ranks 1 to
    5 along every axis"""
    kind = h.choice('kind', ['tau', 'matsubara'])
    m, n = h.choice('matrix', [(3, 2), (2, 3)])
    a = (h.cplx if kind == 'matsubara' else h.reals)('a', (m, n), -2, 2)
    h.svd_opaque()
    smpl, b = _sampling(h, kind, a)
    shape, axis = h.choice('shape', SHAPES)
    x = _data(h, 'x', shape, axis, n,
              h.choice('complex', [False, True, 'whole']))
    got = smpl.evaluate(x, axis=axis)
    ref = contract(h, a, x, axis)
    for i in ref:
        h.eq("sum", got[i], ref[i])
    h.check("shape", tuple(got.shape) == tuple(
        m if k == axis % x.ndim else d for k, d in enumerate(x.shape)))
    if axis == 0 and x.ndim < 3:
        h.eq("first axis is default", smpl.evaluate(x), got)
    h.check("points", [float(p) for p in smpl.sampling_points] == b.pts)
    h.check("basis", smpl.basis is b)


def points(h):
    """evaluation and matrix on given points: subsets, permuted, repeated"""
    kind = h.choice('kind', ['tau', 'matsubara'])
    a = (h.cplx if kind == 'matsubara' else h.reals)('a', (4, 2), -2, 2)
    h.svd_opaque()
    sel = h.choice('points', [[0], [2, 0], [3, 2, 1, 0], [1, 1, 2], []])
    smpl, b = _sampling(h, kind, a)
    all_pts = TAU if kind == 'tau' else WN
    pts = [all_pts[i] for i in sel]
    x = h.reals('x', (2, 2), -2, 2)
    form = h.choice('form', ['list', 'array', 'constructor'])
    if not sel:
        return
    if form == 'constructor':
        other = type(smpl)(b, h.arr(pts))
        h.check("points kept", [float(p) for p in other.sampling_points]
                == pts)
        got = other.evaluate(x, axis=1)
        h.eq("matrix", other.matrix.a, h.arr([a[i] for i in sel]))
    else:
        got = smpl.evaluate(x, axis=1, points=pts if form == 'list'
                            else h.arr(pts))
    for j, i in enumerate(sel):
        for k in range(2):
            h.eq("value", got[k, j], a[i, 0] * x[k, 0] + a[i, 1] * x[k, 1])
    h.check("original points", [float(p) for p in smpl.sampling_points]
            == all_pts)


def fit(h):
    """matrices 2 x 2, 3 x 2 and 2 x 1 of full column rank, real for time and
    complex for frequency, all real or complex data of ranks 1 to 3 along
    every axis: normal equations, and fit after evaluate"""
    kind = h.choice('kind', ['tau', 'matsubara'])
    m, n = h.choice('matrix', [(2, 2), (3, 2), (2, 1)])
    a, u, s, v = mat(h, 'A', m, n, kind == 'matsubara')
    smpl, b = _sampling(h, kind, a)
    rank = h.choice('shape', SHAPES[:3] + SHAPES[5:6])
    shape, axis = rank
    x = _data(h, 'x', shape, axis, m,
              h.choice('complex', [False, True, 'whole']))
    y = smpl.fit(x, axis=axis)
    h.check("shape", tuple(y.shape) == tuple(
        n if k == axis % x.ndim else d for k, d in enumerate(x.shape)))
    back = contract(h, a, y, axis)
    r = {i: back[i] - x[i] for i in back}
    ax = axis % x.ndim
    for i in indices(y.shape):
        h.eq("normal equations",
             sum(a[k, i[ax]].conjugate() * r[i[:ax] + (k,) + i[ax+1:]]
                 for k in range(m)), 0)
    if axis == 0 and x.ndim < 3:
        h.eq("first axis is default", smpl.fit(x), y)


def inverse(h):
    """fit(evaluate(x)) == x for the same matrices, also via points in another
    order"""
    kind = h.choice('kind', ['tau', 'matsubara'])
    m, n = h.choice('matrix', [(2, 2), (3, 2), (3, 1)])
    a, u, s, v = mat(h, 'A', m, n, kind == 'matsubara')
    smpl, b = _sampling(h, kind, a)
    shape, axis = h.choice('shape', [((0,), 0), ((2, 0), 1), ((0, 2), 0),
                                     ((2, 0, 2), 1), ((1, 2, 1, 0, 2), 3),
                                     ((2, 1, 1, 1, 0), -1)])
    x = _data(h, 'x', shape, axis, n,
              h.choice('complex', [False, True, 'whole']))
    y = smpl.evaluate(x, axis=axis)
    h.eq("inverse", smpl.fit(y, axis=axis), x)
    order = list(range(m))[::-1]
    ax = axis % x.ndim
    pts = h.arr([b.pts[i] for i in order])
    yp = smpl.evaluate(x, axis=axis, points=pts)
    for j, i in enumerate(order):
        for k in indices(yp.shape):
            if k[ax] == j:
                h.eq("reordered", yp[k], y[k[:ax] + (i,) + k[ax+1:]])
    h.eq("inverse on points", smpl.fit(yp, axis=axis, points=pts), x)


def linear(h):
    """linearity of both, and independence of the other axes"""
    m, n = 3, 2
    cp = h.choice('complex', [False, True])
    a, u, s, v = mat(h, 'A', m, n, cp)
    smpl, b = _sampling(h, 'matsubara' if cp else 'tau', a)
    what = h.choice('what', ['evaluate', 'fit'])
    k = n if what == 'evaluate' else m
    f = getattr(smpl, what)
    x, y = h.reals('x', (k, 2), -2, 2), h.cplx('y', (k, 2), -2, 2)
    al = h.real('alpha', -2, 2)
    fx, fy = f(x, axis=0), f(y, axis=0)
    h.eq("linear", f(x + al * y, axis=0), fx + al * fy)
    h.eq("columns", f(x[:, 1]), fx[:, 1])
    h.eq("rows", f(x.T, axis=1), fx.T)
    h.eq("imaginary unit", f(1j * x, axis=0), 1j * fx)


def deficient(h):
    """decompositions with vanishing or missing singular values: fit has the
    smallest residual, and among these the smallest norm"""
    m, n = h.choice('matrix', [(2, 2), (3, 2), (2, 3)])
    cp = h.choice('complex', [False, True])
    s = [h.real('s', .25, 4), 0.0]
    a, u, s, v = mat(h, 'A', m, n, cp, s)
    d = h.mod('sampling').DecomposedMatrix(a, (u, s, v.conj().T))
    x = (h.cplx if cp else h.reals)('x', (m, 2), -2, 2)
    y = d.lstsq(x, axis=0)
    r = a @ y - x
    h.eq("smallest residual", a.conj().T @ r, h.np.zeros((n, 2)))
    # a null vector of the matrix
    h.eq("smallest norm", v[:, 1].conj() @ y, h.np.zeros(2))
    h.check("singular values", tuple(d.s.shape) == (1,) and bool(d.s[0] == s[0]))
    h.check("factors", tuple(d.u.shape) == (m, 1)
            and tuple(d.vH.shape) == (1, n))
    h.eq("factors reproduce", (d.u * d.s) @ d.vH, a)
    h.eq("condition", d.cond, 1)


def wide(h):
    """2 x 3 and 1 x 2 matrices: the fit reproduces the data with the smallest
    norm"""
    m, n = h.choice('matrix', [(2, 3), (1, 2)])
    cp = h.choice('complex', [False, True])
    a, u, s, v = mat(h, 'A', m, n, cp)
    smpl, b = _sampling(h, 'matsubara' if cp else 'tau', a)
    x = (h.cplx if cp else h.reals)('x', (2, m), -2, 2)
    y = smpl.fit(x, axis=1)
    h.eq("reproduces", smpl.evaluate(y, axis=-1), x)
    # in the row space: y == v v^T y
    h.eq("smallest norm", (y @ v.conj()) @ v.T, y)


def factors(h):
    """decomposed matrix: factors, condition, products, conversion"""
    m, n = h.choice('matrix', [(2, 2), (3, 2), (2, 3)])
    cp = h.choice('complex', [False, True])
    a, u, s, v = mat(h, 'A', m, n, cp)
    d = h.mod('sampling').DecomposedMatrix(a)
    h.eq("factors", (d.u * d.s) @ d.vH, a)
    k = min(m, n)
    h.eq("left", d.u.conj().T @ d.u, h.np.eye(k))
    h.eq("right", d.vH @ d.vH.conj().T, h.np.eye(k))
    h.eq("condition", d.cond, s[0] / s[k-1])
    h.eq("matrix", h.np.asarray(d.a), a)
    e = h.mod('sampling').DecomposedMatrix(a.tolist(), (u, s, v.conj().T))
    h.eq("from lists", e.matmul([[1.0]] * n, 0), a @ h.np.ones((n, 1)))
    x = h.reals('x', (n, 2), -2, 2)
    h.eq("product", d @ x, a @ x)
    h.eq("matmul", d.matmul(x[:, 0]), a @ x[:, 0])
    h.eq("matmul rows", d.matmul(x.T, 1), (a @ x).T)
    h.raises("no vector", ValueError,
             lambda: h.mod('sampling').DecomposedMatrix(a[0]))
    h.raises("wrong factors", ValueError,
             lambda: h.mod('sampling').DecomposedMatrix(
                 a, (u, s, v.conj().T[:, 1:])))
    U, V = h.reals('U', (4, 4), -1, 1), h.reals('V', (4, 4), -1, 1)
    S = h.arr([2.0, 1.0, .5, .25])
    for ku, ks, kv in [(k, k, k + 1), (k, k + 1, k), (k + 1, k, k),
                       (k, k + 1, k + 1), (k + 1, k + 1, k)]:
        h.raises("number of values", ValueError,
                 lambda: h.mod('sampling').DecomposedMatrix(
                     a, (U[:m, :ku], S[:ks], V[:kv, :n])))
    for i, j in [(m + 1, n), (m - 1, n), (m, n + 1), (m, n - 1), (n, m)]:
        if (i, j) != (m, n):
            h.raises("shape of factors", ValueError,
                     lambda: h.mod('sampling').DecomposedMatrix(
                         a, (U[:i, :k], S[:k], V[:k, :j])))
    h.raises("wrong number", ValueError,
             lambda: h.mod('sampling').DecomposedMatrix(
                 a, (u, s[1:], v.conj().T)))


def steep(h, name, m, n, smallest=2.**-80):
    """signed permutations and singular values that may fall off steeply, with
    everything that is computed from them accurate entry by entry"""
    k = min(m, n)
    s = [1.0]
    for i in range(1, k):
        s.append(h.real(name + 's%d' % i, smallest, .5))
        if i > 1:
            h.assume(s[-1] <= s[-2] / 2)
    u, v = h.np.zeros((m, k)), h.np.zeros((n, k))
    left = h.choice(name + ' left', [0, 1])
    for i in range(k):
        u[(i + left) % m, i] = 1.0
        v[k - 1 - i, i] = -1.0 if i % 2 else 1.0
    s = h.arr(s)
    a = (u * s) @ v.T
    h.svd_known(a, u, s, v)
    return a, u, s, v


def small_values(h):
    """2 x 2, 3 x 2 and 3 x 3 matrices with any singular values from 1 to
    2^-80: no value that is not zero is dropped, fit undoes evaluate"""
    m, n = h.choice('matrix', [(2, 2), (3, 2), (3, 3)])
    a, u, s, v = steep(h, 'A', m, n)
    kind = h.choice('kind', ['tau', 'matsubara', 'matrix'])
    if kind == 'matrix':
        d = h.mod('sampling').DecomposedMatrix(a)
        h.check("number", tuple(d.s.shape) == (n,))
        h.eq("factors", (d.u * d.s) @ d.vH, a)
        fit = d.lstsq
    else:
        fit = _sampling(h, kind, a + 0j if kind == 'matsubara' else a)[0].fit
    x = h.reals('x', (n, 2), .5, 2)
    h.eq("undone", fit(a @ x, axis=0), x, tol=1e-9, stol=1e-10)


def conditioning(h):
    """a badly conditioned matrix warns if the basis should be good"""
    small = h.choice('smallest', [.5, 2.0**-25, 2.0**-28, 2.0**-40])
    well = h.choice('well', [True, False])
    a = h.arr([[1.0, 0.0], [0.0, small]])
    smpl, b = _sampling(h, h.choice('kind', ['tau', 'matsubara']),
                        a, well=well)
    h.eq("cond", smpl.cond, 1 / small, tol=1e-3)
    x = h.reals('x', 2, -1, 1)
    _, w = h.warned(lambda: smpl.fit(x))
    h.check("warning", bool(w) == (well and small < 1e-8))


def bad_points(h):
    """sampling points must be a vector"""
    a = h.reals('a', (2, 2), -2, 2)
    h.svd_opaque()
    kind = h.choice('kind', ['tau', 'matsubara'])
    shape = h.choice('shape', ['scalar', 'matrix'])
    b = Basis(h, [1, 3], a)
    S = h.lib.TauSampling if kind == 'tau' else h.lib.MatsubaraSampling
    pts = 1 if shape == 'scalar' else [[1, 3]]
    h.raises("not a vector", ValueError, lambda: S(b, pts))


def dense(h, name, m, n, cplx=False):
    """dense matrix of fixed exact factors and descending singular values, of
    which the smallest three are arbitrary"""
    k = min(m, n)
    u = exact_orthogonal(h, m)[:, :k]
    v = exact_orthogonal(h, n, 3)[:, :k]
    if cplx:
        u = u * h.arr([[1, 1j, -1, -1j][(3 * i + i // 5) % 4]
                       for i in range(m)])[:, None]
        v = v * h.arr([[1, -1j, 1j][i % 3] for i in range(n)])[:, None]
    s = [2.0**-(i // 4) * (1 - (i % 4) / 8) for i in range(k - 3)]
    low = s[-1] if s else 1.0
    for i in range(3):
        s.append(h.real('%ss%d' % (name, i), low * 2.**-8, low))
        if len(s) > 1:
            h.assume(s[-1] <= s[-2])
    s = h.arr(s)
    a = (u * s) @ v.T.conj()
    h.svd_known(a, u, s, v.conj())
    return a, u, s, v


def large(h):
    """sizes as in real use: matrices 32 x 20, 20 x 20 (thorough: 48 x 40) of
    fixed dense factors and some arbitrary singular values; data with 70
    columns or more axes and some arbitrary entries: fit after evaluate is the
    identity, normal equations"""
    kind = h.choice('kind', ['tau', 'matsubara'])
    m, n = h.choice('matrix', h.pick([(32, 20), (20, 20)],
                                     [(32, 20), (20, 20), (48, 40)]))
    a, u, s, v = dense(h, 'A', m, n, kind == 'matsubara')
    pts = [k / 64 for k in range(m)] if kind == 'tau' else \
        [2 * k - m + 1 for k in range(m)]
    b = Basis(h, pts, a)
    S = h.lib.TauSampling if kind == 'tau' else h.lib.MatsubaraSampling
    smpl = S(b)
    shape, axis = h.choice('shape', [((n,), 0), ((n, 70), 0), ((3, n), -1),
                                     ((2, n, 4), 1)])
    size = 1
    for d in shape:
        size *= d
    idx = indices(shape)
    x = mixed(h, 'x', shape, [idx[0], idx[size // 2], idx[-1]], 7)
    if h.choice('complex', [False, True]):
        x = x + 1j * mixed(h, 'y', shape, [idx[1]], 9)
    y = smpl.evaluate(x, axis=axis)
    h.check("shape", tuple(y.shape) == tuple(
        m if k == axis % len(shape) else d for k, d in enumerate(shape)))
    # some of the entries, by definition
    ax = axis % len(shape)
    for i in [idx[0], idx[size // 2], idx[-1]]:
        for k in (0, m // 2, m - 1):
            h.eq("sum", y[i[:ax] + (k,) + i[ax+1:]], sum(
                a[k, l] * x[i[:ax] + (l,) + i[ax+1:]] for l in range(n)),
                **LTOL)
    h.eq("inverse", smpl.fit(y, axis=axis), x, **LTOL)
    # data outside the range
    z = mixed(h, 'z', (m,), [(0,), (m - 1,)], 11)
    r = a @ smpl.fit(z) - z
    h.eq("normal equations", a.conj().T @ r, h.np.zeros(n), **LTOL)
    h.svd_opaque()
    sel = [m - 1, 0, m // 2]
    some = smpl.evaluate(x, axis=axis, points=h.arr([pts[i] for i in sel]))
    h.eq("on points", some, h.np.take(y, sel, axis=ax), **LTOL)


LTOL = dict(tol=1e-8, stol=1e-9)


def tall(h):
    """matrices of 64 and 72 points times 12 functions, real and complex, of
    fixed dense factors and some arbitrary singular values: fit after evaluate
    is the identity, normal equations, factors of the matrix"""
    kind = h.choice('kind', ['tau', 'matsubara'])
    m, n = h.choice('points', [64, 72]), 12
    a, u, s, v = dense(h, 'A', m, n, kind == 'matsubara')
    pts = [k / 128 for k in range(m)] if kind == 'tau' else \
        [2 * k - m + 1 for k in range(m)]
    b = Basis(h, pts, a)
    S = h.lib.TauSampling if kind == 'tau' else h.lib.MatsubaraSampling
    smpl = S(b)
    x = mixed(h, 'x', (n,), [(0,), (n - 1,)], 7)
    if h.choice('complex', [False, True]):
        x = x + 1j * mixed(h, 'y', (n,), [(1,)], 9)
    y = smpl.evaluate(x)
    for k in (0, 49, 50, m - 1):
        h.eq("sum", y[k], sum(a[k, l] * x[l] for l in range(n)), **LTOL)
    h.eq("inverse", smpl.fit(y), x, **LTOL)
    z = mixed(h, 'z', (m,), [(0,), (m - 1,)], 11)
    r = a @ smpl.fit(z) - z
    h.eq("normal equations", a.conj().T @ r, h.np.zeros(n), **LTOL)
    d = smpl.matrix
    at = [0, 49, m - 1]
    h.eq("factors", (d.u[at] * d.s) @ d.vH, a[at], **LTOL)


HARNESSES = [(tall, {}), (evaluate, {}), (points, {}), (fit, {}), (inverse, {}),
             (linear, {}), (deficient, {}), (wide, {}), (factors, {}),
             (small_values, {}), (conditioning, {}), (bad_points, {}),
             (large, {})]
