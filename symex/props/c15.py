"""Sampling of functions that are real in time (positive_only)."""
from .common import indices, mixed
from .c14 import Basis, contract, steep, _data, dense, LTOL


def split_mat(h, points, n, s=None, name='A', wide=False):
    """arbitrary complex matrix, real at zero frequency, from the
    decomposition of its stacked real and imaginary parts"""
    m = len(points)
    rows = [i for i in range(m) if points[i] != 0]
    k = n if s is None else len(s)
    if wide:
        r, u, s, v = steep(h, name, m + len(rows), n)
        s = list(s)
    else:
        u = h.orthonormal(name + 'u', m + len(rows), n)
        v = h.orthonormal(name + 'v', n, n)
    if s is None:
        s = [h.real(name + 's%d' % i, .25, 4) for i in range(n)]
        for a, b in zip(s[:-1], s[1:]):
            h.assume(a >= b + .125)
    s = h.arr(s)
    r = (u * s) @ v.T
    h.svd_known(r, u, s, v)
    uc = [[u[i, j] + (1j * u[m + rows.index(i), j] if i in rows else 0j)
           for j in range(k)] for i in range(m)]
    ac = [[r[i, j] + (1j * r[m + rows.index(i), j] if i in rows else 0j)
           for j in range(n)] for i in range(m)]
    return h.arr(ac), h.arr(uc), s, v


def _smpl(h, pts, a, given=True):
    b = Basis(h, pts, a, stat='B')
    S = h.lib.MatsubaraSampling
    return S(b, h.arr(pts) if given else None, positive_only=True), b


def _sizes(h, more=()):
    """points and a number of functions that they determine"""
    pts, n = h.choice('points and size', [
        ([1, 3], 2), ([0, 2], 2), ([2, 0], 2), ([2, 0, 4], 2), ([0], 1),
        ([4, 0, 0], 1), ([3], 2)] + list(more))
    return pts, n


def fit(h):
    """one to three points with zero frequency at any place, in any number or
    absent, one or two functions: real coefficients with the smallest
    residual for arbitrary data of ranks 1 to 3 along any axis"""
    pts, n = _sizes(h)
    a, u, s, v = split_mat(h, pts, n)
    m = len(pts)
    smpl, b = _smpl(h, pts, a, h.choice('given', [True, False]))
    shape, axis = h.choice('shape', [((0,), 0), ((0, 2), 0), ((2, 0), -1),
                                     ((2, 0, 2), 1), ((0, 2, 2), 0)])
    x = _data(h, 'x', shape, axis, m, h.choice('data', [True, False, 'whole']))
    y = smpl.fit(x, axis=axis)
    h.check("shape", tuple(y.shape) == tuple(
        n if k == axis % x.ndim else d for k, d in enumerate(x.shape)))
    h.check("real", not h.np.iscomplexobj(y))
    back = contract(h, a, y, axis)
    ax = axis % x.ndim
    for i in indices(y.shape):
        tot = 0
        for k in range(m):
            j = i[:ax] + (k,) + i[ax+1:]
            r = back[j] - x[j]
            tot = tot + a[k, i[ax]].real * r.real
            if pts[k] != 0:
                tot = tot + a[k, i[ax]].imag * r.imag
        h.eq("normal equations", tot, 0)
    h.eq("on the same points", smpl.fit(x, axis=axis, points=pts), y)
    if axis == 0 and x.ndim < 3:
        h.eq("first axis is default", smpl.fit(x), y)


def inverse(h):
    """fit after evaluate, for real coefficients, also on other points"""
    pts, n = _sizes(h, [([5, 1, 3], 2)])
    a, u, s, v = split_mat(h, pts, n)
    smpl, b = _smpl(h, pts, a)
    shape, axis = h.choice('shape', [((0,), 0), ((2, 0), 1), ((0, 2), 0),
                                     ((2, 0, 2), 1), ((0, 2, 2), 0)])
    x = _data(h, 'x', shape, axis, n, h.choice('data', [False, 'whole']))
    y = smpl.evaluate(x, axis=axis)
    ref = contract(h, a, x, axis)
    for i in ref:
        h.eq("values", y[i], ref[i])
    h.eq("inverse", smpl.fit(y, axis=axis), x)
    # the imaginary part at zero frequency is ignored
    if 0 in pts:
        t = h.real('t', -2, 2)
        sel = [slice(None)] * y.ndim
        sel[axis] = pts.index(0)
        z = h.arr(y)
        z[tuple(sel)] = z[tuple(sel)] + 1j * t
        h.eq("imaginary part at zero", smpl.fit(z, axis=axis), x)
    if len(pts) == 2:
        z = h.np.flip(y, axis)
        h.eq("other order", smpl.fit(z, axis=axis, points=h.arr(pts[::-1])),
             x)
    h.check("flag", smpl.positive_only)
    h.check("points", [int(p) for p in smpl.wn] == pts)


def linear(h):
    """real linearity and independence of other axes"""
    pts, n = h.choice('points and size', [([2, 0], 2), ([3], 2)])
    a, u, s, v = split_mat(h, pts, n)
    smpl, b = _smpl(h, pts, a)
    x = h.cplx('x', (len(pts), 2), -2, 2)
    y = h.reals('y', (len(pts), 2), -2, 2)
    al = h.real('alpha', -2, 2)
    fx, fy = smpl.fit(x, axis=0), smpl.fit(y, axis=0)
    h.eq("linear", smpl.fit(x + al * y, axis=0), fx + al * fy)
    h.eq("columns", smpl.fit(x[:, 1]), fx[:, 1])
    h.eq("rows", smpl.fit(x.T, axis=1), fx.T)


def small_values(h):
    """two functions with singular values from 1 down to 2^-80: fit undoes
    evaluate"""
    pts = h.choice('points', [[1, 3], [2, 0], [0, 4], [3]])
    a, u, s, v = split_mat(h, pts, 2, wide=True)
    smpl, b = _smpl(h, pts, a)
    x = h.reals('x', (2, 2), .5, 2)
    h.eq("undone", smpl.fit(smpl.evaluate(x, axis=0), axis=0), x,
         tol=1e-9, stol=1e-10)
    h.check("number", tuple(smpl.matrix.s.shape) == (2,))


def deficient(h):
    """a vanishing singular value: smallest residual and norm, given factors"""
    pts = h.choice('points', [[1, 3], [2, 0]])
    s = [h.real('s', .25, 4), 0.0]
    a, u, s, v = split_mat(h, pts, 2, s)
    d = h.mod('sampling').SplitDecomposedMatrix(a, (u, s, v.T))
    x = h.cplx('x', (2, 2), -2, 2)
    y = d.lstsq(x, axis=0)
    r = a @ y - x
    for k in range(2):
        for j in range(2):
            h.eq("smallest residual", sum(
                a[i, k].real * r[i, j].real + a[i, k].imag * r[i, j].imag
                for i in range(2)), 0)
    h.eq("smallest norm", v[:, 1] @ y, h.np.zeros(2))
    h.check("singular values", tuple(d.s.shape) == (1,) and bool(d.s[0] == s[0]))
    h.eq("factors reproduce", (d.u * d.s) @ d.vH, a)
    h.eq("condition", d.cond, 1)


def factors(h):
    """factors of the matrix, products, conversion, warning"""
    pts, n = _sizes(h)
    a, u, s, v = split_mat(h, pts, n)
    smpl, b = _smpl(h, pts, a)
    d = smpl.matrix
    h.eq("factors", (d.u * d.s) @ d.vH, a)
    h.eq("right", d.vH @ d.vH.T, h.np.eye(n))
    h.check("right factor real", not h.np.iscomplexobj(d.vH))
    h.eq("left", (d.u.conj().T @ d.u).real, h.np.eye(n))
    h.eq("condition", d.cond, s[0] / s[n-1])
    h.eq("condition of sampling", smpl.cond, s[0] / s[n-1])
    h.eq("matrix", d.a, a)
    x = h.reals('x', (n, 2), -2, 2)
    got, w = h.warned(lambda: d @ x)
    h.eq("product", got, a @ x)
    h.check("real is fine", not w)
    z = h.cplx('z', (n,), -2, 2)
    got, w = h.warned(lambda: d @ z)
    h.eq("complex product", got, a @ z)
    h.check("complex warns", w == [UserWarning])
    h.eq("matmul rows", d.matmul(x.T, 1), (a @ x).T)
    h.eq("from list", d.lstsq([1.0] * len(pts)),
         d.lstsq(h.np.ones(len(pts))))


def rejected(h):
    """negative frequencies anywhere; factors of the wrong type or shape"""
    n = 2 * h.int('n', -9, -1)
    pts = h.choice('points', [[n], [0, n], [n, 2, 4]])
    S = h.lib.MatsubaraSampling
    a = h.cplx('a', (len(pts), 2), -2, 2)
    h.svd_opaque()
    b = Basis(h, [float(2*k) for k in range(len(pts))], a, stat='B')
    h.raises("negative", ValueError,
             lambda: S(b, h.arr(pts), positive_only=True))
    ok = S(b, h.arr([2*k for k in range(len(pts))]), positive_only=True)
    h.raises("negative later", ValueError,
             lambda: ok.fit(a[:, 0], points=h.arr(pts)))
    M = h.mod('sampling')
    A, u, s, v = split_mat(h, [2, 0], 2)
    Split = M.SplitDecomposedMatrix
    h.raises("complex right factor", ValueError,
             lambda: Split(A, (u, s, v.T + 0j)))
    h.raises("real left factor", ValueError,
             lambda: Split(A, (u.real, s, v.T)))
    h.raises("no matrix", ValueError, lambda: Split(A[0], (u, s, v.T)))
    h.raises("wrong shape", ValueError,
             lambda: Split(A, (u, s, v.T[:, 1:])))
    U, V = h.cplx('U', (3, 3), -1, 1), h.reals('V', (3, 3), -1, 1)
    for m, n, ku, ks, kv in [(2, 2, 2, 2, 1), (2, 2, 2, 1, 2), (2, 2, 1, 2, 2),
                             (2, 2, 1, 1, 2), (1, 2, 2, 2, 2), (3, 2, 2, 2, 2),
                             (2, 1, 2, 2, 2), (2, 3, 2, 2, 2)]:
        h.raises("shape", ValueError, lambda: Split(
            A, (U[:m, :ku], h.arr([2.0, 1.0, .5])[:ks], V[:kv, :n])))
    b = Basis(h, [0.0, 2.0], A.real, stat='B')
    h.raises("real matrix", ValueError,
             lambda: S(b, h.arr([0, 2]), positive_only=True))


def large(h):
    """sizes as in real use: 16 and 24 points with and without zero frequency,
    12 and 20 functions of fixed dense factors and some arbitrary singular
    values; data with 70 columns or three axes"""
    n = h.choice('functions', [12, 20])
    m = {12: 16, 20: 24}[n]
    zero = h.choice('zero at', [None, 0, 9])
    pts = [2 * k + 2 for k in range(m)]
    if zero is not None:
        pts[zero] = 0
    rows = [i for i in range(m) if pts[i] != 0]
    k = m + len(rows)
    r, u, s, v = dense(h, 'A', k, n)
    ac = h.arr([[r[i, j] + (1j * r[m + rows.index(i), j] if i in rows else 0j)
                 for j in range(n)] for i in range(m)])
    smpl, b = _smpl(h, pts, ac)
    shape, axis = h.choice('shape', [((n,), 0), ((n, 70), 0), ((2, n, 4), 1)])
    idx = indices(shape)
    x = mixed(h, 'x', shape, [idx[0], idx[len(idx) // 2], idx[-1]], 7)
    y = smpl.evaluate(x, axis=axis)
    h.eq("inverse", smpl.fit(y, axis=axis), x, **LTOL)
    z = mixed(h, 'z', (m,), [(0,), (m - 1,)], 11) \
        + 1j * mixed(h, 't', (m,), [(1,), (m - 2,)], 12)
    q = smpl.fit(z)
    h.check("real", not h.np.iscomplexobj(q))
    res = ac @ q - z
    # the imaginary part at zero frequency does not count: a is real there
    h.eq("normal equations", (ac.conj().T @ res).real, h.np.zeros(n), **LTOL)


HARNESSES = [(fit, {}), (inverse, {}), (linear, {}), (small_values, {}),
             (deficient, {}),
             (factors, {}), (rejected, {}),
             (large, {})]
