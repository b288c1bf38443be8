"""Discrete Lehmann representation."""
from .c14 import contract, dense, mat, steep
from .common import fake_basis, fake_sve, indices, mixed, numbers

TOL = dict(tol=1e-8, stol=1e-9)


def _g(h, beta, w, tau):
    """minus the logistic kernel, without overflow"""
    if h.truth(w >= 0):
        return -h.exp(-tau * w) / (1 + h.exp(-beta * w))
    return -h.exp((beta - tau) * w) / (1 + h.exp(beta * w))


def _hat(h, stat, beta, w, n):
    """numerator and denominator of a pole in frequency"""
    iv = 1j * h.pi() * n / beta
    if stat == 'F':
        return 1, iv - w
    if h.truth(w >= 0):
        e = h.exp(-beta * w)
        return 1 - e, (iv - w) * (1 + e)
    e = h.exp(beta * w)
    return e - 1, (iv - w) * (1 + e)


POLES = ['any', 'any pair', 'zero', 'zeros', 'zero and any', 'negative',
         'integers']


def _poles(h, lim=4.0):
    kind = h.choice('poles', POLES)
    w = h.real('w', -lim, lim)
    if kind == 'any':
        h.assume(h.either(w >= 2.**-10, w <= -2.**-10))
        return [w]
    if kind == 'any pair':
        v = h.real('v', -lim, lim)
        h.assume(h.either(w >= 2.**-10, w <= -2.**-10))
        h.assume(v >= w + 2.**-10)
        h.assume(h.either(v >= 2.**-10, v <= -2.**-10))
        return [w, v]
    if kind == 'zero':
        return [0.0]
    if kind == 'zeros':
        return [0.0, 0.0]
    if kind == 'negative':
        h.assume(w <= -2.**-10)
        return [w - .5, w]
    if kind == 'integers':
        return [-2, 0, 1]
    h.assume(h.either(w >= 2.**-10, w <= -2.**-10))
    return [w, 0.0]


def in_time(h):
    """up to three arbitrary poles of any sign or zero, at arbitrary tau in
    [0, beta], beta in [1/8, 8]; scalars, vectors and matrices"""
    stat = h.choice('statistics', ['F', 'B'])
    beta = h.real('beta', .125, 8, pos=True)
    ws = _poles(h)
    form = h.choice('poles as', ['array', 'list'])
    f = h.mod('dlr').TauPoles(stat, beta, h.arr(ws) if form == 'array'
                              else ws)
    t = h.choice('tau', ['inside', 'zero', 'beta', 'vector', 'matrix'])
    x = h.real('x', 2.**-10, 1 - 2.**-10)
    tau = {'zero': 0.0, 'beta': beta}.get(t, x * beta)
    if t == 'vector':
        got = f(h.arr([tau, 0.0]))
    elif t == 'matrix':
        got = f(h.arr([[0.0, beta], [tau, beta]]))
    else:
        got = f(tau)
    h.check("shape", tuple(got.shape) == (len(ws),) + {
        'vector': (2,), 'matrix': (2, 2)}.get(t, ()))
    at = {'vector': [((0,), tau), ((1,), 0.0)],
          'matrix': [((0, 0), 0.0), ((0, 1), beta), ((1, 0), tau)]}.get(
              t, [((), tau)])
    for p, w in enumerate(ws):
        for i, t in at:
            h.eq("minus kernel", got[(p,) + i], _g(h, beta, w, t), **TOL)


def in_frequency(h):
    """the same poles at frequencies up to 10^6 in magnitude"""
    stat = h.choice('statistics', ['F', 'B'])
    beta = h.real('beta', .125, 8, pos=True)
    ws = _poles(h)
    f = h.mod('dlr').MatsubaraPoles(stat, beta, h.arr(ws))
    ns = [1, -1, 7, 1000001] if stat == 'F' else [0, 2, -2, 1000000]
    form = h.choice('form', ['scalar', 'vector', 'matrix'])
    if form == 'scalar':
        i = h.choice('n', [0, 1])
        got, ns = f(ns[i]), [ns[i]]
        h.check("shape", tuple(got.shape) == (len(ws),))
    elif form == 'vector':
        got = f(h.arr(ns))
        h.check("shape", tuple(got.shape) == (len(ws), 4))
    else:
        got = f(h.arr([ns[:2], ns[2:]]))
        h.check("shape", tuple(got.shape) == (len(ws), 2, 2))
    got = got.reshape(len(ws), -1)
    for p, w in enumerate(ws):
        for i, n in enumerate(ns):
            if n == 0 and h.truth(w == 0):
                h.eq("limit", got[p, i], -beta / 2)
                continue
            num, den = _hat(h, stat, beta, w, n)
            h.eq("pole", got[p, i] * den, num, **TOL)


class Values:
    """function that takes given values at given poles"""

    def __init__(self, h, poles, vals):
        self.h, self.poles, self.vals = h, poles, vals

    def __call__(self, w):
        w = self.h.np.asarray(w)
        cols = []
        for x in w:
            i = [k for k, p in enumerate(self.poles)
                 if self.h.truth(x == p)][0]
            cols.append(self.vals[:, i])
        return self.h.arr(cols).T


class Basis:
    """IR basis with arbitrary singular values and functions"""

    def __init__(self, h, s, poles, vals, stat, beta=4.0, wmax=2.0):
        self.s, self.v = s, Values(h, poles, vals)
        self.statistics, self.beta, self.wmax = stat, beta, wmax
        self.lambda_ = beta * wmax
        self.kernel = h.lib.LogisticKernel(beta * wmax)
        self.size = s.size
        self.shape = s.shape
        self.accuracy = .25
        self._poles = poles
        self.h = h

    def default_omega_sampling_points(self, *, npoints=None):
        return self.h.arr(self._poles)

    def default_tau_sampling_points(self, **kw):
        return ('tau', kw)

    def default_matsubara_sampling_points(self, **kw):
        return ('matsubara', kw)


POS = [-1.5, -.25, .5]
SHAPES = [((0,), 0), ((0, 2), 0), ((2, 0), 1), ((2, 0), -1), ((2, 0, 2), 1),
          ((0, 2, 1), -3), ((1, 2, 0), 2)]


def _data(h, name, shape, axis, n, cplx):
    shape = list(shape)
    shape[axis % len(shape)] = n
    if cplx == 'whole':
        return h.ints(name, tuple(shape), -9, 9)
    return (h.cplx if cplx else h.reals)(name, tuple(shape), -2, 2)


def to_ir(h):
    """two functions and three poles and the other way round, arbitrary values
    of s and v; real and complex data of rank 1 to 3 along every axis"""
    L, P = h.choice('sizes', [(2, 3), (3, 2)])
    s = h.reals('s', (L,), .25, 2)
    v = h.reals('v', (L, P), -2, 2)
    h.svd_opaque()
    stat = h.choice('statistics', ['F', 'B'])
    give = h.choice('poles given', [None, 'array', 'reversed'])
    b = Basis(h, s, POS[:P], v, stat)
    order = list(range(P))
    if give is None:
        D = h.mod('dlr').DiscreteLehmannRepresentation(b)
    else:
        order = order[::-1] if give == 'reversed' else order
        D = h.mod('dlr').DiscreteLehmannRepresentation(
            b, h.arr([POS[i] for i in order]))
    h.check("poles", [float(p) for p in D.sampling_points]
            == [POS[i] for i in order])
    h.check("size", D.size == P and tuple(D.shape) == (P,))
    shape, axis = h.choice('shape', SHAPES)
    x = _data(h, 'x', shape, axis, P,
              h.choice('complex', [False, True, 'whole']))
    got = D.to_IR(x, axis=axis)
    m = h.arr([[-s[l] * v[l, i] for i in order] for l in range(L)])
    ref = contract(h, m, x, axis)
    h.check("shape", tuple(got.shape) == tuple(
        L if k == axis % x.ndim else d for k, d in enumerate(x.shape)))
    for i in ref:
        h.eq("to IR", got[i], ref[i], **TOL)
    if axis == 0:
        h.eq("first axis is default", D.to_IR(x), got)


def from_ir(h):
    """every matrix of shape 2 x 2, 3 x 2 and 2 x 3, given by its
    decomposition: least-squares (and least-norm) solution"""
    L, P = h.choice('sizes', [(2, 2), (3, 2), (2, 3)])
    a, u, sv, vv = mat(h, 'm', L, P)
    s = h.arr([2.0, .5, 1.0][:L])
    stat = h.choice('statistics', ['F', 'B'])
    b = Basis(h, s, POS[:P], -a / s[:, None], stat)
    D = h.mod('dlr').DiscreteLehmannRepresentation(b)
    h.eq("matrix", D.matrix.a, a)
    shape, axis = h.choice('shape', SHAPES[:4])
    cplx = h.choice('complex', [False, True, 'whole'])
    gl = _data(h, 'g', shape, axis, L, cplx)
    got = D.from_IR(gl, axis=axis)
    h.check("shape", tuple(got.shape) == tuple(
        P if k == axis % gl.ndim else d for k, d in enumerate(gl.shape)))
    inv = (vv * (1 / sv)) @ u.T
    ref = contract(h, inv, gl, axis)
    for i in ref:
        h.eq("least squares", got[i], ref[i], **TOL)
    if axis == 0:
        h.eq("first axis is default", D.from_IR(gl), got)
    if P <= L:
        x = _data(h, 'x', shape, axis, P, cplx)
        h.eq("undone", D.from_IR(D.to_IR(x, axis=axis), axis=axis), x, **TOL)


def small_values(h):
    """two or three functions and poles whose singular values fall off by up
    to 80 binary orders: conversions undo each other"""
    n = h.choice('size', [2, 3])
    a, u, sv, v = steep(h, 'm', n, n)
    s = h.arr([2.0, .5, 1.0][:n])
    b = Basis(h, s, POS[:n], -a / s[:, None],
              h.choice('statistics', ['F', 'B']))
    D = h.mod('dlr').DiscreteLehmannRepresentation(b)
    x = h.reals('x', (n, 2), .5, 2)
    h.eq("undone", D.from_IR(D.to_IR(x)), x, **TOL)
    g = a @ x
    h.eq("other way", D.to_IR(D.from_IR(g)) / g, h.np.ones((n, 2)), **TOL)


def real_basis(h):
    """on the basis class itself, with arbitrary functions: the matrix, the
    functions in time and frequency, parameters, and sampling"""
    stat = h.choice('statistics', ['F', 'B'])
    # beta and wmax are not those of the unit interval
    b = fake_basis(h, stat, 2, beta=4.0, wmax=2.0, order=2)
    ws = h.choice('poles', [[-1.5, .5], [0.0], [-2.0, 0.0, 2.0], [.5, -.25]])
    h.svd_opaque()
    D = h.mod('dlr').DiscreteLehmannRepresentation(b, h.arr(ws))
    v = b.v(h.arr(ws))
    for i in range(len(ws)):
        e = h.np.zeros(len(ws))
        e[i] = 1.0
        h.eq("image of pole", D.to_IR(e), -b.s * v[:, i], **TOL)
    tau, ns = h.arr([0.0, 1.0, 4.0]), h.arr([1, -3] if stat == 'F'
                                            else [0, -2])
    T, M = h.mod('dlr').TauPoles, h.mod('dlr').MatsubaraPoles
    h.eq("u", D.u(tau), T(stat, 4.0, h.arr(ws))(tau))
    h.eq("uhat", D.uhat(ns), M(stat, 4.0, h.arr(ws))(ns))
    h.eq("tau sampling", h.lib.TauSampling(D, tau).matrix.a, D.u(tau).T)
    h.eq("frequency sampling", h.lib.MatsubaraSampling(D, ns).matrix.a,
         D.uhat(ns).T)
    h.check("kind", D.statistics == stat and D.basis is b)
    h.check("parameters", [D.beta == 4.0, D.wmax == 2.0, D.lambda_ == 8.0])
    h.eq("accuracy", D.accuracy, b.accuracy)
    h.eq("significance", D.significance, h.np.ones(len(ws)))


def parameters(h):
    """accuracy and significance on bases of two out of three functions: cut
    by the accuracy of the expansion, by the accuracy asked for, by size, or
    not cut at all"""
    stat = h.choice('statistics', ['F', 'B'])
    s = h.arr([1.0, h.real('s1', .25, .5), h.real('s2', 2.**-7, .125)])
    cut = h.choice('cut', ['none', 'eps', 'size'])
    K = h.lib.LogisticKernel(8.0)
    res = fake_sve(h, 3, 2, (-1.0, 0.0, 1.0), kernel=K, s=s,
                   eps=2.**-20)
    kw = {'size': dict(max_size=2)}.get(cut, {})
    b = h.lib.FiniteTempBasis(stat, 4.0, 2.0, .1875 if cut == 'eps' else 0.0,
                              kernel=K, sve_result=res, **kw)
    h.svd_opaque()
    D = h.mod('dlr').DiscreteLehmannRepresentation(b, h.arr([-.5, .5, 1.0]))
    h.eq("accuracy", D.accuracy, s[2])
    h.eq("significance", D.significance, h.np.ones(3))
    h.check("poles", [D.size == 3, tuple(D.shape) == (3,)])
    h.eq("given poles", D.sampling_points, h.arr([-.5, .5, 1.0]))


def rejects(h):
    """tau outside of [0, beta] or NaN; poles outside of the basis; kernels
    other than the logistic one"""
    what = h.choice('what', ['tau', 'poles', 'kernel', 'default points'])
    stat = h.choice('statistics', ['F', 'B'])
    h.svd_opaque()
    if what == 'tau':
        beta = h.real('beta', .125, 8, pos=True)
        how = h.choice('tau', ['below', 'above', 'nan', 'inf', '-inf'])
        bad = {'below': lambda: h.real('t', -8, -2.**-30),
               'above': lambda: beta + h.real('t', 2.**-20, 8)}.get(
                   how, lambda: float(how))()
        x = {'scalar': bad, 'first': [bad, beta / 2],
             'last': [beta / 2, bad]}[
                 h.choice('form', ['scalar', 'first', 'last'])]
        f = h.mod('dlr').TauPoles(stat, beta, h.arr([-.5, 1.0]))
        h.raises("tau", (ValueError, RuntimeError),
                 lambda: f(h.arr(x) if isinstance(x, list) else x))
        return
    if what == 'kernel':
        class Other(h.lib.kernel.AbstractKernel):
            lambda_ = 8.0

            def __call__(self, x, y, x_plus=None, x_minus=None):
                return h.np.exp(-x - y)
        k = h.choice('kernel', ['Bose', 'other'])
        k = Other() if k == 'other' else h.lib.RegularizedBoseKernel(8.0)
        b = fake_basis(h, stat, 2, kernel=k, order=1)
        pts = h.choice('points', [[.5], [-1.5, .5]])
        h.raises("kernel", ValueError,
                 lambda: h.mod('dlr').DiscreteLehmannRepresentation(b, h.arr(pts)))
        return
    b = fake_basis(h, stat, 2, order=1)
    if what == 'poles':
        w = h.real('w', 2 + 2.**-20, 8) * h.choice('sign', [1, -1])
        h.raises("poles", ValueError, lambda:
                 h.mod('dlr').DiscreteLehmannRepresentation(b, h.arr([.5, w])))
        return
    D = h.mod('dlr').DiscreteLehmannRepresentation(b, h.arr([.5]))
    st = Basis(h, h.arr([1.0]), [.5], h.arr([[1.0]]), stat)
    D = h.mod('dlr').DiscreteLehmannRepresentation(st)
    h.check("tau", D.default_tau_sampling_points(npoints=3)
            == ('tau', dict(npoints=3)))
    h.check("matsubara", D.default_matsubara_sampling_points(
        npoints=3, positive_only=True)
            == ('matsubara', dict(npoints=3, positive_only=True)))


def large(h):
    """16 functions and 16 or 12 poles, matrices of fixed dense factors and
    some arbitrary singular values; data with 70 columns: conversions are the
    sum over poles and undo each other"""
    L, P = 16, h.choice('poles', [16, 12])
    a, u, sv, vv = dense(h, 'm', L, P)
    s = h.arr([2.0**-(l // 2) for l in range(L)])
    pos = [-2 + k / 4 for k in range(P)]
    stat = h.choice('statistics', ['F', 'B'])
    b = Basis(h, s, pos, -a / s[:, None], stat)
    D = h.mod('dlr').DiscreteLehmannRepresentation(
        b, h.arr(pos) if h.choice('given', [True, False]) else None)
    h.check("size", D.size == P)
    h.eq("matrix", D.matrix.a, a)
    shape, axis = h.choice('shape', [((P,), 0), ((P, 70), 0), ((2, P, 3), 1),
                                     ((30, P), -1)])
    idx = indices(shape)
    x = mixed(h, 'x', shape, [idx[0], idx[len(idx) // 2], idx[-1]], 7)
    g = D.to_IR(x, axis=axis)
    ax = axis % len(shape)
    h.check("shape", tuple(g.shape) == shape[:ax] + (L,) + shape[ax+1:])
    for i in idx[0], idx[len(idx) // 2], idx[-1]:
        for k in 0, 7, L - 1:
            h.eq("to IR", g[i[:ax] + (k,) + i[ax+1:]], sum(
                a[k, l] * x[i[:ax] + (l,) + i[ax+1:]] for l in range(P)),
                **TOL)
    h.eq("undone", D.from_IR(g, axis=axis), x, **TOL)


def large_functions(h):
    """20 fixed poles and one arbitrary one at 70 times and frequencies in one
    call, beta in {1/2, 4}"""
    stat = h.choice('statistics', ['F', 'B'])
    beta = h.choice('beta', [.5, 4.0])
    ws = sorted(set(numbers(20, 5, -4, 4, 8)) | {0.0})
    w = h.real('w', -4, 4)
    h.assume(h.either(w >= 2.**-10, w <= -2.**-10))
    ws[7] = w
    n = len(ws)
    T = h.mod('dlr').TauPoles(stat, beta, h.arr(ws))
    M = h.mod('dlr').MatsubaraPoles(stat, beta, h.arr(ws))
    xs = numbers(40, 6, 0, 1, 9)
    got = T(h.arr([beta * x for x in xs]))
    h.check("shape", tuple(got.shape) == (n, 40))
    ns = [(-1)**k * (2 * k * k + (stat == 'F')) for k in range(40)]
    hat = M(h.arr(ns))
    h.check("shape", tuple(hat.shape) == (n, 40))
    for p in 0, 7, 10, n - 1:
        for i in 0, 1, 17, 39:
            h.eq("minus kernel", got[p, i], _g(h, beta, ws[p], beta * xs[i]),
                 **TOL)
            if ns[i] == 0 and h.truth(ws[p] == 0):
                h.eq("limit", hat[p, i], -beta / 2)
                continue
            num, den = _hat(h, stat, beta, ws[p], ns[i])
            h.eq("pole", hat[p, i] * den, num, **TOL)


HARNESSES = [(in_time, {}), (in_frequency, {}), (to_ir, {}), (from_ir, {}),
             (small_values, {}), (real_basis, {}), (parameters, {}),
             (rejects, {}),
             (large, {}), (large_functions, {})]
