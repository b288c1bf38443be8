"""Symmetrised kernels."""
from .common import numbers


def _point(h, cls, sign):
    k = cls(h.real('lam', 1e-3, 1e7))
    r = k.get_symmetrized(sign)
    x, y = h.real('x', 0, 1), h.real('y', 0, 1)
    if h.choice('zero', ['no', 'y', 'x']) == 'y':
        y = 0.0
    elif h.choice('x zero', [False, True]):
        x = 0.0
    if cls is h.lib.RegularizedBoseKernel and not (type(y) is float and
                                                   y == 0.0):
        h.assume(k.lambda_ * y >= 1e-150)
    which = h.choice('offsets', ['none', 'both', 'plus', 'minus'])
    kw = {}
    if which in ('both', 'plus'):
        kw['x_plus'] = h.arr(x)
    if which in ('both', 'minus'):
        kw['x_minus'] = h.arr(1 - x)
    h.eq("K(x,y) + sign*K(x,-y)", r(x, y, **kw),
         k(x, y) + sign * k(x, -y))


def logistic_even(h):
    """any Lambda in [1e-3, 1e7], one point of [0,1]^2 or its x=0 / y=0 edge,
    offsets omitted or given (in part)"""
    _point(h, h.lib.LogisticKernel, 1)


def logistic_odd(h):
    """as logistic_even"""
    _point(h, h.lib.LogisticKernel, -1)


def regbose_even(h):
    """as logistic_even, Lambda*y zero or at least 1e-150"""
    _point(h, h.lib.RegularizedBoseKernel, 1)


def regbose_odd(h):
    """as regbose_even"""
    _point(h, h.lib.RegularizedBoseKernel, -1)


def _grid(h, cls, sign):
    k = cls(h.real('lam', 1e-3, 1e7))
    r = k.get_symmetrized(sign)
    x = h.reals('x', 2, 0, 1)
    y = h.real('y', 0, 1)
    if cls is h.lib.RegularizedBoseKernel:
        h.assume(k.lambda_ * y >= 1e-150)
    ya = h.arr([y])
    kw = dict(x_plus=x[:, None], x_minus=(1 - x)[:, None]) \
        if h.choice('offsets', [False, True]) else {}
    K = r(x[:, None], ya[None, :], **kw)
    h.eq("matrix", K, h.arr(
        [[k(x[i], y) + sign * k(x[i], -y)] for i in range(2)]))


def logistic_grid(h):
    """2x1 grid, either sign"""
    _grid(h, h.lib.LogisticKernel, h.choice('sign', [1, -1]))


def regbose_grid(h):
    """2x1 grid, either sign, Lambda*y at least 1e-150"""
    _grid(h, h.lib.RegularizedBoseKernel, h.choice('sign', [1, -1]))


def user_kernel(h):
    """generic wrapper around a kernel a + b*x*y + c*x*x*y*y + d*abs(y) with
    symbolic coefficients, which uses its offsets, on a 2x2 grid"""
    mod = h.mod('kernel')
    a, b, c, d = [h.real(n, -5, 5) for n in 'abcd']
    np = h.np

    class Kern(mod.AbstractKernel):
        def __call__(self, x, y, x_plus=None, x_minus=None):
            if x_plus is None:
                x_plus = x + 1
            if x_minus is None:
                x_minus = 1 - x
            return a + b * x * y + c * x_plus * x_minus * y**2 + d * np.abs(y)

        @property
        def is_centrosymmetric(self):
            return True

        @property
        def ypower(self):
            return 3

        @property
        def conv_radius(self):
            return 17

    k = Kern()
    sign = h.choice('sign', [1, -1])
    r = k.get_symmetrized(sign)
    x, y = h.reals('x', (2, 1), 0, 1), h.reals('y', (1, 2), 0, 1)
    kw = dict(x_plus=x, x_minus=1 - x) \
        if h.choice('offsets', [False, True]) else {}
    h.eq("K(x,y) + sign*K(x,-y)", r(x, y, **kw),
         k(x, y) + sign * k(x, -y))
    h.check("attributes", r.ypower == 3 and r.conv_radius == 17
            and tuple(r.xrange) == (0, 1) and tuple(r.yrange) == (0, 1)
            and not r.is_centrosymmetric)


def attributes(h):
    """both kernels, both signs, any Lambda; all signs in [-5, 5]"""
    mod = h.mod('kernel')
    lam = h.real('lam', 1e-3, 1e7)
    k = h.choice('kernel', [h.lib.LogisticKernel,
                            h.lib.RegularizedBoseKernel])(lam)
    s = h.choice('sign', [1, -1])
    r = k.get_symmetrized(s)
    h.eq("xrange", h.arr(list(r.xrange)), h.arr([0, 1]))
    h.eq("yrange", h.arr(list(r.yrange)), h.arr([0, 1]))
    h.check("ypower", r.ypower == k.ypower)
    h.eq("conv_radius", r.conv_radius, k.conv_radius)
    h.check("sign", r.sign == s)
    h.check("symmetry", not r.is_centrosymmetric and k.is_centrosymmetric)
    h.raises("twice", RuntimeError, lambda: r.get_symmetrized(s))
    h.raises("inner", ValueError, lambda: mod.ReducedKernel(r, 1))
    h.raises("plain inner", ValueError,
             lambda: mod.ReducedKernel(mod.AbstractKernel(), s))
    z = h.real('othersign', -5, 5)
    out = h.outcome(lambda: mod.ReducedKernel(k, z))
    ok = out[0] == 'ok'
    if not ok:
        h.check("type", isinstance(out[1], ValueError))
    h.check("sign must be +-1", h.either(z == 1, z == -1) if ok
            else [z != 1, z != -1])


def domain(h):
    """any x or y outside of [0,1], NaN or infinite, in either place"""
    k = h.choice('kernel', [h.lib.LogisticKernel,
                            h.lib.RegularizedBoseKernel])(3.0)
    r = k.get_symmetrized(h.choice('sign', [1, -1]))
    bad = h.choice('kind', ['below', 'above', 'nan', 'inf', '-inf'])
    bad = {'below': lambda: -h.real('e', 1e-9, 1e6),
           'above': lambda: 1 + h.real('e', 1e-9, 1e6),
           'nan': lambda: float('nan'), 'inf': lambda: float('inf'),
           '-inf': lambda: -float('inf')}[bad]()
    ok = h.arr([h.real('g', 0, 1)])
    bad = h.arr([0.5, bad]) if h.choice('array', [False, True]) \
        else h.arr([bad])
    if h.choice('axis', ['x', 'y']) == 'x':
        h.raises("x outside", ValueError, lambda: r(bad, ok))
    else:
        h.raises("y outside", ValueError, lambda: r(ok, bad))


def whole(h):
    """both kernels and signs at points 0 and 1 given as whole numbers,
    scalars and arrays, for any Lambda, or whole Lambda up to 1e6"""
    cls = h.choice('kernel', [h.lib.LogisticKernel,
                              h.lib.RegularizedBoseKernel])
    k = cls(h.int('lam', 1, 10**6) if h.choice('Lambda whole', [True, False])
            else h.real('lam', 1e-3, 1e7))
    sign = h.choice('sign', [1, -1])
    r = k.get_symmetrized(sign)

    def value(x, y):
        return k(1.0 * x, 1.0 * y) + sign * k(1.0 * x, -1.0 * y)

    if h.choice('scalar', [True, False]):
        x, y = h.choice('x', [0, 1]), h.choice('y', [0, 1])
        h.eq("whole point", r(x, y), value(x, y))
    else:
        h.eq("whole grid", r(h.arr([0, 1])[:, None], h.arr([0, 1])[None, :]),
             h.arr([[value(0, 0), value(0, 1)], [value(1, 0), value(1, 1)]]))


def _large(h, cls):
    lam = h.choice('about', [2.0, 1000.0, 2.0**18])
    k = cls(h.real('lam', lam, lam * 1.00390625))
    sign = h.choice('sign', [1, -1])
    r = k.get_symmetrized(sign)
    shape = h.choice('shape', [(300,), (20, 33)])
    n = shape[0] if len(shape) == 1 else sum(shape)
    pts = [(a + 2.0**-12) for a in numbers(n, 2, 0, .875, 12)]
    if len(shape) == 1:
        xs, ys = h.arr(pts), h.arr(numbers(n, 4, .125, 1, 11))
        K = r(xs, ys)
        at = [(i,) for i in (0, 133, 299)]
        xy = [(xs[i], ys[i]) for (i,) in at]
    else:
        xs, ys = h.arr(pts[:shape[0]]), h.arr(pts[shape[0]:])
        kw = dict(x_plus=xs[:, None], x_minus=(1 - xs)[:, None]) \
            if h.choice('offsets', [False, True]) else {}
        K = r(xs[:, None], ys[None, :], **kw)
        at = [(0, 0), (5, 1), (19, 32), (17, 11)]
        xy = [(xs[i], ys[j]) for i, j in at]
    h.check("shape", tuple(K.shape) == shape)
    for i, (x, y) in zip(at, xy):
        # which is what the other harnesses are about
        h.eq("as for the single point", K[i], r(x, y))


def logistic_large(h):
    """vectors of 300 and grids of 20x33 fixed points, Lambda in intervals
    around 2, 1000 and 2^18"""
    _large(h, h.lib.LogisticKernel)


def regbose_large(h):
    """vectors of 300 and grids of 20x33 fixed points, Lambda in intervals
    around 2, 1000 and 2^18"""
    _large(h, h.lib.RegularizedBoseKernel)


def distances(h):
    """both kernels and signs, Lambda around 2^53, points which rounding has moved
    onto x = 1, given by arbitrary distances of about 2^-53 from there"""
    S = 2.0**53
    lam = h.real('lam', S, S * 1.00390625)
    bose = h.choice('kernel', ['logistic', 'bose']) == 'bose'
    k = (h.lib.RegularizedBoseKernel if bose else h.lib.LogisticKernel)(lam)
    sign = h.choice('sign', [1, -1])
    d = h.real('d', 1/S, 8/S)
    y = h.choice('y', [.5, 1.0])
    want = sign * h.exp(-lam * y * d / 2) + h.exp(-lam * y)
    h.eq("value", k.get_symmetrized(sign)(1.0, y, h.arr(1.0), d),
         -y * want / h.np.expm1(-lam * y) if bose
         else want / (1 + h.exp(-lam * y)))


def small(h):
    """both kernels, Lambda = 4, x of about 2^-44, or x of about 2^-24 and y =
    2^-20: the odd kernel relative to x*y"""
    bose = h.choice('kernel', ['logistic', 'bose']) == 'bose'
    k = (h.lib.RegularizedBoseKernel if bose else h.lib.LogisticKernel)(4.0)
    S, y = h.choice('scale and y', [(2.0**44, .25), (2.0**44, .7265625),
                                    (2.0**24, 2.0**-20)])
    x = h.real('x', .5/S, 1/S)
    S = S / y
    K = k.get_symmetrized(-1)(x, y) * S
    sinh, cosh = h.np.sinh, h.np.cosh
    if bose:
        h.eq("value", K, -y * sinh(2 * y * x) * S / sinh(2 * y), tol=1e-8)
    else:
        h.eq("value", K, -sinh(2 * y * x) * S / cosh(2 * y), tol=1e-8)


HARNESSES = [
    (distances, {}), (small, {}),
    (logistic_even, {}), (logistic_odd, {}),
    (regbose_even, {}), (regbose_odd, {}),
    (logistic_grid, {}), (regbose_grid, {}), (whole, {}),
    (user_kernel, {}), (attributes, {}), (domain, dict(overflow=False)),
             (logistic_large, {}), (regbose_large, {})]
