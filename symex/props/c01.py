"""Kernel values: definition, positivity, bounds, centrosymmetry, no overflow."""
from .common import indices, numbers


def logistic_point(h):
    """any Lambda in [1e-3, 1e7], one point (x, y) of [-1,1]^2 given as Python
    floats; x_plus/x_minus omitted or given"""
    k = h.lib.LogisticKernel(h.real('lam', 1e-3, 1e7))
    lam = k.lambda_
    x, y = h.real('x', -1, 1), h.real('y', -1, 1)
    which = h.choice('offsets', ['none', 'both', 'plus', 'minus'])
    kw = {}
    if which in ('both', 'plus'):
        kw['x_plus'] = h.arr(1 + x)
    if which in ('both', 'minus'):
        kw['x_minus'] = h.arr(1 - x)
    K = k(x, y, **kw)
    z = lam * y
    if h.truth(y >= 0):
        h.eq("definition", K, h.exp(-z * (x + 1) / 2) / (1 + h.exp(-z)))
    else:
        h.eq("definition", K, h.exp(z * (1 - x) / 2) / (1 + h.exp(z)))
    h.check("bounds", [K >= 0, K <= 1])
    h.eq("centrosymmetry", k(-x, -y), K)


def regbose_point(h):
    """any Lambda in [1e-3, 1e7], one point (x, y) of [-1,1]^2 given as Python
    floats with abs(Lambda*y) at least 1e-150 or y exactly zero"""
    k = h.lib.RegularizedBoseKernel(h.real('lam', 1e-3, 1e7))
    lam = k.lambda_
    x = h.real('x', -1, 1)
    if h.choice('zero', [False, True]):
        h.eq("limit at y=0", k(x, 0.0), 1 / lam)
        h.eq("limit at y=0, array", k(h.arr([x]), h.arr([0.0])), h.arr([1/lam]))
        return
    y = h.real('y', -1, 1)
    h.assume(h.either(lam * y >= 1e-150, lam * y <= -1e-150))
    which = h.choice('offsets', ['none', 'both', 'plus', 'minus'])
    kw = {}
    if which in ('both', 'plus'):
        kw['x_plus'] = h.arr(1 + x)
    if which in ('both', 'minus'):
        kw['x_minus'] = h.arr(1 - x)
    K = k(x, y, **kw)
    z = lam * y
    if h.truth(y >= 0):
        h.eq("definition", K,
             -y * h.exp(-z * (x + 1) / 2) / h.np.expm1(-z))
    else:
        h.eq("definition", K, y * h.exp(z * (1 - x) / 2) / h.np.expm1(z))
    h.check("non-negative", K >= 0)
    h.eq("centrosymmetry", k(-x, -y), K)


def _grid(h, cls):
    k = cls(h.real('lam', 1e-3, 1e7))
    x = h.reals('x', 2, -1, 1)
    y = h.reals('y', 2, -1, 1)
    if h.choice('points on edges', [False, True]):
        x = h.arr([-1.0, x[1]])
        y = h.arr([y[0], 1.0])
    offsets = h.choice('offsets', [False, True])
    kw = dict(x_plus=(1 + x)[:, None], x_minus=(1 - x)[:, None]) \
        if offsets else {}
    K = k(x[:, None], y[None, :], **kw)
    h.eq("matrix equals point values", K, h.arr(
        [[k(x[i], y[j]) for j in range(2)] for i in range(2)]))
    K1 = k(x, y)
    h.eq("vector equals point values", K1,
         h.arr([k(x[i], y[i]) for i in range(2)]))


def logistic_grid(h):
    """2x2 broadcast grid and pairs of points against single evaluations"""
    _grid(h, h.lib.LogisticKernel)


def regbose_grid(h):
    """2x2 broadcast grid and pairs of points against single evaluations"""
    _grid(h, h.lib.RegularizedBoseKernel)


def _whole(h, cls):
    if h.choice('Lambda whole', [True, False]):
        k = cls(h.int('lam', 1, 10**6))
    else:
        k = cls(h.real('lam', 1e-3, 1e7))
    lam = 1.0 * k.lambda_

    def value(x, y):
        z = lam * abs(y)
        u = (1 + x) / 2 if y > 0 else (1 - x) / 2
        if cls is h.lib.LogisticKernel:
            return h.exp(-z * u) / (1 + h.exp(-z))
        if y == 0:
            return 1 / lam
        return -h.exp(-z * u) / h.np.expm1(-z)

    y = h.choice('y', [-1, 0, 1])
    form = h.choice('form', ['scalar', 'x real', 'vector', 'grid'])
    if form == 'scalar':
        x = h.choice('x', [-1, 0, 1])
        h.eq("whole point", k(x, y), value(x, y))
    elif form == 'x real':
        x = h.real('x', -1, 1)
        h.eq("whole y", k(x, y), value(x, y))
        h.eq("whole x", k(y, x), k(1.0 * y, x))
    elif form == 'vector':
        h.eq("whole vector", k([-1, 0, 1], [y, 1, -1]),
             h.arr([value(-1, y), value(0, 1), value(1, -1)]))
    else:
        x = h.arr([-1, 0])
        h.eq("whole grid", k(x[:, None], h.arr([y, 1])[None, :]), h.arr(
            [[value(a, b) for b in (y, 1)] for a in (-1, 0)]))


def logistic_whole(h):
    """whole numbers as points, scalars, lists and grids, with any Lambda, or
    whole Lambda up to 1e6"""
    _whole(h, h.lib.LogisticKernel)


def regbose_whole(h):
    """whole numbers as points, scalars, lists and grids, with any Lambda, or
    whole Lambda up to 1e6"""
    _whole(h, h.lib.RegularizedBoseKernel)


def _large(h, cls):
    k = cls(h.real('lam', 1e-3, 1e7))
    lam = k.lambda_
    shape = h.choice('shape', [(60,), (12, 10), (1000,), (40, 70)])
    n = shape[0] if len(shape) == 1 else sum(shape)
    pts = numbers(n, 2, -1, 1, 12)
    pts = [p if p else 2.0**-9 for p in pts]
    x = h.real('x', -1, 1)
    places = [0, n // 3, n - 1]
    if n < 100:
        pts[5] = x
    if len(shape) == 1:
        xs, ys = h.arr(pts), h.arr(numbers(n, 4, -1, 1, 11))
        K = k(xs, ys)
        at = [(i,) for i in places + [5]]
        xy = [(xs[i], ys[i]) for (i,) in at]
    else:
        xs, ys = h.arr(pts[:shape[0]]), h.arr(pts[shape[0]:])
        kw = dict(x_plus=(1 + xs)[:, None], x_minus=(1 - xs)[:, None]) \
            if h.choice('offsets', [False, True]) else {}
        K = k(xs[:, None], ys[None, :], **kw)
        at = [(0, 0), (5, 1), (shape[0] - 1, shape[1] // 2),
              (shape[0] // 2, shape[1] - 1)]
        xy = [(xs[i], ys[j]) for i, j in at]
    h.check("shape", tuple(K.shape) == shape)
    for i, (x, y) in zip(at, xy):
        z = lam * abs(float(y))
        u = (1 + x) / 2 if y >= 0 else (1 - x) / 2
        if cls is h.lib.LogisticKernel:
            want = h.exp(-z * u) / (1 + h.exp(-z))
        else:
            want = -abs(float(y)) * h.exp(-z * u) / h.np.expm1(-z) if y \
                else 1 / lam
        h.eq("definition", K[i], want)


def logistic_large(h):
    """vectors of 60 and 1000, grids of 12x10 and 40x70 fixed points (one of
    them arbitrary in the smaller ones), any Lambda"""
    _large(h, h.lib.LogisticKernel)


def regbose_large(h):
    """vectors of 60 and 1000, grids of 12x10 and 40x70 fixed points (one of
    them arbitrary in the smaller ones), any Lambda"""
    _large(h, h.lib.RegularizedBoseKernel)


def _ranks(h, cls):
    k = cls(h.real('lam', 1e-3, 1e7))
    lam = k.lambda_
    xs = (2, 2, 1), (1, 2, 1), (2, 1, 2, 1), (1, 1, 1), ()
    shape = h.choice('x shape', list(xs))
    size = 1
    for n in shape:
        size *= n
    vals = [p if p else 2.0**-5 for p in numbers(size, 3, -1, 1, 12)]
    vals[-1] = h.real('x', -1, 1)
    x = h.arr(vals).reshape(shape)
    ys = h.arr([.25, -.75, .5]).reshape((1, 1, 3))
    kw = {}
    if h.choice('offsets', [False, True]):
        kw = dict(x_plus=1 + x, x_minus=1 - x)
    K = k(x, ys, **kw)
    full = h.np.broadcast_shapes(shape, (1, 1, 3))
    h.check("shape", tuple(K.shape) == full)
    y = h.np.broadcast_to(ys, full)
    x = h.np.broadcast_to(x, full)
    for i in indices(full):
        y1 = float(y[i])
        z = lam * abs(y1)
        u = (1 + x[i]) / 2 if y1 >= 0 else (1 - x[i]) / 2
        if cls is h.lib.LogisticKernel:
            want = h.exp(-z * u) / (1 + h.exp(-z))
        else:
            want = -abs(y1) * h.exp(-z * u) / h.np.expm1(-z)
        h.eq("definition", K[i], want)


def logistic_ranks(h):
    """points of rank 0, 3 and 4 broadcast against three y, one of the points
    arbitrary, any Lambda"""
    _ranks(h, h.lib.LogisticKernel)


def regbose_ranks(h):
    """points of rank 0, 3 and 4 broadcast against three y, one of the points
    arbitrary, any Lambda"""
    _ranks(h, h.lib.RegularizedBoseKernel)


def distances(h):
    """both kernels, Lambda around 2^53, points which rounding has moved onto the
    ends, given by arbitrary distances of about 2^-53 from them"""
    S = 2.0**53
    lam = h.real('lam', S, S * 1.00390625)
    bose = h.choice('kernel', ['logistic', 'bose']) == 'bose'
    k = (h.lib.RegularizedBoseKernel if bose else h.lib.LogisticKernel)(lam)
    d = h.real('d', 1/S, 8/S)
    y = h.choice('y', [.5, 1.0])
    # close to the lower end for y > 0, to the upper one for y < 0
    if h.choice('end', ['lower', 'upper']) == 'lower':
        K = k(-1.0, y, d, h.arr(2.0))
    else:
        K = k(1.0, -y, h.arr(2.0), d)
    want = h.exp(-lam * y * d / 2)
    h.eq("value", K, -y * want / h.np.expm1(-lam * y) if bose
         else want / (1 + h.exp(-lam * y)))


HARNESSES = [
    (distances, {}),
    (logistic_ranks, {}),
    (regbose_ranks, {}),
    (logistic_point, {}),
    (regbose_point, {}),
    (logistic_grid, {}),
    (regbose_grid, {}),
    (logistic_whole, {}),
    (regbose_whole, {}),
             (logistic_large, {}), (regbose_large, {})]
