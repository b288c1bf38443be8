"""Fourier transform of piecewise polynomials."""
from .common import (unit_knots, poly, mono_in_t, diff_mono, eval_mono,
                     indices, many_knots, mixed)


TOL = dict(tol=1e-8, stol=1e-9)


def phase(h, n, x):
    """exp(i pi n (x+1) / 2)"""
    a = h.pi() * n * (x + 1) / 2
    return h.np.cos(a) + 1j * h.np.sin(a)


def integral(h, data, knots, n, idx=()):
    """1/sqrt(2) times the integral of exp(i pi n (x+1)/2) p(x), segment by
    segment through repeated integration by parts"""
    total = 0
    for i in range(len(knots) - 1):
        lo, hi = knots[i], knots[i + 1]
        half = (hi - lo) / 2
        c = mono_in_t(h, [data[(k, i) + tuple(idx)]
                          for k in range(data.shape[0])])
        if n == 0:
            part = half * sum(a * 2 / (k + 1) for k, a in enumerate(c)
                              if k % 2 == 0)
        else:
            part = 0
            inv = 1 / (1j * h.pi() * n / 2)
            for m in range(len(c)):
                d = diff_mono(c, m)
                up, low = eval_mono(d, 1), eval_mono(d, -1)
                part = part + (-1)**m * inv**(m + 1) / half**m * (
                    up * phase(h, n, hi) - low * phase(h, n, lo))
        total = total + part / h.np.sqrt(half)
    return total / h.np.sqrt(2)


def pieces(h):
    """order 1 to 3 (thorough: 4), one to three segments with arbitrary knots,
    every coefficient; positive, negative and zero frequencies"""
    order = h.choice('order', h.pick([1, 2, 3], [1, 2, 3, 4]))
    nseg = h.choice('segments', h.pick([1, 2], [1, 2, 3]))
    knots = unit_knots(h, nseg)
    p, data = poly(h, order, knots)
    n = h.choice('n', h.pick([0, 1, 2, -1, 3, -6],
                             [0, 1, 2, -1, 3, -6, 4, 5, 12, -17]))
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'odd' if n % 2 else 'even')
    h.eq("integral", ft(n), integral(h, data, knots, n))


def fixed_knots(h):
    """orders 4 to 6, five segments with knots at multiples of 1/8; all
    coefficients, frequencies up to 1000001"""
    order = h.choice('order', h.pick([4], [4, 5, 6]))
    knots = h.choice('knots', [[-1.0, -.75, -.375, 0.0, .5, 1.0],
                               [-1.0, -.5, 0.0, .5, .875, 1.0]])
    p, data = poly(h, order, knots)
    n = h.choice('n', [1, -2, 101, -1000001, 4096])
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'any')
    h.eq("integral", ft(n), integral(h, data, knots, n), **TOL)


def conjugate(h):
    """value at -n is the complex conjugate of that at n"""
    knots = unit_knots(h, h.choice('segments', [1, 2]))
    p, data = poly(h, 3, knots)
    n = h.choice('n', [1, 2, 3, 4, 7])
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'any')
    a, b = ft(h.arr([n, -n]))
    h.eq("conjugate", a.conjugate() if hasattr(a, 'conjugate') else
         h.np.conj(a), b)


def parity(h):
    """even or odd polynomials of order up to 4 on mirrored arbitrary knots:
    one of real and imaginary part vanishes"""
    sign = h.choice('parity', [1, -1])
    nseg = h.choice('segments', [1, 2, 4])
    if nseg == 4:
        x = h.real('x', .05, .95)
        knots = [-1.0, -x, 0.0, x, 1.0]
    else:
        knots = [-1.0, 1.0] if nseg == 1 else [-1.0, 0.0, 1.0]
    order = 4 if nseg < 4 else 2
    c = h.reals('c', (order, (nseg + 1) // 2), -2, 2)
    rows = []
    for k in range(order):
        right = [c[k, i] for i in range((nseg + 1) // 2)]
        left = [sign * (-1)**k * a for a in reversed(right)]
        if nseg == 1:
            right = [right[0] if (-1)**k == sign else 0]
            left = []
        rows.append(left + right)
    p = h.lib.poly.PiecewiseLegendrePoly(h.arr(rows), h.arr(knots),
                                         symm=h.np.asarray(sign))
    n = h.choice('n', [0, 1, 2, 3, -3, -4])
    v = h.lib.poly.PiecewiseLegendreFT(p, 'odd' if n % 2 else 'even')(n)
    # exp(i pi n/2) times (real if even, imaginary if odd)
    real = (n % 2 == 0) == (sign == 1)
    h.eq("vanishing part", v.imag if real else v.real, 0)
    if n == 0 and sign == -1:
        h.eq("odd at zero", v, 0)


def shapes(h):
    """function axes (), (2,), (2,2) and frequencies of shape (), (2,), (2,1),
    (0,); selection by index, slice, list and tuple"""
    fs = h.choice('axes', [(), (2,), (2, 2)])
    ns = h.choice('n', [3, [1, -5], [[2], [-1]], []])
    n = h.np.asarray(ns, dtype=int)
    knots = [-1.0, .25, 1.0]
    p, data = poly(h, 2, knots, fs)
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'any')
    flat = [int(k) for k in n.ravel()]
    want = h.arr([[integral(h, data, knots, k, i) for k in flat]
                  for i in indices(fs)]).reshape(fs + tuple(n.shape))
    got = ft(n if h.choice('array', [True, False]) else ns) \
        if ns != [] else ft(n)
    h.check("shape", tuple(got.shape) == fs + tuple(n.shape))
    h.eq("integrals", got, want, **TOL)
    h.check("number of functions", [ft.shape == fs, ft.ndim == len(fs),
                                    ft.size == len(indices(fs))])
    if fs:
        sel = h.choice('select', [0, -1, slice(1, None), [1, 0],
                                  slice(None, None, -1), slice(1, 3),
                                  slice(1, 2), slice(None, -1)])
        h.eq("selection", ft[sel](n), want[sel], **TOL)
        if len(fs) == 2:
            h.eq("tuple", ft[1, 0](n), want[1, 0], **TOL)
            h.eq("part of a tuple", ft[:, 1](n), want[:, 1], **TOL)


def float_frequencies(h):
    """frequencies given as floats"""
    knots = [-1.0, .25, 1.0]
    p, data = poly(h, 2, knots)
    n = h.choice('n', [1, 2, -3])
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'any')
    h.eq("float", ft(float(n)), integral(h, data, knots, n), **TOL)
    h.eq("float array", ft(h.arr([float(n)])),
         h.arr([integral(h, data, knots, n)]), **TOL)


def domain(h):
    """any domain other than [-1, 1] is refused"""
    lo = h.real('lo', -3, 3)
    s = h.real('len', .1, 3)
    h.assume(h.either(abs(lo + 1) >= 1e-9, abs(lo + s - 1) >= 1e-9))
    p = h.lib.poly.PiecewiseLegendrePoly(h.arr([[1.0]]), h.arr([lo, lo + s]))
    h.raises("domain", NotImplementedError,
             lambda: h.lib.poly.PiecewiseLegendreFT(p, 'even'))


def unchanged(h):
    """the polynomial is not modified"""
    knots = [-1.0, .25, 1.0]
    p, data = poly(h, 2, knots, (2,))
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'odd')
    n = h.np.asarray([1, -3])
    ft(n)
    h.eq("data", p.data, data)
    h.eq("frequencies", n, h.np.asarray([1, -3]))
    h.eq("knots", p.knots, h.arr(knots))


def whole_numbers(h):
    """coefficients and knots given as whole numbers"""
    knots = h.choice('knots', [[-1, 1], [-1, 0, 1]])
    data = h.ints('c', (3, len(knots) - 1), -9, 9)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    n = h.choice('n', [0, 1, -2, 5])
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'odd' if n % 2 else 'even')
    h.eq("integral", ft(n),
         integral(h, 1.0 * data, [float(x) for x in knots], n))


def large(h):
    """sizes as in real use: order 10 on 16 segments, 1 or 12 functions, 40
    (thorough: 100) frequencies in one call, of either sign; fixed coefficients
    but for one arbitrary one per segment"""
    nf = h.choice('functions', [None, 12])
    order, nseg = 10, 16
    ks = many_knots(nseg)
    fs = () if nf is None else (nf,)
    data = mixed(h, 'c', (order, nseg) + fs,
                 [(i % order, i) + ((i % nf,) if nf else ())
                  for i in range(nseg)])
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks))
    num = h.pick(40, 100)
    zeta = h.choice('zeta', [0, 1])
    n = [0 if zeta == 0 else 301]
    n += [(-1)**k * (2 * (60 + k * k) + zeta) for k in range(1, num)]
    ft = h.lib.poly.PiecewiseLegendreFT(p, 'odd' if zeta else 'even')
    got = ft(h.arr(n))
    h.check("shape", tuple(got.shape) == fs + (num,))
    for l in [None] if nf is None else [0, 5, nf - 1]:
        for k in [0, 1, num // 2, num - 1]:
            i = () if l is None else (l,)
            h.eq("integral", got[i + (k,)], integral(h, data, ks, n[k], i),
                 **TOL)


HARNESSES = [(pieces, {}), (fixed_knots, {}), (conjugate, {}), (parity, {}),
             (shapes, {}), (float_frequencies, {}), (domain, {}),
             (unchanged, {}),
             (whole_numbers, {}),
             (large, {})]
