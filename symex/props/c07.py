"""Derivatives of piecewise polynomials."""
from .common import (free_knots, unit_knots, poly, segment, indices,
                     mono_in_t, diff_mono, eval_mono, many_knots, mixed)


def dvalue(h, data, knots, x, n, idx=()):
    """n-th derivative at x, by definition"""
    i = segment(h, knots, x)
    lo, hi = knots[i], knots[i + 1]
    c = [data[(k, i) + tuple(idx)] for k in range(data.shape[0])]
    t = (2 * x - (lo + hi)) / (hi - lo)
    return (h.np.sqrt(2 / (hi - lo)) * (2 / (hi - lo))**n
            * eval_mono(diff_mono(mono_in_t(h, c), n), t))


def _point(h, knots, name='x'):
    x = h.real(name, -3, 9)
    h.assume([x >= knots[0], x <= knots[-1]])
    return x


def derivative(h):
    """order 1 to 4, one or two segments with arbitrary knots, n = 0 to 5, any
    point"""
    order = h.choice('order', [1, 2, 3, 4])
    knots = free_knots(h, h.choice('segments', [1, 2]))
    p, data = poly(h, order, knots)
    n = h.choice('n', [0, 1, 2, 3, 4, 5])
    x = _point(h, knots)
    d = p.deriv(n)
    h.eq("derivative", d(x), dvalue(h, data, knots, x, n))
    h.eq("original", p.data, data)
    if n == 1:
        h.eq("default", p.deriv()(x), dvalue(h, data, knots, x, 1))


def three_segments(h):
    """order 3, three segments with arbitrary knots, n = 1, 2, any point"""
    knots = free_knots(h, 3)
    p, data = poly(h, 3, knots)
    n = h.choice('n', [1, 2])
    x = _point(h, knots)
    h.eq("derivative", p.deriv(n)(x), dvalue(h, data, knots, x, n))


def function_axes(h):
    """function axes (2,), (2,2), (1,2); n = 0 to 3; parity and selection"""
    fs, symm = h.choice('axes', [((2,), [1, -1]),
                                 ((2, 2), [[1, 0], [-1, 1]]),
                                 ((1, 2), [[-1, 0]])])
    knots = free_knots(h, 2)
    p, data = poly(h, 3, knots, fs, symm=symm)
    n = h.choice('n', [0, 1, 2, 3])
    x = _point(h, knots)
    d = p.deriv(n)
    h.eq("derivative", d(x), h.arr(
        [dvalue(h, data, knots, x, n, i) for i in indices(fs)]).reshape(fs))
    h.eq("parity", d.symm, (-1)**n * h.arr(symm))
    h.check("shape", tuple(d.shape) == fs)
    h.eq("parity of original", p.symm, h.arr(symm))
    i = indices(fs)[-1]
    sel = i if len(i) > 1 else i[0]
    h.eq("select after", d[sel](x), dvalue(h, data, knots, x, n, i))
    h.eq("select before", p[sel].deriv(n)(x),
         dvalue(h, data, knots, x, n, i))


def single_parity(h):
    """parity of derivatives of one function (with no axes, given a parity or
    selected from an array of functions), n = 0 to 3; it is that of the
    function for symmetric knots"""
    sign = h.choice('parity', [1, -1, 0])
    n = h.choice('n', [0, 1, 2, 3])
    a = h.reals('c', (3, 1), -2, 2)
    if sign:
        # mirror
        rows = [[sign * (-1)**k * a[k, 0], a[k, 0]] for k in range(3)]
    else:
        rows = [[h.real('m%d' % k, -2, 2), a[k, 0]] for k in range(3)]
    how = h.choice('how', ['own', 'selected', 'slice'])
    P = h.lib.poly.PiecewiseLegendrePoly
    ks = h.arr([-1.0, 0.0, 1.0])
    if how == 'own':
        p = P(h.arr(rows), ks, symm=h.arr(sign))
    else:
        full = P(h.arr([[[0.0, c] for c in r] for r in rows]), ks,
                 symm=h.arr([0, sign]))
        p = full[1] if how == 'selected' else full[1:]
    d = p.deriv(n)
    shape = (1,) if how == 'slice' else ()
    h.eq("parity", d.symm, h.np.reshape(h.arr((-1)**n * sign), shape))
    x = h.real('x', 2.0**-6, 1)
    if sign:
        h.eq("mirror", d(-x), (-1)**n * sign * d(x))
    dd = d.deriv()
    h.eq("parity again", dd.symm,
         h.np.reshape(h.arr((-1)**(n + 1) * sign), shape))
    h.eq("parity of original", p.symm, h.np.reshape(h.arr(sign), shape))


def repeated(h):
    """orders 1 to 4: m derivatives of the n-th, m + n up to 4, any point; the
    result can be built anew from its own data"""
    order = h.choice('order', [1, 2, 3, 4])
    knots = free_knots(h, 2)
    p, data = poly(h, order, knots)
    n, m = h.choice('nm', [(1, 1), (2, 1), (1, 2), (0, 1), (1, 3), (3, 1)])
    x = _point(h, knots)
    d = p.deriv(n).deriv(m)
    h.eq("derivative", d(x), dvalue(h, data, knots, x, n + m))
    d = p.deriv(n)
    h.check("order", d.polyorder == d.data.shape[0])
    again = h.lib.poly.PiecewiseLegendrePoly(d.data, d.knots)
    h.eq("anew", again(x), d(x))


def transformed(h):
    """orders 1 to 3, arbitrary middle knot in [-1,1]: Fourier transform of the
    n-th derivative is that of an equal polynomial built from scratch"""
    P = h.lib.poly.PiecewiseLegendrePoly
    FT = h.lib.poly.PiecewiseLegendreFT
    order = h.choice('order', [1, 2, 3])
    p, data = poly(h, order, [-1.0, 0.0, 1.0])
    n = h.choice('n', [1, 2, 3])
    d = p.deriv(n)
    cols = []
    for i in range(2):
        # derivative on [i-1, i], slope of the local variable is 2
        c = diff_mono(mono_in_t(h, [data[k, i] for k in range(order)]), n)
        c = [2**n * a for a in c] + [0] * (order - len(c))
        cols.append(_to_leg3(c))
    fresh = P(h.arr([[cols[i][k] for i in range(2)] for k in range(order)]),
              h.arr([-1.0, 0.0, 1.0]))
    x = h.real('x', -1, 1)
    h.eq("same function", fresh(x), d(x))
    w = h.arr(h.choice('freq', [[0, 2], [1, -3]]))
    h.eq("transform", FT(d, 'any')(w), FT(fresh, 'any')(w))


def _to_leg3(c):
    """Legendre coefficients of up to quadratic polynomial"""
    if len(c) == 3:
        return [c[0] + c[2] / 3, c[1], 2 * c[2] / 3]
    return c


def integrated(h):
    """orders 2 and 3 on fixed knots: the overlap of the derivative with one is
    the sum of the increments over the segments"""
    order = h.choice('order', [2, 3])
    knots = [-1.0, 1.0, 3.0]
    data = h.reals('c', (order, 2), -.25, .25)
    top = h.reals('top', 2, 1, 2)
    P = h.lib.poly.PiecewiseLegendrePoly
    rows = [[data[k, i] if k != 1 else top[i] for i in range(2)]
            for k in range(order)]
    p = P(h.arr(rows), h.arr(knots))
    inc = 0
    for i in range(2):
        c = mono_in_t(h, [rows[k][i] for k in range(order)])
        inc = inc + eval_mono(c, 1.0) - eval_mono(c, -1.0)
    h.eq("fundamental theorem", p.deriv().overlap(lambda x: 1.0, rtol=1e-9),
         inc, tol=1e-8, stol=1e-9)


def whole_numbers(h):
    """coefficients and knots given as whole numbers"""
    knots = h.choice('knots', [[-1, 1], [-1, 0, 4]])
    data = h.ints('c', (3, len(knots) - 1), -9, 9)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    k = [float(x) for x in knots]
    n = h.choice('n', [0, 1, 2, 3])
    x = h.choice('point', [0, 1, 'any'])
    if x == 'any':
        x = _point(h, k)
    h.eq("derivative", p.deriv(n)(x), dvalue(h, 1.0 * data, k, x, n))
    h.eq("original", p.data, data)


def large(h):
    """sizes as in real use: orders 10 and 16 on 20 (thorough: 40) segments, 12
    functions or one, n = 0 to 3 and order - 1 to order + 1; fixed coefficients
    but for one arbitrary one per segment, at an arbitrary point of a segment"""
    order, nf = h.choice('order, functions', [(10, 12), (16, None)])
    nseg = h.pick(20, 40)
    ks = many_knots(nseg)
    fs = () if nf is None else (nf,)
    data = mixed(h, 'c', (order, nseg) + fs,
                 [(order - 1 - i % 4, i) + ((i % nf,) if nf else ())
                  for i in range(nseg)])
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks))
    n = h.choice('n', [0, 1, 2, 3, order - 1, order, order + 1])
    d = p.deriv(n)
    j = h.choice('segment', [0, nseg // 2, nseg - 1])
    t = h.real('t', 0, 1)
    h.assume(t <= 1 - 2.**-20)
    lo, hi = ks[j], ks[j + 1]
    x = lo + t * (hi - lo)
    got = d(x)
    unit = (2 / (hi - lo))**n * 2.0**(2 * min(n, order))
    h.check("shape", tuple(d.shape) == fs)
    for l in [None] if nf is None else [0, j % nf, nf - 1]:
        i = () if l is None else (l,)
        want = (h.np.sqrt(2 / (hi - lo)) * (2 / (hi - lo))**n * eval_mono(
            diff_mono(mono_in_t(h, [data[(k, j) + i] for k in range(order)]),
                      n), 2 * t - 1))
        h.eq("derivative", got[i] / unit, want / unit, **TOL)
    h.eq("original", p.data, data)

TOL = dict(tol=1e-7, stol=1e-8)


HARNESSES = [(derivative, {}), (three_segments, {}), (function_axes, {}),
             (repeated, {}), (single_parity, {}), (transformed, {}), (integrated, {}),
             (whole_numbers, {}),
             (large, {})]
