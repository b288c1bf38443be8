"""High-frequency model of the Fourier transform."""
from .common import unit_knots, smooth_data, many_knots, numbers
from .c10 import integral, TOL


def _smooth(h, order, knots, nf=None, symm=None, tag='a'):
    """polynomials of arbitrary coefficients, represented on all segments"""
    if nf is None:
        c = h.reals(tag, order, -2, 2)
        data = h.arr(smooth_data(h, [c[k] for k in range(order)], knots))
    else:
        c = h.reals(tag, (order, nf), -2, 2)
        cols = [smooth_data(h, [c[k, l] for k in range(order)], knots)
                for l in range(nf)]
        data = h.arr([[[cols[l][k][i] for l in range(nf)]
                       for i in range(len(knots) - 1)]
                      for k in range(order)])
    p = h.lib.poly.PiecewiseLegendrePoly(
        data, h.arr(knots), symm=None if symm is None else h.np.asarray(symm))
    return p, data, c


STAT = {1: 'odd', 0: 'even'}


def model(h):
    """order 1 to 4, one or two segments on fixed knots; every coefficient;
    thresholds 1, 3, 5; frequencies below, at and above, of either sign"""
    order = h.choice('order', [1, 2, 3, 4])
    knots = h.choice('knots', [[-1.0, 1.0], [-1.0, .25, 1.0]])
    zeta = h.choice('zeta', [0, 1])
    p, data, _ = _smooth(h, order, knots)
    n_asymp = h.choice('n_asymp', [1, 4, 5])
    FT = h.lib.poly.PiecewiseLegendreFT
    n = h.arr([0, 2, -2, 4, -4, 6, -6, 1000, -998] if zeta == 0 else
              [1, -1, 3, -3, 5, -5, 7, -7, 999, -1001])
    got = FT(p, STAT[zeta], n_asymp)(n)
    h.eq("model agrees", got, FT(p, STAT[zeta])(n), **TOL)
    k = h.choice('which', [0, 1, 4, 7])
    h.eq("integral", got[k], integral(h, data, knots, int(n[k])), **TOL)


def knots(h):
    """order 1 to 3, two segments with an arbitrary knot"""
    order = h.choice('order', [1, 2, 3])
    ks = unit_knots(h, 2)
    zeta = h.choice('zeta', [0, 1])
    p, data, _ = _smooth(h, order, ks)
    n = h.choice('n', [2, -4, 0] if zeta == 0 else [1, 3, -1])
    FT = h.lib.poly.PiecewiseLegendreFT
    h.eq("model agrees", FT(p, STAT[zeta], 2)(n), FT(p, STAT[zeta])(n))


def parity(h):
    """even and odd polynomials of order up to 4, flagged as such"""
    sign = h.choice('parity', [1, -1])
    order = 4
    ks = h.choice('knots', [[-1.0, 1.0], [-1.0, 0.0, 1.0],
                            [-1.0, -.25, .25, 1.0]])
    a = h.reals('a', 2, -2, 2)
    c = [a[0], 0, a[1], 0] if sign == 1 else [0, a[0], 0, a[1]]
    data = h.arr(smooth_data(h, c, ks))
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks),
                                         symm=h.np.asarray(sign))
    zeta = h.choice('zeta', [0, 1])
    n = h.arr([2, -2, 4, 10, 0] if zeta == 0 else [1, 3, -5, 11, -1])
    FT = h.lib.poly.PiecewiseLegendreFT
    h.eq("model agrees", FT(p, STAT[zeta], 3)(n), FT(p, STAT[zeta])(n), **TOL)
    h.eq("derivative", FT(p.deriv(), STAT[zeta], 3)(n),
         FT(p.deriv(), STAT[zeta])(n), **TOL)


def sets(h):
    """sets of one to three functions of order 3: any position in the set, any
    parity; index, slice, list; frequencies of shape (2,2)"""
    nf = h.choice('functions', [1, 2, 3])
    ks = h.choice('knots', [[-1.0, 1.0], [-1.0, .5, 1.0]])
    p, data, _ = _smooth(h, 3, ks, nf)
    zeta = h.choice('zeta', [0, 1])
    n = h.arr([[2, -2], [0, 8]] if zeta == 0 else [[1, 3], [-5, 9]])
    FT = h.lib.poly.PiecewiseLegendreFT
    exact = FT(p, STAT[zeta])(n)
    ft = FT(p, STAT[zeta], 3)
    h.eq("model agrees", ft(n), exact, **TOL)
    h.check("shape", tuple(ft(n).shape) == (nf, 2, 2))
    sel = h.choice('select', [0, -1, slice(1, None), slice(None, None, -1),
                              slice(1, 3), slice(1, 2), slice(None, -1),
                              slice(None, None, 2), [0, nf - 1], (0,)])
    h.eq("selected", ft[sel](n), exact[sel], **TOL)
    h.eq("one frequency", ft[sel](n[1, 1]), exact[sel][..., 1, 1], **TOL)
    if sel == slice(None, None, -1):
        h.eq("selected twice", ft[sel][0](n), exact[nf - 1], **TOL)


def flagged_sets(h):
    """alternating parity in a set, as in a basis, and in reverse order"""
    first = h.choice('first', [1, -1])
    ks = [-1.0, 0.0, 1.0]
    a = h.reals('a', (2, 3), -2, 2)
    cols, symm = [], []
    for l in range(3):
        s = first * (-1)**l
        symm.append(s)
        cols.append(smooth_data(h, [a[0, l], 0, a[1, l], 0] if s == 1 else
                                [0, a[0, l], 0, a[1, l]], ks))
    data = h.arr([[[cols[l][k][i] for l in range(3)] for i in range(2)]
                  for k in range(4)])
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks), symm=h.arr(symm))
    zeta = h.choice('zeta', [0, 1])
    n = h.arr([2, -4, 6, 0] if zeta == 0 else [1, 5, -5])
    FT = h.lib.poly.PiecewiseLegendreFT
    exact = FT(p, STAT[zeta])(n)
    ft = FT(p, STAT[zeta], 3)
    h.eq("model agrees", ft(n), exact, **TOL)
    for l in range(3):
        h.eq("each function", ft[l](n), exact[l], **TOL)
        h.eq("built alone", FT(p[l], STAT[zeta], 3)(n), exact[l], **TOL)


def large(h):
    """sizes as in real use: polynomials of order 10 on 8 segments, 1 or 12
    functions, 30 (thorough: 80) frequencies in one call; fixed coefficients
    but for some"""
    nf = h.choice('functions', [None, 12])
    order = 10
    ks = many_knots(8)
    cs = numbers(order * (nf or 1), 5, -1, 1)
    cols = []
    for l in range(nf or 1):
        c = [2.0**-k * a for k, a in enumerate(cs[l * order:(l + 1) * order])]
        if l % 3 == 0:
            c[1 + l % 4] = h.real('c%d' % l, -1, 1)
        cols.append(smooth_data(h, c, ks))
    data = [[[cols[l][k][i] for l in range(nf or 1)] for i in range(8)]
            for k in range(order)]
    data = h.arr(data) if nf else h.arr(data)[:, :, 0]
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks))
    zeta = h.choice('zeta', [0, 1])
    num = h.pick(30, 80)
    n = [(-1)**k * (2 * (40 + k * k) + zeta) for k in range(num)]
    at = 2 * (40 + 9 * 9) + zeta
    FT = h.lib.poly.PiecewiseLegendreFT
    exact = FT(p, STAT[zeta])(h.arr(n))
    ft = FT(p, STAT[zeta], at)
    h.eq("model agrees", ft(h.arr(n)), exact, **TOL)
    if nf:
        h.eq("selected", ft[3:](h.arr(n[::7])), exact[3:, ::7], **TOL)
        h.eq("one", ft[7](n[-1]), exact[7, -1], **TOL)


HARNESSES = [(model, {}), (knots, {}), (parity, {}), (sets, {}),
             (flagged_sets, {}),
             (large, {})]
