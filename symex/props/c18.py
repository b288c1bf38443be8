"""Bases in physical units."""
from fractions import Fraction

from .c10 import integral
from .common import fake_sve, value, many_knots, mixed, numbers

F23 = Fraction(2, 3)
TOL = dict(tol=1e-8, stol=1e-9)


class PowerKernel:
    """any kernel with a cutoff and a power of y"""
    is_centrosymmetric = True
    xrange = yrange = (-1, 1)

    def __init__(self, lambda_, ypower):
        self.lambda_, self.ypower = lambda_, ypower
        self.conv_radius = 40 * lambda_


def _kernel(h, lam, kinds=('logistic', 'default', 'bose', 'power')):
    kind = h.choice('kernel', list(kinds))
    if kind == 'bose':
        return h.lib.RegularizedBoseKernel(lam), 1, True
    if kind == 'power':
        p = h.choice('power', [0, 2])
        return PowerKernel(lam, p), p, True
    return h.lib.LogisticKernel(lam), 0, kind != 'default'


def _basis(h, kinds=('logistic', 'default', 'bose', 'power'), size=2, order=2,
           knots=(-1.0, 0.25, 1.0), symm=False, wide=True, **kw):
    beta = h.real('beta', .25, 8)
    wmax = h.real('wmax', .25, 4)
    k, p, give = _kernel(h, beta * wmax, kinds)
    res = fake_sve(h, size, order, knots, kernel=k, symm=symm,
                   s=h.arr([h.real('s%d' % l, 2.**-l / 2, 2.**-l)
                            for l in range(size)]), **kw)
    stat = h.choice('statistics', ['F', 'B'])
    b = h.lib.FiniteTempBasis(stat, beta, wmax, 0.0, sve_result=res,
                              **(dict(kernel=k) if give else {}))
    return b, res, beta, wmax, p, stat


def functions(h):
    """two functions of order 2 on two segments with arbitrary coefficients,
    beta in [1/4, 8], wmax in [1/4, 4], every kernel: values at any time and
    frequency"""
    b, res, beta, wmax, p, stat = _basis(h)
    h.check("sizes", b.size == 2 and tuple(b.shape) == (2,)
            and b.u.size == 2 and b.v.size == 2 and b.uhat.size == 2)
    h.check("parameters", [b.beta == beta, b.wmax == wmax])
    h.check("lambda", b.lambda_ == beta * wmax)
    h.check("statistics", b.statistics == stat)
    h.check("expansion", b.sve_result is res)
    h.eq("domain of u", h.arr([b.u.xmin, b.u.xmax]), h.arr([0, beta]))
    h.eq("domain of v", h.arr([b.v.xmin, b.v.xmax]), h.arr([-wmax, wmax]))
    x = h.real('x', -1, 1)
    y = h.real('y', -1, 1)
    for z in x, y:
        h.assume(h.either(z <= .25 - 2.**-20, z >= .25 + 2.**-20))
    tau, om = beta / 2 * (x + 1), wmax * y
    h.assume(h.either(x <= 1 - 2.**-20, x >= 1))
    if not h.symbolic:
        tau, om = min(max(tau, 0), beta), min(max(om, -wmax), wmax)
    ut, vo = b.u(tau), b.v(om)
    ks = list(res.u.knots)
    for l in range(2):
        ux = value(h, res.u.data, ks, x, (l,))
        vy = value(h, res.v.data, ks, y, (l,))
        h.eq("u", ut[l] * h.np.sqrt(beta), ux * h.np.sqrt(2), **TOL)
        h.eq("v", vo[l] * h.np.sqrt(wmax), vy, **TOL)
        h.eq("s", b.s[l], h.np.sqrt(beta / 2 * wmax) * wmax**p * res.s[l],
             **TOL)
        h.eq("product", b.s[l] * ut[l] * vo[l], res.s[l] * ux * vy * wmax**p,
             **TOL)


def orthonormal(h):
    """integrals over products of the basis functions are those of the
    expansion; arbitrary coefficients on three segments"""
    b, res, beta, wmax, p, stat = _basis(
        h, kinds=('bose', 'power'), knots=(-1.0, -.5, .25, 1.0))
    for f, g, scale in ((b.u, res.u, beta / 2), (b.v, res.v, wmax)):
        h.eq("knots", f.knots[1:] - f.knots[:-1],
             scale * (g.knots[1:] - g.knots[:-1]), **TOL)
        h.eq("segment lengths", f.dx, f.knots[1:] - f.knots[:-1], **TOL)
        h.eq("parity", f.symm, g.symm)
        for l in range(2):
            for m in range(l + 1):
                def gram(q):
                    # integral of P_k^2 in the normalised variable
                    return sum(q.data[k, i, l] * q.data[k, i, m]
                               * (2.0 if k == 0 else h.num(F23))
                               for k in range(2) for i in range(3))
                h.eq("gram", gram(f), gram(g))


def fourier(h):
    """one or two segments (one, if the model can enter), order 2, arbitrary
    coefficients; frequencies up to 5 in magnitude"""
    one = h.choice('one segment', [True, False])
    b, res, beta, wmax, p, stat = _basis(
        h, kinds=('default', 'bose'), size=1,
        knots=(-1.0, 1.0) if one else (-1.0, 0.0, 1.0))
    if not one:
        h.assume(beta * wmax >= .25)
    n = h.choice('n', [1, -1, 5] if stat == 'F' else [0, 2, -4])
    got = b.uhat(n)
    ref = integral(h, res.u.data, list(res.u.knots), n, (0,))
    h.eq("transform", got[0], h.np.sqrt(beta) * ref, **TOL)
    h.check("statistics", b.uhat.freq == ('odd' if stat == 'F' else 'even'))
    other = 2 if stat == 'F' else 1
    h.raises("parity", ValueError, lambda: b.uhat(other))


def symmetry(h):
    """functions of alternating parity: their transforms are real or
    imaginary in turn, sampling in all units consistent"""
    b, res, beta, wmax, p, stat = _basis(h, kinds=('logistic',), size=2,
                                         knots=(-1.0, 0.0, 1.0), symm=True)
    # nothing is assumed of v: the parities are those of each set
    res.v.symm = -1 * res.v.symm
    b = h.lib.FiniteTempBasis(stat, beta, wmax, 0.0, kernel=b.kernel,
                              sve_result=res)
    h.eq("parity u", b.u.symm, res.u.symm)
    h.eq("parity v", b.v.symm, res.v.symm)
    h.eq("parity uhat", b.uhat.poly.symm, res.u.symm)
    x = h.choice('x', [.25, .5, .875])
    ut = b.u(h.arr([beta/2 * (1 - x), beta/2 * (1 + x)]))
    h.eq("even", ut[0, 0], ut[0, 1], **TOL)
    h.eq("odd", ut[1, 0], -ut[1, 1], **TOL)


def rejects(h):
    """beta or wmax of any wrong sign or NaN; statistics other than B and F;
    kernels with any other cutoff"""
    what = h.choice('what', ['beta', 'wmax', 'statistics', 'kernel'])
    beta, wmax, stat = 4.0, 2.0, h.choice('s', ['F', 'B'])
    kern = None
    if what == 'beta':
        beta = h.choice('value', [0.0, -1.0, float('nan'), -float('inf'),
                                  'any'])
        if beta == 'any':
            beta = h.real('b', -8, 0)
    elif what == 'wmax':
        wmax = h.choice('value', [-1.0, float('nan'), -float('inf'), 'any'])
        if wmax == 'any':
            wmax = h.real('w', -8, -1e-9)
    elif what == 'statistics':
        stat = h.choice('stat', ['X', '', 'BF', 'FB', 'f', None, 1])
    else:
        beta, wmax = h.real('b', .5, 8), h.real('w', .5, 8)
        lam = h.real('lambda', .25, 64)
        h.assume(h.either(lam >= beta * wmax + 2.**-20,
                          lam <= beta * wmax - 2.**-20))
        kern = h.choice('kind', [
            h.lib.LogisticKernel(lam), h.lib.RegularizedBoseKernel(lam),
            PowerKernel(lam, 2)])
    if what in ('beta', 'wmax'):
        # the cutoff is as given, so it is not a mismatch that is rejected
        kern = h.choice('kind', [None, PowerKernel(beta * wmax, 0)])
    res = fake_sve(h, 2, 2, (-1.0, 1.0), kernel=kern, symm=False)
    h.raises("rejected", ValueError, lambda: h.lib.FiniteTempBasis(
        stat, beta, wmax, 0.0, kernel=kern, sve_result=res))


def computed(h):
    """without an expansion, one is computed for exactly this kernel and eps,
    and it is kept"""
    sv = h.mod('sve')
    old = sv.compute
    beta, wmax = h.real('beta', .25, 8), h.real('wmax', .25, 4)
    eps = h.choice('eps', [None, 2.**-10])
    stat = h.choice('statistics', ['F', 'B'])
    give = h.choice('kernel given', [False, True])
    kern = h.lib.RegularizedBoseKernel(beta * wmax) if give else None
    calls = []
    res = fake_sve(h, 3, 2, (-1.0, 1.0), symm=False, eps=2.**-1)

    def compute(K, eps=None, *a, **kw):
        calls.append((K, eps, a, kw))
        return res
    sv.compute = compute
    try:
        b = h.lib.FiniteTempBasis(stat, beta, wmax, eps, kernel=kern)
    finally:
        sv.compute = old
    h.check("computed once", len(calls) == 1)
    K, e, a, kw = calls[0]
    h.check("kernel", K is b.kernel and (kern is None or K is kern))
    h.check("cutoff", K.lambda_ == beta * wmax)
    h.check("type", kern is not None
            or type(K) is type(h.lib.LogisticKernel(1.)))
    h.check("eps", e == eps if eps is not None else e is None)
    h.check("kept", b.sve_result is res)
    # with the accuracy of the expansion unless another one is asked for
    h.check("size", b.size == (2 if eps is None else 3))


def large(h):
    """sizes as in real use: 12 functions of order 8 on 20 segments, fixed
    coefficients but for some; 30 times and real frequencies in one call; beta in
    [1/4, 8], wmax in [1/4, 4]"""
    beta = h.real('beta', .25, 8)
    wmax = h.real('wmax', .25, 4)
    k, p, give = _kernel(h, beta * wmax, ('default', 'bose'))
    order, nseg, nf = 8, 20, 12
    ks = many_knots(nseg)
    P = h.lib.poly.PiecewiseLegendrePoly
    free = [(i % order, 3 * i + 1, (5 * i) % nf) for i in range(6)]
    du = mixed(h, 'u', (order, nseg, nf), free, 1)
    dv = mixed(h, 'v', (order, nseg, nf), free, 2)
    s = h.arr([2.0**-l for l in range(nf)])
    res = h.lib.sve.SVEResult(P(du, h.arr(ks)), s, P(dv, h.arr(ks)), k, 0.0)
    stat = h.choice('statistics', ['F', 'B'])
    b = h.lib.FiniteTempBasis(stat, beta, wmax, 0.0, sve_result=res,
                              **(dict(kernel=k) if give else {}))
    xs = numbers(30, 3, -1, 1, 9)
    xs = [x if x not in ks else x + 2.0**-12 if x < 1 else 1 - 2.0**-12
          for x in xs]
    ut = b.u(h.arr([beta / 2 * (x + 1) for x in xs]))
    vo = b.v(h.arr([wmax * x for x in xs]))
    h.check("shape", tuple(ut.shape) == (nf, 30) and tuple(vo.shape)
            == (nf, 30))
    for l in 0, 5, nf - 1:
        for i in 0, 7, 29:
            h.eq("u", ut[l, i] * h.np.sqrt(beta), h.np.sqrt(2) * value(
                h, du, ks, xs[i], (l,)), **TOL)
            h.eq("v", vo[l, i] * h.np.sqrt(wmax),
                 value(h, dv, ks, xs[i], (l,)), **TOL)
    for l in range(nf):
        h.eq("s", b.s[l], h.np.sqrt(beta / 2 * wmax) * wmax**p * s[l], **TOL)


def large_fourier(h):
    """the same functions at frequencies below those that the model serves;
    beta in [4, 8], wmax in [1, 4]"""
    beta = h.real('beta', 4, 8)
    wmax = h.real('wmax', 1, 4)
    k, p, give = _kernel(h, beta * wmax, ('default', 'bose'))
    order, nseg, nf = 8, 20, 12
    ks = many_knots(nseg)
    P = h.lib.poly.PiecewiseLegendrePoly
    du = mixed(h, 'u', (order, nseg, nf),
               [(i % order, 3 * i + 1, (5 * i) % nf) for i in range(6)], 1)
    u = P(du, h.arr(ks))
    res = h.lib.sve.SVEResult(u, h.arr([2.0**-l for l in range(nf)]), u, k,
                              0.0)
    stat = h.choice('statistics', ['F', 'B'])
    b = h.lib.FiniteTempBasis(stat, beta, wmax, 0.0, sve_result=res,
                              **(dict(kernel=k) if give else {}))
    n = [120, -130, 144] if stat == 'B' else [121, -131, 145]
    w = b.uhat(h.arr(n))
    h.check("shape", tuple(w.shape) == (nf, 3))
    for l in 0, 5, nf - 1:
        for i in range(3):
            h.eq("transform", w[l, i] / h.np.sqrt(beta),
                 integral(h, du, ks, n[i], (l,)), **TOL)


HARNESSES = [(functions, {}), (orthonormal, {}), (fourier, {}),
             (symmetry, {}), (rejects, {}), (computed, {}),
             (large, {}), (large_fourier, {})]
