"""Pairs of bases and basis sets."""
from .common import fake_sve, many_knots, mixed

TOL = dict(tol=1e-8, stol=1e-9)
TAUS = {'F': [.125, .5, .875], 'B': [.25, .375, .75]}
FREQS = {'F': [-3, -1, 1, 3], 'B': [-2, 0, 2]}


class Stubs:
    """takes the place of the computation of expansions and of the choice of
    default points (other properties), noting what is asked for"""

    def __init__(self, h, res):
        self.h, self.res, self.calls, self.points = h, res, [], []

    def __enter__(self):
        h = self.h
        self.sv, self.cls = h.mod('sve'), h.lib.FiniteTempBasis
        self.old = (self.sv.compute, self.cls.default_tau_sampling_points,
                    self.cls.default_matsubara_sampling_points)
        me = self

        def compute(K, eps=None, *args, **kw):
            me.calls.append((K, eps, args, kw))
            return me.res

        def tau(b, *, npoints=None):
            me.points.append(('tau', b, npoints))
            return h.arr([b.beta * x for x in TAUS[b.statistics]])

        def freq(b, *, npoints=None, positive_only=False):
            me.points.append(('freq', b, npoints, positive_only))
            return h.arr(FREQS[b.statistics])
        self.sv.compute = compute
        self.cls.default_tau_sampling_points = tau
        self.cls.default_matsubara_sampling_points = freq
        return self

    def __exit__(self, *exc):
        (self.sv.compute, self.cls.default_tau_sampling_points,
         self.cls.default_matsubara_sampling_points) = self.old


def _expansion(h, size=3):
    """values above any tolerance or not"""
    s = [1.0, h.real('s1', 2.**-8, 1)]
    s.append(h.real('s2', 2.**-9, 1))
    h.assume(s[2] <= s[1])
    return fake_sve(h, size, 2, (-1.0, 0.0, 1.0), symm=False, s=h.arr(s),
                    eps=h.choice('accuracy', [2.**-20, .25])), s


def _count(h, s, eps):
    return sum(1 for x in s if h.truth(x >= eps))


def _pair(h, f, b, res, s, beta, wmax, eps):
    e = res.eps if eps is None else eps
    n = _count(h, s, e)
    for basis, stat in ((f, 'F'), (b, 'B')):
        h.check("statistics", basis.statistics == stat)
        h.check("same expansion", basis.sve_result is res)
        h.check("parameters", [basis.beta == beta, basis.wmax == wmax])
        h.check("size", basis.size == n)
        h.check("kernel", type(basis.kernel) is
                type(h.lib.LogisticKernel(1.)))
        h.check("cutoff", basis.kernel.lambda_ == beta * wmax)
        h.eq("data of u", basis.u.data, res.u.data[:, :, :n])
        h.eq("data of v", basis.v.data, res.v.data[:, :, :n])
        h.check("frequencies", basis.uhat.freq
                == {'F': 'odd', 'B': 'even'}[stat])
    h.eq("same functions", f.u.knots, b.u.knots)
    h.eq("same values", f.s, b.s)
    h.eq("same accuracy", f.accuracy, b.accuracy)


def _inputs(h):
    beta, wmax = h.real('beta', .25, 8), h.real('wmax', .25, 4)
    eps = h.choice('eps', [None, 'any', 0.0])
    if eps == 'any':
        eps = h.real('e', 2.**-10, 1)
    return beta, wmax, eps


def pair(h):
    """any beta and wmax, any eps in [0, 1] or none, any non-increasing
    values; expansion supplied or computed"""
    beta, wmax, eps = _inputs(h)
    res, s = _expansion(h)
    supplied = h.choice('supplied', [True, False])
    with Stubs(h, res) as st:
        f, b = h.lib.finite_temp_bases(
            beta, wmax, eps, **(dict(sve_result=res) if supplied else {}))
    _pair(h, f, b, res, s, beta, wmax, eps)
    _calls(h, st, supplied, beta, wmax, eps)


def _calls(h, st, supplied, beta, wmax, eps):
    if supplied:
        h.check("nothing computed", st.calls == [])
        return
    h.check("computed once", len(st.calls) == 1)
    K, e, args, kw = st.calls[0]
    h.check("of the logistic kernel",
            type(K) is type(h.lib.LogisticKernel(1.)))
    h.check("with this cutoff", K.lambda_ == beta * wmax)
    h.check("with this accuracy", e is None if eps is None else
            h.truth(e == eps))
    h.check("and nothing else", args == () and kw == {})


def basis_set(h):
    """the same for a set, and its members and properties"""
    beta, wmax, eps = _inputs(h)
    res, s = _expansion(h)
    supplied = h.choice('supplied', [True, False])
    h.svd_opaque()
    with Stubs(h, res) as st:
        S = h.lib.FiniteTempBasisSet(
            beta, wmax, eps, **(dict(sve_result=res) if supplied else {}))
    _pair(h, S.basis_f, S.basis_b, res, s, beta, wmax, eps)
    _calls(h, st, supplied, beta, wmax, eps)
    for basis, tau, wn, stat in (
            (S.basis_f, S.smpl_tau_f, S.smpl_wn_f, 'F'),
            (S.basis_b, S.smpl_tau_b, S.smpl_wn_b, 'B')):
        h.check("kinds", isinstance(tau, h.lib.TauSampling)
                and isinstance(wn, h.lib.MatsubaraSampling))
        h.check("same statistics", tau.basis is basis and wn.basis is basis)
        t = h.arr([beta * x for x in TAUS[stat]])
        h.eq("times", tau.sampling_points, t)
        h.check("frequencies", [int(n) for n in wn.sampling_points]
                == FREQS[stat])
        h.eq("values in time", tau.matrix.a, basis.u(t).T)
        h.eq("values in frequency", wn.matrix.a,
             basis.uhat(h.arr(FREQS[stat])).T)
        h.check("all frequencies", wn.positive_only is False)
    for p in st.points:
        h.check("default number of points", p[2] is None or
                p[2] == p[1].size)
    h.check("lambda", S.lambda_ == beta * wmax)
    h.check("parameters", [S.beta == beta, S.wmax == wmax])
    h.check("expansion", S.sve_result is res)
    h.eq("accuracy", S.accuracy, S.basis_f.accuracy)
    h.eq("tau", S.tau, S.smpl_tau_f.sampling_points)
    h.check("fermionic", [int(n) for n in S.wn_f] == FREQS['F'])
    h.check("bosonic", [int(n) for n in S.wn_b] == FREQS['B'])


def equal(h):
    """supplying an expansion or having it computed gives the same set; a set
    contains what the pair contains"""
    beta, wmax, eps = _inputs(h)
    res, s = _expansion(h)
    h.svd_opaque()
    with Stubs(h, res):
        S = h.lib.FiniteTempBasisSet(beta, wmax, eps)
        R = h.lib.FiniteTempBasisSet(beta, wmax, eps, res)
        f, b = h.lib.finite_temp_bases(beta, wmax, eps, res)
    for x, y, z in ((S.basis_f, R.basis_f, f), (S.basis_b, R.basis_b, b)):
        for o in (y, z):
            h.check("size", x.size == o.size)
            h.check("kind", x.statistics == o.statistics)
            h.eq("s", x.s, o.s)
            h.eq("u", x.u.data, o.u.data)
            h.eq("knots", x.u.knots, o.u.knots)
            h.eq("v", x.v.data, o.v.data)
            h.eq("uhat", x.uhat.poly.data, o.uhat.poly.data)
            h.eq("accuracy", x.accuracy, o.accuracy)
    h.eq("tau", S.tau, R.tau)
    h.check("wn", [int(n) for n in S.wn_f] == [int(n) for n in R.wn_f])
    h.check("wn", [int(n) for n in S.wn_b] == [int(n) for n in R.wn_b])


def rejects(h):
    """invalid beta or wmax"""
    bad = h.choice('bad', [(0.0, 1.0), (-1.0, 1.0), (1.0, -1.0),
                           (float('nan'), 1.0), (1.0, float('nan'))])
    res = fake_sve(h, 2, 1, symm=False)
    f = h.choice('what', [h.lib.finite_temp_bases, h.lib.FiniteTempBasisSet])
    with Stubs(h, res):
        h.raises("supplied", ValueError,
                 lambda: f(bad[0], bad[1], .5, sve_result=res))
        h.raises("computed", ValueError, lambda: f(bad[0], bad[1], .5))


def large(h):
    """expansions of 24 functions on 8 segments with some arbitrary
    coefficients, one arbitrary value, any eps around it"""
    size = 24
    beta, wmax = h.real('beta', .25, 8), h.real('wmax', .25, 4)
    j = h.choice('free', [1, 12, 22])
    s = [2.0**-l for l in range(size)]
    s[j] = h.real('s', s[j + 1], s[j - 1])
    eps = h.real('eps', s[j + 1] / 2, s[j - 1])
    ks = many_knots(8)
    P = h.lib.poly.PiecewiseLegendrePoly
    mk = lambda q: P(mixed(h, 'd%d' % q, (3, 8, size),
                           [(0, 0, 0), (2, 7, size - 1), (1, 3, 11)], q),
                     h.arr(ks))
    res = h.lib.sve.SVEResult(mk(1), h.arr(s), mk(2),
                              h.lib.LogisticKernel(8.0), 2.0**-20)
    supplied = h.choice('supplied', [True, False])
    kw = dict(sve_result=res) if supplied else {}
    h.svd_opaque()
    with Stubs(h, res) as st:
        if h.choice('what', ['pair', 'set']) == 'pair':
            f, b = h.lib.finite_temp_bases(beta, wmax, eps, **kw)
        else:
            S = h.lib.FiniteTempBasisSet(beta, wmax, eps, **kw)
            f, b = S.basis_f, S.basis_b
    _pair(h, f, b, res, s, beta, wmax, eps)
    _calls(h, st, supplied, beta, wmax, eps)


HARNESSES = [(pair, {}), (basis_set, {}), (equal, {}), (rejects, {}),
             (large, {})]
