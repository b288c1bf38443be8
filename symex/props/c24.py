"""Calls do not influence each other."""
from fractions import Fraction as Fr

from .c14 import Basis, mat
from .c17 import Kernel, nodes
from .common import fake_basis, poly

TOL = dict(tol=1e-9, stol=1e-10)


def _flat(h, x, depth=0):
    """numbers that a result consists of, copied"""
    if x is None or isinstance(x, (str, bytes, bool)):
        return []
    if isinstance(x, (tuple, list)):
        return [b for a in x for b in _flat(h, a, depth)]
    out = []
    for name in ('data', 'knots', 'poly', 'x', 'w', 'x_forward', 'x_backward',
                 'a', 'b', 'beta', 's', 'u', 'uhat', 'matrix', 'tau', 'wn',
                 '_poles'):
        if depth > 2 or isinstance(x, (int, float, complex)) \
                or hasattr(x, 'dtype') and hasattr(x, 'ndim') \
                and not hasattr(x, 'knots'):
            break
        y = getattr(x, name, None)
        if y is not None and not callable(y) or name in ('u', 'uhat') \
                and hasattr(y, 'data'):
            out += _flat(h, y, depth + 1)
    if out:
        return out
    if callable(x):
        return []
    return [h.np.array(x)]


def _same(h, label, a, b):
    h.check(label + ", parts", len(a) == len(b))
    for x, y in zip(a, b):
        h.check(label + ", shape", tuple(x.shape) == tuple(y.shape))
        h.eq(label, x, y, **TOL)


def history(h, make, ops, args):
    """one call, another call, the first call again: results equal those of
    the same calls in unused copies of the package, arguments stay"""
    i = h.choice('call', list(range(len(ops))))
    j = h.choice('other call', list(range(len(ops))))

    def argument():
        return {k: h.np.array(v) for k, v in args.items()}
    refs = []
    for k in (i, j):
        with h.fresh():
            refs.append(_flat(h, ops[k](make(), argument())))
    with h.fresh():
        given = argument()
        before = {k: v.copy() for k, v in given.items()}
        S = make()
        first = ops[i](S, given)
        one = _flat(h, first)
        other = ops[j](S, given)
        two = _flat(h, other)
        _same(h, "earlier result", _flat(h, first), one)
        again = ops[i](S, given)
        three = _flat(h, again)
        _same(h, "earlier results", _flat(h, first), one)
        _same(h, "earlier results of other", _flat(h, other), two)
    h.check("result", len(refs[0]) > 0 and len(refs[1]) > 0)
    _same(h, "first call", one, refs[0])
    _same(h, "call after another", two, refs[1])
    _same(h, "repeated call", three, refs[0])
    for k in given:
        h.eq("argument", given[k], before[k])


def kernels(h):
    """both kernels with two arbitrary Lambda each and an arbitrary point:
    values, symmetrised values, weights and hints"""
    lam = [h.real('lam%d' % i, .5, 8) for i in range(2)]
    cls = h.choice('kernel', ['LogisticKernel', 'RegularizedBoseKernel'])
    x, y = h.real('x', .0625, 1), h.real('y', .0625, 1)
    args = dict(x=h.arr([x]), y=h.arr([y]), xp=h.arr([1 + x]),
                xm=h.arr([1 - x]), p=h.arr([x]))

    def make():
        K = getattr(h.lib, cls)
        return [K(l) for l in lam]

    def call(k, *names):
        return lambda S, a: S[k](*[a[n] for n in names])

    def symm(k, sign, *names):
        def op(S, a):
            kw = dict(x_plus=a['p'], x_minus=a['xm']) if names else {}
            return S[k].get_symmetrized(sign)(a['x'], a['y'], **kw)
        return op

    def weight(k, stat):
        return lambda S, a: S[k].weight_func(stat)(a['y'])

    def hints(S, a):
        q = S[0].sve_hints(1e-6)
        return [q.ngauss, q.nsvals] if h.symbolic \
            else [q.ngauss, q.nsvals]
    ops = [call(0, 'x', 'y'), call(1, 'x', 'y'), call(0, 'x', 'y', 'xp', 'xm'),
           symm(0, 1), symm(0, -1), symm(1, 1, 'offsets'), weight(0, 'B')]
    if cls == 'LogisticKernel':
        ops.append(weight(0, 'F'))
    history(h, make, ops, args)


def rules(h):
    """two rules with arbitrary points and weights, Gauss rules: moving,
    scaling, repeating, joining, conversion, collocation"""
    xs = [[h.real('x%d' % i, -1, -.125), h.real('y%d' % i, .125, 1)]
          for i in range(2)]
    ws = [h.reals('w%d' % i, 2, 0, 1) for i in range(2)]
    args = dict(edges=h.arr([h.real('e0', -3, -1), h.real('e1', -.5, .5),
                             h.real('e2', 1, 2)]))

    def make():
        R = h.mod('_gauss').Rule
        r = [R(h.arr(xs[i]), h.np.array(ws[i])) for i in range(2)]
        return r + [r[1].reseat(1, 2)]

    def gauss(n):
        return lambda S, a: h.mod('_gauss').legendre(n)

    def single(S, a):
        return h.mod('_gauss').legendre(2, h.np.float32)

    def of_type(r, dtype):
        return h.arr([1.0 if r.x.dtype == dtype else 0.0])
    ops = [lambda S, a: S[2].scale(1.0),
           lambda S, a: h.mod('_gauss').Rule.join(S[0], S[2]),
           lambda S, a: S[0].reseat(a['edges'][0], a['edges'][2]),
           lambda S, a: S[1].reseat(a['edges'][1], a['edges'][2]),
           lambda S, a: S[0].scale(3.0), lambda S, a: S[1].scale(a['edges'][2]),
           lambda S, a: S[0].piecewise(a['edges']),
           lambda S, a: S[1].piecewise(a['edges']),
           lambda S, a: h.mod('_gauss').Rule.join(S[0], S[1].reseat(1, 2)),
           lambda S, a: S[0].astype(float), gauss(2), gauss(3),
           single, lambda S, a: of_type(single(S, a), h.np.float32),
           lambda S, a: of_type(gauss(2)(S, a), h.np.float64),
           lambda S, a: gauss(2)(S, a).reseat(0, 1),
           lambda S, a: h.mod('_gauss').legendre_collocation(S[0], 2),
           lambda S, a: h.mod('_gauss').legendre_collocation(S[1])]
    history(h, make, ops, args)


def functions(h):
    """two sets of piecewise polynomials with arbitrary coefficients: values,
    derivatives, single functions, transforms, by methods kept from before"""
    ks = [[-1.0, 0.0, 1.0], [-1.0, .25, 1.0]]
    ps = [poly(h, 2, ks[i], (2,), tag='c%d' % i)[1] for i in range(2)]
    x = h.real('x', -1, -.0625)
    args = dict(x=h.arr([x, .5]), n=h.np.array([1, -3, 5]),
                l=h.np.array([1, 0]), m=h.np.array([[1], [3]]))

    def make():
        P = h.lib.poly.PiecewiseLegendrePoly
        T = h.lib.poly.PiecewiseLegendreFT
        p = [P(h.np.array(ps[i]), h.arr(ks[i])) for i in range(2)]
        t = [T(q, 'odd', 3) for q in p]
        return p, t, t[0].__call__, p[0].value

    def transform(i, name='n'):
        return lambda S, a: S[1][i](a[name])
    ops = [lambda S, a: S[0][0](a['x']), lambda S, a: S[0][1](a['x']),
           lambda S, a: S[0][0](a['x'][1]),
           lambda S, a: S[3](a['l'], a['x']),
           lambda S, a: S[0][1].value(a['l'], a['x']),
           lambda S, a: S[0][0].deriv(), lambda S, a: S[0][0].deriv(2),
           lambda S, a: S[0][0].deriv()(a['x']),
           lambda S, a: S[0][0][1](a['x']), lambda S, a: S[0][0][1:],
           lambda S, a: S[0],
           transform(0), transform(1), lambda S, a: S[2](a['n']),
           lambda S, a: S[2](a['m']), transform(0, 'm'),
           lambda S, a: S[1][0][1](a['n'])]
    history(h, make, ops, args)


def bases(h):
    """two bases of two functions each with arbitrary coefficients, same or
    different statistics: functions, transforms, slices, other temperature"""
    stats = h.choice('statistics', ['FF', 'FB'])
    sv = [h.real('sv%d' % i, .0625, 1) for i in range(2)]
    t = h.real('tau', .125, .875)
    args = dict(tau=h.arr([t, 2.5]), w=h.arr([-1.5, .5]),
                F=h.np.array([1, -3]), B=h.np.array([0, 4]))
    datas = [fake_basis(h, s, 2, tag='b%d' % i, s=h.arr([1.0, sv[i]]))
             .sve_result for i, s in enumerate(stats)]
    raw = [(r.u.data, r.u.knots, r.v.data) for r in datas]

    def make():
        out = []
        P = h.lib.poly.PiecewiseLegendrePoly
        for i, s in enumerate(stats):
            u, v = [P(h.np.array(raw[i][k]), h.np.array(raw[i][1]),
                      symm=h.np.array([1, -1])) for k in (0, 2)]
            K = h.lib.LogisticKernel(8.0)
            res = h.lib.sve.SVEResult(u, h.arr([1.0, sv[i]]), v, K, 0.0)
            out.append(h.lib.FiniteTempBasis(s, 4.0 + 4*i, 2.0 / (1 + i), 0.0,
                                             kernel=K, sve_result=res))
        return out, out[0].uhat.__call__
    f = stats[1]
    ops = [lambda S, a: S[0][0].u(a['tau']), lambda S, a: S[0][1].u(a['tau']),
           lambda S, a: S[0][0].v(a['w']), lambda S, a: S[0][1].v(a['w'] / 2),
           lambda S, a: S[0][0].s, lambda S, a: S[0][1].s,
           lambda S, a: S[0][0].uhat(a['F']), lambda S, a: S[1](a['F']),
           lambda S, a: S[0][1].uhat(a[f]),
           lambda S, a: [S[0][0].significance, S[0][0].accuracy],
           lambda S, a: S[0][0][:1].u(a['tau']),
           lambda S, a: S[0][0][:1].uhat(a['F']),
           lambda S, a: S[0][0].rescale(2.0).u(a['tau'] / 2),
           lambda S, a: S[0][0].rescale(8.0).uhat(a['F']),
           lambda S, a: S[0][1].rescale(2.0).s,
           lambda S, a: S[0][0].u.deriv()(a['tau'])]
    history(h, make, ops, args)


def samplings(h):
    """two samplings with arbitrary values of two functions on three points:
    evaluation and fit along either axis, on own or other points"""
    kind = h.choice('kind', ['time', 'frequency'])
    A = [mat(h, 'A%d' % i, 3, 2, cplx=False) for i in range(2)]
    h.svd_opaque()
    pts = [[1, 3, 5], [1, 3, 7]]
    args = dict(c=h.reals('c', (2, 2), -2, 2), f=h.reals('f', (3, 3), -2, 2),
                p=h.np.array([5, 1, 3]), q=h.np.array([5, 5, 3]))

    def make():
        out = []
        for a, p in zip(A, pts):
            S = h.lib.TauSampling if kind == 'time' \
                else h.lib.MatsubaraSampling
            b = Basis(h, p, h.np.array(a[0]))
            out.append(S(b, h.np.array(p)))
        return out, out[0].fit, out[1].evaluate
    ops = [lambda S, a: S[0][0].evaluate(a['c'], axis=0),
           lambda S, a: S[0][1].evaluate(a['c'], axis=1),
           lambda S, a: S[2](a['c'], axis=0),
           lambda S, a: S[0][0].fit(a['f'], axis=0),
           lambda S, a: S[1](a['f'], axis=1),
           lambda S, a: S[0][1].fit(a['f'], axis=1),
           lambda S, a: S[0][0].fit(a['f'][0]),
           lambda S, a: S[0][0].evaluate(a['c'], axis=0, points=a['p']),
           lambda S, a: S[0][0].evaluate(a['c'], axis=0, points=a['q']),
           lambda S, a: S[0][0].evaluate(a['c'], axis=0, points=a['p'][::-1]),
           lambda S, a: S[0][0].fit(a['f'], axis=0, points=a['p']),
           lambda S, a: [S[0][0].cond, S[0][0].sampling_points],
           lambda S, a: [S[0][1].cond, S[0][1].sampling_points],
           lambda S, a: h.np.asarray(S[0][0].matrix)]
    history(h, make, ops, args)


def fermionic_poles(h):
    """two sets of two arbitrary poles each on the same fermionic basis, and
    the basis with further terms: functions and conversions"""
    _poles(h, 'F')


def bosonic_poles(h):
    """as for fermions, with a bosonic basis"""
    _poles(h, 'B')


def _poles(h, stat):
    poles = [[h.real('w', -2, -.125), .5], [h.real('z', .25, 2), -1.0]]
    b0 = fake_basis(h, stat, 2).sve_result
    raw = b0.u.data, b0.u.knots, b0.v.data
    z = 1 if stat == 'F' else 0
    t = h.real('tau', 0, 4)
    args = dict(tau=h.arr([t, .5]), n=h.np.array([2 + z, z - 4]),
                g=h.reals('g', (2, 2), -2, 2))

    def make():
        P = h.lib.poly.PiecewiseLegendrePoly
        u, v = [P(h.np.array(raw[k]), h.np.array(raw[1]),
                  symm=h.np.array([1, -1])) for k in (0, 2)]
        K = h.lib.LogisticKernel(8.0)
        res = h.lib.sve.SVEResult(u, h.arr([1.0, .5]), v, K, 0.0)
        b = h.lib.FiniteTempBasis(stat, 4.0, 2.0, 0.0, kernel=K,
                                  sve_result=res)
        dlr = h.mod('dlr')
        h.svd_opaque()
        d = [dlr.DiscreteLehmannRepresentation(b, h.arr(p)) for p in poles]
        aug = h.mod('augment')
        ab = aug.AugmentedBasis(b, aug.MatsubaraConst)
        return d, b, ab, d[0].uhat.__call__, d[1].u.__call__
    ops = [lambda S, a: S[0][0].u(a['tau']), lambda S, a: S[0][1].u(a['tau']),
           lambda S, a: S[4](a['tau']), lambda S, a: S[3](a['n']),
           lambda S, a: S[0][0].uhat(a['n']), lambda S, a: S[0][1].uhat(a['n']),
           lambda S, a: S[0][0].to_IR(a['g']),
           lambda S, a: S[0][1].to_IR(a['g'], axis=1),
           lambda S, a: S[1].uhat(a['n']), lambda S, a: S[2].uhat(a['n']),
           lambda S, a: S[2].u[1](a['tau']), lambda S, a: S[2][:2].uhat(a['n'])]
    history(h, make, ops, args)


def _series(h, c):
    """three functions of alternating parity on two segments, times c"""
    e, o = [.5, -.25, .375], [.75, .5, -.125]
    f = [.25, -.875, .5]
    rows = []
    for k in range(3):
        left, right = [], []
        for l, d in enumerate((e, o, f)):
            right.append(c * d[k])
            left.append(c * d[k] * (-1)**(l + k))
        rows.append([left, right])
    return rows


def searches(h):
    """roots, extrema, sign changes and overlaps of three functions on two
    segments with an arbitrary common factor, of single ones among them and
    of their derivatives"""
    c = h.real('factor', .5, 2)
    args = dict(g=h.np.array([0, 1, 2, 3, 5, 8]), e=h.arr([-.5, .25]))

    def make():
        P, T = h.lib.poly.PiecewiseLegendrePoly, h.lib.poly.PiecewiseLegendreFT
        u = P(h.arr(_series(h, c)), h.arr([-1.0, 0.0, 1.0]),
              symm=h.np.array([1, -1, 1]))
        t = T(u, 'odd', 40)
        # one or three roots, depending on where one looks for them
        q = P(h.arr([[0.0], [0.0], [0.0], [c]]), h.arr([-1.0, 1.0]))
        return u, u[2], t, t[2], q
    ops = [lambda S, a: S[1].roots(),
           lambda S, a: S[4].roots(1), lambda S, a: S[4].roots(4), lambda S, a: S[1].deriv().roots(),
           lambda S, a: S[0][1].roots(),
           lambda S, a: S[3].sign_changes(grid=a['g']),
           lambda S, a: S[3].sign_changes(grid=a['g'], positive_only=True),
           lambda S, a: S[3].extrema(grid=a['g']),
           lambda S, a: S[2][1].extrema(grid=a['g'], part='real'),
           lambda S, a: S[1].overlap(lambda x: x),
           lambda S, a: S[1].overlap(lambda x: x * x, points=a['e']),
           lambda S, a: S[0].overlap(lambda x: x)]
    history(h, make, ops, args)


def points(h):
    """default sampling points of a basis of two functions with an arbitrary
    common factor in an expansion of three, for different numbers of points,
    of slices, rescaled and augmented bases, and of the basis of the other
    statistics"""
    c = h.real('factor', .5, 2)

    def make():
        P, T = h.lib.poly.PiecewiseLegendrePoly, h.lib.poly.PiecewiseLegendreFT
        T._DEFAULT_GRID = h.np.array([0, 1, 2, 3, 5, 8])
        mk = lambda: P(h.arr(_series(h, c)), h.arr([-1.0, 0.0, 1.0]),
                       symm=h.np.array([1, -1, 1]))
        K = h.lib.LogisticKernel(8.0)
        res = h.lib.sve.SVEResult(mk(), h.arr([1.0, .5, .25]), mk(), K, 0.0)
        b = h.lib.FiniteTempBasis('F', 4.0, 2.0, 0.0, max_size=2, kernel=K,
                                  sve_result=res)
        d = h.lib.FiniteTempBasis('B', 4.0, 2.0, 0.0, max_size=2, kernel=K,
                                  sve_result=res)
        aug = h.mod('augment')
        return b, d, aug.AugmentedBasis(d, aug.MatsubaraConst)

    def get(k, what, **kw):
        name = 'default_%s_sampling_points' % what
        return lambda S, a: h.warned(
            lambda: getattr(S[k], name)(**kw))[0]
    ops = [get(0, 'tau'), get(0, 'tau', npoints=1), get(2, 'tau'),
           lambda S, a: h.warned(lambda: S[0].rescale(2.0)
                                 .default_tau_sampling_points())[0],
           get(0, 'omega'), get(0, 'omega', npoints=1),
           get(0, 'matsubara'), get(0, 'matsubara', positive_only=True),
           get(1, 'matsubara', npoints=1), get(1, 'matsubara')]
    history(h, make, ops, {})


def expansions(h):
    """expansions of two kernels of the same cutoff with fixed singular
    vectors and arbitrary singular values, two each, for different accuracy,
    cutoff and number; bases built from them"""
    sx = sy = [-1.0, 1.0]
    x, wx = nodes(h, 2, sx)
    c, d = h.num(Fr(3, 5)), h.num(Fr(4, 5))
    tables = []
    for i in range(2):
        u = h.arr([[c, d], [d, -c]] if i else [[d, c], [-c, d]])
        v = h.arr([[d, -c], [c, d]])
        s = h.arr([h.real('s%d' % i, 1, 2), h.real('t%d' % i, .25, .75)])
        m = (u * s) @ v.T
        h.svd_known(m, u, s, v)
        tables.append(h.arr([[m[j, k] / h.np.sqrt(wx[j] * wx[k])
                              for k in range(2)] for j in range(2)]))

    def make():
        return [Kernel(h, t, sx, sy, 2) for t in tables]

    def compute(k, *a, **kw):
        return lambda S, _: h.mod('sve').compute(S[k], *a, **kw)

    def basis(k, stat, eps, beta=4.0, **kw):
        def op(S, _):
            b = h.lib.FiniteTempBasis(stat, beta, 8 / beta, eps, kernel=S[k],
                                      **kw)
            return b, b.accuracy
        return op
    ops = [compute(0, 1e-8), compute(1, 1e-8), compute(0, 1e-8, n_sv=1),
           compute(0, 1e-8, cutoff=.8), compute(1, 1e-8, svd_strat='accurate'),
           compute(0), basis(0, 'F', 1e-8), basis(1, 'F', 1e-8),
           basis(0, 'B', .8), basis(0, 'F', 1e-8, max_size=1),
           basis(0, 'F', 1e-8, 2.0)]
    history(h, make, ops, {})


def adapters(h):
    """two bases of the adapter with arbitrary coefficients: functions,
    derivatives, values and transforms"""
    x = h.real('x', -1, -.0625)
    args = dict(x=h.arr([x, .5]), n=h.np.array([0, -2, 1]),
                l=h.np.array([1, 0]))
    stats = h.choice('statistics', ['FF', 'FB'])
    res = [fake_basis(h, s, 2, tag='b%d' % i).sve_result
           for i, s in enumerate(stats)]
    raw = [(r.u.data, r.u.knots, r.v.data) for r in res]

    def make():
        P = h.lib.poly.PiecewiseLegendrePoly
        out = []
        for i, s in enumerate(stats):
            u, v = [P(h.np.array(raw[i][k]), h.np.array(raw[i][1]),
                      symm=h.np.array([1, -1])) for k in (0, 2)]
            r = h.lib.sve.SVEResult(u, h.arr([1.0, .5]), v,
                                    h.lib.LogisticKernel(8.0), 0.0)
            out.append(h.mod('adapter').Basis(s, 8.0, r))
        return out, out[0].ulx, out[1].compute_unl
    ops = [lambda S, a: S[0][0].ulx(a['l'], a['x']),
           lambda S, a: S[0][1].ulx(1, a['x']), lambda S, a: S[1](0, a['x']),
           lambda S, a: S[0][0].d_ulx(a['l'], a['x'], 1),
           lambda S, a: S[0][0].d_ulx(1, a['x'], 2),
           lambda S, a: S[0][0].vly(None, a['x']),
           lambda S, a: S[0][0].d_vly(1, a['x'], 1),
           lambda S, a: S[0][0].sl(), lambda S, a: S[0][1].sl(1),
           lambda S, a: S[0][0].compute_unl(a['n']),
           lambda S, a: S[0][0].compute_unl(a['n'], 1),
           lambda S, a: S[2](a['n'])]
    history(h, make, ops, args)


LONG = dict(budget=400)
HARNESSES = [(fermionic_poles, LONG), (bosonic_poles, LONG), (bases, LONG),
             (samplings, LONG), (functions, LONG), (adapters, LONG),
             (searches, LONG), (points, LONG), (expansions, LONG),
             (kernels, {}), (rules, {})]
