"""Augmented bases."""
from fractions import Fraction

from .c10 import integral
from .common import fake_basis, many_knots, mixed, numbers

TOL = dict(tol=1e-8, stol=1e-9)


def _terms(h, stat, names=None):
    """lists of terms, by class or as objects"""
    aug = h.mod('augment')
    lists = {'F': [('M',), ()],
             'B': [('M',), ('C',), ('C', 'L'), ('L', 'M', 'C'), ()]}[stat]
    return h.choice('terms', lists if names is None else names), dict(
        M=aug.MatsubaraConst, C=aug.TauConst, L=aug.TauLinear)


def _tau_value(h, t, beta, tau):
    """time form of a term, by definition; None for undefined"""
    if t == 'C':
        return 1 / h.np.sqrt(beta)
    if t == 'L':
        return h.np.sqrt(3 / beta) * (2 * tau / beta - 1)
    return None


def _freq_value(h, t, beta, n):
    """frequency form, by definition"""
    if t == 'C':
        return h.np.sqrt(beta) if n == 0 else 0.0
    if t == 'L':
        return 0.0 if n == 0 else \
            h.np.sqrt(3 / beta) * 2 * beta / (1j * h.pi() * n)
    return 1.0


def _basis(h, stat, terms, cls, size=2, objects=None):
    beta = h.choice('beta', [4.0, .5])
    b = fake_basis(h, stat, size, beta=beta, wmax=8.0 / beta, order=2)
    if objects is None:
        objects = h.choice('as objects', [False, True])
    args = [cls[t](beta) if objects else cls[t] for t in terms]
    return h.mod('augment').AugmentedBasis(b, *args), b, beta


def _close(h, label, got, want):
    if want is None:
        h.check(label + " undefined", bool(h.np.isnan(got)))
    else:
        h.eq(label, got, want, **TOL)


def in_time(h):
    """every list of terms, two underlying functions with arbitrary
    coefficients, any tau: values, derivatives, parts, for scalars, vectors
    and matrices"""
    stat = h.choice('statistics', ['F', 'B'])
    terms, cls = _terms(h, stat)
    ab, b, beta = _basis(h, stat, terms, cls)
    na = len(terms)
    u = ab.u
    h.check("size", u.size == na + 2 and tuple(u.shape) == (na + 2,)
            and u.ndim == 1)
    h.eq("domain", h.arr([u.xmin, u.xmax]), h.arr([0.0, beta]))
    t0 = h.real('tau', 0, beta)
    tau = [t0, beta, 0.0, beta / 8]
    form = h.choice('form', ['scalar', 'vector', 'matrix', 'list'])
    order = h.choice('derivative', [None, 0, 1, 2, 3])
    if order is None:
        f, fb = u, b.u
    else:
        f, fb = (u.deriv(order), b.u.deriv(order)) if order != 1 \
            else (u.deriv(), b.u.deriv())
    x = {'scalar': t0, 'vector': h.arr(tau), 'list': tau,
         'matrix': h.arr([tau[:2], tau[2:]])}[form]
    got = f(x)
    shape = {'scalar': (), 'vector': (4,), 'list': (4,),
             'matrix': (2, 2)}[form]
    h.check("shape", tuple(got.shape) == (na + 2,) + shape)
    h.eq("underlying", got[na:], fb(x))
    flat = got.reshape(na + 2, -1)
    for j, t in enumerate(terms):
        for i, tj in enumerate([t0] if form == 'scalar' else tau):
            w = _tau_value(h, t, beta, tj)
            if order and w is not None:
                w = h.np.sqrt(3 / beta) * 2 / beta \
                    if t == 'L' and order == 1 else 0.0
            _close(h, t, flat[j, i], w)
    # single functions, in order
    for l in list(range(na + 2)) + [-1, -na - 2]:
        one = f[l](x)
        h.check("shape of one", tuple(one.shape) == shape)
        if not (l % (na + 2) < na and terms[l % (na + 2)] == 'M'):
            h.eq("one", one, got[l], **TOL)
    for l in (na + 2, -na - 3):
        h.raises("beyond the end", IndexError, lambda: f[l])


def in_frequency(h):
    """the same in frequency"""
    stat = h.choice('statistics', ['F', 'B'])
    terms, cls = _terms(h, stat)
    ab, b, beta = _basis(h, stat, terms, cls)
    na = len(terms)
    f = ab.uhat
    h.check("size", f.size == na + 2 and tuple(f.shape) == (na + 2,))
    h.check("zeta", f.zeta == {'F': 1, 'B': 0}[stat])
    ns = [1, -1, 7, 3] if stat == 'F' else [0, 2, -2, 8]
    form = h.choice('form', ['scalar', 'vector', 'matrix', 'floats'])
    x = {'scalar': ns[0], 'vector': h.arr(ns),
         'floats': h.arr([float(n) for n in ns]),
         'matrix': h.arr([ns[:2], ns[2:]])}[form]
    shape = {'scalar': (), 'matrix': (2, 2)}.get(form, (4,))
    got = f(x)
    h.check("shape", tuple(got.shape) == (na + 2,) + shape)
    h.eq("underlying", got[na:], b.uhat(x))
    flat = got.reshape(na + 2, -1)
    for j, t in enumerate(terms):
        for i, n in enumerate(ns[:1] if form == 'scalar' else ns):
            h.eq(t, flat[j, i], _freq_value(h, t, beta, n), **TOL)
    for l in list(range(na + 2)) + [-1, -na - 2]:
        one = f[l](x)
        h.check("shape of one", tuple(one.shape) == shape)
        h.eq("one", one, got[l], **TOL)
    for l in (na + 2, -na - 3):
        h.raises("beyond the end", IndexError, lambda: f[l])


def whole(h):
    """size, significance, accuracy and parameters"""
    stat = h.choice('statistics', ['F', 'B'])
    terms, cls = _terms(h, stat, {
        'F': [('M',), ()], 'B': [
            ('M',), ('C',), ('C', 'L'), ('M', 'C'), ('M', 'L'), ('C', 'M'),
            ('M', 'C', 'L'), ('L', 'M', 'C'), ()]}[stat])
    ab, b, beta = _basis(h, stat, terms, cls, size=3)
    na = len(terms)
    h.check("size", ab.size == na + 3 and tuple(ab.shape) == (na + 3,))
    sig = ab.significance
    h.check("number", tuple(sig.shape) == (na + 3,))
    h.eq("significance of terms", sig[:na], h.np.ones(na))
    h.eq("significance", sig[na:], b.significance)
    h.eq("accuracy", ab.accuracy, b.accuracy)
    h.check("parameters", [ab.beta == beta, ab.wmax == b.wmax,
                           ab.lambda_ == b.lambda_])
    h.check("statistics", ab.statistics == stat)
    h.check("well conditioned", bool(ab.is_well_conditioned) ==
            (terms == ('M',)))


def slices(h):
    """every slice from the start of bases with up to three terms and four
    functions, of u and of uhat"""
    stat = h.choice('statistics', ['F', 'B'])
    terms, cls = _terms(h, stat)
    ab, b, beta = _basis(h, stat, terms, cls, size=4, objects=False)
    na = len(terms)
    L = na + 4
    stop = h.choice('stop', [None, 1, 2, 3, 4, 5, 7, -1, -3, 99, 0])
    sl = h.choice('form', [slice(stop), slice(0, stop, 1)])
    n = len(range(L)[:stop])
    what = h.choice('what', ['basis', 'u', 'uhat'])
    if n <= na:
        f = {'basis': lambda: ab[sl], 'u': lambda: ab.u[sl],
             'uhat': lambda: ab.uhat[sl]}[what]
        if na or what == 'basis':
            h.raises("only terms", (ValueError, NotImplementedError), f)
        return
    if what == 'basis':
        c = ab[sl]
        h.check("size", c.size == n)
        h.eq("significance", c.significance, ab.significance[:n])
        h.check("kind", c.statistics == stat and c.beta == ab.beta)
        fu, fh = c.u, c.uhat
    else:
        fu = ab.u[sl] if what == 'u' else ab.u
        fh = ab.uhat[sl] if what == 'uhat' else ab.uhat
    tau = h.arr([beta / 8, beta])
    ns = h.arr([1, -3] if stat == 'F' else [0, -2])
    if what != 'uhat':
        h.check("size of u", fu.size == n)
        got, ref = fu(tau), ab.u(tau)[:n]
        h.check("shape of u", tuple(got.shape) == (n, 2))
        keep = [l for l in range(n) if l >= na or terms[l] != 'M']
        h.eq("u", got[keep], ref[keep])
        h.check("NaN", [bool(h.np.isnan(got[l, 0])) for l in range(n)
                        if l not in keep])
        h.eq("domain", h.arr([fu.xmin, fu.xmax]), h.arr([0.0, beta]))
    if what != 'u':
        h.check("size of uhat", fh.size == n)
        h.check("zeta", fh.zeta == {'F': 1, 'B': 0}[stat])
        h.eq("uhat", fh(ns), ab.uhat(ns)[:n])


def custom(h):
    """terms of the user's own, as objects that carry arbitrary values and
    as a class, before and after ones of the package; kept by slices"""
    aug = h.mod('augment')
    a, w = h.reals('a', (2,), -2, 2), h.cplx('w', (2,), -2, 2)

    class Term(aug.AbstractAugmentation):
        made = []

        def __init__(self, i):
            self.i = i

        @classmethod
        def create(cls, basis):
            cls.made.append(basis)
            return cls(1)

        def __call__(self, tau):
            return a[self.i] * h.np.asarray(tau)

        def deriv(self, n=1):
            if n == 0:
                return self
            return lambda tau: (a[self.i] if n == 1 else 0.0) \
                + 0.0 * h.np.asarray(tau)

        def hat(self, n):
            return w[self.i] + 0.0 * h.np.asarray(n)

    stat = h.choice('statistics', ['F', 'B'])
    b = fake_basis(h, stat, 3, order=2)
    terms, which = h.choice('terms', [
        ((Term(0),), (0,)), ((Term,), (1,)),
        ((Term(1), Term(0)), (1, 0)), ((Term(0), Term), (0, 1)),
        ((Term, aug.MatsubaraConst, Term(0)), (1, None, 0))])
    ab = aug.AugmentedBasis(b, *terms)
    h.check("created for the basis", all(m is b for m in Term.made))
    n = len(which)
    cut = h.choice('cut', [False, True])
    if cut:
        ab = ab[:n + 2]
    h.check("size", ab.size == n + (2 if cut else 3))
    tau = h.arr([.5, 2.0, 4.0])
    ns = h.arr([1, -5] if stat == 'F' else [0, 4])
    du, d2 = ab.u.deriv()(tau), ab.u.deriv(2)(tau)
    for j, i in enumerate(which):
        if i is None:
            h.eq("const", ab.uhat(ns)[j], h.np.ones(2))
            continue
        h.eq("time", ab.u(tau)[j], a[i] * tau)
        h.eq("derivative", du[j], a[i] + 0 * tau)
        h.eq("second derivative", d2[j], 0 * tau)
        h.eq("frequency", ab.uhat(ns)[j], w[i] + h.np.zeros(2))
    k = 2 if cut else 3
    h.eq("rest", ab.uhat(ns)[n:], b.uhat(ns)[:k])
    h.eq("rest in time", ab.u(tau)[n:], b.u(tau)[:k])


def sampled(h):
    """sampling uses all of them"""
    stat = h.choice('statistics', ['F', 'B'])
    terms, cls = _terms(h, stat, {'F': [('M',)], 'B': [('C', 'L'), ('L',)]}[
        stat])
    ab, b, beta = _basis(h, stat, terms, cls, objects=False)
    h.svd_opaque()
    ns = h.arr([1, -3, 5] if stat == 'F' else [0, -2, 4])
    h.eq("frequency", h.lib.MatsubaraSampling(ab, ns).matrix.a,
         ab.uhat(ns).T)
    if stat == 'B':
        tau = h.arr([beta / 8, beta / 2, beta])
        h.eq("time", h.lib.TauSampling(ab, tau).matrix.a, ab.u(tau).T)


def terms_fourier(h):
    """frequency form of each term is the integral of its time form over
    [0, beta]; any beta in [1/8, 8]"""
    t = h.choice('term', ['C', 'L'])
    _, cls = _terms(h, 'B', [()])
    beta = h.real('beta', .125, 8, pos=True)
    f = cls[t](beta)
    # the time form is this linear function of x
    x = h.real('x', -1, 1)
    tau = beta / 2 * (x + 1)
    if not h.symbolic:
        tau = min(tau, beta)
    y = f(h.arr([0.0, beta, tau]))
    mid, slope = (y[0] + y[1]) / 2, (y[1] - y[0]) / 2
    h.eq("linear", y[2], mid + slope * x, **TOL)
    for n in (0, 2, -2, 6, 100):
        ref = integral(h, h.arr([[mid], [slope]]), [-1.0, 1.0], n)
        h.eq("integral", f.hat(n), beta / 2 * h.np.sqrt(2) * ref, **TOL)
    if t == 'L':
        h.eq("antisymmetric", y[0], -y[1], **TOL)
    # unit norm
    h.eq("norm", beta * (mid**2 + slope**2 * h.num(Fraction(1, 3))), 1.0,
         **TOL)


def terms_reject(h):
    """tau outside of [0, beta] or NaN, alone or among others, any beta in
    [1/8, 8]; frequencies are decided under C12"""
    t = h.choice('term', ['C', 'L', 'M'])
    _, cls = _terms(h, 'B', [()])
    beta = h.real('beta', .125, 8, pos=True)
    how = h.choice('tau', ['below', 'above', 'nan', 'inf', '-inf'])
    if how == 'below':
        bad = h.real('t', -8, -2.**-30)
    elif how == 'above':
        bad = beta + h.real('t', 2.**-20, 8)
    else:
        bad = float(how)
    ok = beta / 2
    x = h.choice('form', ['scalar', 'first', 'last'])
    x = {'scalar': bad, 'first': [bad, ok], 'last': [ok, ok, bad]}[x]
    x = x if not isinstance(x, list) else h.arr(x)
    f = cls[t](beta)
    h.raises("tau", ValueError, lambda: f(x))
    b = fake_basis(h, 'B', 2, beta=4.0, order=1)
    ab = h.mod('augment').AugmentedBasis(b, cls[t])
    bad4 = {'below': bad, 'above': 4.0 + (bad - beta)}.get(how, bad)
    h.raises("tau of basis", ValueError, lambda: ab.u(h.arr([1.0, bad4])))
    h.raises("beta", ValueError, lambda: cls[t](h.choice('b', [0.0, -1.0])))


def fermions(h):
    """terms for bosons reject fermionic bases"""
    t = h.choice('term', ['C', 'L'])
    _, cls = _terms(h, 'B', [()])
    b = fake_basis(h, 'F', 2, order=1)
    other = h.choice('with', [(), ('M',)])
    A = h.mod('augment').AugmentedBasis
    args = [cls[o] for o in other] + [cls[t]]
    h.raises("fermions", ValueError, lambda: A(b, *args))
    h.raises("fermions", ValueError, lambda: A(b, *args[::-1]))
    h.raises("fermions", ValueError, lambda: cls[t].create(b))


def defined(h):
    """the frequency constant is undefined in time, at any tau"""
    _, cls = _terms(h, 'B', [()])
    beta = h.real('beta', .125, 8, pos=True)
    x = h.real('x', 0, 1)
    f = cls['M'](beta)
    y = f(h.arr([x * beta, 0.0]))
    h.check("shape", tuple(y.shape) == (2,))
    h.check("NaN", bool(h.np.isnan(y).all()))
    n = h.int('n', -2**40, 2**40)
    h.eq("one", f.hat(h.arr([n, 3])), h.arr([1.0, 1.0]))


def large(h):
    """20 functions, every list of terms, 70 times (one arbitrary) and
    frequencies in one call, slices"""
    stat = h.choice('statistics', ['F', 'B'])
    terms, cls = _terms(h, stat)
    beta = 4.0 if len(terms) % 2 else .5
    size, ks = 20, many_knots(6)
    P = h.lib.poly.PiecewiseLegendrePoly
    mk = lambda q: P(mixed(h, 'd%d' % q, (3, 6, size),
                           [(0, 0, 0), (2, 5, size - 1), (1, 3, 11)], q),
                     h.arr(ks))
    K = h.lib.LogisticKernel(8.0)
    res = h.lib.sve.SVEResult(mk(1), h.arr([2.0**-l for l in range(size)]),
                              mk(2), K, 0.0)
    b = h.lib.FiniteTempBasis(stat, beta, 8.0 / beta, 0.0, kernel=K,
                              sve_result=res)
    ab = h.mod('augment').AugmentedBasis(b, *[cls[t] for t in terms])
    na = len(terms)
    h.check("size", ab.size == na + size and ab.u.size == na + size
            and ab.uhat.size == na + size)
    tau = numbers(70, 2, 0, beta, 7)
    tau[40] = beta * h.real('tau', .625, .71875)
    got = ab.u(h.arr(tau))
    h.check("shape", tuple(got.shape) == (na + size, 70))
    h.eq("underlying", got[na:], b.u(h.arr(tau)))
    n = [(-1)**k * (2 * k * k + (stat == 'F')) for k in range(40)]
    hat = ab.uhat(h.arr(n))
    h.check("shape", tuple(hat.shape) == (na + size, 40))
    h.eq("underlying", hat[na:], b.uhat(h.arr(n)))
    for j, t in enumerate(terms):
        for i in 0, 1, 40, 69:
            _close(h, t, got[j, i], _tau_value(h, t, beta, tau[i]))
        for i in 0, 1, 20, 39:
            h.eq(t, hat[j, i], _freq_value(h, t, beta, n[i]), **TOL)
    h.eq("significance", ab.significance[na:], b.significance)
    for stop in 11, 19, -2, 21:
        c = ab[:stop]
        k = len(range(na + size)[:stop])
        h.check("size of slice", c.size == k)
        at = [l for l in range(k) if l >= na or terms[l] != 'M']
        h.eq("slice", c.u(h.arr(tau[:2]))[at], got[at, :2])
        h.eq("slice in frequency", c.uhat(h.arr(n[:2])), hat[:k, :2])
        h.eq("u", ab.u[:stop](h.arr(tau[:2]))[at], got[at, :2])
    for l in na + 15, -1, -7:
        h.eq("one", ab.u[l](h.arr(tau[40:])), got[l, 40:])
        h.eq("one in frequency", ab.uhat[l](n[3]), hat[l, 3])


HARNESSES = [(in_time, {}), (in_frequency, {}), (whole, {}), (slices, {}),
             (sampled, {}), (custom, {}), (terms_fourier, {}), (terms_reject, {}),
             (fermions, {}), (defined, {}),
             (large, {})]
