"""Truncated and rescaled bases."""
from .common import fake_sve, many_knots, mixed

TOL = dict(tol=1e-8, stol=1e-9)


def _values(h, n):
    """non-increasing, positive at first"""
    s = [h.real('s0', .5, 4)]
    for i in range(1, n):
        s.append(h.real('s%d' % i, 2.**-6, 4))
        h.assume(s[-1] <= s[-2])
    return s


def _parent(h, size, eps=0.0, max_size=None, kern=None):
    """basis from an expansion of the given size"""
    beta, wmax = h.real('beta', .25, 8), h.real('wmax', .25, 4)
    lam = beta * wmax
    K = h.lib.RegularizedBoseKernel(lam) if kern == 'bose' \
        else h.lib.LogisticKernel(lam)
    s = _values(h, size)
    res = fake_sve(h, size, 2, (-1.0, 0.25, 1.0), kernel=K, symm=False,
                   s=h.arr(s), eps=0.5)
    stat = h.choice('statistics', ['F', 'B'])
    b = h.lib.FiniteTempBasis(stat, beta, wmax, eps, kernel=K,
                              max_size=max_size, sve_result=res)
    return b, res, beta, wmax, stat, s


def _is_part(h, c, b, n):
    """the first n functions of b"""
    h.check("size", c.size == n and tuple(c.shape) == (n,))
    h.eq("s", c.s, b.s[:n])
    for f, g in ((c.u, b.u), (c.v, b.v)):
        h.check("number", f.size == n)
        h.eq("data", f.data, g.data[:, :, :n])
        h.eq("knots", f.knots, g.knots)
        h.eq("parity", f.symm, g.symm[:n])
    h.check("number in frequency", c.uhat.size == n)
    h.eq("data in frequency", c.uhat.poly.data, b.uhat.poly.data[:, :, :n])
    h.check("threshold", c.uhat.n_asymp == b.uhat.n_asymp
            and c.uhat.freq == b.uhat.freq)
    h.check("same", [c.beta == b.beta, c.wmax == b.wmax])
    h.check("same kind", c.statistics == b.statistics
            and c.kernel is b.kernel and c.sve_result is b.sve_result)
    n0 = 1 if b.statistics == 'F' else 2
    h.eq("transform", c.uhat(n0), b.uhat(n0)[:n], **TOL)


def _accuracy(h, b, s, n):
    want = s[n] / s[0] if n < len(s) else s[-1] / s[0]
    h.eq("accuracy", b.accuracy, want)


STOPS = [None, 1, 2, 3, 4, 9, -1, -2]


def slices(h):
    """expansion of 4 with arbitrary non-increasing values; basis of all, of 3
    or of those above any eps; every stop, positive, negative, beyond the
    end, start and step left out or not"""
    how = h.choice('parent', ['all', 'size', 'eps'])
    eps, ms = 0.0, None
    if how == 'size':
        ms = 3
    elif how == 'eps':
        eps = h.real('eps', 0, 1)
    b, res, beta, wmax, stat, s = _parent(h, 4, eps, ms)
    L = b.size
    if how == 'size':
        h.check("parent", L == 3)
    stop = h.choice('stop', STOPS)
    sl = h.choice('form', [slice(stop), slice(0, stop), slice(None, stop, 1)])
    n = len(range(L)[slice(stop)])
    if n == 0:
        return
    c = b[sl]
    _is_part(h, c, b, n)
    _accuracy(h, c, s, n)
    h.check("parent as before", b.size == L)


def twice(h):
    """slicing a slice, and slicing a basis built with a maximum size"""
    b, res, beta, wmax, stat, s = _parent(h, 4)
    i, j = h.choice('sizes', [(3, 2), (3, 9), (2, -1), (3, None), (2, 1)])
    c = b[:i][:j]
    _is_part(h, c, b, len(range(i)[:j]))
    d = h.lib.FiniteTempBasis(stat, beta, wmax, 0.0, kernel=b.kernel,
                              max_size=i, sve_result=res)
    _is_part(h, d, b, i)
    _is_part(h, d[:j], b, len(range(i)[:j]))


def wrong(h):
    """anything but a slice from the start in steps of one"""
    b, res, beta, wmax, stat, s = _parent(h, 3)
    idx = h.choice('index', [0, -1, [0, 1], (slice(2),), slice(1, 2),
                             slice(-1, None), slice(0, 2, 2),
                             slice(None, None, -1), None, 1.5,
                             slice(1, None), slice(0, 3, 3)])
    h.raises("rejected", ValueError, lambda: b[idx])


def rescale(h):
    """any new temperature for a basis of any size of 1 to 4, both kernels"""
    ms = h.choice('size', [None, 1, 3])
    kern = h.choice('kernel', ['logistic', 'bose'])
    b, res, beta, wmax, stat, s = _parent(h, 4, 0.0, ms, kern)
    L = b.size
    nb = h.real('new beta', .25, 8)
    c = b.rescale(nb)
    h.check("size", c.size == L == (ms or 4))
    h.check("temperature", c.beta == nb)
    h.eq("product", c.beta * c.wmax, beta * wmax)
    h.eq("lambda", c.lambda_, b.lambda_)
    h.check("same kind", c.statistics == stat and c.kernel is b.kernel
            and c.sve_result is res)
    h.eq("data u", c.u.data, b.u.data)
    h.eq("data v", c.v.data, b.v.data)
    h.eq("knots u", c.u.knots * beta, b.u.knots * nb, **TOL)
    h.eq("knots v", c.v.knots * nb, b.v.knots * beta, **TOL)
    p = 1 if kern == 'bose' else 0
    # ratio of s: sqrt(beta wmax) stays, wmax**p does not
    h.eq("values", c.s * nb**p, b.s * beta**p, **TOL)
    h.eq("transform", c.uhat.poly.data * h.np.sqrt(beta),
         b.uhat.poly.data * h.np.sqrt(nb), **TOL)
    h.eq("significance", c.significance, b.significance, **TOL)
    h.eq("accuracy", c.accuracy, b.accuracy)
    x = h.choice('x', [.0, .125, .75, 1.0])
    h.eq("functions of x", c.u(nb * x) * h.np.sqrt(nb),
         b.u(beta * x) * h.np.sqrt(beta), **TOL)


def significance(h):
    """sizes 1 to 4 of an expansion of 4, arbitrary values"""
    ms = h.choice('size', [1, 2, 4, None])
    b, res, beta, wmax, stat, s = _parent(h, 4, 0.0, ms)
    sig = b.significance
    n = ms or 4
    h.check("number", tuple(sig.shape) == (n,))
    for l in range(n):
        h.eq("relative value", sig[l] * s[0], s[l], **TOL)
        h.check("at most one", sig[l] <= 1 + 1e-9)
        if l:
            h.check("not increasing", sig[l] <= sig[l-1] + 1e-9)
    _accuracy(h, b, s, n)
    h.check("well conditioned", b.is_well_conditioned is True)


def tolerance(h):
    """any eps in [0, 1] and maximum size: the leading values that are at
    least eps times the first"""
    eps = h.choice('eps', [None, 'any'])
    if eps == 'any':
        eps = h.real('eps', 0, 1)
    ms = h.choice('size', [None, 1, 2, 9])
    b, res, beta, wmax, stat, s = _parent(h, 3, eps, ms)
    e = .5 if eps is None else eps
    n = sum(1 for x in s if h.truth(x >= e * s[0]))
    if ms is not None:
        n = min(n, ms)
    h.check("size", b.size == n)
    h.eq("data", b.u.data, res.u.data[:, :, :n])
    h.eq("data", b.v.data, res.v.data[:, :, :n])
    _accuracy(h, b, s, n)


def large(h):
    """expansions of 24 functions on 6 segments, some arbitrary coefficients
    and values: bases of all, 20 or those above a tolerance; slices, slices of
    slices and rescaled ones"""
    size = 24
    beta, wmax = h.real('beta', .25, 8), h.real('wmax', .25, 4)
    K = h.lib.LogisticKernel(beta * wmax)
    s = [2.0**-l for l in range(size)]
    j = h.choice('free', [1, 12, 22])
    s[j] = h.real('s', s[j + 1], s[j - 1])
    ks = many_knots(6)
    P = h.lib.poly.PiecewiseLegendrePoly
    mk = lambda q: P(mixed(h, 'd%d' % q, (3, 6, size),
                           [(0, 0, 0), (2, 5, size - 1), (1, 3, 11)], q),
                     h.arr(ks))
    res = h.lib.sve.SVEResult(mk(1), h.arr(s), mk(2), K, .5)
    eps, ms = h.choice('eps, size', [(0.0, None), (0.0, 20), (2.0**-12, None),
                                     (2.0**-12, 20)])
    b = h.lib.FiniteTempBasis(h.choice('statistics', ['F', 'B']), beta, wmax,
                              eps, kernel=K, max_size=ms, sve_result=res)
    n = sum(1 for x in s if h.truth(x >= eps))
    n = min(n, ms or size)
    h.check("size", b.size == n)
    _accuracy(h, b, s, n)
    h.eq("significance", b.significance * s[0], h.arr(s[:n]), **TOL)
    for stop, stop2 in [(11, None), (-1, 3), (10, 9), (17, 99), (99, -2)]:
        c = b[:stop]
        k = len(range(n)[:stop])
        _accuracy(h, c, s, k)
        if stop2 is not None:
            c = c[:stop2]
            k = len(range(k)[:stop2])
            _accuracy(h, c, s, k)
        h.check("size", c.size == k and c.uhat.size == k)
        h.eq("u", c.u.data, b.u.data[:, :, :k])
        h.eq("v", c.v.data, b.v.data[:, :, :k])
        h.eq("s", c.s, b.s[:k])
        h.eq("uhat", c.uhat.poly.data, b.uhat.poly.data[:, :, :k])
    d = b.rescale(4.0)
    h.check("size", d.size == n)
    h.eq("values", d.s, b.s, **TOL)
    h.eq("u", d.u.data, b.u.data)
    h.eq("knots", d.u.knots * beta, b.u.knots * 4, **TOL)
    h.eq("accuracy", d.accuracy, b.accuracy)


HARNESSES = [(slices, {}), (twice, {}), (wrong, {}), (rescale, {}),
             (significance, {}), (tolerance, {}),
             (large, {})]
