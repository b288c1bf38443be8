"""Discretisation hints, domains, weight functions."""


def _segments(h, seg, lo, hi, full):
    n = seg.shape[0]
    h.check("first edge", seg[0] == lo)
    h.check("last edge", seg[n - 1] == hi)
    h.check("increasing", seg[1:] > seg[:-1])
    if full:
        h.check("symmetric", h.np.abs(seg + seg[::-1]) < 1e-12)
        h.check("contains zero", n % 2 == 1 and seg[n // 2] == 0)


def _hints(h, cls):
    # cells cover the range of Lambda without gaps
    top = h.pick(8, 32)
    cell = h.choice('cell', list(range(top + 2)))
    lo = 1e-2 if cell == 0 else 10.**((cell - 1)/4)
    hi = 10.**(cell/4)
    k = cls(h.real('lam', lo, hi))
    eps = h.real('eps', 1e-16, 1e-2)
    hints = k.sve_hints(eps)
    which = h.choice('axis', ['x', 'y'])
    seg = getattr(hints, 'segments_' + which)
    _segments(h, seg, -1, 1, True)
    red = k.get_symmetrized(1).sve_hints(eps)
    rseg = getattr(red, 'segments_' + which)
    _segments(h, rseg, 0, 1, False)
    h.eq("half of full segments", rseg, seg[seg.shape[0] // 2:])
    h.check("orders", hints.ngauss == red.ngauss and hints.ngauss >= 1)


def hints_logistic(h):
    """Lambda in [1e-2, 178] (quick) or [1e-2, 1e8] (thorough), any eps"""
    _hints(h, h.lib.LogisticKernel)


def hints_regbose(h):
    """Lambda in [1e-2, 178] (quick) or [1e-2, 1e8] (thorough), any eps"""
    _hints(h, h.lib.RegularizedBoseKernel)


def symm_any(h):
    """hints of the symmetrised kernel for arbitrary symmetric segments (1 to
    3 positive edges, with or without zero edge) of a user kernel"""
    mod = h.mod('kernel')
    n = h.choice('n', [1, 2, 3])
    steps = h.reals('step', n, 1e-3, 1)
    pos = []
    t = 0
    for i in range(n):
        t = t + steps[i]
        pos.append(t)
    mid = [0.0] if h.choice('zero', [True, False]) else []
    full = h.arr([-p for p in pos[::-1]] + mid + pos)
    want = h.arr([0.0] + pos)

    class Hints(mod.AbstractSVEHints):
        segments_x = full
        segments_y = full * 2
        ngauss = 7
        nsvals = h.int('nsvals', 1, 50)

    class Kern(mod.AbstractKernel):
        is_centrosymmetric = True

        def sve_hints(self, eps):
            return Hints()

    red = Kern().get_symmetrized(h.choice('sign', [1, -1])).sve_hints(1e-6)
    h.eq("x", red.segments_x, want)
    h.eq("y", red.segments_y, 2 * want)
    h.check("ngauss", red.ngauss == 7)
    h.check("enough singular values", 2 * red.nsvals >= Hints.nsvals)


def symm_bad(h):
    """segments of which one pair of edges is not symmetric (by more than 0.01),
    outermost or interior ones, are rejected, for x and y"""
    mod = h.mod('kernel')
    a, b = h.real('a', -2, -.1), h.real('b', .1, 2)
    h.assume(h.either(a + b > .01, a + b < -.01))
    edges = h.choice('edges', [
        [0.0], [-3.0, 0.0, 3.0], [-4.0, -3.0, 0.0, 3.0, 4.0],
        [-2.0**-4, 0.0, 2.0**-4], [-3.0, -2.0**-4, 0.0, 2.0**-4, 3.0],
        [-3.0, 3.0], [-2.0**-4, 2.0**-4]])
    where = len([e for e in edges if e < -2])
    n = len(edges) - where
    edges = h.arr(edges[:where] + [a] + edges[where:n] + [b] + edges[n:])

    class Hints(mod.AbstractSVEHints):
        segments_x = edges
        segments_y = edges

    class Kern(mod.AbstractKernel):
        is_centrosymmetric = True

        def sve_hints(self, eps):
            return Hints()

    red = Kern().get_symmetrized(1).sve_hints(1e-6)
    h.raises("x", ValueError, lambda: red.segments_x)
    h.raises("y", ValueError, lambda: red.segments_y)


def domain(h):
    """every x and y outside of the domain (by more than 1e-9), NaN or
    infinite, scalar or at any place in an array of two, all kernels"""
    lam = h.real('lam', 1e-3, 1e6)
    k = h.choice('kernel', [h.lib.LogisticKernel,
                            h.lib.RegularizedBoseKernel])(lam)
    s = h.choice('reduced', [0, 1, -1])
    lo = -1
    if s:
        k = k.get_symmetrized(s)
        lo = 0
    kind = h.choice('kind', ['below', 'above', 'nan', 'inf', '-inf'])
    if kind == 'below':
        bad = lo - h.real('e', 1e-9, 1e6)
    elif kind == 'above':
        bad = 1 + h.real('e', 1e-9, 1e6)
    else:
        bad = float(kind)
    place = h.choice('place', ['scalar', 'first', 'last', '2d'])
    good = h.real('g', .125, 1)
    if place == 'first':
        bad = h.arr([bad, .5])
    elif place == 'last':
        bad = h.arr([.5, bad])
    elif place == '2d':
        bad = h.arr([[.5, .25], [bad, 1.]])
    if h.choice('axis', ['x', 'y']) == 'x':
        h.raises("x outside", ValueError, lambda: k(bad, good))
    else:
        h.raises("y outside", ValueError, lambda: k(good, bad))


def inside(h):
    """no point of the domain is rejected"""
    lam = h.real('lam', 1e-3, 1e6)
    k = h.choice('kernel', [h.lib.LogisticKernel,
                            h.lib.RegularizedBoseKernel])(lam)
    s = h.choice('reduced', [0, 1, -1])
    if s:
        k = k.get_symmetrized(s)
    x, y = h.real('x', -1, 1), h.real('y', -1, 1)
    h.assume(h.either(y >= 1e-9, y <= -1e-9))
    res = h.outcome(lambda: k(x, y))
    inside = True if s == 0 else [x >= 0, y >= 0]
    if res[0] == 'ok':
        h.check("inside", inside)
    else:
        h.check("outside", s != 0 and h.either(x < 0, y < 0))
        h.check("type", isinstance(res[1], ValueError))


def weights(h):
    """any Lambda, any y of both signs with abs(y) >= 1e-3, all statistics"""
    lam = h.real('lam', 1e-2, 1e3)
    y = h.reals('y', 2, -1, 1)
    for i in range(2):
        h.assume(h.either(y[i] >= 1e-3, y[i] <= -1e-3))
    e = h.exp(-lam * y)
    k = h.lib.LogisticKernel(lam)
    h.eq("logistic F", k.weight_func('F')(y), h.arr([1.0, 1.0]))
    # 1/tanh(z/2) = (1 + exp(-z))/(1 - exp(-z))
    h.eq("logistic B", k.weight_func('B')(y) * (1 - e), 1 + e)
    b = h.lib.RegularizedBoseKernel(lam)
    h.eq("regularized B", b.weight_func('B')(y) * y, h.arr([1.0, 1.0]))
    h.raises("regularized F", ValueError, lambda: b.weight_func('F'))
    red = k.get_symmetrized(h.choice('sign', [1, -1]))
    for s in ('FB', '', 'b', 'fermion', None, 1):
        for kern in (k, b, red):
            h.raises("statistics %r" % (s,), ValueError,
                     lambda: kern.weight_func(s))


HARNESSES = [
    (hints_logistic, dict(budget=300, max_paths=6000,
                          thorough=dict(budget=800))),
    (hints_regbose, dict(budget=300, max_paths=6000,
                         thorough=dict(budget=800))),
    (symm_any, {}), (symm_bad, {}),
    (domain, dict(overflow=False)), (inside, {}), (weights, {}),
]
