"""Overlap integrals."""
from .common import (poly, mono_in_t, eval_mono, shift_mono, indices,
                     mono_to_leg, many_knots, mixed)


def mul_mono(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def int_mono(c, lo, hi):
    r = 0
    for k, a in enumerate(c):
        r = r + a * (hi**(k + 1) - lo**(k + 1)) / (k + 1)
    return r


def piece_int(h, c, lo, hi, f, a, b):
    """integral from a to b of f times Legendre sum c on [lo, hi] (f: monomial
    coefficients in x), with a, b inside [lo, hi]"""
    m, s = (lo + hi) / 2, (hi - lo) / 2
    t = mul_mono(mono_in_t(h, c), shift_mono(f, m, s))
    return h.np.sqrt(1 / s) * s * int_mono(t, (a - m) / s, (b - m) / s)


def total(h, data, knots, f, idx=()):
    r = 0
    for i in range(len(knots) - 1):
        c = [data[(k, i) + tuple(idx)] for k in range(data.shape[0])]
        r = r + piece_int(h, c, knots[i], knots[i + 1], f,
                          knots[i], knots[i + 1])
    return r


def _data(h, order, nseg, shape=(), tag='c'):
    """constant parts in [1, 2], the others in [-.05, .05]: every integral over
    a segment keeps away from zero"""
    top = h.reals(tag + '0', (1, nseg) + tuple(shape), 1, 2)
    if order == 1:
        return top
    rest = h.reals(tag, (order - 1, nseg) + tuple(shape), -.05, .05)
    return h.np.concatenate((top, rest))


def _f(h, n, tag='f'):
    c = h.reals(tag, n, -.02, .02)
    return [1 + c[0]] + [c[i] for i in range(1, n)]


TOL = dict(tol=1e-8, stol=1e-9)


def single(h):
    """order 1 to 3, one to three segments on fixed knots, f polynomial of
    degree 0 to 3 with constant part near 1 (symbolic coefficients of both)"""
    order, nseg, n = h.choice('size', [(1, 1, 1), (2, 1, 2), (3, 1, 4),
                                       (2, 2, 3), (3, 2, 2), (2, 3, 2)])
    knots = [-1.0, 0.0, .5, 1.0][:nseg + 1]
    data = _data(h, order, nseg)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    before = p.data.copy()
    f = _f(h, n)
    res = p.overlap(lambda x: eval_mono(f, x), rtol=1e-9)
    h.eq("integral", res, total(h, data, knots, f), **TOL)
    h.eq("polynomial unchanged", p.data, before)
    h.eq("knots unchanged", p.knots, h.arr(knots))


def axes(h):
    """function axes (), (2,), (2,1), (2,2) and f of shape (), (2,), (2,2)"""
    fs = h.choice('axes', [(), (2,), (2, 1), (2, 2)])
    gs = h.choice('f axes', [(), (2,), (2, 2)])
    knots = [-1.0, 0.0, 1.0]
    data = _data(h, 2, 2, fs)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    ng = len(indices(gs))
    f = [_f(h, 2, 'f%d' % i) for i in range(ng)]
    f = [[c[0] + i] + c[1:] for i, c in enumerate(f)]
    if gs == ():
        call = lambda x: eval_mono(f[0], x)
    else:
        call = lambda x: h.arr([eval_mono(c, x) for c in f]).reshape(gs)
    res, err = p.overlap(call, rtol=1e-9, return_error=True)
    want = [total(h, data, knots, c, i) for i in indices(fs) for c in f]
    h.eq("integral", res, h.arr(want).reshape(fs + gs), **TOL)
    h.check("shape of error", tuple(err.shape) == fs + gs)
    h.check("error estimate", [e >= 0 for e in err.ravel()])
    h.check("error estimate is small", [e < 1e-8 for e in err.ravel()])


def break_points(h):
    """f with a jump at a break point (fixed places inside, on and off the
    knots), handed in unsorted and repeated"""
    b = h.choice('break', [-.5, 0.0, .25, .75])
    knots = [-1.0, 0.0, 1.0]
    data = _data(h, 2, 2)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    f1, f2 = _f(h, 2, 'f'), _f(h, 2, 'g')
    f2 = [f2[0] + 2, f2[1]]
    pts = h.choice('points', [[b], [b, b], [.5, b, -.5], [1.0, b, -1.0]])
    res = p.overlap(lambda x: eval_mono(f1 if x < b else f2, x), rtol=1e-9,
                    points=pts if h.choice('list', [True, False])
                    else h.arr(pts))
    want = 0
    for i in range(2):
        lo, hi = knots[i], knots[i + 1]
        c = [data[k, i] for k in range(2)]
        m = min(max(b, lo), hi)
        want = want + piece_int(h, c, lo, hi, f1, lo, m)
        want = want + piece_int(h, c, lo, hi, f2, m, hi)
    h.eq("integral", res, want, **TOL)


def refinement(h):
    """f with one or two jumps at -1 + k/4 that are not handed in: bisection
    refines until the pieces end on the jumps"""
    b, b2 = h.choice('jump', [(0.0, 1.0), (-.5, 1.0), (.25, 1.0), (-.75, .75),
                              (-.25, .75), (-.75, .25), (-.5, .25)])
    knots = [-1.0, 1.0]
    data = _data(h, 2, 1)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    res = p.overlap(lambda x: 1.0 if x < b else 3.0 if x < b2 else 4.0,
                    rtol=1e-9)
    c = [data[k, 0] for k in range(2)]
    want = piece_int(h, c, -1.0, 1.0, [1.0], -1.0, b) \
        + piece_int(h, c, -1.0, 1.0, [3.0], b, b2) \
        + piece_int(h, c, -1.0, 1.0, [4.0], b2, 1.0)
    h.eq("integral", res, want, **TOL)


def refine_some(h):
    """set of functions of which some vanish on some or all segments, and f of
    several components of which one has a jump that is not handed in"""
    knots = [-1.0, 0.0, 1.0]
    top = h.reals('c', (2, 2), 1, 2)
    mask = h.choice('mask', [[[1, 0], [1, 1]], [[0, 1], [1, 1]],
                             [[1, 1], [0, 0]], [[0, 0], [1, 0]],
                             [[0, 0], [0, 0]]])
    data = top * h.arr(mask).T
    p = h.lib.poly.PiecewiseLegendrePoly(data[None], h.arr(knots))
    b = h.choice('jump', [-.5, .5])
    jump = lambda x: 1.0 if x < b else 3.0
    parts = [[1, 3], [3, 3]] if b < 0 else [[1, 1], [1, 3]]
    one, zero = [[2, 2], [2, 2]], [[0, 0], [0, 0]]
    kind = h.choice('f', range(4))
    res = p.overlap(
        [lambda x: h.arr([jump(x), 2.0]), lambda x: h.arr([2.0, jump(x)]),
         lambda x: h.arr([jump(x), 0.0]), lambda x: h.arr([0.0, 0.0])][kind],
        rtol=1e-9)
    comps = [(parts, one), (one, parts), (parts, zero), (zero, zero)][kind]
    want = [[sum(data[i, l] * (f[i][0] + f[i][1]) for i in range(2))
             * h.np.sqrt(.5) for f in comps] for l in range(2)]
    h.eq("integral", res, h.arr(want), **TOL)


def any_knots(h):
    """one segment with arbitrary ends; constant f"""
    lo = h.real('lo', -2, 2)
    s = h.real('len', .5, 2)
    data = _data(h, 2, 1)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr([lo, lo + s]))
    a = h.real('a', 1, 2)
    res = p.overlap(lambda x: a, rtol=1e-9)
    h.eq("integral", res / h.np.sqrt(s / 2) / 2, data[0, 0] * a, **TOL)


def linear(h):
    """overlap with a sum of functions and of polynomials; norm of a
    polynomial"""
    knots = [-1.0, 0.0, 1.0]
    P = h.lib.poly.PiecewiseLegendrePoly
    d1, d2 = _data(h, 2, 2, tag='c'), _data(h, 2, 2, tag='d')
    p1, p2 = P(d1, h.arr(knots)), P(d2, h.arr(knots))
    p12 = P(d1 + d2, h.arr(knots))
    f = lambda x: 1.0 + x / 16
    g = lambda x: 2.0
    kw = dict(rtol=1e-9)
    h.eq("in the function", p1.overlap(lambda x: f(x) + g(x), **kw),
         p1.overlap(f, **kw) + p1.overlap(g, **kw), **TOL)
    h.eq("in the polynomial", p12.overlap(f, **kw),
         p1.overlap(f, **kw) + p2.overlap(f, **kw), **TOL)
    w = h.arr([[2.0], [2 / 3]])       # square norms of P_0, P_1
    h.eq("norm", p1.overlap(p1, **kw), h.np.sum(w * d1 * d1), **TOL)
    h.eq("inner product", p1.overlap(p2, **kw), h.np.sum(w * d1 * d2), **TOL)


def whole_numbers(h):
    """coefficients, knots, break points and values of f are whole numbers"""
    knots = h.choice('knots', [[-1, 1], [-1, 1, 2]])
    data = h.ints('c', (1, len(knots) - 1), 1, 3)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    f = h.int('f', 1, 3)
    g = h.int('g', 1, 3)
    res = p.overlap(lambda x: f if x < 0 else g, points=[0])
    k = [float(x) for x in knots]
    c = 1.0 * data
    want = (piece_int(h, [c[0, 0]], k[0], k[1], [f], -1.0, 0.0)
            + piece_int(h, [c[0, 0]], k[0], k[1], [g], 0.0, k[1]))
    if len(knots) > 2:
        want = want + piece_int(h, [c[0, 1]], k[1], k[2], [g], k[1], k[2])
    h.eq("integral", res, want, **TOL)


def large(h):
    """sizes as in real use: order 10 on 20 (thorough: 40) segments, 1 or 10
    functions, f of one or 3 components and its break points; fixed
    coefficients but for one arbitrary one on every other segment"""
    nf, ng = h.choice('functions, components', [(None, None), (10, None),
                                                (None, 3), (10, 3)])
    order, nseg = 10, h.pick(20, 40)
    ks = many_knots(nseg)
    fs = () if nf is None else (nf,)
    c = mixed(h, 'c', (order, nseg) + fs,
              [(i % 3, i) + ((i % nf,) if nf else ())
               for i in range(0, nseg, 2)], bound=2.0**-6)
    data = c + h.arr([1.5] + [0.0] * (order - 1)).reshape(
        (order, 1) + (1,) * len(fs))
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks))
    f = [_f(h, 2, 'f%d' % k) for k in range(ng or 1)]
    f = [[a[0] + k] + a[1:] for k, a in enumerate(f)]
    jump = h.choice('jump', [None, .5])

    def call(x):
        r = [eval_mono(a, x) + (0 if jump is None or x < jump else 2)
             for a in f]
        return r[0] if ng is None else h.arr(r)

    kw = dict(rtol=1e-9) if jump is None else dict(rtol=1e-9, points=[jump])
    got = p.overlap(call, **kw)
    h.check("shape", tuple(got.shape) == fs + (() if ng is None else (ng,)))
    for l in [None] if nf is None else [0, 4, 9]:
        for k in range(ng or 1):
            i = () if l is None else (l,)
            want = total(h, data, ks, f[k], i)
            if jump is not None:
                for s in range(nseg):
                    if ks[s] >= jump:
                        want = want + piece_int(
                            h, [data[(m, s) + i] for m in range(order)],
                            ks[s], ks[s + 1], [2.0], ks[s], ks[s + 1])
            h.eq("integral", got[i if ng is None else i + (k,)], want, **TOL)


def segments(h):
    """70 and 128 (thorough: 200) segments of order 2, one function or two, f
    linear, or with a jump at a break point, or with one or two jumps that are
    not handed in, in the middle of segments; one coefficient in eight
    arbitrary"""
    nseg = h.choice('segments', h.pick([70, 128], [70, 128, 200]))
    fs = h.choice('functions', [(), (2,)])
    ks = many_knots(nseg)
    c = mixed(h, 'c', (2, nseg) + fs,
              [(i // 8 % 2, i) + (0,) * len(fs) for i in range(0, nseg, 8)],
              bound=2.0**-6)
    data = c + h.arr([1.5, 0.0]).reshape((2, 1) + (1,) * len(fs))
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks))
    f = [1.0, h.real('slope', -.02, .02)]
    kind = h.choice('jump', [None, 'given', 'one', 'two'])
    mid = lambda i: (ks[i] + ks[i + 1]) / 2
    jumps = {None: [], 'given': [ks[-6]], 'one': [mid(nseg // 3)],
             'two': [mid(2), mid(nseg - 5)]}[kind]
    kw = dict(points=[-.125] + jumps + [.5]) if kind == 'given' else {}
    got = p.overlap(lambda x: eval_mono(f, x) +
                    2.0 * sum(x >= b for b in jumps), rtol=1e-9, **kw)
    h.check("shape", tuple(got.shape) == fs)
    for i in indices(fs):
        want = total(h, data, ks, f, i)
        for b in jumps:
            for s in range(nseg):
                if ks[s + 1] > b:
                    want = want + piece_int(
                        h, [data[(m, s) + i] for m in range(2)],
                        ks[s], ks[s + 1], [2.0], max(ks[s], b), ks[s + 1])
        h.eq("integral", got[i], want, **TOL)


HARNESSES = [(segments, {}), (single, {}), (axes, {}), (break_points, {}), (refinement, {}),
             (refine_some, {}),
             (any_knots, {}), (linear, {}),
             (whole_numbers, {}),
             (large, {})]
