"""Exactness of Gauss rules."""


def _legint(h, c):
    """integral over [-1, 1] of Legendre sum"""
    return 2 * c[0]


def _legval(h, x, c):
    """Legendre sum by recurrence, independent of numpy.polynomial"""
    p0, p1 = 1 + 0 * x, x
    s = c[0] * p0
    for k in range(1, len(c)):
        s = s + c[k] * p1
        p0, p1 = p1, ((2*k + 1) * x * p1 - k * p0) / (k + 1)
    return s


def _order(h, n, **tol):
    g = h.mod('_gauss')
    r = g.legendre(n)
    h.check("number of nodes", r.x.shape == (n,) and r.w.shape == (n,))
    h.check("ascending", r.x[1:] > r.x[:-1])
    h.check("inside", [r.x > -1, r.x < 1])
    h.check("positive weights", r.w > 0)
    # all polynomials of degree 2n - 1
    c = h.reals('c', 2 * n, -1, 1)
    h.eq("integral", h.np.sum(r.w * _legval(h, r.x, c)), 2 * c[0], **tol)
    # collocation
    d = h.reals('d', n, -1, 1)
    for m in {1, n, max(n - 1, 1)}:
        cm = g.legendre_collocation(r, m)
        h.eq("collocation", cm @ _legval(h, r.x, d), d[:m], **tol)
    h.eq("collocation, default", g.legendre_collocation(r) @
         _legval(h, r.x, d), d, **tol)
    h.eq("lower distance", r.x_forward, 1 + r.x, **tol)
    h.eq("upper distance", r.x_backward, 1 - r.x, **tol)


def order1(h):
    """n = 1, every polynomial with Legendre coefficients in [-1, 1]"""
    _order(h, 1)


def order2(h):
    """n = 2, every polynomial; exact algebraic nodes"""
    _order(h, 2)


def order3(h):
    """n = 3, every polynomial; exact algebraic nodes"""
    _order(h, 3)


def order4(h):
    """n = 4, every polynomial; exact algebraic nodes"""
    _order(h, 4)


def order5(h):
    """n = 5, every polynomial; exact algebraic nodes"""
    _order(h, 5)


def higher(h):
    """n = 6 to 10 (quick) or 6 to 20 (thorough), every polynomial with
    coefficients in [-1, 1] to 1e-12"""
    _order(h, h.choice('n', list(range(6, h.pick(11, 21)))),
           tol=1e-12, stol=1e-12)


def interval(h):
    """n = 1 to 3 on any interval, every polynomial; n up to 3 on any two
    segments"""
    g = h.mod('_gauss')
    n = h.choice('n', [1, 2, 3])
    a = h.real('a', -3, 3)
    b = a + h.real('len', .1, 3)
    c = h.reals('c', 2 * n, -1, 1)
    f = lambda x: sum(c[k] * x**k for k in range(2 * n))
    F = lambda x: sum(c[k] * x**(k + 1) / (k + 1) for k in range(2 * n))
    r = g.legendre(n)
    q = r.reseat(a, b)
    h.eq("integral", h.np.sum(q.w * f(q.x)), F(b) - F(a))
    d = b + h.real('len2', .1, 3)
    q = r.piecewise([a, b, d])
    h.eq("integral on segments", h.np.sum(q.w * f(q.x)), F(d) - F(a))


def nested(h):
    """31-point rule: every polynomial of degree up to 47; embedded 15-point
    rule: degree up to 29; coefficients in [-1, 1], to 1e-13"""
    g = h.mod('_gauss')
    r = g.kronrod_31_15()
    c = h.reals('c', 48, -1, 1)
    tol = dict(tol=1e-13, stol=1e-13)
    h.check("sizes", r.x.shape == (31,) and r.w.shape == (31,)
            and r.v.shape == (15,))
    h.eq("integral", h.np.sum(r.w * _legval(h, r.x, c)), 2 * c[0], **tol)
    h.eq("embedded", h.np.sum(r.v * _legval(h, r.x[r.vsel], c[:30])),
         2 * c[0], **tol)
    h.check("ascending", r.x[1:] > r.x[:-1])
    h.check("inside", [r.x > -1, r.x < 1])
    h.check("positive weights", [r.w > 0, r.v > 0])


def nested_interval(h):
    """31-point rule on any interval: every polynomial of degree up to 8 in
    the interval's own variable"""
    g = h.mod('_gauss')
    a = h.real('a', -3, 3)
    ln = h.real('len', .1, 3)
    r = g.kronrod_31_15().reseat(a, a + ln)
    c = h.reals('c', 9, -1, 1)
    t = (r.x - a) / ln
    f = sum(c[k] * t**k for k in range(9))
    want = ln * sum(c[k] / (k + 1) for k in range(9))
    tol = dict(tol=1e-12, stol=1e-12)
    h.eq("integral", h.np.sum(r.w * f) / ln, want / ln, **tol)
    h.eq("embedded", h.np.sum(r.v * f[r.vsel]) / ln, want / ln, **tol)


def collocation_any(h):
    """collocation matrix of arbitrary nodes and weights"""
    g = h.mod('_gauss')
    n = h.choice('n', [1, 2, 3])
    x, w = h.reals('x', n, -1, 1), h.reals('w', n, -2, 2)
    r = g.Rule(x, w)
    m = h.choice('m', [1, 2, 3])
    res = g.legendre_collocation(r, m)
    P = [1 + 0 * x, x, (3 * x**2 - 1) / 2]
    h.eq("entries", res, h.arr([[(k + .5) * w[i] * P[k][i] for i in range(n)]
                                for k in range(m)]))
    h.eq("nodes unchanged", r.x, x)


def _affine(h, label, q, r0, a0, b0, a, b, w=1):
    """q is r0 (nodes and weights on [a0, b0]) moved to [a, b]"""
    s = (b - a) / (b0 - a0)
    t = [(x - a0) / (b0 - a0) for x in r0[0]]
    h.eq(label + " nodes", q.x, h.arr([a + (b - a) * x for x in t]))
    h.eq(label + " weights", q.w, h.arr([s * x for x in r0[1]]) * w)
    h.eq(label + " lower distance", q.x_forward,
         h.arr([(b - a) * x for x in t]))
    h.eq(label + " upper distance", q.x_backward,
         h.arr([(b - a) * (1 - x) for x in t]))
    h.eq(label + " ends", h.arr([q.a, q.b]), h.arr([a, b]))


def moved(h):
    """rules of two arbitrary nodes and weights on three intervals: moved to
    any other one, moved twice, scaled, joined"""
    g = h.mod('_gauss')
    a0, b0 = h.choice('from', [(-1, 1), (0.0, 1.0), (-3.0, -2.5)])
    t = [h.real('t0', 0, .5), h.real('t1', .5, 1)]
    w = h.reals('w', 2, -1, 1)
    x = [a0 + (b0 - a0) * z for z in t]
    r = g.Rule(h.arr(x), w, a=a0, b=b0)
    a = h.real('a', -3, 3)
    b = a + h.real('len', .125, 3)
    what = h.choice('what', ['once', 'twice', 'scaled', 'joined', 'pieces'])
    if what == 'once':
        _affine(h, what, r.reseat(a, b), (x, w), a0, b0, a, b)
    elif what == 'twice':
        _affine(h, what, r.reseat(1, 3).reseat(a, b), (x, w), a0, b0, a, b)
        _affine(h, 'back', r.reseat(a, b).reseat(a0, b0), (x, w), a0, b0,
                a0, b0)
    elif what == 'scaled':
        f = h.real('f', -2, 2)
        _affine(h, what, r.scale(f), (x, w), a0, b0, a0, b0, f)
        _affine(h, what, r.scale(f).reseat(1, 3), (x, w), a0, b0, 1, 3, f)
    else:
        c = b + h.real('len2', .125, 3)
        q = g.Rule.join(r.reseat(a, b), r.reseat(b, c)) \
            if what == 'joined' else r.piecewise(h.arr([a, b, c]))
        p = [r.reseat(a, b), r.reseat(b, c)]
        nodes = [v for k in p for v in k.x]
        h.eq("nodes of both", q.x, h.arr(nodes))
        h.eq("weights of both", q.w, h.arr([v for k in p for v in k.w]))
        h.eq("lower distance of both", q.x_forward,
             h.arr([v - a for v in nodes]))
        h.eq("upper distance of both", q.x_backward,
             h.arr([c - v for v in nodes]))
        h.eq("ends of both", h.arr([q.a, q.b]), h.arr([a, c]))
        h.raises("gap", ValueError,
                 lambda: g.Rule.join(r.reseat(a, b), r.reseat(b + 1, c + 1)))
        h.raises("not ascending", ValueError,
                 lambda: r.piecewise(h.arr([a, c, b])))


def distances(h):
    """nodes which rounding has moved onto the ends, at arbitrary distances of
    about 2^-60 from them: distances are kept when the rule is moved, scaled,
    converted, joined"""
    g = h.mod('_gauss')
    S = 2.0**60
    lo, hi = h.real('lo', 1/S, 8/S), h.real('hi', 1/S, 8/S)
    r = g.Rule(h.arr([-1.0, 0.0, 1.0]), h.arr([.25, 1.5, .25]),
               h.arr([lo, 1.0, 2.0]), h.arr([2.0, 1.0, hi]))
    what = h.choice('what', ['moved', 'scaled', 'type', 'pieces'])
    f = 1.0
    if what == 'moved':
        f = h.choice('to', [.25, 2.0])
        q = r.reseat(1.0, 1.0 + 2 * f)
    elif what == 'scaled':
        q = r.scale(3.0)
    elif what == 'type':
        q = r.astype(float)
    else:
        q, f = r.piecewise(h.arr([1.0, 3.0, 5.0])), 1.0
    h.eq("lower end", q.x_forward[0] * S, f * lo * S)
    h.eq("upper end", q.x_backward[-1] * S, f * hi * S)


HARNESSES = [(order1, {}), (order2, {}), (order3, {}), (order4, {}),
             (order5, {}), (higher, {}), (interval, {}), (nested, {}),
             (nested_interval, {}), (collocation_any, {}), (moved, {}),
             (distances, {})]
