"""Quadrature rule transformations."""
from .common import many_knots, mixed


def _rule(h, tag, n, nested=False, a=None, b=None):
    """rule with arbitrary nodes in [a, b] and weights"""
    g = h.mod('_gauss')
    if a is None:
        a = h.real(tag + 'a', -3, 3)
    if b is None:
        b = a + h.real(tag + 'len', .1, 3)
    x = h.reals(tag + 'x', n, -3, 6)
    w = h.reals(tag + 'w', n, -2, 2)
    if nested:
        v = h.reals(tag + 'v', n // 2, -2, 2)
        return g.NestedRule(x, w, v, x - a, b - x, a, b)
    if h.choice(tag + 'offsets', ['default', 'given']) == 'given':
        return g.Rule(x, w, x - a, b - x, a, b)
    return g.Rule(x, w, a=a, b=b)


def _ends(h, r, a, b):
    h.eq("lower end", r.a, a)
    h.eq("upper end", r.b, b)
    h.eq("distance to lower end", r.x_forward, r.x - a)
    h.eq("distance to upper end", r.x_backward, b - r.x)


def _copy(r):
    return [r.x.copy(), r.w.copy(), r.x_forward.copy(), r.x_backward.copy(),
            r.a, r.b] + ([r.v.copy()] if hasattr(r, 'v') else [])


def _same(h, r, old):
    new = _copy(r)
    for p, q in zip(new, old):
        h.eq("operand unchanged", p, q)


def reseat(h):
    """one to three arbitrary nodes and weights in an arbitrary interval moved
    to an arbitrary interval; plain and nested rules"""
    n = h.choice('n', [1, 2, 3])
    nested = h.choice('nested', [False, True])
    r = _rule(h, '', n, nested)
    old = _copy(r)
    c = h.real('c', -4, 4)
    d = c + h.real('len', .1, 4)
    q = r.reseat(c, d)
    f = (d - c) / (r.b - r.a)
    h.eq("nodes", q.x, c + f * (r.x - r.a))
    h.eq("weights", q.w, f * r.w)
    _ends(h, q, c, d)
    if nested:
        h.eq("embedded weights", q.v, f * r.v)
        h.eq("embedded nodes", q.x[q.vsel], (c + f * (r.x - r.a))[1::2])
    _same(h, r, old)
    # moving there and back
    q = q.reseat(r.a, r.b)
    h.eq("there and back: nodes", q.x, r.x)
    h.eq("there and back: weights", q.w, r.w)
    _ends(h, q, r.a, r.b)
    if nested:
        h.eq("there and back: embedded weights", q.v, r.v)


def scale(h):
    """one to three arbitrary nodes and weights, any factor of either sign"""
    nested = h.choice('nested', [False, True])
    r = _rule(h, '', h.choice('n', [1, 2, 3]), nested)
    old = _copy(r)
    k = h.real('k', -5, 5)
    q = r.scale(k)
    h.eq("nodes", q.x, r.x)
    h.eq("weights", q.w, k * r.w)
    _ends(h, q, r.a, r.b)
    if nested:
        h.eq("embedded weights", q.v, k * r.v)
        m = q.scale(2.0).reseat(r.a, r.b + 1)
        f = (r.b + 1 - r.a) / (r.b - r.a)
        h.eq("scaled and moved: embedded", m.v, 2 * k * f * r.v)
        h.eq("scaled and moved", m.w, 2 * k * f * r.w)
    _same(h, r, old)


def piecewise(h):
    """one to two arbitrary nodes and weights on one to three arbitrary
    segments"""
    r = _rule(h, '', h.choice('n', [1, 2]), h.choice('nested', [False, True]))
    old = _copy(r)
    k = h.choice('segments', [1, 2, 3])
    e = [h.real('e0', -3, 3)]
    for i in range(k):
        e.append(e[-1] + h.real('d%d' % i, .05, 2))
    edges = h.arr(e)
    if h.choice('list', [False, True]):
        q = r.piecewise(e)
    else:
        q = r.piecewise(edges)
    np = h.np
    f = [(e[i + 1] - e[i]) / (r.b - r.a) for i in range(k)]
    h.eq("nodes", q.x, np.hstack([e[i] + f[i] * (r.x - r.a)
                                  for i in range(k)]))
    h.eq("weights", q.w, np.hstack([f[i] * r.w for i in range(k)]))
    _ends(h, q, e[0], e[-1])
    _same(h, r, old)
    h.eq("edges unchanged", edges, h.arr(e))


def piecewise_bad(h):
    """two segments that are not ascending, in any place"""
    r = _rule(h, '', 1)
    e = h.reals('e', 4, -3, 3)
    i = h.choice('place', [0, 1, 2])
    h.assume(e[i + 1] <= e[i])
    h.raises("unordered", ValueError, lambda: r.piecewise(e))


def join(h):
    """two or three adjacent rules of one or two arbitrary nodes, or rules
    with a gap or overlap anywhere"""
    g = h.mod('_gauss')
    k = h.choice('rules', [1, 2, 3])
    e = [h.real('e0', -3, 3)]
    rules = []
    gap = h.choice('gap', list(range(k)))
    for i in range(k):
        b = e[-1] + h.real('d%d' % i, .05, 2)
        a = e[-1]
        if gap and i == gap:
            d = h.real('gap', -1, 1)
            h.assume(h.either(d > 1e-6, d < -1e-6))
            a = a + d
            b = b + d
        e.append(b)
        rules.append(_rule(h, 'r%d' % i, 1 + i % 2, a=a, b=b))
    old = [_copy(r) for r in rules]
    if gap:
        h.raises("not adjacent", ValueError, lambda: g.Rule.join(*rules))
        return
    np = h.np
    q = g.Rule.join(*rules)
    h.eq("nodes", q.x, np.hstack([r.x for r in rules]))
    h.eq("weights", q.w, np.hstack([r.w for r in rules]))
    _ends(h, q, e[0], e[-1])
    for r, o in zip(rules, old):
        _same(h, r, o)
    # compose with a move
    m = q.reseat(0, 1)
    h.eq("joined and moved", m.w, q.w / (e[-1] - e[0]))
    _ends(h, m, 0, 1)
    m = q.piecewise([0.0, 1.0, 3.0])
    f = 1 / (e[-1] - e[0])
    h.eq("joined and repeated", m.x, np.hstack(
        [f * (q.x - e[0]), 1 + 2 * f * (q.x - e[0])]))
    _ends(h, m, 0, 3)


def astype(h):
    """one to two nodes, double and the widest available precision"""
    nested = h.choice('nested', [False, True])
    r = _rule(h, '', 2, nested)
    old = _copy(r)
    dt = h.choice('dtype', ['float64', 'max'])
    dt = h.mod('svd').MAX_DTYPE if dt == 'max' else h.np.float64
    q = r.astype(dt)
    back = q.astype(h.np.float64)
    h.check("type", q.x.dtype == h.np.dtype(dt)
            and q.w.dtype == h.np.dtype(dt)
            and q.x_forward.dtype == h.np.dtype(dt)
            and q.x_backward.dtype == h.np.dtype(dt))
    h.eq("nodes", back.x, r.x)
    h.eq("weights", back.w, r.w)
    _ends(h, back, r.a, r.b)
    if nested:
        h.eq("embedded weights", back.v, r.v)
    _same(h, r, old)


def default_interval(h):
    """rules without given interval live on [-1, 1]; empty join"""
    g = h.mod('_gauss')
    x, w = h.reals('x', 2, -1, 1), h.reals('w', 2, -2, 2)
    r = g.Rule(x, w)
    _ends(h, r, -1, 1)
    e = g.Rule.join()
    h.check("empty", e.x.size == 0 and e.w.size == 0)
    # integral of polynomial under substitution
    a = h.real('a', -2, 2)
    b = a + h.real('len', .1, 3)
    c = h.reals('c', 3, -2, 2)
    q = r.reseat(a, b)
    f = lambda t: c[0] + t * (c[1] + t * c[2])
    h.eq("substitution", h.np.sum(q.w * f(q.x)),
         (b - a)/2 * h.np.sum(w * f(a + (b - a) * (x + 1) / 2)))


def large(h):
    """sizes as in real use: 16 and 33 fixed nodes and weights (two of them
    arbitrary) on 40 segments of fixed edges, in an arbitrary interval; 12
    rules joined"""
    n = h.choice('n', [16, 33])
    g = h.mod('_gauss')
    a = h.real('a', -3, 3)
    x = mixed(h, 'x', (n,), [(3,), (n - 1,)], 3)
    w = mixed(h, 'w', (n,), [(0,), (n - 2,)], 4)
    r = g.Rule(x, w, a=a, b=a + 4)
    np = h.np
    e = many_knots(40)
    q = r.piecewise(h.arr(e))
    f = [(v - u) / 4 for u, v in zip(e[:-1], e[1:])]
    h.eq("nodes", q.x, np.hstack([u + s * (x - a) for u, s in zip(e, f)]))
    h.eq("weights", q.w, np.hstack([s * w for s in f]))
    _ends(h, q, e[0], e[-1])
    rules = [r.reseat(u, v) for u, v in zip(e[:12], e[1:13])]
    j = g.Rule.join(*rules)
    h.eq("joined", j.w, q.w[:12 * n])
    h.eq("joined nodes", j.x, q.x[:12 * n])
    _ends(h, j, e[0], e[12])
    m = q.scale(-2).reseat(0, 8)
    h.eq("moved nodes", m.x, 4 * (q.x + 1))
    h.eq("moved weights", m.w, -8 * q.w)
    if n % 2:
        v = mixed(h, 'v', (n // 2,), [(2,)], 6)
        r = g.NestedRule(x, w, v, x - a, a + 4 - x, a, a + 4)
        q = r.reseat(-1, 0).scale(3)
        h.eq("embedded weights", q.v, 3 * v / 4)
        h.eq("embedded nodes", q.x[q.vsel], ((x - a) / 4 - 1)[1::2])


def given_distances(h):
    """distances that are handed in are kept, moved and scaled as they are:
    they may be more accurate than the difference of node and end"""
    g = h.mod('_gauss')
    n = h.choice('n', [1, 3])
    nested = n == 3 and h.choice('nested', [False, True])
    a = h.real('a', -3, 3)
    b = a + h.real('len', .1, 3)
    x, w = h.reals('x', n, -3, 6), h.reals('w', n, -2, 2)
    p, q = h.reals('p', n, -3, 6), h.reals('q', n, -3, 6)
    if nested:
        r = g.NestedRule(x, w, h.reals('v', 1, -2, 2), p, q, a, b)
    else:
        r = g.Rule(x, w, p, q, a, b)
    c = h.real('c', -4, 4)
    d = c + h.real('len2', .1, 4)
    f = (d - c) / (b - a)
    for tag, m, k in [("", r, 1), ("moved ", r.reseat(c, d), f),
                      ("scaled ", r.scale(2.0), 1),
                      ("back ", r.reseat(c, d).reseat(a, b), 1)]:
        h.eq(tag + "to the lower end", m.x_forward, k * p)
        h.eq(tag + "to the upper end", m.x_backward, k * q)
    one = g.Rule(x, w, p, None, a, b)
    h.eq("lower given", one.x_forward, p)
    h.eq("upper from nodes", one.x_backward, b - x)
    one = g.Rule(x, w, None, q, a, b)
    h.eq("lower from nodes", one.x_forward, x - a)
    h.eq("upper given", one.x_backward, q)


HARNESSES = [(reseat, {}), (scale, {}), (piecewise, {}), (piecewise_bad, {}),
             (join, {}), (astype, {}), (default_interval, {}),
             (large, {}),
             (given_distances, {})]
