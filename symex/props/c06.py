"""Evaluation of piecewise polynomials."""
from .common import free_knots, poly, value, indices, many_knots, mixed, \
    numbers, piece


def _x(h, knots, shape):
    """points anywhere in the domain, or exactly on a knot"""
    n = 1
    for s in shape:
        n *= s
    xs = []
    for i in range(n):
        x = h.real('x%d' % i, -3, 9)
        h.assume([x >= knots[0], x <= knots[-1]])
        xs.append(x)
    return xs


def evaluate(h):
    """order 1 to 3, one to three segments with arbitrary knots, one function,
    any point of the domain (Python scalar, 0-d array)"""
    order, nseg = h.choice('size', [(1, 1), (2, 1), (2, 2), (3, 2), (2, 3)])
    knots = free_knots(h, nseg)
    p, data = poly(h, order, knots)
    x, = _x(h, knots, ())
    want = value(h, data, knots, x)
    if h.choice('0-d', [False, True]):
        x = h.arr(x)
    h.eq("value", p(x), want)


def at_knots(h):
    """value at every knot is that of the segment to its right, at the last
    knot that of the last segment; points handed in exactly"""
    nseg = h.choice('segments', [1, 2, 3, 4])
    k = [-1.0, -.5, 0.0, 1.0, 3.0][:nseg + 1]
    p, data = poly(h, 2, k)
    h.eq("value at knots", p(h.arr(k)),
         h.arr([value(h, data, k, x) for x in k]))
    for x in k:
        h.eq("value at knot", p(x), value(h, data, k, x))


def shapes(h):
    """function axes of shape (), (2,), (1,2), (2,2) and points of shape (),
    (2,), (1,2), (0,): result has function axes first"""
    fs = h.choice('function axes', [(), (2,), (1, 2), (2, 2), (1,)])
    xs = h.choice('point axes', [(), (2,), (1, 2), (2, 1)])
    nseg = h.pick(2, 3)
    knots = free_knots(h, nseg)
    p, data = poly(h, 2, knots, fs)
    pts = _x(h, knots, xs)
    x = h.arr(pts).reshape(xs) if xs else pts[0]
    want = [value(h, data, knots, t, i) for i in indices(fs) for t in pts]
    h.eq("values", p(x), h.arr(want).reshape(fs + xs))
    h.check("shape attributes", tuple(p.shape) == fs and p.ndim == len(fs)
            and p.size == len(indices(fs)))
    e = p(h.np.zeros((0,)))
    h.check("no points", tuple(e.shape) == fs + (0,))


def select(h):
    """selection by index, negative index, slice, list, mask and tuple commutes
    with evaluation, for one and two function axes; parity goes along"""
    fs = h.choice('function axes', [(3,), (2, 2)])
    knots = free_knots(h, 2)
    symm = [[1, -1, 0], [[1, -1], [-1, 0]]][len(fs) - 1]
    p, data = poly(h, 2, knots, fs, symm=symm)
    pts = _x(h, knots, (1,))
    sel = h.choice('sel', [0, 1, -1, slice(None), slice(1, None),
                           slice(None, None, -1), slice(0, 1), slice(1, 2),
                           slice(1, 3), slice(None, -1), [1, 0],
                           [-1], (1,), (slice(None),), Ellipsis, 'two'])
    if sel == 'two':
        if len(fs) == 1:
            return
        sel = (1, 0)
    before = p.data.copy()
    q = p[sel]
    full = p(h.arr(pts))
    h.eq("values", q(h.arr(pts)), full[sel])
    h.eq("coefficients", q.data, data[(slice(None), slice(None)) + (
        sel if isinstance(sel, tuple) else (sel,))])
    h.eq("parity", q.symm, h.arr(symm)[sel])
    h.eq("knots", q.knots, h.arr(knots))
    h.eq("original", p.data, before)
    h.check("domain", q.xmin == knots[0])
    h.check("domain", q.xmax == knots[-1])


def value_at(h):
    """value(l, x) for scalar and broadcast l and x equals single functions"""
    knots = free_knots(h, 2)
    p, data = poly(h, 2, knots, (3,))
    pts = _x(h, knots, (2,))
    want = [[value(h, data, knots, t, (l,)) for t in pts] for l in range(3)]
    mode = h.choice('mode', ['scalar', 'l scalar', 'x scalar', 'paired',
                             'outer', 'negative'])
    if mode == 'scalar':
        for l in range(3):
            h.eq("value", p.value(l, pts[0]), want[l][0])
    elif mode == 'l scalar':
        h.eq("values", p.value(2, h.arr(pts)), h.arr(want[2]))
    elif mode == 'x scalar':
        h.eq("values", p.value(h.arr([2, 0]), pts[1]),
             h.arr([want[2][1], want[0][1]]))
    elif mode == 'paired':
        h.eq("values", p.value(h.arr([1, 2]), h.arr(pts)),
             h.arr([want[1][0], want[2][1]]))
    elif mode == 'outer':
        h.eq("values", p.value(h.arr([[2], [0]]), h.arr(pts)),
             h.arr([want[2], want[0]]))
    else:
        h.eq("values", p.value(-1, h.arr(pts)), h.arr(want[2]))
    for fs in ((), (1, 2)):
        q, _ = poly(h, 1, knots, fs, tag='d%d' % len(fs))
        h.raises("one axis required", ValueError, lambda: q.value(0, pts[0]))


def dx_given(h):
    """segment lengths handed in"""
    knots = free_knots(h, 2)
    data = h.reals('c', (2, 2), -2, 2)
    dx = [knots[1] - knots[0], knots[2] - knots[1]]
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots), dx=h.arr(dx))
    x, = _x(h, knots, ())
    h.eq("value", p(x), value(h, data, knots, x))
    err = h.real('err', -1, 1)
    h.assume(h.either(err > .01, err < -.01))
    bad = [dx[0] + err, dx[1]] if h.choice('place', [True, False]) \
        else [dx[0], dx[1] + err]
    h.raises("dx must fit", ValueError, lambda:
             h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots),
                                              dx=h.arr(bad)))


def outside(h):
    """any point outside of the domain, NaN or infinite, alone or at any place
    of an array, is rejected by call and value()"""
    knots = free_knots(h, 2)
    p, data = poly(h, 2, knots, (2,))
    kind = h.choice('kind', ['below', 'above', 'nan', 'inf', '-inf'])
    if kind == 'below':
        bad = knots[0] - h.real('e', 1e-6, 1e3)
    elif kind == 'above':
        bad = knots[-1] + h.real('e', 1e-6, 1e3)
    else:
        bad = float(kind)
    place = h.choice('place', ['scalar', 'first', 'last', '2d'])
    x = dict(scalar=lambda: bad, first=lambda: h.arr([bad, knots[0]]),
             last=lambda: h.arr([knots[1], knots[2], bad]),
             )
    x['2d'] = lambda: h.arr([[knots[1], knots[2]], [bad, knots[0]]])
    x = x[place]()
    h.raises("call", ValueError, lambda: p(x))
    h.raises("value", ValueError, lambda: p.value(1, x))


def invalid(h):
    """NaN coefficient at any place, knots out of order or NaN anywhere,
    shape mismatches of knots, dx or symm"""
    P = h.lib.poly.PiecewiseLegendrePoly
    data = h.reals('c', (2, 3), -2, 2)
    k = h.choice('what', ['nan', 'order', 'nan knot', 'few', 'many', 'symm',
                          '2d'])
    knots = [-1.0, 0.0, .5, 2.0]
    if k == 'nan':
        i = h.choice('i', list(range(6)))
        d = data.copy()
        d[i // 3, i % 3] = float('nan')
        h.raises("NaN", ValueError, lambda: P(d, h.arr(knots)))
        good = P(data, h.arr(knots))
        h.raises("NaN, same knots", ValueError,
                 lambda: P(d, good, symm=h.arr(0)))
    elif k == 'order':
        e = h.reals('e', 4, -3, 3)
        i = h.choice('i', [0, 1, 2])
        h.assume(e[i + 1] < e[i])
        h.raises("order", ValueError, lambda: P(data, e))
    elif k == 'nan knot':
        i = h.choice('i', [0, 1, 2, 3])
        knots[i] = float('nan')
        h.raises("NaN knot", ValueError, lambda: P(data, h.arr(knots)))
    elif k == 'few':
        h.raises("knots", ValueError, lambda: P(data, h.arr(knots[:3])))
    elif k == 'many':
        h.raises("knots", ValueError, lambda: P(data, h.arr(knots + [3.0])))
    elif k == '2d':
        h.raises("knots", ValueError, lambda: P(data, h.arr([knots])))
    else:
        h.raises("symm", ValueError, lambda: P(data, h.arr(knots),
                                               symm=h.arr([1.0])))


def whole_numbers(h):
    """coefficients and knots given as whole numbers, points as reals or whole
    numbers"""
    knots = h.choice('knots', [[-1, 1], [-1, 0, 2]])
    fs = h.choice('function axes', [(), (2,)])
    data = h.ints('c', (3, len(knots) - 1) + fs, -9, 9)
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    k = [float(x) for x in knots]
    if h.choice('whole points', [True, False]):
        pts = h.choice('points', [[0], [1, -1], [0, 1]])
        x = h.arr(pts) if len(pts) > 1 else pts[0]
    else:
        pts = _x(h, knots, (1,))
        x = pts[0]
    want = [value(h, 1.0 * data, k, t, i) for i in indices(fs) for t in pts]
    h.eq("values", p(x), h.arr(want).reshape(
        fs + ((len(pts),) if len(pts) > 1 else ())))
    if fs:
        h.eq("value", p.value(1, x), p[1](x))


def large(h):
    """sizes as in real use: orders 10 and 16, 24 (thorough: 40) segments, up
    to 20 functions, fixed coefficients but for one arbitrary one per segment;
    70 points of all segments, and an arbitrary point of a segment"""
    order, nf = h.choice('order, functions', [(10, 20), (16, 5), (10, None)])
    nseg = h.pick(24, 40)
    ks = many_knots(nseg)
    fs = () if nf is None else (nf,)
    data = mixed(h, 'c', (order, nseg) + fs,
                 [(i % order, i) + (i % nf,) * len(fs) if nf else
                  (i % order, i) for i in range(nseg)])
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(ks))
    j = h.choice('segment', [None, 0, nseg // 2, nseg - 1])
    if j is None:
        pts = ks + numbers(70 - len(ks), 3, -1, 1, 9)
        segs = [max(i for i in range(nseg) if i == 0 or ks[i] <= x)
                for x in pts]
    else:
        x = h.real('x', 0, 1)
        h.assume(x <= 1 - 2.**-20)
        pts, segs = [ks[j] + x * (ks[j + 1] - ks[j])], [j]
    ls = [None] if nf is None else [0, 1, nf // 2, nf - 1]
    got = p(h.arr(pts))
    h.check("shape", tuple(got.shape) == fs + (len(pts),))
    for l in ls:
        for k, (x, i) in enumerate(zip(pts, segs)):
            at = (k,) if l is None else (l, k)
            c = [data[(m, i) + (() if l is None else (l,))]
                 for m in range(order)]
            h.eq("value", got[at], piece(h, c, ks[i], ks[i + 1], x),
                 tol=1e-8, stol=1e-9)
    if nf:
        h.eq("several at once", p.value(h.arr([[l] for l in ls]),
                                           h.arr(pts)),
             h.arr([got[l] for l in ls]), tol=1e-8, stol=1e-9)
        for l in ls:
            h.eq("one at all points", p.value(l, h.arr(pts)), got[l],
                 tol=1e-8, stol=1e-9)
        h.eq("selection", p[1:nf:2](h.arr(pts[-3:])),
             got[1:nf:2][:, -3:], tol=1e-8, stol=1e-9)


def ranks(h):
    """points of rank 3 and 4 (up to 8 fixed points and an arbitrary one), one
    function, 2, and 2x2 of them, two segments; value() with indices of ranks 0
    to 3 broadcast against points of these ranks"""
    fs = h.choice('function axes', [(), (2,), (2, 2)])
    xs = h.choice('point axes', [(2, 2, 2), (3, 1, 2), (1, 2, 1, 2),
                                 (2, 0, 3), (1, 1, 1)])
    knots = [-1.0, 0.0, 1.0]
    data = mixed(h, 'c', (3, 2) + fs, [(2, 0) + tuple(n - 1 for n in fs)])
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots))
    pts = numbers(len(indices(xs)), 5, -1, 1, 7)
    if pts:
        pts[-1] = h.real('x', -1, 1)
    x = h.arr(pts).reshape(xs)
    got = p(x)
    h.check("shape", tuple(got.shape) == fs + xs)
    if not pts:
        return
    want = [value(h, data, knots, t, i) for i in indices(fs) for t in pts]
    h.eq("values", got, h.arr(want).reshape(fs + xs))
    if fs != (2,):
        return
    for l in (1, [0, 1][:xs[-1]], [[[1]], [[0]], [[-2]]][:xs[-3]],
              [[1]], -1):
        l = h.arr(l) if isinstance(l, list) else l
        shape = h.np.broadcast_shapes(h.np.shape(l), xs)
        res = p.value(l, x)
        h.check("shape", tuple(res.shape) == shape)
        ls = h.np.broadcast_to(h.arr(l), shape)
        pos = h.np.broadcast_to(
            h.arr(list(range(len(pts)))).reshape(xs), shape)
        h.eq("value()", res, h.arr(
            [want[(int(ls[i]) % 2) * len(pts) + int(pos[i])]
             for i in indices(shape)]).reshape(shape))


def out_of_range(h):
    """indices of functions beyond the number of functions are rejected by
    selection and value(), scalar or in a list or array, below and above"""
    n = h.choice('functions', [1, 2, 3])
    knots = [-1.0, 0.0, 1.0]
    p, _ = poly(h, 2, knots, (n,))
    l = h.choice('l', [n, n + 1, -n - 1, -n - 2, 2 * n, 2**40, -2**40])
    x = h.real('x', -1, 1)
    h.raises("p[l]", IndexError, lambda: p[l])
    h.raises("p[[l]]", IndexError, lambda: p[[0, l]])
    h.raises("p[array]", IndexError, lambda: p[h.arr([l, 0])])
    h.raises("value(l, x)", IndexError, lambda: p.value(l, x))
    h.raises("value([l], x)", IndexError, lambda: p.value(h.arr([0, l]), x))
    h.raises("value(l, [x])", IndexError, lambda: p.value(l, h.arr([x, x])))


def select_many(h):
    """selection out of 5 functions by arrays of whole numbers (also negative,
    also of rank 2), boolean masks, and slices of both directions"""
    knots = [-1.0, 0.0, 1.0]
    symm = [1, -1, 0, -1, 1]
    data = mixed(h, 'c', (2, 2, 5), [(1, 0, 3), (0, 1, 4)])
    p = h.lib.poly.PiecewiseLegendrePoly(data, h.arr(knots), symm=h.arr(symm))
    x = h.real('x', -1, 1)
    sel = h.choice('sel', [
        [3, -1, 0], [-5, 4], [[3, 1], [-2, 2]], [True, False, True, False, True],
        [False, False, False, True, False], slice(-2, None), slice(None, 2),
        slice(4, 1, -1), slice(None, None, 2), slice(-1, None, -2),
        slice(3, 100), slice(2, 2)])
    if not isinstance(sel, slice) and h.choice('array', [False, True]):
        sel = h.arr(sel)
    q = p[sel]
    all_ = h.arr([value(h, data, knots, x, (l,)) for l in range(5)])
    h.eq("values", q(x), all_[sel])
    h.eq("parity", q.symm, h.arr(symm)[sel])
    h.check("shape", tuple(q.shape) == tuple(h.arr(symm)[sel].shape))


HARNESSES = [(ranks, {}), (out_of_range, {}), (select_many, {}), (evaluate, {}), (at_knots, {}), (shapes, {}), (select, {}),
             (value_at, {}), (dx_given, {}), (outside, dict(overflow=False)),
             (invalid, dict(overflow=False)),
             (whole_numbers, {}), (large, {})]
