"""Shared pieces of harnesses."""
import itertools


def indices(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def free_knots(h, nseg, tag='k', lo=-2, step=.05):
    """arbitrary increasing knots"""
    k = [h.real(tag + '0', lo, 2)]
    for i in range(nseg):
        k.append(k[-1] + h.real('%s.d%d' % (tag, i), step, 2))
    return k


def unit_knots(h, nseg, tag='k', gap=.05):
    """increasing knots from -1 to 1 with arbitrary interior knots"""
    ks = [-1.0]
    for i in range(nseg - 1):
        x = h.real('%s%d' % (tag, i + 1), -1, 1)
        h.assume(x >= ks[-1] + gap)
        ks.append(x)
    if nseg > 1:
        h.assume(ks[-1] <= 1 - gap)
    ks.append(1.0)
    return ks


def poly(h, order, knots, shape=(), tag='c', symm=None, bound=2, **kw):
    """piecewise polynomial with arbitrary coefficients, and these"""
    nseg = len(knots) - 1
    data = h.reals(tag, (order, nseg) + tuple(shape), -bound, bound)
    p = h.lib.poly.PiecewiseLegendrePoly(
        data, h.arr(knots), symm=None if symm is None else h.arr(symm), **kw)
    return p, data


def legendre(n, x):
    """P_0 .. P_{n-1} at x by the textbook recurrence"""
    out = [1 + 0 * x, x]
    for k in range(1, n):
        out.append(((2*k + 1) * x * out[k] - k * out[k - 1]) / (k + 1))
    return out[:n]


def segment(h, knots, x):
    """index of the segment, by definition"""
    n = len(knots) - 1
    for i in range(n - 1):
        if h.truth(x < knots[i + 1]):
            return i
    return n - 1


def piece(h, c, lo, hi, x):
    """value of normalised Legendre sum with coefficients c on [lo, hi]"""
    t = (2 * x - (lo + hi)) / (hi - lo)
    return h.np.sqrt(2 / (hi - lo)) * sum(
        a * p for a, p in zip(c, legendre(len(c), t)))


def value(h, data, knots, x, idx=()):
    """value of the piecewise polynomial at a single point, by definition"""
    i = segment(h, knots, x)
    c = [data[(k, i) + tuple(idx)] for k in range(data.shape[0])]
    return piece(h, c, knots[i], knots[i + 1], x)


# -------- polynomials as lists of monomial coefficients, lowest first

def leg_mono(n):
    """monomial coefficients of P_0 .. P_{n-1} (exact fractions as pairs)"""
    from fractions import Fraction as Fr
    ps = [[Fr(1)], [Fr(0), Fr(1)]]
    for k in range(1, n):
        a = [Fr(0)] + [Fr(2*k + 1, k + 1) * c for c in ps[k]]
        for i, c in enumerate(ps[k - 1]):
            a[i] -= Fr(k, k + 1) * c
        ps.append(a)
    return ps[:n]


def mono_in_t(h, c):
    """monomial coefficients in the local variable of a Legendre sum"""
    out = [0] * len(c)
    for k, p in enumerate(leg_mono(len(c))):
        for j, f in enumerate(p):
            if f:
                out[j] = out[j] + c[k] * h.num(f)
    return out


def diff_mono(c, n=1):
    for _ in range(n):
        c = [j * c[j] for j in range(1, len(c))]
    return c or [0]


def eval_mono(c, x):
    r = 0
    for a in reversed(c):
        r = r * x + a
    return r


def mono_to_leg(h, c):
    """Legendre coefficients of a polynomial given by monomials"""
    c = list(c)
    n = len(c)
    ps = leg_mono(n)
    out = [0] * n
    for k in range(n - 1, -1, -1):
        a = c[k] * h.num(1 / ps[k][k])
        out[k] = a
        for j in range(k + 1):
            if ps[k][j]:
                c[j] = c[j] - a * h.num(ps[k][j])
    return out


def shift_mono(c, m, s):
    """coefficients in t of the polynomial c at x = m + s*t"""
    n = len(c)
    out = [0] * n
    # Horner in polynomial arithmetic
    res = [0]
    for a in reversed(c):
        new = [0] * (len(res) + 1)
        for i, r in enumerate(res):
            new[i] = new[i] + r * m
            new[i + 1] = new[i + 1] + r * s
        new[0] = new[0] + a
        res = new
    for i in range(n):
        out[i] = res[i]
    return out


def smooth_data(h, c, knots, order=None):
    """coefficients (order, nseg) representing one global polynomial"""
    order = order or len(c)
    cols = []
    for lo, hi in zip(knots[:-1], knots[1:]):
        leg = mono_to_leg(h, shift_mono(list(c) + [0] * (order - len(c)),
                                        (lo + hi) / 2, (hi - lo) / 2))
        norm = h.np.sqrt((hi - lo) / 2)
        cols.append([a * norm for a in leg])
    return [[cols[i][k] for i in range(len(cols))] for k in range(order)]


# -------- expansions and bases without any computation

def fake_sve(h, size, order=2, knots=(-1.0, 1.0), kernel=None, s=None,
             parity=1, tag='', symm=True, eps=0.0, knots_v=None):
    """expansion with arbitrary coefficients (of alternating parity if so
    asked for), on the same knots for both variables unless told otherwise"""
    symm = [parity * (-1)**l for l in range(size)] if symm else None
    datas = []
    for nm, kn in ('u', knots), ('v', knots_v or knots):
        nseg = len(kn) - 1
        d = h.reals(tag + nm, (order, nseg, size), -2, 2)
        if symm is not None:
            # mirror the pieces: c_k(segment i) == (-1)^k sign c_k(mirrored)
            rows = []
            for k in range(order):
                row = []
                for i in range(nseg):
                    j = nseg - 1 - i
                    cols = []
                    for l in range(size):
                        sg = symm[l] * (-1)**k
                        if i > j:
                            cols.append(d[k, i, l])
                        elif i < j:
                            cols.append(sg * d[k, j, l])
                        else:
                            cols.append(d[k, i, l] if sg == 1 else 0.0)
                    row.append(cols)
                rows.append(row)
            d = h.arr(rows)
        datas.append(d)
    P = h.lib.poly.PiecewiseLegendrePoly
    sy = None if symm is None else h.arr(symm)
    u = P(datas[0], h.arr(list(knots)), symm=sy)
    v = P(datas[1], h.arr(list(knots_v or knots)), symm=sy)
    if s is None:
        s = h.arr([2.0**-l for l in range(size)])
    if kernel is None:
        kernel = h.lib.LogisticKernel(8.0)
    return h.lib.sve.SVEResult(u, s, v, kernel, eps)


def fake_basis(h, statistics, size, beta=4.0, wmax=2.0, **kw):
    kernel = kw.pop('kernel', None)
    if kernel is None:
        kernel = h.lib.LogisticKernel(beta * wmax)
    res = fake_sve(h, size, kernel=kernel, **kw)
    return h.lib.FiniteTempBasis(statistics, beta, wmax, 0.0, kernel=kernel,
                                 sve_result=res)


# -------- sizes as in real use, most entries being fixed numbers

def numbers(n, seed=1, lo=-2, hi=2, bits=6):
    """fixed dyadic numbers in [lo, hi], no two neighbours alike"""
    out, x = [], 12345 + 7919 * seed
    for _ in range(n):
        x = (1103515245 * x + 12345) % 2**31
        out.append(lo + (hi - lo) * ((x >> 10) % 2**bits) / 2.0**bits)
    return out


def mixed(h, tag, shape, free, seed=1, bound=2):
    """array of fixed numbers with arbitrary ones at the places given"""
    n = 1
    for s in shape:
        n *= s
    flat = numbers(n, seed, -bound, bound)
    idx = {i: k for k, i in enumerate(indices(shape))}
    for j, i in enumerate(free):
        flat[idx[tuple(i)]] = h.real('%s%d' % (tag, j), -bound, bound)
    return h.arr(flat).reshape(shape)


def many_knots(nseg):
    """knots from -1 to 1 on segments of lengths that are powers of two, by
    repeatedly halving segments"""
    ks = [-1.0, 0.0, 1.0]
    i = 0
    while len(ks) <= nseg:
        gaps = [b - a for a, b in zip(ks[:-1], ks[1:])]
        big = max(gaps)
        where = [k for k, g in enumerate(gaps) if g == big]
        k = where[-1] if i % 3 else where[0]
        ks.insert(k + 1, (ks[k] + ks[k + 1]) / 2)
        i += 1
    return ks


def exact_orthogonal(h, n, turn=0):
    """fixed orthogonal n x n matrix with exactly represented entries"""
    had = {1: [[1.0]]}
    for k in (2, 4, 8, 16):
        b = had[k // 2]
        had[k] = [r + r for r in b] + [r + [-x for x in r] for r in b]
    out = [[0.0] * n for _ in range(n)]
    at = 0
    while at < n:
        k = 16 if n - at >= 16 else 4 if n - at >= 4 else 1
        for i in range(k):
            for j in range(k):
                out[at + i][at + j] = had[k][i][j] / {16: 4, 4: 2, 1: 1}[k]
        at += k
    # spread the blocks over the matrix
    step = next(s for s in (7, 11, 13, 1) if n % s or n == 1)
    rows = [(i * step + turn) % n for i in range(n)]
    cols = [(i * step) % n for i in range(n)]
    if len(set(rows)) < n or len(set(cols)) < n:
        rows = cols = list(range(n))
    return h.arr([[out[i][j] for j in cols] for i in rows])
