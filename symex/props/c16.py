"""Truncation of singular value expansions."""
from .c25 import Patched
from .common import fake_sve, numbers


def _truncate(h, u, s, v, rtol=0.0, lmax=None):
    """truncation step of the SVE, or the whole driver if it has no such
    separate step"""
    sve, svd = h.mod('sve'), h.mod('svd')
    step = getattr(sve, '_truncate', None)
    if step is not None:
        return step(u, s, v, rtol, lmax)

    class Strategy:
        nsvals_hint = 9
        matrices = list(range(len(s)))

        def __init__(self, K, eps, **kw):
            pass

        def postprocess(self, u, s, v, dtype=None):
            return u, s, v
    with Patched(svd, compute=lambda m, *a, **kw: (u[m], s[m], v[m])):
        return sve.compute(h.lib.LogisticKernel(1.0), 1e-6, rtol, lmax, 4,
                           work_dtype=float, sve_strat=Strategy,
                           svd_strat='default')


def _blocks(h, sizes, equal=False):
    """descending non-negative values per block, arbitrary across blocks"""
    out = []
    for b, n in enumerate(sizes):
        s = []
        for i in range(n):
            x = h.real('s%d%d' % (b, i), 0, 4)
            if s:
                h.assume(x <= s[-1])
            s.append(x)
        out.append(s)
    return out


def _factors(h, sizes, name):
    return [h.reals('%s%d' % (name, b), (2, n), -1, 1)
            for b, n in enumerate(sizes)]


def _above(h, x, y):
    return h.truth(x > y)


def _check_cut(h, u, s, v, keep, got):
    gu, gs, gv = got
    h.check("number of blocks", len(gu) == len(gs) == len(gv) == len(s))
    for b in range(len(s)):
        n = sum(keep[b])
        h.check("leading ones of a block", keep[b] == [True] * n +
                [False] * (len(keep[b]) - n))
        h.check("count", tuple(gs[b].shape) == (n,)
                and tuple(gu[b].shape) == (2, n)
                and tuple(gv[b].shape) == (2, n))
        for i in range(n):
            h.eq("value", gs[b][i], s[b][i])
            h.eq("left", gu[b][:, i], u[b][:, i])
            h.eq("right", gv[b][:, i], v[b][:, i])


def tolerance(h):
    """one block of up to 4 or two blocks of up to 2+2 or 3+1 arbitrary values,
    any tolerance in [0, 1]"""
    sizes = h.choice('sizes', [(1,), (4,), (2, 2), (1, 3), (3, 1)])
    s = _blocks(h, sizes)
    u, v = _factors(h, sizes, 'u'), _factors(h, sizes, 'v')
    rtol = h.choice('rtol', [0, 1, h.real('tol', 0, 1)])
    got = _truncate(h, u, [h.arr(x) for x in s], v, rtol)
    top = s[0][0]
    for x in s[1:]:
        if h.truth(x[0] > top):
            top = x[0]
    keep = [[_above(h, x, rtol * top) for x in b] for b in s]
    _check_cut(h, u, s, v, keep, got)


def number(h):
    """the same with a maximum number of 0 to 5, values may coincide"""
    sizes = h.choice('sizes', [(1,), (3,), (2, 1), (2, 2)])
    s = _blocks(h, sizes)
    u, v = _factors(h, sizes, 'u'), _factors(h, sizes, 'v')
    lmax = h.choice('lmax', [0, 1, 2, 3, 5])
    rtol = h.choice('rtol', [0, .25])
    got = _truncate(h, u, [h.arr(x) for x in s], v, rtol, lmax)
    flat = [x for b in s for x in b]
    top = flat[0]
    for x in flat[1:]:
        if h.truth(x > top):
            top = x
    keep = []
    for b in s:
        row = []
        for x in b:
            # how many are at least as large, itself included
            rank = sum(1 for y in flat if h.truth(y >= x))
            row.append(rank <= lmax and _above(h, x, rtol * top))
        keep.append(row)
    total = sum(x.size for x in got[1])
    h.check("never more", total <= lmax)
    for bi, b in enumerate(s):
        for x, k in zip(b, keep[bi]):
            for y, k2 in [(y, k2) for c, kk in zip(s, keep)
                          for y, k2 in zip(c, kk)]:
                if k != k2:
                    h.check("equal values stay together",
                            not h.truth(x == y))
    _check_cut(h, u, s, v, keep, got)


def defaults(h):
    """without limits every non-zero value is kept"""
    s = [h.real('s0', 1, 2), h.real('s1', .25, 1)]
    u, v = _factors(h, [2], 'u'), _factors(h, [2], 'v')
    got = _truncate(h, u, [h.arr(s)], v)
    _check_cut(h, u, [s], v, [[True, True]], got)
    got = _truncate(h, u, [h.arr(s)], v, lmax=7)
    _check_cut(h, u, [s], v, [[True, True]], got)


def invalid(h):
    """tolerances outside [0, 1], NaN; negative or fractional numbers"""
    s = [h.arr([h.real('s0', 1, 2), h.real('s1', .25, 1)])]
    u, v = _factors(h, [2], 'u'), _factors(h, [2], 'v')
    what = h.choice('what', ['low', 'high', 'nan', 'negative', 'fraction'])
    if what == 'low':
        kw = dict(rtol=h.real('r', -4, -1e-9))
    elif what == 'high':
        kw = dict(rtol=h.real('r', 1 + 1e-9, 9))
    elif what == 'nan':
        kw = dict(rtol=float('nan'))
    elif what == 'negative':
        kw = dict(lmax=h.int('l', -9, -1))
    else:
        kw = dict(lmax=h.int('l', 0, 3) + h.real('f', 1e-6, 1 - 1e-6))
    h.raises("rejected", ValueError, lambda: _truncate(h, u, s, v, **kw))


def _sve(h, size):
    s = [h.real('s0', .25, 4)]
    for i in range(1, size):
        s.append(h.real('s%d' % i, 0, 4))
        h.assume(s[-1] <= s[-2])
    eps = h.real('own eps', 0, 1)
    return fake_sve(h, size, order=2, s=h.arr(s), eps=eps), s, eps


def part(h):
    """expansions of 1 to 4 triples with arbitrary values, any eps in [0, 1] or
    that of the expansion, all sizes or none given"""
    size = h.choice('size', [1, 2, 4])
    res, s, own = _sve(h, size)
    eps = h.choice('eps', [None, 0.0, 1.0, 'any'])
    if eps == 'any':
        eps = h.real('eps', 0, 1)
    m = h.choice('max_size', [None, 0, 1, 2, 3, 4, 9])
    u, sv, v = res.part(eps, m)
    e = own if eps is None else eps
    n = sum(1 for x in s if h.truth(x >= e * s[0]))
    if m is not None:
        n = min(n, m)
    h.check("size", tuple(sv.shape) == (n,) and u.size == n and v.size == n)
    h.eq("values", sv, h.arr(s[:n]))
    h.eq("left", u.data, res.u.data[:, :, :n])
    h.eq("right", v.data, res.v.data[:, :, :n])
    h.eq("parity", u.symm, res.u.symm[:n])
    h.eq("parity right", v.symm, res.v.symm[:n])
    h.eq("knots", u.knots, res.u.knots)
    h.check("original", res.s.size == size and res.u.size == size)


def unpack(h):
    """iterating gives the whole expansion"""
    res, s, own = _sve(h, 3)
    u, sv, v = res
    h.check("all", u is res.u and v is res.v and sv is res.s)


def large(h):
    """one, two and three blocks of 40 values in total, fixed but for two
    arbitrary ones; tolerances and numbers anywhere"""
    sizes = h.choice('sizes', [(40,), (20, 20), (12, 27, 1)])
    j = h.choice('free', [1, 7])
    s = []
    for b, n in enumerate(sizes):
        x = [2.0**-(i + b / 4) for i in range(n)]
        if b < 2 and n > j + 1:
            x[j] = h.real('s%d' % b, x[j + 1], x[j - 1])
        s.append(x)
    u, v = [[h.arr([numbers(n, 3 * b + q), numbers(n, 3 * b + q + 7)])
             for b, n in enumerate(sizes)] for q in (0, 1)]
    lmax = h.choice('lmax', h.pick([None, 1, 17, 39, 100],
                                    [None, 0, 1, 17, 39, 40, 100]))
    rtol = h.choice('rtol', h.pick([0, 2.0**-12], [0, 2.0**-12, 2.0**-30]))
    got = _truncate(h, u, [h.arr(x) for x in s], v, rtol, lmax)
    flat = [x for b in s for x in b]
    keep = []
    for b in s:
        keep.append([_above(h, x, rtol) and (lmax is None or sum(
            1 for y in flat if h.truth(y >= x)) <= lmax) for x in b])
    _check_cut(h, u, s, v, keep, got)


def large_part(h):
    """expansions of 30 triples"""
    size = 30
    s = [2.0**-i for i in range(size)]
    j = h.choice('free', [1, 12, 28])
    s[j] = h.real('s', s[j + 1], s[j - 1])
    own = h.choice('own', [0.0, 2.0**-20])
    res = fake_sve(h, size, order=1, s=h.arr(s), eps=own)
    eps = h.choice('eps', [None, 2.0**-9, 1e-30])
    m = h.choice('max_size', [None, 1, 10, 20, 30, 99])
    u, sv, v = res.part(eps, m)
    e = own if eps is None else eps
    n = sum(1 for x in s if h.truth(x >= e * s[0]))
    if m is not None:
        n = min(n, m)
    h.check("size", tuple(sv.shape) == (n,) and u.size == n and v.size == n)
    h.eq("values", sv, h.arr(s[:n]))
    h.eq("left", u.data, res.u.data[:, :, :n])
    h.eq("right", v.data, res.v.data[:, :, :n])
    h.eq("parity", u.symm, res.u.symm[:n])


HARNESSES = [(tolerance, {}), (number, {}), (defaults, {}), (invalid, {}),
             (part, {}), (unpack, {}),
             (large, {}), (large_part, {})]
