"""Singular value decompositions and how they are chosen."""
from .c14 import dense
TOL = dict(tol=1e-8, stol=1e-9)


def _factors(h, m, n, zeros=0):
    k = min(m, n)
    s = []
    for i in range(k - zeros):
        x = h.real('s%d' % i, .0625, 4)
        if s:
            h.assume(x <= s[-1])
        s.append(x)
    s += [0.0] * zeros
    u, v = h.orthonormal('U', m, k), h.orthonormal('V', n, k)
    return u, h.arr(s), v


def _valid(h, a, got, m, n, known, what=''):
    u, s, v = got
    k = s.shape[0]
    h.check("sizes" + what, tuple(u.shape) == (m, k)
            and tuple(v.shape) == (n, k) and tuple(s.shape) == (k,))
    h.eq("product" + what, (u * s) @ v.T, a, **TOL)
    h.check("descending" + what, [s[i] >= s[i + 1] for i in range(k - 1)]
            + [s[i] >= 0 for i in range(k)])
    h.eq("values" + what, s, known[:k], **TOL)
    h.check("complete" + what, k == min(m, n) or k >= sum(
        1 for x in known if type(x) is not float))


def decomposition(h):
    """shapes 1x1 to 3x3 and 4x2, 2x4 of arbitrary factors with singular
    values in [1/16, 4], all strategies and a wrong one, any number asked for"""
    svd = h.mod('svd')
    m, n = h.choice('shape', [(3, 2), (2, 3), (2, 2), (1, 3), (3, 1), (1, 1)]
                    + h.pick([], [(3, 3), (4, 2), (2, 4)]))
    f = _factors(h, m, n)
    a = (f[0] * f[1]) @ f[2].T
    h.svd_known(a, *f)
    strat = h.choice('strategy', ['fast', 'default', 'accurate', 'double',
                                  None, 'other'])
    hint = h.choice('hint', [None, min(m, n), min(m, n) + 2, max(m, n)])
    if strat == 'other':
        h.raises("strategy", ValueError,
                 lambda: svd.compute(a, hint, strategy='slow'))
        h.raises("strategy, no hint", ValueError,
                 lambda: svd.compute(a, strategy=''))
        return
    if strat == 'double':
        a = a.astype(svd.MAX_DTYPE)
    kw = dict(strategy=strat) if strat in ('fast', 'default', 'accurate') \
        else {}
    got = svd.compute(a, **kw) if hint is None else svd.compute(a, hint, **kw)
    _valid(h, a, got, m, n, f[1])


def deficient(h):
    """matrices of rank one, with one or two asked for"""
    svd = h.mod('svd')
    m, n = h.choice('shape', [(3, 2), (2, 3), (2, 2)])
    f = _factors(h, m, n, 1)
    a = (f[0] * f[1]) @ f[2].T
    h.svd_known(a, *f)
    strat = h.choice('strategy', ['fast', 'default', 'accurate'])
    hint = h.choice('hint', [1, 2])
    u, s, v = svd.compute(a, hint, strat)
    k = s.shape[0]
    h.check("sizes", tuple(u.shape) == (m, k) and tuple(v.shape) == (n, k))
    h.check("number", 1 <= k <= 2)
    h.eq("product", (u * s) @ v.T, a, **TOL)


class Patched:
    def __init__(self, obj, **kw):
        self.obj, self.kw = obj, kw

    def __enter__(self):
        self.old = {k: getattr(self.obj, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.obj, k, v)

    def __exit__(self, *exc):
        for k, v in self.old.items():
            setattr(self.obj, k, v)


def routine(h):
    """any codes in [-3, 3] returned by the Jacobi routine, tall and wide"""
    svd = h.mod('svd')
    m, n = h.choice('shape', [(3, 2), (2, 3), (2, 2)])
    k = min(m, n)
    info = h.int('info', -3, 3)
    denorm = h.int('denormal', 0, 1)
    us, ss = h.reals('u', (max(m, n), k), -1, 1), h.reals('s', (k,), 0, 2)
    vs = h.reals('v', (k, k), -1, 1)
    seen = []

    def gejsv(a, *args, **kw):
        seen.append((a, args, kw))
        return (ss, us, vs, h.arr([1.0] * 7), h.arr([k, k, denorm]),
                info)
    a = h.reals('a', (m, n), -2, 2)
    with Patched(svd, _lapack_dgejsv=gejsv):
        if h.truth(info < 0):
            h.raises("wrong parameter", ValueError,
                     lambda: svd.compute(a, None, 'accurate'))
            return
        (u, s, v), warns = h.warned(lambda: svd.compute(a, None, 'accurate'))
    h.check("one call", len(seen) == 1)
    h.eq("matrix", seen[0][0], a if m >= n else a.T)
    h.eq("values", s, ss)
    h.eq("left", u, us if m >= n else vs)
    h.eq("right", v, vs if m >= n else us)
    want = int(h.truth(denorm != 0)) + int(h.truth(info > 0))
    h.check("warnings", len(warns) == want
            and all(issubclass(w, UserWarning) for w in warns))


def missing(h):
    """without the Jacobi routine the full decomposition is used instead"""
    svd = h.mod('svd')
    m, n = h.choice('shape', [(3, 2), (2, 3)])
    f = _factors(h, m, n)
    a = (f[0] * f[1]) @ f[2].T
    h.svd_known(a, *f)
    with Patched(svd, _lapack_dgejsv=None):
        got, warns = h.warned(lambda: svd.compute(a, None, 'accurate'))
        other, none = h.warned(lambda: svd.compute(a, None, 'default'))
    h.check("warned", len(warns) == 1 and issubclass(warns[0], UserWarning))
    h.check("not warned", not none)
    _valid(h, a, got, m, n, f[1])


def choice(h):
    """any eps in [1e-40, 1] or none, any way of asking for a precision, any
    or no strategy; two blocks with two arbitrary values each"""
    svd, sve = h.mod('svd'), h.mod('sve')
    eps = None if h.choice('no eps', [False, True]) \
        else h.real('eps', 1e-40, 1)
    best = svd.MAX_DTYPE
    work = h.choice('work', [None, 'double', 'best'])
    dtype = {None: None, 'double': h.choice('as', [float, 'float64']),
             'best': best}[work]
    strat = h.choice('strategy', [None, 'fast', 'default', 'accurate'])
    order = h.choice('order', [None, 5])
    keep = h.choice('keep', [None, 1])
    calls, made = [], []
    vals = [h.real('s%d' % i, 0, 2) for i in range(2)]
    h.assume([vals[0] >= .5, vals[1] <= vals[0]])
    tiny = h.choice('scale of cutoff', [None, 2.**-10])
    out = object()

    class Strategy:
        nsvals_hint = 7

        def __init__(self, *args, **kw):
            made.append((args, kw))
            self.matrices = [h.arr([[1.0, 2.0]]), h.arr([[3.0]])]

        def postprocess(self, u, s, v, dtype=None):
            made.append((u, s, v, dtype))
            return out

    def compute(a, *args, **kw):
        calls.append((a, args, kw))
        i = len(calls) - 1
        s = h.arr([vals[0], vals[1] * scale]) if i == 0 else h.arr([.25])
        n = s.shape[0]
        return h.np.zeros((1, n)), s, h.np.zeros((2, n))
    # where the second value lies relative to the cutoff
    if work is None:
        double = eps is not None and h.truth(eps >= 1e-8)
    else:
        double = work == 'double'
    unit = 2.**-52 if double else float(svd.finfo(best).eps)
    scale = 32 * unit if tiny is None else 4 * tiny
    kw = {} if tiny is None else dict(cutoff=2 * tiny)
    for name, x in [('n_gauss', order), ('n_sv', keep),
                    ('svd_strat', strat), ('work_dtype', dtype)]:
        if x is not None:
            kw[name] = x
    K = h.lib.LogisticKernel(2.0)
    # thresholds are meant up to rounding
    root = 1e-8 if double else unit**.5
    if eps is not None:
        h.assume(h.either(eps >= root * 1.001, eps <= root * .999,
                          eps == 1e-8))
    with Patched(svd, compute=compute):
        got, warns = h.warned(lambda: sve.compute(
            K, eps, sve_strat=Strategy, **kw))
    h.check("result", got is out and len(made) == 2)
    args, mkw = made[0]
    bound = dict(zip(('K', 'eps', 'n_gauss', 'dtype'), args), **mkw)
    h.check("kernel", bound['K'] is K)
    h.check("order", bound.get('n_gauss') == order)
    h.check("precision", bound['dtype'] == (h.np.dtype(float) if double
                                            else best))
    acc = bound['eps']
    h.check("accuracy", [acc >= root * .999, acc <= root * 1.001])
    h.check("accuracy for precision", acc * acc >= unit * .4)
    h.check("blocks", len(calls) == 2)
    low = eps is not None and h.truth(eps < root)
    want = strat or ('accurate' if low else 'fast')
    for (a, ar, ckw), shape in zip(calls, [(1, 2), (1, 1)]):
        c = dict(zip(('n_sv_hint', 'strategy'), ar), **ckw)
        h.check("matrix", tuple(a.shape) == shape)
        h.check("strategy", c.get('strategy', 'fast') == want)
        h.check("hint", c.get('n_sv_hint') in (None, 7))
    h.check("warning", (len(warns) > 0) == (low and strat is None))
    u, s, v, dt = made[1]
    h.check("data type", h.np.dtype(dt) == h.np.dtype(float))
    # default cutoff: small multiple of the unit, compared with the largest
    if keep == 1:
        h.check("number kept", s[0].shape[0] == 1 and s[1].shape[0] == 0)
        return
    n0 = s[0].shape[0]
    cut = 2 * unit if tiny is None else 2 * tiny
    if tiny is None:
        # "a small multiple": one to eight
        if h.truth(vals[1] * scale >= 8.001 * unit * vals[0]):
            h.check("kept", n0 == 2)
        if h.truth(vals[1] * scale <= .999 * unit * vals[0]):
            h.check("cut", n0 == 1)
    else:
        h.check("cutoff given", (n0 == 2) == h.truth(
            vals[1] * scale > cut * vals[0]))
    h.check("other block", s[1].shape[0] == 1)
    h.check("columns", u[0].shape[1] == n0 and v[0].shape[1] == n0)


def large(h):
    """matrices of sizes 40 x 30, 30 x 40, 24 x 24 and 70 x 12 of fixed dense
    factors and some arbitrary singular values, all strategies"""
    svd = h.mod('svd')
    m, n = h.choice('shape', [(40, 30), (30, 40), (24, 24), (70, 12)])
    a, u, s, v = dense(h, 'A', m, n)
    strat = h.choice('strategy', ['fast', 'default', 'accurate', 'double'])
    hint = h.choice('hint', [None, min(m, n)])
    if strat == 'double':
        a = a.astype(svd.MAX_DTYPE)
    kw = {} if strat == 'double' else dict(strategy=strat)
    gu, gs, gv = svd.compute(a, **kw) if hint is None \
        else svd.compute(a, hint, **kw)
    k = gs.shape[0]
    h.check("sizes", tuple(gu.shape) == (m, k) and tuple(gv.shape) == (n, k))
    h.check("complete", k == min(m, n))
    h.eq("values", gs, s[:k], **TOL)
    h.eq("product", (gu * gs) @ gv.T, a, **TOL)


HARNESSES = [(decomposition, {}), (deficient, {}), (routine, {}),
             (missing, {}), (choice, dict(budget=100)),
             (large, {})]
