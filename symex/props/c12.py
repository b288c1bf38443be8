"""Validation of reduced Matsubara frequencies wherever they are accepted."""
from .common import poly, fake_basis

BIG = 2**61


def _flt(h, n):
    """integer as floating point scalar"""
    return h.arr(n, float)[()]


def _invalid(h, zeta):
    """arbitrary number that is no reduced frequency of this statistics"""
    kinds = ['fraction', 'nan', 'inf', '-inf']
    if zeta is not None:
        kinds += ['parity', 'parity float']
    kind = h.choice('invalid', kinds)
    if kind == 'fraction':
        k = h.int('k', -2**20, 2**20)
        return k + h.real('frac', 1e-8, 1 - 1e-8)
    if kind.startswith('parity'):
        m = h.int('m', -2**40, 2**40)
        n = 2 * m + (1 - zeta)
        return _flt(h, n) if kind.endswith('float') else n
    return {'nan': float('nan'), 'inf': float('inf'),
            '-inf': -float('inf')}[kind]


def _placed(h, x, zeta):
    """scalar or array, with valid frequencies elsewhere"""
    ok = 2 * h.int('ok', -9, 9) + (zeta or 0)
    form = h.choice('form', ['scalar', 'first', 'last', 'matrix', '0-d'])
    if form == 'scalar':
        return x
    if form == '0-d':
        return h.arr(x)
    if form == 'first':
        return h.arr([x, ok])
    if form == 'last':
        return h.arr([ok, ok, x])
    return h.arr([[ok, ok], [x, ok]])


def check_rejects(h):
    """every invalid number among valid ones, scalar, vector or matrix,
    |n| <= 2^41, for fermions, bosons and either"""
    zeta = h.choice('zeta', [0, 1, None])
    x = _placed(h, _invalid(h, zeta), zeta)
    h.raises("rejected", ValueError,
             lambda: h.lib._util.check_reduced_matsubara(x, zeta))


def check_accepts(h):
    """every integer of the right parity up to 2^61 in magnitude (2^51 as
    float), scalar, list, vector or matrix"""
    zeta = h.choice('zeta', [0, 1, None])
    chk = h.lib._util.check_reduced_matsubara
    as_float = h.choice('float', [False, True])
    hi = 2**50 if as_float else BIG
    ns = [h.int('n%d' % i, -hi, hi) for i in range(4)]
    if zeta is not None:
        ns = [2 * n + zeta for n in ns]
    xs = [_flt(h, n) for n in ns] if as_float else ns
    form = h.choice('form', ['scalar', 'list', 'vector', 'matrix', 'empty'])
    if form == 'scalar':
        got = chk(xs[0], zeta)
        h.check("value", got == ns[0])
        h.check("shape", tuple(got.shape) == ())
    elif form == 'empty':
        h.check("empty", tuple(chk(h.np.zeros((0,), int), zeta).shape) == (0,))
    else:
        x = {'list': xs, 'vector': h.arr(xs),
             'matrix': h.arr([xs[:2], xs[2:]])}[form]
        got = chk(x, zeta)
        h.check("shape",
                tuple(got.shape) == ((2, 2) if form == 'matrix' else (4,)))
        h.check("values", [a == b for a, b in zip(got.ravel(), ns)])
    h.check("integers", bool(h.np.issubdtype(got.dtype, h.np.integer))
            if form != 'empty' else True)


def _transform(h, zeta):
    """a transform of some kind, with what selects from it"""
    FT = h.lib.poly.PiecewiseLegendreFT
    freq = {0: 'even', 1: 'odd', None: 'any'}[zeta]
    nf = h.choice('functions', [(), (2,)])
    p, _ = poly(h, 2, [-1.0, 1.0], nf)
    n_asymp = h.choice('n_asymp', [None, 5.0] if zeta is not None else [None])
    ft = FT(p, freq, n_asymp)
    if nf:
        sel = h.choice('select', [None, 0, slice(1), [1, 0], (1,)])
        if sel is not None:
            ft = ft[sel]
    return ft


def transform_rejects(h):
    """transforms of one or two functions of order 2, before and after
    selecting from them, with and without high-frequency model"""
    zeta = h.choice('zeta', [0, 1, None])
    x = _placed(h, _invalid(h, zeta), zeta)
    ft = _transform(h, zeta)
    h.raises("rejected", ValueError, lambda: ft(x))


def transform_accepts(h):
    """integers and floats of the right parity give the same result"""
    zeta = h.choice('zeta', [0, 1, None])
    ft = _transform(h, zeta)
    n = h.choice('n', [[0, 4, -2], [8, -6, 2]] if zeta == 0
                 else [[1, -1, 5], [-7, 9, 3]])
    got = ft(h.arr(n))
    ref = ft(h.arr([float(k) for k in n]))
    h.eq("floats", ref, got)
    h.eq("list of floats", ft([float(k) for k in n]), got)
    for i, k in enumerate(n):
        h.eq("scalar", ft(k), got[..., i])
        h.eq("scalar float", ft(float(k)), got[..., i])
    h.check("freq and zeta kept", (ft.freq, ft.zeta) == (
        {0: 'even', 1: 'odd', None: 'any'}[zeta], zeta))


def _ir(h, stat):
    return fake_basis(h, stat, 3, order=2)


def basis_rejects(h):
    """IR basis of three functions with arbitrary coefficients, slices and
    single functions of it, and sampling on it"""
    stat = h.choice('statistics', ['F', 'B'])
    zeta = {'F': 1, 'B': 0}[stat]
    bad = _invalid(h, zeta)
    b = _ir(h, stat)
    where = h.choice('where', ['uhat', 'uhat[1]', 'uhat[:2]', 'basis[:2]',
                               'rescale', 'sampling', 'positive'])
    S = h.lib.MatsubaraSampling
    if where == 'sampling':
        ok = 2 * h.int('ok', -9, 9) + zeta
        f = lambda: S(b, h.arr([ok, bad, ok]))
    elif where == 'positive':
        f = lambda: S(b, h.arr([4 + zeta, bad]), positive_only=True)
    else:
        x = _placed(h, bad, zeta)
        uhat = {'uhat': lambda: b.uhat, 'uhat[1]': lambda: b.uhat[1],
                'uhat[:2]': lambda: b.uhat[:2],
                'basis[:2]': lambda: b[:2].uhat,
                'rescale': lambda: b.rescale(2.0).uhat}[where]()
        f = lambda: uhat(x)
    h.raises("rejected", ValueError, f)


def basis_accepts(h):
    """the same with every integer form of valid frequencies"""
    stat = h.choice('statistics', ['F', 'B'])
    zeta = {'F': 1, 'B': 0}[stat]
    b = _ir(h, stat)
    n = [1, -3, 7] if zeta else [0, 2, -4]
    ref = b.uhat(h.arr(n))
    h.check("shape", tuple(ref.shape) == (3, 3))
    flt = h.arr([float(k) for k in n])
    h.eq("float", b.uhat(flt), ref)
    h.eq("list", b.uhat(n), ref)
    for i, k in enumerate(n):
        h.eq("scalar", b.uhat(k), ref[:, i])
        h.eq("scalar of one", b.uhat[1](float(k)), ref[1, i])
    sub = b[:2]
    h.eq("slice", sub.uhat(flt), ref[:2])
    S = h.lib.MatsubaraSampling
    h.svd_opaque()
    for pts in (h.arr(n), flt, n):
        s = S(sub, pts)
        h.check("points kept", [a == c for a, c in
                                zip(s.sampling_points, n)])
        h.check("integers", bool(h.np.issubdtype(s.sampling_points.dtype,
                                                 h.np.integer)))
        h.eq("matrix", s.matrix.a, ref[:2].T)


def _augs(h, stat):
    aug = h.mod('augment')
    return {'F': [(aug.MatsubaraConst,), ()],
            'B': [(aug.MatsubaraConst,), (aug.TauConst,),
                  (aug.TauConst, aug.TauLinear)]}[stat]


def augmented_rejects(h):
    """augmented bases: all functions, underlying ones, slices; and each term
    by itself"""
    stat = h.choice('statistics', ['F', 'B'])
    zeta = {'F': 1, 'B': 0}[stat]
    aug = h.mod('augment')
    x = _placed(h, _invalid(h, zeta), zeta)
    b = fake_basis(h, stat, 2, order=1)
    terms = h.choice('terms', _augs(h, stat))
    ab = aug.AugmentedBasis(b, *terms)
    na = len(terms)
    where = h.choice('where', ['uhat', 'slice', 'basis slice', 'last',
                               'sampling'])
    if where == 'sampling':
        f = lambda: h.lib.MatsubaraSampling(ab, x)
    else:
        uhat = {'uhat': lambda: ab.uhat, 'slice': lambda: ab.uhat[:na + 1],
                'basis slice': lambda: ab[:na + 1].uhat,
                'last': lambda: ab.uhat[na + 1]}[where]()
        f = lambda: uhat(x)
    h.raises("rejected", ValueError, f)


def terms_reject(h):
    """frequency form of each augmentation term, for every beta in [1/8, 8]"""
    aug = h.mod('augment')
    beta = h.real('beta', .125, 8, pos=True)
    which = h.choice('term', ['TauConst', 'TauLinear', 'MatsubaraConst'])
    zeta = None if which == 'MatsubaraConst' else 0
    x = _placed(h, _invalid(h, zeta), zeta)
    t = getattr(aug, which)(beta)
    h.raises("rejected", ValueError, lambda: t.hat(x))


def terms_accept(h):
    """valid frequencies: the same for ints and floats, scalars and arrays"""
    aug = h.mod('augment')
    beta = h.real('beta', .125, 8, pos=True)
    which = h.choice('term', ['TauConst', 'TauLinear', 'MatsubaraConst'])
    t = getattr(aug, which)(beta)
    m = h.int('m', -2**40, 2**40)
    n = 2 * m if which != 'MatsubaraConst' else m
    ref = t.hat(h.arr([n, 0]))
    h.check("shape", tuple(ref.shape) == (2,))
    h.eq("float", t.hat(h.arr([n, 0], float)), ref)
    h.eq("scalar", t.hat(n), ref[0])
    h.eq("scalar float", t.hat(_flt(h, n)), ref[0])
    h.eq("matrix", t.hat(h.arr([[n], [0]]))[:, 0], ref)


def large(h):
    """vectors and matrices of up to 300 frequencies with one invalid number
    anywhere, or none"""
    zeta = h.choice('zeta', [0, 1, None])
    chk = h.lib._util.check_reduced_matsubara
    n = h.choice('size', [20, 300])
    ok = [2 * (k * k - 40) + (zeta or 0) for k in range(n)]
    ok[3] = 2 * h.int('ok', -BIG // 4, BIG // 4) + (zeta or 0)
    shape = h.choice('shape', [(n,), (n // 10, 10)])
    where = h.choice('place', [None, 0, 1, n // 2 + 3, n - 1])
    if where is None:
        got = chk(h.arr(ok).reshape(shape), zeta)
        h.check("values", [a == b for a, b in zip(got.ravel(), ok)])
        h.check("shape", tuple(got.shape) == shape)
        return
    bad = _invalid(h, zeta)
    ok[3] = zeta or 0
    ok[where] = bad
    h.raises("rejected", ValueError,
             lambda: chk(h.arr(ok).reshape(shape), zeta))


def narrow_types(h):
    """fixed frequencies as arrays of signed and unsigned integers of 8 to 64
    bits, at the ends of the range of the type, and beyond the range of signed
    64-bit integers: transform of any coefficients, terms, sampling"""
    import numpy
    t = h.choice('type', ['int8', 'int16', 'int32', 'int64', 'uint8',
                          'uint16', 'uint32', 'uint64'])
    zeta = h.choice('zeta', [0, 1])
    info = numpy.iinfo(t)
    lo = max(int(info.min), -2**31)
    hi = min(int(info.max), 2**31)
    n = [hi - (hi + zeta) % 2, zeta, 6 + zeta, lo + (lo + zeta) % 2]
    x = numpy.array(n, t)
    chk = h.lib._util.check_reduced_matsubara
    got = chk(x, zeta)
    h.check("values", [int(a) == b for a, b in zip(got, n)])
    h.raises("parity", ValueError, lambda: chk(x, 1 - zeta))
    if t == 'uint64':
        top = numpy.array([4, 2**63 + 4, 2**64 - 2], t)
        h.raises("too large", ValueError, lambda: chk(top + t_one(t, zeta),
                                                      zeta))
    FT = h.lib.poly.PiecewiseLegendreFT
    p, _ = poly(h, 2, [-1.0, 1.0])
    ft = FT(p, ['even', 'odd'][zeta], h.choice('n_asymp', [None, 50.0]))
    if abs(lo) <= 2**15:
        h.eq("transform", ft(x), ft(h.arr(n)), tol=1e-9, stol=1e-10)
        h.eq("scalar", ft(x[3]), ft(n[3]), tol=1e-9, stol=1e-10)
    small = numpy.array([zeta + 2, zeta, 12 + zeta], t)
    few = h.arr([zeta + 2, zeta, 12 + zeta])
    h.eq("transform", ft(small), ft(few), tol=1e-9, stol=1e-10)
    aug = h.mod('augment')
    for T in (aug.MatsubaraConst,) + (() if zeta else
                                      (aug.TauConst, aug.TauLinear)):
        h.eq("term", T(2.0).hat(x), T(2.0).hat(h.arr(n)))


def t_one(t, zeta):
    import numpy
    return numpy.array(zeta, t)


def dlr_rejects(h):
    """the functions of a discrete Lehmann representation of one or two poles,
    and sampling on it, and valid frequencies in every form"""
    stat = h.choice('statistics', ['F', 'B'])
    zeta = {'F': 1, 'B': 0}[stat]
    beta = h.choice('beta', [.5, 4.0])
    b = fake_basis(h, stat, 2, order=1, beta=beta, wmax=2.0)
    h.svd_opaque()
    poles = h.choice('poles', [[.5], [-1.0, .25]])
    D = h.mod('dlr').DiscreteLehmannRepresentation(b, poles)
    what = h.choice('what', ['call', 'sampling', 'valid'])
    if what == 'valid':
        n = [3 * 2 + zeta, zeta, -4 + zeta]
        ref = D.uhat(h.arr(n))
        h.eq("float", D.uhat(h.arr([float(k) for k in n])), ref)
        h.eq("list", D.uhat(n), ref)
        for i, k in enumerate(n):
            h.eq("scalar", D.uhat(k), ref[:, i])
        return
    bad = _invalid(h, zeta)
    if what == 'call':
        x = _placed(h, bad, zeta)
        h.raises("rejected", ValueError, lambda: D.uhat(x))
    else:
        h.raises("rejected", ValueError, lambda: h.lib.MatsubaraSampling(
            D, h.arr([4 + zeta, bad])))


HARNESSES = [(narrow_types, dict(overflow=False)), (dlr_rejects, {}),
             (check_rejects, {}), (check_accepts, {}),
             (transform_rejects, {}), (transform_accepts, {}),
             (basis_rejects, {}), (basis_accepts, {}),
             (augmented_rejects, {}), (terms_reject, {}), (terms_accept, {}),
             (large, {})]
