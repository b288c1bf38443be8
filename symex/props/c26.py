"""Default sampling points in time and on the real axis."""
from .common import fake_sve
from .c13 import _changes, _extrema, _distinct, _reflect, PART
from .c08 import Table

TOL = dict(tol=1e-8, stol=1e-9)
SETS = {'u': 3., 'v': 40.}


class Points:
    """takes the place of the root finder, which C08 is about: functions and
    derivatives are told apart by their coefficients, and each has arbitrary
    ascending roots"""

    def __init__(self, h):
        self.h, self.cls = h, h.lib.poly.PiecewiseLegendrePoly
        self.count, self.pts, self.asked = {}, {}, []

    def __enter__(self):
        self.old = self.cls.roots
        me = self
        self.cls.roots = lambda p, *a, **kw: me.roots(p)
        return self

    def __exit__(self, *exc):
        self.cls.roots = self.old

    def key(self, p):
        """('u' or 'v', number of the function, order of derivative)"""
        h = self.h
        d = p.data
        if p.ndim:
            raise ValueError("roots of several functions")
        first = float(d[0, 0])
        if d.shape[0] > 1 and float(d[1, 0]) != 0:
            n, tag = 0, float(d[1, 0])
        else:
            n = 1
            tag = first * float(p.xmax - p.xmin) / 2
        tag = int(round(tag))
        name = 'v' if tag >= 40 else 'u'
        return name, tag - int(SETS[name]), n

    def __getitem__(self, key):
        """roots between -1 and 1"""
        if key not in self.pts:
            h = self.h
            xs = []
            for i in range(self.count[key[2]]):
                x = h.real('%s%d_%d.%d' % (key[:2] + (key[2], i)),
                           -1 + 2.**-8, 1 - 2.**-8)
                if xs:
                    h.assume(x >= xs[-1] + 2.**-8)
                xs.append(x)
            self.pts[key] = xs
        return self.pts[key]

    def roots(self, p):
        h = self.h
        key = self.key(p)
        self.asked.append(key)
        xs = h.np.zeros(0) if not self[key] else h.arr(self[key])
        return p.xmin + (p.xmax - p.xmin) * (xs + 1) / 2


class Transforms:
    """takes the place of the values of transforms, which C10 is about"""

    def __init__(self, h, zeta, tables, grid):
        self.h, self.zeta, self.tables, self.grid = h, zeta, tables, grid
        self.cls = h.lib.poly.PiecewiseLegendreFT

    def __enter__(self):
        self.old = self.cls.__call__, self.cls._DEFAULT_GRID
        me = self
        self.cls.__call__ = lambda ft, n: me.value(ft, n)
        self.cls._DEFAULT_GRID = self.h.arr(self.grid)
        return self

    def __exit__(self, *exc):
        self.cls.__call__, self.cls._DEFAULT_GRID = self.old

    def value(self, ft, n):
        h, d = self.h, ft.poly.data
        if ft.poly.ndim:
            raise ValueError("several functions")
        # 6 + 2 l whatever the functions are scaled by
        q = d[1, 0] / d[0, 0]
        l = [k for k in range(len(self.tables)) if h.truth(
            abs(q - 2 * (SETS['u'] + k)) <= .25)][0]
        m = (h.np.asarray(n) - self.zeta) // 2
        re, im = self.tables[l]
        return re(m) + 1j * im(m)


def _basis(h, full, size, stat='F', symm=None, beta=None):
    """basis of the given size from an expansion into linear functions"""
    beta = h.real('beta', .25, 8) if beta is None else beta
    wmax = h.real('wmax', .25, 4)
    kern = h.lib.LogisticKernel(beta * wmax)
    P = h.lib.poly.PiecewiseLegendrePoly
    mk = lambda k: P(h.arr([[[.5] * full],
                            [[SETS[k] + l for l in range(full)]]]),
                     h.arr([-1.0, 1.0]),
                     symm=None if symm is None else h.arr(symm))
    res = h.lib.sve.SVEResult(mk('u'), h.arr([2.**-l for l in range(full)]),
                              mk('v'), kern, 2.**-40)
    b = h.lib.FiniteTempBasis(stat, beta, wmax, 0.0, max_size=size,
                              kernel=kern, sve_result=res)
    return b, beta, wmax


def _expected(h, pts, name, full, L):
    """in units of -1 to 1"""
    if L < full:
        return list(pts[name, L, 0])
    m = list(pts[name, full - 1, 1])
    if not m:
        return []
    return [(m[0] - 1) / 2] + m + [(m[-1] + 1) / 2]


def _compare(h, label, got, want, scale):
    got, cats = got
    h.check(label + ": number", tuple(got.shape) == (len(want),))
    h.eq(label, got, scale(want), **TOL)
    return cats


CASES = [(4, 2, None), (4, 3, None), (4, 4, None), (4, 2, 3), (4, 3, 1),
         (4, 2, 4), (4, 4, 6), (3, 2, 0), (2, 1, None), (1, 1, None),
         (3, 3, 2)]


def points(h):
    """expansions of 1 to 4 functions, bases of any smaller size, any number
    of points requested; every number (0 to 4) and location of the roots and
    extrema; beta in [1/4, 8], wmax in [1/4, 4]"""
    _points(h, *h.choice('expansion, size, npoints', CASES))


def large(h):
    """the same for expansions of 24 functions and 10 to 30 points"""
    _points(h, *h.choice('expansion, size, npoints', [
        (24, 20, None), (24, 24, None), (24, 12, 20), (24, 16, 30),
        (24, 24, 23), (30, 10, None)]))


def _points(h, full, size, npoints):
    b, beta, wmax = _basis(h, full, size)
    h.check("size", b.size == size)
    L = size if npoints is None else npoints
    good = L if L < full else max(L - 2, 0)
    n = h.choice('roots', sorted({good, good + 1, max(good - 1, 0), 1}))
    pts = Points(h)
    pts.count = {0: n, 1: n}
    kw = {} if npoints is None else dict(npoints=npoints)
    for name, fn, scale in (
            ('u', b.default_tau_sampling_points,
             lambda xs: [beta / 2 * (x + 1) for x in xs]),
            ('v', b.default_omega_sampling_points,
             lambda xs: [wmax * x for x in xs])):
        with pts:
            out = h.warned(lambda: fn(**kw))
        want = _expected(h, pts, name, full, L)
        cats = _compare(h, "points of " + name, out,
                        want, lambda xs: h.arr(scale(xs)) if xs
                        else h.np.zeros(0))
        if len(want) == L:
            h.check("no warning", cats == [])
        else:
            h.check("warning", len(cats) == 1
                    and issubclass(cats[0], UserWarning))
        x = [w for w in want]
        h.check("ascending", [p < q for p, q in zip(x[:-1], x[1:])])


def derived(h):
    """slices, rescaled bases and bases of a set, and what uses the points by
    default: sampling in time, augmented bases"""
    full, size = 4, 3
    beta = h.choice('beta', [.5, 4.0])
    how = h.choice('how', ['slice', 'rescale', 'augment', 'sampling', 'dlr'])
    stat = 'B' if how == 'augment' else 'F'
    b, beta, wmax = _basis(h, full, size, stat, beta=beta)
    pts = Points(h)
    pts.count = {0: 2, 1: 2}
    L = size
    if how == 'slice':
        L = 2
        get = b[:2].default_tau_sampling_points
    elif how == 'rescale':
        nb = h.real('new beta', .25, 8)
        get = b.rescale(nb).default_tau_sampling_points
        beta = nb
    elif how == 'augment':
        aug = h.mod('augment')
        terms = h.choice('terms', [(), (aug.MatsubaraConst,),
                                   (aug.TauConst, aug.TauLinear)])
        L = size + len(terms)
        get = aug.AugmentedBasis(b, *terms).default_tau_sampling_points
        n = h.choice('npoints', [None, 2, 1])
        if n is not None:
            L, get = n, lambda f=get: f(npoints=n)
    elif how == 'dlr':
        with pts:
            h.svd_opaque()
            D = h.mod('dlr').DiscreteLehmannRepresentation(b)
        want = _expected(h, pts, 'v', full, size)
        h.eq("poles", D.sampling_points, h.arr([wmax * x for x in want]),
             **TOL)
        L, get = size, D.default_tau_sampling_points
    else:
        h.svd_opaque()
        get = lambda: h.lib.TauSampling(b).sampling_points
    with pts:
        got = get()
    want = _expected(h, pts, 'u', full, L)
    h.check("number", tuple(got.shape) == (len(want),))
    h.eq("points", got, h.arr([beta / 2 * (x + 1) for x in want]), **TOL)


def real_roots(h):
    """the root finder itself, where roots are known: odd linear and even
    quadratic functions on one segment with an arbitrary coefficient"""
    beta, wmax = h.real('beta', .25, 8), h.real('wmax', .25, 4)
    kern = h.lib.LogisticKernel(beta * wmax)
    a, c = h.real('a', .25, 2), h.real('c', .25, 2)
    P = h.lib.poly.PiecewiseLegendrePoly
    full = h.choice('functions', [2, 3])
    data = [[[.5, 0.0, .25]], [[0.0, a, 0.0]], [[.25, 0.0, c]]]
    data = [[row[0][:full]] for row in data]
    mk = lambda: P(h.arr(data), h.arr([-1.0, 1.0]),
                   symm=h.arr([1, -1, 1][:full]))
    res = h.lib.sve.SVEResult(mk(), h.arr([1.0, .5, .25][:full]), mk(),
                              kern, 2.**-40)
    b = h.lib.FiniteTempBasis('B', beta, wmax, 0.0, max_size=1, kernel=kern,
                              sve_result=res)
    n = h.choice('npoints', [None, 1] if full == 2 else [1, 3])
    kw = {} if n is None else dict(npoints=n)
    # the root of the second function, or the extremum of the third
    want = [0.0] if n != 3 else [-.5, 0.0, .5]
    tau, cats = h.warned(lambda: b.default_tau_sampling_points(**kw))
    h.check("no warning", cats == [])
    h.eq("tau", tau, h.arr([beta / 2 * (x + 1) for x in want]), **TOL)
    om = b.default_omega_sampling_points(**kw)
    h.eq("omega", om, h.arr([wmax * x for x in want]), **TOL)


def frequencies(h):
    """number of frequencies requested from a basis of 1 or 2 functions in an
    expansion of 4, whose transforms take arbitrary values at three
    consecutive frequencies, or from that basis augmented by one term;
    mismatches are reported"""
    zeta = h.choice('zeta', [0, 1])
    size, n = h.choice('size, npoints', [(1, None), (2, None), (1, 2),
                                         (2, 1), (1, 3), (1, 5)])
    symm = [1, -1, 1, -1]
    b, beta, wmax = _basis(h, 4, size, 'BF'[zeta], symm=symm,
                           beta=h.choice('beta', [.5, 4.0]))
    term = h.choice('term', [False, True])
    L = size + term if n is None else n
    grid = [0, 1, 2]
    tabs = [(Table(h, 're%d' % l), Table(h, 'im%d' % l)) for l in range(4)]
    want = L + (L + zeta + 1) % 2
    l, ref = (want, _changes) if want < 4 else (3, _extrema)
    f = tabs[l][PART[symm[l], zeta]]
    if ref is _extrema:
        _distinct(h, f, grid)
    else:
        h.assume(h.either(f.at(0) > 0, f.at(0) < 0))
        h.assume(h.truth(f.at(0) > 0) != h.truth(f.at(1) > 0))
    kw = {} if n is None else dict(npoints=n)
    if term:
        aug = h.mod('augment')
        b = aug.AugmentedBasis(b, aug.MatsubaraConst)
    get = b.default_matsubara_sampling_points
    with Transforms(h, zeta, tabs, grid):
        full, cats = h.warned(lambda: get(**kw))
        half, hcats = h.warned(lambda: get(positive_only=True, **kw))
    pts = ref(h, f, grid)
    if zeta == 0 and ref is _extrema and 0 not in pts:
        pts = [0] + pts
    pos = [2*x + zeta for x in pts]
    h.check("points", [int(x) for x in full] == _reflect(pts, zeta))
    h.check("positive points", [int(x) for x in half] == pos)
    h.check("mismatch", len(cats) == int(len(full) != want))
    h.check("mismatch of half", len(hcats) ==
            int(len(pos) != (want + 1) // 2))
    h.check("kind", all(issubclass(c, UserWarning) for c in cats + hcats))


HARNESSES = [(points, {}), (large, {}), (derived, {}), (real_roots, {}),
             (frequencies, {})]
