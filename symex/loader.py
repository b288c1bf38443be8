"""Load /repo/src/sparse_ir for symbolic execution.

The source is compiled unchanged; only what its imports resolve to (numpy,
scipy, math, xprec) and the builtins float/int/complex/range are replaced.
"""
import builtins
import importlib
import os
import sys
import types

import numpy as rnp

from . import terms as T
from . import symarr as S
from . import npproxy as P
from .symarr import asarr, SymArray, SymScalar, F64, obj, wrap
from .terms import Val, Cx, Unsupported, conv, ctx

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'sparse_ir')


# ------------------------------------------------------------------ stubs

def _spherical_jn1(n, x):
    """spherical Bessel function by its closed form"""
    n, x = T.tonum(n), T.tonum(x)
    if type(n) is Val:
        n = ctx().concretize(n)
    if type(x) is Cx or type(x) is float:
        raise Unsupported("spherical_jn argument")
    if n < 0:
        return T.NAN
    if type(x) is not Val:
        if n and x < 0:
            return T.conv(_real_sph(n, float(x)))
        if x == 0:
            return 1 if n == 0 else 0
    else:
        if n and ctx().decide(T.vcmp(x, 0, '<')):
            # scipy does not support this branch for all orders
            return T.NAN
        if ctx().decide(T.vcmp(x, 0, '==')):
            return 1 if n == 0 else 0
    co, si = T.vcossin(x)
    jm, j = T.vdiv(co, x), T.vdiv(si, x)
    for k in range(n):
        jm, j = j, T.vsub(T.vdiv(T.vmul(2*k + 1, j), x), jm)
    return j


def _real_sph(n, x):
    import scipy.special
    return float(scipy.special.spherical_jn(n, x))


def spherical_jn(n, z, derivative=False):
    if derivative:
        raise Unsupported("spherical_jn derivative")
    n, z = asarr(n), asarr(z)
    shp = rnp.broadcast_shapes(n.shape, z.shape)
    na, za = rnp.broadcast_to(n._a, shp), rnp.broadcast_to(z._a, shp)
    res = obj(shp)
    for i in rnp.ndindex(*shp):
        res[i] = _spherical_jn1(na[i], za[i])
    return wrap(res, F64)


def eigvalsh_tridiagonal(d, e, **kw):
    """Exact eigenvalues for zero diagonal and up to five rows, else LAPACK"""
    d, e = asarr(d), asarr(e)
    n = d.size
    T_ = T
    zero = all(not isinstance(x, Val) and x == 0 for x in d._a)
    off = list(e._a[:max(n - 1, 0)])
    if not zero or n > 5 or T._ctx is None:
        import scipy.linalg
        d, e = ([T.const_float(x) for x in v._a.ravel()] for v in (d, e))
        if None in d or None in e:
            raise Unsupported("symbolic eigenvalue problem")
        with rnp.errstate(all='ignore'):
            r = scipy.linalg.eigvalsh_tridiagonal(rnp.array(d, float),
                                                  rnp.array(e, float))
        return SymArray(S.from_real(r), F64)
    b = [T_.vmul(x, x) for x in off]
    half = T_.conv(0.5)
    if n == 1:
        ev = [0]
    elif n == 2:
        r = T_.vsqrt(b[0])
        ev = [T_.vneg(r), r]
    elif n == 3:
        r = T_.vsqrt(T_.vadd(b[0], b[1]))
        ev = [T_.vneg(r), 0, r]
    else:
        s = 0
        for x in b:
            s = T_.vadd(s, x)
        # sum over pairs of non-adjacent off-diagonals
        p = 0
        for i in range(len(b)):
            for j in range(i + 2, len(b)):
                p = T_.vadd(p, T_.vmul(b[i], b[j]))
        disc = T_.vsqrt(T_.vsub(T_.vmul(s, s), T_.vmul(4, p)))
        lo = T_.vsqrt(T_.vmul(half, T_.vsub(s, disc)))
        hi = T_.vsqrt(T_.vmul(half, T_.vadd(s, disc)))
        ev = [T_.vneg(hi), T_.vneg(lo)] + ([0] if n == 5 else []) + [lo, hi]
    return SymArray(obj_list(ev), F64)


def obj_list(xs):
    a = obj((len(xs),))
    for i, x in enumerate(xs):
        a[i] = x
    return a


def _opaque_module(name, real_name=None, **attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    for k, v in attrs.items():
        setattr(m, k, v)
    if real_name is not None:
        def ga(attr):
            if attr.startswith('__'):
                raise AttributeError(attr)
            try:
                real = importlib.import_module(real_name)
                v = getattr(real, attr)
            except (ImportError, AttributeError):
                raise AttributeError(attr)
            if callable(v) and not isinstance(v, type):
                def f(*a, **k):
                    if S.has_sym([list(a), k]):
                        raise Unsupported("%s.%s" % (real_name, attr))
                    return S.concrete_call(v, a, k)
                return f
            return v
        m.__getattr__ = ga
    return m


def _double(a):
    """LAPACK and the like do not take double-double numbers"""
    if S.DD is not None and asarr(a)._dt == S.DD:
        raise TypeError("no loop for double-double numbers")


def _intp_svd(a, n_sv, rand=True):
    _double(a)
    u, s, vh = P.svd_of(a)
    v = vh.T.conj()
    k = int(n_sv) if not isinstance(n_sv, int) else n_sv
    return u[:, :k], s[:k], v[:, :k]


def _dgejsv(a, joba=4, *args, **kw):
    """returns sva, u, v, work, iwork, info like LAPACK's wrapper"""
    a = asarr(a)
    _double(a)
    m, n = a.shape
    if m < n:
        raise ValueError("gejsv needs a tall matrix")
    u, s, vh = P.svd_of(a)
    work = P.array([1.0] * 7)
    iw = P.zeros((3,), int)
    return s, u, vh.T, work, iw, 0


class _XprecProxy(types.ModuleType):
    pass


CODE = {}


class World:
    """One private copy of the package with its replaced environment."""

    def __init__(self):
        self.np = P.NpProxy()
        self.math = P.MathProxy()
        self.modules = {}
        self.builtins = P.make_builtins()
        self.builtins['__import__'] = self._import
        self.svd_calls = []
        sp_special = _opaque_module('scipy.special', 'scipy.special',
                                    spherical_jn=spherical_jn)
        interp = _opaque_module('scipy.linalg.interpolative',
                                'scipy.linalg.interpolative',
                                svd=_intp_svd, seed=lambda s=None: None)
        lapack = _opaque_module('scipy.linalg.lapack', 'scipy.linalg.lapack',
                                dgejsv=_dgejsv)
        sp_linalg = _opaque_module(
            'scipy.linalg', 'scipy.linalg', interpolative=interp,
            lapack=lapack, eigvalsh_tridiagonal=eigvalsh_tridiagonal,
            svd=lambda a, full_matrices=True, **k:
                P.svd_of(a, full_matrices))
        scipy = _opaque_module('scipy', 'scipy', special=sp_special,
                               linalg=sp_linalg)
        self.ext = {'scipy': scipy, 'scipy.special': sp_special,
                    'scipy.linalg': sp_linalg,
                    'scipy.linalg.interpolative': interp,
                    'scipy.linalg.lapack': lapack,
                    'numpy': self.np, 'math': self.math,
                    'numpy.linalg': self.np.linalg}
        if S.DD is not None:
            import xprec
            xl = types.ModuleType('xprec.linalg')

            def svd_trunc(a, tol=5e-32, method='jacobi', max_iter=20):
                # xprec fails for tall matrices, unless of low rank
                if a.shape[0] > a.shape[1]:
                    raise RuntimeError("expecting tall matrix")
                return P.svd_of(a)
            xl.svd_trunc = svd_trunc
            xl.__getattr__ = lambda n: getattr(xprec.linalg, n)
            xp = types.ModuleType('xprec')
            xp.__path__ = []
            xp.ddouble = S.DD
            xp.linalg = xl

            class DDInfo:
                def __init__(self):
                    self._info = xprec.finfo(S.DD)

                def __getattr__(self, name):
                    return S.lift_result(getattr(self._info, name))
            xp.finfo = lambda dt: (
                DDInfo() if S.real_dtype(dt) == S.DD
                else rnp.finfo(S.real_dtype(dt)))
            self.ext['xprec'] = xp
            self.ext['xprec.linalg'] = xl
        # numpy's own polynomial code runs symbolically as well
        npoly = os.path.join(os.path.dirname(rnp.__file__), 'polynomial')
        self.paths = {'numpy.polynomial.polyutils':
                      os.path.join(npoly, 'polyutils.py'),
                      'numpy.polynomial.legendre':
                      os.path.join(npoly, 'legendre.py'),
                      'numpy.polynomial.polynomial':
                      os.path.join(npoly, 'polynomial.py'),
                      'numpy.polynomial.chebyshev':
                      os.path.join(npoly, 'chebyshev.py')}
        poly_ns = types.ModuleType('numpy.polynomial')
        poly_ns.__path__ = []
        world = self

        def poly_get(name):
            full = 'numpy.polynomial.' + name
            if full in world.paths:
                return world.load(full)
            return getattr(rnp.polynomial, name)
        poly_ns.__getattr__ = poly_get
        self.ext['numpy.polynomial'] = poly_ns
        self.np.polynomial = poly_ns

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.paths:
            path = self.paths[name]
            is_pkg = False
        else:
            rel = name.split('.')[1:]
            base = os.path.join(SRC, *rel)
            is_pkg = os.path.isdir(base)
            path = os.path.join(base, '__init__.py') if is_pkg \
                else base + '.py'
            if not os.path.exists(path):
                raise ImportError("No module named %r" % name)
        with open(path, 'rb') as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.modules[name] = m
        try:
            code = CODE.get((path, src))
            if code is None:
                code = CODE[path, src] = compile(src, path, 'exec',
                                                 dont_inherit=True)
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        parent, _, leaf = name.rpartition('.')
        if parent in self.modules:
            setattr(self.modules[parent], leaf, m)
        return m

    def _resolve(self, name):
        if name in self.ext:
            return self.ext[name]
        if name in self.paths or name == 'sparse_ir' or \
                name.startswith('sparse_ir.'):
            return self.load(name)
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            base = '.'.join(parts)
            name = base + ('.' + name if name else '')
        if name.startswith('numpy.') and name not in self.ext and \
                name not in self.paths:
            # e.g. numpy.lib.array_utils
            return builtins.__import__(name, None, None, fromlist or ('x',), 0) \
                if fromlist else self.np
        if name.startswith('scipy.') and name not in self.ext:
            m = _opaque_module(name, name)
            self.ext[name] = m
            parent, _, leaf = name.rpartition('.')
            if parent in self.ext:
                setattr(self.ext[parent], leaf, m)
        m = self._resolve(name)
        if m is None:
            return builtins.__import__(name, None, None, fromlist, 0)
        # make sure parents exist
        top = name.split('.')[0]
        if fromlist:
            for a in fromlist:
                if a != '*' and not hasattr(m, a):
                    sub = self._resolve_opt(name + '.' + a)
                    if sub is not None:
                        setattr(m, a, sub)
            return m
        t = self._resolve(top)
        # link submodules so that attribute access works
        parts = name.split('.')
        cur, path = t, top
        for p in parts[1:]:
            path += '.' + p
            nxt = self._resolve(path)
            if nxt is not None:
                try:
                    if p not in cur.__dict__:
                        setattr(cur, p, nxt)
                except (AttributeError, TypeError):
                    pass
                cur = nxt
        return t

    def _resolve_opt(self, name):
        try:
            return self._resolve(name)
        except ImportError:
            return None

    def package(self):
        return self.load('sparse_ir')
