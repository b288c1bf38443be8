"""Stand-ins for numpy, math and scipy inside symbolically executed modules."""
import builtins
from fractions import Fraction
import math as rmath
import types
import warnings

import numpy as rnp
import z3

from . import terms as T
from . import symarr as S
from .symarr import (SymArray, SymScalar, _Sym, F64, I64, C128, BOOL, asarr,
                     build, real_dtype, DtypeProxy, result_type, obj, wrap,
                     handler, ufunc, kind, operand, elem, cast_elem)
from .terms import Val, Cx, Unsupported, is_num, conv, ctx


def _shape(s):
    if isinstance(s, (int, rnp.integer)):
        return (int(s),)
    if isinstance(s, (Val, SymScalar)):
        return (S._ci(s) if isinstance(s, Val) else s.__index__(),)
    if isinstance(s, _Sym):
        return tuple(S.norm_index(s))
    return tuple(S._ci(i) if isinstance(i, (Val, SymScalar)) else
                 i.__index__() for i in s)


def _full(shape, e, dt):
    a = obj(_shape(shape))
    a.fill(cast_elem(e, dt))
    if T.is_num(e) or True:
        for i in rnp.ndindex(*a.shape) if dt.kind == 'c' else ():
            a[i] = T.tocx(e)
    return SymArray(a, dt)


@handler('zeros')
def zeros(shape, dtype=float, order='C', like=None):
    dt = real_dtype(dtype)
    return _full(shape, False if dt.kind == 'b' else 0, dt)


@handler('ones')
def ones(shape, dtype=float, order='C', like=None):
    dt = real_dtype(dtype)
    return _full(shape, True if dt.kind == 'b' else 1, dt)


@handler('full')
def full(shape, fill_value, dtype=None, order='C', like=None):
    a, dt = build(fill_value)
    if dtype is not None:
        dt = real_dtype(dtype)
    r = obj(_shape(shape))
    r[...] = a
    for i in rnp.ndindex(*r.shape):
        r[i] = cast_elem(r[i], dt)
    return SymArray(r, dt)


@handler('empty')
def empty(shape, dtype=float, order='C', like=None):
    dt = real_dtype(dtype)
    r = obj(_shape(shape))
    for i in rnp.ndindex(*r.shape):
        r[i] = S.junk(dt)
    return SymArray(r, dt)


def _like(fn):
    def f(a, *args, dtype=None, order='K', subok=True, shape=None,
          device=None, **kw):
        a = asarr(a)
        return fn(a._a.shape if shape is None else shape, *args,
                  dtype=a._dt if dtype is None else dtype, **kw)
    return f


for _n, _f in (('zeros', zeros), ('ones', ones), ('empty', empty)):
    S._handlers[_n + '_like'] = _like(_f)


@handler('full_like')
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return full(a._a.shape if shape is None else shape, fill_value,
                a._dt if dtype is None else dtype)


@handler('array')
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0,
          like=None):
    if isinstance(x, types.GeneratorType):
        raise Unsupported("array of generator")
    r = asarr(x, dtype, copy=bool(copy))
    a = r._a
    if copy and (not isinstance(x, _Sym) or not a.flags.writeable or True):
        a = a.copy()
    if a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return SymArray(a, r._dt)


@handler('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
         'require', 'asarray_chkfinite')
def asarray(x, dtype=None, order=None, copy=None, like=None, **kw):
    return asarr(x, dtype)


@handler('copy')
def copy(a, order='K', subok=False):
    return array(a)


@handler('arange')
def arange(start, stop=None, step=None, dtype=None, like=None, **kw):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    es, ds = zip(*[operand(i) for i in (start, stop, step)])
    if any(e.ndim for e in es):
        raise TypeError("arange needs scalars")
    a, b, s = [e[()] for e in es]
    if dtype is None:
        rd = [rnp.dtype(d) if isinstance(d, type) else d for d in ds]
        dt = result_type(*rd)
    else:
        dt = real_dtype(dtype)
    n = T.vceil(T.vdiv(T.vsub(b, a), s))
    if type(n) is Val:
        n = ctx().concretize(n)
    out = obj((max(n, 0),))
    for i in range(max(n, 0)):
        out[i] = cast_elem(T.vadd(a, T.vmul(i, s)), dt)
    return SymArray(out, dt)


@handler('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0, **kw):
    num = S._ci(num) if not isinstance(num, int) else num
    a, b = asarr(start), asarr(stop)
    a, b = a.astype(float) if a._dt.kind in 'iub' else a, b
    div = num - 1 if endpoint else num
    delta = b - a
    parts = []
    if num > 100 and div and a.ndim == b.ndim == 0 \
            and T.is_num(a.item()) and T.is_num(b.item()):
        lo, d = a.item(), delta.item()
        parts = [b if endpoint and i == num - 1 else lo + d * Fraction(i, div)
                 for i in range(num)]
        r = array(parts)
        r = r if dtype is None else r.astype(dtype)
        return (r, delta / div) if retstep else r
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            p = b + 0.0 * a
        else:
            p = a + delta * (Fraction(i, div) if div else 0)
        parts.append(p)
    if not parts:
        return zeros((0,))
    r = S.struct_call('stack', (parts, axis), {})
    if dtype is not None:
        r = r.astype(dtype)
    if retstep:
        return r, delta / div
    return r


@handler('eye')
def eye(n, m=None, k=0, dtype=float, **kw):
    m = n if m is None else m
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


@handler('identity')
def identity(n, dtype=float):
    return eye(n, dtype=dtype)


@handler('diag')
def diag(v, k=0):
    v = asarr(v)
    if v.ndim == 1:
        n = v.size + abs(k)
        r = zeros((n, n), v._dt)
        for i in range(v.size):
            r[i + max(0, -k), i + max(0, k)] = v[i]
        return r
    return wrap(rnp.diagonal(v._a, k), v._dt)


@handler('vander')
def vander(x, N=None, increasing=False):
    x = asarr(x)
    N = x.size if N is None else N
    cols = [x**i for i in range(N)]
    if not increasing:
        cols = cols[::-1]
    return S.struct_call('stack', (cols, -1), {})


@handler('issubdtype')
def issubdtype(a, b):
    a = real_dtype(a) if isinstance(a, DtypeProxy) or \
        hasattr(a, '_sym_builtin') else getattr(a, '_np', a)
    b = getattr(b, '_sym_builtin', getattr(b, '_np', b))
    if isinstance(b, DtypeProxy):
        b = b._dt
    return rnp.issubdtype(a, b)


@handler('result_type')
def np_result_type(*args):
    ds = []
    for a in args:
        if isinstance(a, (DtypeProxy, rnp.dtype)) or isinstance(a, type):
            ds.append(real_dtype(a))
        elif isinstance(a, str):
            ds.append(rnp.dtype(a))
        elif hasattr(a, '_sym_builtin'):
            ds.append(real_dtype(a))
        else:
            ds.append(operand(a)[1])
    if all(isinstance(d, type) for d in ds):
        ds = [rnp.dtype(d) for d in ds]
    return DtypeProxy(result_type(*ds))


@handler('promote_types')
def promote_types(a, b):
    return DtypeProxy(result_type(real_dtype(a), real_dtype(b)))


@handler('can_cast')
def can_cast(a, b, casting='safe'):
    a = a._dt if isinstance(a, _Sym) else real_dtype(a)
    return rnp.can_cast(a, real_dtype(b), casting)


@handler('iscomplexobj')
def iscomplexobj(x):
    return asarr(x)._dt.kind == 'c'


@handler('isrealobj')
def isrealobj(x):
    return not iscomplexobj(x)


@handler('isscalar')
def isscalar(x):
    return isinstance(x, (SymScalar, Val, Cx, Fraction)) or rnp.isscalar(x)


@handler('ndim')
def ndim(x):
    return x.ndim if isinstance(x, _Sym) else asarr(x).ndim


@handler('shape')
def shape(x):
    return x.shape if isinstance(x, _Sym) else asarr(x).shape


@handler('size')
def size(x, axis=None):
    x = asarr(x)
    return x.size if axis is None else x.shape[axis]


def _red(name):
    def f(a, axis=None, **kw):
        kw = {k: v for k, v in kw.items() if v is not rnp._NoValue}
        a = asarr(a)
        return getattr(a, name)(axis=axis, **kw)
    return f


for _n in ('sum', 'prod', 'all', 'any', 'mean', 'cumsum', 'cumprod'):
    S._handlers[_n] = _red(_n)
S._handlers['max'] = S._handlers['amax'] = _red('max')
S._handlers['min'] = S._handlers['amin'] = _red('min')


@handler('nansum')
def nansum(a, axis=None, **k):
    a = asarr(a)
    return S.where(ufunc('isnan', a), 0, a).sum(axis, **k)


@handler('nanmax')
def nanmax(a, axis=None, **k):
    a = asarr(a)
    return S.where(ufunc('isnan', a), -rnp.inf, a).max(axis, **k)


@handler('nanmin')
def nanmin(a, axis=None, **k):
    a = asarr(a)
    return S.where(ufunc('isnan', a), rnp.inf, a).min(axis, **k)


@handler('var')
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    if dtype is not None or out is not None:
        raise Unsupported("var with dtype or out")
    a = asarr(a)
    d = a - a.mean(axis=axis, keepdims=True)
    d = (d * d.conj()).real
    n = a.size if axis is None else a.shape[axis]
    return d.sum(axis=axis, keepdims=keepdims) / (n - ddof)


@handler('std')
def std(a, axis=None, **k):
    return ufunc('sqrt', var(a, axis, **k))


@handler('median')
def median(a, axis=None, **k):
    if k:
        raise Unsupported("median with keywords")
    a = asarr(a)
    a = a.reshape(-1) if axis is None else \
        S.struct_call('moveaxis', (a, axis, 0), {})
    a, n = S.sort(a, 0), a.shape[0]
    return a[n // 2] * 1.0 if n % 2 else (a[n // 2 - 1] + a[n // 2]) / 2


@handler('iscomplex')
def iscomplex(x):
    return asarr(x).imag != 0


@handler('isposinf')
def isposinf(x):
    x = asarr(x)
    return ufunc('isinf', x) & (x > 0)


@handler('isneginf')
def isneginf(x):
    x = asarr(x)
    return ufunc('isinf', x) & (x < 0)


@handler('ldexp')
def ldexp(x, n):
    return asarr(x) * 2.0**asarr(n)


@handler('compress')
def compress(cond, a, axis=None, out=None):
    return asarr(a).compress(cond, axis)


@handler('ptp')
def ptp(a, axis=None):
    a = asarr(a)
    return a.max(axis) - a.min(axis)


@handler('argsort')
def argsort(a, axis=-1, **kw):
    return S.argsort(a, axis)


@handler('sort')
def sort(a, axis=-1, **kw):
    return S.sort(a, axis)


@handler('argmax')
def argmax(a, axis=None, **kw):
    return asarr(a).argmax(axis)


@handler('argmin')
def argmin(a, axis=None, **kw):
    return asarr(a).argmin(axis)


@handler('nonzero')
def nonzero(a):
    return asarr(a).nonzero()


@handler('flatnonzero')
def flatnonzero(a):
    return asarr(a).ravel().nonzero()[0]


@handler('argwhere')
def argwhere(a):
    return S.struct_call('stack', (list(asarr(a).nonzero()), 1), {})


@handler('count_nonzero')
def count_nonzero(a, axis=None, **kw):
    return asarr(a).astype(bool).sum(axis)


@handler('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    return S.searchsorted(asarr(a), v, side, sorter)


@handler('digitize')
def digitize(x, bins, right=False):
    return S.searchsorted(asarr(bins), x, 'left' if right else 'right')


@handler('clip')
def clip(a, a_min=None, a_max=None, out=None, **kw):
    return S.clip(asarr(a) if not isinstance(a, _Sym) else a, a_min, a_max,
                  out)


@handler('round', 'around', 'round_')
def around(a, decimals=0, out=None):
    return S.np_round(a, decimals, out)


@handler('fix')
def fix(a):
    return ufunc('trunc', a)


@handler('modf')
def modf(x):
    t = ufunc('trunc', x)
    return ufunc('subtract', x, t), t


@handler('divmod')
def divmod_(a, b):
    return ufunc('floor_divide', a, b), ufunc('remainder', a, b)


@handler('where')
def where(c, a=None, b=None):
    return S.where(c, a, b)


@handler('choose')
def choose(sel, choices, out=None, mode='raise'):
    return S.choose(sel, choices, out, mode)


@handler('select')
def select(conds, choices, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = S.where(c, v, r)
    return r


@handler('piecewise')
def piecewise(x, condlist, funclist, *a, **k):
    raise Unsupported("np.piecewise")


@handler('putmask', 'place', 'copyto')
def copyto(dst, src, where=True, **kw):
    if where is True:
        dst[...] = src
    else:
        w = rnp.broadcast_to(build(where)[0], dst.shape)
        b = rnp.broadcast_to(build(src)[0], dst.shape)
        for i in rnp.ndindex(*dst.shape):
            c = T.tob(w[i])
            if c if type(c) is bool else ctx().decide(c):
                dst._a[i] = cast_elem(b[i], dst._dt)


@handler('unique')
def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **kw):
    a = asarr(a)
    v = list(a._a.ravel())
    order = S._argsort1(v)
    keep = []
    inv = [0] * len(v)
    counts = []
    for i in order:
        if keep:
            r = T.vcmp(v[i], v[keep[-1]], '==')
            if r if type(r) is bool else ctx().decide(r):
                inv[i] = len(keep) - 1
                counts[-1] += 1
                continue
        keep.append(i)
        inv[i] = len(keep) - 1
        counts.append(1)
    out = obj((len(keep),))
    for k, i in enumerate(keep):
        out[k] = v[i]
    res = [SymArray(out, a._dt)]
    if return_index:
        res.append(asarr(rnp.array(keep, int)))
    if return_inverse:
        res.append(asarr(rnp.array(inv, int)))
    if return_counts:
        res.append(asarr(rnp.array(counts, int)))
    return res[0] if len(res) == 1 else tuple(res)


@handler('diff')
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    parts = ([asarr(prepend).reshape(-1)] if prepend is not None else []) + \
        [a] + ([asarr(append).reshape(-1)] if append is not None else [])
    if len(parts) > 1:
        a = S.struct_call('concatenate', (parts,), {'axis': axis})
    for _ in range(n):
        hi = [slice(None)] * a.ndim
        lo = [slice(None)] * a.ndim
        hi[axis] = slice(1, None)
        lo[axis] = slice(None, -1)
        hi, lo = a[tuple(hi)], a[tuple(lo)]
        a = hi != lo if a._dt.kind == 'b' else hi - lo
    return a


@handler('ediff1d')
def ediff1d(a, **kw):
    return diff(asarr(a).ravel())


@handler('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    d = abs(a - b)
    r = d <= (atol + rtol * abs(b))
    fa = ufunc('isfinite', a) & ufunc('isfinite', b)
    eq = a == b
    return (fa & r) | eq


def _close(a, b, rtol, atol):
    """formula |a-b| <= atol + rtol*|b| without case splits"""
    if type(a) is Cx or type(b) is Cx:
        a, b = T.tocx(a), T.tocx(b)
        return T.b_and(_close(a.re, b.re, rtol, atol),
                       _close(a.im, b.im, rtol, atol))
    if type(a) is float or type(b) is float:
        return T.vcmp(a, b, '==')
    d = T.vsub(a, b)
    if is_num(d) and is_num(b):
        return abs(d) <= atol + rtol * abs(b)
    pos = T.vadd(atol, T.vmul(rtol, b))
    neg = T.vsub(atol, T.vmul(rtol, b))

    def le(lim):
        return T.b_and(T.vcmp(d, lim, '<='), T.vcmp(T.vneg(d), lim, '<='))
    return T.b_or(T.b_and(T.vcmp(b, 0, '>='), le(pos)),
                  T.b_and(T.vcmp(b, 0, '<'), le(neg)))


@handler('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    (a, _), (b, _) = operand(a), operand(b)
    a, b = rnp.broadcast_arrays(a, b)
    rtol, atol = conv(rtol), conv(atol)
    bs = [_close(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel())]
    return bool(SymScalar(S._fold('all', bs, None), BOOL))


@handler('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool((a == b).all())


@handler('array_equiv')
def array_equiv(a, b):
    try:
        return bool((asarr(a) == asarr(b)).all())
    except ValueError:
        return False


@handler('real')
def real(x):
    return asarr(x).real if not isinstance(x, _Sym) else x.real


@handler('imag')
def imag(x):
    return asarr(x).imag if not isinstance(x, _Sym) else x.imag


@handler('angle')
def angle(z, deg=False):
    raise Unsupported("angle")


@handler('matmul')
def matmul(a, b, out=None, **kw):
    r = S.matmul(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


S._handlers['dot'] = S.dot
S._handlers['tensordot'] = S.tensordot
S._handlers['einsum'] = S.einsum


@handler('inner')
def inner(a, b):
    a, b = asarr(a), asarr(b)
    return S.tensordot(a, b, axes=((a.ndim - 1,), (b.ndim - 1,)))


@handler('vdot')
def vdot(a, b):
    return S.matmul(asarr(a).ravel().conj(), asarr(b).ravel())


@handler('outer')
def outer(a, b, out=None):
    return asarr(a).ravel()[:, None] * asarr(b).ravel()[None, :]


@handler('kron')
def kron(a, b):
    a, b = asarr(a), asarr(b)
    n = max(a.ndim, b.ndim)
    sa = (1,) * (n - a.ndim) + a.shape
    sb = (1,) * (n - b.ndim) + b.shape
    r = a.reshape(tuple(k for i in sa for k in (i, 1))) \
        * b.reshape(tuple(k for i in sb for k in (1, i)))
    return r.reshape(tuple(i * j for i, j in zip(sa, sb)))


@handler('cross')
def cross(*a, **k):
    raise Unsupported("cross")


@handler('trace')
def trace(a, **k):
    return asarr(a).diagonal(**k).sum()


@handler('percentile', 'quantile', 'interp', 'convolve', 'correlate',
         'gradient', 'place')
def _nosup(*a, **k):
    raise Unsupported("numpy statistics function")


@handler('average')
def average(a, axis=None, weights=None):
    if weights is None:
        return asarr(a).mean(axis)
    w = asarr(weights)
    return (asarr(a) * w).sum(axis) / w.sum(axis)


@handler('isin', 'in1d')
def isin(a, b, **kw):
    a, b = asarr(a), asarr(b)
    return (a[..., None] == b.ravel()).any(-1)


@handler('union1d')
def union1d(a, b):
    return unique(S.struct_call('concatenate',
                                ([asarr(a).ravel(), asarr(b).ravel()],), {}))


@handler('setdiff1d', 'intersect1d')
def _sets(*a, **k):
    raise Unsupported("set operations")


@handler('triu', 'tril')
def _tri(*a, **k):
    raise Unsupported("tri")


def _triangle(name):
    def f(m, k=0):
        m = asarr(m)
        mask = getattr(rnp, name)(rnp.ones(m.shape, bool), k)
        return S.where(asarr(mask), m, 0)
    return f


S._handlers['triu'], S._handlers['tril'] = _triangle('triu'), _triangle('tril')


@handler('trapezoid', 'trapz')
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = S.struct_call('moveaxis', (asarr(y), axis, -1), {})
    d = dx if x is None else diff(asarr(x))
    return ((y[..., 1:] + y[..., :-1]) * d / 2).sum(-1)


@handler('polyval')
def polyval(p, x):
    p, r = asarr(p), 0 * asarr(x)
    for i in range(p.size):
        r = r * x + p[i]
    return r


@handler('block')
def block(arrays):
    def depth(a):
        return 1 + depth(a[0]) if isinstance(a, list) else 0

    def join(a, axis):
        if not isinstance(a, list):
            a = asarr(a)
            return a.reshape((1,) * (ndim - a.ndim) + a.shape)
        return S.struct_call('concatenate', ([join(i, axis + 1) for i in a],),
                             dict(axis=axis))
    levels = depth(arrays)

    def most(a):
        return max(most(i) for i in a) if isinstance(a, list) \
            else asarr(a).ndim
    ndim = max(levels, most(arrays))
    r = join(arrays, ndim - levels)
    return asarr(r)


@handler('row_stack')
def row_stack(arrays):
    return S.struct_call('vstack', (arrays,), {})


@handler('heaviside')
def heaviside(x, h0):
    x = asarr(x)
    return S.where(x > 0, 1.0, S.where(x == 0, h0, 0.0))


@handler('fmod')
def fmod(x, y):
    q = ufunc('trunc', asarr(x) / asarr(y))
    return x - q * y


@handler('put')
def put(a, ind, v, mode='raise'):
    v = asarr(v).ravel()
    for k, i in enumerate(S.norm_index(ind) if isinstance(ind, _Sym)
                          else rnp.ravel(ind)):
        ij = rnp.unravel_index(int(i), a.shape) if a.ndim != 1 else int(i)
        a[ij] = v[k % v.size]


@handler('putmask')
def putmask(a, mask, values):
    v, m = asarr(values).ravel(), S.norm_index(mask) \
        if isinstance(mask, _Sym) else mask
    m = rnp.asarray(m)
    for k, i in enumerate(rnp.ndindex(*a.shape)):
        if m[i]:
            a[i] = v[k % v.size]


@handler('fill_diagonal')
def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2:
        raise Unsupported("fill_diagonal")
    for i in range(min(a.shape)):
        a[i, i] = val


@handler('real_if_close')
def real_if_close(a, tol=100):
    a = asarr(a)
    if a._dt.kind != 'c':
        return a
    raise Unsupported("real_if_close")


@handler('isreal')
def isreal(a):
    return asarr(a).imag == 0


@handler('pad')
def pad(a, pad_width, mode='constant', constant_values=0, **kw):
    a = asarr(a)
    if mode not in ('constant', 'edge') or kw:
        raise Unsupported("pad mode")
    w = rnp.broadcast_to(rnp.asarray(pad_width, int), (a.ndim, 2))
    cv = asarr(constant_values)
    for ax in range(a.ndim):
        parts = [a]
        for side in (0, 1):
            n = int(w[ax, side])
            if not n:
                continue
            i = [slice(None)] * a.ndim
            i[ax] = slice(0, 1) if side == 0 else slice(a.shape[ax] - 1, None)
            if a.shape[ax] == 0:
                raise Unsupported("pad of empty array")
            e = a[tuple(i)]
            if mode == 'constant':
                c = cv
                while c.ndim:
                    c = c[side] if c.ndim == 1 and c.size == 2 else c[-1]
                e = full(e.shape, c, a._dt)
            e = S.struct_call('repeat', (e, n), dict(axis=ax))
            parts.insert(0 if side == 0 else len(parts), e)
        a = S.struct_call('concatenate', (parts,), dict(axis=ax))
    return a


@handler('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    if x._dt.kind == 'c':
        raise Unsupported("nan_to_num of complex numbers")
    r = S.where(ufunc('isnan', x), nan, x)
    big = rnp.finfo(float).max
    r = S.where(r == rnp.inf, big if posinf is None else posinf, r)
    return S.where(r == -rnp.inf, -big if neginf is None else neginf, r)


@handler('fromiter')
def fromiter(it, dtype, count=-1):
    return asarr(list(it), dtype)


@handler('apply_along_axis')
def apply_along_axis(f, axis, arr, *a, **k):
    arr = S.struct_call('moveaxis', (asarr(arr), axis, -1), {})
    lead = arr.shape[:-1]
    out = [asarr(f(arr[i], *a, **k)) for i in rnp.ndindex(*lead)]
    r = S.struct_call('stack', (out,), {})
    r = r.reshape(lead + out[0].shape)
    if out[0].ndim == 0:
        return r
    if out[0].ndim > 1:
        raise Unsupported("apply_along_axis")
    return S.struct_call('moveaxis', (r, -1, axis), {})


@handler('array2string', 'array_repr', 'array_str')
def _fmt(*a, **k):
    return '<sym>'


@handler('finfo')
def finfo(dt):
    if isinstance(dt, _Sym):
        dt = dt._dt
    return rnp.finfo(real_dtype(dt))


@handler('iinfo')
def iinfo(dt):
    return rnp.iinfo(real_dtype(dt))


@handler('dtype')
def np_dtype(x=None, *a, **k):
    return DtypeProxy(real_dtype(x))


@handler('may_share_memory', 'shares_memory')
def shares_memory(a, b, *k):
    if isinstance(a, _Sym) and isinstance(b, _Sym):
        return rnp.may_share_memory(a._a, b._a)
    return False


@handler('ix_')
def ix_(*args):
    return tuple(asarr(rnp.asarray(i)) for i in rnp.ix_(
        *[S.norm_index(a) if isinstance(a, _Sym) else a for a in args]))


@handler('indices')
def indices(dims, **k):
    return asarr(rnp.indices(dims))


@handler('ndindex')
def ndindex(*shape):
    return rnp.ndindex(*shape)


@handler('ndenumerate')
def ndenumerate(a):
    a = asarr(a)
    for i in rnp.ndindex(*a.shape):
        yield i, a[i]


@handler('errstate', 'seterr', 'printoptions')
def errstate(*a, **k):
    return rnp.errstate(**{x: v for x, v in k.items()})


class vectorize:
    def __init__(self, fn, otypes=None, **kw):
        self.fn = fn
        self.otypes = otypes

    def __call__(self, *args):
        ops = [asarr(a) for a in args]
        shp = rnp.broadcast_shapes(*[o.shape for o in ops])
        bs = [rnp.broadcast_to(o._a, shp) for o in ops]
        res = obj(shp)
        dts = []
        for i in rnp.ndindex(*shp):
            r = self.fn(*[SymScalar(b[i], o._dt) for b, o in zip(bs, ops)])
            a, dt = build(r)
            dts.append(dt)
            res[i] = a[()]
        dt = real_dtype(self.otypes[0]) if self.otypes else result_type(*dts)
        for i in rnp.ndindex(*shp):
            res[i] = cast_elem(res[i], dt)
        return wrap(res, dt) if shp else SymArray(res, dt)


# ------------------------------------------------------------------ SVD stub

def matches(a, b, solve=True):
    """elementwise identity of two object matrices"""
    if a.shape != b.shape:
        return False
    for x, y in zip(a.ravel(), b.ravel()):
        r = T.vcmp(x, y, '==')
        if r is True:
            continue
        if r is False or not solve or not ctx().known(r):
            return False
    return True


class SVDRegistry:
    """matrices whose singular value decomposition is known by construction"""
    def __init__(self):
        self.items = []
        self.opaque = False     # unknown ones give arbitrary factors
        self.nfresh = 0

    def fresh(self, a):
        """arbitrary u, s > 0, v of the right shape (no contract)"""
        m, n = a._a.shape
        k = min(m, n)
        self.nfresh += 1
        cplx = a._dt.kind == 'c'

        def gen(tag, shape, pos=False):
            out = S.obj(shape)
            for i in rnp.ndindex(*shape):
                nm = "svd%d.%s%s" % (self.nfresh, tag, list(i))
                x = T.gen_val(ctx().new_gen(nm, pos=pos))
                out[i] = x if pos or not cplx else T.Cx(
                    x, T.gen_val(ctx().new_gen(nm + 'i')))
            return out
        return gen('u', (m, k)), gen('s', (k,), True), gen('v', (n, k))

    def add(self, a, u, s, v):
        """a == u @ diag(s) @ v.T, columns orthonormal"""
        self.items.append((asarr(a)._a, asarr(u)._a, asarr(s)._a,
                           asarr(v)._a))

    def find(self, a):
        hit = self._find(a, False)
        return hit if hit is not None or self.opaque else self._find(a, True)

    def _find(self, a, solve):
        for m, u, s, v in self.items:
            for tr in (False, True):
                mm, uu, vv = (m, u, v) if not tr else (m.T, v, u)
                if matches(a, mm, solve):
                    return uu, s, vv
                if a.shape == mm.shape and a.shape[0] <= 6:
                    # row permutation
                    perm = []
                    for row in a:
                        for j in range(mm.shape[0]):
                            if j not in perm and matches(row, mm[j], solve):
                                perm.append(j)
                                break
                        else:
                            break
                    if len(perm) == a.shape[0]:
                        return uu[perm], s, vv
        return None


def svd_of(a, full_matrices=False):
    """contract of a thin SVD: returns u, s, vh"""
    a = asarr(a)
    if full_matrices:
        if a.shape[0] != a.shape[1]:
            raise Unsupported("full SVD")
    c = ctx()
    reg = getattr(c, 'svd_registry', None)
    hit = reg.find(a._a) if reg is not None else None
    if hit is None:
        real = S.to_real(a)
        if real is not None:
            u, s, vh = rnp.linalg.svd(real, full_matrices=False)
            return S.lift_result(u), S.lift_result(s), S.lift_result(vh)
        if reg is not None and reg.opaque:
            hit = reg.fresh(a)
    if hit is None:
        raise Unsupported("SVD of a matrix without registered decomposition")
    u, s, v = hit
    dt = a._dt if a._dt.kind == 'c' else F64
    vh = v.T
    return (SymArray(u.copy(), dt), SymArray(s.copy(), F64),
            SymArray(vh.copy(), dt))


class Linalg:
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
        u, s, vh = svd_of(a, full_matrices)
        if not compute_uv:
            return s
        return u, s, vh

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarr(x)
        if ord in (1, rnp.inf) and (x.ndim == 1 or isinstance(axis, int)):
            x = ufunc('absolute', x)
            return (x.sum if ord == 1 else x.max)(axis=axis,
                                                  keepdims=keepdims)
        if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim != 1):
            raise Unsupported("norm ord")
        return ufunc('sqrt', (abs(x)**2 if x._dt.kind == 'c' else x * x)
                     .sum(axis, keepdims=keepdims))

    @staticmethod
    def cond(x, p=None):
        _, s, _ = svd_of(x)
        return s[0] / s[-1]

    @staticmethod
    def multi_dot(arrays):
        r = asarr(arrays[0])
        for a in arrays[1:]:
            r = S.matmul(r, asarr(a))
        return r

    @staticmethod
    def matrix_power(a, n):
        a = asarr(a)
        if n < 0:
            raise Unsupported("matrix_power")
        r = asarr(rnp.eye(a.shape[0]))
        for _ in range(n):
            r = S.matmul(r, a)
        return r

    def __getattr__(self, name):
        fn = getattr(rnp.linalg, name)

        def f(*args, **kw):
            if S.has_sym([args, kw]):
                raise Unsupported("numpy.linalg.%s" % name)
            return S.concrete_call(fn, args, kw)
        return f


# ------------------------------------------------------------------ numpy proxy

_SPECIAL_TYPES = {}


class _Join:
    """r_ and c_ for slices, scalars and arrays of one axis"""
    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, key):
        if not S.has_sym([key]):
            return asarr((rnp.c_ if self.columns else rnp.r_)[key])
        parts = []
        for k in key if isinstance(key, tuple) else (key,):
            if isinstance(k, slice):
                if type(k.step) is complex:
                    k = linspace(k.start, k.stop, int(abs(k.step)))
                else:
                    k = arange(k.start or 0, k.stop, k.step)
            if isinstance(k, str):
                raise Unsupported("directive of r_")
            k = asarr(k)
            if self.columns:
                k = k.reshape(-1, 1) if k.ndim < 2 else k
            parts.append(k.reshape(1) if k.ndim == 0 else k)
        return S.struct_call('concatenate', (parts,), dict(
            axis=-1 if self.columns else 0))


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.linalg = Linalg()
        self.ndarray = SymArray
        self.vectorize = vectorize
        self.newaxis = None
        self.inf = float('inf')
        self.nan = float('nan')
        self.float64 = _TypeProxy(rnp.float64)
        self.float32 = _TypeProxy(rnp.float32)
        self.double = self.float64
        self.int64 = _TypeProxy(rnp.int64)
        self.int32 = _TypeProxy(rnp.int32)
        self.int_ = self.intp = self.int64
        self.complex128 = _TypeProxy(rnp.complex128)
        self.bool_ = self.bool = _TypeProxy(rnp.bool_)
        for n in ('generic', 'number', 'integer', 'signedinteger',
                  'unsignedinteger', 'inexact', 'floating',
                  'complexfloating'):
            setattr(self, n, _AbstractProxy(getattr(rnp, n)))
        self.e = rnp.e
        self.add = _UfuncProxy('add')
        self.__path__ = []
        self.r_, self.c_ = _Join(False), _Join(True)

    @property
    def pi(self):
        c = T._ctx
        return T.gen_val(c.pi_gen()) if c is not None else rnp.pi

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(rnp, name)           # AttributeError as in numpy
        if name in S._handlers:
            r = S._handlers[name]
        elif name in S.UF:
            r = _UfuncProxy(name)
        elif isinstance(v, type):
            if issubclass(v, rnp.generic):
                r = v
            else:
                r = v
        elif callable(v):
            def r(*args, **kw):
                return S.call_np(name, args, kw)
            r.__name__ = name
        else:
            r = v
        return r


class _UfuncProxy:
    def __init__(self, name):
        self.__name__ = name
        self._uf = getattr(rnp, name)

    def __call__(self, *a, **k):
        return ufunc(self.__name__, *a, **k)

    def reduce(self, a, axis=0, **kw):
        op = {'add': 'sum', 'multiply': 'prod', 'logical_and': 'all',
              'logical_or': 'any', 'maximum': 'max',
              'minimum': 'min'}.get(self.__name__)
        if op is None:
            raise Unsupported("%s.reduce" % self.__name__)
        return getattr(asarr(a), op)(axis=axis, **kw)

    def accumulate(self, a, axis=0, **kw):
        op = {'add': 'cumsum', 'multiply': 'cumprod'}.get(self.__name__)
        if op is not None:
            return getattr(asarr(a), op)(axis=axis)
        a = S.struct_call('moveaxis', (asarr(a), axis, 0), {})
        parts = [a[:1]]
        for i in range(1, a.shape[0]):
            parts.append(ufunc(self.__name__, parts[-1], a[i:i + 1]))
        r = S.struct_call('concatenate', (parts,), {'axis': 0})
        return S.struct_call('moveaxis', (r, 0, axis), {})

    def outer(self, a, b, **kw):
        a, b = asarr(a), asarr(b)
        return ufunc(self.__name__,
                     a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, indices, b=None):
        if self.__name__ not in ('add', 'subtract', 'multiply') \
                or isinstance(indices, tuple):
            raise Unsupported("ufunc.at")
        idx = S.norm_index(indices) if isinstance(indices, _Sym) \
            else rnp.asarray(indices)
        if rnp.asarray(idx).dtype == bool or rnp.ndim(idx) != 1:
            raise Unsupported("ufunc.at")
        b = asarr(b)
        for k, i in enumerate(idx):
            v = b[k] if b.ndim and b.shape[0] == len(idx) else \
                b[0] if b.ndim and b.shape[0] == 1 else b
            a[int(i)] = ufunc(self.__name__, a[int(i)], v)

    def reduceat(self, a, indices, axis=0, **kw):
        a = S.struct_call('moveaxis', (asarr(a), axis, 0), {})
        n, parts = a.shape[0], []
        idx = [int(i) for i in (S.norm_index(indices) if isinstance(
            indices, _Sym) else indices)]
        for i, j in zip(idx, idx[1:] + [n]):
            parts.append(self.reduce(a[i:j]) if j > i else a[i])
        return S.struct_call('moveaxis', (S.struct_call(
            'stack', (parts,), {}), 0, axis), {})


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymScalar):
            return issubclass(x._dt.type, cls._np)
        return isinstance(x, cls._np)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, '_np', c), cls._np)

    def __eq__(cls, o):
        if o is cls or o is cls._np:
            return True
        if not hasattr(cls, 'dtype'):
            return getattr(o, '_np', o) is cls._np
        return (isinstance(o, rnp.dtype) and o == rnp.dtype(cls._np)) or \
            (isinstance(o, DtypeProxy) and o._dt == rnp.dtype(cls._np))

    def __hash__(cls):
        return hash(cls._np)


def _TypeProxy(t):
    dt = rnp.dtype(t)

    class P(metaclass=_TypeMeta):
        _np = t
        dtype = dt
        _sym_builtin = {'f': builtins.float, 'i': builtins.int,
                        'c': builtins.complex, 'b': builtins.bool}[dt.kind] \
            if dt in (F64, I64, C128, BOOL) else None

        def __new__(cls, x=0):
            a = asarr(x, dt)
            return wrap(a._a, dt)
    P.__name__ = t.__name__
    if P._sym_builtin is None:
        del P._sym_builtin
    S.TYPES[dt] = P
    return P


def _AbstractProxy(t):
    """np.integer, np.floating, ...: classes for isinstance and issubdtype"""
    class P(metaclass=_TypeMeta):
        _np = t

        def __new__(cls, *a):
            raise TypeError("cannot create %r instances" % t.__name__)
    P.__name__ = t.__name__
    return P


# ------------------------------------------------------------------ math proxy

class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.inf = rmath.inf
        self.nan = rmath.nan

    @property
    def pi(self):
        c = T._ctx
        return T.gen_val(c.pi_gen()) if c is not None else rmath.pi

    def __getattr__(self, name):
        fn = getattr(rmath, name)
        if not callable(fn):
            return fn
        table = {'sqrt': T.vsqrt, 'exp': T.vexp, 'fabs': T.vabs,
                 'floor': T.vfloor, 'ceil': T.vceil, 'trunc': T.vtrunc,
                 'sinh': S._sinh, 'cosh': S._cosh, 'tanh': S._tanh,
                 'cos': S._trig(0), 'sin': S._trig(1), 'expm1': S._expm1,
                 'isnan': S._isnan, 'isinf': S._isinf,
                 'isfinite': S._isfinite, 'log': S._num1('log'),
                 'log10': S._num1('log10'), 'log2': S._num1('log2'),
                 'log1p': S._num1('log1p'), 'pow': T.vpow,
                 'copysign': S._copysign, 'hypot': S._hypot}
        if name in ('fsum', 'prod'):
            def total(xs, start=1):
                xs = list(xs)
                if not S.has_sym([xs, start]):
                    return fn(xs) if name == 'fsum' else fn(xs, start=start)
                r = start if name == 'prod' else 0.0
                for x in xs:
                    r = r * x if name == 'prod' else r + x
                return r
            return total
        if name == 'isclose':
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
                abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol))

        def f(*args, **kw):
            if S.has_sym([args, kw]):
                if name not in table:
                    raise Unsupported("math.%s" % name)
                r = table[name](*[elem(a) for a in args], **kw)
                if isinstance(r, z3.BoolRef):
                    return SymScalar(r, BOOL)
                return r
            a2 = []
            for a in args:
                if isinstance(a, _Sym):
                    a = a._a[()]
                if type(a) is Fraction and name not in ('gcd', 'comb',
                                                        'factorial'):
                    a = float(a) if a.denominator != 1 else int(a)
                a2.append(a)
            return fn(*a2, **kw)
        return f


# ------------------------------------------------------------------ builtins

def make_builtins():
    b = dict(vars(builtins))

    class FMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, builtins.float) or isinstance(x, Fraction) \
                or (isinstance(x, Val) and not x.isint) or \
                (isinstance(x, SymScalar) and x._dt == F64)

        def __subclasscheck__(cls, c):
            return issubclass(c, builtins.float)

        def __eq__(cls, o):
            return o is cls or o is builtins.float

        def __hash__(cls):
            return hash(builtins.float)

    class float_(metaclass=FMeta):
        _sym_builtin = builtins.float

        def __new__(cls, x=0.0):
            if isinstance(x, (Val, Fraction)):
                return x
            if isinstance(x, _Sym):
                if x.size != 1:
                    raise TypeError("only length-1 arrays can be converted to "
                                    "Python scalars")
                e = x._a.reshape(-1)[0]
                if type(e) is Cx:
                    raise TypeError("can't convert complex to float")
                e = T.tonum(e)
                return e if type(e) in (Val, float) else T.conv(e) \
                    if type(e) is not Fraction else S.Val_const(e)
            return builtins.float(x)

    class IMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, builtins.int) or \
                (isinstance(x, Val) and x.isint)

        def __subclasscheck__(cls, c):
            return issubclass(c, builtins.int)

        def __eq__(cls, o):
            return o is cls or o is builtins.int

        def __hash__(cls):
            return hash(builtins.int)

    class int_(metaclass=IMeta):
        _sym_builtin = builtins.int

        def __new__(cls, x=0, *a):
            if a:
                return builtins.int(x, *a)
            if isinstance(x, _Sym):
                if x.size != 1:
                    raise TypeError("only length-1 arrays can be converted to "
                                    "Python scalars")
                x = T.tonum(x._a.reshape(-1)[0])
            if isinstance(x, Val):
                return T.vtrunc(x)
            if isinstance(x, builtins.float):
                return builtins.int(x)
            return builtins.int(x)

    class CMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (builtins.complex, Cx)) or \
                (isinstance(x, SymScalar) and x._dt == C128)

        def __subclasscheck__(cls, c):
            return issubclass(c, builtins.complex)

        def __eq__(cls, o):
            return o is cls or o is builtins.complex

        def __hash__(cls):
            return hash(builtins.complex)

    class complex_(metaclass=CMeta):
        _sym_builtin = builtins.complex

        def __new__(cls, re=0, im=0):
            if isinstance(re, (Val, Cx, _Sym, Fraction)) or \
                    isinstance(im, (Val, Cx, _Sym, Fraction)):
                r = T.tocx(elem(re))
                if is_num(im) and im == 0:
                    return r
                i = elem(im)
                return Cx(T.vadd(r.re, 0), T.vadd(r.im, i))
            return builtins.complex(re, im)

    float_.__name__ = 'float'
    int_.__name__ = 'int'
    complex_.__name__ = 'complex'
    b['float'] = float_
    b['int'] = int_
    b['complex'] = complex_

    def range_(*a):
        return builtins.range(*[x.__index__() if not isinstance(x, int) else x
                                for x in a])
    b['range'] = _RangeProxy
    return b


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)


class _RangeProxy(metaclass=_RangeMeta):
    def __new__(cls, *a):
        return builtins.range(*[x.__index__() if not isinstance(x, int) else x
                                for x in a])
