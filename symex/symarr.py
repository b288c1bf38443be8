"""Arrays of symbolic elements with numpy semantics, and a numpy stand-in."""
import builtins
from fractions import Fraction
import math
import numpy as rnp
import z3

from . import terms as T
from .terms import Val, Cx, Unsupported, is_num, conv, ctx

import numpy.ma      # before xprec registers its type
import numpy.polynomial
import scipy.special
import scipy.linalg

try:
    from xprec import ddouble as DD
except Exception:              # pragma: no cover
    DD = None

F64 = rnp.dtype(float)
I64 = rnp.dtype(int)
C128 = rnp.dtype(complex)
BOOL = rnp.dtype(bool)


# ------------------------------------------------------------------ dtypes

TYPES = {}          # dtype -> stand-in for the scalar type (npproxy)


class DtypeProxy:
    """wraps a real dtype; ``type`` understands symbolic values"""
    def __init__(self, dt):
        self._dt = dt

    @property
    def type(self):
        def make(x=0):
            return SymScalar(cast_elem(elem(x), self._dt), self._dt)
        return TYPES.get(self._dt, make)

    def __eq__(self, o):
        o = real_dtype(o, strict=False)
        return o is not None and self._dt == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._dt)

    def __getattr__(self, name):
        return getattr(self._dt, name)

    def __repr__(self):
        return repr(self._dt)

    def __str__(self):
        return str(self._dt)


def real_dtype(x, strict=True):
    if isinstance(x, DtypeProxy):
        return x._dt
    if isinstance(x, type) and issubclass(x, rnp.generic):
        return rnp.dtype(x)
    if x is builtins.float or getattr(x, '_sym_builtin', None) is float:
        return F64
    if x is builtins.int or getattr(x, '_sym_builtin', None) is int:
        return I64
    if x is builtins.complex or getattr(x, '_sym_builtin', None) is complex:
        return C128
    if x is None and not strict:
        return None
    x = getattr(x, '_np', x)
    try:
        return rnp.dtype(x)
    except TypeError:
        if strict:
            raise
        return None


def kind(dt):
    if DD is not None and dt == DD:
        return 'f'
    return dt.kind


# ------------------------------------------------------------------ elements

def elem(x):
    """Python/numpy/symbolic scalar -> element"""
    if isinstance(x, _Sym):
        if x._a.ndim:
            raise TypeError("only 0-dimensional arrays can be converted")
        return x._a[()]
    return conv(x)


def weak_of(e):
    """Python scalar type used for promotion of a bare scalar"""
    t = type(e)
    if t is bool or isinstance(e, z3.BoolRef):
        return builtins.bool
    if t is Cx or t is builtins.complex:
        return builtins.complex
    if t is int or (t is Val and e.isint):
        return builtins.int
    return builtins.float


def cast_elem(e, dt):
    """conversion of one element to the given dtype"""
    k = kind(dt)
    t = type(e)
    if k == 'b':
        return T.tob(e)
    if k in 'iu':
        if t is Cx:
            e = e.re
            t = type(e)
        if t is bool:
            return int(e)
        if t is int:
            return _wrap_int(e, dt)
        if isinstance(e, z3.BoolRef):
            return T.tonum(e)
        if t is float:
            return -2**63 if dt.itemsize == 8 else -2**31
        r = T.vtrunc(e)
        return _wrap_int(r, dt)
    if k == 'f':
        if t is Cx:
            return e.re
        if t is bool:
            return int(e)
        if isinstance(e, z3.BoolRef):
            return T.tonum(e)
        return T.vtofloat(e) if t is int or t is Val and e.isint else e
    if k == 'c':
        if t is Cx:
            return e
        return Cx(T.tonum(e), 0)
    return e


def _wrap_int(e, dt):
    bits = dt.itemsize * 8
    if dt.kind == 'u':
        if type(e) is int:
            return e % 2**bits
        raise Unsupported("symbolic unsigned integer")
    lo, hi = -2**(bits-1), 2**(bits-1)
    if type(e) is int:
        if lo <= e < hi:
            return e
        if bits == 64:
            return lo
        return (e - lo) % 2**bits + lo
    inside = T.b_and(T.vcmp(e, lo, '>='), T.vcmp(e, hi, '<'))
    if ctx().decide(inside):
        return e
    if bits == 64:
        return lo
    return T.vadd(T.vmod(T.vsub(e, lo), 2**bits), lo)


def junk(dt):
    """value of uninitialised memory"""
    c = ctx()
    k = kind(dt)
    if k == 'c':
        return Cx(T.gen_val(c.new_gen('junk')), T.gen_val(c.new_gen('junk')))
    if k in 'iu':
        return T.gen_val(c.new_gen('junk', isint=True))
    if k == 'b':
        return T.vcmp(T.gen_val(c.new_gen('junk')), 0, '>')
    return T.gen_val(c.new_gen('junk'))


def obj(shape, fill=None):
    a = rnp.empty(shape, object)
    if fill is not None:
        a.fill(fill)
    return a


def build(x):
    """nested python data -> (object array, dtype, weak?)"""
    if isinstance(x, _Sym):
        return x._a, x._dt
    if isinstance(x, rnp.ndarray):
        if x.dtype == object:
            a = obj(x.shape)
            for i in rnp.ndindex(*x.shape):
                a[i] = elem(x[i])
            return a, guess_dtype(a)
        return from_real(x), x.dtype
    if isinstance(x, rnp.generic):
        return from_real(rnp.asarray(x)), x.dtype
    if isinstance(x, (list, tuple, range)):
        parts = [build(i) for i in x]
        if not parts:
            return obj((0,)), F64
        sh = parts[0][0].shape
        for a, _ in parts:
            if a.shape != sh:
                raise ValueError("setting an array element with a sequence. "
                                 "The requested array has an inhomogeneous "
                                 "shape")
        r = obj((len(parts),) + sh)
        for i, (a, _) in enumerate(parts):
            r[i] = a if sh else a[()]
        return r, result_type(*[d for _, d in parts])
    if hasattr(x, '__array__') and not isinstance(x, (Val, Cx, z3.BoolRef)):
        return build(x.__array__())
    if x is None or isinstance(x, (str, bytes)) or callable(x):
        raise Unsupported("array of %r" % (type(x),))
    e = elem(x)
    a = obj(())
    a[()] = e
    return a, F64 if type(x) is builtins.float else \
        {bool: BOOL, int: I64, float: F64, complex: C128}[weak_of(e)]


def guess_dtype(a):
    ts = {weak_of(e) for e in a.ravel()}
    for t, d in ((complex, C128), (float, F64), (int, I64), (bool, BOOL)):
        if t in ts:
            return d
    return F64


def from_real(x):
    a = obj(x.shape)
    flat = a.reshape(-1)
    if x.dtype.kind in 'biufc':
        for i, e in enumerate(x.ravel().tolist()):
            flat[i] = conv(e)
    else:
        for i, e in enumerate(x.ravel()):
            flat[i] = conv_dd(e)
    return flat.reshape(x.shape)


def conv_dd(e):
    try:
        hi = float(e)
        lo = float(e - e.dtype.type(hi)) if hasattr(e, 'dtype') else 0.0
        h, l = conv(hi), conv(lo)
        if type(h) is float:
            return h
        return T._norm_c(Fraction(h) + Fraction(l))
    except Exception:
        raise Unsupported("cannot convert element %r" % (type(e),))


def to_real(x):
    """real numpy array if no element is symbolic, else None"""
    if not isinstance(x, _Sym):
        return rnp.asarray(x)
    k = kind(x._dt)
    dt = x._dt if DD is None or x._dt != DD else F64
    r = rnp.empty(x._a.shape, dt)
    flat = r.reshape(-1) if r.ndim else r.reshape(1)
    for i, e in enumerate(x._a.ravel()):
        if type(e) is Val or isinstance(e, z3.BoolRef):
            return None
        if type(e) is Cx:
            if type(e.re) is Val or type(e.im) is Val:
                return None
            flat[i] = complex(float(e.re), float(e.im))
        else:
            flat[i] = e if k in 'iub' else float(e)
    return r


def result_type(*ds):
    ds = [d for d in ds]
    if DD is not None and any(not isinstance(d, type) and d == DD for d in ds):
        return DD if isinstance(DD, rnp.dtype) else rnp.dtype(DD)
    strong = [d for d in ds if not isinstance(d, type)]
    weak = [{bool: True, int: 1, float: 1.0, complex: 1j}[d]
            for d in ds if isinstance(d, type)]
    return rnp.result_type(*strong, *weak)


def wrap(a, dt):
    """object array or bare element -> SymArray/SymScalar"""
    if isinstance(a, rnp.ndarray):
        if a.ndim == 0:
            return SymScalar(a[()], dt)
        return SymArray(a, dt)
    return SymScalar(a, dt)


def wrapb(r):
    """formula -> something with python truth value"""
    if type(r) is bool:
        return r
    return SymScalar(r, BOOL)


# ------------------------------------------------------------------ ufuncs

def _bit(op):
    def f(a, b):
        ba = type(a) is bool or isinstance(a, z3.BoolRef)
        bb = type(b) is bool or isinstance(b, z3.BoolRef)
        if ba and bb:
            return {'&': T.b_and, '|': T.b_or, '^': T.b_xor}[op](a, b)
        a, b = T.tonum(a), T.tonum(b)
        if is_num(a) and is_num(b):
            return {'&': a & b, '|': a | b, '^': a ^ b}[op]
        if op == '&':
            if is_num(a):
                a, b = b, a
            if is_num(b) and b >= 0 and (b & (b + 1)) == 0:
                return T.vmod(a, b + 1)
            if is_num(b) and b == -2:
                return T.vsub(a, T.vmod(a, 2))
        if op == '|' and (a == 1 if is_num(a) else is_num(b) and b == 1):
            if is_num(a):
                a = b
            return T.vadd(T.vsub(a, T.vmod(a, 2)), 1)
        if op == '^':
            if is_num(a):
                a, b = b, a
            if is_num(b) and b == 1:
                return T.vadd(a, T.vsub(1, T.vmul(2, T.vmod(a, 2))))
        # general: case split on the values
        return _bit(op)(ctx().concretize(a), ctx().concretize(b))
    return f


def _invert(a):
    if type(a) is bool or isinstance(a, z3.BoolRef):
        return T.b_not(a)
    return T.vsub(T.vneg(a), 1)


def _sign(a):
    a = T.tonum(a)
    if type(a) is float and a != a:
        return a
    if is_num(a) or type(a) is float:
        return (a > 0) - (a < 0)
    if type(a) is Cx:
        raise Unsupported("complex sign")
    if ctx().merge:
        return T.vite(T.vcmp(a, 0, '>'), 1, T.vite(T.vcmp(a, 0, '=='), 0, -1))
    return ctx().sign(a)


def _maximum(a, b):
    if type(a) is float and a != a:
        return a
    if type(b) is float and b != b:
        return b
    return T.vite(T.vcmp(a, b, '>='), a, b)


def _minimum(a, b):
    if type(a) is float and a != a:
        return a
    if type(b) is float and b != b:
        return b
    return T.vite(T.vcmp(a, b, '<='), a, b)


def _floor(a):
    return T.vfloor(T.tonum(a))


def _expm1(a):
    return T.vsub(T.vexp(a), 1)


def _half(a):
    return T.vmul(a, Fraction(1, 2))


def _sinh(a):
    return _half(T.vsub(T.vexp(a), T.vexp(T.vneg(a))))


def _cosh(a):
    return _half(T.vadd(T.vexp(a), T.vexp(T.vneg(a))))


def _tanh(a):
    a = T.tonum(a)
    if type(a) is float:
        return conv(math.tanh(a))
    c = ctx()
    n = len(c.exp_args) if not is_num(a) else 0
    e = T.vexp(T.vmul(a, 2))
    if not is_num(a):
        del c.exp_args[n:]          # tanh does not overflow
    elif type(e) is float:
        return conv(math.tanh(float(a)))
    return T.vdiv(T.vsub(e, 1), T.vadd(e, 1))


def _cexp(a):
    return T.vexp(a)


def _isnan(a):
    if type(a) is Cx:
        return T.b_or(_isnan(a.re), _isnan(a.im))
    return type(a) is float and a != a


def _isinf(a):
    if type(a) is Cx:
        return T.b_or(_isinf(a.re), _isinf(a.im))
    return type(a) is float and a == a


def _isfinite(a):
    if type(a) is Cx:
        return T.b_and(_isfinite(a.re), _isfinite(a.im))
    return type(a) is not float


def _conj(a):
    return a.conjugate() if type(a) is Cx else a


def _trig(which):
    def f(a):
        if type(a) is float:
            return T.NAN
        return T.vcossin(a)[which]
    return f


def _num1(name):
    """function evaluated numerically on concrete arguments only"""
    def f(a):
        a = T.tonum(a)
        if type(a) is Val or type(a) is Cx:
            return _opaque(name, a)
        with rnp.errstate(all='ignore'):
            return conv(float(getattr(rnp, name)(float(a))))
    return f


def _opaque(name, a):
    c = ctx()
    if type(a) is Val and name in ('log', 'log10', 'log2', 'log1p'):
        if name == 'log1p':
            a = T.vadd(a, 1)
            name = 'log'
        if is_num(a):
            return _num1(name)(a)
        key = (name, a.key())
        g = c.cache.get(key)
        if g is None:
            g = c.new_gen(name)
            v = T.gen_val(g)
            c.cache[key] = g
            for op in ('<', '>', '=='):
                c.define(z3.Implies(T.zb(T.vcmp(a, 1, op)),
                                    T.zb(T.vcmp(v, 0, op))))
            # monotone against earlier logs and against a few anchors
            base = {'log': math.e, 'log10': 10., 'log2': 2.}[name]
            for e in ([Fraction(i, 40) for i in range(-120, 361)]
                      if name == 'log10' else range(-3, 9)):
                k = conv(base ** float(e))
                for op in ('<', '>'):
                    c.define(z3.Implies(T.zb(T.vcmp(a, k, op)),
                                        T.zb(T.vcmp(v, e, op))))
        return T.gen_val(g)
    raise Unsupported("function %s of symbolic argument" % name)


def _arctan2(a, b):
    return _num2('arctan2', a, b)


def _num2(name, a, b):
    if type(a) in (Val, Cx) or type(b) in (Val, Cx):
        raise Unsupported(name)
    return conv(float(getattr(rnp, name)(float(a), float(b))))


def _power(a, b):
    if type(a) is int and type(b) is int and b < 0:
        raise ValueError("Integers to negative integer powers are not allowed.")
    return T.vpow(a, b)


def _fpower(a, b):
    return T.vpow(a, b)


def _hypot(a, b):
    return T.vsqrt(T.vadd(T.vmul(a, a), T.vmul(b, b)))


def _copysign(a, b):
    r = T.vabs(a)
    return T.vite(T.vcmp(b, 0, '<'), T.vneg(r), r)


def _cmp(op):
    return lambda a, b: T.vcmp(a, b, op)


def _fabs(a):
    return T.vabs(a)


def _lshift(a, b):
    return T.vmul(a, 2**ctx().concretize(b) if type(b) is Val else 2**b)


def _rshift(a, b):
    return T.vfloordiv(a, 2**ctx().concretize(b) if type(b) is Val else 2**b)


UF = {
    'add': (T.vadd, 2), 'subtract': (T.vsub, 2), 'multiply': (T.vmul, 2),
    'divide': (T.vdiv, 2), 'true_divide': (T.vdiv, 2),
    'floor_divide': (T.vfloordiv, 2), 'remainder': (T.vmod, 2),
    'mod': (T.vmod, 2), 'power': (_power, 2), 'float_power': (_fpower, 2),
    'negative': (T.vneg, 1), 'positive': (lambda a: a, 1),
    'absolute': (T.vabs, 1), 'abs': (T.vabs, 1), 'fabs': (_fabs, 1),
    'exp': (_cexp, 1), 'expm1': (_expm1, 1), 'sqrt': (T.vsqrt, 1),
    'sinh': (_sinh, 1), 'cosh': (_cosh, 1), 'tanh': (_tanh, 1),
    'cos': (_trig(0), 1), 'sin': (_trig(1), 1),
    'tan': (lambda a: T.vdiv(_trig(1)(a), _trig(0)(a)), 1),
    'square': (lambda a: T.vmul(a, a), 1),
    'reciprocal': (lambda a: T.vdiv(1, a), 1),
    'sign': (_sign, 1), 'signbit': (lambda a: T.vcmp(a, 0, '<'), 1),
    'floor': (_floor, 1), 'ceil': (lambda a: T.vceil(T.tonum(a)), 1),
    'trunc': (lambda a: T.vtrunc(T.tonum(a)), 1),
    'rint': (lambda a: T.vround(T.tonum(a)), 1),
    'conjugate': (_conj, 1), 'conj': (_conj, 1),
    'maximum': (_maximum, 2), 'minimum': (_minimum, 2),
    'fmax': (_maximum, 2), 'fmin': (_minimum, 2),
    'less': (_cmp('<'), 2), 'less_equal': (_cmp('<='), 2),
    'greater': (_cmp('>'), 2), 'greater_equal': (_cmp('>='), 2),
    'equal': (_cmp('=='), 2), 'not_equal': (_cmp('!='), 2),
    'logical_and': (lambda a, b: T.b_and(T.tob(a), T.tob(b)), 2),
    'logical_or': (lambda a, b: T.b_or(T.tob(a), T.tob(b)), 2),
    'logical_xor': (lambda a, b: T.b_xor(T.tob(a), T.tob(b)), 2),
    'logical_not': (lambda a: T.b_not(T.tob(a)), 1),
    'bitwise_and': (_bit('&'), 2), 'bitwise_or': (_bit('|'), 2),
    'bitwise_xor': (_bit('^'), 2), 'invert': (_invert, 1),
    'bitwise_not': (_invert, 1),
    'left_shift': (_lshift, 2), 'right_shift': (_rshift, 2),
    'isnan': (_isnan, 1), 'isinf': (_isinf, 1), 'isfinite': (_isfinite, 1),
    'hypot': (_hypot, 2), 'copysign': (_copysign, 2),
    'arctan2': (_arctan2, 2),
    'deg2rad': (lambda a: T.vdiv(T.vmul(a, T.gen_val(ctx().pi_gen())), 180), 1),
}
for _n in ('log', 'log10', 'log2', 'log1p', 'arctan', 'arcsin', 'arccos',
           'arcsinh', 'arccosh', 'arctanh', 'cbrt', 'exp2', 'spacing'):
    UF[_n] = (_num1(_n), 1)

BOOL_OUT = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
            'not_equal', 'logical_and', 'logical_or', 'logical_xor',
            'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}

_rdt_cache = {}


def uf_dtype(name, ds):
    """result dtype; ds are dtypes or weak python types"""
    key = (name, tuple(ds))
    r = _rdt_cache.get(key)
    if r is not None:
        return r
    if name in BOOL_OUT:
        r = BOOL
    elif DD is not None and any(not isinstance(d, type) and d == DD
                                for d in ds):
        r = rnp.dtype(DD) if not isinstance(DD, rnp.dtype) else DD
    else:
        uf = getattr(rnp, name)
        ins = []
        for d in ds:
            if isinstance(d, type):
                # weak bool is strong
                ins.append(BOOL if d is bool else d)
            else:
                ins.append(d)
        if all(isinstance(i, type) for i in ins):
            ins = [rnp.dtype(i) for i in ins]
        if uf.nin == 1 and isinstance(ins[0], type):
            ins = [rnp.dtype(ins[0])]
        r = uf.resolve_dtypes(tuple(ins) + (None,) * uf.nout)[-1]
    _rdt_cache[key] = r
    return r


def operand(x):
    """(object array, dtype or weak type)"""
    if isinstance(x, _Sym):
        return x._a, x._dt
    if isinstance(x, (rnp.ndarray, rnp.generic)):
        return build(x)
    if isinstance(x, (list, tuple, range)):
        return build(x)
    if hasattr(x, '__array__') and not isinstance(x, (Val, Cx, z3.BoolRef)):
        return build(x)
    if x is None or isinstance(x, (str, bytes, dict)):
        raise TypeError("unsupported operand type for numpy operation: %r"
                        % (type(x),))
    e = elem(x)
    a = obj(())
    a[()] = e
    return a, builtins.float if type(x) is builtins.float else weak_of(e)


_frompy = {}


def ufunc(name, *args, out=None, where=True, dtype=None, casting='same_kind',
          **kw):
    if kw:
        raise Unsupported("ufunc keyword %s" % list(kw))
    fn, nin = UF[name]
    if len(args) > nin:
        if out is None and len(args) == nin + 1:
            out = args[nin]
            args = args[:nin]
        else:
            raise TypeError("too many arguments to %s" % name)
    elif len(args) < nin:
        raise TypeError("too few arguments to %s" % name)
    if isinstance(out, tuple):
        out, = out
    ops = [operand(a) for a in args]
    if dtype is None:
        try:
            rdt = uf_dtype(name, [d for _, d in ops])
        except TypeError:
            raise TypeError("ufunc %r not supported for the input types" % name)
    else:
        rdt = real_dtype(dtype)
    if name == 'absolute' and False:
        pass
    arrs = [a for a, _ in ops]
    intdiv = False
    if name in ('power',) and rdt.kind == 'i':
        fnn = _power
    elif name == 'power':
        fnn = T.vpow
    elif name == 'reciprocal' and rdt.kind in 'iu':
        fnn = lambda a: T.vtrunc(T.vdiv(1, a))
    elif name in BOOL_OUT or name in ('bitwise_and', 'bitwise_or',
                                      'bitwise_xor', 'invert',
                                      'bitwise_not'):
        fnn = fn
    elif name in ('add', 'maximum') and rdt.kind == 'b':
        fnn = T.b_or
    elif name in ('multiply', 'minimum') and rdt.kind == 'b':
        fnn = T.b_and
    else:
        fnn = fn
    if where is not True:
        warr = build(where)[0]
        shp = rnp.broadcast_shapes(*[a.shape for a in arrs], warr.shape)
    else:
        warr = None
        shp = rnp.broadcast_shapes(*[a.shape for a in arrs]) if arrs else ()
    ck = rdt.kind == 'c'
    if out is not None:
        if not isinstance(out, SymArray):
            raise TypeError("return arrays must be of ArrayType")
        if not rnp.can_cast(rdt, out._dt, casting):
            raise rnp.exceptions.ComplexWarning if False else TypeError(
                "Cannot cast ufunc %r output from %s to %s with casting rule "
                "%r" % (name, rdt, out._dt, casting))
        if rnp.broadcast_shapes(shp, out._a.shape) != out._a.shape:
            raise ValueError("non-broadcastable output operand")
        shp = out._a.shape
    barr = [rnp.broadcast_to(a, shp) for a in arrs]
    if warr is not None:
        warr = rnp.broadcast_to(warr, shp)
    res = obj(shp)
    base = out._a if out is not None else None
    odt = out._dt if out is not None else rdt
    for i in rnp.ndindex(*shp):
        if warr is not None:
            w = warr[i]
            if type(w) is not bool:
                w = T.tob(w)
                if type(w) is not bool:
                    w = ctx().decide(w)
            if not w:
                res[i] = base[i] if base is not None else junk(rdt)
                continue
        r = fnn(*[b[i] for b in barr])
        if ck and type(r) is not Cx:
            r = Cx(r, 0)
        if odt is not rdt and odt != rdt:
            r = cast_elem(r, odt)
        res[i] = r
    if out is not None:
        out._a[...] = res
        return out
    return wrap(res, rdt)


def binary(name, swap=False):
    def f(self, o):
        if isinstance(o, (str, bytes, dict)) or o is None:
            return NotImplemented
        if isinstance(o, (rnp.polynomial.polynomial.ABCPolyBase,)) \
                if hasattr(rnp.polynomial.polynomial, 'ABCPolyBase') else False:
            return NotImplemented
        if swap:
            return ufunc(name, o, self)
        return ufunc(name, self, o)
    return f


def inplace(name):
    def f(self, o):
        if isinstance(self, SymArray):
            return ufunc(name, self, o, out=self)
        return ufunc(name, self, o)
    return f


class Uninit:
    """marker of uninitialised memory, replaced on first read"""


# ---- bare symbolic scalars (Python numbers)

def _patch_bare():
    two = {'add': T.vadd, 'sub': T.vsub, 'mul': T.vmul, 'truediv': T.vdiv,
           'floordiv': T.vfloordiv, 'mod': T.vmod, 'pow': T.vpow}

    def mk(fn, rev, numeric=True):
        def f(self, o):
            if isinstance(o, (_Sym, rnp.ndarray)):
                return NotImplemented
            if o is None or isinstance(o, (str, bytes, list, tuple, dict)):
                return NotImplemented
            if isinstance(o, rnp.generic):
                # result would be a numpy scalar
                return wrap(fn(conv(o), self) if rev else fn(self, conv(o)),
                            C128 if type(self) is Cx else F64)
            o = conv(o)
            return fn(o, self) if rev else fn(self, o)
        return f

    def mkc(op):
        def f(self, o):
            if isinstance(o, (_Sym, rnp.ndarray)):
                return NotImplemented
            if o is None or isinstance(o, (str, bytes, list, tuple, dict)):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            return wrapb(T.vcmp(self, conv(o), op))
        return f
    for cls in (Val, Cx):
        for n, fn in two.items():
            setattr(cls, '__%s__' % n, mk(fn, False))
            setattr(cls, '__r%s__' % n, mk(fn, True))
        for n, op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='),
                      ('eq', '=='), ('ne', '!=')):
            if cls is Cx and n not in ('eq', 'ne'):
                continue
            setattr(cls, '__%s__' % n, mkc(op))
        cls.__abs__ = lambda self: T.vabs(self)
        cls.__format__ = lambda self, spec: '<sym>'
        cls.__array_ufunc__ = None

    def vint(self):
        r = T.vtrunc(self)
        return r if type(r) is int else ctx().concretize(r)

    def vindex(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        return ctx().concretize(self)

    def vfloat(self):
        raise Unsupported("float() of symbolic value")
    Val.__int__ = vint
    Val.__trunc__ = lambda self: T.vtrunc(self)
    Val.__floor__ = lambda self: T.vfloor(self)
    Val.__ceil__ = lambda self: T.vceil(self)
    Val.__round__ = lambda self, n=None: T.vround(self)
    Val.__float__ = vfloat
    Val.__index__ = vindex
    Val.real = property(lambda self: self)
    Val.imag = property(lambda self: 0)
    Val.is_integer = lambda self: wrapb(
        T.vcmp(self, T.vfloor(self), '=='))
    Cx.real = property(lambda self: self.re)
    Cx.imag = property(lambda self: self.im)
    Cx.__bool__ = lambda self: ctx().decide(T.zb(self))
    for n in ('and', 'or', 'xor'):
        pass


_patch_bare()


# ------------------------------------------------------------------ indexing

def norm_index(idx):
    """index expression with symbolic parts -> concrete one"""
    tup = idx if isinstance(idx, tuple) else (idx,)
    out = []
    for i in tup:
        if isinstance(i, slice):
            out.append(slice(_ci(i.start), _ci(i.stop), _ci(i.step)))
        elif i is None or i is Ellipsis or isinstance(i, (int, rnp.integer)) \
                and not isinstance(i, bool):
            out.append(i)
        elif isinstance(i, (bool, rnp.bool_)):
            out.append(bool(i))
        elif isinstance(i, (rnp.ndarray,)):
            out.append(i)
        elif isinstance(i, Val):
            out.append(_ci(i))
        elif isinstance(i, (list, _Sym, range)) or isinstance(i, tuple):
            a, dt = build(i) if not isinstance(i, _Sym) else (i._a, i._dt)
            if a.size == 0 and isinstance(i, (list, tuple)):
                out.append(rnp.zeros(a.shape, int))
            elif dt.kind == 'b':
                r = rnp.empty(a.shape, bool)
                for j in rnp.ndindex(*a.shape):
                    e = T.tob(a[j])
                    r[j] = e if type(e) is bool else ctx().decide(e)
                out.append(r if r.ndim else bool(r))
            elif dt.kind in 'iu':
                r = rnp.empty(a.shape, int)
                for j in rnp.ndindex(*a.shape):
                    r[j] = ctx().concretize(a[j]) if type(a[j]) is Val else a[j]
                out.append(int(r) if isinstance(i, SymScalar) else r)
            else:
                raise IndexError("only integers, slices (`:`), ellipsis "
                                 "(`...`), numpy.newaxis (`None`) and integer "
                                 "or boolean arrays are valid indices")
        elif hasattr(i, '__index__'):
            out.append(i.__index__())
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
    return tuple(out) if isinstance(idx, tuple) else out[0]


def _ci(x):
    if x is None:
        return None
    if isinstance(x, SymScalar):
        if x._dt.kind not in 'iu':
            raise TypeError("slice indices must be integers or None or have "
                            "an __index__ method")
        x = x._a[()]
    if isinstance(x, Val):
        if not x.isint:
            raise TypeError("slice indices must be integers or None or have "
                            "an __index__ method")
        return ctx().concretize(x)
    return x


def _isbasic(idx):
    tup = idx if isinstance(idx, tuple) else (idx,)
    return all(isinstance(i, (slice, int, rnp.integer, type(None),
                              type(Ellipsis))) and not isinstance(i, bool)
               for i in tup)


class _Flags:
    def __init__(self, f):
        self._f = f

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __getitem__(self, n):
        return self._f[n]


class _Sym:
    __slots__ = ()
    __array_priority__ = 1e6

    # ---- numpy protocol (real numpy called on us by accident)
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        if method == '__call__' and uf.__name__ in UF:
            out = kw.get('out')
            if out is not None and any(isinstance(o, rnp.ndarray) for o in out):
                raise Unsupported("symbolic result into concrete array")
            return ufunc(uf.__name__, *inputs, **kw)
        if method == '__call__' and uf.__name__ == 'matmul':
            return matmul(*inputs)
        if method == 'reduce' and uf.__name__ == 'add':
            return asarr(inputs[0]).sum(axis=kw.get('axis', 0))
        raise Unsupported("numpy ufunc %s.%s" % (uf.__name__, method))

    def __array_function__(self, func, types, args, kwargs):
        return call_np(func.__name__, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        r = to_real(self)
        if r is None:
            raise Unsupported("symbolic array passed to compiled code")
        return r if dtype is None else r.astype(dtype)

    # ---- attributes
    @property
    def dtype(self): return DtypeProxy(self._dt)
    @property
    def shape(self): return self._a.shape
    @property
    def ndim(self): return self._a.ndim
    @property
    def size(self): return self._a.size
    @property
    def itemsize(self): return self._dt.itemsize
    @property
    def nbytes(self): return self._dt.itemsize * self._a.size
    @property
    def T(self): return wrap(self._a.T, self._dt) if self.ndim else self
    @property
    def mT(self): return wrap(rnp.swapaxes(self._a, -1, -2), self._dt)
    @property
    def flags(self): return _Flags(self._a.flags)
    @property
    def flat(self): return _Flat(self)

    @property
    def base(self): return self._a.base

    @property
    def real(self):
        if self._dt.kind != 'c':
            return self
        r = obj(self._a.shape)
        for i in rnp.ndindex(*r.shape):
            e = self._a[i]
            r[i] = e.re if type(e) is Cx else e
        return _part(r, F64, self, 're')

    @property
    def imag(self):
        r = obj(self._a.shape)
        for i in rnp.ndindex(*r.shape):
            e = self._a[i]
            r[i] = e.im if type(e) is Cx else 0
        if self._dt.kind != 'c':
            return _ro(r, self._dt)
        return _part(r, F64, self, 'im')

    def conj(self): return ufunc('conjugate', self)
    conjugate = conj

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = real_dtype(dtype)
        if not rnp.can_cast(self._dt, dt, casting) and casting != 'unsafe':
            raise TypeError("Cannot cast array data")
        if dt == self._dt and not copy:
            return self
        r = obj(self._a.shape)
        for i in rnp.ndindex(*r.shape):
            r[i] = cast_elem(self._a[i], dt)
        return wrap(r, dt)

    def copy(self, order='C'):
        return wrap(self._a.copy(), self._dt)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("view with dtype")
        return wrap(self._a, self._dt)

    def tolist(self):
        def f(a):
            if a.ndim == 0:
                return pyscalar(a[()])
            return [f(x) if isinstance(x, rnp.ndarray) else pyscalar(x)
                    for x in a]
        return f(self._a)

    def item(self, *args):
        if args:
            return pyscalar(self._a.item(*args))
        if self._a.size != 1:
            raise ValueError("can only convert an array of size 1 to a "
                             "Python scalar")
        return pyscalar(self._a.reshape(-1)[0])

    # ---- structure
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and not isinstance(shape[0], (int, rnp.integer)):
            shape = shape[0]
            if shape is None or isinstance(shape, Val):
                raise Unsupported("reshape")
        shape = tuple(_ci(s) for s in shape) if isinstance(shape, (tuple, list)) \
            else shape
        return warr(self._a.reshape(shape, order=order), self._dt)

    def ravel(self, order='C'): return warr(self._a.ravel(order), self._dt)
    def flatten(self, order='C'): return warr(self._a.flatten(order), self._dt)

    def transpose(self, *axes):
        return wrap(self._a.transpose(*axes), self._dt)

    def swapaxes(self, a, b): return wrap(self._a.swapaxes(a, b), self._dt)
    def squeeze(self, axis=None): return wrap(self._a.squeeze(axis), self._dt)
    def repeat(self, n, axis=None):
        return wrap(self._a.repeat(norm_index(n) if isinstance(n, _Sym) else n,
                                   axis), self._dt)

    def take(self, ind, axis=None):
        return wrap(rnp.take(self._a, norm_index(ind), axis), self._dt)

    def compress(self, cond, axis=None):
        x = self.reshape(-1) if axis is None else self
        k = rnp.flatnonzero(norm_index(cond))
        return wrap(rnp.take(x._a, k, axis or 0), self._dt)

    def put(self, ind, v, mode='raise'):
        return _handlers['put'](self, ind, v)

    def diagonal(self, *a, **k):
        return wrap(self._a.diagonal(*a, **k), self._dt)

    def __len__(self):
        if not self.ndim:
            raise TypeError("len() of unsized object")
        return self._a.shape[0]

    def __iter__(self):
        if not self.ndim:
            raise TypeError("iteration over a 0-d array")
        for i in range(self._a.shape[0]):
            yield self[i]

    def __getitem__(self, idx):
        ci = norm_index(idx)
        r = self._a[ci]
        if isinstance(r, rnp.ndarray):
            return warr(r, self._dt)
        return SymScalar(r, self._dt)

    def __setitem__(self, idx, v):
        if isinstance(self, SymScalar):
            raise TypeError("'numpy.float64' object does not support item "
                            "assignment")
        a, dt = build(v) if not isinstance(v, _Sym) else (v._a, v._dt)
        if dt != self._dt:
            if dt.kind == 'c' and self._dt.kind != 'c' and \
                    not isinstance(v, _Sym):
                raise TypeError("float() argument must be a string or a real "
                                "number, not 'complex'")
            r = obj(a.shape)
            for i in rnp.ndindex(*a.shape):
                r[i] = cast_elem(a[i], self._dt)
            a = r
        ci = norm_index(idx)
        # numpy allows leading ones in the value
        if a.ndim == 0:
            a = a[()]
            if _fullindex(ci, self._a):
                self._a[ci] = a
            else:
                w = obj(())
                w[()] = a
                self._a[ci] = w
        else:
            self._a[ci] = a

    def fill(self, v):
        self[...] = v

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False,
            initial=None, where=None):
        return reduce_('sum', self, axis, keepdims, initial, where, dtype, out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False,
             initial=None, where=None):
        return reduce_('prod', self, axis, keepdims, initial, where, dtype, out)

    def max(self, axis=None, out=None, keepdims=False, initial=None,
            where=None):
        return reduce_('max', self, axis, keepdims, initial, where, None, out)

    def min(self, axis=None, out=None, keepdims=False, initial=None,
            where=None):
        return reduce_('min', self, axis, keepdims, initial, where, None, out)

    def all(self, axis=None, out=None, keepdims=False, where=None):
        return reduce_('all', self, axis, keepdims, None, where, None, out)

    def any(self, axis=None, out=None, keepdims=False, where=None):
        return reduce_('any', self, axis, keepdims, None, where, None, out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size // builtins.max(1, s.size)
        return ufunc('divide', s, n)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cum(self, axis, T.vadd, 'sum')

    def cumprod(self, axis=None, dtype=None, out=None):
        return cum(self, axis, T.vmul, 'prod')

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        r = sort(self, axis)
        self._a[...] = r._a

    def argmax(self, axis=None, out=None, keepdims=False):
        return argext(self, axis, '>')

    def argmin(self, axis=None, out=None, keepdims=False):
        return argext(self, axis, '<')

    def nonzero(self):
        m = norm_index(self.astype(bool))
        return tuple(wrap(from_real(i), I64) for i in rnp.nonzero(m))

    def clip(self, min=None, max=None, out=None):
        return clip(self, min, max, out)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals, out)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side, sorter)

    def dot(self, o): return dot(self, o)

    def choose(self, choices, out=None, mode='raise'):
        return choose(self, choices)

    def trace(self, *a, **k):
        return self.diagonal().sum()

    # ---- conversion
    def __bool__(self):
        if self._a.size != 1:
            if self._a.size == 0:
                raise ValueError("The truth value of an empty array is "
                                 "ambiguous.")
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        b = T.tob(self._a.reshape(-1)[0])
        return b if type(b) is bool else ctx().decide(b)

    def __index__(self):
        if self._dt.kind not in 'iu' or self._a.ndim:
            raise TypeError("only integer scalar arrays can be converted to "
                            "a scalar index")
        return ctx().concretize(self._a[()])

    def __int__(self):
        e = self.item()
        e = elem(e)
        if type(e) is float:
            raise (OverflowError if e == e else ValueError)(
                "cannot convert float to integer")
        e = T.vtrunc(e)
        return e if type(e) is int else ctx().concretize(e)

    def __float__(self):
        e = elem(self.item())
        if type(e) is Val:
            raise Unsupported("float() of symbolic value")
        return float(e)

    def __complex__(self):
        e = elem(self.item())
        if is_num(e) or type(e) is float:
            return complex(e)
        raise Unsupported("complex() of symbolic value")

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return "Sym%s(%s)" % (self._a.shape, self._a)

    def __round__(self, n=0):
        return np_round(self, n)

    def __abs__(self): return ufunc('absolute', self)
    def __neg__(self): return ufunc('negative', self)
    def __pos__(self): return ufunc('positive', self)
    def __invert__(self): return ufunc('invert', self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __imatmul__(self, o):
        r = matmul(self, o)
        self[...] = r
        return self

    def __divmod__(self, o):
        return self // o, self % o

    __hash__ = None


for _op, _nm in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'),
                 ('truediv', 'divide'), ('floordiv', 'floor_divide'),
                 ('mod', 'remainder'), ('pow', 'power'),
                 ('and', 'bitwise_and'), ('or', 'bitwise_or'),
                 ('xor', 'bitwise_xor'), ('lshift', 'left_shift'),
                 ('rshift', 'right_shift')):
    setattr(_Sym, '__%s__' % _op, binary(_nm))
    setattr(_Sym, '__r%s__' % _op, binary(_nm, True))
    setattr(_Sym, '__i%s__' % _op, inplace(_nm))
for _op, _nm in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'),
                 ('ge', 'greater_equal'), ('eq', 'equal'), ('ne', 'not_equal')):
    setattr(_Sym, '__%s__' % _op, binary(_nm))


def _fullindex(ci, a):
    tup = ci if isinstance(ci, tuple) else (ci,)
    return len(tup) == a.ndim and all(
        isinstance(i, (int, rnp.integer)) and not isinstance(i, bool)
        for i in tup)


class _Flat:
    """x.flat: iteration, reading and writing in C order"""

    def __init__(self, x):
        self.x, self.base = x, x
        self.index = rnp.arange(x._a.size).reshape(x._a.shape)
        self.next = 0

    def __iter__(self): return self
    def __len__(self): return self.x._a.size

    def __next__(self):
        if self.next >= len(self):
            raise StopIteration
        self.next += 1
        return self[self.next - 1]

    def copy(self): return self.x.reshape(-1).copy()
    def __getitem__(self, i): return self.x.copy().reshape(-1)[i]

    def __setitem__(self, i, v):
        flat = self.x.copy().reshape(-1)
        flat[i] = v
        self.x[...] = flat.reshape(self.x.shape)


class SymArray(_Sym):
    __slots__ = ('_a', '_dt', '__weakref__')

    def __init__(self, a, dt):
        self._a = a
        self._dt = dt


class _NoLength(AttributeError, TypeError):
    pass


class SymScalar(_Sym):
    """numpy scalar"""
    __slots__ = ('_a', '_dt')

    @property
    def __len__(self):
        raise _NoLength("object of type %r has no len()" % self._dt.name)

    def is_integer(self):
        return wrapb(T.vcmp(self._a[()], T.vfloor(self._a[()]), '=='))

    def __init__(self, e, dt):
        a = obj(())
        a[()] = e
        self._a = a
        self._dt = dt

    def __hash__(self):
        e = self._a[()]
        if is_num(e) or type(e) is float:
            return hash(e)
        if type(e) is Val and e.isint:
            return hash(ctx().concretize(e))
        raise Unsupported("hash of symbolic value")


def _ro(a, dt):
    if a.ndim == 0:
        return SymScalar(a[()], dt)
    a.flags.writeable = False
    return SymArray(a, dt)


class _Part(SymArray):
    """real or imaginary part: assignments reach the complex array"""
    __slots__ = ('_parent', '_which')

    def __setitem__(self, idx, v):
        p = self._parent._a
        if not p.flags.writeable:
            raise ValueError("assignment destination is read-only")
        self._a.flags.writeable = True
        try:
            SymArray.__setitem__(self, idx, v)
        finally:
            self._a.flags.writeable = False
        for i in rnp.ndindex(*p.shape):
            e = p[i]
            re, im = (e.re, e.im) if type(e) is Cx else (e, 0)
            x = self._a[i]
            p[i] = Cx(x, im) if self._which == 're' else Cx(re, x)


def _part(a, dt, parent, which):
    r = _ro(a, dt)
    if isinstance(r, SymScalar):
        return r
    r = _Part(r._a, dt)
    r._parent, r._which = parent, which
    return r


def _set_real(self, v, which):
    if self._dt.kind != 'c':
        if which == 're':
            self[...] = v
            return
        raise TypeError("cannot set imaginary part of real array")
    if isinstance(self, SymScalar):
        raise AttributeError("attribute 'real' of numpy scalar")
    b = rnp.broadcast_to(build(v)[0], self._a.shape)
    for i in rnp.ndindex(*self._a.shape):
        e = T.tocx(self._a[i])
        x = cast_elem(b[i], F64)
        self._a[i] = Cx(x, e.im) if which == 're' else Cx(e.re, x)


SymArray.real = property(_Sym.real.fget, lambda s, v: _set_real(s, v, 're'))
SymArray.imag = property(_Sym.imag.fget, lambda s, v: _set_real(s, v, 'im'))


def _set_shape(self, shape):
    self._a.shape = shape


SymArray.shape = property(_Sym.shape.fget, _set_shape)


def warr(a, dt):
    """array (even when 0-d it stays an array, e.g. reshape(()))"""
    if isinstance(a, rnp.ndarray):
        return SymArray(a, dt)
    return SymScalar(a, dt)


def pyscalar(e):
    """element -> Python-level object"""
    if isinstance(e, z3.BoolRef):
        return SymScalar(e, BOOL)
    if type(e) is Fraction:
        # python float if exactly representable, else keep exact
        return Val_const(e)
    return e


def Val_const(e):
    return SymScalar(e, F64)


def asarr(x, dtype=None, copy=False):
    if isinstance(x, _Sym):
        if dtype is not None and real_dtype(dtype) != x._dt:
            r = x.astype(dtype)
            return SymArray(r._a, r._dt)
        if isinstance(x, SymArray) and not copy:
            return x
        return SymArray(x._a.copy(), x._dt)
    a, dt = build(x)
    if dtype is not None:
        d2 = real_dtype(dtype)
        if d2 != dt:
            r = obj(a.shape)
            for i in rnp.ndindex(*a.shape):
                r[i] = cast_elem(a[i], d2)
            a, dt = r, d2
    if dt.kind == 'c':
        for i in rnp.ndindex(*a.shape):
            if type(a[i]) is not Cx:
                if not a.flags.writeable:
                    a = a.copy()
                a[i] = Cx(a[i], 0)
    elif dt.kind == 'f':
        for i in rnp.ndindex(*a.shape):
            if type(a[i]) is bool:
                a[i] = int(a[i])
    return SymArray(a, dt)


# ------------------------------------------------------------------ reductions

def _naxes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    r = tuple(_ci(i) for i in axis)
    for i in r:
        if not -nd <= i < nd:
            raise rnp.exceptions.AxisError(i, nd)
    return tuple(i % nd for i in r)


def reduce_(op, x, axis, keepdims, initial=None, where=None, dtype=None,
            out=None):
    if out is not None:
        raise Unsupported("reduction with out=")
    if dtype is not None:
        x = x.astype(dtype)
    a = x._a
    axes = _naxes(axis, a.ndim)
    rest = tuple(i for i in range(a.ndim) if i not in axes)
    t = a.transpose(rest + axes).reshape([a.shape[i] for i in rest] + [-1]) \
        if a.size or op not in ('max', 'min') else None
    if t is None:
        t = rnp.empty([a.shape[i] for i in rest] + [0], object)
    dt = x._dt
    if op in ('all', 'any'):
        rdt = BOOL
    elif op in ('sum', 'prod'):
        rdt = I64 if dt.kind == 'b' else dt
    else:
        rdt = dt
    if initial is not None:
        ie, idt = operand(initial)
        initial = ie[()]
        if op not in ('all', 'any'):
            rdt = result_type(rdt, idt)
    if where is not None and where is not True:
        w = rnp.broadcast_to(build(where)[0], a.shape)
        w = w.transpose(rest + axes).reshape(t.shape)
    else:
        w = None
    res = obj(t.shape[:-1])
    for i in rnp.ndindex(*res.shape):
        items = list(t[i])
        if w is not None:
            sel = []
            for e, b in zip(items, w[i]):
                b = T.tob(b)
                if b if type(b) is bool else ctx().decide(b):
                    sel.append(e)
            items = sel
        res[i] = _fold(op, items, initial)
    if rdt.kind == 'c':
        for i in rnp.ndindex(*res.shape):
            res[i] = T.tocx(res[i])
    if keepdims:
        sh = [1 if i in axes else a.shape[i] for i in range(a.ndim)]
        return warr(res.reshape(sh), rdt) if sh else wrap(res, rdt)
    return wrap(res, rdt)


def _fold(op, items, initial):
    if op == 'sum':
        acc = 0 if initial is None else initial
        for e in items:
            acc = T.vadd(acc, T.tonum(e))
        return acc
    if op == 'prod':
        acc = 1 if initial is None else initial
        for e in items:
            acc = T.vmul(acc, T.tonum(e))
        return acc
    if op in ('all', 'any'):
        bs = []
        for e in items:
            b = T.tob(e)
            if type(b) is bool:
                if b != (op == 'all'):
                    return b
                continue
            bs.append(b)
        if not bs:
            return op == 'all'
        if len(bs) == 1:
            return bs[0]
        return z3.And(bs) if op == 'all' else z3.Or(bs)
    if initial is not None:
        items = [initial] + items
    if not items:
        raise ValueError("zero-size array to reduction operation %s which has "
                         "no identity" % ('maximum' if op == 'max'
                                          else 'minimum'))
    acc = items[0]
    f = _maximum if op == 'max' else _minimum
    for e in items[1:]:
        acc = f(acc, e)
    return acc


def cum(x, axis, f, op):
    a = x._a
    dt = I64 if x._dt.kind == 'b' else x._dt
    if axis is None:
        a = a.ravel()
        axis = 0
    res = rnp.moveaxis(obj(a.shape), 0, 0)
    src = rnp.moveaxis(a, axis, 0)
    dst = rnp.moveaxis(res, axis, 0)
    for i in rnp.ndindex(*src.shape[1:]):
        acc = None
        for k in range(src.shape[0]):
            e = T.tonum(src[(k,) + i])
            acc = e if acc is None else f(acc, e)
            dst[(k,) + i] = acc
    return wrap(res, dt)


def _lt(a, b):
    r = T.vcmp(a, b, '<')
    # NaN sorts last
    if type(a) is float and a != a:
        return False
    if type(b) is float and b != b:
        return True
    return r if type(r) is bool else ctx().decide(r)


def _argsort1(v):
    """stable insertion (binary) argsort"""
    order = []
    for i, e in enumerate(v):
        lo, hi = 0, len(order)
        # common case: already ordered
        if order and not _lt(e, v[order[-1]]):
            order.append(i)
            continue
        while lo < hi:
            m = (lo + hi) // 2
            if _lt(e, v[order[m]]):
                hi = m
            else:
                lo = m + 1
        order.insert(lo, i)
    return order


def argsort(x, axis=-1, **kw):
    x = asarr(x)
    a = x._a
    if axis is None:
        a = a.ravel()
        axis = -1
    src = rnp.moveaxis(a, axis, -1)
    res = obj(src.shape)
    for i in rnp.ndindex(*src.shape[:-1]):
        for k, j in enumerate(_argsort1(list(src[i]))):
            res[i + (k,)] = j
    return wrap(rnp.moveaxis(res, -1, axis), I64)


def sort(x, axis=-1, **kw):
    x = asarr(x)
    a = x._a
    if axis is None:
        a = a.ravel()
        axis = -1
    src = rnp.moveaxis(a, axis, -1)
    res = obj(src.shape)
    for i in rnp.ndindex(*src.shape[:-1]):
        v = list(src[i])
        for k, j in enumerate(_argsort1(v)):
            res[i + (k,)] = v[j]
    return wrap(rnp.moveaxis(res, -1, axis), x._dt)


def argext(x, axis, op):
    a = x._a
    if axis is None:
        v = list(a.ravel())
        return SymScalar(_argext1(v, op), I64)
    src = rnp.moveaxis(a, axis, -1)
    res = obj(src.shape[:-1])
    for i in rnp.ndindex(*res.shape):
        res[i] = _argext1(list(src[i]), op)
    return wrap(res, I64)


def _argext1(v, op):
    if not v:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(1, len(v)):
        r = T.vcmp(v[i], v[best], op)
        if r if type(r) is bool else ctx().decide(r):
            best = i
    return best


def searchsorted(x, v, side='left', sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    xs = list(x._a.ravel())
    va, _ = operand(v)
    res = obj(va.shape)
    op = '<' if side == 'left' else '<='
    for i in rnp.ndindex(*va.shape):
        e = va[i]
        lo, hi = 0, len(xs)
        while lo < hi:
            m = (lo + hi) // 2
            # NaN sorts last
            if type(e) is float and e != e:
                r = True
            else:
                r = T.vcmp(xs[m], e, op)
            if r if type(r) is bool else ctx().decide(r):
                lo = m + 1
            else:
                hi = m
        res[i] = lo
    return wrap(res, I64)


def clip(x, lo=None, hi=None, out=None):
    if lo is not None:
        x = ufunc('maximum', x, lo, out=out)
    if hi is not None:
        x = ufunc('minimum', x, hi, out=out)
    return x


def np_round(x, decimals=0, out=None):
    if decimals:
        k = 10.0**decimals if decimals < 0 else 10**decimals
        r = ufunc('divide', ufunc('rint', ufunc('multiply', x, k)), k)
        if out is not None:
            out[...] = r
        return r if out is None else out
    x = asarr(x) if not isinstance(x, _Sym) else x
    if x._dt.kind in 'iub':
        return x.copy() if isinstance(x, SymArray) else x
    return ufunc('rint', x, out=out)


def choose(sel, choices, out=None, mode='raise'):
    s = asarr(sel)
    parts = [build(c) for c in choices]
    dt = result_type(*[d for _, d in parts])
    shp = rnp.broadcast_shapes(s._a.shape, *[a.shape for a, _ in parts])
    sa = rnp.broadcast_to(s._a, shp)
    pa = [rnp.broadcast_to(a, shp) for a, _ in parts]
    res = obj(shp)
    for i in rnp.ndindex(*shp):
        k = sa[i]
        if type(k) is Val:
            k = ctx().concretize(k)
        if not 0 <= k < len(pa):
            raise ValueError("invalid entry in choice array")
        res[i] = pa[k][i]
    return wrap(res, dt)


def where(cond, a=None, b=None):
    c = asarr(cond)
    if a is None:
        return c.nonzero()
    (aa, da), (ba, db) = operand(a), operand(b)
    dt = result_type(da, db) if not (isinstance(da, type) and
                                     isinstance(db, type)) else \
        result_type(rnp.dtype(da), rnp.dtype(db))
    shp = rnp.broadcast_shapes(c._a.shape, aa.shape, ba.shape)
    ca = rnp.broadcast_to(c._a, shp)
    aa = rnp.broadcast_to(aa, shp)
    ba = rnp.broadcast_to(ba, shp)
    res = obj(shp)
    for i in rnp.ndindex(*shp):
        k = T.tob(ca[i])
        if k is True:
            r = aa[i]
        elif k is False:
            r = ba[i]
        else:
            r = T.vite(k, aa[i], ba[i])
        res[i] = cast_elem(r, dt) if dt.kind != kind(dt) or \
            dt.kind in 'cf' else r
    return SymArray(res, dt) if res.ndim == 0 else wrap(res, dt)


# ------------------------------------------------------------------ linear alg.

def _dotv(u, v):
    acc = 0
    for a, b in zip(u, v):
        if is_num(a) and a == 0 and type(b) is not float:
            continue
        if is_num(b) and b == 0 and type(a) is not float:
            continue
        acc = T.vadd(acc, T.vmul(a, b))
    return acc


def matmul(x, y, out=None):
    (a, da), (b, db) = operand(x), operand(y)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand 1 does not have enough "
                         "dimensions")
    rdt = result_type(da, db)
    sa = a[None, :] if a.ndim == 1 else a
    sb = b[:, None] if b.ndim == 1 else b
    if sa.shape[-1] != sb.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core "
                         "dimension 0 (size %d is different from %d)"
                         % (sb.shape[-2], sa.shape[-1]))
    batch = rnp.broadcast_shapes(sa.shape[:-2], sb.shape[:-2])
    sa = rnp.broadcast_to(sa, batch + sa.shape[-2:])
    sb = rnp.broadcast_to(sb, batch + sb.shape[-2:])
    res = obj(batch + (sa.shape[-2], sb.shape[-1]))
    for i in rnp.ndindex(*batch):
        for r in range(sa.shape[-2]):
            for c in range(sb.shape[-1]):
                e = _dotv(sa[i + (r,)], sb[i + (slice(None), c)])
                res[i + (r, c)] = T.tocx(e) if rdt.kind == 'c' else e
    if b.ndim == 1:
        res = res[..., 0]
    if a.ndim == 1:
        res = res[..., 0] if b.ndim == 1 else res[..., 0, :]
    if not isinstance(res, rnp.ndarray):
        return SymScalar(res, rdt)
    return wrap(res, rdt)


def dot(x, y, out=None):
    (a, da), (b, db) = operand(x), operand(y)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc('multiply', x, y)
    if b.ndim <= 2:
        if a.ndim <= 2 or b.ndim == 1:
            return matmul(x, y)
    return tensordot(x, y, axes=((a.ndim - 1,), (b.ndim - 2,)))


def tensordot(x, y, axes=2):
    x, y = asarr(x), asarr(y)
    if isinstance(axes, int):
        ax = tuple(range(x.ndim - axes, x.ndim))
        ay = tuple(range(axes))
    else:
        ax, ay = axes
        ax = (ax,) if isinstance(ax, int) else tuple(ax)
        ay = (ay,) if isinstance(ay, int) else tuple(ay)
    ax = tuple(i % x.ndim for i in ax)
    ay = tuple(i % y.ndim for i in ay)
    rx = tuple(i for i in range(x.ndim) if i not in ax)
    ry = tuple(i for i in range(y.ndim) if i not in ay)
    k = 1
    for i, j in zip(ax, ay):
        if x._a.shape[i] != y._a.shape[j]:
            raise ValueError("shape-mismatch for sum")
        k *= x._a.shape[i]
    sx = [x._a.shape[i] for i in rx]
    sy = [y._a.shape[i] for i in ry]
    m = matmul(SymArray(x._a.transpose(rx + ax).reshape(-1, k), x._dt),
               SymArray(y._a.transpose(ay + ry).reshape(k, -1), y._dt))
    return wrap(m._a.reshape(sx + sy), m._dt)


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum with index lists")
    spec = spec.replace(' ', '')
    ops = [asarr(o) for o in ops]
    if '...' in spec:
        ins = spec.split('->')[0].split(',')
        nell = 0
        for s, o in zip(ins, ops):
            if '...' in s:
                nell = builtins.max(nell, o.ndim - (len(s) - 3))
        ell = ''.join(c for c in 'ZYXWVUTS' if c not in spec)[:nell]
        new = []
        for s, o in zip(ins, ops):
            n = o.ndim - (len(s) - 3)
            new.append(s.replace('...', ell[nell - n:]))
        lhs = ','.join(new)
        if '->' in spec:
            spec = lhs + '->' + spec.split('->')[1].replace('...', ell)
        else:
            spec = lhs
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs = spec
        letters = sorted(set(lhs) - {','})
        out = ''.join(c for c in letters if lhs.count(c) == 1)
    ins = lhs.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match "
                             "operand dimensions")
        for c, n in zip(s, o._a.shape):
            if dims.setdefault(c, n) != n:
                if n != 1 and dims[c] != 1:
                    raise ValueError("operands could not be broadcast "
                                     "together in einsum")
                dims[c] = builtins.max(n, dims[c])
    summed = [c for c in dims if c not in out]
    rdt = result_type(*[o._dt for o in ops])
    res = obj(tuple(dims[c] for c in out))
    for i in rnp.ndindex(*res.shape):
        env = dict(zip(out, i))
        acc = 0
        for j in rnp.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            p = 1
            for s, o in zip(ins, ops):
                e = o._a[tuple(env[c] if o._a.shape[k] != 1 else 0
                               for k, c in enumerate(s))]
                p = T.vmul(p, e)
            acc = T.vadd(acc, p)
        res[i] = T.tocx(acc) if rdt.kind == 'c' else acc
    return wrap(res, rdt)


# ------------------------------------------------------------------ generic call

STRUCT = {'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis',
          'concatenate', 'hstack', 'vstack', 'dstack', 'stack', 'column_stack',
          'squeeze', 'expand_dims', 'broadcast_to', 'broadcast_arrays',
          'atleast_1d', 'atleast_2d', 'atleast_3d', 'tile', 'repeat', 'roll',
          'flip', 'fliplr', 'flipud', 'split', 'array_split', 'hsplit',
          'vsplit', 'take', 'meshgrid', 'append', 'insert', 'delete', 'rot90',
          'diagonal', 'take_along_axis', 'block', 'resize', 'matrix_transpose',
          'permute_dims', 'concat', 'unstack', 'compress', 'extract'}

_handlers = {}


def handler(*names):
    def d(f):
        for n in names:
            _handlers[n] = f
        return f
    return d


def _deep(x, f):
    if isinstance(x, (list, tuple)):
        return type(x)(_deep(i, f) for i in x) if type(x) in (list, tuple) \
            else tuple(_deep(i, f) for i in x)
    if isinstance(x, dict):
        return {k: _deep(v, f) for k, v in x.items()}
    return f(x)


def has_sym(x):
    found = []

    def f(e):
        if isinstance(e, _Sym):
            for q in e._a.ravel():
                if type(q) is Val or isinstance(q, z3.BoolRef) or (
                        type(q) is Cx and (type(q.re) is Val or
                                           type(q.im) is Val)):
                    found.append(1)
                    break
        elif isinstance(e, (Val, Cx, z3.BoolRef)):
            found.append(1)
        return e
    _deep(x, f)
    return bool(found)


def struct_call(name, args, kwargs):
    """rearrangement functions on object arrays"""
    fn = getattr(rnp, name)
    dts = []
    ints = {'reshape': (1,), 'swapaxes': (1, 2), 'moveaxis': (1, 2),
            'rollaxis': (1, 2), 'tile': (1,), 'repeat': (1, 2),
            'roll': (1, 2), 'split': (1, 2), 'array_split': (1, 2),
            'take': (1, 2), 'delete': (1, 2), 'insert': (1,),
            'broadcast_to': (1,), 'transpose': (1,), 'expand_dims': (1,),
            'take_along_axis': (1, 2), 'hsplit': (1,), 'vsplit': (1,),
            'flip': (1,), 'rot90': (1, 2), 'resize': (1,),
            'compress': (0,), 'extract': (0,)}.get(name, ())

    def cint(e):
        if isinstance(e, _Sym):
            return norm_index(e)
        if isinstance(e, Val):
            return _ci(e)
        return e

    def toobj(e):
        if isinstance(e, _Sym) or isinstance(e, (rnp.ndarray, rnp.generic)):
            a, dt = build(e)
            dts.append(dt)
            return a
        if e is None or isinstance(e, (str, slice)):
            return e
        a, dt = operand(e)
        dts.append(dt if not isinstance(dt, type) else rnp.dtype(dt))
        return a

    seqfirst = name in ('concatenate', 'hstack', 'vstack', 'dstack', 'stack',
                        'column_stack', 'block', 'concat')

    def arg(i, a):
        if i in ints:
            return _deep(a, cint)
        if seqfirst and i == 0:
            if isinstance(a, _Sym):
                return toobj(a)
            return [arrobj(e) for e in a]
        if i == 0 or name in ('broadcast_arrays', 'atleast_1d', 'atleast_2d',
                              'atleast_3d', 'meshgrid', 'append', 'insert',
                              'compress', 'extract'):
            return arrobj(a)
        return _deep(a, cint)

    def arrobj(a):
        ar, dt = build(a)
        dts.append(dt)
        return ar

    a2 = [arg(i, a) for i, a in enumerate(args)]
    k2 = {}
    for k, v in kwargs.items():
        if k in ('axis', 'axes', 'shape', 'newshape', 'indexing', 'shift',
                 'mode', 'order', 'subok', 'copy', 'sparse', 'reps',
                 'repeats', 'source', 'destination', 'k', 'indices',
                 'indices_or_sections', 'obj'):
            k2[k] = _deep(v, cint)
        elif k in ('dtype', 'casting', 'out'):
            raise Unsupported("%s(%s=)" % (name, k))
        else:
            k2[k] = arrobj(v)
    res = fn(*a2, **k2)
    dt = result_type(*dts)

    def back(r):
        if isinstance(r, rnp.ndarray):
            # promote elements where needed
            if name in ('concatenate', 'hstack', 'vstack', 'stack', 'dstack',
                        'column_stack', 'append', 'insert', 'block', 'concat') \
                    and any(d != dt for d in dts):
                out = obj(r.shape)
                for i in rnp.ndindex(*r.shape):
                    out[i] = cast_elem(r[i], dt)
                r = out
            return SymArray(r, dt)
        return SymScalar(r, dt)
    if name in ('broadcast_arrays', 'meshgrid') or (
            name.startswith('atleast') and len(args) > 1):
        out = [SymArray(r, d if not isinstance(d, type) else rnp.dtype(d))
               for r, d in zip(res, dts)]
        return tuple(out) if isinstance(res, tuple) else out
    if isinstance(res, (list, tuple)):
        return type(res)(back(r) for r in res)
    return back(res)


def concrete_call(fn, args, kwargs):
    def f(e):
        if isinstance(e, _Sym):
            r = to_real(e)
            if r is None:
                raise Unsupported("symbolic argument to %s"
                                  % getattr(fn, '__name__', fn))
            return r if isinstance(e, SymArray) else r[()]
        if isinstance(e, DtypeProxy):
            return e._dt
        if isinstance(e, Fraction):
            return float(e)
        if getattr(e, '_sym_builtin', None) is not None:
            return e._sym_builtin
        if isinstance(e, (Val, Cx, z3.BoolRef)):
            raise Unsupported("symbolic argument to %s"
                              % getattr(fn, '__name__', fn))
        return e
    res = fn(*_deep(args, f), **_deep(kwargs, f))
    return lift_result(res)


def lift_result(res):
    if isinstance(res, rnp.ndarray):
        if res.dtype == object:
            return res
        return SymArray(from_real(res), res.dtype)
    if isinstance(res, rnp.dtype):
        return DtypeProxy(res)
    if isinstance(res, rnp.generic):
        return SymScalar(conv(res) if res.dtype.kind in 'biufc'
                         else conv_dd(res), res.dtype)
    if type(res) in (tuple, list):
        return type(res)(lift_result(r) for r in res)
    return res


def call_np(name, args, kwargs):
    h = _handlers.get(name)
    if h is not None:
        return h(*args, **kwargs)
    if name in UF:
        return ufunc(name, *args, **kwargs)
    if name in STRUCT:
        return struct_call(name, args, kwargs)
    fn = getattr(rnp, name)
    return concrete_call(fn, args, kwargs)
