"""Term layer: exact rational functions over symbolic generators, decided by z3.

A symbolic number is a `Val`: numerator polynomial (sparse, rational
coefficients, Laurent in generators known to be non-zero) over a product of
polynomial factors.  Non-polynomial operations (sqrt, exp, cos, floor, ite, ...)
introduce new generators together with their defining constraints, which are
handed to the solver.  Comparisons become z3 formulas.
"""
from fractions import Fraction
import math
import z3


class Unsupported(Exception):
    """The engine cannot encode this operation (inconclusive, not a verdict)."""


class Ctl(BaseException):
    """Control flow of the explorer; not to be caught by code under test."""


class PathAbort(Ctl):
    pass


class Budget(Ctl):
    pass


_ctx = None


def ctx():
    if _ctx is None:
        raise RuntimeError("no symbolic context")
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


INF = float('inf')
NAN = float('nan')


class Gen:
    __slots__ = ('id', 'name', 'isint', 'nz', 'pos', 'z', 'sq', 'defd', 'info',
                 'lo', 'hi', 'const')

    def __init__(self, id, name, isint, pos, nz, z):
        self.id = id
        self.name = name
        self.isint = isint
        self.pos = pos
        self.nz = nz or pos
        self.z = z
        self.sq = None      # g**2 == sq (a Val/number)
        self.defd = None    # z3 formula: the value is well defined
        self.info = None
        self.lo = 0 if pos else None      # bounds known to hold
        self.hi = None
        self.const = False                # number with tight bounds


# ---------------------------------------------------------------- polynomials
# poly: dict  mono -> coefficient (int or Fraction, nonzero)
# mono: tuple of (gen_id, exponent), sorted by gen_id

def _norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def pscale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, ea = a[i]
        gb, eb = b[j]
        if ga == gb:
            e = ea + eb
            if e:
                out.append((ga, e))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def pmul(p, q):
    if len(p) < len(q):
        p, q = q, p
    if len(p) * len(q) > 400000:
        raise Unsupported("polynomial blow-up")
    r = {}
    for mb, cb in q.items():
        for ma, ca in p.items():
            m = mmul(ma, mb)
            c = ca * cb
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s = s + c
                if s == 0:
                    del r[m]
                else:
                    r[m] = s
    return r


def ppow(p, e):
    r = {(): 1}
    while e:
        if e & 1:
            r = pmul(r, p)
        e >>= 1
        if e:
            p = pmul(p, p)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def plead(p):
    """deterministic leading monomial"""
    return max(p)


def pnormalize(p):
    """p == k * q with q having leading coefficient one"""
    k = p[plead(p)]
    if k == 1:
        return 1, p
    return k, {m: _norm_c(Fraction(c) / k) for m, c in p.items()}


def _mono_vec(m):
    return dict(m)


def pdivexact(n, f):
    """Exact division n / f for ordinary polynomials, or None."""
    if len(n) < len(f) or len(n) > 600:
        return None
    # shift to non-negative exponents
    gens = set()
    for m in n:
        for g, _ in m:
            gens.add(g)
    for m in f:
        for g, e in m:
            if e < 0:
                return None
            if g not in gens:
                return None
    gens = sorted(gens)
    mn = {g: 0 for g in gens}
    for m in n:
        for g, e in m:
            if e < mn[g]:
                mn[g] = e
    shift = tuple((g, -mn[g]) for g in gens if mn[g] < 0)
    back = tuple((g, mn[g]) for g in gens if mn[g] < 0)

    def vec(m):
        d = dict(m)
        return tuple(d.get(g, 0) for g in gens)

    rem = {vec(mmul(m, shift)): c for m, c in n.items()}
    fv = {vec(m): c for m, c in f.items()}
    lf = max(fv)
    cf = fv[lf]
    quo = {}
    while rem:
        lr = max(rem)
        q = tuple(a - b for a, b in zip(lr, lf))
        if min(q) < 0:
            return None
        c = _norm_c(Fraction(rem[lr]) / cf)
        quo[q] = c
        for m, cc in fv.items():
            mm = tuple(a + b for a, b in zip(m, q))
            s = rem.get(mm, 0) - c * cc
            if s == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = s
        if len(quo) > 600:
            return None
    res = {}
    for q, c in quo.items():
        m = tuple((g, e) for g, e in zip(gens, q) if e)
        res[mmul(m, back)] = c
    return res


# ---------------------------------------------------------------- values

def is_num(x):
    t = type(x)
    return t is int or t is Fraction or t is bool


def is_special(x):
    return type(x) is float


def conv(x):
    """Convert concrete Python/numpy scalar to element representation."""
    t = type(x)
    if t is int or t is Fraction or t is Val or t is bool or t is Cx:
        return x
    if isinstance(x, z3.BoolRef):
        return x
    if t is float:
        if x != x or x in (INF, -INF):
            return x
        if x.is_integer() and abs(x) < 1e15:
            return int(x)
        return Fraction(x)
    if t is complex:
        return Cx(conv(x.real), conv(x.imag))
    # numpy scalars
    import numpy as np
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return conv(float(x))
    if isinstance(x, np.complexfloating):
        return conv(complex(x))
    try:
        f = float(x)
    except Exception:
        raise Unsupported("cannot convert element %r" % (t,))
    return conv(f)


class Val:
    __slots__ = ('n', 'd', 'isint', '_h')
    # let SymArray win
    __array_ufunc__ = None

    def __init__(self, n, d=None, isint=False):
        self.n = n
        self.d = d or {}
        self.isint = isint
        self._h = None

    # key for caching
    def key(self):
        if self._h is None:
            self._h = (pkey(self.n), tuple(sorted(self.d.items())))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return show(self)

    def __bool__(self):
        r = rel(self, '!=')
        return r if type(r) is bool else ctx().decide(r)

    def __add__(self, o): return vadd(self, o)
    def __radd__(self, o): return vadd(o, self)
    def __sub__(self, o): return vsub(self, o)
    def __rsub__(self, o): return vsub(o, self)
    def __mul__(self, o): return vmul(self, o)
    def __rmul__(self, o): return vmul(o, self)
    def __truediv__(self, o): return vdiv(self, o)
    def __rtruediv__(self, o): return vdiv(o, self)
    def __neg__(self): return vneg(self)
    def __pos__(self): return self
    def __pow__(self, e): return vpow(self, e)
    def __lt__(self, o): return vcmp(self, o, '<')
    def __le__(self, o): return vcmp(self, o, '<=')
    def __gt__(self, o): return vcmp(self, o, '>')
    def __ge__(self, o): return vcmp(self, o, '>=')
    def __eq__(self, o): return vcmp(self, o, '==')
    def __ne__(self, o): return vcmp(self, o, '!=')
    def conjugate(self): return self


class Cx:
    """Complex number, real and imaginary part are real elements."""
    __slots__ = ('re', 'im')
    __array_ufunc__ = None

    def __init__(self, re, im=0):
        self.re = re
        self.im = im

    def __repr__(self):
        return "(%r + %r i)" % (self.re, self.im)

    def __add__(self, o):
        o = tocx(o)
        return Cx(vadd(self.re, o.re), vadd(self.im, o.im))
    __radd__ = __add__

    def __sub__(self, o):
        o = tocx(o)
        return Cx(vsub(self.re, o.re), vsub(self.im, o.im))

    def __rsub__(self, o):
        return tocx(o) - self

    def __mul__(self, o):
        o = tocx(o)
        return Cx(vsub(vmul(self.re, o.re), vmul(self.im, o.im)),
                  vadd(vmul(self.re, o.im), vmul(self.im, o.re)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is not Cx:
            return Cx(vdiv(self.re, o), vdiv(self.im, o))
        if is_num(o.im) and o.im == 0:
            return Cx(vdiv(self.re, o.re), vdiv(self.im, o.re))
        if is_num(o.re) and o.re == 0:
            # (a + ib)/(ic) == b/c - i a/c
            return Cx(vdiv(self.im, o.im), vneg(vdiv(self.re, o.im)))
        den = vadd(vmul(o.re, o.re), vmul(o.im, o.im))
        num = self * o.conjugate()
        return Cx(vdiv(num.re, den), vdiv(num.im, den))

    def __rtruediv__(self, o):
        return tocx(o) / self

    def __neg__(self):
        return Cx(vneg(self.re), vneg(self.im))

    def __pos__(self):
        return self

    def __pow__(self, e):
        if type(e) is Cx and is_num(e.im) and e.im == 0:
            e = e.re
        if is_num(e) and Fraction(e).denominator == 1:
            e = int(e)
            b = self
            if e < 0:
                b, e = 1 / self, -e
            r = Cx(1, 0)
            for _ in range(e):
                r = r * b
            return r
        raise Unsupported("complex power")

    def __eq__(self, o):
        o = tocx(o)
        return b_and(vcmp(self.re, o.re, '=='), vcmp(self.im, o.im, '=='))

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash((hash(self.re), hash(self.im)))

    def conjugate(self):
        return Cx(self.re, vneg(self.im))


_CADD, _CMUL, _CDIV, _CPOW = (Cx.__add__, Cx.__mul__, Cx.__truediv__,
                              Cx.__pow__)


def tocx(x):
    if type(x) is Cx:
        return x
    return Cx(conv(x), 0)


def tonum(x):
    """booleans -> 0/1 (symbolic ones by case split)"""
    t = type(x)
    if t is bool:
        return int(x)
    if isinstance(x, z3.BoolRef):
        return 1 if ctx().decide(x) else 0
    return x


def mk(n, d=None, isint=False):
    """Make value, collapsing constants and reducing square rules"""
    if not n:
        return 0
    if d:
        # try cancelling factors
        d2 = None
        for k, e in d.items():
            f = dict(k)
            ee = e
            while ee:
                q = pdivexact(n, f)
                if q is None:
                    break
                n = q
                ee -= 1
                if not n:
                    return 0
            if ee != e:
                if d2 is None:
                    d2 = dict(d)
                if ee:
                    d2[k] = ee
                else:
                    del d2[k]
        if d2 is not None:
            d = d2
    if not d and len(n) == 1 and () in n:
        c = n[()]
        return _norm_c(c)
    return Val(n, d, isint and not d)


def reduce_sq(n):
    """Apply g**2 -> sq rules.  Returns None if nothing to do, else value."""
    gens = ctx().gens
    todo = None
    for m in n:
        for g, e in m:
            if gens[g].sq is not None and (e > 1 or e < 0):
                todo = True
                break
        if todo:
            break
    if not todo:
        return None
    keep = {}
    acc = 0
    for m, c in n.items():
        fac = None
        rest = []
        for g, e in m:
            sq = gens[g].sq
            if sq is not None and (e > 1 or e < 0):
                k, r = divmod(e, 2)
                if r:
                    rest.append((g, 1))
                t = vpow(sq, k)
                fac = t if fac is None else vmul(fac, t)
            else:
                rest.append((g, e))
        mono = {tuple(rest): c}
        if fac is None:
            keep = padd(keep, mono)
        else:
            t = mk(mono)
            acc = vadd(acc, vmul(t, fac))
    return vadd(mk(keep) if keep else 0, acc)


def lift(x):
    """as (n, d, isint)"""
    if type(x) is Val:
        return x.n, x.d, x.isint
    if x == 0:
        return {}, {}, type(x) is int
    return {(): x}, {}, type(x) is int


def vadd(a, b):
    ta, tb = type(a), type(b)
    if ta is Cx or tb is Cx:
        return _CADD(tocx(a), tocx(b))
    if (ta is int or ta is Fraction) and (tb is int or tb is Fraction):
        return a + b
    if ta is float or tb is float:
        return _sp(a, b, lambda x, y: x + y)
    a, b = tonum(conv(a)), tonum(conv(b))
    if is_num(a) and is_num(b):
        return a + b
    if is_num(a) and a == 0:
        return b
    if is_num(b) and b == 0:
        return a
    na, da, ia = lift(a)
    nb, db, ib = lift(b)
    if da == db:
        return mk(padd(na, nb), da, ia and ib)
    d = dict(da)
    for k, e in db.items():
        if d.get(k, 0) < e:
            d[k] = e
    for k, e in d.items():
        ea = e - da.get(k, 0)
        eb = e - db.get(k, 0)
        f = dict(k)
        if ea:
            na = pmul(na, ppow(f, ea))
        if eb:
            nb = pmul(nb, ppow(f, eb))
    r = padd(na, nb)
    return _fin(r, d, False)


def _fin(n, d, isint):
    red = reduce_sq(n)
    if red is None:
        return mk(n, d, isint)
    if not d:
        return red
    return vmul(red, Val({(): 1}, d)) if not (is_num(red) and red == 0) else 0


def vneg(a):
    t = type(a)
    if t is int or t is Fraction or t is float:
        return -a
    if t is Cx:
        return -a
    a = tonum(a)
    if is_num(a):
        return -a
    return Val(pneg(a.n), a.d, a.isint)


def vsub(a, b):
    return vadd(a, vneg(b))


def vmul(a, b):
    ta, tb = type(a), type(b)
    if ta is Cx or tb is Cx:
        if ta is not Cx:
            a, b, ta, tb = b, a, tb, ta
        if tb is not Cx:
            return Cx(vmul(a.re, b), vmul(a.im, b))
        return _CMUL(a, b)
    if (ta is int or ta is Fraction) and (tb is int or tb is Fraction):
        r = a * b
        if type(r) is Fraction and r.denominator.bit_length() > 3000:
            r = _shorten(r)
        return r
    if ta is float or tb is float:
        return _sp(a, b, lambda x, y: x * y)
    a, b = tonum(conv(a)), tonum(conv(b))
    if is_num(a):
        a, b = b, a
    if is_num(b):
        if is_num(a):
            return a * b
        if b == 0:
            return 0
        if b == 1:
            return a
        return Val(pscale(a.n, b), a.d, a.isint and type(b) is int)
    d = a.d
    if b.d:
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + e
    return _fin(pmul(a.n, b.n), d, a.isint and b.isint)


def _shorten(r):
    """Concrete numbers that grow beyond 3000 bits (Newton iterations) keep
    600 significant bits."""
    k = 600 - abs(r.numerator).bit_length() + r.denominator.bit_length()
    return _norm_c(Fraction(round(r * 2**k), 2**k))


def const_float(v):
    """float value of a number made up of square roots of integers, or None"""
    v = tonum(v)
    if is_num(v):
        return float(v)
    if type(v) is not Val:
        return None
    gens = ctx().gens

    def poly(p):
        s = 0.
        for m, c in p.items():
            x = float(c)
            for g, e in m:
                if g == 0:
                    x *= math.pi ** e
                elif type(gens[g].sq) is int:
                    x *= math.sqrt(gens[g].sq) ** e
                else:
                    return None
            s += x
        return s
    r = poly(v.n)
    for k, e in v.d.items():
        q = poly(dict(k))
        if r is None or q is None:
            return None
        r /= q ** e
    return r


def vdiv(a, b):
    ta, tb = type(a), type(b)
    if ta is Cx or tb is Cx:
        return _CDIV(tocx(a), b if tb is Cx else conv(b))
    if ta is float or tb is float:
        return _sp(a, b, _fdiv)
    a, b = tonum(conv(a)), tonum(conv(b))
    if is_num(b):
        if b == 0:
            if is_num(a):
                return NAN if a == 0 else (INF if a > 0 else -INF)
            # symbolic / 0: case split on the sign
            if ctx().decide(vcmp(a, 0, '==')):
                return NAN
            return INF if ctx().decide(vcmp(a, 0, '>')) else -INF
        if is_num(a):
            r = _norm_c(Fraction(a) / b)
            if type(r) is Fraction and r.denominator.bit_length() > 3000:
                r = _shorten(r)
            return r
        r = vmul(a, _norm_c(Fraction(1) / b))
        if type(r) is Val and r.isint:
            r = Val(r.n, r.d, False)
        return r
    # zero numerator is fine: 0/b == 0 wherever defined
    inv = vinv(b)
    r = vmul(a, inv)
    if type(r) is Val and r.isint:
        r = Val(r.n, r.d, False)
    return r


def _fdiv(x, y):
    if y == 0:
        if x == 0 or x != x:
            return NAN
        return math.copysign(INF, x) * math.copysign(1, y)
    return x / y


def vinv(b):
    gens = ctx().gens
    n, d = b.n, b.d
    num = {(): 1}
    for k, e in d.items():
        num = pmul(num, ppow(dict(k), e))
    if len(n) == 1:
        (m, c), = n.items()
        lau = []
        dd = {}
        extra = 1
        for g, e in m:
            G = gens[g]
            if G.sq is not None:
                # 1/g == g / g**2
                extra = vmul(extra, vmul(Val({((g, 1),): 1}), vinv_any(G.sq)))
                if e > 1:
                    raise Unsupported("unreduced square")
            elif G.nz:
                lau.append((g, -e))
            else:
                dd[(((((g, 1),)), 1),)] = e
        r = _fin(pmul(num, {tuple(lau): _norm_c(Fraction(1) / c)}), dd, False)
        return vmul(r, extra)
    k, q = pnormalize(n)
    # factor out Laurent monomials common to all terms so keys are canonical
    q, mono = _strip(q)
    key = pkey(q)
    t = _fin(pmul(pscale(num, _norm_c(Fraction(1) / k)), {mono: 1}), {key: 1}, False)
    return t


def _strip(q):
    """Remove common monomial of non-zero generators: q = m * q'; returns
    q' and the inverse of m."""
    gens = ctx().gens
    common = None
    for m in q:
        d = {g: e for g, e in m if gens[g].nz and gens[g].sq is None}
        if common is None:
            common = d
        else:
            for g in list(common):
                e = d.get(g, 0)
                common[g] = min(common[g], e)
            for g, e in d.items():
                if g not in common and e < 0:
                    common[g] = e
    common = {g: e for g, e in (common or {}).items() if e}
    # generators with negative exponents anywhere
    for m in q:
        for g, e in m:
            if e < 0 and e < common.get(g, 0):
                common[g] = e
    if not common:
        return q, ()
    inv = tuple(sorted((g, -e) for g, e in common.items()))
    q2 = {mmul(m, inv): c for m, c in q.items()}
    k, q3 = pnormalize(q2)
    if k != 1:
        return q, ()
    return q3, inv


def vinv_any(x):
    if is_num(x):
        return _norm_c(Fraction(1) / x)
    return vinv(x)


def vpow(a, e):
    if type(a) is Cx:
        return _CPOW(a, e)
    if type(e) is Val:
        # (-1)**n
        if is_num(a) and a in (1, -1):
            if a == 1:
                return 1
            return 1 if ctx().decide(vcmp(vmod(e, 2), 0, '==')) else -1
        if e.isint:
            return vpow(a, ctx().concretize(e))
        raise Unsupported("symbolic exponent")
    if type(a) is float or type(e) is float:
        return _sp(a, e, lambda x, y: x ** y)
    e = Fraction(e)
    a = tonum(a)
    if e.denominator == 1:
        e = int(e)
        if is_num(a):
            if a == 0 and e < 0:
                return INF
            return _norm_c(Fraction(a) ** e) if e < 0 else a ** e
        if e < 0:
            return vpow(vdiv(1, a), -e)
        r = 1
        b = a
        while e:
            if e & 1:
                r = vmul(r, b)
            e >>= 1
            if e:
                b = vmul(b, b)
        return r
    if e.denominator == 2:
        return vpow(vsqrt(a), e.numerator)
    if is_num(a):
        return conv(float(a) ** float(e))
    raise Unsupported("fractional power")


def _sp(a, b, f):
    """Arithmetic with special floats (inf, nan)"""
    for x in (a, b):
        if type(x) is float and x - x == 0:
            raise Unsupported("unconverted float")
    def fl(x):
        if type(x) is float:
            return x
        x = tonum(x)
        if is_num(x):
            return float(x)
        return None
    x, y = fl(a), fl(b)
    if x is not None and y is not None:
        try:
            return conv(f(x, y))
        except ZeroDivisionError:
            return NAN
        except OverflowError:
            return INF
    s, o = (x, b) if x is not None else (y, a)
    if s != s:
        return NAN
    # symbolic with infinity: case split on sign of the symbolic operand
    sign = ctx().sign(o)
    if x is None:
        return conv(f(float(sign), y))
    return conv(f(x, float(sign)))


# ---------------------------------------------------------------- comparisons

def zmono(m, isint):
    gens = ctx().gens
    t = None
    for g, e in m:
        G = gens[g]
        z = G.z if (isint or not G.isint) else z3.ToReal(G.z)
        if e > 10000:
            raise Unsupported("power %d" % e)
        for _ in range(e):
            t = z if t is None else t * z
    return t


def zconst(c, isint):
    if isint:
        return z3.IntVal(int(c))
    c = Fraction(c)
    if c.denominator == 1:
        return z3.RealVal(c.numerator)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


def poly_isint(p):
    gens = ctx().gens
    for m, c in p.items():
        for g, e in m:
            if not gens[g].isint:
                return False
    return True


def zpoly(p, isint=None):
    if isint is None:
        isint = poly_isint(p)
    if isint:
        # clear denominators
        l = 1
        for c in p.values():
            if type(c) is Fraction:
                l = l * c.denominator // math.gcd(l, c.denominator)
        if l != 1:
            p = {m: c * l for m, c in p.items()}
    ts = []
    for m, c in p.items():
        z = zmono(m, isint)
        if z is None:
            ts.append(zconst(c, isint))
        elif c == 1:
            ts.append(z)
        else:
            ts.append(zconst(c, isint) * z)
    if not ts:
        return zconst(0, isint)
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


def clear_laurent(p):
    """Multiply by positive monomial to remove negative exponents"""
    gens = ctx().gens
    mn = {}
    for m in p:
        for g, e in m:
            if e < 0 and e < mn.get(g, 0):
                mn[g] = e
    if not mn:
        return p
    mul = []
    for g, e in sorted(mn.items()):
        k = -e
        if not gens[g].pos and k % 2:
            k += 1
        mul.append((g, k))
    mul = tuple(mul)
    return {mmul(m, mul): c for m, c in p.items()}


def strip_pos(p):
    """divide out common positive monomials"""
    gens = ctx().gens
    common = None
    for m in p:
        d = {g: e for g, e in m if gens[g].pos}
        if common is None:
            common = d
        else:
            common = {g: min(e, d.get(g, 0)) for g, e in common.items()}
        if not common:
            return p
    inv = tuple(sorted((g, -e) for g, e in common.items() if e))
    if not inv:
        return p
    return {mmul(m, inv): c for m, c in p.items()}


def quick_sign(p):
    """'+' if every monomial is certainly > 0, '-' analog, else None"""
    gens = ctx().gens
    s = None
    strict = False
    for m, c in p.items():
        definite = True
        for g, e in m:
            if gens[g].pos:
                continue
            if e % 2 == 0:
                if not gens[g].nz:
                    definite = False
                continue
            return None
        t = '+' if c > 0 else '-'
        if s is None:
            s = t
        elif s != t:
            return None
        strict = strict or definite
    return (s, strict)


def _mono_range(m, gens):
    """bounds of a monomial, None where there is none"""
    a, b = 1, 1
    for g, e in m:
        G = gens[g]
        l, u = G.lo, G.hi
        if l is None and u is None:
            return None, None
        if e < 0:
            if l is None or l <= 0:
                return None, None
            l, u, e = (0 if u is None else Fraction(1) / u,
                       Fraction(1) / l, -e)
        if e % 2 == 0 and (l is None or l < 0):
            u = None if l is None or u is None else max(l*l, u*u)
            l, e = 0, e // 2
        if l is not None and e > 1:
            l = l ** e
        if u is not None and e > 1:
            u = u ** e
        # (a, b) * (l, u)
        if l is not None and l >= 0 and a is not None and a >= 0:
            a = a * l
            b = None if b is None or u is None else b * u
        elif None in (a, b, l, u):
            return None, None
        else:
            p = (a*l, a*u, b*l, b*u)
            a, b = min(p), max(p)
    return a, b


def interval(n):
    """bounds (lo, hi) of a polynomial, None where there is none"""
    gens = ctx().gens
    if len(n) > 2000:
        return None, None
    # coefficients may be made up of constants like pi and square roots
    groups = {}
    for m, c in n.items():
        k = tuple((g, e) for g, e in m if gens[g].const)
        if k:
            m = tuple((g, e) for g, e in m if not gens[g].const)
            a, b = _mono_range(k, gens)
            a, b = (a * c, b * c) if c > 0 else (b * c, a * c)
        else:
            a = b = c
        if m in groups:
            l, u = groups[m]
            groups[m] = l + a, u + b
        else:
            groups[m] = a, b
    lo = hi = 0
    for m, (p, q) in groups.items():
        a, b = _mono_range(m, gens)
        if p == q:
            if p < 0:
                a, b = b, a
            a, b = a if a is None else p * a, b if b is None else p * b
        elif a is None or b is None:
            if a is None and b is None:
                return None, None
            if p >= 0:
                a = None if a is None else min(p * a, q * a)
                b = None if b is None else max(p * b, q * b)
            elif q <= 0:
                a, b = (None if b is None else min(p * b, q * b),
                        None if a is None else max(p * a, q * a))
            else:
                return None, None
        else:
            r = (a*p, a*q, b*p, b*q)
            a, b = min(r), max(r)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
        if lo is None and hi is None:
            return None, None
    return lo, hi


def rel(v, op):
    """formula  v op 0"""
    if is_num(v):
        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
                '==': v == 0, '!=': v != 0}[op]
    n = v.n
    if op not in ('==', '!='):
        for k, e in v.d.items():
            if e % 2:
                n = pmul(n, dict(k))
        red = reduce_sq(n)
        if red is not None:
            return rel(red, op)
    n = strip_pos(clear_laurent(n))
    red = reduce_sq(n)
    if red is not None:
        return rel(red, op)
    qs = quick_sign(n)
    if qs is not None:
        s, strict = qs
        if s == '+':
            if op == '>=':
                return True
            if op == '<':
                return False
            if strict:
                return {'>': True, '<=': False, '==': False, '!=': True}[op]
        else:
            if op == '<=':
                return True
            if op == '>':
                return False
            if strict:
                return {'<': True, '>=': False, '==': False, '!=': True}[op]
    lo, hi = interval(n)
    if lo is not None and lo >= 0:
        if op in ('>=', '<'):
            return op == '>='
        if lo > 0:
            return op in ('>', '!=')
    if hi is not None and hi <= 0:
        if op in ('<=', '>'):
            return op == '<='
        if hi < 0:
            return op in ('<', '!=')
    # normalise for sharing
    k, q = pnormalize(n)
    if k < 0:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    isint = poly_isint(q)
    c0 = q.get((), 0)
    rest = {m: c for m, c in q.items() if m != ()}
    if isint:
        l = 1
        for c in q.values():
            if type(c) is Fraction:
                l = l * c.denominator // math.gcd(l, c.denominator)
        rest = {m: c * l for m, c in rest.items()}
        c0 = c0 * l
    lhs = zpoly(rest, isint)
    rhs = zconst(-c0, isint)
    if op == '<':
        return lhs < rhs
    if op == '<=':
        return lhs <= rhs
    if op == '>':
        return lhs > rhs
    if op == '>=':
        return lhs >= rhs
    if op == '==':
        return lhs == rhs
    return z3.Not(lhs == rhs)


_PYCMP = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
          '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
          '==': lambda x, y: x == y, '!=': lambda x, y: x != y}


def vcmp(a, b, op):
    ta, tb = type(a), type(b)
    if ta is Cx or tb is Cx:
        a, b = tocx(a), tocx(b)
        if op in ('==', '!='):
            r = b_and(vcmp(a.re, b.re, '=='), vcmp(a.im, b.im, '=='))
            return r if op == '==' else b_not(r)
        # numpy compares lexicographically
        return b_or(vcmp(a.re, b.re, op[0]),
                    b_and(vcmp(a.re, b.re, '=='), vcmp(a.im, b.im, op)))
    if isinstance(a, z3.BoolRef) and (tb is bool or isinstance(b, z3.BoolRef)) or \
            isinstance(b, z3.BoolRef) and ta is bool:
        if op == '==':
            return b_not(b_xor(a, b))
        if op == '!=':
            return b_xor(a, b)
    if ta is float and a - a == 0:
        return vcmp(conv(a), b, op)
    if tb is float and b - b == 0:
        return vcmp(a, conv(b), op)
    if ta is float or tb is float:
        x = a if ta is float else (float(a) if is_num(a) else None)
        y = b if tb is float else (float(b) if is_num(b) else None)
        # a finite symbolic number compared with inf/nan
        if x is None:
            x = 0.0
            if y != y:
                return op == '!='
        if y is None:
            y = 0.0
            if x != x:
                return op == '!='
        return _PYCMP[op](x, y)
    a, b = tonum(conv(a)), tonum(conv(b))
    if is_num(a) and is_num(b):
        return _PYCMP[op](a, b)
    return rel(vsub(a, b), op)


# ---------------------------------------------------------------- booleans

def zb(x):
    if type(x) is bool:
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    x = conv(x)
    if type(x) is bool:
        return z3.BoolVal(x)
    if is_num(x) or type(x) is Val:
        r = vcmp(x, 0, '!=')
        return z3.BoolVal(r) if type(r) is bool else r
    if type(x) is float:
        return z3.BoolVal(bool(x))
    if type(x) is Cx:
        return zb(vcmp(x, Cx(0, 0), '!='))
    raise Unsupported("bool of %r" % (x,))


def b_and(a, b):
    if type(a) is bool:
        return b if a else False
    if type(b) is bool:
        return a if b else False
    return z3.And(a, b)


def b_or(a, b):
    if type(a) is bool:
        return True if a else b
    if type(b) is bool:
        return True if b else a
    return z3.Or(a, b)


def b_not(a):
    if type(a) is bool:
        return not a
    return z3.Not(a)


def b_xor(a, b):
    if type(a) is bool:
        return b_not(b) if a else b
    if type(b) is bool:
        return b_not(a) if b else a
    return z3.Xor(a, b)


def tob(x):
    """element -> bool element"""
    if type(x) is bool or isinstance(x, z3.BoolRef):
        return x
    r = zb(x)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


# ---------------------------------------------------------------- definedness

def defined(v, seen=None):
    """z3 formula saying that the value is well defined (no division by zero,
    no square root of a negative number ...)"""
    if is_num(v):
        return z3.BoolVal(True)
    if type(v) is float:
        return z3.BoolVal(False)
    if type(v) is Cx:
        return z3.And(defined(v.re), defined(v.im))
    gens = ctx().gens
    cs = []
    gs = set()
    for k, e in v.d.items():
        f = rel(Val(dict(k)), '!=')
        if f is not True:
            cs.append(zb(f))
        for m, _ in k:
            for g, _e in m:
                gs.add(g)
    for m in v.n:
        for g, _e in m:
            gs.add(g)
    for g in sorted(gs):
        dd = gens[g].defd
        if dd is not None:
            cs.append(dd)
    return z3.And(cs) if cs else z3.BoolVal(True)


# ---------------------------------------------------------------- functions

def gen_val(g):
    return Val({((g.id, 1),): 1}, None, g.isint)


def vsqrt(a):
    a = tonum(a)
    if type(a) is float:
        return a if a > 0 else NAN
    if type(a) is Cx:
        raise Unsupported("complex sqrt")
    if is_num(a):
        return _sqrt_num(Fraction(a))
    gens = ctx().gens
    out = 1
    if len(a.n) == 1 and not a.d:
        (m, c), = a.n.items()
        left = []
        if c > 0 and all(gens[g].pos for g, e in m):
            out = _sqrt_num(Fraction(c))
            for g, e in m:
                k, r = divmod(e, 2)
                G = gens[g]
                out = vmul(out, mk({((g, k),): 1}) if k else 1)
                if r:
                    out = vmul(out, _sqrt_gen(gen_val(G)))
            return out
    # general: pull out denominators known to be positive
    if a.d:
        num = Val(a.n)
        if len(num.n) == 1 and () in num.n:
            num = num.n[()]
        r = None
        den = 1
        ok = True
        for k, e in a.d.items():
            f = Val(dict(k))
            if not ctx().known(vcmp(f, 0, '>')):
                if not ctx().known(vcmp(f, 0, '<')):
                    ok = False
                    break
                f = vneg(f)
                if e % 2:
                    num = vneg(num)
            den = vmul(den, vpow(f, e // 2))
            if e % 2:
                den = vmul(den, _sqrt_gen(f))
        if ok:
            return vdiv(vsqrt(num), den)
    # pull out positive content
    k, q = pnormalize(a.n)
    if k > 0 and not a.d:
        common = strip_pos(q)
        if common is not q and common != q:
            m0 = next(iter(q))
            # q = mono * common
            l1, l2 = plead(q), plead(common)
            mono = mmul(l1, tuple((g, -e) for g, e in l2))
            return vmul(_sqrt_num(Fraction(k)),
                        vmul(vsqrt(mk({mono: 1})), _sqrt_gen(mk(common))))
        return vmul(_sqrt_num(Fraction(k)), _sqrt_gen(mk(q)))
    if k < 0 and not a.d:
        return vmul(_sqrt_num(Fraction(-k)), _sqrt_gen(vneg(mk(q))))
    return _sqrt_gen(a)


def _sqrt_gen(a):
    c = ctx()
    key = ('sqrt', a.key())
    g = c.cache.get(key)
    if g is None:
        pos = c.known(vcmp(a, 0, '>'))
        g = c.new_gen('sqrt', pos=pos)
        g.sq = a
        v = gen_val(g)
        if not pos:
            c.define(vcmp(v, 0, '>='))
        ge = vcmp(a, 0, '>=')
        if ge is not True:
            g.defd = zb(ge)
        # definition (only meaningful where defined)
        z = g.z * g.z
        n = clear_laurent(a.n)
        if n is a.n and not a.d:
            c.define(z3.Implies(zb(ge), z == zpoly(a.n, False)))
        else:
            raw = Val({((g.id, 2),): 1})
            # raw - a == 0 without triggering the square rule
            diff_n = padd(_mul_den({((g.id, 2),): 1}, a.d), pneg(a.n))
            c.define(z3.Implies(zb(ge),
                                zpoly(clear_laurent(diff_n), False) == 0))
        c.cache[key] = g
    return gen_val(g)


def _mul_den(n, d):
    for k, e in d.items():
        n = pmul(n, ppow(dict(k), e))
    return n


def _squarefree(n):
    """n = s**2 * r for small n, else (1, n)"""
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    if n > 10**9:
        return 1, n
    s = 1
    p = 2
    while p * p <= n:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        p += 1
    return s, n


def _sqrt_num(a):
    if a < 0:
        return NAN
    if a == 0:
        return 0
    s, r = _squarefree(a.numerator * a.denominator)
    pre = _norm_c(Fraction(s, a.denominator))
    if r == 1:
        return pre
    if r > 10**9:
        # sqrt of an arbitrary double: keep the double result
        return conv(math.sqrt(a))
    c = ctx()
    if getattr(c, 'null', False):
        return conv(math.sqrt(a))
    out = pre
    # split in primes for canonical products
    p = 2
    while r > 1:
        if p * p > r:
            p = r
        if r % p == 0:
            r //= p
            key = ('sqrtn', p)
            g = c.cache.get(key)
            if g is None:
                g = c.new_gen('sqrt%d' % p, pos=True)
                g.sq = p
                g.lo = Fraction(math.isqrt(p << 240), 1 << 120)
                g.hi = g.lo + Fraction(1, 1 << 120)
                g.const = True
                lo = Fraction(math.isqrt(p * 10**24), 10**12)
                c.define(z3.And(g.z * g.z == p, g.z > zconst(lo, False),
                                g.z < zconst(lo + Fraction(1, 10**12), False)))
                c.cache[key] = g
            out = vmul(out, gen_val(g))
        p += 1
    return out


def vexp(a):
    a = tonum(a)
    if type(a) is Cx:
        r = vexp(a.re)
        co, si = vcossin(a.im)
        return Cx(vmul(r, co), vmul(r, si))
    if type(a) is float:
        return conv(math.exp(a)) if a != INF else INF
    c = ctx()
    c.exp_args.append(a)
    if is_num(a):
        if a == 0:
            return 1
        try:
            return conv(math.exp(float(a)))
        except OverflowError:
            return INF
    out = 1
    terms = _lin_terms(a)
    for base, k in terms:
        out = vmul(out, _exp_gen(base, k))
    if len(terms) > 1 and type(out) is Val and not out.d and len(out.n) == 1:
        (mono, co), = out.n.items()
        key = ('expsum', a.key())
        if co == 1 and key not in c.cache:
            c.cache[key] = True
            d = math.gcd(*[e for _, e in mono])
            root = Val({tuple((g, e // d) for g, e in mono): 1})
            for op in ('>', '<', '=='):
                c.define(z3.Implies(zb(vcmp(a, 0, op)),
                                    zb(vcmp(root, 1, op))))
    return out


def _lin_terms(a):
    """a as list of (base value, rational coefficient), base canonical"""
    if a.d:
        k, q = pnormalize(a.n)
        return [(Val(q, a.d), k)]
    res = []
    for m, c in sorted(a.n.items()):
        if m == ():
            res.append((1, c))
        else:
            res.append((Val({m: 1}), c))
    return res


def _exp_gen(base, k):
    c = ctx()
    if is_num(base):
        return conv(math.exp(float(k))) if k else 1
    k4 = Fraction(k) * 4
    if k4.denominator != 1:
        base = vmul(base, Fraction(k4 / 4))
        k4 = Fraction(4)
    k4 = int(k4)
    key = ('exp', base.key())
    g = c.cache.get(key)
    if g is None:
        g = c.new_gen('exp', pos=True)
        g.info = ('exp', base)
        b4 = vmul(base, Fraction(1, 4))
        v = gen_val(g)
        # axioms: sign and convexity
        for op in ('>', '<', '=='):
            lhs = vcmp(base, 0, op)
            rhs = vcmp(v, 1, op)
            c.define(z3.Implies(zb(lhs), zb(rhs)))
        c.define(zb(vcmp(v, vadd(1, b4), '>=')))
        c.cache[key] = g
    return Val({((g.id, k4),): 1})


def vcossin(a):
    """(cos a, sin a)"""
    a = tonum(a)
    if is_num(a):
        if a == 0:
            return 1, 0
        return conv(math.cos(float(a))), conv(math.sin(float(a)))
    c = ctx()
    co, si = 1, 0
    quarter = 0       # integer multiple of pi/2 to add
    gens = c.gens
    pi = c.pi_gen().id
    for base, k in _lin_terms(a):
        if is_num(base):
            t = conv(math.cos(float(k))), conv(math.sin(float(k)))
            co, si = _rot(co, si, *t)
            continue
        if not base.d and len(base.n) == 1:
            (m, _), = base.n.items()
            exps = dict(m)
            if exps.get(pi) == 1 and all(
                    gens[g].isint and e > 0 for g, e in m if g != pi):
                k2 = Fraction(k) * 2
                ki = int(math.floor(k2))
                fr = k2 - ki
                rest = tuple((g, e) for g, e in m if g != pi)
                iv = mk({rest: 1}, None, True) if rest else 1
                if ki:
                    quarter = vadd(quarter, vmul(ki, iv))
                if fr == 0:
                    continue
                k = fr / 2
                if not rest:
                    co, si = _rot(co, si, *_const_angle(k))
                    continue
        t = _cs_gen(base, k)
        co, si = _rot(co, si, *t)
    if is_num(quarter):
        q = int(quarter) % 4
    else:
        q = c.concretize(vmod(quarter, 4))
    for _ in range(q):
        co, si = vneg(si), co
    return co, si


def _rot(c1, s1, c2, s2):
    return (vsub(vmul(c1, c2), vmul(s1, s2)), vadd(vmul(s1, c2), vmul(c1, s2)))


_CONST_ANGLES = {}


def _const_angle(k):
    """cos and sin of k*pi, 0 < k < 1/2: by radicals for multiples of pi/4 and
    pi/6, otherwise rational numbers within 1e-100"""
    half = Fraction(1, 2)
    if k == Fraction(1, 4):
        r = vmul(half, vsqrt(2))
        return r, r
    if k == Fraction(1, 6):
        return vmul(half, vsqrt(3)), half
    if k == Fraction(1, 3):
        return half, vmul(half, vsqrt(3))
    r = _CONST_ANGLES.get(k)
    if r is None:
        import mpmath
        with mpmath.workdps(130):
            x = mpmath.pi * k.numerator / k.denominator
            r = tuple(Fraction(int(mpmath.nint(v * mpmath.mpf(2)**400)),
                               2**400)
                      for v in (mpmath.cos(x), mpmath.sin(x)))
        _CONST_ANGLES[k] = r
    return r


def _cs_gen(base, k):
    c = ctx()
    k4 = Fraction(k) * 4
    if k4.denominator != 1 or abs(k4) > 24:
        base = vmul(base, Fraction(k4 / 4))
        # keep sign canonical
        k4 = Fraction(4)
        kk, q = pnormalize(base.n)
        if kk < 0:
            base = vneg(base)
            k4 = Fraction(-4)
    k4 = int(k4)
    key = ('cs', base.key())
    gg = c.cache.get(key)
    if gg is None:
        gc = c.new_gen('cos')
        gs = c.new_gen('sin')
        gc.lo = gs.lo = -1
        gc.hi = gs.hi = 1
        gs.sq = vsub(1, vmul(gen_val(gc), gen_val(gc)))
        c.define(gc.z * gc.z + gs.z * gs.z == 1)
        z = zb(vcmp(base, 0, '=='))
        c.define(z3.Implies(z, z3.And(gc.z == 1, gs.z == 0)))
        gg = (gc, gs)
        c.cache[key] = gg
    co, si = gen_val(gg[0]), gen_val(gg[1])
    if k4 < 0:
        si = vneg(si)
        k4 = -k4
    rc, rs = 1, 0
    for _ in range(k4):
        rc, rs = _rot(rc, rs, co, si)
    return rc, rs


def vfun(name, a, **kw):
    """opaque function of one real argument"""
    a = tonum(a)
    c = ctx()
    key = (name, a.key() if type(a) is Val else a)
    g = c.cache.get(key)
    if g is None:
        g = c.new_gen(name, **kw)
        c.cache[key] = g
    return gen_val(g)


def vfloor(a):
    if is_num(a):
        return math.floor(a)
    if type(a) is float:
        return a
    if a.isint:
        return a
    c = ctx()
    key = ('floor', a.key())
    g = c.cache.get(key)
    if g is None:
        g = c.new_gen('floor', isint=True)
        q = gen_val(g)
        c.cache[key] = g
        c.define(z3.And(zb(vcmp(q, a, '<=')), zb(vcmp(a, vadd(q, 1), '<'))))
    return gen_val(g)


def vceil(a):
    if is_num(a):
        return math.ceil(a)
    if type(a) is float:
        return a
    return vneg(vfloor(vneg(a)))


def vtrunc(a):
    if is_num(a):
        return math.trunc(a)
    if type(a) is float:
        return a
    if a.isint:
        return a
    if ctx().decide(vcmp(a, 0, '>=')):
        return vfloor(a)
    return vceil(a)


def vtofloat(a):
    """integer as double: beyond 2^53 only even ones can be represented"""
    if type(a) is int:
        return int(float(a)) if abs(a) > 2**53 else a
    if type(a) is not Val or not a.isint:
        return a
    c = ctx()
    if c.decide(b_and(vcmp(a, 2**53, '<='), vcmp(a, -2**53, '>='))):
        return a
    key = ('tofloat', a.key())
    g = c.cache.get(key)
    if g is None:
        g = c.new_gen('tofloat', isint=True)
        c.cache[key] = g
        q = vmul(gen_val(g), 2)
        # nearest even number, coarser beyond 2^54
        d = vsub(q, a)
        c.define(z3.And(
            zb(vcmp(vmul(d, 2**53), vabs(a), '<=')),
            zb(vcmp(vmul(d, 2**53), vneg(vabs(a)), '>='))))
    return vmul(gen_val(g), 2)


def vround(a):
    """round half to even"""
    if is_num(a):
        return round(a)
    if type(a) is float:
        return a
    if a.isint:
        return a
    c = ctx()
    key = ('round', a.key())
    g = c.cache.get(key)
    if g is None:
        g = c.new_gen('round', isint=True)
        q = gen_val(g)
        c.cache[key] = g
        h = Fraction(1, 2)
        even = g.z % 2 == 0
        c.define(z3.And(zb(vcmp(vsub(q, h), a, '<=')),
                        zb(vcmp(a, vadd(q, h), '<=')),
                        z3.Implies(zb(vcmp(vsub(q, h), a, '==')), even),
                        z3.Implies(zb(vcmp(vadd(q, h), a, '==')), even)))
    return gen_val(g)


def vfloordiv(a, b):
    a, b = tonum(a), tonum(b)
    if type(a) is float or type(b) is float:
        raise Unsupported("floordiv special")
    if is_num(a) and is_num(b):
        if b == 0:
            return 0
        return a // b
    if _intlike(a) and is_num(b) and type(b) is int and b != 0:
        return _divmod(a, b)[0]
    if is_num(b) and b != 0 or type(b) is Val:
        if type(b) is Val and _intlike(a) and _intlike(b):
            return vfloordiv(a, ctx().concretize(b))
        return vfloor(vdiv(a, b))
    return 0


def vmod(a, b):
    a, b = tonum(a), tonum(b)
    if type(a) is float or type(b) is float:
        raise Unsupported("mod special")
    if is_num(a) and is_num(b):
        return a % b if b else 0
    if _intlike(a) and is_num(b) and type(b) is int and b != 0:
        return _divmod(a, b)[1]
    if type(b) is Val and _intlike(a) and _intlike(b):
        return vmod(a, ctx().concretize(b))
    return vsub(a, vmul(b, vfloor(vdiv(a, b))))


def _intlike(a):
    return type(a) is int or (type(a) is Val and a.isint)


def _divmod(a, b):
    c = ctx()
    if b < 0:
        q, r = _divmod(vneg(a), -b)
        return q, vneg(r)
    if b == 1:
        return a, 0
    # split off multiples of b
    qa, ra = {}, {}
    for m, k in a.n.items():
        qq, rr = divmod(k, b)
        if qq:
            qa[m] = qq
        if rr:
            ra[m] = rr
    base = mk(ra, None, True) if ra else 0
    qv = mk(qa, None, True) if qa else 0
    if is_num(base):
        return vadd(qv, base // b), base % b
    key = ('divmod', base.key(), b)
    g = c.cache.get(key)
    if g is None:
        gq = c.new_gen('quo', isint=True)
        gr = c.new_gen('rem', isint=True)
        c.cache[key] = g = (gq, gr)
        c.define(z3.And(zpoly(base.n, True) == b * gq.z + gr.z,
                        gr.z >= 0, gr.z < b))
    return vadd(qv, gen_val(g[0])), gen_val(g[1])


def vabs(a):
    a = tonum(a)
    t = type(a)
    if t is float or is_num(a):
        return abs(a)
    if t is Cx:
        if is_num(a.im) and a.im == 0:
            return vabs(a.re)
        if is_num(a.re) and a.re == 0:
            return vabs(a.im)
        return vsqrt(vadd(vmul(a.re, a.re), vmul(a.im, a.im)))
    c = ctx()
    if c.merge:
        r = vcmp(a, 0, '>=')
        if r is True:
            return a
        if r is False:
            return vneg(a)
        return vite(r, a, vneg(a))
    return a if c.decide(vcmp(a, 0, '>=')) else vneg(a)


def vite(cond, a, b):
    """if-then-else value, by case split or by merging"""
    if type(cond) is bool:
        return a if cond else b
    c = ctx()
    if not c.merge:
        return a if c.decide(cond) else b
    if type(a) is Cx or type(b) is Cx:
        a, b = tocx(a), tocx(b)
        return Cx(vite(cond, a.re, b.re), vite(cond, a.im, b.im))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return tob(z3.simplify(z3.If(cond, zb(a), zb(b))))
    a, b = tonum(conv(a)), tonum(conv(b))
    if type(a) is float or type(b) is float:
        return a if c.decide(cond) else b
    same = vcmp(a, b, '==')
    if same is True:
        return a
    k = c.known3(cond)
    if k is not None:
        return a if k else b
    key = ('ite', cond.get_id(), hk(a), hk(b))
    g = c.cache.get(key)
    if g is None:
        g = c.new_gen('ite', isint=_intlike(a) and _intlike(b))
        v = gen_val(g)
        c.define(z3.And(z3.Implies(cond, zb(vcmp(v, a, '=='))),
                        z3.Implies(z3.Not(cond), zb(vcmp(v, b, '==')))))
        da, db = defined(a), defined(b)
        if not (z3.is_true(z3.simplify(da)) and z3.is_true(z3.simplify(db))):
            g.defd = z3.If(cond, da, db)
        c.cache[key] = g
        c.keep.append(cond)
    return gen_val(g)


def hk(a):
    return a.key() if type(a) is Val else a


def show(v):
    if is_num(v) or type(v) is float:
        return str(v)
    gens = ctx().gens if _ctx is not None else None

    def sp(p):
        out = []
        for m, c in sorted(p.items())[:8]:
            s = "*".join(("%s^%d" % (gens[g].name, e)) if e != 1 else gens[g].name
                         for g, e in m) if gens else str(m)
            out.append("%s*%s" % (c, s) if s else str(c))
        if len(p) > 8:
            out.append("...")
        return " + ".join(out) or "0"
    s = sp(v.n)
    if v.d:
        s = "(%s)/%s" % (s, "*".join("(%s)^%d" % (sp(dict(k)), e)
                                    for k, e in v.d.items()))
    return s
