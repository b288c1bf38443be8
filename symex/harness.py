"""Dual-mode harnesses: symbolic execution with solver verdicts, and concrete
replay on the real package."""
import builtins
import contextlib
from fractions import Fraction
import math
import os
import re
import pickle
import random
import select
import sys
import time
import traceback
import warnings

import numpy as rnp
import z3

from . import terms as T
from . import symarr as S
from . import npproxy as P
from . import ctx as C
from . import loader as L
from .symarr import SymArray, SymScalar, _Sym, obj, wrap, asarr, F64, I64, C128
from .terms import Val, Cx, Unsupported, is_num, conv, zb

TOL = 1e-7


class Skip(BaseException):
    """concrete run: assumptions not met"""


class Failed(BaseException):
    """concrete run: a check failed"""
    def __init__(self, label, detail):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail


class Violation(BaseException):
    """symbolic run: candidate violation"""
    def __init__(self, label, detail):
        super().__init__(label)
        self.label = label
        self.detail = detail


# ------------------------------------------------------------------ symbolic

class SymH:
    symbolic = True

    def __init__(self, ctx, world, cfg):
        self.ctx = ctx
        self.world = world
        self.lib = world.package()
        self.np = world.np
        self.cfg = cfg
        self.inputs = {}           # name -> (kind, element array or value)
        self.fail = None
        self.unknowns = []
        self.spurious = []
        self.try_replay = None     # set by explore()
        self.record = None
        self.shared = {}
        self.hunts = 0
        self.obs = 0
        ctx.svd_registry = P.SVDRegistry()

    def mod(self, name):
        return self.world.load('sparse_ir.' + name)

    @contextlib.contextmanager
    def fresh(self):
        """a copy of the package that has not been used before"""
        old = self.world, self.lib, self.np
        self.world = L.World()
        T.set_ctx(C.NullCtx())
        try:
            self.lib, self.np = self.world.package(), self.world.np
        finally:
            T.set_ctx(self.ctx)
        try:
            yield
        finally:
            self.world, self.lib, self.np = old

    @property
    def thorough(self):
        return self.cfg.get('tier') == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- inputs
    def _gen(self, name, isint, lo, hi, pos=False, nz=False):
        c = self.ctx
        if lo is not None and lo >= 0 and not isint and (
                lo > 0 or pos):
            pos = True
        if isint and lo is not None and lo > 0:
            pos = True
        g = c.new_gen(name, isint=isint, pos=pos, nz=nz)
        if lo is not None and not (pos and lo == 0):
            c.define(g.z >= T.zconst(conv(lo), isint))
        if hi is not None:
            c.define(g.z <= T.zconst(conv(hi), isint))
            g.hi = conv(hi)
        if lo is not None:
            g.lo = conv(lo)
        return T.gen_val(g)

    def real(self, name, lo=None, hi=None, pos=False, nz=False):
        v = self._gen(name, False, lo, hi, pos, nz)
        self.inputs[name] = ('real', v, (lo, hi))
        return v

    def npreal(self, name, *a, **k):
        return SymScalar(self.real(name, *a, **k), F64)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self._gen(name, True, lo, hi)
        self.inputs[name] = ('int', v, (lo, hi))
        return v

    def reals(self, name, shape, lo=None, hi=None, pos=False, nz=False):
        a = obj(shape)
        for i in rnp.ndindex(*a.shape):
            a[i] = self._gen("%s%s" % (name, list(i)), False, lo, hi, pos, nz)
        self.inputs[name] = ('reals', a.copy(), (lo, hi))
        return SymArray(a, F64)

    def ints(self, name, shape, lo, hi):
        a = obj(shape)
        for i in rnp.ndindex(*a.shape):
            a[i] = self._gen("%s%s" % (name, list(i)), True, lo, hi)
        self.inputs[name] = ('ints', a.copy(), (lo, hi))
        return SymArray(a, I64)

    def cplx(self, name, shape, lo=None, hi=None):
        a = obj(shape)
        for i in rnp.ndindex(*a.shape):
            a[i] = Cx(self._gen("%s%s.re" % (name, list(i)), False, lo, hi),
                      self._gen("%s%s.im" % (name, list(i)), False, lo, hi))
        self.inputs[name] = ('cplx', a.copy(), (lo, hi))
        return SymArray(a, C128)

    def choice(self, name, options):
        i = self.ctx.choose(len(options))
        self.inputs[name] = ('choice', i, len(options))
        return options[i]

    def extreal(self, name, lo=None, hi=None, kinds=('fin', 'nan', 'inf',
                                                     '-inf')):
        k = self.choice(name + '.kind', list(kinds))
        if k == 'fin':
            return self.real(name, lo, hi)
        return {'nan': T.NAN, 'inf': T.INF, '-inf': -T.INF}[k]

    # ---- data construction
    def arr(self, x, dtype=None):
        return P.array(x, dtype)

    def num(self, x):
        """exact constant usable as Python float"""
        return conv(Fraction(x)) if not isinstance(x, (int, float)) else x

    def svd_known(self, a, u, s, v):
        self.ctx.svd_registry.add(a, u, s, v)

    def svd_opaque(self):
        """let decompositions that are not known give arbitrary factors"""
        self.ctx.svd_registry.opaque = True

    def orthonormal(self, name, m, n):
        """symbolic m x n matrix with orthonormal columns (Givens product)"""
        q = [[1 if i == j else 0 for j in range(m)] for i in range(m)]
        k = 0
        for i in range(n):
            for j in range(i + 1, m):
                c = self.real("%s.c%d" % (name, k), -1, 1)
                k += 1
                s = T.vsqrt(T.vsub(1, T.vmul(c, c)))
                for row in q:
                    a, b = row[i], row[j]
                    row[i] = T.vsub(T.vmul(a, c), T.vmul(b, s))
                    row[j] = T.vadd(T.vmul(a, s), T.vmul(b, c))
        a = obj((m, n))
        for i in range(m):
            for j in range(n):
                a[i, j] = q[i][j]
        return SymArray(a, F64)

    # ---- assumptions and checks
    def assume(self, cond):
        f = self._formula(cond)
        if f is True:
            return
        if f is False:
            raise T.PathAbort("assumption")
        self.ctx.define(f)
        if self.ctx.check() == 'unsat':
            raise T.PathAbort("assumption")

    def _formula(self, cond):
        if isinstance(cond, (list, tuple)):
            fs = [self._formula(c) for c in cond]
            r = True
            for f in fs:
                r = T.b_and(r, f)
            return r
        if isinstance(cond, _Sym):
            r = True
            for e in cond._a.ravel():
                r = T.b_and(r, T.tob(e))
            return r
        return T.tob(conv(cond)) if not isinstance(cond, z3.BoolRef) else cond

    def implies(self, a, b):
        a, b = self._formula(a), self._formula(b)
        return SymScalar(T.b_or(T.b_not(a), b), S.BOOL)

    def either(self, *conds):
        f = self._formula(conds[0])
        for c in conds[1:]:
            f = T.b_or(f, self._formula(c))
        return SymScalar(f, S.BOOL)

    def check(self, label, cond, detail=None):
        self.ctx.stats.obligations += 1
        f = self._formula(cond)
        if type(f) is bool:
            if f:
                self.ctx.stats.discharged += 1
                self.ctx.stats.by_norm += 1
                return
            self._violate(label, z3.BoolVal(True), detail)
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            self.ctx.stats.discharged += 1
            self.ctx.stats.by_norm += 1
            return
        self._violate(label, z3.Not(f), detail)

    def truth(self, cond):
        """branch on a condition"""
        f = self._formula(cond)
        return f if type(f) is bool else self.ctx.decide(f)

    def _violate(self, label, bad, detail, big=None):
        """decide a negated obligation; raise Violation if a counterexample
        reproduces on the real code"""
        c = self.ctx
        r, inp = self._forked(lambda: self._verdict(bad),
                              c.query_ms/1000. + 3) or ('unknown', None)
        c.stats.queries += 1
        if r == 'unsat':
            c.stats.discharged += 1
            c.stats.by_solver += 1
            return
        if r == 'sat' and self.replay(label, detail, inp):
            raise Violation(label, detail)
        out = None
        if self.hunts < self.cfg.get('max_hunts', 4):
            self.hunts += 1
            self.shared['hunts'] = self.shared.get('hunts', 0) + 1
            if self.shared['hunts'] <= self.cfg.get('total_hunts', 10):
                out = self._forked(
                    lambda: self._hunt_child(label, bad, detail, big),
                    self.cfg.get('hunt_s', 15))
        if type(out) is dict:
            self.record(label, out)
            raise Violation(label, detail)
        if out == 'unsat':
            c.stats.discharged += 1
            c.stats.by_solver += 1
            return
        (self.spurious if r == 'sat' else self.unknowns).append(label)

    def _verdict(self, bad):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.ctx.relevant([bad]))
        if C._timed(s, 2000) == z3.unsat:
            return 'unsat', None
        r, m = self.ctx.check(bad, ms=self.ctx.query_ms, model=True)
        return r, self.extract(m) if r == 'sat' else None

    def _forked(self, fnc, limit):
        """Result of fnc in a forked process that is ended after the time
        limit (z3 does not always honour its timeout); None without one."""
        import signal
        c = self.ctx
        t0 = time.time()
        rx, tx = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rx)
                C.reset_watchdog()
                r = fnc()
                with os.fdopen(tx, 'wb') as f:
                    pickle.dump(r, f)
            except BaseException:
                if os.environ.get('SYMEX_DEBUG'):
                    traceback.print_exc()
            finally:
                os._exit(0)
        os.close(tx)
        data = b''
        end = t0 + limit
        try:
            while True:
                rd, _, _ = select.select([rx], [], [],
                                         max(end - time.time(), 0))
                if not rd:
                    break
                chunk = os.read(rx, 1 << 16)
                if not chunk:
                    break
                data += chunk
        finally:
            os.close(rx)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        c.stats.solver_s += time.time() - t0
        try:
            return pickle.loads(data) if data else None
        except Exception:
            return None

    def _hunt_child(self, label, bad, detail, big):
        c = self.ctx
        rng = random.Random(1234)
        for q in ([big] if big is not None else []) + [bad]:
            for rnd in range(self.cfg.get('refine', 8)):
                r, m = c.check(q, ms=3000, model=True)
                if r == 'unsat':
                    if q is bad:
                        return 'unsat'
                    break
                if r == 'sat':
                    v = self.try_replay(label, detail, self.extract(m))
                    if v is not None:
                        return v
                for k in range(self.cfg.get('extra_models', 8)):
                    extra = self._boxes(rng)
                    if not extra:
                        break
                    r2, m2 = c.check(q, *extra, ms=800, model=True)
                    if r2 == 'sat':
                        v = self.try_replay(label, detail, self.extract(m2))
                        if v is not None:
                            return v
                if r != 'sat' or not c.refine(m):
                    break
        return None

    def _boxes(self, rng):
        out = []
        for name, (kind, v, rg) in self.inputs.items():
            if kind in ('real', 'reals', 'cplx'):
                els = [v] if kind == 'real' else list(v.ravel())
                lo, hi = rg
                lo = -3.0 if lo is None else float(lo)
                hi = lo + 6.0 if hi is None else float(hi)
                for e in els:
                    for p in ((e.re, e.im) if type(e) is Cx else (e,)):
                        if type(p) is not Val or len(p.n) != 1:
                            continue
                        a, b = _box(rng, lo, hi)
                        if rng.random() < .7:
                            out.append(zb(T.vcmp(p, conv(a), '>')))
                            out.append(zb(T.vcmp(p, conv(b), '<')))
        return out

    def eq(self, label, a, b, tol=None, stol=None):
        """a equals b: same shape, all elements defined and equal"""
        A, _ = S.build(a)
        B, _ = S.build(b)
        self.ctx.stats.obligations += 1
        if A.shape != B.shape:
            self._violate(label, z3.BoolVal(True),
                          "shape %s instead of %s" % (A.shape, B.shape))
            return
        self.ctx.stats.obligations += max(A.size - 1, 0)
        if A.size == 0:
            self.ctx.stats.discharged += 1
            self.ctx.stats.by_norm += 1
        bads, bigs = [], []
        for i in rnp.ndindex(*A.shape):
            self._eq1(label, A[i], B[i], bads, bigs, stol)
        # decide the remaining ones one by one
        for bad, big in zip(bads, bigs):
            self._violate(label, bad, None, big)

    def _eq1(self, label, x, y, bads, bigs, stol):
        st = self.ctx.stats
        if type(x) is Cx or type(y) is Cx:
            x, y = T.tocx(x), T.tocx(y)
            st.obligations += 1
            self._eq1(label, x.re, y.re, bads, bigs, stol)
            self._eq1(label, x.im, y.im, bads, bigs, stol)
            return
        bx = type(x) is bool or isinstance(x, z3.BoolRef)
        by = type(y) is bool or isinstance(y, z3.BoolRef)
        if bx and by:
            r = T.b_xor(x, y)
            if r is False:
                st.discharged += 1
                st.by_norm += 1
                return
            bads.append(zb(r))
            bigs.append(None)
            return
        x, y = T.tonum(x), T.tonum(y)
        if type(x) is float or type(y) is float:
            # nan equals nan, infinities equal themselves
            same = (x != x and y != y) if (type(x) is float and x != x) or \
                (type(y) is float and y != y) else T.vcmp(x, y, '==')
            if same is True:
                st.discharged += 1
                st.by_norm += 1
                return
            bads.append(z3.BoolVal(True))
            bigs.append(None)
            return
        d = T.vsub(x, y)
        if stol is not None:
            d, err = self._shorten(d)
            stol = Fraction(stol) - err
            if type(d) is not Val and abs(d) <= stol:
                st.discharged += 1
                st.by_norm += 1
                return
        dx = z3.simplify(T.defined(x))
        dy = z3.simplify(T.defined(y))
        undef = z3.And(dy, z3.Not(dx))
        if stol is not None:
            ne = T.b_or(T.vcmp(d, conv(stol), '>'),
                        T.vcmp(d, conv(-stol), '<'))
        else:
            ne = T.vcmp(d, 0, '!=')
        if ne is False and (z3.is_true(dx) or z3.eq(dx, dy)):
            st.discharged += 1
            st.by_norm += 1
            return
        bads.append(z3.Or(z3.And(dy, dx, zb(ne)), undef))
        lim = Fraction(1, 1000) if stol is None else max(Fraction(1, 1000),
                                                         Fraction(stol))
        bigs.append(z3.Or(z3.And(dy, dx, zb(T.b_or(
            T.vcmp(d, lim, '>'), T.vcmp(d, -lim, '<')))), undef))

    def _shorten(self, d):
        """d with short coefficients and a bound of the error made, given the
        declared ranges of the inputs"""
        if type(d) is not Val or d.d:
            return d, 0
        new, err = {}, Fraction(0)
        for mono, c in d.n.items():
            c = Fraction(c)
            lo, hi = (None, None) if c.denominator.bit_length() < 80 else \
                T.interval({mono: 1})
            if lo is None or hi is None:
                new[mono] = c
                continue
            q = Fraction(round(c * 2**80), 2**80)
            q = q.numerator if q.denominator == 1 else q
            err += abs(c - q) * max(abs(lo), abs(hi))
            if q:
                new[mono] = q
        if not new:
            return 0, err
        if set(new) == {()}:
            return new[()], err
        return Val(new, None, False), err

    def raises(self, label, exc, fn):
        """fn() must raise exc"""
        self.ctx.stats.obligations += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn()
        except (T.Ctl, Unsupported, Violation):
            raise
        except exc:
            self.ctx.stats.discharged += 1
            self.ctx.stats.by_solver += 1
            return
        self._violate(label, z3.BoolVal(True), "no exception raised")

    def outcome(self, fn):
        """('ok', value) or ('exc', exception)"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return 'ok', fn()
        except (T.Ctl, Unsupported, Violation):
            raise
        except Exception as e:
            return 'exc', e

    def warned(self, fn):
        """(value, list of warning categories)"""
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            r = fn()
        return r, [w.category for w in rec
                   if not issubclass(w.category, DeprecationWarning)]

    # ---- models
    def extract(self, m):
        res = {}
        for name, (kind, v, _) in self.inputs.items():
            if kind == 'choice':
                res[name] = v
            elif kind in ('real', 'int'):
                res[name] = self._ev(m, v)
            elif kind == 'cplx':
                res[name] = [[self._ev(m, e.re), self._ev(m, e.im)]
                             for e in v.ravel()]
            else:
                res[name] = [self._ev(m, e) for e in v.ravel()]
        return res

    def _ev(self, m, v):
        if type(v) is not Val:
            return v
        (mono, _), = v.n.items()
        g = self.ctx.gens[mono[0][0]]
        e = m.eval(g.z, model_completion=True)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(),
                                  e.denominator_as_long()))
        if z3.is_algebraic_value(e):
            a = e.approx(20)
            return float(Fraction(a.numerator_as_long(),
                                  a.denominator_as_long()))
        return 0.0

    def replay(self, label, detail, inputs):
        v = self.try_replay(label, detail, inputs)
        if v is not None:
            self.record(label, v)
        return v is not None

    def witness(self):
        r, m = self.ctx.check(ms=self.ctx.query_ms, model=True)
        if r != 'sat':
            return None
        return self.extract(m)

    def pi(self):
        return T.gen_val(self.ctx.pi_gen())

    def exp(self, x):
        return self.np.exp(x)


def _box(rng, lo, hi):
    """random box, also close to the ends and on a logarithmic scale"""
    def r(x):
        return float('%.3g' % x)
    k = rng.random()
    w = hi - lo
    if lo > 0 and hi > 100 * lo and k < .7:
        x = math.exp(rng.uniform(math.log(lo), math.log(hi)))
        return r(x / 3), r(x * 3)
    if k < .5:
        x = lo + w * rng.random()
        return r(x - .3 * w), r(x + .3 * w)
    d = w * 10**rng.uniform(-7, 0)
    mid = 0. if lo < 0 < hi else .5 * (lo + hi)
    return rng.choice([(lo - .1 * w, lo + r(d)), (hi - r(d), hi + .1 * w),
                       (mid - r(d), mid + r(d)), (lo + r(d), hi - r(d))])


# ------------------------------------------------------------------ concrete

class ConcH:
    symbolic = False

    def __init__(self, inputs, cfg, rng=None):
        import sparse_ir
        self.lib = sparse_ir
        self.np = rnp
        self.cfg = cfg
        self.given = inputs
        self.rng = rng
        self.used = {}
        self.checks = 0

    def mod(self, name):
        import importlib
        return importlib.import_module('sparse_ir.' + name)

    @contextlib.contextmanager
    def fresh(self):
        """a copy of the package that has not been used before"""
        import importlib

        def take():
            return {k: sys.modules.pop(k) for k in list(sys.modules)
                    if k == 'sparse_ir' or k.startswith('sparse_ir.')}
        old, lib = take(), self.lib
        try:
            self.lib = importlib.import_module('sparse_ir')
            yield
        finally:
            take()
            sys.modules.update(old)
            self.lib = lib

    @property
    def thorough(self):
        return self.cfg.get('tier') == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _get(self, name, make):
        if name in self.given:
            v = self.given[name]
        elif self.rng is not None:
            v = make()
        else:
            raise Skip("no value for " + name)
        self.used[name] = v
        return v

    def _rand(self, lo, hi, pos=False):
        r = self.rng
        if r.random() < .15:
            cand = [x for x in (lo, hi, 0.0, 1.0, -1.0, .5)
                    if x is not None and (lo is None or x >= lo)
                    and (hi is None or x <= hi) and (not pos or x > 0)]
            if cand:
                return float(r.choice(cand))
        lo_ = (0.0 if pos else -3.0) if lo is None else float(lo)
        hi_ = max(lo_, 0) + 3.0 if hi is None else float(hi)
        return r.uniform(lo_, hi_)

    def real(self, name, lo=None, hi=None, pos=False, nz=False):
        v = float(self._get(name, lambda: self._rand(lo, hi, pos)))
        self._range(v, lo, hi, pos, nz)
        return v

    def _range(self, v, lo, hi, pos, nz):
        if lo is not None and v < lo or hi is not None and v > hi or \
                pos and v <= 0 or nz and v == 0:
            raise Skip("range")

    def npreal(self, name, *a, **k):
        return rnp.float64(self.real(name, *a, **k))

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self._get(name, lambda: self.rng.randint(lo, hi)))

    def _n(self, shape):
        return int(rnp.prod(shape)) if not isinstance(shape, int) else shape

    def reals(self, name, shape, lo=None, hi=None, pos=False, nz=False):
        v = self._get(name, lambda: [self._rand(lo, hi, pos)
                                     for _ in range(self._n(shape))])
        for x in v:
            self._range(x, lo, hi, pos, nz)
        return rnp.array(v, float).reshape(shape)

    def ints(self, name, shape, lo, hi):
        v = self._get(name, lambda: [self.rng.randint(lo, hi)
                                     for _ in range(self._n(shape))])
        return rnp.array(v, int).reshape(shape)

    def cplx(self, name, shape, lo=None, hi=None):
        v = self._get(name, lambda: [[self._rand(lo, hi), self._rand(lo, hi)]
                                     for _ in range(self._n(shape))])
        return rnp.array([complex(a, b) for a, b in v],
                         complex).reshape(shape)

    def choice(self, name, options):
        i = self._get(name, lambda: self.rng.randrange(len(options)))
        return options[i]

    def extreal(self, name, lo=None, hi=None, kinds=('fin', 'nan', 'inf',
                                                     '-inf')):
        k = self.choice(name + '.kind', list(kinds))
        if k == 'fin':
            return self.real(name, lo, hi)
        return float(k)

    def arr(self, x, dtype=None):
        return rnp.array(x, dtype)

    def num(self, x):
        return float(x)

    def svd_opaque(self):
        pass

    def svd_known(self, a, u, s, v):
        pass

    def orthonormal(self, name, m, n):
        q = rnp.eye(m)
        k = 0
        for i in range(n):
            for j in range(i + 1, m):
                c = self.real("%s.c%d" % (name, k), -1, 1)
                k += 1
                s = math.sqrt(1 - c * c)
                a, b = q[:, i].copy(), q[:, j].copy()
                q[:, i] = a * c - b * s
                q[:, j] = a * s + b * c
        return q[:, :n].copy()

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        if not rnp.all(cond):
            raise Skip("assumption")

    def implies(self, a, b):
        return (not rnp.all(a)) or bool(rnp.all(b))

    def either(self, *conds):
        return any(bool(rnp.all(c)) for c in conds)

    def truth(self, cond):
        return bool(rnp.all(cond))

    def check(self, label, cond, detail=None):
        self.checks += 1
        ok = all(rnp.all(c) for c in cond) if isinstance(cond, (list, tuple)) \
            else bool(rnp.all(cond))
        if not ok:
            raise Failed(label, detail or "condition is false")

    def eq(self, label, a, b, tol=None, stol=None):
        self.checks += 1
        a, b = rnp.asarray(a), rnp.asarray(b)
        if a.shape != b.shape:
            raise Failed(label, "shape %s instead of %s" % (a.shape, b.shape))
        tol = TOL if tol is None else tol
        if stol is not None:
            tol = max(tol, 2 * stol)
        if a.dtype.kind == 'b' and b.dtype.kind == 'b':
            if not (a == b).all():
                raise Failed(label, "%r != %r" % (a, b))
            return
        a, b = a.astype(complex), b.astype(complex)
        fin = rnp.isfinite(b)
        with rnp.errstate(all='ignore'):
            scale = 1 + (rnp.abs(b[fin]).max() if fin.any() else 0)
            bad = ~(rnp.abs(a - b) <= tol * scale)
            bad &= ~((a == b) | (rnp.isnan(a) & rnp.isnan(b)))
        if bad.any():
            i = tuple(int(k) for k in rnp.argwhere(bad)[0])
            raise Failed(label, "at %s: %r instead of %r" % (i, a[i], b[i]))

    def raises(self, label, exc, fn):
        self.checks += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn()
        except exc:
            return
        except Exception as e:
            if gone(e):
                raise Skip("not there: %s" % e)
            raise Failed(label, "%s raised instead of %s: %s"
                         % (type(e).__name__, exc, e))
        raise Failed(label, "no exception raised")

    def outcome(self, fn):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return 'ok', fn()
        except Exception as e:
            return 'exc', e

    def warned(self, fn):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            r = fn()
        return r, [w.category for w in rec
                   if not issubclass(w.category, DeprecationWarning)]

    def pi(self):
        return rnp.pi

    def exp(self, x):
        return rnp.exp(x)


PROPS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props')


def gone(e):
    """does a harness refer to internals that are called or work differently
    now?  That decides nothing about the property."""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb or not tb[-1].filename.startswith(PROPS):
        return False
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        name, obj = getattr(e, 'name', None), getattr(e, 'obj', None)
        return name is not None and (
            isinstance(obj, (type(os), type)) or name.startswith('_'))
    if isinstance(e, TypeError):
        m = re.match(r"(?:\w+\.)*(_(?!_)\w*)\(\) (takes|missing|got)", str(e))
        return m is not None
    return False


def run_concrete(fn, inputs, cfg, rng=None):
    """('ok'|'skip'|'fail', label, detail, inputs used)"""
    h = ConcH(inputs, cfg, rng)
    try:
        with warnings.catch_warnings(), rnp.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(h)
    except Skip as e:
        return 'skip', str(e), None, h.used
    except Failed as e:
        return 'fail', e.label, e.detail, h.used
    except Exception as e:
        if gone(e):
            return 'skip', "not there: %s" % e, None, h.used
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1] if tb else None
        where = "%s:%s" % (os.path.basename(last.filename), last.lineno) \
            if last else ''
        return 'fail', 'unexpected exception', \
            "%s: %s (%s)" % (type(e).__name__, e, where), h.used
    return 'ok', None, None, h.used


# ------------------------------------------------------------------ driver

class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'       # ok | violation | inconclusive
        self.reasons = []
        self.violations = []     # dict(label, detail, inputs)
        self.stats = C.Stats()
        self.witnesses = 0
        self.witness_skips = 0
        self.concrete_runs = 0
        self.samples = []
        self.functions = set()
        self.labels = set()
        self.complete = True
        self.wall = 0.0
        self.bounds = ''


class FuncTracker:
    """names of package functions executed symbolically"""
    TOOL = 3

    def __init__(self):
        self.names = set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'symex')
        except ValueError:
            pass

        def cb(code, off):
            fn = code.co_filename
            if '/sparse_ir/' in fn:
                self.names.add("%s:%s" % (os.path.basename(fn),
                                          code.co_qualname))
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.PY_START, cb)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.free_tool_id(self.TOOL)


def explore(fn, name, cfg):
    """Run one harness to completion; returns Result"""
    res = Result(name)
    res.bounds = (fn.__doc__ or '').strip()
    t_start = time.time()
    budget = cfg.get('budget', 180)
    deadline = t_start + budget
    trace = C.Trace()
    trial = 0
    max_wit = cfg.get('max_witnesses', 6)
    world = None
    tracker = FuncTracker()
    T.set_ctx(C.NullCtx())
    try:
        world = L.World()
        world.package()
    except Unsupported as e:
        res.complete = False
        res.reasons.append("package import: %s" % e)
    except Exception as e:
        res.complete = False
        res.reasons.append("package import: %s: %s" % (type(e).__name__, e))
        world = None
    seen_reason = set()

    def reason(txt):
        if txt not in seen_reason:
            seen_reason.add(txt)
            res.reasons.append(txt)
        res.complete = False

    shared = {}

    def try_replay(label, detail, inp):
        out = run_concrete(fn, inp, cfg)
        res.concrete_runs += 1
        if out[0] == 'fail':
            return dict(label=label, reproduced=out[1], detail=out[2],
                        inputs=inp)
        return None

    def record(label, v):
        res.violations.append(v)
        if cfg.get('notify'):
            cfg['notify'](v)

    maxfail = cfg.get('max_violations', 3)
    with tracker:
        while world is not None and res.stats.paths < cfg.get('max_paths',
                                                              4000):
            if time.time() > deadline:
                reason("time budget of %ds used up after %d paths"
                       % (budget, res.stats.paths))
                break
            c = C.Ctx(trace, res.stats, deadline, merge=cfg.get('merge', False),
                      feas_ms=cfg.get('feas_ms', 1500),
                      query_ms=cfg.get('query_ms', 10000))
            T.set_ctx(c)
            h = SymH(c, world, cfg)
            h.try_replay = try_replay
            h.record = record
            h.shared = shared
            ended = False
            try:
                with warnings.catch_warnings(), rnp.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    fn(h)
                ended = True
            except T.PathAbort:
                pass
            except T.Budget as e:
                reason("budget: %s" % e)
                if str(e) == 'time':
                    break
            except Unsupported as e:
                reason("not encodable: %s" % e + _where(e))
            except Violation as v:
                if len(res.violations) >= maxfail:
                    break
            except RecursionError as e:
                reason("recursion limit: %s" % _where(e))
            except Exception as e:
                # the code under test raised: replay
                try:
                    w = h.witness()
                except T.Budget:
                    w = None
                if w is None:
                    reason("exception on undecided path: %s: %s%s"
                           % (type(e).__name__, e, _where(e)))
                elif not h.replay("unexpected %s" % type(e).__name__,
                                  str(e), w):
                    reason("exception did not reproduce: %s: %s%s"
                           % (type(e).__name__, e, _where(e)))
                if len(res.violations) >= maxfail:
                    break
            else:
                if h.spurious:
                    reason("counterexample did not reproduce: %s"
                           % sorted(set(h.spurious)))
                rest = set(h.unknowns) - set(h.spurious)
                if rest:
                    reason("solver gave up on: %s" % sorted(rest))
            if ended:
                res.stats.paths += 1
                try:
                    if res.witnesses < max_wit:
                        w = h.witness()
                        if w is not None:
                            out = run_concrete(fn, w, cfg)
                            res.concrete_runs += 1
                            if out[0] == 'ok':
                                res.witnesses += 1
                                if len(res.samples) < 3:
                                    res.samples.append(w)
                            elif out[0] == 'skip':
                                res.witness_skips += 1
                            else:
                                record(None, dict(
                                    label='witness run: %s' % out[1],
                                    reproduced=out[1], detail=out[2],
                                    inputs=w))
                    # arguments that overflow exp()
                    if cfg.get('overflow', True) and c.exp_args:
                        seen = set()
                        for a in c.exp_args:
                            if type(a) is not Val or a.key() in seen:
                                continue
                            seen.add(a.key())
                            r, m = c.check(zb(T.vcmp(a, 710, '>')), ms=1500,
                                           model=True)
                            if r == 'sat':
                                h.replay("overflow of exp", None,
                                         h.extract(m))
                except T.Budget as e:
                    reason("budget: %s" % e)
            if len(res.violations) >= maxfail:
                break
            if not trace.next():
                break
        else:
            if world is not None:
                reason("path limit reached")
    T.set_ctx(C.NullCtx())
    res.functions = tracker.names
    if not res.complete and not res.violations:
        fallback(fn, cfg, res)
    if res.violations:
        res.status = 'violation'
    elif not res.complete:
        res.status = 'inconclusive'
    elif res.stats.obligations == 0 or \
            (res.witnesses == 0 and not cfg.get('no_witness')):
        res.status = 'inconclusive'
        res.reasons.append("vacuous: no path with a reproduced witness")
    res.wall = time.time() - t_start
    return res


def fallback(fn, cfg, res):
    """Concrete runs on sampled inputs; only for harnesses that could not be
    decided, which are reported as inconclusive in any case."""
    rng = random.Random(cfg.get('seed', 1) * 7919 + 13)
    t0 = time.time()
    n = 0
    tries = 0
    while n < cfg.get('fallback_runs', 300) and \
            time.time() - t0 < cfg.get('fallback_s', 12) and tries < 5000:
        tries += 1
        out = run_concrete(fn, {}, cfg, rng)
        if out[0] == 'skip':
            continue
        n += 1
        res.concrete_runs += 1
        if out[0] == 'fail':
            res.violations.append(dict(label=out[1], reproduced=out[1],
                                       detail=out[2], inputs=out[3]))
            break


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/sparse_ir/' in f.filename:
            return " [%s:%d]" % (os.path.basename(f.filename), f.lineno)
    f = tb[-1]
    return " [%s:%d]" % (os.path.basename(f.filename), f.lineno)
