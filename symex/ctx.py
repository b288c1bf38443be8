"""Symbolic context: path exploration by re-execution, solver access."""
from fractions import Fraction
import math
import threading
import time
import z3

from . import terms as T
from .terms import Gen, PathAbort, Budget, Unsupported, zb


PI_LO = Fraction(31415926535897932384, 10**19)
PI_HI = Fraction(31415926535897932385, 10**19)
PI_LONG = 314159265358979323846264338327950288419716      # times 10**41


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.forced = 0
        self.obligations = 0
        self.discharged = 0
        self.by_norm = 0
        self.by_solver = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class NullCtx:
    """Used while modules are imported: no symbols but PI may exist."""
    merge = False
    null = True

    def __init__(self):
        self.gens = []
        self.cache = {}
        self.keep = []
        self.exp_args = []
        _mk_pi(self)

    def pi_gen(self):
        return self.gens[0]

    def new_gen(self, name, isint=False, pos=False, nz=False):
        raise Unsupported("symbol created outside of a run")

    def decide(self, b):
        raise Unsupported("decision outside of a run")

    def known(self, f):
        return f is True

    def known3(self, f):
        return f if type(f) is bool else None

    def define(self, f):
        pass


def _mk_pi(c):
    g = Gen(0, 'pi', False, True, True, z3.Real('pi'))
    g.lo = Fraction(PI_LONG, 10**41)
    g.hi = Fraction(PI_LONG + 1, 10**41)
    g.const = True
    c.gens.append(g)
    return g


class Trace:
    """Decision trace of one harness, explored depth first."""
    def __init__(self):
        self.entries = []     # [value, open_alternative, data]

    def next(self):
        while self.entries and not self.entries[-1][1]:
            self.entries.pop()
        if not self.entries:
            return False
        e = self.entries[-1]
        e[0] = not e[0]
        e[1] = False
        return True


class Ctx:
    def __init__(self, trace, stats, deadline=None, merge=False,
                 max_decisions=4000, feas_ms=1500, query_ms=8000):
        self.trace = trace
        self.stats = stats
        self.pos = 0
        self.gens = []
        self.cache = {}
        self.keep = []
        self.merge = merge
        self.exp_args = []
        self.inputs = []          # (name, kind, elements)
        self.solver = z3.Solver()
        self.solver.set('random_seed', 7)
        self.memo = {}
        self.knowns = {}
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.feas_ms = feas_ms
        self.query_ms = query_ms
        self.facts = []           # every assertion (for fresh solvers)
        self.has_unknown = False
        g = _mk_pi(self)
        self.define(z3.And(g.z > T.zconst(PI_LO, False),
                           g.z < T.zconst(PI_HI, False)))

    # ------------------------------------------------------------ generators
    def new_gen(self, name, isint=False, pos=False, nz=False):
        i = len(self.gens)
        nm = "%s!%d" % (name, i)
        z = z3.Int(nm) if isint else z3.Real(nm)
        g = Gen(i, nm, isint, pos, nz, z)
        self.gens.append(g)
        if pos:
            self.define(z > 0)
        elif nz:
            self.define(z != 0)
        return g

    def pi_gen(self):
        return self.gens[0]

    def define(self, f):
        if type(f) is bool:
            if f:
                return
            f = z3.BoolVal(False)
        self.facts.append(f)
        self.solver.add(f)

    # ------------------------------------------------------------ solver
    def check(self, *fs, ms=None, model=False):
        """'sat' / 'unsat' / 'unknown' (and model)"""
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")
        ms = ms or self.feas_ms
        t0 = time.time()
        self.stats.queries += 1
        self.solver.set('timeout', int(ms))
        r = _timed(self.solver, ms, fs)
        m = self.solver.model() if model and r == z3.sat else None
        if r == z3.unknown:
            r, m = self._second(fs, ms, model)
        self.stats.solver_s += time.time() - t0
        r = str(r)
        if r == 'unknown':
            self.stats.unknown += 1
        return (r, m) if model else r

    def _second(self, fs, ms, model):
        """fresh non-incremental solver on the relevant facts"""
        facts = self.relevant(fs)
        hasint = any(_has_int(f) for f in facts)
        for tac in (['qfnra-nlsat'] if not hasint else ['smt']):
            try:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs',
                            'simplify', tac).solver()
                s.set('timeout', int(ms))
                s.add(*facts)
                r = _timed(s, ms)
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                if not model and len(facts) == len(self.facts) + len(fs):
                    return r, None
                # confirm with all facts to get a complete model
                s = z3.Solver()
                s.set('timeout', int(ms))
                s.add(*self.facts)
                s.add(*fs)
                r2 = _timed(s, ms)
                if r2 == z3.sat:
                    return r2, s.model()
                if r2 == z3.unsat:
                    return r2, None
        return z3.unknown, None

    def relevant(self, fs):
        """facts connected to the formulas through shared variables"""
        vs = set()
        for f in fs:
            vs |= _vars(f)
        todo = list(self.facts)
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for f in todo:
                v = _vars(f)
                if v & vs or not v:
                    out.append(f)
                    vs |= v
                    changed = True
                else:
                    rest.append(f)
            todo = rest
        return out + list(fs)

    # ------------------------------------------------------------ decisions
    def decide(self, b):
        if type(b) is bool:
            return b
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if z3.is_not(b):
            return not self.decide(b.arg(0))
        key = b.get_id()
        r = self.memo.get(key)
        if r is not None:
            return r
        self.keep.append(b)
        t = self.trace
        if self.pos < len(t.entries):
            e = t.entries[self.pos]
            v = e[0]
        else:
            if self.pos >= self.max_decisions:
                raise Budget("decisions")
            rt = self.check(b)
            rf = self.check(z3.Not(b)) if rt != 'unsat' else 'sat'
            if rt == 'unsat' and rf == 'unsat':
                raise PathAbort("infeasible")
            if rt == 'unsat':
                v, alt = False, False
            elif rf == 'unsat':
                v, alt = True, False
            else:
                v, alt = True, True
                if 'unknown' in (rt, rf):
                    self.has_unknown = True
            t.entries.append([v, alt, None])
            if alt:
                self.stats.decisions += 1
            else:
                self.stats.forced += 1
        self.pos += 1
        self.memo[key] = v
        f = b if v else z3.Not(b)
        self.facts.append(f)
        self.solver.add(f)
        return v

    def choose(self, n):
        """free choice among n alternatives (no constraint)"""
        t = self.trace
        lo = 0
        while lo < n - 1:
            if self.pos < len(t.entries):
                v = t.entries[self.pos][0]
            else:
                v = True
                t.entries.append([True, True, None])
                self.stats.decisions += 1
            self.pos += 1
            if v:
                return lo
            lo += 1
        return lo

    def concretize(self, val):
        """integer value of a symbolic integer, by case split"""
        val = T.tonum(val)
        if T.is_num(val):
            return int(val)
        if type(val) is float:
            raise Unsupported("integer from special float")
        if not val.isint:
            raise Unsupported("integer required")
        z = T.zpoly(val.n, True)
        t = self.trace
        for _ in range(400):
            if self.pos < len(t.entries):
                k = t.entries[self.pos][2]
                if k is None:
                    raise Unsupported("trace out of step")
                v = t.entries[self.pos][0]
            else:
                # prefer small magnitude deterministic candidates
                r, m = self.check(model=True)
                if r == 'unsat':
                    raise PathAbort("infeasible")
                if r != 'sat':
                    raise Unsupported("cannot concretise integer")
                k = m.eval(z, model_completion=True).as_long()
                other = self.check(z != k)
                v = True
                t.entries.append([True, other != 'unsat', k])
                self.stats.decisions += 1
            self.pos += 1
            f = (z == k) if v else (z != k)
            self.facts.append(f)
            self.solver.add(f)
            if v:
                return k
        raise Budget("concretisation")

    def known3(self, f):
        if type(f) is bool:
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = f.get_id()
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self.knowns.get(key)
        if r is not None:
            return r
        self.keep.append(f)
        if self.check(z3.Not(f), ms=500) == 'unsat':
            self.knowns[key] = True
            return True
        if self.check(f, ms=500) == 'unsat':
            self.knowns[key] = False
            return False
        return None

    def known(self, f):
        if type(f) is bool:
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = f.get_id()
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self.knowns.get(key)
        if r is not None:
            return r
        self.keep.append(f)
        r = self.check(z3.Not(f), ms=500) == 'unsat'
        if r:
            self.knowns[key] = True
        return r

    def refine(self, model):
        """Facts about exp that exclude a model with wrong exp values.

        Returns number of facts added (0 if the model is accurate)."""
        n = 0
        for g in list(self.gens):
            if not g.info or g.info[0] != 'exp':
                continue
            b4 = T.vmul(g.info[1], Fraction(1, 4))
            if type(b4) is not T.Val or b4.d:
                continue
            zb4 = T.zpoly(b4.n, False)
            b0 = _approx(model.eval(zb4, model_completion=True))
            v0 = _approx(model.eval(g.z, model_completion=True))
            if b0 is None or v0 is None:
                continue
            b0 = Fraction(round(min(max(b0, -24), 24) * 64), 64)
            e0 = math.exp(float(b0))
            lo, hi = _bracket(e0)
            t = zb4 - T.zconst(b0, False)
            if abs(float(v0) - e0) <= 1e-5 * e0:
                continue
            zlo, zhi = T.zconst(lo, False), T.zconst(hi, False)
            d = Fraction(1, 8)
            # chord above exp on [b0 - d, b0 + d]
            c0 = _bracket(math.cosh(d) * float(hi))[1]
            c1 = _bracket(math.sinh(d) / float(d) * e0)[1]
            c0 += d * (c1 - _bracket(math.sinh(d) / float(d) * e0)[0])
            fs = [g.z >= zlo * (1 + t),
                  z3.Implies(t >= 0, g.z >= zlo),
                  z3.Implies(t <= 0, g.z <= zhi),
                  z3.Implies(
                      z3.And(t >= T.zconst(-d, False), t <= T.zconst(d, False)),
                      g.z <= T.zconst(c0, False) + t * T.zconst(c1, False))]
            for f in fs:
                self.define(f)
            n += 1
        return n

    def sign(self, v):
        if self.decide(T.vcmp(v, 0, '>')):
            return 1
        return 0 if self.decide(T.vcmp(v, 0, '==')) else -1


def _bracket(x):
    """short rationals around a positive float"""
    e = math.floor(math.log10(x)) - 5
    k = Fraction(10) ** e
    m = Fraction(x) / k
    return (math.floor(m - Fraction(1, 100)) * k,
            math.ceil(m + Fraction(1, 100)) * k)


class _Watchdog:
    """z3 does not always honour its timeout; interrupt it from a thread"""
    def __init__(self):
        self.cond = threading.Condition()
        self.limit = None
        self.thread = None

    def arm(self, s):
        with self.cond:
            self.limit = time.monotonic() + s
            if self.thread is None:
                self.thread = threading.Thread(target=self.run, daemon=True)
                self.thread.start()
            else:
                self.cond.notify()

    def disarm(self):
        with self.cond:
            self.limit = None

    def run(self):
        while True:
            with self.cond:
                if self.limit is None:
                    self.cond.wait()
                    continue
                d = self.limit - time.monotonic()
                if d > 0:
                    self.cond.wait(d)
                    continue
                z3.main_ctx().interrupt()
                self.cond.wait(0.2)


_dog = _Watchdog()


def reset_watchdog():
    global _dog
    _dog = _Watchdog()


def _timed(solver, ms, fs=()):
    _dog.arm(ms / 1000. * 1.2 + .3)
    try:
        return solver.check(*fs)
    except z3.Z3Exception:
        return z3.unknown
    finally:
        _dog.disarm()


def _approx(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


_vcache = {}


def _vars(f):
    k = f.get_id()
    r = _vcache.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    out = set()
    seen = set()
    st = [f]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n != 'pi':
                    out.add(n)
        else:
            st.extend(e.children())
    if len(_vcache) > 200000:
        _vcache.clear()
    _vcache[k] = (f, out)
    return out


def _has_int(f):
    st = [f]
    seen = set()
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(e):
            return True
        st.extend(e.children())
    return False
