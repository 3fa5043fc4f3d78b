"""Obligations: the same scenario function runs symbolically (decision by z3) and concretely (replay on the real code)."""
import json, math, os, random, sys, time, traceback
from fractions import Fraction
import numpy as np


class Failure(Exception):
    pass


class SkipPath(BaseException):
    pass


# =============================================================== symbolic side
class SymS:
    mode = 'sym'
    symbolic = True
    numerator = False

    def __init__(self, ctx, tier, opts):
        from . import shim, sym, nf
        self.sh, self.sy, self.nfm = shim, sym, nf
        self.ctx = ctx
        self.tier = tier
        self.opts = opts
        self.np = shim.MODS['numpy']
        self.la = shim.MODS['scipy.linalg']
        self.norm = shim.MODS['scipy.stats'].norm
        self.stats = dict(queries=0, solver_time=0.0, unsat=0, sat=0, unknown=0, identity=0, checks=0)
        self.cands = []
        self.incon = []
        self.memo = {}
        self.N = None
        self.labels = {}
        self.witness = None
        self.trace = []
        self.timeout = opts.get('query_ms', 15000)
        self.assumptions = set()
        self.maxc = opts.get('max_cands', 6)
        self.skipped_eq = 0

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        return self.ctx.var(name, lo, hi)

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.ctx.var("%s[%s]" % (name, ",".join(map(str, i))), lo, hi)
        return a.view(self.sh.SymArray)

    def int(self, name, lo, hi):
        return self.ctx.var(name, lo, hi, 'I')

    def bool(self, name):
        return bool(self.ctx.var(name, 0, 1, 'I') == 1)

    def pick(self, name, items):
        items = list(items)
        if len(items) == 1:
            return items[0]
        return items[int(self.ctx.var(name, 0, len(items) - 1, 'I'))]

    def fresh(self, name, lo=None, hi=None):
        return self.ctx.fresh(name, lo, hi)

    def arr(self, x):
        return self.sh.to_arr(x)

    # ---- modes
    def concretely(self, key, fn):
        """run fn once with the real libraries (no symbolic values involved); cached over paths"""
        if key not in self.memo:
            old = self.sh.ON[0]
            self.sh.ON[0] = False
            self.sh.reseed()
            try:
                self.memo[key] = fn()
            finally:
                self.sh.ON[0] = old
        return self.memo[key]

    def off(self):
        return _Switch(self.sh, False)

    def rng(self, on=True):
        self.sh.RNG[0] = self.sh.SymRandomState() if on else None

    def minimize(self, fn):
        self.sh.MINIMIZE[0] = fn

    def rint_fork(self, on=True):
        """rounding of symbolic values branches over the possible integers"""
        if self.symbolic:
            self.ctx.rint_fork = on

    def note(self, text):
        self.assumptions.add(text)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for v in c.reshape(-1):
                self.ctx.assume(v)
            return
        self.ctx.assume(c)

    def AND(self, *cs):
        r = True
        for c in cs:
            r = self.sy.sand(r, c)
        return r

    def OR(self, *cs):
        r = False
        for c in cs:
            r = self.sy.sor(r, c)
        return r

    def NOT(self, c):
        return self.sy.snot(c)

    def ite(self, c, a, b):
        return self.sy.ite(c, a, b)

    def skip(self):
        raise SkipPath()

    # ---- checks
    def _pairs(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)):
            pa, pb = np.asarray(self.sh.plain(self.sh.to_arr(a)), dtype=object), np.asarray(self.sh.plain(self.sh.to_arr(b)), dtype=object)
            if pa.ndim == 0:
                pa = np.broadcast_to(pa, pb.shape)
            if pb.ndim == 0:
                pb = np.broadcast_to(pb, pa.shape)
            if pa.shape != pb.shape:
                self._violate("shape", "%s vs %s" % (pa.shape, pb.shape))
                raise SkipPath()
            for i in np.ndindex(*pa.shape):
                yield str(list(i)) if i else '', pa[i], pb[i]
        else:
            yield '', a, b

    def _tr(self, label, v):
        if len(self.trace) < 400:
            self.trace.append((label, v))

    def eq(self, label, a, b, tol=1e-7):
        old, self.sh.ON[0] = self.sh.ON[0], True
        self._cur = label
        try:
            for ix, x, y in self._pairs(a, b):
                self._eq1(label + ix, x, y, tol)
        finally:
            self.sh.ON[0] = old

    def _eq1(self, label, x, y, tol):
        sy = self.sy
        self.stats['checks'] += 1
        self.labels[label.split('[')[0]] = self.labels.get(label.split('[')[0], 0) + 1
        self._tr(label, x)
        if not isinstance(x, sy.Sym) and not isinstance(y, sy.Sym):
            xf, yf = float(x), float(y)
            if (math.isnan(xf) or math.isnan(yf) or math.isinf(xf) or math.isinf(yf)):
                bad = not (xf == yf)
            else:
                bad = abs(xf - yf) > tol * max(1.0, abs(xf), abs(yf))
            if bad:
                self._violate(label, "concrete mismatch %r vs %r" % (xf, yf))
            return
        try:
            x, y = sy.lift(x), sy.lift(y)
        except sy.Unsupported as e:
            self._violate(label, str(e))
            return
        d = sy.arith('sub', x, y)
        self._zero(label, d, tol)

    def _nf(self):
        if self.N is None:
            self.N = self.nfm.NF(self.ctx.bounds)
            self._npath = None
        k = (self.ctx.path_no, self.ctx.pos, len(self.ctx.conds), len(self.ctx.bounds))
        if self._npath != k:
            self._npath = k
            self.N._iv.clear()
            self.N._eiv.clear()
            self.N.base[1].clear()
            self.N.base[2].clear()
            self.N.set_path(self.ctx.conds)

    def _zero(self, label, d, tol):
        sy = self.sy
        self._nf()
        verdict = None
        try:
            verdict, model, stage = self.nfm.zero_query(self.N, d, tol, self.ctx, self.timeout, stats=self.stats, numerator=self.numerator)
        except (self.nfm.TooBig, sy.Unsupported, ZeroDivisionError) as e:
            verdict, model, stage = self._direct_zero(d, tol) + ('direct:' + type(e).__name__ + ':' + str(e)[:80],)
        self._count(verdict, stage)
        if verdict == 'unsat':
            return
        f = lambda env, memo: abs(sy.evalf(d, env, memo)) - 100 * tol
        self._candidate(label, verdict, model, f, stage)

    def _direct_zero(self, d, tol):
        z3 = self.sy.z3
        s = z3.Solver()
        s.set('timeout', self.timeout)
        t = d.z3()
        for c in self.ctx.pc:
            s.add(c)
        lim = z3.RealVal(str(Fraction(tol).limit_denominator(10 ** 15)))
        s.add(z3.Or(t > lim, t < -lim))
        t0 = time.time()
        r = s.check()
        self.stats['solver_time'] += time.time() - t0
        self.stats['queries'] += 1
        return str(r), s.model() if r == z3.sat else None

    def _count(self, verdict, stage=''):
        self.stats[verdict] += 1
        if stage == 'identity':
            self.stats['identity'] += 1

    def le(self, label, a, b, tol=1e-7):
        """a <= b + tol"""
        for ix, x, y in self._pairs(a, b):
            self._le1(label + ix, x, y, tol)

    def _le1(self, label, x, y, tol):
        sy = self.sy
        self.stats['checks'] += 1
        self.labels[label.split('[')[0]] = self.labels.get(label.split('[')[0], 0) + 1
        self._tr(label, x)
        if not isinstance(x, sy.Sym) and not isinstance(y, sy.Sym):
            if not float(x) <= float(y) + tol:
                self._violate(label, "concrete %r > %r" % (float(x), float(y)))
            return
        d = sy.arith('sub', sy.lift(x), sy.lift(y))
        # interval / linear attempt on the normal form first
        try:
            self._nf()
            v, m = self._nf_le(d, tol)
        except (self.nfm.TooBig, sy.Unsupported, ZeroDivisionError) as e:
            v, m = self._raw(sy.z3.Not(d.z3() <= sy.q(Fraction(tol).limit_denominator(10 ** 15))))
        if v != 'unsat' and self._by_condition(d, tol):
            v = 'unsat'
        self._count(v)
        if v != 'unsat':
            self._candidate(label, v, m, lambda env, memo: sy.evalf(d, env, memo) - 2 * tol, 'le')

    def _by_condition(self, d, tol):
        """d <= L + tol for some branch condition L <= 0 of this path (decided as |d - L| <= tol over the box)"""
        sy = self.sy
        for c, val in self.ctx.conds[-14:]:
            while c.op == 'not':
                c, val = c.args[0], not val
            if c.op not in ('lt', 'le') or any(not isinstance(a, sy.Sym) for a in c.args):
                continue
            L = sy.arith('sub', c.args[0], c.args[1]) if val else sy.arith('sub', c.args[1], c.args[0])
            if not isinstance(L, sy.Sym):
                continue
            try:
                v, m, st = self.nfm.zero_query(self.N, sy.arith('sub', d, L) if isinstance(d, sy.Sym) else d, tol, self.ctx, 2000, stats=self.stats)
            except (self.nfm.TooBig, sy.Unsupported, ZeroDivisionError, AttributeError):
                continue
            if v == 'unsat':
                return True
        return False

    def clipped(self, v):
        """is this value a constant zero on the current path?"""
        return not (isinstance(v, self.sy.Sym) and v.op != 'c') and float(v) == 0.0

    def eq_clipped(self, label, v, e, tol=1e-7):
        """v == max(e, 0) where the code clips at zero"""
        if isinstance(v, self.sy.Sym) and v.op != 'c':
            self.eq(label, v, e, tol)
        elif float(v) == 0.0:
            self.le(label, e, 0.0, tol)
        else:
            self.eq(label, v, e, tol)

    def _nf_le(self, d, tol):
        z3 = self.sy.z3
        n, den = self.N.rf(d)
        t0 = time.time()
        if n and den:
            n, den = self.nfm.simplify(self.N, n, den)
        lim = z3.RealVal(str(Fraction(tol).limit_denominator(10 ** 15)))
        if not n:
            self.stats['queries'] += 1
            return 'unsat', None
        if not den:
            s = z3.Solver()
            s.set('timeout', self.timeout)
            ts = []
            for j, ((m, e), c) in enumerate(n.items()):
                lo, hi = self.nfm._imul(self.N.miv(m), self.N.eiv(e))
                v = z3.Real("m%d" % j)
                if lo > -math.inf and lo == lo:
                    s.add(v >= self.nfm._q(lo, -1))
                if hi < math.inf and hi == hi:
                    s.add(v <= self.nfm._q(hi, 1))
                ts.append(z3.RealVal(str(c)) * v)
            s.add(z3.Sum(ts) > lim)
            r = s.check()
            self.stats['queries'] += 1
            if r == z3.unsat:
                self.stats['solver_time'] += time.time() - t0
                return 'unsat', None
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for c in self.ctx.pc:
            s.add(c)
        dn, cons = {}, []
        N = self.N.zpoly(n, dn, cons)
        if den:
            D = z3.RealVal(1)
            for i, k in den.items():
                P = self.N.zpoly(self.N.polys[i], dn, cons)
                for _ in range(k):
                    D = D * P
                s.add(P != 0)
            yv = z3.Real("nf_quot")
            s.add(yv * D == N, yv > lim)
        else:
            s.add(N > lim)
        for c in cons:
            s.add(c)
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_time'] += time.time() - t0
        return str(r), s.model() if r == z3.sat else None

    def _raw(self, neg):
        z3 = self.sy.z3
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for c in self.ctx.pc:
            s.add(c)
        s.add(neg)
        t0 = time.time()
        r = s.check()
        self.stats['solver_time'] += time.time() - t0
        self.stats['queries'] += 1
        return str(r), s.model() if r == z3.sat else None

    def true(self, label, cond):
        sy = self.sy
        self.stats['checks'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(cond, np.ndarray):
            for v in cond.reshape(-1):
                self.true(label, v)
            return
        if not isinstance(cond, sy.Sym):
            if not bool(cond):
                self._violate(label, "false on this path")
            else:
                # a concrete truth on this path: the path condition alone decides it
                self.stats['queries'] += 1
                self.stats['unsat'] += 1
            return
        v, m = self._raw(sy.z3.Not(cond.z3()))
        self._count(v)
        if v != 'unsat':
            self._candidate(label, v, m, lambda env, memo: 0.0 if sy.evalf(cond, env, memo) else 1.0, 'bool')

    def grad(self, label, f, X, wrt, D, out=None, tol=1e-6):
        """D == d f(X)[out] / d X[wrt]"""
        if self.ctx.has_eq:
            self.skipped_eq += 1
            return
        key = ('gradval', id(X), getattr(f, '__name__', str(f)))
        V = self._gradcache(f, X)
        v = V if out is None else self.sh.plain(V)[out]
        if self.ctx.has_eq or not self._interior():
            self.skipped_eq += 1
            return
        old, self.sh.ON[0] = self.sh.ON[0], True
        xv = self.sh.plain(X)[wrt]
        if isinstance(v, np.ndarray):
            d = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                d[i] = self.sy.diff(self.sy.lift(v[i]), xv)
        else:
            d = self.sy.diff(self.sy.lift(v), xv)
        self.sh.ON[0] = old
        self._cur = label
        for ix, x, y in self._pairs(D, d):
            self._eq1(label + ix, x, y, tol)

    def _interior(self):
        """does the current path condition have points off the branching boundaries?"""
        z3 = self.sy.z3
        key = (id(self.ctx.pc), len(self.ctx.pc), self.ctx.n_paths)
        if getattr(self, '_ik', None) == key:
            return self._iv

        M = z3.RealVal('1/1000000000000')      # slivers created by rounded float constants do not count

        def strict(c):
            neg = False
            while z3.is_not(c):
                c = c.arg(0)
                neg = not neg
            if z3.is_and(c) and not neg:
                return z3.And(*[strict(a) for a in c.children()])
            if z3.is_or(c) and neg:
                return z3.And(*[strict(z3.Not(a)) for a in c.children()])
            if c.num_args() == 2 and z3.is_arith(c.arg(0)) and not (c.arg(0).is_int() and c.arg(1).is_int()):
                a, b = c.arg(0), c.arg(1)
                if z3.is_le(c):
                    return a > b + M if neg else a + M < b
                if z3.is_ge(c):
                    return a + M < b if neg else a > b + M
                if z3.is_lt(c) and neg:
                    return a > b + M
                if z3.is_gt(c) and neg:
                    return a + M < b
            return z3.Not(c) if neg else c
        s = z3.Solver()
        s.set('timeout', 400)
        for c in self.ctx.pc:
            s.add(strict(c))
        t0 = time.time()
        r = s.check()
        self.stats['solver_time'] += time.time() - t0
        self.stats['queries'] += 1
        self._ik, self._iv = key, r != z3.unsat
        return self._iv

    def _gradcache(self, f, X):
        k = (id(f), id(X))
        c = self.__dict__.setdefault('_gc', {})
        if k not in c:
            old, self.sh.ON[0] = self.sh.ON[0], True
            c[k] = (f(X), f, X)
            self.sh.ON[0] = old
        return c[k][0]

    def deriv_wrt(self, e, v):
        """symbolic partial derivative"""
        return self.sy.diff(self.sy.lift(e), v)

    def dirderiv(self, name, f):
        """d f(e) / d e at e = 0 (f returns a scalar)"""
        e = self.ctx.var("dir_" + name, -0.001, 0.001)
        old, self.sh.ON[0] = self.sh.ON[0], True
        keep = self.ctx.solver, self.ctx.pc
        z3 = self.sy.z3
        self.ctx.solver, self.ctx.pc = z3.Solver(), []
        self.ctx.solver.set("timeout", self.ctx.feas_timeout)
        try:
            v = self.sy.lift(f(e))
            d = self.sy.diff(v, e)
            return self.sy.subst(d, {e.id: self.sy.const(0.0)})
        finally:
            self.sh.ON[0] = old
            self.ctx.solver, self.ctx.pc = keep

    # ---- violations
    def _violate(self, label, why):
        """a failure that holds on the whole current path"""
        self._candidate(label, 'sat', None, lambda env, memo: 1.0, 'path: ' + why)

    def _candidate(self, label, verdict, model, f, stage):
        if sum(1 for c in self.cands if c['label'].split('[')[0] == label.split('[')[0]) >= self.maxc:
            return
        envs = []
        if model is not None:
            envs.append(self._env(model))
        z3 = self.sy.z3
        rnd = random.Random(len(self.cands) + 17)
        if model is None or True:
            for t in range(8):
                m = self._diverse(rnd, t)
                if m is None:
                    break
                envs.append(self._env(m))
                if len(envs) > 10:
                    break
        best = []
        for e in envs:
            try:
                val = f(e, {})
            except Exception:
                val = float('nan')
            if not (isinstance(val, float) and math.isnan(val)) and val > 0:
                best.append((val, e))
        if not best:
            self.incon.append(dict(label=label, verdict=verdict, stage=stage, why="no model violates numerically (abstraction)"))
            return
        best.sort(key=lambda t: -t[0])
        for val, e in best[:3]:
            self.cands.append(dict(label=label, verdict=verdict, stage=stage, env=e, value=float(val)))

    def _diverse(self, rnd, t):
        """another model of the path condition, pushed to a random region"""
        z3 = self.sy.z3
        s = z3.Solver()
        s.set('timeout', 3000)
        for c in self.ctx.pc:
            s.add(c)
        if s.check() != z3.sat:
            return None
        m = s.model()
        for name, v in self.ctx.vars.items():
            lo, hi = self.ctx.bounds[name]
            lo = -2.0 if lo is None else float(lo)
            hi = 2.0 if hi is None else float(hi)
            if v.sort == 'I':
                c = v.z3() == rnd.randint(int(lo), int(hi))
            else:
                w = (hi - lo)
                p = lo + w * rnd.random()
                c = z3.And(v.z3() >= z3.RealVal(str(Fraction(p - w * .1).limit_denominator(1000))),
                           v.z3() <= z3.RealVal(str(Fraction(p + w * .1).limit_denominator(1000))))
            s.push()
            s.add(c)
            r = s.check()
            if r == z3.sat:
                m = s.model()
            else:
                s.pop()
        return m

    def _env(self, model):
        env = {}
        for name, v in self.ctx.vars.items():
            val = model.eval(v.z3(), model_completion=False)
            z3 = self.sy.z3
            if z3.is_rational_value(val):
                env[name] = float(val.as_fraction())
            elif z3.is_int_value(val):
                env[name] = val.as_long()
            elif z3.is_algebraic_value(val):
                env[name] = float(val.approx(20).as_fraction())
            else:
                lo, hi = self.ctx.bounds[name]
                lo_, hi_ = (-1.0 if lo is None else lo), (1.0 if hi is None else hi)
                env[name] = (int(lo_) if v.sort == 'I' else (float(lo_) + float(hi_)) / 2 if hi is not None or lo is None else float(lo_) + 1)
        return env


class _Switch:
    def __init__(self, sh, v):
        self.sh, self.v = sh, v

    def __enter__(self):
        self.old = self.sh.ON[0]
        self.sh.ON[0] = self.v

    def __exit__(self, *a):
        self.sh.ON[0] = self.old


def run_symbolic(fn, kwargs, tier, opts):
    """explore all paths of one obligation; returns a json-able dict"""
    from . import sym, shim
    t0 = time.time()
    deadline = t0 + opts.get('time', 150)
    ctx = sym.Ctx(max_paths=opts.get('max_paths', 3000), deadline=deadline, feas_timeout=opts.get('feas_ms', 3000))
    sym.set_ctx(ctx)
    S = SymS(ctx, tier, opts)
    shim.CHOL_POS[0] = opts.get('chol_pos', True)
    shim.SPLU_EXACT[0] = opts.get('splu_exact', True)
    exc = []
    reached = 0
    status = 'complete'
    witness = []
    infeasible = 0
    while True:
        S.trace = []
        S.__dict__.pop('_gc', None)
        n_before = S.stats['checks']
        shim.ON[0] = opts.get('on', True)
        shim.RNG[0] = None
        shim.MINIMIZE[0] = None
        shim.reseed()
        try:
            try:
                fn(S, **kwargs)
            except SkipPath:
                pass
            ctx.n_paths += 1
            if S.stats['checks'] > n_before:
                reached += 1
            if S.stats['checks'] > n_before and len(witness) < opts.get('witnesses', 2):
                w = _witness(S)
                if w:
                    witness.append(w)
        except sym.PathAbort:
            infeasible += 1
        except TimeoutError as e:
            status = 'timeout'
            break
        except Exception as e:
            ctx.n_paths += 1
            if len(exc) < 6:
                tb = traceback.format_exc()
                shim.ON[0] = False
                envs = []
                for t in range(2):
                    m = S._diverse(random.Random(t), t)
                    if m is not None:
                        envs.append(S._env(m))
                exc.append(dict(type=type(e).__name__, msg=str(e)[:300], tb=tb[-1800:], envs=envs))
        finally:
            shim.ON[0] = False
        if len(S.cands) >= opts.get('stop_after', 12) or len(exc) >= 6:
            status = 'stopped'
            break
        if time.time() > deadline:
            status = 'timeout'
            break
        if ctx.n_paths + infeasible >= ctx.max_paths:
            status = 'max_paths'
            break
        if not ctx.next_path():
            break
        ctx.begin_path()
    return dict(status=status, paths=ctx.n_paths, infeasible=infeasible, reached=reached, feas_queries=ctx.feas_queries,
                feas_time=ctx.solver_time, stats=S.stats, cands=S.cands, incon=S.incon, exc=exc, labels=S.labels,
                assumptions=sorted(S.assumptions | shim.ASSUMED), witness=witness, wall=time.time() - t0,
                skipped_eq=S.skipped_eq, div_assumed=ctx.div_assumed, unknown_feas=ctx.unknown_feas, vars=len(ctx.vars),
                encoded=encoded_functions())


def _witness(S):
    # the solver's model treats exp, Phi, ... abstractly: use it only when the branch conditions of this path
    # also hold numerically, otherwise the real code would take another path
    for t in range(4):
        m = S._diverse(random.Random(5 + t), t)
        if m is None:
            return None
        env = S._env(m)
        memo = {}
        try:
            if all(bool(S.sy.evalf(c, env, memo)) == bool(v) for c, v in S.ctx.conds if isinstance(c, S.sy.Sym)):
                break
        except Exception:
            pass
    else:
        return None
    out = []
    for label, v in S.trace[:60]:
        try:
            out.append([label, float(S.sy.evalf(v, env, memo)) if isinstance(v, S.sy.Sym) else float(v)])
        except Exception:
            out.append([label, None])
    return dict(env=env, trace=out)


# ---- which functions of /repo were executed symbolically
_SEEN = set()


def start_monitor(prefix):
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "smtverif")
    except ValueError:
        return
    p = os.path.join(prefix, 'smt') + os.sep

    def cb(code, off):
        if code.co_filename.startswith(p):
            from . import shim
            if shim.ON[0]:
                _SEEN.add((code.co_filename[len(prefix) + 1:], code.co_qualname))
                return mon.DISABLE
            return None
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, cb)
    mon.set_events(4, mon.events.PY_START)


def encoded_functions():
    return sorted("%s:%s" % x for x in _SEEN)


# =============================================================== concrete side
class ConcS:
    mode = 'conc'
    symbolic = False
    numerator = False

    def __init__(self, env, tier, want=None):
        self.env = env
        self.tier = tier
        self.np = np
        import scipy.linalg
        self.la = scipy.linalg
        import scipy.stats
        self.norm = scipy.stats.norm
        self.fails = []
        self.trace = []
        self.counter = 0
        self.labels = {}
        self.missing = []

    def _get(self, name, lo, hi, integer=False):
        if name in self.env:
            v = self.env[name]
        else:
            self.missing.append(name)
            lo_, hi_ = (-1.0 if lo is None else lo), (1.0 if hi is None else hi)
            v = lo_ if integer else (lo_ + hi_) / 2
        return int(v) if integer else float(v)

    def real(self, name, lo=None, hi=None):
        return self._get(name, lo, hi)

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = self._get("%s[%s]" % (name, ",".join(map(str, i))), lo, hi)
        return a

    def int(self, name, lo, hi):
        return self._get(name, lo, hi, True)

    def bool(self, name):
        return self._get(name, 0, 1, True) == 1

    def pick(self, name, items):
        items = list(items)
        if len(items) == 1:
            return items[0]
        k = self._get(name, 0, len(items) - 1, True)
        if not 0 <= k < len(items):
            raise SkipPath()
        return items[k]

    def fresh(self, base, lo=None, hi=None, integer=False):
        n = "%s!%d" % (base, self.counter)
        self.counter += 1
        return self._get(n, lo, hi, integer)

    def arr(self, x):
        return np.array(x, dtype=float)

    def concretely(self, key, fn):
        from . import replay
        m = self.__dict__.setdefault('_memo', {})
        if key not in m:
            replay.reseed()
            m[key] = fn()
        return m[key]

    def off(self):
        import contextlib
        return contextlib.nullcontext()

    def rng(self, on=True):
        from . import replay
        replay.set_rng(self if on else None)

    def minimize(self, fn):
        from . import replay
        replay.MIN[0] = fn

    def rint_fork(self, on=True):
        """rounding of symbolic values branches over the possible integers"""
        pass

    def note(self, t):
        pass

    def assume(self, c):
        if not np.all(c):
            raise SkipPath()

    def AND(self, *c):
        return all(bool(x) for x in c)

    def OR(self, *c):
        return any(bool(x) for x in c)

    def NOT(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def skip(self):
        raise SkipPath()

    def eq(self, label, a, b, tol=1e-7):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.ndim and b.ndim and a.shape != b.shape:
            self.fails.append((label, "shape %s vs %s" % (a.shape, b.shape)))
            self.fails.append(("shape", "shape %s vs %s" % (a.shape, b.shape)))
            raise SkipPath()
        sh = a.shape if a.ndim else b.shape
        a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
        for i in np.ndindex(*sh):
            x, y = float(a[i]), float(b[i])
            l = label + (str(list(i)) if i else '')
            self.trace.append([l, x])
            bad = not (abs(x - y) <= max(20 * tol, 1e-6) * max(1.0, min(abs(x), abs(y)))) and not (x == y)
            if bad:
                self.fails.append((l, "%r vs %r" % (x, y)))

    def le(self, label, a, b, tol=1e-7):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        sh = a.shape if a.ndim else b.shape
        a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
        for i in np.ndindex(*sh):
            l = label + (str(list(i)) if i else '')
            self.trace.append([l, float(a[i])])
            if not (a[i] <= b[i] + 2 * tol):
                self.fails.append((l, "%r > %r" % (float(a[i]), float(b[i]))))

    def clipped(self, v):
        return float(v) == 0.0

    def eq_clipped(self, label, v, e, tol=1e-7):
        self.eq(label, v, max(float(e), 0.0), tol)

    def true(self, label, cond):
        if not np.all(cond):
            self.fails.append((label, "false"))

    def grad(self, label, f, X, wrt, D, out=None, tol=1e-6):
        D = np.asarray(D, dtype=float)
        est = []
        for h in (1e-3, 5e-4, 2e-4):
            v = []
            for s in (-2, -1, 1, 2):
                Y = np.array(X, dtype=float, copy=True)
                Y[wrt] += s * h
                r = np.asarray(f(Y), dtype=float)
                v.append(np.array(r if out is None else r[out], copy=True))
            est.append((v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h))
        e = est[-1]
        spread = np.max(np.abs(np.asarray(est[0]) - np.asarray(est[2]))) if np.size(e) else 0.0
        scale = 1.0 + np.max(np.abs(e))
        h = 2e-4
        w = []
        for s in (0, 1, 2, -1, -2):
            Y = np.array(X, dtype=float, copy=True)
            Y[wrt] += s * h
            r = np.asarray(f(Y), dtype=float)
            w.append(np.array(r if out is None else r[out], copy=True))
        fwd = (-3 * w[0] + 4 * w[1] - w[2]) / (2 * h)
        bwd = (3 * w[0] - 4 * w[3] + w[4]) / (2 * h)
        kink = np.size(e) and np.max(np.abs(fwd - bwd)) > 1e-2 * scale
        if not np.all(np.isfinite(e)) or spread > 2e-4 * scale or kink:
            return  # not differentiable numerically here: not usable as a reproduction
        # between the one-sided slopes of a small kink any value is accepted
        self.eq2(label, D, e, 5e-4 * scale + 10 * spread + (np.max(np.abs(fwd - bwd)) if np.size(e) else 0.0))

    def dirderiv(self, name, f):
        h = 1e-3
        v = [float(f(k * h)) for k in (-2, -1, 1, 2)]
        return (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)

    def eq2(self, label, a, b, atol):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        sh = a.shape if a.ndim else b.shape
        a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
        for i in np.ndindex(*sh):
            l = label + (str(list(i)) if i else '')
            self.trace.append([l, float(a[i])])
            if not abs(float(a[i]) - float(b[i])) <= atol:
                self.fails.append((l, "%r vs finite-difference %r" % (float(a[i]), float(b[i]))))


def interface_gap(e):
    """an exception raised by the harness itself because a private name or signature of the code is different:
    nothing is known about the property then"""
    t = e.__traceback__
    while t.tb_next is not None:
        t = t.tb_next
    f = t.tb_frame.f_code.co_filename
    if not f.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep):
        return False
    if isinstance(e, AttributeError):
        mod = e.obj if isinstance(e.obj, type) or hasattr(e.obj, '__name__') else type(e.obj)
        own = getattr(mod, '__module__', None) or getattr(mod, '__name__', '')
        return str(e.name).startswith('_') and str(own).startswith('smt')
    if isinstance(e, ImportError):
        return True
    return isinstance(e, TypeError) and ('argument' in str(e)) and '_' in str(e).split('(')[0].split('.')[-1][:1]


def run_concrete(fn, kwargs, tier, env):
    S = ConcS(env, tier)
    exc = None
    from . import replay
    replay.reset()
    try:
        with np.errstate(all='ignore'):
            fn(S, **kwargs)
    except SkipPath:
        pass
    except Exception as e:
        exc = "%s: %s" % (type(e).__name__, str(e)[:300])
        tb = traceback.format_exc()
        if interface_gap(e):
            return dict(fails=S.fails, exc=None, trace=S.trace[:60], error="the harness uses an internal name the code no longer has: " + exc)
        return dict(fails=S.fails, exc=exc, tb=tb[-1500:], trace=S.trace[:60], etype=type(e).__name__)
    finally:
        replay.reset()
    return dict(fails=[list(f) for f in S.fails], exc=None, trace=S.trace[:60])
