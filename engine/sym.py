"""Symbolic scalars, path exploration and translation to z3.

A `Sym` is a hash-consed expression node over reals ('R'), integers ('I') or booleans ('B').  Doubles of the code under
test are modelled as reals.  Truth tests on booleans fork the current path (see `Ctx`).
"""
import dis, math, sys, time
from fractions import Fraction
import numpy as _np

_Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_Z3DIR)
    import z3
    sys.path.remove(_Z3DIR)


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Unsupported(Exception):
    """The engine cannot encode this operation."""


# ---------------------------------------------------------------- numbers
_RAT = {}


def rat(x):
    """float -> the simplest rational with denominator <= 10^4 that rounds to it, else its exact value."""
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    x = float(x)
    r = _RAT.get(x)
    if r is None:
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite constant %r in a symbolic expression" % x)
        f = Fraction(x)
        if f.denominator <= 10000:
            r = f
        else:
            g = f.limit_denominator(10000)
            r = g if float(g) == x else f
        if len(_RAT) < 200000:
            _RAT[x] = r
    return r


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, bool, _np.bool_))


class Ctx:
    """One symbolic execution (all paths)."""

    def __init__(self, max_paths=2000, feas_timeout=4000, deadline=None):
        self.prefix = []
        self.max_paths = max_paths
        self.feas_timeout = feas_timeout
        self.deadline = deadline
        self.n_paths = 0
        self.n_aborted = 0
        self.feas_queries = 0
        self.solver_time = 0.0
        self.unknown_feas = 0
        self.vars = {}
        self.bounds = {}
        self.div_assumed = 0
        self.complete = True
        self.fresh_no = 0
        self.begin_path()

    def begin_path(self):
        self.path_no = getattr(self, 'path_no', 0) + 1
        self.pos = 0
        self.taken = []          # list of [choice, alternatives_open]
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_timeout)
        self.pc = []
        self.ax_done = set()
        self.fresh_no = 0
        self.notes = []
        self.has_eq = False
        self.facts = {}
        self.conds = []          # branch conditions of this path as terms
        for v in list(self.vars):
            self._bound_var(v)

    def _bound_var(self, name):
        s = self.vars[name]
        lo, hi = self.bounds.get(name, (None, None))
        t = s.z3()
        if lo is not None:
            self.add(t >= z3.RealVal(str(rat(lo))) if s.sort == 'R' else t >= int(lo))
        if hi is not None:
            self.add(t <= z3.RealVal(str(rat(hi))) if s.sort == 'R' else t <= int(hi))

    def var(self, name, lo=None, hi=None, sort='R'):
        if name in self.vars:
            return self.vars[name]
        s = mk('v', (name,), sort)
        self.vars[name] = s
        self.bounds[name] = (lo, hi)
        self._bound_var(name)
        return s

    def fresh(self, base, lo=None, hi=None, sort='R'):
        n = "%s!%d" % (base, self.fresh_no)
        self.fresh_no += 1
        return self.var(n, lo, hi, sort)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        t = time.time()
        self.feas_queries += 1
        if self.deadline and t > self.deadline:
            raise TimeoutError("obligation deadline")
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        if r == z3.unknown:
            self.unknown_feas += 1
        return r

    def decide(self, cond):
        """cond: Sym of sort B.  Returns the branch taken on this path."""
        known = self.facts.get(cond.id)
        if known is not None:
            return known
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
            self.pos += 1
            c = cond.z3()
            self.add(c if choice[0] else z3.Not(c))
            self.taken.append(list(choice))
            self._fact(cond, choice[0])
            return choice[0]
        c = cond.z3()
        rt = self.check(c)
        rf = self.check(z3.Not(c)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort("infeasible")
        if rt == z3.unsat:
            choice = [False, False]
        elif rf == z3.unsat:
            choice = [True, False]
        else:
            choice = [True, True]
        self.pos += 1
        self.taken.append(choice)
        self.prefix.append(list(choice))
        self.add(c if choice[0] else z3.Not(c))
        self._fact(cond, choice[0])
        return choice[0]

    def _fact(self, cond, val):
        self.facts[cond.id] = val
        self.conds.append((cond, val))
        if cond.op == 'not':
            self.facts[cond.args[0].id] = not val
        if cond.op in ('eq',) and val:
            self.has_eq = True

    def assume(self, cond):
        if isinstance(cond, (bool, _np.bool_)):
            if not cond:
                raise PathAbort("assume false")
            return
        self.add(cond.z3())
        h = self.has_eq
        self._fact(cond, True)
        self.has_eq = h
        if self.check() == z3.unsat:
            raise PathAbort("assumption infeasible")

    def choose(self, n, label="choice"):
        """Nondeterministic choice of an integer in range(n), explored exhaustively."""
        v = self.fresh("ch_" + label, 0, n - 1, 'I')
        return int(v)

    def next_path(self):
        """Prepare the next prefix; False when the tree is exhausted."""
        p = [list(c) for c in self.taken]
        while p and not p[-1][1]:
            p.pop()
        if not p:
            return False
        p[-1] = [not p[-1][0], False] + p[-1][2:]
        self.prefix = p
        return True


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- nodes
_TAB = {}
_NEXT = [0]


def mk(op, args, sort='R'):
    key = (op, sort) + tuple(a.id if isinstance(a, Sym) else ('c', a) for a in args)
    s = _TAB.get(key)
    if s is None:
        s = object.__new__(Sym)
        s.op, s.args, s.sort = op, args, sort
        s.id = _NEXT[0]
        _NEXT[0] += 1
        s._z3 = None
        s._d = None
        _TAB[key] = s
    return s


def const(x):
    f = rat(x)
    return mk('c', (f,), 'I' if isinstance(x, (int, _np.integer)) and not isinstance(x, (bool,)) else 'R')


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return mk('b', (bool(x),), 'B')
    if isinstance(x, complex):
        return dual(const(x.real), const(x.imag)) if x.imag else const(x.real)
    if is_num(x):
        return const(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise TypeError("cannot lift %r" % (type(x),))


def num(x):
    """Fraction -> float/int constant returned to the program."""
    if x.denominator == 1 and abs(x.numerator) < 2 ** 53:
        return float(x.numerator)
    return x if False else float(x)


def _nonfin(o):
    return isinstance(o, (float, _np.floating)) and not math.isfinite(o)


def nonfinite(op, a, b):
    """IEEE arithmetic with one infinite or NaN operand and one finite symbolic operand"""
    left = _nonfin(a)
    c, s = (float(a), b) if left else (float(b), a)
    if c != c:
        return math.nan
    if op == 'add':
        return c
    if op == 'sub':
        return c if left else -c
    if op == 'div' and not left:
        return 0.0
    if op in ('mul', 'div'):
        if bool(s > 0):
            return c
        if bool(s < 0):
            return -c
        return math.nan if op == 'mul' else c
    raise Unsupported("non-finite constant %r in a symbolic expression" % c)


def _bin(op):
    def f(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            return NotImplemented
        if _nonfin(o):
            return nonfinite(op, self, o)
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return arith(op, self, o)

    return f


ARRAY = [None]


def _rbin(op):
    def f(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            r = _np.empty(o.shape, dtype=object)
            src = _np.asarray(o) if type(o) is _np.ndarray else o.view(_np.ndarray)
            for i in _np.ndindex(*o.shape):
                r[i] = nonfinite(op, src[i], self) if _nonfin(src[i]) else arith(op, lift(src[i]), self)
            return ARRAY[0](r) if ARRAY[0] else r
        if _nonfin(o):
            return nonfinite(op, o, self)
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return arith(op, o, self)

    return f


def b2i(a):
    if a.sort == 'B':
        return mk('b2i', (a,), 'I')
    return a


class CplxDelegate(Exception):
    pass


def dual(re, im):
    """complex number with an infinitesimal imaginary part (complex-step differentiation): first order in the imaginary part"""
    if im.op == 'c' and abs(im.args[0]) > Fraction(1, 10**10):
        raise Unsupported("complex number with a finite imaginary part")
    return mk('dual', (re, im), 'R')


def dparts(a):
    return a.args if a.op == 'dual' else (a, const(0))


def darith(op, a, b):
    (x, u), (y, v) = dparts(a), dparts(b)
    A = arith
    if op in ('add', 'sub'):
        return dual(A(op, x, y), A(op, u, v))
    if op == 'mul':
        return dual(A('mul', x, y), A('add', A('mul', x, v), A('mul', u, y)))
    if op == 'div':
        q = A('div', x, y)
        return dual(q, A('div', A('sub', u, A('mul', q, v)), y))
    if op == 'pow' and b.op == 'c':
        return dual(A('pow', x, b), A('mul', A('mul', b, A('pow', x, const(b.args[0] - 1))), u))
    raise Unsupported("complex " + op)


def dfun(f, a):
    x, u = a.args
    v = getattr(x, f)()
    d = {'exp': lambda: v, 'log': lambda: const(1) / x, 'sqrt': lambda: const(1) / (2 * lift(v)), 'sin': lambda: x.cos(),
         'cos': lambda: -x.sin(), 'tanh': lambda: 1 - lift(v) * v}[f]()
    return dual(lift(v), lift(d) * u)


def arith(op, a, b):
    if a.op == 'dual' or b.op == 'dual':
        return darith(op, a, b)
    a, b = b2i(a), b2i(b)
    ca = a.args[0] if a.op == 'c' else None
    cb = b.args[0] if b.op == 'c' else None
    both_int = a.sort == 'I' and b.sort == 'I'
    st = 'I' if both_int else 'R'
    if op == 'add':
        if ca is not None and cb is not None:
            return mk('c', (ca + cb,), st)
        if ca == 0 and b.sort == st:
            return b
        if cb == 0 and a.sort == st:
            return a
        return mk('add', (a, b), st)
    if op == 'sub':
        if ca is not None and cb is not None:
            return mk('c', (ca - cb,), st)
        if cb == 0 and a.sort == st:
            return a
        if a is b:
            return mk('c', (Fraction(0),), st)
        return mk('sub', (a, b), st)
    if op == 'mul':
        if ca is not None and cb is not None:
            return mk('c', (ca * cb,), st)
        if ca == 0 or cb == 0:
            return mk('c', (Fraction(0),), st)
        if ca == 1 and b.sort == st:
            return b
        if cb == 1 and a.sort == st:
            return a
        return mk('mul', (a, b), st)
    if op == 'div':
        if cb is not None:
            if cb == 0:
                raise ZeroDivisionError("symbolic / 0")
            if ca is not None:
                return mk('c', (ca / cb,), 'R')
            if cb == 1 and a.sort == 'R':
                return a
        if ca == 0:
            return mk('c', (Fraction(0),), 'R')
        if CTX is not None and cb is None:
            CTX.ensure_nonzero(b)
        return mk('div', (a, b), 'R')
    if op == 'pow':
        if cb is not None:
            if cb == 0:
                return mk('c', (Fraction(1),), st)
            if cb == 1:
                return a
            if ca is not None and cb.denominator == 1:
                return mk('c', (ca ** int(cb),), st)
            if ca is not None:
                return const(float(ca) ** float(cb))
            if cb.denominator == 1:
                if cb < 0 and CTX is not None:
                    CTX.ensure_nonzero(a)
                return mk('ipow', (a, int(cb)), 'R' if (cb < 0 or not both_int) else 'I')
            if cb == Fraction(1, 2):
                return a.sqrt()
            return mk('rpow', (a, cb), 'R')
        if ca is not None and ca > 0:
            return mk('exp', (arith('mul', b, const(math.log(ca))),), 'R')
        return mk('exp', (arith('mul', b, a.log()),), 'R')
    if op == 'mod':
        if both_int:
            return mk('mod', (a, b), 'I')
        return arith('sub', a, arith('mul', b, mk('floor', (arith('div', a, b),), 'R')))
    if op == 'fdiv':
        if both_int:
            return mk('idiv', (a, b), 'I')
        return mk('floor', (arith('div', a, b),), 'R')
    raise Unsupported(op)


def _ensure_nonzero(self, b):
    key = ('nz', b.id)
    if key in self.ax_done:
        return
    self.ax_done.add(key)
    self.div_assumed += 1
    self.add(b.z3() != 0)


Ctx.ensure_nonzero = _ensure_nonzero


def cmp(op, a, b):
    a, b = b2i(lift(a)), b2i(lift(b))
    if a.op == 'dual' or b.op == 'dual':
        raise Unsupported("comparison of complex numbers")
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]
    if a is b:
        return op != 'lt'
    if a.op == 'sqrt' and b.op == 'sqrt':
        return cmp(op, a.args[0], b.args[0])
    return mk(op, (a, b), 'B')


def snot(a):
    if isinstance(a, (bool, _np.bool_)):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def sand(a, b):
    if isinstance(a, (bool, _np.bool_)):
        return b if a else False
    if isinstance(b, (bool, _np.bool_)):
        return a if b else False
    return mk('and', (a, b), 'B')


def sor(a, b):
    if isinstance(a, (bool, _np.bool_)):
        return True if a else b
    if isinstance(b, (bool, _np.bool_)):
        return True if b else a
    return mk('or', (a, b), 'B')


def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return mk('ite', (c, a, b), 'R' if 'R' in (a.sort, b.sort) else a.sort)


ARR_WRAP = [lambda r: r]


def _cmpm(op, swap=False, neg=False):
    def f(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            r = _np.empty(o.shape, dtype=object)
            for ix in _np.ndindex(*o.shape):
                r[ix] = f(self, o[ix])
            return ARR_WRAP[0](r)
        if isinstance(o, _np.ndarray):
            o = o[()]
        if o is None or isinstance(o, (str, tuple, list, dict)):
            if op == 'eq':
                return neg
            return NotImplemented
        if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
            if op == 'eq':
                return neg
            if math.isnan(o):
                return False
            gt = o > 0      # self < o
            lt_result = (gt if not swap else not gt)
            return lt_result
        try:
            o = lift(o)
        except TypeError:
            return neg if op == 'eq' else NotImplemented
        r = cmp(op, o, self) if swap else cmp(op, self, o)
        return snot(r) if neg else r

    return f


BINARY_OP = dis.opmap['BINARY_OP']


class Sym:
    __slots__ = ('op', 'args', 'sort', 'id', '_z3', '_d')
    __array_priority__ = 1000

    __add__ = _bin('add'); __radd__ = _rbin('add')
    __sub__ = _bin('sub'); __rsub__ = _rbin('sub')
    __mul__ = _bin('mul'); __rmul__ = _rbin('mul')
    __truediv__ = _bin('div'); __rtruediv__ = _rbin('div')
    __mod__ = _bin('mod'); __rmod__ = _rbin('mod')
    __floordiv__ = _bin('fdiv'); __rfloordiv__ = _rbin('fdiv')
    __lt__ = _cmpm('lt'); __le__ = _cmpm('le')
    __gt__ = _cmpm('lt', swap=True); __ge__ = _cmpm('le', swap=True)
    __eq__ = _cmpm('eq'); __ne__ = _cmpm('eq', neg=True)
    __rpow__ = _rbin('pow')

    def __pow__(self, o, mod=None):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            return NotImplemented
        return arith('pow', self, lift(o))

    def __hash__(self):
        return self.id

    def __neg__(self):
        return arith('mul', const(-1) if self.sort == 'I' else mk('c', (Fraction(-1),), 'R'), self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.op == 'c':
            return mk('c', (abs(self.args[0]),), self.sort)
        if bool(cmp('le', const(0), self)):
            return self
        return -self

    absolute = __abs__
    fabs = __abs__

    def __and__(self, o):
        if self.sort == 'B':
            return sand(self, o)
        raise Unsupported('&')
    __rand__ = __and__

    def __or__(self, o):
        if self.sort == 'B':
            return sor(self, o)
        raise Unsupported('|')
    __ror__ = __or__

    def __invert__(self):
        return snot(self)
    logical_not = __invert__

    def logical_and(self, o):
        return sand(self, o)

    def logical_or(self, o):
        return sor(self, o)

    # ---- truth and conversion: forks
    def __bool__(self):
        if self.sort == 'B':
            if self.op == 'b':
                return self.args[0]
            return CTX.decide(self)
        r = cmp('eq', self, const(0))
        return not bool(r)

    def __float__(self):
        if self.op == 'c':
            return float(self.args[0])
        f = sys._getframe(1)
        code = f.f_code.co_code
        if code[f.f_lasti] == BINARY_OP and code[f.f_lasti + 1] == 6:
            return float('nan')     # "%e" % value: text for a log message
        raise Unsupported("float() of a symbolic value reached compiled code")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __index__(self):
        if self.op == 'c' and self.args[0].denominator == 1:
            return int(self.args[0])
        if self.sort != 'I':
            raise TypeError("symbolic real used as an index")
        return self._conc()

    def _conc(self):
        t = self.z3()
        for _ in range(4096):
            # the value is recomputed identically on re-execution because decisions are replayed by prefix
            if CTX.pos < len(CTX.prefix) and len(CTX.prefix[CTX.pos]) > 2:
                v = CTX.prefix[CTX.pos][2]
            else:
                if CTX.check() != z3.sat:
                    raise PathAbort("no model for concretisation")
                v = CTX.solver.model().eval(t, model_completion=True).as_long()
            c = cmp('eq', self, const(int(v)))
            if isinstance(c, bool):
                return int(v)
            known = CTX.facts.get(c.id)
            if known is True:
                return int(v)
            n = CTX.pos
            heq = CTX.has_eq
            r = CTX.decide(c)
            CTX.has_eq = heq
            for lst in (CTX.prefix, CTX.taken):
                if n < len(lst) and len(lst[n]) == 2:
                    lst[n].append(int(v))
            if r:
                return int(v)
        raise Unsupported("concretisation bound")

    def __int__(self):
        if self.op == 'c':
            return int(self.args[0])
        if self.sort == 'I':
            return self._conc()
        # truncation toward zero
        if bool(cmp('le', const(0), self)):
            return mk('r2i', (self,), 'I')._conc()
        return -(mk('r2i', (-self,), 'I')._conc())

    __trunc__ = __int__

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round with digits")
        return self.rint()

    def rint(self, *a):
        if self.op == 'c':
            return float(_np.rint(float(self.args[0])))
        if self.sort == 'I':
            return self
        r = mk('rint', (self,), 'R')
        if CTX is not None and getattr(CTX, 'rint_fork', False):
            return float(mk('r2i', (r,), 'I')._conc())
        return r

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def floor(self):
        if self.sort == 'I':
            return self
        if self.op == 'c':
            return float(math.floor(self.args[0]))
        return mk('floor', (self,), 'R')

    def ceil(self):
        return -((-self).floor())

    # ---- functions (numpy object ufuncs call these)
    def exp(self):
        if self.op == 'dual':
            return dfun('exp', self)
        if self.op == 'c':
            return mk('c', (rat(math.exp(self.args[0])),), 'R')
        return mk('exp', (self,), 'R')

    def log(self):
        if self.op == 'dual':
            return dfun('log', self)
        if self.op == 'c':
            return const(math.log(self.args[0]))
        return mk('log', (self,), 'R')

    def log10(self):
        return self.log() / math.log(10.0)

    def sqrt(self):
        if self.op == 'dual':
            return dfun('sqrt', self)
        if self.op == 'c':
            f = self.args[0]
            if f < 0:
                raise Unsupported("sqrt of negative")
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return mk('c', (Fraction(n, d),), 'R')
            return const(math.sqrt(f))
        return mk('sqrt', (self,), 'R')

    def square(self):
        return self * self

    def sin(self):
        if self.op == 'dual':
            return dfun('sin', self)
        return mk('sin', (self,), 'R')

    def cos(self):
        if self.op == 'dual':
            return dfun('cos', self)
        return mk('cos', (self,), 'R')

    def tanh(self):
        if self.op == 'dual':
            return dfun('tanh', self)
        return mk('tanh', (self,), 'R')

    def sinh(self):
        return ((self).exp() - (-self).exp()) / 2

    def cosh(self):
        return ((self).exp() + (-self).exp()) / 2

    def tan(self):
        return self.sin() / self.cos()

    def reciprocal(self):
        return 1.0 / self

    def sign(self):
        if bool(cmp('eq', self, const(0))):
            return 0.0
        return 1.0 if bool(cmp('lt', const(0), self)) else -1.0

    def conjugate(self):
        return self

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    def power(self, o):
        return self ** o

    @property
    def real(self):
        return self.args[0] if self.op == 'dual' else self

    @property
    def imag(self):
        return self.args[1] if self.op == 'dual' else 0.0

    @property
    def T(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return _np.dtype(object)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_revive, (serialise(self),))

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def squeeze(self, *a):
        return self

    def astype(self, t, **k):
        kind = _np.dtype(t).kind
        return int(self) if kind in 'iu' else bool(self) if kind == 'b' else self

    def reshape(self, *sh):
        a = _np.empty((), dtype=object)
        a[()] = self
        from . import shim
        return shim.wrap(a.reshape(*sh))

    def flatten(self):
        return self.reshape(1)

    def ravel(self):
        return self.reshape(1)

    def __repr__(self):
        return "<Sym %s#%d>" % (self.op, self.id)

    def __format__(self, spec):
        return "<sym>"

    # ---- z3
    def z3(self):
        t = self._z3
        if t is None:
            t = self._z3 = to_z3(self)
        if CTX is not None:
            axioms(self)
        return t


_PICKLED = {}


def serialise(s):
    """a pickled symbolic value is its (hash-consed) node: equal bytes iff equal terms"""
    _PICKLED[s.id] = s
    return s.id


def _revive(x):
    return _PICKLED[x]


def _post(root, done):
    """iterative post-order over nodes not in done"""
    out, stack = [], [(root, False)]
    seen = set()
    while stack:
        n, e = stack.pop()
        if e:
            out.append(n)
            continue
        if n.id in seen or n.id in done:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, Sym):
                stack.append((a, False))
    return out


_AX = {}      # node id -> list of z3 axioms (own atoms only)
_AXDEP = {}   # node id -> set of ids with axioms below
FRESHV = [0]


def q(f):
    return z3.RealVal(str(f))


def _r(a):
    t = a._z3
    return z3.ToReal(t) if a.sort == 'I' else t


def to_z3(root):
    for n in _post(root, ()):
        if n._z3 is not None and n.id in _AXDEP:
            continue
        ax = []
        op, A = n.op, n.args
        dep = frozenset()
        for a in A:
            if isinstance(a, Sym):
                d = _AXDEP.get(a.id, frozenset())
                if d:
                    dep = dep | d if dep else d
        if op == 'v':
            t = z3.Real(A[0]) if n.sort == 'R' else (z3.Int(A[0]) if n.sort == 'I' else z3.Bool(A[0]))
        elif op == 'c':
            t = z3.IntVal(int(A[0])) if n.sort == 'I' else q(A[0])
        elif op == 'b':
            t = z3.BoolVal(A[0])
        elif op in ('add', 'sub', 'mul'):
            x, y = (A[0]._z3, A[1]._z3) if n.sort == 'I' else (_r(A[0]), _r(A[1]))
            t = x + y if op == 'add' else (x - y if op == 'sub' else x * y)
        elif op == 'div':
            t = _r(A[0]) / _r(A[1])
        elif op == 'ipow':
            k = A[1]
            x = A[0]._z3 if n.sort == 'I' else _r(A[0])
            t = x
            for _ in range(abs(k) - 1):
                t = t * x
            if k < 0:
                t = 1 / t
        elif op in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'rpow', 'phi', 'uf'):
            t = z3.Real("%s#%d" % (op, n.id))
            if op == 'uf':
                u = None
            else:
                u = _r(A[0])
            if op == 'exp':
                ax = [t > 0, (u <= 0) == (t <= 1), (u == 0) == (t == 1), t >= 1 + u]
            elif op == 'sqrt':
                ax = [t >= 0, t * t == u]
            elif op == 'log':
                ax = [(u <= 1) == (t <= 0), (u == 1) == (t == 0), t <= u - 1]
            elif op == 'tanh':
                ax = [t < 1, t > -1, (u >= 0) == (t >= 0), (u == 0) == (t == 0)]
            elif op == 'phi':
                ax = [t > 0, t < 1, (u >= 0) == (t >= q(Fraction(1, 2)))]
            elif op == 'rpow':
                c = A[1]
                ax = [z3.Implies(u > 0, t > 0), (u == 1) == (t == 1)]
                if c > 0:
                    ax += [z3.Implies(u == 0, t == 0), z3.Implies(u > 1, t > 1), z3.Implies(z3.And(u > 0, u < 1), t < 1)]
                else:
                    ax += [z3.Implies(u > 1, t < 1), z3.Implies(z3.And(u > 0, u < 1), t > 1)]
                if c.denominator == 2:
                    k = c.numerator
                    s = z3.Real("rt#%d" % n.id)
                    p = s
                    for _ in range(abs(k) - 1):
                        p = p * s
                    ax += [s >= 0, s * s == u, (t * p == 1) if k < 0 else (t == p)]
            elif op in ('sin', 'cos'):
                ax = [t <= 1, t >= -1]
        elif op in ('lt', 'le', 'eq'):
            if A[0].sort == 'I' and A[1].sort == 'I':
                x, y = A[0]._z3, A[1]._z3
            else:
                x, y = _r(A[0]), _r(A[1])
            t = x < y if op == 'lt' else (x <= y if op == 'le' else x == y)
        elif op == 'not':
            t = z3.Not(A[0]._z3)
        elif op == 'and':
            t = z3.And(A[0]._z3, A[1]._z3)
        elif op == 'or':
            t = z3.Or(A[0]._z3, A[1]._z3)
        elif op == 'b2i':
            t = z3.If(A[0]._z3, z3.IntVal(1), z3.IntVal(0))
        elif op == 'ite':
            if n.sort == 'R':
                t = z3.If(A[0]._z3, _r(A[1]), _r(A[2]))
            else:
                t = z3.If(A[0]._z3, A[1]._z3, A[2]._z3)
        elif op == 'floor':
            t = z3.ToReal(z3.ToInt(_r(A[0])))
        elif op == 'r2i':
            t = z3.ToInt(_r(A[0]))
        elif op == 'rint':
            u = _r(A[0])
            f = z3.ToInt(u + q(Fraction(1, 2)))
            tie = z3.And(z3.ToReal(f) == u + q(Fraction(1, 2)), f % 2 == 1)
            t = z3.ToReal(z3.If(tie, f - 1, f))
        elif op == 'mod':
            # python semantics: sign of divisor; z3 mod is euclidean: equal for positive divisors
            t = A[0]._z3 % A[1]._z3
        elif op == 'idiv':
            t = A[0]._z3 / A[1]._z3
        else:
            raise Unsupported("z3 translation of " + op)
        n._z3 = t
        if ax:
            _AX[n.id] = ax
            dep = dep | {n.id}
        _AXDEP[n.id] = dep
    return root._z3


def axioms(node):
    c = CTX
    for i in _AXDEP.get(node.id, ()):
        if i not in c.ax_done:
            c.ax_done.add(i)
            for a in _AX[i]:
                c.add(a)


# ---------------------------------------------------------------- numeric evaluation
def evalf(root, env, memo=None):
    """Float evaluation of an expression under env: var name -> float."""
    memo = {} if memo is None else memo
    for n in _post(root, memo):
        op = n.op
        A = [memo[a.id] if isinstance(a, Sym) else a for a in n.args]
        try:
            if op == 'v':
                v = env[A[0]]
            elif op == 'c':
                v = float(A[0])
            elif op == 'b':
                v = A[0]
            elif op == 'add':
                v = A[0] + A[1]
            elif op == 'sub':
                v = A[0] - A[1]
            elif op == 'mul':
                v = A[0] * A[1]
            elif op == 'div':
                v = A[0] / A[1]
            elif op == 'ipow':
                v = A[0] ** A[1]
            elif op == 'rpow':
                v = A[0] ** float(A[1])
            elif op == 'exp':
                v = math.exp(A[0]) if A[0] < 700 else math.inf
            elif op == 'log':
                v = math.log(A[0])
            elif op == 'sqrt':
                v = math.sqrt(A[0]) if A[0] > 0 else (0.0 if A[0] > -1e-12 else math.nan)
            elif op in ('sin', 'cos', 'tanh'):
                v = getattr(math, op)(A[0])
            elif op == 'phi':
                v = 0.5 * math.erfc(-A[0] / math.sqrt(2.0))
            elif op == 'lt':
                v = A[0] < A[1]
            elif op == 'le':
                v = A[0] <= A[1]
            elif op == 'eq':
                v = A[0] == A[1]
            elif op == 'not':
                v = not A[0]
            elif op == 'and':
                v = A[0] and A[1]
            elif op == 'or':
                v = A[0] or A[1]
            elif op == 'b2i':
                v = int(A[0])
            elif op == 'ite':
                v = A[1] if A[0] else A[2]
            elif op in ('floor', 'r2i'):
                v = math.floor(A[0])
            elif op == 'rint':
                v = float(_np.rint(A[0]))
            elif op == 'mod':
                v = A[0] % A[1]
            elif op == 'idiv':
                v = A[0] // A[1]
            else:
                raise Unsupported("eval of " + op)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            v = math.nan
        memo[n.id] = v
    return memo[root.id]


# ---------------------------------------------------------------- differentiation
_DC = {}


def diff(root, var):
    """Partial derivative of expression `root` with respect to variable node `var`."""
    memo = _DC.setdefault(var.id, {})
    Z, O = mk('c', (Fraction(0),), 'R'), mk('c', (Fraction(1),), 'R')
    root = lift(root)
    for n in _post(root, memo):
        op, A = n.op, n.args
        D = [memo[a.id] if isinstance(a, Sym) and a.sort != 'B' else None for a in A]
        if n is var:
            r = O
        elif op in ('v', 'c', 'b', 'lt', 'le', 'eq', 'not', 'and', 'or', 'b2i', 'floor', 'rint', 'r2i', 'mod', 'idiv'):
            r = Z
        elif op == 'add':
            r = arith('add', D[0], D[1])
        elif op == 'sub':
            r = arith('sub', D[0], D[1])
        elif op == 'mul':
            r = arith('add', arith('mul', D[0], A[1]), arith('mul', A[0], D[1]))
        elif op == 'div':
            if D[1].op == 'c' and D[1].args[0] == 0:
                r = arith('div', D[0], A[1]) if not (D[0].op == 'c' and D[0].args[0] == 0) else Z
            else:
                numr = arith('sub', arith('mul', D[0], A[1]), arith('mul', A[0], D[1]))
                r = arith('div', numr, arith('mul', A[1], A[1]))
        elif _isz(D[0]) and op in ('ipow', 'rpow', 'exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'phi'):
            r = Z
        elif op == 'ipow':
            k = A[1]
            r = arith('mul', arith('mul', const(k), arith('pow', A[0], const(k - 1))), D[0])
        elif op == 'rpow':
            c = A[1]
            r = arith('mul', arith('mul', const(c), arith('pow', A[0], const(c - 1))), D[0])
        elif op == 'exp':
            r = arith('mul', n, D[0])
        elif op == 'log':
            r = arith('div', D[0], A[0])
        elif op == 'sqrt':
            r = arith('div', D[0], arith('mul', const(2.0), n))
        elif op == 'sin':
            r = arith('mul', A[0].cos(), D[0])
        elif op == 'cos':
            r = arith('mul', arith('mul', const(-1.0), A[0].sin()), D[0])
        elif op == 'tanh':
            r = arith('mul', arith('sub', O, arith('mul', n, n)), D[0])
        elif op == 'phi':
            pdf = arith('mul', (arith('mul', const(-0.5), arith('mul', A[0], A[0]))).exp(), const(1 / math.sqrt(2 * math.pi)))
            r = arith('mul', pdf, D[0])
        elif op == 'ite':
            r = ite(A[0], memo[A[1].id], memo[A[2].id])
        else:
            raise Unsupported("diff of " + op)
        memo[n.id] = lift(r)
    return memo[root.id]


def _isz(d):
    return d is not None and isinstance(d, Sym) and d.op == 'c' and d.args[0] == 0


def variables(root):
    return {n.args[0] for n in _post(root, ()) if n.op == 'v'}


def subst(root, mapping):
    """mapping: var node id -> Sym"""
    memo = dict(mapping)
    for n in _post(root, memo):
        if n.op in ('v', 'c', 'b'):
            memo[n.id] = n
            continue
        A = [memo[a.id] if isinstance(a, Sym) else a for a in n.args]
        memo[n.id] = rebuild(n, A)
    return memo[root.id]


def short(x):
    """keep exact constants from growing: 200 significant bits"""
    if x.op == 'c' and isinstance(x.args[0], Fraction) and x.args[0].denominator.bit_length() > 420 and x.args[0]:
        f = x.args[0]
        k = 200 - (abs(f.numerator).bit_length() - f.denominator.bit_length())
        v = Fraction(round(f * (1 << k)), 1 << k) if k > 0 else f
        return mk('c', (v,), x.sort)
    return x


def rebuild(n, A):
    return short(_rebuild(n, A))


def _rebuild(n, A):
    op = n.op
    if op in ('add', 'sub', 'mul', 'div', 'mod'):
        return arith(op, A[0], A[1])
    if op == 'idiv':
        return arith('fdiv', A[0], A[1])
    if op in ('ipow', 'rpow'):
        return arith('pow', A[0], const(A[1]))
    if op in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'floor', 'rint'):
        return lift(getattr(A[0], op)())
    if op in ('lt', 'le', 'eq'):
        return lift(cmp(op, A[0], A[1]))
    if op == 'ite':
        return lift(ite(A[0] if A[0].op != 'b' else A[0].args[0], A[1], A[2]))
    return mk(op, tuple(A), n.sort)
