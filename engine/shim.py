"""Proxies for numpy / scipy / sklearn / pyDOE2 / builtins seen by the `smt` package, and the import hook."""
import ast, builtins, importlib.abc, importlib.util, math, os, sys, types
from fractions import Fraction
import numpy as np
from . import sym
from .sym import Sym, Unsupported, is_num

ON = [False]           # symbolic creation functions active?
REPO = ["/repo"]
ENCODED = {}           # (file, function) -> hits, filled by the tracer


def _as0(o):
    if isinstance(o, Sym):
        a = np.empty((), dtype=object)
        a[()] = o
        return a
    return o


class SymArray(np.ndarray):
    """object ndarray whose elements are Sym or numbers"""
    __array_priority__ = 100

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [plain(i) for i in inputs]
        name = ufunc.__name__
        o = None
        if out is not None:
            o = tuple(plain(t) for t in out)
        if method == '__call__' and name in ELEM:
            r = elementwise(ELEM[name], ins, kw, boolout=name in BOOLOUT)
            if o is not None:
                o[0][...] = r
                return out[0]
            return wrap(r)
        kw.pop('casting', None)
        if o is not None:
            kw['out'] = o
        if name == 'matmul':
            r = np.dot(ins[0], ins[1])
            if o is not None:
                o[0][...] = r
                return out[0]
            return wrap(r)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and len(out) == 1:
            return out[0]
        return wrap(r)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        mod = getattr(func, '__module__', '')
        if mod and mod.startswith('numpy.linalg'):
            raise Unsupported("numpy.linalg." + func.__name__)
        r = func(*tree(args), **tree(kwargs))
        return wrap(r)

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt.kind == 'f' or dt.kind == 'O' or dt.kind == 'c':
            return self.copy()
        if dt.kind in 'iu':
            r = np.empty(self.shape, dtype=dt)
            for i in np.ndindex(*self.shape):
                r[i] = int(plain(self)[i])
            return r
        if dt.kind == 'b':
            r = np.empty(self.shape, dtype=bool)
            for i in np.ndindex(*self.shape):
                r[i] = bool(plain(self)[i])
            return r
        return plain(self).astype(dt, *a, **k)

    def __eq__(self, o):
        return np.equal(self, _as0(o)) if not (o is None or isinstance(o, str)) else np.zeros(self.shape, bool)

    def __ne__(self, o):
        return np.not_equal(self, _as0(o)) if not (o is None or isinstance(o, str)) else np.ones(self.shape, bool)

    def __lt__(self, o):
        return np.less(self, _as0(o))

    def __le__(self, o):
        return np.less_equal(self, _as0(o))

    def __gt__(self, o):
        return np.greater(self, _as0(o))

    def __ge__(self, o):
        return np.greater_equal(self, _as0(o))

    __hash__ = None

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, fixidx(k))
        if type(r) is float:
            return np.float64(r)
        if type(r) is int:
            return np.int64(r)
        return r

    def __setitem__(self, k, v):
        k, v = fixidx(k), plain(v)
        if isinstance(v, np.ndarray) and v.ndim and v.size == 1 and not isinstance(self.view(np.ndarray)[k], np.ndarray):
            v = v.reshape(-1)[0]         # a size-1 array stored into one element
        np.ndarray.__setitem__(self.view(np.ndarray), k, v)

    def std(self, axis=None, ddof=0, **k):
        return f_std(self, axis=axis, ddof=ddof, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def any(self, *a, **k):
        return tobool(self).any(*a, **k)

    def all(self, *a, **k):
        return tobool(self).all(*a, **k)

    def __int__(self):
        if self.size == 1:
            return int(plain(self).reshape(-1)[0])
        raise TypeError("only size-1 arrays")

    def __index__(self):
        if self.size == 1:
            return plain(self).reshape(-1)[0].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        if self.size == 1:
            return float(plain(self).reshape(-1)[0])
        raise TypeError("only size-1 arrays")

    def __reduce__(self):
        return (_mk_symarray, (self.shape, list(plain(self).reshape(-1))))

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def real(self):
        return wrap(elementwise(lambda v: v.real, [plain(self)], {}))

    @property
    def imag(self):
        return wrap(elementwise(lambda v: v.imag, [plain(self)], {}))

    def tobytes(self, *a):
        raise Unsupported("tobytes of a symbolic array")


sym.ARRAY[0] = lambda r: r.view(SymArray)


def _mk_symarray(shape, items):
    a = np.empty(len(items), dtype=object)
    for i, v in enumerate(items):
        a[i] = v
    return a.reshape(shape).view(SymArray)


def fixidx(k):
    if isinstance(k, tuple):
        return tuple(fixidx(i) for i in k)
    if isinstance(k, Sym):
        return k.__index__() if k.sort != 'B' else bool(k)
    if isinstance(k, SymArray):
        flat = [v for v in plain(k).reshape(-1)]
        if all(isinstance(v, (bool, np.bool_)) or (isinstance(v, Sym) and v.sort == 'B') for v in flat):
            return tobool(k)
        r = np.empty(k.shape, dtype=int)
        for i in np.ndindex(*k.shape):
            v = plain(k)[i]
            if isinstance(v, float) and not float(v).is_integer():
                raise IndexError("non-integer index")
            r[i] = v.__index__() if isinstance(v, Sym) else int(v)
        return r
    if isinstance(k, list):
        if any(isinstance(v, Sym) for v in k):
            return [fixidx(v) for v in k]
    return k


def tobool(a):
    p = plain(a)
    r = np.empty(p.shape, dtype=bool)
    for i in np.ndindex(*p.shape):
        r[i] = bool(p[i])
    return r


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    return x


def tree(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(tree(i) for i in x)
    if isinstance(x, list):
        return [tree(i) for i in x]
    if isinstance(x, dict):
        return {k: tree(v) for k, v in x.items()}
    return x


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object and not isinstance(r, SymArray):
            return r.view(SymArray)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(i) for i in r)
    if isinstance(r, list):
        return [wrap(i) for i in r]
    return r


sym.ARR_WRAP[0] = wrap


def elementwise(fn, ins, kw=None, boolout=False):
    where = (kw or {}).get('where', True)
    arrs = [i if isinstance(i, np.ndarray) else _box(i) for i in ins]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = b.shape if b is not None else arrs[0].shape
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    r = np.empty(shape, dtype=bool if boolout else object)
    for i in np.ndindex(*shape):
        r[i] = fn(*[a[i] for a in arrs])
    if shape == ():
        return r[()]
    return r


def _box(i):
    if isinstance(i, (list, tuple)):
        return plain(to_arr(i))
    a = np.empty((), dtype=object)
    a[()] = i
    return a


def _u(name):
    npf = getattr(np, name)

    def f(v):
        if isinstance(v, Sym):
            return getattr(v, name)()
        if isinstance(v, Fraction):
            v = float(v)
        return npf(v)
    return f


def _abs(v):
    return abs(v)


def _sign(v):
    return v.sign() if isinstance(v, Sym) else np.sign(v)


def _max2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.maximum(a, b)
    return a if bool(a >= b) else b


def _min2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.minimum(a, b)
    return a if bool(a <= b) else b


def _pow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.power(float(a), b) if isinstance(b, (int, np.integer)) and b < 0 else np.power(a, b)
    return a ** b


ELEM = {n: _u(n) for n in ("exp", "log", "log10", "sqrt", "sin", "cos", "tan", "tanh", "cosh", "sinh", "floor", "ceil", "rint")}
ELEM.update(
    absolute=_abs, fabs=_abs, sign=_sign, maximum=_max2, minimum=_min2, power=_pow, float_power=_pow,
    square=lambda v: v * v, reciprocal=lambda v: 1.0 / v, conjugate=lambda v: v,
    isnan=lambda v: False if isinstance(v, (Sym, Fraction)) else bool(np.isnan(v)),
    isinf=lambda v: False if isinstance(v, (Sym, Fraction)) else bool(np.isinf(v)),
    isfinite=lambda v: True if isinstance(v, (Sym, Fraction)) else bool(np.isfinite(v)),
    logical_not=lambda v: not bool(v), logical_and=lambda a, b: bool(a) and bool(b),
    logical_or=lambda a, b: bool(a) or bool(b),
    less=lambda a, b: bool(a < b), less_equal=lambda a, b: bool(a <= b), greater=lambda a, b: bool(a > b),
    greater_equal=lambda a, b: bool(a >= b), equal=lambda a, b: bool(a == b), not_equal=lambda a, b: bool(a != b),
    true_divide=lambda a, b: _tdiv(a, b), divide=lambda a, b: _tdiv(a, b),
    floor_divide=lambda a, b: a // b, remainder=lambda a, b: a % b, mod=lambda a, b: a % b,
    positive=lambda a: a, isreal=lambda v: True,
)
BOOLOUT = {"isnan", "isinf", "isfinite", "logical_not", "logical_and", "logical_or", "less", "less_equal", "greater",
           "greater_equal", "equal", "not_equal"}


def _tdiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(b, Sym) and b == 0:
            if bool(a > 0):
                return np.inf
            return -np.inf if bool(a < 0) else np.nan
        return a / b
    with np.errstate(all='ignore'):
        return np.true_divide(float(a), float(b)) if not isinstance(a, complex) and not isinstance(b, complex) else a / b


# --------------------------------------------------------------- helpers on arrays
def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Sym) for v in plain(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def concrete(x):
    """object array of numbers -> float array"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array(plain(x), dtype=float)
    if isinstance(x, list):
        return [concrete(i) for i in x]
    if isinstance(x, tuple):
        return tuple(concrete(i) for i in x)
    if isinstance(x, Sym) and x.op == 'c':
        return float(x)
    return x


def to_arr(x, dtype=None, ndmin=0, copy=True):
    if isinstance(x, np.ndarray):
        a = x
        if dtype is not None and np.dtype(dtype).kind in 'iub':
            a = plain(x)
            if a.dtype == object:
                return x.view(SymArray).astype(dtype)
            return np.array(a, dtype=dtype, ndmin=ndmin)
        a = np.array(plain(x), dtype=object if (x.dtype == object or x.dtype.kind in 'fc' or (dtype is not None and np.dtype(dtype).kind in 'fc')) else dtype, ndmin=ndmin, copy=copy)
        return wrap(a)
    if dtype is not None and np.dtype(dtype).kind in 'iub':
        if has_sym(x):
            a = np.array(tree(x), dtype=object)
            return a.view(SymArray).astype(dtype)
        return np.array(tree(x), dtype=dtype, ndmin=ndmin)
    if has_sym(x):
        return np.array(_deep(x), dtype=object, ndmin=ndmin).view(SymArray)
    a = np.array(tree(x), dtype=dtype, ndmin=ndmin)
    if a.dtype.kind in 'fc' and ON[0]:
        a = a.astype(object)
    return wrap(a)


def _deep(x):
    """nested lists with arrays inside -> nested lists"""
    if isinstance(x, np.ndarray):
        return plain(x).tolist()
    if isinstance(x, (list, tuple)):
        return [_deep(i) for i in x]
    return x


EMPTYFILL = [None]      # what numpy.empty arrays are filled with


def _creation(fn_name):
    real = getattr(np, fn_name)

    def f(*a, **k):
        r = real(*fix_shape(a), **k)
        if fn_name == "empty" and EMPTYFILL[0] is not None:
            return EMPTYFILL[0](r, ON[0])
        if ON[0] and isinstance(r, np.ndarray) and r.dtype.kind in 'fc':
            return r.astype(object).view(SymArray)
        return r
    f.__name__ = fn_name
    return f


def fix_shape(a):
    def g(v):
        if isinstance(v, Sym):
            return int(v)
        if isinstance(v, tuple):
            return tuple(g(i) for i in v)
        if isinstance(v, list):
            return [g(i) for i in v]
        return v
    return tuple(g(v) for v in a)


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = wrap(np.asarray(plain(a), dtype=object))
    n = a.size if axis is None else a.shape[axis]
    m = f_mean(a, axis=axis, keepdims=True)
    v = np.sum(plain((a - m) * (a - m)), axis=axis, keepdims=keepdims) / (n - ddof)
    return np.sqrt(wrap(v)) if isinstance(v, np.ndarray) else (v.sqrt() if isinstance(v, Sym) else math.sqrt(v))


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = wrap(np.asarray(plain(a), dtype=object))
    n = a.size if axis is None else a.shape[axis]
    m = f_mean(a, axis=axis, keepdims=True)
    return wrap(np.sum(plain((a - m) * (a - m)), axis=axis, keepdims=keepdims) / (n - ddof))


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = np.asarray(plain(to_arr(a)), dtype=object)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = int(np.prod([a.shape[i] for i in axis]))
    else:
        n = a.shape[axis]
    r = np.sum(a, axis=axis, keepdims=keepdims)
    return wrap(r / n if isinstance(r, (np.ndarray, Sym)) else np.float64(float(r) / n))


def f_round(a, decimals=0, out=None):
    if decimals:
        raise Unsupported("round to decimals")
    if isinstance(a, Sym):
        return a.rint()
    return wrap(elementwise(ELEM['rint'], [plain(to_arr(a))]))


def f_where(c, *ab):
    if not ab:
        return np.where(tobool(c) if isinstance(c, SymArray) else c)
    a, b = ab
    if isinstance(c, Sym):
        return wrap(a if bool(c) else b)
    c = tobool(c) if isinstance(c, SymArray) else c
    return wrap(np.where(c, _obj(a), _obj(b)))


def _obj(a):
    if isinstance(a, np.ndarray):
        return np.asarray(plain(a), dtype=object)
    return plain(to_arr(a)) if isinstance(a, (list, tuple)) else _box(a)


def f_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(concrete(x), ord=ord, axis=axis, keepdims=keepdims)
    x = wrap(np.asarray(plain(to_arr(x)), dtype=object))
    if ord is not None and x.ndim == 2 and axis is None and ord not in (1, -1, 2, -2, np.inf, -np.inf, 'fro', 'nuc'):
        raise ValueError("Invalid norm order for matrices.")
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim == 2 and axis is None and min(x.shape) > 1):
        if ord == 1 and (axis is not None or x.ndim == 1):
            return wrap(np.sum(plain(abs(x)), axis=axis, keepdims=keepdims))
        if ord == np.inf and (axis is not None or x.ndim == 1):
            return wrap(np.max(plain(abs(x)), axis=axis, keepdims=keepdims))
        if ord == 2 and min(x.shape) == 2 and axis is None:      # largest singular value of a matrix of rank two
            y = plain(x) if x.shape[0] == 2 else plain(x).T
            g = [[np.sum(y[i] * y[j]) for j in (0, 1)] for i in (0, 1)]
            t, d = g[0][0] + g[1][1], (g[0][0] - g[1][1]) * (g[0][0] - g[1][1]) + 4 * g[0][1] * g[0][1]
            r = sym.lift((t + sym.lift(d).sqrt()) / 2).sqrt()
            return wrap(np.array([[r]], dtype=object)) if keepdims else r
        raise Unsupported("norm ord=%r" % (ord,))
    s = np.sum(plain(x * x), axis=axis, keepdims=keepdims)
    return np.sqrt(wrap(s)) if isinstance(s, np.ndarray) else (s.sqrt() if isinstance(s, Sym) else math.sqrt(s))


def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not has_sym(a) and not has_sym(b):
        return np.allclose(concrete(a), concrete(b), rtol, atol)
    aa, bb = _obj(a), _obj(b)
    d = np.broadcast(aa, bb)
    aa, bb = np.broadcast_to(aa, d.shape), np.broadcast_to(bb, d.shape)
    for i in np.ndindex(*d.shape):
        x, y = aa[i], bb[i]
        if not bool(abs(x - y) <= atol + rtol * abs(y)):
            return False
    return True


def f_einsum(*a, **k):
    k.pop('optimize', None)
    spec, ops = a[0], [np.asarray(plain(to_arr(x)), dtype=object) for x in a[1:]]
    return wrap(np.asarray(_einsum(spec, ops)))


def _einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        cnt = {}
        for ch in lhs.replace(',', ''):
            cnt[ch] = cnt.get(ch, 0) + 1
        rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    terms = lhs.split(',')
    if '.' in spec:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            if dims.setdefault(c, n) != n and n != 1:
                if dims[c] == 1:
                    dims[c] = n
                else:
                    raise ValueError("einsum: operands could not be broadcast together")
    inner = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for oi in np.ndindex(*[dims[c] for c in rhs]):
        env = dict(zip(rhs, oi))
        tot = 0.0
        for ii in np.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, ii))
            p = None
            for t, o in zip(terms, ops):
                v = o[tuple(env[c] if o.shape[j] != 1 else 0 for j, c in enumerate(t))]
                p = v if p is None else p * v
            tot = tot + p
        out[oi] = tot
    return out if rhs else out[()]


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return elementwise(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), [_obj(a), _obj(b)], boolout=True)


def f_array_equal(a, b, **k):
    aa, bb = np.asarray(plain(to_arr(a)), dtype=object), np.asarray(plain(to_arr(b)), dtype=object)
    if aa.shape != bb.shape:
        return False
    return all(bool(aa[i] == bb[i]) for i in np.ndindex(*aa.shape))


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = to_arr(a)
    if not has_sym(a):
        a = concrete(a)
        r = np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
        return r
    if axis is None:
        if return_index or return_inverse or return_counts:
            raise Unsupported("np.unique options")
        return wrap(np.unique(plain(a)))
    if axis != 0:
        raise Unsupported("unique axis")
    rows = [list(r) for r in plain(a)]
    import functools

    def lt(i, j):
        for x, y in zip(rows[i], rows[j]):
            if bool(x < y):
                return -1
            if bool(y < x):
                return 1
        return 0
    order = sorted(range(len(rows)), key=functools.cmp_to_key(lt))
    groups = []
    for i in order:
        if groups and lt(groups[-1][0], i) == 0:
            groups[-1].append(i)
        else:
            groups.append([i])
    u = wrap(np.array([rows[g[0]] for g in groups], dtype=object).reshape((len(groups),) + a.shape[1:]))
    res = [u]
    if return_index:
        res.append(np.array([min(g) for g in groups]))
    if return_inverse:
        inv = np.empty(len(rows), dtype=int)
        for n, g in enumerate(groups):
            for i in g:
                inv[i] = n
        res.append(inv)
    if return_counts:
        res.append(np.array([len(g) for g in groups]))
    return res[0] if len(res) == 1 else tuple(res)


def f_argsort(a, axis=-1, kind=None, order=None):
    import functools
    p = plain(to_arr(a))
    if p.ndim != 1:
        if p.dtype != object:
            return np.argsort(p, axis)
        out = np.empty(p.shape, dtype=int)
        ax = axis % p.ndim
        for i in np.ndindex(*[s for k, s in enumerate(p.shape) if k != ax]):
            ix = list(i)
            ix.insert(ax, slice(None))
            out[tuple(ix)] = f_argsort(p[tuple(ix)])
        return out
    def c(i, j):
        if bool(p[i] < p[j]):
            return -1
        if bool(p[j] < p[i]):
            return 1
        return 0
    return np.array(sorted(range(len(p)), key=functools.cmp_to_key(c)), dtype=int)


def f_meshgrid(*a, **k):
    r = np.meshgrid(*[_obj(x) for x in a], **k)
    return [wrap(x) for x in r]


def f_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if not (has_sym(a) or has_sym(b)):
        r = np.linspace(concrete(a), concrete(b), num, endpoint)
        return r.astype(object).view(SymArray) if ON[0] else r
    n = num - 1 if endpoint else num
    out = [a + (b - a) * (Fraction(i, n) if n else 0) for i in range(num)]
    if endpoint and num > 1:
        out[-1] = b
    out[0] = a
    return to_arr(out)


def f_sort(a, axis=-1, **k):
    return wrap(np.sort(plain(to_arr(a)), axis=axis))


def f_cumsum(a, axis=None, **k):
    return wrap(np.cumsum(plain(to_arr(a)), axis=axis))


def f_sum(a, axis=None, **k):
    k.pop('dtype', None)
    if isinstance(a, (list, tuple)) or isinstance(a, np.ndarray):
        return wrap(np.sum(plain(to_arr(a)), axis=axis, **k))
    return wrap(sum(a)) if not isinstance(a, Sym) else a


def f_median(a, axis=None, **k):
    s = np.sort(plain(to_arr(a)), axis=axis)
    raise Unsupported("median")


def f_add_at(a, i, b):
    np.add.at(plain(a), fixidx(i), plain(b))


def f_dot(a, b):
    a, b = to_arr(a) if isinstance(a, (list, tuple)) else a, to_arr(b) if isinstance(b, (list, tuple)) else b
    return wrap(np.dot(_o(a), _o(b)))


def _o(a):
    return np.asarray(plain(a), dtype=object) if isinstance(a, np.ndarray) else a


def f_trace(a, **k):
    a = plain(to_arr(a))
    t = 0.0
    for i in range(min(a.shape)):
        t = t + a[i, i]
    return t


def f_apply_along_axis(fn, axis, arr, *a, **k):
    p = to_arr(arr)
    if p.ndim != 2:
        raise Unsupported("apply_along_axis")
    if axis == 0:
        cols = [plain(to_arr(fn(p[:, j], *a, **k))) for j in range(p.shape[1])]
        return wrap(np.stack(cols, axis=-1))
    rows = [plain(to_arr(fn(p[i], *a, **k))) for i in range(p.shape[0])]
    return wrap(np.stack(rows, axis=0))


def f_unary(name):
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return ELEM[name](x)
        return getattr(np, name)(x, *a, **k)
    return f


def f_argext(name):
    def f(a, axis=None, **k):
        p = plain(to_arr(a)) if not isinstance(a, np.ndarray) else plain(a)
        if p.dtype != object:
            return getattr(np, name)(p, axis=axis, **k)
        better = (lambda x, y: bool(x < y)) if name == 'argmin' else (lambda x, y: bool(x > y))

        def one(v):
            best = 0
            for i in range(1, len(v)):
                if better(v[i], v[best]):
                    best = i
            if len(v) == 0:
                raise ValueError("attempt to get %s of an empty sequence" % name)
            return best
        if axis is None:
            return one(list(p.reshape(-1)))
        ax = axis % p.ndim
        m = np.moveaxis(p, ax, -1)
        r = np.empty(m.shape[:-1], dtype=int)
        for i in np.ndindex(*m.shape[:-1]):
            r[i] = one(list(m[i]))
        return r if r.ndim else int(r)
    return f


def f_roots(p):
    """polynomial roots; a pair of complex roots is represented by NaNs (no comparison with them holds)"""
    c = list(plain(to_arr(p)).reshape(-1))
    if not any(isinstance(v, Sym) for v in c):
        return np.roots([float(v) for v in c])
    while c and bool(c[0] == 0):
        c = c[1:]
    if len(c) <= 1:
        return np.array([])
    if len(c) == 2:
        return wrap(np.array([-_tdiv(c[1], c[0])], dtype=object))
    if len(c) > 3:
        raise Unsupported("roots of degree > 2")
    d = c[1] * c[1] - 4 * c[0] * c[2]
    if not bool(d >= 0):
        return np.array([np.nan, np.nan])
    s = d.sqrt() if isinstance(d, Sym) else math.sqrt(d)
    return wrap(np.array([_tdiv(-c[1] + s, 2 * c[0]), _tdiv(-c[1] - s, 2 * c[0])], dtype=object))


FUNCS = {}


def _reg():
    FUNCS.update({
        np.std: f_std, np.var: f_var, np.mean: f_mean, np.round: f_round, np.around: f_round, np.round_: f_round,
        np.where: f_where,
        np.linalg.norm: f_norm, np.allclose: f_allclose, np.einsum: f_einsum, np.isclose: f_isclose, np.unique: f_unique,
        np.array_equal: f_array_equal, np.argsort: f_argsort, np.meshgrid: f_meshgrid, np.linspace: f_linspace,
        np.dot: f_dot, np.trace: f_trace, np.apply_along_axis: f_apply_along_axis, np.argmin: f_argext('argmin'),
        np.argmax: f_argext('argmax'), np.real: lambda a: plainreal(a), np.imag: lambda a: wrap(a.imag),
        np.isreal: lambda a: np.ones(np.shape(a), bool),
        np.linalg.inv: lambda a: la_inv(a), np.linalg.solve: lambda a, b: la_solve(a, b),
        np.linalg.det: lambda a: la_det(a),
        np.zeros_like: lambda a, dtype=None, **k: MODS['numpy'].zeros(np.shape(a), dtype or float),
        np.ones_like: lambda a, dtype=None, **k: MODS['numpy'].ones(np.shape(a), dtype or float),
        np.empty_like: lambda a, dtype=None, **k: MODS['numpy'].empty(np.shape(a), dtype or float),
        np.full_like: lambda a, v, **k: MODS['numpy'].full(np.shape(a), v),
    })


def plainreal(a):
    return a.real if isinstance(a, (np.ndarray, Sym, complex)) else a


# --------------------------------------------------------------- exact linear algebra on object arrays
def _m(a):
    return np.asarray(plain(to_arr(a)), dtype=object)


def la_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    A = _m(a)
    if not has_sym(A):
        import scipy.linalg
        return back(scipy.linalg.cholesky(concrete(A), lower=lower))
    n = A.shape[0]
    L = np.full((n, n), 0.0, dtype=object)
    import scipy.linalg
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        if CHOL_POS[0] and isinstance(s, Sym):
            if CHOL_POS[0] != 'silent':
                sym.CTX.add(s.z3() > 0)
        elif not bool(s > 0):
            raise scipy.linalg.LinAlgError("not positive definite")
        L[j, j] = s.sqrt() if isinstance(s, Sym) else math.sqrt(s)
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / L[j, j]
    return wrap(L if lower else L.T.copy())


CHOL_POS = [True]      # assume positive pivots (documented precondition: R is a correlation matrix)


def back(r):
    return r.astype(object).view(SymArray) if ON[0] and isinstance(r, np.ndarray) and r.dtype.kind == 'f' else r


def _inplace(b, r):
    """LAPACK writes the result into b when b is a Fortran-contiguous array"""
    if isinstance(b, np.ndarray) and b.flags.f_contiguous and b.flags.writeable and b.shape == r.shape and (b.dtype == object or b.dtype.kind == 'f'):
        if b.dtype == object or not has_sym(r):
            b[...] = r
            return b
    return r


def la_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True, **k):
    A, B = _m(a), _m(b)
    if not has_sym(A) and not has_sym(B):
        import scipy.linalg
        r = back(scipy.linalg.solve_triangular(concrete(A), concrete(B), trans=trans, lower=lower, unit_diagonal=unit_diagonal))
        return _inplace(b, r) if overwrite_b else r
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError("expected square matrix")
    if A.shape[0] != B.shape[0]:
        raise ValueError("incompatible dimensions")
    if trans in (1, 'T', 2, 'C'):
        A = A.T
        lower = not lower
    n = A.shape[0]
    X = np.empty(B.shape, dtype=object)
    vec = B.ndim == 1
    B2 = B.reshape(n, -1)
    X2 = np.empty(B2.shape, dtype=object)
    rng = range(n) if lower else range(n - 1, -1, -1)
    for c in range(B2.shape[1]):
        for i in rng:
            t = B2[i, c]
            ks = range(i) if lower else range(i + 1, n)
            for kk in ks:
                if isinstance(A[i, kk], Sym) or A[i, kk] != 0:
                    t = t - A[i, kk] * X2[kk, c]
            X2[i, c] = t if unit_diagonal else t / A[i, i]
    r = wrap(X2.reshape(B.shape))
    return _inplace(b, r) if overwrite_b else r


def la_qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False, check_finite=True):
    A = _m(a)
    if not has_sym(A):
        import scipy.linalg
        return tuple(back(x) for x in scipy.linalg.qr(concrete(A), mode=mode))
    if mode != 'economic':
        raise Unsupported("qr mode")
    n, p = A.shape
    Q = np.full((n, p), 0.0, dtype=object)
    G = np.full((p, p), 0.0, dtype=object)
    for j in range(p):
        v = [A[i, j] for i in range(n)]
        for k in range(j):
            d = 0.0
            for i in range(n):
                d = d + Q[i, k] * A[i, j]
            G[k, j] = d
            v = [v[i] - d * Q[i, k] for i in range(n)]
        s = 0.0
        for x in v:
            s = s + x * x
        g = s.sqrt() if isinstance(s, Sym) else math.sqrt(s)
        G[j, j] = g
        for i in range(n):
            Q[i, j] = v[i] / g
    return wrap(Q), wrap(G)


def fold(A):
    """symbolic entries that are constants become numbers"""
    if A.dtype == object:
        R = np.empty(A.shape, dtype=object)
        for i, v in np.ndenumerate(A):
            R[i] = v.args[0] if isinstance(v, Sym) and v.op == 'c' else v
        return R
    return A


def la_solve(a, b, *x, **k):
    A, B = fold(_m(a)), _m(b)
    if not has_sym(A) and not has_sym(B):
        import scipy.linalg
        return back(scipy.linalg.solve(concrete(A), concrete(B)))
    if has_sym(A):
        return wrap(np.dot(_m(la_inv(A)), B))
    # numeric matrix, symbolic right-hand side: exact rational inverse
    return wrap(np.dot(_fracinv(A), B))


def _fracinv(A):
    n = A.shape[0]
    M = [[sym.rat(A[i, j]) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if M[p][c] == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [v / d for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [v - f * w for v, w in zip(M[r], M[c])]
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            R[i, j] = M[i][n + j]
    return R


def la_det(a):
    A = _m(a)
    if not has_sym(A):
        return np.linalg.det(concrete(A))
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    t = 0.0
    for j in range(n):
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        d = la_det(minor)
        t = t + (A[0, j] * d if j % 2 == 0 else -(A[0, j] * d))
    return t


def la_inv(a, *x, **k):
    A = fold(_m(a))
    if not has_sym(A):
        import scipy.linalg
        return back(scipy.linalg.inv(concrete(A)))
    n = A.shape[0]
    if n > 4:
        raise Unsupported("symbolic inverse of size %d" % n)
    det = la_det(A)
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(A, j, 0), i, 1)
            c = la_det(minor) if n > 1 else 1.0
            R[i, j] = (c if (i + j) % 2 == 0 else -c) / det
    return wrap(R)


def la_svd(a, full_matrices=True, compute_uv=True, **k):
    A = _m(a)
    if not has_sym(A):
        import scipy.linalg
        r = scipy.linalg.svd(concrete(A), full_matrices=full_matrices, compute_uv=compute_uv)
        return back(r) if not compute_uv else tuple(back(x) for x in r)
    if compute_uv:
        raise Unsupported("svd with vectors")
    # contract: singular values are positive and non-increasing; condition number assumed below 1e10 (precondition)
    m = min(A.shape)
    sv = []
    if CHOL_POS[0] == 'silent':
        ASSUMED.add("singular values of the (symbolic) trend matrix: positive, ratio < 1e6 (well-conditioned trend)")
        return to_arr([1.0] * m)
    for i in range(m):
        v = sym.CTX.fresh("sv", 0)
        sym.CTX.add(v.z3() > 0)
        if sv:
            sym.CTX.add(v.z3() <= sv[-1].z3())
            sym.CTX.add(v.z3() * 1000000 >= sv[0].z3())
        sv.append(v)
    ASSUMED.add("singular values of the (symbolic) trend matrix: positive, ratio < 1e6 (well-conditioned trend)")
    return to_arr(sv)


ASSUMED = set()

# --------------------------------------------------------------- module proxies
MODS = {}


class Proxy(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)


def sw(real, symb):
    """call `symb` when any argument is symbolic/object, else the real function"""
    def f(*a, **k):
        if ON[0] or has_sym(a) or has_sym(tuple(k.values())):
            return symb(*a, **k)
        return real(*a, **k)
    f.__name__ = getattr(real, '__name__', 'f')
    return f


def conc(real):
    """real library function that only takes numbers; object arrays of numbers are converted"""
    def f(*a, **k):
        if has_sym(a) or has_sym(tuple(k.values())):
            raise Unsupported("symbolic argument to %s" % getattr(real, '__name__', real))
        r = real(*concrete(a), **{x: concrete(y) for x, y in k.items()})
        return r
    f.__name__ = getattr(real, '__name__', 'f')
    return f


class CR:
    def __getitem__(self, items):
        return wrap(np.c_[tuple(_obj(to_arr(i)) if not isinstance(i, (slice, str)) else i for i in (items if isinstance(items, tuple) else (items,)))])


RNG = [None]           # harness-provided symbolic RNG; None -> concrete


class SymRandomState:
    """numpy RandomState whose outcomes are arbitrary values of the documented range"""

    def __init__(self, seed=None):
        self.seed_ = seed

    def rand(self, *shape):
        if not shape:
            return self._u()
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self._u()
        return a.view(SymArray)

    def _u(self, lo=0, hi=1):
        v = sym.CTX.fresh("rnd", lo, hi)
        sym.CTX.add(v.z3() < sym.q(sym.rat(hi)))
        return v

    def random_sample(self, size=None):
        return self.rand(*((size,) if isinstance(size, int) else (size or ())))
    random = random_sample

    def randn(self, *shape):
        if not shape:
            return sym.CTX.fresh("rndn", -8, 8)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = sym.CTX.fresh("rndn", -8, 8)
        return a.view(SymArray)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * self._u()
        r = self.rand(*((size,) if isinstance(size, int) else size))
        return low + (high - low) * r

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self.randn(*((size,) if isinstance(size, int) else (size or ())))
        return loc + scale * r

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        if int(low) >= int(high):
            raise ValueError("low >= high")
        def one():
            v = sym.CTX.fresh("rndi", int(low), int(high) - 1, 'I')
            return int(v)
        if size is None:
            return one()
        a = np.empty(size, dtype=int)
        for i in np.ndindex(*np.shape(a)):
            a[i] = one()
        return a

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            x = np.arange(x)
        x = x if isinstance(x, np.ndarray) else to_arr(x)
        n = len(x)
        left = list(range(n))
        out = []
        for i in range(n):
            j = sym.CTX.choose(len(left), "perm") if len(left) > 1 else 0
            out.append(left.pop(j))
        return x[np.array(out, dtype=int)] if n else x.copy()

    def shuffle(self, x):
        p = self.permutation(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p].copy()
        else:
            x[:] = [x[i] for i in p]

    def choice(self, a, size=None, replace=True, p=None):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        if size is None:
            i = sym.CTX.choose(n, "choice")
            return i if isinstance(a, (int, np.integer)) else a[i]
        if not replace:
            pr = self.permutation(n)[:size]
            return pr if isinstance(a, (int, np.integer)) else np.asarray(a)[pr]
        ix = [sym.CTX.choose(n, "choice") for _ in range(int(np.prod(size)))]
        ix = np.array(ix).reshape(size)
        return ix if isinstance(a, (int, np.integer)) else np.asarray(a)[ix]

    def seed(self, *a):
        pass


def _rngfun(name):
    def f(*a, **k):
        if RNG[0] is not None:
            return getattr(RNG[0], name)(*a, **k)
        r = getattr(np.random, name)(*concrete(a), **k)
        return back(r)
    return f


class _RSMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.random.RandomState, SymRandomState))

    def __call__(cls, *a, **k):
        if RNG[0] is not None:
            return SymRandomState(*a, **k)
        return _det_rs(*a, **k)


_RSN = [0]


def reseed():
    """draws that are not symbolic come from a fixed seed, the same in the replay process"""
    np.random.seed(7)
    _RSN[0] = 0


def _det_rs(*a, **k):
    if not a and not k or (a and a[0] is None):
        _RSN[0] += 1
        return np.random.RandomState(1000 + _RSN[0])
    return np.random.RandomState(*a, **k)


class RandomStateProxy(metaclass=_RSMeta):
    pass


# builtins ------------------------------------------------------------------
def mk1():
    return sym.mk('c', (Fraction(1),), 'R')


def float_(x=0.0):
    if isinstance(x, Sym):
        return x if x.sort == 'R' else x * mk1()
    if isinstance(x, SymArray) and x.size == 1:
        return float_(plain(x).reshape(-1)[0])
    return builtins.float(x)


def int_(x=0, *a):
    if isinstance(x, SymArray) and x.size == 1:
        x = plain(x).reshape(-1)[0]
    return builtins.int(x, *a)


class Cplx:
    """re + i*im with symbolic parts"""
    pass


def isinstance_(o, t):
    if isinstance(o, Sym):
        if not isinstance(t, (tuple, builtins.type)):
            return builtins.isinstance(o, t)
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for x in ts:
            flat += list(x) if isinstance(x, tuple) else [x]
        for x in flat:
            if x is builtins.float and o.sort == 'R':
                return True
            if x is builtins.int and o.sort in 'IB':
                return True
            if x is builtins.bool and o.sort == 'B':
                return True
            if x in (np.floating, np.number, np.float64) and o.sort == 'R':
                return True
            if x in (np.integer, np.number) and o.sort == 'I':
                return True
            if x is object or x is Sym:
                return True
        return False
    return builtins.isinstance(o, t)


def type_(*a):
    if len(a) == 1:
        t = builtins.type(a[0])
        if t is Sym:
            return builtins.float if a[0].sort == 'R' else (builtins.int if a[0].sort == 'I' else builtins.bool)
        if t is SymArray:
            return np.ndarray
        return t
    return builtins.type(*a)


def build():
    import scipy, scipy.linalg, scipy.optimize, scipy.stats, scipy.sparse, scipy.sparse.linalg, scipy.spatial.distance
    import scipy.special
    try:
        import scipy.misc as smisc
    except ImportError:
        smisc = None
    import sklearn, sklearn.metrics.pairwise
    _reg()
    N = {}
    for n in ("zeros", "ones", "empty", "eye", "identity", "full"):
        N[n] = _creation(n)
    for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
        N[n] = (lambda nm: lambda a, *x, **k: FUNCS[getattr(np, nm)](a, *x, **k) if (ON[0] and (not isinstance(a, np.ndarray) or a.dtype.kind in 'fO')) or isinstance(a, SymArray) else getattr(np, nm)(a, *x, **k))(n)

    N['roots'] = lambda p: f_roots(p) if has_sym(p) else np.roots(p)

    def array(x, dtype=None, *a, **k):
        if ON[0] or has_sym(x) or isinstance(x, SymArray):
            k.pop('order', None)
            k.pop('subok', None)
            if dtype is str or (dtype is not None and np.dtype(dtype).kind in 'USO' and not has_sym(x)):
                return np.array(tree(x), dtype, *a, **k)
            return to_arr(x, dtype=_dt(dtype), **{z: w for z, w in k.items() if z in ('ndmin', 'copy')})
        return np.array(x, dtype, *a, **k) if dtype is not None else np.array(x, *a, **k)

    def asarray(x, dtype=None, **k):
        if isinstance(x, np.ndarray) and (dtype is None or isinstance(x, SymArray)):
            if dtype is not None and np.dtype(_dt(dtype)).kind in 'iub':
                return x.astype(_dt(dtype))
            return x
        return array(x, dtype)

    def _dt(d):
        return d
    N.update(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, copy=lambda a, **k: array(a),
             linspace=sw(np.linspace, f_linspace), c_=CR(), where=sw(np.where, f_where), einsum=sw(np.einsum, f_einsum),
             meshgrid=sw(np.meshgrid, f_meshgrid), mean=sw(np.mean, f_mean), std=sw(np.std, f_std),
             var=sw(np.var, f_var), allclose=sw(np.allclose, f_allclose), isclose=sw(np.isclose, f_isclose),
             unique=sw(np.unique, f_unique), array_equal=sw(np.array_equal, f_array_equal),
             argsort=sw(np.argsort, f_argsort), argmin=sw(np.argmin, f_argext('argmin')),
             argmax=sw(np.argmax, f_argext('argmax')), dot=sw(np.dot, f_dot), matmul=sw(np.matmul, f_dot),
             trace=sw(np.trace, f_trace),
             round=sw(np.round, f_round), around=sw(np.around, f_round), apply_along_axis=sw(np.apply_along_axis, f_apply_along_axis),
             sort=sw(np.sort, f_sort), cumsum=sw(np.cumsum, f_cumsum), sum=sw(np.sum, f_sum),
             int=int, float=float, bool=bool, object=object, complex=complex)
    for n in ("isnan", "isinf", "isfinite", "abs", "absolute"):
        nm = {"abs": "absolute"}.get(n, n)
        N[n] = (lambda nn, rn: lambda x, *a, **k: (ELEM[nn](x) if isinstance(x, Sym) else getattr(np, rn)(to_arr(x) if isinstance(x, (list, tuple)) and has_sym(x) else x, *a, **k)))(nm, n)
    for n in ("maximum", "minimum", "power"):
        N[n] = (lambda nn: lambda a, b, *x, **k: ELEM[nn](a, b) if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) and (isinstance(a, Sym) or isinstance(b, Sym)) else getattr(np, nn)(a, b, *x, **k))(n)
    for n in ("exp", "log", "log10", "sqrt", "sin", "cos", "tan", "tanh", "cosh", "sinh", "floor", "ceil", "square", "sign", "reciprocal"):
        N[n] = (lambda nn: lambda a, *x, **k: getattr(np, nn)(_flt(a), *x, **k))(n)
    for n in ("vstack", "hstack", "concatenate", "stack", "column_stack", "append", "atleast_1d", "atleast_2d", "atleast_3d",
              "repeat", "tile", "ravel", "reshape", "squeeze", "diag", "prod", "cumprod", "max", "min", "amax", "amin",
              "outer", "transpose", "delete", "insert", "roll", "resize", "flip", "triu", "tril", "diff", "expand_dims", "broadcast_to",
              "isin", "argwhere", "nonzero", "count_nonzero", "any", "all", "kron", "inner", "ptp", "clip", "take", "split", "array_split",
              "moveaxis", "swapaxes", "rollaxis", "fill_diagonal", "tensordot", "vdot", "block", "digitize", "searchsorted", "minimum", "maximum"):
        if n in N:
            continue
        N[n] = (lambda nn: lambda *a, **k: _generic(nn, a, k))(n)
    N['bincount'] = conc(np.bincount)
    N['histogram'] = conc(np.histogram)
    npr = Proxy('numpy.random', np.random, {n: _rngfun(n) for n in (
        "rand", "randn", "random", "random_sample", "uniform", "normal", "randint", "permutation", "shuffle", "choice", "seed")})
    npr.__dict__['RandomState'] = RandomStateProxy
    npr.__dict__['default_rng'] = lambda *a: SymRandomState(*a) if RNG[0] is not None else np.random.default_rng(*a)
    N['random'] = npr
    npl = Proxy('numpy.linalg', np.linalg, dict(
        norm=sw(np.linalg.norm, f_norm), inv=sw(np.linalg.inv, la_inv), solve=sw(np.linalg.solve, la_solve),
        det=sw(np.linalg.det, la_det), cholesky=sw(np.linalg.cholesky, lambda a: la_cholesky(a, lower=True)),
        eig=conc(np.linalg.eig), svd=sw(np.linalg.svd, la_svd), lstsq=sw(np.linalg.lstsq, lambda a, b, rcond=None: (la_lstsq(a, b), None, None, None)),
        pinv=sw(np.linalg.pinv, la_pinv), qr=conc(np.linalg.qr)))
    N['linalg'] = npl
    N['corrcoef'] = conc(np.corrcoef)
    np_proxy = Proxy('numpy', np, N)
    MODS['numpy'] = np_proxy
    MODS['numpy.random'] = npr
    MODS['numpy.linalg'] = npl

    L = scipy.linalg
    sl = Proxy('scipy.linalg', L, dict(
        cholesky=sw(L.cholesky, la_cholesky), solve_triangular=sw(L.solve_triangular, la_solve_triangular),
        qr=sw(L.qr, la_qr), svd=sw(L.svd, la_svd), inv=sw(L.inv, la_inv), solve=sw(L.solve, la_solve),
        lu_factor=sw(L.lu_factor, lambda a, **k: ('LU', _m(a))), lu_solve=_lu_solve, norm=sw(L.norm, f_norm), det=sw(L.det, la_det)))
    MODS['scipy.linalg'] = sl
    O = scipy.optimize
    so = Proxy('scipy.optimize', O, dict(minimize=_minimize))
    MODS['scipy.optimize'] = so
    D = scipy.spatial.distance
    sd = Proxy('scipy.spatial.distance', D, dict(pdist=sw(D.pdist, f_pdist), cdist=sw(D.cdist, f_cdist)))
    MODS['scipy.spatial.distance'] = sd
    st = Proxy('scipy.stats', scipy.stats, dict(norm=NormProxy(scipy.stats.norm), multivariate_normal=MVN(scipy.stats.multivariate_normal)))
    MODS['scipy.stats'] = st
    sp = symsparse_module(scipy.sparse)
    MODS['scipy.sparse'] = sp
    MODS['scipy.sparse.linalg'] = sp.linalg
    sc = Proxy('scipy', scipy, dict(linalg=sl, optimize=so, stats=st, sparse=sp, spatial=Proxy('scipy.spatial', scipy.spatial, dict(distance=sd))))
    if smisc is not None:
        sm = Proxy('scipy.misc', smisc, dict(derivative=sw(getattr(smisc, 'derivative', None), sym_derivative)))
        MODS['scipy.misc'] = sm
        sc.__dict__['misc'] = sm
    MODS['scipy'] = sc
    skm = Proxy('sklearn.metrics.pairwise', sklearn.metrics.pairwise, dict(
        check_pairwise_arrays=sw(sklearn.metrics.pairwise.check_pairwise_arrays, f_cpa),
        manhattan_distances=sw(sklearn.metrics.pairwise.manhattan_distances, f_manhattan)))
    MODS['sklearn.metrics.pairwise'] = skm
    import sklearn.cross_decomposition, sklearn.linear_model, sklearn.mixture
    MODS['sklearn.cross_decomposition'] = Proxy('sklearn.cross_decomposition', sklearn.cross_decomposition, dict(
        PLSRegression=pls_proxy(sklearn.cross_decomposition.PLSRegression)))
    MODS['sklearn.linear_model'] = Proxy('sklearn.linear_model', sklearn.linear_model, dict(LinearRegression=LinRegProxy))
    MODS['sklearn'] = Proxy('sklearn', sklearn, dict(linear_model=MODS['sklearn.linear_model'],
                                                    cross_decomposition=MODS['sklearn.cross_decomposition']))
    import copy as _copy
    MODS['copy'] = _copy
    MODS['pyDOE2'] = _PyDOE()


def _flt(a):
    if isinstance(a, Fraction):
        return float(a)
    if isinstance(a, (list, tuple)):
        return to_arr(a)
    return a


def _generic(nn, a, k):
    real = getattr(np, nn)
    if not (ON[0] or has_sym(a)):
        return real(*a, **k)
    a2 = []
    for v in a:
        if isinstance(v, Sym):
            a2.append(_box(v))
        elif isinstance(v, (list, tuple)) and has_sym(v):
            if nn in ('vstack', 'hstack', 'concatenate', 'stack', 'column_stack', 'block'):
                a2.append([_obj(x) for x in v])
            else:
                a2.append(plain(to_arr(v)))
        else:
            a2.append(tree(v))
    if nn == 'fill_diagonal':
        np.fill_diagonal(plain(a[0]), a2[1])
        return None
    if nn in ('any', 'all'):
        a2[0] = tobool(a2[0]) if isinstance(a2[0], np.ndarray) and a2[0].dtype == object else a2[0]
    if nn in ('argwhere', 'nonzero', 'count_nonzero'):
        a2[0] = tobool(a2[0]) if isinstance(a2[0], np.ndarray) and a2[0].dtype == object else a2[0]
    if nn == 'clip':
        return np.minimum(np.maximum(wrap(_obj(a[0])), a[1]), a[2])
    r = real(*a2, **tree(k))
    if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object and nn not in ('squeeze', 'reshape'):
        return r[()]
    if isinstance(r, np.ndarray) and ON[0] and r.dtype.kind == 'f':
        r = r.astype(object)
    return wrap(r)


def la_lstsq(a, b):
    A, B = _m(a), _m(b)
    At = A.T
    return la_solve(np.dot(At, A), np.dot(At, B))


def la_pinv(a, *x, **k):
    A = _m(a)
    return wrap(np.dot(_m(la_inv(np.dot(A.T, A))), A.T))


def _lu_solve(lu, b, trans=0, **k):
    import scipy.linalg
    if isinstance(lu, tuple) and len(lu) == 2 and isinstance(lu[0], str):
        A = lu[1]
        return la_solve(A.T if trans in (1, 'T') else A, b)
    if has_sym(b):
        raise Unsupported("lu_solve: numeric factor, symbolic rhs")
    return scipy.linalg.lu_solve(concrete(lu), concrete(b), trans=trans, **k)


MINIMIZE = [None]


def _minimize(fun, x0, *a, **k):
    import scipy.optimize
    if MINIMIZE[0] is not None:
        return MINIMIZE[0](fun, x0, *a, **k)
    if ON[0]:
        raise Unsupported("scipy.optimize.minimize in symbolic mode")
    return scipy.optimize.minimize(fun, x0, *a, **k)


def f_pdist(X, metric='euclidean', p=2, **k):
    X = _m(X)
    out = []
    for i in range(len(X)):
        for j in range(i + 1, len(X)):
            out.append(_dist(X[i], X[j], metric, p))
    return to_arr(out)


def f_cdist(X, Y, metric='euclidean', p=2, **k):
    X, Y = _m(X), _m(Y)
    r = np.empty((len(X), len(Y)), dtype=object)
    for i in range(len(X)):
        for j in range(len(Y)):
            r[i, j] = _dist(X[i], Y[j], metric, p)
    return wrap(r)


DIST_UF = [False]


def _dist(a, b, metric, p):
    if callable(metric):
        return metric(wrap(a), wrap(b))
    s = 0.0
    for u, v in zip(a, b):
        d = u - v
        if metric in ('cityblock', 'manhattan'):
            s = s + abs(d)
        else:
            s = s + d * d
    if metric in ('euclidean', 'minkowski') and p == 2:
        return s.sqrt() if isinstance(s, Sym) else math.sqrt(s)
    if metric == 'sqeuclidean' or metric in ('cityblock', 'manhattan'):
        return s
    raise Unsupported("distance metric %r" % (metric,))


def f_manhattan(X, Y=None, sum_over_features=True, **k):
    X = _m(X)
    Y = X if Y is None else _m(Y)
    if sum_over_features:
        return f_cdist(X, Y, 'cityblock')
    r = [[abs(X[i, c] - Y[j, c]) for c in range(X.shape[1])] for i in range(len(X)) for j in range(len(Y))]
    return to_arr(r)


def f_cpa(X, Y=None, **k):
    X = to_arr(X)
    Y = X if Y is None else to_arr(Y)
    if X.ndim != 2 or Y.ndim != 2:
        raise ValueError("Expected 2D array")
    if X.shape[1] != Y.shape[1]:
        raise ValueError("Incompatible dimension for X and Y matrices")
    return X, Y


class NormProxy:
    def __init__(self, real):
        self.real = real

    def cdf(self, x, loc=0, scale=1):
        if ON[0] or has_sym(x):
            x = (x - loc) / scale if (not (is_num(loc) and loc == 0 and is_num(scale) and scale == 1)) else x
            return _ap(lambda v: sym.mk('phi', (v,), 'R') if isinstance(v, Sym) else float(self.real.cdf(v)), x)
        return self.real.cdf(x, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        if ON[0] or has_sym(x):
            z = (x - loc) / scale if (not (is_num(loc) and loc == 0 and is_num(scale) and scale == 1)) else x
            r = _ap(lambda v: (-(v * v) / 2).exp() / math.sqrt(2 * math.pi) if isinstance(v, Sym) else float(self.real.pdf(v)), z)
            return r if (is_num(scale) and scale == 1) else r / scale
        return self.real.pdf(x, loc, scale)

    def __getattr__(self, k):
        return getattr(self.real, k)


def _ap(fn, x):
    if isinstance(x, np.ndarray):
        return wrap(elementwise(fn, [plain(x)]))
    return fn(x)


class MVN:
    """multivariate normal: density written out exactly"""

    def __init__(self, real):
        self.real = real

    def __call__(self, mean=None, cov=1, *a, **k):
        return MVNF(self.real, mean, cov, self.real(concrete(mean), concrete(cov), *a, **k) if not has_sym(mean) and not has_sym(cov) else None)

    def pdf(self, x, mean=None, cov=1, *a, **k):
        return self(mean, cov, *a, **k).pdf(x)

    def logpdf(self, x, mean=None, cov=1, *a, **k):
        if has_sym(x) or has_sym(mean) or has_sym(cov):
            return np.log(self.pdf(x, mean, cov))
        return self.real.logpdf(concrete(x), concrete(mean), concrete(cov), *a, **k)

    def __getattr__(self, k):
        return getattr(self.real, k)


class MVNF:
    def __init__(self, realcls, mean, cov, frozen):
        self.mean, self.cov, self.frozen = mean, cov, frozen

    def __getattr__(self, k):
        return getattr(self.__dict__['frozen'], k)

    def __deepcopy__(self, memo):
        return self

    def pdf(self, x):
        if not has_sym(x) and self.frozen is not None:
            return back(self.frozen.pdf(concrete(x)))
        m = np.atleast_1d(concrete(self.mean)).astype(float)
        C = np.atleast_2d(concrete(self.cov)).astype(float)
        P = np.linalg.inv(C)
        X = _m(x)
        if X.ndim == 0:
            X = X.reshape(1, 1)
        elif X.ndim == 1:
            X = X.reshape(-1, len(m)) if len(m) > 1 or True else X
        out = []
        c = 1.0 / math.sqrt((2 * math.pi) ** len(m) * np.linalg.det(C))
        for row in X:
            d = [row[i] - m[i] for i in range(len(m))]
            qf = 0.0
            for i in range(len(m)):
                for j in range(len(m)):
                    qf = qf + d[i] * P[i, j] * d[j]
            e = (qf * -0.5)
            out.append((e.exp() if isinstance(e, Sym) else math.exp(e)) * c)
        return to_arr(out) if len(out) > 1 else out[0]


def sym_derivative(func, x0, dx=1.0, n=1, args=(), order=3):
    """scipy.misc.derivative: central differences, written out (contract of the library)"""
    if n == 1 and order == 3:
        return (func(x0 + dx, *args) - func(x0 - dx, *args)) / (2 * dx)
    raise Unsupported("scipy.misc.derivative n=%r order=%r" % (n, order))


def pls_proxy(real):
    class PLS(real):
        def fit(self, X, Y):
            return super().fit(concrete(X), concrete(Y))
    PLS.__name__ = 'PLSRegression'
    return PLS


class LinRegProxy:
    """sklearn LinearRegression contract: exact least squares with intercept"""

    def __new__(cls, *a, **k):
        import sklearn.linear_model
        o = object.__new__(cls)
        o.fit_intercept = k.get('fit_intercept', True)
        return o

    def fit(self, X, y, sample_weight=None):
        if not ON[0] and not has_sym(X) and not has_sym(y):
            import sklearn.linear_model
            r = sklearn.linear_model.LinearRegression(fit_intercept=self.fit_intercept).fit(X, y)
            self.coef_, self.intercept_ = r.coef_, r.intercept_
            return self
        X, Y = _m(X), _m(y)
        A = np.concatenate([np.full((len(X), 1), 1.0, dtype=object), X], axis=1) if self.fit_intercept else X
        b = _m(la_lstsq(A, Y))
        b = b if Y.ndim == 2 else b.reshape(-1)
        if self.fit_intercept:
            self.intercept_ = wrap(b[0]) if Y.ndim == 2 else b[0]
            self.coef_ = wrap(b[1:].T) if Y.ndim == 2 else wrap(b[1:])
        else:
            self.intercept_ = 0.0
            self.coef_ = wrap(b.T)
        return self

    def predict(self, X):
        if not ON[0] and not has_sym(X) and not has_sym(self.coef_):
            return np.asarray(X, dtype=float).dot(concrete(self.coef_).T) + self.intercept_
        r = np.dot(_m(X), _m(self.coef_).T)
        return wrap(r + plain(self.intercept_))

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------- sparse matrices
def symsparse_module(real):
    def is_obj(data):
        return isinstance(data, np.ndarray) and data.dtype == object

    class SymSparse:
        """coordinate-format matrix with symbolic entries, stored densely"""
        format = 'csc'

        def __init__(self, dense):
            self.d = np.asarray(plain(dense), dtype=object)
            self.shape = self.d.shape
            self.ndim = 2

        @property
        def T(self):
            return SymSparse(self.d.T)

        def transpose(self):
            return self.T

        def dot(self, o):
            if isinstance(o, SymSparse):
                return SymSparse(np.dot(self.d, o.d))
            if real.issparse(o):
                return SymSparse(np.dot(self.d, o.toarray().astype(object)))
            return wrap(np.dot(self.d, np.asarray(plain(o), dtype=object)))
        __matmul__ = dot

        def __mul__(self, o):
            if isinstance(o, (Sym, float, int, Fraction)):
                return SymSparse(self.d * o)
            return self.dot(o)

        def __rmul__(self, o):
            if isinstance(o, (Sym, float, int, Fraction)):
                return SymSparse(self.d * o)
            if isinstance(o, SymSparse):
                return o.dot(self)
            if real.issparse(o):
                return SymSparse(np.dot(o.toarray().astype(object), self.d))
            return wrap(np.dot(np.asarray(plain(o), dtype=object), self.d))

        __rmatmul__ = __rmul__

        def __truediv__(self, o):
            return SymSparse(self.d / o)

        def __add__(self, o):
            return SymSparse(self.d + (o.d if isinstance(o, SymSparse) else (o.toarray() if real.issparse(o) else plain(o))))
        __radd__ = __add__

        def __sub__(self, o):
            return SymSparse(self.d - (o.d if isinstance(o, SymSparse) else (o.toarray() if real.issparse(o) else plain(o))))

        def __neg__(self):
            return SymSparse(-self.d)

        def toarray(self):
            return wrap(self.d.copy())
        todense = toarray

        @property
        def A(self):
            return self.toarray()

        def tocsc(self, *a, **k):
            return self
        tocsr = tocoo = copy = tocsc

        def diagonal(self):
            return wrap(np.array([self.d[i, i] for i in range(min(self.shape))], dtype=object))

        def __getitem__(self, k):
            return wrap(self.d[k])

        def __deepcopy__(self, memo):
            return SymSparse(self.d.copy())

        def sum(self, axis=None):
            return wrap(np.sum(self.d, axis=axis))

        @property
        def nnz(self):
            return self.d.size

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, cls._real) or isinstance(o, SymSparse)

        def __call__(cls, arg, shape=None, **k):
            if isinstance(arg, SymSparse):
                return arg
            if isinstance(arg, np.ndarray) and arg.dtype == object:
                return SymSparse(arg)
            if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
                data, (rows, cols) = arg
                if has_sym(data) or is_obj(np.asarray(data) if not isinstance(data, np.ndarray) else data):
                    rows = np.asarray(plain(rows)).astype(int)
                    cols = np.asarray(plain(cols)).astype(int)
                    if shape is None:
                        shape = (int(rows.max()) + 1, int(cols.max()) + 1)
                    d = np.full(shape, 0.0, dtype=object)
                    n = len(data)
                    if n and (rows.min() < 0 or cols.min() < 0 or rows.max() >= shape[0] or cols.max() >= shape[1]):
                        raise ValueError("row/column index exceeds matrix dimensions")
                    for v, i, j in zip(plain(data), rows, cols):
                        d[i, j] = d[i, j] + v
                    return SymSparse(d)
                return cls._real((data, (plain(rows), plain(cols))), shape=shape, **k)
            return cls._real(arg, shape=shape, **k) if shape is not None else cls._real(arg, **k)

    def mkcls(rc):
        return Meta(rc.__name__, (), {'_real': rc})

    def diags(d, *a, **k):
        if has_sym(d):
            v = plain(to_arr(d)).reshape(-1)
            n = len(v)
            m = np.full((n, n), 0.0, dtype=object)
            for i in range(n):
                m[i, i] = v[i]
            return SymSparse(m)
        return real.diags(concrete(to_arr(d)) if ON[0] else d, *a, **k)

    def find(m):
        if isinstance(m, SymSparse):
            r, c = np.nonzero(np.array([[isinstance(v, Sym) or v != 0 for v in row] for row in m.d]))
            return r, c, wrap(m.d[r, c])
        return real.find(m)

    def bstack(name):
        def f(blocks, *a, **k):
            if any(isinstance(b, SymSparse) for b in _flat(blocks)):
                dn = lambda b: b.d if isinstance(b, SymSparse) else (b.toarray().astype(object) if real.issparse(b) else plain(b))
                if name == 'vstack':
                    return SymSparse(np.vstack([dn(b) for b in blocks]))
                if name == 'hstack':
                    return SymSparse(np.hstack([dn(b) for b in blocks]))
                raise Unsupported("sparse " + name)
            return getattr(real, name)(blocks, *a, **k)
        return f

    def _flat(x):
        for i in x:
            if isinstance(i, (list, tuple)):
                yield from _flat(i)
            else:
                yield i

    import scipy.sparse.linalg as SL

    class _LU:
        def __init__(self, A):
            self.A = A

        def solve(self, b, trans='N'):
            return la_solve(self.A.T if trans in ('T', 'H') else self.A, b)

        def __deepcopy__(self, memo):
            return self

    def splu(A, *a, **k):
        if isinstance(A, SymSparse):
            return _LU(A.d)
        if SPLU_EXACT[0]:
            return _LU(A.toarray().astype(object))
        return SL.splu(A, *a, **k)

    lin = Proxy('scipy.sparse.linalg', SL, dict(splu=splu, spilu=splu_like(splu, SL.spilu)))
    over = {n: mkcls(getattr(real, n)) for n in ('csc_matrix', 'csr_matrix', 'coo_matrix')}
    over['spmatrix'] = type('spmatrix', (), {})
    class SPM(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real.spmatrix) or isinstance(o, SymSparse)
    over['spmatrix'] = SPM('spmatrix', (), {})
    over.update(diags=diags, find=find, vstack=bstack('vstack'), hstack=bstack('hstack'), bmat=bstack('bmat'),
                linalg=lin, issparse=lambda o: isinstance(o, SymSparse) or real.issparse(o), SymSparse=SymSparse)
    return Proxy('scipy.sparse', real, over)


SPLU_EXACT = [False]


def splu_like(f, realf):
    def g(A, *a, **k):
        if type(A).__name__ == 'SymSparse' or SPLU_EXACT[0]:
            return f(A)
        return realf(A, *a, **k)
    return g


# --------------------------------------------------------------- import hook
EXTRA = {}             # dotted name -> module, e.g. the C++ wrappers
QUIET = [True]


def my_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in EXTRA:
            m = EXTRA[name]
            return m if fromlist else sys.modules[name.split('.')[0]]
        if name in MODS:
            if fromlist:
                return MODS[name]
            return MODS.get(name.split('.')[0]) or builtins.__import__(name, globals, locals, fromlist, level)
    r = builtins.__import__(name, globals, locals, fromlist, level)
    return r


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        b = dict(builtins.__dict__)
        b['__import__'] = my_import
        b['__sym_float__'] = float_
        b['__sym_int__'] = int_
        b['isinstance'] = isinstance_
        b['type'] = type_
        b['print'] = quiet_print
        b['sum'] = _sum
        module.__dict__['__builtins__'] = b
        code = compile(_Rewrite().visit(ast.parse(src, self.path)), self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


def _sum(it, start=0):
    if isinstance(it, SymArray):
        return it.sum(axis=0)
    return builtins.sum(it, start)


class _Rewrite(ast.NodeTransformer):
    """float(x) -> __sym_float__(x), int(x) -> __sym_int__(x) (only direct calls; `float` as a dtype or type stays)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('float', 'int'):
            n.func = ast.copy_location(ast.Name('__sym_%s__' % n.func.id, ast.Load()), n.func)
        return n


def quiet_print(*a, **k):
    if not QUIET[0]:
        print(*a, **k)


class _PyDOE(types.ModuleType):
    """pyDOE2 with an instrumented copy of its Latin-hypercube module"""

    def __init__(self):
        super().__init__('pyDOE2')

    def __getattr__(self, k):
        import pyDOE2, pyDOE2.doe_lhs
        if k == 'lhs':
            if '_lhs' not in self.__dict__:
                p = pyDOE2.doe_lhs.__file__ if hasattr(pyDOE2.doe_lhs, '__file__') else sys.modules['pyDOE2.doe_lhs'].__file__
                m = types.ModuleType('vf_doe_lhs')
                m.__file__ = p
                _Loader(p, False).exec_module(m)
                self.__dict__['_lhs'] = m.lhs
            return self.__dict__['_lhs']
        return getattr(pyDOE2, k)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'smt' and not fullname.startswith('smt.'):
            return None
        if fullname in EXTRA:
            return None
        rel = fullname.replace('.', '/')
        base = os.path.join(REPO[0], rel)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_file_location(fullname, p, loader=_Loader(p, True), submodule_search_locations=[base])
            return spec
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(p, False))
        return None


def install(repo="/repo"):
    REPO[0] = repo
    build()
    sys.meta_path.insert(0, _Finder())
