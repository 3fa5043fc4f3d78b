"""Concrete replay process: the unmodified library with real numpy/scipy; only random outcomes and (where a scenario asks
for it) optimizer outcomes are scripted."""
import sys, numpy as np

MIN = [None]
_RNGS = [None]
_REAL = {}


_RSN = [0]


def reseed():
    np.random.seed(7) if '_orig_seed' not in _REAL else _REAL['_orig_seed'](7)
    _RSN[0] = 0


def reset():
    reseed()
    MIN[0] = None
    _RNGS[0] = None


def set_rng(S):
    _RNGS[0] = S


class ScriptedRS:
    def __init__(self, S):
        self.S = S

    def _u(self):
        v = self.S.fresh("rnd", 0, 1)
        return min(max(v, 0.0), 1 - 1e-12)

    def rand(self, *shape):
        if not shape:
            return self._u()
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = self._u()
        return a

    def random_sample(self, size=None):
        return self.rand(*((size,) if isinstance(size, int) else (size or ())))
    random = random_sample

    def randn(self, *shape):
        if not shape:
            return self.S.fresh("rndn", -8, 8)
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = self.S.fresh("rndn", -8, 8)
        return a

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * self._u()
        return low + (high - low) * self.rand(*((size,) if isinstance(size, int) else size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.randn(*((size,) if isinstance(size, int) else (size or ())))

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        if low >= high:
            raise ValueError("low >= high")
        if size is None:
            return self.S.fresh("rndi", low, high - 1, True)
        a = np.empty(size, dtype=int)
        for i in np.ndindex(*a.shape):
            a[i] = self.S.fresh("rndi", low, high - 1, True)
        return a

    def permutation(self, x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.asarray(x)
        left, out = list(range(len(x))), []
        for i in range(len(x)):
            j = self.S.fresh("ch_perm", 0, len(left) - 1, True) if len(left) > 1 else 0
            out.append(left.pop(j))
        return x[np.array(out, dtype=int)] if len(x) else x.copy()

    def shuffle(self, x):
        p = self.permutation(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p].copy()
        else:
            x[:] = [x[i] for i in p]

    def choice(self, a, size=None, replace=True, p=None):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        if size is None:
            i = self.S.fresh("ch_choice", 0, n - 1, True)
            return i if isinstance(a, (int, np.integer)) else a[i]
        if not replace:
            pr = self.permutation(n)[:size]
            return pr if isinstance(a, (int, np.integer)) else np.asarray(a)[pr]
        ix = np.array([self.S.fresh("ch_choice", 0, n - 1, True) for _ in range(int(np.prod(size)))]).reshape(size)
        return ix if isinstance(a, (int, np.integer)) else np.asarray(a)[ix]

    def seed(self, *a):
        pass


def install():
    """patch the *libraries* (before smt is imported) so that scripted outcomes can be switched on"""
    real_rs = np.random.RandomState

    class _M(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (real_rs, ScriptedRS))

        def __call__(cls, *a, **k):
            if _RNGS[0] is not None:
                return ScriptedRS(_RNGS[0])
            if not a and not k or (a and a[0] is None):
                _RSN[0] += 1
                return real_rs(1000 + _RSN[0])
            return real_rs(*a, **k)

    class RandomState(metaclass=_M):
        pass
    import scipy.stats, scipy.optimize, sklearn.mixture, sklearn.cross_decomposition, pyDOE2   # noqa: before patching
    np.random.RandomState = RandomState
    for n in ("rand", "randn", "random", "random_sample", "uniform", "normal", "randint", "permutation", "shuffle", "choice", "seed"):
        f = getattr(np.random, n)
        _REAL[n] = f
        if n == 'seed':
            _REAL['_orig_seed'] = f

        def g(*a, _f=f, _n=n, **k):
            if _RNGS[0] is not None:
                return getattr(ScriptedRS(_RNGS[0]), _n)(*a, **k)
            return _f(*a, **k)
        setattr(np.random, n, g)
    rm = scipy.optimize.minimize

    def minimize(fun, x0, *a, **k):
        if MIN[0] is not None:
            return MIN[0](fun, x0, *a, **k)
        return rm(fun, x0, *a, **k)
    scipy.optimize.minimize = minimize
