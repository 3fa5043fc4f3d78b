"""Correlation kernels: one at zero distance, in (0,1], non-increasing, exact derivative arrays."""
import numpy as np
from .common import *

BOUNDS = ("distances: all reals of [0,2] per component (act_exp: [-2,2]); hyperparameters: all reals of [0.05,5]; 1-3 components, 1-2 rows, "
          "and row counts around the 10000-row internal block boundary")
OUTSIDE = "other numbers of components; overflow and underflow of floating point"
ASSUMPTIONS = ["exponentials are atoms with their functional equation and interval bounds"]
DIST = ("abs_exp", "squar_exp", "matern52", "matern32")


def kern(name):
    import smt.utils.kriging_utils as K
    return getattr(K, name)


def ref(S, name, th, d):
    """textbook formula on one row (d componentwise distance as the kernel receives it)"""
    np_ = S.np
    n = len(d)
    if name in ("abs_exp", "squar_exp"):
        return np_.exp(-sum(th[k] * d[k] for k in range(n)))
    if name == "act_exp":
        m = len(th) // n
        return np_.exp(-0.5 * sum(sum(th[j * n + k] * d[k] for k in range(n)) ** 2 for j in range(m)))
    c = (5 if name == "matern52" else 3) ** .5
    r = np_.exp(-c * sum(th[k] * d[k] for k in range(n)))
    for k in range(n):
        l = th[k] * d[k]
        r = r * (1 + c * l + (5.0 / 3.0 * l * l if name == "matern52" else 0.0))
    return r


def data(S, name, n, rows=1, m=1):
    lo = -2 if name == "act_exp" else 0
    return S.reals("d", (rows, n), lo, 2), S.reals("theta", (n * m,), 0.05, 5)


def value(S, name="abs_exp", n=1, rows=2, m=1):
    k = kern(name)
    d, th = data(S, name, n, rows, m)
    r = k(th, d)
    S.true("shape", tuple(r.shape) == (rows, 1))
    for i in range(rows):
        S.eq("value", r[i, 0], ref(S, name, th, [d[i, j] for j in range(n)]))
    r0 = k(th, S.arr(np.zeros((rows, n))))
    for i in range(rows):
        S.eq("one at zero distance", r0[i, 0], 1.0)


def monotone(S, name="abs_exp", n=1):
    """dr/dd_k <= 0 and r > 0: with r(0)=1 the value stays in (0,1]"""
    k = kern(name)
    d, th = data(S, name, n, 1)
    f = k(th, d)[0, 0]
    S.le("positive", -f, 0.0, tol=0.0)
    if S.symbolic:
        for j in range(n):
            S.le("non-increasing in each distance", S.deriv_wrt(f, d[0, j]), 0.0, tol=1e-9)
    else:
        for j in range(n):
            for t in (0.5, 0.9, 0.999):
                e = np.array(d, copy=True)
                e[0, j] *= t
                S.le("non-increasing in each distance", f, k(th, e)[0, 0], tol=1e-12)


def grad(S, name="abs_exp", n=1, rows=1, m=1, hess=True):
    k = kern(name)
    d, th = data(S, name, n, rows, m)
    for a in range(n * m):
        g = k(th, d, grad_ind=a)

        def f(t):
            return k(t, d)
        S.grad("first derivative in theta", f, th, (a,), g)
        if hess:
            def h(t, a=a):
                return k(t, d, grad_ind=a)
            for b in range(n * m):
                S.grad("second derivative in theta", h, th, (b,), k(th, d, grad_ind=a, hess_ind=b))


def dx(S, name="abs_exp", n=1, pls=False):
    import smt.utils.kriging_utils as K
    k = kern(name)
    D = S.reals("D", (1, n), -2, 2)
    C = np.array([[0.8, -0.3], [-0.5, 0.7], [0.2, 0.9]])[:n]
    h = 2 if pls else n
    th = S.reals("theta", (h,), 0.05, 5)
    if pls:
        def cd(Z, **kw):
            return K.componentwise_distance_PLS(Z, name, h, S.arr(C), **kw)
    else:
        def cd(Z, **kw):
            return K.componentwise_distance(Z, name, n, **kw)

    def f(Z):
        return k(th, cd(Z))
    r, dr = k(th, cd(D), derivative_params={"dx": D, "dd": cd(D, theta=th, return_derivative=True)})
    S.true("shape of the input derivative", tuple(dr.shape) == (1, n))
    S.eq("value returned with the derivative", r[0, 0], f(D)[0, 0])
    for j in range(n):
        S.grad("derivative in the input", f, D, (0, j), dr[0, j], out=(0, 0))


def refuse(S):
    d, th = data(S, "act_exp", 2)
    k = kern("act_exp")
    try:
        k(th, d, derivative_params={"dx": d, "dd": d})
        ok = False
    except ValueError:
        ok = True
    S.true("active-subspace kernel refuses input derivatives", ok)
    try:
        k(th[:1], d)
        ok = False
    except Exception as e:
        ok = "multiple" in str(e)
    S.true("wrong length of theta is refused", ok)


def emb(S, n=2):
    """active-subspace kernel with original-space differences: derivative with respect to theta through the embedding"""
    k = kern("act_exp")
    d, th = data(S, "act_exp", n, 2, 2)
    for a in range(2 * n):
        S.eq("embedding argument", k(th, d, grad_ind=a, d_x=d), k(th, d, grad_ind=a))


def block(S, name="abs_exp", rows=10002, n=2):
    """rows around the internal block boundary behave like single rows"""
    k = kern(name)
    idx = [i for i in (0, 9998, 9999, 10000, 10001, rows - 1) if i < rows]
    idx = sorted(set(idx))
    d = np.zeros((rows, n), dtype=object if S.symbolic else float)
    s = S.reals("d", (len(idx), n), 0, 2)
    if not S.symbolic:
        s = np.asarray(s, dtype=float)
    for a, i in enumerate(idx):
        for j in range(n):
            d[i, j] = s[a, j]
    d = S.arr(d)
    th = S.arr(np.array([0.7, 1.3, 2.1])[:n])
    for kw in ({}, dict(grad_ind=1), dict(grad_ind=0, hess_ind=1), dict(grad_ind=1, hess_ind=1)):
        big = k(th, d, **kw)
        small = k(th, s, **kw)
        S.true("shape", tuple(big.shape) == (rows, 1))
        for a, i in enumerate(idx):
            S.eq("row of a large array", big[i, 0], small[a, 0])
    for a, i in enumerate(idx):
        S.eq("row of a large array equals the formula", k(th, d)[i, 0], ref(S, name, th, [s[a, j] for j in range(n)]))


def obligations(tier):
    o = []

    def add(_n, fn, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=150)))
    for c in DIST:
        for n in (1, 2, 3):
            add("value-%s-%d" % (c, n), value, name=c, n=n)
            add("dx-%s-%d" % (c, n), dx, name=c, n=n)
        for n in (1, 2):
            add("monotone-%s-%d" % (c, n), monotone, name=c, n=n)
        for n in (1, 2):
            add("grad-%s-%d" % (c, n), grad, name=c, n=n, rows=2 if n == 1 else 1)
        add("grad-%s-3" % c, grad, name=c, n=3, hess=(tier != "quick" or c in ("abs_exp", "squar_exp")))
        add("block-%s" % c, block, name=c)
        if tier != "quick":
            add("block-%s-10000" % c, block, name=c, rows=10000)
            add("block-%s-20001" % c, block, name=c, rows=20001)
            add("monotone-%s-3" % c, monotone, name=c, n=3)
    for c in ("abs_exp", "squar_exp"):
        for n in (2, 3):
            add("dx-pls-%s-%d" % (c, n), dx, name=c, n=n, pls=True)
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 1)):
        add("value-act-%d-%d" % (n, m), value, name="act_exp", n=n, m=m)
        add("grad-act-%d-%d" % (n, m), grad, name="act_exp", n=n, m=m)
    add("act-refuse", refuse)
    add("act-embedding", emb)
    return o
