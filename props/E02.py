"""EGO criteria equal their formulas."""
import math
import numpy as np
from .common import *

BOUNDS = ("all predicted means of [-5,5], variances of [0,4] (exactly zero included), recorded outputs of [-5,5]; 1-3 points at once; every criterion and virtual-point rule; penalized (tunneling) expected improvement with 1-2 recorded points; "
          "and a real Kriging model at all points of [-0.2,1.2]")
OUTSIDE = "standard deviations between 0 and 0.05; magnitudes beyond the boxes"
ASSUMPTIONS = ["normal distribution function: an atom with 0<Phi<1 and the tail bound z Phi(z) + phi(z) >= 0"]


def ego(S, mus, vs, rec=None, **kw):
    """EGO object whose surrogate predicts the given values, by the identity of the query row"""
    from smt.applications import EGO
    e = EGO(xlimits=np.array([[0.0, 1.0]]), n_iter=1, **kw)

    class G:
        def predict_values(self, x):
            return S.np.array([[mus[self.idx(x[i])]] for i in range(len(x))])

        def predict_variances(self, x):
            return S.np.array([[vs[self.idx(x[i])]] for i in range(len(x))])

        def idx(self, row):
            return int(round(float(row[0])))
    e.gpr = G()
    return e


def ei_ref(S, fmin, mu, v):
    s = S.np.sqrt(v)
    z = (fmin - mu) / s
    n = S.norm
    return (fmin - mu) * n.cdf(z) + s * n.pdf(z)


def data(S, n, nd=2, zero=()):
    mu = S.reals("mu", (n,), -5, 5)
    sd = S.reals("sd", (n,), 0.05, 2)
    v = S.np.array([0.0 if i in zero else sd[i] * sd[i] for i in range(n)])
    y = S.reals("y", (nd, 1), -5, 5)
    return mu, v, y


def fmin(S, y):
    m = y[0, 0]
    for i in range(1, len(y)):
        if bool(y[i, 0] < m):
            m = y[i, 0]
    return m


def ei(S, n=1, zero=(), nd=2):
    mu, v, y = data(S, n, nd, zero)
    e = ego(S, mu, v)
    r = e.EI(S.arr(np.arange(n, dtype=float).reshape(-1, 1)), y)
    f = fmin(S, y)
    for i in range(n):
        ri = r if not hasattr(r, "shape") or np.ndim(r) == 0 else r[i, 0]
        if i in zero:
            S.true("zero variance gives zero (not a NaN)", S.AND(ri <= 1e-12, ri >= -1e-12))
        else:
            S.eq("expected improvement", ri, ei_ref(S, f, mu[i], v[i]))


def ei_sign(S):
    mu, v, y = data(S, 1, 1)
    e = ego(S, mu, v)
    r = e.EI(S.arr(np.zeros((1, 1))), y)
    r = r if np.ndim(r) == 0 else r[0, 0]
    s = S.np.sqrt(v[0])
    z = (y[0, 0] - mu[0]) / s
    # tail bound of the normal distribution, then scaled by the standard deviation
    S.assume(S.norm.cdf(z) * z + S.norm.pdf(z) >= 0)
    S.assume(S.norm.cdf(z) * z * s + S.norm.pdf(z) * s >= 0)
    S.le("expected improvement is not negative", 0.0, r, tol=1e-9)


def other(S, n=2):
    mu, v, y = data(S, n)
    e = ego(S, mu, v)
    P = S.arr(np.arange(n, dtype=float).reshape(-1, 1))
    a, b = e.SBO(P), e.UCB(P)
    for i in range(n):
        S.eq("surrogate-based criterion is the mean", a[i, 0], mu[i])
        S.eq("lower confidence bound", b[i, 0], mu[i] - 3 * S.np.sqrt(v[i]))


def virtual(S, q="KB", n=1):
    mu, v, y = data(S, n)
    e = ego(S, mu, v, qEI=q)
    S.rng(True)
    z = None
    r = e._get_virtual_point(S.arr(np.arange(n, dtype=float).reshape(-1, 1)), y)
    S.rng(False)
    for i in range(n):
        ri = r if np.ndim(r) == 0 else r[i, 0]
        s = S.np.sqrt(v[i])
        if q == "KB":
            S.eq("believer", ri, mu[i])
        elif q == "KBUB":
            S.eq("upper believer", ri, mu[i] + 3 * s)
        elif q == "KBLB":
            S.eq("lower believer", ri, mu[i] - 3 * s)
        elif q == "CLmin":
            S.eq("constant liar", ri, fmin(S, y))


def krand(S):
    """random believer: an affine function of one standard deviation, the same factor for every point"""
    mu, v, y = data(S, 2)
    e = ego(S, mu, v, qEI="KBRand")
    S.rng(True)
    r = e._get_virtual_point(S.arr(np.arange(2, dtype=float).reshape(-1, 1)), y)
    S.rng(False)
    S.eq("same multiple of the standard deviation", (r[0, 0] - mu[0]) * S.np.sqrt(v[1]), (r[1, 0] - mu[1]) * S.np.sqrt(v[0]))


def tunnel(S, nd=1, n=1):
    """penalty: documented form EI(p) - sum of positive penalties, clipped at zero"""
    mu, v, y = data(S, n + nd, nd)
    e = ego(S, mu, v)
    P = S.arr(np.arange(n, dtype=float).reshape(-1, 1))
    X = S.arr(np.arange(n, n + nd, dtype=float).reshape(-1, 1))
    r = e.EI(P, y, enable_tunneling=True, x_data=X)
    f = fmin(S, y)
    # the plain criterion of one point is compared with its formula in the other obligations
    E = [e.EI(S.arr(np.array([[float(i)]])), y)[0, 0] for i in range(n + nd)]
    for i in range(n):
        t = E[i]
        for j in range(n, n + nd):
            pena = (E[i] - E[j]) / float(i - j) ** 4
            if bool(pena > 0):
                t = t - pena
            t = max(t, 0)
        S.eq("penalized expected improvement", r[i, 0], t)


def real(S, crit="EI"):
    """the objective handed to the optimizer, on a trained Kriging model"""
    from smt.applications import EGO
    from smt.surrogate_models import KRG
    X = np.array([[0.0], [0.3], [0.55], [1.0]])
    Y = np.array([[1.0], [-0.4], [0.2], [1.7]])

    def go():
        g = KRG(theta0=[0.5], print_global=False)
        e = EGO(xlimits=np.array([[0.0, 1.0]]), n_iter=1, criterion=crit, surrogate=g, xdoe=X, ydoe=Y, n_start=1, n_max_optim=1, random_state=1)
        e._setup_optimizer(None)
        e._find_best_point(X, Y)
        return e
    e = S.concretely("ego" + crit, go)
    x = S.reals("x", (1,), -0.2, 1.2)
    r = e.obj_k(x)
    r = r if np.ndim(r) == 0 else r[0, 0]
    x2 = S.np.array([[x[0]]])
    mu, v = e.gpr.predict_values(x2)[0, 0], e.gpr.predict_variances(x2)[0, 0]
    if crit == "EI":
        if bool(v == 0):
            S.eq("expected improvement", r, 0.0)
        else:
            S.eq("expected improvement", r, -ei_ref(S, float(Y.min()), mu, v))
    else:
        S.eq("criterion", r, mu if crit == "SBO" else mu - 3 * S.np.sqrt(v))


def obligations(tier):
    o = []

    def add(_n, fn=ei, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=150, feas_ms=200, max_paths=4000)))
    add("EI-1")
    add("EI-3", n=3)
    add("EI-3data", n=1, nd=3)
    add("EI-zero", zero=(0,))
    add("EI-some-zero", n=2, zero=(1,))
    add("EI-all-zero", n=2, zero=(0, 1))
    add("EI-sign", fn=ei_sign)
    add("others", fn=other)
    for q in ("KB", "KBLB", "KBUB", "CLmin"):
        add("virtual-" + q, fn=virtual, q=q)
        add("virtual2-" + q, fn=virtual, q=q, n=2)
    add("virtual-KBRand", fn=krand)
    add("tunnel", fn=tunnel)
    add("tunnel-2", fn=tunnel, nd=2)
    add("tunnel-2pts", fn=tunnel, n=2)
    for c in ("EI", "SBO", "UCB"):
        add("objective-" + c, fn=real, crit=c)
    return o
