"""Distance and standardization helpers equal their definitions, are complete and independent of the block size."""
import numpy as np
from .common import *

BOUNDS = ("2-6 points in 1-3 dimensions, all real coordinates in [-3,3]; 1-3 PLS components with all real coefficients in [-1,1]; row counts 3 and around the "
          "10000-row block boundary; standardization of 2-4 rows, 1-3 inputs, 1-2 outputs, with and without constant columns")
OUTSIDE = "larger arrays, floating-point overflow"
ASSUMPTIONS = []
CORR = ("squar_exp", "abs_exp", "matern52", "matern32", "act_exp")


def cross(S, n=4, nx=2):
    import smt.utils.kriging_utils as K
    X = S.reals("X", (n, nx), -3, 3)
    D, ij = K.cross_distances(X)
    m = n * (n - 1) // 2
    S.true("shapes", tuple(D.shape) == (m, nx) and tuple(ij.shape) == (m, 2))
    ij = np.asarray(ij, dtype=int)
    S.true("every unordered pair once", sorted((int(a), int(b)) for a, b in ij) == [(a, b) for a in range(n) for b in range(a + 1, n)])
    for r in range(m):
        for k in range(nx):
            S.eq("difference of the pair", D[r, k], X[ij[r, 0], k] - X[ij[r, 1], k])


def diffs(S, n=2, m=3, nx=2):
    import smt.utils.kriging_utils as K
    X, Y = S.reals("X", (n, nx), -3, 3), S.reals("Y", (m, nx), -3, 3)
    D = K.differences(X, Y)
    S.true("shapes", tuple(D.shape) == (n * m, nx))
    for i in range(n):
        for j in range(m):
            for k in range(nx):
                S.eq("difference", D[i * m + j, k], X[i, k] - Y[j, k])


def comp(corr, v):
    return v * v if corr == "squar_exp" else (v if corr == "act_exp" else abs(v))


def rows_of(S, rows, nx, name="D"):
    if rows < 100:
        return S.reals(name, (rows, nx), -3, 3), list(range(rows))
    idx = sorted({i for i in (0, 9999, 10000, rows - 1) if i < rows})
    s = S.reals(name, (len(idx), nx), -3, 3)
    d = np.zeros((rows, nx), dtype=object if S.symbolic else float)
    for a, i in enumerate(idx):
        for j in range(nx):
            d[i, j] = s[a, j]
    return S.arr(d), idx


def cdist(S, corr="squar_exp", rows=3, nx=2):
    import smt.utils.kriging_utils as K
    D, idx = rows_of(S, rows, nx)
    R = K.componentwise_distance(D, corr, nx)
    S.true("shapes", tuple(R.shape) == (rows, nx))
    for i in idx:
        for k in range(nx):
            S.eq("componentwise distance", R[i, k], comp(corr, D[i, k]))
    th = S.reals("theta", (nx,), 0.05, 5)
    try:
        G = K.componentwise_distance(D, corr, nx, theta=th, return_derivative=True)
        S.true("active-subspace distances refuse derivatives", corr != "act_exp")
    except ValueError:
        S.true("active-subspace distances refuse derivatives", corr == "act_exp")
        return
    for i in idx[:3]:
        for k in range(nx):
            S.grad("derivative of theta times distance", lambda Z, i=i, k=k: comp(corr, Z[i, k]) * th[k], D, (i, k), G[i, k])
    try:
        K.componentwise_distance(D, corr, nx, return_derivative=True)
        S.true("missing theta is refused", False)
    except ValueError:
        S.true("missing theta is refused", True)


def pls(S, corr="squar_exp", rows=3, nx=2, h=2, der=True):
    import smt.utils.kriging_utils as K
    D, idx = rows_of(S, rows, nx)
    C = S.reals("C", (nx, h), -1, 1)
    R = K.componentwise_distance_PLS(D, corr, h, C)
    S.true("shapes", tuple(R.shape) == (rows, h))

    def w(c):
        return c * c if corr == "squar_exp" else abs(c)
    for i in idx:
        for l in range(h):
            S.eq("PLS-weighted distance", R[i, l], sum(comp(corr, D[i, k]) * w(C[k, l]) for k in range(nx)))
    if not der:
        return
    th = S.reals("theta", (h,), 0.05, 5)
    G = K.componentwise_distance_PLS(D, corr, h, C, theta=th, return_derivative=True)
    for i in idx[:2]:
        for k in range(nx):
            S.grad("derivative of theta times PLS distance",
                   lambda Z, i=i, k=k: sum(comp(corr, Z[i, k]) * w(C[k, l]) * th[l] for l in range(h)), D, (i, k), G[i, k])


def std(S, n=3, nx=2, ny=1, unit=False, constant=False):
    import smt.utils.kriging_utils as K
    X = S.reals("X", (n, nx), -3, 3)
    y = S.reals("y", (n, ny), -3, 3)
    if constant:
        v, w = S.real("cx", -3, 3), S.real("cy", -3, 3)
        for i in range(n):
            X[i, 0] = v
            y[i, 0] = w
    for k in range(1 if constant else 0, nx):
        S.assume(X[0, k] >= X[1, k] + 0.1)
    for k in range(1 if constant else 0, ny):
        S.assume(y[0, k] >= y[1, k] + 0.1)
    X0, y0 = X.copy(), y.copy()
    Xn, yn, xo, ym, xs, ys = K.standardization(X, y, scale_X_to_unit=unit)
    S.eq("inputs untouched", X, X0)
    S.eq("outputs untouched", y, y0)
    for i in range(n):
        for k in range(nx):
            S.eq("standardized inputs map back", Xn[i, k] * xs[k] + xo[k], X0[i, k])
        for k in range(ny):
            S.eq("standardized outputs map back", yn[i, k] * ys[k] + ym[k], y0[i, k])
    for k in range(nx):
        if constant and k == 0:
            S.eq("constant input maps to zero", Xn[0, 0], 0.0)
            S.eq("constant input keeps scale one", xs[0], 1.0)
        elif unit:
            for i in range(n):
                S.le("unit scaling lower", -Xn[i, k], 0.0)
                S.le("unit scaling upper", Xn[i, k], 1.0)
        else:
            S.eq("zero mean", sum(Xn[i, k] for i in range(n)), 0.0)
            S.eq("unit variance", sum(Xn[i, k] * Xn[i, k] for i in range(n)), n - 1.0)
    for k in range(ny):
        if constant and k == 0:
            S.eq("constant output maps to zero", yn[0, 0], 0.0)
        else:
            S.eq("zero mean of outputs", sum(yn[i, k] for i in range(n)), 0.0)
            S.eq("unit variance of outputs", sum(yn[i, k] * yn[i, k] for i in range(n)), n - 1.0)


def obligations(tier):
    o = []

    def add(_n, fn, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=150)))
    for n in (1, 2, 3, 5, 6):
        for nx in (1, 2, 3):
            add("pairs-%d-%d" % (n, nx), cross, n=n, nx=nx)
    for n, m, nx in ((1, 1, 1), (2, 3, 2), (3, 2, 3), (1, 4, 2)):
        add("differences-%d-%d-%d" % (n, m, nx), diffs, n=n, m=m, nx=nx)
    for c in CORR:
        for nx in (1, 2, 3):
            add("distance-%s-%d" % (c, nx), cdist, corr=c, rows=1 if nx == 3 else 2, nx=nx)
        add("distance-%s-blocks" % c, cdist, corr=c, rows=10002, nx=1)
    for c in ("squar_exp", "abs_exp"):
        for nx, h in ((1, 1), (2, 1), (2, 2), (3, 2)):
            add("pls-%s-%d-%d" % (c, nx, h), pls, corr=c, rows=2 if nx < 3 and c == "squar_exp" else 1, nx=nx, h=h)
        add("pls-%s-blocks" % c, pls, corr=c, rows=10001, nx=1, h=1, der=False)
        if tier != "quick":
            add("pls-%s-blocks2" % c, pls, corr=c, rows=20001, nx=2, h=1, der=False)
    for n, nx, ny in ((2, 1, 1), (3, 2, 1), (4, 3, 2)):
        add("standardize-%d-%d-%d" % (n, nx, ny), std, n=n, nx=nx, ny=ny)
    add("standardize-constant", std, n=3, nx=2, ny=2, constant=True)
    add("unit-2", std, n=2, nx=1, unit=True)
    add("unit-3", std, n=3, nx=2, unit=True)
    add("unit-constant", std, n=3, nx=2, unit=True, constant=True)
    return o
