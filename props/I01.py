"""IDW and RBF reproduce their training data; IDW stays between the smallest and the largest output."""
import numpy as np
from .common import *

NEEDS_CPP = True
BOUNDS = ("training outputs: all reals of [-3,3]; IDW: training inputs symbolic as well (all reals of [-1,2]^nx, pairwise at least 1e-3 apart), 2-4 points, nx 1-2, exponents 0.5-4; "
          "RBF: concrete well separated designs of 4-8 points (2 points symbolic), nx 1-3, poly_degree -1/0/1, scalar and list d0, reg 0; bounds of IDW: all prediction points of [-1,2]^nx")
OUTSIDE = "floating-point overflow of the IDW weights for huge exponents or distances below 1e-100; regularized RBF"


def idw(S, nx=2, nt=3, ny=1, p=2.5):
    import smt.surrogate_models as M
    X = S.reals("xt", (nt, nx), -1, 2)
    for i in range(nt):
        for j in range(i):
            S.assume(((X[i] - X[j]) ** 2).sum() >= 1e-6)
    y = S.reals("y", (nt, ny), -3, 3)
    sm = M.IDW(print_global=False, p=p)
    sm.set_training_values(X, y)
    sm.train()
    v = sm.predict_values(X)
    S.true("shape", tuple(v.shape) == (nt, ny))
    for i in range(nt):
        for j in range(ny):
            S.eq("training output reproduced", v[i, j], y[i, j])


def idw_bounds(S, nx=1, nt=3, p=2.0):
    import smt.surrogate_models as M
    X = DES[nx][0][:nt]
    y = S.reals("y", (nt, 1), -3, 3)
    hi, lo = S.real("hi", -3, 3), S.real("lo", -3, 3)
    for i in range(nt):
        S.assume(y[i, 0] <= hi)
        S.assume(lo <= y[i, 0])
    sm = M.IDW(print_global=False, p=p)
    sm.set_training_values(S.arr(X), y)
    sm.train()
    x = S.reals("x", (1, nx), -1, 2)
    v = sm.predict_values(x)[0, 0]
    S.le("not above the largest output", v, hi, tol=1e-9)
    S.le("not below the smallest output", lo, v, tol=1e-9)


def idw_value(S, nx=1, nt=3, p=2.0, x0=-1, x1=2):
    """away from the training points: the mean of the outputs weighted by distance**-p"""
    import smt.surrogate_models as M
    X = DES[nx][0][:nt]
    y = S.reals("y", (nt, 1), -3, 3)
    sm = M.IDW(print_global=False, p=p)
    sm.set_training_values(S.arr(X), y)
    sm.train()
    x = S.reals("x", (1, nx), x0, x1)
    r2 = [((x[0] - X[i]) ** 2).sum() for i in range(nt)]
    for r in r2:
        S.assume(r >= 1e-14)
    v = sm.predict_values(x)[0, 0]
    w = [r ** (-p / 2) for r in r2]
    S.eq("inverse distance weighted mean", v, sum(w[i] * y[i, 0] for i in range(nt)) / sum(w), tol=1e-6)


def rbf(S, nx=2, ny=1, pd=-1, d0=0.6, big=False, order=None):
    import smt.surrogate_models as M
    X, Y = (X2Q, Y2Q) if big else DES[nx]
    y = S.reals("y", (len(X), ny), -3, 3)
    sm = M.RBF(print_global=False, d0=d0, poly_degree=pd, reg=0)
    sm.set_training_values(S.arr(X), y)
    sm.train()
    idx = list(range(len(X))) if order is None else order
    v = sm.predict_values(S.arr(X[idx]))
    S.true("shape", tuple(v.shape) == (len(idx), ny))
    for i, t in enumerate(idx):
        for j in range(ny):
            S.eq("training output reproduced", v[i, j], y[t, j])


def rbf_symx(S, nx=1, d0=0.7):
    import smt.surrogate_models as M
    X = S.reals("xt", (2, nx), -1, 2)
    S.assume(((X[0] - X[1]) ** 2).sum() >= 0.1)
    y = S.reals("y", (2, 1), -3, 3)
    sm = M.RBF(print_global=False, d0=d0, poly_degree=-1, reg=0)
    sm.set_training_values(X, y)
    sm.train()
    v = sm.predict_values(X)
    for i in range(2):
        S.eq("training output reproduced", v[i, 0], y[i, 0])


def obligations(tier):
    o = []

    def add(_n, fn, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=90, feas_ms=200)))
    for p in (0.5, 1, 2, 2.5, 4):
        add("IDW-p%s" % p, idw, p=p)
    add("IDW-1d-4pts", idw, nx=1, nt=4)
    add("IDW-2out", idw, nx=1, nt=3, ny=2)
    add("IDW-3d", idw, nx=3, nt=2)
    for p in (1, 2, 2.5, 3):
        for nx in (1, 2):
            if p == 3 and nx == 2 and tier == "quick":
                continue
            add("IDW-bounds-p%s-%dd" % (p, nx), idw_bounds, p=p, nx=nx, nt=3 if (nx == 1 or p == 2) else 2)
    for p in (0.5, 1, 2, 3):
        add("IDW-value-p%s" % p, idw_value, p=p)
    add("IDW-value-2d", idw_value, nx=2)
    add("IDW-value-near", idw_value, x0=-2e-4, x1=2e-4)
    add("IDW-value-near-p1", idw_value, p=1, x0=-2e-4, x1=2e-4)
    add("IDW-value-far", idw_value, x0=50, x1=5000)
    for pd in (-1, 0, 1):
        for nx in (1, 2, 3):
            add("RBF-p%d-%dd" % (pd, nx), rbf, pd=pd, nx=nx)
    add("RBF-2out", rbf, ny=2, pd=1)
    add("RBF-8pts", rbf, big=True, pd=1, d0=[0.5, 0.8])
    add("RBF-order", rbf, ny=2, pd=0, order=[3, 0, 2])
    add("RBF-symbolic-points", rbf_symx)
    return o
