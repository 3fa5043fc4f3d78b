"""LS and QP: exact least-squares fits."""
import numpy as np
from itertools import combinations_with_replacement
from .common import *
from .D02 import X3Q

BOUNDS = ("training outputs: all reals of [-3,3] (several columns); polynomial coefficients: all reals of [-3,3]; prediction points: all reals of [-1,2]^nx; "
          "nx 1-3, 4-12 points at concrete positions (3-4 symbolic positions in the -sx obligations), 1-3 outputs")
OUTSIDE = "other training positions; rank-deficient designs"

X2L = np.array([[0.0, 0.1], [1.0, 0.5], [0.3, 0.9], [0.7, 0.2], [0.5, 0.6], [0.1, 0.7], [0.9, 0.95], [0.45, 0.05], [0.8, 0.8]])
X1L = np.array([[0.0], [0.3], [0.45], [0.8], [1.0]])
X4 = np.vstack([np.zeros((1, 4)), np.eye(4), 0.5 * np.eye(4)] + [np.eye(4)[[i]] + np.eye(4)[[j]] for i in range(4) for j in range(i)] + [np.array([[.3, .7, .2, .6]])])
PTS = {1: X1L, 2: X2L, 3: X3Q, 4: X4}


def monos(nx, deg):
    m = [()]
    for d in range(1, deg + 1):
        m += list(combinations_with_replacement(range(nx), d))
    return m


def ev(m, x):
    v = 1.0
    for k in m:
        v = v * x[k]
    return v


def model(M, X, y):
    import smt.surrogate_models as sms
    sm = getattr(sms, M)(print_global=False)
    sm.set_training_values(X, y)
    sm.train()
    return sm


def orth(S, M="QP", nx=2, ny=1):
    X = PTS[nx]
    y = S.reals("y", (len(X), ny), -3, 3)
    sm = model(M, S.arr(X), y)
    p = sm.predict_values(S.arr(X))
    S.true("shape", tuple(p.shape) == (len(X), ny))
    for m in monos(nx, 2 if M == "QP" else 1):
        w = np.array([ev(m, x) for x in X])
        for j in range(ny):
            S.eq("residual orthogonal to every monomial", sum(float(w[i]) * (p[i, j] - y[i, j]) for i in range(len(X))), 0.0)


def exact(S, M="QP", nx=2, ny=1, npts=1):
    X = PTS[nx]
    ms = monos(nx, 2 if M == "QP" else 1)
    c = S.reals("c", (len(ms), ny), -3, 3)
    y = S.np.array([[sum(c[k, j] * float(ev(m, x)) for k, m in enumerate(ms)) for j in range(ny)] for x in X])
    sm = model(M, S.arr(X), y)
    x = S.reals("x", (npts, nx), -1, 2)
    p = sm.predict_values(x)
    S.true("shape", tuple(p.shape) == (npts, ny))
    for i in range(npts):
        for j in range(ny):
            S.eq("polynomial data reproduced everywhere", p[i, j], sum(c[k, j] * ev(m, x[i]) for k, m in enumerate(ms)))


def affine(S, nx=2, ny=1):
    """prediction of LS is affine: determined by its residual orthogonality; checked against the normal equations at any point"""
    X = PTS[nx]
    y = S.reals("y", (len(X), ny), -3, 3)
    for M, deg in (("LS", 1), ("QP", 2)):
        ms = monos(nx, deg)
        A = np.array([[ev(m, x) for m in ms] for x in X])
        B = np.linalg.pinv(A)
        sm = model(M, S.arr(X), y)
        x = S.reals("x%s" % M, (1, nx), -1, 2)
        p = sm.predict_values(x)
        for j in range(ny):
            S.eq("prediction is that of the least-squares polynomial",
                 p[0, j], sum(ev(m, x[0]) * sum(float(B[k, i]) * y[i, j] for i in range(len(X))) for k, m in enumerate(ms)))


def symx(S, M="QP", nt=3):
    """training positions symbolic (one input)"""
    X = S.reals("xt", (nt, 1), -1, 1)
    for i in range(nt):
        for j in range(i):
            S.assume(X[i, 0] >= X[j, 0] + 0.2)
    deg = 2 if M == "QP" else 1
    c = S.reals("c", (deg + 1,), -2, 2)

    def poly(t):
        return sum(c[k] * t ** k for k in range(deg + 1))
    y = S.np.array([[poly(X[i, 0])] for i in range(nt)])
    sm = model(M, X, y)
    x = S.reals("x", (1, 1), -1, 1)
    S.eq("polynomial data reproduced everywhere", sm.predict_values(x)[0, 0], poly(x[0, 0]))


def few(S, nx=2):
    """fewer points than coefficients are refused by QP"""
    import smt.surrogate_models as sms
    need = (nx + 1) * (nx + 2) // 2
    nt = S.pick("nt", list(range(1, need + 2)))
    X = PTS[nx][:nt]
    sm = sms.QP(print_global=False)
    sm.set_training_values(S.arr(X), S.reals("y", (nt, 1), -1, 1))
    try:
        sm.train()
        ok = True
    except Exception as e:
        ok = False
        S.true("message names the number needed", str(need) in str(e))
    S.true("QP needs (nx+1)(nx+2)/2 points", ok == (nt >= need))


def obligations(tier):
    o = []

    def add(_n, fn, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=90, feas_ms=200)))
    for M in ("LS", "QP"):
        for nx in (1, 2, 3, 4):
            for ny in (1, 2):
                add("%s-orth-%dd-%dout" % (M, nx, ny), orth, M=M, nx=nx, ny=ny)
            add("%s-exact-%dd" % (M, nx), exact, M=M, nx=nx)
        add("%s-exact-2out-3pts" % M, exact, M=M, nx=2, ny=2, npts=3)
        add("%s-exact-3out" % M, exact, M=M, nx=3, ny=3, npts=2)
        if M == "QP" or True:
            add("%s-sx" % M, symx, M=M, nt=3)
    for nx in (1, 2, 3):
        add("least-squares-%dd" % nx, affine, nx=nx, ny=2)
    add("QP-few-1d", few, nx=1)
    add("QP-few-2d", few, nx=2)
    return o
