"""Noise-free Kriging interpolates its training data with zero variance; the variance is never negative."""
import numpy as np
from .krg_common import *

BOUNDS = ("interpolation and zero variance: training outputs are all reals of [-3,3] (symbolic), 1-2 outputs, 4-8 points, 1-3 inputs, all correlations and trends, models KRG, KPLS, "
          "KPLSK, MGP, GEKPLS; non-negative variance: all prediction points of [-1,2]^nx")
OUTSIDE = "other designs and hyperparameters; outputs that the trend reproduces to within rounding (except exactly constant ones, which are checked)"
ASSUMPTIONS = ["the hyperparameter optimizer is scripted to return the listed theta in the symbolic-output obligations", "linear algebra on symbolic right-hand sides is exact"]


def interp(S, M="KRG", nx=1, ny=1, poly="constant", corr="squar_exp", theta=0.8, big=False, kw=None, tol=1e-6):
    """raw training outputs symbolic, through training: prediction only"""
    import smt.surrogate_models as sms
    xt, yt = (X2Q, Y2Q) if big else DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    kw = dict(kw or {}, corr=corr, theta0=[theta] * nx)
    th = np.array([theta * (1 + 0.3 * k) for k in range(nx)])
    y = S.reals("y", yt.shape, -3, 3)
    for j in range(ny):
        S.assume(y[0, j] >= y[1, j] + 0.1)
    sm = getattr(sms, M)(print_global=False, poly=poly, **kw)
    sm.set_training_values(S.arr(xt), y)
    fixed_theta(S, th)
    sm.train()
    S.minimize(None)
    p = sm.predict_values(S.arr(xt))
    S.true("shapes", tuple(p.shape) == yt.shape)
    for i in range(len(xt)):
        for j in range(ny):
            S.eq("prediction at a training point is the training output", p[i, j], y[i, j], tol=tol)


def norm(S, M="KRG", nx=1, ny=1, poly="constant", corr="squar_exp", theta=None, big=False, kw=None, tol=1e-6, free=9):
    """normalized training outputs symbolic (model parameters recomputed by the repository): prediction and variance"""
    import smt.surrogate_models as sms
    xt, yt = (X2Q, Y2Q) if big else DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    kw = dict(kw or {})
    if M != "MGP":
        kw.update(corr=corr, theta0=[0.8] * kw.get("n_comp", nx))
    sm = trained(S, "m", lambda: getattr(sms, M)(print_global=False, poly=poly, **kw), xt, yt)
    keep = sm.y_norma, sm.optimal_par, sm.optimal_theta
    y = S.reals("y", yt.shape, -1, 1)
    for j in range(ny):
        y[0, j], y[1, j] = 1.0, -0.5           # shift and scale of the outputs are normalized away by the code
        for i in range(2 + free, len(yt)):
            y[i, j] = float(keep[0][i, j])
    k = S.pick("training point", list(range(len(xt))))
    try:
        sm.y_norma = y
        sm.best_iteration_fail = None
        th = np.asarray(sm.optimal_theta, dtype=float) if theta is None else np.array(theta, dtype=float)
        sm.optimal_theta = th
        sm.optimal_par = sm._reduced_likelihood_function(S.arr(th))[1]
        S.true("training succeeded", "C" in sm.optimal_par)
        p = sm.predict_values(S.arr(xt[[k]]))
        if M == "MGP":
            p = p.reshape(1, 1)
        S.true("shape of the prediction", tuple(p.shape) == (1, ny))
        for j in range(ny):
            S.eq("prediction at a training point is the training output", (p[0, j] - np.ravel(sm.y_mean)[j]) / np.ravel(sm.y_std)[j], y[k, j], tol=tol)
        if M != "MGP":
            v = sm.predict_variances(S.arr(xt[[k]]))
            S.true("shape of the variance", tuple(v.shape) == (1, ny))
            for j in range(ny):
                S.eq_clipped("variance vanishes at a training point", v[0, j] / np.ravel(sm.y_std)[j] ** 2, 0.0, tol=tol)
    finally:
        sm.y_norma, sm.optimal_par, sm.optimal_theta = keep


def nonneg(S, M="KRG", nx=1, ny=1, poly="constant", corr="squar_exp", big=False, kw=None, noise=False, npts=1):
    import smt.surrogate_models as sms
    xt, yt = (X2Q, Y2Q) if big else DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    kw = dict(kw or {})
    if M != "MGP":
        kw.update(corr=corr, theta0=[0.8] * kw.get("n_comp", nx))
    sm = trained(S, "m", lambda: getattr(sms, M)(print_global=False, poly=poly, **kw), xt, yt)
    x = S.reals("x", (npts, nx), -1, 2)
    v = sm.predict_variances(x)
    for i in range(npts):
        for j in range(ny):
            S.le("variance is not negative", 0.0, v[i, j], tol=0)


def constant(S, M="KRG", nx=1, poly="constant", corr="squar_exp", kw=None):
    """outputs that are all equal"""
    import smt.surrogate_models as sms
    xt, yt = DES[nx]
    c = S.real("c", -5, 5)
    kw = dict(kw or {})
    if M != "MGP":
        kw.update(corr=corr, theta0=[0.8] * kw.get("n_comp", nx))
    y = S.arr(np.zeros((len(xt), 1))) + c
    sm = getattr(sms, M)(print_global=False, poly=poly, **kw)
    sm.set_training_values(S.arr(xt), y)
    if S.symbolic:
        fixed_theta(S, [0.8] * kw.get("n_comp", nx))
    sm.train()
    S.minimize(None)
    p = sm.predict_values(S.arr(xt))
    v = sm.predict_variances(S.arr(xt))
    for i in range(len(xt)):
        S.eq("prediction of constant data", p[i, 0], c)
        S.eq_clipped("variance of constant data", v[i, 0], 0.0)


def obligations(tier):
    o = []

    def add(_n, fn=interp, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=80, feas_ms=200)))
    for nx in ((1, 2, 3) if tier == "thorough" else (1, 2)):
        add("KRG-train-%dd" % nx, nx=nx)
    add("KRG-train-2out", ny=2)
    add("KRG-train-linear", poly="linear", nx=2)
    for c in ("abs_exp", "matern52", "matern32"):
        add("KRG-train-%s" % c, corr=c)
    for poly in ("constant", "linear", "quadratic"):
        for nx in (1, 2, 3):
            if poly == "quadratic" and nx == 3:
                continue
            add("KRG-%s-%dd" % (poly, nx), fn=norm, poly=poly, nx=nx, big=(poly == "quadratic" and nx == 2), free=3)
        add("KRG-%s-2out" % poly, fn=norm, poly=poly, ny=2)
        for c in ("abs_exp", "matern52", "matern32"):
            add("KRG-%s-%s" % (c, poly), fn=norm, corr=c, poly=poly)
            if poly == "constant":
                add("KRG-%s-2d" % c, fn=norm, corr=c, nx=2)
        for M in ("KPLS", "KPLSK", "MGP"):
            if poly != "quadratic":
                add("%s-%s" % (M, poly), fn=norm, M=M, poly=poly, nx=2, kw=dict(n_comp=1 if M == "MGP" else 2))
    add("KRG-small-theta", fn=norm, theta=[0.05], tol=1e-5)
    add("KRG-large-theta", fn=norm, theta=[15.0])
    for poly in ("constant", "linear", "quadratic"):
        add("nonneg-KRG-%s" % poly, fn=nonneg, poly=poly)
    add("nonneg-KRG-2d", fn=nonneg, nx=2)
    for c in ("abs_exp", "matern52", "matern32"):
        add("nonneg-%s" % c, fn=nonneg, corr=c)
    add("nonneg-KPLS", fn=nonneg, M="KPLS", nx=2, kw=dict(n_comp=1))
    add("nonneg-KPLSK", fn=nonneg, M="KPLSK", nx=2, kw=dict(n_comp=1))
    add("nonneg-2out-2pts", fn=nonneg, ny=2, npts=2)
    add("nonneg-noise", fn=nonneg, kw=dict(noise0=[0.05]))
    for M, k in (("KRG", {}), ("KRG", dict(hyper_opt="TNC"))):
        for poly in ("constant", "linear"):
            add("constant-outputs-%s-%s%s" % (M, poly, "-TNC" if "hyper_opt" in k else ""), fn=constant, M=M, nx=2, poly=poly, kw=k)
    return o
