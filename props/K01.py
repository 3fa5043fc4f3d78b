"""Kriging mean and variance are the universal-Kriging BLUP for the selected hyperparameters."""
import numpy as np
from .krg_common import *

BOUNDS = ("prediction points: all reals of [-0.5,1.5]^nx; training outputs: all reals of [-3,3] (symbolic) in the -sy obligations, concrete otherwise; "
          "nx 1-3, 4-8 training points, 1-2 outputs, 1-2 points per call; all four correlations, all three trends, homoscedastic and heteroscedastic noise")
OUTSIDE = "other training inputs and hyperparameters; numerically singular correlation matrices; training outputs that lie (almost) exactly in the span of the trend (training then fails with a zero process variance)"
ASSUMPTIONS = ["the hyperparameter optimizer is scripted to return the listed theta in the symbolic-output obligations",
               "correlation matrices are the concrete floating-point ones; the linear algebra on symbolic right-hand sides is exact"]
NOISE0 = 100.0 * np.finfo(np.double).eps


def scen(S, corr="squar_exp", poly="constant", nx=2, ny=1, npts=1, big=False, symy=False, var=True, theta=0.8, model="KRG", kw=None):
    import smt.surrogate_models as M
    xt, yt = (X2Q, Y2Q) if big else DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    kw = dict(kw or {})
    th = np.array([theta * (1 + 0.3 * k) for k in range(nx)])
    noise = kw.get("noise0", [0.0])
    nz = kw.get("nugget", NOISE0) + np.asarray(noise, dtype=float) * np.ones(len(xt))

    def make():
        if model == "KRG":
            return M.KRG(print_global=False, corr=corr, poly=poly, theta0=list(th), **dict(kw, noise0=list(noise)))
        return getattr(M, model)(print_global=False, corr=corr, poly=poly, theta0=[theta] * 2, n_comp=2, **kw)
    if symy:
        y = S.reals("y", yt.shape, -3, 3)
        for j in range(ny):
            S.assume(y[0, j] >= y[1, j] + 0.1)      # outputs that are not all equal
        sm = make()
        sm.set_training_values(S.arr(xt), y)
        fixed_theta(S, th)
        sm.train()
        S.minimize(None)
    else:
        y = yt

        def go():
            sm = make()
            sm.set_training_values(xt, yt)
            sm.train()
            return sm
        sm = S.concretely("m", go)
        t = np.asarray(sm.optimal_theta, dtype=float).ravel()
        if model == "KPLS":
            C = np.asarray(sm.coeff_pls, dtype=float)
            t = (t * (C ** 2 if corr == "squar_exp" else np.abs(C))).sum(axis=1)
        th = t
    W = weights(corr, th, poly, xt, nz)
    x = S.reals("x", (npts, nx), -0.5, 1.5)
    m = sm.predict_values(x)
    mo, vo = predictor(S, corr, th, poly, W, y, x)
    S.true("shape of the prediction", tuple(m.shape) == (npts, ny))
    for i in range(npts):
        for j in range(ny):
            S.eq("mean is the BLUP", m[i, j], mo[i][j])
    if var:
        v = sm.predict_variances(x)
        S.true("shape of the variance", tuple(v.shape) == (npts, ny))
        for i in range(npts):
            for j in range(ny):
                s2, b = vo[i]
                e = s2[j] * b
                S.eq_clipped("variance is the kriging mean-square error", v[i, j], e, tol=1e-6)


def het(S, nx=1):
    """heteroscedastic noise estimated from repeated points: kriging of the averaged outputs"""
    import smt.surrogate_models as M
    xu, _ = DES[nx]
    reps = [1, 2, 3, 2, 1, 2][:len(xu)]
    xt = np.repeat(xu, reps, axis=0)
    yt = np.array([[np.sin(4 * v[0]) + 0.1 * ((i * 7) % 5 - 2)] for i, v in enumerate(xt)])

    def go():
        sm = M.KRG(print_global=False, theta0=[0.8] * nx, eval_noise=True, use_het_noise=True)
        sm.set_training_values(xt, yt)
        sm.train()
        return sm
    sm = S.concretely("m", go)
    mu, sd = xt.mean(axis=0), xt.std(axis=0, ddof=1)
    ym, ys = yt.mean(), yt.std(ddof=1)
    o = np.lexsort(xu.T[::-1])
    Z = (xu[o] - mu) / sd
    yb, nz = [], []
    for v in xu[o]:
        g = (yt[np.all(xt == v, axis=1), 0] - ym) / ys
        yb.append(g.mean())
        s = g.var(ddof=1) if len(g) > 1 else 0.0
        nz.append((s if s else np.atleast_1d(sm.options["noise0"])[0]) / len(g))
    th = np.asarray(sm.optimal_theta, dtype=float).ravel()
    n = len(Z)
    R = np.array([corr_np(NPO, "squar_exp", th, Z[i] - Z) for i in range(n)]) + np.diag(nz)
    Ri = np.linalg.inv(R)
    F = np.ones((n, 1))
    B = np.linalg.inv(F.T @ Ri @ F) @ F.T @ Ri
    g = Ri @ (np.eye(n) - F @ B) @ np.array(yb)
    x = S.reals("x", (1, nx), -0.5, 1.5)
    z = (x - mu) / sd
    r = corr_np(S, "squar_exp", th, z[0] - Z)
    S.eq("mean with estimated heteroscedastic noise", sm.predict_values(x)[0, 0], ym + ys * (float((B @ np.array(yb))[0]) + r @ g), tol=1e-6)


def obligations(tier):
    o = []

    def add(name, fn=scen, **k):
        o.append(dict(name=name, fn=fn, kwargs=k, opts=dict(time=80, feas_ms=200)))
    for poly in ("constant", "linear", "quadratic"):
        for nx in (1, 2, 3):
            if poly == "quadratic" and nx == 3:
                continue
            add("KRG-%s-%dd" % (poly, nx), poly=poly, nx=nx, big=(poly == "quadratic" and nx == 2), var=not (poly == "quadratic" and nx == 2))
        add("KRG-%s-sy" % poly, poly=poly, nx=1, symy=True, var=False)
        add("KRG-%s-2d-sy" % poly, poly=poly, nx=2, symy=True, var=False, big=(poly == "quadratic"))
    for c in ("abs_exp", "matern52", "matern32"):
        for poly in ("constant", "linear"):
            add("KRG-%s-%s" % (c, poly), corr=c, poly=poly, nx=1)
        add("KRG-%s-2d" % c, corr=c, nx=2, var=False)
        add("KRG-%s-sy" % c, corr=c, nx=1, symy=True, var=False)
    add("KRG-2out-2pts", nx=1, ny=2, npts=2)
    add("KRG-2out-sy", nx=1, ny=2, symy=True, var=False)
    add("KRG-linear-2pts", poly="linear", nx=1, npts=2)
    add("KRG-noise", nx=1, poly="linear", kw=dict(noise0=[0.05]))
    add("KRG-noise-sy", nx=1, symy=True, kw=dict(noise0=[0.05]), var=False)
    add("KRG-nugget", nx=2, kw=dict(nugget=1e-3))
    add("KRG-het", nx=1, kw=dict(noise0=[0.01, 0.2, 0.05, 0.1], use_het_noise=True))
    add("KRG-het-linear", nx=2, poly="linear", kw=dict(noise0=[0.01, 0.2, 0.05, 0.1, 0.02], use_het_noise=True))
    add("KRG-het-estimated", fn=het)
    for poly in ("constant", "linear"):
        add("KPLS-%s" % poly, model="KPLS", poly=poly, nx=2)
        add("KPLSK-%s" % poly, model="KPLSK", poly=poly, nx=2)
    add("KPLS-abs_exp", model="KPLS", corr="abs_exp", nx=2, var=False)
    return o
