"""Gradient and Hessian of the reduced likelihood (and MGP hyperparameter sensitivities) are exact derivatives."""
import numpy as np
from .krg_common import *

BOUNDS = ("training outputs: all reals of [-3,3] at the listed hyperparameters (3-8 points, 1-2 inputs, every kernel, every trend); and all hyperparameters "
          "of [0.05,5] for 2-3 points with one input; MGP: prediction point symbolic as well")
OUTSIDE = "several outputs at once and estimated noise (the gradient-based optimizer does not support them: known finding); other designs"
ASSUMPTIONS = ["correlation matrices are positive definite and the trend matrix is well conditioned (the code returns minus infinity otherwise)"]
X13 = np.array([[0.0], [0.4], [1.0]])


def model(S, M, nx, kw, big=False, nt=None):
    import smt.surrogate_models as sms
    xt, yt = (X2Q, Y2Q) if big else DES[nx]
    if nt:
        xt, yt = xt[:nt], yt[:nt]

    def go():
        sm = getattr(sms, M)(print_global=False, **{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})
        sm.set_training_values(xt, yt)
        sm.train()
        return sm
    sm = S.concretely("m", go)
    return sm, xt, yt


def rlf(S, sm, th):
    sm.best_iteration_fail = None
    v = sm._reduced_likelihood_function(th)[0]
    return S.np.ravel(v)[0] if isinstance(v, np.ndarray) else v


def at_theta(S, M="KRG", nx=1, corr=None, poly="constant", theta=(0.6,), big=False, kw=None, hess=True, symy=True, free=9, nt=None):
    kw = dict(kw or {})
    if corr:
        kw["corr"] = corr
    if M != "MGP":
        kw["theta0"] = [0.5] * (kw.get("n_comp", nx) if M == "KPLS" else nx)
    sm, xt, yt = model(S, M, nx, dict(kw, poly=poly), big, nt)
    S.numerator = True
    if symy:
        y = S.reals("y", (xt.shape[0], 1), -1, 1)
        y0 = sm.y_norma
        y[0, 0], y[1, 0] = 1.0, -0.5      # the likelihood surface is invariant to shift and scale of the outputs
        for i in range(2 + free, len(y)):
            y[i, 0] = float(y0[i, 0])
        sm.y_norma = y
    n = len(theta)
    th = S.arr(np.array(theta, dtype=float))

    def call(f, t):
        sm.best_iteration_fail = None
        return f(t)
    try:
        g, par = call(sm._reduced_likelihood_gradient, th)
        S.true("gradient shape", tuple(g.shape) == (n, 1))
        if hess:
            H, ij, par = call(sm._reduced_likelihood_hessian, th)
            ij = np.asarray(ij, dtype=int)
            S.true("Hessian index pairs", sorted(map(tuple, ij.tolist())) == [(a, b) for a in range(n) for b in range(a, n)])
        for k in range(n):
            u = np.eye(n)[k]
            S.eq("gradient of the reduced likelihood", g[k, 0], S.dirderiv("t%d" % k, lambda e: rlf(S, sm, th + u * e)), tol=1e-5)
        if hess:
            for r, (a, b) in enumerate(ij):
                u = np.eye(n)[b]
                S.eq("Hessian of the reduced likelihood", H[r, 0],
                     S.dirderiv("t%d" % b, lambda e: call(sm._reduced_likelihood_gradient, th + u * e)[0][int(a), 0]), tol=1e-5)
    finally:
        if symy:
            sm.y_norma = y0


def all_theta(S, nt=2, corr="squar_exp", hess=True):
    """every hyperparameter value, concrete outputs"""
    S.numerator = True
    sm, xt, yt = model(S, "KRG", 1, dict(theta0=[0.5], corr=corr), nt=nt)
    th = S.reals("theta", (1,), 0.05, 5)
    sm.best_iteration_fail = None
    g, par = sm._reduced_likelihood_gradient(th)

    def f(t):
        return rlf(S, sm, t)
    S.grad("gradient of the reduced likelihood", f, th, (0,), g[0, 0], tol=1e-5)
    if hess:
        sm.best_iteration_fail = None
        H, ij, par = sm._reduced_likelihood_hessian(th)

        def gr(t):
            sm.best_iteration_fail = None
            return sm._reduced_likelihood_gradient(t)[0][0, 0]
        S.grad("Hessian of the reduced likelihood", gr, th, (0,), H[0, 0], tol=1e-5)


def mgp(S, nx=2, n_comp=1, theta=(0.6, -0.4), poly="constant", npts=1, what="mean", xs=None):
    """MGP: derivatives of the mean and of the variance with respect to the hyperparameters"""
    S.numerator = xs is not None
    sm, xt, yt = model(S, "MGP", nx, dict(n_comp=n_comp, theta0=list(theta), poly=poly))
    if xs is None:
        x = S.reals("x", (npts, nx), -1.5, 1.5)          # standardized
    else:
        x = S.arr(np.array([xs], dtype=float))
        y0 = sm.y_norma
        y = S.reals("y", (len(y0), 1), -1, 1)
        y[0, 0], y[1, 0] = 1.0, -0.5
        for i in range(4, len(y0)):
            y[i, 0] = float(y0[i, 0])
        sm.y_norma = y
    n = len(theta)
    th = S.arr(np.array(theta, dtype=float))
    keep = sm.optimal_theta, sm.optimal_par

    def setp(t, deriv=False):
        sm.best_iteration_fail = None
        sm.optimal_theta = t
        sm.optimal_par = (sm._reduced_likelihood_hessian(t)[2] if deriv else sm._reduced_likelihood_function(t)[1])

    def mean(t, i):
        setp(t)
        xr = x * sm.X_scale + sm.X_offset
        return ((sm.predict_values(xr) - sm.y_mean) / sm.y_std)[i]

    def var(t, i):
        # variance: closed form with the parameters at t
        setp(t)
        p = sm.optimal_par
        from smt.utils.kriging_utils import differences
        d = differences(x, sm.X_norma)
        r = sm._correlation_types["act_exp"](t, d).reshape(npts, sm.nt)[i]
        C, G, Ft = p["C"], p["G"], p["Ft"]
        import scipy.linalg
        la = S.la
        rt = la.solve_triangular(C, r.reshape(-1, 1), lower=True)
        f = sm._regression_types[poly](x)[i].reshape(-1, 1)
        u = la.solve_triangular(G.T, f - np.dot(Ft.T, rt), lower=True)
        return (p["sigma2"] * (1.0 - (rt ** 2).sum() + (u ** 2).sum()))[0]
    try:
        setp(th, True)
        if what == "mean":
            D = sm._predict_value_derivatives_hyper(x)
        else:
            D, V = sm._predict_variance_derivatives_hyper(x)
        S.true("shape", tuple(D.shape) == (n, npts))
        for k in range(n):
            u = np.eye(n)[k]
            for i in range(npts):
                if what == "mean":
                    S.eq("sensitivity of the mean to a hyperparameter", D[k, i], S.dirderiv("t%d" % k, lambda e: mean(th + u * e, i)), tol=1e-5)
                elif not S.clipped(V[i]):
                    S.eq("sensitivity of the variance to a hyperparameter", D[k, i], S.dirderiv("t%d" % k, lambda e: var(th + u * e, i)), tol=1e-5)
    finally:
        sm.optimal_theta, sm.optimal_par = keep
        if xs is not None:
            sm.y_norma = y0


def obligations(tier):
    o = []

    def add(_n, fn=at_theta, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=120, feas_ms=300, chol_pos='silent')))
    big = tier == "thorough"
    for c in ("squar_exp", "abs_exp", "matern52", "matern32"):
        add("grad-%s-1d" % c, nx=1, corr=c)
        add("grad-%s-2d" % c, nx=2, corr=c, theta=(0.6, 1.3))
        if "exp" in c or big:
            add("theta-%s" % c, fn=all_theta, corr=c)
    add("grad-linear-1d", nx=1, poly="linear")
    add("grad-linear-2d", nx=2, poly="linear", theta=(0.6, 1.3))
    add("grad-quadratic-1d", nx=1, poly="quadratic", theta=(1.7,))
    add("grad-quadratic-2d", nx=2, poly="quadratic", theta=(0.6, 1.3), big=True, free=9 if big else 2)
    add("grad-noise", nx=1, kw=dict(noise0=[0.05]))
    add("grad-3d", nx=3, theta=(0.6, 1.3, 0.2), free=2)
    add("grad-KPLS", M="KPLS", nx=2, kw=dict(n_comp=1), theta=(0.4,))
    add("grad-KPLS2", M="KPLS", nx=3, kw=dict(n_comp=2), theta=(0.4, 0.9), free=2)
    add("grad-MGP1", M="MGP", nx=2, kw=dict(n_comp=1, theta0=[0.6, -0.4]), theta=(0.6, -0.4), free=1)
    add("grad-MGP2", M="MGP", nx=2, kw=dict(n_comp=2, theta0=[0.6, -0.4, 0.1, 0.8]), theta=(0.6, -0.4, 0.1, 0.8), free=1)
    for poly in ("constant", "linear"):
        for w in ("mean", "variance"):
            if w == "mean" or big:
                add("MGP-%s-%s" % (w, poly), fn=mgp, poly=poly, what=w)
        add("MGP-variance-%s-y" % poly, fn=mgp, poly=poly, what="variance", xs=(0.3, -0.4))
    add("MGP-mean-2", fn=mgp, n_comp=2, theta=(0.6, -0.4, 0.1, 0.8))
    add("MGP-variance-2-y", fn=mgp, n_comp=2, theta=(0.6, -0.4, 0.1, 0.8), what="variance", xs=(0.7, 0.2))
    add("MGP-mean-2pts", fn=mgp, npts=2)
    return o
