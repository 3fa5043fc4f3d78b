"""MFK: autoregressive recursion, interpolation of the top level, variances."""
import numpy as np
from .krg_common import *
from .D05 import XA, lo, mid, hi

BOUNDS = ("prediction points: all reals of [-0.5,1.5]^nx; 2-3 fidelity levels, 1-2 inputs, 10/8/6 points per level, nested and non-nested designs, constant/linear/quadratic trend "
          "and scale factor, all correlations; top-level outputs symbolic (all reals of [-3,3]) in the -sy obligations")
OUTSIDE = "other designs and hyperparameters; MFKPLS/MFKPLSK variance formula (only its zero is checked); the sign of the variance away from the training points (the formula itself is checked)"
ASSUMPTIONS = ["the hyperparameter optimizer is scripted to return the listed values", "linear algebra on symbolic right-hand sides is exact"]
NUG = 100.0 * np.finfo(np.double).eps


def data(nx, levels, nested):
    X = XA[:, :nx]
    sets = []
    for i, f in enumerate([lo, mid][:levels - 1]):
        xt = X[i:10 - i]
        if not nested and i == 0:
            xt = X + 0.037
        sets.append((xt, f(xt)))
    xt = X[2:8]
    sets.append((xt, hi(xt)))
    return sets


def train(S, model, nx, levels, kw, nested):
    from smt.applications import MFK
    from smt.applications.mfkpls import MFKPLS
    from smt.applications.mfkplsk import MFKPLSK
    cls = dict(MFK=MFK, MFKPLS=MFKPLS, MFKPLSK=MFKPLSK)[model]

    def go():
        sm = cls(print_global=False, **kw)
        D = data(nx, levels, nested)
        for i, (x, y) in enumerate(D[:-1]):
            sm.set_training_values(x, y, name=i)
        sm.set_training_values(*D[-1])
        calls = [0]

        def mini(fun, x0, *a, **k):
            l = calls[0] // (2 if model == "MFKPLSK" else 1)
            calls[0] += 1
            return {"fun": 0.0, "x": np.log10(thetas(len(x0), levels)[l]), "success": True}
        S.minimize(mini)
        try:
            sm.train()
        finally:
            S.minimize(None)
        return sm
    return S.concretely("m", go)


def thetas(n, levels):
    """scripted hyperparameters that keep the correlation matrices well conditioned"""
    base = 9.0 if n == 1 else 1.5
    return [np.array([base * (1 + 0.2 * l) * (1 + 0.3 * k) for k in range(n)]) for l in range(levels)]


class Oracle:
    def __init__(self, D, thetas, corr, poly, rho, noise=0.0):
        X = np.concatenate([d[0] for d in D])
        Y = np.concatenate([d[1] for d in D])
        self.mu, self.sd = X.mean(axis=0), X.std(axis=0, ddof=1)
        self.ym, self.ys = Y.mean(), Y.std(ddof=1)
        self.corr, self.poly, self.rho, self.th = corr, poly, rho, thetas
        self.L = []
        for l, (x, y) in enumerate(D):
            Z, v = (x - self.mu) / self.sd, (y - self.ym) / self.ys
            n = len(Z)
            R = np.array([corr_np(NPO, corr, thetas[l], Z[i] - Z) for i in range(n)]) + np.eye(n) * (NUG + noise)
            F = basis(NPO, poly, Z)
            q = 0
            if l:
                low = np.array([self.mean(NPO, z, l - 1) for z in Z])
                Fr = basis(NPO, rho, Z)
                q = Fr.shape[1]
                F = np.hstack([Fr * low[:, None], F])
            Ri = np.linalg.inv(R)
            A = np.linalg.inv(F.T @ Ri @ F)
            b = (A @ F.T @ Ri @ v).ravel()
            res = v.ravel() - F @ b
            self.L.append(dict(Z=Z, F=F, Ri=Ri, A=A, b=b, g=Ri @ res, q=q, s2=res @ Ri @ res / (n - F.shape[1]) if True else 0))

    def reg(self, S, z, l):
        f = basis(S, self.poly, z.reshape(1, -1))[0]
        g = None
        if l:
            g = basis(S, self.rho, z.reshape(1, -1))[0]
            f = S.np.concatenate([g * self.mean(S, z, l - 1), f])
        return f, g

    def mean(self, S, z, l):
        P = self.L[l]
        f, _ = self.reg(S, z, l)
        return f @ P['b'] + corr_np(S, self.corr, self.th[l], z - P['Z']) @ P['g']

    def var(self, S, z, l):
        P = self.L[l]
        f, g = self.reg(S, z, l)
        r = corr_np(S, self.corr, self.th[l], z - P['Z'])
        u = f - r @ (P['Ri'] @ P['F'])
        v = P['s2'] * (1.0 - r @ (P['Ri'] @ r) + u @ (P['A'] @ u))
        if l:
            q = P['q']
            B = P['s2'] * P['A'][:q, :q] + np.outer(P['b'][:q], P['b'][:q])
            v = v + (g @ (B @ g)) * self.var(S, z, l - 1)
        return v


def scen(S, nx=1, levels=2, kw=None, nested=True, npts=1, var=False):
    kw = dict(kw or {})
    sm = train(S, "MFK", nx, levels, kw, nested)
    D = data(nx, levels, nested)
    o = Oracle(D, [np.ravel(t) for t in sm.optimal_theta], kw.get("corr", "squar_exp"), kw.get("poly", "constant"), kw.get("rho_regr", "constant"),
               kw.get("noise0", [0.0])[0] if "noise0" in kw else 0.0)
    x = S.reals("x", (npts, nx), -0.5, 1.5)
    z = (x - o.mu) / o.sd
    p = sm.predict_values(x)
    S.true("shape", tuple(p.shape) == (npts, 1))
    if var:
        V = sm.predict_variances_all_levels(x)[0]
        v = sm.predict_variances(x)
        S.true("shape of variance", tuple(v.shape) == (npts, 1))
    for i in range(npts):
        S.eq("top level prediction", p[i, 0], o.ym + o.ys * o.mean(S, z[i], levels - 1), tol=1e-5)
        for l in range(levels):
            S.eq("prediction of level %d" % l, sm._predict_intermediate_values(x, l + 1)[i, 0], o.ym + o.ys * o.mean(S, z[i], l), tol=1e-5)
        if var:
            for l in range(levels):
                S.eq("variance of level %d" % l, V[i, l], o.ys ** 2 * o.var(S, z[i], l), tol=1e-5)
            S.eq("variance is that of the top level", v[i, 0], V[i, levels - 1])


def at_data(S, model="MFK", nx=1, levels=2, kw=None):
    """nested noise-free data: interpolation and zero variance at every top-level point; non-negative elsewhere"""
    kw = dict(kw or {})
    sm = train(S, model, nx, levels, kw, True)
    xt, yt = data(nx, levels, True)[-1]
    k = S.pick("training point", list(range(len(xt))))
    d = S.reals("d", (1, nx), -1e-9, 1e-9)
    x = S.arr(xt[[k]]) + d
    S.eq("prediction at (within 1e-9 of) a top-level training point", sm.predict_values(x)[0, 0], float(yt[k, 0]), tol=1e-5)
    S.eq("variance at (within 1e-9 of) a top-level training point", sm.predict_variances(x)[0, 0], 0.0, tol=1e-5)


def symy(S, levels=2, poly="constant", nx=1, corr="squar_exp"):
    """normalized top-level outputs symbolic, level trained by the repository: top data reproduced, lower levels unaffected"""
    kw = dict(poly=poly, corr=corr)
    sm = train(S, "MFK", nx, levels, kw, True)
    D = data(nx, levels, True)
    xt = D[-1][0]
    top = levels - 1
    sm._check_param()
    keep = sm.y_norma_all[top], sm.optimal_par[top], sm.F_all[top], sm.options["theta0"], sm.options["noise0"]
    n = len(xt)
    y = S.reals("y", (n, 1), -1, 1)
    y[0, 0], y[1, 0] = 1.0, -0.5
    th = thetas(nx, levels)
    low = [[sm._predict_intermediate_values(np.array([[0.13] * nx, [0.81] * nx]), l + 1) for l in range(top)]]
    try:
        sm.y_norma_all[top] = y
        S.minimize(lambda fun, x0, *a, **k: {"fun": 0.0, "x": np.log10(th[top]), "success": True})
        sm._new_train_iteration(top)
        S.minimize(None)
        sm.options["theta0"], sm.options["noise0"] = keep[3], keep[4]
        p = sm.predict_values(S.arr(xt))
        for i in range(n):
            S.eq("top-level data reproduced", (p[i, 0] - sm.y_mean) / sm.y_std, y[i, 0], tol=1e-5)
        low.append([sm._predict_intermediate_values(S.arr(np.array([[0.13] * nx, [0.81] * nx])), l + 1) for l in range(top)])
        for l in range(top):
            for i in range(2):
                S.eq("a lower level does not depend on top-level data", low[1][l][i, 0], float(low[0][l][i, 0]), tol=1e-8)
    finally:
        S.minimize(None)
        sm.y_norma_all[top], sm.optimal_par[top], sm.F_all[top], sm.options["theta0"], sm.options["noise0"] = keep


def obligations(tier):
    o = []

    def add(_n, fn=scen, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=90, feas_ms=200)))
    for levels in (2, 3):
        for poly in ("constant", "linear"):
            for nx in (1, 2):
                if poly == "linear" and (nx, levels) == (2, 3):
                    continue
                add("MFK-%d-%s-%dd" % (levels, poly, nx), nx=nx, levels=levels, kw=dict(poly=poly), var=(nx == 1))
        add("MFK-%d-not-nested" % levels, levels=levels, nested=False)
        add("sy-%d" % levels, fn=symy, levels=levels)
        add("sy-linear-%d" % levels, fn=symy, levels=levels, poly="linear")
        for m in ("MFK", "MFKPLS", "MFKPLSK"):
            kw = dict(n_comp=1, theta0=[1e-2]) if m != "MFK" else {}
            if m != "MFK" and levels == 3 and tier == "quick":
                continue
            add("data-%s-%d" % (m, levels), fn=at_data, model=m, levels=levels, nx=2, kw=kw)
    add("data-linear", fn=at_data, kw=dict(poly="linear"), nx=2)
    for r in ("linear", "quadratic"):
        add("MFK-rho-%s" % r, kw=dict(rho_regr=r), var=(r == "linear"))
        if r == "linear":
            add("data-rho-%s" % r, fn=at_data, kw=dict(rho_regr=r))
    add("MFK-quadratic", kw=dict(poly="quadratic"))
    for c in ("abs_exp", "matern52", "matern32"):
        add("MFK-%s" % c, kw=dict(corr=c))
    add("MFK-noise", kw=dict(noise0=[0.05]))
    add("MFK-2pts", npts=2, nx=2)
    return o
