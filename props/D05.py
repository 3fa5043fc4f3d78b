"""Multi-fidelity models: predicted derivatives are the derivatives of the predicted values."""
import numpy as np
from .common import *

NEEDS_CPP = True
BOUNDS = ("prediction points: all reals of [-0.5,1.5]^nx, nx 1-3, 1-2 points per call; 2 and 3 fidelity levels; MFK/MFKPLS/MFKPLSK with constant "
          "and linear trends; VFM with additive and multiplicative bridges over every pair of surrogates listed in obligations()")
OUTSIDE = "other training sets; hyperparameters other than those of the concrete training run"
ASSUMPTIONS = ["training runs concretely; prediction and derivative are symbolic in the prediction point"]

XA = np.array([[0.0, 0.1, .3], [1.0, 0.5, .9], [0.3, 0.9, .6], [0.7, 0.2, .1], [0.5, 0.6, .8], [0.1, 0.7, .2], [0.9, 0.95, .5], [0.45, 0.05, .7],
               [0.2, 0.4, 0.0], [0.8, 0.75, 1.0]])


def lo(x):
    return (np.sin(3 * x).sum(axis=1) + x[:, 0] ** 2).reshape(-1, 1)


def mid(x):
    return (1.3 * lo(x) + 0.3 * x[:, [-1]])


def hi(x):
    return (1.7 * lo(x) - 0.5 * x[:, [0]] + 0.2 * np.cos(4 * x[:, [-1]]))


def mf_model(S, model, nx, levels, kw):
    from smt.applications import MFK
    from smt.applications.mfkpls import MFKPLS
    from smt.applications.mfkplsk import MFKPLSK
    cls = dict(MFK=MFK, MFKPLS=MFKPLS, MFKPLSK=MFKPLSK)[model]

    def go():
        X = XA[:, :nx]
        sm = cls(print_global=False, **kw)
        n = 0
        fs = [lo, mid][:levels - 1]
        for i, f in enumerate(fs):
            xt = X[i:10 - i]
            sm.set_training_values(xt, f(xt), name=i)
        xt = X[2:8] if nx < 3 else X[1:8]
        sm.set_training_values(xt, hi(xt))
        sm.train()
        return sm
    return S.concretely("m", go)


def scen(S, model="MFK", nx=2, levels=2, npts=1, kw=None):
    kw = dict(kw or {})
    sm = mf_model(S, model, nx, levels, kw)
    x = S.reals("x", (npts, nx), -0.5, 1.5)
    for k in range(nx):
        try:
            d = sm.predict_derivatives(x, k)
        except ValueError:
            ok = kw.get("corr", "squar_exp") != "squar_exp" or kw.get("poly") == "quadratic" or kw.get("rho_regr", "constant") != "constant"
            S.true("refusal only where derivatives are unavailable", ok)
            continue
        S.true("derivative shape", tuple(d.shape) == (npts, 1))
        for i in range(npts):
            S.grad("derivative of prediction", sm.predict_values, x, (i, k), d[i], out=(i,))


def vfm(S, lf="KRG", br="KRG", kind="Additive", nx=2, npts=1, olf=None, obr=None, der=False, tol=1e-6):
    from smt.applications import VFM

    def go():
        X = XA[:, :nx]
        kw = {}
        if der:
            e = 1e-6
            kw["dy_LF"] = np.hstack([(lo(X + e * np.eye(nx)[k]) - lo(X)) / e for k in range(nx)])
            kw["dy_HF"] = np.hstack([(hi(X[2:8] + e * np.eye(nx)[k]) - hi(X[2:8])) / e for k in range(nx)])
        m = VFM(type_bridge=kind, name_model_LF=lf, name_model_bridge=br, X_LF=X, y_LF=lo(X) + 3, X_HF=X[2:8], y_HF=hi(X[2:8]) + 3,
                options_LF=dict(olf or {}), options_bridge=dict(obr or {}, print_global=False), **kw)
        m._apply()
        return m
    m = S.concretely("m", go)
    x = S.reals("x", (npts, nx), -0.25, 1.25)
    f = m.predict_values
    for k in range(nx):
        d = m.predict_derivatives(x, k)
        for i in range(npts):
            S.grad("derivative of prediction", f, x, (i, k), d[i], out=(i,), tol=tol)
    S.eq("all directions at once", m.predict_derivatives(x, None), S.np.hstack([m.predict_derivatives(x, k) for k in range(nx)]))


def obligations(tier):
    o = []
    for levels in (2, 3):
        for poly in ("constant", "linear", "quadratic"):
            for nx in ((1, 2, 3) if poly != "quadratic" else (1,)):
                if poly == "linear" and nx == 3 and levels == 3:
                    continue
                o.append(dict(name="MFK-%dlvl-%s-%dd" % (levels, poly, nx), fn=scen, kwargs=dict(nx=nx, levels=levels, kw=dict(poly=poly)), opts=dict(may_be_empty=True)))
    for r in ("linear", "quadratic"):
        o.append(dict(name="MFK-rho-%s" % r, fn=scen, kwargs=dict(nx=1, kw=dict(rho_regr=r))))
    for c in ("abs_exp", "matern52", "matern32"):
        o.append(dict(name="MFK-%s" % c, fn=scen, kwargs=dict(nx=1, kw=dict(corr=c))))
    for m in ("MFKPLS", "MFKPLSK"):
        for poly in ("constant", "linear"):
            for nc in (1, 2):
                o.append(dict(name="%s-%s-%dc" % (m, poly, nc), fn=scen,
                              kwargs=dict(model=m, nx=2, kw=dict(poly=poly, n_comp=nc, theta0=[1e-2] * (nc if m == "MFKPLS" else nc)))))
        o.append(dict(name="%s-3lvl" % m, fn=scen, kwargs=dict(model=m, nx=2, levels=3, kw=dict(n_comp=1, theta0=[1e-2]))))
    o.append(dict(name="MFK-2pts", fn=scen, kwargs=dict(nx=2, npts=2)))
    for kind in ("Additive", "Multiplicative"):
        for lf, br, olf, obr in (("KRG", "KRG", dict(theta0=[.5]), dict(theta0=[.5])), ("LS", "KRG", {}, dict(theta0=[.5])), ("QP", "RBF", {}, dict(d0=.8)),
                                 ("RBF", "LS", dict(d0=.8, poly_degree=1), {}), ("KPLS", "IDW", dict(theta0=[.5]), {}), ("LS", "QP", {}, {}),
                                 ("KRG", "KPLSK", dict(theta0=[.5], poly="linear"), dict(theta0=[.5]))):
            o.append(dict(name="VFM-%s-%s-%s" % (kind, lf, br), fn=vfm, kwargs=dict(lf=lf, br=br, kind=kind, olf=olf, obr=obr, nx=1 if br == 'IDW' else 2)))
        o.append(dict(name="VFM-%s-GEKPLS" % kind, fn=vfm, kwargs=dict(
            lf="GEKPLS" if kind == "Additive" else "LS", br="GEKPLS", kind=kind, der=True, tol=1e-4,
            olf=dict(xlimits=np.array([[0., 1], [0, 1]]), extra_points=1, theta0=[.5], deriv=True) if kind == "Additive" else {},
            obr=dict(xlimits=np.array([[0., 1], [0, 1]]), extra_points=1, theta0=[.5], deriv=True))))
    return o
