"""Kriging variance derivatives are the derivatives of the predicted variance."""
import numpy as np
from .krg_common import *

BOUNDS = ("prediction point: all reals of [-0.5,1.5]^nx, nx 1-3; 4-8 concrete training points, 1-2 outputs; every correlation, constant and linear trends "
          "(the quadratic trend must refuse), homoscedastic and heteroscedastic noise, KRG, KPLS, KPLSK, GEKPLS")
OUTSIDE = "other training sets; points where the variance is clipped to zero; batches (the method takes one point)"
ASSUMPTIONS = ["training runs concretely on the real libraries"]


def scen(S, corr="squar_exp", poly="constant", nx=2, ny=1, model="KRG", kw=None, q=False, tol=1e-6):
    import smt.surrogate_models as M
    xt, yt = (X2Q, Y2Q) if q else DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    kw = dict(kw or {})
    der = None
    kw.setdefault("theta0", [0.7] * (nx if model == "KRG" else 2))
    if model != "KRG":
        kw["n_comp"] = 2
    if model == "GEKPLS":
        kw.update(xlimits=np.array([[-0.1, 1.1]] * nx), delta_x=0.1, extra_points=1)
        der = [np.cos((kx + 1.0) * xt[:, [0]]) + 0.3 * xt[:, [-1]] for kx in range(nx)]
    for k in ("theta0", "noise0"):
        if k in kw:
            kw[k] = list(kw[k])
    sm = trained(S, "t", lambda: getattr(M, model)(corr=corr, poly=poly, **kw), xt, yt, der)
    x = S.reals("x", (1, nx), -0.5, 1.5)
    try:
        d = sm.predict_variance_derivatives(x)
    except ValueError:
        S.true("refusal only for the quadratic trend", poly == "quadratic")
        return
    S.true("shape", tuple(d.shape) == (ny, nx))
    f = sm.predict_variances
    v = f(x)
    for j in range(ny):
        if S.clipped(v[0, j]):
            continue
        for k in range(nx):
            S.grad("derivative of the variance", f, x, (0, k), d[j, k], out=(0, j), tol=tol)


def obligations(tier):
    o = []

    def add(_n, **k):
        o.append(dict(name=_n, fn=scen, kwargs=k, opts=dict(time=150, feas_ms=150)))
    for c in ("squar_exp", "abs_exp", "matern52", "matern32"):
        for poly in ("constant", "linear"):
            for nx in (1, 2):
                if nx == 2 and (c != "squar_exp" and poly == "linear" or c == "matern52") and tier == "quick":
                    continue
                add("KRG-%s-%s-%d" % (c, poly, nx), corr=c, poly=poly, nx=nx)
    add("KRG-3d", nx=3)
    add("KRG-quadratic", poly="quadratic", nx=1)
    add("KRG-2out", nx=1, ny=2)
    add("KRG-2out-linear", nx=2, ny=2, poly="linear")
    add("KRG-noise", nx=1, kw=dict(noise0=[0.05]))
    add("KRG-het", nx=1, poly="linear", kw=dict(noise0=[0.01, 0.2, 0.05, 0.1], use_het_noise=True))
    add("KRG-nugget", nx=2, kw=dict(nugget=1e-2))
    for m in ("KPLS", "KPLSK", "GEKPLS"):
        for poly in ("constant", "linear"):
            add("%s-%s" % (m, poly), model=m, poly=poly, nx=2, tol=1e-4 if m == "GEKPLS" else 1e-6, kw=dict(nugget=1e-3) if m == "GEKPLS" else None)
    add("KPLS-abs", model="KPLS", corr="abs_exp", nx=2)
    add("KPLS-3d", model="KPLS", nx=3)
    return o
