"""Kriging family: predicted derivatives are the derivatives of the predicted values."""
import numpy as np
from .common import *

BOUNDS = ("prediction point: all reals of a box 0.5 around the unit training domain, dimension 1-3; training sets of 4-8 concrete points; "
          "every correlation that supports derivatives (squared exponential; others must refuse), all trends, KRG/KPLS/KPLSK/GEKPLS, 1-2 outputs")
OUTSIDE = "other training sets, hyperparameters other than those the trained optimizer selects"
ASSUMPTIONS = ["training runs concretely on the real libraries; prediction and its derivative are symbolic in the prediction point"]


def scen(S, model="KRG", corr="squar_exp", poly="constant", nx=2, ny=1, npts=1, q=False, opts=None):
    from smt.surrogate_models import KRG, KPLS, KPLSK, GEKPLS
    cls = dict(KRG=KRG, KPLS=KPLS, KPLSK=KPLSK, GEKPLS=GEKPLS)[model]
    xt, yt = (X2Q, Y2Q) if q else DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    kw = dict(opts or {})
    der = None
    if model == "KRG":
        kw.setdefault("theta0", [0.7] * nx)
    else:
        kw.setdefault("theta0", [0.7] * kw.get("n_comp", 1))
        kw.setdefault("n_comp", 1)
    if model == "GEKPLS":
        kw["xlimits"] = np.array([[-0.1, 1.1]] * nx)
        kw["delta_x"] = 0.05
        kw.setdefault("extra_points", 1)
        der = [np.cos((kx + 1.0) * xt[:, [0]]) + 0.3 * xt[:, [-1]] for kx in range(nx)]
    sm = trained(S, "t", lambda: cls(corr=corr, poly=poly, **kw), xt, yt, der)
    x = S.reals("x", (npts, nx), -0.5, 1.5)
    f = sm.predict_values
    for k in range(nx):
        try:
            d = sm.predict_derivatives(x, k)
        except ValueError:
            # documented: derivatives exist for the squared exponential kernel and constant or linear trends only
            S.true("refusal only where derivatives are unavailable", corr != "squar_exp" or poly == "quadratic")
            continue
        S.true("derivative shape", tuple(d.shape) == (npts, ny))
        for i in range(npts):
            S.grad("derivative of prediction", f, x, (i, k), d[i], out=(i,))


def obligations(tier):
    o = []
    for poly in ("constant", "linear", "quadratic"):
        for nx in (1, 2, 3):
            if poly == "quadratic" and nx == 3:
                continue
            o.append(dict(name="KRG-%s-%dd" % (poly, nx), fn=scen, kwargs=dict(poly=poly, nx=nx, q=(poly == "quadratic" and nx == 2))))
    o.append(dict(name="KRG-batch2", fn=scen, kwargs=dict(nx=2, npts=2)))
    for c in ("abs_exp", "matern52", "matern32"):
        o.append(dict(name="KRG-%s" % c, fn=scen, kwargs=dict(corr=c, nx=2)))
    o.append(dict(name="KRG-2out", fn=scen, kwargs=dict(nx=2, ny=2)))
    for m in ("KPLS", "KPLSK", "GEKPLS"):
        for poly in ("constant", "linear", "quadratic"):
            o.append(dict(name="%s-%s" % (m, poly), fn=scen, kwargs=dict(model=m, poly=poly, nx=2, q=True)))
        o.append(dict(name="%s-3d" % m, fn=scen, kwargs=dict(model=m, nx=3, opts=dict(n_comp=2))))
    return o
