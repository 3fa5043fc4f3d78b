"""Derivatives with respect to training outputs equal the sensitivity of the retrained prediction."""
import numpy as np
from .common import *
from .rmts_common import LIMS, grid, fun

NEEDS_CPP = True
BOUNDS = ("prediction points: all reals of a box around the data; change of the training outputs: all reals of [-3,3] (all outputs at once for IDW and "
          "RBF, one symbolic amount per training output for RMTB/RMTC); nx 1-2, 4-5 training points, 1-2 outputs, 1-2 points per call")
OUTSIDE = "RMTB/RMTC with approx_order other than 2 (training is then not linear in the outputs, so no exact statement exists); other training positions"
ASSUMPTIONS = ["RMTB/RMTC: the two models (original and changed outputs) are trained with approx_order=2, solver lu"]


def linear(S, model="RBF", nx=2, ny=1, npts=1, opts=None):
    import smt.surrogate_models as M
    xt, yt = DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    y0 = S.reals("y", yt.shape, -3, 3)
    dy = S.reals("dy", yt.shape, -3, 3)

    def model_(y):
        sm = getattr(M, model)(print_global=False, **(opts or {}))
        sm.set_training_values(S.arr(xt), y)
        sm.train()
        return sm
    a = model_(y0)
    b = model_(y0 + dy)
    x = S.reals("x", (npts, nx), -0.5, 1.5)
    D = a.predict_output_derivatives(x)[None]
    S.true("shape of the output derivatives", tuple(D.shape) == (npts, xt.shape[0], ny))
    va, vb = a.predict_values(x), b.predict_values(x)
    for i in range(npts):
        for j in range(ny):
            s = sum(D[i, t, j] * dy[t, j] for t in range(xt.shape[0]))
            S.eq("sensitivity to every training output", vb[i, j] - va[i, j], s, tol=1e-6)


def rmts(S, model="RMTB", nx=1, ny=1, npts=1, m=4, ext=False, der=False, kw=None):
    import smt.surrogate_models as M
    kw = dict(kw or {}, approx_order=2, solver="lu", derivative_solver="lu", print_global=False, regularization_weight=1e-3,
              energy_weight=1e-2, nonlinear_maxiter=3, extrapolate=ext)

    def data():
        x = grid(nx, m)
        y = fun(x)
        if ny == 2:
            y = np.hstack([y, y ** 2 - 1])
        g = [np.cos(x[:, [k]]) * np.ones((1, ny)) for k in range(nx)]
        return x, y, g

    def build(key, t=None, c=None, kx=None):
        def go():
            x, y, g = data()
            if t is not None:
                if kx is None:
                    y[t, c] += 1.0
                else:
                    g[kx][t, c] += 1.0
            sm = getattr(M, model)(xlimits=LIMS[:nx].copy(), **kw)
            sm.set_training_values(x, y)
            if der:
                for k in range(nx):
                    sm.set_training_derivatives(x, g[k], k)
            sm.train()
            return sm
        return S.concretely(key, go)
    a = build("a")
    w = LIMS[:nx, 1] - LIMS[:nx, 0]
    e = 0.4 if ext else 0.0
    x = np.empty((npts, nx), dtype=object)
    for i in range(npts):
        for k in range(nx):
            x[i, k] = S.real("x[%d,%d]" % (i, k), LIMS[k, 0] - e * w[k], LIMS[k, 1] + e * w[k])
    x = S.arr(x)
    D = a.predict_output_derivatives(x)
    nt = m ** nx
    va = a.predict_values(x)
    for kx in [None] + (list(range(nx)) if der else []):
        S.true("shape of the output derivatives", tuple(D[kx].shape) == (npts, nt, ny))
        for t in range(nt):
            for c in range(ny):
                b = build("b%s,%d,%d" % (kx, t, c), t, c, kx)
                vb = b.predict_values(x)
                for i in range(npts):
                    for j in range(ny):
                        S.eq("sensitivity to one training output", vb[i, j] - va[i, j], D[kx][i, t, c] if c == j else 0.0, tol=1e-6)


def obligations(tier):
    o = []
    for p in (1, 2, 2.5, 3):
        o.append(dict(name="IDW-p%s" % p, fn=linear, kwargs=dict(model="IDW", nx=1 if p in (2.5, 3) else 2, opts=dict(p=p))))
    o.append(dict(name="IDW-2out-2pts", fn=linear, kwargs=dict(model="IDW", nx=1, ny=2, npts=2)))
    for pd in (-1, 0, 1):
        o.append(dict(name="RBF-p%d" % pd, fn=linear, kwargs=dict(model="RBF", nx=2, opts=dict(poly_degree=pd, d0=0.6))))
        o.append(dict(name="RBF-2out-2pts-p%d" % pd, fn=linear, kwargs=dict(model="RBF", nx=1, ny=2, npts=2, opts=dict(poly_degree=pd, d0=0.6, reg=1e-2))))
    t = dict(time=250)
    for m, k1, k2 in (("RMTB", dict(order=3, num_ctrl_pts=5), dict(order=[3, 2], num_ctrl_pts=[4, 3])), ("RMTC", dict(num_elements=2), dict(num_elements=[2, 1]))):
        o.append(dict(name=m + "-1d", fn=rmts, kwargs=dict(model=m, kw=k1), opts=t))
        o.append(dict(name=m + "-1d-2out-2pts", fn=rmts, kwargs=dict(model=m, ny=2, npts=2, kw=k1), opts=t))
        o.append(dict(name=m + "-1d-ext", fn=rmts, kwargs=dict(model=m, ext=True, kw=k1), opts=t))
        o.append(dict(name=m + "-2d", fn=rmts, kwargs=dict(model=m, nx=2, m=3, kw=k2), opts=t))
        o.append(dict(name=m + "-1d-gradient-data", fn=rmts, kwargs=dict(model=m, der=True, kw=k1), opts=t))
        o.append(dict(name=m + "-noenergy", fn=rmts, kwargs=dict(model=m, kw=dict(k1, min_energy=False)), opts=t))
    return o
