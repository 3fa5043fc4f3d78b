"""RBF, IDW, LS, QP: predicted derivatives are the derivatives of the predicted values."""
import numpy as np
from .common import *

NEEDS_CPP = True
BOUNDS = ("prediction points: all reals of [-0.5,1.5]^nx; training outputs: all reals of [-3,3]; nx 1-3, 4-8 training points at concrete "
          "positions, 1-2 outputs, 1-2 prediction points per call; RBF poly_degree -1/0/1 and scalar/list d0, IDW exponents 1,2,2.5,3")
OUTSIDE = "other training positions; points where the prediction is not differentiable (coincidence with an IDW training point is skipped)"


def scen(S, model="RBF", nx=2, ny=1, npts=1, opts=None, big=False, symy=True):
    import smt.surrogate_models as M
    xt, yt = (X2Q, Y2Q) if big else DES[nx]
    if ny == 2:
        yt = two_outputs(yt)
    if symy:
        yt = S.reals("y", yt.shape, -3, 3)
    sm = getattr(M, model)(print_global=False, **(opts or {}))
    sm.set_training_values(S.arr(xt), S.arr(yt))
    sm.train()
    x = S.reals("x", (npts, nx), -0.5, 1.5)
    f = sm.predict_values
    for k in range(nx):
        d = sm.predict_derivatives(x, k)
        S.true("derivative shape", tuple(d.shape) == (npts, ny))
        for i in range(npts):
            S.grad("derivative of prediction", f, x, (i, k), d[i], out=(i,))


def idw_at_point(S, p=2.5):
    import smt.surrogate_models as M
    sm = M.IDW(print_global=False, p=p)
    y = S.reals("y", (5, 1), -3, 3)
    sm.set_training_values(S.arr(X2), y)
    sm.train()
    for k in range(2):
        S.eq("zero derivative at a training point", sm.predict_derivatives(S.arr(X2), k), np.zeros((5, 1)))


def obligations(tier):
    o = []
    for pd in (-1, 0, 1):
        for nx in (1, 2, 3):
            o.append(dict(name="RBF-p%d-%dd" % (pd, nx), fn=scen, kwargs=dict(model="RBF", nx=nx, opts=dict(poly_degree=pd, d0=0.6))))
    o.append(dict(name="RBF-d0list", fn=scen, kwargs=dict(model="RBF", nx=2, opts=dict(poly_degree=1, d0=[0.5, 0.9]))))
    o.append(dict(name="RBF-2out-2pts", fn=scen, kwargs=dict(model="RBF", nx=2, ny=2, npts=2, opts=dict(poly_degree=1, d0=0.7))))
    for p in (1, 2, 2.5, 3):
        for nx in (1, 2):
            o.append(dict(name="IDW-p%s-%dd" % (p, nx), fn=scen, kwargs=dict(model="IDW", nx=nx, opts=dict(p=p))))
        if p > 1:
            o.append(dict(name="IDW-at-training-p%s" % p, fn=idw_at_point, kwargs=dict(p=p)))
    o.append(dict(name="IDW-2out-2pts", fn=scen, kwargs=dict(model="IDW", nx=1, ny=2, npts=2)))
    for m in ("LS", "QP"):
        for nx in (1, 2, 3):
            if m == "QP" and nx == 3:
                continue
            for ny in (1, 2):
                for npts in (1, 2, 3):
                    o.append(dict(name="%s-%dd-%dout-%dpts" % (m, nx, ny, npts), fn=scen,
                                  kwargs=dict(model=m, nx=nx, ny=ny, npts=npts, big=(nx == 2))))
    o.append(dict(name="QP-3d", fn=qp3, kwargs={}))
    if tier == "thorough":
        for pd in (-1, 0, 1):
            o.append(dict(name="RBF-T-p%d" % pd, fn=scen, kwargs=dict(model="RBF", nx=3, ny=2, npts=3, opts=dict(poly_degree=pd, d0=[0.5, 0.9, 0.7])),
                          opts=dict(time=600)))
        for p in (0.5, 1.5, 2, 4):
            o.append(dict(name="IDW-T-p%s" % p, fn=scen, kwargs=dict(model="IDW", nx=3, ny=2, npts=1, opts=dict(p=p)), opts=dict(time=600)))
            o.append(dict(name="IDW-T2-p%s" % p, fn=scen, kwargs=dict(model="IDW", nx=2, ny=1, npts=1, big=True, opts=dict(p=p)), opts=dict(time=600)))
    return o


X3Q = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [.5, 0, 0], [0, .5, 0], [0, 0, .5], [.3, .7, .2], [.8, .6, .9]], dtype=float)


def qp3(S):
    import smt.surrogate_models as M
    sm = M.QP(print_global=False)
    sm.set_training_values(S.arr(X3Q), S.reals("y", (12, 2), -3, 3))
    sm.train()
    x = S.reals("x", (2, 3), -0.5, 1.5)
    for k in range(3):
        d = sm.predict_derivatives(x, k)
        for i in range(2):
            S.grad("derivative of prediction", sm.predict_values, x, (i, k), d[i], out=(i,))
