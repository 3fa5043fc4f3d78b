"""RMTB / RMTC: predicted derivatives are the derivatives of the predicted values."""
import numpy as np
from .rmts_common import *

NEEDS_CPP = True
BOUNDS = ("prediction points: all reals of the domain enlarged by half its width on each side (outside only with extrapolate=True), spline "
          "coefficients: all reals of [-3,3] (every training result) or those of a concrete training; nx 1-3, RMTB orders 2-5 and 3-7 control "
          "points, RMTC 1-4 elements, 1-2 points per call, 1-2 outputs")
OUTSIDE = ("element boundaries (equality paths) and points within 1e-9 widths of a domain bound where the piecewise function need not be differentiable; points "
           "outside the bounds when extrapolate=False (the value is clamped, no derivative is defined by the documentation)")
ASSUMPTIONS = ["training runs concretely; the trained spline coefficients are then replaced by free symbols where stated (symcoef)"]


def scen(S, model="RMTB", nx=1, ny=1, npts=1, ext=False, symcoef=True, kw=None):
    kw = dict(kw or {})
    if ext:
        kw["extrapolate"] = True
    sm = trained(S, model, nx, ny=ny, **kw)
    if symcoef and isinstance(getattr(sm, "sol_coeff", None), np.ndarray):
        import copy
        sm = copy.copy(sm)
        sm.sol_coeff = S.reals("c", sm.sol_coeff.shape, -3, 3)
    w = LIMS[:nx, 1] - LIMS[:nx, 0]
    e = 0.5 if ext else -1e-9
    x = np.empty((npts, nx), dtype=object)
    for i in range(npts):
        for k in range(nx):
            x[i, k] = S.real("x[%d,%d]" % (i, k), LIMS[k, 0] - e * w[k], LIMS[k, 1] + e * w[k])
            if ext:
                for b in LIMS[k]:
                    S.assume(S.OR(x[i, k] <= b - 1e-9 * w[k], x[i, k] >= b + 1e-9 * w[k]))
    x = S.arr(x)
    for k in range(nx):
        d = sm.predict_derivatives(x, k)
        S.true("derivative shape", tuple(d.shape) == (npts, ny))
        for i in range(npts):
            S.grad("derivative of prediction", sm.predict_values, x, (i, k), d[i], out=(i,))


def obligations(tier):
    o = []

    def add(name, **kw):
        o.append(dict(name=name, fn=scen, kwargs=kw, opts=dict(time=250, max_paths=4000, witnesses=2)))
    for ext in (False, True):
        e = "-ext" if ext else ""
        for order, nc in ((2, 4), (3, 4), (3, 6), (4, 5), (5, 6)):
            add("RMTB-1d-o%d-c%d%s" % (order, nc, e), model="RMTB", nx=1, ext=ext, kw=dict(order=order, num_ctrl_pts=nc))
        add("RMTB-2d%s" % e, model="RMTB", nx=2, ext=ext, kw=dict(order=[3, 4], num_ctrl_pts=[4, 5]))
        add("RMTB-2d-trained%s" % e, model="RMTB", nx=2, ext=ext, symcoef=False, kw=dict(order=[4, 3], num_ctrl_pts=[5, 4]))
        add("RMTB-3d%s" % e, model="RMTB", nx=3, ext=ext, symcoef=False, kw=dict(order=[3, 2, 3], num_ctrl_pts=[3, 3, 3]))
        for ne in (1, 3):
            add("RMTC-1d-%d%s" % (ne, e), model="RMTC", nx=1, ext=ext, kw=dict(num_elements=ne))
        add("RMTC-2d%s" % e, model="RMTC", nx=2, ext=ext, kw=dict(num_elements=[2, 1]))
        add("RMTC-2d-trained%s" % e, model="RMTC", nx=2, ext=ext, symcoef=False, kw=dict(num_elements=[2, 3]))
        add("RMTC-3d%s" % e, model="RMTC", nx=3, ext=ext, symcoef=False, kw=dict(num_elements=1))
    add("RMTB-2out-2pts", model="RMTB", nx=1, ny=2, npts=2, kw=dict(order=3, num_ctrl_pts=4))
    add("RMTC-2out-2pts", model="RMTC", nx=1, ny=2, npts=2, kw=dict(num_elements=2))
    add("RMTB-2pts-ext", model="RMTB", nx=1, npts=2, ext=True, kw=dict(order=3, num_ctrl_pts=4))
    add("RMTC-2pts-ext", model="RMTC", nx=1, npts=2, ext=True, kw=dict(num_elements=2))
    return o
