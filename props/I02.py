"""RMTB / RMTC: partition of unity, constants reproduced, continuity across element boundaries and into the extrapolation region."""
import copy
import numpy as np
from .rmts_common import *

NEEDS_CPP = True
BOUNDS = ("all points of the domain and up to half a width outside it; continuity: every element boundary and domain bound, all distances up to a third of an element, other coordinates all reals of the domain; "
          "every unit coefficient vector (the prediction is linear in the coefficients, so all coefficient values follow), RMTB orders 1-5 with 1-5 elements, RMTC 1-4 elements, 1-3 dimensions")
OUTSIDE = "gradient continuity into the extrapolation region (documented as only continuous in value); rounding"
ASSUMPTIONS = ["a jump is excluded by a Lipschitz bound (1000 per element width) at all distances, the boundary excluded and included"]


def units(sm, model):
    if model == "RMTB":
        n = sm.sol_coeff.shape[0]
        return n, lambda j: np.eye(n)[:, j:j + 1]
    n = sm.full_dof2coeff.shape[1]
    return n, lambda j: np.asarray((sm.full_dof2coeff * np.eye(n)[:, j:j + 1]))


def elems(sm, model, k):
    o = sm.options
    return int(o["num_elements"][k]) if model == "RMTC" else int(o["num_ctrl_pts"][k]) - int(o["order"][k]) + 1


def coord(S, name, k, ext=False):
    a, b = LIMS[k]
    e = 0.5 * (b - a) if ext else 0
    return S.real(name, a - e, b + e)


def unity(S, model="RMTB", nx=1, ext=False, neg=True, **kw):
    """ones give one everywhere; each basis function is nonnegative on the domain"""
    sm = copy.copy(trained(S, model, nx, extrapolate=ext, **kw))
    n, unit = units(sm, model)
    x = S.np.array([[coord(S, "x%d" % k, k, ext) for k in range(nx)]])
    if model == "RMTB":
        sm.sol_coeff = np.ones((n, 1))
        S.eq("sum of the basis", sm.predict_values(x)[0, 0], 1.0)
        for k in range(nx):
            S.eq("sum of the basis derivatives", sm.predict_derivatives(x, k)[0, 0], 0.0)
        if not neg:
            return
        for j in range(n):
            sm.sol_coeff = unit(j)
            v = sm.predict_values(x)[0, 0]
            S.le("basis nonnegative", 0.0, v)


def constants(S, model="RMTB", nx=1, ext=False, ny=1, **kw):
    """training on a constant gives that constant"""
    def go():
        sm = make(model, nx, extrapolate=ext, **kw)
        x = grid(nx, 4)
        sm.set_training_values(x, np.full((len(x), ny), 2.5) + np.arange(ny))
        sm.train()
        return sm
    sm = S.concretely("c", go)
    x = S.np.array([[coord(S, "x%d" % k, k, ext) for k in range(nx)]])
    S.eq("constant", sm.predict_values(x)[0], 2.5 + np.arange(ny), tol=1e-5)
    for k in range(nx):
        S.eq("derivative of a constant", sm.predict_derivatives(x, k)[0], 0.0, tol=1e-4)


def cont(S, model="RMTB", nx=1, k=0, smooth=0, ext=False, allj=True, bound=False, **kw):
    """across each boundary of direction k"""
    sm = copy.copy(trained(S, model, nx, extrapolate=ext, **kw))
    n, unit = units(sm, model)
    ne = elems(sm, model, k)
    a, b = LIMS[k]
    h = (b - a) / ne
    e = S.pick("boundary", [0, ne] if bound else list(range(1, ne))) if (bound or ne > 2) else 1
    sm.sol_coeff = unit(S.pick("unit", list(range(n)))) if allj else np.sin(np.arange(1.0, sm.sol_coeff.shape[0] + 1))[:, None] if model == "RMTB" else np.asarray(sm.full_dof2coeff * np.sin(np.arange(1.0, n + 1))[:, None])
    t = S.real("t", 0, h / 3)
    at = a + e * h

    def X(v):
        return S.np.array([[v if i == k else x0[i] for i in range(nx)]])
    x0 = [None if i == k else coord(S, "x%d" % i, i) for i in range(nx)]
    fs = [("value", lambda z: sm.predict_values(z)[0, 0], 1.0)]
    if smooth >= 1:
        for d in range(nx):
            w = LIMS[d, 1] - LIMS[d, 0]
            fs.append(("derivative %d" % d, lambda z, d=d: sm.predict_derivatives(z, d)[0, 0], elems(sm, model, d) / w))
    for nm, f, sc in fs:
        f0, fp, fm = f(X(at + 0 * t)), f(X(at + t)), f(X(at - t))
        L = 1000 * sc / h
        for side, v in (("above", fp), ("below", fm)):
            if smooth >= 2:
                continue
            S.le("%s continuous" % nm, v - f0, L * t)
            S.le("%s continuous" % nm, f0 - v, L * t)
        if smooth >= 2:
            q = fp - 2 * f0 + fm
            S.le("%s smooth" % nm, q, L / h * t * t)
            S.le("%s smooth" % nm, -q, L / h * t * t)


def obligations(tier):
    o = []
    T = tier != "quick"

    def add(_n, fn=unity, _t=250, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=_t, max_paths=6000, witnesses=1)))
    for order, nc in ((1, 3), (2, 2), (2, 4), (3, 3), (3, 6), (4, 5), (4, 8), (5, 6)):
        add("unity-%d-%d" % (order, nc), order=order, num_ctrl_pts=nc)
        if order > 1:
            add("unity-ext-%d-%d" % (order, nc), ext=True, neg=False, order=order, num_ctrl_pts=nc)
            add("const-%d-%d" % (order, nc), fn=constants, ext=True, order=order, num_ctrl_pts=nc)
        if nc > order > 1:
            add("cont-%d-%d" % (order, nc), fn=cont, order=order, num_ctrl_pts=nc, smooth=0)
            if order > 2:
                add("cont-d-%d-%d" % (order, nc), fn=cont, order=order, num_ctrl_pts=nc, smooth=1)
            if order > 3:
                add("cont-dd-%d-%d" % (order, nc), fn=cont, order=order, num_ctrl_pts=nc, smooth=2)
        if order > 1:
            for e in (False, True):
                add("bound-%s-%d-%d" % (e, order, nc), fn=cont, bound=True, ext=e, order=order, num_ctrl_pts=nc)
    add("unity-2d", nx=2, order=[2, 3], num_ctrl_pts=[4, 4])
    add("unity-2d-ext", nx=2, order=[3, 2], num_ctrl_pts=[3, 4], ext=True, neg=False)
    add("unity-3d", nx=3, order=[2, 2, 2], num_ctrl_pts=[2, 3, 2], neg=False)
    add("const-2d", fn=constants, nx=2, order=[3, 4], num_ctrl_pts=[4, 5], ny=2)
    add("const-2d-ext", fn=constants, nx=2, order=3, num_ctrl_pts=4, ext=True)
    for k in (0, 1):
        add("cont-2d-%d" % k, fn=cont, nx=2, k=k, order=[3, 3], num_ctrl_pts=[5, 4], smooth=1, allj=T, _t=1200 if T else 250)
        add("cont-2d-2-%d" % k, fn=cont, nx=2, k=k, order=[2, 2], num_ctrl_pts=[3, 4], smooth=0)
        for e in (False, True):
            add("bound-2d-%d-%s" % (k, e), fn=cont, nx=2, k=k, order=[3, 2], num_ctrl_pts=[3, 3], bound=True, ext=e, allj=not e or T)
    for ne in (1, 2, 4):
        add("rmtc-const-%d" % ne, fn=constants, model="RMTC", ext=True, num_elements=ne)
        if ne > 1:
            add("rmtc-cont-%d" % ne, fn=cont, model="RMTC", num_elements=ne, smooth=1)
        for e in (False, True):
            add("rmtc-bound-%d-%s" % (ne, e), fn=cont, model="RMTC", num_elements=ne, bound=True, ext=e)
    add("rmtc-const-2d", fn=constants, model="RMTC", nx=2, num_elements=[2, 1], ext=True, ny=2)
    for k, ne in ((0, [2, 1]), (1, [1, 3])):
        add("rmtc-cont-2d-%d" % k, fn=cont, model="RMTC", nx=2, k=k, num_elements=ne, smooth=1)
        add("rmtc-cont-2dv-%d" % k, fn=cont, model="RMTC", nx=2, k=k, num_elements=ne, smooth=0)
        for e in (False, True):
            add("rmtc-bound-2d-%d-%s" % (k, e), fn=cont, model="RMTC", nx=2, k=k, num_elements=1, bound=True, ext=e, allj=T, _t=1200 if T else 250)
    if T:
        for k in range(3):
            add("cont-3d-%d" % k, fn=cont, nx=3, k=k, order=2, num_ctrl_pts=3, _t=1500)
            add("rmtc-cont-3d-%d" % k, fn=cont, model="RMTC", nx=3, k=k, num_elements=2, allj=False, smooth=1, _t=1500)
    return o
