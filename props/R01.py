"""RMTB / RMTC training returns the minimizer of the documented objective."""
import numpy as np
from .common import *
from .rmts_common import LIMS, grid, fun

NEEDS_CPP = True
DIRS = 2
BOUNDS = ("training outputs (and training derivatives): all reals of [-3,3]; nx 1-2, 4-9 training points, 1-2 outputs, RMTB orders 2-4 with 3-7 control points, RMTC 1-3 elements; "
          "smoothness, energy weight, regularization weight and gradient weight: the values listed in obligations()")
OUTSIDE = "other training positions; for approx_order 4 only the optimizer's functions (objective, gradient, Hessian) at all coefficients, not the converged result of the Newton iteration"
ASSUMPTIONS = ["solver lu (the Krylov and multigrid solvers are compared with it in L01)", "basis functions are those the trained model itself predicts with (their derivative: D03, continuity: I02)"]


def make(S, model, nx, kw):
    import smt.surrogate_models as M
    o = dict(print_global=False, xlimits=LIMS[:nx].copy(), solver="lu", approx_order=2, nonlinear_maxiter=3)
    o.update({k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})
    return getattr(M, model)(**o)


def give(m, x, y, ders):
    m.set_training_values(x, y)
    for k, d in enumerate(ders):
        if d is not None:
            m.set_training_derivatives(x, d, k)


def basis(S, model, nx, x, kw, ders):
    """values and first derivatives at the training points, second derivatives at the quadrature points, of every basis function"""
    def go():
        m = make(S, model, nx, kw)
        give(m, x, fun(x), ders)
        m.train()
        n = m.sol.shape[0]

        def each(f):
            cols = []
            for j in range(n):
                e = np.zeros((n, 1))
                e[j] = 1.0
                m.sol_coeff = e if m.full_dof2coeff is None else m.full_dof2coeff * e
                cols.append(f())
            return np.hstack(cols)
        q, h = [], []
        for k in range(nx):
            o = kw.get("order", 3)
            o = o[k] if isinstance(o, list) else o
            e = kw["num_elements"] if model == "RMTC" else kw["num_ctrl_pts"]
            e = e[k] if isinstance(e, list) else e
            ne = 2 * (e if model == "RMTC" else e - o + 1)
            w = LIMS[k, 1] - LIMS[k, 0]
            q.append(LIMS[k, 0] + w * (np.arange(ne) + 0.5) / ne)
            h.append(w / ne / 4)
        Q = np.array([v.ravel() for v in np.meshgrid(*q, indexing="ij")]).T
        two = []
        for k in range(nx):
            d = np.zeros(nx)
            d[k] = h[k]
            # exact: the first derivative is at most quadratic inside an element
            two.append(each(lambda: (m.predict_derivatives(Q + d, k) - m.predict_derivatives(Q - d, k)) / (2 * h[k])))
        return each(lambda: m.predict_values(x)), [each(lambda: m.predict_derivatives(x, k)) for k in range(nx)], two
    return S.concretely("basis", go)


def matrices(nx, B, B2, kw):
    nw = B.shape[1]
    s = kw.get("smoothness", 1.0)
    s = s if isinstance(s, list) else [s] * nx
    H = kw.get("regularization_weight", 1e-14) * np.eye(nw)
    if kw.get("min_energy", True):
        for k in range(nx):
            H = H + kw.get("energy_weight", 1e-4) * s[k] * B2[k].T.dot(B2[k]) / len(B2[k])
    return H, kw.get("grad_weight", 0.5) / nx


def functions(S, model="RMTB", nx=1, m=3, der=(), p=2, kw=None, tol=1e-7):
    """objective, gradient and Hessian handed to the optimizer, at every coefficient vector and for all data"""
    kw = dict(kw or {}, approx_order=p)
    x = grid(nx, m)
    nt = len(x)
    B, B1, B2 = basis(S, model, nx, x, kw, [np.ones((nt, 1)) if k in der else None for k in range(nx)])

    sm = make(S, model, nx, dict(kw, approx_order=2))
    give(sm, S.arr(x), S.arr(fun(x)), [S.arr(np.ones((nt, 1))) if k in der else None for k in range(nx)])
    sm.train()
    nw = B.shape[1]
    w = S.reals("w", (nw,), -2, 2)
    y = S.reals("y", (nt,), -3, 3)
    yt = {0: y}
    terms = [(1.0, B, y)]
    H, c = matrices(nx, B, B2, kw)
    for k in der:
        yt[k + 1] = S.reals("d%d" % k, (nt,), -3, 3)
        terms.append((c, B1[k], yt[k + 1]))
    r = [(a, M, [sum(float(M[t, i]) * w[i] for i in range(nw) if M[t, i]) - v[t] for t in range(nt)]) for a, M, v in terms]
    Hw = [sum(float(H[i, k]) * w[k] for k in range(nw) if H[i, k]) for i in range(nw)]
    f = 0.5 * sum(w[i] * Hw[i] for i in range(nw)) + sum(0.5 * a * e ** p for a, M, l in r for e in l)
    S.eq("objective", sm._opt_func(w, p, yt), f, tol)
    g = sm._opt_grad(w, p, yt)
    h = sm._opt_hess(w, p, yt)
    h = h.toarray() if hasattr(h, "toarray") else h
    for i in range(nw):
        S.eq("gradient", g[i], Hw[i] + sum(0.5 * a * p * float(M[t, i]) * l[t] ** (p - 1) for a, M, l in r for t in range(nt) if M[t, i]), tol)
        for k in range(nw):
            S.eq("Hessian", h[i, k], float(H[i, k]) + sum(0.5 * a * p * (p - 1) * float(M[t, i] * M[t, k]) * l[t] ** (p - 2) for a, M, l in r for t in range(nt) if M[t, i] * M[t, k]), tol)


def quad(S, model="RMTB", nx=1, ny=1, m=4, der=(), kw=None, tol=1e-6):
    kw = dict(kw or {})
    x = grid(nx, m)
    nt = len(x)
    real = [np.ones((nt, ny)) if k in der else None for k in range(nx)]
    B, B1, B2 = basis(S, model, nx, x, kw, [None if d is None else d[:, :1] for d in real])
    t = S.real("t", -3, 3)
    d = S.pick("direction", list(range(DIRS)))
    g = np.random.RandomState(d)
    y = S.arr(np.round(g.rand(nt, ny) * 4 - 2, 2)) + t * S.arr(np.round(g.rand(nt, ny) * 2 - 1, 2))
    ders = [S.arr(np.round(g.rand(nt, ny) * 4 - 2, 2)) + t * S.arr(np.round(g.rand(nt, ny) * 2 - 1, 2)) if k in der else None for k in range(nx)]
    sm = make(S, model, nx, kw)
    give(sm, S.arr(x), y, ders)
    sm.train()
    w = sm.sol
    nw = B.shape[1]
    S.true("one coefficient per basis function", tuple(w.shape) == (nw, ny))
    H, c = matrices(nx, B, B2, kw)
    A = H + B.T.dot(B)
    for k in der:
        A = A + c * B1[k].T.dot(B1[k])
    for j in range(ny):
        for i in range(nw):
            lhs = sum(float(A[i, k]) * w[k, j] for k in range(nw) if A[i, k] != 0)
            rhs = sum(float(B[t, i]) * y[t, j] for t in range(nt))
            for k in der:
                rhs = rhs + sum(c * float(B1[k][t, i]) * ders[k][t, j] for t in range(nt))
            S.eq("gradient of the objective at the returned coefficients is zero", lhs, rhs, tol=tol)


def obligations(tier):
    o = []

    def add(_n, fn=quad, _o=None, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(dict(time=200, max_paths=50, witnesses=2), **(_o or {}))))
    W = dict(regularization_weight=1e-3, energy_weight=1e-2)
    for p in (2, 3, 4):
        add("RMTB-order%d" % p, kw=dict(W, order=p, num_ctrl_pts=6))
    add("RMTB-default", kw=dict(num_ctrl_pts=6))
    add("RMTC-default", model="RMTC", kw=dict(num_elements=2))
    for model, k1, k2 in (("RMTB", dict(order=3, num_ctrl_pts=5), dict(order=[3, 2], num_ctrl_pts=[4, 3])), ("RMTC", dict(num_elements=2), dict(num_elements=[2, 1]))):
        add(model + "-1d", model=model, kw=dict(W, **k1))
        add(model + "-1d-2out", model=model, ny=2, kw=dict(W, **k1))
        add(model + "-smooth", model=model, kw=dict(W, smoothness=4.0, **k1))
        add(model + "-noenergy", model=model, kw=dict(W, min_energy=False, **k1))
        add(model + "-2d", model=model, nx=2, m=3, kw=dict(W, **k2))
        add(model + "-2d-smooth", model=model, nx=2, m=3, kw=dict(W, smoothness=[3.0, 0.5], **k2))
        for g in (0.5, 2.0):
            add(model + "-grad-%s" % g, model=model, der=(0,), kw=dict(W, grad_weight=g, **k1))
        add(model + "-2d-grad", model=model, nx=2, m=2, der=(0, 1), kw=dict(W, grad_weight=1.5, **dict(k2, num_ctrl_pts=3, order=2) if model == "RMTB" else k2))
        add(model + "-2d-grad1", model=model, nx=2, m=2, der=(1,), kw=dict(W, grad_weight=1.5, **k2))
        for p in (2, 4):
            add("%s-functions-%d" % (model, p), fn=functions, model=model, p=p, kw=dict(W, **k1))
            add("%s-functions-grad-%d" % (model, p), fn=functions, model=model, p=p, m=2, der=(0,), kw=dict(W, **k1))
            add("%s-functions-2d-grad-%d" % (model, p), fn=functions, model=model, nx=2, m=2, p=p, der=(0, 1), kw=dict(W, smoothness=[2.0, 0.5], **k2))
    return o
