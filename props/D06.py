"""GENN: predicted derivatives are the derivatives of the predictions; training gradients are the derivatives of the training cost."""
import numpy as np
from .common import *

BOUNDS = ("all inputs of [-2,2]^nx, all weights and biases of [-1,1], all scale factors (means in [-3,3], deviations in [0.2,3]), all targets of [-2,2], lambda in [0,2], gamma in [0,1]; "
          "1-2 inputs, 1-2 outputs, 1-2 points per call or batch, 1-2 hidden layers of 1-2 nodes")
OUTSIDE = "bigger networks and batches; overflow of exp"


def params(S, nx, ny, deep, wide):
    p = {}
    d = [nx] + [wide] * deep + [ny]
    for l in range(1, len(d)):
        p["W%d" % l] = S.reals("W%d" % l, (d[l], d[l - 1]), -1, 1)
        p["b%d" % l] = S.reals("b%d" % l, (d[l], 1), -1, 1)
    return p


def scales(S, n, nm):
    return (S.reals("mu" + nm, (n, 1), -3, 3), S.reals("sd" + nm, (n, 1), 0.2, 3))


def predict(S, nx=1, ny=1, m=1, deep=1, wide=1, scaled=True):
    """the API, on a GENN trained for zero iterations and given arbitrary weights"""
    from smt.surrogate_models import GENN
    sm = GENN(print_global=False, is_print=False, deep=deep, wide=wide, num_iterations=0, num_epochs=1)
    xt = np.array([[0., 1.], [1., .5], [.3, -1.], [.7, .2]])[:, :nx]
    sm.set_training_values(xt, np.array([[1., 2.], [0., 5.], [3., 1.], [2., 2.]])[:, :ny])
    for k in range(nx):
        sm.set_training_derivatives(xt, np.ones((4, ny)), k)
    with S.off():
        sm.train()
    sm.model.load_parameters(params(S, nx, ny, deep, wide))
    if scaled:
        sm.model._scale_factors = {"x": scales(S, nx, "x"), "y": scales(S, ny, "y")}
    x = S.reals("x", (m, nx), -2, 2)
    S.true("value shape", tuple(sm.predict_values(x).shape) == (m, ny))
    for k in range(nx):
        d = sm.predict_derivatives(x, k)
        S.true("derivative shape", tuple(d.shape) == (m, ny))
        for i in range(m):
            S.grad("derivative of prediction", sm.predict_values, x, (i, k), d[i], out=(i,))


def training(S, nx=1, ny=1, m=1, deep=1, wide=1, act="Tanh", J=True, zero=False):
    """gradients used by the optimizer for every weight and bias"""
    from smt.utils.neural_net.model import Model
    from smt.utils.neural_net import activation as A
    mod = Model.initialize(nx, ny, deep, wide)
    acts = [getattr(A, act)() for i in range(deep)] + [A.Linear()]
    p = params(S, nx, ny, deep, wide)
    x, y = S.reals("x", (nx, m), -2, 2), S.reals("y", (ny, m), -2, 2)
    dy = S.reals("dy", (ny, nx, m), -2, 2) if J else None
    lam = S.real("lambda", 0, 2)
    gam = S.real("gamma", 0.01, 1) if J and not zero else 0.0
    keys = sorted(p)
    flat = S.np.concatenate([p[k].ravel() for k in keys])

    def unflat(v):
        q, i = {}, 0
        for k in keys:
            n = p[k].size
            q[k] = v[i:i + n].reshape(p[k].shape)
            i += n
        return q

    def cost(v):
        return S.np.array([mod.cost(unflat(v), acts, x, y, dy, lam, gam)])

    # the cost is what it says: value misfit, gradient misfit, regularization
    q = unflat(flat)
    yp, dyp = forward(S, q, acts, x, nx, ny, m, act, deep)
    c = 0.5 * sum((yp[k][i] - y[k, i]) ** 2 for k in range(ny) for i in range(m))
    c = c + 0.5 * lam * sum(w * w for k in keys if k[0] == "W" for w in p[k].ravel())
    if J:
        c = c + 0.5 * gam * sum((dyp[k][j][i] - dy[k, j, i]) ** 2 for k in range(ny) for j in range(nx) for i in range(m))
    S.eq("cost", cost(flat), S.np.array([c / m]), tol=1e-6)
    g = mod.grad(q, acts, x, y, dy, lam, gam)
    i = 0
    for k in keys:
        S.true("shape of the gradient of " + k, tuple(g[k].shape) == p[k].shape)
        for j in range(p[k].size):
            S.grad("gradient of the cost w.r.t. " + k, cost, flat, (i,), g[k].ravel()[j], out=(0,))
            i += 1


def forward(S, p, acts, x, nx, ny, m, act, deep):
    e = S.np.exp
    Y, D = [[None] * m for k in range(ny)], [[[None] * m for j in range(nx)] for k in range(ny)]
    for i in range(m):
        a = [x[j, i] for j in range(nx)]
        J = [[1.0 if j == k else 0.0 for j in range(nx)] for k in range(nx)]
        for l in range(1, deep + 2):
            W, b = p["W%d" % l], p["b%d" % l]
            z = [sum(W[r, c] * a[c] for c in range(len(a))) + b[r, 0] for r in range(W.shape[0])]
            dz = [[sum(W[r, c] * J[c][j] for c in range(len(a))) for j in range(nx)] for r in range(W.shape[0])]
            if l == deep + 1:
                a, J = z, dz
            elif act == "Tanh":
                a = [(e(t) - e(-t)) / (e(t) + e(-t)) for t in z]
                J = [[dz[r][j] * (1 - a[r] ** 2) for j in range(nx)] for r in range(len(z))]
            else:
                a = [1.0 / (1.0 + e(-t)) for t in z]
                J = [[dz[r][j] * a[r] * (1 - a[r]) for j in range(nx)] for r in range(len(z))]
        for k in range(ny):
            Y[k][i] = a[k]
            for j in range(nx):
                D[k][j][i] = J[k][j]
    return Y, D


def activations(S, act="Tanh"):
    from smt.utils.neural_net import activation as A
    a = getattr(A, act)()
    z = S.reals("z", (2, 2), -3, 3)
    for i in np.ndindex(2, 2):
        S.grad("first derivative", a.evaluate, z, i, a.first_derivative(z)[i], out=i)
        S.grad("second derivative", a.first_derivative, z, i, a.second_derivative(z)[i], out=i)
    if act == "Tanh":
        e = S.np.exp
        S.eq("tanh", a.evaluate(z), (e(z) - e(-z)) / (e(z) + e(-z)))
    if act == "Sigmoid":
        S.eq("sigmoid", a.evaluate(z) * (1.0 + S.np.exp(-z)), np.ones((2, 2)))


def obligations(tier):
    o = []

    def add(_n, fn=training, _t=200, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=_t)))
    for a in ("Tanh", "Sigmoid", "Linear"):
        add("activation-" + a, fn=activations, act=a)
    T = tier != "quick"
    for nx in (1, 2):
        for ny in (1, 2):
            for m in (1, 2):
                add("predict-%dx-%dy-%dm" % (nx, ny, m), fn=predict, nx=nx, ny=ny, m=m, wide=2)
                add("train-%dx-%dy-%dm" % (nx, ny, m), nx=nx, ny=ny, m=m, wide=1)
    add("predict-deep2", fn=predict, nx=2, deep=2, wide=1)
    add("predict-deep2-wide2", fn=predict, nx=2, ny=2, m=2, deep=2, wide=2)
    add("predict-own-scales", fn=predict, nx=2, ny=2, m=2, scaled=False)
    add("train-wide2", nx=2, ny=2, m=1, wide=2)
    add("train-sigmoid", nx=2, ny=1, m=2, act="Sigmoid")
    add("train-deep2", nx=1, ny=1, m=1, deep=2)
    add("train-deep2-2d", nx=2, ny=1, m=1, deep=2)
    add("train-no-J", nx=2, ny=2, m=2, J=False)
    add("train-gamma0", nx=2, ny=1, m=2, zero=True)
    if T:
        add("train-deep2-2d-2m", nx=2, ny=1, m=2, deep=2, _t=900)
        add("train-wide2-2m", nx=2, ny=2, m=2, wide=2, _t=900)
        add("train-deep2-wide2", nx=2, ny=1, m=1, deep=2, wide=2, _t=900)
        add("train-deep3", nx=1, ny=1, m=1, deep=3, wide=1, _t=900)
        add("train-3m", nx=2, ny=2, m=3, _t=900)
        add("predict-3d", fn=predict, nx=2, ny=2, m=3, deep=3, wide=2, _t=900)
    return o
