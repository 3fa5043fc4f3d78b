"""GENN: training-data handling loses nothing; optimizer updates follow their formulas with the user's parameters."""
import numpy as np
from .common import *

BOUNDS = ("data: all reals of [-5,5] (inputs and outputs also constant), 1-2 inputs, 1-2 outputs, 1-4 points; every shuffle; batch sizes 1-5; "
          "optimizers: every start, gradient and cost history (arbitrary cost and gradient function values), learning rate in [0.01,1], both decay rates in (0,1), 1-2 iterations")
OUTSIDE = "more points; more than two optimizer iterations; rounding (the 2.2e-16 in Adam's denominator counts as given)"
ASSUMPTIONS = ["the cost function is deterministic"]


def normalization(S, nx=2, ny=2, m=3, J=True, constx=(), consty=()):
    from smt.utils.neural_net.data import normalize_data
    from smt.utils.neural_net.model import Model
    X, Y = S.reals("X", (nx, m), -5, 5), S.reals("Y", (ny, m), -5, 5)
    for i in range(nx):
        if i in constx:
            X[i, :] = S.np.repeat(X[i, 0], m) if m > 1 else X[i, :]
        elif m > 1:
            S.assume(X[i, 1] > X[i, 0] + 0.1)
    for i in range(ny):
        if i in consty:
            Y[i, :] = S.np.repeat(Y[i, 0], m) if m > 1 else Y[i, :]
        elif m > 1:
            S.assume(Y[i, 1] > Y[i, 0] + 0.1)
    dY = S.reals("J", (ny, nx, m), -5, 5) if J else None
    Xn, Yn, Jn, mx, sx, my, sy = normalize_data(X, Y, dY)
    for i in range(nx):
        S.eq("inputs recovered", Xn[i] * sx[i] + mx[i], X[i])
        S.eq("mean of the normalized inputs", sum(Xn[i]), 0.0)
        if i not in constx and m > 1:
            S.eq("spread of the normalized inputs", sum(v * v for v in Xn[i]), float(m))
    for i in range(ny):
        S.eq("outputs recovered", Yn[i] * sy[i] + my[i], Y[i])
        S.eq("mean of the normalized outputs", sum(Yn[i]), 0.0)
        if i not in consty and m > 1:
            S.eq("spread of the normalized outputs", sum(v * v for v in Yn[i]), float(m))
    if J:
        for i in range(ny):
            for j in range(nx):
                S.eq("gradients scaled by the chain rule", Jn[i, j] * sy[i], dY[i, j] * sx[j])
    mod = Model.initialize(nx, ny, 1, 2)
    mod._load_training_data(X, Y, dY)
    if J:
        X2, Y2, J2 = mod.training_data
        S.eq("training inputs recovered", X2, X)
        S.eq("training outputs recovered", Y2, Y)
        S.eq("training gradients recovered", J2, dY)


def batches(S, m=4, size=2, J=True, seed=None):
    """every shuffle: the batches are a partition of the points, of the requested size except for the last"""
    from smt.utils.neural_net.data import random_mini_batches
    X, Y = S.reals("X", (2, m), -5, 5), S.reals("Y", (2, m), -5, 5)
    dY = S.reals("J", (2, 2, m), -5, 5) if J else None
    S.rng()
    bs = random_mini_batches(X, Y, dY, size, seed)
    S.rng(False)
    n = [b[0].shape[1] for b in bs]
    S.true("every point is in a batch", sum(n) == m)
    S.true("batch sizes", all(k == min(size, m) for k in n[:-1]) and 0 < n[-1] <= min(size, m))
    S.true("no partial batch before the last", len(n) == -(-m // min(size, m)))
    left = list(range(m))
    for bx, by, bj in bs:
        S.true("batch shapes", bx.shape[1] == by.shape[1] and (bj is None if not J else bj.shape == (2, 2, bx.shape[1])))
        for c in range(bx.shape[1]):
            hit = None
            for i in left:      # a point of the data set not seen so far (structural first: the same values)
                if all(same(bx[r, c], X[r, i]) for r in range(2)):
                    hit = i
                    break
            S.true("each column is a point of the data set, used once", hit is not None)
            if hit is None:
                return
            left.remove(hit)
            S.eq("outputs stay with their inputs", by[:, c], Y[:, hit])
            if J:
                S.eq("gradients stay with their inputs", bj[:, :, c], dY[:, :, hit])
    S.true("all points used", not left)


def same(a, b):
    if hasattr(a, "id") and hasattr(b, "id"):
        return a.id == b.id
    return bool(a == b)


def translate(S, nx=2, ny=2, m=3, J=True):
    """SMT data -> GENN data"""
    from smt.surrogate_models.genn import smt_to_genn, GENN
    sm = GENN(print_global=False)
    x, y = S.reals("x", (m, nx), -5, 5), S.reals("y", (m, ny), -5, 5)
    sm.set_training_values(x, y)
    d = S.reals("d", (nx, m, ny), -5, 5)
    if J:
        for k in reversed(range(nx)):
            sm.set_training_derivatives(x, d[k], k)
    X, Y, JJ = smt_to_genn(sm.training_points)
    S.true("shapes", tuple(X.shape) == (nx, m) and tuple(Y.shape) == (ny, m))
    S.eq("inputs", X, x.T)
    S.eq("outputs", Y, y.T)
    if J:
        S.true("gradient shape", tuple(JJ.shape) == (ny, nx, m))
        for i in range(ny):
            for k in range(nx):
                S.eq("gradients", JJ[i, k], d[k][:, i])
    else:
        S.true("no gradients", JJ is None)


def mismatch(S, nx=2):
    """derivatives given at other points than the values are not taken silently"""
    from smt.surrogate_models.genn import smt_to_genn, GENN
    sm = GENN(print_global=False)
    x = S.reals("x", (2, nx), -5, 5)
    z = S.reals("z", (2, nx), -5, 5)
    S.assume(z[1, nx - 1] > x[1, nx - 1] + 0.1)
    sm.set_training_values(x, np.zeros((2, 1)))
    for k in range(nx):
        sm.set_training_derivatives(z, np.ones((2, 1)), k)
    try:
        smt_to_genn(sm.training_points)
        S.true("mismatch reported", False)
    except (AssertionError, ValueError):
        S.true("mismatch reported", True)


def loading(S, nx=2, m=3):
    from smt.surrogate_models.genn import load_smt_data, GENN
    sm = GENN(print_global=False)
    x, y, d = S.reals("x", (m, nx), -5, 5), S.reals("y", (m, 1), -5, 5), S.reals("d", (m, nx), -5, 5)
    load_smt_data(sm, x if nx > 1 else x[:, 0], y[:, 0], d if nx > 1 else d[:, 0])
    t = sm.training_points[None]
    S.eq("inputs", t[0][0], x)
    S.eq("outputs", t[0][1], y)
    for k in range(nx):
        S.eq("points of the derivatives", t[k + 1][0], x)
        S.eq("derivatives", t[k + 1][1], d[:, k:k + 1])


class Cost:
    """arbitrary cost and gradient: new values at new points"""

    def __init__(self, S, keys):
        self.S, self.keys, self.seen = S, keys, []

    def at(self, p):
        k = tuple(v.id if hasattr(v, "id") else float(v) for q in self.keys for v in np.asarray(p[q]).ravel())
        for a, c, g in self.seen:
            if a == k:
                return c, g
        i = len(self.seen)
        if i > 12:
            self.S.skip()
        r = (self.S.real("c%d" % i, 0, 10), {q: self.S.reals("g%d%s" % (i, q), p[q].shape, -3, 3) for q in self.keys})
        self.seen.append((k,) + r)
        return r

    def cost(self, p):
        return self.S.np.array([self.at(p)[0]])

    def grad(self, p):
        return dict(self.at(p)[1])


def update(S, which="Adam", steps=2, direct=True):
    """the update formula, iteration by iteration"""
    from smt.utils.neural_net import optimizer as O
    keys = ["W1", "b1"]
    p0 = {"W1": S.reals("W1", (1, 2), -2, 2), "b1": S.reals("b1", (1, 1), -2, 2)}
    lr, b1, b2 = S.real("lr", 0.01, 1), S.real("beta1", 0.1, 0.95), S.real("beta2", 0.1, 0.95)
    opt = getattr(O, which).initialize(initial_guess=p0, cost_function=None, grad_function=None, learning_rate=lr, beta1=b1, beta2=b2)
    m = {k: np.zeros(p0[k].shape) for k in keys}
    v = {k: np.zeros(p0[k].shape) for k in keys}
    cur = p0
    for t in range(1, steps + 1):
        g = {k: S.reals("g%d%s" % (t, k), p0[k].shape, -3, 3) for k in keys}
        for k in keys:      # away from the zero gradient, where the square root is not differentiable
            for i in np.ndindex(*p0[k].shape):
                S.assume(g[k][i] > 0.01)
        opt._current_iteration = t - 1
        opt._search_direction = g
        opt._previous_design = opt._current_design.copy()
        opt._update_current_design(learning_rate=lr)
        new = {}
        for k in keys:
            if which == "GD":
                new[k] = cur[k] - lr * g[k]
            else:
                m[k] = b1 * m[k] + (1 - b1) * g[k]
                v[k] = b2 * v[k] + (1 - b2) * g[k] ** 2
                mh, vh = m[k] / (1 - b1 ** t), v[k] / (1 - b2 ** t)
                new[k] = cur[k] - lr * mh / (S.np.sqrt(vh) + np.finfo(float).eps)
            S.eq("step %d of %s" % (t, k), opt.current_design[k], new[k], tol=1e-6)
            S.eq("start kept", opt.initial_guess[k], p0[k])
        cur = new
        for k in keys:
            S.true("shape", opt.current_design[k].shape == p0[k].shape)


def descent(S, which="GD", iters=1):
    """the optimizer: each iterate is the update with a learning rate not above the user's; the history is the cost of the iterates"""
    from smt.utils.neural_net import optimizer as O
    keys = ["W1"]
    p0 = {"W1": S.reals("W1", (1, 1), -2, 2)}
    w0 = p0["W1"].copy()
    lr = S.real("lr", 0.01, 1)
    f = Cost(S, keys)
    opt = getattr(O, which).initialize(initial_guess=p0, cost_function=f.cost, grad_function=f.grad, learning_rate=lr)
    best = opt.optimize(max_iter=iters, is_print=False)
    S.eq("start kept", p0["W1"], w0)
    S.true("history length", len(opt.cost_history) == iters + 1 and len(opt.design_history) == iters + 1)
    for i in range(iters + 1):
        S.eq("cost of iterate %d" % i, opt.cost_history[i], f.at(opt.design_history[i])[0])
    S.eq("optimum is the last iterate", best["W1"], opt.design_history[-1]["W1"])
    for i in range(iters):
        a, b = opt.design_history[i], opt.design_history[i + 1]
        g = f.at(a)[1]["W1"]
        if which == "GD":
            d = a["W1"][0, 0] - b["W1"][0, 0]
            S.true("step along the negative gradient, at most half the learning rate", S.AND(d * g[0, 0] >= -1e-12, d * d <= (0.5 * lr * g[0, 0]) ** 2 + 1e-9))


def beta(S):
    """the user's decay rates reach the optimizer"""
    from smt.surrogate_models import GENN
    from smt.utils.neural_net import model as M
    b1, b2, al = S.real("beta1", 0.1, 0.95), S.real("beta2", 0.1, 0.95), S.real("alpha", 0.01, 1)
    lam, gam = S.real("lambda", 0, 1), S.real("gamma", 0, 1)
    seen = []
    real = M.Adam

    class Spy(real):
        def optimize(self, max_iter=100, is_print=True):
            seen.append((self.learning_rate, self.beta_1, self.beta_2, max_iter))
            self._cost_history.append(np.float64(1.0))
            return self.initial_guess

    sm = GENN(print_global=False, is_print=False, deep=1, wide=2, num_iterations=7, num_epochs=3, mini_batch_size=2, seed=5)
    for k, v in (("alpha", al), ("beta1", b1), ("beta2", b2), ("lambd", lam), ("gamma", gam)):
        sm.options._dict[k] = v
    x = np.array([[0., 1.], [1., 0.], [2., 5.]])
    sm.set_training_values(x, np.array([[1.], [2.], [5.]]))
    for k in range(2):
        sm.set_training_derivatives(x, np.ones((3, 1)), k)
    M.Adam = Spy
    try:
        sm.train()
    finally:
        M.Adam = real
    S.true("one optimization per batch and epoch", len(seen) == 6)
    for a, c, d, n in seen:
        S.eq("learning rate", a, al)
        S.eq("beta1", c, b1)
        S.eq("beta2", d, b2)
        S.true("iterations", n == 7)


def repeat(S, J=True):
    """a seed makes training repeatable: the weights before and after training are a function of the seed alone"""
    from smt.surrogate_models import GENN

    def one(pre):
        np.random.seed(pre)
        sm = GENN(print_global=False, is_print=False, deep=1, wide=2, num_iterations=3, num_epochs=2, mini_batch_size=2, seed=5)
        x = np.array([[0., 1.], [1., 0.], [2., 5.]])
        sm.set_training_values(x, np.array([[1.], [2.], [5.]]))
        if J:
            for k in range(2):
                sm.set_training_derivatives(x, np.ones((3, 1)), k)
        sm.train()
        return sm
    a, b = S.concretely("genn-a%s" % J, lambda: one(1)), S.concretely("genn-b%s" % J, lambda: one(2))
    for m in (a, b):
        m.nx = 2
    x = S.reals("x", (1, 2), -2, 2)
    S.eq("same prediction", a.predict_values(x), b.predict_values(x))


def goodness(S):
    """looking at validation data leaves the training data alone"""
    from smt.surrogate_models import GENN
    from smt.utils.neural_net.model import Model
    sm = GENN(print_global=False, is_print=False)
    x, y = S.reals("x", (2, 1), -5, 5), S.reals("y", (2, 1), -5, 5)
    d = S.reals("d", (2, 1), -5, 5)
    sm.set_training_values(x, y)
    sm.set_training_derivatives(x, d, 0)
    seen = []
    old = Model.goodness_of_fit
    Model.goodness_of_fit = lambda self, X, Y, *a, **k: seen.append((X, Y))
    xv, yv, dv = S.reals("xv", (3, 1), -5, 5), S.reals("yv", (3, 1), -5, 5), S.reals("dv", (3, 1), -5, 5)
    try:
        sm.goodness_of_fit(xv, yv, dv)
    finally:
        Model.goodness_of_fit = old
    S.eq("validation inputs", seen[0][0], xv.T)
    S.eq("validation outputs", seen[0][1], yv.T)
    t = sm.training_points[None]
    S.true("training size kept", t[0][0].shape == (2, 1) and sm.nt == 2)
    S.eq("training inputs kept", t[0][0], x)
    S.eq("training outputs kept", t[0][1], y)
    S.eq("training derivatives kept", t[1][1], d)


def obligations(tier):
    o = []
    T = tier != "quick"

    def add(_n, fn=normalization, _t=200, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=_t)))
    for m in (1, 2, 3, 4) + ((5, 6) if T else ()):
        add("normalize-%d" % m, m=m)
    add("normalize-noJ", J=False)
    add("normalize-constx", constx=(1,))
    add("normalize-consty", consty=(0,))
    add("normalize-const", nx=1, ny=1, constx=(0,), consty=(0,), m=2)
    for m in (1, 2, 3, 4) + ((5,) if T else ()):
        for s in range(1, 6):
            if s <= m + 1:
                add("batches-%d-%d" % (m, s), fn=batches, m=m, size=s, J=(m + s) % 2 == 0)
    add("batches-5", fn=batches, m=4, size=5, seed=3)
    for nx in (1, 2):
        for ny in (1, 2):
            add("translate-%d-%d" % (nx, ny), fn=translate, nx=nx, ny=ny)
        add("mismatch-%d" % nx, fn=mismatch, nx=nx)
        add("loading-%d" % nx, fn=loading, nx=nx)
    add("translate-noJ", fn=translate, J=False)
    add("adam", fn=update)
    add("gd", fn=update, which="GD")
    add("descent-gd-1", fn=descent)
    add("descent-gd-2", fn=descent, iters=2)
    add("descent-adam-1", fn=descent, which="Adam")
    if T:
        add("adam-3", fn=update, steps=3, _t=900)
        add("descent-gd-3", fn=descent, iters=3, _t=900)
        add("descent-adam-2", fn=descent, which="Adam", iters=2, _t=900)
    add("parameters", fn=beta)
    add("repeatable", fn=repeat)
    add("repeatable-noJ", fn=repeat, J=False)
    add("goodness", fn=goodness)
    return o
