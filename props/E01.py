"""EGO: recorded history equals the evaluated points, valid inputs, best point returned, number of evaluations."""
import numpy as np
from .common import *
from .X01 import types, dim

BOUNDS = ("all objective values of [-5,5], all outcomes of the internal optimizer (any point inside the bounds, any objective value, success or failure in up to 3 of the calls), all surrogate predictions and variances, all outcomes of the Latin hypercube sampler inside the limits: "
          "1-2 iterations, 1-2 parallel points, initial designs of 2-3 points (given with and without outputs, or sampled), 1-2 start points, every criterion and virtual-point rule, tunneling on/off, continuous and mixed-integer inputs")
OUTSIDE = "longer runs; objectives whose value changes between calls; quality of the optimum found"
ASSUMPTIONS = ["the internal optimizer returns a point inside its bounds (contract of SLSQP)", "the objective is deterministic"]


class Env:
    def __init__(self, S, spec, fails=0):
        self.S, self.spec, self.n, self.left = S, spec, {}, fails
        self.evals, self.trained, self.memo, self.opt = [], [], {}, []

    def name(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        return "%s%d" % (k, self.n[k])

    def fun(self):
        S = self.S

        def f(X):
            out = []
            for i in range(len(X)):
                row = list(X[i])
                key = tuple(float(v) if not hasattr(v, "id") else ("s", v.id) for v in row)
                if key not in self.memo:
                    self.memo[key] = S.real(self.name("y"), -5, 5)
                out.append([self.memo[key]])
                self.evals.append((row, self.memo[key]))
            return S.np.array(out)
        return f

    def gpr(self):
        from smt.surrogate_models import KRG
        env, S = self, self.S

        class Any(KRG):
            def _train(self):
                env.trained.append([np.array(a) for a in self.training_points[None][0]])

            train = _train

            def predict_values(self, x):
                return S.np.array([[S.real(env.name("mu"), -5, 5)] for i in range(len(x))])

            def predict_variances(self, x):
                return S.np.array([[S.real(env.name("var"), 0.01, 4)] for i in range(len(x))])
        return Any(print_global=False)

    def minimize(self, fun, x0, *a, bounds=None, **k):
        S, env = self.S, self
        b = np.asarray(bounds)
        if self.left and S.pick(self.name("fail"), [False, True]):
            self.left -= 1
            r = dict(success=False, x=x0, fun=0.0)
        else:
            x = S.np.array([b[j, 0] + (b[j, 1] - b[j, 0]) * S.real(env.name("u"), 0, 1) for j in range(len(b))])
            r = dict(success=True, x=x, fun=S.real(env.name("f"), -5, 5))
        for j in range(len(b)):
            S.true("start point inside the bounds", S.AND(x0[j] >= b[j, 0] - 1e-9, x0[j] <= b[j, 1] + 1e-9))
        self.opt.append(r)
        return r


LIM = {"F": [-2.0, 3.0], "I": [-1, 2], "2": ["a", "b"], "3": ["x", "y", "z"]}


def scen(S, spec="F", mixed=False, n_iter=1, n_par=1, n_doe=2, given="xy", n_start=1, n_max=2, fails=0, kw=None):
    from smt.applications import EGO
    from smt.sampling_methods import LHS
    from smt.applications import mixed_integer as mi
    mixed = mixed or any(t != "F" for t in spec)
    nx = len(spec)
    env = Env(S, spec, fails)
    opts = dict(kw or {})
    xt = types(spec)
    xl = np.array([LIM[t] for t in spec], dtype=object if any(t not in "FI" for t in spec) else float)
    if mixed:
        opts["xtypes"] = xt
        S.rint_fork()
    if given:
        X0 = np.array([[{"F": 0.5 * i - 0.3 * k, "I": (i + k) % 3 - 1, "2": (i + k) % 2, "3": (i + 2 * k) % 3}[t] for k, t in enumerate(spec)] for i in range(n_doe)], dtype=float)
        opts["xdoe"] = X0
        if "y" in given:
            opts["ydoe"] = S.reals("y0", (n_doe, 1), -5, 5)
            Y0 = opts["ydoe"].copy()
    else:
        opts["n_doe"] = n_doe

    def stub(self, nt):
        return S.reals(env.name("lhs"), (nt, self.options["xlimits"].shape[0]), 0, 1)
    old = LHS._compute
    LHS._compute = stub
    S.minimize(env.minimize)
    S.rng(True)
    try:
        ego = EGO(n_iter=n_iter, n_parallel=n_par, n_start=n_start, n_max_optim=n_max, xlimits=xl, surrogate=env.gpr(), **opts)
        x_opt, y_opt, ind, xd, yd = ego.optimize(fun=env.fun())
    finally:
        LHS._compute = old
        S.minimize(None)
        S.rng(False)
    ok = sum(1 for r in env.opt if r["success"])
    allok = len(env.opt) == ok
    total = n_doe + n_iter * n_par
    if allok:
        S.true("number of recorded points", len(xd) == total and len(yd) == total)
        S.true("number of evaluations", len(env.evals) == total - (n_doe if given == "xy" else 0))
    else:
        S.true("no more points than requested", len(xd) <= total and len(yd) == len(xd))
        if n_par == 1:
            # an iteration is lost only when all of its n_max tries failed
            S.true("an iteration with a successful try adds its point", len(xd) - n_doe == env_success(env, n_start, n_max, n_iter))
    S.true("recorded inputs and outputs belong together in number", len(xd) == len(yd))
    evals = list(env.evals)
    if given == "xy":
        evals = [(list(X0[i]), Y0[i, 0]) for i in range(n_doe)] + evals
    for row, y in evals:
        S.true("evaluated input has the declared dimension", len(row) == nx)
        for k, t in enumerate(spec):
            if t == "F":
                S.true("evaluated input inside the limits", S.AND(row[k] >= LIM["F"][0] - 1e-9, row[k] <= LIM["F"][1] + 1e-9))
            elif t == "I":
                S.true("evaluated input has an integer value", S.OR(*[row[k] == v for v in range(-1, 3)]))
            else:
                S.true("evaluated input is an index of a level", S.OR(*[row[k] == v for v in range(int(t))]))
    fold = mi.fold_with_enum_index(xt, xd) if mixed else xd
    for i in range(len(xd)):
        yi = np.asarray(yd).reshape(-1)[i]
        cands = []
        for row, y in evals:
            same = [fold[i, k] is row[k] or (not hasattr(fold[i, k], "id") and not hasattr(row[k], "id") and abs(fold[i, k] - row[k]) < 1e-9) for k in range(nx)]
            if all(same):
                cands.append(S.AND(yi - y < 1e-9, y - yi < 1e-9))
        if not cands:
            cands = [S.AND(*([S.AND(fold[i, k] - row[k] < 1e-9, row[k] - fold[i, k] < 1e-9) for k in range(nx)] + [S.AND(yi - y < 1e-9, y - yi < 1e-9)])) for row, y in evals]
        S.true("recorded output is the objective at the recorded input", S.OR(*cands))
        S.le("returned output is the smallest", np.asarray(y_opt).reshape(-1)[0], yi, tol=1e-9)
    S.eq("returned output is the recorded one", np.asarray(y_opt).reshape(-1)[0], np.asarray(yd).reshape(-1)[int(ind)], tol=1e-12)
    for k in range(nx):
        S.eq("returned input is the recorded one", np.asarray(x_opt).reshape(-1)[k], fold[int(ind), k], tol=1e-12)
    # the best start of each successful search is the one taken
    if fails == 0 and n_par == 1 and not mixed:
        for it in range(n_iter):
            runs = env.opt[it * n_start:(it + 1) * n_start]
            for r in runs:
                others = [S.AND(*[S.AND(xd[n_doe + it, k] - r2["x"][k] < 1e-9, r2["x"][k] - xd[n_doe + it, k] < 1e-9, r2["fun"] <= r["fun"] + 1e-9) for k in range(nx)]) for r2 in runs]
                S.true("the best optimizer result is evaluated", S.OR(*others))
    # the surrogate is trained on all data so far
    for j, (X, Y) in enumerate(env.trained):
        S.true("surrogate trained on the data so far", len(X) == len(Y) and (not allok or len(X) == n_doe + j))


def env_success(env, n_start, n_max, n_iter):
    i, good = 0, 0
    for it in range(n_iter):
        for t in range(n_max):
            chunk = env.opt[i:i + n_start]
            i += n_start
            if any(r["success"] for r in chunk):
                good += 1
                break
    return good


def obligations(tier):
    o = []

    def add(_n, fn=scen, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=150, feas_ms=200, max_paths=4000)))
    for c in ("EI", "SBO", "UCB"):
        add("criterion-%s" % c, kw=dict(criterion=c), n_iter=2)
    for q in ("KB", "KBLB", "KBUB", "KBRand", "CLmin"):
        add("parallel-%s" % q, n_par=2, kw=dict(qEI=q))
    add("parallel-2iter", n_par=2, n_iter=2)
    add("parallel-fail", n_par=2, fails=2, n_max=2, n_iter=1)
    add("two-starts", n_start=2, n_iter=2)
    add("two-starts-2d", n_start=2, spec="FF")
    add("fail", fails=2, n_iter=2)
    add("fail-1try", fails=1, n_max=1, n_iter=2)
    add("one-try", n_max=1)
    add("fail-3tries", fails=3, n_max=3)
    add("fail-two-starts", fails=2, n_start=2)
    add("no-ydoe", given="x", spec="FF")
    add("sampled-doe", given="", n_doe=3)
    add("tunneling", kw=dict(enable_tunneling=True))
    for spec in ("I", "2", "FI", "3F", "I2"):
        add("mixed-%s" % spec, spec=spec)
        add("mixed-%s-x" % spec, spec=spec, given="x")
    add("mixed-sampled", spec="2F", given="")
    add("mixed-sampled-int", spec="I", given="", n_doe=2)
    add("mixed-parallel", spec="2", n_par=2)
    add("mixed-parallel-int", spec="I", n_par=2, given="xy", kw=dict(qEI="CLmin"))
    add("mixed-F", spec="F", mixed=True)
    if tier != "quick":
        add("3iter", n_iter=3)
        add("parallel-3", n_par=3, n_iter=2)
        add("fail-2iter-2starts", fails=3, n_start=2, n_iter=2)
        add("mixed-I2F", spec="I2F", given="x")
        add("mixed-2iter", spec="I2", n_iter=2)
    return o
