"""Mixture of experts: recombination, membership probabilities, clustering of the data, selection and training of experts."""
import numpy as np
from .common import *

BOUNDS = ("recombination: arbitrary expert outputs/variances and cluster log-densities of [-50,50] (also densities that vanish: down to -2000), positive weights summing to one, 1-3 clusters, 1-3 points; "
          "densities: all points of [-3,3]^n, n 1-2, all means, positive covariances and smoothing factors 0.1-2.1; training: 10-12 points in 1-2 dimensions with up to 4 arbitrary cluster labels, 1-2 clusters, 1-3 kinds of experts with arbitrary predictions")
OUTSIDE = "the Gaussian-mixture fit itself (scikit-learn) and the density function of SciPy, replaced by arbitrary outcomes and by the formula; more clusters"
ASSUMPTIONS = ["sklearn's GaussianMixture returns arbitrary labels; scipy's multivariate_normal is the Gaussian density"]


class Dist:
    """a cluster density with arbitrary values"""

    def __init__(self, S, k, lo):
        self.S, self.k, self.lo, self.seen = S, k, lo, []

    def logpdf(self, x):
        x = [v for v in np.ravel(self.S.np.asarray(x))]
        key = tuple(v.id if hasattr(v, "id") else float(v) for v in x)
        for a, v in self.seen:
            if a == key:
                return v
        v = self.S.real("log%d_%d" % (self.k, len(self.seen)), self.lo, min(50, self.lo + 100))
        self.seen.append((key, v))
        return v

    def pdf(self, x):
        return self.S.np.exp(self.logpdf(x))


class Cluster:
    pass


class Expert:
    """arbitrary predictions, the same at the same point"""
    name = "stub"

    def __init__(self, S, k, ny=1):
        self.S, self.k, self.seen = S, k, []

    def at(self, x):
        out = []
        for r in range(x.shape[0]):
            key = tuple(v.id if hasattr(v, "id") else float(v) for v in x[r])
            hit = None
            for a, f, v in self.seen:
                if a == key:
                    hit = (f, v)
            if hit is None:
                n = len(self.seen)
                hit = (self.S.real("f%d_%d" % (self.k, n), -5, 5), self.S.real("v%d_%d" % (self.k, n), 0, 5))
                self.seen.append((key,) + hit)
            out.append(hit)
        return out

    def predict_values(self, x):
        return self.S.np.array([[a] for a, b in self.at(x)])

    def predict_variances(self, x):
        return self.S.np.array([[b] for a, b in self.at(x)])


def recombine(S, nc=2, m=1, smooth=True, nx=1, lo=-50, flat=False):
    from smt.applications.moe import MOE
    moe = MOE(variances_support=True)
    moe.n_clusters, moe.smooth_recombination, moe.ndim = nc, smooth, nx
    w = S.reals("w", (nc,), 0.05, 1)
    S.assume(S.eq_expr(sum(w), 1.0) if hasattr(S, "eq_expr") else S.AND(sum(w) <= 1.0 + 1e-9, sum(w) >= 1.0 - 1e-9))
    moe.cluster = Cluster()
    moe.cluster.weights_ = w
    moe.distribs = [Dist(S, k, lo) for k in range(nc)]
    moe._experts = [Expert(S, k) for k in range(nc)]
    x = S.reals("x", (m, nx), -3, 3)
    P = moe._proba_cluster(x)
    S.true("one probability per point and cluster", tuple(P.shape) == (m, nc))
    y = moe.predict_values(x[:, 0] if flat else x)
    V = moe.predict_variances(x)
    S.true("shapes", tuple(y.shape) == (m, 1) and tuple(V.shape) == (m, 1))
    for i in range(m):
        f = [e.at(x[i:i + 1])[0] for e in moe._experts]
        S.eq("probabilities sum to one", sum(P[i]), 1.0)
        for k in range(nc):
            S.le("probability not negative", 0.0, P[i, k])
            S.le("probability not above one", P[i, k], 1.0)
        for k in range(nc):
            for j in range(k):      # proportional to weight times density
                a, b = w[k] * moe.distribs[k].pdf(x[i]), w[j] * moe.distribs[j].pdf(x[i])
                if nc > 1 and lo > -100:
                    S.eq("probabilities in proportion to weight times density", P[i, k] * b, P[i, j] * a)
        if smooth:
            S.eq("convex combination of the experts", y[i, 0], sum(P[i, k] * f[k][0] for k in range(nc)))
            S.eq("variance of the combination", V[i, 0], sum(P[i, k] ** 2 * f[k][1] for k in range(nc)))
        else:
            hit = False
            for k in range(nc):
                if all(bool(P[i, k] >= P[i, j]) for j in range(nc)):
                    S.eq("value of the most probable expert", y[i, 0], f[k][0])
                    S.eq("variance of the most probable expert", V[i, 0], f[k][1])
                    hit = True
                    break
            S.true("some expert is the most probable", hit)


class Normal:
    """the Gaussian density, by its formula (1 or 2 dimensions)"""

    def __init__(self, S, mean, cov):
        self.S, self.m, self.c = S, mean, cov

    def logpdf(self, x):
        np_, m, c = self.S.np, self.m, self.c
        x = np.ravel(self.S.np.asarray(x))
        if len(m) == 1:
            return -0.5 * (x[0] - m[0]) ** 2 / c[0, 0] - 0.5 * np_.log(2 * np.pi * c[0, 0])
        det = c[0, 0] * c[1, 1] - c[0, 1] * c[1, 0]
        d = [x[0] - m[0], x[1] - m[1]]
        q = (c[1, 1] * d[0] * d[0] - (c[0, 1] + c[1, 0]) * d[0] * d[1] + c[0, 0] * d[1] * d[1]) / det
        return -0.5 * q - 0.5 * np_.log((2 * np.pi) ** 2 * det)

    def pdf(self, x):
        return self.S.np.exp(self.logpdf(x))


def densities(S, nx=1, nc=2):
    """clusters are the Gaussians of the mixture in the inputs, with covariances scaled by the Heaviside factor"""
    from smt.applications import moe as mod
    moe = mod.MOE()
    moe.n_clusters, moe.ndim, moe.smooth_recombination = nc, nx, True
    h = S.real("h", 0.1, 2.1)
    means = S.reals("mean", (nc, nx + 1), -2, 2)
    sd = S.reals("sd", (nc, nx + 1), 0.3, 2)
    rho = S.reals("rho", (nc,), -0.6, 0.6)
    cov = S.np.zeros((nc, nx + 1, nx + 1)) * h
    for k in range(nc):
        for i in range(nx + 1):
            for j in range(nx + 1):
                cov[k, i, j] = sd[k, i] ** 2 if i == j else rho[k] * sd[k, i] * sd[k, j]
    moe.cluster = Cluster()
    moe.cluster.means_, moe.cluster.covariances_ = means, cov
    w = S.reals("w", (nc,), 0.05, 1)
    moe.cluster.weights_ = w
    calls = []

    def mvn(mean, c):
        calls.append((mean, c))
        return Normal(S, mean, c)
    old = mod.multivariate_normal
    mod.multivariate_normal = mvn
    try:
        moe.distribs = moe._create_clusters_distributions(h)
    finally:
        mod.multivariate_normal = old
    S.true("one density per cluster", len(calls) == nc)
    for k in range(nc):
        for i in range(nx):
            S.eq("mean", calls[k][0][i], means[k, i])
            for j in range(nx):
                S.eq("covariance", calls[k][1][i, j], h * cov[k, i, j])
    if nx > 1:
        return      # the probabilities as a function of the densities are checked in recombine
    x = S.reals("x", (2, nx), -3, 3)
    P = moe._proba_cluster(x)
    for i in range(2):
        d = [w[k] * Normal(S, means[k, :nx], h * cov[k, :nx, :nx]).pdf(x[i]) for k in range(nc)]
        S.eq("sum", sum(P[i]), 1.0)
        S.eq("probabilities", P[i, 0] * d[1], P[i, 1] * d[0])


def training(S, nc=2, n=10, kinds=2, given=False, nx=1, labels=3, smooth=True, heavi=False, wrapper=False, ct=False, picks=False):
    """labels and expert predictions arbitrary: who gets which data, and which expert is chosen"""
    from smt.applications import moe as mod
    from smt.applications.application import SurrogateBasedApplication
    from smt.surrogate_models import LS, QP, IDW
    rng = np.random.RandomState(3)
    X = rng.rand(n, nx)
    Y = rng.rand(n, 1)
    log = []
    lab = {}

    def label(row):
        key = tuple(float(v) for v in row[:nx])
        if key not in lab:
            i = [tuple(r) for r in X].index(key)
            lab[key] = S.pick("lab%d" % i, list(range(nc))) if i % 4 == 1 and i // 4 < labels else i % nc
        return lab[key]

    class GM:
        def __init__(self, n_components=1, **k):
            self.n = n_components
            log.append(("n", n_components))
            self.converged_ = True
            self.weights_ = np.ones(nc) / nc
            self.means_ = np.linspace(0, 1, nc)[:, None] * np.ones((nc, nx + 1))
            self.covariances_ = np.array([np.eye(nx + 1) * 0.2] * nc)

        def fit(self, data):
            log.append(("fit", np.array(data, dtype=float)))

        def predict(self, data):
            return np.array([label(r) for r in np.array(data, dtype=float)])

    made = []
    where0 = [1, 2, 21, 23] if picks else []

    def pred(nm, i):
        if picks and i not in where0:
            return 0.5
        return S.pick("pred-%s-%s" % (nm, i), [-2.0, 0.25, 1.5]) if picks else S.real("pred-%s-%s" % (nm, i), -3, 3)

    def expert(base, nm):
        class X_(base):
            name = nm

            def _initialize(self):
                super()._initialize()
                self.log = []
                made.append(self)

            def train(self):
                x, y = self.training_points[None][0]
                self.log.append((np.array(x, dtype=float), np.array(y, dtype=float)))

            def predict_values(self, x):
                x = np.asarray(x, dtype=float)
                out = []
                for r in x:
                    i = [tuple(q) for q in X].index(tuple(r)) if tuple(r) in [tuple(q) for q in X] else "z"
                    out.append([pred(nm, i)])
                return S.np.array(out)
        return X_
    bases = [LS, QP, IDW][:kinds]
    names = ["LS", "QP", "IDW"][:kinds]
    types = {nm: expert(b, nm) for b, nm in zip(bases, names)}
    # the same distances tie the choice: allow any minimizer
    old = mod.GaussianMixture, SurrogateBasedApplication._surrogate_type, mod.multivariate_normal
    mod.GaussianMixture = GM
    mod.multivariate_normal = lambda m, c: Normal(S, m, c)
    SurrogateBasedApplication._surrogate_type = types
    try:
        kw = dict(n_clusters=nc, smooth_recombination=smooth)
        if given:
            kw.update(xtest=X[:2], ytest=Y[:2])
        if ct:
            kw.update(ct=Y + 5.0)
        if wrapper:
            sm = mod.MOESurrogateModel(**kw)
            sm.options["print_global"] = False
            sm.set_training_values(X, Y)
            sm.train()
            moe = sm.moe
        else:
            moe = mod.MOE(**kw)
            moe.set_training_values(X, Y)
            moe.train()
    finally:
        mod.GaussianMixture, SurrogateBasedApplication._surrogate_type, mod.multivariate_normal = old
    S.true("clusters asked for", [v for k, v in log if k == "n"] == [nc])
    fitted = [v for k, v in log if k == "fit"][0]
    S.true("clustering columns", fitted.shape[1] == nx + 1)
    src = {tuple(X[i]): i for i in range(n)}
    fi = [src[tuple(r[:nx])] for r in fitted]
    held = [i for i in range(n) if i not in fi]
    S.true("clustering uses each training point once", len(set(fi)) == len(fi) and (not given or len(fi) == n) and (given or len(held) == -(-n // 10)))
    for r, i in zip(fitted, fi):
        S.true("clustering sees the outputs", abs(r[nx] - Y[i, 0] - (5.0 if ct else 0.0)) < 1e-12)
    S.true("one expert per cluster", len(moe._experts) == nc)
    # final data of every expert
    use = list(range(n)) if not given else fi
    where = {}
    for k, e in enumerate(moe._experts):
        x, y = e.log[-1]
        if given:
            continue
        for r in range(x.shape[0]):
            i = src[tuple(x[r])]
            S.true("each training point goes to one cluster", i not in where)
            where[i] = k
            S.true("outputs stay with their inputs", abs(y[r, 0] - Y[i, 0]) < 1e-12)
            S.true("the cluster of its label", label(X[i]) == k)
    if not given:
        S.true("all training points are used", sorted(where) == use)
    # selection: smallest test error among the allowed experts
    per = len(made) - 0
    cand = [e for e in made if e.log]
    S.true("every kind is tried for every cluster", len(cand) == nc * kinds)
    for k in range(nc):
        mine = [i for i in fi if label(X[i]) == k]
        # order within a cluster is the order of the training data; 10% (rounded up) is kept for the test
        test = mine[::10]
        err = {}
        for nm in names:
            err[nm] = sum((pred(nm, i) - Y[i, 0]) ** 2 for i in test)
        got = err[moe._experts[k].name]
        for nm in names:
            S.le("chosen expert has the smallest test error", got, err[nm], tol=1e-7)
        for e in cand[k * kinds:(k + 1) * kinds]:
            idx = sorted(src[tuple(r)] for r in e.log[0][0])
            S.true("experts compared on the same training part", idx == sorted(i for i in mine if i not in test))


def heaviside(S, n=2, nc=2):
    """the smoothing factor is the candidate with the smallest error"""
    from smt.applications import moe as mod
    moe = mod.MOE()
    moe.n_clusters, moe.ndim, moe.smooth_recombination = nc, 1, True
    errs = S.reals("e", (4,), 0.1, 2)
    cand = []
    y = np.array([[1.0], [2.0]])
    moe._create_clusters_distributions = lambda h: cand.append(float(h)) or h

    def smooth(x, distribs=None, output_variances=False):
        i = len(cand) - 1
        return y + (errs[i] if i < 4 else 3.0) * np.array([[3.0], [4.0]]) / 5.0
    moe._predict_smooth_output = smooth
    h = moe._find_best_heaviside_factor(np.zeros((2, 1)), y)
    S.true("candidates", len(cand) == 21 and abs(cand[0] - 0.1) < 1e-12 and abs(cand[-1] - 2.1) < 1e-12)
    i = cand.index(float(h))
    S.true("one of the four good ones", i < 4)
    for j in range(4):
        S.le("smallest error", errs[min(i, 3)], errs[j], tol=1e-9)


def enabled(S, which=0):
    """exactly the experts that support what is asked for, allowed and not denied"""
    from smt.applications import moe as mod
    from smt.applications.application import SurrogateBasedApplication
    from smt.surrogate_models import LS
    names = ["KRG", "LS", "RBF"]
    sup = {nm: (S.bool("d" + nm), S.bool("v" + nm)) for nm in names}

    def mk(nm):
        class X_(LS):
            name = nm

            def _initialize(self):
                super()._initialize()
                self.supports["derivatives"], self.supports["variances"] = sup[nm]
        return X_
    opts = {}
    opts["derivatives_support"] = bool(S.bool("D"))
    opts["variances_support"] = bool(S.bool("V"))
    allow = [[], ["LS"], ["LS", "KRG"], ["KRG", "RBF", "unknown"]][which]
    deny = [[], ["LS"], ["LS"], ["KRG"]][S.pick("deny", [0, 1, 3])]
    old = SurrogateBasedApplication._surrogate_type
    SurrogateBasedApplication._surrogate_type = {nm: mk(nm) for nm in names}
    SurrogateBasedApplication._surrogate_type["GEKPLS"] = mk("GEKPLS") if False else old["GEKPLS"]
    exp = []
    for nm in names:
        ok = not (opts["derivatives_support"] and not bool(sup[nm][0])) and not (opts["variances_support"] and not bool(sup[nm][1]))
        if ok and (not allow or nm in allow) and nm not in deny:
            exp.append(nm)
    try:
        moe = mod.MOE(allow=allow, deny=deny, **opts) if exp else None
        if exp:
            S.true("enabled experts", sorted(moe.enabled_experts) == sorted(exp))
        else:
            try:
                mod.MOE(allow=allow, deny=deny, **opts).enabled_experts
                S.true("no expert left is an error", False)
            except ValueError:
                S.true("no expert left is an error", True)
    finally:
        SurrogateBasedApplication._surrogate_type = old


def checks(S, n=10):
    """mismatched inputs and too many clusters are rejected"""
    from smt.applications.moe import MOE
    a, b = S.pick("rows", [9, 10, 11]), S.pick("outs", [9, 10, 11])
    k = S.pick("clusters", [1, 2, 3])
    c = S.pick("ct", [None, 9, 10])
    moe = MOE(n_clusters=k)
    moe.x, moe.y = np.zeros((a, 2)), np.zeros((b, 1))
    moe.c = moe.y if c is None else np.zeros((c, 1))
    moe.n_clusters = k
    bad = a != b or (c is not None and c != b) or k > a // 10 + 1
    try:
        moe._check_inputs()
        S.true("bad input rejected", not bad)
    except ValueError:
        S.true("good input accepted", bad)


def obligations(tier):
    o = []
    T = tier != "quick"

    def add(_n, fn=recombine, _t=200, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=_t)))
    for nc in (1, 2, 3):
        for m in (1, 2):
            if nc * m < 5:
                add("smooth-%d-%d" % (nc, m), nc=nc, m=m)
                add("hard-%d-%d" % (nc, m), nc=nc, m=m, smooth=False)
    add("smooth-2d", nc=2, nx=2)
    add("hard-2d", nc=2, nx=2, smooth=False)
    add("smooth-far", nc=2, lo=-2000)
    add("hard-far", nc=2, lo=-2000, smooth=False)
    add("densities-1", fn=densities, nx=1)
    add("densities-2", fn=densities, nx=2)
    add("train-1", fn=training, nc=1, n=10, labels=0)
    add("train-2", fn=training, nc=2, n=12)
    add("train-2-3kinds", fn=training, nc=2, n=12, kinds=3, labels=1)
    add("train-21", fn=training, nc=2, n=24, labels=0, kinds=2)
    add("train-picks", fn=training, nc=2, n=24, labels=0, kinds=2, picks=True)
    add("train-given", fn=training, nc=2, n=12, given=True)
    add("train-2d", fn=training, nc=2, n=12, nx=2, labels=2)
    add("train-ct", fn=training, nc=2, n=12, labels=1, ct=True)
    add("train-wrapper", fn=training, nc=2, n=12, labels=2, wrapper=True)
    add("heaviside", fn=heaviside)
    for i in range(4):
        add("enabled-%d" % i, fn=enabled, which=i)
    add("checks", fn=checks)
    if T:
        add("smooth-3-2", nc=3, m=2, _t=900)
        add("hard-3-2", nc=3, m=2, smooth=False, _t=900)
        add("train-3", fn=training, nc=3, n=21, kinds=2, labels=4, _t=900)
    return o
