"""Mixed-integer sampling and surrogate wrappers: only valid mixed points get through."""
import numpy as np
from .common import *
from .X01 import types, dim
from .X02 import limits

BOUNDS = ("sampling: all points the wrapped sampler could return inside its limits (arbitrary symbolic points; 1-2 points), folded and unfolded output, lists of 1-3 variables; "
          "surrogates: all raw prediction points in [-3,3] per coordinate, quadratic polynomial, Kriging and IDW surrogates trained on concrete mixed points, and a recording surrogate for what reaches the wrapped model")
OUTSIDE = "training sets other than the concrete ones; limits of integer variables that are not integers"
NEEDS_CPP = False


def valid(S, spec, v, folded, what, xl=None):
    c = 0
    for k, t in enumerate(spec):
        if t == "F":
            if xl:
                S.le(what + ": float above its lower limit", xl[k][0], v[c], tol=1e-9)
                S.le(what + ": float below its upper limit", v[c], xl[k][1], tol=1e-9)
            c += 1
        elif t == "I":
            if xl:
                S.true(what + ": integer inside its limits", S.OR(*[v[c] == m for m in range(xl[k][0], xl[k][1] + 1)]))
            else:
                S.true(what + ": whole number", v[c] == S.np.rint(v[c]))
            c += 1
        elif folded:
            S.true(what + ": index of a level", S.OR(*[v[c] == m for m in range(int(t))]))
            c += 1
        else:
            S.eq(what + ": one level", sum(v[c + j] for j in range(int(t))), 1.0)
            for j in range(int(t)):
                S.true(what + ": mask", S.OR(v[c + j] == 0, v[c + j] == 1))
            c += int(t)


def sampling(S, specs, n=1, folded=True, ctx=True):
    from smt.applications import mixed_integer as mi
    from smt.sampling_methods.sampling_method import SamplingMethod, ScaledSamplingMethod
    spec = S.pick("types", list(specs))
    xt, xl = types(spec), [[-2, 3] if t == "I" else l for t, l in zip(spec, limits(spec))]
    got = []

    class Any(ScaledSamplingMethod):
        def _initialize(self):
            self.options.declare("extra", 0, types=int)

        def _compute(self, nt):
            got.append((nt, self.options["extra"]))
            return S.reals("u_" + spec, (nt, dim(spec)), 0, 1)
    if ctx:
        m = mi.MixedIntegerContext(xt, xl, work_in_folded_space=folded).build_sampling_method(Any, extra=3)
    else:
        m = mi.MixedIntegerSamplingMethod(xt, xl, Any, output_in_folded_space=folded, extra=3) if not folded else mi.MixedIntegerSamplingMethod(xt, xl, Any, extra=3)
    x = m(n)
    S.true("wrapped sampler asked once with its options", got == [(n, 3)])
    S.true("shape", tuple(x.shape) == (n, len(spec) if folded else dim(spec)))
    for i in range(n):
        valid(S, spec, x[i], folded, "sample", xl)


def real(S, M="FullFactorial", spec="F3I", folded=False, n=13, kw=None):
    from smt.applications import mixed_integer as mi
    import smt.sampling_methods as sm
    xt, xl = types(spec), [[-2, 3] if t == "I" else l for t, l in zip(spec, limits(spec))]
    x = S.concretely("mi-" + M + spec, lambda: mi.MixedIntegerContext(xt, xl, folded).build_sampling_method(getattr(sm, M), **(kw or {}))(n))
    x = np.asarray(x, dtype=float)
    S.true("shape", tuple(x.shape) == (n, len(spec) if folded else dim(spec)))
    for i in range(n):
        valid(S, spec, x[i], folded, "sample", xl)


def recorder():
    from smt.surrogate_models.surrogate_model import SurrogateModel

    class Rec(SurrogateModel):
        name = "Rec"

        def _initialize(self):
            super()._initialize()
            self.supports["variances"] = True
            self.seen = []
            self.vals = None

        def _train(self):
            self.vals = self.training_points[None][0]

        def predict_values(self, x):
            self.seen.append(x)
            return x[:, :1] * 1.0

        def predict_variances(self, x):
            return self.predict_values(x)

        def _predict_values(self, x):
            return None
    return Rec()


TR = {"F": [0.3, -1.2, 2.0, 1.1, -0.6, 0.0], "I": [2, -1, 0, 1, -2, 1], "2": [0, 1, 1, 0, 1, 0], "3": [2, 0, 1, 1, 0, 2]}


def train_x(spec, n=6):
    return np.array([[TR[t][(i + 2 * k) % 6] for k, t in enumerate(spec)] for i in range(n)], dtype=float)


def seen(S, specs, folded=True, ctx=True):
    """what reaches the wrapped model"""
    from smt.applications import mixed_integer as mi
    spec = S.pick("types", list(specs))
    xt, xl = types(spec), [[-2, 3] if t == "I" else l for t, l in zip(spec, limits(spec))]
    rec = recorder()
    w = mi.MixedIntegerContext(xt, xl, work_in_folded_space=folded).build_surrogate_model(rec) if ctx else mi.MixedIntegerSurrogateModel(xt, xl, rec, input_in_folded_space=folded)
    X = train_x(spec)
    U = mi.unfold_with_enum_mask(xt, X)
    y = S.reals("y_" + spec, (6, 1), -2, 2)
    w.set_training_values(S.arr((X if folded else U).copy()), y)
    w.train()
    for i in range(6):
        S.eq("training output handed on", rec.vals[1][i, 0], y[i, 0], tol=0)
        for k in range(dim(spec)):
            S.eq("training point handed on unfolded", rec.vals[0][i, k], U[i, k], tol=0)
    if folded:
        x = S.np.array([[S.pick("e%d_%s" % (k, t), range(int(t))) * 1.0 if t not in "FI" else S.real("x%s%d" % (spec, k), -3, 3) for k, t in enumerate(spec)]])
    else:
        x = S.reals("x_" + spec, (1, dim(spec)), -3, 3)
    keep = x.copy()
    for f in (w.predict_values, w.predict_variances):
        r = f(x)
        S.true("shape of the prediction", tuple(r.shape) == (1, 1))
        v = rec.seen[-1]
        S.true("shape seen by the wrapped model", tuple(v.shape) == (1, dim(spec)))
        valid(S, spec, v[0], False, "point seen by the wrapped model")
        S.eq("prediction handed back", r[0, 0], v[0, 0], tol=0)
        c = mi.cast_to_discrete_values(xt, mi.unfold_with_enum_mask(xt, x) if folded else x)
        for k in range(dim(spec)):
            S.true("point seen is the cast of the raw point", v[0, k] == c[0, k])
    for k in range(x.shape[1]):
        S.eq("argument unchanged", x[0, k], keep[0, k], tol=0)


def same(S, spec="F2I", model="QP"):
    """the same prediction for a raw point and for the point it casts to"""
    from smt.applications import mixed_integer as mi
    import smt.surrogate_models as sm
    S.rint_fork()
    xt, xl = types(spec), [[-2, 3] if t == "I" else l for t, l in zip(spec, limits(spec))]
    X = train_x(spec)
    y = np.array([[1.0], [-0.5], [0.7], [2.0], [0.1], [1.4]])

    def go():
        m = mi.MixedIntegerContext(xt, xl).build_surrogate_model(dict(KRG=lambda: sm.KRG(theta0=[0.1], print_global=False), LS=lambda: sm.LS(print_global=False), QP=lambda: sm.QP(print_global=False))[model]())
        m.set_training_values(X.copy(), y.copy())
        m.train()
        return m
    m = S.concretely("w" + model + spec, go)
    base = [[0.3 if t == "F" else float(np.round(TR["I"][k])) if t == "I" else float(k % int(t)) for k, t in enumerate(spec)]]
    x = S.np.array([[S.real("d%d" % k, -0.45, 0.45) + base[0][k] if t == "I" else base[0][k] for k, t in enumerate(spec)]])
    S.eq("same prediction for all raw integers that round to the same value", m.predict_values(x)[0, 0], m.predict_values(S.arr(np.array(base)))[0, 0])
    if model == "KRG":
        S.eq("same variance", m.predict_variances(x)[0, 0], m.predict_variances(S.arr(np.array(base)))[0, 0])


def obligations(tier):
    o = []

    def add(_n, fn=sampling, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200, feas_ms=200, max_paths=20000)))
    L1, L2, L3 = ["F", "I", "2", "3"], ["F2", "2F", "I3", "3I", "FI", "22"], ["F2I", "3FI", "I2F", "2IF"]
    for f in (True, False):
        t = "folded" if f else "unfolded"
        add("sampling-1-" + t, specs=L1, folded=f, n=2)
        add("sampling-2-" + t, specs=L2, folded=f)
        add("sampling-3-" + t, specs=L3, folded=f, ctx=False)
        add("seen-1-" + t, fn=seen, specs=L1, folded=f)
        add("seen-2-" + t, fn=seen, specs=L2, folded=f)
        add("seen-3-" + t, fn=seen, specs=L3, folded=f, ctx=False)
        for M, kw in (("FullFactorial", {}), ("Random", {}), ("LHS", dict(criterion="maximin")), ("LHS", dict(criterion="center"))):
            for spec in ("F3I", "2I"):
                add("real-%s-%s-%s-%s" % (M, kw.get("criterion", ""), spec, t), fn=real, M=M, kw=kw, spec=spec, folded=f)
    for m in ("LS", "QP", "KRG"):
        for spec in ("F2I", "I3", "IF"):
            if m != "QP" or spec == "IF":
                add("same-%s-%s" % (m, spec), fn=same, spec=spec, model=m)
    return o
