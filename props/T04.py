"""Prediction is pointwise, repeatable, leaves the caller's arrays alone; training again on the same data gives the same model."""
import numpy as np
from .common import *
from .D05 import XA, lo, mid, hi

NEEDS_CPP = True
BOUNDS = ("batches of 2 and 3 points: all reals of [-0.5,1.5]^nx, the other points symbolic too (smooth models) or concrete (training points included); nx 1-3; every surrogate type with the options listed in obligations(); "
          "retraining: twice on the same data, and after training on data of another size, prediction compared at all points")
OUTSIDE = "other training sets; retraining draws the same random numbers (generators reseeded before each training)"
ASSUMPTIONS = ["training runs concretely on the real libraries"]
KRGS = ("KRG", "KPLS", "KPLSK", "GEKPLS")
MF = ("MFK", "MFKPLS", "MFKPLSK")


def design(nx, n, ny=1):
    x = XA[:n, :nx].copy()
    y = hi(x)
    return x, (np.hstack([y, lo(x) * 0.5]) if ny == 2 else y)


def derivs(x, ny=1):
    return [np.repeat(np.cos((k + 1.0) * x[:, [0]]) + 0.3 * x[:, [-1]], ny, axis=1) for k in range(x.shape[1])]


def new(model, nx, kw):
    import smt.surrogate_models as M
    import smt.applications as A
    kw = {k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    if model in KRGS or model in MF or model == "MGP":
        kw.setdefault("theta0", [0.5] * (nx if model in ("KRG", "MFK") else kw.get("n_comp", 1)))
    if model == "GEKPLS":
        kw.setdefault("xlimits", np.array([[-0.1, 1.1]] * nx))
        kw.setdefault("delta_x", 0.1)
    if model in ("RMTB", "RMTC"):
        kw.setdefault("xlimits", np.array([[-0.5, 1.5]] * nx))
        kw.setdefault("solver", "lu")
        kw.setdefault("derivative_solver", "lu")
        kw.setdefault("regularization_weight", 1e-6)
        kw.setdefault(*(("num_ctrl_pts", 4) if model == "RMTB" else ("num_elements", 2)))
    if model == "GENN":
        kw.update(is_print=False, num_iterations=3, num_epochs=2, seed=5, deep=1, wide=2)
    if model in MF:
        from smt.applications import mfk, mfkpls, mfkplsk
        return dict(MFK=mfk.MFK, MFKPLS=mfkpls.MFKPLS, MFKPLSK=mfkplsk.MFKPLSK)[model](print_global=False, **kw)
    if model == "MOE":
        return A.MOE(print_global=False, **kw)
    if model == "mixed":
        from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT, INT
        inner = new(kw.pop("inner"), nx, kw)
        return MixedIntegerSurrogateModel([FLOAT] + [INT] * (nx - 1), np.array([[-0.5, 1.5]] * nx), inner)
    if model == "MGP":
        return M.MGP(print_global=False, **kw)
    return getattr(M, model)(print_global=False, **kw)


class Sent:
    """arrays given to the model, with copies"""

    def __init__(self):
        self.l = []

    def __call__(self, a):
        self.l.append((a, a.copy()))
        return a

    def same(self):
        return all(np.array_equal(a, b) for a, b in self.l)


def give(model, m, nx, n, ny, sent, der):
    x, y = design(nx, n, ny)
    if model in MF:
        for i, f in enumerate([lo, mid][:der or 1]):
            xl = XA[:, :nx].copy()
            m.set_training_values(sent(xl), sent(f(xl)), name=i)
        m.set_training_values(sent(x), sent(y))
        return
    if model == "mixed":
        x = np.rint(x * 3) if nx > 9 else np.hstack([x[:, :1], np.rint(x[:, 1:])])
    m.set_training_values(sent(x), sent(y))
    if der or model in ("GEKPLS", "GENN"):
        for k, d in enumerate(derivs(x, ny)):
            m.set_training_derivatives(sent(x.copy()), sent(d), k)


def build(S, model, nx, n, ny, kw, der, key, again=None):
    """trained model; again: None, "same" (trained twice) or "other" (other data in between)"""
    def go():
        import contextlib
        m = new(model, nx, kw)
        sent = Sent()
        if again == "other":
            give(model, m, nx, n - 1, ny, sent, der)
            reseed(S)
            m.train()
        give(model, m, nx, n, ny, sent, der)
        for i in range(2 if again == "same" else 1):
            reseed(S)
            m.train()
        return m, sent
    return S.concretely(key, go)


def reseed(S):
    if S.symbolic:
        S.sh.reseed()
    else:
        from engine import replay
        replay.reseed()


def methods(m, nx, ks=None):
    out = [("values", lambda x: m.predict_values(x))]
    if m.supports["derivatives"] and type(m).__name__ != "MixedIntegerSurrogateModel":
        out += [("derivatives", lambda x, k=k: m.predict_derivatives(x, k)) for k in (range(nx) if ks is None else ks)]
    if m.supports["variances"]:
        out.append(("variances", lambda x: m.predict_variances(x)))
    if m.supports["output_derivatives"] and type(m).__name__ != "MixedIntegerSurrogateModel":
        out.append(("output derivatives", lambda x: m.predict_output_derivatives(x)))
    return out


def refuses(m):
    m = getattr(m, "_surrogate", m)
    o = m.options
    return "corr" in o and (o["corr"] != "squar_exp" or o["poly"] == "quadratic" or "rho_regr" in o and o["rho_regr"] != "constant")


def pts(S, nx, rows, axis=None):
    """symbolic (None) and given points; axis: only this coordinate is symbolic"""
    x = []
    for i, r in enumerate(rows):
        x.append([0.3 if r is None and axis not in (None, k) else S.real("x[%d,%d]" % (i, k), -0.5, 1.5) if r is None else float(r[k]) for k in range(nx)])
    return S.np.array(x)


def scen(S, model="KRG", nx=2, n=6, ny=1, kw=None, der=None, rows=(None, 0), only=None, tol=1e-7, flat=False, axis=None):
    m, sent = build(S, model, nx, n, ny, dict(kw or {}), der, "m")
    S.true("training leaves the given arrays alone", sent.same())
    X = design(nx, n)[0]
    far = np.array([[0.4, 0.2, 1.3], [-0.3, 1.2, 0.7]])
    x = pts(S, nx, [None if r is None else X[r] if r >= 0 else far[r] for r in rows], axis)
    if model == "mixed":
        x = S.np.array([[x[i, k] if k == 0 else float(round(float(far[i % 2, k]))) for k in range(nx)] for i in range(len(rows))])
    given = S.np.array([[v for v in r] for r in x])
    for nm, f in methods(m, nx):
        if only and nm not in only:
            continue
        try:
            a = f(x)
        except ValueError:
            # documented refusal: derivatives of kernels that have none
            S.true("refusal only of derivatives of a non-smooth kernel", nm == "derivatives" and refuses(m))
            continue
        S.eq(nm + ": given points unchanged", x, given, tol=0)
        b = f(x)
        for i in range(len(rows)):
            c = f(x[i:i + 1])
            if isinstance(a, dict):
                for k in a:
                    S.eq(nm + " row by row", a[k][i], c[k][0], tol)
                    S.eq(nm + " repeated", a[k][i], b[k][i], tol)
            else:
                S.eq(nm + " row by row", a[i], c[0], tol)
                S.eq(nm + " repeated", a[i], b[i], tol)
        if flat and nx == 1:
            d = f(x[:, 0])
            if not isinstance(d, dict):
                S.eq(nm + " of a 1-D array", d, a, tol)
    if model in MF:
        v = m.predict_variances_all_levels(x)[0]
        for i in range(len(rows)):
            S.eq("variances of all levels row by row", v[i], m.predict_variances_all_levels(x[i:i + 1])[0][0], tol)
    S.true("prediction leaves the training arrays alone", sent.same())


def retrain(S, model="KRG", nx=2, n=6, ny=1, kw=None, der=None, how="same", tol=1e-5):
    kw = dict(kw or {})
    m1, s1 = build(S, model, nx, n, ny, kw, der, "once")
    m2, s2 = build(S, model, nx, n, ny, kw, der, how, again=how)
    S.true("training leaves the given arrays alone", s1.same() and s2.same())
    x = pts(S, nx, [None])
    if model == "mixed":
        x = S.np.array([[x[0, 0]] + [1.0] * (nx - 1)])
    for (nm, f), (_, g) in zip(methods(m1, nx), methods(m2, nx)):
        if nm == "derivatives" and refuses(m1):
            continue
        a, b = f(x), g(x)
        if isinstance(a, dict):
            for k in a:
                S.eq(nm + " after retraining", b[k], a[k], tol)
        else:
            S.eq(nm + " after retraining", b, a, tol)


def vfm(S, lf="KRG", br="KRG", kind="Additive", nx=2):
    from smt.applications import VFM
    arrs = [XA[:, :nx].copy(), lo(XA[:, :nx]) + 3, XA[2:8, :nx].copy(), hi(XA[2:8, :nx]) + 3]

    def go():
        sent = Sent()
        m = VFM(type_bridge=kind, name_model_LF=lf, name_model_bridge=br, X_LF=sent(arrs[0]), y_LF=sent(arrs[1]), X_HF=sent(arrs[2]), y_HF=sent(arrs[3]), options_LF={}, options_bridge=dict(print_global=False))
        m._apply()
        return m, sent
    m, sent = S.concretely("m", go)
    x = pts(S, nx, [None, XA[3]])
    given = S.np.array([[v for v in r] for r in x])
    fs = [m.predict_values] + [lambda z, k=k: m.predict_derivatives(z, k) for k in range(nx)]
    for f in fs:
        a = f(x)
        S.eq("given points unchanged", x, given, tol=0)
        b = f(x)
        for i in range(2):
            S.eq("row by row", a[i], f(x[i:i + 1])[0])
            S.eq("repeated", a[i], b[i])
    S.true("arrays unchanged", sent.same())


def obligations(tier):
    o = []
    T = tier != "quick"

    def add(_n, fn=scen, _o=None, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200 if not T else 800, max_paths=3000, witnesses=2, **(_o or {}))))
    for model in KRGS:
        for corr in ("squar_exp", "abs_exp", "matern52", "matern32"):
            kw = dict(corr=corr)
            if model != "KRG":
                if corr.startswith("matern") or model == "KPLSK" and corr != "squar_exp":
                    continue
                kw["n_comp"] = 2
            if model == "GEKPLS":
                kw["extra_points"] = 1
            if corr == "squar_exp":
                add("%s-%s" % (model, corr), model=model, kw=kw, rows=(None, 0))
            elif model == "KRG":
                # |x - x_i| splits the paths: one dimension
                add("%s-%s" % (model, corr), model=model, kw=kw, nx=1, n=4, rows=(-1, None))
            else:
                add("%s-%s" % (model, corr), model=model, kw=kw, n=4, rows=(-1, None, 0), axis=1)
            if corr == "squar_exp":
                add("%s-far" % model, model=model, kw=kw, rows=(-1, None, -2))
                if model != "GEKPLS":
                    add("%s-1d" % model, model=model, nx=1, n=5, kw=dict(kw, n_comp=1) if model != "KRG" else kw, rows=(None, 2), flat=True)
            for how in ("same", "other"):
                if corr == "squar_exp" or T:
                    add("retrain-%s-%s-%s" % (model, corr, how), fn=retrain, model=model, kw=kw, how=how)
    add("KRG-sym2", rows=(None, None), nx=1, n=4)
    add("KRG-linear", kw=dict(poly="linear"))
    add("KRG-quad", kw=dict(poly="quadratic"), n=8)
    add("KRG-noise", kw=dict(noise0=[0.05]))
    add("KRG-evalnoise", kw=dict(eval_noise=True))
    add("KRG-het", kw=dict(noise0=[0.01, 0.2, 0.05, 0.1, .02, .03], use_het_noise=True))
    add("KRG-2out", ny=2)
    add("KRG-3d", nx=3, n=8)
    for nm, kw in (("noise", dict(noise0=[0.05])), ("evalnoise", dict(eval_noise=True)), ("tnc", dict(hyper_opt="TNC")), ("linear", dict(poly="linear")), ("nugget", dict(nugget=1e-6)), ("bounds", dict(theta_bounds=[1e-3, 5.0]))):
        for how in ("same", "other"):
            add("retrain-KRG-%s-%s" % (nm, how), fn=retrain, kw=kw, how=how)
    add("retrain-KRG-evalhet", fn=retrain, kw=dict(eval_noise=True, use_het_noise=True))
    add("retrain-KPLS-2out", fn=retrain, model="KPLS", kw=dict(n_comp=1), ny=2)
    for model in MF:
        kw = dict(n_comp=1) if model != "MFK" else {}
        add("%s-2l" % model, model=model, kw=kw, rows=(-1, None))
        add("%s-1d" % model, model=model, kw=kw, nx=1, rows=(None, 2), flat=True)
        add("%s-3l" % model, model=model, kw=kw, nx=1, rows=(None, -1), der=2)
        for how in ("same", "other"):
            add("retrain-%s-%s" % (model, how), fn=retrain, model=model, kw=kw, how=how)
            add("retrain-%s-3l-%s" % (model, how), fn=retrain, model=model, kw=kw, how=how, der=2, nx=1)
    add("MFK-linear", model="MFK", n=8, kw=dict(poly="linear", rho_regr="linear"), rows=(-1, None))
    add("retrain-MFK-linear", fn=retrain, model="MFK", n=8, kw=dict(poly="linear", rho_regr="linear"))
    add("retrain-MFK-noise", fn=retrain, model="MFK", kw=dict(noise0=[[0.01], [0.02]]))
    add("retrain-MFK-evalnoise", fn=retrain, model="MFK", kw=dict(eval_noise=True))
    add("retrain-MFK-theta", fn=retrain, model="MFK", kw=dict(theta0=[[0.5, 0.4], [0.3, 0.2]]), how="other")
    add("MGP", model="MGP", kw=dict(n_comp=1), rows=(-1, None))
    for how in ("same", "other"):
        add("retrain-MGP-%s" % how, fn=retrain, model="MGP", kw=dict(n_comp=1), how=how)
    for nx in (1, 2):
        for model, kws in (("RBF", [dict(), dict(d0=2, poly_degree=1), dict(poly_degree=0)]), ("IDW", [dict(), dict(p=2)]), ("LS", [dict()]), ("QP", [dict()]),
                           ("RMTB", [dict(), dict(extrapolate=True, order=2)]), ("RMTC", [dict(), dict(extrapolate=True)]), ("GENN", [dict()])):
            for i, kw in enumerate(kws):
                smooth = model in ("LS", "QP", "RBF")
                add("%s-%d-%d" % (model, nx, i), model=model, nx=nx, n=6 if model != "QP" else 8, kw=kw, rows=(None, None) if smooth else (0, None), flat=True, ny=1 if nx == 2 else 2)
                if smooth:
                    add("%s-%d-%d-3" % (model, nx, i), model=model, nx=nx, n=6 if model != "QP" else 8, kw=kw, rows=(None, 2, None))
                for how in ("same", "other"):
                    add("retrain-%s-%d-%d-%s" % (model, nx, i, how), fn=retrain, model=model, nx=nx, n=6 if model != "QP" else 8, kw=kw, how=how)
    for model in ("RMTB", "RMTC"):
        add("%s-der" % model, model=model, nx=2, der=True, rows=(0, None))
        add("retrain-%s-der" % model, fn=retrain, model=model, nx=2, der=True)
    for kind in ("Additive", "Multiplicative"):
        for lf, br in (("KRG", "KRG"), ("LS", "RBF"), ("QP", "KRG"), ("IDW", "LS")):
            add("VFM-%s-%s-%s" % (kind, lf, br), fn=vfm, kind=kind, lf=lf, br=br)
    for inner in ("KRG", "LS", "RBF", "IDW"):
        add("mixed-%s" % inner, model="mixed", kw=dict(inner=inner), rows=(None, 0))
        for how in ("same", "other"):
            add("retrain-mixed-%s-%s" % (inner, how), fn=retrain, model="mixed", kw=dict(inner=inner), how=how)
    return o
