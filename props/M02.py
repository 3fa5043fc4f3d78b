"""Variable-fidelity modelling: composition of low-fidelity and bridge model, bridge data, user options untouched."""
import numpy as np
from .common import *

BOUNDS = ("symbolic training outputs (boxes in the code), symbolic prediction points in [-0.25,1.25]^nx, 1-2 inputs, additive and multiplicative bridge; "
          "component models LS, QP, RBF, IDW (symbolic outputs), KRG, KPLS, GEKPLS (concrete outputs), and arbitrary affine stand-in components for the bridge data and the derivative data")
OUTSIDE = "other training inputs; low-fidelity values closer to zero than 0.2 (the multiplicative bridge divides by them)"
NEEDS_CPP = True
XL = np.array([[0.0, 0.1], [1.0, 0.5], [0.3, 0.9], [0.7, 0.2], [0.5, 0.6], [0.1, 0.7], [0.9, 0.95], [0.45, 0.05]])
LFY = np.array([[1.0], [2.0], [1.5], [3.0], [2.5], [1.3], [0.9], [2.2]])
HFY = np.array([[2.0], [-1.5], [0.5], [1.0]])


def opts_same(S, d, keep):
    S.true("options supplied by the user unchanged", set(d) == set(keep) and all(d[k] is keep[k] for k in keep))


def comp(S, lf="LS", br="LS", kind="Additive", nx=2, ny=1, sym=True, olf=None, obr=None, interp=None, tol=1e-6, shared=False, nH=4, symlf=True):
    import smt.surrogate_models as M
    from smt.applications import VFM
    XX = XL[:, :nx]
    XH = XX[2:2 + nH] if nx > 1 else XX[[0, 1, 2, 4]]
    olf, obr = dict(olf or {}, print_global=False), dict(obr or {}, print_global=False)
    if shared:
        obr = olf
    kl, kb = dict(olf), dict(obr)
    n = len(XX)
    if sym:
        yl = S.arr(LFY[:n].copy()) if not symlf else S.reals("yl", (n, ny), 1, 2) if kind == "Multiplicative" else S.reals("yl", (n, ny), -2, 2)
        yh = S.reals("yh", (nH, ny), -2, 2)
    else:
        yl, yh = LFY[:n].copy(), HFY[:nH].copy()

    def build():
        a, b = np.array(yl), np.array(yh)
        m = VFM(type_bridge=kind, name_model_LF=lf, name_model_bridge=br, X_LF=XX.copy(), y_LF=yl, X_HF=XH.copy(), y_HF=yh, options_LF=olf, options_bridge=obr)
        m._apply()
        f = getattr(M, lf)(**{k: v for k, v in kl.items()})
        f.set_training_values(XX, yl)
        f.train()
        fh = f.predict_values(XH)
        g = getattr(M, br)(**{k: v for k, v in kb.items()})
        g.set_training_values(XH, yh - fh if kind == "Additive" else yh / fh)
        g.train()
        return m, f, g
    if sym:
        m, f, g = build()
    else:
        m, f, g = S.concretely("built", build)
    opts_same(S, olf, kl)
    opts_same(S, obr, kb)
    if interp is not None:
        v = m.predict_values(S.arr(XH.copy()))
        for i in range(nH):
            for j in range(ny):
                S.eq("reproduces the high-fidelity data", v[i, j], yh[i, j], tol=interp)
    x = S.reals("x", (1, nx), -0.25, 1.25)
    v = m.predict_values(x)
    S.true("shape", tuple(v.shape) == (1, ny))
    a, b = f.predict_values(x), g.predict_values(x)
    for j in range(ny):
        S.eq("composition", v[0, j], a[0, j] + b[0, j] if kind == "Additive" else a[0, j] * b[0, j], tol=tol)


def stubs(S, nx, rec):
    """stand-in surrogate with an arbitrary affine prediction"""
    from smt.surrogate_models.surrogate_model import SurrogateModel

    class Stub(SurrogateModel):
        name = "Stub"

        def _initialize(self):
            super()._initialize()
            self.options.declare("tag", "", types=str)
            self.supports["derivatives"] = True
            self.supports["training_derivatives"] = True

        def _train(self):
            rec[self.options["tag"]] = self
            self.c = S.reals("c" + self.options["tag"], (nx + 1,), -1, 1)

        def _predict_values(self, x):
            return S.np.array([[3.5 + self.c[0] + sum(self.c[1 + k] * x[i, k] for k in range(nx))] for i in range(len(x))])

        def _predict_derivatives(self, x, kx):
            return S.np.array([[self.c[1 + kx]] for i in range(len(x))])
    return Stub


def data(S, kind="Additive", nx=2, lf_d=False, br_d=False, n=2):
    """bridge data from an arbitrary low-fidelity model, derivative data, composition and its derivatives"""
    from smt.applications import VFM
    rec = {}
    K = stubs(S, nx, rec)
    XH = S.reals("X", (n, nx), 0, 1)
    yl, yh = S.reals("yl", (3, 1), -2, 2), S.reals("yh", (n, 1), -2, 2)
    kw = {}
    olf, obr = dict(tag="L"), dict(tag="B")
    if lf_d:
        kw["dy_LF"] = S.reals("dl", (3, nx), -2, 2)
        olf["deriv"] = True
    if br_d:
        kw["dy_HF"] = S.reals("dh", (n, nx), -2, 2)
        obr["deriv"] = True
    kl, kb = dict(olf), dict(obr)
    XLo = np.array([[0.1, 0.2], [0.5, 0.9], [0.8, 0.3]])[:, :nx]
    m = VFM(type_bridge=kind, name_model_LF=K, name_model_bridge=K, X_LF=S.arr(XLo.copy()), y_LF=yl, X_HF=XH, y_HF=yh, options_LF=olf, options_bridge=obr, **kw)
    x = S.reals("x", (2, nx), 0, 1)
    v = m.predict_values(x)
    opts_same(S, olf, kl)
    opts_same(S, obr, kb)
    L, B = rec["L"], rec["B"]
    S.true("low-fidelity model trained on the low-fidelity data only", set(L.training_points) == {None} and set(L.training_points[None]) == set(range(1 + (nx if lf_d else 0))))
    S.true("bridge data", set(B.training_points[None]) == set(range(1 + (nx if br_d else 0))))
    for i in range(3):
        S.eq("low-fidelity outputs", L.training_points[None][0][1][i, 0], yl[i, 0], tol=0)
        for k in range(nx):
            S.eq("low-fidelity inputs", L.training_points[None][0][0][i, k], XLo[i, k], tol=0)
            if lf_d:
                S.eq("low-fidelity derivative data", L.training_points[None][k + 1][1][i, 0], kw["dy_LF"][i, k], tol=0)
    fl = L._predict_values(XH)
    for i in range(n):
        yb = B.training_points[None][0][1][i, 0]
        S.eq("bridge output", yb + fl[i, 0] if kind == "Additive" else yb * fl[i, 0], yh[i, 0])
        for k in range(nx):
            S.eq("bridge inputs", B.training_points[None][0][0][i, k], XH[i, k], tol=0)
            if br_d:
                db = B.training_points[None][k + 1][1][i, 0]
                dl = L.c[1 + k]
                S.eq("bridge derivative data", db + dl if kind == "Additive" else db * fl[i, 0] + yb * dl, kw["dy_HF"][i, k])
    a, b = L._predict_values(x), B._predict_values(x)
    for i in range(2):
        S.eq("composition", v[i, 0], a[i, 0] + b[i, 0] if kind == "Additive" else a[i, 0] * b[i, 0])
        for k in range(nx):
            d = m.predict_derivatives(x, k)
            S.eq("derivative of the composition", d[i, 0], L.c[1 + k] + B.c[1 + k] if kind == "Additive" else L.c[1 + k] * b[i, 0] + a[i, 0] * B.c[1 + k])
            S.eq("derivatives in all directions", m.predict_derivatives(x, None)[i, k], d[i, 0])


def refuse(S):
    from smt.applications import VFM
    X, y = np.array([[0.0], [1.0], [2.0]]), np.array([[1.0], [2.0], [0.5]])
    for kw in (dict(X_LF=X, y_LF=y, X_HF=X), dict(X_LF=X, y_LF=y, X_HF=X, y_HF=y, name_model_LF="nope"), dict(X_LF=X, y_LF=y, X_HF=X, y_HF=y, name_model_bridge="nope")):
        try:
            VFM(**dict(dict(name_model_LF="LS", name_model_bridge="LS"), **kw)).predict_values(X)
            ok = False
        except (ValueError, AssertionError):
            ok = True
        S.true("incomplete or unknown configuration refused", ok)


def obligations(tier):
    o = []

    def add(_n, fn=comp, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200, feas_ms=200, max_paths=3000)))
    for kind in ("Additive", "Multiplicative"):
        add("data-%s" % kind, fn=data, kind=kind)
        add("data-%s-derivs" % kind, fn=data, kind=kind, lf_d=True, br_d=True)
        add("data-%s-bridge-derivs" % kind, fn=data, kind=kind, br_d=True, nx=1, n=3)
        add("data-%s-lf-derivs" % kind, fn=data, kind=kind, lf_d=True, nx=1)
        add("LS-RBF-%s" % kind, kind=kind, br="RBF", obr=dict(d0=0.4), interp=1e-6, symlf=kind == "Additive")
        if tier != "quick":
            add("LS-RBF-%s-symbolic" % kind, kind=kind, br="RBF", obr=dict(d0=0.4))
        add("QP-LS-%s" % kind, kind=kind, lf="QP")
        add("RBF-QP-%s" % kind, kind=kind, lf="RBF", br="QP", olf=dict(d0=0.5), nx=1)
        add("IDW-RBF-%s" % kind, kind=kind, lf="IDW", br="RBF", obr=dict(d0=0.3), nx=1, interp=1e-6)
        add("KRG-KRG-%s" % kind, kind=kind, lf="KRG", br="KRG", sym=False, olf=dict(theta0=[0.5]), obr=dict(theta0=[0.8]), interp=1e-3)
        add("KRG-shared-options-%s" % kind, kind=kind, lf="KRG", br="KRG", sym=False, olf=dict(theta0=[0.5]), shared=True)
        add("KPLS-RBF-%s" % kind, kind=kind, lf="KPLS", br="RBF", sym=False, olf=dict(theta0=[0.5]), obr=dict(d0=0.4), interp=1e-6)
    add("LS-RBF-2outputs", br="RBF", obr=dict(d0=0.4), ny=2, interp=1e-6)
    add("refuse", fn=refuse)
    return o
