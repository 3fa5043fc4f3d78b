"""Compiled kernels: every access inside a live buffer, nothing unset used or returned, indices inside the matrix."""
import os
import numpy as np
from .common import *
from .rmts_common import LIMS, grid, fun

NEEDS_CPP = True
BOUNDS = ("prediction points: all reals of [-1e12,1e12] (RMTB/RMTC, IDW) or [-50,50] (RBF); training points: concrete designs and symbolic ones of 2 points (IDW); dimension 1-3; "
          "1-3 points per call; orders 1-5, 1-7 control points, 1-4 elements, scalar and per-dimension options, options of the wrong length or impossible size, derivative directions -2..nx+2; "
          "retraining and prediction after new training data")
OUTSIDE = "NaN coordinates; sizes above the bounds (no int overflow of the index products); the Cython layer is represented by its argument checks (the .pyx file is parsed)"
ASSUMPTIONS = ["numpy.empty entries count as unset until something is stored in them"]


class Guard:
    """memory-checked execution: in the symbolic run the IR interpreter checks every access, in the replay sanitizer builds do"""

    def __init__(self, S, raises=()):
        self.S, self.raises = S, raises

    def __enter__(self):
        from engine import cppmod, shim
        cppmod.STRICT[0] = True

        def fill(r, on):
            if r.dtype.kind == 'f':
                if on:
                    r = r.astype(object).view(shim.SymArray)
                    r.fill(cppmod.UNSET)
                else:
                    r.fill(cppmod.NANF)
            elif r.dtype == np.int32:
                r.fill(cppmod.UNSET_INT)
            return r
        if self.S.symbolic:
            shim.EMPTYFILL[0] = fill
        else:
            from engine import sanit
            real = self.real = np.empty
            np.empty = lambda *a, **k: fill(real(*a, **k), False)
            self.rec = sanit.Recorder(os.getcwd())
            self.rec.install()
        return self

    def __exit__(self, t, v, tb):
        from engine import cppmod, shim
        S = self.S
        cppmod.STRICT[0] = False
        if S.symbolic:
            shim.EMPTYFILL[0] = None
            if t is not None and issubclass(t, cppmod.MemoryViolation):
                S.note(str(v))
                S.true("memory safety", False)
                return True
        else:
            np.empty = self.real
            rep = self.rec.run()
            self.rec.remove()
            S.true("memory safety", rep is None)
            if rep is not None and S.fails:
                S.fails[-1] = ("memory safety", rep)
                return True
        if t is not None and self.raises and issubclass(t, self.raises):
            S.true("memory safety", True)
            return True
        return False


def used(S, y):
    """the entries of a result have been set"""
    from engine import cppmod, shim
    p = shim.plain(y) if S.symbolic else np.asarray(y)
    ok = all(v is not cppmod.UNSET and not (isinstance(v, float) and v != v) for v in np.asarray(p).ravel().tolist())
    S.true("entries set", ok)


def make(model, nx, **kw):
    import smt.surrogate_models as M
    if model in ("RMTB", "RMTC"):
        kw.setdefault("solver", "lu")
        kw.setdefault("derivative_solver", "lu")
        kw.setdefault("xlimits", LIMS[:nx].copy())
    return getattr(M, model)(print_global=False, **kw)


def data(nx, m, ny=1):
    x = grid(nx, m)
    y = fun(x)
    return x, (np.hstack([y, y ** 2]) if ny == 2 else y)


def train(S, sm, x, y, derivs=False):
    with S.off():
        sm.set_training_values(x, y)
        if derivs:
            for k in range(x.shape[1]):
                sm.set_training_derivatives(x, np.cos(x[:, k:k + 1]), k)
        sm.train()


def points(S, nx, npts, big, tag="x"):
    if big == "conc":
        a = grid(nx, 4)
        return S.arr(a[:npts] * 1.01)
    r = 1e12 if big else 50.0
    return S.np.array([[S.real("%s[%d,%d]" % (tag, i, k), -r, r) for k in range(nx)] for i in range(npts)])


def calls(S, sm, x, nx, output=True, ks=None):
    used(S, sm.predict_values(x))
    for k in (range(nx) if ks is None else ks):
        used(S, sm.predict_derivatives(x, k))
    if output and sm.supports["output_derivatives"]:
        d = sm.predict_output_derivatives(x)
        for v in d.values():
            used(S, v)


def scen(S, model="IDW", nx=1, npts=1, m=2, ny=1, big=True, derivs=False, output=True, ks=None, raises=(), **kw):
    with Guard(S, raises):
        with S.off():
            sm = make(model, nx, **kw)
        train(S, sm, *data(nx, m, ny), derivs=derivs)
        calls(S, sm, points(S, nx, npts, big), nx, output, ks)


def again(S, model="IDW", nx=1, nx2=1, m=3, m2=2, big="conc", train2=True, **kw):
    """new training data, with or without training again"""
    with Guard(S, () if train2 else (ValueError, IndexError, KeyError, TypeError, AttributeError)):
        with S.off():
            sm = make(model, nx, **kw)
        train(S, sm, *data(nx, m))
        x, y = data(nx2, m2)
        if nx2 != nx and model in ("RMTB", "RMTC"):
            sm.options["xlimits"] = LIMS[:nx2].copy()
        if train2:
            train(S, sm, x, y)
        else:
            with S.off():
                sm.set_training_values(x, y)
        calls(S, sm, points(S, nx2, 2, big), nx2)


def symtrain(S, nt=2, nx=1, p=2, npts=1):
    with Guard(S):
        sm = make("IDW", nx, p=p)
        xt = S.reals("t", (nt, nx), -5, 5)
        sm.set_training_values(xt, S.np.array(np.arange(1.0, nt + 1)[:, None]))
        sm.train()
        calls(S, sm, points(S, nx, npts, False), nx, output=False)


def width(S, model="RMTC", nx=2, w=1, **kw):
    """derivative data with another number of inputs than the values"""
    with Guard(S, (ValueError, IndexError, AssertionError)):
        with S.off():
            sm = make(model, nx, **kw)
            x, y = data(nx, 4)
            sm.set_training_values(x, y)
            sm.set_training_derivatives(grid(w, 4), np.cos(grid(w, 4)[:, :1]), 0)
            sm.train()
        calls(S, sm, points(S, nx, 1, "conc"), nx)


def obligations(tier):
    o = []
    T = tier != "quick"
    bad = (ValueError, IndexError, TypeError, AssertionError, KeyError)

    def add(_n, fn=scen, _t=200, _p=3000, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=_t, max_paths=_p, witnesses=1, stop_after=2)))
    for nx, npts, m in ((1, 3, 1), (1, 2, 3), (2, 1, 2), (3, 1, 1)) + (((2, 2, 2),) if T else ()):
        add("IDW-%d-%d-%d" % (nx, npts, m), nx=nx, npts=npts, m=m, ny=1 + nx % 2)
    add("IDW-p1", p=1, nx=1, npts=1, m=3)
    add("IDW-sym", fn=symtrain)
    add("IDW-sym-2d", fn=symtrain, nx=2)
    for pd in (-1, 0, 1):
        for nx, npts, m in ((1, 3, 3), (2, 2, 2), (3, 1, 2)):
            add("RBF-%d-%d-%d-%d" % (pd, nx, npts, m), model="RBF", nx=nx, npts=npts, m=m, big=False, poly_degree=pd, ny=1 + nx % 2, **({"d0": [1.0, 2.0, 3.0][:nx]} if pd == 0 else {"d0": 2}))
    for order, nc in ((1, 1), (1, 3), (2, 2), (2, 5), (3, 4), (4, 4), (5, 7)):
        for e in (False, True):
            add("RMTB-1d-%d-%d-%s" % (order, nc, e), model="RMTB", m=4, order=order, num_ctrl_pts=nc, extrapolate=e, output=order > 2)
    add("RMTB-1d-2pts", model="RMTB", m=4, npts=2, order=2, num_ctrl_pts=3)
    for e in (False, True):
        add("RMTB-2d-%s" % e, model="RMTB", nx=2, m=3, order=[2, 3], num_ctrl_pts=[4, 3], extrapolate=e, output=not e)
        add("RMTB-3d-%s" % e, model="RMTB", nx=3, m=3, order=[2, 1, 2], num_ctrl_pts=[2, 2, 3], extrapolate=e, output=False, ks=(1,))
        add("RMTC-2d-%s" % e, model="RMTC", nx=2, m=4, num_elements=[2, 1], extrapolate=e, output=not e)
        add("RMTC-3d-%s" % e, model="RMTC", nx=3, m=4, num_elements=1, extrapolate=e, output=False, ks=(2,))
        for ne in (1, 2, 4):
            add("RMTC-1d-%d-%s" % (ne, e), model="RMTC", m=6, num_elements=ne, extrapolate=e)
    add("RMTB-derivs", model="RMTB", nx=2, m=3, order=3, num_ctrl_pts=4, derivs=True)
    add("RMTC-derivs", model="RMTC", nx=2, m=3, num_elements=2, derivs=True)
    add("RMTC-1d-2pts", model="RMTC", m=4, npts=2, num_elements=2)
    add("RMTC-2out", model="RMTC", m=4, ny=2, num_elements=2)
    # impossible or mis-sized options
    for nm, mod, nx, kw in (("RMTB-few", "RMTB", 1, dict(order=3, num_ctrl_pts=2)), ("RMTB-few4", "RMTB", 1, dict(order=4, num_ctrl_pts=2)), ("RMTB-few1", "RMTB", 1, dict(order=5, num_ctrl_pts=1)),
                            ("RMTB-order0", "RMTB", 1, dict(order=0, num_ctrl_pts=3)), ("RMTB-neg", "RMTB", 1, dict(order=-1, num_ctrl_pts=3)),
                            ("RMTB-short", "RMTB", 2, dict(order=[3], num_ctrl_pts=4)), ("RMTB-short2", "RMTB", 2, dict(order=3, num_ctrl_pts=[4])), ("RMTB-short3", "RMTB", 3, dict(order=[3], num_ctrl_pts=[4])),
                            ("RMTB-long", "RMTB", 1, dict(order=[3, 2], num_ctrl_pts=4)), ("RMTB-longc", "RMTB", 1, dict(order=3, num_ctrl_pts=[4, 3])), ("RMTB-limits", "RMTB", 2, dict(order=3, num_ctrl_pts=4, xlimits=LIMS[:1].copy())),
                            ("RMTC-zero", "RMTC", 1, dict(num_elements=0)), ("RMTC-neg", "RMTC", 1, dict(num_elements=-1)), ("RMTC-neg2", "RMTC", 2, dict(num_elements=[-1, -2])), ("RMTC-short", "RMTC", 2, dict(num_elements=[2])),
                            ("RMTC-short3", "RMTC", 3, dict(num_elements=[1])), ("RMTC-long", "RMTC", 1, dict(num_elements=[2, 3])), ("RMTC-limits", "RMTC", 2, dict(num_elements=2, xlimits=LIMS[:1].copy())),
                            ("RBF-short", "RBF", 2, dict(d0=[1.0])), ("RBF-short3", "RBF", 3, dict(d0=[1.0, 2.0])), ("RBF-long", "RBF", 1, dict(d0=[1.0, 2.0])), ("RBF-array", "RBF", 2, dict(d0=np.array([2.0])))):
        add("bad-" + nm, model=mod, nx=nx, m=4 if mod != "RBF" else 2, npts=1, big="conc", raises=bad, **kw)
    # directions outside the inputs
    for mod, kw in (("IDW", {}), ("RBF", dict(poly_degree=1)), ("RMTB", dict(order=2, num_ctrl_pts=3)), ("RMTC", dict(num_elements=1))):
        for nx in (1, 2):
            for k in (-2, -1, nx, nx + 2):
                add("dir-%s-%d-%d" % (mod, nx, k), model=mod, nx=nx, m=3, npts=2, big="conc", ks=(k,), output=False, raises=bad, **kw)
        add("again-" + mod, fn=again, model=mod, m=4, m2=6, **kw)
        add("again-dim-" + mod, fn=again, model=mod, m=4, m2=4, nx=2, nx2=2, **kw)
        for m, m2, nx, nx2 in ((6, 4, 1, 1), (4, 6, 1, 1), (4, 4, 2, 1), (4, 4, 1, 2)):
            add("stale-%s-%d-%d-%d-%d" % (mod, m, m2, nx, nx2), fn=again, model=mod, m=m, m2=m2, nx=nx, nx2=nx2, train2=False, **kw)
    for mod in ("RMTB", "RMTC"):
        for nx, w in ((2, 1), (1, 2)):
            add("width-%s-%d-%d" % (mod, nx, w), fn=width, model=mod, nx=nx, w=w, **(dict(order=2, num_ctrl_pts=3) if mod == "RMTB" else dict(num_elements=1)))
    return o
