"""Training with a cache directory gives the model that training afresh gives."""
import copy, os, shutil, tempfile
import numpy as np
from .common import *
from . import rmts_common as R

NEEDS_CPP = True
BOUNDS = ("two or three trainings sharing a cache directory: identical, or differing in one training output (symbolic, every position), one input, one option, the class, the shape, the derivative data; a new model or the same object trained again; "
          "truncated and empty cache files; symbolic training outputs of [-4,4] and prediction points of [-2,2] for RBF, IDW, LS, QP; concrete data, symbolic prediction points for RMTB/RMTC")
OUTSIDE = "concurrent writers; entries written by other versions; md5 collisions"
ASSUMPTIONS = ["pickling is injective on symbolic terms (a term is pickled as its hash-consed node)"]
LIM = [-1.0, 2.0]


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="t03_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def make(model, d, nx=1, **kw):
    import smt.surrogate_models as M
    if model in ("RMTB", "RMTC"):
        kw.setdefault("xlimits", np.array([LIM] * nx))
        kw.setdefault("solver", "lu")
        kw.setdefault("derivative_solver", "lu")
        kw.setdefault("nonlinear_maxiter", 3)
        kw.setdefault("regularization_weight", 1e-5)      # well-conditioned: rounding is not the subject
        kw.setdefault(*(("num_ctrl_pts", 4) if model == "RMTB" else ("num_elements", 2)))
    if d is not None:
        kw["data_dir"] = d
    return getattr(M, model)(print_global=False, **kw)


def fit(S, m, x, y, dy=None):
    conc = m.name in ("RMTB", "RMTC", "RMTS")
    with S.off() if conc else contextlib_null():
        m.set_training_values(x, y)
        if dy is not None:
            m.set_training_derivatives(x, dy, 0)
        m.train()
    return m


def contextlib_null():
    import contextlib
    return contextlib.nullcontext()


def same(S, a, b, x, what=""):
    """the two models are the same function"""
    S.eq(what + "values", a.predict_values(x), b.predict_values(x))
    if a.supports["derivatives"]:
        for k in range(x.shape[1]):
            S.eq(what + "derivatives", a.predict_derivatives(x, k), b.predict_derivatives(x, k))
    if a.supports["output_derivatives"]:
        p, q = a.predict_output_derivatives(x), b.predict_output_derivatives(x)
        S.true(what + "output derivative keys", sorted(map(str, p)) == sorted(map(str, q)))
        for k in q:
            S.eq(what + "output derivatives", p[k], q[k])


def xpts(nx, n):
    g = np.array([-0.9, 0.4, 1.7, 1.1, -0.2, 0.9, 1.9])
    return np.array([[g[(i * (k + 2) + k) % 7] if k else g[i % 7] for k in range(nx)] for i in range(n)])


def outputs(S, model, n, ny, tag):
    if model in ("RMTB", "RMTC"):
        return np.sin(np.arange(1.0, n * ny + 1)).reshape(n, ny)
    return S.reals(tag, (n, ny), -4, 4)


def change(S, model="RBF", what="none", n=3, nx=1, ny=1, kw=None, kw2=None, model2=None, npred=1, dy=False, reuse=False):
    kw = dict(kw or {})
    kw2 = dict(kw) if kw2 is None else dict(kw2)
    x1 = xpts(nx, n)
    y1 = outputs(S, model, n, ny, "y")
    x2, y2 = x1.copy(), y1.copy()
    d1 = np.cos(x1[:, :1]) + np.zeros((n, ny)) if dy else None
    d2 = d1
    if what == "y":
        i = S.pick("i", list(range(n)))
        y2[i, ny - 1] = y1[i, ny - 1] + 0.5 if model in ("RMTB", "RMTC") else S.real("z", -4, 4)
    elif what == "x":
        i = S.pick("i", list(range(n)))
        x2[i, nx - 1] = x1[i, nx - 1] + 0.03125
    elif what == "perm":
        y2 = y2[::-1].copy()
    elif what == "more":
        x2 = xpts(nx, n + 1)
        y2 = outputs(S, model, n + 1, ny, "w")
    elif what == "dy":
        d2 = d1.copy()
        d2[S.pick("i", list(range(n))), 0] += 0.5
    elif what == "nody":
        d2 = None
    x = S.np.array([[S.real("x[%d,%d]" % (i, k), *(LIM if model in ("RMTB", "RMTC") else (-2, 2))) for k in range(nx)] for i in range(npred)])
    with Dir() as d:
        a = fit(S, make(model, d, nx, **kw), x1, y1, d1)
        fresh1 = fit(S, make(model, None, nx, **kw), x1, y1, d1)
        same(S, a, fresh1, x, "first ")
        m2 = model2 or model
        b = a if reuse else make(m2, d, nx, **kw2)
        if reuse:
            for k, v in kw2.items():
                b.options[k] = v
        fit(S, b, x2, y2, d2)
        fresh = fit(S, make(m2, None, nx, **kw2), x2, y2, d2)
        same(S, b, fresh, x, "second ")
        if what != "none" or reuse:
            c = a if reuse else make(model, d, nx, **kw)
            if reuse:
                for k, v in kw.items():
                    c.options[k] = v
                for k in kw2:
                    if k not in kw:
                        c.options[k] = make(model, None, nx, **kw).options[k]
            fit(S, c, x1, y1, d1)
            same(S, c, fresh1, x, "third ")


def broken(S, model="RBF", n=3, nx=1, **kw):
    """a truncated or empty cache file is not used"""
    x1 = xpts(nx, n)
    y1 = outputs(S, model, n, 1, "y")
    x = S.np.array([[S.real("x[%d]" % k, *(LIM if model in ("RMTB", "RMTC") else (-2, 2))) for k in range(nx)]])
    with Dir() as d:
        fit(S, make(model, d, nx, **kw), x1, y1)
        how = S.pick("how", ["empty", "half", "last", "junk", "dir"])
        for f in os.listdir(d):
            f = os.path.join(d, f)
            b = open(f, "rb").read()
            if how == "dir":
                continue
            with open(f, "wb") as g:
                g.write(b"" if how == "empty" else b[:len(b) // 2] if how == "half" else b[:-1] if how == "last" else b"junk" + b)
        b = fit(S, make(model, d, nx, **kw), x1, y1)
        same(S, b, fit(S, make(model, None, nx, **kw), x1, y1), x)
        c = fit(S, make(model, d, nx, **kw), x1, y1)
        same(S, c, b, x, "again ")


def energy(S, model="RMTB", nx=1, kw2=None, model2=None, **kw):
    """cached energy terms under other options"""
    x1 = xpts(nx, 5)
    y1 = np.sin(np.arange(1.0, 6)).reshape(5, 1)
    kw2 = dict(kw, **(kw2 or {}))
    x = S.np.array([[S.real("x[%d]" % k, *LIM) for k in range(nx)]])
    with Dir() as d:
        a = fit(S, make(model, d, nx, save_energy_terms=True, **kw), x1, y1)
        same(S, a, fit(S, make(model, None, nx, **kw), x1, y1), x, "first ")
        b = fit(S, make(model2 or model, d, nx, save_energy_terms=True, **kw2), x1, y1)
        same(S, b, fit(S, make(model2 or model, None, nx, **kw2), x1, y1), x, "second ")


OPTS = {"RBF": [dict(d0=2.0), dict(poly_degree=0), dict(poly_degree=1), dict(reg=1e-2)], "IDW": [dict(p=1.0)], "LS": [], "QP": [],
        "RMTB": [dict(order=2), dict(num_ctrl_pts=5), dict(energy_weight=1e-2), dict(approx_order=2), dict(regularization_weight=1e-3), dict(min_energy=False), dict(smoothness=3.0), dict(extrapolate=True),
                 dict(xlimits=np.array([[-1.5, 2.0]])), dict(nonlinear_maxiter=1), dict(line_search="null")],
        "RMTC": [dict(num_elements=3), dict(energy_weight=1e-2), dict(approx_order=2), dict(xlimits=np.array([[-1.0, 2.5]])), dict(smoothness=3.0)]}


def obligations(tier):
    o = []
    T = tier != "quick"

    def add(_n, fn=change, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200 if not T else 600, max_paths=3000, witnesses=2)))
    for m in ("RBF", "IDW", "LS", "QP", "RMTB", "RMTC"):
        n = {"QP": 4, "RMTB": 5, "RMTC": 5}.get(m, 3)
        for w in ("none", "y", "x", "perm", "more"):
            if m == "QP" and w == "x" and False:
                continue
            for reuse in (False, True):
                add("%s-%s%s" % (m, w, "-reuse" if reuse else ""), model=m, what=w, n=n, reuse=reuse)
        add("%s-2out" % m, model=m, what="y", n=n, ny=2)
        if m not in ("QP",):
            add("%s-2d" % m, model=m, what="y", n=n + 1, nx=2, **(dict(kw=dict(order=2, num_ctrl_pts=3)) if m == "RMTB" else dict(kw=dict(num_elements=1)) if m == "RMTC" else {}))
        for i, kw in enumerate(OPTS[m]):
            add("%s-opt%d" % (m, i), model=m, n=n, kw2=kw, what="opt")
            if T:
                add("%s-opt%d-reuse" % (m, i), model=m, n=n, kw2=kw, what="opt", reuse=True)
        add("%s-broken" % m, fn=broken, model=m, n=n)
    for a, b in (("RBF", "IDW"), ("LS", "QP"), ("QP", "LS"), ("IDW", "LS")):
        add("class-%s-%s" % (a, b), model=a, model2=b, n=4, kw2={}, what="class")
    for m in ("RMTB", "RMTC"):
        add("%s-dy" % m, model=m, what="dy", n=4, dy=True)
        add("%s-nody" % m, model=m, what="nody", n=4, dy=True)
        add("%s-energy" % m, fn=energy, model=m)
        add("%s-energy-lim" % m, fn=energy, model=m, kw2=dict(xlimits=np.array([[-1.5, 3.0]])))
        add("%s-energy-smooth" % m, fn=energy, model=m, kw2=dict(smoothness=2.0, energy_weight=1e-2))
        add("%s-energy-size" % m, fn=energy, model=m, kw2=dict(num_ctrl_pts=5) if m == "RMTB" else dict(num_elements=3))
        add("%s-energy-2d" % m, fn=energy, model=m, nx=2, kw2=dict(xlimits=np.array([[-1.0, 3.0], [-2.0, 2.0]])), **(dict(order=[2, 3], num_ctrl_pts=[3, 4]) if m == "RMTB" else dict(num_elements=[1, 2])))
    add("RMTB-energy-order", fn=energy, model="RMTB", kw2=dict(order=2, num_ctrl_pts=3), order=3, num_ctrl_pts=4)
    add("energy-class", fn=energy, model="RMTB", model2="RMTC", kw2={})
    return o
