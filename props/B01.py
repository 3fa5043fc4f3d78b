"""Benchmark problems: derivatives are derivatives of the values; wrappers evaluate the wrapped problem."""
import numpy as np
from .common import *

BOUNDS = ("all points of each problem's domain (lengths of the robot arm at least 0.1 and the arm not folded back on its base), 1-2 points per call, every direction; "
          "Branin, Sphere/Rosenbrock/LpNorm/TensorProduct in 1-3 dimensions (orders 1-4, in one dimension 1, 2 and 4; widths 0.5, 1, 2, 10), CantileverBeam 3/6/9, RobotArm 2/4/6, the engineering problems in their own dimension; reduced and n-dimensional wrappers with any filling value w in [0,1]")
OUTSIDE = "use_FD=True (finite differences are approximate by construction); points where the value is not differentiable; rounding"
ASSUMPTIONS = ["complex-step differentiation is modelled with an infinitesimal imaginary part (the code uses 1e-20, whose square is far below the rounding error)"]


def make(name, kw):
    import smt.problems as P
    return getattr(P, name)(**kw)


def pts(S, p, npts, lo=None, hi=None):
    xl = np.asarray(p.xlimits, dtype=float)
    n = xl.shape[0]
    x = S.np.array([[S.real("x[%d,%d]" % (i, k), float(xl[k, 0] if lo is None else max(lo[k], xl[k, 0])), float(xl[k, 1] if hi is None else min(hi[k], xl[k, 1]))) for k in range(n)] for i in range(npts)])
    return x


def scale(S, f, x, k):
    return 1.0


def scen(S, name="Sphere", npts=1, dirs=None, lo=None, cplx=False, **kw):
    p = make(name, kw)
    n = p.xlimits.shape[0]
    S.true("dimension", n == p.options["ndim"])
    if cplx:
        p.options["return_complex"] = True
    lo = [lo] * n if lo is not None else None
    if name == "RobotArm" or name == "NdimRobotArm":
        lo = [0.1 if k % 2 == 0 else 0.0 for k in range(n)] if name == "RobotArm" else None
    x = pts(S, p, npts, lo)
    f = lambda z: p(z)
    v = p(x)
    S.true("value shape", tuple(v.shape) == (npts, 1))
    for i in range(npts):
        S.eq("value of a point does not depend on the others", v[i], p(x[i:i + 1])[0])
    for k in (range(n) if dirs is None else dirs):
        d = p(x, k)
        S.true("derivative shape", tuple(d.shape) == (npts, 1))
        for i in range(npts):
            S.grad("derivative", f, x, (i, k), d[i], out=(i,))


def reduced(S, name="Rosenbrock", dims=(0, 2), ndim=3, npts=1, w=None, n=None, lo=None, **kw):
    """the wrapped problem at the point filled with w"""
    import smt.problems as P
    inner = make(name, dict(ndim=ndim, **kw))
    wv = S.real("w", 0, 1) if w is None else w
    p = P.ReducedProblem(inner, n if n is not None else list(dims), w=wv)
    ids = list(range(n)) if n is not None else list(dims)
    S.true("dimension", p.options["ndim"] == len(ids))
    for j, d in enumerate(ids):
        S.eq("limits", p.xlimits[j], inner.xlimits[d])
    x = pts(S, p, npts, [lo] * len(ids) if lo is not None else None)
    full = S.np.array([[x[i, ids.index(d)] if d in ids else (1 - wv) * float(inner.xlimits[d, 0]) + wv * float(inner.xlimits[d, 1]) for d in range(ndim)] for i in range(npts)])
    S.eq("value of the wrapped problem", p(x), inner(full))
    for j, d in enumerate(ids):
        S.eq("derivative of the wrapped problem", p(x, j), inner(full, d))


def ndim_wrap(S, name="NdimRosenbrock", ndim=2, npts=1, w=0.2):
    """n-dimensional variants: the documented selection of inputs of the wrapped problem"""
    import smt.problems as P
    if name == "NdimStepFunction":
        p = P.NdimStepFunction(ndim=ndim, width=w)
        inner, ids, nn, wv = P.TensorProduct(ndim=ndim, func="tanh", width=w), list(range(ndim)), ndim, 0.0
    else:
        wv = S.real("w", 0.1, 0.9)
        p = getattr(P, name)(ndim=ndim, w=wv)
        if name == "NdimRosenbrock":
            inner, ids = P.Rosenbrock(ndim=ndim + 1), list(range(1, ndim + 1))
        elif name == "NdimCantileverBeam":
            inner, ids = P.CantileverBeam(ndim=3 * ndim), list(range(1, 3 * ndim, 3))
        else:
            inner, ids = P.RobotArm(ndim=2 * (ndim + 1)), list(range(3, 2 * (ndim + 1), 2))
        nn = inner.options["ndim"]
    x = pts(S, p, npts)
    full = S.np.array([[x[i, ids.index(d)] if d in ids else (1 - wv) * float(inner.xlimits[d, 0]) + wv * float(inner.xlimits[d, 1]) for d in range(nn)] for i in range(npts)])
    S.eq("value of the wrapped problem", p(x), inner(full))
    S.true("dimension", p.options["ndim"] == ndim and p.xlimits.shape == (ndim, 2))
    for j, d in enumerate(ids):
        S.eq("limits", p.xlimits[j], inner.xlimits[d])
        S.eq("derivative of the wrapped problem", p(x, j), inner(full, d))


def calls(S, name="Sphere"):
    """1-D arrays are single columns; wrong dimensions and directions are rejected"""
    p = make(name, dict(ndim=1))
    x = S.reals("x", (3,), -1, 1)
    S.eq("1-D array", p(x), p(x.reshape((3, 1))))
    p = make(name, dict(ndim=2))
    bad = S.pick("bad", ["dim", "dim1", "neg", "float"])
    z = S.reals("z", (2, 2), -1, 1)
    try:
        if bad == "dim":
            p(S.reals("zz", (2, 3), -1, 1))
        elif bad == "dim1":
            p(x)
        elif bad == "neg":
            p(z, -1)
        else:
            p(z, 0.0)
        S.true("rejected", False)
    except (ValueError, TypeError):
        S.true("rejected", True)


def obligations(tier):
    o = []
    T = tier != "quick"

    def add(_n, fn=scen, _t=200, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=_t, **({"witnesses": 1}))))
    add("branin", name="Branin", npts=2)
    for n in (1, 2, 3):
        add("sphere-%d" % n, name="Sphere", ndim=n, npts=2)
        add("rosenbrock-%d" % n, name="Rosenbrock", ndim=n, npts=2 if n < 3 else 1)
        for order in (1, 2, 3, 4) if n > 1 else (1, 2, 4):
            add("lpnorm-%d-%d" % (n, order), name="LpNorm", ndim=n, order=order, npts=2 if n == 1 else 1)
        for f in ("cos", "exp", "tanh", "gaussian"):
            add("tensor-%s-%d" % (f, n), name="TensorProduct", ndim=n, func=f, npts=2 if n == 1 else 1)
    for f in ("cos", "exp", "tanh", "gaussian"):
        for wd in (0.5, 2, 10.0):
            add("tensor-%s-w%s" % (f, wd), name="TensorProduct", ndim=2, func=f, width=wd)
    add("tensor-2pts", name="TensorProduct", ndim=2, func="tanh", npts=2)
    add("rosenbrock-4", name="Rosenbrock", ndim=4)
    add("lpnorm-2pts", name="LpNorm", ndim=2, order=3, npts=2)
    for n in (3, 6):
        add("beam-%d" % n, name="CantileverBeam", ndim=n, npts=2 if n == 3 else 1)
    add("beam-load", name="CantileverBeam", ndim=3, P=1.0, E=3.0)
    for n in (2, 4, 6):
        add("robot-%d" % n, name="RobotArm", ndim=n, npts=2 if n == 2 else 1)
    for n in ("WaterFlow", "WaterFlowLFidelity", "WeldedBeam", "WingWeight"):
        add(n, name=n, npts=1)
        add(n + "-2", name=n, npts=2, dirs=(1, 2))
    for h in (0, 1, 2):
        add("TorsionVibration-%d" % h, name="TorsionVibration", dirs=range(5 * h, 5 * h + 5))
    for n in (1, 2):
        add("ndim-rosenbrock-%d" % n, fn=ndim_wrap, ndim=n, npts=2)
        add("ndim-beam-%d" % n, fn=ndim_wrap, name="NdimCantileverBeam", ndim=n)
        add("ndim-robot-%d" % n, fn=ndim_wrap, name="NdimRobotArm", ndim=n)
        add("ndim-step-%d" % n, fn=ndim_wrap, name="NdimStepFunction", ndim=n, w=7.0)
    add("reduced-list", fn=reduced, npts=2)
    add("reduced-int", fn=reduced, n=2)
    add("reduced-order", fn=reduced, dims=(2, 0))
    add("reduced-sphere", fn=reduced, name="Sphere", dims=(1,))
    add("reduced-tensor", fn=reduced, name="TensorProduct", func="exp", dims=(1,), ndim=2)
    add("reduced-lp", fn=reduced, name="LpNorm", dims=(1, 0), ndim=2, w=0.7, order=3)
    add("reduced-beam", fn=reduced, name="CantileverBeam", dims=(1, 2, 5), ndim=6)
    add("complex", name="Branin", npts=1, cplx=True)
    add("calls", fn=calls)
    if T:
        add("beam-9", name="CantileverBeam", ndim=9, _t=900)
        add("robot-8", name="RobotArm", ndim=8, _t=900)
        add("rosenbrock-6", name="Rosenbrock", ndim=6, npts=2, _t=900)
        for n in ("WaterFlow", "WaterFlowLFidelity", "WeldedBeam", "WingWeight"):
            add(n + "-2all", name=n, npts=2, _t=900)
        add("ndim-rosenbrock-4", fn=ndim_wrap, ndim=4, npts=2, _t=900)
        add("ndim-beam-4", fn=ndim_wrap, name="NdimCantileverBeam", ndim=3, _t=900)
    return o
