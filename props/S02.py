"""Sampling methods: number of points, limits, scaling, options left alone."""
import numpy as np
from .common import *

BOUNDS = "all limits (lower bound in [-10,10], width in [0.1,10], symbolic), all random outcomes, 1-7 points (every number), 1-3 inputs, every sampling method and criterion"
OUTSIDE = "floating-point rounding of the scaling; more points"


def lims(S, nx):
    lo, w = S.reals("lo", (nx,), -10, 10), S.reals("w", (nx,), 0.1, 10)
    return lo, w, S.np.array([[lo[k], lo[k] + w[k]] for k in range(nx)])


def scen(S, M="Random", nx=2, nts=(1, 2, 3, 5, 7), kw=None, rng=True, twice=False):
    import smt.sampling_methods as sm
    lo, w, xl = lims(S, nx)
    keep = xl.copy()
    kw = {k: (np.array(v) if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v)) for k, v in (kw or {}).items()}
    kk = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()}
    nt = S.pick("nt", list(nts))
    S.rng(rng)
    s = getattr(sm, M)(xlimits=xl, **kw)
    x = s(nt)
    if twice:
        x2 = s(nt)
        S.true("same number again", tuple(x2.shape) == tuple(x.shape))
    S.rng(False)
    n = nt
    if kw.get("clip"):
        n = x.shape[0]
        S.true("at least the requested number", n >= nt)
    S.true("requested number of points", tuple(x.shape) == (n, nx))
    for i in range(n):
        for k in range(nx):
            S.le("not below the lower limit", lo[k], x[i, k], tol=1e-9)
            S.le("not above the upper limit", x[i, k], lo[k] + w[k], tol=1e-9)
    S.true("limits option is the object given", s.options["xlimits"] is xl)
    for k in range(nx):
        for j in range(2):
            S.eq("limits unchanged", xl[k, j], keep[k, j])
    for k, v in kk.items():
        S.true("option %s unchanged" % k, np.array_equal(np.asarray(kw[k], dtype=object), np.asarray(v, dtype=object)) and type(kw[k]) is type(v))


def scaling(S, nx=2):
    """the affine scaling maps 0 and 1 exactly to the limits, and is monotone"""
    from smt.sampling_methods.sampling_method import ScaledSamplingMethod

    class Fix(ScaledSamplingMethod):
        def _compute(self, nt):
            return S.arr(np.vstack([np.zeros(nx), np.ones(nx), 0.25 * np.ones(nx)]))
    lo, w, xl = lims(S, nx)
    x = Fix(xlimits=xl)(3)
    for k in range(nx):
        S.eq("0 goes to the lower limit", x[0, k], lo[k])
        S.eq("1 goes to the upper limit", x[1, k], lo[k] + w[k])
        S.eq("affine in between", x[2, k], lo[k] + 0.25 * w[k])


def scaling_sym(S, nx=2, nt=2):
    from smt.sampling_methods.sampling_method import ScaledSamplingMethod
    u = S.reals("u", (nt, nx), 0, 1)
    k0 = u.copy()

    class Fix(ScaledSamplingMethod):
        def _compute(self, n):
            return u
    lo, w, xl = lims(S, nx)
    x = Fix(xlimits=xl)(nt)
    for i in range(nt):
        for k in range(nx):
            S.eq("affine map", x[i, k], lo[k] + k0[i, k] * w[k])


def required(S):
    """a wrong option is refused"""
    import smt.sampling_methods as sm
    for M in ("Random", "LHS", "FullFactorial"):
        try:
            getattr(sm, M)(xlimits=np.array([[0.0, 1.0]]), no_such_option=1)
            ok = False
        except Exception:
            ok = True
        S.true("unknown option refused", ok)


def obligations(tier):
    o = []

    def add(_n, fn=scen, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=120, feas_ms=200, max_paths=3000)))
    for nx in (1, 2, 3):
        add("Random-%d" % nx, nx=nx)
        add("FullFactorial-%d" % nx, M="FullFactorial", nx=nx, nts=range(1, 11))
        add("FullFactorial-clip-%d" % nx, M="FullFactorial", nx=nx, nts=range(1, 11), kw=dict(clip=True))
        add("scaling-%d" % nx, fn=scaling, nx=nx)
        add("scaling-sym-%d" % nx, fn=scaling_sym, nx=nx)
    add("FullFactorial-weights", M="FullFactorial", nx=2, kw=dict(weights=np.array([2.0, 1.0])), nts=range(1, 9))
    add("FullFactorial-weights-list", M="FullFactorial", nx=3, kw=dict(weights=[0.2, 0.3, 0.5], clip=True), nts=range(1, 9), twice=True)
    add("FullFactorial-weights-int", M="FullFactorial", nx=2, kw=dict(weights=[2, 1]), nts=range(1, 9), twice=True)
    for c in ("center", "c"):
        add("LHS-%s-1d" % c, M="LHS", nx=1, nts=(1, 2, 3), kw=dict(criterion=c))
        add("LHS-%s-2d" % c, M="LHS", nx=2, nts=(1, 2), kw=dict(criterion=c))
    for c in ("maximin", "m", "centermaximin", "cm"):
        add("LHS-%s" % c, M="LHS", nx=2, nts=(2, 5, 7), kw=dict(criterion=c), rng=False)
        add("LHS-%s-seed" % c, M="LHS", nx=2, nts=(2, 5, 7), kw=dict(criterion=c, random_state=3), rng=False)
    for c in ("correlation", "corr"):
        add("LHS-%s" % c, M="LHS", nx=2, nts=(3, 5, 7), kw=dict(criterion=c, random_state=3), rng=False)
    add("LHS-ese", M="LHS", nx=2, nts=(1, 2, 3, 5, 7), kw=dict(criterion="ese", random_state=5), rng=False, twice=True)
    add("LHS-ese-3d", M="LHS", nx=3, nts=(1, 2, 6), kw=dict(criterion="ese", random_state=5), rng=False)
    add("options", fn=required)
    return o
