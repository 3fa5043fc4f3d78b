"""Nested designs: one set per level, each a subset of the one below, documented sizes, inside the limits."""
import numpy as np
from .common import *

BOUNDS = ("all designs the Latin hypercube sampler could return (arbitrary symbolic points of the unit cube, a superset of its outcomes) and all limits (lower in [-10,10], width in [0.1,10]): "
          "2 levels with 1-3 high-fidelity points, 3 levels with 1 (1-D, points listed in increasing order), fewer in 2-D; plus the real sampler for seeds 0-3")
OUTSIDE = "larger designs"
ASSUMPTIONS = ["the sampler's stratification itself is property S01; here LHS._compute is replaced by an arbitrary design of the requested size"]


def check(S, doe, nlevel, nhi, nx, lo, wd):
    S.true("one set per level", len(doe) == nlevel)
    for i in range(nlevel):
        n = nhi * 2 ** (nlevel - 1 - i)
        S.true("size of level %d" % i, tuple(doe[i].shape) == (n, nx))
        for j in range(doe[i].shape[0]):
            for k in range(nx):
                S.le("not below the lower limit", lo[k], doe[i][j, k], tol=1e-8)
                S.le("not above the upper limit", doe[i][j, k], lo[k] + wd[k], tol=1e-8)
    for i in range(1, nlevel):
        for j in range(doe[i].shape[0]):
            S.true("point of level %d is in level %d" % (i, i - 1), S.OR(*[S.AND(*[S.AND(doe[i][j, k] - doe[i - 1][m, k] < 1e-9, doe[i - 1][m, k] - doe[i][j, k] < 1e-9) for k in range(nx)]) for m in range(doe[i - 1].shape[0])]))


def scen(S, nlevel=2, nhi=1, nx=1, free=True, sort=False):
    from smt.applications.mfk import NestedLHS
    from smt.sampling_methods import LHS
    if free:
        lo, wd = S.reals("lo", (nx,), -10, 10), S.reals("wd", (nx,), 0.1, 10)
    else:
        lo, wd = np.zeros(nx), np.ones(nx)
    xl = S.np.array([[lo[k], lo[k] + wd[k]] for k in range(nx)])
    calls = []

    def stub(self, nt):
        u = S.reals("u%d" % len(calls), (nt, nx), 0, 1)
        if sort:
            for i in range(nt - 1):
                S.assume(u[i, 0] <= u[i + 1, 0])
        calls.append(nt)
        return u
    old = LHS._compute
    LHS._compute = stub
    try:
        g = NestedLHS(nlevel=nlevel, xlimits=xl)
        doe = g(nhi)
    finally:
        LHS._compute = old
    check(S, doe, nlevel, nhi, nx, lo, wd)


def real(S, seed=0, nlevel=3, nhi=2, nx=2):
    from smt.applications.mfk import NestedLHS
    lo, wd = np.array([-3.0, 5.0])[:nx], np.array([1.0, 20.0])[:nx]

    def go():
        st = np.random.get_state()
        np.random.seed(seed)
        try:
            return NestedLHS(nlevel=nlevel, xlimits=np.stack([lo, lo + wd], axis=1))(nhi)
        finally:
            np.random.set_state(st)
    check(S, [np.asarray(d, dtype=float) for d in S.concretely("nested%d" % seed, go)], nlevel, nhi, nx, lo, wd)


def obligations(tier):
    o = []

    def add(_n, fn=scen, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=240, feas_ms=200, max_paths=20000)))
    add("2x1-1d", nlevel=2, nhi=1)
    add("2x2-1d", nlevel=2, nhi=2, free=False)
    add("2x1-2d", nlevel=2, nhi=1, nx=2)
    add("3x1-1d", nlevel=3, nhi=1, free=False, sort=True)
    add("1x3-2d", nlevel=1, nhi=3, nx=2)
    if tier != "quick":
        add("2x2-1d-limits", nlevel=2, nhi=2)
        add("3x1-1d-limits", nlevel=3, nhi=1)
        add("2x3-1d", nlevel=2, nhi=3, free=False)
    for s in range(4):
        add("real-%d" % s, fn=real, seed=s, nlevel=(2, 3, 3, 4)[s], nhi=(3, 2, 1, 1)[s])
    return o
