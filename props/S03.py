"""Full factorial: distinct points of an equally spaced grid that spans the box, sized by nt, clip and weights."""
import itertools
import numpy as np
from .common import *

BOUNDS = "limits (lower in [-10,10], width in [0.1,10]) and weights (in [0.05,20]) symbolic; every number of points 1-9, 1-3 inputs (thorough: up to 27, 4 inputs)"
OUTSIDE = "more points; exact ties between the shares of two inputs (either may get the next level)"
ASSUMPTIONS = ["levels are attributed by the documented relative weights: the next level goes to the input whose share is furthest below its weight"]


def levels(S, w, nt):
    """independent greedy; no ties for unequal weights"""
    nx = len(w)
    tot = sum(w[k] for k in range(nx))
    n = [1] * nx
    while int(np.prod(n)) < nt:
        gap = [w[k] / tot - n[k] / sum(n) for k in range(nx)]
        best = None
        for k in range(nx):
            others = [j for j in range(nx) if j != k]
            if bool(S.AND(*[(gap[k] >= gap[j] if k < j else gap[k] > gap[j]) for j in others])) if others else True:
                best = k
                break
        for j in range(nx):
            if j != best and not isinstance(gap[j], float):
                S.assume(S.OR(gap[best] - gap[j] > 1e-6, gap[best] - gap[j] < -1e-6))
        n[best] += 1
    return n


def scen(S, nx=2, nts=range(1, 10), weighted=False, clip=False, aslist=False):
    from smt.sampling_methods import FullFactorial
    lo, wd = S.reals("lo", (nx,), -10, 10), S.reals("wd", (nx,), 0.1, 10)
    xl = S.np.array([[lo[k], lo[k] + wd[k]] for k in range(nx)])
    nt = S.pick("nt", list(nts))
    kw = {}
    if weighted:
        wt = S.reals("weight", (nx,), 0.05, 20)
        kw["weights"] = list(wt) if aslist else wt
        n = levels(S, wt, nt)
    else:
        n = levels(S, np.ones(nx), nt)
    if clip:
        kw["clip"] = True
    x = FullFactorial(xlimits=xl, **kw)(nt)
    full = int(np.prod(n))
    size = full if clip else nt
    S.true("grid is large enough", full >= nt)
    S.true("size of the sample", tuple(x.shape) == (size, nx))
    if tuple(x.shape) != (size, nx):
        return
    idx = []
    for i in range(size):
        row = []
        for k in range(nx):
            m = max(n[k] - 1, 1)
            found = None
            for j in range(n[k]):
                t = x[i, k] - (lo[k] + wd[k] * (j / m))
                if bool(S.AND(t < 1e-7, t > -1e-7)):
                    found = j
                    break
            S.true("a level of the equally spaced grid (both limits included)", found is not None)
            row.append(found)
        idx.append(tuple(row))
    S.true("points are distinct", len(set(idx)) == size)
    if size == full:
        S.true("complete grid", set(idx) == set(itertools.product(*[range(v) for v in n])))


def obligations(tier):
    o = []

    def add(_n, fn=scen, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=150, feas_ms=200, max_paths=3000)))
    q = tier == "quick"
    for nx in (1, 2, 3) if q else (1, 2, 3, 4):
        nts = range(1, 10) if q else range(1, 28)
        add("equal-%d" % nx, nx=nx, nts=nts)
        add("equal-clip-%d" % nx, nx=nx, nts=nts, clip=True)
    for nx, hi in ((1, 4), (2, 7), (3, 6)) if q else ((1, 9), (2, 16), (3, 10)):
        add("weights-%d" % nx, nx=nx, nts=range(1, hi), weighted=True)
        add("weights-clip-%d" % nx, nx=nx, nts=range(1, hi), weighted=True, clip=True, aslist=nx != 2)
    return o
