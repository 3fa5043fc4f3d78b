"""LHS: one point per stratum; ESE keeps it and is never worse than its start."""
import numpy as np
from .common import *

BOUNDS = ("all random outcomes (uniform draws symbolic in [0,1), permutations, row choices and acceptance draws branched exhaustively): 1-3 points, 1-2 inputs for every criterion; "
          "ESE: symbolic starting designs of 2-4 points, 1-2 inner iterations, 1-2 candidate plans, 1-2 outer iterations; "
          "full default ESE loop on the concrete draws of seed 0-3 with symbolic limits")
OUTSIDE = "more points, more ESE iterations with symbolic draws; the correlation criterion with one input or two points (undefined: a 1x1 or +-1 correlation matrix)"
ASSUMPTIONS = ["pyDOE2.lhs is executed symbolically from its installed source"]


class Draws:
    """random state whose every outcome is branched on; at most `budget` draws hit an excluded or repeated row (rejection loops are otherwise unbounded)"""

    def __init__(self, S, fixed=(), budget=0):
        self.S, self.fixed, self.left, self.last, self.n = S, set(fixed), budget, None, 0

    def randint(self, n):
        self.n += 1
        bad = self.fixed | ({self.last} if self.last is not None else set())
        ok = [i for i in range(n) if i not in bad] + (sorted(i for i in bad if i < n) if self.left else [])
        i = self.S.pick("draw%d_%d" % (self.n, len(ok)), ok)
        if i in bad:
            self.left -= 1
            return i
        self.last = i if self.last is None else None
        return i

    def rand(self, *shape):
        self.n += 1
        return self.S.reals("accept%d" % self.n, shape, 0, 1)


def latin(S, X, nt, nx, what):
    S.true("%s: shape" % what, tuple(X.shape) == (nt, nx))
    for k in range(nx):
        for s in range(nt):
            inside = [S.AND(X[i, k] >= s / nt - 1e-9, X[i, k] <= (s + 1) / nt + 1e-9) for i in range(nt)]
            S.true("%s: a point in every stratum" % what, S.OR(*inside))
        for i in range(nt):
            S.true("%s: in the unit interval" % what, S.AND(X[i, k] >= -1e-9, X[i, k] <= 1 + 1e-9))


def crit(S, c="center", nt=3, nx=2):
    from smt.sampling_methods import LHS
    S.rng(True)
    x = LHS(xlimits=S.arr(np.array([[0.0, 1.0]] * nx)), criterion=c)(nt)
    S.rng(False)
    latin(S, x, nt, nx, "sample")


def start(S, nt, nx, free=9):
    """an arbitrary Latin design of nt points (rows beyond the first `free` have fixed places in their strata)"""
    u = S.arr(0.1 + 0.8 * np.array([[((7 * i + 3 * k) % 10) / 10 for k in range(nx)] for i in range(nt)]))
    f = S.reals("u", (min(free, nt), nx), 0.05, 0.95)
    for i in range(min(free, nt)):
        for k in range(nx):
            u[i, k] = f[i, k]
    perm = [[(i * (2 * k + 1) + k) % nt for i in range(nt)] for k in range(nx)] if nt % 3 else [[(i + k) % nt for i in range(nt)] for k in range(nx)]
    return S.np.array([[(perm[k][i] + u[i, k]) / nt for k in range(nx)] for i in range(nt)])


def ese(S, nt=3, nx=2, inner=1, outer=1, J=1, fixed=False, budget=0, free=9):
    from smt.sampling_methods import LHS
    P0 = start(S, nt, nx, free)
    keep = P0.copy()
    l = LHS(xlimits=S.arr(np.array([[0.0, 1.0]] * nx)), criterion="ese")
    l.random_state = Draws(S, [0] if fixed else [], budget)
    kw = dict(fixed_index=[0]) if fixed else {}
    X = l._maximinESE(P0, outer_loop=outer, inner_loop=inner, J=J, p=2, **kw)
    latin(S, X, nt, nx, "optimized design")
    for k in range(nx):
        S.eq("optimized design: same coordinates", sum(X[i, k] for i in range(nt)), sum(keep[i, k] for i in range(nt)))
        if fixed:
            S.eq("fixed point kept", X[0, k], keep[0, k])


def worse(S, nt=3, nx=2, inner=2, outer=1, J=2, seed=0):
    """concrete starting design, every random choice of the optimization"""
    from smt.sampling_methods import LHS
    rs = np.random.RandomState(seed)
    P0 = np.array([[0.1, 0.45], [0.4, 0.1], [0.85, 0.8], [0.6, 0.3]])[:nt, :nx] if not seed else rs.rand(nt, nx)
    l = LHS(xlimits=S.arr(np.array([[0.0, 1.0]] * nx)), criterion="ese")
    l.random_state = Draws(S)
    X, h = l._maximinESE(S.arr(P0.copy()), outer_loop=outer, inner_loop=inner, J=J, return_hist=True)

    def phi(Z):
        Z = np.array(Z, dtype=float)
        d = [np.sqrt(((Z[i] - Z[j]) ** 2).sum()) for i in range(nt) for j in range(i)]
        return sum(t ** -10.0 for t in d) ** 0.1
    S.true("history has one entry per iteration", len(h["PhiP"]) == inner * outer + 1)
    a, b = phi(P0), phi(X)
    S.le("optimized design is not worse than its start", b, a * (1 + 1e-9))
    S.eq("recorded criterion is that of the returned design", h["PhiP"][-1], b, tol=1e-6)
    for k in range(nx):
        S.true("same coordinates", sorted(np.round(np.array(X[:, k], dtype=float), 12)) == sorted(np.round(P0[:, k], 12)))


def default(S, nt=4, nx=2, seed=0):
    """whole default ESE loop for concrete draws; limits symbolic"""
    from smt.sampling_methods import LHS
    lo, w = S.reals("lo", (nx,), -10, 10), S.reals("w", (nx,), 0.1, 10)
    xl = S.np.array([[lo[k], lo[k] + w[k]] for k in range(nx)])
    x = LHS(xlimits=xl, criterion="ese", random_state=seed)(nt)
    S.true("shape", tuple(x.shape) == (nt, nx))
    for k in range(nx):
        for s in range(nt):
            S.true("a point in every stratum", S.OR(*[S.AND(x[i, k] >= lo[k] + w[k] * (s / nt) - 1e-7, x[i, k] <= lo[k] + w[k] * ((s + 1) / nt) + 1e-7) for i in range(nt)]))


def obligations(tier):
    o = []

    def add(_n, fn=crit, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=120, feas_ms=200, max_paths=3000)))
    for c in ("center", "c", "maximin", "m", "centermaximin", "cm", "correlation", "corr"):
        if c in ("center", "c"):
            add("%s-3x2" % c, c=c)
            add("%s-1x2" % c, c=c, nt=1)
            add("%s-4x1" % c, c=c, nt=4, nx=1)
        elif c[0] in "cm" and c not in ("correlation", "corr"):
            add("%s-2x1" % c, c=c, nt=2, nx=1)
    for nt, nx in ((2, 1), (2, 2), (3, 1), (3, 2)):
        add("ESE-%dx%d" % (nt, nx), fn=ese, nt=nt, nx=nx, free=9 if nt * nx < 5 else 1)
    add("ESE-2plans", fn=ese, nt=3, nx=1, J=2)
    add("ESE-2inner", fn=ese, nt=3, nx=2, inner=2, free=0)
    add("ESE-2outer", fn=ese, nt=3, nx=1, outer=2, free=0)
    add("ESE-fixed", fn=ese, nt=3, nx=2, fixed=True, budget=1, free=0)
    add("ESE-repeat", fn=ese, nt=3, nx=1, budget=1)
    add("ESE-1point", c="ese", nt=1, nx=2)
    for s in (0, 1):
        add("never-worse-3x2-s%d" % s, fn=worse, seed=s, J=1)
        add("never-worse-4x2-s%d" % s, fn=worse, nt=4, J=1, inner=1, outer=2, seed=s)
    add("never-worse-2plans", fn=worse, J=2, inner=1)
    for s in range(4):
        add("default-ESE-%d" % s, fn=default, seed=s, nt=(4, 7, 2, 5)[s], nx=(2, 3, 2, 1)[s])
    return o
