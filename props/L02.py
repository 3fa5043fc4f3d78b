"""Line searches return a step that satisfies their acceptance conditions."""
import numpy as np
from .common import *

BOUNDS = ("every scalar function, as the arbitrary values and slopes (of [-4,4]) it takes at the points asked for: 1-6 distinct points; start and direction symbolic in 1-2 dimensions; sufficient-decrease and curvature factors symbolic of (0,1); initial steps 0.5, 1, 2")
OUTSIDE = "searches asking for more points; functions on which the search does not end; rounding"
ASSUMPTIONS = ["the function is deterministic: the same point always gets the same value and gradient"]


class Stop(Exception):
    pass


class F:
    """arbitrary function: a new value and gradient per new point"""

    def __init__(self, S, n, limit):
        self.S, self.n, self.limit = S, n, limit
        self.pts, self.keys = [], {}
        self.calls = 0

    def at(self, x):
        self.calls += 1
        if self.calls > 60 * self.limit:
            raise Stop()
        k = tuple(v.id if hasattr(v, "id") else float(v) for v in x)
        if k not in self.keys:
            i = len(self.pts)
            if i >= self.limit:
                raise Stop()
            S = self.S
            self.keys[k] = i
            self.pts.append((x.copy(), S.real("p%d" % i, -4, 4), S.reals("g%d" % i, (self.n,), -4, 4)))
        return self.pts[self.keys[k]]

    def find(self, x):
        k = tuple(v.id if hasattr(v, "id") else float(v) for v in x)
        if k in self.keys:
            return self.keys[k]
        for i, (p, v, g) in enumerate(self.pts):
            if all(bool(p[j] == x[j]) for j in range(self.n)):
                return i
        return None

    def func(self, x):
        return self.at(x)[1]

    def grad(self, x):
        return self.at(x)[2].copy()


def search(S, which="bracketed", n=1, limit=4, initial=None, descent=True, rho=None, unit=False, cls=None):
    from smt.utils.line_search import get_line_search_class
    f = F(S, n, limit)
    x = S.reals("x", (n,), -2, 2) if not unit else np.zeros(n)
    dx = S.reals("d", (n,), 0.1, 2) if not unit else np.ones(n)
    u1, u2 = S.real("u1", 0.0001, 0.45), S.real("u2", 0.5, 0.95)
    x0, d0 = x.copy(), dx.copy()
    ls = (cls or get_line_search_class(which))(x, dx, f.func, f.grad, u1=u1, u2=u2)
    slope = sum(f.pts[0][2][j] * d0[j] for j in range(n))
    if descent:
        S.assume(slope <= -0.01)
    k = {} if initial is None else {"initial_a": initial}
    if rho is not None:
        k["rho"] = rho
    try:
        r = ls(**k)
    except Stop:
        S.skip()
    if r is None:
        S.skip()
    S.eq("start unchanged", x, x0)
    S.eq("direction unchanged", dx, d0)
    a = (r[0] - x0[0]) / d0[0]
    for j in range(n):
        S.eq("on the line", r[j], x0[j] + a * d0[j])
    k = f.find(r)
    S.true("the returned point was evaluated", k is not None)
    px, v, g = f.pts[k]
    # written without the division for a: decrease times the direction
    S.le("sufficient decrease", v, f.pts[0][1] + u1 * a * slope)
    if which != "backtracking":
        s = sum(g[j] * d0[j] for j in range(n))
        S.le("curvature", s * s, u2 * u2 * slope * slope)
    else:
        S.true("step is not negative", a >= 0)


class Any:
    """mixin: the trial step of the zoom phase is arbitrary within the bracket (covers every interpolation rule)"""

    def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
        t = self.S.fresh("t", 0.05, 0.95)
        a = a1 + t * (a2 - a1)
        return a, self._phi(a), self._dphi(a)


def zoom(S, limit=4, expand=False):
    from smt.utils import line_search as m

    class Z(Any, m.BracketedLineSearch):
        pass
    Z.S = S
    search(S, cls=Z, limit=limit, unit=True)


def interpolate(S, which="cubic", a1=0.0, a2=1.0):
    """the trial step of the interpolating searches lies in the bracket and comes with its own value and slope"""
    from smt.utils.line_search import get_line_search_class
    f = F(S, 1, 4)
    ls = get_line_search_class(which)(np.zeros(1), np.ones(1), f.func, f.grad)
    p1, p2, d1, d2 = S.real("q1", -4, 4), S.real("q2", -4, 4), S.real("e1", -4, 4), S.real("e2", -4, 4)
    # a bracket as the zoom phase keeps it: low end first, slope pointing inwards
    S.assume(p1 <= p2)
    S.assume(d1 * (a2 - a1) <= -0.01)
    a, p, dp = ls._compute_minimum(a1, p1, d1, a2, p2, d2)
    k = f.find(S.np.array([a]))
    S.true("evaluated at the trial step", k is not None)
    S.eq("value of the trial step", p, f.pts[k][1])
    S.eq("slope of the trial step", dp, f.pts[k][2][0])
    S.le("inside the bracket", min(a1, a2), a)
    S.le("inside the bracket", a, max(a1, a2))


def null(S, n=2):
    from smt.utils.line_search import get_line_search_class
    x, dx, a = S.reals("x", (n,), -2, 2), S.reals("d", (n,), -2, 2), S.real("a", 0, 2)
    r = get_line_search_class("null")(x, dx, None, None)(a)
    for j in range(n):
        S.eq("full step", r[j], x[j] + a * dx[j])


def obligations(tier):
    o = []

    def add(_n, fn=search, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200, feas_ms=1500, max_paths=8000)))
    T = tier == "thorough"
    add("null", fn=null)
    for ini in (None, 0.5, 2.0):
        add("backtracking-%s" % ini, which="backtracking", initial=ini, limit=5)
        add("bracketed-%s" % ini, initial=ini, limit=4, unit=True)
    add("backtracking-2d", which="backtracking", n=2)
    add("backtracking-uphill", which="backtracking", descent=False)
    add("backtracking-rho", which="backtracking", rho=0.3)
    add("bracketed-2d", n=2, limit=3)
    add("bracketed-uphill", descent=False, limit=3)
    add("bracketed-deep", limit=6 if not T else 8, unit=True)
    for k in (3, 4) + ((5,) if T else ()):
        add("any-interpolation-%d" % k, fn=zoom, limit=k)
    for w in ("quadratic", "cubic"):
        add(w + "-step", fn=interpolate, which=w)
        add(w + "-step-back", fn=interpolate, which=w, a1=1.5, a2=0.5)
    add("quadratic", which="quadratic", limit=3, unit=True)
    add("quadratic-half", which="quadratic", limit=3, unit=True, initial=0.5)
    add("quadratic-2d", which="quadratic", limit=3, n=2)
    add("quadratic-4", which="quadratic", limit=4, unit=True)
    if T:
        add("cubic", which="cubic", limit=3, unit=True)
    return o
