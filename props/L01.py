"""Linear solvers solve the system they are given."""
import numpy as np
from .common import *

BOUNDS = ("systems of 1-3 unknowns (thorough 4), every entry symbolic (diagonally dominant, off-diagonal entries of [-0.4,0.4], right-hand sides of [-2,2]); solution buffers: none, contiguous, a column of a C-ordered and of an F-ordered array, every second entry, reversed; "
          "several right-hand sides; Jacobi and Gauss-Seidel with arbitrary damping of [0.2,1.5], 1-3 sweeps and arbitrary start; one- and two-level multigrid cycles with arbitrary prolongation; Krylov wrapper around an arbitrary inner result")
OUTSIDE = "the inner iterations of scipy's cg/bicgstab/gmres and the incomplete LU (compiled code, replaced by an arbitrary result); larger systems; integer right-hand sides"
ASSUMPTIONS = ["the residual printout (Callback._print_norm) is a stand-in that prints nothing", "splu/lu_factor solve exactly (replaced by elimination over the reals)", "Cholesky pivots are positive for the diagonally dominant symmetric matrices used"]
LAYOUTS = ("none", "plain", "c-column", "f-column", "stride", "reversed")


def system(S, n, sym=False, dense=True):
    a = S.reals("a", (n, n), -0.4, 0.4)
    d = S.reals("d", (n,), 1, 2)
    A = S.np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            A[i, j] = d[i] if i == j else (a[min(i, j), max(i, j)] if sym else a[i, j])
    return A


def sparse(S, A):
    # the sparse matrix type the solvers see (symbolic or scipy's)
    import smt.utils.linear_solvers as m
    n = A.shape[0]
    r, c = np.divmod(np.arange(n * n), n)
    return m.scipy.sparse.csc_matrix((A.reshape(-1), (r, c)), shape=(n, n))


def buffer(S, n, layout):
    """a solution buffer of the given layout holding arbitrary numbers, and its owner"""
    if layout == "none":
        return None, None
    if layout == "plain":
        w = S.reals("w", (n,), -3, 3)
        return w, w
    if layout == "c-column":
        w = S.reals("w", (n, 2), -3, 3)
        return w[:, 1], w
    if layout == "f-column":
        w = S.np.zeros((2, n)).T
        v = S.reals("w", (n, 2), -3, 3)
        for i in np.ndindex(n, 2):
            w[i] = v[i]
        return w[:, 1], w
    w = S.reals("w", (2 * n,), -3, 3)
    return (w[::2], w) if layout == "stride" else (w[:n][::-1], w)


def printer():
    import smt.utils.linear_solvers as m
    from smt.utils.printer import Printer
    m.Callback._print_norm = lambda self, norm: None     # console output of residual norms
    p = Printer()
    p.active = False
    return p


def make(which, **k):
    import smt.utils.linear_solvers as m
    s = m.get_solver(which)
    s.options.update(k)
    return s


def direct(S, which="lu", n=2, layout="none", column=False):
    A = system(S, n, sym=which == "dense-chol")
    M = A.copy() if which == "dense-lu" else sparse(S, A)
    s = make(which)
    s._setup(M, printer())
    for rep in range(2 if n < 3 else 1):
        if column:
            b2 = S.reals("b%d" % rep, (n, 2), -2, 2)
            b = b2[:, 1]
        else:
            b = S.reals("b%d" % rep, (n,), -2, 2)
        b0 = b.copy()
        sol, own = buffer(S, n, layout)
        keep = own.copy() if own is not None else None
        r = s._solve(b, sol) if sol is not None else s._solve(b)
        S.true("returns the buffer", sol is None or r is sol)
        for i in range(n):
            S.eq("residual", sum(A[i, j] * r[j] for j in range(n)), b0[i])
        S.eq("right-hand side unchanged", b, b0)
        if layout in ("c-column", "f-column"):
            S.eq("neighbouring column unchanged", own[:, 0], keep[:, 0])
        if layout == "stride":
            S.eq("entries between unchanged", own[1::2], keep[1::2])
    S.eq("matrix unchanged", M if which == "dense-lu" else M.toarray(), A)


def several(S, n=2, c=2):
    """all columns of a matrix of right-hand sides"""
    A = system(S, n)
    s = make("dense-lu")
    s._setup(A.copy(), printer())
    b = S.reals("b", (n, c), -2, 2)
    r = s._solve(b)
    for i in range(n):
        for k in range(c):
            S.eq("residual", sum(A[i, j] * r[j, k] for j in range(n)), b[i, k])


def stationary(S, which="jacobi", n=2, sweeps=1, start="plain"):
    A = system(S, n)
    w = S.real("w0", 0.2, 1.5)
    M = sparse(S, A)
    s = make(which, damping=w, ilimit=sweeps)
    s._setup(M, printer())
    b = S.reals("b", (n,), -2, 2)
    b0 = b.copy()
    sol, own = buffer(S, n, start)
    x = [sol[i] for i in range(n)] if sol is not None else [b[i] for i in range(n)]
    for k in range(sweeps):
        res = [b[i] - sum(A[i, j] * x[j] for j in range(n)) for i in range(n)]
        if which == "jacobi":
            x = [x[i] + w * res[i] / A[i, i] for i in range(n)]
        else:
            e = []
            for i in range(n):
                e.append((res[i] - sum(A[i, j] * e[j] for j in range(i))) * w / A[i, i])
            x = [x[i] + e[i] for i in range(n)]
    r = s._solve(b, sol) if sol is not None else s._solve(b)
    for i in range(n):
        S.eq("iterate", r[i], x[i])
    S.true("returns the buffer", sol is None or r is sol)
    S.eq("right-hand side unchanged", b, b0)
    S.eq("matrix unchanged", M.toarray(), A)


def fixed(S, which="jacobi", n=2):
    """the solution of the system is left where it is"""
    A = system(S, n)
    x = S.reals("x", (n,), -2, 2)
    b = S.arr([sum(A[i, j] * x[j] for j in range(n)) for i in range(n)])
    s = make(which, damping=S.real("w0", 0.2, 1.5), ilimit=2)
    s._setup(sparse(S, A), printer())
    r = s._solve(b, x.copy())
    for i in range(n):
        S.eq("fixed point", r[i], x[i])


def multigrid(S, n=3, smoother="null", cycles=0):
    """one correction cycle: x0 + P (P'AP)^-1 P' (b - A x0), then the smoother"""
    import smt.utils.linear_solvers as m
    A = system(S, n, sym=True)
    p = S.reals("p", (n, 1), 0.2, 1)
    P = m.scipy.sparse.csc_matrix((p.reshape(-1), (np.arange(n), np.zeros(n, int))), shape=(n, 1))
    s = m.MultigridSolver(mg_cycles=cycles, solver=smoother if smoother == "null" else m.get_solver(smoother))
    lim = 1
    if smoother != "null":
        s.options["solver"].options["ilimit"] = lim
        w = S.real("w0", 0.2, 1.5)
        s.options["solver"].options["damping"] = w
    s._setup(sparse(S, A), printer(), mg_matrices=[P])
    b = S.reals("b", (n,), -2, 2)
    c = sum(p[i, 0] * A[i, j] * p[j, 0] for i in range(n) for j in range(n))

    def smooth(x):
        if smoother == "null":
            return x
        res = [b[i] - sum(A[i, j] * x[j] for j in range(n)) for i in range(n)]
        if smoother == "jacobi":
            return [x[i] + w * res[i] / A[i, i] for i in range(n)]
        e = []
        for i in range(n):
            e.append((res[i] - sum(A[i, j] * e[j] for j in range(i))) * w / A[i, i])
        return [x[i] + e[i] for i in range(n)]

    def coarse(x):
        q = sum(p[i, 0] * (b[i] - sum(A[i, j] * x[j] for j in range(n))) for i in range(n)) / c
        return smooth([x[i] + p[i, 0] * q for i in range(n)])
    x = coarse([0.0] * n)
    for k in range(cycles):
        x = coarse(smooth(x))
    sol = S.reals("w", (n,), -3, 3)
    r = s._solve(b, sol)
    for i in range(n):
        S.eq("multigrid iterate", r[i], x[i])
    S.true("returns the buffer", r is sol)


def single(S, n=2):
    """multigrid without coarser levels is the direct solve"""
    A = system(S, n)
    s = make("mg")
    s._setup(sparse(S, A), printer())
    b = S.reals("b", (n,), -2, 2)
    r = s._solve(b)
    for i in range(n):
        S.eq("residual", sum(A[i, j] * r[j] for j in range(n)), b[i])


def krylov(S, which="krylov", method="cg", n=2, layout="plain"):
    """the wrapper hands the system, the start and the preconditioner to the iteration and stores its result"""
    import smt.utils.linear_solvers as m
    A = system(S, n, sym=True)
    M = sparse(S, A)
    s = make(which, solver=method)
    s._setup(M, printer())
    b, out, probe = S.reals("b", (n,), -2, 2), S.reals("out", (n,), -2, 2), S.reals("probe", (n,), -2, 2)
    b0 = b.copy()
    sol, own = buffer(S, n, layout)
    start = (sol if sol is not None else b).copy()
    seen = []

    def inner(mtx, rhs, x0=None, M=None, callback=None, **k):
        seen.append((mtx, rhs.copy(), x0.copy(), M, k))
        if callback is not None:
            callback(out.copy() if method != "gmres" else 0.5)
        return out.copy(), 0
    s.solver = inner
    r = s._solve(b, sol) if sol is not None else s._solve(b)
    S.true("one run", len(seen) == 1 and seen[0][0] is M)
    S.eq("right-hand side handed on", seen[0][1], b0)
    S.eq("start handed on", seen[0][2], start)
    S.eq("result stored", r, out)
    S.true("returns the buffer", sol is None or r is sol)
    S.eq("right-hand side unchanged", b, b0)
    S.eq("matrix unchanged", M.toarray(), A)
    S.true("options handed on", seen[0][4]["tol"] == s.options["atol"] and seen[0][4]["maxiter"] == s.options["ilimit"])
    if which == "krylov-lu":
        q0 = probe.copy()
        q = seen[0][3].matvec(probe)
        for i in range(n):
            S.eq("preconditioner", sum(A[i, j] * q[j] for j in range(n)), q0[i])
        S.eq("preconditioned vector unchanged", probe, q0)
    elif which == "krylov":
        S.true("no preconditioner", seen[0][3] is None)


def clone(S, which="jacobi"):
    s = make(which)
    w = S.real("w0", 0.2, 1.5)
    k = S.int("k", 1, 20)
    if which in ("jacobi", "gs"):
        s.options["damping"] = w
    if which != "lu":
        s.options["ilimit"] = k
    t = s._clone()
    S.true("same kind", type(t) is type(s))
    for o in s.options._dict:
        a, b = t.options[o], s.options[o]
        S.true("same option", a is b or bool(a == b))


def obligations(tier):
    o = []

    def add(_n, fn=direct, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=150)))
    N = (1, 2, 3) + ((4,) if tier == "thorough" else ())
    for w in ("dense-lu", "dense-chol", "lu"):
        for n in N:
            for l in LAYOUTS if n == 2 or tier == "thorough" else LAYOUTS[:3]:
                add("%s-%d-%s" % (w, n, l), which=w, n=n, layout=l)
        for l in LAYOUTS[:4]:
            add("%s-column-%s" % (w, l), which=w, n=2, layout=l, column=True)
    for c in (1, 2, 3):
        add("dense-lu-%d-columns" % c, fn=several, c=c)
    for w in ("jacobi", "gs"):
        for n in (1, 2, 3):
            add("%s-%d" % (w, n), fn=stationary, which=w, n=n)
        for l in LAYOUTS:
            add("%s-2-%s" % (w, l), fn=stationary, which=w, start=l)
        add("%s-sweeps" % w, fn=stationary, which=w, sweeps=3 if tier == "thorough" else 2)
        add("%s-fixed" % w, fn=fixed, which=w)
        add("%s-fixed-3" % w, fn=fixed, which=w, n=3)
        add("mg-%s" % w, fn=multigrid, n=2, smoother=w)
        add("clone-%s" % w, fn=clone, which=w)
    add("clone-krylov", fn=clone, which="krylov")
    add("clone-lu", fn=clone, which="lu")
    add("mg-null", fn=multigrid)
    add("mg-null-2", fn=multigrid, n=2)
    add("mg-null-cycle", fn=multigrid, n=2, cycles=1)
    add("mg-jacobi-cycle", fn=multigrid, n=2, smoother="jacobi", cycles=1)
    add("mg-single", fn=single)
    for m in ("cg", "bicgstab", "gmres"):
        for l in LAYOUTS[:3]:
            add("krylov-%s-%s" % (m, l), fn=krylov, method=m, layout=l)
    add("krylov-lu", fn=krylov, which="krylov-lu")
    add("krylov-lu-3", fn=krylov, which="krylov-lu", n=3)
    return o
