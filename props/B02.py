"""compute_rms_error equals its definition."""
import numpy as np
from .common import *

BOUNDS = "1-4 points, 1-2 inputs, 1-2 outputs at the training points, values and every input derivative; all reference and predicted values of [-4,4]; all points of [-2,2]; user arrays of shape (n,) and (n,1)"
OUTSIDE = "an all-zero reference (the ratio is undefined); only one of xe and ye given; more points"
ASSUMPTIONS = ["the surrogate is a stand-in whose predictions are arbitrary symbolic values; the utility and the training-data interface are the real code"]


def model(S, n, nx, ny):
    from smt.surrogate_models import LS
    asked = []
    P = {k: S.reals("p%s" % k, (n, ny), -4, 4) for k in ["v"] + list(range(nx))}

    class M(LS):
        def _initialize(self):
            super()._initialize()
            self.supports["derivatives"] = True
            self.supports["training_derivatives"] = True

        def _train(self):
            pass

        def _predict_values(self, x):
            asked.append(("v", x))
            return P["v"]

        def _predict_derivatives(self, x, kx):
            asked.append((kx, x))
            return P[kx]
    m = M(print_global=False)
    m.nx, m.ny = nx, ny
    return m, P, asked


def norm(S, A):
    return S.np.sqrt(sum(A[i] * A[i] for i in np.ndindex(*A.shape)))


def run(S, n=2, nx=1, ny=1, kx=None, given=True, flat=False):
    from smt.utils.misc import compute_rms_error
    m, P, asked = model(S, n, nx, ny)
    X = S.reals("x", (n, nx), -2, 2)
    R = S.reals("r", (n, ny), -4, 4)
    S.assume(sum(R[i] * R[i] for i in np.ndindex(n, ny)) >= 0.01)
    key = "v" if kx is None else kx
    if given:
        r = compute_rms_error(m, X, R.reshape(-1) if flat else R, kx) if kx is not None else compute_rms_error(m, X, R.reshape(-1) if flat else R)
    else:
        # other training data that must not be used
        other = {k: S.reals("o%s" % k, (n, ny), -4, 4) for k in ["v"] + list(range(nx))}
        XO = S.reals("xo", (n, nx), -2, 2)
        m.set_training_values(X if kx is None else XO, R if kx is None else other["v"])
        for k in range(nx):
            m.set_training_derivatives(X if k == kx else XO, R if k == kx else other[k], k)
        r = compute_rms_error(m, kx=kx) if kx is not None else compute_rms_error(m)
    S.true("asks for one prediction of the right kind", len(asked) == 1 and asked[0][0] == key)
    S.eq("at the right points", asked[0][1], X)
    D = S.np.array([[P[key][i, j] - R[i, j] for j in range(ny)] for i in range(n)])
    S.eq("relative rms error", r * norm(S, R), norm(S, D))


def missing(S, kx=0):
    from smt.utils.misc import compute_rms_error
    m, P, asked = model(S, 2, 2, 1)
    m.set_training_values(S.reals("x", (2, 2), -2, 2), S.reals("r", (2, 1), -4, 4))
    try:
        compute_rms_error(m, kx=kx)
        S.true("absent training derivatives are reported as such", False)
    except ValueError:
        S.true("absent training derivatives are reported as such", True)


def obligations(tier):
    o = []

    def add(_n, fn=run, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=100)))
    for n in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
        add("given-values-n%d" % n, n=n)
        add("given-values-flat-n%d" % n, n=n, flat=True)
        add("training-values-n%d" % n, n=n, given=False)
    for kx in (0, 1):
        add("given-derivative-%d" % kx, nx=2, kx=kx)
        add("given-derivative-flat-%d" % kx, nx=2, kx=kx, flat=True)
        add("training-derivative-%d" % kx, nx=2, kx=kx, given=False)
        add("training-derivative-2out-%d" % kx, nx=2, ny=2, kx=kx, given=False)
        add("missing-derivative-%d" % kx, fn=missing, kx=kx)
    add("training-values-2out", nx=2, ny=2, given=False)
    return o
