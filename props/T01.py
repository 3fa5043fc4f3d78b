"""Training-data calls store exactly what they are given."""
import itertools
import numpy as np
from .common import *

BOUNDS = ("every sequence of 2 calls (thorough: 3) among set/update values/derivatives after an optional initial set, for groups None and 0, input directions 0 and 1, 1-D, column, two-output, mismatching, 3-D and list arguments; "
          "all stored numbers of [-4,4] symbolic; the caller's arrays overwritten with other symbolic numbers after every call; real retraining of LS, QP, RBF, IDW, KRG after an update")
OUTSIDE = "3-D structure beyond rank 3; more points than 3; labels other than None and 0"
ASSUMPTIONS = []
NEEDS_CPP = True

FORMS = ("col", "two", "flat", "short", "cube", "list")
OPS = ("sv", "uv", "sd", "ud")


def stand_in(S):
    from smt.surrogate_models import LS
    seen = []

    class M(LS):
        def _initialize(self):
            super()._initialize()
            self.supports["training_derivatives"] = True

        def _train(self):
            seen.append({n: {k: (v[0], v[1]) for k, v in g.items()} for n, g in self.training_points.items()})
    return M(print_global=False), seen


def output(S, tag, n, form):
    """an argument of the given form, and the array it stands for (None: must be rejected)"""
    if form == "short":
        return S.reals(tag, (n + 1, 1), -4, 4), None
    if form == "cube":
        return S.reals(tag, (n, 1, 1), -4, 4), None
    if form == "list":
        a = S.reals(tag, (n, 1), -4, 4)
        return [[a[i, 0]] for i in range(n)], None
    if form == "flat":
        a = S.reals(tag, (n,), -4, 4)
        return a, a.reshape(-1, 1)
    a = S.reals(tag, (n, 2 if form == "two" else 1), -4, 4)
    return a, a


def snap(a):
    return a.copy()


def scribble(S, tag, a):
    if hasattr(a, "shape"):
        b = S.reals(tag, a.shape, -4, 4)
        for i in np.ndindex(*a.shape):
            a[i] = b[i]


def history(S, ops, nx=2, init=True, forms=FORMS, names=(None, 0), kxs=(0, 1)):
    m, seen = stand_in(S)
    store = {}
    for t, op in enumerate((("init",) if init else ()) + tuple(ops)):
        n = 2
        name = None if op == "init" else S.pick("name%d" % t, names)
        form = "col" if op == "init" else S.pick("form%d" % t, forms)
        kx = S.pick("kx%d" % t, kxs) if op in ("sd", "ud") else None
        y, ys = output(S, "y%d" % t, n, form)
        key = 0 if kx is None else kx + 1
        x = S.reals("x%d" % t, (n, nx), -4, 4)
        keep = ys is not None
        if op in ("uv", "ud"):
            keep = keep and key in store.get(name, {})
        want = None
        if keep:
            want = (snap(store[name][key][0]) if op in ("uv", "ud") else snap(x), snap(ys))
        try:
            if op in ("init", "sv"):
                m.set_training_values(x, y, name) if name is not None else m.set_training_values(x, y)
            elif op == "uv":
                m.update_training_values(y, name) if name is not None else m.update_training_values(y)
            elif op == "sd":
                m.set_training_derivatives(x, y, kx, name) if name is not None else m.set_training_derivatives(x, y, kx)
            else:
                m.update_training_derivatives(y, kx, name) if name is not None else m.update_training_derivatives(y, kx)
            done = True
        except ValueError:
            done = False
        S.true("accepted exactly when well-formed", done == keep)
        if keep:
            store.setdefault(name, {})[key] = want
        scribble(S, "sx%d" % t, x)
        scribble(S, "sy%d" % t, y)
        check(S, m.training_points, store)
        if 0 in store.get(None, {}) and set(store) == {None}:
            S.true("number of outputs follows the values", m.ny == store[None][0][1].shape[1])
            S.true("number of inputs and points", m.nx == nx and m.nt == n)
    if 0 in store.get(None, {}):
        m.train()
        check(S, seen[-1], store)


def check(S, tp, store):
    got = sorted((str(n), k) for n in tp for k in tp[n])
    S.true("exactly the given groups and directions", got == sorted((str(n), k) for n in store for k in store[n]))
    for n in store:
        for k, (x, y) in store[n].items():
            S.eq("stored inputs", tp[n][k][0], x)
            S.eq("stored outputs", tp[n][k][1], y)


def direction(S, kx):
    """a direction that cannot be an input is rejected and leaves the values alone"""
    m, seen = stand_in(S)
    x, y, d = S.reals("x", (2, 2), -4, 4), S.reals("y", (2, 1), -4, 4), S.reals("d", (2, 1), -4, 4)
    m.set_training_values(x, y)
    try:
        m.set_training_derivatives(x, d, kx)
        S.true("rejected", False)
    except ValueError:
        pass
    check(S, m.training_points, {None: {0: (x, y)}})


MODELS = ("LS", "QP", "RBF", "IDW", "KRG")


def retrain(S, which="LS", ny=1):
    """after an update, training uses the new values (and the points given before)"""
    import smt.surrogate_models as sms
    X = np.array([[0.0], [0.25], [0.55], [1.0]]) if which != "IDW" else np.array([[0.0], [0.5], [1.0]])
    n = len(X)
    o = dict(print_global=False)
    if which == "KRG":
        o.update(theta0=[0.7], hyper_opt="Cobyla")
    Cls = getattr(sms, which)
    Y1, Y2 = S.reals("y1", (n, ny), -2, 2), S.reals("y2", (n, ny), -2, 2)
    if which == "KRG":
        Y1 = np.array([[1.0], [0.0], [0.5], [2.0]])
        Y2 = np.array([[0.2], [1.0], [-0.5], [0.7]])
    x = S.reals("x", (1, 1), 0, 1)

    def fit(first):
        sm = Cls(**{k: v for k, v in o.items()})
        if first:
            sm.set_training_values(X, Y1)
            sm.train()
            sm.update_training_values(Y2)
        else:
            sm.set_training_values(X, Y2)
        sm.train()
        return sm
    if which == "KRG":
        a, b = S.concretely("a", lambda: fit(True)), S.concretely("b", lambda: fit(False))
    else:
        a, b = fit(True), fit(False)
    S.eq("same prediction", a.predict_values(x), b.predict_values(x), tol=1e-5)


def obligations(tier):
    o = []

    def add(_n, fn=history, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=150, max_paths=20000, witnesses=1)))
    for a, b in itertools.product(OPS, OPS):
        add("%s-%s" % (a, b), ops=(a, b), forms=FORMS[:4])
        add("%s-%s-empty" % (a, b), ops=(a, b), init=False, forms=("col", "short"))
    for a in OPS:
        add("%s-forms" % a, ops=(a,))
        add("%s-forms-after-derivs" % a, ops=("sd", a), names=(None,), kxs=(0,))
    L = list(itertools.product(OPS, OPS, OPS)) if tier == "thorough" else [("sd", "ud", "uv"), ("sd", "uv", "ud"), ("sv", "sd", "sd"), ("sd", "sv", "ud"), ("sv", "sd", "ud")]
    for a in L:
        add("-".join(a), ops=a, forms=("col", "flat", "short"), names=(None,))
        if tier == "thorough":
            add("-".join(a) + "-names", ops=a, forms=("col", "short"))
    for kx in (-1, "x", 0.5):
        add("direction-%s" % kx, fn=direction, kx=kx)
    for w in MODELS:
        add("retrain-" + w, fn=retrain, which=w)
    for w in ("LS", "QP", "RBF", "IDW"):
        add("retrain-2-" + w, fn=retrain, which=w, ny=2)
    return o
