"""Fold/unfold of enumerations, unfolded limits, decoding, specification checks."""
import itertools
import numpy as np
from .common import *
from .X01 import types, dim

BOUNDS = "every list of 1-3 variables and every order of one list of 4 (types float, integer, enumerations of 2 and 3 levels), every enumeration index, floats and integers symbolic in [-10,10] and [-1,2]; 1-2 rows"
OUTSIDE = "longer lists, more levels"


def limits(spec):
    return [[-10.0, 10.0] if t == "F" else [-5, 5] if t == "I" else ["v%d_%d" % (k, i) for i in range(int(t))] for k, t in enumerate(spec)]


def point(S, spec, r=0):
    x = np.empty((1, len(spec)), dtype=object)
    for k, t in enumerate(spec):
        if t == "F":
            x[0, k] = S.real("x%s%d_%d" % (spec, r, k), -10, 10)
        elif t == "I":
            x[0, k] = S.int("n%s%d_%d" % (spec, r, k), -1, 2)
        else:
            x[0, k] = S.pick("e%s%d_%d_%s" % (spec, r, k, t), range(int(t)))
    return x[0]


def scen(S, specs, rows=1, ctx=False):
    from smt.applications import mixed_integer as mi
    spec = S.pick("types", list(specs))
    xt, xl = types(spec), limits(spec)
    pts = [point(S, spec, r) for r in range(rows)]
    x = S.np.array([[p * 1.0 for p in pt] for pt in pts])
    keep = x.copy()
    c = mi.MixedIntegerContext(xt, xl)
    un = c.unfold_with_enum_mask(x) if ctx else mi.unfold_with_enum_mask(xt, x)
    n = dim(spec)
    S.true("unfolded shape", tuple(un.shape) == (rows, n))
    S.true("unfolded dimension", mi.compute_unfolded_dimension(xt) == n == c.get_unfolded_dimension())
    for r in range(rows):
        col = 0
        for k, t in enumerate(spec):
            if t in "FI":
                S.eq("value copied", un[r, col], keep[r, k], tol=1e-12)
                col += 1
            else:
                for j in range(int(t)):
                    S.eq("mask", un[r, col + j], 1.0 if j == pts[r][k] else 0.0, tol=0)
                col += int(t)
    back = c.fold_with_enum_index(un) if ctx else mi.fold_with_enum_index(xt, un)
    S.true("folded shape", tuple(back.shape) == (rows, len(spec)))
    for r in range(rows):
        for k in range(len(spec)):
            S.eq("fold after unfold", back[r, k], keep[r, k], tol=1e-12)
            S.eq("argument unchanged", x[r, k], keep[r, k], tol=0)
    ul = c.get_unfolded_xlimits()
    S.true("shape of the unfolded limits", tuple(ul.shape) == (n, 2))
    col = 0
    for k, t in enumerate(spec):
        for j in range(1 if t in "FI" else int(t)):
            a, b = (-10, 10) if t == "F" else (-5, 5) if t == "I" else (0, 1)
            S.true("unfolded limits", float(ul[col, 0]) == a and float(ul[col, 1]) == b)
            col += 1
    for r in range(rows):
        dec = mi.cast_to_mixed_integer(xt, xl, x[r]) if not ctx else c.cast_to_mixed_integer(x[r])
        S.true("decoded length", len(dec) == len(spec))
        for k, t in enumerate(spec):
            if t in "FI":
                S.eq("decoded value", dec[k], keep[r, k], tol=1e-12)
            else:
                S.true("decoded level", dec[k] == xl[k][pts[r][k]])
                S.true("level list", c.cast_to_enum_value(k, [pts[r][k], 0]) == [xl[k][pts[r][k]], xl[k][0]])


def refuse(S):
    from smt.applications import mixed_integer as mi
    E = mi.ENUM
    bad = [([mi.FLOAT], [[0, 1], [0, 1]]), ([mi.FLOAT, mi.INT], [[0, 1]]), ([mi.FLOAT], [[0, 1, 2]]), ([mi.INT], [[0]]), ([mi.FLOAT], [[]]),
           ([(E, 2)], [["a", "b", "c"]]), ([(E, 3)], [["a", "b"]]), (["unknown"], [[0, 1]]), ([("unknown", 2)], [["a", "b"]]),
           ([mi.FLOAT, ("unknown", 2)], [[0, 1], ["a", "b"]]), ([(E, 2), mi.INT], [["a", "b"], [1, 2, 3]]), ([E], [["a", "b"]])]
    i = S.pick("case", range(len(bad)))
    xt, xl = bad[i]
    for f in (lambda: mi.check_xspec_consistency(xt, xl), lambda: mi.MixedIntegerContext(xt, xl)):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        S.true("invalid specification refused: %r" % (bad[i],), ok)
    good = [([mi.FLOAT], [[0, 1]]), ([mi.INT, (E, 3)], [[0, 4], ["a", "b", "c"]]), ([(E, 2), mi.FLOAT], [["a", "b"], [0, 1]])]
    for xt, xl in good:
        mi.check_xspec_consistency(xt, xl)


def obligations(tier):
    o = []

    def add(_n, fn=scen, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200, feas_ms=200, max_paths=20000)))
    T = "FI23"
    add("one", specs=list(T) + ["4"])
    add("one-2rows", specs=list(T), rows=2)
    add("two", specs=[a + b for a in T for b in T])
    add("two-2rows", specs=["2F", "F3", "I2", "23"], rows=2)
    for a in T:
        add("three-%s" % a, specs=[a + b + c for b in T for c in T])
    add("four", specs=sorted(set("".join(p) for p in itertools.permutations("FI23"))))
    add("context", specs=["F2", "3I", "2F3", "I32"], ctx=True)
    add("context-2rows", specs=["2F", "3I"], ctx=True, rows=2)
    add("refuse", fn=refuse)
    if tier != "quick":
        for a in T:
            for b in T:
                add("four-%s%s" % (a, b), specs=[a + b + c + d for c in T for d in T])
    return o
