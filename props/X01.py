"""Casting to discrete values: nearest valid mixed point, idempotent, input untouched."""
import itertools
import numpy as np
from .common import *

BOUNDS = "all real points with coordinates in [-4,4], 1-2 rows; every list of up to 2 variables and selected lists of 3 and 4 variables (quick), every list of up to 3 and of 4 with one enumeration (thorough), types float, integer, enumerations of 2-4 levels"
OUTSIDE = "longer lists, more levels, magnitudes beyond 4"


def types(spec):
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    return [FLOAT if t == "F" else INT if t == "I" else (ENUM, int(t)) for t in spec]


def dim(spec):
    return sum(1 if t in "FI" else int(t) for t in spec)


def scen(S, specs, rows=1, lo=-4, hi=4, how="function"):
    from smt.applications import mixed_integer as mi
    spec = S.pick("types", list(specs))
    xt = types(spec)
    x = S.reals("x_" + spec, (rows, dim(spec)), lo, hi)
    keep = x.copy()
    if how == "function":
        r = mi.cast_to_discrete_values(xt, x)
    else:
        ctx = mi.MixedIntegerContext(xt, [[0, 1] if t in "FI" else ["l%d" % i for i in range(int(t))] for t in spec])
        r = ctx.cast_to_discrete_values(x)
    S.true("shape", tuple(r.shape) == (rows, dim(spec)))
    c = 0
    for t in spec:
        n = 1 if t in "FI" else int(t)
        for i in range(rows):
            if t == "F":
                S.eq("continuous coordinate unchanged", r[i, c], keep[i, c], tol=1e-12)
            elif t == "I":
                d = r[i, c] - keep[i, c]
                S.true("integer coordinate: a nearest integer", S.AND(d <= 0.5 + 1e-9, d >= -0.5 - 1e-9))
                S.true("integer coordinate: whole number", r[i, c] == S.np.rint(r[i, c]))
            else:
                S.eq("enumeration: exactly one level chosen", sum(r[i, c + j] for j in range(n)), 1.0)
                for j in range(n):
                    S.true("enumeration: entries are 0 or 1", S.OR(r[i, c + j] == 0, r[i, c + j] == 1))
                    S.true("enumeration: the chosen level has the largest entry", S.OR(r[i, c + j] == 0, S.AND(*[keep[i, c + j] >= keep[i, c + m] for m in range(n)])))
        c += n
    r2 = mi.cast_to_discrete_values(xt, r)
    for i in range(rows):
        for k in range(dim(spec)):
            S.true("casting twice", r2[i, k] == r[i, k])
            S.eq("argument unchanged", x[i, k], keep[i, k], tol=0)


def vec(S, spec="FI3"):
    """a single point given as a vector; integer array input"""
    from smt.applications import mixed_integer as mi
    xt = types(spec)
    x = S.reals("x", (1, dim(spec)), -4, 4)
    a = mi.cast_to_discrete_values(xt, x)
    n = S.int("n", -3, 3)
    b = mi.cast_to_discrete_values(types("I"), S.np.array([[n]]))
    S.eq("integers stay", b[0, 0], n)
    S.true("two dimensional", a.ndim == 2)


def refuse(S):
    from smt.applications import mixed_integer as mi
    for bad in (["nope"], ["float_type", ("nope", 2)], [3]):
        try:
            mi.cast_to_discrete_values(bad, np.zeros((1, 3)))
            ok = False
        except (ValueError, TypeError):
            ok = True
        S.true("unknown type refused", ok)


def obligations(tier):
    o = []

    def add(_n, fn=scen, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200, feas_ms=200, max_paths=20000)))
    T = "FI23"
    add("one", specs=list(T) + ["4"])
    add("one-2rows", specs=list(T), rows=2)
    for a in T:
        add("two-%s" % a, specs=[a + b for b in T])
    add("three", specs=["F3I", "2FI", "I2F", "3FF", "FF3", "II2", "22F", "F22", "2I2"])
    add("four", specs=["FI2F", "2FFI", "IF3F", "FFI2", "2F2I"], lo=-1, hi=1)
    add("context", specs=["FI3", "3F", "2I", "23"], how="context")
    add("vector", fn=vec)
    add("refuse", fn=refuse)
    if tier != "quick":
        for a, b in itertools.product(T, T):
            add("three-%s%s" % (a, b), specs=[a + b + c for c in T], lo=-1, hi=1)
        for k in range(4):
            add("four-%d" % k, specs=["".join(p) for p in itertools.product("FI", repeat=4)] if k == 0 else ["".join(p[:k]) + e + "".join(p[k:]) for p in itertools.product("FI", repeat=3) for e in "23"], lo=-1, hi=1)
    return o
