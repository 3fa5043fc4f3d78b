"""Options accept exactly the declared values."""
import itertools
import numpy as np
from .common import *

BOUNDS = ("every sequence of 3 operations (thorough: 4) among declare (6 kinds of declaration, with and without default), set, update with two entries, and clone, over two option names plus one undeclared; "
          "values: all integers of [-3,3], all reals of [-3,3], strings, booleans, None; declared values: lists of two arbitrary integers of [-3,3] or of strings")
OUTSIDE = "longer histories, more options, exotic types"
ASSUMPTIONS = []

NAMES = ("a", "b")
DECL = ("any", "values", "types", "both", "two types", "list of types", "strings")


def declaration(S, tag, decls=DECL):
    k = S.pick("decl" + tag, decls)
    vals, types = None, None
    if k in ("values", "both"):
        vals = [S.int("v0" + tag, -3, 3), S.int("v1" + tag, -3, 3)]
    if k == "strings":
        vals = ["p", "q"]
    if k in ("types", "both"):
        types = S.pick("type" + tag, (int, str) if k == "both" else (int, bool))
    if k == "two types":
        types = (int, str)
    if k == "list of types":
        types = [int, str]
    return vals, types


KINDS = ("int", "float", "p", "z", True)


def value(S, tag, kinds=KINDS):
    k = S.pick("kind" + tag, kinds)
    if k == "int":
        return S.int("i" + tag, -3, 3), int
    if k == "float":
        return S.real("f" + tag, -3, 3), float
    return k, type(k)


def allowed(decl, v, ty):
    vals, types = decl
    if vals is None and types is None:
        return True
    if vals is not None:
        for w in vals:
            if isinstance(w, str) != (ty is str):
                continue
            if bool(w == v):
                return True
    if types is not None:
        return any(issubclass(ty, t) for t in (types if isinstance(types, (tuple, list)) else (types,)))
    return False


def same(S, label, a, b):
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        S.true(label, a is b or a == b)
    else:
        S.eq(label, a, b)


def compare(S, d, decl, held):
    for n in NAMES + ("c",):
        S.true("declared", d.is_declared(n) == (n in decl))
        S.true("present", (n in d) == (n in held))
        if n in held:
            same(S, "value", d[n], held[n])


def history(S, ops, kinds=KINDS, decls=DECL):
    from smt.utils.options_dictionary import OptionsDictionary
    d = OptionsDictionary()
    decl, held = {}, {}
    frozen = []
    for t, op in enumerate(ops):
        t = str(t)
        if op == "declare":
            n = S.pick("n" + t, NAMES)
            vals, types = declaration(S, t, decls)
            v, ty = value(S, t, ("none",) + kinds[:3])
            kw = {} if v == "none" else dict(default=v)
            ok = True if v == "none" else allowed((vals, types), v, ty)
            try:
                d.declare(n, values=vals, types=types, desc="x", **kw)
                done = True
            except AssertionError:
                done = False
            S.true("default accepted exactly when valid", done == ok)
            if ok:
                decl[n] = (vals, types)
                held[n] = None if v == "none" else v
        elif op == "set":
            n = S.pick("n" + t, NAMES + ("c",))
            v, ty = value(S, t, kinds)
            ok = n in decl and allowed(decl[n], v, ty)
            try:
                d[n] = v
                done = True
            except AssertionError:
                done = False
            S.true("accepted exactly when valid", done == ok)
            if ok:
                held[n] = v
        elif op == "update":
            n = S.pick("n" + t, NAMES)
            v, ty = value(S, t, kinds[:3])
            ok = n in decl and allowed(decl[n], v, ty)
            try:
                d.update({n: v})
                done = True
            except AssertionError:
                done = False
            S.true("accepted exactly when valid", done == ok)
            if ok:
                held[n] = v
        else:
            frozen.append((d, dict(decl), dict(held)))
            d = d.clone()
        compare(S, d, decl, held)
    for e, dc, h in frozen:
        compare(S, e, dc, h)


def update2(S):
    """an update sets every entry, and a rejected entry keeps its old value"""
    from smt.utils.options_dictionary import OptionsDictionary
    d = OptionsDictionary()
    a0, b0, lim = S.int("a0", -3, 3), S.int("b0", -3, 3), [S.int("l0", -3, 3), S.int("l1", -3, 3)]
    d.declare("a", a0)
    S.assume(S.OR(b0 == lim[0], b0 == lim[1]))
    d.declare("b", b0, values=lim)
    a, b = S.int("a", -3, 3), S.int("b", -3, 3)
    ok = allowed((lim, None), b, int)
    try:
        d.update({"a": a, "b": b})
        S.true("accepted only if valid", ok)
        S.eq("first", d["a"], a)
        S.eq("second", d["b"], b)
    except AssertionError:
        S.true("rejected only if invalid", not ok)
        S.eq("kept", d["b"], b0)


def clone_mutable(S):
    """changing a value held by the clone in place leaves the source alone, and the reverse"""
    from smt.utils.options_dictionary import OptionsDictionary
    d = OptionsDictionary()
    x, y, z = S.real("x", -3, 3), S.real("y", -3, 3), S.real("z", -3, 3)
    d.declare("a", [x], types=list)
    d.declare("b", {"k": x}, types=dict)
    c = d.clone()
    c["a"].append(y)
    c["b"]["k"] = y
    S.true("list of the source", len(d["a"]) == 1)
    S.eq("dictionary of the source", d["b"]["k"], x)
    d["a"][0] = z
    S.eq("list of the clone", c["a"][0], x)
    S.eq("list of the clone", c["a"][1], y)


def constructor(S, which="LS"):
    """keyword arguments of a surrogate go through the same validation; unknown names are refused"""
    import smt.surrogate_models as sms
    k = S.pick("k", ("good", "bad name", "bad type", "bad value"))
    kw = {"good": dict(print_global=False), "bad name": dict(no_such_option=1), "bad type": dict(print_global="yes"), "bad value": dict(solver="no_such_solver")}[k]
    if k == "bad value" and which != "RMTB":
        S.skip()
    try:
        sm = getattr(sms, which)(**kw)
        S.true("accepted", k == "good")
        S.true("stored", sm.options["print_global"] is False)
        before = dict(sm.options._dict)
        try:
            sm.options["print_global"] = 3
            S.true("refused", False)
        except AssertionError:
            pass
        S.true("unchanged", all(sm.options[n] is before[n] for n in before))
    except AssertionError:
        S.true("refused", k != "good")


def obligations(tier):
    o = []

    def add(_n, fn=history, **k):
        o.append(dict(name=_n, fn=fn, kwargs=k, opts=dict(time=200, max_paths=60000, witnesses=1)))
    H = ("declare", "set", "update", "clone")
    for a, b in itertools.product(H[1:], H[1:]):
        add("declare-%s-%s" % (a, b), ops=("declare", a, b), **({} if tier == "thorough" else dict(kinds=KINDS[:3], decls=DECL[:4])))
    add("declare-set", ops=("declare", "set"))
    add("declare-update", ops=("declare", "update"))
    add("set", ops=("set",))
    add("declare-declare", ops=("declare", "declare"))
    add("declare-clone-declare", ops=("declare", "clone", "declare"), decls=DECL[:4])
    if tier == "thorough":
        for a, b in itertools.product(H[1:], H[1:]):
            add("declare-%s-declare-%s" % (a, b), ops=("declare", a, "declare", b), kinds=("int", "p"))
            add("declare-declare-%s-%s" % (a, b), ops=("declare", "declare", a, b), kinds=("int", "p"))
    add("update-2", fn=update2)
    add("clone-mutable", fn=clone_mutable)
    for w in ("LS", "KRG", "RMTB", "IDW"):
        add("constructor-" + w, fn=constructor, which=w)
    return o
