"""C++ kernels: clang lowers /repo/smt/src to LLVM IR on every run; the IR is translated to Python functions that compute on
symbolic doubles with a bounds-, lifetime- and initialisation-checked memory.  The .pyx wrappers are parsed for the classes,
methods and argument passing, so that the whole path Python -> wrapper -> C++ is regenerated from the current sources."""
import math, os, re, subprocess, struct, types
import numpy as np
from . import sym, shim
from .sym import Sym, Unsupported

LIBS = {"idwclib": ("idw", ["idw"]), "rbfclib": ("rbf", ["rbf"]), "rmtsclib": ("rmts", ["utils", "rmts", "rmtb", "rmtc"])}
MEMHOOK = [None]        # called with the description of a memory-safety violation
LOG = [None]            # list: record of wrapper calls
STRICT = [False]        # memory check mode: conversions must fit an int, numpy.empty entries are tracked
UNSET_INT = -2147480001
PAYLOAD = struct.pack('<Q', 0x7ff8dead00000001)
NANF = struct.unpack('<d', PAYLOAD)[0]
EXECUTED = set()


class MemoryViolation(Exception):
    pass


class Unset:
    """an entry of a numpy.empty array that nothing has been stored in"""
    def __repr__(self):
        return "unset"


def _uns(n):
    def f(self, *a):
        bad("an entry of a work array that was never set is used")
    f.__name__ = n
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow neg pos abs lt le gt ge eq ne float int bool floordiv rfloordiv mod rmod").split():
    setattr(Unset, "__%s__" % _n, _uns("__%s__" % _n))
Unset.__hash__ = object.__hash__
UNSET = Unset()


def bad(what):
    if MEMHOOK[0] is not None:
        MEMHOOK[0](what)
    raise MemoryViolation(what)


class Mem:
    __slots__ = ("size", "cells", "kind", "freed", "name", "zero")

    def __init__(self, size, kind, name):
        if size < 0 or size > 1 << 30:
            bad("allocation of %d bytes" % size)
        self.size, self.kind, self.name = size, kind, name
        self.cells, self.freed, self.zero = {}, False, []


def chk(p, n, w):
    if p is None:
        bad("%s through a null pointer" % w)
    m, o = p
    if m.freed:
        bad("%s after free of %s" % (w, m.name))
    if o < 0 or o + n > m.size:
        bad("%s of %d bytes at offset %d of %s (%d bytes)" % (w, n, o, m.name, m.size))
    return m, o


def ld(p, n, dflt):
    m, o = chk(p, n, "read")
    v = m.cells.get(o)
    if v is None:
        for a, b in m.zero:
            if a <= o and o + n <= b:
                return dflt
        bad("read of uninitialised memory at offset %d of %s" % (o, m.name))
    if v[1] != n:
        raise Unsupported("load of %d bytes from a %d byte cell" % (n, v[1]))
    return v[0]


def st(p, n, v):
    m, o = chk(p, n, "write")
    m.cells[o] = (v, n)


def memcpy(d, s, n):
    if n == 0:
        return
    md, od = chk(d, n, "write")
    ms, os_ = chk(s, n, "read")
    for k in [k for k in md.cells if od <= k < od + n]:
        del md.cells[k]
    for k, v in list(ms.cells.items()):
        if os_ <= k and k + v[1] <= os_ + n:
            md.cells[k - os_ + od] = v
    for a, b in ms.zero:
        a, b = max(a, os_), min(b, os_ + n)
        if a < b:
            md.zero.append((a - os_ + od, b - os_ + od))


def memset(d, v, n):
    if n == 0:
        return
    m, o = chk(d, n, "write")
    if v != 0:
        raise Unsupported("memset to a non-zero byte")
    for k in [k for k in m.cells if o <= k < o + n]:
        del m.cells[k]
    m.zero.append((o, o + n))


def new(n, kind):
    return (Mem(n, kind, "a %d byte %s block" % (n, kind)), 0)


def delete(p, kind):
    if p is None:
        return
    m, o = p
    if m.freed:
        bad("double delete of %s" % m.name)
    if o != 0 or m.kind != kind:
        bad("delete (%s) of a pointer not from %s: %s" % (kind, kind, m.name))
    m.freed = True


def gep(p, o):
    if p is None:
        if o == 0:
            return None
        bad("pointer arithmetic on null")
    return (p[0], p[1] + o)


def _bin(op, f):
    def g(a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return f(a, b)
        for v in (a, b):
            if isinstance(v, float) and not math.isfinite(v):
                return math.nan
        return sym.arith(op, sym.lift(a), sym.lift(b))
    return g


def _div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


fadd = _bin('add', lambda a, b: a + b)
fsub = _bin('sub', lambda a, b: a - b)
fmul = _bin('mul', lambda a, b: a * b)
_fdiv0 = _bin('div', _div)


def fdiv(a, b):
    if isinstance(a, Sym) and not isinstance(b, Sym) and b == 0:
        return math.nan
    return _fdiv0(a, b)


def fneg(a):
    return -a


def fma(a, b, c):
    return fadd(fmul(a, b), c)


def f1(name):
    def g(a):
        if isinstance(a, Sym):
            return getattr(a, name)()
        try:
            return float(getattr(np, name)(a))
        except Exception:
            return math.nan
    return g


def fpow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all='ignore'):
            return float(np.power(a, b))
    if isinstance(a, Sym) and not isinstance(b, Sym):
        if float(b).is_integer() and 0 <= b <= 8:
            return a ** int(b)
        if b < 0 and bool(a == 0):
            return math.inf
    return a ** b


def fabs(a):
    return abs(a)


def fmax(a, b):
    return a if bool(a >= b) else b


def fmin(a, b):
    return a if bool(a <= b) else b


def fcmp(pred, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        nan = a != a or b != b
        if pred == 'ord':
            return int(not nan)
        if pred == 'uno':
            return int(nan)
        if nan:
            return int(pred[0] == 'u')
    else:
        if pred in ('ord', 'uno'):
            return int(pred == 'ord')
        for v in (a, b):
            if isinstance(v, float) and math.isnan(v):
                return int(pred[0] == 'u')
        if isinstance(a, float) and math.isinf(a):
            return int({'eq': False, 'ne': True, 'gt': a > 0, 'ge': a > 0, 'lt': a < 0, 'le': a < 0}[pred[1:]])
        if isinstance(b, float) and math.isinf(b):
            return int({'eq': False, 'ne': True, 'gt': b < 0, 'ge': b < 0, 'lt': b > 0, 'le': b > 0}[pred[1:]])
    k = pred[1:]
    r = a == b if k == 'eq' else a != b if k == 'ne' else a > b if k == 'gt' else a >= b if k == 'ge' else a < b if k == 'lt' else a <= b
    return int(bool(r))


def toint(a):
    if STRICT[0]:
        if isinstance(a, float) and not math.isfinite(a) or bool(a >= 2147483648.0) or bool(a <= -2147483649.0):
            bad("conversion of a number outside the int range to int")
    if isinstance(a, Sym):
        return a.__int__()
    if a != a or math.isinf(a):
        bad("conversion of %r to an integer" % a)
    return int(a)


def w(n, x):
    h = 1 << (n - 1)
    return ((x + h) & ((1 << n) - 1)) - h


def uns(n, x):
    return x & ((1 << n) - 1)


def sdiv(a, b):
    if b == 0:
        bad("integer division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def srem(a, b):
    return a - b * sdiv(a, b)


# ------------------------------------------------------------------ IR -> Python
class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.alias = {}, {}, {}, {}
        self.compiled = {}

    # ---- types
    def size(self, t):
        t = t.strip()
        if t == 'ptr' or t == 'double' or t == 'i64':
            return 8
        if t in ('i32', 'float'):
            return 4
        if t in ('i8', 'i1'):
            return 1
        if t == 'i16':
            return 2
        m = re.fullmatch(r'\[(\d+) x (.*)\]', t)
        if m:
            return int(m.group(1)) * self.size(m.group(2))
        if t.startswith('%'):
            return self.layout(t)[0]
        if t.startswith('{'):
            return self._lay(split(t[1:-1]))[0]
        raise Unsupported("type " + t)

    def align(self, t):
        t = t.strip()
        m = re.fullmatch(r'\[(\d+) x (.*)\]', t)
        if m:
            return self.align(m.group(2))
        if t.startswith('%'):
            return max([self.align(f) for f in self.types[t]] or [1])
        if t.startswith('{'):
            return max([self.align(f) for f in split(t[1:-1])] or [1])
        return self.size(t)

    def layout(self, t):
        return self._lay(self.types[t])

    def _lay(self, fields):
        o, offs, al = 0, [], 1
        for f in fields:
            a = self.align(f)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(f)
            al = max(al, a)
        return (o + al - 1) // al * al, offs

    def parse(self, text):
        it = iter(text.split('\n'))
        for l in it:
            m = re.match(r'(%[\w."$:<>,]+) = type \{(.*)\}', l)
            if m:
                self.types[m.group(1)] = split(m.group(2))
                continue
            m = re.match(r'(%[\w."$:<>,]+) = type <\{', l)
            if m:
                continue
            m = re.match(r'@([\w.$"]+) = .*?alias .*? @([\w.$]+)\s*$', l)
            if m:
                self.alias[m.group(1)] = m.group(2)
                continue
            m = re.match(r'@([\w.$"]+) = .*?(?:constant|global) (.*)$', l)
            if m:
                self.globals[m.group(1)] = m.group(2)
                continue
            if l.startswith('define '):
                m = re.match(r'define .*?@([\w.$]+)\((.*?)\)(?: [^()]*)?\{?', l)
                m = re.search(r'@([\w.$]+)\(', l)
                name = m.group(1)
                args, depth, i = [], 1, m.end()
                j = i
                while depth:
                    c = l[j]
                    depth += c == '('
                    depth -= c == ')'
                    j += 1
                args = split(l[i:j - 1])
                body = []
                for b in it:
                    if b == '}':
                        break
                    body.append(b)
                self.funcs[name] = ([(a.split()[0], a.split()[-1]) for a in args if a.strip() and a.strip() != '...'], body)

    # ---- globals
    def gmem(self, name):
        g = self.globals.get(name)
        if isinstance(g, tuple):
            return g
        if g is None:
            raise Unsupported("global @" + name)
        g = re.sub(r', align \d+\s*$', '', g.strip())
        t, init = ttype(g)
        mem = Mem(self.size(t), 'global', '@' + name)
        self.ginit(t, init, mem, 0)
        self.globals[name] = (mem, 0)
        return self.globals[name]

    def ginit(self, t, x, mem, o):
        n = self.size(t)
        x = x.strip()
        if x == 'zeroinitializer':
            mem.zero.append((o, o + n))
            return
        m = re.fullmatch(r'\[(\d+) x (.*)\]', t)
        if m:
            s = self.size(m.group(2))
            if x.startswith('c"'):
                i, k, b = 2, 0, x
                while b[i] != '"':
                    if b[i] == '\\':
                        v, i = int(b[i + 1:i + 3], 16), i + 3
                    else:
                        v, i = ord(b[i]), i + 1
                    mem.cells[o + k] = (w(8, v), 1)
                    k += 1
                return
            for i, e in enumerate(split(x[1:-1])):
                et, ev = ttype(e)
                self.ginit(et, ev, mem, o + i * s)
            return
        if t.startswith('%') or t.startswith('{'):
            offs = self.layout(t)[1] if t.startswith('%') else self._lay(split(t[1:-1]))[1]
            for of, e in zip(offs, split(x[1:-1])):
                et, ev = ttype(e)
                self.ginit(et, ev, mem, o + of)
            return
        if t in ('double', 'float'):
            mem.cells[o] = (fconst(x), n)
        elif x == 'null':
            mem.cells[o] = (None, n)
        elif x in ('true', 'false'):
            mem.cells[o] = (int(x == 'true'), n)
        else:
            try:
                mem.cells[o] = (int(x), n)
            except ValueError:
                raise Unsupported("global initialiser " + x[:60])

    def fn(self, name):
        name = self.alias.get(name, name)
        f = self.compiled.get(name)
        if f is None:
            if name not in self.funcs:
                return None
            f = self.compiled[name] = compile_fn(self, name)
        return f

    def call(self, name, *args):
        EXECUTED.add(name)
        f = self.fn(name)
        if f is None:
            raise Unsupported("call of external function " + name)
        return f(*args)


def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            d += 1
        if c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def ttype(e):
    """'type value' -> (type, value)"""
    e = e.strip()
    if e[0] in '[{':
        d = 0
        for i, c in enumerate(e):
            d += c in '[{'
            d -= c in ']}'
            if d == 0:
                return e[:i + 1], e[i + 1:].strip()
    t, v = e.split(None, 1)
    return t, v


def fconst(v):
    if v.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return float(v)


EXT = {"exp": "f_exp", "log": "f_log", "sqrt": "f_sqrt", "sin": "f_sin", "cos": "f_cos", "ceil": "f_ceil", "floor": "f_floor",
       "fabs": "fabs", "pow": "fpow", "fmax": "fmax", "fmin": "fmin", "llvm.fabs.f64": "fabs", "llvm.sqrt.f64": "f_sqrt",
       "llvm.ceil.f64": "f_ceil", "llvm.floor.f64": "f_floor", "llvm.pow.f64": "fpow", "llvm.exp.f64": "f_exp",
       "llvm.log.f64": "f_log", "llvm.fmuladd.f64": "fma", "llvm.fma.f64": "fma", "llvm.maxnum.f64": "fmax", "llvm.minnum.f64": "fmin",
       "llvm.smax.i32": "max", "llvm.smin.i32": "min", "llvm.abs.i32": "iabs", "abs": "abs", "llvm.smax.i64": "max", "llvm.smin.i64": "min"}


def compile_fn(M, name):
    args, body = M.funcs[name]
    ids = {}

    def v(n):
        if n not in ids:
            ids[n] = "v%d" % len(ids)
        return ids[n]

    def val(t, x):
        x = x.strip()
        if x.startswith('%'):
            return v(x)
        if x.startswith('@'):
            n = x[1:]
            if n in M.globals:
                return "G(%r)" % n
            return "FN(%r)" % n
        if x in ('null',):
            return "None"
        if x in ('true', 'false'):
            return '1' if x == 'true' else '0'
        if x in ('undef', 'poison'):
            return "UNDEF"
        if x == 'zeroinitializer':
            return '0.0' if t == 'double' else '0'
        if t in ('double', 'float'):
            return repr(fconst(x)) if math.isfinite(fconst(x)) else "float('%r')" % fconst(x)
        if x.startswith('getelementptr'):
            m = re.match(r'getelementptr (?:inbounds )?\((.*)\)', x)
            return gepx(split(m.group(1)))
        return str(int(x))

    def gepx(parts):
        ty = parts[0]
        base = val('ptr', parts[1].split(None, 1)[1])
        exprs, const = [], 0
        cur = ty
        for k, ix in enumerate(parts[2:]):
            it, iv = ix.split(None, 1)
            if k == 0:
                sz = M.size(cur)
            else:
                m = re.fullmatch(r'\[(\d+) x (.*)\]', cur)
                if m:
                    cur = m.group(2)
                    sz = M.size(cur)
                else:
                    f = int(iv)
                    const += M.layout(cur)[1][f]
                    cur = M.types[cur][f]
                    continue
            e = val(it, iv)
            if re.fullmatch(r'-?\d+', e):
                const += int(e) * sz
            else:
                exprs.append("%s*%d" % (e, sz))
        exprs.append(str(const))
        return "gep(%s, %s)" % (base, " + ".join(exprs))

    # blocks
    blocks, cur, order = {}, None, []
    label = None
    pend = ''
    for l in body:
        l = re.sub(r',? ?![\w.]+ ?![\w]+', '', l)
        l = re.sub(r';.*$', '', l).rstrip()
        if not l.strip():
            continue
        m = re.match(r'^([\w.$"-]+):', l)
        if m:
            label = m.group(1)
            blocks[label] = []
            order.append(label)
            continue
        if label is None:
            label = '0entry'
            blocks[label] = []
            order.append(label)
        if pend:
            pend += ' ' + l.strip()
            if l.strip() == ']' or l.strip().endswith(']'):
                blocks[label].append(pend)
                pend = ''
            continue
        if l.strip().startswith('switch') and not l.strip().endswith(']'):
            pend = l.strip()
            continue
        blocks[label].append(l.strip())
    num = {b: i for i, b in enumerate(order)}
    if '0entry' in num:
        # an unnamed entry block is referred to by its number
        used = set(re.findall(r'%(\d+)\b', ' '.join(i for b in blocks.values() for i in b if ' phi ' in i)))
    phis = {}
    for b in order:
        phis[b] = []
        for ins in blocks[b]:
            m = re.match(r'(%[\w.$"-]+) = phi (?:fast |nnan |ninf )*([^\[]+?) (\[.*)$', ins)
            if m:
                inc = re.findall(r'\[ *(.+?), %([\w.$"-]+) *\]', m.group(3))
                phis[b].append((m.group(1), m.group(2).strip(), {lab: x for x, lab in inc}))
    out = []
    emit = out.append

    def goto(frm, to, ind):
        fl = frm
        ps = phis[to]
        if ps:
            lhs, rhs = [], []
            for d, t, inc in ps:
                if fl not in inc:
                    cand = [k for k in inc if k not in num]
                    key = cand[0] if len(cand) == 1 and fl == '0entry' else None
                    if key is None:
                        raise Unsupported("phi edge %s->%s" % (frm, to))
                    x = inc[key]
                else:
                    x = inc[fl]
                lhs.append(v(d))
                rhs.append(val(t, x))
            emit(ind + "%s = %s" % (", ".join(lhs) + ("," if len(lhs) == 1 else ""), ", ".join(rhs) + ("," if len(rhs) == 1 else "")))
        emit(ind + "B = %d" % num[to])
        emit(ind + "continue")

    for b in order:
        emit("  %s B == %d:" % ("if", num[b]))
        I = "    "
        n0 = len(out)
        for ins in blocks[b]:
            m = re.match(r'(%[\w.$"-]+) = (.*)$', ins)
            d, r = (v(m.group(1)), m.group(2)) if m else (None, ins)
            r = re.sub(r'^(tail |musttail |notail )', '', r)
            op = r.split()[0]
            if op == 'phi':
                continue
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                m = re.match(r'\w+ (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(\w+) (.*)$', r)
                a, c = split(m.group(2))
                emit(I + "%s = %s(%s, %s)" % (d, op, val('double', a), val('double', c)))
            elif op == 'fneg':
                m = re.match(r'fneg (?:\w+ )*?(double) (.*)$', r)
                emit(I + "%s = fneg(%s)" % (d, val('double', m.group(2))))
            elif op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'udiv', 'urem'):
                m = re.match(r'\w+ (?:(?:nsw|nuw|exact|disjoint) )*i(\d+) (.*)$', r)
                n = int(m.group(1))
                a, c = [val('i', x) for x in split(m.group(2))]
                e = {'add': "%s + %s", 'sub': "%s - %s", 'mul': "%s * %s", 'sdiv': "sdiv(%s, %s)", 'srem': "srem(%s, %s)",
                     'and': "%s & %s", 'or': "%s | %s", 'xor': "%s ^ %s", 'shl': "%s << %s", 'ashr': "%s >> %s",
                     'lshr': "uns(" + str(n) + ", %s) >> %s", 'udiv': "uns(" + str(n) + ", %s) // uns(" + str(n) + ", %s)",
                     'urem': "uns(" + str(n) + ", %s) %% uns(" + str(n) + ", %s)"}[op] % (a, c)
                if n == 1:
                    emit(I + "%s = (%s) & 1" % (d, e))
                elif op in ('and', 'or', 'sdiv', 'srem', 'ashr', 'xor'):
                    emit(I + "%s = %s" % (d, e))
                else:
                    emit(I + "%s = w(%d, %s)" % (d, n, e))
            elif op == 'icmp':
                m = re.match(r'icmp (\w+) (\S+) (.*)$', r)
                p, t = m.group(1), m.group(2)
                a, c = [val(t, x) for x in split(m.group(3))]
                if p[0] == 'u' and t != 'ptr':
                    n = int(t[1:])
                    a, c = "uns(%d, %s)" % (n, a), "uns(%d, %s)" % (n, c)
                o = {'eq': '==', 'ne': '!='}.get(p) or {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[p[1:]]
                emit(I + "%s = int(%s %s %s)" % (d, a, o, c))
            elif op == 'fcmp':
                m = re.match(r'fcmp (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(\w+) (\w+) (.*)$', r)
                a, c = [val('double', x) for x in split(m.group(3))]
                if m.group(1) in ('true', 'false'):
                    emit(I + "%s = %d" % (d, m.group(1) == 'true'))
                else:
                    emit(I + "%s = fcmp(%r, %s, %s)" % (d, m.group(1), a, c))
            elif op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'freeze'):
                m = re.match(r'\w+ (?:(?:nneg|nuw|nsw) )*(\S+) (.*?)(?: to (\S+))?$', r)
                t, x, t2 = m.group(1), val(m.group(1), m.group(2)), m.group(3)
                if op in ('sext', 'bitcast', 'freeze', 'fpext'):
                    e = x if not (op == 'sext' and t == 'i1') else "-(%s)" % x
                elif op == 'zext':
                    e = "uns(%s, %s)" % (t[1:], x)
                elif op == 'trunc':
                    e = "(%s) & 1" % x if t2 == 'i1' else "w(%s, %s)" % (t2[1:], x)
                elif op == 'sitofp':
                    e = "float(%s)" % x
                elif op == 'uitofp':
                    e = "float(uns(%s, %s))" % (t[1:], x)
                elif op in ('fptosi', 'fptoui'):
                    e = "toint(%s)" % x
                else:
                    raise Unsupported("IR " + r)
                emit(I + "%s = %s" % (d, e))
            elif op == 'select':
                m = re.match(r'select (?:(?:fast|nnan|ninf|nsz) )*i1 (.*)$', r)
                a, c, e = split(m.group(1))
                emit(I + "%s = %s if %s else %s" % (d, val(*c.split(None, 1)), val('i1', a), val(*e.split(None, 1))))
            elif op == 'load':
                m = re.match(r'load (?:volatile )?([^,]+), ptr ([^,]+)', r)
                t = m.group(1).strip()
                emit(I + "%s = ld(%s, %d, %s)" % (d, val('ptr', m.group(2)), M.size(t), {'ptr': 'None', 'double': '0.0'}.get(t, '0')))
            elif op == 'store':
                m = re.match(r'store (?:volatile )?(.*)$', r)
                ps = split(m.group(1))
                t, x = ps[0].split(None, 1)
                emit(I + "st(%s, %d, %s)" % (val('ptr', ps[1].split(None, 1)[1]), M.size(t), val(t, x)))
            elif op == 'alloca':
                ps = split(r[len('alloca '):])
                e = str(M.size(ps[0]))
                for q in ps[1:]:
                    if not q.startswith('align'):
                        e += " * " + val(*q.split(None, 1))
                emit(I + "%s = new(%s, 'stack')" % (d, e))
            elif op == 'getelementptr':
                r2 = re.sub(r'^getelementptr (?:inbounds |nuw |nusw )*', '', r)
                emit(I + "%s = %s" % (d, gepx(split(r2))))
            elif op == 'call':
                m = re.search(r'(@[\w.$]+|%[\w.$-]+)\(', r)
                callee = m.group(1)
                j, depth = m.end(), 1
                while depth:
                    depth += r[j] == '('
                    depth -= r[j] == ')'
                    j += 1
                av = []
                for a in split(r[m.end():j - 1]):
                    t = a.split()[0]
                    a = re.sub(r'(dereferenceable|align|dereferenceable_or_null)\(\d+\)|align \d+', '', a)
                    x = a[len(t):].strip()
                    x = x if x.startswith('getelementptr') else x.split()[-1]
                    av.append(val(t, x))
                n = callee[1:]
                if callee[0] == '%':
                    e = "%s(%s)" % (v(callee), ", ".join(av))
                elif n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                    e = "memcpy(%s, %s, %s)" % tuple(av[:3])
                elif n.startswith('llvm.memset'):
                    e = "memset(%s, %s, %s)" % tuple(av[:3])
                elif n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume') or n.startswith('llvm.stack'):
                    continue
                elif n in ('_Znam', '_Znwm', 'malloc'):
                    e = "new(%s, %r)" % (av[0], {'_Znam': 'new[]', '_Znwm': 'new', 'malloc': 'malloc'}[n])
                elif n in ('_ZdaPv', '_ZdaPvm'):
                    e = "delete(%s, 'new[]')" % av[0]
                elif n in ('_ZdlPv', '_ZdlPvm'):
                    e = "delete(%s, 'new')" % av[0]
                elif n == 'free':
                    e = "delete(%s, 'malloc')" % av[0]
                elif n in EXT:
                    e = "%s(%s)" % (EXT[n], ", ".join(av[:1] if n.startswith('llvm.abs') else av))
                elif re.match(r'llvm\.[su](mul|add|sub)\.with\.overflow\.i64', n):
                    e = "ovf(%r, %s, %s)" % (n.split('.')[1], av[0], av[1])
                else:
                    e = "CALL(%r%s)" % (n, "".join(", " + a for a in av))
                emit(I + ("%s = %s" % (d, e) if d else e))
            elif op == 'extractvalue':
                m = re.match(r'extractvalue \{[^}]*\} (\S+), (\d+)', r)
                emit(I + "%s = %s[%s]" % (d, val('', m.group(1)), m.group(2)))
            elif op == 'br':
                m = re.match(r'br label %([\w.$"-]+)', r)
                if m:
                    goto(b, m.group(1), I)
                else:
                    m = re.match(r'br i1 (\S+), label %([\w.$"-]+), label %([\w.$"-]+)', r)
                    emit(I + "if %s:" % val('i1', m.group(1)))
                    goto(b, m.group(2), I + "  ")
                    goto(b, m.group(3), I)
            elif op == 'switch':
                m = re.match(r'switch (\S+) (\S+), label %([\w.$"-]+) \[(.*)\]', r)
                x = val(m.group(1), m.group(2))
                for c, lab in re.findall(r'i\d+ (-?\d+), label %([\w.$"-]+)', m.group(4)):
                    emit(I + "if %s == %s:" % (x, c))
                    goto(b, lab, I + "  ")
                goto(b, m.group(3), I)
            elif op == 'ret':
                m = re.match(r'ret (\S+)(?: (.*))?$', r)
                emit(I + ("return" if m.group(1) == 'void' else "return " + val(m.group(1), m.group(2))))
            elif op == 'unreachable':
                emit(I + "unreachable()")
            else:
                raise Unsupported("IR instruction " + r)
        if len(out) == n0:
            emit(I + "pass")
    src = "def F(%s):\n  B = 0\n  while True:\n" % ", ".join(v(a) for _, a in args)
    src += "\n".join("  " + l for l in out)
    g = dict(globals())
    g.update(G=M.gmem, FN=lambda n: (lambda *a: M.call(n, *a)), CALL=M.call, UNDEF=0, f_exp=f1('exp'), f_log=f1('log'),
             f_sqrt=f1('sqrt'), f_sin=f1('sin'), f_cos=f1('cos'), f_ceil=f1('ceil'), f_floor=f1('floor'), iabs=abs, ovf=ovf,
             unreachable=unreachable)
    exec(compile(src, "<ir:%s>" % name, "exec"), g)
    return g['F']


def ovf(k, a, b):
    u = k[0] == 'u'
    a, b = (uns(64, a), uns(64, b)) if u else (a, b)
    r = {'mul': a * b, 'add': a + b, 'sub': a - b}[k[1:]]
    return (w(64, r), int(not (0 <= r < 1 << 64)) if u else int(w(64, r) != r))


def unreachable():
    bad("control reaches undefined behaviour")


# ------------------------------------------------------------------ wrappers
class Wrapped:
    pass


def parse_pyx(text):
    """-> {python class: (C++ class, {method: (args [(type, name)], [ (c++ method, [arg exprs]) ])})}"""
    out = {}
    cls, cur, meth = None, None, None
    text = re.sub(r'#.*', '', text)
    # join continued lines
    lines, buf = [], ''
    for l in text.split('\n'):
        buf = (buf + ' ' + l.strip()) if buf else l
        if buf.count('(') > buf.count(')') or buf.count('[') > buf.count(']'):
            continue
        lines.append(buf)
        buf = ''
    for l in lines:
        m = re.match(r'cdef class (\w+)', l)
        if m:
            cls = m.group(1)
            out[cls] = [None, {}]
            continue
        if cls is None:
            continue
        m = re.match(r'\s+cdef (\w+) ?\* ?(\w+)', l)
        if m:
            out[cls][0] = m.group(1)
            continue
        m = re.match(r'\s+def (\w+)\(self,?(.*)\):', l)
        if m:
            meth = m.group(1)
            args = []
            for a in split(m.group(2)):
                t, n = a.rsplit(None, 1)
                args.append((t.replace(' ', ''), n))
            out[cls][1][meth] = (args, [])
            continue
        m = re.match(r'\s+self\.(\w+)\.(\w+)\((.*)\)\s*$', l)
        if m and meth:
            out[cls][1][meth][1].append((m.group(2), split(m.group(3))))
            continue
        if l.strip() and meth not in ('__cinit__', '__dealloc__'):
            raise Unsupported("pyx line: " + l.strip())
    return out


def to_mem(a, t, name):
    """numpy array (1-D) -> checked memory"""
    p = shim.plain(a)
    if not isinstance(p, np.ndarray):
        raise TypeError("Argument '%s' has incorrect type" % name)
    if p.ndim != 1:
        raise ValueError("Buffer has wrong number of dimensions (expected 1, got %d)" % p.ndim)
    if t == 'double':
        if p.dtype != object and p.dtype != np.float64:
            raise ValueError("Buffer dtype mismatch, expected 'double' but got '%s'" % p.dtype)
        n = 8
    else:
        if p.dtype != np.int32:
            raise ValueError("Buffer dtype mismatch, expected 'int' but got '%s'" % p.dtype)
        n = 4
    m = Mem(n * len(p), 'numpy', "array argument '%s' of %d elements" % (name, len(p)))
    if t == 'double':
        for i, v in enumerate(p.tolist()):
            if v is not UNSET and not (STRICT[0] and v != v and struct.pack('<d', v) == PAYLOAD):
                m.cells[n * i] = (v if isinstance(v, (float, Sym)) else float(v), n)
    else:
        for i, v in enumerate(p.tolist()):
            if not (STRICT[0] and v == UNSET_INT):
                m.cells[n * i] = (v, n)
    return m


def _noreduce(self, *a):
    raise TypeError("no default __reduce__ due to non-trivial __cinit__")


def make_class(M, pyname, cpp, methods):
    tsize = M.size("%class." + cpp)

    def ctor(self):
        self._this = (Mem(tsize, 'new', 'the %s object' % cpp), 0)
        self._log = []
        c = [n for n in M.funcs if re.match(r'_ZN%d%sC[12]E' % (len(cpp), cpp), n)]
        if c:
            M.call(c[0], self._this)
        if LOG[0] is not None:
            LOG[0].append((id(self), pyname, '__init__', []))

    def find(meth):
        chain = [cpp]
        k = "%class." + cpp
        while k in M.types:
            b = [f for f in M.types[k] if f.startswith('%class.')]
            if not b:
                break
            k = b[0].replace('.base', '')
            chain.append(k[len('%class.'):])
        for c in chain:
            r = re.compile(r'_ZN%d%s%d%sE' % (len(c), c, len(meth), meth))
            for n in M.funcs:
                if r.match(n):
                    return n
        raise Unsupported("no IR for %s::%s" % (cpp, meth))

    def mk(mname, args, calls):
        def f(self, *a, **kw):
            a = list(a)
            for t, n in args[len(a):]:
                if n not in kw:
                    raise TypeError("%s() takes exactly %d positional arguments (%d given)" % (mname, len(args), len(a)))
                a.append(kw.pop(n))
            if len(a) != len(args) or kw:
                raise TypeError("%s() takes exactly %d positional arguments (%d given)" % (mname, len(args), len(a)))
            env, mems = {}, []
            for (t, n), x in zip(args, a):
                m = re.match(r'np\.ndarray\[(double|int)\]', t)
                if m:
                    mem = to_mem(x, m.group(1), n)
                    env[n] = (mem, x, m.group(1))
                    mems.append((mem, x, m.group(1)))
                elif t == 'int':
                    if isinstance(x, (float, np.floating)):
                        raise TypeError("an integer is required")
                    env[n] = int(x)
                elif t == 'double':
                    env[n] = x if isinstance(x, Sym) else float(x)
                else:
                    raise Unsupported("pyx argument type " + t)
            if LOG[0] is not None:
                LOG[0].append((id(self), pyname, mname, [env[n] if not isinstance(env[n], tuple) else np.array(x, dtype=env[n][2] == 'int' and np.int32 or object)
                                                        for (t, n), x in zip(args, a)]))
            for meth, exprs in calls:
                av = []
                for e in exprs:
                    m = re.fullmatch(r'&(\w+)\[(\d+)\]', e)
                    if m:
                        mem, x, t = env[m.group(1)]
                        k = int(m.group(2))
                        if k * (8 if t == 'double' else 4) >= mem.size:
                            raise IndexError("Out of bounds on buffer access (axis 0)")
                        av.append((mem, k * (8 if t == 'double' else 4)))
                    elif re.fullmatch(r'\w+', e):
                        av.append(env[e] if not re.fullmatch(r'-?\d+', e) else int(e))
                    else:
                        raise Unsupported("pyx argument " + e)
                M.call(find(meth), self._this, *av)
            for mem, x, t in mems:
                n = 8 if t == 'double' else 4
                y = shim.plain(x)
                for i in range(len(y)):
                    c = mem.cells.get(i * n)
                    if c is not None:
                        y[i] = c[0]
                    elif not STRICT[0]:
                        y[i] = 0
        f.__name__ = mname
        return f
    d = {m: mk(m, a, c) for m, (a, c) in methods.items() if m not in ('__cinit__', '__dealloc__')}
    d['__init__'] = ctor
    d['__reduce__'] = _noreduce
    d['__reduce_ex__'] = _noreduce
    d['_module'] = M
    return type(pyname, (object,), d)


def lower(repo, scratch, lib):
    sub, files = LIBS[lib]
    M = Module()
    srcdir = os.path.join(repo, "smt", "src", sub)
    present = sorted(f[:-4] for f in os.listdir(srcdir) if f.endswith('.cpp') and not f.endswith('clib.cpp'))
    procs = []
    for f in sorted(set(files) | set(present)):
        ll = os.path.join(scratch, "%s_%s.ll" % (lib, f))
        cmd = ("clang++ -std=c++11 -S -emit-llvm -O0 -Xclang -disable-O0-optnone -fno-discard-value-names -fno-exceptions -w -o - %s | "
               "opt -S -passes=mem2reg -o %s" % (os.path.join(srcdir, f + ".cpp"), ll))
        procs.append((ll, subprocess.Popen(["bash", "-o", "pipefail", "-c", cmd], stderr=subprocess.PIPE, text=True)))
    for ll, p in procs:
        _, err = p.communicate()
        if p.returncode != 0:
            raise Unsupported("clang failed: " + err[-400:])
        M.parse(open(ll).read())
    pyx = parse_pyx(open(os.path.join(srcdir, lib + ".pyx")).read())
    return M, {k: make_class(M, k, c, ms) for k, (c, ms) in pyx.items()}


def install(repo, scratch):
    fns = []
    for lib in LIBS:
        M, classes = lower(repo, scratch, lib)
        name = "smt.surrogate_models." + lib
        mod = types.ModuleType(name)
        for k, c in classes.items():
            c.__module__ = name
            setattr(mod, k, c)
        shim.EXTRA[name] = mod
        fns += ["smt/src/%s (LLVM IR): %s" % (LIBS[lib][0], f) for f in M.funcs if '_GLOBAL_' not in f and 'ios_base' not in f and not f.startswith('_ZSt')]
    return dict(functions=fns)
