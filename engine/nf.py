"""Normal form: rational functions over atoms, with exponentials and fractional powers combined canonically.

A polynomial is a dict {(powers, E): coef}: `powers` is a sorted tuple of (atom id, integer exponent), `E` the id of an
interned exponential part  exp(sum c_m * m) * prod P_i ** f_i  (0 = none; 0 < f_i < 1).
A rational function is (numerator, {poly id: power}).
"""
import math
from fractions import Fraction
from .sym import Sym, _post, rat, Unsupported, z3, lift
from . import sym as _s

F0, F1 = Fraction(0), Fraction(1)
REL = Fraction(1, 10 ** 9)


class TooBig(Exception):
    pass


MAXTERMS = 60000


LONG = 700


def _short(f):
    """coefficients are kept to 240 significant bits (relative 1e-72, far below every tolerance used)"""
    d = f.denominator.bit_length()
    if d <= LONG:
        return f
    k = 240 - (abs(f.numerator).bit_length() - d)
    return Fraction(round(f * (1 << k)), 1 << k) if k > 0 else f


class NF:
    def __init__(self, bounds):
        self.bounds = bounds            # var name -> (lo, hi)
        self.atoms = []                 # (kind, payload)
        self.atom_ix = {}
        self.es = [()]                  # id -> tuple((kind, key, coef))
        self.e_ix = {}
        self.emul = {}
        self.polys = []
        self.poly_ix = {}
        self.memo = {}
        self._iv = {}
        self._eiv = {}
        self._ratom = {}
        self.base = (self.bounds, self._iv, self._eiv)

    # ---------------- interning
    def atom(self, kind, payload):
        k = (kind, payload)
        i = self.atom_ix.get(k)
        if i is None:
            i = self.atom_ix[k] = len(self.atoms)
            self.atoms.append(k)
        return i

    def fatom(self, kind, p):
        """atom of a function of polynomial p (matched up to round-off)"""
        fz = tuple(sorted(p.items(), key=lambda t: repr(t[0])))
        shape = (kind, tuple(k for k, _ in fz))
        lst = self._ratom.setdefault(shape, [])
        cs = [c for _, c in fz]
        for i, old in lst:
            if all(abs(a - b) <= REL * max(abs(a), abs(b)) for a, b in zip(cs, old)):
                return i
        i = self.atom(kind, fz)
        lst.append((i, cs))
        return i

    def eid(self, items):
        """items: dict {(kind,key): coef}; kind 'm' (monomial exponent) or 'L' (log of poly). Returns (id)"""
        items = {k: c for k, c in items.items() if abs(c) > Fraction(1, 10 ** 13)}
        if not items:
            return 0
        t = tuple(sorted(items.items(), key=lambda x: repr(x[0])))
        shape = tuple(k for k, _ in t)
        lst = self.e_ix.setdefault(shape, [])
        cs = [c for _, c in t]
        for i, old in lst:
            if all(abs(a - b) <= REL * max(abs(a), abs(b)) for a, b in zip(cs, old)):
                return i
        i = len(self.es)
        self.es.append(t)
        lst.append((i, cs))
        return i

    def e_mul(self, a, b):
        """returns (E id, list of poly ids to multiply by)"""
        if a == 0:
            return b, ()
        if b == 0:
            return a, ()
        k = (a, b) if a < b else (b, a)
        r = self.emul.get(k)
        if r is None:
            d = dict(self.es[a])
            for kk, c in self.es[b]:
                d[kk] = d.get(kk, F0) + c
            extra = []
            for kk in list(d):
                if kk[0] == 'L' and d[kk] >= 1:
                    d[kk] -= 1
                    extra.append(kk[1])
                # cancellation up to round-off
                elif kk[0] == 'm':
                    base = max(abs(dict(self.es[a]).get(kk, F0)), abs(dict(self.es[b]).get(kk, F0)))
                    if abs(d[kk]) <= REL * base:
                        d[kk] = F0
            r = self.emul[k] = (self.eid(d), tuple(extra))
        return r

    # ---------------- polynomials
    def padd(self, p, q, k=F1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, F0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for i, k in b:
            v = d.get(i, 0) + k
            if v:
                d[i] = v
            else:
                d.pop(i, None)
        return tuple(sorted(d.items()))

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > MAXTERMS * 8:
            raise TooBig("product %d x %d" % (len(p), len(q)))
        r = {}
        later = []
        for (ma, ea), ca in p.items():
            for (mb, eb), cb in q.items():
                e, extra = self.e_mul(ea, eb)
                m = self.mmul(ma, mb)
                c = ca * cb
                m, sc = self.reduce(m)
                for mm, cc in (sc if sc else ((m, F1),)):
                    k = (mm, e)
                    if extra:
                        later.append((k, c * cc, extra))
                        continue
                    v = r.get(k, F0) + c * cc
                    if v:
                        r[k] = v
                    else:
                        r.pop(k, None)
        for k, c, extra in later:
            t = {k: c}
            for pid in extra:
                t = self.pmul(t, self.polys[pid])
            r = self.padd(r, t)
        if len(r) > MAXTERMS:
            raise TooBig("%d terms" % len(r))
        for k, c in r.items():
            if c.denominator.bit_length() > LONG:
                r[k] = _short(c)
        return r

    def reduce(self, m):
        """sin^2 -> 1 - cos^2 inside a monomial; returns (m, None) or (m, [(mono, coef)...])"""
        for i, k in m:
            kind = self.atoms[i][0]
            if kind == 'sin' and k >= 2:
                ci = self.atom('cos', self.atoms[i][1])
                rest = tuple(x for x in m if x[0] != i)
                if k - 2:
                    rest = tuple(sorted(rest + ((i, k - 2),)))
                m2 = self.mmul(rest, ((ci, 2),))
                out = []
                for mm, c in ((rest, F1), (m2, -F1)):
                    x, sc = self.reduce(mm)
                    if sc:
                        out += [(a, b * c) for a, b in sc]
                    else:
                        out.append((x, c))
                return m, out
        return m, None

    def polyid(self, p):
        """normalises so that the coefficient of the first key is 1: returns (id, scale) with p = scale*poly"""
        fz = sorted(p.items(), key=lambda t: repr(t[0]))
        s = fz[0][1]
        t = tuple((k, _short(c / s)) for k, c in fz)
        shape = tuple(k for k, _ in t)
        lst = self.poly_ix.setdefault(shape, [])
        cs = [c for _, c in t]
        for i, old in lst:
            if all(a == b or abs(a - b) <= REL * max(abs(a), abs(b)) for a, b in zip(cs, old)):
                return i, s
        i = len(self.polys)
        self.polys.append(dict(t))
        lst.append((i, cs))
        return i, s

    # ---------------- rational functions
    def radd(self, a, b, k=F1):
        (na, da), (nb, db) = a, b
        if not nb:
            return a
        if not na:
            return ({m: c * k for m, c in nb.items()}, db)
        if da == db:
            return (self.padd(na, nb, k), da)
        den = dict(da)
        for i, p in db.items():
            if den.get(i, 0) < p:
                den[i] = p
        for i, p in den.items():
            for _ in range(p - da.get(i, 0)):
                na = self.pmul(na, self.polys[i])
            for _ in range(p - db.get(i, 0)):
                nb = self.pmul(nb, self.polys[i])
        return (self.padd(na, nb, k), den)

    def rmul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, {})
        na, nb = a[0], b[0]
        da, db = dict(a[1]), dict(b[1])
        # cheap cancellation: numerator equal to a denominator factor
        na, db = self._cancel(na, db)
        nb, da = self._cancel(nb, da)
        n = self.pmul(na, nb)
        d = da
        for i, p in db.items():
            d[i] = d.get(i, 0) + p
        return (n, d)

    def _cancel(self, n, d):
        if d and n and len(n) > 1:
            i, s = self.polyid(n)
            if d.get(i, 0) > 0:
                d = dict(d)
                d[i] -= 1
                if not d[i]:
                    del d[i]
                return {((), 0): s}, d
        return n, d

    def rinv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError("nf inverse of zero")
        if len(n) == 1:
            ((m, e), c), = n.items()
            num = {((), 0): F1 / c}
            den = {}
            for i, k in m:
                pid, s = self.polyid({(((i, 1),), 0): F1})
                den[pid] = k
            if e:
                inv = {}
                for kk, cc in self.es[e]:
                    if kk[0] == 'L':
                        # 1/P^f = P^(1-f)/P
                        inv[kk] = 1 - cc
                        den[kk[1]] = den.get(kk[1], 0) + 1
                    else:
                        inv[kk] = -cc
                num = self.pmul(num, {((), self.eid(inv)): F1})
        else:
            i, s = self.polyid(n)
            num, den = {((), 0): F1 / s}, {i: 1}
        for i, p in d.items():
            for _ in range(p):
                num = self.pmul(num, self.polys[i])
        num, den = self._cancel(num, den)
        return (num, den)

    def const(self, c):
        return ({((), 0): c} if c else {}, {})

    def rpow(self, a, k):
        if k < 0:
            a, k = self.rinv(a), -k
        r = self.const(F1)
        while k:
            if k & 1:
                r = self.rmul(r, a)
            k >>= 1
            if k:
                a = self.rmul(a, a)
        return r

    def aspoly(self, a):
        """rational function -> polynomial using inverse atoms for the denominator"""
        n, d = a
        for i, p in d.items():
            P = self.polys[i]
            if len(P) == 1 and next(iter(P))[1] == 0 and len(next(iter(P))[0]) == 1:
                (m, _), = P
                n = self.pmul(n, {((((m[0][0], -p * m[0][1])),), 0): F1})
            else:
                n = self.pmul(n, {(((self.atom('inv', i), p),), 0): F1})
        return n

    def root(self, a, f):
        """a ** f for 0 < f < 1"""
        n, d = a
        if not n:
            return a
        r = self.const(F1)
        # numerator
        sign = 1
        lo, hi = self.piv(n)
        single = len(n) == 1 and all(k % 2 or self.aiv(i)[0] >= 0 for i, k in next(iter(n))[0])
        if single:
            ((m, e), c), = n.items()
            parts = [({((), 0): c}, 1)]
            for i, k in m:
                parts.append(({(((i, 1),), 0): F1}, k))
            if e:
                it = dict(self.es[e])
                it2 = {}
                for kk, cc in it.items():
                    it2[kk] = cc * f
                r = self.rmul(r, ({((), self.eid(it2)): F1}, {}))
        else:
            parts = [(n, 1)]
        for P, k in parts:
            r = self.rmul(r, self.proot(P, f * k))
        for i, k in d.items():
            r = self.rmul(r, self.rinv(self.proot(self.polys[i], f * k)))
        return r

    def proot(self, P, f):
        if len(P) == 1:
            ((m, e), c), = P.items()
            if m == () and e == 0:
                if c < 0:
                    raise Unsupported("root of a negative constant")
                x = c
                if f == Fraction(1, 2):
                    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
                    if a * a == x.numerator and b * b == x.denominator:
                        return self.const(Fraction(a, b))
                return self.const(Fraction(float(x) ** float(f)))
        pid, s = self.polyid(P)
        if s < 0 and self._negative(self.polys[pid]):
            # P = (-s) * (-poly)
            neg = {k: -c for k, c in self.polys[pid].items()}
            # intern the negated polynomial under its own id
            pid2 = len(self.polys)
            key = ('neg', pid)
            if key in self.poly_ix:
                pid2 = self.poly_ix[key]
            else:
                self.polys.append(neg)
                self.poly_ix[key] = pid2
            pid, s = pid2, -s
        elif s < 0:
            raise Unsupported("root of a polynomial of unknown sign")
        w = math.floor(f)
        fr = f - w
        r = self.const(Fraction(float(s) ** float(f)) if not _sq(s, f) else _sq(s, f))
        for _ in range(w):
            r = self.rmul(r, (self.polys[pid], {}))
        if fr:
            r = self.rmul(r, ({((), self.eid({('L', pid): fr})): F1}, {}))
        return r

    def _negative(self, P):
        lo, hi = self.piv(P)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo >= 0:
            return False
        return True   # radicands are non-negative by definition, so s*poly >= 0 with s<0 means poly <= 0

    # ---------------- conversion
    def rf(self, root):
        root = lift(root)
        memo = self.memo
        cur = (self.bounds, self._iv, self._eiv)
        self.bounds, self._iv, self._eiv = self.base       # the normal form never depends on the path
        try:
            for n in _post(root, memo):
                memo[n.id] = self._conv(n)
        finally:
            self.bounds, self._iv, self._eiv = cur
        return memo[root.id]

    def set_path(self, conds):
        """tighten the variable intervals with the single-variable linear branch conditions of the path"""
        self.bounds, self._iv, self._eiv = self.base
        new = {}
        for c, val in conds:
            self._tighten(c, val, new)
        if new:
            b = dict(self.base[0])
            for v, (lo, hi) in new.items():
                l0, h0 = b.get(v, (None, None))
                lo = lo if l0 is None else (float(l0) if lo is None else max(lo, float(l0)))
                hi = hi if h0 is None else (float(h0) if hi is None else min(hi, float(h0)))
                b[v] = (lo, hi)
            self.bounds, self._iv, self._eiv = b, {}, {}

    def _tighten(self, c, val, new):
        while c.op == 'not':
            c, val = c.args[0], not val
        if c.op == 'and' and val or c.op == 'or' and not val:
            for a in c.args:
                if isinstance(a, Sym):
                    self._tighten(a, val, new)
            return
        if c.op not in ('lt', 'le') and not (c.op == 'eq' and val):
            return
        try:
            n, d = self.rf(_s.arith('sub', c.args[0], c.args[1]))
        except (TooBig, Unsupported, ZeroDivisionError):
            return
        if d or any(e for _, e in n):
            return
        a, b, v = 0.0, 0.0, None
        for (m, _), k in n.items():
            if m == ():
                b = float(k)
            elif len(m) == 1 and m[0][1] == 1 and v is None and self.atoms[m[0][0]][0] == 'v':
                v, a = self.atoms[m[0][0]][1], float(k)
            else:
                return
        if v is None or not a:
            return
        t = -b / a
        up = (a > 0) == bool(val)
        lo, hi = new.get(v, (None, None))
        e = 1e-9 * (1 + abs(t))
        if up or c.op == 'eq':
            hi = t + e if hi is None else min(hi, t + e)
        if not up or c.op == 'eq':
            lo = t - e if lo is None else max(lo, t - e)
        new[v] = (lo, hi)

    def _conv(self, n):
        op, A = n.op, n.args
        R = [self.memo[a.id] if isinstance(a, Sym) else a for a in A]
        if op == 'c':
            return self.const(A[0])
        if op == 'v':
            return ({(((self.atom('v', A[0]), 1),), 0): F1}, {})
        if op == 'add':
            return self.radd(R[0], R[1])
        if op == 'sub':
            return self.radd(R[0], R[1], -F1)
        if op == 'mul':
            return self.rmul(R[0], R[1])
        if op == 'div':
            return self.rmul(R[0], self.rinv(R[1]))
        if op == 'ipow':
            return self.rpow(R[0], R[1])
        if op == 'exp':
            p = self.aspoly(R[0])
            c = F1
            items = {}
            for (m, e), cf in p.items():
                if m == () and e == 0:
                    c = rat(math.exp(float(cf)))
                elif e:
                    # exponent that itself contains an exponential: treat that as an atom
                    a = self.fatom('epart', {((), e): F1})
                    items[('m', self.mmul(m, ((a, 1),)))] = items.get(('m', self.mmul(m, ((a, 1),))), F0) + cf
                else:
                    # log atoms with rational coefficient: exp(c*log u) = u^c
                    items[('m', m)] = items.get(('m', m), F0) + cf
            extra = self.const(c)
            for kk in list(items):
                m = kk[1]
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'log':
                    u = dict(self.atoms[m[0][0]][1])
                    f = items.pop(kk).limit_denominator(1000)
                    w = math.floor(f)
                    extra = self.rmul(extra, self.rpow((u, {}), w))
                    if f - w:
                        extra = self.rmul(extra, self.root((u, {}), f - w))
            return self.rmul(extra, ({((), self.eid(items)): F1}, {}))
        if op == 'sqrt':
            return self.root(R[0], Fraction(1, 2))
        if op == 'rpow':
            c = A[1]
            w = math.floor(c)
            r = self.rpow(R[0], w)
            return self.rmul(r, self.root(R[0], c - w)) if c != w else r
        if op == 'log':
            nn, d = R[0]
            r = self._plog(nn)
            for i, k in d.items():
                r = self.radd(r, self._plog(self.polys[i]), Fraction(-k))
            return r
        if op in ('sin', 'cos', 'phi'):
            p = self.aspoly(R[0])
            sgn = F1
            if op != 'phi':
                fz = sorted(p.items(), key=lambda t: repr(t[0]))
                if fz and fz[0][1] < 0:
                    p = {k: -c for k, c in p.items()}
                    sgn = -F1 if op == 'sin' else F1
            key = 'sincos'
            a0 = self.fatom('arg' + ('phi' if op == 'phi' else key), p)
            a = self.atom(op, self.atoms[a0][1])
            return ({(((a, 1),), 0): sgn}, {})
        if op == 'tanh':
            p = self.aspoly(R[0])
            e = self._expid(p)
            if e is None:
                raise Unsupported("tanh argument")
            nume = self.padd(e, self.const(F1)[0], -F1)
            dene = self.padd(e, self.const(F1)[0])
            return self.rmul((nume, {}), self.rinv((dene, {})))
        if op in ('uf', 'ite', 'floor', 'rint', 'mod', 'idiv', 'b2i', 'r2i'):
            return ({(((self.atom('node', n.id), 1),), 0): F1}, {})
        raise Unsupported("normal form of " + op)

    def _expid(self, p):
        c = F1
        items = {}
        for (m, e), cf in p.items():
            if m == () and e == 0:
                c = rat(math.exp(2 * float(cf)))
                continue
            if e:
                a = self.fatom('epart', {((), e): F1})
                m = self.mmul(m, ((a, 1),))
            items[('m', m)] = items.get(('m', m), F0) + 2 * cf
        return {((), self.eid(items)): c}

    def _plog(self, p):
        if len(p) == 1:
            ((m, e), c), = p.items()
            r = self.const(rat(math.log(float(c)))) if c > 0 else self.const(F0)
            for i, k in m:
                a = self.fatom('log', {(((i, 1),), 0): F1})
                r = self.radd(r, ({(((a, 1),), 0): Fraction(k)}, {}))
            for kk, cc in self.es[e]:
                if kk[0] == 'm':
                    r = self.radd(r, ({(kk[1], 0): cc}, {}))
                else:
                    r = self.radd(r, self._plog(self.polys[kk[1]]), cc)
            if c < 0:
                raise Unsupported("log of negative monomial")
            return r
        pid, s = self.polyid(p)
        P = self.polys[pid]
        if s < 0:
            P, s = {k: -c for k, c in P.items()}, -s
        a = self.fatom('log', P)
        return self.radd(self.const(rat(math.log(float(s)))), ({(((a, 1),), 0): F1}, {}))

    # ---------------- intervals (floats, outward slack)
    def aiv(self, i):
        r = self._iv.get(i)
        if r is not None:
            return r
        kind, pl = self.atoms[i]
        if kind == 'v':
            lo, hi = self.bounds.get(pl, (None, None))
            r = (-math.inf if lo is None else float(lo), math.inf if hi is None else float(hi))
        elif kind in ('sin', 'cos'):
            r = (-1.0, 1.0)
        elif kind == 'phi':
            r = (0.0, 1.0)
        elif kind == 'epart':
            (k, _), = pl
            r = self.eiv(k[1])
        elif kind == 'inv':
            lo, hi = self.piv(self.polys[pl])
            if lo > 0 or hi < 0:
                r = (1 / hi, 1 / lo)
            else:
                r = (-math.inf, math.inf)
        elif kind == 'log':
            lo, hi = self.piv(dict(pl))
            r = (math.log(lo) if lo > 0 else -math.inf, math.log(hi) if 0 < hi < math.inf else math.inf)
        else:
            r = (-math.inf, math.inf)
        self._iv[i] = r
        return r

    def eiv(self, e):
        if e == 0:
            return (1.0, 1.0)
        r = self._eiv.get(e)
        if r is not None:
            return r
        L, H = 0.0, 0.0
        for (kind, key), c in self.es[e]:
            if kind == 'm':
                lo, hi = self.miv(key)
            else:
                lo, hi = self.piv(self.polys[key])
                lo = math.log(lo) if lo > 0 else -math.inf
                hi = math.log(hi) if 0 < hi < math.inf else (math.inf if hi > 0 else -math.inf)
            a, b = _imul((lo, hi), (float(c), float(c)))
            L += a
            H += b
        if H > 0 or H != H:
            b = self._quadmax(e)
            if b is not None and not (H <= b):
                H = b
        r = self._eiv[e] = (math.exp(L) if L < 700 else math.inf, math.exp(H) if H < 700 else math.inf)
        return r

    def _quadmax(self, e):
        """upper bound of an exponent that is a concave quadratic in its atoms (vertex value plus a rounding margin)"""
        import numpy as np
        ix, lin, quad, c0, tot = {}, {}, {}, 0.0, 0.0
        for (kind, key), c in self.es[e]:
            if kind != 'm' or sum(k for _, k in key) > 2:
                return None
            c = float(c)
            for i, _ in key:
                ix.setdefault(i, len(ix))
            if not key:
                c0 += c
            elif len(key) == 1 and key[0][1] == 1:
                lin[ix[key[0][0]]] = lin.get(ix[key[0][0]], 0.0) + c
            elif len(key) == 1:
                quad[(ix[key[0][0]],) * 2] = c
            else:
                quad[(ix[key[0][0]], ix[key[1][0]])] = c
        n = len(ix)
        if not n or not quad:
            return None
        H, g = np.zeros((n, n)), np.zeros(n)
        for (i, j), c in quad.items():
            H[i, j] += c
            H[j, i] += c
        for i, c in lin.items():
            g[i] = c
        w = np.linalg.eigvalsh(H)
        if not np.all(w < -1e-9 * max(1.0, abs(w).max())):
            return None
        x = -np.linalg.solve(H, g)
        v = c0 + 0.5 * float(g @ x)
        return v + 1e-6 * (1.0 + abs(c0) + abs(float(g @ x)))

    def miv(self, m):
        r = (1.0, 1.0)
        for i, k in m:
            r = _imul(r, _ipow(self.aiv(i), k))
        return r

    def piv(self, p):
        L = H = 0.0
        for (m, e), c in p.items():
            a, b = _imul(_imul(self.miv(m), self.eiv(e)), (float(c), float(c)))
            L += a
            H += b
        if math.isnan(L):
            L = -math.inf
        if math.isnan(H):
            H = math.inf
        return L, H

    # ---------------- z3
    def zatom(self, i, done, cons):
        kind, pl = self.atoms[i]
        if i in done:
            return done[i]
        if kind == 'v':
            t = z3.Real(pl)
            v = _s.CTX.vars.get(pl) if _s.CTX else None
            if v is not None and v.sort == 'I':
                t = z3.ToReal(z3.Int(pl))
        else:
            t = z3.Real("nf_%s_%d" % (kind, i))
            lo, hi = self.aiv(i)
            if lo > -math.inf:
                cons.append(t >= _q(lo, -1))
            if hi < math.inf:
                cons.append(t <= _q(hi, 1))
            if kind == 'inv':
                cons.append(t * self.zpoly(self.polys[pl], done, cons) == 1)
            if kind == 'sin':
                j = self.atom('cos', pl)
                done[i] = t
                cj = self.zatom(j, done, cons)
                cons.append(t * t + cj * cj == 1)
        done[i] = t
        return t

    def ze(self, e, done, cons):
        k = ('e', e)
        if k in done:
            return done[k]
        t = z3.Real("nf_e_%d" % e)
        done[k] = t
        lo, hi = self.eiv(e)
        cons.append(t > 0 if all(kk[0] == 'm' for kk, _ in self.es[e]) else t >= 0)
        if lo > 0:
            cons.append(t >= _q(lo, -1))
        if hi < math.inf:
            cons.append(t <= _q(hi, 1))
        it = self.es[e]
        if len(it) == 1 and it[0][0][0] == 'L' and it[0][1] == Fraction(1, 2):
            cons.append(t * t == self.zpoly(self.polys[it[0][0][1]], done, cons))
        return t

    def zpoly(self, p, done, cons):
        ts = []
        for (m, e), c in p.items():
            t = z3.RealVal(str(c))
            for i, k in m:
                a = self.zatom(i, done, cons)
                for _ in range(abs(k)):
                    t = t * a if k > 0 else t / a
            if e:
                t = t * self.ze(e, done, cons)
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]


def _sq(s, f):
    if f == Fraction(1, 2) and s > 0:
        a, b = math.isqrt(s.numerator), math.isqrt(s.denominator)
        if a * a == s.numerator and b * b == s.denominator:
            return Fraction(a, b)
    if f.denominator == 1:
        return s ** int(f)
    if s == 1:
        return F1
    return None


def _q(x, d):
    """rational slightly outside x"""
    return z3.RealVal(str(Fraction(x + d * (1e-9 * abs(x) + 1e-300))))


def _m1(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def _imul(a, b):
    c = [_m1(a[0], b[0]), _m1(a[0], b[1]), _m1(a[1], b[0]), _m1(a[1], b[1])]
    return (min(c), max(c))


def _ipow(a, k):
    if k == 1:
        return a
    lo, hi = a
    if k < 0:
        b = _ipow(a, -k)
        if b[0] > 0 or b[1] < 0:
            return (1 / b[1] if b[1] not in (math.inf,) else 0.0, 1 / b[0])
        return (-math.inf, math.inf)
    if k % 2 == 0:
        x, y = abs(lo), abs(hi)
        m = 0.0 if lo <= 0 <= hi else min(x, y)
        return (m ** k, max(x, y) ** k if max(x, y) < 1e100 else math.inf)
    return (lo ** k if lo > -1e100 else -math.inf, hi ** k if hi < 1e100 else math.inf)


def _mdiv(m, q):
    """monomial division of dict forms; None if not divisible"""
    r = dict(m)
    for a, k in q:
        v = r.get(a, 0) - k
        if v < 0:
            return None
        if v:
            r[a] = v
        else:
            r.pop(a, None)
    return r


def exact_div(n, P):
    """n / P as a polynomial, or None when P does not divide n (P without exponential factors)"""
    if any(e for (_, e) in P) or len(P) < 1:
        return None
    atoms = sorted({a for (m, _) in P for a, _ in m} | {a for (m, _) in n for a, _ in m}, key=str)
    ix = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, k in m:
            v[ix[a]] = k
        return (sum(v),) + tuple(v)
    Pv = {vec(m): c for (m, _), c in P.items()}
    lead = max(Pv)
    lc = Pv[lead]
    groups = {}
    for (m, e), c in n.items():
        groups.setdefault(e, {})[vec(m)] = c
    out = {}
    import heapq
    for e, g in groups.items():
        heap = [tuple(-x for x in k) for k in g]
        heapq.heapify(heap)
        seen = set(heap)
        while heap:
            k = tuple(-x for x in heapq.heappop(heap))
            seen.discard(tuple(-x for x in k))
            c = g.pop(k, 0)
            if not c:
                continue
            q = tuple(a - b for a, b in zip(k, lead))
            if min(q) < 0:
                return None
            f = c / lc
            out[(tuple((atoms[i], v) for i, v in enumerate(q[1:]) if v), e)] = f
            for p, pc in Pv.items():
                if p == lead:
                    continue
                t = tuple(a + b for a, b in zip(p, q))
                v = g.get(t, 0) - f * pc
                g[t] = v
                h = tuple(-x for x in t)
                if h not in seen:
                    seen.add(h)
                    heapq.heappush(heap, h)
    r = {}
    for (m, e), c in out.items():
        r[(tuple(sorted(m)), e)] = c
    return r


def simplify(nf, n, d):
    d = dict(d)
    for i in list(d):
        while d.get(i, 0) > 0:
            try:
                q = exact_div(n, nf.polys[i])
            except TypeError:
                q = None
            if q is None:
                break
            n = q
            d[i] -= 1
            if not d[i]:
                del d[i]
    return n, d


def zero_query(nf, expr, tol, ctx, timeout_ms=20000, extra=(), stats=None, numerator=False):
    """Is |expr| <= tol for all values on the current path?  -> ('unsat'|'sat'|'unknown', model or None, stage)"""
    import time
    n, d = nf.rf(expr)
    t0 = time.time()
    if n and d and not numerator:
        n, d = simplify(nf, n, d)
    if numerator:
        d = {}                    # |difference| times its (normalised) denominators <= tol

    def done(r, m, st):
        if stats is not None:
            stats['solver_time'] += time.time() - t0
            stats['queries'] += 1
        return r, m, st

    def lower(d):
        low = 1.0
        for i, k in d.items():
            lo, hi = nf.piv(nf.polys[i])
            a = lo if lo > 0 else (-hi if hi < 0 else 0.0)
            low *= a ** k
        return low

    tolq = Fraction(tol).limit_denominator(10 ** 15)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    # stage A: monomials as independent bounded reals
    low = lower(d)
    if not n:
        s.add(z3.RealVal(0) > z3.RealVal(str(tolq)))
        return done(str(s.check()), None, 'identity')
    ok = low > 0
    if ok:
        ts = []
        for j, ((m, e), c) in enumerate(n.items()):
            lo, hi = _imul(nf.miv(m), nf.eiv(e))
            v = z3.Real("m%d" % j)
            if lo > -math.inf and lo == lo:
                s.add(v >= _q(lo, -1))
            if hi < math.inf and hi == hi:
                s.add(v <= _q(hi, 1))
            ts.append(z3.RealVal(str(c)) * v)
        tot = z3.Sum(ts)
        lim = z3.RealVal(str(tolq * Fraction(low)))
        s.add(z3.Or(tot > lim, tot < -lim))
        r = s.check()
        if r == z3.unsat:
            return done('unsat', None, 'linear')
    # stage B: polynomial arithmetic with the path condition
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for c in ctx.pc:
        s.add(c)
    for c in extra:
        s.add(c)
    dn, cons = {}, []
    N = nf.zpoly(n, dn, cons)
    Dp = z3.RealVal(1)
    for i, k in d.items():
        P = nf.zpoly(nf.polys[i], dn, cons)
        for _ in range(k):
            Dp = Dp * P
        s.add(P != 0)
    for c in cons:
        s.add(c)
    lim = z3.RealVal(str(tolq))
    if d:
        y = z3.Real("nf_quot")
        s.add(y * Dp == N)
        s.add(z3.Or(y > lim, y < -lim))
    else:
        s.add(z3.Or(N > lim, N < -lim))
    r = s.check()
    return done(str(r), s.model() if r == z3.sat else None, 'poly')
