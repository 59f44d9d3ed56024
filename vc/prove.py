"""Equality of floating-point terms under a path condition.

uf mode  : both terms are the same sequence of machine operations (bit-exact).
real mode: the terms are equal as real-valued expressions: normal form = quotient of
           polynomials over generators (symbols, array cells, function values, square roots of
           irreducible factors with g^2 = factor, sin^2+cos^2 = 1), compared by cross
           multiplication.  Signs of integer factors under square roots are proved by z3."""
import math, random, time
from fractions import Fraction
from . import terms as T
from .terms import *


class TooBig(Exception):
    pass


# polynomial over generators: dict {((gid,exp),...): Fraction}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for g, e in m2:
        d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))


ONE = {(): Fraction(1)}


class Real:
    def __init__(self, smt, pc, limit=60000):
        self.smt = smt
        self.pc = tuple(pc)
        self.gens = {}
        self.ginfo = []
        self.sqrule = {}      # gid -> poly equal to g^2
        self.memo = {}
        self.limit = limit
        self.deadline = None
        self.norms = getattr(smt, "norms", False)
        self.normgens = set()
        self.near = Fraction(smt.near) if getattr(smt, "near", 0) else 0
        self.nearkeys = {}
        self.trig = getattr(smt, "trig", None)   # angle addition and polar pairs (opts trig: list of (d, e) symbol terms)
        self.units = {}       # monomial -> unit of angle
        self.halfgens = {}    # gid of sin(unit) -> gid of cos(unit)
        self.polar = []
        if self.trig is not None:
            for d, e in self.trig:
                (md,), (me,) = self.rat(d)[0], self.rat(e)[0]
                for m in (md, me):
                    self.units[m] = Fraction(1, 2)
                sd, cd = self.angle(md, 1)
                self.polar.append((md, me, next(iter(sd))[0][0]))

    def gen(self, key, info=None):
        g = self.gens.get(key)
        if g is None:
            g = self.gens[key] = len(self.ginfo)
            self.ginfo.append((key, info))
        return g

    def pmul(self, a, b):
        if len(a) * len(b) > self.limit:
            raise TooBig()
        if self.deadline and time.time() > self.deadline:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return self.reduce(r)

    def reduce(self, p):
        """apply g^2 rules"""
        if not self.sqrule:
            return p
        todo = None
        for m in p:
            for g, e in m:
                if e >= 2 and g in self.sqrule:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        out = {}
        for m, c in p.items():
            hit = None
            for g, e in m:
                if e >= 2 and g in self.sqrule:
                    hit = (g, e)
                    break
            if hit is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            g, e = hit
            rest = tuple((x, y) if x != g else (x, e % 2) for x, y in m)
            rest = tuple((x, y) for x, y in rest if y)
            q = {rest: c}
            for _ in range(e // 2):
                q = self.pmul(q, self.sqrule[g])
            out = padd(out, q)
        return self.reduce(out)

    def ipoly(self, p):
        """int Poly -> generator polynomial"""
        if not isinstance(p, Poly):
            return {(): Fraction(p)} if p else {}
        r = {}
        for m, c in p.t.items():
            d = {}
            for i in m:
                g = self.gen(("int", i))
                d[g] = d.get(g, 0) + 1
            r[tuple(sorted(d.items()))] = Fraction(c)
        return r

    # ---- rational functions: (num, den)
    def rat(self, f):
        r = self.memo.get(f)
        if r is None:
            r = self.memo[f] = self._rat(f)
        return r

    def radd(self, x, y, s=1):
        (a, b), (c, d) = x, y
        if b == d:
            return (padd(a, c, s), b)
        if b == ONE:
            return (padd(self.pmul(a, d), c, s), d)
        if d == ONE:
            return (padd(a, self.pmul(c, b), s), b)
        if self.norms and len(b) == 1 and len(d) == 1:
            (mb, cb), = b.items()
            (md, cd), = d.items()
            x, y = dict(mb), dict(md)
            l = {g: max(x.get(g, 0), y.get(g, 0)) for g in set(x) | set(y)}
            fb = {tuple(sorted((g, k - x.get(g, 0)) for g, k in l.items() if k > x.get(g, 0))): 1 / cb}
            fd = {tuple(sorted((g, k - y.get(g, 0)) for g, k in l.items() if k > y.get(g, 0))): 1 / cd}
            return (padd(self.pmul(a, fb), self.pmul(c, fd), s), {tuple(sorted(l.items())): Fraction(1)})
        return (padd(self.pmul(a, d), self.pmul(c, b), s), self.pmul(b, d))

    def rmul(self, x, y):
        (a, b), (c, d) = x, y
        if b == c and b != ONE:
            return (a, d)
        if a == d and a != ONE:
            return (c, b)
        if self.norms:
            a, d = self.mono_frac(a, d)
            c, b = self.mono_frac(c, b)
        return (self.pmul(a, c), ONE if b == ONE and d == ONE else self.pmul(b, d))

    def _rat(self, f):
        o, a = f.op, f.args
        if o == "c":
            v = T.cval(f)
            if v != v or abs(v) == math.inf:
                return ({((self.gen(("f", f.id)), 1),): Fraction(1)}, ONE)
            v = Fraction(v)
            return ({(): v} if v else {}, ONE)
        if o == "i2f":
            return (self.ipoly(a[0]), ONE)
        if o == "add":
            return self.radd(self.rat(a[0]), self.rat(a[1]))
        if o == "sub":
            return self.radd(self.rat(a[0]), self.rat(a[1]), -1)
        if o == "neg":
            n, d = self.rat(a[0])
            return ({m: -c for m, c in n.items()}, d)
        if o == "mul":
            return self.rmul(self.rat(a[0]), self.rat(a[1]))
        if o == "div":
            n, d = self.rat(a[1])
            if not n:
                raise TooBig()
            # den monomial with constant only
            x = self.rat(a[0])
            if len(n) == 1 and () in n and d == ONE:
                c = n[()]
                return ({m: v / c for m, v in x[0].items()}, x[1])
            return self.rmul(x, (d, n))
        if o == "fn":
            if a[0] == "sqrt":
                return self.sqrt(f)
            if a[0] in ("sin", "cos"):
                n, d = self.rat(a[1])
                if self.trig is not None and d == ONE:
                    r = self.expand_trig(n)
                    if r is not None:
                        return (r[0] if a[0] == "sin" else r[1], ONE)
                # canonical sign of the argument
                k = self.rkey(n, d)
                nk = self.rkey({m: -c for m, c in n.items()}, d)
                sgn = 1
                if nk < k:
                    k = nk
                    if a[0] == "sin":
                        sgn = -1
                if not n:
                    return ({}, ONE) if a[0] == "sin" else (ONE, ONE)
                k = self.nearkey(("trig", k))[1]
                gs, gc = self.gen(("sin", k)), self.gen(("cos", k))
                if gc not in self.sqrule:
                    self.sqrule[gc] = {(): Fraction(1), ((gs, 2),): Fraction(-1)}
                g = gs if a[0] == "sin" else gc
                return ({((g, 1),): Fraction(sgn)}, ONE)
            if self.trig is not None and a[0] in ("atan", "atan2"):
                r = self.inverse_trig(a)
                if r is not None:
                    return r
            ks = []
            for x in a[1:]:
                if isinstance(x, F):
                    n, d = self.rat(x)
                    ks.append(self.rkey(n, d))
                else:
                    ks.append(x)
            return ({((self.gen(self.nearkey(("fn", a[0]) + tuple(ks))), 1),): Fraction(1)}, ONE)
        # opaque: symbol, array cell, spec value, ite
        if o in ("rd", "hv", "spec"):
            key = (o,) + a
            return ({((self.gen(key, f), 1),): Fraction(1)}, ONE)
        return ({((self.gen(("f", f.id), f), 1),): Fraction(1)}, ONE)

    # ---- trigonometric normal form: angles are sums of whole multiples of units; C(unit)^2 = 1 - S(unit)^2
    def angle(self, m, k):
        """(sin, cos) of k units of monomial m"""
        gs, gc = self.gen(("sinu", m)), self.gen(("cosu", m))
        if gc not in self.sqrule:
            self.sqrule[gc] = {(): Fraction(1), ((gs, 2),): Fraction(-1)}
            self.halfgens[gs] = gc
        s, c = {}, ONE
        s1, c1 = {((gs, 1),): Fraction(1)}, {((gc, 1),): Fraction(1)}
        for _ in range(abs(k)):
            s, c = padd(self.pmul(s, c1), self.pmul(c, s1)), padd(self.pmul(c, c1), self.pmul(s, s1), -1)
        if k < 0:
            s = {x: -v for x, v in s.items()}
        return s, c

    def expand_trig(self, n):
        s, c = {}, ONE
        for m, v in sorted(n.items()):
            u = self.units.get(m)
            if u is None:
                u = self.units[m] = abs(v) / 2
            k = v / u
            kr = round(k)
            if abs(kr) > 8 or abs(k - kr) > self.near:
                return None
            s1, c1 = self.angle(m, kr)
            s, c = padd(self.pmul(s, c1), self.pmul(c, s1)), padd(self.pmul(c, c1), self.pmul(s, s1), -1)
        return s, c

    def inverse_trig(self, a):
        """atan(sin d / cos d) = d, atan2(r sin e, r cos e) = e for the declared polar pairs: 0 < d < pi/2, -pi < e <= pi, r > 0"""
        n1, d1 = self.rat(a[1])
        if a[0] == "atan":
            if not n1:
                return ({}, ONE)
            for md, me, gs in self.polar:
                s, c = self.angle(md, 2)
                if not padd(self.pmul(n1, c), self.pmul(d1, s), -1):
                    return ({md: Fraction(1)}, ONE)
            return None
        n2, d2 = self.rat(a[2])
        y, x = self.pmul(n1, d2), self.pmul(n2, d1)
        for md, me, gs in self.polar:
            s, c = self.angle(me, 2)
            if padd(self.pmul(y, c), self.pmul(x, s), -1):
                continue
            r = padd(self.pmul(x, c), self.pmul(y, s))
            if self.strict(self.pmul(r, self.pmul(d1, d2))) > 0:
                return ({me: Fraction(1)}, ONE)
        return None

    def strict(self, p):
        """1/-1 when the polynomial in sin(d/2), cos(d/2) is > 0 / < 0 for 0 < d < pi/2, else 0"""
        import sympy
        for md, me, gs in self.polar:
            gc = self.halfgens[gs]
            if any(g not in (gs, gc) for m in p for g, _ in m):
                continue
            odd = [dict(m).get(gc, 0) % 2 for m in p]
            if not p or any(o != odd[0] for o in odd):
                return 0
            x = sympy.Symbol("x")
            e = sum(sympy.Rational(c.numerator, c.denominator) * x ** dict(m).get(gs, 0) for m, c in p.items())
            if e.is_number:
                return 1 if e > 0 else -1
            if any(0 < t < sympy.sqrt(2) / 2 for t in sympy.Poly(e, x).real_roots()):
                return 0
            return 1 if e.subs(x, sympy.Rational(1, 2)) > 0 else -1
        return 0

    def dead(self):
        """a comparison of the path condition contradicts the ranges of the polar pairs"""
        for b in self.pc:
            neg = b.op == "not"
            c = b.args[0] if neg else b
            if c.op != "fcmp" or c.args[0] not in ("olt", "oeq"):
                continue
            (n1, d1), (n2, d2) = self.rat(c.args[1]), self.rat(c.args[2])
            p = self.pmul(padd(self.pmul(n2, d1), self.pmul(n1, d2), -1), self.pmul(d1, d2))
            if not p or all(not m for m in p):
                continue
            s = self.strict(p)
            if s and (c.args[0] == "oeq" and not neg or c.args[0] == "olt" and (s > 0) == neg):
                return True
        return False

    def pythagoras(self, fs):
        """odd powers of (1 - S)(1 + S) under a square root -> C^2 (returned as even factor)"""
        out = list(fs)
        flip = 1
        for md, me, gs in self.polar:
            gc = self.halfgens[gs]
            one = ((), Fraction(1))
            idx = {}
            for i, (p, e) in enumerate(out):
                if e % 2 and len(p) == 2 and () in p and ((gs, 1),) in p:
                    r = p[((gs, 1),)] / p[()]
                    if r in (1, -1):
                        idx[r] = i
            if len(idx) == 2:
                for r, i in idx.items():
                    p, e = out[i]
                    if p[()] < 0:
                        flip = -flip
                    if abs(p[()]) != 1:
                        return fs, 1
                    out[i] = (p, e - 1)
                out.append(({((gc, 1),): Fraction(1)}, 2))
                out = [(p, e) for p, e in out if e]
        return out, flip

    def rkey(self, n, d):
        if d == ONE:
            return ("P", tuple(sorted(n.items())))
        # normalise via sympy
        n2, d2 = self.cancel(n, d)
        return ("R", tuple(sorted(n2.items())), tuple(sorted(d2.items())))

    # ---- sympy bridge
    def tosym(self, p):
        import sympy
        out = 0
        for m, c in p.items():
            t = sympy.Rational(c.numerator, c.denominator)
            for g, e in m:
                t *= sympy.Symbol(f"g{g}") ** e
            out += t
        return out

    def fromsym(self, e):
        import sympy
        if e.is_number:
            c = sympy.Rational(e)
            return {(): Fraction(int(c.p), int(c.q))} if c != 0 else {}
        syms = sorted(e.free_symbols, key=lambda s: int(s.name[1:]))
        P = sympy.Poly(e, *syms)
        ids = [int(s.name[1:]) for s in syms]
        r = {}
        for exps, c in P.terms():
            m = tuple((g, x) for g, x in zip(ids, exps) if x)
            c = sympy.Rational(c)
            r[m] = Fraction(int(c.p), int(c.q))
        return r

    def cancel(self, n, d):
        import sympy
        e = sympy.cancel(self.tosym(n) / self.tosym(d))
        a, b = sympy.fraction(sympy.together(e))
        return self.fromsym(sympy.expand(a)), self.fromsym(sympy.expand(b))

    def factors(self, p):
        """-> (constant, [(poly, exp)])"""
        import sympy
        if not p:
            return Fraction(0), []
        if len(p) == 1:
            (m, c), = p.items()
            return c, [({((g, 1),): Fraction(1)}, e) for g, e in m]
        c, fs = sympy.factor_list(sympy.expand(self.tosym(p)))
        c = sympy.Rational(c)
        return Fraction(int(c.p), int(c.q)), [(self.fromsym(sympy.expand(q)), e) for q, e in fs]

    def back_int(self, p):
        """generator poly -> int Poly when it only has integer atoms (scaled), else None"""
        l = 1
        for c in p.values():
            l = l * c.denominator // math.gcd(l, c.denominator)
        r = 0
        for m, c in p.items():
            t = int(c * l)
            for g, e in m:
                k = self.ginfo[g][0]
                if k[0] != "int":
                    return None
                for _ in range(e):
                    t = t * Poly({(k[1],): 1})
            r = r + t
        return r

    def sign(self, p):
        """1 if p>=0 provable, -1 if p<=0 provable, else 0"""
        ip = self.back_int(p)
        if ip is not None:
            if self.smt.entails(self.pc, ble(0, ip)):
                return 1
            if self.smt.entails(self.pc, ble(ip, 0)):
                return -1
            return 0
        if self.polar:
            s = self.strict(p)
            if s:
                return s
        # sum of squares with positive coefficients
        if all(c > 0 and all(e % 2 == 0 or self.nonneg_gen(g) for g, e in m) for m, c in p.items()):
            return 1
        if all(c < 0 and all(e % 2 == 0 or self.nonneg_gen(g) for g, e in m) for m, c in p.items()):
            return -1
        return 0

    def nonneg_gen(self, g):
        k = self.ginfo[g][0]
        if k[0] in ("sq", "sqc"):
            return True
        if k[0] == "int":
            return self.smt.entails(self.pc, ble(0, Poly({(k[1],): 1})))
        return k in self.nn if hasattr(self, "nn") else False

    def sqrt(self, f):
        n, d = self.rat(f.args[1])
        if not n:
            return ({}, ONE)
        cn, fn = self.factors(n)
        cd, fd = self.factors(d)
        c = cn / cd
        if self.near and not fn and not fd and c > 0:
            return ({(): Fraction(math.sqrt(c))}, ONE)
        if self.polar:
            fn, s1 = self.pythagoras(fn)
            fd, s2 = self.pythagoras(fd)
            c = c * s1 * s2
        num, den = ONE, ONE
        neg = c < 0
        c = abs(c)
        parts = [(p, e, 0) for p, e in fn] + [(p, e, 1) for p, e in fd]
        res = []
        for p, e, isden in parts:
            if e % 2 == 0:
                s = self.sign(p)
                if s == 0:
                    # |p| -> generator
                    g = self.gen(("abs", tuple(sorted(p.items()))))
                    self.sqrule.setdefault(g, self.pmul(p, p))
                    res.append(({((g, 1),): Fraction(1)}, e // 2, isden))
                else:
                    q = p if s > 0 else {m: -x for m, x in p.items()}
                    res.append((q, e // 2, isden))
            else:
                s = self.sign(p)
                if s == 0:
                    return self.sqrt_opaque(n, d)
                q = p
                if s < 0:
                    q = {m: -x for m, x in p.items()}
                    neg = not neg
                g = self.gen(("sq", tuple(sorted(q.items()))))
                if not (self.norms and self.norm_rule(g, q)):
                    self.sqrule.setdefault(g, q)
                if e // 2:
                    res.append((q, e // 2, isden))
                res.append(({((g, 1),): Fraction(1)}, 1, isden))
        if neg:
            return self.sqrt_opaque(n, d)
        # constant
        a, b = c.numerator, c.denominator
        k = a * b      # sqrt(a/b) = sqrt(ab)/b
        sq, rest = self.squarefree(k)
        coef = Fraction(sq, b)
        num = {(): coef}
        for pr in rest:
            g = self.gen(("sqc", pr))
            self.sqrule.setdefault(g, {(): Fraction(pr)})
            num = self.pmul(num, {((g, 1),): Fraction(1)})
        for p, e, isden in res:
            for _ in range(e):
                if isden:
                    den = self.pmul(den, p)
                else:
                    num = self.pmul(num, p)
        return (num, den)

    def norm_rule(self, g, q):
        """g = sqrt(x^2 + ... + z^2): rewrite z^2 to g^2 - ..., so that powers of the length stay monomials"""
        if g in self.normgens:
            return True
        if g in self.sqrule:
            return False
        for m in sorted(q, reverse=True):
            if len(m) == 1 and m[0][1] == 2 and m[0][0] not in self.sqrule and self.ginfo[m[0][0]][0][0] in ("f", "rd"):
                v = m[0][0]
                if any(x != m and any(h == v for h, _ in x) for x in q):
                    continue
                r = {x: -c / q[m] for x, c in q.items() if x != m}
                r[((g, 2),)] = 1 / q[m]
                self.sqrule[v] = r
                self.normgens.add(g)
                return True
        return False

    def mono_frac(self, n, d):
        """common powers of numerator terms and a one-term denominator cancelled"""
        if not self.norms or len(d) != 1 or d == ONE or not n:
            return n, d
        (m, c), = d.items()
        e = dict(m)
        for t in n:
            dt = dict(t)
            e = {g: min(k, dt.get(g, 0)) for g, k in e.items() if dt.get(g, 0)}
            if not e:
                return n, d
        def div(t):
            return tuple((g, k - e.get(g, 0)) for g, k in t if k > e.get(g, 0))
        return {div(t): v for t, v in n.items()}, {div(m): c}

    def squarefree(self, k):
        sq = 1
        rest = []
        p = 2
        while p * p <= k and p < 100000:
            e = 0
            while k % p == 0:
                k //= p
                e += 1
            sq *= p ** (e // 2)
            if e % 2:
                rest.append(p)
            p += 1
        if k > 1:
            r = math.isqrt(k)
            if r * r == k:
                sq *= r
            else:
                rest.append(k)
        return sq, rest

    def sqrt_opaque(self, n, d):
        if d != ONE:
            n, d = self.cancel(n, d)
        key = ("sqo", tuple(sorted(n.items())), tuple(sorted(d.items())))
        g = self.gen(key)
        if len(d) == 1 and () in d:
            self.sqrule.setdefault(g, {m: c / d[()] for m, c in n.items()})
        return ({((g, 1),): Fraction(1)}, ONE)

    def equal(self, f, g):
        a, b = self.rat(f)
        c, d = self.rat(g)
        if b == d:
            x = padd(a, c, -1)
        else:
            x = padd(self.pmul(a, d), self.pmul(c, b), -1)
        x = self.reduce(x)
        if not x:
            return True
        if self.near:
            u, v = (a, c) if b == d else (self.pmul(a, d), self.pmul(c, b))
            if self.close(u, v):
                return True
        # generators equal to integers may be related by equalities in the path condition
        y = self.subst_eq(x)
        return not y

    # ---- constants equal up to their rounding (contracts with opts near): same monomials, coefficients within a relative bound
    def close(self, a, b):
        a = dict(a)
        b = dict(b)
        return a.keys() == b.keys() and all(abs(c - b[m]) <= self.near * abs(c) for m, c in a.items())

    def nearkey(self, k):
        if not self.near:
            return k
        for o in self.nearkeys.setdefault((k[0], k[1] if k[0] == "fn" else 0, len(k)), []):
            if all(x == y or isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x[0] == y[0] and
                   all(self.close(u, v) for u, v in zip(x[1:], y[1:])) for x, y in zip(k[1:], o[1:])):
                return o
        self.nearkeys[(k[0], k[1] if k[0] == "fn" else 0, len(k))].append(k)
        return k

    def subst_eq(self, x):
        for b in self.pc:
            if b.op != "eq":
                continue
            p = b.args[0]
            # solve for an atom with unit coefficient
            for m, c in p.t.items():
                if len(m) == 1 and abs(c) == 1 and not any(m[0] in mm for mm in p.t if mm != m):
                    g = self.gens.get(("int", m[0]))
                    if g is None:
                        continue
                    if not any(g == gg for mm in x for gg, _ in mm):
                        continue
                    val = self.ipoly((p - Poly({m: c})) * (-c))
                    out = {}
                    for mm, cc in x.items():
                        e = dict(mm).get(g, 0)
                        rest = tuple((a, b2) for a, b2 in mm if a != g)
                        q = {rest: cc}
                        for _ in range(e):
                            q = self.pmul(q, val)
                        out = padd(out, q)
                    x = self.reduce(out)
                    break
            if not x:
                return x
        return x


class Prover:
    """prove t == s under pc, with case splits on integer conditions"""

    def __init__(self, smt, mode="real", hv=None, unfold=None, deadline=None, max_cases=400):
        self.smt = smt
        self.mode = mode
        self.hv = hv            # callback(pc, name, idx) -> [(cond, F)]
        self.unfold = unfold    # callback(pc, name, args) -> F or None
        self.deadline = deadline
        self.max_cases = max_cases
        self.cases = 0
        self.failed = None
        self.derived = []
        self.in_implied = False
        self.unfold_left = getattr(unfold, "depth", 1)
        self.used = set()

    def eq(self, pc, t, s):
        """True proved / False not proved (self.failed holds the case)"""
        self.cases = 0
        self.failed = None
        return self._eq(tuple(x for x in pc if x is not True), t, s, 0)

    def zero(self, pc, t):
        return self.eq(pc, t, fc(0.0))

    def _eq(self, pc, t, s, depth):
        self.cases += 1
        if self.cases > self.max_cases or (self.deadline and time.time() > self.deadline):
            self.failed = (pc, t, s, "budget")
            return False
        if t is s:
            return True
        self.derived = []
        t, c1 = self.resolve(pc, t)
        if t is s:
            return True
        if c1 is None:
            s, c1 = self.resolve(pc, s)
            if t is s:
                return True
        if self.derived and self.mode != "uf":
            pc = pc + tuple(dict.fromkeys(c for c in self.derived if c not in pc))
        if c1 is not None:
            if depth > 40:
                self.failed = (pc, t, s, "depth")
                return False
            for c in (c1, bnot(c1)):
                r = self.smt.sat(pc, (c,))
                if r is False:
                    continue
                npc = pc + ((c,) if not (isinstance(c, B) and c.op == "and") else c.args)
                if not self._eq(npc, t, s, depth + 1):
                    return False
            return True
        if self.smt.sat(pc) is False:
            return True
        if self.mode == "uf":
            # addresses may still be equal under pc
            if self.uf_equal(pc, t, s):
                return True
            self.failed = (pc, t, s, "differ")
            return False
        keep = getattr(self.smt, "factor", None)
        if keep is not None:
            from .facform import Fac
            if Fac(keep).equal(t, s):
                return True
        try:
            R = Real(self.smt, pc, getattr(self.smt, "limit", None) or 60000)
            R.deadline = self.deadline
            if R.polar and R.dead():
                return True
            if R.equal(t, s):
                return True
        except TooBig:
            self.failed = (pc, t, s, "too big")
            return False
        # retry with the integer equalities of the path condition substituted
        mp = self.eqmap(pc)
        if mp:
            t1, s1 = T.fsub(t, mp), T.fsub(s, mp)
            if (t1, s1) != (t, s):
                try:
                    R = Real(self.smt, pc)
                    R.deadline = self.deadline
                    if t1 is s1 or R.equal(t1, s1):
                        return True
                except TooBig:
                    pass
                t, s = t1, s1
        # equalities between the integers of the two terms that pc implies without stating them
        if not self.in_implied:
            eqs = self.implied(pc, t, s)
            if eqs:
                self.in_implied = True
                try:
                    return self._eq(pc + eqs, t, s, depth + 1)
                finally:
                    self.in_implied = False
        # retry with index-equality canonicalisation
        t2, s2 = self.canon(pc, t, s)
        if (t2, s2) != (t, s):
            try:
                R = Real(self.smt, pc)
                R.deadline = self.deadline
                if R.equal(t2, s2):
                    return True
            except TooBig:
                pass
        if self.unfold is not None:
            # first only the values the other side does not mention, then everything
            st, ss = self.specs(t), self.specs(s)
            t2, ch1 = self.expand(pc, t, ss)
            s2, ch2 = self.expand(pc, s, st)
            both = (t2, s2, ch1 and ch2)
            if st & ss:
                t3, c3 = self.expand(pc, t)
                s3, c4 = self.expand(pc, s)
                both = (t3, s3, c3 or c4)
            u = self.unfold
            self.unfold_left -= 1
            if self.unfold_left <= 0:
                self.unfold = None
            why = None
            try:
                for on, x, y in ((ch2, t, s2), (ch1, t2, s), (both[2], both[0], both[1])):
                    if on:
                        if self._eq(pc, x, y, depth + 1):
                            return True
                        why = why or self.failed
            finally:
                self.unfold = u
                self.unfold_left += 1
            if why:
                self.failed = why
                return False
        self.failed = (pc, t, s, "differ")
        return False

    def implied(self, pc, t, s):
        at = set()
        seen = set()
        st = [t, s]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in x.args:
                if isinstance(y, F):
                    st.append(y)
                elif isinstance(y, Poly):
                    at.update(a for a in y.atoms() if ATOMS[a].kind == "sym")
        if not at or len(at) > 8:
            return ()
        m = self.smt.model(pc)
        if not m:
            return ()
        m = m[0]
        at = sorted(a for a in at if a in m)
        out = []
        gone = set()
        for j, a in enumerate(at):
            A = Poly({(a,): 1})
            c = [(A - m[a])] if abs(m[a]) <= 4 else []
            for b in at[:j]:
                if b not in gone and abs(m[a] - m[b]) <= 3:
                    c.append(A - Poly({(b,): 1}) - (m[a] - m[b]))
            for p in c:
                e = beq(p, 0)
                if e is True or e in pc:
                    continue
                if self.smt.entails(pc, e):
                    out.append(e)
                    gone.add(a)
                    break
        return tuple(out)

    def eqmap(self, pc):
        """atoms the path condition fixes in terms of others: {atom: Poly}"""
        mp = {}
        les = set()
        eqs = []
        for b in pc:
            if not isinstance(b, B):
                continue
            if b.op == "eq":
                eqs.append(b.args[0])
            elif b.op == "le":
                if -b.args[0] in les:
                    eqs.append(b.args[0])
                les.add(b.args[0])
        for p in eqs:
            p = T.psub(p, mp)
            if not isinstance(p, Poly):
                continue
            cand = sorted(((m[0], c) for m, c in p.t.items() if len(m) == 1 and abs(c) == 1
                           and not any(m[0] in mm for mm in p.t if mm != m)), reverse=True)
            v = None
            for i, c in cand:
                if ATOMS[i].kind != "sym" and sum(1 for m in p.t if m) > 1:
                    continue
                v = (p - Poly({(i,): c})) * (-c)
                if T.psub(v, {i: 77777}) == v:
                    break
                v = None
            if v is None:
                continue
            mp = {k: T.psub(x, {i: v}) for k, x in mp.items()}
            mp[i] = v
        return mp

    def specs(self, f):
        out = set()
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "spec":
                out.add(x)
            st.extend(y for y in x.args if isinstance(y, F))
        return out

    def expand(self, pc, f, skip=()):
        """unfold spec values once"""
        memo = {}
        ch = [False]

        def w(x):
            if x in memo:
                return memo[x]
            if x in skip:
                r = x
            elif x.op == "spec":
                r = self.unfold(pc, x.args[0], x.args[1:])
                if r is None:
                    r = x
                else:
                    ch[0] = True
            elif x.op in ("c", "s"):
                r = x
            else:
                args = tuple(w(y) if isinstance(y, F) else y for y in x.args)
                r = x if all(a is b for a, b in zip(args, x.args)) else T.frebuild(x.op, args)
            memo[x] = r
            return r
        return w(f), ch[0]

    def reads(self, *fs):
        out = {}
        seen = set()
        st = list(fs)
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ("rd", "spec", "i2f", "hv"):
                out[x] = 1
            for y in x.args:
                if isinstance(y, F):
                    st.append(y)
        return list(out)

    def canon(self, pc, t, s):
        """identify array/spec reads whose indexes are provably equal"""
        rs = self.reads(t, s)
        rep = {}
        groups = {}
        for r in rs:
            k = (r.op, r.args[0] if r.op != "i2f" else None, len(r.args))
            groups.setdefault(k, []).append(r)
        for k, l in groups.items():
            if k[0] == "i2f":
                continue
            for j in range(len(l)):
                for i in range(j):
                    if l[i] in rep:
                        continue
                    if all((not is_int(a)) or a == b or self.smt.entails(pc, beq(a, b))
                           for a, b in zip(l[i].args[1:], l[j].args[1:])):
                        rep[l[j]] = l[i]
                        break
        if not rep:
            return t, s
        memo = {}

        def w(x):
            if x in memo:
                return memo[x]
            if x in rep:
                r = rep[x]
            elif x.op in ("c", "s"):
                r = x
            else:
                args = tuple(w(y) if isinstance(y, F) else y for y in x.args)
                r = x if all(a is b for a, b in zip(args, x.args)) else T.frebuild(x.op, args)
            memo[x] = r
            return r
        return w(t), w(s)

    def signs(self, f, memo):
        """one orientation for every difference (b-a == -(a-b) and x-(b-a) == x+(a-b) in IEEE arithmetic)"""
        r = memo.get(f)
        if r is not None:
            return r
        if f.op in ("c", "s"):
            r = f
        else:
            args = tuple(self.signs(y, memo) if isinstance(y, F) else y for y in f.args)
            if f.op == "sub":
                a, b = args
                r = T.fsubt(a, b)
                if r.op == "sub" and r.args[0].id > r.args[1].id:
                    r = T.fneg(T.mkf("sub", r.args[1], r.args[0]))
            else:
                r = f if all(a is b for a, b in zip(args, f.args)) else T.frebuild(f.op, args)
                if f.op == "ffn" and args[0] == "fabs" and isinstance(args[1], F) and args[1].op == "neg":
                    r = T.ffn("fabs", args[1].args[0])
        memo[f] = r
        return r

    def uf_equal(self, pc, t, s):
        m = {}
        t, s = self.signs(t, m), self.signs(s, m)
        memo = {}

        def eq(a, b):
            if a is b:
                return True
            k = (a, b)
            if k in memo:
                return memo[k]
            r = False
            if a.op == b.op and len(a.args) == len(b.args):
                r = self.eqargs(pc, a, b, eq)
                if not r and a.op in ("add", "mul"):
                    r = eq(a.args[0], b.args[1]) and eq(a.args[1], b.args[0])
            memo[k] = r
            return r
        return eq(t, s)

    def eqargs(self, pc, a, b, eq):
        for x, y in zip(a.args, b.args):
            if isinstance(x, F) and isinstance(y, F):
                if not eq(x, y):
                    return False
            elif is_int(x) and is_int(y):
                if not (x == y or self.smt.entails(pc, beq(x, y))):
                    return False
            elif x != y:
                return False
        return True

    def resolve(self, pc, f):
        """simplify ites and havocked reads under pc; returns (term, undecided condition|None)"""
        memo = {}
        und = []

        def w(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ("c", "s"):
                r = x
            elif x.op == "ite":
                c = x.args[0]
                d = self.decide(pc, c)
                if d is True:
                    r = w(x.args[1])
                elif d is False:
                    r = w(x.args[2])
                else:
                    und.append(c)
                    r = x
            elif x.op == "hv" and self.hv is not None:
                r = x
                alts = self.hv(pc, x.args[0], x.args[1])
                first = None
                for cond, val, fid in alts:
                    if cond is True or self.smt.entails(pc, cond):
                        self.used.add(fid)
                        v = val() if callable(val) else val
                        r = w(v)
                        first = None
                        break
                    if first is None and self.smt.sat(pc, (cond,)) is not False:
                        first = cond
                else:
                    if first is not None:
                        und.append(first)
            else:
                args = tuple(w(y) if isinstance(y, F) else y for y in x.args)
                r = x if all(a is b for a, b in zip(args, x.args)) else T.frebuild(x.op, args)
            memo[x] = r
            return r

        r = w(f)
        return r, (self.pick(pc, und) if und else None)

    def pick(self, pc, und):
        """an undecided literal of the first undecided condition"""
        def lit(c):
            if not isinstance(c, B):
                return None
            if c.op == "not":
                return lit(c.args[0])
            if c.op in ("and", "or"):
                for x in c.args:
                    r = lit(x)
                    if r is not None:
                        return r
                return None
            return c if self.decide(pc, c) is None else None
        for c in und:
            r = lit(c)
            if r is not None:
                return r
        return und[0]

    def decide(self, pc, c):
        if c is True or c is False:
            return c
        if c in pc:
            return True
        if bnot(c) in pc:
            return False
        if self.smt.entails(pc, c):
            if isinstance(c, B) and c.op == "eq":
                self.derived.append(c)
            return True
        if self.smt.entails(pc, bnot(c)):
            return False
        return None


# ---------------------------------------------------------------- numeric evaluation
class Eval:
    """numeric evaluation (mpmath) of terms under an assignment; used to refute and to check samples"""

    def __init__(self, ints=None, floats=None, seed=1, hv=None, unfold=None):
        import mpmath
        self.mp = mpmath
        self.ints = ints or {}
        self.floats = floats or {}
        self.seed = seed
        self.memo = {}
        self.unfold = unfold

    def i(self, p):
        if not isinstance(p, Poly):
            return p
        s = 0
        for m, c in p.t.items():
            x = c
            for a in m:
                x = x * self.atom(a)
            s += x
        return int(s) if s == int(s) else s

    def atom(self, a):
        if a in self.ints:
            return self.ints[a]
        at = ATOMS[a]
        if at.kind == "tdiv":
            v = T.tdiv(int(self.i(at.args[0])), int(self.i(at.args[1])))
        elif at.kind == "trem":
            v = T.trem(int(self.i(at.args[0])), int(self.i(at.args[1])))
        elif at.kind == "ite":
            v = self.i(at.args[1]) if self.b(at.args[0]) else self.i(at.args[2])
        elif at.kind == "wrap":
            v = T.wrap_atom(int(self.i(at.args[0])), at.args[1])
        elif at.kind == "f2i":
            v = int(self.f(at.args[0]))
        else:
            r = random.Random(f"{self.seed}:{T.astr(a)}")
            lo = at.lo if at.lo is not None else -5
            hi = at.hi if at.hi is not None else 20
            v = r.randint(lo, min(hi, lo + 30))
        self.ints[a] = v
        return v

    def b(self, c):
        if isinstance(c, bool):
            return c
        if c.op == "le":
            return self.i(c.args[0]) <= 0
        if c.op == "eq":
            return self.i(c.args[0]) == 0
        if c.op == "not":
            return not self.b(c.args[0])
        if c.op == "and":
            return all(self.b(x) for x in c.args)
        if c.op == "or":
            return any(self.b(x) for x in c.args)
        if c.op == "fcmp":
            x, y = self.f(c.args[1]), self.f(c.args[2])
            return x == y if c.args[0] == "oeq" else x < y
        return random.Random(f"{self.seed}:{c}").random() < 0.5

    def rnd(self, key):
        v = self.floats.get(key)
        if v is None:
            r = random.Random(f"{self.seed}:{key}")
            v = self.mp.mpf(r.uniform(0.3, 2.0) * (1 if r.random() < 0.6 else -1))
        return v

    def f(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        mp = self.mp
        o, a = x.op, x.args
        if o == "c":
            r = mp.mpf(T.cval(x))
        elif o == "i2f":
            r = mp.mpf(self.i(a[0]))
        elif o == "add":
            r = self.f(a[0]) + self.f(a[1])
        elif o == "sub":
            r = self.f(a[0]) - self.f(a[1])
        elif o == "mul":
            r = self.f(a[0]) * self.f(a[1])
        elif o == "div":
            d = self.f(a[1])
            r = self.f(a[0]) / d if d != 0 else mp.mpf("nan")
        elif o == "neg":
            r = -self.f(a[0])
        elif o == "ite":
            r = self.f(a[1]) if self.b(a[0]) else self.f(a[2])
        elif o == "s":
            r = self.floats.get(x)
            if r is None:
                r = self.rnd(("s", a[0]))
        elif o in ("rd", "hv", "undef"):
            r = self.rnd((o, a[0], str(self.i(a[1])) if is_int(a[1]) else str(a[1:])))
        elif o == "spec":
            u = None
            if self.unfold is not None:
                u = self.unfold(a[0], tuple(self.i(y) if is_int(y) else y for y in a[1:]))
            r = self.f(u) if u is not None else self.rnd(("spec", a[0], tuple(str(self.i(y)) if is_int(y) else str(y) for y in a[1:])))
        elif o == "fn":
            n = a[0]
            v = [self.f(y) if isinstance(y, F) else mp.mpf(self.i(y)) if is_int(y) else y for y in a[1:]]
            if n == "fmod":
                r = mp.fmod(v[0], v[1]) if v[0] >= 0 else -mp.fmod(-v[0], v[1])
            elif n == "fabs":
                r = abs(v[0])
            elif n == "sqrt":
                r = mp.sqrt(v[0]) if v[0] >= 0 else mp.mpf("nan")
            elif n == "trunc":
                r = mp.floor(v[0]) if v[0] >= 0 else mp.ceil(v[0])
            elif n == "round":
                r = mp.floor(abs(v[0]) + mp.mpf("0.5")) * (1 if v[0] >= 0 else -1)
            elif n == "tofloat":
                r = v[0]
            elif n == "anp":
                w = mp.mpf("6.283185307179586476925286766559005768394338798750211641949")
                r = v[0] - w * mp.floor(v[0] / w)
            elif n == "copysign":
                r = abs(v[0]) if v[1] >= 0 else -abs(v[0])
            elif hasattr(mp, n):
                r = getattr(mp, n)(*v)
            else:
                # an unknown function: some smooth one, so that arguments equal up to rounding have values equal up to rounding
                q = random.Random(f"{self.seed}:fn:{n}")
                r = mp.mpf(q.uniform(0.1, 0.4))
                for y in v:
                    r += mp.sin(mp.mpf(q.uniform(0.5, 2.0)) * y + mp.mpf(q.uniform(0, 6)))
        else:
            r = self.rnd((o, str(a)))
        self.memo[x] = r
        return r
