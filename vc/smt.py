"""Decision procedures over Poly/B terms: fast syntactic and interval tests, then z3 on a
linear abstraction (monomials as variables plus product lemmas), then z3 on the full
nonlinear formula.  A query is answered True/False only when decided; otherwise None."""
import time, itertools
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

STAT = {"queries": 0, "z3": 0, "z3_time": 0.0, "unknown": 0, "nl": 0}


def _add(s, e):
    """s.add(e) for one Boolean expression without the argument handling"""
    z3.Z3_solver_assert(s.ctx.ref(), s.solver, e.as_ast())


class Z:
    """translation of terms into z3 (one per reset of the term tables)"""

    def __init__(self):
        self.av = {}
        self.mon = {}
        self.pv = {}
        self.bv = {}
        self.fv = {}
        self.side = []       # side axioms, asserted once globally
        self.nonlin = {}     # monomial tuple -> var
        self.real = False
        self.nb = {}
        self.ge = {}
        self.nld = {}

    def ge0(self, p):
        v = self.ge.get(p)
        if v is None:
            v = self.ge[p] = self.poly(p) >= 0
        return v

    def atom(self, i):
        v = self.av.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        v = z3.Int(f"a{i}")
        self.av[i] = v
        if a.lo is not None:
            self.side.append(v >= a.lo)
        if a.hi is not None:
            self.side.append(v <= a.hi)
        if a.kind == "tdiv":
            p, k = a.args
            if type(k) is int:
                pv = self.poly(p)
                ak = abs(k)
                s = 1 if k > 0 else -1
                self.side.append(z3.If(pv >= 0, z3.And(ak * (s * v) <= pv, pv <= ak * (s * v) + ak - 1),
                                       z3.And(ak * (s * v) >= pv, pv >= ak * (s * v) - ak + 1)))
            else:
                pv, kv = self.poly(p), self.poly(k)
                kq = self.poly(Poly({(i,): 1}) * k)
                # trusted only for positive divisor and dividend >= 0 : k q <= p < k q + k
                self.side.append(z3.Implies(z3.And(pv >= 0, kv > 0), z3.And(kq <= pv, pv < kq + kv, v >= 0, v <= pv)))
        elif a.kind == "trem":
            p, k = a.args
            q = T.tdiv(p, k)
            self.side.append(v == self.poly(p) - self.poly(q * k))
        elif a.kind == "ite":
            c, x, y = a.args
            self.side.append(v == z3.If(self.b(c), self.poly(x), self.poly(y)))
        elif a.kind == "wrap":
            p, w = a.args
            j = z3.Int(f"wrapk{i}")
            self.side.append(self.poly(p) == v + (1 << w) * j)
        return v

    def monom(self, m):
        v = self.mon.get(m)
        if v is None:
            if len(m) == 1:
                v = self.atom(m[0])
            else:
                for i in m:
                    self.atom(i)
                v = z3.Int("m" + "_".join(map(str, m)))
                self.nonlin[m] = v
            self.mon[m] = v
        return v

    def poly(self, p):
        if not isinstance(p, Poly):
            return z3.IntVal(int(p))
        v = self.pv.get(p)
        if v is not None:
            return v
        l = T.lcm_den(p)
        if l != 1:
            # rational coefficients: value known to be an integer
            v = z3.Int(f"q{len(self.pv)}")
            self.pv[p] = v
            self.side.append(l * v == self.poly(p * l))
            return v
        s = []
        for m, c in p.t.items():
            if not m:
                s.append(z3.IntVal(c))
            elif c == 1:
                s.append(self.monom(m))
            else:
                s.append(c * self.monom(m))
        v = s[0] if len(s) == 1 else z3.Sum(s)
        self.pv[p] = v
        return v

    def b(self, x):
        if x is True:
            return z3.BoolVal(True)
        if x is False:
            return z3.BoolVal(False)
        v = self.bv.get(x)
        if v is not None:
            return v
        o = x.op
        if o == "le":
            v = self.poly(x.args[0]) <= 0
        elif o == "eq":
            v = self.poly(x.args[0]) == 0
        elif o == "not":
            v = z3.Not(self.b(x.args[0]))
        elif o == "and":
            v = z3.And([self.b(y) for y in x.args])
        elif o == "or":
            v = z3.Or([self.b(y) for y in x.args])
        elif o == "fcmp":
            a, c = self.f(x.args[1]), self.f(x.args[2])
            v = a == c if x.args[0] == "oeq" else a < c
        else:
            v = z3.Bool(f"b_{x.op}_{x.args[0]}")
        self.bv[x] = v
        return v

    def f(self, x):
        v = self.fv.get(x.id)
        if v is not None:
            return v
        o, a = x.op, x.args
        if o == "c":
            c = T.cval(x)
            v = z3.RealVal(str(Fraction(c))) if c == c and abs(c) != float("inf") else z3.Real(f"f{x.id}")
        elif o == "add":
            v = self.f(a[0]) + self.f(a[1])
        elif o == "sub":
            v = self.f(a[0]) - self.f(a[1])
        elif o == "neg":
            v = -self.f(a[0])
        elif o == "i2f":
            v = z3.ToReal(self.poly(a[0]))
        elif o == "ite":
            v = z3.If(self.b(a[0]), self.f(a[1]), self.f(a[2]))
        elif o == "fn" and a[0] == "fabs":
            y = self.f(a[1])
            v = z3.If(y >= 0, y, -y)
        elif o in ("mul",) and (a[0].op == "c" or a[1].op == "c"):
            v = self.f(a[0]) * self.f(a[1])
        elif o == "div" and a[1].op == "c" and T.cval(a[1]) != 0:
            v = self.f(a[0]) / self.f(a[1])
        else:
            v = z3.Real(f"f{x.id}")
            if o == "fn" and a[0] == "sqrt":
                self.side.append(v >= 0)
            if o == "fn" and a[0] == "floor":
                y = self.f(a[1])
                fi = z3.Int(f"fl{x.id}")
                self.side.append(z3.And(v == z3.ToReal(fi), v <= y, y < v + 1))
        self.fv[x.id] = v
        return v


class Smt:
    def __init__(self, timeout_ms=2000):
        self.z = Z()
        self.timeout = timeout_ms
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.nside = 0
        self.stack = []   # list of B pushed
        self.cache = {}
        self.deadline = None
        self.products = True
        self.nra = 0         # ms: ask the nonlinear real procedure too
        self.hooks = []      # fn(atom ids, stage) -> [B]: lemma instances for uninterpreted functions
        self._ba = {}
        self._hc = {}
        self._hzc = {}
        self._sa = (0, None)

    # ---------------------------------------------------------- base solver handling
    def _sync(self, pc):
        """make the solver stack equal to pc (tuple of B)"""
        z = self.z
        conv = [z.b(x) for x in pc]
        if self.nside < len(z.side):
            # side axioms must sit at the bottom of the stack
            self.s.pop(len(self.stack)) if self.stack else None
            self.stack = []
            while self.nside < len(z.side):
                _add(self.s, z.side[self.nside])
                self.nside += 1
        k = 0
        n = min(len(pc), len(self.stack))
        while k < n and self.stack[k] is pc[k]:
            k += 1
        if k < len(self.stack):
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]
        for i in range(k, len(pc)):
            self.s.push()
            _add(self.s, conv[i])
            self.stack.append(pc[i])

    def _check(self, s):
        t = time.time()
        STAT["z3"] += 1
        r = s.check()
        STAT["z3_time"] += time.time() - t
        return r

    # ---------------------------------------------------------- public
    def sat(self, pc, extra=()):
        """True: satisfiable; False: unsatisfiable; None: unknown (treat as satisfiable)"""
        pc = tuple(x for x in pc if x is not True)
        extra = tuple(x for x in extra if x is not True)
        if any(x is False for x in pc) or any(x is False for x in extra):
            return False
        STAT["queries"] += 1
        key = (frozenset(pc), frozenset(extra))
        r = self.cache.get(key, 0)
        if r != 0:
            return r
        s = set(pc)
        for x in extra:
            nx = T.bnot(x)
            if nx in s:
                self.cache[key] = False
                return False
        r = self._sat(pc, extra)
        if self.nra and r is not False:
            from . import nra
            if nra.unsat(pc + extra, self.nra):
                r = False
        self.cache[key] = r
        return r

    def _sat(self, pc, extra):
        z = self.z
        ez = [z.b(x) for x in extra]
        self._sync(pc)
        # conversion of extra may have added side axioms
        if self.nside < len(z.side):
            self._sync(pc)
        s = self.s
        s.push()
        try:
            for e in ez:
                _add(s, e)
            r = self._check(s)
            if r == z3.unsat:
                return False
            hl = ()
            if self.hooks:
                hl = self.hook_lemmas(pc + extra, 1)
                if hl:
                    for x in self._hz(hl):
                        _add(s, x)
                    r = self._check(s)
                    if r == z3.unsat:
                        return False
            mons = self._relevant_monos(pc + extra)
            if mons and hl:
                h2 = self.hook_lemmas(pc + extra, 2)
                for x in self._hz(h2):
                    _add(s, x)
                r = self._check(s)
                if r == z3.unsat:
                    return False
                mons = self._relevant_monos(pc + extra + tuple(h2))
            if not mons:
                if r == z3.sat:
                    return True
                STAT["unknown"] += 1
                return None
            # does the model respect the products?
            if r == z3.sat:
                md = s.model()
                if self._model_ok(md, mons):
                    return True
            # add product lemmas
            for l in self._lemmas(pc + extra, mons):
                _add(s, l)
            r = self._check(s)
            if r == z3.unsat:
                return False
            if r == z3.sat:
                md = s.model()
                if self._model_ok(md, self._relevant_monos(pc + extra)):
                    return True
        finally:
            s.pop()
        STAT["nl"] += 1
        # full nonlinear
        s2 = z3.Solver()
        s2.set("timeout", self.timeout)
        self._add_side(s2)
        for x in pc + extra:
            if x is not True:
                _add(s2, z.b(x))
        for m in self._last_closure:
            d = self._nldef(m)
            if d is not None:
                _add(s2, d)
        r = self._check(s2)
        if r == z3.unsat:
            return False
        if r == z3.sat:
            return True
        STAT["unknown"] += 1
        return None

    def _add_side(self, s):
        z = self.z
        n, e = self._sa
        if n != len(z.side):
            n, e = self._sa = (len(z.side), z3.And(list(z.side)))
        if n:
            _add(s, e)

    def _nldef(self, m):
        """the product a monomial variable stands for"""
        z = self.z
        v = z.nonlin.get(m)
        if v is None:
            return None
        d = z.nld.get(m)
        if d is None:
            e = z.atom(m[0])
            for i in m[1:]:
                e = e * z.atom(i)
            d = z.nld[m] = v == e
        return d

    def _hz(self, hl):
        """the lemma instances as one z3 formula, with the side axioms they introduce"""
        r = self._hzc.get(hl)
        if r is None:
            z = self.z
            n0 = len(z.side)
            l = [z.b(b) for b in hl]
            l += z.side[n0:]
            r = self._hzc[hl] = (z3.And(l),) if l else ()
        return r

    def hook_lemmas(self, bs, stage):
        ats = set()
        for b in bs:
            a = self._ba.get(b)
            if a is None:
                a = self._ba[b] = frozenset(self._closure((b,))[1]) if isinstance(b, B) else frozenset()
            ats |= a
        key = (frozenset(x for x in ats if ATOMS[x].kind == "uf"), stage)
        if not key[0]:
            return ()
        r = self._hc.get(key)
        if r is None:
            l = []
            for h in self.hooks:
                l += h(key[0], stage)
            r = self._hc[key] = tuple(x for x in l if isinstance(x, B))
        return r

    def _closure(self, bs):
        seen = set()
        polys = set()
        atoms = set()

        def vp(p):
            if not isinstance(p, Poly) or p in polys:
                return
            polys.add(p)
            for m in p.t:
                for i in m:
                    if i not in atoms:
                        atoms.add(i)
                        for x in ATOMS[i].args:
                            va(x)

        def va(x):
            if isinstance(x, Poly):
                vp(x)
            elif isinstance(x, B):
                vb(x)

        def vf(f):
            if f.id in seen:
                return
            seen.add(f.id)
            for x in f.args:
                if isinstance(x, F):
                    vf(x)
                else:
                    va(x)

        def vb(b):
            if b in seen:
                return
            seen.add(b)
            for x in b.args:
                if isinstance(x, Poly):
                    vp(x)
                elif isinstance(x, B):
                    vb(x)
                elif isinstance(x, F):
                    vf(x)

        for b in bs:
            vb(b)
        return polys, atoms

    def _relevant_monos(self, bs):
        polys, atoms = self._closure(bs)
        ms = set()
        for p in polys:
            for m in p.t:
                if len(m) > 1:
                    ms.add(m)
        # monomials introduced by div axioms
        for m in self.z.nonlin:
            if m not in ms and all(i in atoms for i in m):
                ms.add(m)
        self._last_closure = ms
        self._last_atoms = atoms
        return ms

    def _model_ok(self, model, mons):
        z = self.z
        for m in mons:
            zv = z.nonlin.get(m)
            if zv is None:
                continue
            x = model.eval(zv, model_completion=True)
            p = 1
            for i in m:
                p *= model.eval(z.atom(i), model_completion=True).as_long()
            if p != x.as_long():
                return False
        return True

    def _lemmas(self, bs, mons):
        """products of pairs of hypotheses (e>=0 forms), restricted to those whose monomials
        are (mostly) relevant, plus squares"""
        z = self.z
        out = []
        hyps = []      # polys known >= 0
        eqs = []
        allb = []
        for b in bs:
            if b.op == "and":
                allb.extend(b.args)
            else:
                allb.append(b)
        for b in allb:
            if b.op == "le":
                hyps.append(-b.args[0])
            elif b.op == "eq":
                eqs.append(b.args[0])
        polys, atoms = self._closure(bs)
        for i in atoms:
            a = ATOMS[i]
            if a.lo is not None and abs(a.lo) < 10:
                hyps.append(Poly({(i,): 1}) - a.lo)
        lin = [h for h in hyps if isinstance(h, Poly) and all(len(m) <= 1 for m in h.t) and len(h.t) <= 6]
        matoms = set()
        maxdeg = 2
        for m in mons:
            matoms.update(m)
            maxdeg = max(maxdeg, len(m))
        lin = [h for h in lin if any(len(m) == 1 and m[0] in matoms for m in h.t)]
        lin = list(dict.fromkeys(lin))[:28]
        prods = []
        for h1, h2 in itertools.combinations_with_replacement(lin, 2):
            p = h1 * h2
            if isinstance(p, Poly):
                prods.append(p)
        if maxdeg >= 3:
            l2 = lin[:8]
            for h1, h2, h3 in itertools.combinations_with_replacement(l2, 3):
                p = h1 * h2 * h3
                if isinstance(p, Poly):
                    prods.append(p)
        for p in prods:
            out.append(z.ge0(p))
        # equations times atoms
        for e in eqs[:10]:
            if isinstance(e, Poly) and all(len(m) <= 1 for m in e.t):
                for i in list(matoms)[:10]:
                    q = e * Poly({(i,): 1})
                    out.append(z.poly(q) == 0)
        # conditional products for disequality-like splits: a<=b or a>=b+1 handled by caller
        for i in matoms:
            v = z.poly(Poly({(i, i): 1}))
            x = z.atom(i)
            out.append(z3.And(v >= x, v >= -x))
        # axioms created by the lemmas: needed here; the next _sync puts them at the bottom
        out.extend(z.side[self.nside:])
        return out

    def entails(self, pc, b):
        if b is True:
            return True
        if b is False:
            return self.sat(pc) is False
        if b in pc:
            return True
        if b.op == "and":
            return all(self.entails(pc, x) for x in b.args)
        return self.sat(pc, (T.bnot(b),)) is False

    def model(self, pc, extra=(), atoms=None, timeout=3000):
        """integer model (dict atom id -> int) of the full formula or None"""
        z = self.z
        fs = [z.b(x) for x in tuple(pc) + tuple(extra)]
        s2 = z3.Solver()
        s2.set("timeout", timeout)
        for x in z.side:
            _add(s2, x)
        for x in fs:
            _add(s2, x)
        if self.hooks:
            n0 = len(z.side)
            hl = self.hook_lemmas(tuple(pc) + tuple(extra), 1)
            for b in hl:
                _add(s2, z.b(b))
            for x in z.side[n0:]:
                _add(s2, x)
        self._relevant_monos(tuple(x for x in tuple(pc) + tuple(extra) if isinstance(x, B)))
        for m in list(z.nonlin):
            if m in self._last_closure:
                e = z.atom(m[0])
                for i in m[1:]:
                    e = e * z.atom(i)
                _add(s2, z.nonlin[m] == e)
        t = time.time()
        STAT["z3"] += 1
        r = s2.check()
        STAT["z3_time"] += time.time() - t
        if r != z3.sat:
            return None
        md = s2.model()
        out = {}
        for i, v in z.av.items():
            x = md.eval(v, model_completion=True)
            try:
                out[i] = x.as_long()
            except Exception:
                pass
        fv = {}
        for fid, v in z.fv.items():
            f = T._fl[fid]
            if f.op in ("s", "rd", "hv", "fn", "mul", "div"):
                x = md.eval(v, model_completion=True)
                try:
                    fv[f] = Fraction(x.as_fraction())
                except Exception:
                    try:
                        fv[f] = Fraction(x.approx(20).as_fraction())
                    except Exception:
                        pass
        return out, fv
