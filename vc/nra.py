"""Nonlinear real arithmetic over the real reading of floating-point terms (z3), used where a contract asks for it
(opts nra=True).  Products and quotients of reals, floor, double<->int conversion; integers stay integers.  Only
'unsatisfiable' is used; every other answer counts as unknown."""
import time
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

STAT = {"queries": 0, "time": 0.0}


class N:
    def __init__(self):
        self.m = {}
        self.side = []

    def poly(self, p):
        if not isinstance(p, Poly):
            return z3.IntVal(int(p))
        k = ("p", p)
        if k in self.m:
            return self.m[k]
        l = T.lcm_den(p)
        if l != 1:
            v = z3.Int(f"q{len(self.m)}")
            self.m[k] = v
            self.side.append(l * v == self.poly(p * l))
            return v
        s = []
        for mo, c in p.t.items():
            t = z3.IntVal(c)
            for i in mo:
                t = t * self.atom(i)
            s.append(z3.simplify(t) if not mo else t)
        v = self.m[k] = s[0] if len(s) == 1 else z3.Sum(s)
        return v

    def atom(self, i):
        k = ("a", i)
        if k in self.m:
            return self.m[k]
        a = ATOMS[i]
        v = self.m[k] = z3.Int(f"a{i}")
        if a.lo is not None and a.kind != "f2i":
            self.side.append(v >= a.lo)
        if a.hi is not None and a.kind != "f2i":
            self.side.append(v <= a.hi)
        if a.kind == "f2i":
            x = self.f(a.args[0])
            r = z3.ToReal(v)
            self.side.append(z3.Implies(x >= 0, z3.And(r <= x, x < r + 1)))
            self.side.append(z3.Implies(x <= 0, z3.And(r >= x, x > r - 1)))
        elif a.kind == "tdiv":
            p, q = self.poly(a.args[0]), self.poly(a.args[1])
            self.side.append(z3.Implies(z3.And(p >= 0, q > 0), z3.And(q * v <= p, p < q * v + q, v >= 0)))
        elif a.kind == "trem":
            p, q = a.args
            self.side.append(v == self.poly(p) - self.poly(q * T.tdiv(p, q)))
        elif a.kind == "ite":
            c, x, y = a.args
            self.side.append(v == z3.If(self.b(c), self.poly(x), self.poly(y)))
        return v

    def b(self, x):
        if x is True or x is False:
            return z3.BoolVal(x)
        if x in self.m:
            return self.m[x]
        o = x.op
        if o == "le":
            v = self.poly(x.args[0]) <= 0
        elif o == "eq":
            v = self.poly(x.args[0]) == 0
        elif o == "not":
            v = z3.Not(self.b(x.args[0]))
        elif o == "and":
            v = z3.And([self.b(y) for y in x.args])
        elif o == "or":
            v = z3.Or([self.b(y) for y in x.args])
        elif o == "fcmp":
            a, c = self.f(x.args[1]), self.f(x.args[2])
            v = a == c if x.args[0] == "oeq" else a < c
        else:
            v = z3.Bool(f"b_{x.op}_{x.args[0]}")
        self.m[x] = v
        return v

    def f(self, x):
        k = ("f", x.id)
        if k in self.m:
            return self.m[k]
        o, a = x.op, x.args
        s = self.side
        if o == "c":
            c = T.cval(x)
            v = z3.RealVal(str(Fraction(c))) if c == c and abs(c) != float("inf") else z3.Real(f"f{x.id}")
        elif o == "add":
            v = self.f(a[0]) + self.f(a[1])
        elif o == "sub":
            v = self.f(a[0]) - self.f(a[1])
        elif o == "neg":
            v = -self.f(a[0])
        elif o == "mul":
            v = self.f(a[0]) * self.f(a[1])
        elif o == "div":
            n, d = self.f(a[0]), self.f(a[1])
            v = z3.Real(f"f{x.id}")
            s.append(z3.Implies(d != 0, v * d == n))
        elif o == "i2f":
            v = z3.ToReal(self.poly(a[0]))
        elif o == "ite":
            v = z3.If(self.b(a[0]), self.f(a[1]), self.f(a[2]))
        elif o == "fn" and a[0] == "fabs":
            y = self.f(a[1])
            v = z3.If(y >= 0, y, -y)
        elif o == "fn" and a[0] in ("floor", "ceil", "trunc"):
            y = self.f(a[1])
            i = z3.Int(f"fl{x.id}")
            v = z3.ToReal(i)
            lo, hi = z3.And(v <= y, y < v + 1), z3.And(v >= y, y > v - 1)
            s.append(lo if a[0] == "floor" else hi if a[0] == "ceil" else z3.If(y >= 0, lo, hi))
        elif o == "fn" and a[0] == "sqrt":
            y = self.f(a[1])
            v = z3.Real(f"f{x.id}")
            s.append(v >= 0)
            s.append(z3.Implies(y >= 0, v * v == y))
        else:
            v = z3.Real(f"f{x.id}")
        self.m[k] = v
        return v


_syms = {}


def syms(x):
    """(real symbols, integer symbols) of a term"""
    if not isinstance(x, (B, F, Poly)):
        return frozenset(), frozenset()
    k = x.id if isinstance(x, F) else x
    r = _syms.get(k)
    if r is not None:
        return r
    rs, ns = set(), set()

    def add(y):
        a, b = syms(y)
        rs.update(a)
        ns.update(b)
    if isinstance(x, Poly):
        for mo in x.t:
            for i in mo:
                a = ATOMS[i]
                if a.kind == "sym":
                    ns.add(i)
                else:
                    for y in a.args:
                        add(y)
    elif isinstance(x, F) and x.op == "s":
        rs.add(x.args[0])
    else:
        for y in x.args:
            add(y)
    r = _syms[k] = frozenset(rs), frozenset(ns)
    return r


def relevant(pc, goal):
    """facts about the real symbols of the goal, then the facts about integers only that touch those"""
    rs, ns = map(set, syms(goal))
    out = []
    for x in pc:
        a, b = syms(x)
        if a and a <= rs:
            out.append(x)
            ns |= b
    for x in pc:
        a, b = syms(x)
        if not a and b and b <= ns:
            out.append(x)
    return tuple(out)


def equal(pc, v, t, ms):
    """v == t for integers: neither v >= t+1 nor v <= t-1"""
    g = beq(v, t)
    for facts in (relevant(pc, g), pc):
        if all(unsat(facts + (x,), ms) for x in (ble(t + 1, v), ble(v + 1, t))):
            return True
    return False


def unsat(bs, ms=3000):
    """True only if the conjunction of the terms is unsatisfiable over integers and reals"""
    bs = tuple(x for x in bs if x is not True)
    if any(x is False for x in bs):
        return True
    return len(bs) > 0 and _unsat(bs, ms)


def _unsat(bs, ms):
    n = N()
    STAT["queries"] += 1
    es = [n.b(x) for x in bs]
    t = time.time()
    try:
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*es)
        s.add(*n.side)
        return s.check() == z3.unsat
    finally:
        STAT["time"] += time.time() - t
