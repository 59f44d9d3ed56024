"""Factored normal form: sums of products whose factors may be linear sums of designated atoms ("epochs") that are kept
unexpanded.  Decides identities like Lagrange's formula without multiplying the differences out.  Equal normal forms are
equal functions (denominators not zero); different ones mean nothing."""
from fractions import Fraction
from .terms import *
from . import terms as T


class Big(Exception):
    pass


def _mul(m, n, s=1):
    d = dict(m)
    for b, e in n:
        e = d.get(b, 0) + s * e
        if e:
            d[b] = e
        else:
            d.pop(b, None)
    return tuple(sorted(d.items(), key=repr))


class Fac:
    def __init__(self, keep):
        self.keep = keep          # atom term -> bool
        self.memo = {}
        self.terms = []
        self.ix = {}

    def atom(self, t):
        i = self.ix.get(t)
        if i is None:
            self.ix[t] = i = len(self.terms)
            self.terms.append(t)
        return ("a", i)

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            c = r.get(m, 0) + k * c
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return r

    def kept(self, d):
        for m in d:
            if len(m) > 1 or (m and (m[0][1] != 1 or m[0][0][0] != "a" or not self.keep(self.terms[m[0][0][1]]))):
                return False
        return True

    def base(self, d):
        """a sum as one factor: (coefficient, monomial)"""
        if len(d) == 1:
            (m, c), = d.items()
            return c, m
        it = sorted(d.items(), key=repr)
        lead = it[-1][1]
        return lead, ((("L", tuple((m, c / lead) for m, c in it)), 1),)

    def expand(self, d):
        r = {}
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "L":
                r = self.add(r, {k: v * c for k, v in m[0][0][1]})
            else:
                r = self.add(r, {m: c})
        return r

    def prod(self, a, b):
        if not a or not b:
            return {}
        if len(a) > 1 and self.kept(a):
            c, m = self.base(a)
            a = {m: c}
        if len(b) > 1 and self.kept(b):
            c, m = self.base(b)
            b = {m: c}
        if len(a) * len(b) > 4000:
            raise Big
        r = {}
        for m, c in a.items():
            for n, e in b.items():
                r = self.add(r, {_mul(m, n): c * e})
        return self.expand(r)

    def conv(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._conv(t)
        return r

    def _conv(self, t):
        op = t.op
        if op == "c":
            v = Fraction(cval(t))
            return {(): v} if v else {}
        if op in ("add", "sub"):
            return self.add(self.conv(t.args[0]), self.conv(t.args[1]), 1 if op == "add" else -1)
        if op == "neg":
            return self.add({}, self.conv(t.args[0]), -1)
        if op == "mul":
            return self.prod(self.conv(t.args[0]), self.conv(t.args[1]))
        if op == "div":
            d = self.conv(t.args[1])
            if not d:
                raise Big
            c, m = self.base(d)
            inv = tuple((b, -e) for b, e in m)
            n = self.conv(t.args[0])
            if len(n) > 1 and self.kept(n):
                k, q = self.base(n)
                n = {q: k}
            r = {}
            for q, k in n.items():
                r = self.add(r, {_mul(q, inv): k / c})
            return self.expand(r)
        return {(((self.atom(t)), 1),): Fraction(1)}

    def equal(self, a, b):
        try:
            return not self.add(self.conv(a), self.conv(b), -1)
        except (Big, RecursionError):
            return False
