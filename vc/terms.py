"""Terms: integer polynomials (Poly), booleans (B), floating-point DAG terms (F).

Integer values are Python ints or Poly.  Booleans are True/False or B.  F terms are
hash-consed and never carry a machine float except in constants.
"""
from fractions import Fraction
import itertools, math

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name")


ATOMS = []
_atom_ix = {}


def reset():
    ATOMS.clear()
    _atom_ix.clear()
    _ftab.clear()
    _fl.clear()
    _btab.clear()


def mk_atom(kind, args, lo=None, hi=None):
    key = (kind, args)
    i = _atom_ix.get(key)
    if i is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.name = args[0] if kind == "sym" else None
        ATOMS.append(a)
        _atom_ix[key] = i = a.id
    return Poly({(i,): 1})


_cnt = itertools.count()


def fresh(name="v", lo=None, hi=None):
    return mk_atom("sym", (f"{name}!{next(_cnt)}",), lo, hi)


def sym(name, lo=None, hi=None):
    i = _atom_ix.get(("sym", (name,)))
    if i is not None and (lo, hi) != (None, None) and (ATOMS[i].lo, ATOMS[i].hi) != (lo, hi):
        raise ValueError(f"symbol {name} used with two ranges")
    return mk_atom("sym", (name,), lo, hi)


# ---------------------------------------------------------------- polynomials
def _norm(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        c = d[()]
        if isinstance(c, Fraction):
            if c.denominator == 1:
                return int(c)
            return Poly(d)
        return c
    for m, c in d.items():
        if type(c) is Fraction and c.denominator == 1:
            d[m] = int(c)
    return Poly(d)


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __add__(self, o):
        d = dict(self.t)
        if isinstance(o, Poly):
            for m, c in o.t.items():
                d[m] = d.get(m, 0) + c
        else:
            d[()] = d.get((), 0) + o
        return _norm(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Poly):
            d = {}
            for m1, c1 in self.t.items():
                for m2, c2 in o.t.items():
                    m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                    d[m] = d.get(m, 0) + c1 * c2
            return _norm(d)
        if o == 0:
            return 0
        return _norm({m: c * o for m, c in self.t.items()})

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def const(self):
        return self.t.get((), 0)

    def __repr__(self):
        return pstr(self)


def astr(i):
    a = ATOMS[i]
    if a.kind == "sym":
        return a.args[0]
    return f"{a.kind}({','.join(map(str, a.args))})"


def pstr(p):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for m, c in sorted(p.t.items()):
        s = "*".join(astr(i) for i in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c}*{s}")
    return "+".join(out).replace("+-", "-")


def is_int(v):
    return type(v) is int or isinstance(v, Poly)


def is_integral(p):
    """all coefficients are integers"""
    if not isinstance(p, Poly):
        return not isinstance(p, Fraction) or p.denominator == 1
    return all(not isinstance(c, Fraction) for c in p.t.values())


def lcm_den(p):
    l = 1
    if isinstance(p, Poly):
        for c in p.t.values():
            if isinstance(c, Fraction):
                l = l * c.denominator // math.gcd(l, c.denominator)
    return l


def divides_always(p, k):
    """p (Poly with rational coefficients allowed) is a multiple of k for every integer
    value of its atoms -- decided by trying all residues."""
    if not isinstance(p, Poly):
        return p % k == 0
    l = lcm_den(p)
    q = p * l
    mod = k * l
    at = sorted(q.atoms())
    if mod > 64 or mod ** len(at) > 200000:
        # all coefficients divisible?
        return all(c % mod == 0 for c in q.t.values())
    for vals in itertools.product(range(mod), repeat=len(at)):
        env = dict(zip(at, vals))
        s = 0
        for m, c in q.t.items():
            x = c
            for i in m:
                x = x * env[i] % mod
            s += x
        if s % mod:
            return False
    return True


def exact_div(p, k):
    if not isinstance(p, Poly):
        return p // k
    return _norm({m: Fraction(c) / k for m, c in p.t.items()})


def psub(p, mp, memo=None):
    """substitute atoms (id -> int/Poly) in an int/Poly"""
    if not isinstance(p, Poly):
        return p
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    # quick test
    out = 0
    changed = False
    vals = {}
    for i in p.atoms():
        if i in mp:
            vals[i] = mp[i]
            changed = True
        else:
            a = ATOMS[i]
            if a.kind != "sym":
                v = _asub(a, mp, memo)
                vals[i] = v
                if not (isinstance(v, Poly) and v.t == {(i,): 1}):
                    changed = True
            else:
                vals[i] = None
    if not changed:
        memo[p] = p
        return p
    for m, c in p.t.items():
        x = c
        rest = []
        for i in m:
            v = vals[i]
            if v is None:
                rest.append(i)
            else:
                x = x * v
        if rest:
            x = x * Poly({tuple(rest): 1})
        out = out + x
    memo[p] = out
    return out


def _asub(a, mp, memo):
    key = ("A", a.id)
    r = memo.get(key)
    if r is not None:
        return r
    args = tuple(anysub(x, mp, memo) for x in a.args)
    if all(x is y or x == y for x, y in zip(args, a.args)):
        r = Poly({(a.id,): 1})
    else:
        r = rebuild_atom(a.kind, args)
    memo[key] = r
    return r


def rebuild_atom(kind, args):
    if kind == "tdiv":
        return tdiv(args[0], args[1])
    if kind == "trem":
        return trem(args[0], args[1])
    if kind == "ite":
        return iite(*args)
    if kind == "wrap":
        return wrap_atom(*args)
    if kind == "uf" and args[0][:2] in REBUILD:
        return REBUILD[args[0][:2]](args)
    return mk_atom(kind, args)


REBUILD = {}        # name prefix -> constructor of an uninterpreted function


def anysub(x, mp, memo):
    if isinstance(x, Poly):
        return psub(x, mp, memo)
    if isinstance(x, B):
        return bsub(x, mp, memo)
    if isinstance(x, F):
        return fsub(x, mp, memo)
    if isinstance(x, tuple):
        return tuple(anysub(y, mp, memo) for y in x)
    return x


def tdiv(p, k):
    """C-like truncating division by a positive or negative constant (or Poly)"""
    if type(p) is int and type(k) is int:
        q = abs(p) // abs(k)
        return q if (p < 0) == (k < 0) else -q
    if type(k) is int and k > 0 and divides_always(p, k):
        return exact_div(p, k)
    return mk_atom("tdiv", (p, k))


def trem(p, k):
    if type(p) is int and type(k) is int:
        r = abs(p) % abs(k)
        return -r if p < 0 else r
    if type(k) is int and k > 0 and divides_always(p, k):
        return 0
    return mk_atom("trem", (p, k))


def wrap_atom(p, w):
    if type(p) is int:
        p &= (1 << w) - 1
        return p - (1 << w) if p >> (w - 1) else p
    return mk_atom("wrap", (p, w), -(1 << (w - 1)), (1 << (w - 1)) - 1)


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) == type(b) and a == b:
        return a
    return mk_atom("ite", (c, a, b))


def uf(name, *args):
    return mk_atom("uf", (name,) + args)


# ---------------------------------------------------------------- booleans
_btab = {}


class B:
    __slots__ = ("op", "args", "_h")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return bstr(self)


def _mkb(op, args):
    k = (op, args)
    b = _btab.get(k)
    if b is None:
        b = B()
        b.op = op
        b.args = args
        b._h = hash(k)
        _btab[k] = b
    return b


def bstr(b):
    if not isinstance(b, B):
        return str(b)
    if b.op == "le":
        return f"({pstr(b.args[0])} <= 0)"
    if b.op == "eq":
        return f"({pstr(b.args[0])} == 0)"
    if b.op == "not":
        return f"!{bstr(b.args[0])}"
    if b.op in ("and", "or"):
        return "(" + (" && " if b.op == "and" else " || ").join(map(bstr, b.args)) + ")"
    if b.op == "fcmp":
        return f"[{fstr(b.args[1])} {b.args[0]} {fstr(b.args[2])}]"
    return f"{b.op}{b.args}"


def ble(a, b):
    """a <= b"""
    p = a - b
    if not isinstance(p, Poly):
        return p <= 0
    l = lcm_den(p)
    if l != 1:
        p = p * l
    # normalise by gcd of non constant coefficients
    g = 0
    for m, c in p.t.items():
        if m:
            g = math.gcd(g, abs(c))
    if g > 1:
        c0 = p.t.get((), 0)
        d = {m: c // g for m, c in p.t.items() if m}
        d[()] = -((-c0) // g)  # sum + c0 <= 0  ->  sum/g <= floor(-c0/g)
        p = _norm(d)
        if not isinstance(p, Poly):
            return p <= 0
    return _mkb("le", (p,))


def blt(a, b):
    p = a - b
    l = lcm_den(p)
    if l != 1:
        return ble(p * l + 1, 0)
    return ble(p + 1, 0)


def beq(a, b):
    if isinstance(a, B) or isinstance(b, B) or isinstance(a, bool) or isinstance(b, bool):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    p = a - b
    if not isinstance(p, Poly):
        return p == 0
    l = lcm_den(p)
    if l != 1:
        p = p * l
    g = 0
    for m, c in p.t.items():
        if m:
            g = math.gcd(g, abs(c))
    c0 = p.t.get((), 0)
    if g > 1:
        if c0 % g:
            return False
        p = _norm({m: c // g for m, c in p.t.items()})
    # sign: first monomial positive
    m = min(x for x in p.t if x)
    if p.t[m] < 0:
        p = -p
    return _mkb("eq", (p,))


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return ble(1 - b.args[0], 0)
    if b.op == "and":
        return bor(*[bnot(x) for x in b.args])
    if b.op == "or":
        return band(*[bnot(x) for x in b.args])
    return _mkb("not", (b,))


def band(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    s = set(out)
    for x in out:
        if bnot_q(x) in s:
            return False
    return _mkb("and", tuple(out))


def bnot_q(x):
    if x.op in ("and", "or"):
        return None
    return bnot(x)


def bor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    s = set(out)
    for x in out:
        if bnot_q(x) in s:
            return True
    return _mkb("or", tuple(out))


def bimp(a, b):
    return bor(bnot(a), b)


def bsym(name):
    return _mkb("bsym", (name,))


def bsub(b, mp, memo=None):
    if not isinstance(b, B):
        return b
    if memo is None:
        memo = {}
    key = b
    r = memo.get(key)
    if r is not None:
        return r
    if b.op == "le":
        r = ble(psub(b.args[0], mp, memo), 0)
    elif b.op == "eq":
        r = beq(psub(b.args[0], mp, memo), 0)
    elif b.op == "not":
        r = bnot(bsub(b.args[0], mp, memo))
    elif b.op == "and":
        r = band(*[bsub(x, mp, memo) for x in b.args])
    elif b.op == "or":
        r = bor(*[bsub(x, mp, memo) for x in b.args])
    elif b.op == "fcmp":
        r = fcmp(b.args[0], fsub(b.args[1], mp, memo), fsub(b.args[2], mp, memo))
    else:
        r = b
    memo[key] = r
    return r


# ---------------------------------------------------------------- floats
_ftab = {}
_fl = []


class F:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return fstr(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # convenience for contracts (bit-exact operation constructors)
    def __add__(self, o):
        return fadd(self, tof(o))

    def __radd__(self, o):
        return fadd(tof(o), self)

    def __sub__(self, o):
        return fsubt(self, tof(o))

    def __rsub__(self, o):
        return fsubt(tof(o), self)

    def __mul__(self, o):
        return fmul(self, tof(o))

    def __rmul__(self, o):
        return fmul(tof(o), self)

    def __truediv__(self, o):
        return fdiv(self, tof(o))

    def __rtruediv__(self, o):
        return fdiv(tof(o), self)

    def __neg__(self):
        return fneg(self)


def mkf(op, *args):
    k = (op, args)
    f = _ftab.get(k)
    if f is None:
        f = F()
        f.op = op
        f.args = args
        f.id = len(_fl)
        _fl.append(f)
        _ftab[k] = f
    return f


def fc(x):
    x = float(x)
    if x == 0 and math.copysign(1, x) < 0:
        return mkf("c", "-0.0")
    return mkf("c", x)


def cval(f):
    return -0.0 if f.args[0] == "-0.0" else f.args[0]


def tof(o):
    if isinstance(o, F):
        return o
    if isinstance(o, Poly):
        return i2f(o)
    return fc(o)


def fsym(name):
    return mkf("s", name)


def ffresh(name="f"):
    return mkf("s", f"{name}!{next(_cnt)}")


def _ord(a, b):
    return (a, b) if a.id <= b.id else (b, a)


def _fold(op, a, b):
    """constant folding, only when the machine result is the exact one"""
    x, y = cval(a), cval(b)
    try:
        r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
        X, Y = Fraction(x), Fraction(y)
        e = X + Y if op == "+" else X - Y if op == "-" else X * Y if op == "*" else X / Y
        if Fraction(r) == e:
            return fc(r)
    except (OverflowError, ValueError, ZeroDivisionError):
        pass
    return None


def fadd(a, b):
    if a.op == "c" and b.op == "c":
        r = _fold("+", a, b)
        if r is not None:
            return r
    if a.op == "c" and cval(a) == 0:
        return b
    if b.op == "c" and cval(b) == 0:
        return a
    if a.op == "neg" and b.op != "neg":
        return fsubt(b, a.args[0])
    if b.op == "neg":
        return fsubt(a, b.args[0])
    return mkf("add", *_ord(a, b))


def fsubt(a, b):
    if a.op == "c" and b.op == "c":
        r = _fold("-", a, b)
        if r is not None:
            return r
    if b.op == "c" and cval(b) == 0:
        return a
    if a.op == "c" and cval(a) == 0:
        return fneg(b)
    if b.op == "neg":
        return fadd(a, b.args[0])
    return mkf("sub", a, b)


def fneg(a):
    if a.op == "neg":
        return a.args[0]
    if a.op == "c":
        return fc(-cval(a))
    return mkf("neg", a)


def fmul(a, b):
    if a.op == "c" and b.op == "c":
        r = _fold("*", a, b)
        if r is not None:
            return r
    if (a.op == "c" and cval(a) == 0) or (b.op == "c" and cval(b) == 0):
        return fc(0.0)       # operands are finite (stated assumption)
    s = 0
    if a.op == "neg":
        a = a.args[0]
        s ^= 1
    if b.op == "neg":
        b = b.args[0]
        s ^= 1
    if a.op == "c" and cval(a) == 1.0:
        r = b
    elif b.op == "c" and cval(b) == 1.0:
        r = a
    else:
        for x, y in ((a, b), (b, a)):
            if x.op == "c" and cval(x) < 0:
                if cval(x) == -1.0:
                    return fneg(y) if not s else y
                x2 = fc(-cval(x))
                r = mkf("mul", *_ord(x2, y))
                return r if s else mkf("neg", r)
        r = mkf("mul", *_ord(a, b))
    return fneg(r) if s else r


def fdiv(a, b):
    if a.op == "c" and b.op == "c" and cval(b) != 0:
        r = _fold("/", a, b)
        if r is not None:
            return r
    s = 0
    if a.op == "neg":
        a = a.args[0]
        s ^= 1
    if b.op == "neg":
        b = b.args[0]
        s ^= 1
    if b.op == "c" and cval(b) == 1.0:
        r = a
    else:
        r = mkf("div", a, b)
    return fneg(r) if s else r


def i2f(p):
    if type(p) is int:
        return fc(float(p)) if abs(p) <= 2 ** 53 else mkf("i2f", p)
    return mkf("i2f", p)


_MATH1 = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan,
          "fabs": abs, "floor": math.floor, "ceil": math.ceil, "exp": math.exp, "log": math.log,
          "asin": math.asin, "acos": math.acos}


def ffn(name, *args):
    if name in ("sqrt", "fabs", "floor", "ceil") and args[0].op == "c":
        v = cval(args[0])
        if not (name == "sqrt" and v < 0):
            if name == "sqrt":
                r = math.sqrt(v)
                # keep sqrt symbolic: the real-number mode needs the exact value
                if r == int(r) and r * r == v:
                    return fc(r)
                return mkf("fn", name, *args)
            return fc(float(_MATH1[name](v)))
    if name == "fabs" and args[0].op in ("neg",):
        return ffn("fabs", args[0].args[0])
    if name == "fabs" and args[0].op == "fn" and args[0].args[0] in ("fabs", "sqrt"):
        return args[0]
    return mkf("fn", name, *args)


def fite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return mkf("ite", c, a, b)


def spec(name, *args):
    return mkf("spec", name, *args)


_SWAP = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}


def fcmp(pred, a, b):
    if pred == "true":
        return True
    if pred == "false":
        return False
    if pred in _SWAP:
        pred, a, b = _SWAP[pred], b, a
    if a.op == "c" and b.op == "c":
        x, y = cval(a), cval(b)
        return {"oeq": x == y, "ueq": x == y, "one": x != y, "une": x != y, "olt": x < y, "ult": x < y,
                "ole": x <= y, "ule": x <= y, "ord": True, "uno": False}[pred]
    # no NaN is assumed unless stated: unordered predicates are the ordered ones
    pred = {"ueq": "oeq", "une": "one", "ult": "olt", "ule": "ole"}.get(pred, pred)
    if pred == "ord":
        return True
    if pred == "uno":
        return False
    if a is b:
        return pred in ("oeq", "ole")
    if pred == "one":
        return bnot(fcmp("oeq", a, b))
    if pred == "oeq":
        return _mkb("fcmp", ("oeq",) + _ord(a, b))
    if pred == "ole":
        return bnot(_mkb("fcmp", ("olt", b, a)))
    return _mkb("fcmp", (pred, a, b))


def fsub(f, mp, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(f)
    if r is not None:
        return r
    o = f.op
    if o in ("c", "s"):
        r = f
    elif o == "ite":
        r = fite(bsub(f.args[0], mp, memo), fsub(f.args[1], mp, memo), fsub(f.args[2], mp, memo))
    else:
        args = tuple(anysub(x, mp, memo) for x in f.args)
        r = f if all(x is y or (type(x) == type(y) and x == y) for x, y in zip(args, f.args)) else frebuild(o, args)
    memo[f] = r
    return r


def frebuild(o, args):
    if o == "add":
        return fadd(*args)
    if o == "sub":
        return fsubt(*args)
    if o == "mul":
        return fmul(*args)
    if o == "div":
        return fdiv(*args)
    if o == "neg":
        return fneg(*args)
    if o == "i2f":
        return i2f(*args)
    if o == "fn":
        return ffn(*args)
    if o == "ite":
        return fite(*args)
    return mkf(o, *args)


def fstr(f, d=6):
    if not isinstance(f, F):
        return str(f)
    o, a = f.op, f.args
    if o == "c":
        return repr(a[0])
    if o == "s":
        return str(a[0])
    if d == 0:
        return "…"
    s = lambda x: fstr(x, d - 1) if isinstance(x, F) else str(x)
    if o in ("add", "sub", "mul", "div"):
        return "(" + s(a[0]) + {"add": " + ", "sub": " - ", "mul": "*", "div": "/"}[o] + s(a[1]) + ")"
    if o == "neg":
        return "-" + s(a[0])
    if o == "ite":
        return f"({bstr(a[0])} ? {s(a[1])} : {s(a[2])})"
    if o == "fn":
        return a[0] + "(" + ",".join(map(s, a[1:])) + ")"
    return o + "(" + ",".join(map(s, a)) + ")"


# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ("blk", "off")

    def __init__(self, blk, off=0):
        self.blk = blk
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.blk == o.blk and type(self.off) == type(o.off) and self.off == o.off

    def __hash__(self):
        return hash((self.blk, self.off))

    def __repr__(self):
        return f"&{self.blk}+{self.off}"


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class PInt:
    """integer made from a pointer"""
    __slots__ = ("ptr",)

    def __init__(self, p):
        self.ptr = p

    def __eq__(self, o):
        return isinstance(o, PInt) and o.ptr == self.ptr

    def __hash__(self):
        return hash(("pi", self.ptr))


class Agg:
    """first-class aggregate"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


UNDEF = object()
