"""Modular contracts of StorageImplementation<L>: the slice-start function of a layout is an
uninterpreted integer function S(L, rows, cols, i) about which only the lemmas below are used.
The methods' bodies are verified against the closed forms, and the lemmas are proved for the closed
forms, in props/c01.py (run as dependencies of every check that uses these contracts)."""
from . import terms as T, layouts as LY
from .terms import *
from .loops import View
from .exec import INLINE


def norm(L, r, c):
    return (r, r) if L in LY.SQUARE else (r, c)


def ns(L, r, c):
    return r if LY.ROWMAJOR[L] else c


def S(L, r, c, i):
    if type(r) is int and type(c) is int and type(i) is int:
        return LY.slice0(L, r, c, i)
    if type(i) is int and i == 0:
        return 0
    r, c = norm(L, r, c)
    return mk_atom("uf", ("S_" + L, r, c, i))


T.REBUILD["S_"] = lambda a: S(a[0][2:], *a[1:])


def N(L, r, c):
    r, c = norm(L, r, c)
    return S(L, r, c, ns(L, r, c))


DM = 46340


def dims_ok(L, r, c):
    """the dimensions for which the contracts are claimed (every element count fits an int)"""
    if L in LY.SQUARE:
        return band(ble(0, r), ble(r, DM), beq(r, c))
    return band(ble(0, r), ble(r, DM), ble(0, c), ble(c, DM))


def pos(L, i, j):
    if LY.ROWMAJOR[L]:
        return i, j
    return j, (i - j if L == "LwTriangularColWise" else i)


def unpos(L, s, p):
    if LY.ROWMAJOR[L]:
        return s, p
    return (p + s if L == "LwTriangularColWise" else p), s


def index(L, r, c, i, j):
    s, p = pos(L, i, j)
    return S(L, r, c, s) + p


def lemmas(atoms, stage):
    groups = {}
    for a in atoms:
        at = ATOMS[a]
        if at.kind == "uf" and at.args[0].startswith("S_"):
            groups.setdefault(at.args[:3], []).append((at.args[3], Poly({(a,): 1})))
    out = []
    gl = list(groups.items())
    for (nm, r, c), l in gl:
        L = nm[2:]
        n = ns(L, r, c)
        k0 = len(out)
        l = list(l)
        if not any(i == n for i, _ in l):
            v = S(L, r, c, n)
            l.append((n, v))
        end = [v for i, v in l if i == n][0]
        if not any(type(i) is int and i == 0 for i, _ in l):
            l.append((0, 0))
        out.append(ble(0, end))
        out.append(ble(end, LY.IMAX))
        if L in LY.SQUARE:
            emp = beq(r, 0)
        else:
            emp = bor(beq(r, 0), beq(c, 0))
        out.append(bor(bnot(emp), beq(end, 0)))
        out.append(bor(emp, ble(1, end)))
        for i, v in l:
            ok = band(ble(0, i), ble(i, n))
            out.append(bimp(ok, band(ble(0, v), ble(v, end))))
            out.append(bimp(beq(i, 0), beq(v, 0)))
            if stage == 2:
                out.append(bimp(ok, beq(v, LY.slice0(L, r, c, i))))
        for x in range(len(l)):
            for y in range(len(l)):
                if x == y:
                    continue
                i1, v1 = l[x]
                i2, v2 = l[y]
                e1 = v1 + LY.slicelen(L, r, c, i1)
                out.append(bimp(band(ble(0, i1), blt(i1, i2), ble(i2, n)), ble(e1, v2)))
                if x < y:
                    out.append(bimp(beq(i1, i2), beq(v1, v2)))
                d = i2 - i1
                if d == 1 or not isinstance(d, int):
                    out.append(bimp(band(ble(0, i1), beq(i2, i1 + 1), ble(i2, n)), beq(e1, v2)))
        g = dims_ok(L, r, c)
        if g is not True:
            out[k0:] = [bimp(g, x) for x in out[k0:]]
    # same layout, provably different dimension terms that may be equal
    for x in range(len(gl)):
        for y in range(x + 1, len(gl)):
            (n1, r1, c1), l1 = gl[x]
            (n2, r2, c2), l2 = gl[y]
            if n1 != n2:
                continue
            for i1, v1 in l1:
                for i2, v2 in l2:
                    out.append(bimp(band(beq(r1, r2), beq(c1, c2), beq(i1, i2)), beq(v1, v2)))
    return [x for x in out if x is not True]


def view(L, r, c, rhs=None, name=None):
    def dom(k):
        return LY.stored(L, r, c, k[0], k[1])

    def idx(k):
        return index(L, r, c, k[0], k[1])
    key = ("S_" + L,) + norm(L, r, c)

    def decode(p):
        out = []
        if type(p) is int and type(r) is int and type(c) is int:
            for k in LY.cells(L, r, c):
                if LY.index(L, r, c, *k) == p:
                    return [k]
            return []
        if isinstance(p, Poly):
            for m, co in p.t.items():
                if len(m) == 1 and co == 1:
                    at = ATOMS[m[0]]
                    if at.kind == "uf" and at.args[:3] == key:
                        out.append(unpos(L, at.args[3], p - Poly({m: 1})))
        if not out:
            out.append(unpos(L, 0, p))
        return out
    return View(name or L, ("i", "j"), dom, idx, decode, rhs,
                enum=(lambda: LY.cells(L, r, c)) if type(r) is int and type(c) is int else None)


# ------------------------------------------------------------------ summaries
ENUM = {"RowWise": 0, "ColumnWise": 1, "Trapezoid": 2, "LwTriangularRowWise": 3, "LwTriangularColWise": 4}


def concrete(mod, fn, mkargs):
    """run fn concretely; returns (end state, args)"""
    from .exec import Exec, State
    from .smt import Smt
    ex = Exec(mod, Smt(), {})
    st = State()
    args = mkargs(ex, st)
    ends = []
    ex.start(st, fn, args)
    ex.run(st, lambda s: ends.append(s))
    if len(ends) != 1 or ends[0].status != "ret":
        return None, args
    return ends[0], args


def install(K, L, layout):
    """layout: {'r': off, 'c': off} relative to the storage object"""
    ex = K.ex
    pre = f"_ZNK3dso21StorageImplementationILNS_17MatrixStorageTypeE{ENUM[L]}EE"
    if hooked(ex.smt) is False:
        ex.smt.hooks.append(lemmas)

    def dims(st, p):
        b = st.mem.get(p.blk)
        if b is None or not isinstance(p.off, int):
            return None
        r = b.cells.get(p.off + layout["r"])
        c = b.cells.get(p.off + layout.get("c", layout["r"]))
        if r is None or c is None or not is_int(r[1]) or not is_int(c[1]):
            return None
        return r[1], c[1]

    def go(f):
        def h(X, st, fr, i, args):
            d = dims(st, args[0])
            if d is None or (K.concrete and type(d[0]) is int and type(d[1]) is int):
                return INLINE
            if not X.smt.entails(st.pc, dims_ok(L, *d)):
                return INLINE
            return f(X, st, d, args)
        return h

    def slice1(X, st, d, args):
        i = args[1]
        if not is_int(i) or not X.smt.entails(st.pc, band(ble(0, i), blt(i, ns(L, *d)))):
            return INLINE
        return S(L, d[0], d[1], i)

    def slice2(X, st, d, args):
        i = args[1]
        if not is_int(i) or not X.smt.entails(st.pc, band(ble(0, i), blt(i, ns(L, *d)))):
            return INLINE
        X.store(st, args[2], LY.slicelen(L, d[0], d[1], i), 4, None)
        return S(L, d[0], d[1], i)

    def num(X, st, d, args):
        return N(L, *d)

    def ix(X, st, d, args):
        i, j = args[1], args[2]
        if not is_int(i) or not is_int(j) or not X.smt.entails(st.pc, LY.stored(L, d[0], d[1], i, j)):
            return INLINE
        return index(L, d[0], d[1], i, j)
    for nm, f in (("5sliceEi", slice1), ("5sliceEiRi", slice2), ("12num_elementsEv", num), ("5indexEii", ix)):
        ex.ext[pre + nm] = go(f)


def hooked(smt):
    return lemmas in smt.hooks
