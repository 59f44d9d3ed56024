"""Contracts of StokesCoeffs (C05 consistency, C06 add/scale/clear, C07 packing)."""
from vc.contract import Contract
from vc import layouts as LY, slices as SL
from vc.exec import Unsupported, Ptr, NULL
from vc.loops import flat_view, View
from vc.terms import *
from . import matrix as MX

HARNESS = "v_stokes.cpp"
L = "LwTriangularColWise"
_lay = {}
COV = lambda *n: ["StokesCoeffs::" + x for x in n]


def layout(K):
    mod = K.ex.mod
    if id(mod) in _lay:
        return _lay[id(mod)]
    e, _ = SL.concrete(mod, "vc_sz", lambda ex, st: [])
    size = e.ret
    g, r = fsym("gm0"), fsym("re0")

    def mk(ex, st):
        b = ex.new_block(st, "c", size, "o")
        return [Ptr(b.id, 0), 7, 5, g, r]
    e, a = SL.concrete(mod, "vc_ctor4", mk)
    if e is None:
        raise Unsupported("constructor of StokesCoeffs")
    cells = e.mem[a[0].blk].cells

    def mk2(ex, st):
        b = ex.new_block(st, "c", size, "o")
        o = ex.new_block(st, "c", 40, "p")
        return [Ptr(b.id, 0), Ptr(o.id, 0)]
    e2, a2 = SL.concrete(mod, "vc_parts", mk2)
    if e2 is None:
        raise Unsupported("accessors of StokesCoeffs")
    R = {"size": size}
    for i, n in enumerate(("C", "S", "gm", "re", "norm")):
        p = e2.mem[a2[1].blk].cells[8 * i][1]
        if not isinstance(p, Ptr) or p.blk != a2[0].blk:
            raise Unsupported("part outside the object")
        R[n] = p.off
    ms = MX.roles(mod, L)["size"]
    ins = lambda o: any(R[n] <= o < R[n] + ms for n in "CS")
    for off, (sz, v) in cells.items():
        if ins(off) or off in (R["gm"], R["re"], R["norm"]):
            continue
        k = "deg" if v == 7 and type(v) is int else "ord" if v == 5 and type(v) is int else None
        if k is None or k in R:
            raise Unsupported(f"unknown StokesCoeffs field at {off}")
        R[k] = off
    if "deg" not in R or "ord" not in R:
        raise Unsupported("degree/order fields")
    R["nsz"] = cells[R["norm"]][0]
    _lay[id(mod)] = R
    return R


class Stk:
    pass


DEG = SL.DM - 1


def stk(K, name, variant="own"):
    """a set in an arbitrary valid state: degree d, order o <= d, both matrices r x r with r > d
    (variant 'moved': what a move leaves behind -- metadata arbitrary, no elements)"""
    R = layout(K)
    s = Stk()
    s.name, s.variant = name, variant
    s.p = K.cells(name, R["size"])
    s.d = K.int(name + "d", 0, DEG)
    s.o = K.int(name + "o", 0, DEG)
    K.assume(ble(s.o, s.d))
    if variant == "own":
        s.r = K.int(name + "r", 1, SL.DM)
        K.assume(blt(s.d, s.r))
    else:
        s.r = 0
    s.gm, s.re = K.real(name + "gm"), K.real(name + "re")
    K.put(s.p, R["gm"], 8, s.gm)
    K.put(s.p, R["re"], 8, s.re)
    K.put(s.p, R["deg"], 4, s.d)
    K.put(s.p, R["ord"], 4, s.o)
    s.norm = K.int(name + "nrm", 0, 1)
    K.put(s.p, R["norm"], R["nsz"], s.norm)
    v = "own" if variant == "own" else "null"
    s.C = MX.mat(K, L, name + "C", v, dims=(s.r, s.r), obj=Ptr(s.p.blk, R["C"]))
    s.S = MX.mat(K, L, name + "S", v, dims=(s.r, s.r), obj=Ptr(s.p.blk, R["S"]))
    s.N = s.C.N
    return s


def meta(K, st, p, what, d, o, gm, re, norm=None):
    R = layout(K)
    g = lambda k: K.get(st, p, p.off + R[k])
    for k, v in (("deg", d), ("ord", o)):
        x = g(k)
        K.ensure(st, f"{what}: {'degree' if k == 'deg' else 'order'}", beq(x, v) if is_int(x) else False)
    K.ensure_f(st, f"{what}: GM", g("gm"), gm)
    K.ensure_f(st, f"{what}: radius", g("re"), re)
    if norm is not None:
        x = g("norm")
        K.ensure(st, f"{what}: normalisation flag", (beq(x, norm) if is_int(x) else False))


def storage(K, st, p, d, what):
    """both matrices: square, more rows than the degree, buffer large enough, owned, not shared"""
    R = layout(K)
    out = []
    for n in "CS":
        q = Ptr(p.blk, p.off + R[n])
        m = MX.inv(K, L, st, q, f"{what}: {n}")
        out.append(m)
        if m is not None:
            K.ensure(st, f"{what}: storage for every {n}(n,m), m <= n <= degree", ble(d + 1, m.r))
    return out


def owned(K, st, ps, moved=()):
    R = layout(K)
    bl = []
    for p in ps:
        for n in "CS":
            m = MX.fields(K, L, st, Ptr(p.blk, p.off + R[n]))
            if isinstance(m.data, Ptr) and m.data.blk:
                bl.append(m.data.blk)
    K.ensure(st, "no two coefficient buffers are shared", len(set(bl)) == len(bl))
    heap = [b for b in st.mem.values() if b.heap]
    K.ensure(st, "no leaked buffer", len(heap) <= len(bl))


def coefs(K, st, p, name, fn, d, what, kind="kept"):
    """C(n,m) and S(n,m), m <= n <= d, equal fn(which matrix, n, m) -> [(cond, F)]"""
    R = layout(K)
    for n in "CS":
        q = Ptr(p.blk, p.off + R[n])
        m = MX.fields(K, L, st, q)
        if not isinstance(m.data, Ptr) or m.data.blk == 0 or st.mem.get(m.data.blk) is None or not is_int(m.r):
            K.ensure(st, f"{what}: {n} has its buffer", False)
            continue
        v = SL.view(L, d + 1, d + 1)

        def one(k, n=n, m=m):
            r = fn(n, k)
            if r is None:
                return None
            cond, val = r
            return (K.aget(st, m.data, SL.index(L, m.r, m.r, *k)), val, cond)
        K.forall_cells(st, f"{what}: {n}(n,m) {kind}", v, one)


def rd(s, n, k):
    m = s.C if n == "C" else s.S
    return mkf("rd", "d" + m.name, SL.index(L, s.r, s.r, *k))


def unchanged(K, st, s, what):
    meta(K, st, s.p, what, s.d, s.o, s.gm, s.re, s.norm)
    R = layout(K)
    for n, m in (("C", s.C), ("S", s.S)):
        MX.same_obj(K, L, st, m, f"{what}: {n}")


# ------------------------------------------------------------------ samples
def ssmp(names, variants=None, extra=None, seed=5, n=24, big=5):
    import random
    rnd = random.Random(seed)
    out = []
    for t in range(n):
        d = {}
        for i, nm in enumerate(names):
            v = variants[i] if variants else "own"
            deg = rnd.randint(0, big) if t > 3 else t
            d[nm + "d"] = deg
            d[nm + "o"] = rnd.randint(0, deg)
            d[nm + "nrm"] = t % 2
            if v == "own":
                r = deg + 1 + (rnd.randint(0, 2) if t % 2 else 0)
                d[nm + "r"] = r
                for q in "CS":
                    x = "ACASBCBS".index(nm + q) if nm in "AB" else 0
                    d[nm + q + "cap"] = LY.nelem(L, r, r) + (t * (3 + x) // 2 + x) % 4
                    d[nm + q + "len"] = d[nm + q + "cap"] + (t + x // 2) % 3
        if extra:
            out += [dict(d, **e) for e in extra(d, rnd)]
        else:
            out.append(d)
    return out


OP = {"only_posts": True}


def c05():
    out = []

    def add(nm, fn, setup, post, samples, cov, **kw):
        o = dict(mode="uf")
        o.update(kw)
        out.append(Contract(nm, fn, setup, post, samples, covers=COV(*cov), **o))

    # ---- construct
    def s_c(K, how):
        R = layout(K)
        MX.setup_layout(K, L)
        K.o = K.cells("o", R["size"])
        if how == "d":
            K.n = K.m = 0
            return [K.o]
        K.n = K.int("n", 0, DEG)
        if how == "1":
            K.m = K.n
            return [K.o, K.n]
        K.m0 = K.int("m", -1, DEG)
        K.assume(ble(K.m0, K.n))
        K.gm, K.re = K.real("gm"), K.real("re")
        return [K.o, K.n, K.m0, K.gm, K.re]

    def p_c(K, st, how):
        K.ensure(st, "returns", st.status == "ret")
        R = layout(K)
        g, r = (K.gm, K.re) if how == "4" else (K.get(st, K.o, R["gm"]), K.get(st, K.o, R["re"]))
        if how == "4":
            x = K.get(st, K.o, R["ord"])
            K.ensure(st, "new set: order", (beq(x, iite(blt(K.m0, 0), K.n, K.m0))) if is_int(x) else False)
            K.m = x
        else:
            K.ensure(st, "default GM and radius are set", isinstance(g, F) and isinstance(r, F))
        meta(K, st, K.o, "new set", K.n, K.m, g, r)
        storage(K, st, K.o, K.n, "new set")
        owned(K, st, [K.o])
    add("default construct", "vc_dflt", lambda K: s_c(K, "d"), lambda K, st: p_c(K, st, "d"), [dict()], ["StokesCoeffs()"])
    add("construct(degree)", "vc_ctor1", lambda K: s_c(K, "1"), lambda K, st: p_c(K, st, "1"), [dict(n=n) for n in range(5)], ["StokesCoeffs(int)"])
    add("construct(degree,order,GM,Re)", "vc_ctor4", lambda K: s_c(K, "4"), lambda K, st: p_c(K, st, "4"),
        [dict(n=n, m=m) for n in range(4) for m in range(-1, n + 1)], ["StokesCoeffs(int,int,double,double)"])

    # ---- copy, move, destroy
    for var in ("own", "moved"):
        vs = "" if var == "own" else "/moved-from"

        def s_1(K, var=var):
            K.a = stk(K, "A", var)
            return [K.a.p]

        def p_d(K, st):
            K.ensure(st, "returns", st.status == "ret")
            K.ensure(st, "every buffer is released", not [b for b in st.mem.values() if b.heap])
        add("destroy" + vs, "vc_dtor", s_1, p_d, ssmp(["A"], [var]), ["~StokesCoeffs"])

        def s_2(K, var=var):
            K.a = stk(K, "A", var)
            K.b = stk(K, "B")
            return [K.a.p, K.b.p]

        def p_ca(K, st):
            K.ensure(st, "returns", st.status == "ret")
            b = K.b
            meta(K, st, K.a.p, "target", b.d, b.o, b.gm, b.re, b.norm)
            storage(K, st, K.a.p, b.d, "target")
            coefs(K, st, K.a.p, "A", lambda n, k: (True, rd(b, n, k)), b.d, "target", "copied")
            unchanged(K, st, b, "source")
            owned(K, st, [K.a.p, b.p])

        def p_ma(K, st):
            K.ensure(st, "returns", st.status == "ret")
            b = K.b
            meta(K, st, K.a.p, "target", b.d, b.o, b.gm, b.re, b.norm)
            storage(K, st, K.a.p, b.d, "target")
            coefs(K, st, K.a.p, "A", lambda n, k: (True, rd(b, n, k)), b.d, "target", "moved")
            owned(K, st, [K.a.p, b.p])
        sm = ssmp(["A", "B"], [var, "own"])
        add("copy-assign" + vs, "vc_cassign", s_2, p_ca, sm, ["operator=(const&)"])
        add("move-assign" + vs, "vc_massign", s_2, p_ma, sm, ["operator=(&&)"])

        def p_sw(K, st, var=var):
            K.ensure(st, "returns", st.status == "ret")
            a, b = K.a, K.b
            meta(K, st, a.p, "first", b.d, b.o, b.gm, b.re, b.norm)
            meta(K, st, b.p, "second", a.d, a.o, a.gm, a.re, a.norm)
            storage(K, st, a.p, b.d, "first")
            coefs(K, st, a.p, "A", lambda n, k: (True, rd(b, n, k)), b.d, "first", "swapped")
            if var == "own":
                storage(K, st, b.p, a.d, "second")
                coefs(K, st, b.p, "B", lambda n, k: (True, rd(a, n, k)), a.d, "second", "swapped")
            owned(K, st, [a.p, b.p])
        add("swap" + vs, "vc_swap", s_2, p_sw, sm, ["swap"])
        add("swap(a,b)" + vs, "vc_fswap", s_2, p_sw, sm, ["swap(a,b)"])

        # ---- resize
        for op in ("resize", "cresize"):
            def s_r(K, var=var):
                K.a = stk(K, "A", var)
                K.n = K.int("n", 0, DEG)
                K.m = K.int("m", 0, DEG)
                K.assume(ble(K.m, K.n))
                return [K.a.p, K.n, K.m]

            def p_r(K, st, op=op, var=var):
                K.ensure(st, "returns", st.status == "ret")
                a = K.a
                meta(K, st, a.p, "set", K.n, K.m, a.gm, a.re, a.norm)
                storage(K, st, a.p, K.n, "set")
                if op == "cresize" and var == "own":
                    coefs(K, st, a.p, "A", lambda n, k: (ble(k[0], a.d), rd(a, n, k)), K.n, "set", "kept")
                owned(K, st, [a.p])

            def hv(K, bk, op=op, var=var):
                if op != "cresize" or bk[0] != "H" or var != "own":
                    return None
                a = K.a
                which = K.hvorder = getattr(K, "hvorder", {})
                src = lambda n: (lambda k: rd(a, n, k), lambda k: LY.stored(L, a.r, a.r, *k))
                return [SL.view(L, K.n + 1, K.n + 1, {"C": src("C"), "S": src("S")}), flat_view(SL.N(L, K.n + 1, K.n + 1))]
            ext = lambda d, rnd: [dict(n=n, m=rnd.randint(0, n)) for n in (0, 1, 2, 3, 5)]
            add(op + vs, "vc_" + op, s_r, p_r, ssmp(["A"], [var], ext, n=10), [op], heap_view=hv)

    def s_self(K):
        K.a = stk(K, "A")
        return [K.a.p, K.a.p]

    def p_self(K, st):
        K.ensure(st, "returns", st.status == "ret")
        unchanged(K, st, K.a, "set")
        storage(K, st, K.a.p, K.a.d, "set")
        owned(K, st, [K.a.p])
    for nm, fn, c in (("self-copy-assign", "vc_cassign", "operator=(const&)"), ("self-move-assign", "vc_massign", "operator=(&&)"),
                      ("self-swap", "vc_swap", "swap")):
        add(nm, fn, s_self, p_self, ssmp(["A"]), [c])

    def s_cc(K):
        K.o = K.cells("o", layout(K)["size"])
        K.b = stk(K, "B")
        return [K.o, K.b.p]

    def p_cc(K, st, mv):
        K.ensure(st, "returns", st.status == "ret")
        b = K.b
        meta(K, st, K.o, "new set", b.d, b.o, b.gm, b.re, b.norm)
        storage(K, st, K.o, b.d, "new set")
        coefs(K, st, K.o, "o", lambda n, k: (True, rd(b, n, k)), b.d, "new set", "moved" if mv else "copied")
        if not mv:
            unchanged(K, st, b, "source")
        owned(K, st, [K.o, b.p])
    add("copy-construct", "vc_cctor", s_cc, lambda K, st: p_cc(K, st, False), ssmp(["B"]), ["StokesCoeffs(const&)"])
    add("move-construct", "vc_mctor", s_cc, lambda K, st: p_cc(K, st, True), ssmp(["B"]), ["StokesCoeffs(&&)"])

    # ---- shrink
    def s_sh(K):
        K.a = stk(K, "A")
        K.n = K.int("n", 0, 1 << 30)
        K.m = K.int("m", 0, 1 << 30)
        return [K.a.p, K.n, K.m]

    def p_sh(K, st):
        K.ensure(st, "returns", st.status == "ret")
        a = K.a
        ok = band(ble(K.m, K.n), ble(K.n, a.d), ble(K.m, a.o))
        rc = st.ret
        K.ensure(st, "accepted exactly when contained", band(bimp(ok, beq(rc, 0)), bimp(beq(rc, 0), ok)) if is_int(rc) else False)
        R = layout(K)
        for k, new, old in (("deg", K.n, a.d), ("ord", K.m, a.o)):
            x = K.get(st, a.p, R[k])
            K.ensure(st, "shrunk " + k, beq(x, iite(ok, new, old)) if is_int(x) else False)
        K.ensure_f(st, "GM unchanged", K.get(st, a.p, R["gm"]), a.gm)
        K.ensure_f(st, "radius unchanged", K.get(st, a.p, R["re"]), a.re)
        storage(K, st, a.p, a.d, "set")
        for m, n in ((a.C, "C"), (a.S, "S")):
            MX.same_obj(K, L, st, m, n)
        owned(K, st, [a.p])
    add("shrink", "vc_shrink", s_sh, p_sh, ssmp(["A"], None, lambda d, rnd: [dict(n=n, m=m) for n in range(4) for m in range(4)][::3], n=8), ["shrink_dimensions"])

    # ---- access
    for fn in ("C", "S", "cC", "cS"):
        def s_at(K):
            K.a = stk(K, "A")
            K.n = K.int("n", 0, DEG)
            K.m = K.int("m", 0, DEG)
            K.assume(band(ble(K.m, K.n), ble(K.n, K.a.d)))
            return [K.a.p, K.n, K.m]

        def p_at(K, st, fn=fn):
            K.ensure(st, "returns", st.status == "ret")
            a = K.a
            m = a.C if fn[-1] == "C" else a.S
            ix = SL.index(L, a.r, a.r, K.n, K.m)
            if fn[0] == "c":
                K.ensure_f(st, "coefficient", st.ret, rd(a, fn[-1], (K.n, K.m)))
            else:
                p = st.ret
                K.ensure(st, "element of its own matrix", isinstance(p, Ptr) and p.blk == m.data.blk and beq(p.off, 8 * ix))
                K.ensure(st, "inside the buffer", band(ble(0, ix), blt(ix, a.N)))
        add("access " + fn, "vc_" + fn, s_at, p_at, ssmp(["A"], None, lambda d, rnd: [dict(n=n, m=rnd.randint(0, n)) for n in range(d["Ad"] + 1)]), ["C/S"])

    def s_g(K):
        K.a = stk(K, "A")
        K.q = [K.cells(f"q{i}", 16) for i in range(4)]
        return [K.a.p] + K.q

    def p_g(K, st):
        K.ensure(st, "returns", st.status == "ret")
        a, q = K.a, K.q
        R = layout(K)
        K.ensure(st, "max_degree()", beq(K.get(st, q[0], 0), a.d))
        K.ensure(st, "max_order()", beq(K.get(st, q[0], 4), a.o))
        K.ensure_f(st, "GM()", K.get(st, q[1], 0), a.gm)
        K.ensure_f(st, "Re()", K.get(st, q[1], 8), a.re)
        for i, n in enumerate("CS"):
            p = K.get(st, q[3], 8 * i)
            K.ensure(st, f"{n}nm()", isinstance(p, Ptr) and p.blk == a.p.blk and p.off == R[n])
        unchanged(K, st, a, "set")
    add("accessors", "vc_get", s_g, p_g, ssmp(["A"]), ["max_degree", "max_order", "GM", "Re", "Cnm", "Snm"])

    def s_j(K):
        K.a = stk(K, "A")
        K.assume(ble(2, K.a.d))
        return [K.a.p]

    def p_j(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f(st, "J2 = -C(2,0)", st.ret, fneg(rd(K.a, "C", (2, 0))))
    add("J2", "vc_j2", s_j, p_j, [s for s in ssmp(["A"], n=40) if s["Ad"] >= 2], ["J2"])
    return out


# ------------------------------------------------------------------ C06
def c06():
    out = []

    def add(nm, fn, setup, post, samples, cov, **kw):
        o = dict(mode="real")
        o.update(kw)
        out.append(Contract(nm, fn, setup, post, samples, covers=COV(*cov), **o))

    def s_add(K, fits, alias=False):
        K.a = stk(K, "A")
        K.b = K.a if alias else stk(K, "B")
        K.focus = [K.b.name + "d", K.b.name + "o"]
        ok = band(ble(K.b.d, K.a.d), ble(K.b.o, K.a.o))
        K.assume(ok if fits else bnot(ok))
        b = K.b
        K.ins = lambda k: band(ble(k[0], b.d), ble(k[1], b.o))
        K.fin = lambda n: (lambda k: fadd(rd(K.a, n, k), rd(b, n, k)))
        if fits:
            for n, m in (("C", K.a.C), ("S", K.a.S)):
                blk = K.st.mem[m.data.blk]
                K.views[blk.key] = [SL.view(L, K.a.r, K.a.r, {"final": (K.fin(n), K.ins)}), flat_view(m.len)]
        return [K.a.p, K.b.p]

    def p_add(K, st, fits, alias=False):
        a, b = K.a, K.b
        if not fits:
            K.ensure(st, "is rejected with an error", st.status == "throw")
            unchanged(K, st, a, "target")
            unchanged(K, st, b, "argument")
            owned(K, st, [a.p, b.p])
            return
        K.ensure(st, "returns", st.status == "ret")
        K.ensure(st, "returns the target", isinstance(st.ret, Ptr) and st.ret.blk == a.p.blk and st.ret.off == 0)
        meta(K, st, a.p, "target", a.d, a.o, a.gm, a.re, a.norm)
        R = layout(K)
        for n in "CS":
            def f(k, n=n):
                if k is None:
                    return 2
                ins = K.ins(k)
                return [(ins, K.fin(n)(k), "in"), (bnot(ins), rd(a, n, k), "out")]
            MX.cells_is(K, L, st, Ptr(a.p.blk, R[n]), a.r, a.r, f, "target " + n, "argument's terms added / every other term unchanged")
        if not alias:
            unchanged(K, st, b, "argument")
    import random
    fit = [s for s in ssmp(["A", "B"], None, None, seed=11, n=200) if s["Bd"] <= s["Ad"] and s["Bo"] <= s["Ao"]][:36]
    fit += [dict(s, Ad=4, Ao=3, Ar=6, ACcap=21, AClen=21, AScap=21, ASlen=22, Bd=3, Bo=2, Br=5, BCcap=15, BClen=15, BScap=15, BSlen=15) for s in fit[:1]]
    unf = [s for s in ssmp(["A", "B"], None, None, seed=12, n=100) if not (s["Bd"] <= s["Ad"] and s["Bo"] <= s["Ao"])][:12]
    o = dict(opts=dict(OP))
    add("add", "vc_add", lambda K: s_add(K, True), lambda K, st: p_add(K, st, True), fit, ["operator+="], timeout=300, **o)
    add("add/to itself", "vc_add", lambda K: s_add(K, True, True), lambda K, st: p_add(K, st, True, True), ssmp(["A"], n=24), ["operator+="], timeout=300, **o)
    add("add/does not fit", "vc_add", lambda K: s_add(K, False), lambda K, st: p_add(K, st, False), unf, ["operator+="])

    for op in ("scale", "clear"):
        def s_sc(K, op=op):
            K.a = stk(K, "A")
            K.f = K.real("f")
            K.fin = lambda n, k: fmul(mkf("rd", "d" + n.name, k), K.f) if op == "scale" else fc(0.0)
            for m in (K.a.C, K.a.S):
                blk = K.st.mem[m.data.blk]
                K.views[blk.key] = [flat_view(m.len, {"final": (lambda k, m=m: K.fin(m, k[0]), lambda k, m=m: blt(k[0], m.N))})]
            return [K.a.p] + ([K.f] if op == "scale" else [])

        def p_sc(K, st):
            K.ensure(st, "returns", st.status == "ret")
            a = K.a
            meta(K, st, a.p, "set", a.d, a.o, a.gm, a.re, a.norm)
            R = layout(K)
            for n, m in (("C", a.C), ("S", a.S)):
                def one(k, m=m):
                    return (True, K.fin(m, SL.index(L, a.r, a.r, *k)))
                coefs(K, st, a.p, "A", lambda nn, k: (True, K.fin(a.C if nn == "C" else a.S, SL.index(L, a.r, a.r, *k))), a.d, "set", "every coefficient")
            owned(K, st, [a.p])
        add(op, "vc_" + op, s_sc, p_sc, ssmp(["A"], n=16), [op])
    return out


# ------------------------------------------------------------------ C07
class Emat:
    pass


_em = {}


def eroles(K):
    mod = K.ex.mod
    if id(mod) not in _em:
        e, _ = SL.concrete(mod, "vc_msz", lambda ex, st: [])
        size = e.ret

        def mk(ex, st):
            b = ex.new_block(st, "c", size, "o")
            return [Ptr(b.id, 0), 5, 3]
        e, a = SL.concrete(mod, "vc_mmk", mk)
        if e is None:
            raise Unsupported("Eigen matrix constructor")
        R = {"size": size}
        for off, (sz, v) in e.mem[a[0].blk].cells.items():
            R["data" if isinstance(v, Ptr) else "r" if v == 5 else "c"] = off
        _em[id(mod)] = R
    return _em[id(mod)]


CWL = "ColumnWise"


def eview(R, rhs=None):
    """R x R Eigen matrix: column-wise layout"""
    return SL.view(CWL, R, R, rhs, name="anm")


def estride(K):
    if SL.lemmas not in K.ex.smt.hooks:
        K.ex.smt.hooks.append(SL.lemmas)
    if not K.concrete:
        K.ex.strides.append((K.R, lambda x: SL.S(CWL, K.R, K.R, x)))


def c07():
    out = []

    def s_pack(K):
        K.a = stk(K, "A")
        K.e = K.cells("e", eroles(K)["size"])
        K.R = K.a.d + 1
        estride(K)
        a = K.a

        def fin(k):
            i, j = k
            s = rd(a, "S", (j, i + 1))
            c = rd(a, "C", (i, j))
            return fite(blt(i, j), s, c) if not isinstance(blt(i, j), bool) else (s if blt(i, j) else c)
        K.fin = fin
        K.focus = ["Ad"]
        return [a.p, K.e]

    def hv_pack(K, bk):
        if bk[0] != "H":
            return None
        fv = flat_view(SL.N(CWL, K.R, K.R), {"zero": lambda k: fc(0.0)})
        fv.alone = True
        return [eview(K.R, {"final": K.fin}), fv]

    def p_pack(K, st):
        K.ensure(st, "returns", st.status == "ret")
        E = eroles(K)
        a = K.a
        r, c, p = K.get(st, K.e, E["r"]), K.get(st, K.e, E["c"]), K.get(st, K.e, E["data"])
        K.ensure(st, "packed matrix has degree + 1 rows", beq(r, K.R) if is_int(r) else False)
        K.ensure(st, "packed matrix has degree + 1 columns", beq(c, K.R) if is_int(c) else False)
        K.ensure(st, "packed matrix has its buffer", isinstance(p, Ptr) and p.blk != 0 and st.mem.get(p.blk) is not None)
        v = eview(K.R)
        K.forall_cells(st, "C below and on, S above the diagonal", v, lambda k: (K.aget(st, p, v.idx(k)), K.fin(k)))
        unchanged(K, st, a, "set")
    out.append(Contract("pack", "vc_pack", s_pack, p_pack, ssmp(["A"], n=16), mode="uf", covers=COV("to_anm"), heap_view=hv_pack, timeout=300,
                        opts=dict(OP)))

    def s_un(K, order):
        K.o = K.cells("o", layout(K)["size"])
        MX.setup_layout(K, L)
        E = eroles(K)
        K.d = K.int("d", 0, DEG)
        K.R = K.d + 1
        estride(K)
        K.focus = ["d"]
        K.e = K.cells("e", E["size"])
        K.data = K.array("anm", SL.N(CWL, K.R, K.R), heap="malloc")
        K.put(K.e, E["data"], 8, K.data)
        K.put(K.e, E["r"], 8, K.R)
        K.put(K.e, E["c"], 8, K.R)
        v = eview(K.R)
        an = lambda i, j: mkf("rd", "anm", v.idx((i, j)))

        def fin(n, k):
            if n == "C":
                return an(k[0], k[1])
            z = beq(k[1], 0)
            if z is True:
                return fc(0.0)
            x = an(k[1] - 1, k[0])
            return x if z is False else fite(z, fc(0.0), x)
        K.fin = fin
        if order:
            K.m = K.int("m", 0, DEG)
            K.assume(ble(K.m, K.d))
            return [K.o, K.e, K.m]
        K.m = K.d
        return [K.o, K.e]

    def hv_un(K, bk):
        if bk[0] != "H":
            return None
        return [SL.view(L, K.R, K.R, {"C": lambda k: K.fin("C", k), "S": lambda k: K.fin("S", k), "zero": lambda k: fc(0.0)}),
                flat_view(SL.N(L, K.R, K.R), {"zero": lambda k: fc(0.0)})]

    def p_un(K, st):
        K.ensure(st, "returns", st.status == "ret")
        R = layout(K)
        meta(K, st, K.o, "set", K.d, K.m, K.get(st, K.o, R["gm"]), K.get(st, K.o, R["re"]))
        storage(K, st, K.o, K.d, "set")
        coefs(K, st, K.o, "o", lambda n, k: (True, K.fin(n, k)), K.d, "set", "from the packed matrix (S(n,0) = 0)")
        v = eview(K.R)
        K.forall_cells(st, "packed matrix unchanged", v, lambda k: (K.aget(st, K.data, v.idx(k)), mkf("rd", "anm", v.idx(k))))
    for order in (False, True):
        sm = [dict(d=d, **({"m": m} if order else {})) for d in range(7) for m in ((0, d // 2, d) if order else (0,)) if m <= d]
        out.append(Contract("unpack" + ("/order" if order else ""), "vc_unpack2" if order else "vc_unpack", lambda K, order=order: s_un(K, order), p_un, sm,
                            mode="uf", covers=COV("from_anm"), heap_view=hv_un, timeout=300, opts=dict(OP)))
    return out
