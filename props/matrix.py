"""Contracts of CoeffMatrix2D<L> (shared by C02: memory, C03/C04: values)."""
from vc.contract import Contract
from vc import layouts as LY, slices as SL
from vc.exec import Unsupported, Ptr, NULL
from vc.loops import flat_view, View
from vc.terms import *

HARNESS = "v_matrix.cpp"
SHORT = {"RowWise": "RW", "ColumnWise": "CW", "Trapezoid": "TR", "LwTriangularRowWise": "LR", "LwTriangularColWise": "LC"}
_roles = {}


def roles(mod, L):
    """field offsets of CoeffMatrix2D<L>, found by running its constructor"""
    key = (id(mod), L)
    if key in _roles:
        return _roles[key]
    from vc.exec import Exec
    st, _ = SL.concrete(mod, f"vc_sizeof_{L}", lambda ex, st: [])
    size = st.ret
    r, c = (7, 7) if L in LY.SQUARE else (7, 4)
    n = LY.nelem(L, r, c)

    def mk(ex, st):
        b = ex.new_block(st, "c", size, "o")
        return [Ptr(b.id, 0), r, c]
    st, args = SL.concrete(mod, f"vc_ctor_{L}", mk)
    if st is None:
        raise Unsupported("constructor does not run")
    cells = st.mem[args[0].blk].cells
    R = {"size": size}
    for off, (sz, v) in sorted(cells.items()):
        if isinstance(v, Ptr):
            k = "data"
        elif v == n:
            k = "cap"
        elif v == r:
            k = "r"
        elif v == c:
            k = "c"
        else:
            raise Unsupported(f"unknown field at {off}")
        if k in R:
            raise Unsupported(f"two fields look like '{k}'")
        R[k] = off
        R["sz_" + k] = sz
    need = ("data", "cap", "r") if L in LY.SQUARE else ("data", "cap", "r", "c")
    if any(k not in R for k in need):
        raise Unsupported("matrix fields not recognised")
    if "c" not in R:
        R["c"] = R["r"]
    so = min(R["r"], R["c"])
    R["sto"] = {"r": R["r"] - so, "c": R["c"] - so}
    _roles[key] = R
    return R


class Mat:
    pass


def setup_layout(K, L):
    R = roles(K.ex.mod, L)
    SL.install(K, L, R["sto"])
    return R


def mat(K, L, name, variant="own", dims=None, obj=None):
    """a matrix in an arbitrary state satisfying the class invariant"""
    R = setup_layout(K, L)
    m = Mat()
    m.name = name
    m.variant = variant
    if dims is None:
        r = K.int(name + "r", 0, SL.DM)
        c = r if L in LY.SQUARE else K.int(name + "c", 0, SL.DM)
    else:
        r, c = dims
    m.r, m.c = r, c
    m.N = K.term(name + "N", SL.N(L, r, c))
    if obj is None:
        obj = K.cells(name, R["size"])
    m.p = obj
    if variant == "null":
        K.assume(beq(m.N, 0))
        m.cap = 0
        m.data = NULL
    else:
        m.cap = K.int(name + "cap", 0, 1 << 40)
        m.len = K.int(name + "len", 0, 1 << 40)
        K.assume(ble(m.N, m.cap))
        K.assume(ble(m.cap, m.len))
        m.data = K.array("d" + name, m.len, heap="new[]")
    put = lambda k, v: K.put(Ptr(obj.blk, obj.off), obj.off + R[k], R["sz_" + k], v)
    put("r", r)
    if L not in LY.SQUARE:
        put("c", c)
    put("data", m.data)
    put("cap", m.cap)
    return m


def raw(K, L, name="O"):
    R = setup_layout(K, L)
    return K.cells(name, R["size"])


def fields(K, L, st, p):
    R = roles(K.ex.mod, L)
    m = Mat()
    m.p = p
    for k in ("r", "c", "data", "cap"):
        setattr(m, k, K.get(st, p, p.off + R[k]))
    return m


def inv(K, L, st, p, what):
    """class invariant of the matrix at p"""
    m = fields(K, L, st, p)
    ok = is_int(m.r) and is_int(m.c) and is_int(m.cap) and isinstance(m.data, Ptr)
    K.ensure(st, f"{what}: every field has a value", ok)
    if not ok:
        return None
    m.N = SL.N(L, m.r, m.c)
    if m.data.blk == 0:
        K.ensure(st, f"{what}: no buffer only when there are no elements", band(beq(m.N, 0), beq(m.cap, 0)))
        return m
    b = st.mem.get(m.data.blk)
    K.ensure(st, f"{what}: buffer is live", b is not None)
    if b is None:
        return None
    K.ensure(st, f"{what}: buffer comes from new[] and is owned from its start", band(beq(m.data.off, 0), b.heap == "new[]"))
    K.ensure(st, f"{what}: capacity covers the elements", ble(m.N, m.cap))
    K.ensure(st, f"{what}: buffer covers the capacity", ble(m.cap * 8, b.size))
    return m


def ownership(K, L, st, objs):
    ms = [(w, inv(K, L, st, p, w)) for w, p in objs]
    blks = [m.data.blk for w, m in ms if m is not None and m.data.blk != 0]
    K.ensure(st, "no two matrices share a buffer", len(set(blks)) == len(blks))
    heap = [b.name for b in st.mem.values() if b.heap in ("new", "new[]", "malloc")]
    K.ensure(st, "every allocated buffer is owned (no leak)", len(heap) <= len(blks))
    return dict(ms)


# ------------------------------------------------------------------ values
def is_dims(K, L, st, p, r, c, what):
    m = fields(K, L, st, p)
    ok = is_int(m.r) and is_int(m.c) and isinstance(m.data, Ptr)
    K.ensure(st, f"{what}: has dimensions", ok)
    if not ok:
        return None
    K.ensure(st, f"{what}: rows", beq(m.r, r))
    K.ensure(st, f"{what}: columns", beq(m.c, c))
    return m


def has_data(K, st, m, N, what):
    """the buffer exists when there are elements"""
    if m is None:
        return False
    if m.data.blk == 0:
        K.ensure(st, f"{what}: keeps its elements", beq(N, 0))
        return False
    if st.mem.get(m.data.blk) is None:
        K.ensure(st, f"{what}: buffer is live", False)
        return False
    return True


def flat_is(K, L, st, p, r, c, fn, what, name="elements"):
    """dimensions r x c and element k (storage order) equal to fn(k)"""
    N = SL.N(L, r, c)
    m = is_dims(K, L, st, p, r, c, what)
    if has_data(K, st, m, N, what):
        v = flat_view(N)
        v.enum = (lambda: [(k,) for k in range(N)]) if type(N) is int else None
        K.forall_cells(st, f"{what}: {name}", v, lambda k: (K.aget(st, m.data, m.data.off + k[0] if m.data.off else k[0]), fn(k[0])))
    return m


def cells_is(K, L, st, p, r, c, fn, what, name="elements"):
    """dimensions r x c and cell (i,j) equal to fn(i,j) (list of (cond, value))"""
    N = SL.N(L, r, c)
    m = is_dims(K, L, st, p, r, c, what)
    if has_data(K, st, m, N, what):
        v = SL.view(L, r, c)
        for q in range(fn(None)):
            def one(k, q=q):
                cond, val, nm = fn(k)[q]
                return (K.aget(st, m.data, SL.index(L, r, c, *k)), val, cond)
            K.forall_cells(st, f"{what}: {name} #{q}", v, one)
    return m


def same_obj(K, L, st, m, what="operand"):
    """matrix m (operand) is exactly as before"""
    f = flat_is(K, L, st, m.p, m.r, m.c, lambda k: mkf("rd", "d" + m.name, k), what, "unchanged elements")
    return f


def rdm(m, k):
    return mkf("rd", "d" + m.name, k)


def rdc(L, m, i, j):
    return mkf("rd", "d" + m.name, SL.index(L, m.r, m.c, i, j))


# ------------------------------------------------------------------ samples
def dimsamples(L, big=4):
    return [(r, c) for r in range(0, big + 1) for c in range(0, big + 1) if L not in LY.SQUARE or r == c]


def smp(L, names, variants, big=3, extra=None, same=False):
    """concrete runs: dims of each named matrix"""
    import itertools
    ds = dimsamples(L, big)
    out = []
    per = [[d for d in ds if v != "null" or LY.nelem(L, *d) == 0] for v in variants]
    if same:
        combos = [tuple(d for _ in names) for d in per[0] if all(d in p for p in per)]
    else:
        combos = list(itertools.product(*per))
    import random
    rnd = random.Random(5)
    if len(combos) > 60:
        combos = rnd.sample(combos, 60)
    for i, co in enumerate(combos):
        d = {}
        for n, (r, c), v in zip(names, co, variants):
            d[n + "r"] = r
            if L not in LY.SQUARE:
                d[n + "c"] = c
            if v != "null":
                k = LY.nelem(L, r, c)
                d[n + "cap"] = k + (i % 3)
                d[n + "len"] = k + (i % 3) + (i % 2)
        if extra:
            for e in extra(d):
                out.append(dict(d, **e))
        else:
            out.append(d)
    return out


FUNC = "CoeffMatrix2D<%s>::%s"


def mode(part):
    return dict(opts={"only_posts": True} if part == "val" else {}, mode="uf" if part == "val" else "real")


def lifecycle(L, part):
    """construct, destroy, copy, move, swap, resize, fill, multiply, element access"""
    out = []
    S = SHORT[L]

    def add(nm, fn, setup, post_mem, post_val, samples, cov, **kw):
        post = post_mem if part == "mem" else post_val
        if post is None:
            return
        o = dict(mode(part))
        if kw.pop("fail", False):
            o["opts"] = dict(o["opts"], alloc_fail=True)
        o.update(kw)
        out.append(Contract(f"{S}.{nm}", f"vc_{fn}_{L}", setup, post, samples, covers=[FUNC % (L, x) for x in cov], **o))

    sz = lambda K: roles(K.ex.mod, L)["size"]

    # construct
    def s_ctor(K):
        K.r = K.int("r", 0, SL.DM)
        K.c = K.r if L in LY.SQUARE else K.int("c", 0, SL.DM)
        K.o = raw(K, L)
        return [K.o, K.r, K.c]

    def pm(K, st):
        K.ensure(st, "returns", st.status == "ret")
        m = ownership(K, L, st, [("new matrix", K.o)])["new matrix"]

    def pv(K, st):
        K.ensure(st, "returns", st.status == "ret")
        is_dims(K, L, st, K.o, K.r, K.c, "new matrix")
    add("construct", "ctor", s_ctor, pm, pv, [dict(r=r, c=c) if L not in LY.SQUARE else dict(r=r) for r, c in dimsamples(L)], ["CoeffMatrix2D(int,int)"])

    for v in ("own", "null"):
        vs = "" if v == "own" else "/empty"

        def s_one(K, v=v):
            K.a = mat(K, L, "A", v)
            return [K.a.p]

        def p_d(K, st):
            K.ensure(st, "returns", st.status == "ret")
            heap = [b.name for b in st.mem.values() if b.heap in ("new", "new[]", "malloc")]
            K.ensure(st, "the buffer is released", not heap)
        add("destroy" + vs, "dtor", s_one, p_d, None, smp(L, ["A"], [v]), ["~CoeffMatrix2D"])

        def s_ca(K, v=v):
            K.a = mat(K, L, "A", v)
            K.o = raw(K, L)
            return [K.o, K.a.p]

        def p_ca_m(K, st):
            K.ensure(st, "returns", st.status == "ret")
            ownership(K, L, st, [("copy", K.o), ("source", K.a.p)])

        def p_ca_v(K, st):
            K.ensure(st, "returns", st.status == "ret")
            flat_is(K, L, st, K.o, K.a.r, K.a.c, lambda k: rdm(K.a, k), "copy")
            same_obj(K, L, st, K.a, "source")
        add("copy-construct" + vs, "cctor", s_ca, p_ca_m, p_ca_v, smp(L, ["A"], [v]), ["CoeffMatrix2D(const CoeffMatrix2D&)"])

        def p_mc_m(K, st):
            K.ensure(st, "returns", st.status == "ret")
            ownership(K, L, st, [("new matrix", K.o), ("moved-from", K.a.p)])

        def p_mc_v(K, st):
            K.ensure(st, "returns", st.status == "ret")
            flat_is(K, L, st, K.o, K.a.r, K.a.c, lambda k: rdm(K.a, k), "new matrix")
        add("move-construct" + vs, "mctor", s_ca, p_mc_m, p_mc_v, smp(L, ["A"], [v]), ["CoeffMatrix2D(CoeffMatrix2D&&)"])

        # self operations
        def s_self(K, v=v):
            K.a = mat(K, L, "A", v)
            return [K.a.p, K.a.p]

        def p_self_m(K, st):
            K.ensure(st, "returns", st.status == "ret")
            ownership(K, L, st, [("matrix", K.a.p)])

        def p_self_v(K, st):
            K.ensure(st, "returns", st.status == "ret")
            same_obj(K, L, st, K.a, "matrix")
        for op, fn, c in (("self-copy-assign", "cassign", "operator=(const&)"), ("self-move-assign", "massign", "operator=(&&)"),
                          ("self-swap", "swap", "swap"), ("self-fswap", "fswap", "swap(a,b)")):
            add(op + vs, fn, s_self, p_self_m, p_self_v, smp(L, ["A"], [v]), [c])

        # resize
        for op in ("resize", "cresize"):
            def s_rs(K, v=v):
                K.a = mat(K, L, "A", v)
                K.r = K.int("nr", 0, SL.DM)
                K.c = K.r if L in LY.SQUARE else K.int("nc", 0, SL.DM)
                return [K.a.p, K.r, K.c]

            def p_rs_m(K, st):
                if not K.C.opts.get("alloc_fail"):
                    K.ensure(st, "returns", st.status == "ret")
                ownership(K, L, st, [("matrix", K.a.p)])

            def p_rs_v(K, st, op=op):
                K.ensure(st, "returns", st.status == "ret")
                a = K.a
                if op == "resize" or a.variant == "null":
                    is_dims(K, L, st, a.p, K.r, K.c, "matrix")
                    return

                def f(k):
                    if k is None:
                        return 1
                    return [(LY.stored(L, a.r, a.c, *k), rdc(L, a, *k), "kept")]
                cells_is(K, L, st, a.p, K.r, K.c, f, "matrix", "element present in both shapes")

            def hv(K, bk, op=op):
                if op != "cresize" or bk[0] != "H":
                    return None
                a = K.a
                return [SL.view(L, K.r, K.c, {"copied": (lambda k: rdc(L, a, *k), lambda k: LY.stored(L, a.r, a.c, *k))}),
                        flat_view(SL.N(L, K.r, K.c))]

            ext = lambda d: [dict(nr=r, **({} if L in LY.SQUARE else {"nc": c})) for r, c in dimsamples(L, 3)]
            sm = smp(L, ["A"], [v], 3, ext)
            add(op + vs, op, s_rs, p_rs_m, p_rs_v, sm, [op], heap_view=hv)
            if part == "mem":
                add(op + vs + "/allocation-fails", op, s_rs, p_rs_m, None, sm[::max(1, len(sm) // 14)], [op], fail=True, heap_view=hv)

        # fill / multiply
        def s_f(K, v=v):
            K.a = mat(K, L, "A", v)
            K.f = K.real("f")
            N = K.a.N
            if v == "own":
                fv = flat_view(K.a.len, {"final": lambda k: K.fin(k[0])})
                K.views[K.st.mem[K.a.data.blk].key] = fv
            return [K.a.p, K.f]
        for op in ("fill", "mul"):
            def s_f2(K, op=op, s_f=s_f):
                K.fin = (lambda k: K.f) if op == "fill" else (lambda k: fmul(rdm(K.a, k), K.f))
                return s_f(K)

            def p_f_m(K, st):
                K.ensure(st, "returns", st.status == "ret")
                ownership(K, L, st, [("matrix", K.a.p)])

            def p_f_v(K, st):
                K.ensure(st, "returns", st.status == "ret")
                flat_is(K, L, st, K.a.p, K.a.r, K.a.c, K.fin, "matrix")
            add(op + vs, op, s_f2, p_f_m, p_f_v, smp(L, ["A"], [v]), ["fill_with" if op == "fill" else "multiply"])

    # two-matrix assignments
    for va in ("own", "null"):
        for vb in ("own", "null"):
            vs = f"/{va}-{vb}"

            def s_two(K, va=va, vb=vb):
                K.a = mat(K, L, "A", va)
                K.b = mat(K, L, "B", vb)
                return [K.a.p, K.b.p]

            def p2_m(K, st):
                K.ensure(st, "returns", st.status == "ret")
                ownership(K, L, st, [("first", K.a.p), ("second", K.b.p)])

            def p_cas_v(K, st):
                K.ensure(st, "returns", st.status == "ret")
                flat_is(K, L, st, K.a.p, K.b.r, K.b.c, lambda k: rdm(K.b, k), "target")
                same_obj(K, L, st, K.b, "source")

            def p_mas_v(K, st):
                K.ensure(st, "returns", st.status == "ret")
                flat_is(K, L, st, K.a.p, K.b.r, K.b.c, lambda k: rdm(K.b, k), "target")

            def p_sw_v(K, st):
                K.ensure(st, "returns", st.status == "ret")
                flat_is(K, L, st, K.a.p, K.b.r, K.b.c, lambda k: rdm(K.b, k), "first")
                flat_is(K, L, st, K.b.p, K.a.r, K.a.c, lambda k: rdm(K.a, k), "second")
            sm = smp(L, ["A", "B"], [va, vb], 3)
            add("copy-assign" + vs, "cassign", s_two, p2_m, p_cas_v, sm, ["operator=(const&)"])
            add("move-assign" + vs, "massign", s_two, p2_m, p_mas_v, sm, ["operator=(&&)"])
            add("swap" + vs, "swap", s_two, p2_m, p_sw_v, sm, ["swap"])
            add("fswap" + vs, "fswap", s_two, p2_m, p_sw_v, sm, ["swap(a,b)"])

    # element access
    for op in ("at", "cat"):
        def s_at(K):
            K.a = mat(K, L, "A")
            K.i = K.int("i", 0, SL.DM)
            K.j = K.int("j", 0, SL.DM)
            K.assume(LY.stored(L, K.a.r, K.a.c, K.i, K.j))
            return [K.a.p, K.i, K.j]

        def p_at_m(K, st):
            K.ensure(st, "returns", st.status == "ret")
            p = st.ret
            K.ensure(st, "points into the matrix's buffer", isinstance(p, Ptr) and p.blk == K.a.data.blk)
            K.ensure(st, "the element is inside the buffer", band(ble(0, p.off), ble(p.off + 8, K.a.N * 8)))
            ownership(K, L, st, [("matrix", K.a.p)])

        def p_at_v(K, st):
            p = st.ret
            K.ensure(st, "refers to the stored cell", beq(p.off, 8 * SL.index(L, K.a.r, K.a.c, K.i, K.j)) if isinstance(p, Ptr) else False)
        sm = smp(L, ["A"], ["own"], 4, lambda d: [dict(i=i, j=j) for i, j in LY.cells(L, d["Ar"], d.get("Ac", d["Ar"]))])
        add("element" + ("" if op == "at" else "-const"), op, s_at, p_at_m, p_at_v, sm, ["operator()"])

    def s_sl(K):
        K.a = mat(K, L, "A")
        K.i = K.int("i", 0, SL.DM)
        K.assume(blt(K.i, SL.ns(L, K.a.r, K.a.c)))
        K.o = K.cells("out", 48)
        return [K.a.p, K.i, K.o]

    def p_sl_m(K, st):
        K.ensure(st, "returns", st.status == "ret")
        for q in range(6):
            p = K.get(st, K.o, 8 * q)
            K.ensure(st, "points into the matrix's buffer", isinstance(p, Ptr) and p.blk == K.a.data.blk)
        ownership(K, L, st, [("matrix", K.a.p)])

    def p_sl_v(K, st):
        for q in range(6):
            p = K.get(st, K.o, 8 * q)
            K.ensure(st, "row/column start" if q < 4 else "data start",
                     isinstance(p, Ptr) and beq(p.off, 8 * SL.S(L, K.a.r, K.a.c, K.i) if q < 4 else 0))
    sm = smp(L, ["A"], ["own"], 4, lambda d: [dict(i=i) for i in range(LY.nslices(L, d["Ar"], d.get("Ac", d["Ar"])))])
    add("slices", "slices", s_sl, p_sl_m, p_sl_v, sm, ["slice", "row/column", "data"])
    return out


# ------------------------------------------------------------------ expressions (C04)
def expressions(L):
    out = []
    S_ = SHORT[L]
    sq = L in LY.SQUARE

    def build(nm, fn, kind, args, expr, reduced=None, alias=None):
        """kind 'e': new matrix from the expression; 'a': accumulate into O.
        args: operand names in call order; expr(vals) -> F with vals name -> F, plus f, g factors.
        alias: {operand: other operand or 'O'}"""
        alias = alias or {}

        def setup(K):
            K.m = {}
            K.f, K.g = K.real("f"), K.real("g")
            first = {}
            K.focus = ["rr", "cc"] if reduced else []
            if reduced:
                K.rr = K.int("rr", 0, SL.DM)
                K.cc = K.rr if (sq and kind == "e") else K.int("cc", 0, SL.DM)
            base = None
            if kind == "a":
                K.m["O"] = mat(K, L, "O")
            for a in args:
                if a not in "ABD" or a in K.m:
                    continue
                if a in alias:
                    K.m[a] = K.m[alias[a]]
                    continue
                if reduced:
                    K.m[a] = mat(K, L, a)
                else:
                    # same dimensions as the first matrix
                    d = next(iter(K.m.values()), None)
                    K.m[a] = mat(K, L, a, dims=None if d is None else (d.r, d.c))
            if reduced:
                for x in K.m.values():
                    K.assume(ble(K.rr, x.r))
                    K.assume(ble(K.cc, x.c))
                K.R, K.Cc = K.rr, K.cc
            else:
                x = next(iter(K.m.values()))
                K.R, K.Cc = x.r, x.c
            vals = lambda rd: {n: rd(x) for n, x in K.m.items()}

            def fin2(k):
                v = {n: rdc(L, x, *k) for n, x in K.m.items()}
                e = expr(v, K.f, K.g)
                return fadd(v["O"], e) if kind == "a" else e

            def fin1(k):
                v = {n: rdm(x, k[0]) for n, x in K.m.items()}
                e = expr(v, K.f, K.g)
                return fadd(v["O"], e) if kind == "a" else e
            K.fin1, K.fin2 = fin1, fin2
            K.inside = lambda k: band(blt(k[0], K.R), blt(k[1], K.Cc))
            if kind == "a":
                o = K.m["O"]
                b = K.st.mem[o.data.blk]
                if reduced:
                    K.views[b.key] = [SL.view(L, o.r, o.c, {"final": (fin2, K.inside)}), flat_view(o.len)]
                else:
                    K.views[b.key] = [flat_view(o.len, {"final": (fin1, lambda k: blt(k[0], o.N))})]
                K.o = o.p
            else:
                K.o = raw(K, L, "NEW")
            call = []
            for a in ("O",) + tuple(args):
                call.append({"O": K.o, "f": K.f, "g": K.g, "r": getattr(K, "rr", None), "c": getattr(K, "cc", None)}.get(a) if a not in "ABD"
                            else K.m[a].p)
            return call

        def hv(K, bk):
            if kind != "e" or bk[0] != "H":
                return None
            N = SL.N(L, K.R, K.Cc)
            if reduced:
                return [SL.view(L, K.R, K.Cc, {"final": K.fin2}), flat_view(N)]
            return [flat_view(N, {"final": K.fin1})]

        def post(K, st):
            K.ensure(st, "returns", st.status == "ret")
            if kind == "a":
                o = K.m["O"]
                K.ensure(st, "returns the target", isinstance(st.ret, Ptr) and st.ret.blk == o.p.blk and st.ret.off == o.p.off)
                if not reduced:
                    flat_is(K, L, st, K.o, o.r, o.c, lambda k: K.fin1((k,)), "target", "expression")
                else:
                    def f(k):
                        if k is None:
                            return 2
                        ins = K.inside(k)
                        return [(ins, K.fin2(k), "in"), (bnot(ins), rdc(L, o, *k), "out")]
                    cells_is(K, L, st, K.o, o.r, o.c, f, "target", "inside the region / untouched outside")
            elif reduced:
                def f(k):
                    return 1 if k is None else [(True, K.fin2(k), "in")]
                cells_is(K, L, st, K.o, K.R, K.Cc, f, "result", "expression")
            else:
                flat_is(K, L, st, K.o, K.R, K.Cc, lambda k: K.fin1((k,)), "result", "expression")
            for n, x in K.m.items():
                if n == "O" or (kind == "a" and x is K.m["O"]):
                    continue
                same_obj(K, L, st, x, f"operand {n}")
        names = (["O"] if kind == "a" else []) + [a for a in args if a in "ABD" and a not in alias]
        if reduced:
            import random
            rnd = random.Random(3)
            sm = []
            for t in range(14):
                d = {}
                for n in names:
                    r = rnd.randint(3, 6)
                    c = r if sq else rnd.randint(3, 6)
                    d[n + "r"] = r
                    if not sq:
                        d[n + "c"] = c
                    d[n + "cap"] = LY.nelem(L, r, c) + t % 3
                    d[n + "len"] = d[n + "cap"] + t % 2
                mr = min(d[n + "r"] for n in names)
                mc = min(d[n + ("r" if sq else "c")] for n in names)
                for rr, cc in {(mr, mc), (max(mr - 1, 0), mc), (mr, mc - 1), (mr - 2, mc - 1), (2, 3), (3, 2), (rnd.randint(0, mr), rnd.randint(0, mc))}:
                    if rr <= mr and cc <= mc:
                        sm.append(dict(d, rr=rr) if sq and kind == "e" else dict(d, rr=rr, cc=cc))
            sm = rnd.sample(sm, min(len(sm), 36))
        else:
            sm = smp(L, names[:1], ["own"], 4)
            for d in sm:
                for n in names[1:]:
                    d[n + "cap"] = d[names[0] + "cap"]
                    d[n + "len"] = d[names[0] + "len"]
        out.append(Contract(f"{S_}.{nm}", f"vc_{fn}_{L}", setup, post, sm, mode="real", heap_view=hv, opts={"only_posts": True},
                            covers=[FUNC % (L, x) for x in ("_SumProxy", "_ScaledProxy", "_ReducedViewProxy", "reduce_copy", "operator+=")],
                            hints={}, timeout=300))

    A, B, D = (lambda v: v["A"]), (lambda v: v["B"]), (lambda v: v["D"])
    for al in (None, {"B": "A"}):
        s = "/same operand" if al else ""
        build("sum" + s, "e_sum", "e", "AB", lambda v, f, g: fadd(A(v), B(v)), alias=al)
        build("sum scaled" + s, "e_sums", "e", "ABf", lambda v, f, g: fadd(A(v), fmul(B(v), f)), alias=al)
        build("scaled sum scaled" + s, "e_ssum", "e", "ABfg", lambda v, f, g: fadd(fmul(A(v), f), fmul(B(v), g)), alias=al)
        build("reduced sum" + s, "e_rsum", "e", "ABrc", lambda v, f, g: fadd(A(v), B(v)), reduced=True, alias=al)
        build("reduced sum scaled" + s, "e_rsums", "e", "ABrcf", lambda v, f, g: fadd(A(v), fmul(B(v), f)), reduced=True, alias=al)
    build("scaled", "e_scale", "e", "Af", lambda v, f, g: fmul(A(v), f))
    build("factor times", "e_scale2", "e", "Af", lambda v, f, g: fmul(A(v), f))
    build("sum of three", "e_sum3", "e", "ABDf", lambda v, f, g: fadd(fadd(A(v), B(v)), fmul(D(v), f)))
    build("sum of three, middle scaled", "e_sum3m", "e", "ABDf", lambda v, f, g: fadd(fadd(A(v), fmul(B(v), f)), D(v)))
    for al in (None, {"A": "O"}):
        s = "/target is operand" if al else ""
        build("+= matrix" + s, "a_mat", "a", "A", lambda v, f, g: A(v), alias=al)
        build("+= scaled" + s, "a_scale", "a", "Af", lambda v, f, g: fmul(A(v), f), alias=al)
        build("+= view" + s, "a_view", "a", "Arc", lambda v, f, g: A(v), reduced=True, alias=al)
        build("+= scaled view" + s, "a_views", "a", "Arcf", lambda v, f, g: fmul(A(v), f), reduced=True, alias=al)
    for al in (None, {"A": "O"}, {"B": "O"}, {"A": "O", "B": "O"}):
        s = "" if not al else "/target is operand " + "".join(al)
        build("+= sum" + s, "a_sum", "a", "AB", lambda v, f, g: fadd(A(v), B(v)), alias=al)
        build("+= sum scaled" + s, "a_sums", "a", "ABf", lambda v, f, g: fadd(A(v), fmul(B(v), f)), alias=al)
        build("+= view sum" + s, "a_viewsum", "a", "ABrcf", lambda v, f, g: fadd(A(v), fmul(B(v), f)), reduced=True, alias=al)
        build("+= scaled view sum" + s, "a_viewsum2", "a", "ABrcf", lambda v, f, g: fadd(fmul(A(v), f), fmul(B(v), f)), reduced=True, alias=al)
    return out
