"""C01: every matrix layout maps its stored cells one-to-one onto its memory"""
from vc.contract import Contract
from vc import layouts as LY
from vc.terms import *

ID = "C01"
HARNESS = "v_storage.cpp"


def dims(K, L):
    r = K.int("r", 0, LY.IMAX - 1)
    c = r if L in LY.SQUARE else K.int("c", 0, LY.IMAX - 1)
    K.assume(LY.dims_ok(L, r, c))
    st = K.int("set", 0, 1)
    r0 = K.int("r0", 0, 1000)
    c0 = r0 if L in LY.SQUARE else K.int("c0", 0, 1000)
    return [r, c, st, r0, c0]


def mk(L):
    out = []
    hints = {"S": lambda x, p: LY.trapS(x, p["c"])} if L == "Trapezoid" else {}
    base = [dict(r=r, c=c, set=s, r0=2, c0=3) for r in range(0, 7) for c in range(0, 6) for s in (0, 1)
            if L not in LY.SQUARE or r == c]
    cov = [f"StorageImplementation<{L}>::{m}" for m in ("ctor", "__set_dimensions", "nrows", "ncols", "num_slices", "num_elements")]

    def setup_d(K):
        a = dims(K, L)
        K.o = K.cells("o", 12)
        K.n = K.cells("n", 8)
        return a + [K.o, K.n]

    def post_d(K, st):
        r, c = K.args[0], K.args[1]
        K.ensure(st, "returns", st.status == "ret")
        K.ensure(st, "nrows", beq(K.get(st, K.o, 0), r))
        K.ensure(st, "ncols", beq(K.get(st, K.o, 4), c))
        K.ensure(st, "num_slices", beq(K.get(st, K.o, 8), LY.nslices(L, r, c)))
        K.ensure(st, "num_elements", beq(K.get(st, K.n, 0), LY.nelem(L, r, c)))
        # lemmas the matrix contracts use (vc/slices.py), over the closed form
        n = LY.nelem(L, r, c)
        emp = beq(r, 0) if L in LY.SQUARE else bor(beq(r, 0), beq(c, 0))
        K.ensure(st, "lemma: empty iff no element", band(bimp(emp, beq(n, 0)), bor(emp, ble(1, n))))
        K.ensure(st, "lemma: element count fits an int", bimp(band(ble(r, LY.DMAX), ble(c, LY.DMAX)), ble(n, LY.IMAX)))
    out.append(Contract(f"dims<{L}>", f"vc_dims_{L}", setup_d, post_d, base, hints=hints, covers=cov))

    def setup_s(K):
        a = dims(K, L)
        i = K.int("i", 0, LY.IMAX)
        K.assume(blt(i, LY.nslices(L, a[0], a[1])))
        K.o = K.cells("o", 20)
        return a + [i, K.o]

    def post_s(K, st):
        r, c, i = K.args[0], K.args[1], K.args[5]
        K.ensure(st, "returns", st.status == "ret")
        s, s2, ln = (K.get(st, K.o, k) for k in (0, 4, 8))
        K.ensure(st, "slice start", beq(s, LY.slice0(L, r, c, i)))
        K.ensure(st, "slice start (with length)", beq(s2, LY.slice0(L, r, c, i)))
        K.ensure(st, "slice length", beq(ln, LY.slicelen(L, r, c, i)))
        low = i if L not in ("RowWise", "ColumnWise") else 0
        K.ensure(st, "first row of column", beq(K.get(st, K.o, 12), low))
        K.ensure(st, "first column of row", beq(K.get(st, K.o, 16), 0))
        # lemmas over the closed forms: with "cell inside its slice at its own position" these give
        # injectivity of the cell -> offset map and tiling of [0, num_elements)
        K.forall(st, "disjoint", (["i2"], [(x,) for x in range(0)]),
                 lambda v: band(blt(i, v[0]), blt(v[0], LY.nslices(L, r, c))),
                 lambda v: K.ensure(st, "lemma: slices are disjoint and ordered",
                                    ble(LY.slice0(L, r, c, i) + LY.slicelen(L, r, c, i), LY.slice0(L, r, c, v[0]))))
        # lemma over the closed forms: consecutive tiling of [0, num_elements)
        K.ensure(st, "lemma: first slice at 0", bimp(beq(i, 0), beq(LY.slice0(L, r, c, i), 0)))
        last = beq(i + 1, LY.nslices(L, r, c))
        end = LY.slice0(L, r, c, i) + LY.slicelen(L, r, c, i)
        K.ensure(st, "lemma: slices are consecutive", bimp(bnot(last), beq(end, LY.slice0(L, r, c, i + 1))))
        K.ensure(st, "lemma: last slice ends at element count", bimp(last, beq(end, LY.nelem(L, r, c))))
    smp = [dict(d, i=i) for d in base for i in range(LY.nslices(L, d["r"], d["c"]))]
    out.append(Contract(f"slice<{L}>", f"vc_slice_{L}", setup_s, post_s, smp, hints=hints,
                        covers=[f"StorageImplementation<{L}>::{m}" for m in ("slice(i)", "slice(i,n)", "first_row_of_col", "first_col_of_row")]))

    def setup_i(K):
        a = dims(K, L)
        i = K.int("i", 0, LY.IMAX)
        j = K.int("j", 0, LY.IMAX)
        K.assume(LY.stored(L, a[0], a[1], i, j))
        K.o = K.cells("o", 4)
        return a + [i, j, K.o]

    def post_i(K, st):
        r, c, i, j = K.args[0], K.args[1], K.args[5], K.args[6]
        K.ensure(st, "returns", st.status == "ret")
        x = K.get(st, K.o, 0)
        major = i if LY.ROWMAJOR[L] else j
        pos = j if LY.ROWMAJOR[L] else (i - j if L == "LwTriangularColWise" else i)
        K.ensure(st, "cell offset = slice start + position", beq(x, LY.slice0(L, r, c, major) + pos))
        K.ensure(st, "cell inside its slice", band(ble(0, pos), blt(pos, LY.slicelen(L, r, c, major))))
        K.ensure(st, "cell inside the storage", band(ble(0, x), blt(x, LY.nelem(L, r, c))))
    smp = [dict(d, i=i, j=j) for d in base for i, j in LY.cells(L, d["r"], d["c"])]
    out.append(Contract(f"index<{L}>", f"vc_index_{L}", setup_i, post_i, smp, hints=hints,
                        covers=[f"StorageImplementation<{L}>::index"]))
    for c in out:
        c.harness = HARNESS
    return out


def contracts():
    return [c for L in LY.LAYOUTS for c in mk(L)]


NATIVE = [("n_c01.cpp", [])]
ASSUMPTIONS = ["dimensions are non-negative, square for the lower-triangular layouts, and rows*columns fits the int interface (d <= 46340 for triangular layouts)"]
