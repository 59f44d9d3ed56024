"""C19: EOP regularisation"""
from vc.contract import Contract
from vc.exec import AV, Ptr
from vc.loops import flat_view
from vc.terms import *
from props import c18
from props.c18 import S, DUT, LOD

ID = "C19"
HARNESS = "v_eop.cpp"
NATIVE = [("n_c19.cpp", ["src/lib/eop/regularize.cpp", "src/lib/eop/zonal_tides.cpp", "src/lib/fundarg/fundarg.cpp"], dict(defs=["-DVC_NATIVE", "-DVC_MJD_REAL"]))]
ASSUMPTIONS = ["real arithmetic; decimal constants up to their rounding (coefficients compared within 1e-13)",
               "the five lunisolar arguments are unknown functions of time (their contracts are C17's), the zonal tide model an unknown function of them (its table is C26's)",
               "the absent libraries are replaced by stand-ins (harness/stubs)"]


def args(t):
    return [ffn(f"fa_{x}", t) for x in ("l", "lp", "f", "d", "om")]


def cor(name, i):
    t = fdiv(fadd(fsubt(mkf("rd", "rec0", i), fc(51544.0)), fsubt(mkf("rd", "rec8", i), fc(0.5))), fc(36525.0))
    return fmul(ffn(name, *args(t)), fc(1e-6))


def old(f, i):
    return mkf("rd", f"rec{f}", i)


def new(f, sign, i):
    z = cor("zt_dut" if f == DUT else "zt_lod", i)
    return fadd(old(f, i), z) if sign > 0 else fsubt(old(f, i), z)


def setup(K, signs):
    K.n = K.int("N", 0, c18.NMAX)
    rhs = {}
    for s in signs:
        for f in (DUT, LOD):
            rhs[f"{f}{s:+d}"] = lambda k, f=f, s=s: new(f, s, k[0])
    for f in (DUT, LOD):
        rhs[f"{f}"] = lambda k, f=f: old(f, k[0])
    K.view = flat_view(K.n, rhs)
    v = K.array("rec", K.n, view=K.view, stride=S)
    K.st.wblk(v.blk).arr = {f: AV("base", f"rec{f}") for f in range(0, S, 8)}
    s = K.cells("series", 24 + 160, arbitrary=True)
    K.put(s, 0, 8, v)
    K.put(s, 8, 8, Ptr(v.blk, K.n * S))
    K.put(s, 16, 8, Ptr(v.blk, K.n * S))
    K.v, K.s = v, s
    return [s]


def value(K, st, f, i):
    b = st.mem[K.v.blk]
    if type(i) is int and (i, f) in b.ov:
        return b.ov[(i, f)]
    if b.ov:
        b = K.ex.flush(st, K.v.blk)
    return K.ex.aread(st, K.ex.av(st, b, f), i, "double")


def post(K, st, signs):
    K.ensure(st, "returns", st.status == "ret")
    for i, w in enumerate((K.v, Ptr(K.v.blk, K.n * S))):
        g = K.get(st, K.s, 8 * i)
        K.ensure(st, "series keeps its records", isinstance(g, Ptr) and g.blk == w.blk and beq(g.off, w.off))
    tot = sum(signs)
    for f in range(0, S, 8):
        what = {DUT: "UT1", LOD: "LOD"}.get(f)
        msg = f"field {f} is not changed" if what is None else f"{what} is restored" if tot == 0 else f"{what} is corrected by the zonal tides at the record's epoch"

        def cell(k, f=f, what=what):
            i = k[0] if K.concrete else k[0]
            return value(K, st, f, i), old(f, i) if what is None or tot == 0 else new(f, tot, i), True
        if K.concrete:
            for i in range(K.n):
                r = cell((i,))
                K.ensure_f(st, msg, r[0], r[1])
        else:
            K.forall_cells(st, msg, K.view, cell)


def contracts():
    out = []
    for name, fn, signs in (("regularize", "vc_eop_regularize", (-1,)), ("deregularize", "vc_eop_deregularize", (1,)),
                            ("regularize, deregularize", "vc_eop_there_and_back", (-1, 1)), ("deregularize, regularize", "vc_eop_back_and_there", (1, -1))):
        out.append(Contract(name, fn, lambda K, g=signs: setup(K, g), lambda K, st, g=signs: post(K, st, g), samples=[dict(N=n) for n in (0, 1, 2, 3, 4, 5)],
                            opts={"near": 1e-13}, covers=["EopSeries::regularize_impl"]))
    return out
