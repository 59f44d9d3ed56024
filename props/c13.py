"""C13: compensated summation is Neumaier's algorithm"""
from vc.contract import Contract
from vc.terms import *
from vc.exec import Ptr, Unsupported
from vc import slices as SL

ID = "C13"
HARNESS = "v_basic.cpp"
_lay = {}


def fields(K):
    """where the object keeps the running sum and the compensation: read off the real constructor"""
    if not _lay:
        mod = K.ex.mod
        e, a = SL.concrete(mod, "vc_kahan_size", lambda ex, st: [])
        if e is None or type(e.ret) is not int:
            raise Unsupported("size of KahanSum")
        v = fsym("v0")

        def mk(ex, st):
            b = ex.new_block(st, "c", e.ret, "o")
            return [v, Ptr(b.id, 0)]
        e2, a2 = SL.concrete(mod, "vc_kahan_init", mk)
        if e2 is None:
            raise Unsupported("constructor of KahanSum")
        s = [o for o, c in e2.mem[a2[1].blk].cells.items() if c[1] is v]
        z = [o for o, c in e2.mem[a2[1].blk].cells.items() if isinstance(c[1], F) and c[1].op == "c" and cval(c[1]) == 0]
        if len(s) != 1 or len(z) != 1:
            raise Unsupported(f"fields of KahanSum: {s} {z}")
        _lay.update(size=e.ret, sum=s[0], err=z[0])
    return _lay


def obj(K):
    l = fields(K)
    K.o = K.cells("o", l["size"])
    K.s, K.c, K.v = K.real("s"), K.real("c"), K.real("v")
    K.put(K.o, l["sum"], 8, K.s)
    K.put(K.o, l["err"], 8, K.c)
    return l


def contracts():
    cov = ["KahanSum::operator+=", "KahanSum::KahanSum", "KahanSum::operator double"]

    def s_init(K):
        l = fields(K)
        K.o = K.cells("o", l["size"])
        K.v = K.real("v0")
        return [K.v, K.o]

    def p_init(K, st):
        l = fields(K)
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f(st, "running sum starts at the initial value", K.get(st, K.o, l["sum"]), K.v)
        K.ensure_f(st, "compensation starts at zero", K.get(st, K.o, l["err"]), fc(0.0))

    def s_add(K):
        obj(K)
        return [K.o, K.v]

    def p_add(K, st):
        l = fields(K)
        K.ensure(st, "returns", st.status == "ret")
        s, c, v = K.s, K.c, K.v
        t = fadd(s, v)
        A = fadd(c, fadd(fsubt(s, t), v))
        B = fadd(c, fadd(fsubt(v, t), s))
        aS, aV = ffn("fabs", s), ffn("fabs", v)
        err = K.get(st, K.o, l["err"])
        K.ensure_f(st, "running sum is the rounded sum", K.get(st, K.o, l["sum"]), t)
        K.ensure_f(st, "larger sum: low bits of the term are kept", err, A, fcmp("olt", aV, aS))
        K.ensure_f(st, "larger term: low bits of the sum are kept", err, B, fcmp("olt", aS, aV))
        # |s| == |v|: both formulas give the same number (s == v: identical; s == -v: t == 0)
        K.ensure_f_any(st, "equal magnitudes", err, [A, B], band(bnot(fcmp("olt", aS, aV)), bnot(fcmp("olt", aV, aS))))

    def p_add_r(K, st):
        l = fields(K)
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f(st, "exact arithmetic: sum + compensation grows by the term",
                   fadd(K.get(st, K.o, l["sum"]), K.get(st, K.o, l["err"])), fadd(fadd(K.s, K.c), K.v))

    def s_val(K):
        obj(K)
        return [K.o]

    def p_val(K, st):
        l = fields(K)
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f(st, "value is sum + compensation", st.ret, fadd(K.s, K.c))
        K.ensure_f(st, "reading leaves the sum", K.get(st, K.o, l["sum"]), K.s)
        K.ensure_f(st, "reading leaves the compensation", K.get(st, K.o, l["err"]), K.c)
    return [Contract("init", "vc_kahan_init", s_init, p_init, mode="uf", covers=cov),
            Contract("add", "vc_kahan_add", s_add, p_add, mode="uf", covers=cov),
            Contract("add exact", "vc_kahan_add", s_add, p_add_r, mode="real", covers=cov),
            Contract("value", "vc_kahan_value", s_val, p_val, mode="uf", covers=cov)]


NATIVE = [("n_c13.cpp", [])]
ASSUMPTIONS = ["finite doubles, round to nearest, no -ffast-math", "the sign of a zero is not observed"]
