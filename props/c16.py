"""C16: tidal arguments"""
from vc.contract import Contract
from vc.terms import *
from props.c17 import PI, beq_ptr

ID = "C16"
HARNESS = "v_doodson.cpp"
NATIVE = [("n_c16.cpp", ["src/lib/doodson/doodson_from_chars.cpp", "src/lib/doodson/doodson_to_str.cpp"], dict(defs=["-DVC_NATIVE", "-include", "cstdio"]))]
ASSUMPTIONS = ["real arithmetic; multipliers within 16 bits",
               "the absent libraries are replaced by stand-ins (harness/stubs): anp is the reduction to [0, 2pi) and is the same for arguments that differ by full turns"]


def mult(K, p, a, lim=32767):
    v = [K.int(f"{a}{i}", -lim, lim) for i in range(6)]
    for i in range(6):
        K.put(p, 4 * i, 4, v[i])
    return v


def doodson(f, g, s_of):
    """tau, s, h, p, N', p_s from l, l', F, D, Omega and GMST (IERS 2010 chapter 5.7 / 6.5.1)"""
    l, lp, F_, D, O = f
    s = fadd(F_, O)
    return [fadd(g, fsubt(fc(PI), s_of(s))), s, fsubt(s, D), fsubt(s, l), fneg(O), fsubt(fsubt(s, D), lp)]


def contracts():
    def a_in(K):
        p, q = K.cells("a", 24), K.cells("f", 48)
        K.n = mult(K, p, "a")
        K.f = [K.real(f"f{i}") for i in range(6)]
        for i in range(6):
            K.put(q, 8 * i, 8, K.f[i])
        return [p, K.real("pi"), q]

    def total(K, sel=range(6)):
        s = fc(0.0)
        for i in sel:
            s = fadd(s, fmul(K.f[i], i2f(K.n[i])))
        return s

    def a_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f(st, "argument is the combination of the six Doodson variables, reduced to one turn", st.ret, ffn("anp", total(K)))

    def v_in(K):
        p, o = K.cells("f", 40), K.cells("d", 48)
        K.f = [K.real(f"f{i}") for i in range(5)]
        for i in range(5):
            K.put(p, 8 * i, 8, K.f[i])
        K.g, K.o = K.real("gmst"), o
        return [p, K.g, o]

    def v_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure(st, "returns the array it was given", beq_ptr(st.ret, K.o))
        a = doodson(K.f, K.g, lambda x: x)
        b = doodson(K.f, K.g, lambda x: ffn("anp", x))
        for i, n in enumerate(("tau", "s", "h", "p", "N'", "p_s")):
            K.ensure_f_any(st, f"{n} is its combination of Delaunay arguments and GMST, reduced to one turn", K.get(st, K.o, 8 * i),
                           [ffn("anp", a[i]), ffn("anp", b[i])] if i == 0 else [ffn("anp", a[i])])
    o = dict(mode="real", opts={"near": 1e-13})
    return [Contract("argument", "vc_dd_argument", a_in, a_post, covers=["DoodsonConstituent::argument"], **o),
            Contract("Doodson variables", "vc_dd_variables", v_in, v_post, covers=["delaunay2doodson"], **o)]
