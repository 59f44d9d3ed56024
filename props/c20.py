"""C20: Earth rotation angle, GMST and the rate of GMST"""
from vc.contract import Contract
from vc.terms import *
from props.c17 import poly, rad, PI

ID = "C20"
HARNESS = "v_era.cpp"
NATIVE = [("n_c20.cpp", ["src/lib/iau/era00.cpp", "src/lib/iau/gmst.cpp", "src/lib/iau/dgmst.cpp"], dict(defs=["-DVC_NATIVE"]))]
ASSUMPTIONS = ["real arithmetic; decimal constants up to their rounding (coefficients compared within 1e-13)",
               "the absent libraries are replaced by stand-ins (harness/stubs): an epoch is an integer MJD and a fraction of day, sec2rad is multiplication by pi/648000, anp is the reduction to [0, 2pi) and is the same for arguments that differ by full turns"]
GM = (0.014506, 4612.156534, 1.3915817, -0.00000044, -0.000029956, -0.0000000368)      # arc seconds per power of TT centuries


def days(K, a, b):
    m, s = K.int(a, -10000000, 10000000), K.real(b)
    return m, s, fadd(i2f(m - 51544), fsubt(s, fc(0.5)))


def angles(m, tu):
    """2 pi (0.7790572732640 + 1.00273781191135448 Tu), up to full turns"""
    th = fadd(fadd(fc(0.7790572732640), fmul(fc(0.00273781191135448), tu)), tu)
    return [fmul(fc(2 * PI), fadd(th, i2f(k) if isinstance(k, Poly) else fc(float(k)))) for k in (51545 - m, 0, 51544 - m, 51546 - m, 1, -1)]


def contracts():
    def e_in(K):
        m, s, K.tu = days(K, "m", "s")
        K.m = m
        return [m, s]

    def e_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f_any(st, "Earth rotation angle is the linear function of UT1, reduced to one turn", st.ret, [ffn("anp", a) for a in angles(K.m, K.tu)])

    def g_in(K):
        mt, s_, t = days(K, "mt", "st")
        m, s, K.tu = days(K, "m", "s")
        K.m, K.t = m, fdiv(t, fc(36525.0))
        return [mt, s_, m, s]

    def g_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        p = rad(poly(GM, K.t))
        a = angles(K.m, K.tu)
        K.ensure_f_any(st, "GMST is the Earth rotation angle of UT1 plus the polynomial of TT, reduced to one turn", st.ret,
                       [ffn("anp", fadd(ffn("anp", x), p)) for x in a] + [ffn("anp", fadd(x, p)) for x in a])

    def t_in(K):
        mt, s_, t = days(K, "mt", "st")
        K.t = fdiv(t, fc(36525.0))
        return [mt, s_]

    def d_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f(st, "rate of GMST is the derivative of GMST per day", st.ret,
                   fadd(fmul(fc(2 * PI), fc(1.00273781191135448)), fdiv(rad(poly([float(k) * q for q, k in enumerate(GM)][1:], K.t)), fc(36525.0))))
    o = dict(mode="real", opts={"near": 1e-13})
    return [Contract("era00", "vc_era00", e_in, e_post, covers=["era00"], **o),
            Contract("gmst", "vc_gmst", g_in, g_post, covers=["gmst", "era00"], **o),
            Contract("dgmst", "vc_dgmst", t_in, d_post, covers=["dgmst"], **o)]
