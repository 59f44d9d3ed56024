"""C17: fundamental arguments, their rates and their epoch overloads"""
from vc.contract import Contract
from vc.terms import *

ID = "C17"
HARNESS = "v_fundarg.cpp"
NATIVE = [("n_c17.cpp", ["src/lib/fundarg/fundarg.cpp"], dict(defs=["-DVC_NATIVE"]))]
ASSUMPTIONS = ["real arithmetic; decimal constants up to their rounding (coefficients compared within 1e-13)",
               "the absent libraries are replaced by stand-ins (harness/stubs): an epoch is an integer MJD and a fraction of day, sec2rad is multiplication by pi/648000, TURNAS = 1296000"]
TURN, PI = 1296000.0, 3.141592653589793
# IERS Conventions 2010, equations 5.43: arc seconds per power of Julian centuries
LUNI = {"fal03": (485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470),
        "falp03": (1287104.793048, 129596581.0481, -0.5532, 0.000136, -0.00001149),
        "faf03": (335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417),
        "fad03": (1072260.703692, 1602961601.2090, -6.3706, 0.006593, -0.00003169),
        "faom03": (450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939)}
# equations 5.44: radians
PLAN = {"fame03": (4.402608842, 2608.7903141574), "fave03": (3.176146697, 1021.3285546211), "fae03": (1.753470314, 628.3075849991),
        "fama03": (6.203480913, 334.0612426700), "faju03": (0.599546497, 52.9690962641), "fasa03": (0.874016757, 21.3299104960),
        "faur03": (5.481293872, 7.4781598567), "fane03": (5.311886287, 3.8133035638), "fapa03": (0.0, 0.024381750, 0.00000538691)}
ORDER = ("fal03", "falp03", "faf03", "fad03", "faom03")


def poly(c, t):
    s = fc(0.0)
    for k in reversed(c):
        s = fadd(fmul(s, t), fc(k))
    return s


def rad(x):
    return fmul(x, fdiv(fc(PI), fc(648000.0)))


def value(f, t):
    if f in LUNI:
        return rad(ffn("fmod", poly(LUNI[f], t), fc(TURN)))
    if f == "fapa03":
        return poly(PLAN[f], t)
    if f in PLAN:
        return ffn("fmod", poly(PLAN[f], t), fc(2 * PI))
    c = LUNI[f[1:]]
    return rad(poly([float(k) * q for q, k in enumerate(c)][1:], t))


def jc(K):
    m, s = K.int("m", -10000000, 10000000), K.real("s")
    K.t = fdiv(fadd(i2f(m - 51544), fsubt(s, fc(0.5))), fc(36525.0))
    return [m, s]


def beq_ptr(p, q):
    return isinstance(p, Ptr) and p == q


def contracts():
    out = []
    o = dict(mode="real", opts={"near": 1e-13})
    for f in list(LUNI) + ["d" + x for x in LUNI] + list(PLAN):
        def t_in(K):
            K.t = K.real("t")
            return [K.t]

        def post(K, st, f=f):
            K.ensure(st, "returns", st.status == "ret")
            K.ensure_f(st, "rate of change of the argument's polynomial" if f[0] == "d" else "polynomial of the argument, reduced to one turn",
                       st.ret, value(f, K.t))

        def post_e(K, st, f=f):
            K.ensure(st, "returns", st.status == "ret")
            K.ensure_f(st, "value of the function of the same name at the epoch", st.ret, value(f, K.t))
        out.append(Contract(f"{f}", f"vc_t_{f}", t_in, post, covers=[f"iers2010::{f}"], **o))
        out.append(Contract(f"{f} (epoch)", f"vc_e_{f}", jc, post_e, covers=[f"dso::{f}(MjdEpoch)"], **o))
    for f, d in (("fundarg", ""), ("fundarg_derivs", "d")):
        def v_in(K):
            K.t = K.real("t")
            K.o = K.cells("o", 40)
            return [K.t, K.o]

        def e_in(K):
            a = jc(K)
            K.o = K.cells("o", 40)
            return a + [K.o]

        def v_post(K, st, d=d):
            K.ensure(st, "returns", st.status == "ret")
            K.ensure(st, "returns the vector it was given", beq_ptr(st.ret, K.o))
            for q, g in enumerate(ORDER):
                K.ensure_f(st, f"component {q} is {d}{g}", K.get(st, K.o, 8 * q), value(d + g, K.t))
        out.append(Contract(f, f"vc_t_{f}", v_in, v_post, covers=[f"iers2010::{f}"], **o))
        out.append(Contract(f"{f} (epoch)", f"vc_e_{f}", e_in, v_post, covers=[f"dso::{f}(MjdEpoch)"], **o))
    return out
