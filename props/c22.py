"""C22: relativistic acceleration correction"""
from vc.contract import Contract
from vc.terms import *

ID = "C22"
HARNESS = "v_rel.cpp"
NATIVE = [("n_c22.cpp", ["src/lib/relativity/iers12010_relativistic_correction.cpp"], dict(defs=["-DVC_NATIVE"]))]
ASSUMPTIONS = ["real arithmetic; constants up to their rounding (coefficients compared within 1e-12)",
               "satellite away from the geocentre, Sun away from the Earth, speed of light and GM of the Earth not zero",
               "geodesy/datetime headers are replaced by stand-ins (nothing of them is used here)"]


def dot(a, b):
    return fadd(fadd(fmul(a[0], b[0]), fmul(a[1], b[1])), fmul(a[2], b[2]))


def cross(a, b):
    return [fsubt(fmul(a[(i + 1) % 3], b[(i + 2) % 3]), fmul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def sc(k, a):
    return [fmul(k, x) for x in a]


def cube(x):
    return fmul(x, fmul(x, x))


def formula(r, v, R, V, GMe, GMs, J, c, beta, gamma):
    """IERS 2010 equation 10.12: r, v satellite wrt Earth; R, V Earth wrt Sun"""
    one, two = fc(1.0), fc(2.0)
    s, S, c2 = ffn("sqrt", dot(r, r)), ffn("sqrt", dot(R, R)), fmul(c, c)
    k = fdiv(GMe, fmul(c2, cube(s)))
    A = fsubt(fdiv(fmul(fmul(two, fadd(beta, gamma)), GMe), s), fmul(gamma, dot(v, v)))
    B = fmul(fmul(two, fadd(one, gamma)), dot(r, v))
    t1 = [fmul(k, fadd(fmul(A, x), fmul(B, y))) for x, y in zip(r, v)]
    j = [fc(0.0), fc(0.0), J]
    rv, vj = cross(r, v), cross(v, j)
    L = fdiv(fmul(fc(3.0), dot(r, j)), fmul(s, s))
    t2 = [fmul(fmul(fadd(one, gamma), k), fadd(fmul(L, x), y)) for x, y in zip(rv, vj)]
    g = fneg(fdiv(GMs, fmul(c2, cube(S))))
    t3 = sc(fadd(one, fmul(two, gamma)), cross(cross(V, sc(g, R)), v))
    return [fadd(fadd(x, y), z) for x, y, z in zip(t1, t2, t3)]


def contracts():
    out = []

    def setup(K, dflt=False):
        P = K.cells("sat", 48), K.cells("sun", 48)
        K.a = K.cells("a", 24)
        K.q = [[K.real(f"{n}{i}") for i in range(6)] for n in ("r", "R")]
        for p, q in zip(P, K.q):
            for i in range(6):
                K.put(p, 8 * i, 8, q[i])
            K.assume(fcmp("olt", fc(0.0), dot(q[:3], q[:3])))
        if dflt:
            K.par = [fc(x) for x in (3.986004418e14, 1.32712442099e20, 9.8e8, 299792458.0, 1.0, 1.0)]
            return list(P) + [K.a]
        K.par = [K.real(n) for n in ("GMe", "GMs", "J", "c", "beta", "gamma")]
        for i in (0, 3):
            K.assume(fcmp("olt", fc(0.0), K.par[i]))
        return list(P) + K.par + [K.a]

    def post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        r, v, R, V = K.q[0][:3], K.q[0][3:], [fneg(x) for x in K.q[1][:3]], [fneg(x) for x in K.q[1][3:]]
        w = formula(r, v, R, V, *K.par)
        for i in range(3):
            K.ensure_f(st, f"component {i}: Schwarzschild + Lense-Thirring + de Sitter", K.get(st, K.a, 8 * i), w[i])
    o = dict(mode="real", opts={"near": 1e-12}, timeout=400)
    cov = ["iers2010_relativistic_acceleration", "schwarzschild", "lens_thirring", "geodesic"]
    return [Contract("relativistic acceleration", "vc_rel", setup, post, covers=cov, **o),
            Contract("relativistic acceleration, default constants", "vc_rel_default", lambda K: setup(K, True), post, covers=cov, **o)]
