"""C21: celestial-to-terrestrial rotations"""
from vc.contract import Contract
from vc.terms import *

ID = "C21"
HARNESS = "v_rot.cpp"
DEFS = ["-DVC_MJD_REAL"]
NATIVE = [("n_c21.cpp", ["src/lib/earth_rotation/c2i06a.cpp", "src/lib/earth_rotation/c2i06abz.cpp", "src/lib/earth_rotation/c2i06apq.cpp"],
           dict(defs=["-DVC_NATIVE", "-DVC_MJD_REAL"]))]
ASSUMPTIONS = ["real arithmetic; decimal constants up to their rounding (coefficients compared within 1e-12)",
               "a point (X, Y) inside the unit circle, other than its centre, is written X = sin d cos E, Y = sin d sin E with 0 < d < pi/2, -pi < E <= pi "
               "(every such point is of this form); the centre has a contract of its own where the code distinguishes it",
               "atan and atan2 are the inverse functions: atan(sin d / cos d) = d, atan2(r sin E, r cos E) = E for r > 0",
               "the CIP series, the CIO locator and the Earth rotation angle are unknown functions of their arguments (C17, C20 decide them); the absent "
               "libraries are replaced by stand-ins (harness/stubs)"]

D, E = fsym("d0"), fsym("e0")
K_ = 3.141592653589793238462643e0 / 648000e0
PI2 = 1.5707963267948966
OMEGA = 2 * 3.141592653589793 * 1.00273781191135448 / 86400     # rate of the Earth rotation angle
sin, cos = lambda a: ffn("sin", a), lambda a: ffn("cos", a)
ZERO, ONE = fc(0.0), fc(1.0)


def R1(a):
    c, s = cos(a), sin(a)
    return [[ONE, ZERO, ZERO], [ZERO, c, s], [ZERO, fneg(s), c]]


def R2(a):
    c, s = cos(a), sin(a)
    return [[c, ZERO, fneg(s)], [ZERO, ONE, ZERO], [s, ZERO, c]]


def R3(a):
    c, s = cos(a), sin(a)
    return [[c, s, ZERO], [fneg(s), c, ZERO], [ZERO, ZERO, ONE]]


def mm(*ms):
    def m2(a, b):
        return [[fadd(fadd(fmul(a[i][0], b[0][j]), fmul(a[i][1], b[1][j])), fmul(a[i][2], b[2][j])) for j in range(3)] for i in range(3)]
    r = ms[-1]
    for m in reversed(ms[:-1]):
        r = m2(m, r)
    return r


def add(*a):
    r = a[0]
    for x in a[1:]:
        r = fadd(r, x)
    return r


def Qt(e, d, s):
    """GCRS to CIRS: transpose of R3(-E) R2(-d) R3(E) R3(s)"""
    return mm(R3(fneg(s)), R3(fneg(e)), R2(d), R3(e))


def RQ(th, e, d):
    """R3(th) R3(-E) R2(d) R3(E): R3(s') R3(era) Qt(e, d, s) for th = s' + era - s (rotations about one axis add up)"""
    return mm(R3(th), R3(fneg(e)), R2(d), R3(e))


def closed(X, Y, s):
    """the same from X and Y: transpose of IERS 2010 equation 5.10, with a = 1/(1+z)"""
    z = ffn("sqrt", fsubt(ONE, fadd(fmul(X, X), fmul(Y, Y))))
    a = fdiv(ONE, fadd(ONE, z))
    n = lambda x, y: fneg(fmul(a, fmul(x, y)))
    pnt = [[fadd(ONE, n(X, X)), n(X, Y), fneg(X)], [n(X, Y), fadd(ONE, n(Y, Y)), fneg(Y)], [X, Y, z]]
    return mm(R3(fneg(s)), pnt)


def polar(K):
    K.assume(fcmp("olt", ZERO, D))
    K.assume(fcmp("olt", D, fc(PI2)))
    K.assume(fcmp("olt", fc(-3.141592653589793), E))
    K.assume(fcmp("ole", E, fc(3.141592653589793)))
    X, Y = fmul(sin(D), cos(E)), fmul(sin(D), sin(E))
    return X, Y


def same(K, st, o, m, what):
    for i in range(3):
        for j in range(3):
            K.ensure_f(st, f"{what}: entry ({i},{j})", K.get(st, o, 8 * (3 * i + j)), m[i][j])


def contracts():
    out = []
    opts = {"near": 1e-12, "trig": [(D, E)], "limit": 4000000}
    kw = dict(mode="real", opts=opts, timeout=600)

    def fn(name, entry, covers, setup, spec, extra=None):
        def su(K):
            K.o = K.cells("o", 80)
            return setup(K) + [K.o]

        def post(K, st):
            K.ensure(st, "returns", st.status == "ret")
            same(K, st, K.o, spec(K), "the rotation")
            if extra:
                extra(K, st)
        out.append(Contract(name, entry, su, post, covers=covers, **kw))

    def norm(K, st):
        K.ensure_f(st, "unit quaternion", K.get(st, K.o, 72), ONE)

    def syms(*names):
        def su(K):
            K.s = [K.real(n) for n in names]
            return list(K.s)
        return su

    def xys(K):
        K.X, K.Y = polar(K)
        K.S = K.real("s")
        return [K.X, K.Y, K.S]

    def xys0(K):
        K.X, K.Y, K.S = ZERO, ZERO, K.real("s")
        return [K.X, K.Y, K.S]

    # spherical angles
    for nm, pt in (("inside the unit circle", polar), ("at its centre", lambda K: (ZERO, ZERO))):
        def su(K, pt=pt):
            K.o = K.cells("o", 24)
            K.X, K.Y = pt(K)
            return [K.X, K.Y, K.o]

        def post(K, st):
            K.ensure(st, "returns", st.status == "ret")
            K.ensure_f(st, "sin d cos E = X", K.get(st, K.o, 0), K.X)
            K.ensure_f(st, "sin d sin E = Y", K.get(st, K.o, 8), K.Y)
            K.ensure_f(st, "cos d = sqrt(1 - X^2 - Y^2)", K.get(st, K.o, 16), ffn("sqrt", fsubt(ONE, fadd(fmul(K.X, K.X), fmul(K.Y, K.Y)))))
        out.append(Contract(f"spherical angles of the pole {nm}", "vc_spherical", su, post, covers=["xycip2spherical"], **kw))
    for nm, x in (("", xys), (" at the centre", xys0)):
        fn("celestial rotation C" + nm, "vc_C", ["C", "xycip2spherical"], x, lambda K: closed(K.X, K.Y, K.S), norm)
        fn("celestial rotation C_qimpl" + nm, "vc_Cq", ["C_qimpl", "xycip2spherical"], x, lambda K: closed(K.X, K.Y, K.S), norm)
    # the specification itself: a proper rotation
    def orth(K, st):
        m = closed(K.X, K.Y, K.S)
        for i in range(3):
            for j in range(i, 3):
                K.ensure_f(st, f"rows {i} and {j} of the rotation orthonormal", add(*[fmul(m[i][k], m[j][k]) for k in range(3)]), ONE if i == j else ZERO)
        for j in range(3):
            a, b = (j + 1) % 3, (j + 2) % 3
            K.ensure_f(st, f"third row is the cross product of the first two, component {j}",
                       fsubt(fmul(m[0][a], m[1][b]), fmul(m[0][b], m[1][a])), m[2][j])
    fn("the celestial rotation is proper", "vc_C", ["C"], xys, lambda K: closed(K.X, K.Y, K.S), orth)

    def c2i(K):
        K.th, era, sp, d, e, xp, yp = K.s = [K.real(n) for n in ("th", "era", "sp", "d", "e", "xp", "yp")]
        return [era, fsubt(fadd(era, sp), K.th), sp, d, e, xp, yp]

    def lemma(K, st):
        """rotations about one axis add up"""
        th, era, sp, s = K.s[0], K.s[1], K.s[2], fsubt(fadd(K.s[1], K.s[2]), K.s[0])
        a, b = mm(R3(sp), R3(era), R3(fneg(s))), R3(th)
        for i in range(3):
            for j in range(3):
                K.ensure_f(st, f"R3(s') R3(era) R3(-s) = R3(s' + era - s), entry ({i},{j})", a[i][j], b[i][j])
        norm(K, st)
    fn("c2i", "vc_c2i", ["c2i"], c2i, lambda K: mm(R1(fneg(K.s[6])), R2(fneg(K.s[5])), RQ(K.th, K.s[4], K.s[3])), lemma)
    fn("c2tirs", "vc_c2tirs", ["c2tirs"], syms("era", "s", "d", "e"), lambda K: mm(R3(K.s[0]), Qt(K.s[3], K.s[2], K.s[1])), norm)
    fn("tirs2i", "vc_tirs2i", ["tirs2i"], syms("xp", "yp", "sp"), lambda K: mm(R1(fneg(K.s[1])), R2(fneg(K.s[0])), R3(K.s[2])), norm)

    def dR(era, om):
        c, s = fmul(om, cos(era)), fmul(om, sin(era))
        return [[fneg(s), c, ZERO], [fneg(c), fneg(s), ZERO], [ZERO, ZERO, ZERO]]
    fn("dRdt", "vc_dRdt", ["dRdt"], syms("era", "om"), lambda K: dR(*K.s))

    def bz(K, pt=polar):
        K.X, K.Y = pt(K)
        K.th, era, sp, K.xp, K.yp = [K.real(n) for n in ("th", "era", "sp", "xp", "yp")]
        return [era, fsubt(fadd(era, sp), K.th), sp, K.X, K.Y, K.xp, K.yp]
    W0 = lambda K: (R1(fneg(K.yp)), R2(fneg(K.xp)))
    fn("gcrs2itrs_quaternion", "vc_bz", ["gcrs2itrs_quaternion"], bz, lambda K: mm(*W0(K), RQ(K.th, E, D)), norm)
    fn("gcrs2itrs_quaternion at the centre", "vc_bz", ["gcrs2itrs_quaternion"], lambda K: bz(K, lambda K: (ZERO, ZERO)),
       lambda K: mm(*W0(K), R3(K.th)), norm)

    # rotation rate
    rate = lambda lod: fmul(fc(OMEGA), fsubt(ONE, fdiv(lod, fc(86400.0))))

    def rsu(K):
        K.o, K.l = K.cells("o", 24), K.real("lod")
        return [K.l, K.o]

    def rpost(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure_f(st, "rotation rate", st.ret, rate(K.l))
        for i in range(3):
            K.ensure_f(st, f"rotation vector, component {i}", K.get(st, K.o, 8 * i), rate(K.l) if i == 2 else ZERO)
    out.append(Contract("earth_rotation_rate, earth_rotation_axis", "vc_rate", rsu, rpost, covers=["earth_rotation_rate", "earth_rotation_axis"], **kw))

    # the assembled transformations
    NAMES = ("xp", "yp", "dut", "lod", "dX", "dY")

    def asu(K, outs, sp):
        X, Y = polar(K)
        K.t, K.e = K.cells("t", 48), K.cells("eop", 48)
        K.v = {n: K.real(n) for n in NAMES}
        for i, n in enumerate(NAMES):
            K.put(K.e, 8 * i, 8, K.v[n])
        k = fc(K_)
        K.m, cent = K.real("mjd"), K.real("centuries")          # any day and fraction: the fraction written with the centuries since J2000
        K.f = fadd(fmul(fc(36525.0), cent), fsubt(fc(51544.5), K.m))
        K.mX, K.mY = fsubt(X, fmul(K.v["dX"], k)), fsubt(Y, fmul(K.v["dY"], k))
        fa = [ffn("farg", i, K.m, K.f) for i in range(14)]
        K.loc = ffn("s06", K.m, K.f, K.mX, K.mY, *fa)
        K.sp = fmul(fmul(fc(-47e-6), cent), k)
        K.ut1 = fadd(K.f, fdiv(fsubt(K.v["dut"], fc(69.184)), fc(86400.0)))
        K.th = K.real("th")
        K.era = fadd(fsubt(K.th, K.sp if sp else ZERO), K.loc)
        for i, x in enumerate((K.m, K.f, K.mX, K.mY, K.ut1, K.era)):
            K.put(K.t, 8 * i, 8, x)
        K.outs = [K.cells(n, s) for n, s in outs]
        return [K.t, K.e] + K.outs

    def asm(name, entry, outs, post, sp=True):
        def p(K, st):
            K.ensure(st, "returns", st.status == "ret")
            post(K, st, R1(fneg(fmul(K.v["yp"], fc(K_)))), R2(fneg(fmul(K.v["xp"], fc(K_)))))
        out.append(Contract(name, entry, lambda K: asu(K, outs, sp), p, covers=["c2i06a" if "bz" not in entry else "c2i06a_bz", "sp00", "sec2rad"], **kw))
    m = ("o", 80)
    full = lambda K, st, A, B: same(K, st, K.outs[0], mm(A, B, RQ(K.th, E, D)), "polar motion, Earth rotation, celestial pole")
    asm("c2i06a", "vc_c2i06a", [m], full)
    asm("c2i06a_bz", "vc_c2i06a_bz", [m], full)

    def fulld(K, st, A, B):
        full(K, st, A, B)
        # W dR C with dR = omega R3(pi/2 + era) without its last row: the same combination of rotations about one axis
        om = rate(K.v["lod"])
        same(K, st, K.outs[1], mm(A, B, R3(K.sp), dR(K.era, om), Qt(E, D, K.loc)), "derivative")
    asm("c2i06a with derivative", "vc_c2i06a_d", [m, ("d", 72)], fulld)

    def pq(K, st, A, B):
        same(K, st, K.outs[0], RQ(K.th, E, D), "GCRS to TIRS")
        same(K, st, K.outs[1], mm(A, B, R3(K.sp)), "TIRS to ITRS")
        for i in range(3):
            K.ensure_f(st, f"rotation vector, component {i}", K.get(st, K.outs[2], 8 * i), rate(K.v["lod"]) if i == 2 else ZERO)
    asm("c2i06a, two quaternions", "vc_c2i06a_pq", [m, ("q", 80), ("w", 24)], pq, sp=False)
    return out
