"""C24: solid Earth tide (nominal Love numbers) and pole tide corrections"""
import math
from vc.contract import Contract
from vc.terms import *
from vc import slices as SL
from vc.exec import Ptr, AV, INLINE
from vc.loops import flat_view
from . import matrix as MX, stokes as ST

ID = "C24"
HARNESS = "v_tides.cpp"
DEFS = ["-DVC_MJD_REAL", "-fno-access-control"]
NATIVE = [("n_c24.cpp", ["src/lib/stokes_coefficients.cpp", "src/lib/solid_earth_tides/iers2010_geopotential_step1.cpp", "src/lib/solid_earth_tides/iers2010_stokes_coeffs.cpp",
                         "src/lib/solid_earth_tides/iers2010_displacement_step1.cpp", "src/lib/pole_tide/pole_tide_deformation.cpp",
                         "src/lib/pole_tide/ocean_pole_tide_deformation.cpp"], dict(defs=["-DVC_NATIVE", "-DVC_MJD_REAL", "-fno-access-control"]))]
DEPENDS = ("C01",)
ASSUMPTIONS = ["real arithmetic; decimal constants up to their rounding (coefficients compared within 1e-12)",
               "bodies and stations away from the geocentre; GM, radius and gravity positive",
               "geocentric latitude and longitude of a position are unknown functions of its coordinates, sin^2 + cos^2 = 1; the frequency dependent corrections (step 2) are "
               "unknown functions of epochs and arguments (not covered)",
               "scaling of a Stokes set by its contract (C06); the load Love number table is a table of symbols (the driver checks that it is smooth)",
               "the ocean pole tide object is in the state its constructors leave: degree <= 360, matrices of degree + 1 rows",
               "the absent libraries are replaced by stand-ins (harness/stubs): cartesian2spherical, geodetic2lvlh with columns east, north, up, epochs"]
PI = math.pi
ZERO, ONE, TWO, THREE = fc(0.0), fc(1.0), fc(2.0), fc(3.0)
sin, cos = lambda a: ffn("sin", a), lambda a: ffn("cos", a)


def add(*a):
    r = a[0]
    for x in a[1:]:
        r = fadd(r, x)
    return r


def mul(*a):
    r = a[0] if not isinstance(a[0], float) else fc(a[0])
    for x in a[1:]:
        r = fmul(r, fc(x) if isinstance(x, float) else x)
    return r


def pw(x, n):
    r = x
    for _ in range(n - 1):
        r = fmul(r, x)
    return r


def multiple(m, a):
    """(cos(m a), sin(m a)) by de Moivre's formula"""
    c, s = ONE, ZERO
    for _ in range(m):
        c, s = fsubt(fmul(c, cos(a)), fmul(s, sin(a))), fadd(fmul(s, cos(a)), fmul(c, sin(a)))
    return c, s


def dot(a, b):
    return add(*[fmul(x, y) for x, y in zip(a, b)])


def vsum(*vs):
    return [add(*c) for c in zip(*vs)]


def vs(k, v):
    return [fmul(k, x) for x in v]


# ------------------------------------------------------------------ pole coordinates
def jyears(tt):
    return fdiv(fadd(fsubt(tt[0], fc(51544.0)), fsubt(tt[1], fc(0.5))), fc(365.25))


def m12(tt, xp, yp):
    """IERS 2010 (7.24, 7.25) with the secular pole of the conventions update 2018: arc seconds"""
    y = jyears(tt)
    xs, ys = fadd(fc(55.0), fmul(fc(1.677), y)), fadd(fc(320.5), fmul(fc(3.460), y))
    return fsubt(xp, fmul(fc(1e-3), xs)), fneg(fsubt(yp, fmul(fc(1e-3), ys)))


# ------------------------------------------------------------------ geopotential, step 1
K2 = {0: (0.30190, 0.0), 1: (0.29830, -0.00144), 2: (0.30102, -0.00130)}
K3 = {0: 0.093, 1: 0.093, 2: 0.093, 3: 0.094}
KP = {0: -0.00089, 1: -0.00080, 2: -0.00057}
IDX = {(2, 0): 0, (2, 1): 1, (2, 2): 2, (3, 0): 3, (3, 1): 4, (3, 2): 5, (3, 3): 6, (4, 0): 7, (4, 1): 8, (4, 2): 9, (4, 3): 10, (4, 4): 11}


def legendre(n, m, t, u):
    """fully normalised associated Legendre function of sin(latitude) = t, cos(latitude) = u (without the Condon-Shortley phase)"""
    c = math.sqrt((2 * n + 1) * (1 if m == 0 else 2) * math.factorial(n - m) / math.factorial(n + m))
    P = {(2, 0): lambda: fdiv(fsubt(mul(3.0, t, t), ONE), TWO), (2, 1): lambda: mul(3.0, t, u), (2, 2): lambda: mul(3.0, u, u),
         (3, 0): lambda: fdiv(fsubt(mul(5.0, t, t, t), mul(3.0, t)), TWO), (3, 1): lambda: mul(1.5, fsubt(mul(5.0, t, t), ONE), u),
         (3, 2): lambda: mul(15.0, t, u, u), (3, 3): lambda: mul(15.0, u, u, u)}[n, m]()
    return fmul(fc(c), P)


def body(n, m, ratio, re, p):
    """contribution of one body to (delta C, delta S) of degree n, order m: IERS 2010 (6.6), (6.7)"""
    lat, lon = ffn("sphlat", *p), ffn("sphlon", *p)
    q = fdiv(re, ffn("sqrt", dot(p, p)))
    d = 2 if n == 4 else n
    if (n == 4 and m > 2) or m > d:
        return ZERO, ZERO
    kr, ki = (KP[m], 0.0) if n == 4 else (K3[m], 0.0) if n == 3 else K2[m]
    f = mul(ratio, pw(q, d + 1), legendre(d, m, sin(lat), cos(lat)), 1.0 / (2 * d + 1))
    c, s = multiple(m, lon)
    return fmul(f, fadd(mul(kr, c), mul(ki, s))), fmul(f, fsubt(mul(kr, s), mul(ki, c)))


def step1(n, m, par, moon, sun):
    a, b = body(n, m, fdiv(par[2], par[0]), par[1], sun), body(n, m, fdiv(par[3], par[0]), par[1], moon)
    return fadd(a[0], b[0]), fadd(a[1], b[1])


# ------------------------------------------------------------------ displacement, step 1
def disp_body(re, ratio, x, lat, lon, p):
    """one body, IERS 2010 (7.2), (7.5), (7.6) in the Earth-fixed frame; (7.8)-(7.11) east, north, radial"""
    P, L = ffn("sphlat", *p), ffn("sphlon", *p)
    r, R = ffn("sqrt", dot(x, x)), ffn("sqrt", dot(p, p))
    er, eR = [fdiv(c, r) for c in x], [fdiv(c, R) for c in p]
    p2 = fdiv(fsubt(mul(3.0, er[2], er[2]), ONE), TWO)
    h2, l2 = fadd(fc(0.6078), mul(-0.0006, p2)), fadd(fc(0.0847), mul(0.0002, p2))
    w = dot(er, eR)
    perp = [fsubt(a, fmul(w, b)) for a, b in zip(eR, er)]
    a2 = vsum(vs(mul(h2, fdiv(fsubt(mul(3.0, w, w), ONE), TWO)), er), vs(mul(3.0, l2, w), perp))
    a3 = vsum(vs(mul(0.292, fdiv(fsubt(mul(5.0, w, w, w), mul(3.0, w)), TWO)), er), vs(mul(0.015, fdiv(fsubt(mul(15.0, w, w), THREE), TWO)), perp))
    q = fdiv(re, R)
    f = mul(ratio, pw(q, 3), re)
    xyz = vs(f, vsum(a2, vs(q, a3)))
    dl = fsubt(lon, L)
    cdl2, sdl2 = multiple(2, dl)
    s2P, cP2 = multiple(2, P)[1], pw(cos(P), 2)
    (c2p, s2p), sp, cp = multiple(2, lat), sin(lat), cos(lat)
    P21, P22 = mul(3.0, sin(P), cos(P)), mul(3.0, cP2)
    hd, ld, hs, ls, l1d, l1s = -0.0025, -0.0007, -0.0022, -0.0007, 0.0012, 0.0024
    up = add(mul(-0.75 * hd, s2P, s2p, sin(dl)), mul(-0.75 * hs, cP2, cp, cp, sdl2))
    north = add(mul(-1.5 * ld, s2P, c2p, sin(dl)), mul(0.75 * ls, cP2, s2p, sdl2),
                mul(-l1d, sp, P21, sp, cos(dl)), mul(-0.5 * l1s, sp, cp, P22, cdl2))
    east = add(mul(-1.5 * ld, s2P, sp, cos(dl)), mul(-1.5 * ls, cP2, cp, cdl2),
               mul(l1d, sp, P21, c2p, sin(dl)), mul(-0.5 * l1s, sp, cp, P22, sp, sdl2))
    return xyz, vs(f, [east, north, up])


def enu(lat, lon):
    sf, cf, sl, cl = sin(lat), cos(lat), sin(lon), cos(lon)
    return [[fneg(sl), cl, ZERO], [fneg(fmul(sf, cl)), fneg(fmul(sf, sl)), cf], [fmul(cf, cl), fmul(cf, sl), sf]]


def arr(K, name, n, vals=None):
    p = K.cells(name, 8 * n)
    v = vals or [K.real(f"{name}{i}") for i in range(n)]
    for i in range(n):
        K.put(p, 8 * i, 8, v[i])
    return p, v

def pole(K):
    K.tp, K.t = arr(K, "t", 2)
    K.xp, K.yp = K.real("xp"), K.real("yp")
    K.m1, K.m2 = m12(K.t, K.xp, K.yp)


def contracts():
    out = []
    o = dict(mode="real", opts={"near": 1e-12, "limit": 200000, "norms": True}, timeout=600, post_timeout=200)

    def mk(nm, fn, setup, post, cov, **kw):
        out.append(Contract(nm, fn, setup, post, covers=cov, **dict(o, **kw)))

    def outs(K, n):
        K.o = K.cells("o", 8 * n)
        return K.o

    def s_simple(K):
        pole(K)
        return [K.tp, K.xp, K.yp, outs(K, 2)]

    def p_simple(f):
        def post(K, st):
            K.ensure(st, "returns", st.status == "ret")
            for i, (nm, w) in enumerate(f(K.m1, K.m2)):
                K.ensure_f(st, nm, K.get(st, K.o, 8 * i), w)
        return post
    mk("pole wobble from the pole coordinates", "vc_m12", s_simple, p_simple(lambda a, b: [("m1: pole x minus secular x", a), ("m2: minus (pole y minus secular y)", b)]),
       ["secular_pole", "pole_tide_details::mcoeffs"])
    mk("solid Earth pole tide: C21, S21", "vc_pole", s_simple,
       p_simple(lambda a, b: [("C21", mul(-1.333e-9, fadd(a, mul(0.0115, b)))), ("S21", mul(-1.333e-9, fsubt(b, mul(0.0115, a))))]), ["PoleTide::stokes_coeffs"])
    mk("ocean pole tide, dominant term: C21, S21", "vc_opole", s_simple,
       p_simple(lambda a, b: [("C21", mul(-2.1778e-10, fsubt(a, mul(0.01724, b)))), ("S21", mul(-1.7232e-10, fsubt(b, mul(0.03365, a))))]), ["OceanPoleTide::stokes_coeffs (static)"])

    def s_pd(K):
        pole(K)
        K.lat, K.lon = K.real("lat"), K.real("lon")
        return [K.tp, K.xp, K.yp, K.lat, K.lon, outs(K, 3)]

    def p_pd(K, st):
        K.ensure(st, "returns", st.status == "ret")
        th = fsubt(fc(PI / 2), K.lat)
        a = fadd(fmul(K.m1, cos(K.lon)), fmul(K.m2, sin(K.lon)))
        sr, sth = mul(-33.0, TWO, sin(th), cos(th), a), mul(-9.0, fsubt(mul(2.0, cos(th), cos(th)), ONE), a)
        sl = mul(9.0, cos(th), fsubt(fmul(K.m1, sin(K.lon)), fmul(K.m2, cos(K.lon))))
        ct, s_, cl, s2 = cos(th), sin(th), cos(K.lon), sin(K.lon)
        w = [add(mul(ct, cl, sth), fneg(fmul(s2, sl)), mul(s_, cl, sr)), add(mul(ct, s2, sth), fmul(cl, sl), mul(s_, s2, sr)), add(fneg(fmul(s_, sth)), fmul(ct, sr))]
        for i in range(3):
            K.ensure_f(st, f"component {i} of the displacement in metres", K.get(st, K.o, 8 * i), mul(1e-3, w[i]))
    mk("solid Earth pole tide: displacement", "vc_poledef", s_pd, p_pd, ["PoleTide::deformation"])

    def s_od(K):
        pole(K)
        K.lat, K.lon = K.real("lat"), K.real("lon")
        qp, K.q = arr(K, "q", 6)
        pp, K.par = arr(K, "par", 5)
        for i in (1, 4):
            K.assume(fcmp("olt", ZERO, K.par[i]))
        return [K.tp, K.xp, K.yp, K.lat, K.lon, qp, pp, outs(K, 3)]

    def p_od(K, st):
        K.ensure(st, "returns", st.status == "ret")
        re, gm, om, g, ge = K.par
        rad = fc(PI / 648000)
        a, b = fmul(K.m1, rad), fmul(K.m2, rad)
        A, B = fadd(mul(0.6870, a), mul(0.0036, b)), fsubt(mul(0.6870, b), mul(0.0036, a))
        hp = fdiv(mul(math.sqrt(8 * PI / 15), om, om, pw(re, 4)), gm)
        k = fdiv(mul(4 * PI / 3 * 1025, g, re, hp), ge)
        loc = [fadd(fmul(A, K.q[i]), fmul(B, K.q[i + 1])) for i in (4, 2, 0)]      # east, north, up
        R = enu(K.lat, K.lon)
        for i in range(3):
            K.ensure_f(st, f"component {i} of the displacement", K.get(st, K.o, 8 * i), fmul(k, add(*[fmul(R[j][i], loc[j]) for j in range(3)])))
    mk("ocean pole tide: displacement", "vc_opoledef", s_od, p_od, ["OceanPoleTide::deformation"])

    def bodies(K, names):
        K.parp, K.par = arr(K, "par", 4)
        for i in (0, 1):
            K.assume(fcmp("olt", ZERO, K.par[i]))
        r = {}
        for n in names:
            r[n] = arr(K, n, 3)
            K.assume(fcmp("olt", ZERO, dot(r[n][1], r[n][1])))
        K.v = {n: r[n][1] for n in names}
        return {n: r[n][0] for n in names}

    def s_1(K):
        b = bodies(K, ("moon", "sun"))
        K.c, K.s = arr(K, "c", 12)[0], arr(K, "s", 12)[0]
        return [K.parp, b["moon"], b["sun"], K.c, K.s]

    def p_1(K, st):
        K.ensure(st, "returns", st.status == "ret" and st.ret == 0)
        for (n, m), i in IDX.items():
            c, s = step1(n, m, K.par, K.v["moon"], K.v["sun"])
            K.ensure_f(st, f"C({n},{m}): Sun + Moon, whatever the array held", K.get(st, K.c, 8 * i), c)
            K.ensure_f(st, f"S({n},{m}): Sun + Moon, whatever the array held", K.get(st, K.s, 8 * i), s)
    mk("solid Earth tide, step 1: geopotential", "vc_step1", s_1, p_1, ["SolidEarthTide::potential_step1", "iers2010_solid_earth_tide_anelastic_tb", "SolidEarthTide::SolidEarthTide"])

    def s_set(K):
        b = bodies(K, ("moon0", "sun0", "moon", "sun"))
        t, K.tt = arr(K, "tt", 2)
        u, K.ut = arr(K, "ut", 2)
        f, K.fa = arr(K, "fa", 5)
        K.c, K.s = K.cells("c", 120), K.cells("s", 120)
        return [K.parp, b["moon0"], b["sun0"], b["moon"], b["sun"], t, u, f, K.c, K.s]

    def p_set(K, st):
        K.ensure(st, "returns", st.status == "ret" and st.ret == 0)
        s2 = lambda i: ffn("step2", i, *(K.tt + K.ut + K.fa))
        extra = {("C", 2, 0): 0, ("C", 2, 1): 1, ("S", 2, 1): 2, ("C", 2, 2): 3, ("S", 2, 2): 4}
        k = 0
        for n in range(5):
            for m in range(n + 1):
                c, s = step1(n, m, K.par, K.v["moon"], K.v["sun"]) if n >= 2 else (ZERO, ZERO)
                for nm, w, p in (("C", c, K.c), ("S", s, K.s)):
                    if (nm, n, m) in extra:
                        w = fadd(w, s2(extra[nm, n, m]))
                    K.ensure_f(st, f"{nm}({n},{m}) of this request only: step 1 + step 2", K.get(st, p, 8 * k), w)
                k += 1
    mk("solid Earth tide: Stokes coefficients, second request", "vc_set", s_set, p_set, ["SolidEarthTide::stokes_coeffs", "SolidEarthTide::potential_step1"])

    def s_d(K):
        b = bodies(K, ("sta", "moon", "sun"))
        return [K.parp, b["sta"], b["moon"], b["sun"], outs(K, 3)]

    def p_d(K, st):
        K.ensure(st, "returns", st.status == "ret")
        x = K.v["sta"]
        lat, lon = ffn("sphlat", *x), ffn("sphlon", *x)
        xyz, loc = zip(disp_body(K.par[1], fdiv(K.par[2], K.par[0]), x, lat, lon, K.v["sun"]), disp_body(K.par[1], fdiv(K.par[3], K.par[0]), x, lat, lon, K.v["moon"]))
        xyz, loc = vsum(*xyz), vsum(*loc)
        R = enu(lat, lon)
        for i in range(3):
            K.ensure_f(st, f"{('east', 'north', 'radial')[i]} component", K.get(st, K.o, 8 * i), fadd(loc[i], dot(R[i], xyz)))
    mk("solid Earth tide, step 1: displacement", "vc_disp1", s_d, p_d, ["SolidEarthTide::step1_displacement", "step1"])

    desai(out)
    return out


# ------------------------------------------------------------------ ocean pole tide: full expansion
MAXD = 360
SCALE = "_ZN3dso12StokesCoeffs5scaleEd"


def desai(out):
    def setup(K, how):
        mod = K.ex.mod
        e, _ = SL.concrete(mod, "vc_optsz", lambda ex, st: [])
        size = e.ret

        def mk(ex, st):
            return [Ptr(ex.new_block(st, "c", size, "o").id, 0), Ptr(ex.new_block(st, "c", 56, "p").id, 0)]
        e, a = SL.concrete(mod, "vc_optparts", mk)
        off = [e.mem[a[1].blk].cells[8 * i][1].off for i in range(7)]
        K.obj = K.cells("tide", size)
        D, O = K.int("D", 0, MAXD), K.int("O", 0, MAXD)
        K.assume(ble(O, D))
        K.put(K.obj, off[0], 4, D)
        K.put(K.obj, off[1], 4, O)
        # the Stokes set of the object (degree and order of the object)
        R = ST.layout(K)
        s = ST.Stk()
        s.p = Ptr(K.obj.blk, off[2])
        s.gm, s.re = K.real("gm"), K.real("re")
        K.assume(fcmp("olt", ZERO, s.gm))
        for k, sz, v in (("gm", 8, s.gm), ("re", 8, s.re), ("deg", 4, D), ("ord", 4, O), ("norm", R["nsz"], 1)):
            K.put(s.p, off[2] + R[k], sz, v)
        s.r = D + 1
        s.C = MX.mat(K, ST.L, "C", "own", dims=(s.r, s.r), obj=Ptr(K.obj.blk, off[2] + R["C"]))
        s.S = MX.mat(K, ST.L, "S", "own", dims=(s.r, s.r), obj=Ptr(K.obj.blk, off[2] + R["S"]))
        K.s = s
        K.A = [MX.mat(K, ST.L, nm, "own", dims=(s.r, s.r), obj=Ptr(K.obj.blk, off[3 + i])) for i, nm in enumerate(("Ar", "Ai", "Br", "Bi"))]
        pole(K)
        K.n, K.m = K.int("n", -(1 << 31), (1 << 31) - 1), K.int("m", -(1 << 31), (1 << 31) - 1)
        K.focus = ["D", "n", "m"]
        K.par_p, K.par = arr(K, "par", 3)
        K.assume(fcmp("olt", ZERO, K.par[2]))
        if how[0] == "d":
            K.assume(blt(K.n, 0))
            K.N = D
        else:
            K.assume(ble(0, K.n))
            K.N = K.n
        if how[1] == "d":
            K.assume(blt(K.m, 0))
            K.M = O
        else:
            K.assume(ble(0, K.m))
            K.M = K.m
        ok = band(ble(K.M, K.N), band(ble(K.N, D), ble(K.M, O)))
        K.assume(bnot(ok) if how[2] == "r" else ok)
        rad = fc(PI / 648000)
        a, b = fmul(K.m1, rad), fmul(K.m2, rad)
        fr, fi = fadd(mul(0.6870, a), mul(0.0036, b)), fsubt(mul(0.6870, b), mul(0.0036, a))
        om, g, ge = K.par
        K.fac = fdiv(mul(om, om, pw(s.re, 4), 4 * PI * 1025, g), fmul(s.gm, ge))
        kn = lambda l: fdiv(fadd(ONE, mkf("rd", K.table, l)), i2f(2 * l + 1))
        gs = [n for n, x in mod.globs.items() if x.const and K.ex._dbl(x.ty) and x.ty.size == 8 * (MAXD + 1)]
        K.table = "table " + gs[0] if len(gs) == 1 else "table ?"
        K.knf = kn

        def val(q):
            def f(k):
                i = SL.index(ST.L, s.r, s.r, *k)
                return fmul(kn(k[0]), fadd(fmul(mkf("rd", "d" + K.A[2 * q].name, i), fr), fmul(mkf("rd", "d" + K.A[2 * q + 1].name, i), fi)))
            return f
        K.val = {"C": val(0), "S": val(1)}
        for nm, x in (("C", s.C), ("S", s.S)):
            K.views[K.st.mem[x.data.blk].key] = SL.view(ST.L, s.r, s.r, {"sum": K.val[nm]})
        return [K.obj, K.tp, K.xp, K.yp, K.n, K.m, K.par_p]

    def prep(K):
        """the scaling of a set by its contract (C06): every coefficient is multiplied by the factor"""
        def h(X, st, fr, i, args):
            R = ST.layout(K)
            for nm in "CS":
                m = MX.fields(K, ST.L, st, Ptr(args[0].blk, args[0].off + R[nm]))
                if not isinstance(m.data, Ptr) or st.mem.get(m.data.blk) is None:
                    return INLINE
                b = X.flush(st, m.data.blk)
                b.arr[0] = AV("map", X.av(st, b), lambda v: fmul(args[1], v))
            return None
        K.ex.ext[SCALE] = h

    def hv(K, bk):
        if bk[0] == "A":
            return flat_view(MAXD + 1, {"factor": lambda k: K.knf(k[0])})
        return None

    def post(K, st, how):
        if how[2] == "r":
            K.ensure(st, "refuses", st.status == "ret" and is_int(st.ret) and bnot(beq(st.ret, 0)))
            for nm, m in (("C", K.s.C), ("S", K.s.S)):
                MX.same_obj(K, ST.L, st, m, f"coefficients {nm} after a refusal")
            return
        K.ensure(st, "returns", st.status == "ret")
        K.ensure(st, "reports success", beq(st.ret, 0) if is_int(st.ret) else False)
        for nm, m in (("C", K.s.C), ("S", K.s.S)):
            f = MX.fields(K, ST.L, st, m.p)
            K.forall_cells(st, f"{nm}(n,m) for every m <= n <= degree, m <= order", SL.view(ST.L, K.s.r, K.s.r),
                           lambda k, nm=nm, f=f: (K.aget(st, f.data, SL.index(ST.L, K.s.r, K.s.r, *k)), fmul(K.fac, K.val[nm](k)), band(ble(k[0], K.N), ble(k[1], K.M))))

    def samples(how):
        sm = []
        for D in range(0, 6):
            for O in sorted({0, 1, D // 2, D} & set(range(D + 1))):
                for n in ([-1] if how[0] == "d" else range(0, D + 1 if how[2] == "o" else D + 2)):
                    for m in ([-1] if how[1] == "d" else range(0, O + 1 if how[2] == "o" else O + 2)):
                        N, M = D if n < 0 else n, O if m < 0 else m
                        if (M <= N <= D and M <= O) != (how[2] == "o"):
                            continue
                        d = dict(D=D, O=O, n=n if n >= 0 else -1 - (5 * D + 3 * O + 11 * max(m, 0)) % 17, m=m if m >= 0 else -1 - (7 * D + 5 * O + 13 * max(n, 0)) % 19)
                        k = (D + 1) * (D + 2) // 2
                        for x, nm in enumerate(("C", "S", "Ar", "Ai", "Br", "Bi")):
                            d[nm + "N"], d[nm + "cap"], d[nm + "len"] = k, k + (x + D) % 3, k + (x + D) % 3 + (x + n) % 2
                        sm.append(d)
        return sm[::max(1, len(sm) // 30)]
    for how in ("ddo", "dgo", "gdo", "ggo", "gdr", "dgr", "ggr"):
        nm = {"d": "default ", "g": "given "}[how[0]] + "degree, " + {"d": "default ", "g": "given "}[how[1]] + "order" + (" (refused)" if how[2] == "r" else "")
        out.append(Contract("ocean pole tide expansion: " + nm, "vc_opt", lambda K, how=how: setup(K, how), lambda K, st, how=how: post(K, st, how), samples(how),
                            mode="real", prep=prep, heap_view=hv, timeout=600, opts={"near": 1e-12, "symtab": True, "array_allocas": 2000},
                            covers=["OceanPoleTide::stokes_coeffs", "pole_tide_details::mcoeffs"]))
