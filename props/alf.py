"""Contracts of the normalised associated Legendre functions (C08 values, C09 derivatives)."""
from vc.contract import Contract
from vc import layouts as LY, slices as SL
from vc.terms import *
from . import matrix as MX

HARNESS = "v_alf.cpp"
L = "LwTriangularColWise"
DEG = SL.DM - 1


def fsq(a, b):
    return ffn("sqrt", fdiv(i2f(a), i2f(b)))


def plm(n, m, u):
    """the function at (n,m), with the two seeds written out"""
    return fite(band(beq(n, m), ble(n, 1)), fite(beq(n, 0), fc(1.0), fmul(ffn("sqrt", fc(3.0)), u)), mkf("spec", "plm", n, m))


def dplm(n, m):
    return mkf("spec", "dplm", n, m)


def unfold(K, pc, name, a):
    """the defining (forward column) recurrence of the fully normalised functions of latitude:
         P(0,0) = 1, P(1,1) = sqrt3 u, P(m,m) = u sqrt((2m+1)/(2m)) P(m-1,m-1),
         P(n,m) = a(n,m) t P(n-1,m) - b(n,m) P(n-2,m)  (second term absent for n = m+1)
       and of the derivative: u P'(n,m) = n t P(n,m) - f(n,m) P(n-1,m)  (f(m,m) = 0)"""
    n, m = a
    u, t = K.u, K.t
    p = lambda n, m: plm(n, m, u)
    if name == "plm":
        diag = fmul(fmul(u, fsq(2 * m + 1, 2 * m)), p(m - 1, m - 1))
        A = fmul(fmul(fsq((2 * n - 1) * (2 * n + 1), (n - m) * (n + m)), t), p(n - 1, m))
        B = fmul(fsq((2 * n + 1) * (n + m - 1) * (n - m - 1), (n - m) * (n + m) * (2 * n - 3)), p(n - 2, m))
        c0, c1 = beq(n, m), beq(n, m + 1)
        if c0 is True:
            return diag
        if c1 is True:
            return A
        return fite(c0, diag, fite(c1, A, fsubt(A, B)))
    if name == "dplm":
        f = fsq((n * n - m * m) * (2 * n + 1), 2 * n - 1)
        d = fdiv(fmul(fmul(i2f(m), t), p(m, m)), u)
        r = fdiv(fsubt(fmul(fmul(i2f(n), t), p(n, m)), fmul(f, p(n - 1, m))), u)
        return fite(beq(n, m), d, r)
    return None


def tri(K, name, extra):
    """storage for degree K.D: any square size above it"""
    r = K.int(name + "r", 1, SL.DM)
    K.assume(blt(K.D, r))
    o = MX.mat(K, L, name, "own", dims=(r, r))
    K.views[K.st.mem[o.data.blk].key] = SL.view(L, r, r, {name: lambda k: extra(*k)})
    return o


def contracts(deriv):
    out = []

    def setup(K):
        K.th = K.real("theta")
        K.u, K.t = ffn("cos", K.th), ffn("sin", K.th)
        K.D = K.int("n", 0, DEG)
        K.M = K.int("m", 0, DEG)
        K.assume(ble(K.M, K.D))
        K.focus = ["n", "m"]
        if deriv:
            K.assume(bnot(fcmp("oeq", K.u, fc(0.0))))
        K.P = tri(K, "P", lambda n, m: plm(n, m, K.u))
        if deriv:
            K.dP = tri(K, "dP", dplm)
            return [K.th, K.D, K.M, K.P.p, K.dP.p]
        return [K.th, K.D, K.M, K.P.p]

    def post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure(st, "reports success", beq(st.ret, 0) if is_int(st.ret) else False)
        for o, nm, fn in ((K.P, "Legendre function", lambda n, m: plm(n, m, K.u)),) + (((K.dP, "derivative", dplm),) if deriv else ()):
            f = MX.fields(K, L, st, o.p)
            K.ensure(st, f"{nm}: storage keeps its size", beq(f.r, o.r) if is_int(f.r) else False)
            v = SL.view(L, o.r, o.r)
            K.forall_cells(st, f"{nm} at every (n,m), m <= n <= degree, m <= order", v,
                           lambda k: (K.aget(st, f.data, v.idx(k)), fn(*k), band(ble(k[0], K.D), ble(k[1], K.M))))

    sm = []
    for n in range(0, 6):
        for m in sorted({0, 1, n // 2, n} & set(range(n + 1))):
            for q in (1, 3):
                r = n + q
                s = dict(n=n, m=m, Pr=r, PN=r * (r + 1) // 2, Pcap=r * (r + 1) // 2 + q, Plen=r * (r + 1) // 2 + 2 * q)
                if deriv:
                    r = n + 1 + (q == 1)
                    s.update(dPr=r, dPN=r * (r + 1) // 2, dPcap=r * (r + 1) // 2 + 5, dPlen=r * (r + 1) // 2 + 9)
                sm.append(s)
    out.append(Contract("derivatives" if deriv else "values", "vc_dalf" if deriv else "vc_alf", setup, post, sm, mode="real", unfold=unfold,
                        covers=["dso::normalised_associated_legendre_functions", "anm", "bnm", "fnm"], timeout=800, unfold_depth=2 if deriv else 1))
    return out
