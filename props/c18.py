"""C18: EOP interpolation"""
from vc.contract import Contract
from vc.exec import AV, Ptr
from vc.terms import *

ID = "C18"
HARNESS = "v_eop.cpp"
NATIVE = [("n_c18.cpp", ["src/lib/eop/lagrange_interpolation.cpp", "src/lib/eop/approx_dut1.cpp"], dict(defs=["-DVC_NATIVE", "-DVC_MJD_REAL"]))]
ASSUMPTIONS = ["real arithmetic; degree 1 to 9; records in strictly increasing order of their epochs",
               "std::upper_bound is replaced by its contract (on a sorted range: the only position with no later epoch before it and a later one at it)",
               "the absent datetime library is replaced by a stand-in: an epoch is a day and a fraction, leap seconds are an unknown function of the UTC day"]
S, NF = 88, 11          # size of a record, its doubles
T0, XP, YP, DUT, LOD, DX, DY, DAT, XR, YR = 0, 16, 24, 32, 40, 48, 56, 64, 72, 80
NMAX = 1 << 40
STATUS = dict(prior=0, later=1, linear=2, decreased=3, requested=4)


def series(K, null=False):
    K.n = K.int("N", 0, NMAX)
    K.p = K.int("p", 0, NMAX)
    K.assume(ble(K.p, K.n))
    v = K.array("rec", K.n, stride=S)
    b = K.st.wblk(v.blk)
    b.arr = {f: AV("base", f"rec{f}") for f in range(0, S, 8)}
    b.ro = True
    s = K.cells("series", 24 + 160)
    K.put(s, 0, 8, v)
    K.put(s, 8, 8, Ptr(v.blk, K.n * S))
    K.put(s, 16, 8, Ptr(v.blk, K.n * S))
    for i in range(20):
        K.put(s, 24 + 8 * i, 8, K.real(f"work{i}"))
    K.v, K.s = v, s
    return s


def rec(K, i, f):
    return mkf("rd", f"rec{f}", i)


def diff(a, b):
    return fadd(fsubt(a[0], b[0]), fsubt(a[1], b[1]))


def ep(K, i):
    return rec(K, i, 0), rec(K, i, 8)


def later(K, i):
    """t is before record i (the comparison the code's epoch type makes)"""
    return fcmp("olt", diff(K.t, ep(K, i)), fc(0.0))


def epoch(K, at=None):
    """an epoch (day, fraction) with upper bound p; at: equal to the epoch of that record"""
    q = K.cells("t", 16)
    d = i2f(K.int("day", -10000000, 10000000))
    K.day = d
    f = K.real("tf") if at is None else fsubt(fadd(*ep(K, at)), d)
    K.t = d, f
    K.put(q, 0, 8, K.t[0])
    K.put(q, 8, 8, K.t[1])
    K.tp = q
    return q


def bracket(K):
    """p is the upper bound of t: no record before p is later than t, record p is"""
    K.ex.pick = K.p
    K.assume(bor(beq(K.p, 0), bnot(later(K, K.p - 1))))
    K.assume(bor(beq(K.p, K.n), later(K, K.p)))


FIELDS = ((XP, "xp"), (YP, "yp"), (LOD, "LOD"), (DX, "dX"), (DY, "dY"))


def dat(K):
    return ffn("dat", K.params["day"])


def lagrange(K, h, f):
    """value at t of the polynomial through records p-h .. p+h-1; UT1-TAI for UT1"""
    z = fc(0.0)
    for j in range(-h, h):
        w = fc(1.0)
        for k in range(-h, h):
            if k != j:
                w = fmul(w, fdiv(diff(K.t, ep(K, K.p + k)), diff(ep(K, K.p + j), ep(K, K.p + k))))
        v = rec(K, K.p + j, f)
        if f == DUT:
            v = fsubt(v, rec(K, K.p + j, DAT))
        z = fadd(z, fmul(v, w))
    return fadd(z, dat(K)) if f == DUT else z


def possible(K, st, c):
    if c is True or c is False:
        return c
    return K.ex.smt.sat(st.pc, (c,)) is not False


def cases(K, st, d):
    """(half width, condition): as many records on both sides as the degree asks for, or as there are"""
    H = (d + 1) // 2
    for h in range(1, H + 1):
        both = band(ble(h, K.p), ble(h, K.n - K.p))
        c = both if h == H else band(both, bor(beq(K.p, h), beq(K.n - K.p, h)))
        if possible(K, st, c):
            yield h, c


def unchanged(K, st):
    b = st.mem[K.v.blk]
    K.ensure(st, "records are not written", not b.ov and all(b.arr[f].op == "base" for f in b.arr))
    for i, w in enumerate((K.v, Ptr(K.v.blk, K.n * S))):
        g = K.get(st, K.s, 8 * i)
        K.ensure(st, "series unchanged", isinstance(g, Ptr) and g.blk == w.blk and beq(g.off, w.off))


def outside(K, st, out, i, status, c):
    K.ensure(st, "flagged", bor(bnot(c), beq(st.ret, status)))
    for f in range(XP, S, 8):
        K.ensure_f(st, "values of the nearest record", K.get(st, out, f), rec(K, i, f), c)


def is_time(t):
    return t.op == "i2f" or t is fsym("tf") or (t.op == "rd" and t.args[0] in ("rec0", "rec8"))


OPTS = dict(factor=is_time, fork_loops=16)


def contracts():
    out = []
    for d in range(1, 10):
        def ins(K, d=d, at=False, default=False):
            s = series(K)
            if at:
                K.assume(ble(1, K.p))
                K.assume(blt(K.p, K.n))
            q = epoch(K, K.p - 1 if at else None)
            bracket(K)
            K.o = K.cells("out", S, arbitrary=True)
            return [s, q, K.o] + ([] if default else [d])

        def post(K, st, d=d, at=False):
            K.ensure(st, "returns", st.status == "ret")
            unchanged(K, st)
            if not at:
                for c, i, s in ((band(blt(0, K.n), beq(K.p, 0)), 0, STATUS["prior"]), (band(blt(0, K.n), beq(K.p, K.n)), K.n - 1, STATUS["later"]),
                                (beq(K.n, 0), None, STATUS["prior"])):
                    if possible(K, st, c):
                        if i is None:
                            K.ensure(st, "empty series flagged", bor(bnot(c), beq(st.ret, s)))
                        else:
                            outside(K, st, K.o, i, s, c)
            for h, c in cases(K, st, d):
                w = STATUS["linear"] if h == 1 else STATUS["requested"] if 2 * h == d + 1 else STATUS["decreased"]
                K.ensure(st, "status tells the degree used", bor(bnot(c), beq(st.ret, w)))
                for f, n in FIELDS + ((DUT, "UT1"),):
                    g = K.get(st, K.o, f)
                    if at:
                        v = rec(K, K.p - 1, f)
                        if f == DUT:
                            v = fadd(fsubt(v, rec(K, K.p - 1, DAT)), dat(K))
                        K.ensure_f(st, f"{n} at the epoch of a record is the record's", g, v, c)
                    else:
                        K.ensure_f(st, f"{n} is the interpolating polynomial through the nearest records", g, lagrange(K, h, f), c)
                K.ensure_f(st, "epoch of the result", K.get(st, K.o, 0), K.t[0], c)
                K.ensure_f(st, "epoch of the result", K.get(st, K.o, 8), K.t[1], c)
        cov = ["EopSeries::interpolate", "EopSeries::upper_bound"]
        out.append(Contract(f"interpolate, degree {d}", "vc_eop_interp", ins, post, covers=cov, opts=OPTS))
        out.append(Contract(f"interpolate at a record, degree {d}", "vc_eop_interp", lambda K, i=ins: i(K, at=True), lambda K, st, p=post: p(K, st, at=True), covers=cov, opts=OPTS))
        if d == 5:
            out.append(Contract("interpolate, default degree", "vc_eop_interp_default", lambda K, i=ins: i(K, default=True), post, covers=cov, opts=OPTS))

    def a_in(K, at=False):
        s = series(K)
        if at:
            K.assume(ble(1, K.p))
            K.assume(blt(K.p, K.n))
        q = epoch(K, K.p - 1 if at else None)
        bracket(K)
        K.o = K.cells("out", 8, arbitrary=True)
        return [s, q, K.o]

    def a_post(K, st, at=False):
        K.ensure(st, "returns", st.status == "ret")
        unchanged(K, st)
        g = K.get(st, K.o, 0)
        if not at:
            for c, i, s in ((band(blt(0, K.n), beq(K.p, 0)), 0, STATUS["prior"]), (band(blt(0, K.n), beq(K.p, K.n)), K.n - 1, STATUS["later"])):
                if possible(K, st, c):
                    K.ensure(st, "flagged", bor(bnot(c), beq(st.ret, s)))
                    K.ensure_f(st, "UT1 of the nearest record", g, rec(K, i, DUT), c)
            if possible(K, st, beq(K.n, 0)):
                K.ensure(st, "empty series flagged", bor(blt(0, K.n), beq(st.ret, STATUS["prior"])))
        for h, c in cases(K, st, 1):
            K.ensure(st, "status", bor(bnot(c), beq(st.ret, STATUS["linear"])))
            v = fadd(fsubt(rec(K, K.p - 1, DUT), rec(K, K.p - 1, DAT)), dat(K)) if at else lagrange(K, 1, DUT)
            K.ensure_f(st, "UT1 on the line through the two nearest records" if not at else "UT1 at the epoch of a record is the record's", g, v, c)
    out.append(Contract("approximate UT1", "vc_eop_approx", a_in, a_post, covers=["EopSeries::approx_dut1"], opts=OPTS))
    out.append(Contract("approximate UT1 at a record", "vc_eop_approx", lambda K: a_in(K, True), lambda K, st: a_post(K, st, True), covers=["EopSeries::approx_dut1"], opts=OPTS))
    return out
