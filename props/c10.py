"""C10: point-mass acceleration and Jacobian"""
from vc.contract import Contract
from vc.terms import *

ID = "C10"
HARNESS = "v_basic.cpp"


def vec(K, nm):
    p = K.cells(nm, 24)
    v = [K.real(f"{nm}{i}") for i in range(3)]
    for i in range(3):
        K.put(p, 8 * i, 8, v[i])
    return p, v


def dot(a, b):
    return fadd(fadd(fmul(a[0], b[0]), fmul(a[1], b[1])), fmul(a[2], b[2]))


def spec(K):
    d = [fsubt(K.r[i], K.s[i]) for i in range(3)]
    q = dot(d, d)
    n = ffn("sqrt", q)
    d3 = fmul(fmul(n, n), n)
    w = ffn("sqrt", dot(K.s, K.s))
    s3 = fmul(fmul(w, w), w)
    acc = [fmul(fneg(K.gm), fadd(fdiv(d[i], d3), fdiv(K.s[i], s3))) for i in range(3)]
    n5 = fmul(d3, fmul(n, n))
    jac = [[fmul(fneg(K.gm), fsubt(fdiv(fc(1.0), d3) if i == j else fc(0.0), fdiv(fmul(fc(3.0), fmul(d[i], d[j])), n5)))
            for j in range(3)] for i in range(3)]
    return acc, jac


def contracts():
    def mk(jac):
        def setup(K):
            K.rp, K.r = vec(K, "r")
            K.sp, K.s = vec(K, "s")
            K.gm = K.real("GM")
            K.a = K.cells("a", 24)
            K.j = K.cells("J", 72)
            return [K.rp, K.sp, K.gm, K.a] + ([K.j] if jac else [])

        def post(K, st):
            K.ensure(st, "returns", st.status == "ret")
            acc, J = spec(K)
            for i in range(3):
                K.ensure_f(st, "acceleration is Newton's law", K.get(st, K.a, 8 * i), acc[i])
                K.ensure_f(st, "satellite position unchanged", K.get(st, K.rp, 8 * i), K.r[i])
                K.ensure_f(st, "body position unchanged", K.get(st, K.sp, 8 * i), K.s[i])
                if jac:
                    for j in range(3):
                        K.ensure_f(st, "Jacobian is the derivative of the acceleration", K.get(st, K.j, 8 * (i + 3 * j)), J[i][j])
        return Contract("acceleration" + (" and Jacobian" if jac else ""), "vc_pmj" if jac else "vc_pm", setup, post, mode="real",
                        covers=["dso::point_mass_acceleration" + ("(r,s,GM,J)" if jac else "(r,s,GM)")])
    return [mk(False), mk(True)]


NATIVE = [("n_c10.cpp", ["src/lib/gravity/point_mass_acceleration.cpp"])]
ASSUMPTIONS = ["r != s and s != 0 (the formula is undefined there)", "real arithmetic: rounding is not bounded by the proof (the driver checks it to 1e-12)",
               "Eigen 3.4 headers are compiled from the system and executed as part of the code (no contract assumed on them)"]
