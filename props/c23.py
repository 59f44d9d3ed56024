"""C23: the tidal corrections are the superposition of the waves of the atlas"""
import re, subprocess
from vc.contract import Contract
from vc.terms import *
from vc import slices as SL
from vc.llvm import Ty
from vc.exec import Ptr, AV, INLINE, NULL, Unsupported
from . import matrix as MX, stokes as ST
from .c17 import PI
from .cunn import pick

ID = "C23"
HARNESS = "v_ocean.cpp"
DEFS = ["-DVC_MJD_REAL", "-fno-access-control"]
NATIVE = [("n_c23.cpp", ["src/lib/stokes_coefficients.cpp", "src/lib/tidal_constituent.cpp", "src/lib/tide_atlas.cpp", "src/lib/doodson/doodson_to_str.cpp"],
           dict(defs=["-DVC_NATIVE", "-DVC_MJD_REAL", "-include", "cstdio"]))]
DEPENDS = ()
ASSUMPTIONS = ["real arithmetic; the coefficients are followed at one arbitrary degree and order, so at all of them",
               "every wave has degree at least its order and at most the degree of the model's coefficients, likewise for the orders; its cosine and sine parts are of the same size (class invariants)",
               "adding an expression to a coefficient matrix, clearing a set, the argument of a wave and the Doodson variables are used by their contracts, discharged by the checks of C04, C06 and C16; GMST is an unknown function (C20)",
               "the number of waves is unbounded in the proof; the AOD1B reader (absent library) is replaced by a stand-in holding one product in memory",
               "the variant with admittance, the constructors, assignments and append_wave are only run natively (Eigen's dynamic matrices and nested containers are outside the memory model)"]
L = ST.L
LAY = {}
NAMES = ("size", "wave", "cos", "sin", "osize", "oatlas", "omcs", "omodel", "asize", "aatlas", "amcs")
DMAX = 40000


def lay(K):
    mod = K.ex.mod
    if id(mod) not in LAY:
        R = {}
        for i, n in enumerate(NAMES):
            e, _ = SL.concrete(mod, "vc_layout", lambda ex, st: [i])
            if e is None:
                raise Unsupported("layout")
            R[n] = e.ret
        LAY[id(mod)] = R
    return LAY[id(mod)]




def ty(kind, size, width=None):
    t = Ty()
    t.kind, t.size, t.width, t.elem, t.n, t.fields, t.name = kind, size, width, None, None, None, None
    return t


PTR, DBL, I32 = ty("ptr", 8), ty("double", 8), ty("int", 4, 32)
_dem = {}


def demangle(n):
    if n not in _dem:
        _dem[n] = subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()
    return _dem[n]


def parse(s):
    """a proxy type as a tree: ('Sum', a, b), ('Scaled', a), ('View', a), ('Mat',)"""
    s = s.strip()
    s = re.sub(r"^dso::CoeffMatrix2D<[^<>]*>(::)?", "", s).strip()
    if not s or s == "const&":
        return ("Mat",)
    m = re.match(r"_(\w+)Proxy<(.*)>$", s, re.S)
    if not m:
        raise Unsupported("expression type " + s[:60])
    a, d, cur = [], 0, ""
    for ch in m.group(2):
        if ch == "," and d == 0:
            a.append(cur)
            cur = ""
            continue
        d += (ch == "<") - (ch == ">")
        cur += ch
    a.append(cur)
    k = {"Sum": "Sum", "Scaled": "Scaled", "ReducedView": "View"}.get(m.group(1))
    if k is None:
        raise Unsupported("expression type")
    return (k,) + tuple(parse(x) for x in a)


def contiguous(t):
    return t[0] != "View" and all(contiguous(x) for x in t[1:])


def contracts():
    def deg(K, i):
        return max(0, K.D - i % 3) if K.concrete and type(i) is int else uf("rd", "deg", i)

    def order(K, i):
        return min(K.O, deg(K, i), 1 + i) if K.concrete and type(i) is int else uf("rd", "ord", i)

    def ok(K, i):
        """class invariants of wave i"""
        return band(band(ble(0, order(K, i)), ble(order(K, i), deg(K, i))), band(ble(deg(K, i), K.D), ble(order(K, i), K.O)))

    def setup(K, atm):
        R, Q, M = lay(K), ST.layout(K), MX.roles(K.ex.mod, L)
        K.R, K.Q = R, Q
        K.D, K.O = K.int("D", 0, DMAX), K.int("O", 0, DMAX)
        K.assume(ble(K.O, K.D))
        K.N, K.M = K.int("N", 0, DMAX), K.int("M", 0, DMAX)
        K.assume(band(ble(K.M, K.N), band(ble(K.N, K.D), ble(K.M, K.O))))
        K.n = K.int("waves", 0, 100000)
        S = R["size"]
        K.w = K.array("wave", K.n, stride=S, init="none")
        b = K.st.wblk(K.w.blk)
        for part in ("cos", "sin"):
            o = R[part]
            b.arr[o + Q["deg"]] = AV("fnv", lambda i: deg(K, i))
            b.arr[o + Q["ord"]] = AV("fnv", lambda i: order(K, i))
            for x in "CS":
                for f in {M["r"], M["c"]}:
                    b.arr[o + Q[x] + f] = AV("fnv", lambda i: deg(K, i) + 1)
        b.arr[0] = AV("undef", "wave")
        p = "a" if atm else "o"
        K.obj = K.cells("model", R[p + "size"])
        at = R[p + "atlas"]
        # the vector is the first member of the atlas: begin, end, capacity
        K.put(K.obj, at, 8, Ptr(K.w.blk, 0))
        K.put(K.obj, at + 8, 8, Ptr(K.w.blk, S * K.n))
        K.put(K.obj, at + 16, 8, Ptr(K.w.blk, S * K.n))
        K.mcs = R[p + "mcs"]
        for x in "CS":
            for f in {M["r"], M["c"]}:
                K.put(K.obj, K.mcs + Q[x] + f, 4, K.D + 1)
        K.put(K.obj, K.mcs + Q["deg"], 4, K.D)
        K.put(K.obj, K.mcs + Q["ord"], 4, K.O)
        if not atm:
            K.put(K.obj, R["omodel"], 8, NULL)
        K.tp, K.up, K.fp = K.cells("tt", 16), K.cells("ut", 16), K.cells("f", 40)
        K.t = [K.real(f"t{i}") for i in range(2)]
        K.u = [K.real(f"u{i}") for i in range(2)]
        K.f = [K.real(f"f{i}") for i in range(5)]
        for q, v in ((K.tp, K.t), (K.up, K.u), (K.fp, K.f)):
            for i, x in enumerate(v):
                K.put(q, 8 * i, 8, x)
        # the coefficients C(N, M) and S(N, M) of the model
        K.g = K.cells("coefficient", 16)
        for i, x in enumerate("CS"):
            K.put(K.g, 8 * i, 8, K.real("old" + x))
        K.atm = atm
        K.dd = [ffn(f"doodson{i}", *(K.f + [ffn("gmst", *(K.t + K.u))])) for i in range(6)]
        return [K.obj, K.tp, K.up, K.fp]

    def theta(K, i):
        a = ffn("argument", i2f(i), *K.dd)
        if K.atm:
            a = fadd(a, fmul(fc(PI / 2), mkf("rd", "pifactor", i)))
        return a

    def term(K, q, i):
        a = theta(K, i)
        v = fadd(fmul(ffn("cos", a), mkf("rd", "cos" + q, i)), fmul(ffn("sin", a), mkf("rd", "sin" + q, i)))
        return pick(band(ble(K.N, deg(K, i)), ble(K.M, order(K, i))), v, lambda: fc(0.0))

    def unfold(K, pc, name, a):
        if name in ("sumC", "sumS"):
            i = a[0]
            return pick(beq(i, 0), fc(0.0), lambda: fadd(sm(name[-1], i - 1), term(K, name[-1], i - 1)))
        return None

    def sm(q, i):
        return mkf("spec", "sum" + q, i)

    def families(K, var):
        if var[0] != "cell" or K.st.mem[K.g.blk].key != var[1]:
            return {}
        q = "CS"[var[2] // 8]
        return {"sum" + q: (lambda K, a, q=q: sm(q, *a), lambda K: [(i,) for i in range(0, 8)])}

    def prep(K):
        def which(p):
            """(wave index, offset in the wave) of a pointer into the waves"""
            b = K.st.mem.get(K.w.blk)
            o = p.off
            S = K.R["size"]
            if type(o) is int:
                return o // S, o % S
            c = o.const()
            f = c % S
            return exact_div(o - f, S), f

        def known(X, st, p):
            if isinstance(p, Ptr) and p.blk == K.w.blk:
                i, _ = which(p)
                st.assume(ok(K, i))

        def peek(X, st, fr, i, args):
            known(X, st, args[0])
            return INLINE
        mat = "_ZNK3dso13CoeffMatrix2DILNS_17MatrixStorageTypeE4EE"
        for n in ("_ZNK3dso12StokesCoeffs10max_degreeEv", "_ZNK3dso12StokesCoeffs9max_orderEv", mat + "4rowsEv", mat + "4colsEv"):
            K.ex.ext[n] = peek

        def clear(X, st, fr, i, args):
            if args[0] != Ptr(K.obj.blk, K.mcs):
                return INLINE
            for k in (0, 8):
                st.wblk(K.g.blk).cells[k] = (8, fc(0.0))
            return None
        K.ex.ext["_ZN3dso12StokesCoeffs5clearEv"] = clear

        def copy(X, st, fr, i, args):
            if not isinstance(args[1], Ptr) or args[1].blk != K.w.blk:
                return INLINE
            # the copied wave is represented by where it came from
            st.wblk(args[0].blk).cells[args[0].off] = (8, Ptr(args[1].blk, args[1].off + K.R["wave"]))
            return None
        K.ex.ext["_ZNK3dso16TidalConstituent4waveEv"] = copy

        def wave_of(X, st, p):
            if p.blk != K.w.blk:
                c = st.mem[p.blk].cells.get(p.off)
                if c is None or not isinstance(c[1], Ptr) or c[1].blk != K.w.blk:
                    return None
                p = c[1]
            i, f = which(p)
            return i if f == K.R["wave"] else None

        def argument(X, st, fr, i, args):
            w = wave_of(X, st, args[0])
            if w is None:
                return INLINE
            v = [K.get(st, args[1], args[1].off * 0 + 8 * k) for k in range(6)]
            if any(x is None for x in v):
                raise Unsupported("Doodson variables")
            return ffn("argument", i2f(w), *v)
        K.ex.ext["_ZNK3dso18DoodsonConstituent8argumentEPKd"] = argument

        def phase(X, st, fr, i, args):
            w = wave_of(X, st, args[0])
            return INLINE if w is None else mkf("rd", "pifactor", w)
        K.ex.ext["_ZNK3dso18DoodsonConstituent8pifactorEv"] = phase

        def variables(X, st, fr, i, args):
            f = [K.get(st, args[0], 8 * k) for k in range(5)]
            if any(x is None for x in f) or args[2].off != 0:
                raise Unsupported("Delaunay arguments")
            for k in range(6):
                X.store(st, Ptr(args[2].blk, args[2].off + 8 * k), ffn(f"doodson{k}", *(f + [args[1]])), 8, i)
            return args[2]
        K.ex.ext["_ZN3dso16delaunay2doodsonEPKddPd"] = variables

        def value(X, st, t, p):
            """(rows, columns, value at (N, M)) of an expression"""
            if t[0] == "Mat":
                if p.blk == K.obj.blk and p.off in (K.mcs + K.Q["C"], K.mcs + K.Q["S"]):
                    return K.D + 1, K.D + 1, K.get(st, K.g, 0 if p.off == K.mcs + K.Q["C"] else 8)
                if p.blk != K.w.blk:
                    raise Unsupported("matrix of unknown origin")
                i, f = which(p)
                st.assume(ok(K, i))
                for part in ("cos", "sin"):
                    for q in "CS":
                        if f == K.R[part] + K.Q[q]:
                            return deg(K, i) + 1, deg(K, i) + 1, mkf("rd", part + q, i)
                raise Unsupported("matrix of unknown origin")
            g = lambda o, ty=PTR: X.load(st, Ptr(p.blk, p.off + o), ty, None)
            if t[0] == "Scaled":
                r, c, v = value(X, st, t[1], g(0))
                return r, c, fmul(g(8, DBL), v)
            if t[0] == "View":
                r, c, v = value(X, st, t[1], g(0))
                X.obl(st, "view", band(ble(g(8, I32), r), ble(g(12, I32), c)), None, detail="view within the matrix")
                return g(8, I32), g(12, I32), v
            a, b = value(X, st, t[1], g(0)), value(X, st, t[2], g(8))
            X.obl(st, "sizes", band(beq(a[0], b[0]), beq(a[1], b[1])), None, detail="summands of the same size")
            return a[0], a[1], fadd(a[2], b[2])

        def add(X, st, fr, i, args):
            n = i.x["callee"][1]
            m = re.search(r"::operator\+=\s*<(.*)>\s*\(", demangle(n), re.S)
            p = args[0]
            if not m or p.blk != K.obj.blk or p.off not in (K.mcs + K.Q["C"], K.mcs + K.Q["S"]):
                raise Unsupported("matrix addition")
            t = parse(m.group(1))
            r, c, v = value(X, st, t, args[1])
            if contiguous(t):
                X.obl(st, "sizes", band(beq(r, K.D + 1), beq(c, K.D + 1)), None, detail="matrices of the same size")
            else:
                X.obl(st, "sizes", band(ble(r, K.D + 1), ble(c, K.D + 1)), None, detail="the matrix holds the added one")
            k = 0 if p.off == K.mcs + K.Q["C"] else 8
            old = K.get(st, K.g, k)
            v = pick(band(blt(K.N, r), blt(K.M, c)), v, lambda: fc(0.0))
            st.wblk(K.g.blk).cells[k] = (8, fadd(old, v))
            return p
        K.ex.summ[lambda n: n.startswith("_ZN3dso13CoeffMatrix2D") and "EEpLI" in n] = add

    def post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure(st, "reports success", beq(st.ret, 0) if is_int(st.ret) else False)
        for k, q in enumerate("CS"):
            K.ensure_f(st, f"{q}(n,m) is the sum over all waves of cosine part times cos(argument) plus sine part times sin(argument)", K.get(st, K.g, 8 * k), sm(q, K.n))

    samples = [dict(waves=w, D=5, O=4, N=3, M=2) for w in range(0, 6)] + [dict(waves=2, D=3, O=3, N=3, M=3), dict(waves=3, D=8, O=1, N=7, M=0)]
    out = []
    for atm, nm, fn in ((False, "ocean tide", "vc_ocean"), (True, "atmospheric tide", "vc_atm")):
        out.append(Contract(nm, fn, lambda K, atm=atm: setup(K, atm), post, samples, mode="real", unfold=unfold, scalar_families=families, prep=prep,
                            covers=["dso::OceanTide::stokes_coeffs_impl", "dso::OceanTide::stokes_coeffs"] if not atm else ["dso::AtmosphericTide::stokes_coeffs"],
                            timeout=300, entry_facts=False))
    return out
