"""Contracts of the spherical harmonics acceleration and gradient (C11 values, C12 requests and memory)."""
from fractions import Fraction
from vc.contract import Contract
from vc import layouts as LY, slices as SL
from vc.exec import INLINE, Exec, State, Unsupported, Ptr, NULL, AV
from vc.loops import flat_view, Fact, LoopInv
from vc.smt import Smt
from vc.terms import *
from . import matrix as MX, stokes as SK

HARNESS = "v_cunn.cpp"
L = "LwTriangularColWise"
NMAX = 201          # order of the factor tables
DMAX = NMAX - 3     # supported degree


def sq(a, b):
    return ffn("sqrt", fdiv(i2f(a), i2f(b)))


# ------------------------------------------------------------------ the factor tables (static object)
def f1(n, m):
    d = fite(beq(n, 1), ffn("sqrt", fc(3.0)), sq(2 * n + 1, 2 * n))
    return pick(beq(n, m), d, lambda: sq((2 * n + 1) * (2 * n - 1), (n + m) * (n - m)))


def f2(n, m):
    return fneg(sq((2 * n + 1) * (n - m - 1) * (n + m - 1), (n + m) * (n - m) * (2 * n - 3)))


def pick(c, a, b):
    if c is True:
        return a
    return b() if c is False else fite(c, a, b())


TABLES = {"f1": (f1, lambda k: band(ble(1, k[0]), ble(0, k[1]), ble(k[1], k[0]))),
          "f2": (f2, lambda k: band(ble(0, k[1]), blt(k[1], k[0])))}
_snap = {}


class Snap:
    pass


def snapshot(mod):
    """run the first (smallest) request concretely and record what the static initialisers leave behind"""
    if id(mod) in _snap:
        return _snap[id(mod)]
    e, _ = SL.concrete(mod, "vc_sz", lambda ex, st: [])
    size = e.ret
    ex = Exec(mod, Smt(), {"max_unroll": 1 << 40, "max_steps": 1 << 40, "sym_unroll": 1 << 40})
    st = State()
    blk = lambda n, s: Ptr(ex.new_block(st, "c", s, n).id, 0)
    o, r, a, g = blk("cs", size), blk("r", 24), blk("acc", 24), blk("grad", 72)
    ends = []
    ex.start(st, "vc_ctor4", [o, 0, 0, fc(1.0), fc(1.0)])
    ex.run(st, lambda s: ends.append(s))
    if len(ends) != 1 or ends[0].status != "ret":
        raise Unsupported("constructing the smallest set")
    st = ends[0]
    st.status = "run"
    for i in range(3):
        st.wblk(r.blk).cells[8 * i] = (8, fsym(f"r{i}"))
    before = {}
    out = {}

    def acq(X, st, fr, i, args):
        g = args[0].blk
        if g in out:
            return 0
        before[g] = set(st.mem)
        return 1

    def rel(X, st, fr, i, args):
        g = args[0].blk
        s = Snap()
        ids = [k for k in st.mem if isinstance(k, tuple) and k[0] == "G" and k != g and k not in before[g]]
        s.glob = {k: st.mem[k] for k in ids if not st.mem[k].ro}
        s.heap = {k: b for k, b in st.mem.items() if k not in before[g] and b.heap in ("new", "new[]", "malloc")}
        out[g] = s
        return None
    ex.ext["__cxa_guard_acquire"] = acq
    ex.ext["__cxa_guard_release"] = rel
    ends = []
    ex.start(st, "vc_sh", [o, r, a, g, 0, 0, fc(1.0), fc(1.0), NULL, NULL])
    ex.run(st, lambda s: ends.append(s))
    if len(ends) != 1 or ends[0].status != "ret" or ends[0].ret != 0:
        raise Unsupported("smallest request")
    bad = [o for o in ex.oblig.values() if o.status != "proved"]
    if bad:
        raise Unsupported("smallest request: " + bad[0].name)
    for s in out.values():
        s.tab = {}
        for k, b in s.heap.items():
            s.tab[k] = classify(b)
    _snap[id(mod)] = out
    return out


def classify(b):
    """which table a block holds, judged by a few cells (every cell is an obligation of `factor tables`)"""
    if b.kind != "a" or type(b.size) is not int:
        return None
    n = 0
    while n * (n + 1) // 2 < b.size // 8:
        n += 1
    if n * (n + 1) // 2 * 8 != b.size or n < 3:
        return None
    for nm, (f, dom) in TABLES.items():
        if all(same_const(cell(b, n, k), f(*k)) for k in ((2, 0), (2, 1), (n - 1, n - 3), (n - 1, 1))):
            return nm, n
    return None


def exact(t):
    """(sign, q): the real value sign * sqrt(q) of a constant term (rational operations, then at most one root)"""
    s = 1
    while t.op == "neg":
        s, t = -s, t.args[0]
    if t.op == "fn" and t.args[0] == "sqrt":
        q = rational(t.args[1])
        return (s if q else 1, q) if q is not None and q >= 0 else None
    q = rational(t)
    if q is None:
        return None
    return (1 if q == 0 else s if q > 0 else -s), q * q


def rational(t):
    if t.op == "c":
        v = cval(t)
        return Fraction(v) if v == v and abs(v) < 1e300 else None
    if t.op == "neg":
        q = rational(t.args[0])
        return None if q is None else -q
    if t.op in ("add", "sub", "mul", "div"):
        a, b = rational(t.args[0]), rational(t.args[1])
        if a is None or b is None or (t.op == "div" and b == 0):
            return None
        return a + b if t.op == "add" else a - b if t.op == "sub" else a * b if t.op == "mul" else a / b
    return None


def same_const(a, b):
    if a is b:
        return True
    if not isinstance(a, F) or not isinstance(b, F):
        return False
    x = exact(a)
    return x is not None and x == exact(b)


def cell(b, n, k):
    return b.ov.get((LY.index(L, n, n, *k), 0))


def statics(K):
    """the static objects hold what their initialiser leaves (contract `factor tables`); initialised before or now"""
    ex = K.ex

    def guard(X, st, fr, i, g):
        out = snapshot(ex.mod)
        s = out.get(g)
        if s is None:
            raise Unsupported("static object without snapshot")
        if st.ghost.get(("static", g)):
            return 0
        st.ghost[("static", g)] = True
        mp = {}
        for k, b in s.heap.items():
            t = s.tab.get(k)
            w = ex.new_block(st, b.kind, b.size, f"static{len(mp)}", heap=None, stride=b.stride)
            if K.concrete or t is None:
                if not K.concrete and b.kind == "a":
                    raise Unsupported("unknown static table")
                w.cells, w.ov, w.arr, w.bg = b.cells, b.ov, b.arr, b.bg
            else:
                nm, n = t
                name = f"hvstatic_{nm}_{n}"
                w.arr[0] = AV("hv", name)
                v = SL.view(L, n, n, {nm: (lambda q, f=TABLES[nm][0]: f(*q), TABLES[nm][1])})
                K.views[w.key] = v
                li = LoopInv(None)
                li.facts = [Fact((w.key, 0), True, nm, nm, view=0)]
                X.inv.hvinfo[name] = (li, w.key, 0, {}, None, ())
            w.ro = True
            mp[k] = w.id
        for k, b in s.glob.items():
            w = b.copy()
            w.cells = {o: (z, Ptr(mp[v.blk], v.off) if isinstance(v, Ptr) and v.blk in mp else v) for o, (z, v) in b.cells.items()}
            w.ro = True
            st.mem[k] = w
        return 0
    ex.static_guard = guard


def table_contract():
    def setup(K):
        K.snap = snapshot(K.ex.mod)
        return [K.cells("o", 8)]

    def post(K, st):
        seen = set()
        for g, s in K.snap.items():
            for k, t in s.tab.items():
                if t is None:
                    continue
                nm, n = t
                seen.add(nm)
                K.ensure(st, f"table {nm}: size", n == NMAX)
                f, dom = TABLES[nm]
                for q in LY.cells(L, n, n):
                    if dom(q) is True:
                        K.ensure(st, f"table {nm}: every factor", same_const(cell(s.heap[k], n, q), f(*q)))
        for nm in TABLES:
            K.ensure(st, f"table {nm} exists", nm in seen)
    return Contract("factor tables", "vc_nop", setup, post, mode="real", covers=["NormalizedLegendreFactors::NormalizedLegendreFactors"], timeout=300)



# ------------------------------------------------------------------ the harmonics and their derivatives
def sqi(*fs):
    """sqrt of a product of integers"""
    x = i2f(fs[0])
    for f in fs[1:]:
        x = fmul(x, i2f(f))
    return ffn("sqrt", x)


def V(n, m):
    """normalised harmonic V(n,m) (seed: V(0,0) = 1/|rs|)"""
    return mkf("spec", "V", n, m)


def W(n, m):
    return pick(beq(m, 0), fc(0.0), lambda: mkf("spec", "W", n, m))


def geometry(K):
    """rs = r/Re, scaled position rs/|rs|^2, 1/|rs|^2 and 1/|rs|"""
    rs = [fdiv(K.r[i], K.Re) for i in range(3)]
    q = fadd(fadd(fmul(rs[0], rs[0]), fmul(rs[1], rs[1])), fmul(rs[2], rs[2]))
    K.rinv = fdiv(fc(1.0), ffn("sqrt", q))
    K.rr = fmul(K.rinv, K.rinv)
    K.x, K.y, K.z = (fmul(c, K.rr) for c in rs)


SQ2 = ffn("sqrt", fc(2.0))


def C_(K, n, m):
    return SK.rd(K.cs, "C", (n, m))


def S_(K, n, m):
    return SK.rd(K.cs, "S", (n, m))


def term(K, i, n, m):
    """contribution of (C,S)(n,m) to component i: 0..2 acceleration, (a,b) gradient.
    Cunningham: d/dz lowers n - m, (d/dx +- i d/dy) raise / lower m; orders 0, 1 (2) fold V(n,-m) back
    (V(n,-1) ~ -V(n,1), W(n,-1) ~ W(n,1) with the normalisation factors written out)."""
    C, S = C_(K, n, m), S_(K, n, m)
    mul, add, sub, neg = fmul, fadd, fsubt, fneg
    two, four = fc(2.0), fc(4.0)

    def cs(a, b):
        return add(mul(C, a), mul(S, b))
    if isinstance(i, int):
        fac = sq(2 * n + 1, 2 * n + 3)
        v, w = (lambda k: V(n + 1, k)), (lambda k: W(n + 1, k))
        if m == 0:
            w0 = sqi(n + 1, n + 1)
            wp = fdiv(sqi(n + 1, n + 2), SQ2)
            t = (neg(mul(two, mul(wp, v(1)))), neg(mul(two, mul(wp, w(1)))), neg(mul(two, mul(w0, v(0)))))[i]
            return mul(fac, mul(C, t))
        wm = sqi(n - m + 1, n - m + 2)
        if m == 1:
            wm = mul(wm, SQ2)
        w0 = sqi(n - m + 1, n + m + 1)
        wp = sqi(n + m + 1, n + m + 2)
        if i == 0:
            t = cs(sub(mul(wm, v(m - 1)), mul(wp, v(m + 1))), sub(mul(wm, w(m - 1)), mul(wp, w(m + 1))))
        elif i == 1:
            t = cs(sub(neg(mul(wm, w(m - 1))), mul(wp, w(m + 1))), add(mul(wm, v(m - 1)), mul(wp, v(m + 1))))
        else:
            t = cs(neg(mul(two, mul(w0, v(m)))), neg(mul(two, mul(w0, w(m)))))
        return mul(fac, t)
    i = tuple(sorted(i))
    fac = sq(2 * n + 1, 2 * n + 5)
    v, w = (lambda k: V(n + 2, k)), (lambda k: W(n + 2, k))
    if m == 0:
        w0 = sqi(n + 1, n + 2, n + 1, n + 2)
        w1 = fdiv(sqi(n + 1, n + 1, n + 2, n + 3), SQ2)
        w2 = fdiv(sqi(n + 1, n + 2, n + 3, n + 4), SQ2)
        v0, v1, s1, v2, s2 = mul(w0, v(0)), mul(w1, v(1)), mul(w1, w(1)), mul(w2, v(2)), mul(w2, w(2))
        t = {(0, 0): sub(mul(two, v2), mul(two, v0)), (0, 1): mul(two, s2), (0, 2): mul(four, v1),
             (1, 1): neg(add(mul(two, v0), mul(two, v2))), (1, 2): mul(four, s1), (2, 2): mul(four, v0)}[i]
        return mul(fac, mul(C, t))
    w1 = sqi(n - m + 1, n - m + 2, n - m + 3, n + m + 1)
    w0 = sqi(n - m + 1, n - m + 2, n + m + 1, n + m + 2)
    p1 = sqi(n - m + 1, n + m + 1, n + m + 2, n + m + 3)
    p2 = sqi(n + m + 1, n + m + 2, n + m + 3, n + m + 4)
    v0, s0, v1, s1, v2, s2 = mul(w0, v(m)), mul(w0, w(m)), mul(p1, v(m + 1)), mul(p1, w(m + 1)), mul(p2, v(m + 2)), mul(p2, w(m + 2))
    if m == 1:
        w1 = mul(w1, SQ2)
        # V(n+2,-1), W(n+2,-1) folded: -V(n+2,1), +W(n+2,1), same weight as order 1
        u2, q2 = neg(v0), s0
    else:
        w2 = mul(sqi(n - m + 1, n - m + 2, n - m + 3, n - m + 4), pick(beq(m, 2), SQ2, lambda: fc(1.0)))
        u2, q2 = mul(w2, v(m - 2)), mul(w2, w(m - 2))
    u1, q1 = mul(w1, v(m - 1)), mul(w1, w(m - 1))
    t = {(0, 0): cs(add(sub(u2, mul(two, v0)), v2), add(sub(q2, mul(two, s0)), s2)),
         (0, 1): cs(sub(s2, q2), sub(u2, v2)),
         (0, 2): cs(mul(two, sub(v1, u1)), mul(two, sub(s1, q1))),
         (1, 1): cs(sub(sub(neg(u2), mul(two, v0)), v2), sub(sub(neg(q2), mul(two, s0)), s2)),
         (1, 2): cs(mul(two, add(q1, s1)), neg(mul(two, add(u1, v1)))),
         (2, 2): cs(mul(four, v0), mul(four, s0))}[i]
    return mul(fac, t)


COMP = {f"a{i}": i for i in range(3)}
COMP.update({f"g{i}{j}": (i, j) for i in range(3) for j in range(i, 3)})


def total(c, m, n):
    """sum of the contributions of every (n',m') with m' > m, or m' = m and n' >= n, within degree and order"""
    return mkf("spec", "T" + c, m, n)


def unfold(K, pc, name, a):
    if name in ("V", "W"):
        n, m = a
        if name == "V":
            d = fsubt(fmul(K.x, V(m - 1, m - 1)), fmul(K.y, W(m - 1, m - 1)))
            g = V
        else:
            d = fadd(fmul(K.y, V(m - 1, m - 1)), fmul(K.x, W(m - 1, m - 1)))
            g = W
        d = fmul(pick(beq(m, 1), ffn("sqrt", fc(3.0)), lambda: sq(2 * m + 1, 2 * m)), d)
        if name == "V":
            d = pick(beq(m, 0), K.rinv, lambda: d)
        A = fmul(fmul(f1o(n, m), K.z), g(n - 1, m))
        c0 = beq(n, m)
        c1 = beq(n, m + 1)
        if c0 is True:
            return d
        B = lambda: fadd(A, fmul(fmul(f2(n, m), K.rr), g(n - 2, m)))
        return pick(c0, d, lambda: pick(c1, A, B))
    if name[0] == "T":
        m, n = a
        i = COMP[name[1:]]
        c = name[1:]
        s = fadd(total(c, m, n + 1), byorder(K, i, n, m))
        return pick(blt(K.M, m), fc(0.0), lambda: pick(blt(K.D, n), total(c, m + 1, m + 1), lambda: s))
    return None


def byorder(K, i, n, m):
    if type(m) is int:
        return term(K, i, n, m)
    return fite(beq(m, 0), term(K, i, n, 0), fite(beq(m, 1), term(K, i, n, 1), term(K, i, n, m)))


def f1o(n, m):
    return sq((2 * n + 1) * (2 * n - 1), (n + m) * (n - m))


def zero(k):
    return fc(0.0)


def scratch(K, name, f):
    r = K.int(name + "r", 1, SL.DM)
    K.assume(ble(K.D + 3, r))
    o = MX.mat(K, L, name, "own", dims=(r, r))
    dom = lambda k: band(ble(k[0], K.D + 2), ble(k[1], K.M + 2))
    fv = flat_view(o.len, {"zero": zero})
    fv.alone = True
    K.views[K.st.mem[o.data.blk].key] = [SL.view(L, r, r, {name: (lambda k: f(*k), dom)}), fv]
    return o


def vecs(K):
    K.rp = K.cells("r", 24)
    K.r = [K.real(f"r{i}") for i in range(3)]
    for i in range(3):
        K.put(K.rp, 8 * i, 8, K.r[i])
    K.ap = K.cells("acc", 24)
    K.gp = K.cells("grad", 72)


def families(K, var):
    if var[0] != "cell":
        return {}
    for p, nm in ((K.ap, "a"), (K.gp, "g")):
        if K.st.mem[p.blk].key == var[1]:
            o = var[2] // 8
            c = f"a{o}" if nm == "a" else "g%d%d" % tuple(sorted((o % 3, o // 3)))
            return {c: (lambda K, a, c=c: total(c, *a), lambda K: [(m, n) for m in range(K.M + 2) for n in range(m, K.D + 2)])}
    return {}


def sh_setup(K, free=False, high=False):
    K.D = K.int("D", DMAX + 1, SL.DM - 3) if high else K.int("D", 0, DMAX)
    K.M = K.int("M", 0, SL.DM - 3 if high else DMAX)
    K.assume(ble(K.M, K.D))
    K.cs = SK.stk(K, "A")
    K.assume(ble(K.D, K.cs.d))
    K.assume(ble(K.M, K.cs.o))
    vecs(K)
    K.Re, K.GM = K.real("Re"), K.real("GM")
    if not free:        # the public function takes negative constants as "those of the coefficients" (C12)
        K.assume(fcmp("ogt", K.Re, fc(0.0)))
        K.assume(fcmp("ogt", K.GM, fc(0.0)))
    geometry(K)
    K.focus = ["D", "M"]
    K.W = scratch(K, "W", W)
    K.V = scratch(K, "V", V)
    statics(K)
    K.st0 = {id: b.copy() for id, b in K.st.mem.items()}
    return [K.cs.p, K.rp, K.ap, K.gp, K.D, K.M, K.Re, K.GM, K.W.p, K.V.p]


def frame(K, st, free):
    """everything that existed before and is not in `free` is as it was; nothing allocated, nothing freed"""
    for id, b in K.st0.items():
        if id in free or (isinstance(id, tuple) and id[0] == "G"):
            continue
        n = st.mem.get(id)
        same = n is b or (n is not None and n.cells == b.cells and n.ov == b.ov and n.bg == b.bg
                          and all(n.arr.get(f) is b.arr.get(f) for f in set(n.arr) | set(b.arr)))
        K.ensure(st, "nothing but the results and the scratch is written", same)
    heap = lambda mem: {id for id, b in mem.items() if b.heap in ("new", "new[]", "malloc")}
    K.ensure(st, "nothing is allocated or freed", heap(st.mem) == heap(K.st0))


def sh_post(K, st):
    K.ensure(st, "returns", st.status == "ret")
    frame(K, st, {K.ap.blk, K.gp.blk, K.W.data.blk, K.V.data.blk})
    K.ensure(st, "reports success", beq(st.ret, 0) if is_int(st.ret) else False)
    for i in range(3):
        K.ensure_f(st, "acceleration is the gradient of the truncated potential", K.get(st, K.ap, 8 * i),
                   fmul(fdiv(K.GM, fmul(fc(2.0), fmul(K.Re, K.Re))), total(f"a{i}", 0, 0)))
        for j in range(3):
            K.ensure_f(st, "gradient is the Hessian of the truncated potential", K.get(st, K.gp, 8 * (i + 3 * j)),
                       fmul(fdiv(K.GM, fmul(fc(4.0), fmul(K.Re, fmul(K.Re, K.Re)))), total("g%d%d" % tuple(sorted((i, j))), 0, 0)))


def sh_samples():
    out = []
    for D in range(0, 7):
        for M in range(0, D + 1):
            if (D, M) in ((4, 1), (3, 1)) or D > 4 and M not in (0, 3):
                continue
            q = (D + M) % 2
            s = dict(D=D, M=M, Ad=D + q, Ao=min(D + q, M + q), Anrm=1)
            r = D + q + 1 + (M % 2)
            s["Ar"] = r
            for x, c in (("C", 1), ("S", 4)):
                s[f"A{x}cap"] = r * (r + 1) // 2 + c
                s[f"A{x}len"] = r * (r + 1) // 2 + 2 * c
            for x, c in (("W", 0), ("V", 1)):
                rr = D + 3 + (c + M) % 2
                s[x + "r"] = rr
                s[x + "cap"] = rr * (rr + 1) // 2 + 2 * c
                s[x + "len"] = rr * (rr + 1) // 2 + 3 * c
            out.append(s)
    return out


def values():
    return Contract("acceleration and gradient", "vc_sh", sh_setup, sh_post, sh_samples(), mode="real", unfold=unfold, scalar_families=families,
                    covers=["dso::sh2gradient_cunningham", "sh2gradient_cunningham_impl"], timeout=800, unfold_depth=2, entry_facts=False, extra_boxes=0, slack=4, disj=True)


def c11():
    return [table_contract(), values()]


# ------------------------------------------------------------------ requests, scratch and memory
CORE = "sh2gradient_cunningham_impl"


def core(mod):
    """the evaluation proper, called by the public function with resolved arguments"""
    c = [n for n in mod.fns if CORE in n and not mod.fns[n].decl]
    return c[0] if len(c) == 1 else None


def core_contract():
    """any constants, any position: memory, frame and status"""
    def setup(K):
        a = sh_setup(K, free=True)
        return [a[i] for i in (0, 1, 4, 5, 6, 7, 2, 3, 8, 9)]

    def post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        frame(K, st, {K.ap.blk, K.gp.blk, K.W.data.blk, K.V.data.blk})
        K.ensure(st, "reports success", beq(st.ret, 0) if is_int(st.ret) else False)
    return Contract("evaluation", core, setup, post, sh_samples(), mode="real", covers=[CORE], timeout=600, entry_facts=False, extra_boxes=0, slack=4, disj=True)


def refusal_contract():
    """degrees above the factor tables are refused before anything is touched"""
    def setup(K):
        a = sh_setup(K, free=True, high=True)
        return [a[i] for i in (0, 1, 4, 5, 6, 7, 2, 3, 8, 9)]

    def post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        frame(K, st, set())
        K.ensure(st, "degree above the supported maximum is refused", bnot(beq(st.ret, 0)) if is_int(st.ret) else False)
    return Contract("evaluation, unsupported degree", core, setup, post, [], mode="real", covers=[CORE], timeout=300)


def use_core(K):
    """calls of the evaluation go by the two contracts above"""
    name = core(K.ex.mod)
    if name is None:
        if not K.concrete:
            raise Unsupported("no function " + CORE)
        return

    def h(X, st, fr, i, a):
        if K.concrete or len(a) != 10:
            return INLINE
        cs, r, D, M, Re, GM, acc, grad, w, v = a
        ent = lambda b: X.smt.entails(st.pc, b)
        if not (is_int(D) and is_int(M) and cs == K.cs.p and r == K.rp and acc == K.ap and grad == K.gp and isinstance(w, Ptr) and isinstance(v, Ptr)):
            return INLINE
        if not ent(band(ble(0, M), ble(M, D), ble(D, K.cs.d), ble(M, K.cs.o))):
            return INLINE
        ms = []
        for p in (w, v):
            if p.blk == 0 or p.off != 0 or p.blk not in st.mem:
                return INLINE
            o = MX.fields(K, L, st, p)
            if not (is_int(o.r) and is_int(o.cap) and isinstance(o.data, Ptr)) or o.data.blk == 0 or o.data.off != 0:
                return INLINE
            b = st.mem.get(o.data.blk)
            if b is None or b.heap != "new[]" or b.ro or not ent(band(ble(D + 3, o.r), ble(o.r, SL.DM), ble(SL.N(L, o.r, o.r), o.cap), ble(o.cap * 8, b.size))):
                return INLINE
            ms.append(o)
        if ms[0].data.blk == ms[1].data.blk:
            return INLINE
        for id, b in K.st0.items():         # the coefficients and the position are still what they were
            if id not in (K.ap.blk, K.gp.blk) and not unchanged(b, st.mem.get(id)) and b.name not in K.scrnames:
                return INLINE
        hi = blt(DMAX, D)
        if ent(hi):
            st.ghost["core"] = "refused"
            return 1
        if not ent(bnot(hi)):
            s2 = st.fork()
            s2.assume(bnot(hi))
            st.assume(hi)
            return [st, s2]
        st.ghost["core"] = (D, M, Re, GM)
        for p, n in ((acc, 3), (grad, 9)):
            b = st.wblk(p.blk)
            for q in range(n):
                b.cells[8 * q] = (8, mkf("s", f"core{p.blk}_{q}"))
        for o in ms:
            X.flush(st, o.data.blk)
            b = st.wblk(o.data.blk)
            b.arr = {0: AV("base", ffresh("scr").args[0])}
        return 0
    K.ex.summ[lambda n: n == name] = h


def unchanged(b, n):
    return n is b or (n is not None and n.cells == b.cells and n.ov == b.ov and n.bg == b.bg
                      and all(n.arr.get(f) is b.arr.get(f) for f in set(n.arr) | set(b.arr)))


def requests(w, m, default=False):
    """any request at all; w, m: 'null' (the function allocates) or 'own' (given, any size, any content);
    default: nothing but coefficients and position given"""
    def setup(K):
        big = 1 << 31
        K.N, K.Mo = (-1, -1) if default else (K.int("N", -big, big - 1), K.int("M", -big, big - 1))
        K.cs = SK.stk(K, "A")
        K.assume(ble(K.cs.d, SL.DM - 3))
        vecs(K)
        for p, n in ((K.ap, 3), (K.gp, 9)):
            for i in range(n):
                K.put(p, 8 * i, 8, K.real(f"old{p.blk}_{i}"))
        K.Re, K.GM = (fc(-1.0), fc(-1.0)) if default else (K.real("Re"), K.real("GM"))
        K.D = K.term("D", iite(blt(K.N, 0), K.cs.d, K.N))
        K.O = K.term("O", iite(blt(K.Mo, 0), K.cs.o, K.Mo))
        K.scr = []
        for n, v in (("W", w), ("V", m)):
            if v == "null":
                K.scr.append(None)
            else:
                r = K.int(n + "r", 0, SL.DM)
                o = MX.mat(K, L, n, "own", dims=(r, r))
                K.scr.append(o)
        K.focus = ["D", "O"]
        K.scrnames = {"dW", "dV"}
        K.heap = lambda st: {b.id for b in st.mem.values() if b.heap in ("new", "new[]", "malloc")}
        K.before = K.heap(K.st)
        statics(K)
        K.st0 = {id: b.copy() for id, b in K.st.mem.items()}
        use_core(K)
        ptr = [o.p if o else NULL for o in K.scr]
        return [K.cs.p, K.rp, K.ap, K.gp] + ([] if default else [K.N, K.Mo, K.Re, K.GM] + ptr)

    def post(K, st):
        if st.ghost.get("bad_alloc"):
            K.ensure(st, "out of memory never returns a result", st.status != "ret")
            return
        K.ensure(st, "returns", st.status == "ret")
        good = band(ble(K.O, K.D), ble(K.D, K.cs.d), ble(K.O, K.cs.o), ble(K.D, DMAX),
                    *[ble(K.D + 3, o.r) for o in K.scr if o])
        ok = is_int(st.ret)
        K.ensure(st, "a request that fits is answered", bimp(good, beq(st.ret, 0)) if ok else False)
        K.ensure(st, "a request that does not fit is refused", bor(good, bnot(beq(st.ret, 0))) if ok else False)
        K.ensure(st, "nothing allocated is left behind", K.heap(st) <= K.before)
        K.ensure(st, "nothing of the caller is freed", K.before <= K.heap(st))
        free = {K.ap.blk, K.gp.blk} | {o.data.blk for o in K.scr if o}
        for id, b in K.st0.items():
            if id not in free and not (isinstance(id, tuple) and id[0] == "G"):
                K.ensure(st, "nothing but the results and the scratch elements is written", unchanged(b, st.mem.get(id)))
        for o in K.scr:
            if o:
                n = MX.inv(K, L, st, o.p, "scratch")
                K.ensure(st, "the given scratch keeps its buffer and size", n is not None and n.data == o.data and n.r == o.r)
        if K.concrete:
            return
        c = st.ghost.get("core")
        if isinstance(c, tuple):
            K.ensure(st, "evaluated with the requested degree", beq(c[0], K.D))
            K.ensure(st, "evaluated with the requested order", beq(c[1], K.O))
            for nm, x, own, q in (("reference radius", K.Re, "Re", c[2]), ("gravitational parameter", K.GM, "GM", c[3])):
                neg = fcmp("olt", x, fc(0.0))
                K.ensure_f(st, f"evaluated with the given {nm}, or that of the coefficients if negative", q,
                           fite(neg, K.cs.re if own == "Re" else K.cs.gm, x))
            for p, n in ((K.ap, 3), (K.gp, 9)):
                for q in range(n):
                    K.ensure(st, "results are handed out as evaluated", K.get(st, p, 8 * q) is mkf("s", f"core{p.blk}_{q}"))
        else:
            for p, n in ((K.ap, 3), (K.gp, 9)):
                K.ensure(st, "a refused request leaves the results alone", unchanged(K.st0[p.blk], st.mem.get(p.blk)))

    smp = []
    for d, o, n, mo in ((0, 0, 0, 0), (1, 1, -1, -1), (2, 1, 2, 1), (3, 3, -2, 2), (4, 4, 3, -1), (4, 2, -1, 0), (5, 5, 4, 2), (5, 4, 5, 4), (6, 6, 6, 1), (3, 2, 3, 0),
                        (5, 2, 5, 1), (6, 3, 5, -1), (3, 3, 4, 2), (3, 2, 2, 3), (2, 2, 1, 2), (4, 4, 4, 3)):
        D, O = (d if n < 0 else n), (o if mo < 0 else mo)
        q = (d + o + n) % 2
        s = dict(N=n, M=mo, Ad=d, Ao=o, Ar=d + 1 + q, Anrm=1)
        for x, c in (("C", 1), ("S", 4)):
            k = s["Ar"] * (s["Ar"] + 1) // 2
            s[f"A{x}cap"], s[f"A{x}len"] = k + c, k + 2 * c
        for x, c in (("W", 0), ("V", 1)):
            rr = max(1, D + 3 + (c + O) % 2 - (1 if (d + n) % 7 == 6 else 0))
            s[x + "r"] = rr
            s[x + "cap"], s[x + "len"] = rr * (rr + 1) // 2 + 2 * c, rr * (rr + 1) // 2 + 3 * c
        smp.append(s)
    if default:
        smp = [x for x in smp if x["N"] < 0 and x["M"] < 0]
    return Contract("request with every default" if default else f"requests[W {w}, M {m}]", "vc_sh_default" if default else "vc_sh", setup, post, smp, mode="real", covers=["dso::sh2gradient_cunningham", CORE],
                    timeout=500, entry_facts=False, extra_boxes=0, slack=4, disj=True)


def c12():
    return [core_contract(), refusal_contract()] + [requests(w, m) for w in ("null", "own") for m in ("null", "own")] + [requests("null", "null", True)]
