"""C15: Doodson numbers and their text form"""
from vc.contract import Contract
from vc.terms import *
from props.c17 import beq_ptr
from props.c16 import mult

ID = "C15"
HARNESS = "v_doodson.cpp"
NATIVE = [("n_c15.cpp", ["src/lib/doodson/doodson_from_chars.cpp", "src/lib/doodson/doodson_to_str.cpp", "src/lib/doodson/resolve_iers2010_doodson_string.cpp"],
           dict(defs=["-DVC_NATIVE", "-include", "cstdio"]))]
ASSUMPTIONS = ["isdigit, tolower as in the C locale, text of ASCII characters", "sprintf of %c writes the character; stdio output has no effect on the program state",
               "phase factors are not NaN"]
INT = (1 << 31) - 1


def text(K, n, name="s"):
    """a zero-terminated text of n unknown characters, none of them zero"""
    p = K.cells(name, n + 1)
    v = [K.int(f"{name}{i}", 1, 127) for i in range(n)]
    for i in range(n):
        K.put(p, i, 1, v[i])
    K.put(p, n, 1, 0)
    return p, v


def isvalue(K, c):
    return bor(band(ble(48, c), ble(c, 57)), band(ble(97, c), ble(c, 122)), band(ble(65, c), ble(c, 90)))


def meaning(c):
    """alphabet: 0-9, a-m (10..22), n-z (-13..-1), either case"""
    up = iite(band(ble(65, c), ble(c, 90)), c + 32, c)
    return iite(ble(c, 57), c - 48, iite(ble(up, 109), up - 87, up - 123))


def letter(d):
    return iite(blt(d, 0), d + 123, iite(ble(d, 9), d + 48, d + 87))


def contracts():
    out = []
    o = dict(mode="uf")

    def w_in(K, five=1, rnd=False):
        p = K.cells("a", 24)
        K.n = []
        for i in range(6):
            s = 5 if i and five else 0
            v = K.int(f"a{i}", -13 - s, 22 - s)
            K.put(p, 4 * i, 4, v)
            K.n.append(v)
        K.b = K.cells("buf", 8)
        if rnd:
            K.o = K.cells("o", 24)
            return [p, K.real("pi"), K.b, K.o]
        return [p, K.real("pi"), five, K.b]

    def w_post(K, st, five):
        K.ensure(st, "returns", st.status == "ret")
        K.ensure(st, "returns the buffer it was given", beq_ptr(st.ret, K.b))
        for i in range(6):
            K.ensure(st, f"character of multiplier {i}", beq(K.get(st, K.b, i + (i > 2)), letter(K.n[i] + (5 if i and five else 0))))
        K.ensure(st, "separator and end of text", band(beq(K.get(st, K.b, 3), 46), beq(K.get(st, K.b, 7), 0)))
    for five in (1, 0):
        out.append(Contract("write" + ("" if five else " (plain)"), "vc_dd_str", lambda K, five=five: w_in(K, five), lambda K, st, five=five: w_post(K, st, five),
                            covers=["DoodsonConstituent::str", "int2char"], **o))

    def r_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        for i in range(6):
            K.ensure(st, "the text gives the same six multipliers back", beq(K.get(st, K.o, 4 * i), K.n[i]))
    out.append(Contract("round trip", "vc_dd_round", lambda K: w_in(K, 1, True), r_post, covers=["DoodsonConstituent::str", "DoodsonConstituent::from_chars"], **o))

    def p_in(K, good):
        K.s, K.v = text(K, 7)
        K.v = K.v[:3] + K.v[4:] + [K.v[3]]
        for c in K.v[:6]:
            K.assume(isvalue(K, c))
        K.assume(beq(K.v[6], 46) if good else bnot(beq(K.v[6], 46)))
        K.o = K.cells("o", 24)
        return [K.s, K.o]

    def p_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        for i in range(6):
            K.ensure(st, f"multiplier {i} is the one its character stands for", beq(K.get(st, K.o, 4 * i), meaning(K.v[i]) - (5 if i else 0)))

    def bad_post(K, st):
        K.ensure(st, "malformed text is rejected with an error", st.status == "throw")
    cv = ["DoodsonConstituent::from_chars", "char2int"]
    out.append(Contract("read", "vc_dd_parse", lambda K: p_in(K, True), p_post, covers=cv, **o))
    out.append(Contract("malformed separator", "vc_dd_parse", lambda K: p_in(K, False), bad_post, covers=cv, **o))
    for i in range(6):
        def c_in(K, i=i):
            K.s, K.v = text(K, 7)
            v = K.v[:3] + K.v[4:]
            for c in v[:i]:
                K.assume(isvalue(K, c))
            K.assume(bnot(isvalue(K, v[i])))
            K.o = K.cells("o", 24)
            return [K.s, K.o]
        out.append(Contract(f"unknown character {i}", "vc_dd_parse", c_in, bad_post, covers=cv, **o))

    def d_in(K, good):
        K.s, K.v = text(K, 7)
        K.v = K.v[:3] + K.v[4:] + [K.v[3]]
        for c in K.v[:6]:
            K.assume(band(ble(48, c), ble(c, 57)))
        K.assume(beq(K.v[6], 46) if good else bnot(beq(K.v[6], 46)))
        K.o = K.cells("o", 24)
        return [K.s, K.o]
    cv = ["resolve_iers10_doodson_string"]
    out.append(Contract("read digits", "vc_dd_resolve", lambda K: d_in(K, True), p_post, covers=cv, **o))
    out.append(Contract("digits, malformed separator", "vc_dd_resolve", lambda K: d_in(K, False), bad_post, covers=cv, **o))

    def cmp_in(K):
        p, q = K.cells("a", 24), K.cells("b", 24)
        K.n, K.m = mult(K, p, "a", INT), mult(K, q, "b", INT)
        K.p, K.q = K.real("p"), K.real("q")
        return [p, K.p, q, K.q]

    def same(K, n):
        return band(*[beq(K.n[i], K.m[i]) for i in range(n)])
    for nm, n, ph, neg in (("eq", 6, 1, 0), ("ne", 6, 1, 1), ("species", 1, 0, 0), ("group", 2, 0, 0), ("constituent", 3, 0, 0)):
        def cmp_post(K, st, n=n, ph=ph, neg=neg):
            K.ensure(st, "returns", st.status == "ret")
            w = same(K, n)
            if ph:
                w = band(w, fcmp("oeq", K.p, K.q))
            t = st.ret if isinstance(st.ret, (B, bool)) else bnot(beq(st.ret, 0))
            K.ensure(st, "true exactly when the multipliers named agree" if not neg else "the negation of equality",
                     band(bimp(t, bnot(w) if neg else w), bimp(bnot(w) if neg else w, t)))
        out.append(Contract(f"compare: {nm}", f"vc_dd_{nm}", cmp_in, cmp_post, covers=[{"eq": "operator==", "ne": "operator!="}.get(nm, "same_" + nm)], **o))

    def b_in(K):
        p = K.cells("a", 24)
        K.n = mult(K, p, "a", INT)
        K.p = K.real("p")
        K.o, K.q = K.cells("o", 120), K.cells("q", 16)
        return [p, K.p, K.o, K.q]

    def b_post(K, st):
        K.ensure(st, "returns", st.status == "ret")
        for i in range(6):
            for k, (w, nm) in enumerate(((K.n[i], "six multipliers"), (K.n[i], "array of multipliers"), (0, "no multipliers given"), (K.n[5 - i], "multipliers set one by one"), (K.n[i], "multipliers seen as an array"))):
                K.ensure(st, f"constructed from {nm}", beq(K.get(st, K.o, 24 * k + 4 * i), w))
        K.ensure_f(st, "phase factor", K.get(st, K.q, 0), K.p)
        K.ensure_f(st, "phase factor not given", K.get(st, K.q, 8), fc(0.0))
    out.append(Contract("construct", "vc_dd_build", b_in, b_post, covers=["DoodsonConstituent::DoodsonConstituent", "operator()", "int_array", "pifactor"], **o))
    return out
