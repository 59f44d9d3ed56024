"""Symbolic executor over LLVM IR (as loaded by llvm.py).

Integers are mathematical integers with an obligation (or an explicit wrap term) wherever the
machine operation could leave its range; doubles are terms; memory is a map of blocks.
Branches fork; loops whose exits are decided are unrolled; every other loop is cut at its
header and handled by invariants (loops.py)."""
import itertools, time
from . import terms as T
from .terms import *
from .smt import Smt


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, key):
        self.key = key


# ------------------------------------------------------------------ arrays
class AV:
    """array value (immutable): op in base undef zero st fill cp ov hv map"""
    __slots__ = ("op", "a", "id")
    _n = itertools.count()

    def __init__(self, op, *a):
        self.op = op
        self.a = a
        self.id = next(AV._n)


class Cat:
    """a value assembled from adjacent smaller cells"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Cat) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


class Block:
    __slots__ = ("id", "kind", "size", "heap", "name", "cells", "stride", "arr", "ov", "ro", "bg", "key", "info")

    def __init__(self, id, kind, size, name="", heap=None, stride=8):
        self.id = id
        self.kind = kind          # 'c' cells, 'a' array of doubles / records
        self.size = size          # bytes
        self.heap = heap          # None | 'new' | 'new[]' | 'malloc' | 'ext'
        self.name = name
        self.cells = {}
        self.stride = stride
        self.arr = {}             # field offset -> AV
        self.ov = {}              # concrete overrides (idx, fld) -> value
        self.ro = False
        self.bg = ()              # zeroed ranges [(lo,hi)] of a 'c' block
        self.key = None
        self.info = None

    def copy(self):
        b = Block(self.id, self.kind, self.size, self.name, self.heap, self.stride)
        b.cells = dict(self.cells)
        b.arr = dict(self.arr)
        b.ov = dict(self.ov)
        b.ro = self.ro
        b.bg = self.bg
        b.key = self.key
        b.info = self.info
        return b


class Frame:
    __slots__ = ("fn", "regs", "args", "bb", "ip", "prev", "path", "allocas", "iters", "lctx", "inst")

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.args = self.args
        f.bb = self.bb
        f.ip = self.ip
        f.prev = self.prev
        f.path = self.path
        f.allocas = list(self.allocas)
        f.iters = dict(self.iters)
        f.lctx = list(self.lctx)
        f.inst = self.inst
        return f


class State:
    __slots__ = ("pc", "mem", "own", "frames", "exc", "status", "ret", "trace", "ghost", "dead", "seq")

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.own = set()
        self.frames = []
        self.exc = None
        self.status = "run"
        self.ret = None
        self.trace = ()
        self.ghost = {}
        self.dead = {}
        self.seq = {}

    def fork(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.frames = [f.copy() for f in self.frames]
        s.exc = self.exc
        s.status = self.status
        s.ret = self.ret
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.dead = dict(self.dead)
        s.seq = dict(self.seq)
        return s

    def blk(self, id):
        return self.mem[id]

    def wblk(self, id):
        b = self.mem[id]
        if id not in self.own:
            b = b.copy()
            self.mem[id] = b
            self.own.add(id)
        return b

    def assume(self, b):
        if b is True:
            return
        if isinstance(b, B) and b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        if b not in self.pc:
            self.pc = self.pc + (b,)


# ------------------------------------------------------------------ loops of a function
class LoopInfo:
    def __init__(self, fn):
        n = len(fn.bbs)
        succs = [b.succs for b in fn.bbs]
        preds = [[] for _ in range(n)]
        for i, ss in enumerate(succs):
            for s in ss:
                preds[s].append(i)
        # reachable, reverse postorder
        order, seen = [], [False] * n
        st = [(0, 0)]
        seen[0] = True
        while st:
            b, k = st.pop()
            if k < len(succs[b]):
                st.append((b, k + 1))
                s = succs[b][k]
                if not seen[s]:
                    seen[s] = True
                    st.append((s, 0))
            else:
                order.append(b)
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        self.loops = {}
        for b in rpo:
            for s in succs[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(p for p in preds[x] if p in pos)


PURE_EXT = {"sin", "cos", "tan", "atan", "atan2", "asin", "acos", "exp", "log", "fmod", "hypot", "log10", "sinh", "cosh", "tanh", "cbrt",
            "round", "trunc", "remainder", "ldexp"}
IGN = ("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.stackrestore")
IOFN = {"printf": 1, "fprintf": 1, "puts": 1, "fputs": 1, "fputc": 1, "putchar": 1, "fwrite": 1, "fflush": 1, "perror": 1}


class Oblig:
    __slots__ = ("name", "kind", "status", "detail", "model", "loc", "pc", "cond")

    def __init__(self, name, kind, status, loc="", detail="", model=None):
        self.name = name
        self.kind = kind
        self.status = status       # proved | refuted | unknown
        self.loc = loc
        self.detail = detail
        self.model = model


INLINE = object()     # a summary handler declines: execute the body instead


class Exec:
    def __init__(self, mod, smt, opts=None):
        self.mod = mod
        self.smt = smt
        self.li = {}
        self.blkn = itertools.count(1)
        self.oblig = {}            # name -> Oblig (worst status)
        self.nproved = 0
        self.check_obl = True
        self.inv = None            # loops.Invariants
        self.sampler = None        # called at loop headers in concrete runs
        self.strides = []
        self.opts = {"max_paths": 4000, "max_steps": 6_000_000, "max_unroll": 3000, "deadline": None,
                     "uninit_ok": True, "alloc_fail": False}
        if opts:
            self.opts.update(opts)
        self.steps = 0
        self.paths = 0
        self.ext = {}              # name -> handler(X, st, frame, inst, args) -> value
        self.summ = {}             # name predicate list
        self.ginit = {}
        self.trusted = set()
        self.inlined = set()
        self.prefix = ""
        self.track_undef = False
        self.guards = {}
        self.cmpops = {}
        self.nondet = {}
        self.static_guard = None
        self.targets = []
        self.wraps = 0

    # ------------------------------------------------------------ obligations
    def obl(self, st, kind, cond, inst=None, detail="", name=None):
        """cond must hold in st; returns True if proved.  Afterwards cond is assumed."""
        loc = inst.loc() if inst is not None else ""
        fnn = inst.fn.name if inst is not None else ""
        nm = name or f"{self.prefix}{kind}@{loc}"
        if self.opts.get("only_posts") and kind != "post":
            st.assume(cond)
            return None
        if cond is True:
            if self.check_obl:
                self.nproved += 1
                self._rec(nm, kind, "proved", loc)
            return True
        if not self.check_obl:
            st.assume(cond)
            return None
        if cond is not False:
            r = self.smt.sat(st.pc, (T.bnot(cond),))
        else:
            r = self.smt.sat(st.pc)
        if r is False:
            self.nproved += 1
            self._rec(nm, kind, "proved", loc)
            ok = True
        else:
            model = None
            if r is True or r is None:
                m = self.smt.model(st.pc, (T.bnot(cond),) if cond is not False else ())
                if m is not None:
                    model = self._model(m)
            hav = st.ghost.get("havoc") or self.smt.nra     # models of the linear reading are no counterexamples
            self._rec(nm, kind, "refuted" if model is not None and not hav else "unknown", loc,
                      detail + " " + T.bstr(cond)[:300], model)
            ok = False
        st.assume(cond)
        return ok

    def _model(self, m):
        out = {}
        for i, v in m[0].items():
            a = ATOMS[i]
            if a.kind == "sym":
                out[a.args[0]] = v
        for f, v in m[1].items():
            if f.op == "s":
                out[f.args[0]] = float(v)
        return out

    RANK = {"proved": 0, "unknown": 1, "refuted": 2}

    def _rec(self, nm, kind, status, loc="", detail="", model=None):
        o = self.oblig.get(nm)
        if o is None or self.RANK[status] > self.RANK[o.status]:
            self.oblig[nm] = Oblig(nm, kind, status, loc, detail, model)

    # ------------------------------------------------------------ blocks
    def new_block(self, st, kind, size, name="", heap=None, stride=8, key=None):
        id = next(self.blkn)
        b = Block(id, kind, size, name, heap, stride)
        if key is None:
            n = st.seq.get(name, 0)
            st.seq[name] = n + 1
            key = (name, n)
        b.key = key
        st.mem[id] = b
        st.own.add(id)
        return b

    def gblock(self, st, name):
        id = ("G", name)
        if id not in st.mem:
            g = self.mod.globs.get(name)
            b = Block(id, "c", g.ty.size if g is not None else 0, name)
            b.key = ("G", name)
            if g is None or g.init is None:
                b.heap = "ext"
                b.size = 1 << 20
            else:
                b.ro = g.const
                if g.const and g.ty.size > 2048 and self.opts.get("symtab") and self._dbl(g.ty):
                    # a large constant table of doubles: its entries are symbols
                    b.kind, b.stride = "a", 8
                    b.arr[0] = AV("base", "table " + name)
                    st.mem[id] = b
                    st.own.add(id)
                    return b
                key = name
                if key not in self.ginit:
                    cells = {}
                    bg = []
                    self._flat(self.mod.ginit(name), g.ty, 0, cells, bg)
                    self.ginit[key] = (cells, tuple(bg))
                cells, bg = self.ginit[key]
                b.cells = dict(cells)
                b.bg = bg
            st.mem[id] = b
            st.own.add(id)
        return st.mem[id]

    def _flat(self, v, ty, off, cells, bg):
        k = v[0]
        if k == "zero":
            bg.append((off, off + v[1].size))
        elif k == "agg":
            t = v[2]
            if t.kind == "struct":
                for (o, ft), x in zip(t.fields, v[1]):
                    self._flat(x, ft, off + o, cells, bg)
            else:
                es = t.elem.size
                for j, x in enumerate(v[1]):
                    self._flat(x, t.elem, off + j * es, cells, bg)
        elif k == "undef":
            pass
        else:
            cells[off] = (ty.size, self.cval(v, ty))

    def cval(self, v, ty=None):
        k = v[0]
        if k == "i":
            if v[2] == 1:
                return bool(v[1] & 1)
            return v[1]
        if k == "f":
            return fc(v[1])
        if k == "null":
            return NULL
        if k == "fn":
            return FnPtr(v[1])
        if k == "g":
            return Ptr(("G", v[1]), 0)
        if k == "gep":
            p = self.cval(v[1])
            return Ptr(p.blk, p.off + v[2])
        if k == "undef":
            return UNDEF
        if k == "zero":
            t = v[1]
            if t.kind == "int":
                return 0
            if t.kind in ("double", "float"):
                return fc(0.0)
            if t.kind == "ptr":
                return NULL
            if t.kind == "struct":
                return Agg([self.cval(("zero", ft)) for _, ft in t.fields])
            if t.kind in ("array", "vec"):
                return Agg([self.cval(("zero", t.elem)) for _ in range(t.n)])
        if k == "agg":
            return Agg([self.cval(x) for x in v[1]])
        if k == "cexpr":
            if v[1] in ("ptrtoint",):
                p = self.cval(v[2][0])
                return PInt(p)
            if v[1] in ("bitcast", "inttoptr"):
                return self.cval(v[2][0])
        raise Unsupported(f"constant {v[:2]}")

    # ------------------------------------------------------------ operands
    def val(self, fr, o):
        k = o[0]
        if k == "inst":
            return fr.regs[o[1].id]
        if k == "i":
            if o[2] == 1:
                return bool(o[1] & 1)
            return o[1]
        if k == "arg":
            return fr.args[o[1]]
        if k == "f":
            return fc(o[1])
        return self.cval(o)

    # ------------------------------------------------------------ array values
    def av(self, st, b, fld=0):
        a = b.arr.get(fld)
        if a is None:
            a = AV("undef", b.id)
        return a

    def flush(self, st, id):
        b = st.wblk(id)
        if b.ov:
            byf = {}
            for (i, fld), v in b.ov.items():
                byf.setdefault(fld, {})[i] = v
            for fld, d in byf.items():
                b.arr[fld] = AV("ov", self.av(st, b, fld), d)
            b.ov = {}
        return b

    def aread(self, st, a, idx, ty, depth=0):
        """value of array a at idx (index in elements) -- may contain ites"""
        while True:
            op = a.op
            if op == "base":
                return self.mkread(a.a[0], idx, ty)
            if op == "undef":
                if ty == "double":
                    return mkf("undef", a.a[0], idx)
                return uf("undef", a.a[0], idx)
            if op == "zero":
                return fc(0.0) if ty == "double" else 0
            if op == "fnv":
                return a.a[0](idx)
            if op == "map":
                return a.a[1](self.aread(st, a.a[0], idx, ty, depth + 1))
            if op == "hv":
                if ty == "double":
                    return mkf("hv", a.a[0], idx)
                return uf("hv", a.a[0], idx)
            if op == "ov":
                prev, d = a.a
                if type(idx) is int:
                    if idx in d:
                        return d[idx]
                    a = prev
                    continue
                hits = [(i, v) for i, v in d.items() if self.smt.sat(st.pc, (beq(idx, i),)) is not False]
                r = self.aread(st, prev, idx, ty, depth + 1)
                for i, v in hits:
                    r = self.ite(beq(idx, i), v, r)
                return r
            if op == "st":
                prev, i, v = a.a
                c = beq(idx, i)
                if c is True:
                    return v
                if c is False:
                    a = prev
                    continue
                if self.smt.sat(st.pc, (c,)) is False:
                    a = prev
                    continue
                if self.smt.sat(st.pc, (T.bnot(c),)) is False:
                    return v
                return self.ite(c, v, self.aread(st, prev, idx, ty, depth + 1))
            if op == "fill":
                prev, lo, n, v = a.a
                c = band(ble(lo, idx), blt(idx, lo + n))
                if self.known(st, c):
                    return v
                if self.known(st, T.bnot(c)):
                    a = prev
                    continue
                return self.ite(c, v, self.aread(st, prev, idx, ty, depth + 1))
            if op == "cp":
                prev, dst, n, src, so = a.a
                c = band(ble(dst, idx), blt(idx, dst + n))
                if self.known(st, c):
                    a, idx = src, idx - dst + so
                    continue
                if self.known(st, T.bnot(c)):
                    a = prev
                    continue
                return self.ite(c, self.aread(st, src, idx - dst + so, ty, depth + 1),
                                self.aread(st, prev, idx, ty, depth + 1))
            raise Unsupported("array op " + op)

    def known(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        return self.smt.entails(st.pc, c)

    def mkread(self, name, idx, ty):
        if ty == "double":
            return mkf("rd", name, idx)
        if ty == "ptr":
            raise Unsupported("pointer read from array")
        return uf("rd", name, idx)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, F) and isinstance(b, F):
            return fite(c, a, b)
        if is_int(a) and is_int(b):
            return iite(c, a, b)
        if a == b:
            return a
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return bor(band(c, a), band(bnot(c), b))
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        raise Unsupported("ite of mixed values")

    # ------------------------------------------------------------ memory access
    def locate(self, st, p, size, inst, write):
        """check the access; returns block or None when the path must end"""
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.obl(st, "uninit-pointer", False, inst)
            elif isinstance(p, FnPtr):
                raise Unsupported("access through function pointer")
            else:
                raise Unsupported(f"access through {type(p).__name__}")
            st.status = "dead"
            return None
        if p.blk == 0:
            self.obl(st, "null-deref", False, inst)
            st.status = "dead"
            return None
        if isinstance(p.blk, tuple) and p.blk[0] == "G":
            self.gblock(st, p.blk[1])
        b = st.mem.get(p.blk)
        if b is None:
            self.obl(st, "use-after-free", False, inst, detail=f"{st.dead.get(p.blk)}")
            st.status = "dead"
            return None
        off = p.off
        if type(off) is int and type(b.size) is int:
            if not (0 <= off and off + size <= b.size):
                if b.heap == "ext":
                    return b
                self.obl(st, "bounds", False, inst, detail=f"{b.name} off {off} size {b.size}")
                st.status = "dead"
                return None
            if self.check_obl:
                self.nproved += 1
        else:
            c = band(ble(0, off), ble(off + size, b.size))
            self.obl(st, "bounds", c, inst, detail=f"{b.name}")
        if write and b.ro:
            self.obl(st, "write-const", False, inst)
        return b

    def split_off(self, b, off):
        """byte offset -> (index, field) for an array block"""
        S = b.stride
        if type(off) is int:
            return off // S, off % S
        c0 = off.const()
        if not isinstance(c0, int):
            # rational constants: find fld in 0..S-1 step 8
            for fld in range(0, S, 4):
                if T.divides_always(off - fld, S):
                    return T.exact_div(off - fld, S), fld
            raise Unsupported("array offset")
        fld = c0 % S
        if T.divides_always(off - fld, S):
            return T.exact_div(off - fld, S), fld
        for fld in range(0, S, 4):
            if T.divides_always(off - fld, S):
                return T.exact_div(off - fld, S), fld
        raise Unsupported(f"array offset {off} stride {S}")

    def enum_off(self, st, b, off, size):
        """feasible concrete offsets of a symbolic offset into a small block"""
        if type(b.size) is not int or b.size > 4096:
            raise Unsupported("symbolic offset into large cell block")
        offs = [o for o in range(0, b.size - size + 1, min(size, 8) or 1)
                if self.smt.sat(st.pc, (beq(off, o),)) is not False]
        return offs

    def load(self, st, p, ty, inst):
        """ty: llvm type"""
        b = self.locate(st, p, ty.size, inst, False)
        if b is None:
            return UNDEF
        if ty.kind in ("struct", "array", "vec"):
            vals = []
            if ty.kind == "struct":
                for o, ft in ty.fields:
                    vals.append(self.load(st, Ptr(p.blk, p.off + o), ft, inst))
            else:
                for j in range(ty.n):
                    vals.append(self.load(st, Ptr(p.blk, p.off + j * ty.elem.size), ty.elem, inst))
            return Agg(vals)
        if b.kind == "a":
            idx, fld = self.split_off(b, p.off)
            if type(idx) is int and (idx, fld) in b.ov:
                return self.conv(b.ov[(idx, fld)], ty)
            if b.ov and type(idx) is not int:
                b = self.flush(st, p.blk)
            tk = "double" if ty.kind == "double" else ty.kind
            return self.conv(self.aread(st, self.av(st, b, fld), idx, tk), ty)
        off = p.off
        if type(off) is not int:
            offs = self.enum_off(st, b, off, ty.size)
            if not offs:
                return UNDEF
            r = None
            for o in reversed(offs):
                v = self.cload(st, b, o, ty)
                r = v if r is None else self.ite(beq(off, o), v, r)
            return r
        return self.cload(st, b, off, ty)

    def cload(self, st, b, off, ty):
        c = b.cells.get(off)
        sz = ty.size
        if c is not None and c[0] == sz:
            return self.conv(c[1], ty)
        # search overlapping cells
        ov = []
        for o in range(off - 16, off + sz):
            cc = b.cells.get(o)
            if cc is not None and o + cc[0] > off:
                ov.append((o, cc[0], cc[1]))
        if not ov:
            for lo, hi in b.bg:
                if lo <= off and off + sz <= hi:
                    return self.zeroval(ty)
            if b.heap == "ext":
                v = self.extval(ty, f"{b.name}+{off}")
                b.cells[off] = (sz, v)
                return v
            if b.info == "arbitrary":
                v = self.extval(ty, f"{b.key}+{off}")
                b.cells[off] = (sz, v)
                return v
            return UNDEF
        if len(ov) == 1 and ov[0][0] == off and ov[0][1] > sz:
            v = ov[0][2]
            if type(v) is int:
                w = sz * 8
                x = v & ((1 << w) - 1)
                return self.conv(x - (1 << w) if x >> (w - 1) else x, ty)
            if isinstance(v, Cat):
                for o2, s2, v2 in v.parts:
                    if o2 == 0 and s2 == sz:
                        return self.conv(v2, ty)
            if isinstance(v, Poly) and self.smt.entails(st.pc, band(ble(-(1 << (sz * 8 - 1)), v), blt(v, 1 << (sz * 8 - 1)))):
                return v
        if len(ov) == 1 and ov[0][0] < off and type(ov[0][2]) is int and off + sz <= ov[0][0] + ov[0][1]:
            x = (ov[0][2] >> (8 * (off - ov[0][0]))) & ((1 << (8 * sz)) - 1)
            return self.conv(x - (1 << 8 * sz) if x >> (8 * sz - 1) else x, ty)
        if len(ov) == 1 and ov[0][0] < off and isinstance(ov[0][2], Cat):
            for o2, s2, v2 in ov[0][2].parts:
                if ov[0][0] + o2 == off and s2 == sz:
                    return self.conv(v2, ty)
        if all(off <= o and o + s <= off + sz for o, s, _ in ov):
            if all(type(v) is int for _, _, v in ov):
                x = 0
                cov = 0
                for o, s, v in ov:
                    x |= (v & ((1 << (8 * s)) - 1)) << (8 * (o - off))
                    cov += s
                if cov == sz or any(lo <= off and off + sz <= hi for lo, hi in b.bg):
                    w = 8 * sz
                    return self.conv(x - (1 << w) if x >> (w - 1) else x, ty)
            return Cat([(o - off, s, v) for o, s, v in ov])
        raise Unsupported(f"overlapping load in {b.name} at {off}: {ov}")

    def zeroval(self, ty):
        if ty.kind == "int":
            return False if ty.width == 1 else 0
        if ty.kind in ("double", "float"):
            return fc(0.0)
        if ty.kind == "ptr":
            return NULL
        raise Unsupported("zero of " + ty.kind)

    def extval(self, ty, name):
        if ty.kind == "int":
            if ty.width == 1:
                return T.bsym(name)
            w = ty.width
            return sym(name, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if ty.kind in ("double", "float"):
            return fsym(name)
        if ty.kind == "ptr":
            return Ptr(("G", name + "*"), 0)
        raise Unsupported("ext " + ty.kind)

    def conv(self, v, ty):
        """reinterpret a loaded value at type ty"""
        if v is UNDEF:
            return v
        k = ty.kind
        if k == "int":
            if isinstance(v, (bool, B)):
                return v if ty.width == 1 else (int(v) if isinstance(v, bool) else iite(v, 1, 0))
            if is_int(v) or isinstance(v, (Cat, PInt)):
                if ty.width == 1 and is_int(v):
                    return self.tobool(v)
                return v
            if isinstance(v, F):
                if v.op == "c":
                    import struct
                    return struct.unpack("<q", struct.pack("<d", T.cval(v)))[0]
                return Cat([(0, 8, v)])
            if isinstance(v, Ptr):
                return PInt(v)
        elif k == "double":
            if isinstance(v, F):
                return v
            if type(v) is int:
                import struct
                return fc(struct.unpack("<d", struct.pack("<q", v))[0])
            if isinstance(v, Cat) and len(v.parts) == 1:
                return v.parts[0][2]
        elif k == "ptr":
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if type(v) is int and v == 0:
                return NULL
            if isinstance(v, PInt):
                return v.ptr
        elif k == "float":
            return v
        raise Unsupported(f"load conversion {type(v).__name__} -> {k}")

    def tobool(self, v):
        if type(v) is int:
            return bool(v & 1)
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if len(m) == 1 and c == 1:
                a = ATOMS[m[0]]
                if a.kind == "ite" and a.args[1] == 1 and a.args[2] == 0:
                    return a.args[0]
                if a.lo == 0 and a.hi == 1:
                    return beq(v, 1)
        return T.bnot(beq(T.trem(v, 2), 0))

    def store(self, st, p, v, size, inst):
        if isinstance(v, Agg):
            raise Unsupported("aggregate store")
        b = self.locate(st, p, size, inst, True)
        if b is None:
            return
        b = st.wblk(p.blk)
        if b.kind == "a":
            idx, fld = self.split_off(b, p.off)
            if size != 8 and b.stride == 8:
                raise Unsupported("non-double store into array")
            if type(idx) is int:
                b.ov[(idx, fld)] = v
                return
            if b.ov:
                b = self.flush(st, p.blk)
            b.arr[fld] = AV("st", self.av(st, b, fld), idx, v)
            return
        off = p.off
        if type(off) is not int:
            offs = self.enum_off(st, b, off, size)
            for o in offs:
                old = b.cells.get(o)
                ov = old[1] if old is not None and old[0] == size else (self._bgval(b, o, v))
                self.cstore(b, o, size, self.ite(beq(off, o), v, ov))
            return
        self.cstore(b, off, size, v)

    def _bgval(self, b, o, v):
        for lo, hi in b.bg:
            if lo <= o < hi:
                return fc(0.0) if isinstance(v, F) else 0
        return UNDEF

    def cstore(self, b, off, size, v):
        if isinstance(v, Cat):
            self.clear(b, off, size)
            for o, s, x in v.parts:
                b.cells[off + o] = (s, x)
            return
        c = b.cells.get(off)
        if c is None or c[0] != size:
            self.clear(b, off, size)
        b.cells[off] = (size, v)

    def clear(self, b, off, size):
        for o in range(off - 16, off + size):
            cc = b.cells.get(o)
            if cc is not None and o + cc[0] > off:
                del b.cells[o]
                if o < off:
                    if isinstance(cc[1], Cat):
                        for o2, s2, v2 in cc[1].parts:
                            if o + o2 + s2 <= off or o + o2 >= off + size:
                                b.cells[o + o2] = (s2, v2)
                    elif type(cc[1]) is int:
                        k = off - o
                        b.cells[o] = (k, cc[1] & ((1 << 8 * k) - 1))
                if o + cc[0] > off + size and type(cc[1]) is int:
                    k = off + size - o
                    b.cells[off + size] = (cc[0] - k, cc[1] >> (8 * k))

    # ------------------------------------------------------------ block copies
    def memcpy(self, st, d, s, n, inst):
        if type(n) is int and n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("memcpy pointers")
        if type(n) is not int:
            z = beq(n, 0)
            if self.known(st, z):
                return
            self.obl(st, "memcpy-size", ble(0, n), inst)
        # null with n possibly zero
        for p in (d, s):
            if p.blk == 0:
                self.obl(st, "null-deref", beq(n, 0), inst)
                if self.smt.sat(st.pc) is False:
                    st.status = "dead"
                return
        sb = self.locate_n(st, s, n, inst, False)
        if sb is None:
            return
        db = self.locate_n(st, d, n, inst, True)
        if db is None:
            return
        if sb.kind == "c" and db.kind == "c":
            if type(n) is not int or type(s.off) is not int or type(d.off) is not int:
                n2 = self.concretize(st, n)
                if type(n2) is not int or type(s.off) is not int or type(d.off) is not int:
                    raise Unsupported("symbolic memcpy of cells")
                n = n2
            cells = []
            for o, (sz, v) in sb.cells.items():
                if s.off <= o and o + sz <= s.off + n:
                    cells.append((o - s.off + d.off, sz, v))
                elif o < s.off + n and o + sz > s.off:
                    if isinstance(v, Cat):
                        for o2, s2, v2 in v.parts:
                            if s.off <= o + o2 and o + o2 + s2 <= s.off + n:
                                cells.append((o + o2 - s.off + d.off, s2, v2))
                    elif type(v) is int:
                        lo, hi = max(o, s.off), min(o + sz, s.off + n)
                        x = (v >> (8 * (lo - o))) & ((1 << 8 * (hi - lo)) - 1)
                        cells.append((lo - s.off + d.off, hi - lo, x))
                    else:
                        raise Unsupported("memcpy splits a cell")
            bg = [(max(lo, s.off) - s.off + d.off, min(hi, s.off + n) - s.off + d.off) for lo, hi in sb.bg
                  if lo < s.off + n and hi > s.off]
            if sb.info == "arbitrary" or sb.heap == "ext":
                # lazily created contents: create them now, word by word
                have = {o for o, _, _ in cells}
                for o in range(0, n, 8):
                    if d.off + o not in have and not any(a <= d.off + o < b2 for a, b2 in bg):
                        pass
            db = st.wblk(d.blk)
            self.clear(db, d.off, n)
            nb = []
            for lo, hi in db.bg:
                if hi <= d.off or lo >= d.off + n:
                    nb.append((lo, hi))
                else:
                    if lo < d.off:
                        nb.append((lo, d.off))
                    if hi > d.off + n:
                        nb.append((d.off + n, hi))
            db.bg = tuple(nb) + tuple(bg)
            for o, sz, v in cells:
                db.cells[o] = (sz, v)
            return
        if sb.kind == "a" and db.kind == "a":
            if sb.stride != db.stride:
                raise Unsupported("memcpy of different strides")
            S = sb.stride
            if not T.divides_always(n, S):
                raise Unsupported("memcpy size")
            ne = T.exact_div(n, S) if not type(n) is int else n // S
            si, f1 = self.split_off(sb, s.off)
            di, f2 = self.split_off(db, d.off)
            if f1 or f2:
                raise Unsupported("memcpy field offset")
            if type(ne) is int and type(si) is int and type(di) is int and S == 8:
                vals = []
                for j in range(ne):
                    if (si + j, 0) in sb.ov:
                        vals.append(sb.ov[(si + j, 0)])
                    else:
                        vals.append(self.aread(st, self.av(st, sb), si + j, "double"))
                db = st.wblk(d.blk)
                for j, v in enumerate(vals):
                    db.ov[(di + j, 0)] = v
                return
            sb = self.flush(st, s.blk)
            srcs = dict(sb.arr)
            db = self.flush(st, d.blk)
            flds = set(srcs) | set(db.arr)
            for fld in (flds or {0}):
                db.arr[fld] = AV("cp", self.av(st, db, fld), di, ne, srcs.get(fld) or AV("undef", sb.id), si)
            return
        if type(n) is int and n <= 4096:
            # mixed: element-wise doubles
            for o in range(0, n, 8):
                v = self.load(st, Ptr(s.blk, s.off + o), DBL, inst)
                self.store(st, Ptr(d.blk, d.off + o), v, 8, inst)
            return
        raise Unsupported("memcpy between block kinds")

    def concretize(self, st, n):
        if type(n) is int:
            return n
        m = self.smt.model(st.pc)
        if m is None:
            return n
        v = T.psub(n, {i: x for i, x in m[0].items()})
        if type(v) is int and self.smt.entails(st.pc, beq(n, v)):
            return v
        return n

    def locate_n(self, st, p, n, inst, write):
        """range access of n bytes"""
        if p.blk == 0:
            self.obl(st, "null-deref", False, inst)
            st.status = "dead"
            return None
        if isinstance(p.blk, tuple):
            self.gblock(st, p.blk[1])
        b = st.mem.get(p.blk)
        if b is None:
            self.obl(st, "use-after-free", beq(n, 0) if type(n) is not int else False, inst)
            st.status = "dead"
            return None
        c = band(ble(0, p.off), ble(p.off + n, b.size))
        if c is not True:
            if type(n) is not int:
                c = bor(beq(n, 0), c)
            self.obl(st, "bounds", c, inst, detail=f"{b.name} range")
            if c is False:
                st.status = "dead"
                return None
        elif self.check_obl:
            self.nproved += 1
        return b

    def memset(self, st, d, v, n, inst):
        if type(n) is int and n == 0:
            return
        if type(n) is not int and self.known(st, beq(n, 0)):
            return
        b = self.locate_n(st, d, n, inst, True)
        if b is None:
            return
        if b.kind == "c":
            if type(n) is not int or type(d.off) is not int:
                raise Unsupported("symbolic memset")
            b = st.wblk(d.blk)
            self.clear(b, d.off, n)
            if v == 0:
                b.bg = b.bg + ((d.off, d.off + n),)
            elif type(v) is int:
                for o in range(n):
                    b.cells[d.off + o] = (1, v)
            return
        if v != 0:
            raise Unsupported("memset non-zero array")
        b = self.flush(st, d.blk)
        i0, f = self.split_off(b, d.off)
        ne = T.exact_div(n, b.stride)
        b.arr[0] = AV("fill", self.av(st, b), i0, ne, fc(0.0))

    # ------------------------------------------------------------ free
    def free(self, st, p, kind, inst):
        if isinstance(p, Ptr) and p.blk == 0:
            return
        if not isinstance(p, Ptr):
            self.obl(st, "bad-free", False, inst)
            st.status = "dead"
            return
        b = st.mem.get(p.blk)
        if b is None:
            self.obl(st, "double-free", False, inst)
            st.status = "dead"
            return
        if b.heap != kind:
            self.obl(st, "free-mismatch", False, inst, detail=f"{b.heap} vs {kind}")
        self.obl(st, "free-offset", beq(p.off, 0), inst)
        del st.mem[p.blk]
        st.own.discard(p.blk)
        st.dead[p.blk] = "freed"

    # ------------------------------------------------------------ main loop
    def start(self, st, fname, args):
        fn = self.mod.fn(fname)
        if fn is None or fn.decl:
            raise Unsupported("no function " + fname)
        self.push(st, fn, args, None, ())

    def push(self, st, fn, args, inst, path):
        fr = Frame()
        fr.fn = fn
        fr.regs = {}
        fr.args = list(args)
        fr.bb = 0
        fr.ip = 0
        fr.prev = -1
        fr.path = path
        fr.allocas = []
        fr.iters = {}
        fr.lctx = []
        fr.inst = inst
        st.frames.append(fr)
        if len(st.frames) > 60:
            raise Unsupported("recursion")
        self.inlined.add(fn.name)

    def run(self, st, on_end):
        work = [st]
        while work:
            s = work.pop()
            self.paths += 1
            if self.paths > self.opts["max_paths"]:
                raise Budget("paths")
            while s.status == "run":
                new = self.step_bb(s)
                if new:
                    work.extend(new)
            if s.status in ("ret", "throw", "terminate"):
                on_end(s)

    def loops(self, fn):
        l = self.li.get(fn.name)
        if l is None:
            l = self.li[fn.name] = LoopInfo(fn).loops
        return l

    def step_bb(self, st):
        """execute until the end of the current block (or a call/return); may return forks"""
        fr = st.frames[-1]
        insts = fr.fn.bbs[fr.bb].insts
        while True:
            i = insts[fr.ip]
            self.steps += 1
            if self.steps & 1023 == 0:
                if self.steps > self.opts["max_steps"]:
                    raise Budget("steps")
                if self.opts["deadline"] and time.time() > self.opts["deadline"]:
                    raise Budget("time")
            h = self.H.get(i.op)
            if h is None:
                raise Unsupported("instruction " + i.op)
            r = h(self, st, fr, i)
            if r is not None:
                return r if r is not NEXT else None
            if st.status != "run":
                return None
            fr.ip += 1

    # ------------------------------------------------------------ jumps
    def jump(self, st, fr, to):
        """move to block `to`: loop bookkeeping and phis"""
        fn = fr.fn
        loops = self.loops(fn)
        frm = fr.bb
        # leaving loops
        if fr.lctx:
            while fr.lctx and to not in loops[fr.lctx[-1][0]]:
                fr.lctx.pop()
        bb = fn.bbs[to]
        body = loops.get(to)
        vals = None
        if bb.phis:
            vals = {}
            for p in bb.phis:
                for v, b in p.x["inc"]:
                    if b == frm:
                        vals[p.id] = self.val(fr, v)
                        break
        fr.prev = frm
        fr.bb = to
        fr.ip = len(bb.phis)
        if body is not None:
            key = (fr.path, fn.name, to)
            back = frm in body
            if self.sampler is not None:
                self.sampler(st, fr, key, vals or {}, back, bb)
            if self.inv is not None and key in self.inv.loops:
                self.inv.header(st, fr, key, vals or {}, back, bb)
                return
            n = fr.iters.get(to, 0) + 1 if back else 1
            fr.iters[to] = n
            if not back:
                # inner loops restart
                pass
            if n > self.opts["max_unroll"]:
                raise NeedInvariant(key) if self.inv is not None else Budget("unroll")
        if vals:
            fr.regs.update(vals)

    def in_loops(self, fr):
        """innermost-first loops (headers) containing the current block"""
        l = [h for h, b in self.loops(fr.fn).items() if fr.bb in b]
        l.sort(key=lambda h: len(self.loops(fr.fn)[h]))
        return l

    # ------------------------------------------------------------ instructions
    def i_br(self, st, fr, i):
        if not i.ops:
            self.jump(st, fr, i.x["succ"][0])
            return NEXT
        c = self.val(fr, i.ops[0])
        if c is UNDEF:
            self.obl(st, "uninit-branch", False, i)
            st.status = "dead"
            return NEXT
        a, b = i.x["succ"]
        if c is True or c is False:
            # an exit decided by constants: the loop's trip count is bounded by the code itself
            for h, body in self.loops(fr.fn).items():
                if fr.bb in body and ((a in body) != (b in body)):
                    fr.iters[("cnt", h)] = 1
        if c is True:
            self.jump(st, fr, a)
            return NEXT
        if c is False:
            self.jump(st, fr, b)
            return NEXT
        return self.fork2(st, fr, i, c, a, b)

    def fork2(self, st, fr, i, c, a, b):
        nc = bnot(c)
        t = self.smt.sat(st.pc, (c,)) is not False
        f = self.smt.sat(st.pc, (nc,)) is not False
        if t and f:
            # a symbolic exit decision of an unrolled loop needs an invariant
            loops = self.loops(fr.fn)
            for h, body in loops.items():
                if fr.bb in body and ((a in body) != (b in body)):
                    key = (fr.path, fr.fn.name, h)
                    lim = self.opts.get("fork_loops", 0)
                    if ("cnt", h) in fr.iters:
                        lim = max(lim, 16)
                    if self.inv is not None and key not in self.inv.loops and fr.iters.get(h, 0) > lim:
                        raise NeedInvariant(key)
                    if self.inv is None and fr.iters.get(h, 0) > self.opts.get("sym_unroll", 64):
                        raise Budget("symbolic unroll")
            s2 = st.fork()
            st.assume(c)
            s2.assume(nc)
            self.jump(st, fr, a)
            self.jump(s2, s2.frames[-1], b)
            return [s2]
        if t:
            self.jump(st, fr, a)
        elif f:
            self.jump(st, fr, b)
        else:
            st.status = "dead"
        return NEXT

    def i_switch(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        if type(v) is int:
            for c, t in i.x["cases"]:
                if c == v:
                    self.jump(st, fr, t)
                    return NEXT
            self.jump(st, fr, i.x["default"])
            return NEXT
        if v is UNDEF:
            self.obl(st, "uninit-branch", False, i)
            st.status = "dead"
            return NEXT
        out = []
        rest = []
        if isinstance(v, (B,)):
            v = iite(v, 1, 0)
        for c, t in i.x["cases"]:
            cond = beq(v, c)
            rest.append(bnot(cond))
            if self.smt.sat(st.pc, (cond,)) is not False:
                s2 = st.fork()
                s2.assume(cond)
                self.jump(s2, s2.frames[-1], t)
                out.append(s2)
        r = band(*rest)
        if self.smt.sat(st.pc, (r,)) is not False:
            st.assume(r)
            self.jump(st, fr, i.x["default"])
        else:
            st.status = "dead"
        return out

    def i_ret(self, st, fr, i):
        v = self.val(fr, i.ops[0]) if i.ops else None
        self.do_ret(st, fr, v)
        return NEXT

    def do_ret(self, st, fr, v):
        for id in fr.allocas:
            st.mem.pop(id, None)
            st.own.discard(id)
            st.dead[id] = "out of scope"
        st.frames.pop()
        if not st.frames:
            st.status = "ret"
            st.ret = v
            return
        c = st.frames[-1]
        inst = fr.inst
        if v is not None:
            c.regs[inst.id] = v
        if inst.op == "invoke":
            self.jump(st, c, inst.x["normal"])
        else:
            c.ip += 1

    def throw(self, st, exc):
        """unwind to the nearest invoke"""
        st.exc = exc
        while st.frames:
            fr = st.frames[-1]
            inst = fr.fn.bbs[fr.bb].insts[fr.ip]
            if inst.op == "invoke":
                self.jump(st, fr, inst.x["unwind"])
                return
            for id in fr.allocas:
                st.mem.pop(id, None)
                st.own.discard(id)
                st.dead[id] = "out of scope"
            st.frames.pop()
        st.status = "throw"

    def i_landingpad(self, st, fr, i):
        ti, p = st.exc
        sel = 0
        for c in i.x["clauses"]:
            if c[0] == "null":
                sel = -1
                break
            if c[0] in ("g", "fn"):
                if self.catches(c[1], ti):
                    sel = self.typeid(c[1])
                    break
            elif c[0] in ("agg", "zero"):
                sel = -2
                break
        fr.regs[i.id] = Agg([p, sel])

    def typeid(self, name):
        if not hasattr(self, "_tid"):
            self._tid = {}
        return self._tid.setdefault(name, len(self._tid) + 1)

    STD_EXC = {"_ZTISt9exception"}

    def catches(self, clause, thrown):
        if clause == thrown:
            return True
        if clause == "_ZTISt9exception" and thrown.startswith("_ZTISt"):
            return True
        bases = {"_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
                 "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt11range_error": "_ZTISt13runtime_error"}
        return bases.get(thrown) == clause

    def i_resume(self, st, fr, i):
        for id in fr.allocas:
            st.mem.pop(id, None)
            st.own.discard(id)
        st.frames.pop()
        self.throw(st, st.exc)
        return NEXT

    def i_unreachable(self, st, fr, i):
        st.status = "dead"
        return NEXT

    def i_alloca(self, st, fr, i):
        n = self.val(fr, i.ops[0])
        ty = i.x["ty"]
        if type(n) is not int:
            raise Unsupported("variable alloca")
        size = ty.size * n
        b = self.new_block(st, "c", size, f"alloca:{fr.fn.name[:40]}:{i.id}", key=("A", fr.path, fr.fn.name, i.id))
        if size > self.opts.get("array_allocas", 8192) and self._dbl(ty):
            b.kind = "a"
            b.stride = 8
        fr.allocas.append(b.id)
        fr.regs[i.id] = Ptr(b.id, 0)

    def _dbl(self, ty):
        if ty.kind == "double":
            return True
        if ty.kind == "array":
            return self._dbl(ty.elem)
        if ty.kind == "struct":
            return all(self._dbl(t) for _, t in ty.fields)
        return False

    def i_load(self, st, fr, i):
        fr.regs[i.id] = self.load(st, self.val(fr, i.ops[0]), i.ty, i)

    def i_store(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        o = i.ops[0]
        sz = self.opsize(fr, o)
        p = self.val(fr, i.ops[1])
        if isinstance(v, Agg):
            self.store_agg(st, p, v, self.opty(fr, o), i)
            return
        self.store(st, p, v, sz, i)

    def store_agg(self, st, p, v, ty, i):
        if ty.kind == "struct":
            for (o, ft), x in zip(ty.fields, v.v):
                if isinstance(x, Agg):
                    self.store_agg(st, Ptr(p.blk, p.off + o), x, ft, i)
                else:
                    self.store(st, Ptr(p.blk, p.off + o), x, ft.size, i)
        else:
            for j, x in enumerate(v.v):
                if isinstance(x, Agg):
                    self.store_agg(st, Ptr(p.blk, p.off + j * ty.elem.size), x, ty.elem, i)
                else:
                    self.store(st, Ptr(p.blk, p.off + j * ty.elem.size), x, ty.elem.size, i)

    def opty(self, fr, o):
        if o[0] == "inst":
            return o[1].ty
        if o[0] == "arg":
            return fr.fn.params[o[1]]
        if o[0] in ("zero", "undef"):
            return o[1]
        if o[0] == "agg":
            return o[2]
        return None

    def opsize(self, fr, o):
        k = o[0]
        if k == "i":
            return max(1, o[2] // 8)
        if k == "f":
            return 4 if o[2] == "float" else 8
        t = self.opty(fr, o)
        if t is not None:
            return t.size
        return 8

    def i_gep(self, st, fr, i):
        p = self.val(fr, i.ops[0])
        off = i.x["off"]
        for o, sc in i.x["var"]:
            v = self.val(fr, o)
            if v is UNDEF:
                self.obl(st, "uninit-index", False, i)
                st.status = "dead"
                return
            off = off + v * sc
        if isinstance(p, Ptr):
            fr.regs[i.id] = Ptr(p.blk, p.off + off) if not (type(off) is int and off == 0) else p
        elif isinstance(p, FnPtr) and off == 0:
            fr.regs[i.id] = p
        elif p is UNDEF:
            fr.regs[i.id] = UNDEF
        else:
            raise Unsupported("gep base " + type(p).__name__)

    # ---- integer arithmetic
    def width(self, i):
        return i.ty.width

    def inrange(self, v, w):
        return band(ble(-(1 << (w - 1)), v), ble(v, (1 << (w - 1)) - 1))

    def wrap(self, st, v, w, nsw, i, unsigned=False):
        if type(v) is int:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if lo <= v <= hi:
                return v
            if nsw:
                self.obl(st, "overflow", False, i, detail=str(v))
            return T.wrap_atom(v, w)
        iv = self.interval(st, v)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if iv[0] is not None and iv[1] is not None and lo <= iv[0] and iv[1] <= hi:
            if nsw and self.check_obl:
                self.nproved += 1
                self._rec(f"{self.prefix}overflow@{i.loc()}", "overflow", "proved", i.loc())
            return v
        c = self.inrange(v, w)
        if nsw:
            self.obl(st, "overflow", c, i)
            return v
        if self.smt.entails(st.pc, c):
            return v
        self.wraps += 1
        return T.wrap_atom(v, w)

    def bounds(self, st):
        """atom -> (lo,hi) from the path condition (single-atom facts), cached by pc"""
        key = st.pc
        c = getattr(self, "_bc", None)
        if c is None:
            c = self._bc = {}
        r = c.get(key)
        if r is not None:
            return r
        # build from prefix
        if key:
            base = c.get(key[:-1])
            new = key[-1:]
            if base is None:
                base, new = {}, key
        else:
            base, new = {}, ()
        r = dict(base)
        for b in new:
            self._bnd(b, r)
        if len(c) > 5000:
            c.clear()
        c[key] = r
        return r

    def _bnd(self, b, r):
        if b.op in ("le", "eq"):
            p = b.args[0]
            # sum c_i x_i + c0 <= 0 : bound every atom having an interval for the rest
            for m, c in p.t.items():
                if len(m) != 1:
                    continue
                rest = p - Poly({m: c})
                lo, hi = self._ival(rest, r)
                # c*x <= -rest   ->  c x <= -lo(rest)
                x = m[0]
                l, h = r.get(x, (ATOMS[x].lo, ATOMS[x].hi))
                if lo is not None:
                    if c > 0:
                        v = (-lo) // c
                        h = v if h is None else min(h, v)
                    else:
                        q = -((-lo) // (-c))
                        l = q if l is None else max(l, q)
                if b.op == "eq" and hi is not None:
                    if c > 0:
                        # x = -rest/c >= -hi/c
                        q = -((hi) // c)
                        l = q if l is None else max(l, q)
                    else:
                        q = hi // (-c)
                        h = q if h is None else min(h, q)
                r[x] = (l, h)

    def _ival(self, p, r):
        if not isinstance(p, Poly):
            return p, p
        lo = hi = 0
        for m, c in p.t.items():
            if not m:
                lo = None if lo is None else lo + c
                hi = None if hi is None else hi + c
                continue
            l, h = 1, 1
            for x in m:
                a = ATOMS[x]
                xl, xh = r.get(x, (a.lo, a.hi))
                if xl is None or xh is None or l is None:
                    if xl is not None and xl >= 0 and l is not None and l >= 0:
                        l, h = l * xl, None
                        continue
                    l = h = None
                    continue
                if h is None:
                    if xl >= 0 and l >= 0:
                        l = l * xl
                    else:
                        l = None
                    continue
                cs = [l * xl, l * xh, h * xl, h * xh]
                l, h = min(cs), max(cs)
            if len(m) == 2 and m[0] == m[1] and l is not None and l < 0:
                l = 0
            if c > 0:
                cl, ch = (None if l is None else c * l), (None if h is None else c * h)
            else:
                cl, ch = (None if h is None else c * h), (None if l is None else c * l)
            lo = None if lo is None or cl is None else lo + cl
            hi = None if hi is None or ch is None else hi + ch
        return lo, hi

    def interval(self, st, p):
        return self._ival(p, self.bounds(st))

    def iop(self, st, fr, i):
        a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
        return a, b

    def i_add(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
            fr.regs[i.id] = T.bnot(beq(a, b))
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[i.id] = UNDEF
            return
        if isinstance(a, PInt) and is_int(b):
            fr.regs[i.id] = PInt(Ptr(a.ptr.blk, a.ptr.off + b))
            return
        if isinstance(b, PInt) and is_int(a):
            fr.regs[i.id] = PInt(Ptr(b.ptr.blk, b.ptr.off + a))
            return
        self.needint(a, b)
        fr.regs[i.id] = self.wrap(st, a + b, i.ty.width, i.x["nsw"], i)

    def needint(self, *vs):
        for v in vs:
            if not is_int(v):
                raise Unsupported(f"integer operation on {type(v).__name__}")

    def i_sub(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if a is UNDEF or b is UNDEF:
            fr.regs[i.id] = UNDEF
            return
        if isinstance(a, PInt) and isinstance(b, PInt):
            if a.ptr.blk != b.ptr.blk:
                self.obl(st, "pointer-difference", False, i)
                fr.regs[i.id] = fresh("pdiff")
                return
            fr.regs[i.id] = a.ptr.off - b.ptr.off
            return
        if isinstance(a, PInt) and is_int(b):
            fr.regs[i.id] = PInt(Ptr(a.ptr.blk, a.ptr.off - b))
            return
        self.needint(a, b)
        fr.regs[i.id] = self.wrap(st, a - b, i.ty.width, i.x["nsw"], i)

    def i_mul(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if a is UNDEF or b is UNDEF:
            fr.regs[i.id] = UNDEF
            return
        self.needint(a, b)
        r = a * b
        v = self.wrap(st, r, i.ty.width, i.x["nsw"], i)
        if self.strides and v == r and isinstance(r, Poly):
            # x * (leading dimension): the slice start S(x) of the column-wise layout, which is defined to be that product
            for R, f in self.strides:
                if a == R and b != R:
                    v = f(b)
                elif b == R:
                    v = f(a)
        fr.regs[i.id] = v

    def i_shl(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        self.needint(a, b)
        if type(b) is not int:
            raise Unsupported("symbolic shift")
        fr.regs[i.id] = self.wrap(st, a * (1 << b), i.ty.width, i.x["nsw"], i)

    def divz(self, st, b, i):
        if type(b) is int:
            if b == 0:
                self.obl(st, "div-by-zero", False, i)
                st.status = "dead"
                return False
            return True
        self.obl(st, "div-by-zero", bnot(beq(b, 0)), i)
        return True

    def i_sdiv(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if isinstance(a, PInt) or isinstance(b, PInt):
            raise Unsupported("pointer division")
        if not self.divz(st, b, i):
            return
        w = i.ty.width
        if type(b) is not int:
            self.obl(st, "overflow", bnot(band(beq(a, -(1 << (w - 1))), beq(b, -1))), i)
        elif b == -1:
            self.obl(st, "overflow", bnot(beq(a, -(1 << (w - 1)))), i)
        fr.regs[i.id] = self.solved(st, T.tdiv(a, b))

    def solved(self, st, v):
        """an opaque integer that provably equals one of the contract's named integers becomes that integer"""
        if not self.targets or type(v) is int:
            return v
        from . import nra
        for t in self.targets:
            if v == t:
                return v
            if nra.equal(st.pc, v, t, self.smt.nra):
                return t
        return v

    def nonneg(self, st, v):
        if type(v) is int:
            return v >= 0
        lo, _ = self.interval(st, v)
        if lo is not None and lo >= 0:
            return True
        return self.smt.entails(st.pc, ble(0, v))

    def uconv(self, st, v, w):
        """canonical signed -> unsigned mathematical value"""
        if type(v) is int:
            return v & ((1 << w) - 1)
        if self.nonneg(st, v):
            return v
        return iite(blt(v, 0), v + (1 << w), v)

    def i_udiv(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if isinstance(a, PInt) or isinstance(b, PInt):
            raise Unsupported("pointer division")
        if not self.divz(st, b, i):
            return
        w = i.ty.width
        a, b = self.uconv(st, a, w), self.uconv(st, b, w)
        fr.regs[i.id] = self.wrap(st, T.tdiv(a, b), w, False, i)

    def i_urem(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if not self.divz(st, b, i):
            return
        w = i.ty.width
        a, b = self.uconv(st, a, w), self.uconv(st, b, w)
        fr.regs[i.id] = self.wrap(st, T.trem(a, b), w, False, i)

    def i_srem(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if not self.divz(st, b, i):
            return
        if type(b) is int:
            fr.regs[i.id] = self.solved(st, T.trem(a, b))
            return
        q = self.solved(st, T.tdiv(a, b))
        fr.regs[i.id] = self.solved(st, a - b * q)

    def i_lshr(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if type(b) is not int or not is_int(a):
            raise Unsupported("shift")
        w = i.ty.width
        a = self.uconv(st, a, w)
        fr.regs[i.id] = self.wrap(st, T.tdiv(a, 1 << b), w, False, i)

    def i_ashr(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        if type(b) is not int or not is_int(a):
            raise Unsupported("shift")
        if type(a) is int:
            fr.regs[i.id] = a >> b
            return
        if self.nonneg(st, a) or T.divides_always(a, 1 << b):
            fr.regs[i.id] = T.tdiv(a, 1 << b)
            return
        q = T.tdiv(a, 1 << b)
        fr.regs[i.id] = iite(band(blt(a, 0), bnot(beq(q * (1 << b), a))), q - 1, q)

    def bitop(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        op = i.op
        if a is UNDEF or b is UNDEF:
            fr.regs[i.id] = UNDEF
            return
        if i.ty.kind == "int" and i.ty.width == 1:
            if op == "and":
                r = band(a, b)
            elif op == "or":
                r = bor(a, b)
            else:
                r = bnot(beq(a, b))
            fr.regs[i.id] = r
            return
        if type(a) is int and type(b) is int:
            fr.regs[i.id] = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            return
        if type(a) is int:
            a, b = b, a
        if isinstance(a, PInt) or isinstance(b, PInt) or isinstance(a, Cat):
            raise Unsupported("bit operation on pointer")
        if type(b) is int:
            if op == "xor" and b == -1:
                fr.regs[i.id] = -1 - a
                return
            if op == "and":
                if b == 0:
                    fr.regs[i.id] = 0
                    return
                if b > 0 and (b & (b + 1)) == 0 and self.nonneg(st, a):
                    fr.regs[i.id] = T.trem(a, b + 1)
                    return
                # alignment masks: x & -2^k
                nb = -b
                if nb > 0 and (nb & (nb - 1)) == 0 and self.nonneg(st, a):
                    fr.regs[i.id] = a - T.trem(a, nb)
                    return
            if op in ("or",) and b == 0:
                fr.regs[i.id] = a
                return
        x, y = self.b01(a), self.b01(b)
        if x is not None and y is not None:
            r = {"and": band(x, y), "or": bor(x, y), "xor": bnot(beq(x, y))}[op]
            fr.regs[i.id] = iite(r, 1, 0)
            return
        fr.regs[i.id] = uf("bit" + op, a, b)
        self.trusted.add("uninterpreted bit operation " + op)

    def b01(self, v):
        if type(v) is int:
            return bool(v) if v in (0, 1) else None
        if isinstance(v, Poly) and len(v.t) == 1:
            (m, c), = v.t.items()
            if len(m) == 1 and c == 1:
                a = ATOMS[m[0]]
                if a.kind == "ite" and a.args[1] == 1 and a.args[2] == 0:
                    return a.args[0]
        return None

    def i_icmp(self, st, fr, i):
        a, b = self.iop(st, fr, i)
        fr.regs[i.id] = self.icmp(st, fr, i, i.x["pred"], a, b)

    def icmp(self, st, fr, i, p, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, PInt):
            a = a.ptr
        if isinstance(b, PInt):
            b = b.ptr
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if is_int(a) and a == 0:
                a = NULL
            if is_int(b) and b == 0:
                b = NULL
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = a == b
                return e if p == "eq" else (not e)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer compared with integer")
            if p in ("eq", "ne"):
                e = beq(a.off, b.off) if a.blk == b.blk else False
                return e if p == "eq" else bnot(e)
            if a.blk != b.blk:
                # order of unrelated objects: unspecified but total (used for alias checks)
                key = (p, a.blk, b.blk)
                return T.bsym(f"ptrord{key}")
            p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(p, p)
            a, b = a.off, b.off
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            if p == "eq":
                return beq(a, b)
            if p == "ne":
                return bnot(beq(a, b))
            a = iite(a, 1, 0) if isinstance(a, B) else int(a)
            b = iite(b, 1, 0) if isinstance(b, B) else int(b)
        if isinstance(a, Cat) or isinstance(b, Cat):
            raise Unsupported("compare of split value")
        if p == "eq":
            return beq(a, b)
        if p == "ne":
            return bnot(beq(a, b))
        if p[0] == "u":
            o = i.ops[0]
            t = self.opty(fr, o) or self.opty(fr, i.ops[1])
            w = t.width if t is not None and t.width else 64
            a, b = self.uconv(st, a, w), self.uconv(st, b, w)
            p = "s" + p[1:]
        if p == "slt":
            return blt(a, b)
        if p == "sle":
            return ble(a, b)
        if p == "sgt":
            return blt(b, a)
        return ble(b, a)

    def i_zext(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        if v is UNDEF or isinstance(v, PInt):
            fr.regs[i.id] = v
            return
        if isinstance(v, bool):
            fr.regs[i.id] = int(v)
            return
        if isinstance(v, B):
            fr.regs[i.id] = iite(v, 1, 0)
            return
        w = self.opty(fr, i.ops[0]).width
        fr.regs[i.id] = self.uconv(st, v, w)

    def i_sext(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        if isinstance(v, bool):
            v = -int(v)
        elif isinstance(v, B):
            v = iite(v, -1, 0)
        fr.regs[i.id] = v

    def i_trunc(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        w = i.ty.width
        if v is UNDEF:
            fr.regs[i.id] = v
            return
        if isinstance(v, Cat):
            for o, s, x in v.parts:
                if o == 0 and s * 8 == w:
                    fr.regs[i.id] = x
                    return
            raise Unsupported("trunc of split value")
        if isinstance(v, PInt):
            raise Unsupported("trunc of pointer")
        if w == 1:
            fr.regs[i.id] = self.tobool(v)
            return
        fr.regs[i.id] = self.wrap(st, v, w, False, i)

    def i_cast(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        op = i.op
        if op == "ptrtoint":
            fr.regs[i.id] = PInt(v) if isinstance(v, Ptr) and v.blk != 0 else (0 if isinstance(v, Ptr) and v.off == 0 else v)
            return
        if op == "inttoptr":
            if isinstance(v, PInt):
                v = v.ptr
            elif type(v) is int and v == 0:
                v = NULL
            else:
                raise Unsupported("inttoptr")
            fr.regs[i.id] = v
            return
        if op == "bitcast":
            fr.regs[i.id] = self.conv(v, i.ty) if i.ty.kind in ("int", "double") else v
            return
        if op in ("fpext", "fptrunc"):
            if v.op == "c":
                fr.regs[i.id] = v
            elif op == "fpext":
                fr.regs[i.id] = v
            else:
                fr.regs[i.id] = ffn("tofloat", v)
            return
        raise Unsupported(op)

    def i_sitofp(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        if v is UNDEF:
            fr.regs[i.id] = mkf("undef", "reg", i.id)
            return
        if isinstance(v, (bool, B)):
            v = int(v) if isinstance(v, bool) else iite(v, 1, 0)
            if i.op == "sitofp":
                v = -v
        if isinstance(v, (PInt, Cat)):
            raise Unsupported("int to double")
        if i.op == "uitofp":
            v = self.uconv(st, v, self.opty(fr, i.ops[0]).width)
        if isinstance(v, Poly) and len(v.t) == 1:
            (m, c), = v.t.items()
            if len(m) == 1 and c == 1 and ATOMS[m[0]].kind == "ite":
                a = ATOMS[m[0]].args
                fr.regs[i.id] = fite(a[0], i2f(a[1]), i2f(a[2]))
                return
        fr.regs[i.id] = i2f(v)

    def i_fptosi(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        w = i.ty.width
        if v.op == "c":
            x = T.cval(v)
            n = int(x) if x == x and abs(x) < 1e300 else 0
            if i.op == "fptosi":
                self.obl(st, "float-cast-overflow", -(1 << (w - 1)) <= n < (1 << (w - 1)) and x == x, i)
            fr.regs[i.id] = n
            return
        if v.op == "i2f":
            self.obl(st, "float-cast-overflow", self.inrange(v.args[0], w), i)
            fr.regs[i.id] = v.args[0]
            return
        a = mk_atom("f2i", (v,), -(1 << (w - 1)), (1 << (w - 1)) - 1)
        self.f2i_obl(st, v, a, w, i)
        fr.regs[i.id] = self.solved(st, a)

    def f2i_obl(self, st, v, a, w, i):
        f = self.opts.get("f2i")
        if f:
            f(self, st, v, a, w, i)
        elif self.smt.nra:
            m = 1 << (w - 1)
            self.obl(st, "float-cast-overflow", band(fcmp("olt", fc(float(-m - 1 if w < 53 else -m)), v), fcmp("olt", v, fc(float(m)))), i)
        else:
            self.trusted.add("double-to-int conversion in range")

    def fop(self, st, fr, i):
        a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
        if i.ty.kind == "fp80":
            raise Unsupported("long double")
        if i.ty.kind == "vec":
            raise Unsupported("vector op")
        if a is UNDEF or b is UNDEF:
            a = mkf("undef", "reg", i.id) if a is UNDEF else a
            b = mkf("undef", "reg", i.id) if b is UNDEF else b
        o = i.op
        if o == "fadd":
            r = fadd(a, b)
        elif o == "fsub":
            r = fsubt(a, b)
        elif o == "fmul":
            r = fmul(a, b)
        elif o == "fdiv":
            r = fdiv(a, b)
        else:
            r = ffn("fmod", a, b)
        fr.regs[i.id] = r

    def i_fneg(self, st, fr, i):
        fr.regs[i.id] = fneg(self.val(fr, i.ops[0]))

    def i_fcmp(self, st, fr, i):
        a, b = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
        if a is UNDEF or b is UNDEF:
            fr.regs[i.id] = UNDEF
            return
        fr.regs[i.id] = T.fcmp(i.x["pred"], a, b)

    def i_select(self, st, fr, i):
        c = self.val(fr, i.ops[0])
        a, b = self.val(fr, i.ops[1]), self.val(fr, i.ops[2])
        if isinstance(c, B):
            if self.smt.entails(st.pc, c):
                c = True
            elif self.smt.entails(st.pc, bnot(c)):
                c = False
        if c is True:
            fr.regs[i.id] = a
            return
        if c is False:
            fr.regs[i.id] = b
            return
        if c is UNDEF:
            fr.regs[i.id] = UNDEF
            return
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnPtr):
            if a == b:
                fr.regs[i.id] = a
                return
            s2 = st.fork()
            st.assume(c)
            fr.regs[i.id] = a
            fr.ip += 1
            s2.assume(bnot(c))
            f2 = s2.frames[-1]
            f2.regs[i.id] = b
            f2.ip += 1
            return [s2]
        fr.regs[i.id] = self.ite(c, a, b)

    def i_extractvalue(self, st, fr, i):
        v = self.val(fr, i.ops[0])
        for k in i.x["idx"]:
            if v is UNDEF:
                break
            v = v.v[k]
        fr.regs[i.id] = v

    def i_insertvalue(self, st, fr, i):
        v, x = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])

        def ins(v, ty, idx):
            if not idx:
                return x
            n = ty.n
            l = [UNDEF] * n if v is UNDEF else list(v.v)
            t = ty.fields[idx[0]][1] if ty.kind == "struct" else ty.elem
            l[idx[0]] = ins(l[idx[0]], t, idx[1:])
            return Agg(l)
        fr.regs[i.id] = ins(v, i.ty, i.x["idx"])

    def i_freeze(self, st, fr, i):
        fr.regs[i.id] = self.val(fr, i.ops[0])

    def i_vec(self, st, fr, i):
        op = i.op
        if op == "extractelement":
            v, k = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
            fr.regs[i.id] = v.v[k] if v is not UNDEF else UNDEF
            return
        if op == "insertelement":
            v, x, k = (self.val(fr, o) for o in i.ops)
            l = [UNDEF] * i.ty.n if v is UNDEF else list(v.v)
            l[k] = x
            fr.regs[i.id] = Agg(l)
            return
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def i_call(self, st, fr, i):
        cal = i.x["callee"]
        if cal[0] == "asm":
            raise Unsupported("inline asm")
        if cal[0] == "fn":
            name = cal[1]
        else:
            v = self.val(fr, cal)
            if isinstance(v, FnPtr):
                name = v.name
            else:
                raise Unsupported("indirect call")
        if name.startswith("llvm."):
            if name.startswith(IGN):
                return self.after(st, fr, i, None)
        args = [self.val(fr, o) if o[0] != "meta" else None for o in i.ops]
        h = self.ext.get(name)
        if h is None:
            for pred, hh in self.summ.items():
                if pred(name):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, fr, i, args)
            if r is not INLINE:
                if r is NEXT:
                    return NEXT
                if isinstance(r, list):
                    return r
                if st.status != "run":
                    return NEXT
                return self.after(st, fr, i, r)
        fn = self.mod.fn(name)
        if fn is not None and not fn.decl:
            # byval arguments need a copy: represented by the caller's temporary (clang copies)
            self.push(st, fn, args, i, fr.path + ((fr.fn.name, i.id),))
            return NEXT
        r = self.builtin(st, fr, i, name, args)
        if r is NEXT:
            return NEXT
        if isinstance(r, list):
            return r
        if st.status != "run":
            return NEXT
        return self.after(st, fr, i, r)

    def after(self, st, fr, i, r):
        if r is not None:
            fr.regs[i.id] = r
        if i.op == "invoke":
            self.jump(st, fr, i.x["normal"])
            return NEXT
        return None

    def builtin(self, st, fr, i, name, args):
        b = name
        if b.startswith("llvm."):
            n = b[5:]
            if n.startswith(("memcpy", "memmove")):
                self.memcpy(st, args[0], args[1], args[2], i)
                return None
            if n.startswith("memset"):
                self.memset(st, args[0], args[1], args[2], i)
                return None
            base = n.split(".")[0]
            if base in ("fabs", "sqrt", "floor", "ceil", "sin", "cos", "exp", "log", "trunc", "round", "rint"):
                return ffn(base, args[0])
            if base == "pow":
                return self.pow(args[0], args[1])
            if base == "powi":
                return self.pow(args[0], args[1] if isinstance(args[1], F) else i2f(args[1]))
            if base == "fmuladd" or base == "fma":
                return fadd(fmul(args[0], args[1]), args[2])
            if base == "copysign":
                return ffn("copysign", args[0], args[1])
            if base in ("smax", "smin", "umax", "umin"):
                x, y = args
                c = ble(y, x) if base in ("smax", "umax") else ble(x, y)
                if base[0] == "u" and not (self.nonneg(st, x) and self.nonneg(st, y)):
                    raise Unsupported(base)
                return iite(c, x, y) if isinstance(c, B) else (x if c else y)
            if base == "abs":
                return iite(ble(0, args[0]), args[0], -args[0])
            if base == "eh":
                if n.startswith("eh.typeid.for"):
                    a = args[0]
                    return self.typeid(a.blk[1])
            if base == "objectsize":
                return -1
            if base in ("trap",):
                self.obl(st, "trap", False, i)
                st.status = "dead"
                return NEXT
            if base == "stacksave":
                return NULL
            if base == "is":
                return False
            if base in ("umul", "smul", "uadd", "sadd", "usub", "ssub"):
                # with.overflow
                w = i.ty.fields[0][1].width
                x, y = args
                v = {"mul": x * y, "add": x + y, "sub": x - y}[base[1:]]
                if base[0] == "u":
                    if not (self.nonneg(st, x) and self.nonneg(st, y)):
                        if type(x) is int and type(y) is int:
                            v = {"mul": lambda p, q: p * q, "add": lambda p, q: p + q, "sub": lambda p, q: p - q}[base[1:]](
                                x & ((1 << w) - 1), y & ((1 << w) - 1))
                            ovf = not (0 <= v < (1 << w))
                            return Agg([T.wrap_atom(v, w), ovf])
                        # negative canonical operand = huge unsigned value
                        xx, yy = self.uconv(st, x, w), self.uconv(st, y, w)
                        v = {"mul": xx * yy, "add": xx + yy, "sub": xx - yy}[base[1:]]
                    ok = band(ble(0, v), blt(v, 1 << w))
                    ok2 = band(ble(0, v), blt(v, 1 << (w - 1)))
                    if self.known(st, ok2):
                        return Agg([v, False])
                    if self.known(st, ok):
                        return Agg([T.wrap_atom(v, w), False])
                    return Agg([T.wrap_atom(v, w), bnot(ok)])
                ok = self.inrange(v, w)
                if self.known(st, ok):
                    return Agg([v, False])
                return Agg([T.wrap_atom(v, w), bnot(ok)])
            raise Unsupported("intrinsic " + name)
        if b in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc", "_ZnamRKSt9nothrow_t", "_ZnwmRKSt9nothrow_t"):
            n = args[0]
            if not is_int(n):
                raise Unsupported("allocation size")
            heap = {"_Znwm": "new", "_Znam": "new[]", "malloc": "malloc"}.get(b, "new")
            if isinstance(n, Poly) or n < 0 or n > (1 << 40):
                lim = 1 << 36
                okc = band(ble(0, n), ble(n, lim))
                if not self.known(st, okc):
                    # absurd sizes: the real allocator throws
                    if self.smt.sat(st.pc, (bnot(okc),)) is not False:
                        s2 = st.fork()
                        s2.assume(bnot(okc))
                        feas = self.smt.sat(st.pc, (okc,)) is not False
                        e = self.new_block(s2, "c", 16, "exc")
                        s2.ghost["bad_alloc"] = True
                        self.throw(s2, ("_ZTISt9bad_alloc", Ptr(e.id, 0)))
                        if not feas:
                            # replace st by s2
                            st.status = "dead"
                            return [s2]
                        st.assume(okc)
                        blk = self.alloc(st, n, heap, fr, i)
                        r = self.after(st, fr, i, Ptr(blk.id, 0))
                        if r is None:
                            fr.ip += 1
                        return [s2]
            if self.opts.get("alloc_fail") and heap != "malloc":
                s2 = st.fork()
                e = self.new_block(s2, "c", 16, "exc:bad_alloc")
                s2.ghost["bad_alloc"] = True
                self.throw(s2, ("_ZTISt9bad_alloc", Ptr(e.id, 0)))
                blk = self.alloc(st, n, heap, fr, i)
                r = self.after(st, fr, i, Ptr(blk.id, 0))
                if r is None:
                    fr.ip += 1
                return [s2]
            blk = self.alloc(st, n, heap, fr, i)
            return Ptr(blk.id, 0)
        if b in ("_ZdlPv", "_ZdlPvm", "_ZdlPvmSt11align_val_t"):
            self.free(st, args[0], "new", i)
            return None
        if b in ("_ZdaPv", "_ZdaPvm"):
            self.free(st, args[0], "new[]", i)
            return None
        if b == "free":
            self.free(st, args[0], "malloc", i)
            return None
        if b in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2], i)
            return args[0]
        if b == "memset":
            self.memset(st, args[0], args[1], args[2], i)
            return args[0]
        if b == "__assert_fail":
            self.obl(st, "assert", False, i)
            st.status = "dead"
            return NEXT
        if b in ("abort", "exit", "_ZSt9terminatev", "__clang_call_terminate"):
            st.status = "terminate"
            st.ghost["terminate"] = b
            return NEXT
        if b == "__cxa_allocate_exception":
            blk = self.new_block(st, "c", args[0] if type(args[0]) is int else 64, "exc")
            return Ptr(blk.id, 0)
        if b == "__cxa_throw":
            ti = args[1]
            self.throw(st, (ti.blk[1] if isinstance(ti, Ptr) else str(ti), args[0]))
            return NEXT
        if b == "__cxa_begin_catch":
            st.ghost["caught"] = st.exc
            return args[0]
        if b in ("__cxa_end_catch", "__cxa_free_exception", "__cxa_guard_release", "__cxa_guard_abort"):
            return None
        if b == "__cxa_rethrow":
            self.throw(st, st.ghost.get("caught"))
            return NEXT
        if b == "__cxa_guard_acquire":
            return self.guard(st, fr, i, args)
        if b == "__cxa_atexit":
            return 0
        if b.startswith("_ZSt") and ("__throw_" in b):
            e = self.new_block(st, "c", 16, "exc")
            nm = {"_ZSt20__throw_length_errorPKc": "_ZTISt12length_error", "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc",
                  "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range", "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt20bad_array_new_length",
                  "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range"}.get(b, "_ZTISt9exception")
            self.throw(st, (nm, Ptr(e.id, 0)))
            return NEXT
        if b == "__cxa_throw_bad_array_new_length":
            e = self.new_block(st, "c", 16, "exc")
            st.ghost["bad_alloc"] = True
            self.throw(st, ("_ZTISt20bad_array_new_length", Ptr(e.id, 0)))
            return NEXT
        if b.startswith(("_ZNSt13runtime_errorC", "_ZNSt13runtime_errorD", "_ZNSt11logic_errorC", "_ZNSt12out_of_rangeC",
                         "_ZNSt16invalid_argumentC", "_ZNSt9exceptionD", "_ZNSt12length_errorC", "_ZNSt9bad_alloc")):
            return None
        if b in IOFN:
            self.trusted.add("stdio calls have no effect on program state")
            return fresh("io", -(1 << 31), (1 << 31) - 1)
        if b == "sqrt" or b == "fabs" or b == "floor" or b == "ceil":
            return ffn(b, args[0])
        if b == "pow":
            return self.pow(args[0], args[1])
        if b == "abs" or b == "labs":
            return iite(ble(0, args[0]), args[0], -args[0]) if isinstance(args[0], Poly) else abs(args[0])
        if b in PURE_EXT:
            return ffn(b, *args)
        if b in ("isdigit", "isalpha", "islower", "isupper", "isspace", "isalnum", "tolower", "toupper"):
            self.trusted.add("character classes of the C locale")
            return self.ctype(b, args[0])
        if b in ("sprintf", "snprintf"):
            return self.sprintf(st, b, args, i)
        if b in ("vc_pick", "vc_choose"):   # some / any position 0..n (contracts of library searches, harness headers)
            n = args[0]
            q = getattr(self, "pick", None)
            if b == "vc_pick" and q is not None and (type(q) is int and type(n) is int and 0 <= q <= n or self.known(st, band(ble(0, q), ble(q, n)))):
                return q
            v = fresh("pos", 0, (1 << 62))
            st.assume(ble(v, n))
            return v
        if b == "vc_assume":
            c = args[0] if isinstance(args[0], (bool, B)) else self.tobool(args[0])
            if c is False:
                st.status = "dead"
                return NEXT
            st.assume(c)
            return None
        if b.startswith("vc_u_"):       # functions of absent libraries: unknown, but a function of their arguments
            return ffn(b[5:], *args)
        if b == "sincos":
            self.store(st, args[1], ffn("sin", args[0]), 8, i)
            self.store(st, args[2], ffn("cos", args[0]), 8, i)
            return None
        if b == "modf":
            self.store(st, args[1], ffn("trunc", args[0]), 8, i)
            return fsubt(args[0], ffn("trunc", args[0]))
        raise Unsupported("external function " + name)

    def ctype(self, b, c):
        dig, lo, up = band(ble(48, c), ble(c, 57)), band(ble(97, c), ble(c, 122)), band(ble(65, c), ble(c, 90))
        if b in ("tolower", "toupper"):
            w = up if b == "tolower" else lo
            v = c + 32 if b == "tolower" else c - 32
            return iite(w, v, c) if isinstance(w, B) else (v if w else c)
        r = {"isdigit": dig, "isalpha": bor(lo, up), "islower": lo, "isupper": up, "isspace": bor(beq(c, 32), band(ble(9, c), ble(c, 13))),
             "isalnum": bor(dig, lo, up)}[b]
        return iite(r, 1, 0) if isinstance(r, B) else int(r)

    def sprintf(self, st, b, args, i):
        """formats of literal characters and %c only"""
        k = 1 if b == "sprintf" else 2
        f, vals = args[k], list(args[k + 1:])
        out, o = [], 0
        while True:
            c = self.load(st, Ptr(f.blk, f.off + o), BYTE, i)
            o += 1
            if type(c) is not int:
                raise Unsupported("format of " + b)
            if c == 0:
                break
            if c == 37:
                c = self.load(st, Ptr(f.blk, f.off + o), BYTE, i)
                o += 1
                if c == 99:
                    c = vals.pop(0)
                    self.obl(st, "character-range", band(ble(-128, c), ble(c, 255)), i)
                    if not self.smt.entails(st.pc, ble(c, 127)):
                        raise Unsupported("%c of a character above 127")
                elif c != 37:
                    raise Unsupported("conversion in a format of " + b)
            out.append(c)
        n = len(out)
        if k == 2:
            m = args[1]
            if type(m) is not int:
                raise Unsupported("snprintf of unknown size")
            out = out[:max(0, m - 1)] if m > 0 else []
            if m <= 0:
                return n
        for q, c in enumerate(out + [0]):
            self.store(st, Ptr(args[0].blk, args[0].off + q), c, 1, i)
        return n

    def alloc(self, st, n, heap, fr, i):
        key = ("H", fr.path, fr.fn.name, i.id)
        c = st.seq.get(key, 0)
        st.seq[key] = c + 1
        kind = "a" if heap in ("new[]", "malloc") or isinstance(n, Poly) else "c"
        if kind == "a" and type(n) is int and n % 8:
            kind = "c"
        b = self.new_block(st, kind, n, f"{heap}@{i.loc()}", heap=heap, key=key + (c,))
        return b

    def guard(self, st, fr, i, args):
        g = args[0].blk
        if self.static_guard:
            r = self.static_guard(self, st, fr, i, g)
            if r is not None:
                return r
        if st.ghost.get(("guard", g)):
            return 0
        st.ghost[("guard", g)] = True
        return 1

    def pow(self, x, y):
        if y.op == "c":
            v = T.cval(y)
            if v == int(v) and 0 <= v <= 12:
                v = int(v)
                if v == 0:
                    return fc(1.0)
                r = x
                for _ in range(v - 1):
                    r = fmul(r, x)
                return r
            if v == 0.5:
                return ffn("sqrt", x)
            if v < 0 and v == int(v) and v >= -12:
                return fdiv(fc(1.0), self.pow(x, fc(-v)))
        return ffn("pow", x, y)

    H = {}


class _Next:
    pass


NEXT = _Next()


class _DT:
    kind = "double"
    size = 8
    width = None


DBL = _DT()


class _BT:
    kind = "int"
    size = 1
    width = 8


BYTE = _BT()

H = Exec.H
for _op in ("br", "switch", "ret", "landingpad", "resume", "unreachable", "alloca", "load", "store", "gep", "add", "sub",
            "mul", "shl", "sdiv", "udiv", "urem", "srem", "lshr", "ashr", "icmp", "zext", "sext", "trunc", "fneg", "fcmp",
            "select", "extractvalue", "insertvalue", "freeze", "call"):
    H[_op] = getattr(Exec, "i_" + _op)
H["invoke"] = Exec.i_call
for _op in ("and", "or", "xor"):
    H[_op] = Exec.bitop
for _op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
    H[_op] = Exec.fop
for _op in ("ptrtoint", "inttoptr", "bitcast", "fpext", "fptrunc"):
    H[_op] = Exec.i_cast
for _op in ("sitofp", "uitofp"):
    H[_op] = Exec.i_sitofp
for _op in ("fptosi", "fptoui"):
    H[_op] = Exec.i_fptosi
for _op in ("extractelement", "insertelement", "shufflevector"):
    H[_op] = Exec.i_vec
