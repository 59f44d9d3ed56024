"""Loop invariants.

Candidates come from concrete runs of the same code (data-driven): polynomial equalities and
octagonal bounds over the header variables, and quantified facts
   forall cells k in Box(header variables): array[k] == rhs(k)
with rhs either "the value at loop entry" or a target function supplied by the contract.
Nothing a sample suggests is believed: every candidate is checked at loop entry and across an
arbitrary iteration (Houdini), and dropped, with a re-run, when not provable."""
import itertools, time, math
from fractions import Fraction
from . import terms as T
from .terms import *
from .exec import AV, Ptr, Cat, Unsupported, NeedInvariant, NULL
from .prove import Prover, Eval


class View:
    """coordinates of an array block: idx/dom/decode over tuples of integer terms"""

    def __init__(self, name, coords, dom, idx, decode, rhs=None, derived=None, enum=None):
        self.enum = enum
        self.name = name
        self.coords = coords
        self.dom = dom
        self.idx = idx
        self.decode = decode
        # rhs: name -> fn(k), or (fn, dom): the fact is only claimed where dom(k) holds
        self.rhs = {}
        self.rdom = {}
        for n, f in (rhs or {}).items():
            if isinstance(f, tuple):
                self.rhs[n], self.rdom[n] = f
            else:
                self.rhs[n] = f
        self.derived = derived or (lambda k: [])     # extra [(name, term)] usable in boxes


def flat_view(n, rhs=None):
    return View("flat", ("k",), lambda k: band(ble(0, k[0]), blt(k[0], n)), lambda k: k[0], lambda p: [(p,)], rhs)


def coef_of(p, atom_id):
    """p = q*atom + rest, atom not in q (linear in atom) or None"""
    q = 0
    rest = 0
    if not isinstance(p, Poly):
        return 0, p
    for m, c in p.t.items():
        n = m.count(atom_id)
        if n == 0:
            rest = rest + Poly({m: c}) if m else rest + c
        elif n == 1:
            mm = tuple(x for x in m if x != atom_id)
            q = q + (Poly({mm: c}) if mm else c)
        else:
            return None
    return q, rest


def lin_atom(p):
    """an atom occurring linearly with coefficient 1 in p"""
    if isinstance(p, Poly):
        for m, c in p.t.items():
            if len(m) == 1 and c == 1:
                return m[0]
    return None


PH = {}


def ph(var):
    p = PH.get(var)
    if p is None:
        p = PH[var] = sym(f"${len(PH)}")
    return p


def phid(var):
    return next(iter(ph(var).t))[0]


class Fact:
    __slots__ = ("blk", "box", "rhs", "desc", "id", "score", "view")
    _n = itertools.count()

    def __init__(self, blk, box, rhs, desc, score=0, view=None):
        self.view = view    # index of the view in the block's view list
        self.blk = blk      # block key (array) or ("cell", bkey, off) / ("phi", id)
        self.box = box      # list of (coordname or term template) conditions: B over placeholders and $k coords
        self.rhs = rhs
        self.desc = desc
        self.score = score
        self.id = next(Fact._n)


class Fam:
    """value of a scalar: fn(K, args) with argument templates over the header variables"""
    __slots__ = ("name", "fn", "args")

    def __init__(self, name, fn, args):
        self.name, self.fn, self.args = name, fn, args


class LoopInv:
    def __init__(self, key):
        self.key = key
        self.cands = []       # B templates
        self.defs = {}        # var -> Poly template
        self.facts = []
        self.sfacts = []
        self.modcells = {}    # (bkey, off) -> (size, kind)
        self.modarr = set()   # (bkey, fld)
        self.tried = False
        self.dropped = 0


def pstride(mem, p):
    b = mem.get(p.blk)
    return b.stride if b is not None and b.kind == "a" else 1


def poff(mem, p):
    """offset of a pointer, in elements for array blocks (the unit loop invariants use)"""
    s = pstride(mem, p)
    if s == 1:
        return p.off
    if type(p.off) is int:
        if p.off % s:
            raise Unsupported("pointer inside an array element")
        return p.off // s
    if T.divides_always(p.off, s):
        return T.exact_div(p.off, s)
    raise Unsupported("pointer inside an array element")


def coff(mem, p):
    """offset of a pointer held in a cell, None inside an array element"""
    try:
        return poff(mem, p)
    except Unsupported:
        return None


class Rec:
    __slots__ = ("snap", "pmap", "entry", "key", "ent")


class Sampler:
    """records header states of concrete runs"""

    act = itertools.count()

    def __init__(self, K, store):
        self.K = K
        self.store = store      # key -> list of rows
        self.n = 0

    def __call__(self, st, fr, key, vals, back, bb):
        rows = self.store.setdefault(key, [])
        if not back:
            fr.iters[("act", bb.idx)] = next(self.act)
        a = fr.iters[("act", bb.idx)]
        st.own = set()
        rows.append((a, dict(vals), scope(st, fr, key, self.K.ex), dict(st.mem), self.K))
        self.n += 1
        if self.n > 6000:
            from .exec import Budget
            raise Budget("samples")


def cmp_operands(ex, fn, header, body):
    k = (fn.name, header)
    r = ex.cmpops.get(k)
    if r is None:
        inside = {i.id for b in body for i in fn.bbs[b].insts}
        r = []
        for b in sorted(body):
            for i in fn.bbs[b].insts:
                if i.op != "icmp":
                    continue
                for o in i.ops:
                    if o[0] == "arg":
                        x = ("a", o[1])
                    elif o[0] == "inst" and o[1].id not in inside:
                        x = ("r", o[1].id)
                    else:
                        continue
                    if x not in r:
                        r.append(x)
        ex.cmpops[k] = r
    return r


def scope(st, fr, key, ex):
    """int phis of enclosing loops: var -> value"""
    out = {}
    # loop-invariant operands of the comparisons inside the loop
    body = ex.loops(fr.fn)[key[2]]
    for kind, ident in cmp_operands(ex, fr.fn, key[2], body):
        v = fr.args[ident] if kind == "a" else fr.regs.get(ident)
        if isinstance(v, Ptr):
            try:
                v = poff(st.mem, v)
            except Unsupported:
                continue
        if is_int(v):
            out[("ctx", key, kind, ident)] = v
    for f in st.frames:
        lps = ex.loops(f.fn)
        for h, body in lps.items():
            k = (f.path, f.fn.name, h)
            if k == key:
                continue
            if f is fr:
                inside = key[2] in body
            else:
                inside = f.bb in body
            if not inside:
                continue
            for p in f.fn.bbs[h].phis:
                v = f.regs.get(p.id)
                if is_int(v) or isinstance(v, Ptr):
                    out[("phi", k, p.id)] = poff(st.mem, v) if isinstance(v, Ptr) else v
    return out


class Invariants:
    def __init__(self, K):
        self.K = K              # contract run context
        self.loops = {}
        self.hvinfo = {}
        self.changed = False
        self.phase = 1
        self.final = False
        self.log = []

    # ------------------------------------------------------------ symbolic side
    def env(self, st, fr, key, vals):
        e = {}
        for pid, v in vals.items():
            e[("phi", key, pid)] = v
        return e

    def blkmap(self, st):
        return {b.key: b for b in st.mem.values()}

    def pmap(self, st, fr, key, vals):
        """placeholder atom -> int value for everything a template may mention"""
        m = {}
        for pid, v in vals.items():
            if isinstance(v, Ptr):
                v = poff(st.mem, v)
            if is_int(v):
                m[phid(("phi", key, pid))] = v
            elif isinstance(v, (bool, B)):
                pass
        for var, v in scope(st, fr, key, self.K.ex).items():
            m[phid(var)] = v
        for n, v in self.K.params.items():
            m[phid(("par", n))] = v
        L = self.loops[key]
        if L.modcells:
            bm = self.blkmap(st)
            for (bk, off), (sz, kind) in L.modcells.items():
                b = bm.get(bk)
                if b is None:
                    continue
                c = b.cells.get(off)
                if c is not None:
                    v = coff(st.mem, c[1]) if isinstance(c[1], Ptr) else c[1]
                    if is_int(v):
                        m[phid(("cell", bk, off))] = v
        return m

    def covered(self, b, m):
        """all placeholders of template b are mapped"""
        return all((not ATOMS[a].args[0].startswith("$")) or a in m for a in batoms(b) if ATOMS[a].kind == "sym")

    def header(self, st, fr, key, vals, back, bb):
        if back:
            self.back(st, fr, key, vals, bb)
        else:
            self.enter(st, fr, key, vals, bb)

    def check(self, st, fr, key, vals, where):
        L = self.loops[key]
        self._vals = vals
        smt = self.K.ex.smt
        m = self.pmap(st, fr, key, vals)
        if self.K.disj:
            ent = {}
            if where == "step":
                for h, r in fr.lctx:
                    if h == key[2]:
                        ent = r.ent
            for pid, v in vals.items():
                v = ent.get(pid) if where == "step" else v
                if is_int(v):
                    m[phid(("ent", key, pid))] = v
        if smt.sat(st.pc) is False:
            return
        # definitions
        for var, t in list(L.defs.items()):
            v = m.get(phid(var))
            ok = v is not None and (not isinstance(t, Poly) or self.covered(t, m))
            c = None
            if ok:
                c = beq(v, psub(t, m))
                ok = smt.entails(st.pc, c)
            if not ok:
                del L.defs[var]
                L.dropped += 1
                self.changed = True
                self.log.append(f"drop def {vname(var)} = {t} {where} of {key[1][-30:]}:{key[2]}: {T.bstr(c)[:300] if c is not None else ''} under {[T.bstr(x)[:100] for x in st.pc[-12:]]}")
        conds = []
        for c in L.cands:
            conds.append((c, bsub(c, m) if self.covered(c, m) else False))
        if conds:
            allc = band(*[c for _, c in conds])
            if allc is not True and not (allc is not False and smt.entails(st.pc, allc)):
                for t, c in conds:
                    if not (c is True or (c is not False and smt.entails(st.pc, c))):
                        L.cands.remove(t)
                        self.log.append(f"drop cand {T.bstr(t)} at {where}: {T.bstr(c) if isinstance(c, B) else c} under {[T.bstr(x)[:100] for x in st.pc[-8:]]}")
                        L.dropped += 1
                        self.changed = True
        if self.phase >= 2:
            self.check_facts(st, fr, key, m, where)
        return m

    def enter(self, st, fr, key, vals, bb):
        L = self.loops[key]
        self.check(st, fr, key, vals, "entry")
        ex = self.K.ex
        rec = Rec()
        rec.key = key
        nv = {}
        pm = {}
        for var, v in scope(st, fr, key, ex).items():
            pm[phid(var)] = v
        for n, v in self.K.params.items():
            pm[phid(("par", n))] = v
        rec.entry = {}
        rec.ent = {}
        pend = []
        for p in bb.phis:
            v = vals[p.id]
            var = ("phi", key, p.id)
            rec.entry[var] = v
            if self.K.disj and is_int(v):
                rec.ent[p.id] = pm[phid(("ent", key, p.id))] = v
            if p.ty.kind == "int" and p.ty.width == 1:
                nv[p.id] = T.bsym(f"phi{next(T._cnt)}")
            elif p.ty.kind == "int":
                if var in L.defs:
                    pend.append((var, p.id, None))
                else:
                    w = p.ty.width
                    a = fresh(f"i{p.id}", -(1 << (w - 1)), (1 << (w - 1)) - 1)
                    nv[p.id] = a
                    pm[phid(var)] = a
            elif p.ty.kind == "ptr":
                if not isinstance(v, Ptr) or v.blk == 0:
                    raise Unsupported("pointer phi at loop entry")
                if var in L.defs:
                    pend.append((var, p.id, v.blk))
                else:
                    a = fresh(f"p{p.id}", -(1 << 62), 1 << 62)
                    nv[p.id] = Ptr(v.blk, a * pstride(st.mem, v))
                    pm[phid(var)] = a
            elif p.ty.kind == "double":
                nv[p.id] = ffresh(f"d{p.id}")
            else:
                raise Unsupported("phi type " + p.ty.kind)
        bm = self.blkmap(st)
        cellp = []
        for (bk, off), (sz, kind) in L.modcells.items():
            b = bm.get(bk)
            if b is None:
                continue
            w = st.wblk(b.id)
            c = w.cells.get(off)
            old = c[1] if c is not None and c[0] == sz else None
            var = ("cell", bk, off)
            rec.entry[var] = old
            if kind == "int":
                if isinstance(old, (Ptr,)):
                    w.cells.pop(off, None)
                    continue
                if var in L.defs:
                    cellp.append((var, w, off, sz))
                else:
                    a = fresh("c", -(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1)
                    ex_clear(ex, w, off, sz)
                    w.cells[off] = (sz, a)
                    pm[phid(var)] = a
            elif kind == "F":
                ex_clear(ex, w, off, sz)
                w.cells[off] = (sz, ffresh("m"))
            elif kind == "ptr" and isinstance(old, Ptr) and old.blk != 0 and coff(st.mem, old) is not None:
                if var in L.defs:
                    cellp.append((var, w, off, sz, old.blk))
                else:
                    a = fresh("pc", -(1 << 62), 1 << 62)
                    w.cells[off] = (sz, Ptr(old.blk, a * pstride(st.mem, old)))
                    pm[phid(var)] = a
            else:
                w.cells.pop(off, None)
                if any(lo <= off < hi for lo, hi in w.bg):
                    raise Unsupported("havoc of zeroed pointer cell")
        for var, pid, blk in pend:
            val = psub(L.defs[var], pm)
            nv[pid] = val if blk is None else Ptr(blk, val * pstride(st.mem, Ptr(blk, 0)))
            pm[phid(var)] = val
        for x in cellp:
            val = psub(L.defs[x[0]], pm)
            w, off, sz = x[1:4]
            w.cells[off] = (sz, val if len(x) == 4 else Ptr(x[4], val * pstride(st.mem, Ptr(x[4], 0))))
            pm[phid(x[0])] = val
        for bk, fld in L.modarr:
            b = bm.get(bk)
            if b is None:
                continue
            w = ex.flush(st, b.id)
            old = ex.av(st, w, fld)
            name = f"hv{next(T._cnt)}"
            rec.entry[("arr", bk, fld)] = old
            w.arr[fld] = AV("hv", name)
            self.hvinfo[name] = (L, bk, fld, pm, old, st.pc)
        # scalar facts of havocked doubles
        if self.phase >= 2 and L.sfacts:
            for pid, v in nv.items():
                if isinstance(v, F):
                    nv[pid] = self.scalar_val(L, ("phi", key, pid), pm, v, rec.entry[("phi", key, pid)])
            for (bk, off), (sz, kind) in L.modcells.items():
                b = bm.get(bk)
                if kind == "F" and b is not None:
                    w = st.wblk(b.id)
                    old = rec.entry.get(("cell", bk, off))
                    w.cells[off] = (sz, self.scalar_val(L, ("cell", bk, off), pm, w.cells[off][1], old))
        for t in L.cands:
            if self.covered(t, pm):
                st.assume(bsub(t, pm))
        fr.regs.update(nv)
        st.own = set()
        rec.snap = dict(st.mem)
        rec.pmap = pm
        fr.lctx.append((key[2], rec))
        st.ghost["havoc"] = True

    def scalar_val(self, L, var, pm, v, old):
        """havocked double with its conditional facts: nested ites, fresh elsewhere"""
        r = v
        for f in L.sfacts:
            if f.blk != var:
                continue
            if not self.covered(f.box, pm):
                continue
            c = bsub(f.box, pm)
            x = old if f.rhs == "entry" else self.srhs(f, pm)
            if x is None:
                continue
            r = fite(c, x, r)
        return r

    def back(self, st, fr, key, vals, bb):
        L = self.loops[key]
        rec = None
        for h, r in fr.lctx:
            if h == key[2]:
                rec = r
        if rec is None:
            raise Unsupported("loop context")
        # modified set
        ex = self.K.ex
        for id, b in st.mem.items():
            s = rec.snap.get(id)
            if s is b:
                continue
            if s is None:
                if b.heap in ("new", "new[]", "malloc"):
                    raise Unsupported("allocation survives a loop iteration")
                if isinstance(id, tuple):
                    continue      # global touched for the first time
                continue
            if b.bg != s.bg:
                # a memset inside the loop: same zero range each time is fine
                if set(b.bg) - set(s.bg):
                    for lo, hi in set(b.bg) - set(s.bg):
                        pass
                    for o in [o for o in s.cells if o not in b.cells]:
                        if s.cells[o] != b.cells.get(o):
                            pass
                    raise Unsupported("memset of cells in a loop")
            for o in set(b.cells) | set(s.cells):
                x, y = b.cells.get(o), s.cells.get(o)
                if x != y:
                    if x is None:
                        x = y
                    k = (b.key, o)
                    kind = self.kind(x[1])
                    if k not in L.modcells:
                        L.modcells[k] = (x[0], kind)
                        self.changed = True
                        self.newmod = True
                    elif L.modcells[k][1] == "mixed":
                        pass
                    elif L.modcells[k][0] != x[0]:     # stored in one piece or in several: unknown at the loop head
                        L.modcells[k] = (max(x[0], L.modcells[k][0]), "mixed")
                        self.changed = True
                    elif L.modcells[k][1] != kind and kind != "undef":
                        if L.modcells[k][1] in ("undef",):
                            L.modcells[k] = (x[0], kind)
                            self.changed = True
                        elif L.modcells[k][1] != "mixed":
                            L.modcells[k] = (x[0], "mixed")
                            self.changed = True
            if b.kind == "a":
                flds = {f for _, f in b.ov} | {f for f in set(b.arr) | set(s.arr) if b.arr.get(f) is not s.arr.get(f)}
                for f in flds:
                    if (b.key, f) not in L.modarr:
                        L.modarr.add((b.key, f))
                        self.changed = True
                        self.newmod = True
        for id in rec.snap:
            if id not in st.mem and rec.snap[id].heap in ("new", "new[]", "malloc"):
                raise Unsupported("a block is freed inside a loop")
        self.check(st, fr, key, vals, "step")
        if self.phase >= 2 and L.sfacts:
            pass
        st.status = "dead"

    def kind(self, v):
        if is_int(v):
            return "int"
        if isinstance(v, F):
            return "F"
        if isinstance(v, Ptr):
            return "ptr"
        if isinstance(v, (B, bool)):
            return "bool"
        return "undef"

    # ------------------------------------------------------------ facts
    def views(self, bk):
        v = self.K.views.get(bk)
        if v is None:
            return [flat_view(1 << 60)]
        return v if isinstance(v, list) else [v]

    def kph(self, view):
        return tuple(sym(f"$k_{c}") for c in view.coords)

    def hvread(self, pc, name, idx):
        """alternatives for a read of a havocked array"""
        info = self.hvinfo.get(name)
        if info is None:
            return []
        L, bk, fld, pm, old, _ = info
        out = []
        views = self.views(bk)
        dec = {}
        ex = self.K.ex
        for f in L.facts:
            if f.blk != (bk, fld):
                continue
            if f.view >= len(views):
                continue
            view = views[f.view]
            ks = dec.get(f.view)
            if ks is None:
                ks = dec[f.view] = [(k, beq(view.idx(k), idx)) for k in view.decode(idx) or ()]
            for k, same in ks:
                if same is False:
                    continue
                m = dict(pm)
                for c, x in zip(self.kph(view), k):
                    m[next(iter(c.t))[0]] = x
                if not self.covered(f.box, m):
                    continue
                cond = band(bsub(f.box, m), view.dom(k), same)
                if f.rhs in view.rdom:
                    cond = band(cond, view.rdom[f.rhs](k))
                if f.rhs == "entry":
                    val = (lambda o=old, i=idx, pc=pc: self.read_av(pc, o, i))
                else:
                    val = (lambda f=f, k=k, view=view: view.rhs[f.rhs](k))
                out.append((cond, val, f.id))
        return out

    def read_av(self, pc, av, idx):
        class S:
            pass
        s = S()
        s.pc = pc
        return self.K.ex.aread(s, av, idx, "double")

    def prover(self, mode=None):
        return Prover(self.K.ex.smt, mode or self.K.mode, hv=self.hvread, unfold=self.K.unfold,
                      deadline=self.K.ex.opts.get("deadline"))

    def check_facts(self, st, fr, key, m, where):
        L = self.loops[key]
        ex = self.K.ex
        smt = ex.smt
        bm = self.blkmap(st)
        rec = None
        for h, r in fr.lctx:
            if h == key[2] and where == "step":
                rec = r
        for f in list(L.facts):
            bk, fld = f.blk
            b = bm.get(bk)
            if b is None:
                continue
            views = self.views(bk)
            if f.view >= len(views):
                L.facts.remove(f)
                self.changed = True
                continue
            view = views[f.view]
            ks = tuple(sym(f"k*{c}") for c in view.coords)
            mm = dict(m)
            for c, x in zip(self.kph(view), ks):
                mm[next(iter(c.t))[0]] = x
            if not self.covered(f.box, mm):
                L.facts.remove(f)
                self.changed = True
                continue
            cond = band(bsub(f.box, mm), view.dom(ks))
            if f.rhs in view.rdom:
                cond = band(cond, view.rdom[f.rhs](ks))
            if cond is False:
                continue
            pc = st.pc + (cond.args if isinstance(cond, B) and cond.op == "and" else (cond,) if cond is not True else ())
            if smt.sat(pc) is False:
                continue
            b = ex.flush(st, b.id)
            cur = self.read_av(pc, ex.av(st, b, fld), view.idx(ks))
            if f.rhs == "entry":
                if where == "entry":
                    continue
                old = rec.entry.get(("arr", bk, fld))
                if old is None:
                    self.changed = True
                    L.facts.remove(f)
                    continue
                tgt = self.read_av(pc, old, view.idx(ks))
            else:
                tgt = view.rhs[f.rhs](ks)
            P = self.prover()
            ok = P.eq(pc, cur, tgt)
            if not ok:
                L.facts.remove(f)
                L.dropped += 1
                self.changed = True
                self.log.append((f"drop fact {f.desc} at {where} of {key[1][-30:]}:{key[2]}", P.failed))
        # scalar facts
        for f in list(L.sfacts):
            if not self.covered(f.box, m):
                L.sfacts.remove(f)
                self.changed = True
                continue
            cond = bsub(f.box, m)
            if cond is False:
                continue
            pc = st.pc + (cond.args if isinstance(cond, B) and cond.op == "and" else (cond,) if cond is not True else ())
            if smt.sat(pc) is False:
                continue
            cur = self.scalar_now(st, fr, key, f.blk, bm)
            if f.rhs == "entry":
                if where == "entry":
                    continue
                tgt = rec.entry.get(f.blk)
            else:
                tgt = self.srhs(f, m)
            if not isinstance(cur, F) or not isinstance(tgt, F):
                L.sfacts.remove(f)
                self.changed = True
                continue
            P = self.prover()
            if not P.eq(pc, cur, tgt):
                L.sfacts.remove(f)
                L.dropped += 1
                self.changed = True
                self.log.append((f"drop sfact {f.desc} at {where}", P.failed))

    def srhs(self, f, m):
        if isinstance(f.rhs, Fam):
            if not all(self.covered(a, m) for a in f.rhs.args):
                return None
            return f.rhs.fn(self.K, tuple(psub(a, m) if isinstance(a, Poly) else a for a in f.rhs.args))
        return f.rhs(self.K)

    def scalar_now(self, st, fr, key, blk, bm):
        if blk[0] == "phi":
            return self._vals.get(blk[2])
        b = bm.get(blk[1])
        if b is None:
            return None
        c = b.cells.get(blk[2])
        return c[1] if c is not None else None


def ex_clear(ex, b, off, sz):
    c = b.cells.get(off)
    if c is None or c[0] != sz:
        ex.clear(b, off, sz)


def batoms(b, acc=None):
    """atoms of a boolean term (top-level symbols and nested)"""
    out = set()

    def vp(p):
        if isinstance(p, Poly):
            for a in p.atoms():
                if a not in out:
                    out.add(a)
                    for x in ATOMS[a].args:
                        va(x)

    def va(x):
        if isinstance(x, Poly):
            vp(x)
        elif isinstance(x, B):
            vb(x)

    def vb(x):
        for y in x.args:
            va(y)
    if isinstance(b, B):
        vb(b)
    elif isinstance(b, Poly):
        vp(b)
    return out


# ====================================================================== candidate generation
class Gen:
    """turn samples into candidate invariants"""

    def __init__(self, inv, store):
        self.inv = inv
        self.store = store

    def rows(self, key):
        return self.store.get(key, [])

    def setup_loop(self, key):
        inv = self.inv
        L = LoopInv(key)
        inv.loops[key] = L
        rows = self.rows(key)
        if not rows:
            return L
        # modified cells/arrays between successive visits of one activation
        prev = {}
        for r in rows:
            a, vals, sc, mem, K = r
            p = prev.get(a)
            if p is not None:
                for id, b in mem.items():
                    s = p[3].get(id)
                    if s is None or s is b:
                        continue
                    for o in set(b.cells) | set(s.cells):
                        x, y = b.cells.get(o), s.cells.get(o)
                        if x != y and x is not None:
                            L.modcells.setdefault((b.key, o), (x[0], inv.kind(x[1])))
                    if b.kind == "a":
                        flds = {f for _, f in b.ov} | set(b.arr)
                        for f in flds:
                            if any(b.ov.get(q) is not s.ov.get(q) for q in set(b.ov) | set(s.ov) if q[1] == f) or \
                                    b.arr.get(f) is not s.arr.get(f):
                                L.modarr.add((b.key, f))
            prev[a] = r
        self.ints(L, rows)
        return L

    def table(self, L, rows):
        """list of {var: int} and the own variables"""
        key = L.key
        own = []
        tab = []
        for a, vals, sc, mem, K in rows:
            e = {}
            for pid, v in vals.items():
                if isinstance(v, Ptr):
                    v = poff(mem, v)
                if type(v) is int and not isinstance(v, bool):
                    e[("phi", key, pid)] = v
            bm = None
            for (bk, off), (sz, kind) in L.modcells.items():
                if kind not in ("int", "ptr"):
                    continue
                if bm is None:
                    bm = {b.key: b for b in mem.values()}
                b = bm.get(bk)
                c = b.cells.get(off) if b is not None else None
                if c is not None:
                    v = coff(mem, c[1]) if isinstance(c[1], Ptr) else c[1]
                    if type(v) is int:
                        e[("cell", bk, off)] = v
            for v in e:
                if v not in own:
                    own.append(v)
            for var, v in sc.items():
                if type(v) is int:
                    e[var] = v
            for n, v in K.params.items():
                if type(v) is int:
                    e[("par", n)] = v
            tab.append(e)
        return tab, own

    def ints(self, L, rows):
        tab, own = self.table(L, rows)
        L.table = tab
        L.own = own
        if not tab:
            return
        common = set(tab[0])
        for e in tab[1:]:
            common &= set(e)
        own = [v for v in own if v in common]
        ctx = [v for v in common if v not in own]
        ctx.sort(key=str)
        # keep context variables with distinct value vectors
        seen = {}
        vec = lambda v: tuple(e[v] for e in tab)
        ctx2 = []
        foc = self.inv.K.focus or ()
        near = self.inv.K.disj      # the values the loop compares with come first
        for v in sorted(ctx, key=lambda v: (0 if near and v[0] == "ctx" else 0 if v[0] == "par" and v[1] in foc else 1 if v[0] == "phi" else 2 if v[0] == "par" else 3, str(v))):
            t = vec(v)
            if t in seen or len(set(t)) == 1 and v[0] != "par":
                continue
            seen[t] = v
            ctx2.append(v)
        ctx = ctx2[:12 if self.inv.K.disj else 10]
        # which phis are pointers
        isptr = lambda v: self.is_ptr(L, v, rows)
        order = sorted(own, key=lambda v: (not isptr(v), v[0] != "cell", str(v[1:])[-8:] if v[0] == "cell" else -v[2]))
        free = []
        rest = list(order)
        while rest:
            v = rest.pop(0)
            others = rest + free
            t = self.solve(v, others, ctx, tab, L)
            if t is not None:
                L.defs[v] = t
            else:
                free.append(v)
        # octagon-like bounds over free own variables (and defined ints as well)
        base = [v for v in own if v not in L.defs or not isptr(v)]
        names = base + ctx
        cands = []
        for v in base:
            pv = ph(v)
            col = vec(v)
            for cst, rel in ((min(col), "ge"), (max(col), "le")):
                if abs(cst) <= 4 or rel == "ge" and abs(cst) <= 4:
                    cands.append(ble(cst, pv) if rel == "ge" else ble(pv, cst))
            for w in names:
                if w == v:
                    continue
                cw = vec(w)
                d = [x - y for x, y in zip(col, cw)]
                mx, mn = max(d), min(d)
                if mx == mn and v in L.defs:
                    continue
                if abs(mx) <= self.inv.K.slack:
                    cands.append(ble(pv - ph(w), mx))
                if abs(mn) <= self.inv.K.slack:
                    cands.append(ble(mn, pv - ph(w)))
        # sums
        for v, w in itertools.combinations(base, 2):
            cv, cw = vec(v), vec(w)
            s = [x + y for x, y in zip(cv, cw)]
            for u in ctx:
                cu = vec(u)
                d = [x - y for x, y in zip(s, cu)]
                if abs(max(d)) <= 2:
                    cands.append(ble(ph(v) + ph(w) - ph(u), max(d)))
                if abs(min(d)) <= 2:
                    cands.append(ble(min(d), ph(v) + ph(w) - ph(u)))
        # bounds that hold unless the loop was never entered (still equal to where it started)
        if self.inv.K.disj:
            start = {}
            for r, e in zip(rows, tab):
                start.setdefault(r[0], e)
            for v in base:
                if v[0] != "phi":
                    continue
                # counters do not pass the value they start from
                ent = ph(("ent",) + v[1:])
                d = [e[v] - start[r[0]][v] for r, e in zip(rows, tab)]
                if max(d) <= 0:
                    cands.append(ble(ph(v), ent))
                elif min(d) >= 0:
                    cands.append(ble(ent, ph(v)))
            for v in base:
                cv = vec(v)
                for w in ctx:
                    if w[0] != "par":
                        continue
                    cw = vec(w)
                    off = [x for x, y in zip(cv, cw) if x != y]
                    if not off or len(off) == len(cv):
                        continue
                    if min(off) > min(cv) and abs(min(off)) <= 4:
                        cands.append(bor(beq(ph(v), ph(w)), ble(min(off), ph(v))))
        out = []
        for c in cands:
            if c is True or c in out:
                continue
            out.append(c)
        L.cands = out[:80]

    def is_ptr(self, L, v, rows):
        if v[0] == "phi":
            for r in rows[:1]:
                return isinstance(r[1].get(v[2]), Ptr)
        if v[0] == "cell":
            return L.modcells.get((v[1], v[2]), (0, ""))[1] == "ptr"
        return False

    def solve(self, v, others, ctx, tab, L):
        """express v as a polynomial of the other variables (exact on all samples)"""
        y = [e[v] for e in tab]
        if len(set(y)) == 1 and len(tab) > 1:
            # constant over every sample: weak evidence, still a fine candidate
            return y[0] if len(tab) >= 3 else None
        vars1 = others + ctx
        hints = self.inv.K.hints
        cols = [("1", 1, [1] * len(tab))]
        for w in vars1:
            cols.append((w, ph(w), [e[w] for e in tab]))
        lin = list(cols)
        t = self.linsolve(lin, y)
        if t is not None and self.smallcoef(t):
            return t
        for hn, hf in hints.items():
            # v == affine in hint(w)
            for w in vars1:
                try:
                    col = [hf(e[w], {n: e.get(("par", n)) for n in self.inv.K.params}) for e in tab]
                except Exception:
                    continue
                sym_t = hf(ph(w), {n: ph(("par", n)) for n in self.inv.K.params})
                t = self.linsolve(lin + [("h", sym_t, col)], y)
                if t is not None:
                    return t
        quad = list(cols)
        vs = vars1[:7]
        for i, a in enumerate(vs):
            for b in vs[i:]:
                quad.append(((a, b), ph(a) * ph(b), [e[a] * e[b] for e in tab]))
        if len({tuple(sorted(e.items(), key=str)) for e in tab}) < 6:
            return None
        t = self.linsolve(quad, y)
        return t

    def smallcoef(self, t):
        return True

    def linsolve(self, cols, y):
        """solve sum x_j col_j = y exactly, preferring few, early columns"""
        n = len(y)
        # unique rows
        rowset = {}
        for r in range(n):
            k = tuple(c[2][r] for c in cols) + (y[r],)
            rowset[k] = 1
        rows = [list(map(Fraction, k)) for k in rowset]
        m = len(cols)
        if len(rows) < 2:
            return None
        # gaussian elimination with column order
        piv = []
        r = 0
        A = rows
        for c in range(m):
            p = None
            for i in range(r, len(A)):
                if A[i][c] != 0:
                    p = i
                    break
            if p is None:
                continue
            A[r], A[p] = A[p], A[r]
            d = A[r][c]
            A[r] = [x / d for x in A[r]]
            for i in range(len(A)):
                if i != r and A[i][c] != 0:
                    f = A[i][c]
                    A[i] = [x - f * z for x, z in zip(A[i], A[r])]
            piv.append(c)
            r += 1
            if r == len(A):
                break
        for i in range(r, len(A)):
            if A[i][m] != 0:
                return None
        if r == len(A) and len(A) <= len(piv) and len(A) < m + 0:
            # no redundancy: every row used as a pivot -> no evidence
            if len(A) <= len(piv):
                return None
        t = 0
        for i, c in enumerate(piv):
            x = A[i][m]
            if x != 0:
                if x.denominator not in (1, 2) or abs(x.numerator) > 64:
                    return None
                t = t + cols[c][1] * (int(x) if x.denominator == 1 else x)
        return t

    # ------------------------------------------------------------ array facts
    def facts(self, L):
        """candidate quantified facts for every modified array that has a view (or flat)"""
        inv = self.inv
        rows = self.rows(L.key)
        if not rows:
            return
        # a view marked alone only serves loops that neither contain nor sit in another loop
        fl = rows[0][4].ex.loops(rows[0][4].ex.mod.fns[L.key[1]]) if rows[0][4].ex else {}
        body = fl.get(L.key[2], ())
        nested = any(h != L.key[2] and (h in body or L.key[2] in b) for h, b in fl.items())
        for bk, fld in sorted(L.modarr, key=str):
            n = max([len(v) if isinstance(v, list) else 1 for v in
                     (r[4].views.get(bk) for r in rows) if v is not None] or [1])
            for vi in range(n):
                if nested and any(isinstance(v, list) and vi < len(v) and getattr(v[vi], "alone", False)
                                  for v in [rows[0][4].views.get(bk)]):
                    continue
                self.arr_facts(L, rows, bk, fld, vi)

    def arr_facts(self, L, rows, bk, fld, vi=0):
        inv = self.inv
        first = {}
        samples = []     # (row index, K, [(kappa, value, entryvalue)])
        rhsn = None
        cache = {}
        use = rows if len(rows) <= 220 else self.pick(rows, 220)
        # entry block of each activation
        for r in rows:
            if r[0] not in first:
                bm = {b.key: b for b in r[3].values()}
                first[r[0]] = bm.get(bk)
        obs = []          # (env, kappa, set(rhs names))
        ri = {id(r): j for j, r in enumerate(rows)}
        for r in use:
            a, vals, sc, mem, K = r
            b = None
            for x in mem.values():
                if x.key == bk:
                    b = x
                    break
            if b is None:
                continue
            view = K.views.get(bk)
            if isinstance(view, list):
                view = view[vi] if vi < len(view) else None
                if view is None:
                    continue
            if view is None:
                n = b.size // b.stride if type(b.size) is int else 0
                view = flat_view(n)
            env = L.table[ri[id(r)]]
            eb = first[a]
            for k in K.cells(view, b):
                idx = view.idx(k)
                v = self.cellval(K, b, idx, fld)
                ev = self.cellval(K, eb, idx, fld) if eb is not None else None
                ok = set()
                if ev is v:
                    ok.add("entry")
                for n, fn in view.rhs.items():
                    if n in view.rdom and view.rdom[n](k) is False:
                        ok.add("?" + n)
                    elif self.same(K, v, view, n, k, cache):
                        ok.add(n)
                if "entry" not in ok and ev is not None and self.same2(K, v, ev, cache):
                    ok.add("entry")
                obs.append((env, k, ok, view))
        if not obs:
            return
        view = obs[0][3]
        names = (["entry"] if inv.K.entry_facts else []) + list(view.rhs)
        for n in names:
            self.cover(L, (bk, fld), view, obs, n, vi)

    def pick(self, rows, n):
        step = len(rows) / n
        return [rows[int(i * step)] for i in range(n)]

    def cellval(self, K, b, idx, fld):
        v = b.ov.get((idx, fld))
        if v is None:
            a = b.arr.get(fld)
            if a is None:
                return mkf("undef", b.id, idx)
            class S:
                pc = ()
            v = K.ex.aread(S, a, idx, "double")
        return v

    def same(self, K, v, view, rname, k, cache):
        key = (id(K), v, rname, k, view.name)
        r = cache.get(key)
        if r is None:
            t = view.rhs[rname](k)
            r = cache[key] = self.same2(K, v, t, cache)
        return r

    def same2(self, K, v, t, cache):
        if v is t:
            return True
        if not isinstance(v, F) or not isinstance(t, F):
            return False
        e = K.evaluator()
        try:
            x, y = e.f(v), e.f(t)
        except Exception:
            return False
        if x != x or y != y:
            return False
        return abs(x - y) <= abs(y) * e.mp.mpf(10) ** -12 + e.mp.mpf(10) ** -14

    def atoms(self, L, view, obs):
        """box atoms: (description, B template, python predicate(env,k))"""
        inv_K = self.inv.K
        out = []
        env0 = obs[0][0]
        vars_ = [v for v in env0 if v not in L.defs or v[0] == "phi"]
        # pointer-valued variables make poor bounds
        vals = {}
        for v in vars_:
            col = tuple(o[0].get(v) for o in obs)
            if None in col or max(map(abs, col)) > 64:
                continue
            if col in vals.values():
                continue
            vals[v] = col
        own = [v for v in vals if v in L.own]
        ctx = [v for v in vals if v not in L.own]
        foc = inv_K.focus
        ctx.sort(key=lambda v: (v[0] == "par" and v[1] not in (foc or ()), v[0] == "par", str(v)))
        if foc is not None:
            ctx = [v for v in ctx if v[0] != "par" or v[1] in foc]
        exprs = []
        for v in own + ctx[:6]:
            for d in ((-1, 0, 1, 2) if v in own or True else (0,)):
                exprs.append((f"{vname(v)}{d:+d}" if d else vname(v), ph(v) + d, [x + d for x in vals[v]], v in own))
        for c in (0, 1, 2):
            exprs.append((str(c), c, [c] * len(obs), False))
        comps = []
        kp = self.inv.kph(view)
        for j, cn in enumerate(view.coords):
            comps.append((cn, kp[j], [o[1][j] for o in obs]))
        if len(view.coords) == 2:
            comps.append(("d", kp[0] - kp[1], [o[1][0] - o[1][1] for o in obs]))
        seen = set()
        for cn, ct, cc in comps:
            for en, et, ec, isown in exprs:
                for rel in ("<=", ">=", "==", "!="):
                    if rel == "<=":
                        vec = [x <= y for x, y in zip(cc, ec)]
                        b = ble(ct, et)
                    elif rel == ">=":
                        vec = [x >= y for x, y in zip(cc, ec)]
                        b = ble(et, ct)
                    elif rel == "==":
                        vec = [x == y for x, y in zip(cc, ec)]
                        b = beq(ct, et)
                    else:
                        vec = [x != y for x, y in zip(cc, ec)]
                        b = bnot(beq(ct, et))
                    mask = 0
                    for i, t in enumerate(vec):
                        if t:
                            mask |= 1 << i
                    if mask == 0 or (mask, ) in seen:
                        continue
                    seen.add((mask,))
                    cost = 1 + (0 if isown else 0.3) + (0.2 if "+" in en or "-" in en else 0) + (0.3 if rel == "!=" else 0)
                    out.append((f"{cn}{rel}{en}", b, mask, cost))
        return out

    def cover(self, L, blk, view, obs, name, vi=0):
        good = 0
        for i, o in enumerate(obs):
            if name in o[2]:
                good |= 1 << i
        if not good:
            return
        full = (1 << len(obs)) - 1
        free = 0
        for i, o in enumerate(obs):
            if "?" + name in o[2]:
                free |= 1 << i
        bad = full & ~good & ~free
        if bad == 0:
            L.facts.append(Fact(blk, True, name, f"{view.name}: all == {name}", 0, vi))
            return
        ats = self.atoms(L, view, obs)
        ats = [a for a in ats if a[2] & good]
        boxes = []
        singles = []
        for a in ats:
            if not (a[2] & bad):
                boxes.append(((a,), a[2], a[3]))
            else:
                singles.append(a)
        pairs = []
        for i, a in enumerate(singles):
            for b in singles[i + 1:]:
                m = a[2] & b[2]
                if m & good:
                    if not (m & bad):
                        boxes.append(((a, b), m, a[3] + b[3]))
                    else:
                        pairs.append((a, b, m))
        covered = 0
        for bx in boxes:
            covered |= bx[1]
        if vi == 0 and covered & good != good and len(pairs) * len(singles) < 3_000_000:
            need = good & ~covered
            for a, b, m in pairs:
                if not (m & need):
                    continue
                for c in singles:
                    mm = m & c[2]
                    if mm & need and not (mm & bad):
                        boxes.append(((a, b, c), mm, a[3] + b[3] + c[3]))
        # greedy cover, several alternatives
        if free:
            boxes = [(b[0], b[1] & good, b[2]) for b in boxes]
        boxes.sort(key=lambda x: (-bin(x[1]).count("1"), x[2]))
        # drop duplicates by mask
        uniq = {}
        for bx in boxes:
            l = uniq.setdefault(bx[1], [])
            l.append(bx)
        for l in uniq.values():
            l.sort(key=lambda x: x[2])
        chosen = []
        rem = good
        pool = list(uniq.items())
        while rem:
            best = None
            for mask, l in pool:
                g = bin(mask & rem).count("1")
                if g and (best is None or (g, -l[0][2]) > best[0]):
                    best = ((g, -l[0][2]), mask, l)
            if best is None:
                break
            chosen.append(best)
            rem &= ~best[1]
            if len(chosen) > 10:
                break
        done = set()
        # one-condition boxes generalise best: keep every maximal one
        ones = [bx for bx in boxes if len(bx[0]) == 1]
        k = 0
        for bx in sorted(ones, key=lambda x: (-bin(x[1]).count("1"), x[2])):
            if k >= 8:
                break
            if any(o is not bx and (bx[1] | o[1]) == o[1] and (bx[1] != o[1] or o[2] < bx[2]) for o in ones):
                continue
            if id(bx) not in done:
                done.add(id(bx))
                self.addfact(L, blk, view, bx, name, vi)
                k += 1
        for _, mask, l in chosen:
            for bx in l[:3]:
                if id(bx) in done:
                    continue
                done.add(id(bx))
                self.addfact(L, blk, view, bx, name, vi)
        # maximal alternatives
        n = 0
        for bx in boxes:
            if n >= self.inv.K.extra_boxes:
                break
            if id(bx) in done:
                continue
            if bin(bx[1]).count("1") * 2 < bin(good).count("1"):
                break
            if any(uniq[bx[1]][0] is not bx for _ in (0,)):
                continue
            self.addfact(L, blk, view, bx, name, vi)
            n += 1

    def addfact(self, L, blk, view, bx, name, vi=0):
        b = band(*[a[1] for a in bx[0]])
        desc = f"{view.name}[{' & '.join(a[0] for a in bx[0])}] == {name}"
        L.facts.append(Fact(blk, b, name, desc, bin(bx[1]).count("1"), vi))

    # ------------------------------------------------------------ scalar facts
    def scalars(self, L):
        inv = self.inv
        targets = inv.K.scalar_targets
        fams = inv.K.C.scalar_families
        if targets is None and fams is None:
            return
        rows = self.rows(L.key)
        if not rows:
            return
        own = [("cell", bk, off) for (bk, off), (sz, k) in L.modcells.items() if k == "F"]
        pids = set()
        for r in rows[:1]:
            for pid, v in r[1].items():
                if isinstance(v, F):
                    pids.add(pid)
        own += [("phi", L.key, p) for p in pids]
        use = rows if len(rows) <= 400 else self.pick(rows, 400)
        ri = {id(r): j for j, r in enumerate(rows)}
        first = {}
        for r in rows:
            first.setdefault(r[0], r)
        cache = {}
        for var in own:
            if fams is not None:
                fm = fams(inv.K, var)
                if fm:
                    self.family(L, var, fm, use, ri, cache)
                if targets is None:
                    continue
            tg = targets(var)
            obs = []
            for r in use:
                v = self.sval(r, var)
                if not isinstance(v, F):
                    continue
                ev = self.sval(first[r[0]], var)
                K = r[4]
                ok = set()
                if ev is v or (isinstance(ev, F) and self.same2(K, v, ev, cache)):
                    ok.add("entry")
                for n, fn in tg.items():
                    if self.same2(K, v, fn(K), cache):
                        ok.add(n)
                obs.append((L.table[ri[id(r)]], (), ok, None))
            if not obs:
                continue
            for n in ["entry"] + list(tg):
                self.scover(L, var, obs, n, tg)

    def family(self, L, var, fm, rows, ri, cache):
        """facts  var == fn(t1, t2, ..): templates header variable + small constant, consistent with every row"""
        for name, (fn, box) in fm.items():
            sols = []
            use = []
            vals = {}
            for r in rows:
                v = self.sval(r, var)
                if not isinstance(v, F):
                    continue
                K = r[4]
                ok = set()
                for a in box(K):
                    ck = ("fam", name, id(K), a)
                    t = cache.get(ck)
                    if t is None:
                        t = cache[ck] = fn(K, a)
                    if self.same2(K, v, t, cache):
                        ok.add(a)
                sols.append(ok)
                use.append(L.table[ri[id(r)]])
            if not sols or not all(sols):
                continue
            n = len(next(iter(sols[0])))
            tm = []
            for x in use[0]:
                if x[0] == "par" and x not in L.own and False:
                    continue
                col = [e.get(x) for e in use]
                if None in col or max(map(abs, col)) > 1000:
                    continue
                for d in (0, 1, -1, 2):
                    tm.append(((abs(d) + (2 if x[0] == "par" else 0)), f"{vname(x)}{d:+d}", ph(x) + d, [c + d for c in col]))
            for c in (0, 1):
                tm.append((1, str(c), c, [c] * len(use)))
            tm.sort(key=lambda x: x[0])
            seen = set()
            u = []
            for x in tm:
                k = tuple(x[3])
                if k not in seen and all(any(k[i] in a for a in sols[i]) for i in range(len(use))):
                    seen.add(k)
                    u.append(x)
            found = []
            for c in itertools.product(u, repeat=n):
                if all(tuple(x[3][i] for x in c) in sols[i] for i in range(len(use))):
                    found.append((sum(x[0] for x in c), c))
            found.sort(key=lambda x: x[0])
            for _, c in found[:4]:
                L.sfacts.append(Fact(var, True, Fam(name, fn, tuple(x[2] for x in c)),
                                     f"{vname(var)} == {name}({', '.join(x[1] for x in c)})"))

    def sval(self, r, var):
        if var[0] == "phi":
            return r[1].get(var[2])
        for b in r[3].values():
            if b.key == var[1]:
                c = b.cells.get(var[2])
                return c[1] if c is not None else None
        return None

    def scover(self, L, var, obs, name, tg):
        good = 0
        for i, o in enumerate(obs):
            if name in o[2]:
                good |= 1 << i
        if not good:
            return
        full = (1 << len(obs)) - 1
        bad = full & ~good
        rhs = "entry" if name == "entry" else tg[name]
        if bad == 0:
            L.sfacts.append(Fact(var, True, rhs, f"{vname(var)} == {name}"))
            return
        env0 = obs[0][0]
        vals = {}
        for v in env0:
            col = tuple(o[0].get(v) for o in obs)
            if None in col or max(map(abs, col)) > 64 or col in vals.values():
                continue
            vals[v] = col
        ats = []
        seen = set()
        vs = list(vals)
        for i, v in enumerate(vs):
            others = [(vname(w), ph(w), vals[w]) for w in vs if w != v]
            others += [(str(c), c, (c,) * len(obs)) for c in (0, 1, 2)]
            if v[0] == "par" and v not in L.own:
                # parameter against constants only (parameter pairs are loop-independent but useful)
                pass
            for wn, wt, wc in others:
                for d in (0, 1):
                    for rel in ("<=", ">=", "=="):
                        if rel == "<=":
                            vec = [x <= y + d for x, y in zip(vals[v], wc)]
                            b = ble(ph(v), wt + d)
                        elif rel == ">=":
                            vec = [x >= y + d for x, y in zip(vals[v], wc)]
                            b = ble(wt + d, ph(v))
                        else:
                            vec = [x == y + d for x, y in zip(vals[v], wc)]
                            b = beq(ph(v), wt + d)
                        mask = sum(1 << i for i, t in enumerate(vec) if t)
                        if not mask & good or mask in seen:
                            continue
                        seen.add(mask)
                        ats.append((f"{vname(v)}{rel}{wn}{'+1' if d else ''}", b, mask, 1 + 0.2 * d + (0.5 if v[0] == "par" else 0)))
        boxes = [((a,), a[2], a[3]) for a in ats if not a[2] & bad]
        sing = [a for a in ats if a[2] & bad]
        pairs = []
        for i, a in enumerate(sing):
            for b in sing[i + 1:]:
                m = a[2] & b[2]
                if m & good:
                    if not m & bad:
                        boxes.append(((a, b), m, a[3] + b[3]))
                    else:
                        pairs.append((a, b, m))
        cov = 0
        for b in boxes:
            cov |= b[1]
        need = good & ~cov
        if need and len(pairs) * len(sing) < 4_000_000:
            for a, b, m in pairs:
                if not m & need:
                    continue
                for c in sing:
                    mm = m & c[2]
                    if mm & need and not mm & bad:
                        boxes.append(((a, b, c), mm, a[3] + b[3] + c[3]))
        uniq = {}
        for bx in boxes:
            uniq.setdefault(bx[1], []).append(bx)
        rem = good
        chosen = []
        while rem and len(chosen) < 10:
            best = None
            for mask, l in uniq.items():
                l.sort(key=lambda x: x[2])
                g = bin(mask & rem).count("1")
                if g and (best is None or (g, -l[0][2]) > best[0]):
                    best = ((g, -l[0][2]), mask, l)
            if best is None:
                break
            chosen.append(best)
            rem &= ~best[1]
        for _, mask, l in chosen:
            for bx in l[:2]:
                L.sfacts.append(Fact(var, band(*[a[1] for a in bx[0]]), rhs,
                                     f"{vname(var)}[{' & '.join(a[0] for a in bx[0])}] == {name}"))


def vname(v):
    if v[0] == "par":
        return v[1]
    if v[0] == "phi":
        return f"%{v[1][2]}.{v[2]}"
    if v[0] == "ctx":
        return f"{v[2]}{v[3]}"
    return f"cell{v[2]}"
