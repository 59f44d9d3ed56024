"""Contracts: setup (precondition) / post (postcondition) over an entry point of the real code,
and the driver that finds loop invariants and discharges every obligation."""
import time, traceback, itertools
from . import terms as T, smt as SM
from .terms import *
from .smt import Smt
from .exec import Exec, State, AV, Unsupported, Budget, NeedInvariant, Ptr, NULL
from .loops import Invariants, Gen, Sampler, View, flat_view, vname
from .prove import Prover, Eval


class Contract:
    def __init__(self, name, fn, setup, post, samples=(), mode="real", hints=None, covers=(), rounds=60,
                 unfold=None, heap_view=None, scalar_targets=None, scalar_families=None, extra_boxes=6, opts=None, prep=None,
                 timeout=240, unfold_depth=1, assumes=(), samples_always=False, post_timeout=60, entry_facts=True, slack=3, disj=False):
        self.name = name            # contract id
        self.fn = fn                # entry function (extern "C" wrapper in the harness)
        self.setup = setup          # K -> args (also builds the pre-state K.st)
        self.post = post            # K, st -> None, uses K.ensure...
        self.samples = samples
        self.mode = mode
        self.hints = hints or {}
        self.covers = list(covers)  # functions of /repo under this contract
        self.rounds = rounds
        self.unfold = unfold
        self.unfold_depth = unfold_depth
        self.heap_view = heap_view
        self.scalar_targets = scalar_targets
        self.scalar_families = scalar_families   # (K, var) -> {name: (fn(K, args), box(K) -> argument tuples)}
        self.extra_boxes = extra_boxes
        self.disj = disj                         # candidate bounds `never entered, or bound`
        self.slack = slack                       # largest constant in a bound between two variables
        self.entry_facts = entry_facts           # candidate facts `cell unchanged since the loop was entered`
        self.opts = opts or {}
        self.prep = prep            # K -> None: install summaries on K.ex
        self.timeout = timeout
        self.assumes = list(assumes)
        self.samples_always = samples_always
        self.post_timeout = post_timeout


class _ViewMap:
    def __init__(self, K):
        self.K = K
        self.d = {}

    def get(self, bk):
        v = self.d.get(bk)
        if v is None and self.K.C.heap_view is not None:
            v = self.K.C.heap_view(self.K, bk)
            if v is not None:
                self.d[bk] = v
        return v

    def __setitem__(self, k, v):
        self.d[k] = v


class K:
    """one run of a contract: concrete integers (sample) or symbolic"""

    def __init__(self, C, mod, smt, sample=None, deadline=None):
        self.C = C
        self.sample = sample
        self.ex = Exec(mod, smt, dict(C.opts, deadline=deadline))
        self.ex.prefix = ""
        self.params = {}
        self.views = _ViewMap(self)
        self.mode = C.mode
        self.hints = C.hints
        self.extra_boxes = C.extra_boxes
        self.entry_facts = C.entry_facts
        self.slack = C.slack
        self.disj = C.disj
        self.st = State()
        self.ghost = {}
        self.blocks = {}
        self.inv = None
        self.unfold = (lambda pc, n, a: C.unfold(self, pc, n, a)) if C.unfold else None
        if C.unfold:
            self.unfold.depth = C.unfold_depth
        self.scalar_targets = (lambda var: C.scalar_targets(self, var)) if C.scalar_targets else None
        self._ev = None
        self.focus = None       # parameters that may bound the cells of an array fact (None: all)
        self.nposts = 0
        self.ends = 0
        self.endkinds = {}
        self.deadline = deadline

    @property
    def concrete(self):
        return self.sample is not None

    # ---- pre-state
    def int(self, name, lo, hi):
        v = self.sample[name] if self.concrete else sym(name, lo, hi)
        if not self.concrete:
            self.st.assume(band(ble(lo, v), ble(v, hi)))
        self.params[name] = v
        return v

    def term(self, name, v):
        """a named integer term loop invariants may mention"""
        self.params[name] = v
        return v

    def real(self, name):
        return fsym(name)

    def assume(self, b):
        if b is False:
            raise Unsupported("vacuous sample")
        self.st.assume(b)

    def cells(self, name, size, heap=None, arbitrary=False):
        """'c' block (a small object); returns pointer.  NB also used by loops.Gen as K.cells(view, block)"""
        if isinstance(name, View):
            view, b = name, size
            if view.enum is not None:
                return view.enum()
            n = b.size // b.stride if type(b.size) is int else 0
            return [(k,) for k in range(n)]
        b = self.ex.new_block(self.st, "c", size, name, heap=heap)
        if arbitrary:
            b.info = "arbitrary"
        return Ptr(b.id, 0)

    def array(self, name, n, view=None, heap=None, init="base", stride=8):
        b = self.ex.new_block(self.st, "a", n * stride, name, heap=heap, stride=stride)
        if init == "base":
            b.arr[0] = AV("base", name)
        elif init == "undef":
            b.arr[0] = AV("undef", name)
        if view is not None:
            self.views[b.key] = view
        self.blocks[name] = b.id
        return Ptr(b.id, 0)

    def put(self, p, off, size, v):
        self.st.wblk(p.blk).cells[off] = (size, v)

    def rd(self, name, i):
        return mkf("rd", name, i)

    # ---- reading the post-state
    def get(self, st, p, off):
        b = st.mem.get(p.blk)
        if b is None:
            return None
        c = b.cells.get(off)
        if c is None:
            for lo, hi in b.bg:
                if lo <= off < hi:
                    return 0
            return None
        return c[1]

    def aget(self, st, p, idx, pc=None):
        b = st.mem.get(p.blk)
        if type(idx) is int and (idx, 0) in b.ov:
            return b.ov[(idx, 0)]
        if b.ov:
            b = self.ex.flush(st, p.blk)

        class S:
            pass
        s = S()
        s.pc = st.pc if pc is None else pc
        return self.ex.aread(s, self.ex.av(st, b), idx, "double")

    # ---- obligations of the postcondition
    def ensure(self, st, name, cond):
        self.nposts += 1
        nm = f"post:{name}"
        if self.concrete and isinstance(cond, B):
            # undetermined float condition: judge numerically
            ev = self.evaluator()
            try:
                if all(ev.b(x) for x in st.pc) and not ev.b(cond):
                    self.ex._rec(nm, "post", "refuted", "", T.bstr(cond)[:300], {"sample": dict(self.sample)})
                else:
                    self.ex._rec(nm, "post", "proved")
            except Exception:
                pass
            return
        s2 = st
        pc = st.pc
        self.ex.obl(st, "post", cond, None, name=nm)
        st.pc = pc

    def evaluator(self):
        if self._ev is None:
            import mpmath
            mpmath.mp.dps = 40
            self._ev = Eval(seed=self.C.name, unfold=(lambda n, a: self.C.unfold(self, (), n, a)) if self.C.unfold else None)
        return self._ev

    def numeric_differs(self, pc, code, spec, ints=None, floats=None, tries=4):
        """a concrete point satisfying pc where the two differ, else None"""
        import mpmath
        mpmath.mp.dps = 40
        for seed in range(tries):
            ev = Eval(dict(ints or {}), dict(floats or {}), seed=f"{self.C.name}{seed}",
                      unfold=(lambda n, a: self.C.unfold(self, (), n, a)) if self.C.unfold else None)
            try:
                if not all(ev.b(x) for x in pc):
                    continue
                x, y = ev.f(code), ev.f(spec)
            except Exception:
                continue
            if isinstance(x, mpmath.mpc) or isinstance(y, mpmath.mpc):
                continue
            if y != y:
                continue
            if x != x or abs(x - y) > (abs(y) + abs(x)) * mpmath.mpf(10) ** -11 + mpmath.mpf(10) ** -18:
                return {"code": mpmath.nstr(x, 17), "spec": mpmath.nstr(y, 17), "ints": {T.astr(a): v for a, v in ev.ints.items()}}
        return None

    def ensure_f(self, st, name, code, spec, cond=True, extra=()):
        """code == spec whenever cond holds"""
        self.nposts += 1
        nm = f"post:{name}"
        pc = st.pc
        if cond is False:
            return
        if cond is not True:
            pc = pc + (cond.args if cond.op == "and" else (cond,))
        if not isinstance(code, F) or not isinstance(spec, F):
            self.ex._rec(nm, "post", "refuted", "", f"no value: {code!r}", {"sample": dict(self.sample or {})})
            return
        if code is spec:
            self.ex._rec(nm, "post", "proved")
            self.ex.nproved += 1
            return
        if self.concrete:
            d = self.numeric_differs(pc, code, spec, tries=2)
            if d is not None:
                self.ex._rec(nm, "post", "refuted", "", f"{d}", {"sample": dict(self.sample), **d})
            else:
                self.ex._rec(nm, "post", "proved")
            return
        P = Prover(self.ex.smt, self.mode, hv=self.inv.hvread if self.inv else None, unfold=self.unfold,
                   deadline=min(self.deadline or 1e18, time.time() + self.C.post_timeout))
        if P.eq(pc, code, spec):
            self.ex._rec(nm, "post", "proved")
            self.ex.nproved += 1
            return
        fpc, t, s, why = P.failed or (pc, code, spec, "?")
        detail = f"{why}: {T.fstr(t)[:300]}  !=  {T.fstr(s)[:300]} under {[T.bstr(x)[:120] for x in fpc[-6:]]}"
        d = None
        if not st.ghost.get("havoc"):
            m = self.ex.smt.model(fpc)
            d = self.numeric_differs(fpc, code, spec, m[0] if m else None, m[1] if m else None)
        self.ex._rec(nm, "post", "refuted" if d else "unknown", "", detail, d)

    def ensure_f_any(self, st, name, code, specs, cond=True):
        """code equals one of the specs (which the contract argues to be equal) whenever cond holds"""
        pc = st.pc
        if cond is not True:
            pc = pc + (cond.args if cond.op == "and" else (cond,))
        if not self.concrete:
            for s in specs:
                P = Prover(self.ex.smt, self.mode, hv=self.inv.hvread if self.inv else None, unfold=self.unfold,
                           deadline=min(self.deadline or 1e18, time.time() + self.C.post_timeout))
                if isinstance(code, F) and P.eq(pc, code, s):
                    return self.ensure_f(st, name, s, s, cond)
        self.ensure_f(st, name, code, specs[0], cond)

    def forall_cells(self, st, name, view, fn):
        """fn(kappa) -> (code, spec, extra condition) for every cell of the view"""
        if self.concrete:
            for k in self.cells(view, None):
                r = fn(k)
                if r is not None:
                    self.ensure_f(st, name, r[0], r[1], r[2] if len(r) > 2 else True)
            return
        ks = tuple(sym(f"κ{c}") for c in view.coords)
        pc = st.pc
        d = view.dom(ks)
        st.assume(d)
        if self.ex.smt.sat(st.pc) is not False:
            r = fn(ks)
            if r is not None:
                self.ensure_f(st, name, r[0], r[1], r[2] if len(r) > 2 else True)
        st.pc = pc

    def forall(self, st, name, names, domain, fn):
        """fn(vars) -> None, may call ensure; vars range over domain (condition) -- symbolic only;
        in concrete runs `domain` must be an explicit list via enum"""
        if self.concrete:
            for k in names[1]:
                fn(k)
            return
        ks = tuple(sym(f"∀{n}") for n in names[0])
        pc = st.pc
        st.assume(domain(ks))
        if self.ex.smt.sat(st.pc) is not False:
            fn(ks)
        st.pc = pc


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "undecided"     # proved | refuted | failed | undecided
        self.obls = {}
        self.nproved = 0
        self.refuted = []             # (name, loc, detail, model)
        self.unknown = []
        self.reason = ""
        self.functions = []
        self.trusted = []
        self.loops = 0
        self.rounds = 0
        self.time = 0
        self.solver = {}
        self.bounded = 0
        self.ends = {}
        self.log = []
        self.posts = 0
        self.invs = []
        self.invlog = []

    def as_dict(self):
        return dict(self.__dict__)


def entry(C, mod):
    """name of the function under contract (an internal function is looked up in the module)"""
    f = C.fn(mod) if callable(C.fn) else C.fn
    if f is None:
        raise Unsupported("the function under contract does not exist under that name")
    return f


def _run_once(k):
    ex, C = k.ex, k.C

    def on_end(st):
        k.ends += 1
        k.endkinds[st.status] = k.endkinds.get(st.status, 0) + 1
        C.post(k, st)
    ex.start(k.st, entry(C, ex.mod), k.args)
    ex.run(k.st, on_end)


def _mk(C, mod, smt, sample, deadline):
    k = K(C, mod, smt, sample, deadline)
    if C.prep:
        C.prep(k)
    k.args = C.setup(k)
    return k


def run_samples(C, mod, smt, res, store, deadline, limit=40):
    n = 0
    t0 = time.time()
    smp = list(C.samples)
    if len(smp) > limit:
        import random
        r = random.Random(7)
        big = smp[-3:]
        smp = big + r.sample(smp[:-3], limit - 3)
    for s in smp:
        if n >= limit or time.time() > deadline:
            break
        k = _mk(C, mod, smt, s, deadline)
        if store is not None:
            k.ex.sampler = Sampler(k, store)
        k.ex.opts["sym_unroll"] = 400
        try:
            _run_once(k)
        except Budget as e:
            if str(e) != "samples":
                res.log.append(f"sample {s}: budget {e}")
        except Unsupported as e:
            res.log.append(f"sample {s}: {e}")
            continue
        n += 1
        res.bounded += k.nposts
        for o in k.ex.oblig.values():
            if o.status == "refuted":
                res.refuted.append((o.name, o.loc, o.detail, {"sample": dict(s), "model": o.model}))
        if len(res.refuted) > 10:
            break
    res.log.append(f"{n} concrete runs in {time.time() - t0:.2f}s")
    return n


def run_contract(C, mod, tmax=None, patience=1):
    t0 = time.time()
    deadline = t0 + (tmax or C.timeout)
    res = Result(C.name)
    smt = Smt(2000 * patience)
    smt.nra = C.opts.get("nra", 0) * patience
    C.post_timeout *= patience
    smt.near = C.opts.get("near", 0)
    smt.factor = C.opts.get("factor")
    smt.trig = C.opts.get("trig")
    smt.norms = C.opts.get("norms", False)
    smt.limit = C.opts.get("limit")
    for kk in SM.STAT:
        SM.STAT[kk] = type(SM.STAT[kk])()
    store = None
    try:
        _run_contract(C, mod, smt, res, deadline)
    except (Unsupported, Budget, RecursionError) as e:
        res.reason = f"{type(e).__name__}: {e}"
    except Exception as e:
        res.reason = "internal: " + "".join(traceback.format_exception(e))[-1500:]
    if res.status != "proved" and not res.bounded and C.samples:
        try:
            run_samples(C, mod, smt, res, None, time.time() + 60)
        except Exception as e:
            res.log.append(f"samples: {type(e).__name__} {e}")
    if res.refuted:
        res.status = "refuted"
    res.time = time.time() - t0
    res.solver = dict(SM.STAT)
    return res


def _run_contract(C, mod, smt, res, deadline):
    store = {}
    inv = None
    gen = None
    sampled = False
    need = []
    # establish which loops need invariants
    loops = {}
    hvinfo = {}
    phase = 1
    rounds = 0
    final = False
    while True:
        rounds += 1
        res.rounds = rounds
        if rounds > C.rounds:
            raise Budget("invariant rounds")
        if time.time() > deadline:
            raise Budget("time")
        k = _mk(C, mod, smt, None, deadline)
        inv2 = Invariants(k)
        inv2.loops = loops
        inv2.phase = phase
        inv2.hvinfo = hvinfo
        inv = inv2
        k.inv = inv
        k.ex.inv = inv
        k.ex.check_obl = final or not loops
        if gen is not None:
            gen.inv = inv
        if rounds == 1:
            # vacuity of the precondition
            if smt.sat(k.st.pc) is False:
                raise Unsupported("vacuous precondition")
        try:
            if not (final or not loops):
                # invariant rounds: no posts
                k.ex.start(k.st, entry(C, mod), k.args)
                k.ex.run(k.st, lambda st: None)
            else:
                _run_once(k)
        except NeedInvariant as e:
            if not sampled:
                run_samples(C, mod, smt, res, store, deadline)
                sampled = True
                if res.refuted:
                    res.reason = "concrete run refutes"
                    return
            if gen is None:
                gen = Gen(inv, store)
            gen.inv = inv
            L = gen.setup_loop(e.key)
            loops[e.key] = L
            res.log.append(f"loop {e.key[1][-50:]}:{e.key[2]} rows={len(gen.rows(e.key))} defs={ {vname(v): str(t) for v, t in L.defs.items()} } cands={len(L.cands)} arr={len(L.modarr)}")
            phase = 1
            for L in loops.values():
                L.facts = []
                L.sfacts = []
                L.tried = False
            final = False
            continue
        if not loops:
            break
        res.invlog += [str(x)[:1500] for x in inv.log]
        if inv.changed:
            final = False
            continue
        if phase == 1:
            phase = 2
            for L in loops.values():
                gen.facts(L)
                gen.scalars(L)
                res.log.append(f"facts {L.key[2]}: {[f.desc for f in L.facts]} {[f.desc for f in L.sfacts]}")
            continue
        if not final:
            final = True
            continue
        break
    for L in loops.values():
        res.invs.append({"loop": f"{L.key[1]}:bb{L.key[2]}", "defs": len(L.defs), "bounds": len(L.cands),
                         "facts": [f.desc for f in L.facts], "sfacts": [f.desc for f in L.sfacts]})
    res.loops = len(loops)
    res.ends = k.endkinds
    res.posts = k.nposts
    if k.ends == 0 or k.nposts == 0:
        res.reason = "vacuous: no end state reached or no postcondition generated"
        return
    res.functions = sorted(k.ex.inlined)
    res.trusted = sorted(k.ex.trusted)
    res.nproved = k.ex.nproved
    bad = 0
    for o in k.ex.oblig.values():
        res.obls[o.name] = o.status
        if o.status == "refuted":
            res.refuted.append((o.name, o.loc, o.detail, o.model))
        elif o.status == "unknown":
            res.unknown.append((o.name, o.loc, o.detail, o.model))
    if not res.refuted and not res.unknown:
        res.status = "proved"
    elif res.refuted:
        res.status = "refuted"
    else:
        res.status = "failed"
        res.reason = "obligations not discharged"
