"""Loader: LLVM bitcode -> plain Python objects, through libLLVM's C API (ctypes)."""
import ctypes as C, struct

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so")
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ctxCreate = _f("LLVMContextCreate", P)
bufFromFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
modDL = _f("LLVMGetModuleDataLayout", P, P)
firstFn = _f("LLVMGetFirstFunction", P, P)
nextFn = _f("LLVMGetNextFunction", P, P)
firstGl = _f("LLVMGetFirstGlobal", P, P)
nextGl = _f("LLVMGetNextGlobal", P, P)
firstAl = _f("LLVMGetFirstGlobalAlias", P, P)
nextAl = _f("LLVMGetNextGlobalAlias", P, P)
aliasee = _f("LLVMAliasGetAliasee", P, P)
firstBB = _f("LLVMGetFirstBasicBlock", P, P)
nextBB = _f("LLVMGetNextBasicBlock", P, P)
firstI = _f("LLVMGetFirstInstruction", P, P)
nextI = _f("LLVMGetNextInstruction", P, P)
opc = _f("LLVMGetInstructionOpcode", C.c_int, P)
nops = _f("LLVMGetNumOperands", C.c_int, P)
getop = _f("LLVMGetOperand", P, P, C.c_uint)
typeOf = _f("LLVMTypeOf", P, P)
tkind = _f("LLVMGetTypeKind", C.c_int, P)
iwidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
vkind = _f("LLVMGetValueKind", C.c_int, P)
vname = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
icmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
fcmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
sext = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
realDbl = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
gepTy = _f("LLVMGetGEPSourceElementType", P, P)
offElem = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
abiSize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
elemTy = _f("LLVMGetElementType", P, P)
structElem = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
structN = _f("LLVMCountStructElementTypes", C.c_uint, P)
structName = _f("LLVMGetStructName", C.c_char_p, P)
arrLen = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
vecLen = _f("LLVMGetVectorSize", C.c_uint, P)
nInc = _f("LLVMCountIncoming", C.c_uint, P)
incV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
incB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
nIdx = _f("LLVMGetNumIndices", C.c_uint, P)
idxs = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
called = _f("LLVMGetCalledValue", P, P)
nargs = _f("LLVMGetNumArgOperands", C.c_uint, P)
normalDest = _f("LLVMGetNormalDest", P, P)
unwindDest = _f("LLVMGetUnwindDest", P, P)
isCond = _f("LLVMIsConditional", C.c_int, P)
nSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
nsw = _f("LLVMGetNSW", C.c_int, P)
nuw = _f("LLVMGetNUW", C.c_int, P)
isDecl = _f("LLVMIsDeclaration", C.c_int, P)
initializer = _f("LLVMGetInitializer", P, P)
isConst = _f("LLVMIsGlobalConstant", C.c_int, P)
aggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
constOpc = _f("LLVMGetConstOpcode", C.c_int, P)
valAsBB = _f("LLVMValueAsBasicBlock", P, P)
globTy = _f("LLVMGlobalGetValueType", P, P)
nParams = _f("LLVMCountParams", C.c_uint, P)
getParam = _f("LLVMGetParam", P, P, C.c_uint)
allocTy = _f("LLVMGetAllocatedType", P, P)
dbgLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
dbgFile = _f("LLVMGetDebugLocFilename", C.POINTER(C.c_char), P, C.POINTER(C.c_uint))
isCleanup = _f("LLVMIsCleanup", C.c_int, P)
nClauses = _f("LLVMGetNumClauses", C.c_uint, P)
getClause = _f("LLVMGetClause", P, P, C.c_uint)
retTy = _f("LLVMGetReturnType", P, P)
isNull = _f("LLVMIsNull", C.c_int, P)

OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Ty:
    __slots__ = ("kind", "size", "width", "elem", "n", "fields", "name")
    # kind: void int double float ptr struct array vec fp80 other

    def __repr__(self):
        return f"<{self.kind}{self.width or ''}>"


class Inst:
    __slots__ = ("op", "ty", "ops", "x", "line", "file", "bb", "id", "fn")

    def __repr__(self):
        return f"%{self.id}={self.op}"

    def loc(self):
        return f"{self.file.rsplit('/',1)[-1]}:{self.line}" if self.file else "?"


class BB:
    __slots__ = ("idx", "insts", "succs", "fn", "phis")

    def __repr__(self):
        return f"bb{self.idx}"


class Fn:
    def __init__(self):
        self.name = None
        self.params = []
        self.bbs = []
        self.decl = True
        self.retty = None
        self.dem = None

    def __repr__(self):
        return f"Fn({self.name})"


class GV:
    __slots__ = ("name", "ty", "init", "const")


# operand encodings: ("i", int, width) ("f", float) ("null",) ("undef", Ty) ("inst", Inst) ("arg", i)
# ("g", name) ("fn", name) ("agg", [..], Ty) ("gep", base, off) ("bytes", b) ("zero", Ty) ("cexpr", ...)


class Module:
    def __init__(self, path):
        self.ctx = ctxCreate()
        buf = P()
        msg = C.c_char_p()
        if bufFromFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if parseIR(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = modDL(m)
        self.tcache = {}
        self.fns = {}
        self.globs = {}
        self.structs = {}
        self._fnptrs = {}
        f = firstFn(m)
        while f:
            fn = Fn()
            fn.name = self._name(f)
            fn.decl = bool(isDecl(f))
            fn.ptr = f
            self.fns[fn.name] = fn
            self._fnptrs[f] = fn.name
            f = nextFn(f)
        self.aliases = {}
        a = firstAl(m)
        while a:
            t = aliasee(a)
            self.aliases[self._name(a)] = self._name(t)
            a = nextAl(a)
        g = firstGl(m)
        gl = []
        while g:
            gl.append(g)
            g = nextGl(g)
        for g in gl:
            v = GV()
            v.name = self._name(g)
            v.ty = self.ty(globTy(g))
            v.const = bool(isConst(g))
            v.init = None
            self.globs[v.name] = v
            v.init = ("lazy", g) if not isDecl(g) else None
        for fn in self.fns.values():
            fn.lazy = not fn.decl

    def ginit(self, name):
        g = self.globs[name]
        if g.init and g.init[0] == "lazy":
            g.init = self.val(initializer(g.init[1]), None)
        return g.init

    def _name(self, v):
        n = C.c_size_t()
        s = vname(v, C.byref(n))
        return s.decode() if s else ""

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None:
            return r
        r = Ty()
        self.tcache[t] = r
        k = tkind(t)
        r.width = None
        r.elem = None
        r.n = 0
        r.fields = None
        r.size = 0
        r.name = None
        if k == 0:
            r.kind = "void"
        elif k == 2:
            r.kind = "float"; r.size = 4
        elif k == 3:
            r.kind = "double"; r.size = 8
        elif k == 4:
            r.kind = "fp80"; r.size = 16
        elif k == 8:
            r.kind = "int"; r.width = iwidth(t); r.size = abiSize(self.dl, t)
        elif k == 12:
            r.kind = "ptr"; r.size = 8
        elif k == 11:
            r.kind = "array"; r.elem = self.ty(elemTy(t)); r.n = arrLen(t); r.size = abiSize(self.dl, t)
        elif k == 13:
            r.kind = "vec"; r.elem = self.ty(elemTy(t)); r.n = vecLen(t); r.size = abiSize(self.dl, t)
        elif k == 10:
            r.kind = "struct"
            r.n = structN(t)
            nm = structName(t)
            r.name = nm.decode() if nm else None
            r.fields = []
            try:
                r.size = abiSize(self.dl, t)
                for i in range(r.n):
                    r.fields.append((offElem(self.dl, t, i), self.ty(structElem(t, i))))
            except Exception:
                r.size = 0
            if r.name:
                self.structs[r.name] = r
        else:
            r.kind = f"k{k}"
        return r

    def fn(self, name):
        f = self.fns.get(name)
        if f is None and name in self.aliases:
            f = self.fns.get(self.aliases[name])
        if f is not None and getattr(f, "lazy", False):
            self._load(f)
        return f

    def _load(self, fn):
        fn.lazy = False
        f = fn.ptr
        self.imap = {}
        self.args = {}
        for i in range(nParams(f)):
            p = getParam(f, i)
            self.args[p] = i
            fn.params.append(self.ty(typeOf(p)))
        fty = globTy(f)
        fn.retty = self.ty(retTy(fty))
        bbs = {}
        b = firstBB(f)
        order = []
        while b:
            o = BB()
            o.idx = len(order)
            o.insts = []
            o.succs = []
            o.fn = fn
            bbs[b] = o
            order.append((b, o))
            b = nextBB(b)
        self.bbs = bbs
        cnt = 0
        todo = []
        for b, o in order:
            i = firstI(b)
            while i:
                x = Inst()
                x.id = cnt
                cnt += 1
                x.op = OPC.get(opc(i), f"op{opc(i)}")
                x.ty = self.ty(typeOf(i))
                x.bb = o
                x.x = None
                x.fn = fn
                x.line = dbgLine(i)
                n = C.c_uint()
                fl = dbgFile(i, C.byref(n))
                x.file = fl[:n.value].decode() if fl and n.value else ""
                self.imap[i] = x
                o.insts.append(x)
                todo.append((i, x))
                i = nextI(i)
        fn.bbs = [o for _, o in order]
        for i, x in todo:
            self._inst(i, x)
        for o in fn.bbs:
            o.phis = [i for i in o.insts if i.op == "phi"]
            t = o.insts[-1]
            o.succs = t.x.get("succ", []) if isinstance(t.x, dict) else []
        del self.imap, self.args, self.bbs

    def _gepinfo(self, i):
        """-> base operand, const offset, [(operand, scale)]"""
        n = nops(i)
        ty = gepTy(i)
        T = self.ty(ty)
        off = 0
        var = []
        cur = None
        for k in range(1, n):
            v = getop(i, k)
            if k == 1:
                sz = abiSize(self.dl, ty)
                cur = ty
            else:
                kd = tkind(cur)
                if kd == 10:
                    j = sext(v)
                    off += offElem(self.dl, cur, j)
                    cur = structElem(cur, j)
                    continue
                cur = elemTy(cur)
                sz = abiSize(self.dl, cur)
            o = self.val(v)
            if o[0] == "i":
                off += o[1] * sz
            else:
                var.append((o, sz))
        return off, var

    def _inst(self, i, x):
        op = x.op
        V = self.val
        if op == "phi":
            x.ops = []
            x.x = {"inc": [(V(incV(i, k)), self.bbs[incB(i, k)].idx) for k in range(nInc(i))]}
            return
        if op == "br":
            if isCond(i):
                x.ops = [V(getop(i, 0))]
                x.x = {"succ": [self.bbs[succ(i, 0)].idx, self.bbs[succ(i, 1)].idx]}
            else:
                x.ops = []
                x.x = {"succ": [self.bbs[succ(i, 0)].idx]}
            return
        if op == "switch":
            n = nops(i)
            x.ops = [V(getop(i, 0))]
            cases = []
            k = 2
            default = self.bbs[valAsBB(getop(i, 1))].idx
            while k < n:
                cases.append((sext(getop(i, k)), self.bbs[valAsBB(getop(i, k + 1))].idx))
                k += 2
            x.x = {"default": default, "cases": cases, "succ": [default] + [c[1] for c in cases]}
            return
        if op in ("call", "invoke"):
            na = nargs(i)
            x.ops = [V(getop(i, k)) for k in range(na)]
            x.x = {"callee": V(called(i))}
            if op == "invoke":
                a, b = self.bbs[normalDest(i)].idx, self.bbs[unwindDest(i)].idx
                x.x["normal"], x.x["unwind"] = a, b
                x.x["succ"] = [a, b]
            return
        if op == "gep":
            off, var = self._gepinfo(i)
            x.ops = [V(getop(i, 0))]
            x.x = {"off": off, "var": var}
            return
        if op == "alloca":
            x.ops = [V(getop(i, 0))]
            x.x = {"ty": self.ty(allocTy(i))}
            return
        if op == "landingpad":
            x.ops = []
            x.x = {"cleanup": bool(isCleanup(i)), "clauses": [V(getClause(i, k)) for k in range(nClauses(i))]}
            return
        if op in ("extractvalue", "insertvalue"):
            n = nIdx(i)
            ix = idxs(i)
            x.ops = [V(getop(i, k)) for k in range(nops(i))]
            x.x = {"idx": [ix[k] for k in range(n)]}
            return
        x.ops = [V(getop(i, k)) for k in range(nops(i))]
        if op == "icmp":
            x.x = {"pred": ICMP[icmpPred(i)]}
        elif op == "fcmp":
            x.x = {"pred": FCMP[fcmpPred(i)]}
        elif op in ("add", "sub", "mul", "shl"):
            x.x = {"nsw": bool(nsw(i)), "nuw": bool(nuw(i))}
        elif op in ("ret", "unreachable", "resume"):
            x.x = {"succ": []}

    def val(self, v, _=None):
        k = vkind(v)
        if k == 24:
            return ("inst", self.imap[v])
        if k == 0:
            return ("arg", self.args[v])
        if k == 18:
            t = self.ty(typeOf(v))
            s = sext(v)
            return ("i", s, t.width)
        if k == 19:
            l = C.c_int()
            t = self.ty(typeOf(v))
            return ("f", realDbl(v, C.byref(l)), t.kind)
        if k == 20:
            return ("null",)
        if k in (14, 25):
            return ("undef", self.ty(typeOf(v)))
        if k == 5:
            return ("fn", self._name(v))
        if k == 6:
            n = self._name(v)
            t = self.aliases.get(n, n)
            return ("fn", t) if t in self.fns else ("g", t)
        if k == 8:
            return ("g", self._name(v))
        if k in (15, 11, 12, 13, 16, 17):
            t = self.ty(typeOf(v))
            if k == 15:
                return ("zero", t)
            n = t.n
            return ("agg", [self.val(aggElem(v, j)) for j in range(n)], t)
        if k == 10:
            o = OPC.get(constOpc(v))
            if o == "gep":
                off, var = self._gepinfo(v)
                return ("gep", self.val(getop(v, 0)), off)
            return ("cexpr", o, [self.val(getop(v, j)) for j in range(nops(v))], self.ty(typeOf(v)))
        if k == 22:
            return ("meta",)
        if k == 23:
            return ("asm",)
        if k == 1:
            return ("bb", self.bbs[v].idx)
        return ("unk", k)
