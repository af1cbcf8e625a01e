"""LLVM IR reader (ctypes over the LLVM 18 C API) and the normal form the checks work on.

`load(bc, roots, keep)` parses a bitcode file, inlines every function the policy does not
keep as a call, normalises (sroa / mem2reg, simplifycfg, early-cse, instcombine without
loop transformation), and returns plain Python objects with CFGs, operands and source
positions (with inlining chains).  Helper functions, temporaries and statement order that
carry no behaviour vanish at this level, so the rules judge what the code does.
"""
import ctypes as C
import os, re
from prep import AnalysisBroken

_L = None
for _p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1"):
    if os.path.exists(_p):
        _L = C.CDLL(_p)
        break
if _L is None:
    raise AnalysisBroken("libLLVM 18 not found")
P = C.c_void_p
U = C.c_uint


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
ContextDispose = _f("LLVMContextDispose", None, P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
GetName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
PrintType = _f("LLVMPrintTypeToString", C.c_void_p, P)
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
DisposeMsg = _f("LLVMDisposeMessage", None, C.c_void_p)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
IsVolatile = _f("LLVMGetVolatile", U, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncValue = _f("LLVMGetIncomingValue", P, P, U)
IncBlock = _f("LLVMGetIncomingBlock", P, P, U)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
ConstIntZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstIntS = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GepSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsConstStr = _f("LLVMIsConstantString", C.c_int, P)
ArrLen = _f("LLVMGetArrayLength", C.c_uint, P)
GetAggr = _f("LLVMGetAggregateElement", P, P, U)
GetAsStr = _f("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
IsGConst = _f("LLVMIsGlobalConstant", C.c_int, P)
FirstParam = _f("LLVMGetFirstParam", P, P)
NextParam = _f("LLVMGetNextParam", P, P)
Subprogram = _f("LLVMGetSubprogram", P, P)
ScopeFile = _f("LLVMDIScopeGetFile", P, P)
FileName = _f("LLVMDIFileGetFilename", C.c_void_p, P, C.POINTER(U))
FileDir = _f("LLVMDIFileGetDirectory", C.c_void_p, P, C.POINTER(U))
SPLine = _f("LLVMDISubprogramGetLine", U, P)
InstLoc = _f("LLVMInstructionGetDebugLoc", P, P)
LocLine = _f("LLVMDILocationGetLine", U, P)
LocCol = _f("LLVMDILocationGetColumn", U, P)
LocScope = _f("LLVMDILocationGetScope", P, P)
LocInl = _f("LLVMDILocationGetInlinedAt", P, P)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, U, P)
RmAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
AttrKind = _f("LLVMGetEnumAttributeKindForName", U, C.c_char_p, C.c_size_t)
MkAttr = _f("LLVMCreateEnumAttribute", P, P, U, C.c_ulonglong)
SetLinkage = _f("LLVMSetLinkage", None, P, C.c_int)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
SetComdat = _f("LLVMSetComdat", None, P, P)
RunPasses = _f("LLVMRunPasses", P, P, C.c_char_p, P, P)
ErrMsg = _f("LLVMGetErrorMessage", C.c_void_p, P)
PBO = _f("LLVMCreatePassBuilderOptions", P)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
OffsetOfEl = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StructEl = _f("LLVMStructGetTypeAtIndex", P, P, U)
ElType = _f("LLVMGetElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
NumIdx = _f("LLVMGetNumIndices", U, P)
GetIdx = _f("LLVMGetIndices", C.POINTER(U), P)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
NumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
WriteBC = _f("LLVMWriteBitcodeToFile", C.c_int, P, C.c_char_p)
MDStr = _f("LLVMGetMDString", C.c_void_p, P, C.POINTER(U))
HasMD = _f("LLVMHasMetadata", C.c_int, P)
SizeIsSized = _f("LLVMTypeIsSized", C.c_int, P)
ReplaceAll = _f("LLVMReplaceAllUsesWith", None, P, P)
GetAttrsN = _f("LLVMGetAttributeCountAtIndex", U, P, U)
HasAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
CallAttr = _f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
AttrValue = _f("LLVMGetEnumAttributeValue", C.c_ulonglong, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       47: "userop1", 48: "userop2", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 61: "cleanupret", 62: "catchret", 63: "catchpad", 64: "cleanuppad", 65: "catchswitch"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
NEG = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge",
       "sgt": "sle", "sle": "sgt", "sge": "slt", "slt": "sge"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge",
        "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}

_cxa = C.CDLL("libstdc++.so.6").__cxa_demangle
_cxa.restype = C.c_void_p
_cxa.argtypes = [C.c_char_p, P, P, C.POINTER(C.c_int)]
_free = C.CDLL(None).free
_free.argtypes = [P]
_dm = {}


def demangle(n):
    if n in _dm:
        return _dm[n]
    r = n
    if n.startswith("_Z"):
        st = C.c_int()
        p = _cxa(n.encode(), None, None, C.byref(st))
        if p:
            r = C.string_at(p).decode(errors="replace")
            _free(p)
    r = r.replace("std::__cxx11::", "std::").replace("std::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string")
    _dm[n] = r
    return r


def _msg(p):
    s = C.string_at(p).decode(errors="replace")
    DisposeMsg(p)
    return s


def _name(v):
    n = C.c_size_t()
    p = GetName(v, C.byref(n))
    return C.string_at(p, n.value).decode(errors="replace") if p else ""


class Value:
    kind = "?"
    __slots__ = ("users",)


class Const(Value):
    __slots__ = ("v", "width", "s")
    kind = "const"

    def __init__(s, v, width, sv):
        s.v, s.width, s.s = v, width, sv
        s.users = []

    def __repr__(s):
        return "%d" % s.s


class Null(Value):
    __slots__ = ()
    kind = "null"

    def __init__(s):
        s.users = []

    def __repr__(s):
        return "null"


class Undef(Value):
    __slots__ = ()
    kind = "undef"

    def __init__(s):
        s.users = []

    def __repr__(s):
        return "undef"


class Other(Value):
    """floating constants, aggregates, metadata, inline asm"""
    __slots__ = ("text", "ops", "sub")
    kind = "other"

    def __init__(s, text, sub=""):
        s.text, s.ops, s.sub = text, [], sub
        s.users = []

    def __repr__(s):
        return s.text[:60]


class Arg(Value):
    __slots__ = ("idx", "name", "fn", "ty", "deref")
    kind = "arg"

    def __init__(s, idx, name, fn, ty):
        s.idx, s.name, s.fn, s.ty = idx, name, fn, ty
        s.deref = 0
        s.users = []

    def __repr__(s):
        return "arg%d:%s" % (s.idx, s.name)


class Global(Value):
    __slots__ = ("name", "dem", "init", "string", "isconst", "decl", "mod", "ptr", "linkage")
    kind = "global"

    def __init__(s, name):
        s.name, s.dem = name, demangle(name)
        s.init = s.string = None
        s.isconst = s.decl = False
        s.users = []

    def __repr__(s):
        return "@" + (repr(s.string) if s.string is not None else s.dem)


class CExpr(Value):
    """constant expression"""
    __slots__ = ("op", "ops", "off", "src")
    kind = "cexpr"

    def __init__(s, op):
        s.op, s.ops, s.off = op, [], None
        s.users = []

    def __repr__(s):
        return "c:%s(%s)%s" % (s.op, ",".join(map(repr, s.ops[:3])), "" if s.off is None else "+%d" % s.off)


class Inst(Value):
    __slots__ = ("op", "ops", "ty", "name", "bb", "idx", "loc", "pred", "callee", "normal", "unwind",
                 "inc", "off", "var", "succs", "cases", "ptr", "ivs", "aty", "asz", "clauses", "cleanup", "vcall", "elt", "nounwind", "volatile")
    kind = "inst"

    def __init__(s):
        s.ops = []
        s.users = []
        s.nounwind = s.pred = s.callee = s.normal = s.unwind = s.off = s.var = s.vcall = None
        s.succs = s.inc = s.cases = s.clauses = ()
        s.volatile = False

    @property
    def iscall(s):
        return s.op in ("call", "invoke")

    @property
    def args(s):
        return s.ops

    def cname(s):
        """demangled callee name, or None for an unresolved indirect call"""
        c = s.callee
        if c is None:
            return None
        if c.kind == "func":
            return c.dem
        if s.vcall:
            return s.vcall
        return None

    def where(s):
        return s.loc[0] if s.loc else (s.bb.fn.file, s.bb.fn.line, s.bb.fn.dem)

    def __repr__(s):
        return "%s#%d.%d" % (s.op, s.bb.idx, s.idx)


class Block:
    kind = "block"
    __slots__ = ("insts", "preds", "succs", "fn", "idx", "name", "ptr")

    def __init__(s, fn, idx):
        s.fn, s.idx = fn, idx
        s.insts, s.preds, s.succs = [], [], []

    @property
    def term(s):
        return s.insts[-1]

    def __repr__(s):
        return "bb%d" % s.idx


class Func(Value):
    kind = "func"
    __slots__ = ("name", "dem", "blocks", "args", "decl", "file", "line", "mod", "_dom", "_pdom", "_loops", "ptr", "noreturn", "nounwind", "linkage", "spname")

    def __init__(s, name):
        s.name, s.dem = name, demangle(name)
        s.blocks, s.args = [], []
        s._dom = s._pdom = s._loops = None
        s.users = []
        s.file, s.line = "", 0

    def __repr__(s):
        return s.dem

    def insts(s):
        for b in s.blocks:
            for i in b.insts:
                yield i

    def calls(s, rx=None):
        for i in s.insts():
            if i.op in ("call", "invoke"):
                n = i.cname()
                if rx is None or (n and re.search(rx, n)):
                    yield i

    # ---- dominators -------------------------------------------------------
    @staticmethod
    def _rpo(entry, succ):
        seen, order = set(), []
        st = [(entry, iter(succ(entry)))]
        seen.add(entry)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(succ(m))))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        return order

    @staticmethod
    def _idoms(entry, succ, pred):
        order = Func._rpo(entry, succ)
        num = {b: i for i, b in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred(b):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a is not c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) is not new:
                    idom[b] = new
                    ch = True
        return idom

    def idom(s):
        if s._dom is None:
            s._dom = Func._idoms(s.blocks[0], lambda b: b.succs, lambda b: b.preds)
        return s._dom

    def dominates(s, a, b):
        """block a dominates block b"""
        d = s.idom()
        if b not in d:
            return True
        while True:
            if a is b:
                return True
            n = d.get(b)
            if n is None or n is b:
                return False
            b = n

    def inst_dom(s, a, b):
        if a.bb is b.bb:
            return a.idx < b.idx
        if a.op == "invoke":
            return s.dominates(a.normal, b.bb) and len(a.normal.preds) == 1 or (s.dominates(a.bb, b.bb) and a.bb is not b.bb)
        return s.dominates(a.bb, b.bb)

    def loops(s):
        """natural loops: list of (header, set(blocks))"""
        if s._loops is None:
            res = {}
            for b in s.blocks:
                if b not in s.idom():
                    continue
                for t in b.succs:
                    if s.dominates(t, b):
                        body = res.setdefault(t, {t})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(p for p in x.preds if p in s.idom())
            s._loops = list(res.items())
        return s._loops


class Module:
    def __init__(s):
        s.funcs, s.globals = {}, {}

    def find(s, rx):
        return [f for f in s.funcs.values() if re.search(rx, f.dem)]

    def defs(s):
        return [f for f in s.funcs.values() if not f.decl]


NORMAL_PASSES = ("always-inline,globaldce,function(lower-expect,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;keep-loops>,"
                 "sroa<preserve-cfg>,mem2reg,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<keep-loops>,"
                 "sroa<preserve-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,adce,simplifycfg<keep-loops>)")
LIGHT_PASSES = ("always-inline,globaldce,function(simplifycfg<keep-loops>,sroa<preserve-cfg>,mem2reg,early-cse,adce,simplifycfg<keep-loops>)")


def load(bc, tree, inline=None, roots=None, passes=NORMAL_PASSES, recursion_ok=True):
    """inline(dem, file, name)->bool decides which defined functions are inlined at their calls.
    roots(dem, file, name)->bool: externally visible; anything unreachable from roots is dropped."""
    ctx = ContextCreate()
    buf, err, mod = P(), C.c_char_p(), P()
    if CreateMemBuf(bc.encode(), C.byref(buf), C.byref(err)):
        raise AnalysisBroken("cannot read " + bc)
    if ParseIR(ctx, buf, C.byref(mod), C.byref(err)):
        raise AnalysisBroken("cannot parse %s" % bc)
    kAI, kNI, kON = (AttrKind(a, len(a)) for a in (b"alwaysinline", b"noinline", b"optnone"))
    aAI, aNI = MkAttr(ctx, kAI, 0), MkAttr(ctx, kNI, 0)
    FN = (1 << 32) - 1
    fcache = {}

    def fileof(sp):
        if not sp:
            return ""
        f = ScopeFile(sp)
        if not f:
            return ""
        if f in fcache:
            return fcache[f]
        n = U()
        p = FileName(f, C.byref(n))
        nm = C.string_at(p, n.value).decode() if p else ""
        if not nm.startswith("/"):
            p = FileDir(f, C.byref(n))
            d = C.string_at(p, n.value).decode() if p else ""
            nm = os.path.normpath(os.path.join(d, nm))
        nm = tree.rel(nm)
        fcache[f] = nm
        return nm
    fn = FirstFn(mod)
    while fn:
        if not IsDecl(fn):
            nm = _name(fn)
            dem = demangle(nm)
            file = fileof(Subprogram(fn))
            RmAttr(fn, FN, kON)
            RmAttr(fn, FN, kAI)
            RmAttr(fn, FN, kNI)
            isroot = roots is None or roots(dem, file, nm)
            if inline and inline(dem, file, nm) and not (roots and isroot and roots(dem, file, nm) == "keep"):
                AddAttr(fn, FN, aAI)
            else:
                AddAttr(fn, FN, aNI)
            if not isroot:
                SetComdat(fn, None)
                SetLinkage(fn, 8)  # internal
            elif GetLinkage(fn) in (2, 3, 5, 6):  # linkonce / weak: keep
                SetComdat(fn, None)
                SetLinkage(fn, 0)
        fn = NextFn(fn)
    vt = _vtables(mod)
    if passes:
        e = RunPasses(mod, passes.encode(), None, PBO())
        if e:
            raise AnalysisBroken("passes: " + C.string_at(ErrMsg(e)).decode())
    return _read(ctx, mod, fileof, tree, vt)


def _vtables(mod):
    """class -> list of demangled slot functions, from the vtable initialisers"""
    res = {}
    g = FirstGl(mod)
    while g:
        n = _name(g)
        if n.startswith("_ZTV") and not IsDecl(g):
            init = GetInit(g)
            if init and NumOps(init):
                arr = GetOp(init, 0)
                sl = []
                for k in range(NumOps(arr)):
                    o = GetOp(arr, k)
                    sl.append(demangle(_name(o)) if o and ValueKind(o) == 5 else None)
                res[n[4:]] = sl
        g = NextGl(g)
    return res


_tycache = {}


def _ty(t):
    if t in _tycache:
        return _tycache[t]
    k = TypeKind(t)
    if k == 8:
        s = "i%d" % IntWidth(t)
    elif k == 12:
        s = "ptr"
    else:
        s = _msg(PrintType(t))
        if len(s) > 200:
            s = s[:200]
    _tycache[t] = s
    return s


def _read(ctx, mod, fileof, tree, vt):
    _tycache.clear()
    M = Module()
    dl = DataLayout(mod)
    vmap = {}
    g = FirstGl(mod)
    gl = []
    while g:
        G = Global(_name(g))
        G.isconst = bool(IsGConst(g))
        G.decl = bool(IsDecl(g))
        G.linkage = GetLinkage(g)
        G.mod = M
        vmap[g] = G
        M.globals[G.name] = G
        gl.append((g, G))
        g = NextGl(g)
    fl = []
    f = FirstFn(mod)
    kNR = AttrKind(b"noreturn", 8)
    kNU = AttrKind(b"nounwind", 8)
    kDR = AttrKind(b"dereferenceable", 15)
    FN = (1 << 32) - 1
    while f:
        F = Func(_name(f))
        F.mod = M
        F.decl = bool(IsDecl(f))
        F.noreturn = bool(HasAttr(f, FN, kNR))
        F.nounwind = bool(HasAttr(f, FN, kNU))
        F.linkage = GetLinkage(f)
        sp = Subprogram(f)
        if sp:
            F.file, F.line = fileof(sp), SPLine(sp)
        vmap[f] = F
        M.funcs[F.name] = F
        fl.append((f, F))
        p = FirstParam(f)
        i = 0
        while p:
            A = Arg(i, _name(p), F, _ty(TypeOf(p)))
            vmap[p] = A
            at = HasAttr(f, i + 1, kDR)
            if at:
                A.deref = AttrValue(at)
            F.args.append(A)
            p = NextParam(p)
            i += 1
        f = NextFn(f)
    null, undef = Null(), Undef()

    def walk_gep(srcty, ops):
        """constant byte offset and list of (value, scale) variable parts"""
        off, var = 0, []
        t = srcty
        first = True
        for o in ops:
            if first:
                if SizeIsSized(t):
                    sz = ABISize(dl, t)
                else:
                    sz = 0
                first = False
            else:
                k = TypeKind(t)
                if k == 10:  # struct
                    idx = o.v
                    off += OffsetOfEl(dl, t, idx)
                    t = StructEl(t, idx)
                    continue
                t = ElType(t)
                sz = ABISize(dl, t)
            if o.kind == "const":
                off += o.s * sz
            else:
                var.append((o, sz))
        return off, var

    def val(v):
        if v in vmap:
            return vmap[v]
        k = ValueKind(v)
        if k == 18:  # const int
            t = TypeOf(v)
            w = IntWidth(t)
            r = Const(ConstIntZ(v) if w <= 64 else 0, w, ConstIntS(v) if w <= 64 else 0)
        elif k == 20:
            r = null
        elif k in (14, 25):
            r = undef
        elif k == 10:  # const expr
            r = CExpr(OPC.get(ConstOpcode(v), "?"))
            vmap[v] = r
            for i in range(NumOps(v)):
                r.ops.append(val(GetOp(v, i)))
            if r.op == "gep":
                off, var = walk_gep(GepSrcTy(v), r.ops[1:])
                r.off = off
            return r
        elif k == 22:  # metadata as value
            n = U()
            p = MDStr(v, C.byref(n))
            r = Other(C.string_at(p, n.value).decode() if p else "metadata", "md")
        elif k in (11, 12, 13, 16, 17):  # aggregates
            r = Other("agg", "agg")
            vmap[v] = r
            if k == 16 and IsConstStr(v):
                n = C.c_size_t()
                p = GetAsStr(v, C.byref(n))
                r.sub = "str"
                r.text = C.string_at(p, n.value).decode("latin-1")
                return r
            if k in (11, 12, 13):
                for i in range(NumOps(v)):
                    o = GetOp(v, i)
                    if o:
                        r.ops.append(val(o))
            elif k == 16:
                for i in range(ArrLen(TypeOf(v))):
                    o = GetAggr(v, i)
                    if o:
                        r.ops.append(val(o))
            return r
        elif k == 15:
            r = Other("zeroinit", "zero")
        elif k == 19:
            r = Other(_msg(PrintValue(v)), "fp")
        elif k in (6,):
            r = Other("alias:" + _name(v), "alias")
        else:
            r = Other("kind%d" % k, "k%d" % k)
        vmap[v] = r
        return r
    for g, G in gl:
        i = GetInit(g) if not G.decl else None
        if i:
            G.init = val(i)
            if G.init.kind == "other" and G.init.sub == "str":
                s = G.init.text
                if s.endswith("\0"):
                    s = s[:-1]
                G.string = s
            elif G.init.kind == "other" and G.init.sub == "zero" and G.name.startswith(".str"):
                G.string = ""
    loccache = {}

    def loc(i):
        d = InstLoc(i)
        res = []
        if not d:
            return res
        if d in loccache:
            return loccache[d]
        k = d
        while d:
            sc = LocScope(d)
            res.append((fileof(sc), LocLine(d)))
            d = LocInl(d)
        loccache[k] = res
        return res
    for f, F in fl:
        if F.decl:
            continue
        bmap = {}
        bl = []
        b = FirstBB(f)
        while b:
            B = Block(F, len(F.blocks))
            F.blocks.append(B)
            bmap[b] = B
            bl.append((b, B))
            b = NextBB(b)
        il = []
        for b, B in bl:
            i = FirstInst(b)
            while i:
                if Opcode(i) == 45:
                    cn = _name(CalledValue(i))
                    if cn.startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias")):
                        i = NextInst(i)
                        continue
                I = Inst()
                I.bb, I.idx = B, len(B.insts)
                I.op = OPC.get(Opcode(i), "?")
                I.name = _name(i)
                B.insts.append(I)
                vmap[i] = I
                il.append((i, I))
                i = NextInst(i)
        for i, I in il:
            op = I.op
            I.ty = _ty(TypeOf(i))
            I.loc = loc(i)
            if op == "phi":
                n = CountIncoming(i)
                I.inc = [(val(IncValue(i, k)), bmap[IncBlock(i, k)]) for k in range(n)]
                I.ops = [v for v, _ in I.inc]
            elif op in ("call", "invoke"):
                I.callee = val(CalledValue(i))
                n = NumArgOps(i)
                I.ops = [val(GetOp(i, k)) for k in range(n)]
                I.nounwind = bool(CallAttr(i, FN, kNU)) or I.callee.kind == "func" and I.callee.nounwind
                if op == "invoke":
                    I.normal = bmap[NormalDest(i)]
                    I.unwind = bmap[UnwindDest(i)]
                    I.succs = [I.normal, I.unwind]
            elif op == "br":
                n = NumSucc(i)
                I.succs = [bmap[Succ(i, k)] for k in range(n)]
                if n == 2:
                    I.ops = [val(GetOp(i, 0))]
            elif op == "switch":
                n = NumOps(i)
                I.ops = [val(GetOp(i, 0))]
                I.cases = []
                I.succs = [bmap[Succ(i, k)] for k in range(NumSucc(i))]
                for k in range(2, n, 2):
                    I.cases.append((val(GetOp(i, k)), bmap[ValueAsBB(GetOp(i, k + 1))]))
            else:
                I.ops = [val(GetOp(i, k)) for k in range(NumOps(i))]
                if op == "gep":
                    I.off, I.var = walk_gep(GepSrcTy(i), I.ops[1:])
                    I.elt = _ty(GepSrcTy(i))
                elif op == "load":
                    I.volatile = bool(IsVolatile(i))
                elif op == "icmp":
                    I.pred = PRED.get(ICmpPred(i))
                elif op == "alloca":
                    t = AllocTy(i)
                    I.aty = _ty(t)
                    I.asz = ABISize(dl, t) if SizeIsSized(t) else 0
                elif op in ("extractvalue", "insertvalue"):
                    n = NumIdx(i)
                    ix = GetIdx(i)
                    I.ivs = [ix[k] for k in range(n)]
                elif op == "landingpad":
                    I.clauses = [val(GetClause(i, k)) for k in range(NumClauses(i))]
                    I.cleanup = bool(IsCleanup(i))
            for o in I.ops:
                if o is not None:
                    o.users.append(I)
            if I.callee is not None:
                I.callee.users.append(I)
        for b, B in bl:
            ss = []
            for t in B.term.succs:
                if t not in ss:
                    ss.append(t)
            B.succs = ss
            for t in ss:
                t.preds.append(B)
    M.vtables = vt
    _vcalls(M, vt)
    ContextDispose(ctx)
    return M


def _vcalls(M, slots):
    """Name virtual calls: 'virtual pack_t::append' from the vtable slot of the static class."""
    for F in M.defs():
        for I in F.insts():
            if I.op not in ("call", "invoke") or I.callee is None or I.callee.kind != "inst":
                continue
            ld = I.callee
            if ld.op != "load":
                continue
            a = ld.ops[0]
            off = 0
            if a.kind == "inst" and a.op == "gep" and not a.var:
                off = a.off
                a = a.ops[0]
            if not (a.kind == "inst" and a.op == "load"):
                continue
            cls = None
            for u in a.users:
                if u.op == "call" and u.callee is not None and u.callee.kind == "func" and "type.test" in u.callee.name:
                    cls = u.ops[1].text
            if cls is None:
                continue
            short = cls[4:] if cls.startswith("_ZTS") else cls
            nm = None
            sl = slots.get(short)
            if sl and off // 8 + 2 < len(sl):
                nm = sl[off // 8 + 2]
                if nm == "__cxa_pure_virtual":
                    nm = None
            if not nm:
                # abstract class: slot names from the witness's concrete Anchor_<Class>
                last = re.findall(r"\d+([A-Za-z_]\w*?)(?=\d|E|I|$)", short)
                for c in last[-1:]:
                    sl = slots.get("%d%s" % (len(c) + 7, "Anchor_" + c))
                    if sl and off // 8 + 2 < len(sl):
                        nm = (sl[off // 8 + 2] or "").replace("Anchor_", "") or None
            if nm:
                I.vcall = "virtual " + nm
            else:
                I.vcall = "virtual %s slot %d" % (demangle("_Z" + short) if not short[0].isdigit() else re.sub(r"^\d+", "", short), off // 8)
