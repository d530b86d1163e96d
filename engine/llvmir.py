"""Thin ctypes front end on libLLVM-18: loads bitcode, optionally marks functions
noinline, runs the stock optimiser, and decodes functions to Python tuples for symex.py.
Nothing here interprets the program; it is a reader."""
import ctypes as C, os, re

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
         "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1", "libLLVM-18.so.1"]
L = None
for _p in _LIBS:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        continue
if L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
U = C.c_uint


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
FirstAl = _f("LLVMGetFirstGlobalAlias", P, P)
NextAl = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
_GetName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsConstG = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opc = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
Op = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ElemType = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecSize = _f("LLVMGetVectorSize", U, P)
StructN = _f("LLVMCountStructElementTypes", U, P)
StructTy = _f("LLVMStructGetTypeAtIndex", P, P, U)
ModDL = _f("LLVMGetModuleDataLayout", P, P)
OffOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
ConstInt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
ConstOpc = _f("LLVMGetConstOpcode", C.c_int, P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
CountInc = _f("LLVMCountIncoming", U, P)
IncV = _f("LLVMGetIncomingValue", P, P, U)
IncB = _f("LLVMGetIncomingBlock", P, P, U)
CalledV = _f("LLVMGetCalledValue", P, P)
NumArgs = _f("LLVMGetNumArgOperands", U, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
NumIdx = _f("LLVMGetNumIndices", U, P)
Idx = _f("LLVMGetIndices", C.POINTER(U), P)
NumClauses = _f("LLVMGetNumClauses", U, P)
Clause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
IsCond = _f("LLVMIsConditional", C.c_int, P)
CondV = _f("LLVMGetCondition", P, P)
SwitchDef = _f("LLVMGetSwitchDefaultDest", P, P)
EnumKind = _f("LLVMGetEnumAttributeKindForName", U, C.c_char_p, C.c_size_t)
CreateEnumAttr = _f("LLVMCreateEnumAttribute", P, P, U, C.c_uint64)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, C.c_int, P)
RemAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, C.c_int, U)
PBOpts = _f("LLVMCreatePassBuilderOptions", P)
RunPasses = _f("LLVMRunPasses", P, P, C.c_char_p, P, P)
ErrMsg = _f("LLVMGetErrorMessage", C.c_void_p, P)
PrintV = _f("LLVMPrintValueToString", C.c_void_p, P)
NumMaskElems = _f("LLVMGetNumMaskElements", U, P)
MaskValue = _f("LLVMGetMaskValue", C.c_int, P, U)
DataElt = _f("LLVMGetElementAsConstant", P, P, U)
AggElt = _f("LLVMGetAggregateElement", P, P, U)

OPN = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
       59: 'landingpad'}
# type kinds
TK_VOID, TK_HALF, TK_FLOAT, TK_DOUBLE, TK_X86FP80 = 0, 1, 2, 3, 4
TK_LABEL, TK_INT, TK_FUNC, TK_STRUCT, TK_ARRAY, TK_PTR, TK_VEC, TK_META = 7, 8, 9, 10, 11, 12, 13, 14
# value kinds
VK = dict(Argument=0, BasicBlock=1, Function=5, GlobalAlias=6, GlobalIFunc=7, GlobalVariable=8, BlockAddress=9,
          ConstantExpr=10, ConstantArray=11, ConstantStruct=12, ConstantVector=13, Undef=14, AggZero=15,
          DataArray=16, DataVector=17, CInt=18, CFP=19, Null=20, TokenNone=21, MetadataAsValue=22, InlineAsm=23,
          Instruction=24, Poison=25)


def name_of(v):
    n = C.c_size_t()
    p = _GetName(v, C.byref(n))
    return C.string_at(p, n.value).decode("utf-8", "replace")


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Type:
    """decoded type: k in int,double,float,ptr,void,struct,array,vec,other"""
    __slots__ = ("k", "bits", "elem", "n", "fields", "size", "offs")


class Module:
    def __init__(self, path, noinline=None, passes="default<O1>"):
        self.path = path
        self.ctx = ContextCreate()
        buf, err, mod = P(), C.c_char_p(), P()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        if ParseBC(self.ctx, buf, C.byref(mod)):
            raise RuntimeError("cannot parse " + path)
        self.m = mod
        if noinline is not None:
            kind = EnumKind(b"noinline", 8)
            attr = CreateEnumAttr(self.ctx, kind, 0)
            ai = EnumKind(b"alwaysinline", 12)
            f = FirstFn(self.m)
            while f:
                nm = name_of(f)
                if not IsDecl(f) and noinline(nm):
                    RemAttr(f, -1, ai)
                    AddAttr(f, -1, attr)
                f = NextFn(f)
        if passes:
            e = RunPasses(self.m, passes.encode(), None, PBOpts())
            if e:
                raise RuntimeError(C.string_at(ErrMsg(e)).decode())
        self.td = ModDL(self.m)
        self.funcs = {}
        self.globals = {}
        f = FirstFn(self.m)
        while f:
            self.funcs[name_of(f)] = f
            f = NextFn(f)
        g = FirstGl(self.m)
        while g:
            self.globals[name_of(g)] = g
            g = NextGl(g)
        self.aliases = {}
        a = FirstAl(self.m)
        while a:
            self.aliases[name_of(a)] = a
            a = NextAl(a)
        self._ty = {}

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        r = Type()
        r.bits = r.n = 0
        r.elem = r.fields = r.offs = None
        r.size = 0
        self._ty[t] = r
        k = TypeKind(t)
        if k == TK_INT:
            r.k = 'int'
            r.bits = IntWidth(t)
            r.size = ABISize(self.td, t)
        elif k == TK_DOUBLE:
            r.k = 'double'
            r.size = 8
        elif k == TK_FLOAT:
            r.k = 'float'
            r.size = 4
        elif k == TK_PTR:
            r.k = 'ptr'
            r.bits = 64
            r.size = 8
        elif k == TK_VOID:
            r.k = 'void'
        elif k == TK_STRUCT:
            r.k = 'struct'
            r.n = StructN(t)
            r.fields = [self.ty(StructTy(t, i)) for i in range(r.n)]
            try:
                r.size = ABISize(self.td, t)
                r.offs = [OffOf(self.td, t, i) for i in range(r.n)]
            except Exception:
                pass
        elif k == TK_ARRAY:
            r.k = 'array'
            r.n = ArrLen(t)
            r.elem = self.ty(ElemType(t))
            r.size = r.n * r.elem.size
        elif k == TK_VEC:
            r.k = 'vec'
            r.n = VecSize(t)
            r.elem = self.ty(ElemType(t))
            r.size = ABISize(self.td, t)
        else:
            r.k = 'other'
        return r

    def const_real(self, v):
        lo = C.c_int()
        return ConstReal(v, C.byref(lo))
