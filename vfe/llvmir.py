"""Load an LLVM bitcode module through the LLVM-C API (ctypes) and lower it to
plain Python tuples.  The lowering is a 1:1 rendering of the compiler's IR: no
semantic interpretation happens here."""
import ctypes, ctypes.util, struct, os

_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
          "libLLVM-18.so", "libLLVM.so.18.1"]
L = None
for _c in _cands:
    try:
        L = ctypes.CDLL(_c)
        break
    except OSError:
        pass
if L is None:
    raise RuntimeError("libLLVM-18 not found")

P = ctypes.c_void_p
U = ctypes.c_uint
S = ctypes.c_char_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", ctypes.c_int, S, ctypes.POINTER(P), ctypes.POINTER(S))
ParseIR = _f("LLVMParseIRInContext", ctypes.c_int, P, P, ctypes.POINTER(P), ctypes.POINTER(S))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
GetValueName2 = _f("LLVMGetValueName2", S, P, ctypes.POINTER(ctypes.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", ctypes.c_int, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", ctypes.c_int, P)
GetConstOpcode = _f("LLVMGetConstOpcode", ctypes.c_int, P)
NumOperands = _f("LLVMGetNumOperands", ctypes.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", ctypes.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ValueKind = _f("LLVMGetValueKind", ctypes.c_int, P)
ICmpPred = _f("LLVMGetICmpPredicate", ctypes.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", ctypes.c_int, P)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
GetSucc = _f("LLVMGetSuccessor", P, P, U)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
ConstZExt = _f("LLVMConstIntGetZExtValue", ctypes.c_ulonglong, P)
ConstReal = _f("LLVMConstRealGetDouble", ctypes.c_double, P, ctypes.POINTER(ctypes.c_int))
GetCalled = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
CalledFnType = _f("LLVMGetCalledFunctionType", P, P)
GEPSource = _f("LLVMGetGEPSourceElementType", P, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLength2 = _f("LLVMGetArrayLength2", ctypes.c_uint64, P)
VectorSize = _f("LLVMGetVectorSize", U, P)
CountStructElems = _f("LLVMCountStructElementTypes", U, P)
StructTypeAt = _f("LLVMStructGetTypeAtIndex", P, P, U)
ModuleDataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", ctypes.c_ulonglong, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", ctypes.c_ulonglong, P, P, U)
ABIAlign = _f("LLVMABIAlignmentOfType", U, P, P)
AggElem = _f("LLVMGetAggregateElement", P, P, U)
NumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", ctypes.POINTER(U), P)
NumMaskElems = _f("LLVMGetNumMaskElements", U, P)
MaskValue = _f("LLVMGetMaskValue", ctypes.c_int, P, U)
PrintValue = _f("LLVMPrintValueToString", P, P)
RMWBinOp = _f("LLVMGetAtomicRMWBinOp", ctypes.c_int, P)
IsConstant = _f("LLVMIsConstant", ctypes.c_int, P)
IsStringC = _f("LLVMIsConstantString", ctypes.c_int, P)
ReturnType = _f("LLVMGetReturnType", P, P)
GetNormalDest = _f("LLVMGetNormalDest", P, P)
CaseCount = None

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       60: 'addrspacecast', 66: 'fneg', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor'}

# type kinds
K_VOID, K_HALF, K_FLOAT, K_DOUBLE, K_X86FP80 = 0, 1, 2, 3, 4
K_INT, K_FUNC, K_STRUCT, K_ARRAY, K_PTR, K_VEC = 8, 9, 10, 11, 12, 13


class Ty:
    __slots__ = ('k', 'w', 'size', 'elems', 'offs', 'elem', 'n', 'align')
    # k: 'i','f'(double),'f32','p','s'(struct),'a'(array),'v'(vector),'void'

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.w
        if self.k in 'av':
            return '[%d x %r]' % (self.n, self.elem)
        return self.k


UNDEF = ('undef',)


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P()
        msg = S()
        if CreateMemBuf(path.encode(), ctypes.byref(buf), ctypes.byref(msg)):
            raise RuntimeError("read %s: %s" % (path, msg.value))
        m = P()
        if ParseIR(self.ctx, buf, ctypes.byref(m), ctypes.byref(msg)):
            raise RuntimeError("parse %s: %s" % (path, msg.value))
        self.m = m.value
        self.dl = ModuleDataLayout(self.m)
        self._ty = {}
        self.funcs = {}
        self.fn_by_ptr = {}
        self.decls = set()
        f = GetFirstFunction(self.m)
        while f:
            n = self.name(f)
            self.fn_by_ptr[f] = n
            if IsDeclaration(f):
                self.decls.add(n)
            else:
                self.funcs[n] = f
            f = GetNextFunction(f)
        self.globals = {}
        g = GetFirstGlobal(self.m)
        while g:
            self.globals[g] = self.name(g)
            g = GetNextGlobal(g)
        self.aliases = {}
        a = GetFirstAlias(self.m)
        while a:
            self.aliases[a] = AliasGetAliasee(a)
            t = self.aliases[a]
            if t in self.fn_by_ptr:
                self.funcs.setdefault(self.name(a), t)
            a = GetNextAlias(a)
        self._lowered = {}

    def name(self, v):
        n = ctypes.c_size_t()
        s = GetValueName2(v, ctypes.byref(n))
        return (s or b'').decode()

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        r = Ty()
        k = TypeKind(t)
        r.elem = None
        r.n = 0
        r.w = 0
        r.elems = r.offs = None
        if k == K_INT:
            r.k = 'i'
            r.w = IntWidth(t)
            r.size = (r.w + 7) // 8
        elif k == K_DOUBLE:
            r.k = 'f'
            r.size = 8
        elif k == K_FLOAT:
            r.k = 'f32'
            r.size = 4
        elif k == K_X86FP80:
            r.k = 'f80'
            r.size = 16
        elif k == K_PTR:
            r.k = 'p'
            r.w = 64
            r.size = 8
        elif k == K_STRUCT:
            r.k = 's'
            n = CountStructElems(t)
            r.elems = [self.ty(StructTypeAt(t, i)) for i in range(n)]
            try:
                r.size = ABISize(self.dl, t)
                r.offs = [OffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.size = 0
                r.offs = []
        elif k == K_ARRAY:
            r.k = 'a'
            r.n = ArrayLength2(t)
            r.elem = self.ty(ElementType(t))
            r.size = r.n * r.elem.size
            r.size = ABISize(self.dl, t)
        elif k == K_VEC:
            r.k = 'v'
            r.n = VectorSize(t)
            r.elem = self.ty(ElementType(t))
            r.size = ABISize(self.dl, t)
        elif k == K_VOID:
            r.k = 'void'
            r.size = 0
        else:
            r.k = 'other%d' % k
            r.size = 0
        self._ty[t] = r
        return r

    # ---- constants -------------------------------------------------
    def const(self, v, env):
        """env: object with global_addr(ptr) and fn_addr(name)"""
        vk = ValueKind(v)
        t = TypeOf(v)
        ty = self.ty(t)
        # LLVMValueKind enumeration
        if vk == 19 - 0 and False:
            pass
        if v in self.fn_by_ptr:
            return env.fn_addr(self.fn_by_ptr[v])
        if v in self.globals:
            return env.global_addr(v)
        if v in self.aliases:
            return self.const(self.aliases[v], env)
        kind = VK.get(vk)
        if kind == 'ConstantInt':
            if ty.w <= 64:
                return ConstZExt(v) & ((1 << ty.w) - 1)
            s = ctypes.cast(PrintValue(v), S).value.decode()
            return int(s.split()[-1]) & ((1 << ty.w) - 1)
        if kind == 'ConstantFP':
            lost = ctypes.c_int()
            return env.const_fp(ConstReal(v, ctypes.byref(lost)))
        if kind == 'ConstantPointerNull':
            return 0
        if kind in ('UndefValue', 'PoisonValue'):
            if ty.k in ('s', 'a', 'v'):
                n = len(ty.elems) if ty.k == 's' else ty.n
                return [UNDEF] * n
            return UNDEF
        if kind in ('ConstantAggregateZero',):
            return self.zero(ty, env)
        if kind in ('ConstantArray', 'ConstantStruct', 'ConstantVector', 'ConstantDataArray', 'ConstantDataVector'):
            n = len(ty.elems) if ty.k == 's' else ty.n
            return [self.const(AggElem(v, i), env) for i in range(n)]
        if kind == 'ConstantExpr':
            op = OPC.get(GetConstOpcode(v))
            if op == 'gep':
                base = self.const(GetOperand(v, 0), env)
                st = GEPSource(v)
                idx = [self.const(GetOperand(v, i), env) for i in range(1, NumOperands(v))]
                wid = [self.ty(TypeOf(GetOperand(v, i))).w for i in range(1, NumOperands(v))]
                idx = [i - (1 << w) if i >> (w - 1) else i for i, w in zip(idx, wid)]
                return (base + self.gep_const_off(st, idx)) & ((1 << 64) - 1)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                r = self.const(GetOperand(v, 0), env)
                return r
            if op in ('add', 'sub', 'trunc', 'mul'):
                a = self.const(GetOperand(v, 0), env)
                m = (1 << ty.w) - 1
                if op == 'trunc':
                    return a & m
                b = self.const(GetOperand(v, 1), env)
                return {'add': a + b, 'sub': a - b, 'mul': a * b}[op] & m
            raise NotImplementedError("constexpr %s" % op)
        raise NotImplementedError("constant kind %r (%d) %s" % (kind, vk, ctypes.cast(PrintValue(v), S).value[:200]))

    def zero(self, ty, env):
        if ty.k in ('i', 'p'):
            return 0
        if ty.k in ('f', 'f32', 'f80'):
            return env.const_fp(0.0)
        if ty.k == 's':
            return [self.zero(e, env) for e in ty.elems]
        if ty.k in ('a', 'v'):
            z = self.zero(ty.elem, env)
            return [z] * ty.n
        return UNDEF

    def gep_const_off(self, st, idx):
        t = st
        off = idx[0] * self.ty(t).size if self.ty(t).size else 0
        for i in idx[1:]:
            ty = self.ty(t)
            if ty.k == 's':
                off += ty.offs[i]
                t = StructTypeAt(t, i)
            else:
                et = ElementType(t)
                off += i * self.ty(et).size
                t = et
        return off

    # ---- functions ---------------------------------------------------
    def lower(self, name, env):
        r = self._lowered.get(name)
        if r is None:
            r = self._lowered[name] = self._lower(self.funcs[name], name, env)
        return r

    def _lower(self, f, name, env):
        slots = {}

        def slot(v):
            s = slots.get(v)
            if s is None:
                s = slots[v] = len(slots)
            return s

        def opd(v):
            """operand: int slot -> (0, slot) ; constant -> (1, value)"""
            s = slots.get(v)
            if s is not None:
                return (0, s)
            if IsConstant(v):
                return (1, self.const(v, env))
            vk = VK.get(ValueKind(v))
            if vk in ('Instruction', 'Argument'):
                return (0, slot(v))
            if vk in ('MetadataAsValue',):
                return (1, UNDEF)
            if vk == 'InlineAsm':
                return (1, ('asm',))
            raise NotImplementedError("operand kind %s" % vk)
        nparams = CountParams(f)
        params = [slot(GetParam(f, i)) for i in range(nparams)]
        ptys = [self.ty(TypeOf(GetParam(f, i))) for i in range(nparams)]
        blocks = []
        bidx = {}
        b = GetFirstBB(f)
        while b:
            bidx[b] = len(bidx)
            blocks.append(b)
            b = GetNextBB(b)
        out = []
        for b in blocks:
            ins = []
            phis = []
            i = GetFirstInst(b)
            while i:
                op = OPC.get(GetOpcode(i))
                if op is None:
                    raise NotImplementedError("opcode %d" % GetOpcode(i))
                ty = self.ty(TypeOf(i))
                nops = NumOperands(i)
                if op == 'phi':
                    d = {}
                    for k in range(CountIncoming(i)):
                        d[bidx[IncomingBlock(i, k)]] = opd(IncomingValue(i, k))
                    phis.append((slot(i), d))
                elif op == 'br':
                    if nops == 1:
                        ins.append(('jmp', bidx[GetSucc(i, 0)]))
                    else:
                        ins.append(('br', opd(GetOperand(i, 0)), bidx[GetSucc(i, 0)], bidx[GetSucc(i, 1)]))
                elif op == 'switch':
                    cases = []
                    for k in range(1, NumSucc(i)):
                        cases.append((self.const(GetOperand(i, 2 * k), env), bidx[GetSucc(i, k)]))
                    ins.append(('switch', opd(GetOperand(i, 0)), self.ty(TypeOf(GetOperand(i, 0))), bidx[GetSucc(i, 0)], cases))
                elif op == 'ret':
                    ins.append(('ret', opd(GetOperand(i, 0)) if nops else None))
                elif op in ('call', 'invoke'):
                    cv = GetCalled(i)
                    n = NumArgOps(i)
                    args = [opd(GetOperand(i, k)) for k in range(n)]
                    atys = [self.ty(TypeOf(GetOperand(i, k))) for k in range(n)]
                    if cv in self.aliases:
                        cv2 = self.aliases[cv]
                    else:
                        cv2 = cv
                    if cv2 in self.fn_by_ptr:
                        callee = self.fn_by_ptr[cv2]
                    else:
                        callee = opd(cv)
                    ins.append(('call', slot(i) if ty.k != 'void' else None, callee, args, atys, ty))
                    if op == 'invoke':
                        ins.append(('jmp', bidx[GetNormalDest(i)]))
                elif op == 'icmp':
                    ins.append(('icmp', slot(i), ICMP[ICmpPred(i)], self.ty(TypeOf(GetOperand(i, 0))), opd(GetOperand(i, 0)), opd(GetOperand(i, 1))))
                elif op == 'fcmp':
                    ins.append(('fcmp', slot(i), FCMP[FCmpPred(i)], self.ty(TypeOf(GetOperand(i, 0))), opd(GetOperand(i, 0)), opd(GetOperand(i, 1))))
                elif op == 'gep':
                    st = GEPSource(i)
                    off = 0
                    var = []
                    t = st
                    for k in range(1, nops):
                        ov = GetOperand(i, k)
                        o = opd(ov)
                        w = self.ty(TypeOf(ov)).w
                        if k == 1:
                            sc = self.ty(t).size
                        else:
                            tt = self.ty(t)
                            if tt.k == 's':
                                off += tt.offs[o[1]]
                                t = StructTypeAt(t, o[1])
                                continue
                            t = ElementType(t)
                            sc = self.ty(t).size
                        if o[0] == 1 and isinstance(o[1], int):
                            c = o[1]
                            if c >> (w - 1):
                                c -= 1 << w
                            off += c * sc
                        else:
                            var.append((o, sc, w))
                    ins.append(('gep', slot(i), opd(GetOperand(i, 0)), off, var))
                elif op == 'alloca':
                    ins.append(('alloca', slot(i), self.ty(AllocatedType(i)).size, opd(GetOperand(i, 0))))
                elif op == 'load':
                    ins.append(('load', slot(i), ty, opd(GetOperand(i, 0))))
                elif op == 'store':
                    ins.append(('store', self.ty(TypeOf(GetOperand(i, 0))), opd(GetOperand(i, 0)), opd(GetOperand(i, 1))))
                elif op in ('extractvalue', 'insertvalue'):
                    n = NumIndices(i)
                    ip = GetIndices(i)
                    idx = [ip[k] for k in range(n)]
                    if op == 'extractvalue':
                        ins.append((op, slot(i), opd(GetOperand(i, 0)), idx))
                    else:
                        ins.append((op, slot(i), opd(GetOperand(i, 0)), opd(GetOperand(i, 1)), idx))
                elif op == 'shufflevector':
                    m = [MaskValue(i, k) for k in range(NumMaskElems(i))]
                    ins.append((op, slot(i), opd(GetOperand(i, 0)), opd(GetOperand(i, 1)), m, self.ty(TypeOf(GetOperand(i, 0))).n))
                elif op == 'select':
                    ins.append((op, slot(i), ty, opd(GetOperand(i, 0)), opd(GetOperand(i, 1)), opd(GetOperand(i, 2))))
                elif op == 'unreachable':
                    ins.append((op,))
                elif op == 'atomicrmw':
                    ins.append((op, slot(i), RMW.get(RMWBinOp(i)), self.ty(TypeOf(GetOperand(i, 1))), opd(GetOperand(i, 0)), opd(GetOperand(i, 1))))
                elif op == 'cmpxchg':
                    ins.append((op, slot(i), self.ty(TypeOf(GetOperand(i, 1))), opd(GetOperand(i, 0)), opd(GetOperand(i, 1)), opd(GetOperand(i, 2))))
                elif op in ('landingpad', 'resume', 'fence'):
                    ins.append((op, slot(i)))
                else:
                    ops = [opd(GetOperand(i, k)) for k in range(nops)]
                    sty = self.ty(TypeOf(GetOperand(i, 0)))
                    ins.append((op, slot(i), ty, sty) + tuple(ops))
                i = GetNextInst(i)
            out.append((phis, ins))
        return Fn(name, params, ptys, out, slots)


class Fn:
    def __init__(self, name, params, ptys, blocks, slots):
        self.name = name
        self.params = params
        self.ptys = ptys
        self.blocks = blocks
        self.nslots = len(slots)
        self.ninst = sum(len(b[1]) + len(b[0]) for b in blocks)


# LLVMValueKind enum (LLVM 18)
_vk = ['Argument', 'BasicBlock', 'MemoryUse', 'MemoryDef', 'MemoryPhi', 'Function', 'GlobalAlias', 'GlobalIFunc',
       'GlobalVariable', 'BlockAddress', 'ConstantExpr', 'ConstantArray', 'ConstantStruct', 'ConstantVector',
       'UndefValue', 'ConstantAggregateZero', 'ConstantDataArray', 'ConstantDataVector', 'ConstantInt', 'ConstantFP',
       'ConstantPointerNull', 'ConstantTokenNone', 'MetadataAsValue', 'InlineAsm', 'Instruction', 'PoisonValue',
       'ConstantTargetNone']
VK = dict(enumerate(_vk))
