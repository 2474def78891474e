"""Load LLVM IR through the LLVM-C API (libLLVM 20, ctypes) into plain Python structures.

Nothing is interpreted here: every instruction of every defined function is translated one to
one.  What is dropped: debug info, metadata (tbaa, loop hints), fast-math flags, alignment
attributes, and the poison-generating flags nsw/nuw/exact/inbounds (see DESIGN.md).
"""
import ctypes as C
import sys

_lib = None


def lib():
    global _lib
    if _lib is not None:
        return _lib
    for name in ("libLLVM.so.20.1", "libLLVM-20.so", "libLLVM-20.so.1",
                 "/usr/lib/llvm-20/lib/libLLVM.so.1", "/usr/lib/llvm-20/lib/libLLVM.so"):
        try:
            _lib = C.CDLL(name)
            break
        except OSError:
            continue
    if _lib is None:
        raise RuntimeError("libLLVM 20 not found")
    P = C.c_void_p
    for fn in ("LLVMContextCreate", "LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock",
               "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMGetOperand",
               "LLVMTypeOf", "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetInitializer", "LLVMGetElementType",
               "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGlobalGetValueType", "LLVMGetIncomingValue",
               "LLVMGetIncomingBlock", "LLVMGetCalledValue", "LLVMGetCalledFunctionType", "LLVMGetModuleDataLayout",
               "LLVMStructGetTypeAtIndex", "LLVMGetSuccessor", "LLVMGetCondition", "LLVMGetSwitchDefaultDest",
               "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetParam", "LLVMGetReturnType", "LLVMGetIndices",
               "LLVMGetClause", "LLVMAliasGetAliasee", "LLVMGetAggregateElement", "LLVMGetFirstGlobalAlias",
               "LLVMGetNextGlobalAlias", "LLVMGetCallSiteEnumAttribute", "LLVMGetTypeAttributeValue",
               "LLVMGetEnumAttributeAtIndex", "LLVMValueAsBasicBlock", "LLVMGetAllocatedType", "LLVMGetNumArgOperands"):
        f = getattr(_lib, fn)
        f.restype = P
    _lib.LLVMGetNumArgOperands.restype = C.c_uint
    _lib.LLVMGetValueName2.restype = C.c_char_p
    _lib.LLVMPrintValueToString.restype = C.c_void_p
    _lib.LLVMPrintTypeToString.restype = C.c_void_p
    _lib.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
    _lib.LLVMABISizeOfType.restype = C.c_ulonglong
    _lib.LLVMStoreSizeOfType.restype = C.c_ulonglong
    _lib.LLVMOffsetOfElement.restype = C.c_ulonglong
    _lib.LLVMGetArrayLength2.restype = C.c_ulonglong
    _lib.LLVMConstRealGetDouble.restype = C.c_double
    _lib.LLVMGetAsString.restype = C.c_void_p
    _lib.LLVMGetDebugLocFilename.restype = C.c_void_p
    _lib.LLVMGetDebugLocDirectory.restype = C.c_void_p
    _lib.LLVMGetDebugLocLine.restype = C.c_uint
    return _lib


# opcodes (llvm-c/Core.h)
OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
# LLVMTypeKind
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'func',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Type:
    __slots__ = ('kind', 'width', 'size', 'store', 'elems', 'offs', 'n', 'name')

    def __repr__(self):
        return self.name


class Instr:
    __slots__ = ('op', 'ty', 'dst', 'ops', 'x', '_text', 'fn', 'blk', 'idx', 'key', 'v', 'mod')

    @property
    def text(self):
        if self._text is None:
            self._text = self.mod.vtext(self.v).strip()
        return self._text

    def loc(self):
        return self.mod.loc(self.v)

    def __repr__(self):
        return self.text


class Func:
    __slots__ = ('name', 'params', 'blocks', 'ret', 'module', 'nregs', 'dem', 'byval', 'loops', 'preds')


class Glob:
    __slots__ = ('name', 'ty', 'init', 'const', 'external')


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        self.ctx = C.c_void_p(L.LLVMContextCreate())
        buf = C.c_void_p()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.mod = mod
        self.td = C.c_void_p(L.LLVMGetModuleDataLayout(mod))
        self._types = {}
        self.funcs = {}
        self.decls = {}
        self._lazy = {}
        self.globals = {}
        self.aliases = {}
        self._byval_kind = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        f = L.LLVMGetFirstFunction(mod)
        while f:
            name = self.vname(f)
            if L.LLVMCountBasicBlocks(C.c_void_p(f)):
                self._lazy[name] = f
            else:
                self.decls[name] = f
            f = L.LLVMGetNextFunction(C.c_void_p(f))
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            o = Glob()
            o.name = self.vname(g)
            o.ty = self.type(L.LLVMGlobalGetValueType(C.c_void_p(g)))
            o.const = bool(L.LLVMIsGlobalConstant(C.c_void_p(g)))
            o.init = L.LLVMGetInitializer(C.c_void_p(g))
            o.external = not o.init
            self.globals[o.name] = o
            g = L.LLVMGetNextGlobal(C.c_void_p(g))
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            self.aliases[self.vname(a)] = L.LLVMAliasGetAliasee(C.c_void_p(a))
            a = L.LLVMGetNextGlobalAlias(C.c_void_p(a))

    # -- helpers
    def vname(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(C.c_void_p(v), C.byref(n))
        return p.decode('utf-8', 'replace') if p else ''

    def vtext(self, v):
        p = self.L.LLVMPrintValueToString(C.c_void_p(v))
        s = C.string_at(p).decode('utf-8', 'replace')
        self.L.LLVMDisposeMessage(C.c_void_p(p))
        return s

    def loc(self, v):
        n = C.c_uint()
        p = self.L.LLVMGetDebugLocFilename(C.c_void_p(v), C.byref(n))
        if not p:
            return None
        f = C.string_at(p, n.value).decode('utf-8', 'replace')
        n2 = C.c_uint()
        d = self.L.LLVMGetDebugLocDirectory(C.c_void_p(v), C.byref(n2))
        if d and not f.startswith('/'):
            f = C.string_at(d, n2.value).decode('utf-8', 'replace') + '/' + f
        return f, self.L.LLVMGetDebugLocLine(C.c_void_p(v))

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        L = self.L
        r = Type()
        self._types[t] = r
        tp = C.c_void_p(t)
        k = TK.get(L.LLVMGetTypeKind(tp), 'other')
        r.kind = k
        r.width = r.size = r.store = r.n = 0
        r.elems = r.offs = None
        if k == 'int':
            r.width = L.LLVMGetIntTypeWidth(tp)
        elif k == 'ptr':
            r.width = 64
        elif k == 'float':
            r.width = 32
        elif k == 'double':
            r.width = 64
        elif k == 'x86_fp80':
            r.width = 80
        elif k == 'fp128':
            r.width = 128
        if k not in ('void', 'label', 'func', 'metadata', 'token', 'other'):
            if not (k == 'struct' and L.LLVMIsOpaqueStruct(tp)):
                r.size = L.LLVMABISizeOfType(self.td, tp)
                r.store = L.LLVMStoreSizeOfType(self.td, tp)
        if k == 'struct' and not L.LLVMIsOpaqueStruct(tp):
            n = L.LLVMCountStructElementTypes(tp)
            r.elems = [self.type(L.LLVMStructGetTypeAtIndex(tp, i)) for i in range(n)]
            r.offs = [L.LLVMOffsetOfElement(self.td, tp, i) for i in range(n)]
            r.n = n
        elif k == 'array':
            e = self.type(L.LLVMGetElementType(tp))
            r.n = L.LLVMGetArrayLength2(tp)
            r.elems = e
        elif k == 'vector':
            e = self.type(L.LLVMGetElementType(tp))
            r.n = L.LLVMGetVectorSize(tp)
            r.elems = e
        p = L.LLVMPrintTypeToString(tp)
        r.name = C.string_at(p).decode()
        L.LLVMDisposeMessage(C.c_void_p(p))
        return r

    def tyof(self, v):
        return self.type(self.L.LLVMTypeOf(C.c_void_p(v)))

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            v = self._lazy.get(name)
            if v is None:
                return None
            f = self._load(name, v)
            self.funcs[name] = f
        return f

    # constants -> ('i',value,width) ('p',globalname,off) ('null',) ('undef',ty) ('agg',[...]) ('fn',name) ('zero',ty)
    def const(self, v):
        L = self.L
        vp = C.c_void_p(v)
        ty = self.tyof(v)
        if L.LLVMIsAConstantInt(vp):
            if ty.width <= 64:
                return ('i', L.LLVMConstIntGetZExtValue(vp) & ((1 << ty.width) - 1), ty)
            s = self.vtext(v).split()[-1]
            return ('i', int(s) & ((1 << ty.width) - 1), ty)
        if L.LLVMIsAConstantPointerNull(vp):
            return ('null',)
        if L.LLVMIsAPoisonValue(vp) or L.LLVMIsAUndefValue(vp):
            return ('undef', ty)
        if L.LLVMIsAConstantFP(vp):
            import struct
            li = C.c_int()
            d = L.LLVMConstRealGetDouble(vp, C.byref(li))
            if ty.kind == 'float':
                return ('i', struct.unpack('<I', struct.pack('<f', d))[0], ty)
            if ty.kind == 'double':
                return ('i', struct.unpack('<Q', struct.pack('<d', d))[0], ty)
            raise NotImplementedError("fp const " + ty.name)
        if L.LLVMIsAConstantAggregateZero(vp):
            return ('zero', ty)
        if L.LLVMIsAGlobalAlias(vp):
            return self.const(L.LLVMAliasGetAliasee(vp))
        if L.LLVMIsAFunction(vp):
            return ('fn', self.vname(v))
        if L.LLVMIsAGlobalVariable(vp):
            return ('p', self.vname(v), 0)
        if L.LLVMIsAConstantDataArray(vp) or L.LLVMIsAConstantDataVector(vp) or L.LLVMIsAConstantArray(vp) \
                or L.LLVMIsAConstantStruct(vp) or L.LLVMIsAConstantVector(vp):
            return ('agg', [self.const(L.LLVMGetAggregateElement(vp, i)) for i in range(ty.n)], ty)
        if L.LLVMIsAConstantExpr(vp):
            op = OPC.get(L.LLVMGetConstOpcode(vp))
            if op == 'gep':
                base = self.const(L.LLVMGetOperand(vp, 0))
                coff, var = self._gep(v)
                if var:
                    raise NotImplementedError("variable const gep")
                if base[0] == 'p':
                    return ('p', base[1], base[2] + coff)
                if base[0] == 'null':
                    return ('i', coff & ((1 << 64) - 1), ty)
                if base[0] == 'fn':
                    return base
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.const(L.LLVMGetOperand(vp, 0))
            if op in ('sub', 'add', 'trunc'):
                return ('cexpr', op, [self.const(L.LLVMGetOperand(vp, i)) for i in range(L.LLVMGetNumOperands(vp))], ty)
        return ('unsupported', self.vtext(v))

    def _gep(self, v):
        L = self.L
        vp = C.c_void_p(v)
        ty = self.type(L.LLVMGetGEPSourceElementType(vp))
        n = L.LLVMGetNumOperands(vp)
        coff = 0
        var = []
        cur = ty
        for i in range(1, n):
            idx = L.LLVMGetOperand(vp, i)
            isc = L.LLVMIsAConstantInt(C.c_void_p(idx))
            if i == 1:
                scale = cur.size
            elif cur.kind == 'struct':
                k = L.LLVMConstIntGetZExtValue(C.c_void_p(idx))
                coff += cur.offs[k]
                cur = cur.elems[k]
                continue
            else:
                cur = cur.elems
                scale = cur.size
            if isc:
                ity = self.tyof(idx)
                k = L.LLVMConstIntGetZExtValue(C.c_void_p(idx)) & ((1 << ity.width) - 1)
                if k >> (ity.width - 1):
                    k -= 1 << ity.width
                coff += k * scale
            else:
                var.append((idx, scale))
        return coff, var

    def _load(self, name, fv):
        L = self.L
        fp = C.c_void_p(fv)
        F = Func()
        F.name = name
        F.dem = None
        F.loops = None
        F.preds = None
        regs = {}

        def reg(v):
            r = regs.get(v)
            if r is None:
                r = len(regs)
                regs[v] = r
            return r

        nparam = L.LLVMCountParams(fp)
        F.params = []
        F.byval = {}
        for i in range(nparam):
            p = L.LLVMGetParam(fp, i)
            F.params.append((reg(p), self.tyof(p)))
            a = L.LLVMGetEnumAttributeAtIndex(fp, i + 1, self._byval_kind)
            if a:
                F.byval[i] = self.type(L.LLVMGetTypeAttributeValue(C.c_void_p(a))).size
        blocks = {}
        order = []
        b = L.LLVMGetFirstBasicBlock(fp)
        while b:
            blocks[b] = len(order)
            order.append(b)
            b = L.LLVMGetNextBasicBlock(C.c_void_p(b))

        def operand(v):
            vp = C.c_void_p(v)
            if L.LLVMIsAInstruction(vp) or L.LLVMIsAArgument(vp):
                return ('r', reg(v))
            if L.LLVMIsConstant(vp):
                return self.const(v)
            return ('meta',)

        F.blocks = []
        for bi, b in enumerate(order):
            ins = []
            v = L.LLVMGetFirstInstruction(C.c_void_p(b))
            while v:
                vp = C.c_void_p(v)
                I = Instr()
                I.op = OPC.get(L.LLVMGetInstructionOpcode(vp))
                I.ty = self.tyof(v)
                I.dst = reg(v) if I.ty.kind != 'void' else None
                I.fn = name
                I.blk = bi
                I.idx = len(ins)
                I._text = None
                I.v = v
                I.mod = self
                I.x = None
                op = I.op
                nop = L.LLVMGetNumOperands(vp)
                gops = lambda: [operand(L.LLVMGetOperand(vp, i)) for i in range(nop)]
                if op == 'phi':
                    n = L.LLVMCountIncoming(vp)
                    I.ops = None
                    I.x = {blocks[L.LLVMGetIncomingBlock(vp, i)]: operand(L.LLVMGetIncomingValue(vp, i)) for i in range(n)}
                elif op == 'br':
                    ns = L.LLVMGetNumSuccessors(vp)
                    if L.LLVMIsConditional(vp):
                        I.ops = [operand(L.LLVMGetCondition(vp))]
                        I.x = (blocks[L.LLVMGetSuccessor(vp, 0)], blocks[L.LLVMGetSuccessor(vp, 1)])
                    else:
                        I.ops = []
                        I.x = (blocks[L.LLVMGetSuccessor(vp, 0)],)
                elif op == 'switch':
                    I.ops = [operand(L.LLVMGetOperand(vp, 0))]
                    cases = []
                    ns = L.LLVMGetNumSuccessors(vp)
                    for i in range(1, ns):
                        cv = L.LLVMGetOperand(vp, 2 * i)
                        cases.append((self.const(cv)[1], blocks[L.LLVMGetSuccessor(vp, i)]))
                    I.x = (blocks[L.LLVMGetSuccessor(vp, 0)], cases, self.tyof(L.LLVMGetOperand(vp, 0)))
                elif op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(vp)
                    I.ops = [operand(L.LLVMGetOperand(vp, i)) for i in range(na)]
                    cal = L.LLVMGetCalledValue(vp)
                    if L.LLVMIsAInlineAsm(C.c_void_p(cal)):
                        c = ('asm',)
                    else:
                        c = operand(cal)
                    nd = ud = None
                    if op == 'invoke':
                        nd = blocks[L.LLVMGetNormalDest(vp)]
                        ud = blocks[L.LLVMGetUnwindDest(vp)]
                    bv = {}
                    for i in range(na):
                        a = L.LLVMGetCallSiteEnumAttribute(vp, i + 1, self._byval_kind)
                        if a:
                            bv[i] = self.type(L.LLVMGetTypeAttributeValue(C.c_void_p(a))).size
                    I.x = (c, nd, ud, bv, [self.tyof(L.LLVMGetOperand(vp, i)) for i in range(na)])
                elif op == 'gep':
                    coff, var = self._gep(v)
                    I.ops = [operand(L.LLVMGetOperand(vp, 0))]
                    I.x = (coff, [(operand(i), s, self.tyof(i).width) for i, s in var])
                elif op == 'alloca':
                    I.ops = gops()
                    I.x = self.type(L.LLVMGetAllocatedType(vp))
                elif op == 'icmp':
                    I.ops = gops()
                    I.x = (ICMP[L.LLVMGetICmpPredicate(vp)], self.tyof(L.LLVMGetOperand(vp, 0)))
                elif op == 'fcmp':
                    I.ops = gops()
                    I.x = (FCMP[L.LLVMGetFCmpPredicate(vp)], self.tyof(L.LLVMGetOperand(vp, 0)))
                elif op in ('extractvalue', 'insertvalue'):
                    I.ops = gops()
                    n = L.LLVMGetNumIndices(vp)
                    arr = C.cast(C.c_void_p(L.LLVMGetIndices(vp)), C.POINTER(C.c_uint))
                    I.x = [arr[i] for i in range(n)]
                elif op == 'landingpad':
                    I.ops = []
                    n = L.LLVMGetNumClauses(vp)
                    I.x = ([self.const(L.LLVMGetClause(vp, i)) for i in range(n)], bool(L.LLVMIsCleanup(vp)))
                elif op == 'shufflevector':
                    I.ops = gops()
                    n = L.LLVMGetNumMaskElements(vp)
                    I.x = [L.LLVMGetMaskValue(vp, i) for i in range(n)]
                else:
                    I.ops = gops()
                    if op in ('store', 'ptrtoint', 'trunc', 'zext', 'sext', 'inttoptr', 'bitcast', 'select',
                              'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'freeze', 'extractelement', 'atomicrmw', 'cmpxchg'):
                        I.x = self.tyof(L.LLVMGetOperand(vp, 1 if op in('atomicrmw','cmpxchg') else 0))
                    if op == 'atomicrmw':
                        I.x = (I.x, L.LLVMGetAtomicRMWBinOp(vp))
                ins.append(I)
                v = L.LLVMGetNextInstruction(vp)
            F.blocks.append(ins)
        F.nregs = len(regs)
        return F
