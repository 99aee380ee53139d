"""Reader for LLVM IR (LLVM-C API of the installed libLLVM-18 through ctypes).

Nothing here interprets the code: it only exposes functions, blocks, instructions,
operands and types of the module that clang produced from /repo's sources.
"""
import ctypes as C
import re
import subprocess

LIB = '/usr/lib/llvm-18/lib/libLLVM-18.so'
_l = None


def lib():
    global _l
    if _l is None:
        import glob
        path = LIB
        import os
        if not os.path.exists(path):
            c = glob.glob('/usr/lib/llvm-18/lib/libLLVM*.so*') + glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM-18.so*')
            path = c[0]
        _l = C.CDLL(path)
        P = C.c_void_p

        def d(n, res, *a):
            f = getattr(_l, n)
            f.restype = res
            f.argtypes = list(a)
        for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
                  'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetElementType', 'LLVMGetAllocatedType',
                  'LLVMGetGEPSourceElementType', 'LLVMGetCondition', 'LLVMGetCalledValue', 'LLVMGetNormalDest', 'LLVMGetUnwindDest',
                  'LLVMGetModuleDataLayout', 'LLVMGetInitializer', 'LLVMGetFirstGlobal', 'LLVMGetNextGlobal', 'LLVMGetReturnType',
                  'LLVMGlobalGetValueType', 'LLVMGetBasicBlockParent', 'LLVMGetInstructionParent', 'LLVMGetCalledFunctionType', 'LLVMValueAsBasicBlock',
                  'LLVMGetSwitchDefaultDest', 'LLVMAliasGetAliasee'):
            d(n, P, P)
        for n in ('LLVMGetOperand', 'LLVMGetIncomingValue', 'LLVMGetIncomingBlock', 'LLVMGetSuccessor', 'LLVMStructGetTypeAtIndex',
                  'LLVMGetParam', 'LLVMGetAggregateElement'):
            d(n, P, P, C.c_uint)
        for n in ('LLVMGetInstructionOpcode', 'LLVMGetNumOperands', 'LLVMGetTypeKind', 'LLVMGetIntTypeWidth', 'LLVMCountStructElementTypes',
                  'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate', 'LLVMCountIncoming', 'LLVMGetNumSuccessors', 'LLVMIsConditional',
                  'LLVMGetNumArgOperands', 'LLVMGetNumIndices', 'LLVMGetValueKind', 'LLVMGetConstOpcode', 'LLVMIsDeclaration',
                  'LLVMIsGlobalConstant', 'LLVMGetDebugLocLine', 'LLVMGetNUW', 'LLVMGetNSW', 'LLVMGetExact', 'LLVMCountParams', 'LLVMCountBasicBlocks', 'LLVMGetVectorSize',
                  'LLVMIsConstantString'):
            d(n, C.c_uint, P)
        d('LLVMGetArrayLength2', C.c_uint64, P)
        d('LLVMGetStructName', C.c_char_p, P)
        d('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
        d('LLVMConstIntGetZExtValue', C.c_uint64, P)
        d('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
        d('LLVMABISizeOfType', C.c_ulonglong, P, P)
        d('LLVMABIAlignmentOfType', C.c_uint, P, P)
        d('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
        d('LLVMGetIndices', C.POINTER(C.c_uint), P)
        d('LLVMPrintValueToString', P, P)
        d('LLVMPrintTypeToString', P, P)
        d('LLVMDisposeMessage', None, P)
        d('LLVMContextCreate', P)
        d('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(P))
        d('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(P))
        d('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
        d('LLVMGetTypeByName2', P, P, C.c_char_p)
    return _l


def _str(p):
    s = C.string_at(p).decode('utf8', 'replace')
    lib().LLVMDisposeMessage(p)
    return s


OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul',
       14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 66: 'fneg', 68: 'freeze', 4: 'indirectbr', 60: 'addrspacecast'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']


class Type:
    __slots__ = ('kind', 'width', 'name', 'elems', 'offsets', 'size', 'align', 'elem', 'count', 'h', 's')

    def __repr__(self):
        return self.s


class Operand:
    """kind: inst, arg, int, null, undef, zero, fp, global, func, cexpr, block, agg, str, meta, asm"""
    __slots__ = ('kind', 'v', 'ty', 'ops', 'src')

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.v)


class Inst:
    __slots__ = ('op', 'h', 'ty', 'ops', 'name', 'line', 'src', 'pred', 'inc', 'succ', 'callee', 'args', 'idx', 'flags', 'cases', 'block', 'fty')


class Block:
    __slots__ = ('name', 'insts', 'fn', 'index', 'h', 'phis')

    def succs(self):
        t = self.insts[-1]
        return t.succ or []


class Func:
    def __init__(self, mod, h, name):
        self.mod, self.h, self.name = mod, h, name
        self.decl = bool(lib().LLVMIsDeclaration(h))
        self._blocks = None
        self._loops = None

    @property
    def dem(self):
        return self.mod.dem(self.name)

    @property
    def params(self):
        n = lib().LLVMCountParams(self.h)
        return [lib().LLVMGetParam(self.h, i) for i in range(n)]

    def param_types(self):
        return [self.mod.type(lib().LLVMTypeOf(p)) for p in self.params]

    def param_names(self):
        return [self.mod.vname(p) for p in self.params]

    @property
    def blocks(self):
        if self._blocks is None:
            self._load()
        return self._blocks

    def _load(self):
        L = lib()
        m = self.mod
        bl = []
        bm = {}
        b = L.LLVMGetFirstBasicBlock(self.h)
        while b:
            B = Block()
            B.h, B.fn, B.index, B.insts = b, self, len(bl), []
            bm[b] = B
            bl.append(B)
            b = L.LLVMGetNextBasicBlock(b)
        self._pidx = {p: i for i, p in enumerate(self.params)}
        for B in bl:
            i = L.LLVMGetFirstInstruction(B.h)
            while i:
                I = m._inst(i, bm, self)
                I.block = B
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(i)
            B.phis = [x for x in B.insts if x.op == 'phi']
            B.name = 'b%d' % B.index
        self._blocks = bl

    def loops(self):
        """natural loops: list of dict(header, body:set(index)); ordered by header index"""
        if self._loops is not None:
            return self._loops
        bl = self.blocks
        n = len(bl)
        succ = [[s.index for s in b.succs()] for b in bl]
        # reachability + dominators (iterative)
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl += pred[x]
        self._loops = [dict(header=h, body=loops[h], index=k) for k, h in enumerate(sorted(loops, key=lambda x: num[x]))]
        return self._loops


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf, msg, mod = C.c_void_p(), C.c_void_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(_str(msg))
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(_str(msg))
        self.h = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self._types = {}
        self.funcs = {}
        self.byh = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            F = Func(self, f, self.vname(f))
            self.funcs[F.name] = F
            self.byh[f] = F
            f = L.LLVMGetNextFunction(f)
        self.globals = {}
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.globals[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        names = list(self.funcs)
        r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
        self._dem = dict(zip(names, r.stdout.split('\n')))

    def dem(self, n):
        return self._dem.get(n, n)

    def vname(self, v):
        n = C.c_size_t()
        p = lib().LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode('utf8', 'replace')

    def find(self, pat, defined=True, unique=True):
        r = [f for f in self.funcs.values() if (not defined or not f.decl) and re.search(pat, f.dem)]
        if unique:
            if len(r) != 1:
                raise LookupError('function pattern %r matches %s' % (pat, [x.dem for x in r][:8]))
            return r[0]
        return r

    def type(self, h):
        t = self._types.get(h)
        if t is not None:
            return t
        L = lib()
        t = Type()
        self._types[h] = t
        k = L.LLVMGetTypeKind(h)
        t.h = h
        t.name = t.elems = t.offsets = t.elem = t.count = t.width = None
        t.size = t.align = 0
        t.s = _str(L.LLVMPrintTypeToString(h)) if k != 10 else ''
        if k == 0:
            t.kind = 'void'
        elif k == 8:
            t.kind, t.width = 'int', L.LLVMGetIntTypeWidth(h)
        elif k in (2, 3, 4, 5):
            t.kind = {2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128'}[k]
        elif k == 12:
            t.kind = 'ptr'
        elif k == 10:
            t.kind = 'struct'
            nm = L.LLVMGetStructName(h)
            t.name = nm.decode() if nm else None
            n = L.LLVMCountStructElementTypes(h)
            t.elems = [self.type(L.LLVMStructGetTypeAtIndex(h, i)) for i in range(n)]
            try:
                t.offsets = [L.LLVMOffsetOfElement(self.dl, h, i) for i in range(n)]
            except Exception:
                t.offsets = []
            t.s = t.name or '{' + ','.join(e.s for e in t.elems) + '}'
        elif k == 11:
            t.kind, t.elem, t.count = 'array', self.type(L.LLVMGetElementType(h)), L.LLVMGetArrayLength2(h)
        elif k == 13:
            t.kind, t.elem, t.count = 'vector', self.type(L.LLVMGetElementType(h)), L.LLVMGetVectorSize(h)
        elif k == 9:
            t.kind = 'func'
        else:
            t.kind = 'other%d' % k
        if t.kind in ('int', 'float', 'double', 'ptr', 'struct', 'array', 'vector', 'x86_fp80'):
            if not (t.kind == 'struct' and t.name and not t.elems and False):
                t.size = L.LLVMABISizeOfType(self.dl, h)
                t.align = L.LLVMABIAlignmentOfType(self.dl, h)
        return t

    def struct(self, name):
        L = lib()
        h = L.LLVMGetTypeByName2(self.ctx, name.encode())
        return self.type(h) if h else None

    def const_int_global(self, name):
        g = self.globals[name]
        v = lib().LLVMGetInitializer(g)
        return lib().LLVMConstIntGetZExtValue(v)

    # -- operands
    def _operand(self, v, bm, fn):
        L = lib()
        o = Operand()
        o.ops = o.src = None
        k = L.LLVMGetValueKind(v)
        if k == 1:
            o.kind, o.v, o.ty = 'block', bm[L.LLVMValueAsBasicBlock(v)], None
            return o
        if k == 22:
            o.kind, o.v, o.ty = 'meta', None, None
            return o
        o.ty = self.type(L.LLVMTypeOf(v))
        if k == 24:
            o.kind, o.v = 'inst', v
        elif k == 0:
            o.kind, o.v = 'arg', fn._pidx[v]
        elif k == 18:
            o.kind = 'int'
            if o.ty.width <= 64:
                o.v = L.LLVMConstIntGetZExtValue(v)
            else:
                o.v = int(_str(L.LLVMPrintValueToString(v)).split()[-1]) % (1 << o.ty.width)
        elif k == 20:
            o.kind, o.v = 'null', 0
        elif k in (14, 25):
            o.kind, o.v = 'undef', None
        elif k == 15:
            o.kind, o.v = 'zero', None
        elif k == 19:
            li = C.c_int()
            o.kind, o.v = 'fp', L.LLVMConstRealGetDouble(v, C.byref(li))
        elif k == 5:
            o.kind, o.v = 'func', self.byh[v]
        elif k == 8:
            o.kind, o.v = 'global', self.vname(v)
        elif k == 6:
            return self._operand(L.LLVMAliasGetAliasee(v), bm, fn)
        elif k == 10:
            o.kind = 'cexpr'
            o.v = OPC.get(L.LLVMGetConstOpcode(v), '?')
            o.ops = [self._operand(L.LLVMGetOperand(v, i), bm, fn) for i in range(L.LLVMGetNumOperands(v))]
            if o.v == 'gep':
                o.src = self.type(L.LLVMGetGEPSourceElementType(v))
        elif k in (11, 12, 13):
            o.kind = 'agg'
            o.v = None
            o.ops = [self._operand(L.LLVMGetOperand(v, i), bm, fn) for i in range(L.LLVMGetNumOperands(v))]
        elif k in (16, 17):
            o.kind = 'agg'
            o.v = None
            o.ops = [self._operand(L.LLVMGetAggregateElement(v, i), bm, fn) for i in range(min(o.ty.count, 4096))]
        elif k == 23:
            o.kind, o.v = 'asm', None
        else:
            o.kind, o.v = 'other', k
        return o

    def _inst(self, i, bm, fn):
        L = lib()
        I = Inst()
        I.h = i
        I.op = OPC.get(L.LLVMGetInstructionOpcode(i), '?')
        I.ty = self.type(L.LLVMTypeOf(i))
        I.name = self.vname(i)
        I.line = 0
        I.src = I.pred = I.inc = I.succ = I.callee = I.args = I.idx = I.cases = I.fty = None
        I.flags = 0
        n = L.LLVMGetNumOperands(i)
        op = I.op
        if op == 'phi':
            I.inc = {}
            for k in range(L.LLVMCountIncoming(i)):
                I.inc[bm[L.LLVMGetIncomingBlock(i, k)].index] = self._operand(L.LLVMGetIncomingValue(i, k), bm, fn)
            I.ops = []
            return I
        if op == 'br':
            I.ops = []
            if L.LLVMIsConditional(i):
                I.ops = [self._operand(L.LLVMGetCondition(i), bm, fn)]
            I.succ = [bm[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
            return I
        if op == 'switch':
            raw = [self._operand(L.LLVMGetOperand(i, k), bm, fn) for k in range(n)]
            I.ops = [raw[0]]
            I.cases = [(raw[k].v, raw[k + 1].v) for k in range(2, n, 2)]
            I.succ = [raw[1].v] + [c[1] for c in I.cases]
            return I
        if op in ('call', 'invoke'):
            I.callee = self._operand(L.LLVMGetCalledValue(i), bm, fn)
            na = L.LLVMGetNumArgOperands(i)
            I.args = [self._operand(L.LLVMGetOperand(i, k), bm, fn) for k in range(na)]
            I.ops = I.args
            if op == 'invoke':
                I.succ = [bm[L.LLVMGetNormalDest(i)], bm[L.LLVMGetUnwindDest(i)]]
            return I
        I.ops = [self._operand(L.LLVMGetOperand(i, k), bm, fn) for k in range(n)] if op not in ('landingpad',) else []
        if op == 'alloca':
            I.src = self.type(L.LLVMGetAllocatedType(i))
        elif op == 'gep':
            I.src = self.type(L.LLVMGetGEPSourceElementType(i))
        elif op == 'icmp':
            I.pred = ICMP[L.LLVMGetICmpPredicate(i)]
        elif op == 'fcmp':
            I.pred = FCMP[L.LLVMGetFCmpPredicate(i)]
        elif op in ('extractvalue', 'insertvalue'):
            p = L.LLVMGetIndices(i)
            I.idx = [p[k] for k in range(L.LLVMGetNumIndices(i))]
        elif op in ('add', 'sub', 'mul', 'shl'):
            I.flags = (1 if L.LLVMGetNUW(i) else 0) | (2 if L.LLVMGetNSW(i) else 0)
        elif op in ('sdiv', 'udiv', 'ashr', 'lshr'):
            I.flags = 4 if L.LLVMGetExact(i) else 0
        return I
