"""Reader for LLVM bitcode (libLLVM-18 C API through ctypes).

The bitcode is produced by clang from /repo's current sources on every run
(see build.py); this module turns it into plain Python objects, lazily, one
function at a time.
"""
import ctypes as C
import re
import subprocess

_L = None


def _lib():
    global _L
    if _L is None:
        for n in ("libLLVM-18.so.1", "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so",
                  "libLLVM.so.18.1"):
            try:
                _L = C.CDLL(n)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError("libLLVM-18 not found")
    return _L


def F(name, res=C.c_void_p, *args):
    f = getattr(_lib(), name)
    f.restype = res
    f.argtypes = list(args) if args else None
    return f


P = C.c_void_p
_fn = {}


def call(name, res, *args):
    key = name
    f = _fn.get(key)
    if f is None:
        f = getattr(_lib(), name)
        f.restype = res
        _fn[key] = f
    return f(*[P(a) if isinstance(a, int) and not isinstance(a, bool) and a > 0xffffffff else a
               for a in args])


class U(C.c_uint):
    pass


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and',
       24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc',
       31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 47: 'userop1', 48: 'userop2',
       49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge',
        40: 'slt', 41: 'sle'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 7: 'label', 8: 'int',
      9: 'function', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
# LLVMTypeKind: Void 0, Half 1, Float 2, Double 3, X86_FP80 4, FP128 5, PPC 6, Label 7, Integer 8,
# Function 9, Struct 10, Array 11, Pointer 12, Vector 13, Metadata 14


class Ty:
    __slots__ = ('kind', 'bits', 'name', 'elems', 'elem', 'n', 'size', 'offs', 'ref')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        if self.kind == 'struct':
            return '%' + (self.name or '{' + ','.join(map(repr, self.elems)) + '}')
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        return self.kind


class V:
    """operand: kind in const/inst/arg/global/func/null/undef/block/expr/agg/poison"""
    __slots__ = ('kind', 'ty', 'val', 'name', 'ops', 'op', 'x')

    def __init__(self, kind, ty=None, val=None, name=None):
        self.kind, self.ty, self.val, self.name = kind, ty, val, name
        self.ops = self.op = self.x = None

    def __repr__(self):
        return '%s:%s' % (self.kind, self.name if self.name is not None else self.val)


class Inst:
    __slots__ = ('op', 'ty', 'name', 'ops', 'x', 'block', 'id', 'srcty', 'line')

    def __repr__(self):
        return '%%%s = %s %s %s' % (self.name, self.op, self.ops, self.x)


class Block:
    __slots__ = ('name', 'insts', 'id', 'succs', 'preds', 'fn')

    def __repr__(self):
        return '<%s>' % self.name


class Fn:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self._loaded = False
        self._blocks = None
        self.isdecl = bool(call('LLVMIsDeclaration', C.c_int, ref))

    @property
    def dem(self):
        return self.mod.demangle(self.name)

    @property
    def blocks(self):
        if self._blocks is None:
            self.mod._load(self)
        return self._blocks

    @property
    def args(self):
        self.blocks if not self.isdecl else None
        if not hasattr(self, '_args'):
            self.mod._args(self)
        return self._args

    def __repr__(self):
        return '<fn %s>' % self.name


class Module:
    def __init__(self, path):
        self.ctx = call('LLVMContextCreate', P)
        buf, msg = P(), C.c_char_p()
        if call('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, path.encode(), C.byref(buf),
                C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if call('LLVMParseIRInContext', C.c_int, self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m.value
        self.dl = call('LLVMGetModuleDataLayout', P, self.m)
        self.fns = {}
        self.tys = {}
        self._dem = {}
        f = call('LLVMGetFirstFunction', P, self.m)
        while f:
            n = self._name(f)
            self.fns[n] = Fn(self, f, n)
            f = call('LLVMGetNextFunction', P, f)
        self._byaddr = {fn.ref: fn for fn in self.fns.values()}
        self._demangle_all()
        self._globals = {}

    def _name(self, v):
        ln = C.c_size_t()
        r = call('LLVMGetValueName2', C.c_char_p, v, C.byref(ln))
        return r[:ln.value].decode() if r else ''

    def _demangle_all(self):
        names = [n for n in self.fns if n.startswith('_Z')]
        out = subprocess.run(['llvm-cxxfilt'] if _which('llvm-cxxfilt') else ['c++filt'],
                             input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            d = d.replace('(scl::details::NamedField)1', 'M61').replace('(scl::details::NamedField)2', 'M127')
            d = d.replace('scl::details::FiniteField<M61>', 'M61').replace('scl::details::FiniteField<M127>', 'M127')
            d = d.replace('scl::details::FF<61u, M61>', 'FF61').replace('scl::details::FF<127u, M127>', 'FF127')
            d = re.sub(r'\[abi:\w+\]', '', d)
            p = None
            while p != d:
                p = d
                d = re.sub(r', std::allocator<([^<>]|<([^<>]|<([^<>]|<[^<>]*>)*>)*>)*>\s*>', '>', d)
            d = d.replace('> >', '>>').replace('> >', '>>')
            self._dem[n] = d
        self.bydem = {}
        for n in names:
            self.bydem.setdefault(self._dem[n], []).append(self.fns[n])

    def vtables(self):
        """class name -> vtable initialiser"""
        if not hasattr(self, '_vt'):
            names, self._vt = [], {}
            g = call('LLVMGetFirstGlobal', P, self.m)
            while g:
                n = self._name(g)
                if n.startswith('_ZTVN2tp') or n.startswith('_ZTVN3scl'):
                    names.append((n, g))
                g = call('LLVMGetNextGlobal', P, g)
            out = subprocess.run(['llvm-cxxfilt'] if _which('llvm-cxxfilt') else ['c++filt'],
                                 input='\n'.join(n for n, _ in names), capture_output=True, text=True).stdout.split('\n')
            for (n, g), d in zip(names, out):
                i = self.global_init(g) if call('LLVMGetInitializer', P, g) else None
                if i is not None:
                    self._vt[d.replace('vtable for ', '')] = i
        return self._vt

    def demangle(self, n):
        return self._dem.get(n, n)

    # types
    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        r = Ty()
        self.tys[t] = r
        k = call('LLVMGetTypeKind', C.c_int, t)
        r.kind = TK.get(k, 'k%d' % k)
        r.bits = r.name = r.elems = r.elem = r.n = r.size = r.offs = None
        r.ref = t
        if r.kind == 'int':
            r.bits = call('LLVMGetIntTypeWidth', C.c_uint, t)
            r.size = (r.bits + 7) // 8
        elif r.kind == 'struct':
            nm = call('LLVMGetStructName', C.c_char_p, t)
            r.name = nm.decode() if nm else None
            n = call('LLVMCountStructElementTypes', C.c_uint, t)
            arr = (P * max(n, 1))()
            call('LLVMGetStructElementTypes', None, t, arr)
            if call('LLVMIsOpaqueStruct', C.c_int, t):
                r.elems = []
                r.size = 0
                return r
            r.elems = [self.ty(arr[i]) for i in range(n)]
            r.offs = [call('LLVMOffsetOfElement', C.c_ulonglong, self.dl, t, C.c_uint(i)) for i in range(n)]
            r.size = call('LLVMABISizeOfType', C.c_ulonglong, self.dl, t)
        elif r.kind in ('array', 'vector'):
            r.elem = self.ty(call('LLVMGetElementType', P, t))
            r.n = call('LLVMGetArrayLength' if r.kind == 'array' else 'LLVMGetVectorSize', C.c_uint, t)
            r.size = call('LLVMABISizeOfType', C.c_ulonglong, self.dl, t)
        elif r.kind == 'ptr':
            r.size = 8
        elif r.kind in ('float', 'double'):
            r.size = 4 if r.kind == 'float' else 8
        return r

    def tyof(self, v):
        return self.ty(call('LLVMTypeOf', P, v))

    # globals
    def global_init(self, v):
        init = call('LLVMGetInitializer', P, v)
        return self.const(init) if init else None

    def global_byname(self, name):
        return call('LLVMGetNamedGlobal', P, self.m, C.c_char_p(name.encode()))

    def const(self, v):
        ty = self.tyof(v)
        k = call('LLVMGetValueKind', C.c_int, v)
        # LLVMValueKind: 0 Argument,1 BB,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 IFunc,
        # 8 GlobalVariable, 9 BlockAddress,10 ConstantExpr,11 ConstantArray,12 ConstantStruct,
        # 13 ConstantVector,14 Undef,15 AggregateZero,16 ConstantDataArray,17 ConstantDataVector,
        # 18 ConstantInt,19 ConstantFP,20 NullPtr,21 TokenNone,22 Metadata,23 InlineAsm,24 Instruction,
        # 25 Poison, 26 TargetNone
        if k == 18:
            if ty.bits <= 64:
                return V('const', ty, call('LLVMConstIntGetZExtValue', C.c_ulonglong, v))
            s = call('LLVMPrintValueToString', C.c_char_p, v).decode()
            n = s.split()[-1]
            n = {'true': 1, 'false': 0}.get(n, n)
            return V('const', ty, int(n) % (1 << ty.bits))
        if k == 5:
            return V('func', ty, self._byaddr[v], self._name(v))
        if k in (6, 7):
            tgt = call('LLVMAliasGetAliasee', P, v)
            return self.const(tgt)
        if k == 8:
            return V('global', ty, v, self._name(v))
        if k == 20:
            return V('null', ty, 0)
        if k in (14, 25):
            return V('undef', ty)
        if k == 15:
            return V('zero', ty)
        if k in (11, 12, 13, 16, 17):
            n = ty.n if ty.kind in ('array', 'vector') else len(ty.elems)
            r = V('agg', ty)
            r.ops = [self.const(call('LLVMGetAggregateElement', P, v, C.c_uint(i))) for i in range(n)]
            return r
        if k == 10:
            r = V('expr', ty)
            r.op = OPC.get(call('LLVMGetConstOpcode', C.c_int, v))
            n = call('LLVMGetNumOperands', C.c_int, v)
            r.ops = [self.const(call('LLVMGetOperand', P, v, C.c_uint(i))) for i in range(n)]
            if r.op == 'getelementptr':
                r.x = self.ty(call('LLVMGetGEPSourceElementType', P, v))
            return r
        if k == 19:
            return V('fp', ty, call('LLVMPrintValueToString', C.c_char_p, v).decode())
        return V('other%d' % k, ty)

    def _args(self, fn):
        n = call('LLVMCountParams', C.c_uint, fn.ref)
        fn._args = []
        fn._argmap = {}
        sret = call('LLVMGetEnumAttributeKindForName', C.c_uint, b'sret', C.c_size_t(4))
        fn.sret = False
        for i in range(n):
            a = call('LLVMGetParam', P, fn.ref, C.c_uint(i))
            v = V('arg', self.tyof(a), i, self._name(a))
            fn._args.append(v)
            fn._argmap[a] = v
            at = call('LLVMGetEnumAttributeAtIndex', P, fn.ref, C.c_uint(i + 1), C.c_uint(sret))
            if at and i <= 1:
                fn.sret = True
                v.x = ('sret', self.ty(call('LLVMGetTypeAttributeValue', P, at)))
        fty = call('LLVMGlobalGetValueType', P, fn.ref)
        fn.retty = self.ty(call('LLVMGetReturnType', P, fty))

    def _load(self, fn):
        self._args(fn)
        blocks, imap, bmap = [], {}, {}
        b = call('LLVMGetFirstBasicBlock', P, fn.ref)
        while b:
            blk = Block()
            blk.name = call('LLVMGetBasicBlockName', C.c_char_p, b).decode()
            blk.id = len(blocks)
            blk.fn = fn
            blk.insts = []
            blk.succs, blk.preds = [], []
            blocks.append(blk)
            bmap[b] = blk
            i = call('LLVMGetFirstInstruction', P, b)
            while i:
                ins = Inst()
                ins.block = blk
                ins.id = len(imap)
                ins.op = OPC.get(call('LLVMGetInstructionOpcode', C.c_int, i), '?')
                ins.ty = self.tyof(i)
                ins.name = self._name(i) or ('v%d' % ins.id)
                ins.x = None
                ins.srcty = None
                imap[i] = ins
                blk.insts.append(ins)
                i = call('LLVMGetNextInstruction', P, i)
            b = call('LLVMGetNextBasicBlock', P, b)

        def operand(v):
            k = call('LLVMGetValueKind', C.c_int, v)
            if k == 24:
                r = V('inst', None, imap[v])
                r.ty = imap[v].ty
                r.name = imap[v].name
                return r
            if k == 0:
                return fn._argmap[v]
            if k == 1:
                return V('block', None, bmap[v])
            if k == 22:
                return V('meta')
            if k == 23:
                return V('asm')
            return self.const(v)

        for ref, ins in imap.items():
            n = call('LLVMGetNumOperands', C.c_int, ref)
            ops = [operand(call('LLVMGetOperand', P, ref, C.c_uint(j))) for j in range(n)]
            op = ins.op
            if op in ('br', 'switch'):
                if op == 'br':
                    if n == 1:
                        ins.x = (ops[0].val,)
                        ops = []
                    else:
                        ins.x = (ops[2].val, ops[1].val)  # true, false
                        ops = [ops[0]]
                else:
                    ins.x = (ops[1].val, [(ops[j].val, ops[j + 1].val) for j in range(2, n, 2)])
                    ops = [ops[0]]
            elif op == 'phi':
                m = call('LLVMCountIncoming', C.c_uint, ref)
                ins.x = [(bmap[call('LLVMGetIncomingBlock', P, ref, C.c_uint(j))],
                          operand(call('LLVMGetIncomingValue', P, ref, C.c_uint(j)))) for j in range(m)]
                ops = []
            elif op == 'icmp':
                ins.x = PRED[call('LLVMGetICmpPredicate', C.c_int, ref)]
            elif op == 'getelementptr':
                ins.srcty = self.ty(call('LLVMGetGEPSourceElementType', P, ref))
            elif op == 'alloca':
                ins.srcty = self.ty(call('LLVMGetAllocatedType', P, ref))
            elif op == 'store':
                ins.srcty = ops[0].ty
            elif op in ('call', 'invoke'):
                na = call('LLVMGetNumArgOperands', C.c_uint, ref)
                callee = operand(call('LLVMGetCalledValue', P, ref))
                if op == 'invoke':
                    nd = bmap[call('LLVMGetNormalDest', P, ref)]
                    ud = bmap[call('LLVMGetUnwindDest', P, ref)]
                    ins.x = (callee, nd, ud)
                else:
                    ins.x = (callee,)
                ops = ops[:na]
            elif op in ('extractvalue', 'insertvalue'):
                k = call('LLVMGetNumIndices', C.c_uint, ref)
                ip = call('LLVMGetIndices', C.POINTER(C.c_uint), ref)
                ins.x = [ip[j] for j in range(k)]
            elif op == 'shufflevector':
                k = call('LLVMGetNumMaskElements', C.c_uint, ref)
                ins.x = [call('LLVMGetMaskValue', C.c_int, ref, C.c_uint(j)) for j in range(k)]
                ops = ops[:2]
            elif op == 'landingpad':
                k = call('LLVMGetNumClauses', C.c_uint, ref)
                ins.x = [operand(call('LLVMGetClause', P, ref, C.c_uint(j))) for j in range(k)]
                ops = []
            ins.ops = ops
        for blk in blocks:
            t = blk.insts[-1]
            if t.op == 'br':
                blk.succs = list(t.x)
            elif t.op == 'switch':
                blk.succs = [t.x[0]] + [b for _, b in t.x[1]]
            elif t.op == 'invoke':
                blk.succs = [t.x[1]]   # exceptional edge is not followed: see exec.py
            else:
                blk.succs = []
        for blk in blocks:
            for s in blk.succs:
                s.preds.append(blk)
        fn._blocks = blocks


def _which(x):
    import shutil
    return shutil.which(x)


def split_params(dem):
    """(class or None, method, [param types], const?) of a demangled function name"""
    if not dem.rstrip().endswith((')', 'const')) or '(' not in dem:
        return None
    s = dem
    isconst = s.endswith(' const')
    if isconst:
        s = s[:-6]
    d, i = 0, len(s) - 1
    while i >= 0:
        if s[i] == ')':
            d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0:
                break
        i -= 1
    ps, head = s[i + 1:-1], s[:i]
    out, cur, d = [], '', 0
    for c in ps:
        if c in '<([{':
            d += 1
        if c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    # template functions carry a return type: drop everything up to the last space at depth 0
    d, j = 0, len(head) - 1
    k = None
    while j >= 0:
        if head[j] in '>)':
            d += 1
        elif head[j] in '<(':
            d -= 1
        elif d == 0 and head[j] == ' ' and not head[:j].endswith('operator'):
            k = j
            break
        j -= 1
    rett = None
    if k is not None:
        rett, head = head[:k], head[k + 1:]
    d, j = 0, len(head) - 1
    cls, name = None, head
    while j > 0:
        if head[j] in '>)':
            d += 1
        elif head[j] in '<(':
            d -= 1
        elif d == 0 and head[j - 1:j + 1] == '::':
            cls, name = head[:j - 1], head[j + 1:]
            break
        j -= 1
    return cls, name, out, isconst, rett
