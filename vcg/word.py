"""Word-level mode: path-wise symbolic execution of LLVM IR over bit vectors (or over integers with
range obligations), with contracts for callees, loop invariants cut at loop headers and ghost state.
Every path of the function is followed; loops are either unrolled while their exit test is decided by
constants, or cut by an invariant (established on entry, preserved by one arbitrary iteration)."""
import itertools
from . import used
import time
import z3
from .exec import analyse, Unsupported

STATS = dict(queries=0, time=0.0, unknown=0)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return '&%s+%s' % (self.obj.name, self.off)


class Obj:
    """a memory object; cells: offset -> (nbytes, value); arr: symbolic byte array"""
    n = 0

    def __init__(self, name, size=None, arr=None, fresh=True):
        Obj.n += 1
        self.uid = Obj.n
        self.name, self.size, self.arr0, self.fresh = name, size, arr, fresh
        self.init = {}
        self.cval = None      # constant initialiser

    def __repr__(self):
        return self.name


class Fun:
    """byte contents given as a function of the (64-bit) offset; reads are evaluated, so no array theory is needed"""

    def __init__(self, f):
        self.f = f

    def __call__(self, j):
        return z3.simplify(self.f(j if not isinstance(j, int) else z3.BitVecVal(j, 64)))

    def store(self, off, b):
        f = self.f
        return Fun(lambda j: z3.If(j == off, b, f(j)))

    def copy(self, off, n, src, soff):
        """this with [off, off + n) replaced by src's bytes from soff"""
        f, g = self.f, rdf(src)
        return Fun(lambda j: z3.If(z3.ULT(j - off, n), g(j - off + soff), f(j)))


def rdf(x):
    return x.f if isinstance(x, Fun) else (lambda j: z3.Select(x, z3.simplify(j)))


def rd(x, j):
    return x(j) if isinstance(x, Fun) else z3.Select(x, z3.simplify(j))


def wr(x, j, b):
    return x.store(z3.simplify(j), b) if isinstance(x, Fun) else z3.Store(x, z3.simplify(j), b)


class Split(Exception):
    """re-execute the current instruction under each of these additional constraints"""

    def __init__(self, conds):
        self.conds = conds


class Null:
    def __repr__(self):
        return 'null'


NULL = Null()


class FnPtr:
    def __init__(self, fn):
        self.fn = fn


class Junk:
    """a value the verifier does not track; using it is an error"""

    def __repr__(self):
        return 'junk'


JUNK = Junk()


# ------------------------------------------------------------------ domains
class BV:
    name = 'bv'

    def const(self, v, bits):
        return z3.BoolVal(bool(v & 1)) if bits == 1 else z3.BitVecVal(v, bits)

    def fresh(self, name, bits):
        return z3.FreshConst(z3.BoolSort() if bits == 1 else z3.BitVecSort(bits), name)

    def cval(self, x):
        if z3.is_bool(x):
            x = z3.simplify(x)
            return 1 if z3.is_true(x) else 0 if z3.is_false(x) else None
        if not z3.is_bv_value(x):
            x = z3.simplify(x)
        return x.as_long() if z3.is_bv_value(x) else None

    def bin(self, ex, st, op, a, b, bits):
        if bits == 1:
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        if op == 'mul':
            return self.mul(ex, a, b, bits)
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b),
             'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]
        if op in ('udiv', 'urem', 'sdiv', 'srem') and self.cval(b) in (None, 0):
            ex.oblige(st, b != 0, 'division by zero')
        if op in ('shl', 'lshr', 'ashr') and (self.cval(b) is None or self.cval(b) >= bits):
            ex.oblige(st, z3.ULT(b, bits), 'shift amount in range')
        return z3.simplify(f())

    def mul(self, ex, a, b, bits):
        if self.cval(a) is not None or self.cval(b) is not None or bits < 32:
            return z3.simplify(a * b)
        a, b = z3.simplify(a), z3.simplify(b)
        if ex.absmul:
            return ex.absmul(a, b, bits)
        return a * b

    def icmp(self, ex, st, p, a, b):
        if z3.is_bool(a):
            return z3.simplify(a == b if p == 'eq' else a != b)
        return z3.simplify({'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                            'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                            'slt': lambda: a < b, 'sle': lambda: a <= b}[p]())

    def cast(self, ex, st, op, a, fb, tb):
        if fb == 1:
            one = z3.BitVecVal(1 if op == 'zext' else (1 << tb) - 1, tb)
            return z3.simplify(z3.If(a, one, z3.BitVecVal(0, tb)))
        if op == 'trunc':
            r = z3.Extract(tb - 1, 0, a)
            return z3.simplify(r == 1) if tb == 1 else z3.simplify(r)
        return z3.simplify(z3.ZeroExt(tb - fb, a) if op == 'zext' else z3.SignExt(tb - fb, a))

    def bytes(self, v, n):
        if n == 1:
            return [v]
        return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]

    def unbytes(self, bs):
        return bs[0] if len(bs) == 1 else z3.simplify(z3.Concat(*bs[::-1]))

    def tobool(self, v):
        return z3.simplify(z3.Extract(0, 0, v) == 1)

    def eq(self, a, b):
        return a == b


class IntDom:
    """mathematical integers; a word is its signed value.  Arithmetic must be provably in range."""
    name = 'int'

    def const(self, v, bits):
        if bits == 1:
            return z3.BoolVal(bool(v & 1))
        v %= 1 << bits
        return z3.IntVal(v - (1 << bits) if v >= 1 << (bits - 1) else v)

    def fresh(self, name, bits):
        return z3.FreshConst(z3.BoolSort() if bits == 1 else z3.IntSort(), name)

    def cval(self, x):
        x = z3.simplify(x)
        if z3.is_bool(x):
            return 1 if z3.is_true(x) else 0 if z3.is_false(x) else None
        return x.as_long() if z3.is_int_value(x) else None

    def uns(self, a, bits):
        return z3.If(a < 0, a + (1 << bits), a)

    def bin(self, ex, st, op, a, b, bits):
        if bits == 1:
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if ex.prove(st, z3.And(lo <= r, r <= hi), record=False):
                ex.discharged += 1
                return r
            if op == 'mul':
                raise Unsupported('possible overflow of a product')
            return z3.If(r > hi, r - (1 << bits), z3.If(r < lo, r + (1 << bits), r))
        if op in ('sdiv', 'srem'):
            for q, x, y in st.ghost.get('quot', []):
                if x.eq(a) and y.eq(b):         # the same division again
                    return q if op == 'sdiv' else a - q * b
            if ex.prove(st, z3.And(a >= 0, b > 0), record=False):
                q = z3.FreshInt('q')
                st.cond = st.cond + [q * b <= a, a < q * b + b, q >= 0]
                st.ghost['quot'] = st.ghost.get('quot', []) + [(q, a, b)]
                return q if op == 'sdiv' else a - q * b
        raise Unsupported('integer-mode ' + op)

    def icmp(self, ex, st, p, a, b):
        if p in ('eq', 'ne'):
            return a == b if p == 'eq' else a != b
        if p[0] == 'u':
            bits = st.ghost['$bits']
            a, b = self.uns(a, bits), self.uns(b, bits)
        q = p[1:]
        return a > b if q == 'gt' else a >= b if q == 'ge' else a < b if q == 'lt' else a <= b

    def cast(self, ex, st, op, a, fb, tb):
        if fb == 1:
            return z3.If(a, z3.IntVal(1 if op == 'zext' else -1), z3.IntVal(0))
        if op == 'sext':
            return a
        if op == 'zext':
            return self.uns(a, fb)
        if ex.prove(st, z3.And(a >= -(1 << (tb - 1)), a < 1 << (tb - 1)), record=False):
            return a
        raise Unsupported('truncation of a possibly large integer')

    def eq(self, a, b):
        return a == b


class State:
    __slots__ = ('cond', 'mem', 'ghost', 'events')

    def __init__(self):
        self.cond, self.mem, self.ghost, self.events = [], {}, {}, []

    def fork(self, *c):
        s = State()
        s.cond = self.cond + list(c)
        s.mem = {o: (dict(x) if isinstance(x, dict) else x) for o, x in self.mem.items()}
        s.ghost = {k: (list(v) if isinstance(v, list) else v) for k, v in self.ghost.items()}
        s.events = list(self.events)
        return s


class Frame:
    def __init__(self, fn, args):
        self.fn, self.env = fn, {}
        for i, a in enumerate(args):
            self.env[('a', i)] = a
        self.cuts = {}


class Exec:
    def __init__(self, mod, dom=None, models=(), loops=None, timeout=60000, unroll=300):
        self.mod = mod
        self.dom = dom or BV()
        self.models = models            # list of (predicate(fn), handler(ex, st, args, ins) -> list[(st, ret or Throw)])
        self.loops = loops or []        # LoopSpec
        self.absmul = None
        self.timeout = timeout
        self.unroll = unroll
        self.failures = []              # (what, detail)
        self.discharged = 0
        self.globals = {}
        self.paths = 0
        self.lemmas = []                # background facts
        self.deadline = time.time() + 600

    # ---------------- logic
    def check(self, fs, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*self.lemmas)
        s.add(*fs)
        t = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        if r == z3.unknown:
            STATS['unknown'] += 1
        self.model = s.model() if r == z3.sat else None
        if time.time() > self.deadline:
            raise Unsupported('time limit')
        return r

    def prove(self, st, g, what='', record=True, timeout=None):
        g = z3.simplify(g)
        if z3.is_true(g):
            if record:
                self.discharged += 1
            return True
        r = self.check(st.cond + [z3.Not(g)], timeout)
        if record:
            if r == z3.unsat:
                self.discharged += 1
            else:
                self.failures.append((what, 'unknown' if r == z3.unknown else self.show_model()))
        return r == z3.unsat

    def show_model(self):
        m = self.model
        return ', '.join('%s=%s' % (d.name(), m[d]) for d in list(m.decls())[:30] if not isinstance(m[d], z3.FuncInterp))

    def oblige(self, st, g, what):
        return self.prove(st, g, what)

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        return self.check(st.cond + [c], 20000) != z3.unsat

    # ---------------- memory
    def content(self, st, o):
        x = st.mem.get(o)
        if x is None:
            x = o.arr0 if o.arr0 is not None else {}
            st.mem[o] = x
        return x

    def concrete(self, st, off, o):
        """force a concrete offset, splitting the path when it is not determined"""
        if isinstance(off, int):
            return off
        c = self.dom.cval(off)
        if c is not None:
            return c
        vals = []
        extra = []
        for _ in range(64):
            if self.check(st.cond + extra) != z3.sat:
                break
            v = self.model.eval(off, model_completion=True)
            vals.append(v)
            extra.append(off != v)
        else:
            raise Unsupported('offset into %s takes too many values' % o.name)
        if len(vals) == 1:
            return vals[0].as_long()
        raise Split([off == v for v in vals])

    def load(self, st, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if ty.kind in ('struct', 'array'):
            raise Unsupported('aggregate load')
        n = ty.size if ty.kind != 'int' else (ty.bits + 7) // 8
        x = self.content(st, p.obj)
        if not isinstance(x, dict):
            off = p.off if not isinstance(p.off, int) else z3.BitVecVal(p.off, 64)
            v = self.dom.unbytes([rd(x, off + i) for i in range(n)])
            return self.dom.tobool(v) if ty.kind == 'int' and ty.bits == 1 else v
        off = self.concrete(st, p.off, p.obj)
        if off > 1 << 62:
            off -= 1 << 64
        if p.obj.size is not None and (off < 0 or off + n > p.obj.size):
            self.failures.append(('memory access within %s' % p.obj.name, 'offset %d size %d' % (off, n)))
            raise Unsupported('out of bounds')
        v = self.loadcell(st, p.obj, x, off, n, ty)
        if ty.kind == 'int' and ty.bits == 1 and not z3.is_bool(v):
            return self.dom.tobool(v)
        return v

    def loadcell(self, st, o, x, off, n, ty):
        e = x.get(off)
        if e is not None and e[0] == n:
            v = e[1]
            if ty.kind == 'ptr' and not isinstance(v, (Ptr, Null, FnPtr, Junk)):
                raise Unsupported('pointer load of an integer')
            if ty.kind == 'int' and isinstance(v, (Ptr, Null, FnPtr, Junk)):
                raise Unsupported('integer load of a pointer')
            return v
        if ty.kind == 'ptr':
            if o.cval is not None:
                raise Unsupported('pointer in constant')
            hit = [k for k, (m, _) in x.items() if k < off + n and off < k + m]
            if hit:
                raise Unsupported('partial pointer load')
            v = self.initptr(o, off)
            x[off] = (8, v)
            return v
        hit = [k for k, (m, _) in x.items() if k < off + n and off < k + m]
        if not hit:
            v = self.initval(o, off, n)
            x[off] = (n, v)
            return v
        bs = []
        for i in range(n):
            b = None
            for k, (m, v) in x.items():
                if k <= off + i < k + m:
                    if isinstance(v, (Ptr, Null, FnPtr, Junk)):
                        raise Unsupported('bytes of a pointer')
                    b = self.dom.bytes(v, m)[off + i - k]
            if b is None:
                b = self.initval(o, off + i, 1)
                x[off + i] = (1, b)
            bs.append(b)
        return self.dom.unbytes(bs)

    def initptr(self, o, off):
        key = (off, 'p')
        if key not in o.init:
            f = getattr(o, 'ptrs', {}).get(off)
            o.init[key] = f if f is not None else Ptr(Obj('%s->%d' % (o.name, off), None, z3.FreshConst(z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8)), o.name)), 0)
        return o.init[key]

    def initval(self, o, off, n):
        """initial contents, consistent between different access sizes"""
        for (k, m), v in list(o.init.items()):
            if m == 'p':
                continue
            if k == off and m == n:
                return v
        hit = [(k, m) for (k, m) in o.init if m != 'p' and k < off + n and off < k + m]
        if not hit:
            v = self.dom.fresh('%s.%d' % (o.name, off), 8 * n)
            o.init[(off, n)] = v
            return v
        bs = []
        for i in range(n):
            b = None
            for (k, m) in hit:
                if k <= off + i < k + m:
                    b = self.dom.bytes(o.init[(k, m)], m)[off + i - k]
            if b is None:
                b = self.initval(o, off + i, 1)
            bs.append(b)
        return self.dom.unbytes(bs)

    def store(self, st, p, v, n):
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        x = self.content(st, p.obj)
        if isinstance(v, z3.BoolRef):
            v = self.dom.cast(self, st, 'zext', v, 1, 8)
        if not isinstance(x, dict):
            if isinstance(v, (Ptr, Null, FnPtr, Junk)):
                raise Unsupported('pointer stored in a byte buffer')
            off = p.off if not isinstance(p.off, int) else z3.BitVecVal(p.off, 64)
            for i, b in enumerate(self.dom.bytes(v, n)):
                x = wr(x, off + i, b)
            st.mem[p.obj] = x
            return
        off = self.concrete(st, p.off, p.obj)
        if off > 1 << 62:
            off -= 1 << 64
        if p.obj.size is not None and (off < 0 or off + n > p.obj.size):
            self.failures.append(('memory access within %s' % p.obj.name, 'store offset %d size %d' % (off, n)))
            raise Unsupported('out of bounds')
        self.clear(x, off, n)
        x[off] = (n, v)

    def clear(self, x, off, n):
        for k, (m, v) in list(x.items()):
            if k < off + n and off < k + m:
                del x[k]
                if k < off or k + m > off + n:
                    if isinstance(v, (Ptr, Null, FnPtr, Junk)):
                        raise Unsupported('partial overwrite of a pointer')
                    for i, b in enumerate(self.dom.bytes(v, m)):
                        if not off <= k + i < off + n:
                            x[k + i] = (1, b)

    def memcpy(self, st, d, s, n):
        """n concrete"""
        xd, xs = self.content(st, d.obj), self.content(st, s.obj)
        if n == 0:
            return
        if isinstance(xs, dict) and isinstance(xd, dict):
            so, do = self.concrete(st, s.off, s.obj), self.concrete(st, d.off, d.obj)
            cells = []
            covered = set()
            for k, (m, v) in xs.items():
                if so <= k and k + m <= so + n:
                    cells.append((k - so, m, v))
                    covered |= set(range(k, k + m))
            for i in range(so, so + n):
                if i not in covered:
                    part = [(k, m, v) for k, (m, v) in xs.items() if k <= i < k + m]
                    if part:
                        k, m, v = part[0]
                        if isinstance(v, (Ptr, Null, FnPtr, Junk)):
                            raise Unsupported('partial copy of a pointer')
                        cells.append((i - so, 1, self.dom.bytes(v, m)[i - k]))
                    elif s.obj.fresh:
                        cells.append((i - so, 1, self.initval(s.obj, i, 1)))
            self.clear(xd, do, n)
            for o, m, v in cells:
                xd[do + o] = (m, v)
            if d.obj.size is not None and do + n > d.obj.size:
                self.failures.append(('memcpy within %s' % d.obj.name, str(n)))
            return
        i8 = _I8
        bs = []
        for i in range(n):
            bs.append(self.load(st, Ptr(s.obj, self.padd(s.off, i)), i8))
        for i in range(n):
            self.store(st, Ptr(d.obj, self.padd(d.off, i)), bs[i], 1)

    def padd(self, off, d):
        if isinstance(off, int) and isinstance(d, int):
            return off + d
        a = off if not isinstance(off, int) else self.dom.const(off, 64)
        b = d if not isinstance(d, int) else self.dom.const(d, 64)
        r = z3.simplify(a + b)
        c = self.dom.cval(r)
        if c is not None:
            return c - (1 << 64) if c >= 1 << 63 else c
        return r

    # ---------------- values
    def val(self, fr, v):
        k = v.kind
        if k == 'inst':
            return fr.env[v.val.id]
        if k == 'arg':
            return fr.env[('a', v.val)]
        if k == 'const':
            return self.dom.const(v.val, v.ty.bits)
        if k == 'null':
            return NULL
        if k == 'func':
            return FnPtr(v.val)
        if k == 'global':
            return Ptr(self.global_obj(v), 0)
        if k == 'expr' and v.op == 'getelementptr':
            return self.gep(fr, self.val(fr, v.ops[0]), v.x, [(self.val(fr, x), x.ty) for x in v.ops[1:]], None)
        if k in ('undef', 'zero', 'agg'):
            if v.ty.kind == 'int':
                return self.dom.fresh('undef', v.ty.bits) if k == 'undef' else self.dom.const(0, v.ty.bits)
            if v.ty.kind in ('struct', 'array', 'vector'):
                n = v.ty.n if v.ty.kind in ('array', 'vector') else len(v.ty.elems)
                if k == 'agg':
                    if v.ty.kind == 'vector':
                        return self.vec([self.val(fr, x) for x in v.ops])
                    return [self.val(fr, x) for x in v.ops]
                if v.ty.kind == 'vector' and v.ty.elem.kind == 'int':
                    return self.dom.fresh('undef', 8 * v.ty.size) if k == 'undef' else self.dom.const(0, 8 * v.ty.size)
                el = [v.ty.elem] * n if v.ty.kind in ('array', 'vector') else v.ty.elems
                return [(self.dom.const(0, t.bits) if k == 'zero' else JUNK) if t.kind == 'int' else JUNK for t in el]
            if v.ty.kind == 'ptr' and k == 'undef':
                return JUNK
        return JUNK

    def vec(self, lanes):
        if any(not isinstance(x, z3.BitVecRef) for x in lanes):
            return JUNK
        return z3.simplify(z3.Concat(*lanes[::-1]))

    def lanes(self, v, ty):
        b = ty.elem.bits
        return [z3.simplify(z3.Extract(b * i + b - 1, b * i, v)) for i in range(ty.n)]

    def global_obj(self, v):
        o = self.globals.get(v.name)
        if o is None:
            o = Obj('@' + v.name)
            try:
                init = self.mod.global_init(v.val)
            except Exception:
                init = None
            if init is not None:
                cells = {}
                self.flatten(init, 0, cells)
                o.init = {}
                o.const = cells
            self.globals[v.name] = o
        return o

    def flatten(self, c, off, cells):
        t = c.ty
        if c.kind == 'agg':
            for i, x in enumerate(c.ops):
                self.flatten(x, off + (i * t.elem.size if t.kind in ('array', 'vector') else t.offs[i]), cells)
        elif c.kind == 'const':
            n = (t.bits + 7) // 8
            cells[off] = (n, self.dom.const(c.val, 8 * n))
        elif c.kind == 'zero':
            if t.kind in ('array', 'vector', 'struct'):
                n = t.size
                for i in range(n if n <= 4096 else 0):
                    cells[off + i] = (1, self.dom.const(0, 8))
            elif t.kind == 'int':
                cells[off] = (t.size, self.dom.const(0, 8 * t.size))
        elif c.kind == 'null':
            cells[off] = (8, NULL)
        elif c.kind == 'func':
            cells[off] = (8, FnPtr(c.val))
        else:
            try:
                cells[off] = (8, self.val(None, c))
            except Exception:
                cells[off] = (t.size or 8, JUNK)

    def gep(self, fr, p, srcty, idx, st):
        if isinstance(p, Null) or isinstance(p, Junk):
            return JUNK
        if not isinstance(p, Ptr):
            raise Unsupported('address arithmetic on %r' % (p,))
        off = p.off
        t = srcty
        for i, (x, xt) in enumerate(idx):
            if i == 0:
                sz = t.size
            elif t.kind == 'struct':
                c = self.dom.cval(x)
                off = self.padd(off, t.offs[c])
                t = t.elems[c]
                continue
            else:
                t = t.elem
                sz = t.size
            c = self.dom.cval(x)
            if c is not None:
                if self.dom.name == 'bv' and c >= 1 << (xt.bits - 1):
                    c -= 1 << xt.bits
                off = self.padd(off, c * sz)
            else:
                x64 = x if xt.bits == 64 else self.dom.cast(self, st, 'sext', x, xt.bits, 64)
                off = self.padd(off, z3.simplify(x64 * self.dom.const(sz, 64)))
        return Ptr(p.obj, off)

    # ---------------- execution
    def run(self, fn, st, args):
        """returns list of (state, ('ret', value) | ('throw', type) | ('abort', why) | ('cut',))"""
        out = []
        work = [(fn.blocks[0], None, 0, st, Frame(fn, args), [])]
        while work:
            b, frm, i, st, fr, stack = work.pop()
            self.paths += 1
            if self.paths > 200000:
                raise Unsupported('too many paths')
            self.step(b, frm, i, st, fr, stack, work, out)
        return out

    def clone(self, fr):
        f = Frame(fr.fn, [])
        f.env = dict(fr.env)
        f.cuts = dict(fr.cuts)
        return f

    def goto(self, b, frm, st, fr, stack, work, out):
        rpo, num, loops = analyse(fr.fn)
        vals = {}
        for ins in b.insts:
            if ins.op != 'phi':
                break
            for fb, v in ins.x:
                if fb is frm:
                    vals[ins.id] = self.val(fr, v)
                    break
        fr.env.update(vals)
        if b in loops:
            back = frm in loops[b].blocks
            spec = next((l for l in self.loops if l.matches(self, fr, b)), None)
            cnt = fr.cuts.get(b, 0) if back else 0
            if spec is not None:
                return spec.arrive(self, b, frm, st, fr, stack, work, out, back)
            cnt += 1
            if cnt > self.unroll:
                raise Unsupported('loop in %s not bounded by constants and without an invariant' % fr.fn.dem)
            fr.cuts[b] = cnt
        work.append((b, frm, 0, st, fr, stack))

    def step(self, b, frm, i, st, fr, stack, work, out):
        while True:
            ins = b.insts[i]
            op = ins.op
            if op == 'phi':
                i += 1
                continue
            try:
                if op == 'ret':
                    v = self.val(fr, ins.ops[0]) if ins.ops else None
                    if not stack:
                        out.append((st, ('ret', v)))
                        return
                    (cb, cf, ci, cfr), stack = stack[-1], stack[:-1]
                    fr = self.clone(cfr)
                    cins = cb.insts[ci]
                    fr.env[cins.id] = v
                    if cins.op == 'invoke':
                        self.goto(cins.x[1], cb, st, fr, stack, work, out)
                        return
                    b, frm, i = cb, cf, ci + 1
                    continue
                if op == 'unreachable':
                    return
                if op == 'br':
                    if len(ins.x) == 1:
                        self.goto(ins.x[0], b, st, fr, stack, work, out)
                        return
                    c = self.val(fr, ins.ops[0])
                    if isinstance(c, Junk):
                        raise Unsupported('branch on an untracked value')
                    c = z3.simplify(c)
                    for cond, to in ((c, ins.x[0]), (z3.simplify(z3.Not(c)), ins.x[1])):
                        if self.feasible(st, cond):
                            s2 = st.fork(*([] if z3.is_true(cond) else [cond]))
                            self.goto(to, b, s2, self.clone(fr), stack, work, out)
                    return
                if op == 'switch':
                    v = self.val(fr, ins.ops[0])
                    rest = []
                    for cv, to in ins.x[1]:
                        c = v == self.dom.const(cv.val, ins.ops[0].ty.bits)
                        rest.append(z3.Not(c))
                        if self.feasible(st, c):
                            self.goto(to, b, st.fork(c), self.clone(fr), stack, work, out)
                    c = z3.And(*rest)
                    if self.feasible(st, c):
                        self.goto(ins.x[0], b, st.fork(c), self.clone(fr), stack, work, out)
                    return
                if op in ('call', 'invoke'):
                    r = self.call(ins, st, fr, b, i, frm, stack, work, out)
                    if r is None:
                        return
                    if r[0] == 'enter':
                        _, fn, args = r
                        stack = stack + [(b, frm, i, fr)]
                        fr = Frame(fn, args)
                        b, frm, i = fn.blocks[0], None, 0
                        continue
                    if len(r[1]) == 1 and r[1][0][1] is not Throw and not isinstance(r[1][0][1], Throw):
                        st, v = r[1][0]
                        fr.env[ins.id] = v
                        if op == 'invoke':
                            self.goto(ins.x[1], b, st, fr, stack, work, out)
                            return
                        i += 1
                        continue
                    for s2, v in r[1]:
                        if isinstance(v, Throw):
                            out.append((s2, ('throw', v.ty)))
                            continue
                        f2 = self.clone(fr)
                        f2.env[ins.id] = v
                        if op == 'invoke':
                            self.goto(ins.x[1], b, s2, f2, stack, work, out)
                        else:
                            work.append((b, frm, i + 1, s2, f2, stack))
                    return
                if op == 'store':
                    v = self.val(fr, ins.ops[0])
                    t = ins.srcty
                    p = self.val(fr, ins.ops[1])
                    if isinstance(v, list):
                        raise Unsupported('aggregate store')
                    self.store(st, p, v, t.size if t.kind != 'int' else (t.bits + 7) // 8)
                    i += 1
                    continue
                fr.env[ins.id] = self.inst(fr, ins, st)
                i += 1
            except Split as e:
                for c in e.conds:
                    work.append((b, frm, i, st.fork(c), self.clone(fr), stack))
                return

    def inst(self, fr, ins, st):
        op = ins.op
        if op == 'alloca':
            n = ins.srcty.size
            if ins.ops:
                c = self.dom.cval(self.val(fr, ins.ops[0]))
                if c is None:
                    raise Unsupported('variable-length array')
                n *= c
            return Ptr(Obj('%' + (ins.name or ''), n), 0)
        if op == 'load':
            p = self.val(fr, ins.ops[0])
            if isinstance(p, Ptr) and hasattr(p.obj, 'const') and p.obj not in st.mem:
                st.mem[p.obj] = dict(p.obj.const)
            return self.load(st, p, ins.ty)
        o = [self.val(fr, x) for x in ins.ops]
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if any(isinstance(x, Junk) for x in o):
                return JUNK
            if isinstance(o[0], Ptr) or isinstance(o[1], Ptr):
                if op == 'sub' and isinstance(o[0], Ptr) and isinstance(o[1], Ptr) and o[0].obj is o[1].obj:
                    a, b = [self.dom.const(x.off, 64) if isinstance(x.off, int) else x.off for x in o]
                    return self.dom.bin(self, st, 'sub', a, b, 64)
                raise Unsupported('arithmetic on addresses')
            if ins.ty.kind == 'vector':
                if op in ('xor', 'and', 'or'):
                    return z3.simplify({'xor': lambda a, b: a ^ b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b}[op](*o))
                return self.vec([self.dom.bin(self, st, op, x, y, ins.ty.elem.bits) for x, y in zip(*[self.lanes(v, ins.ty) for v in o])])
            if ins.ty.kind != 'int':
                return JUNK
            st.ghost['$bits'] = ins.ty.bits
            return self.dom.bin(self, st, op, o[0], o[1], ins.ty.bits)
        if op == 'icmp':
            a, b = o
            if isinstance(a, (Ptr, Null)) or isinstance(b, (Ptr, Null)):
                if ins.x in ('eq', 'ne'):
                    if isinstance(a, Null) or isinstance(b, Null):
                        same = isinstance(a, Null) and isinstance(b, Null)
                        return z3.BoolVal(same == (ins.x == 'eq'))
                    if a.obj is not b.obj:
                        return z3.BoolVal(ins.x != 'eq')
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                    x, y = [self.dom.const(q.off, 64) if isinstance(q.off, int) else q.off for q in (a, b)]
                    return self.dom.icmp(self, st, ins.x, x, y)
                raise Unsupported('pointer comparison')
            if any(isinstance(x, Junk) for x in o):
                return JUNK
            st.ghost['$bits'] = ins.ops[0].ty.bits
            return self.dom.icmp(self, st, ins.x, a, b)
        if op in ('zext', 'sext', 'trunc'):
            if ins.ty.kind != 'int' or isinstance(o[0], Junk):
                return JUNK
            if isinstance(o[0], Ptr):
                return o[0]
            return self.dom.cast(self, st, op, o[0], ins.ops[0].ty.bits, ins.ty.bits)
        if op == 'select':
            c = z3.simplify(o[0])
            if z3.is_true(c):
                return o[1]
            if z3.is_false(c):
                return o[2]
            if isinstance(o[1], (Ptr, Null, FnPtr)) or isinstance(o[2], (Ptr, Null, FnPtr)):
                raise Split([c, z3.Not(c)] if self.dom.cval(c) is None else [])
            if any(isinstance(x, Junk) for x in o):
                return JUNK
            if self.split_select:
                t, f = self.feasible(st, c), self.feasible(st, z3.Not(c))
                if t and f:
                    raise Split([c, z3.Not(c)])
                return o[1] if t else o[2]
            return z3.If(c, o[1], o[2])
        if op == 'getelementptr':
            return self.gep(fr, o[0], ins.srcty, [(x, v.ty) for x, v in zip(o[1:], ins.ops[1:])], st)
        if op == 'extractvalue':
            v = o[0]
            for k in ins.x:
                v = v[k] if isinstance(v, list) else JUNK
            return v
        if op == 'insertvalue':
            v = list(o[0]) if isinstance(o[0], list) else [JUNK] * len(ins.ty.elems)
            v[ins.x[0]] = o[1]
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            return o[0]
        if op == 'shufflevector' and not any(isinstance(x, Junk) for x in o[:2]):
            t = ins.ops[0].ty
            l = self.lanes(o[0], t) + self.lanes(o[1], t)
            return self.vec([l[k] if k >= 0 else self.dom.fresh('undef', t.elem.bits) for k in ins.x])
        if op == 'insertelement' and not any(isinstance(x, Junk) for x in o):
            l = self.lanes(o[0], ins.ty)
            k = self.dom.cval(o[2])
            if k is not None and k < len(l):
                l[k] = o[1]
                return self.vec(l)
        if op == 'extractelement' and not isinstance(o[0], Junk):
            k = self.dom.cval(o[1])
            if k is not None:
                return self.lanes(o[0], ins.ops[0].ty)[k]
        return JUNK

    split_select = False
    bounds = None

    def call(self, ins, st, fr, b, i, frm, stack, work, out):
        callee = ins.x[0]
        cv = self.val(fr, callee) if callee.kind != 'asm' else JUNK
        args = [self.val(fr, x) for x in ins.ops]
        if not isinstance(cv, FnPtr):
            for pred, h in self.models:
                if pred(None, ins):
                    return ('val', h(self, st, args, ins))
            raise Unsupported('indirect call')
        fn = cv.fn
        for pred, h in self.models:
            if pred(fn, ins):
                used.MODELS.add(fn.dem or fn.name)
                return ('val', h(self, st, args, ins))
        n = fn.name
        if n.startswith('llvm.'):
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore')):
                return ('val', [(st, JUNK)])
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                return ('val', self.do_memcpy(st, args))
            if n.startswith('llvm.memset'):
                c = self.dom.cval(args[2])
                if c is None:
                    raise Unsupported('memset of symbolic size')
                for k in range(c):
                    self.store(st, Ptr(args[0].obj, self.padd(args[0].off, k)), args[1], 1)
                return ('val', [(st, JUNK)])
            raise Unsupported('intrinsic ' + n)
        if n in ('memcpy', 'memmove'):
            self.do_memcpy(st, args)
            return ('val', [(st, args[0])])
        if n == '__cxa_allocate_exception':
            return ('val', [(st, Ptr(Obj('exception'), 0))])
        if n == '__cxa_throw':
            ty = args[1].obj.name.replace('@_ZTI', '') if isinstance(args[1], Ptr) else '?'
            out.append((st, ('throw', demangle_type(ty))))
            return None
        if n in ('__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch'):
            return ('val', [(st, JUNK)])
        if n in ('abort', 'exit', '__cxa_rethrow', '_ZSt9terminatev', '__clang_call_terminate'):
            out.append((st, ('abort', n)))
            return None
        d = fn.dem
        if d.startswith(('std::invalid_argument::', 'std::logic_error::', 'std::runtime_error::', 'std::out_of_range::')):
            return ('val', [(st, JUNK)])
        if fn.isdecl:
            raise Unsupported('call of external ' + d)
        if len(stack) > 40:
            raise Unsupported('call depth')
        return ('enter', fn, args)

    def do_memcpy(self, st, args):
        c = self.dom.cval(args[2])
        if c is None:
            d, s = args[0], args[1]
            if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
                raise Unsupported('memcpy of untracked addresses')
            xd, xs = self.content(st, d.obj), self.content(st, s.obj)
            if not isinstance(xd, Fun) or isinstance(xs, dict):
                raise Unsupported('memcpy of symbolic size')
            off = [p.off if not isinstance(p.off, int) else z3.BitVecVal(p.off, 64) for p in (d, s)]
            if self.bounds:
                self.bounds(self, st, d, args[2], 'write')
                self.bounds(self, st, s, args[2], 'read')
            st.mem[d.obj] = xd.copy(off[0], args[2], xs, off[1])
            return [(st, JUNK)]
        for a in args[:2]:
            if isinstance(a, Ptr) and hasattr(a.obj, 'const') and a.obj not in st.mem:
                st.mem[a.obj] = dict(a.obj.const)
        self.memcpy(st, args[0], args[1], c)
        return [(st, JUNK)]


class _T:
    pass


_I8 = _T()
_I8.kind, _I8.bits, _I8.size = 'int', 8, 1


class Throw:
    def __init__(self, ty):
        self.ty = ty


def demangle_type(t):
    import re
    m = re.match(r'^St(\d+)(\w+)$', t)
    if m:
        return 'std::' + m.group(2)
    return t


class LoopSpec:
    """loop `ordinal` (in reverse post order) of the functions selected by `fn`.

    roles: list of (name, bits or 'ptr'): loop-carried SSA variables the invariant speaks about; they are
      matched to the header's phis by trying every assignment (`perm` selects one).
    inv(env, st, ex): list of formulas;  havoc(env, st, ex): replaces the memory the loop may change,
      and may add ghost facts.  unroll=True: control stays concrete, only the roles are generalised."""

    def __init__(self, fn, ordinal, roles, inv, havoc=None, ghosts=None, unroll=False, step=None, keep=None, linear=None):
        # linear: a ghost term ('it': the number of iterations) the loop-carried variables move with.  Variables that
        # are no role are related to it by v = v(entry) + k * (ghost - ghost(entry)); k is found by running the body
        # once and the relation is an obligation of the run that counts
        self.linear, self.rel, self.cand = linear, {}, {}
        self.fn, self.ordinal, self.roles, self.inv, self.havoc = fn, ordinal, roles, inv, havoc
        self.unroll, self.perm, self.step, self.ghosts = unroll, 0, step, ghosts or []
        self.nperm = 1
        self.used = 0
        # keep: names of the variables whose path facts survive the cut (the rest is forgotten, which is sound);
        # arrivals that then agree on everything live are continued once
        self.keep, self.seen = keep, []

    def matches(self, ex, fr, b):
        if not self.fn(fr.fn):
            return False
        rpo, num, loops = analyse(fr.fn)
        hs = [x for x in fr.fn.blocks if x in loops]        # source order
        return b is hs[self.ordinal] if self.ordinal < len(hs) else False

    def assignment(self, b):
        phis = [i for i in b.insts if i.op == 'phi']
        cands = []
        for name, ty in self.roles:
            cands.append([p for p in phis if (p.ty.kind == 'ptr' if ty == 'ptr' else p.ty.kind == 'int' and p.ty.bits == ty)])
        combos = [c for c in itertools.product(*cands) if len(set(id(x) for x in c)) == len(c)]
        if not combos:
            raise Unsupported('no loop-carried variables for the roles %s' % self.roles)
        self.nperm = len(combos)
        return combos[self.perm % len(combos)], phis

    def arrive(self, ex, b, frm, st, fr, stack, work, out, back):
        self.used += 1
        assign, phis = self.assignment(b)
        key = ('cut', b.id, len(stack))
        env = {n: fr.env[p.id] for (n, _), p in zip(self.roles, assign)}
        pre = st.ghost.get(key)
        first = not back or pre is None
        g = dict(pre['g']) if pre and not first else {}
        env['$phis'] = {p.id: fr.env[p.id] for p in phis}
        if self.linear == 'it':
            g['it'] = z3.simplify(pre['g']['it'] + 1) if not first else z3.BitVecVal(0, 64)
        if first:
            for n, f in self.ghosts:
                g[n] = f(env, st, ex)
        elif self.step:
            self.step(g, env, pre, st, ex)
        others = [p for p in phis if p not in assign and isinstance(fr.env[p.id], (Ptr, z3.ExprRef)) and
                  not (isinstance(fr.env[p.id], z3.ExprRef) and not z3.is_bv(fr.env[p.id]))] if self.linear else []
        lin = (lambda g, st: g['it']) if self.linear == 'it' else self.linear
        if not first and not self.unroll:
            for p in others:
                self.moves(ex, st, p.id, pre['head'].get(p.id), fr.env[p.id], pre['lin'], lin(g, st), pre['entry'].get(p.id), pre['lin0'], fr)
        for what, f in self.inv(env, g, st, ex, pre if not first else None):
            ok = ex.prove(st, f, 'loop invariant (%s) of %s: %s' % ('entry' if first else 'preservation', fr.fn.dem[:80], what))
            if not ok:
                out.append((st, ('cut',)))
                return
        if not first and not self.unroll:
            self.frame(ex, st, fr, pre, assign, phis, b)
            out.append((st, ('cut',)))
            return
        if self.unroll:
            n = fr.cuts.get(b, 0) + 1 if back else 1
            fr.cuts[b] = n
            if n > ex.unroll:
                raise Unsupported('loop not bounded by constants')
        env2 = {}
        entry = {p.id: fr.env[p.id] for p in others}
        lin0 = lin(g, st) if self.linear else None
        for (n, ty), p in zip(self.roles, assign):
            if ty == 'ptr':
                old = env[n]
                v = Ptr(old.obj, ex.dom.fresh(n, 64))
            else:
                v = ex.dom.fresh(n, p.ty.bits)
            fr.env[p.id] = v
            env2[n] = v
        if not self.unroll:
            for p in phis:
                if p not in assign:
                    if p.ty.kind == 'int':
                        fr.env[p.id] = ex.dom.fresh('phi', p.ty.bits)
                    elif p.ty.kind == 'ptr' and isinstance(fr.env[p.id], Ptr):
                        fr.env[p.id] = Ptr(fr.env[p.id].obj, ex.dom.fresh('phi', 64))
                    else:
                        fr.env[p.id] = JUNK
        st = st.fork()
        if self.keep is not None and not self.unroll:
            st.cond = [c for c in st.cond if varnames(c) <= self.keep]
        g2 = {n: z3.FreshConst(v.sort(), n) if isinstance(v, z3.ExprRef) else v for n, v in g.items()}
        if self.keep is not None and not self.unroll:
            live = live_in(fr.fn, b)
            live = {k: v for k, v in fr.env.items() if (k in live or isinstance(k, tuple)) and k not in {p.id for p in phis}}
            ptrs = {p.id: v.obj for p in phis for v in [fr.env[p.id]] if isinstance(v, Ptr)}
            ptrs.update({('junk', p.id): 1 for p in phis if isinstance(fr.env[p.id], Junk)})
            before = {o: (dict(x) if isinstance(x, dict) else x) for o, x in st.mem.items()}
        changed = self.havoc(env2, g2, st, ex) if self.havoc else []
        if self.keep is not None and not self.unroll:
            cells = {}
            for o, x in st.mem.items():
                y = before.get(o)
                if isinstance(x, dict):
                    for k, (n, v) in x.items():
                        old = y.get(k) if isinstance(y, dict) else None
                        hav = o in (changed or []) and (old is None or not same(old[1], v))
                        cells[(o, k)] = (n, None if hav else v)
                else:
                    cells[(o, None)] = (0, x)
            ptrs.update({('entry', k): str(v) for k, v in entry.items() if k in self.rel})
            ptrs.update({('entry', 0): str(lin0)})
            snap = (live, st.cond, cells, len(stack), list(st.events), ptrs)
            if any(self.covers(s0, snap) for s0 in self.seen):
                return
            self.seen.append(snap)
        now = lin(g2, st) if self.linear else None
        for p in others:
            k = self.rel.get(p.id)
            if k is not None:
                v = entry[p.id]
                off = v.off if isinstance(v, Ptr) else v
                off = z3.BitVecVal(off, 64) if isinstance(off, int) else off
                x = z3.simplify(off + k * fit(now - lin0, off.size()))
                fr.env[p.id] = Ptr(v.obj, x) if isinstance(v, Ptr) else x
        env2['$phis'] = {p.id: fr.env[p.id] for p in phis}
        st.cond = st.cond + [f for _, f in self.inv(env2, g2, st, ex, None)]
        st.ghost[key] = {'head': {p.id: fr.env[p.id] for p in others}, 'entry': entry, 'lin0': lin0, 'lin': now, 'g': g2, 'env': env2, 'mem': {o: (dict(x) if isinstance(x, dict) else x) for o, x in st.mem.items()},
                         'changed': set(changed or []), 'events': len(st.events)}
        work.append((b, frm, 0, st, fr, stack))

    def moves(self, ex, st, pid, head, back, l0, l1, entry, lin0, fr):
        """the variable over one iteration: learn the factor, or check the relation that was assumed"""
        if isinstance(head, Ptr) != isinstance(back, Ptr) or not isinstance(back, (Ptr, z3.ExprRef)) or isinstance(head, Ptr) and head.obj is not back.obj:
            self.cand[pid] = set()
            if self.rel.get(pid) is not None:
                ex.failures.append(('loop invariant (preservation) of %s: a pointer stays in its object' % fr.fn.dem[:80], ''))
            return
        a, b, e = (x.off if isinstance(x, Ptr) else x for x in (head, back, entry))
        a, b, e = (z3.BitVecVal(x, 64) if isinstance(x, int) else x for x in (a, b, e))
        if pid in self.rel:
            k = self.rel[pid]
            if k is not None:
                ex.prove(st, b == e + k * fit(l1 - lin0, b.size()), 'loop invariant (preservation) of %s: a variable moves with the ghost' % fr.fn.dem[:80])
            return
        d, dl = z3.simplify(b - a), z3.simplify(fit(l1 - l0, b.size()))
        ks = set()
        for k in (1, -1, 8, -8, 16, -16, 4, -4, 2, -2, 0):
            f = z3.simplify(d == k * dl)
            if z3.is_true(f) or not (z3.is_bv_value(d) and z3.is_bv_value(dl)) and not z3.is_false(f) and k in (1, -1, 0) and \
                    ex.prove(st, f, record=False, timeout=3000):
                ks.add(k)
                break
        self.cand[pid] = self.cand[pid] & ks if pid in self.cand else ks

    def learned(self):
        """relations found in the run that just ended; True if the loop must be run again with them"""
        new = {p: (min(ks) if ks else None) for p, ks in self.cand.items() if p not in self.rel}
        self.rel.update(new)
        self.seen, self.used = [], 0
        return any(k is not None for k in new.values())

    def guesses(self):
        """further relations to try, one variable at a time, for the variables no factor was found for"""
        for p in [p for p, k in self.rel.items() if k is None][:4]:
            for k in (-1, 1):
                self.rel[p] = k
                yield p
            self.rel[p] = None

    def covers(self, a, b):
        """an earlier continuation that assumed no more than this one and agrees on the live state"""
        if a[3] != b[3] or a[4] != b[4] or a[5] != b[5]:
            return False
        cb = {c.get_id() for c in b[1]}
        if any(c.get_id() not in cb for c in a[1]):
            return False
        if any(k not in b[0] or not same(v, b[0][k]) for k, v in a[0].items()):
            return False
        for k, (n, v) in a[2].items():
            w = b[2].get(k)
            if w is None:       # touched there only: must still be the initial content
                i = k[0].init.get((k[1], n)) if k[1] is not None else k[0].arr0
                if v is None or i is None or not same(i, v):
                    return False
                continue
            if w[0] != n or not (v is None and w[1] is None or v is not None and w[1] is not None and same(v, w[1])):
                return False
        for k, (n, v) in b[2].items():
            if k not in a[2]:
                i = k[0].init.get((k[1], n)) if k[1] is not None else k[0].arr0
                if v is None or i is None or not same(i, v):
                    return False
        return True

    def frame(self, ex, st, fr, pre, assign, phis, b):
        """nothing but the declared objects changed in the body"""
        for o, x in pre['mem'].items():
            if o in pre['changed']:
                continue
            y = st.mem.get(o)
            if isinstance(x, dict):
                for k, (n, v) in x.items():
                    e = y.get(k)
                    if e is None or e[0] != n or not same(e[1], v):
                        if e is not None and e[0] == n and isinstance(v, z3.ExprRef) and isinstance(e[1], z3.ExprRef) and \
                                ex.prove(st, e[1] == v, 'loop frame: %s+%d unchanged' % (o.name, k)):
                            continue
                        ex.failures.append(('loop frame: %s+%d is modified by the body' % (o.name, k), ''))
                for k in y:
                    if k not in x and not any(a < k + y[k][0] and k < a + n for a, (n, _) in x.items()):
                        i = o.init.get((k, y[k][0]))
                        if i is None or not same(i, y[k][1]):
                            if k not in x and o.fresh is not None and i is None and not o.name.startswith('%'):
                                ex.failures.append(('loop frame: %s+%d is modified by the body' % (o.name, k), ''))
                            elif o.name.startswith('%'):
                                continue    # first written inside the body: dead before the loop
                            else:
                                ex.failures.append(('loop frame: %s+%d is modified by the body' % (o.name, k), ''))
            elif not same(x, y):
                ex.failures.append(('loop frame: %s is modified by the body' % o.name, ''))


def fit(x, bits):
    return x if x.size() == bits else z3.Extract(bits - 1, 0, x) if x.size() > bits else z3.SignExt(bits - x.size(), x)


def varnames(e, cache={}):
    k = e.get_id()
    if k in cache:
        return cache[k][0]
    out = set()
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    cache[k] = (out, e)
    return out


def live_in(fn, b):
    """ids of the registers read in blocks reachable from b"""
    seen, todo, used = set(), [b], set()

    def vals(v):
        if v.kind == 'inst':
            used.add(v.val.id)
        for x in getattr(v, 'ops', None) or []:
            if hasattr(x, 'kind'):
                vals(x)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for i in c.insts:
            for v in i.ops or []:
                if hasattr(v, 'kind'):
                    vals(v)
            if i.op == 'phi':
                for _, v in i.x:
                    vals(v)
        todo += c.succs
    return used


def same(a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and (a.off is b.off or (isinstance(a.off, int) and a.off == b.off) or
                                   (not isinstance(a.off, int) and not isinstance(b.off, int) and a.off.eq(b.off)))
    return a is b
