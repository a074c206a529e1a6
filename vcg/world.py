"""Program world: symbolic objects typed by clang's record layouts, models of the C++ standard
library containers (the trusted base for std), and dispatch of calls to contracts / models / bodies."""
import re
from .terms import *
from . import terms as T
from .ctx import Ctx, simp, declare_bounds, declare_app_bounds, _appbounds
from .exec import (Executor, State, Ptr, NULL, Null, PIte, VTab, VSlot, FnVal, Opaque, OPQ, IDX, IDXA, Root,
                   Unsupported, MAXSZ, getcell_mem, read_key, write_key, psub, psimp, vite, Scaled, is_bool,
                   merge_states, Outcome)

INTS = {'std::size_t': 64, 'size_t': 64, 'unsigned long': 64, 'long': 64, 'int': 32, 'unsigned int': 32,
        'std::uint32_t': 32, 'uint32_t': 32, 'std::uint64_t': 64, 'uint64_t': 64, 'u64': 64, 'unsigned char': 8,
        'char': 8, 'uint8_t': 8, 'std::uint8_t': 8, 'long long': 64, 'unsigned': 32, 'ValueType': 64,
        'std::int64_t': 64, 'unsigned short': 16, 'short': 16}


def targ(s):
    """top-level template arguments"""
    i = s.index('<')
    depth, cur, out = 0, '', []
    for c in s[i + 1:s.rindex('>')]:
        if c == '<':
            depth += 1
        if c == '>':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


class World:
    def __init__(self, mod, layouts):
        self.mod, self.lay = mod, layouts
        self.contracts = {}
        self.fams = {}
        self.roots = {}
        self.globals = {}
        self.nullable = set()
        self.used = set()
        self.alloc_roots = {}
        self.virt = {}
        self.models = []
        self.ghost = {}     # (class) -> {ghostname: kind}
        self.aliases = {}
        self.hooks_sym = {}  # (root name regex) -> fn
        install_models(self)

    # -------------------------------------------------------- types
    def resolve(self, ty):
        ty = ty.strip()
        ty = re.sub(r'^(const|volatile) ', '', ty)
        ty = re.sub(r' const$', '', ty)
        if ty == '_Bool':
            return 'bool'
        return self.aliases.get(ty, ty)

    def record(self, ty):
        r = self.lay.rec.get(ty)
        if r is None and ty == 'FF61':
            return None
        return r

    def size(self, ty):
        ty = self.resolve(ty)
        if ty == 'FF61':
            return 8
        if ty in INTS:
            return INTS[ty] // 8
        if ty == 'bool':
            return 1
        if ty.endswith('*') or ty.endswith('&'):
            return 8
        if ty.startswith('std::vector<'):
            return 24
        if ty.startswith('std::shared_ptr<'):
            return 16
        if ty.startswith('std::map<'):
            return 48
        r = self.record(ty)
        if r:
            return r[0]
        return None

    def leaves(self, ty):
        """relative cell keys of a value of type ty: list of (offs tuple)"""
        ty = self.resolve(ty)
        if ty == 'FF61' or ty in INTS or ty == 'bool' or ty.endswith('*') or ty == 'FF127':
            return [(0,)]
        if ty.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            return [(0,)]
        if ty.startswith(('std::vector<', 'std::deque<')):
            el = targ(ty)[0]
            return [(0, 'len')] + [(0,) + l for l in self.leaves(el)]
        if ty.startswith(('std::map<', 'std::unordered_map<')):
            el = targ(ty)[1]
            return [(0, 'has', 0)] + [(0,) + l for l in self.leaves(el)]
        if ty == 'scl::PRG':
            return [(0, '$rnd')]
        if ty in ('vptr',):
            return [(0,)]
        if ty in OPAQUE_TYPES or ty.startswith(('std::basic_string', 'std::__cxx11', 'std::string')):
            return []
        r = self.record(ty)
        if r is None:
            raise Unsupported('no layout for type ' + ty)
        out = []
        for off, t, nm in r[1]:
            if nm == '$vptr':
                out.append((off,))
                continue
            for l in self.leaves(t):
                out.append((off + l[0],) + l[1:])
        return out

    def leafkind(self, ty, offs):
        """kind of the cell at relative key offs within type ty: 'F', ('I',bits), 'B', ('P',T), 'len', None"""
        ty = self.resolve(ty)
        o = offs[0]
        rest = offs[1:]
        if rest and isinstance(rest[0], str) and rest[0].startswith('$'):
            return 'ghost:' + rest[0]
        if ty == 'FF61':
            return 'F' if o == 0 and not rest else None
        if ty in INTS:
            return ('I', INTS[ty]) if o == 0 else None
        if ty == 'bool':
            return 'B'
        if ty.endswith('*') or ty.endswith('&'):
            return ('P', ty[:-1].strip())
        if ty.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            return ('P', targ(ty)[0]) if o == 0 else None
        if ty.startswith(('std::vector<', 'std::deque<')):
            if rest and rest[0] == 'len':
                return 'len'
            if not rest:
                return None
            return self.leafkind(targ(ty)[0], rest)
        if ty.startswith(('std::map<', 'std::unordered_map<')):
            if rest and rest[0] == 'has':
                return 'B'
            if rest and rest[0] == 'len':
                return 'len'
            if not rest:
                return None
            return self.leafkind(targ(ty)[1], rest)
        if ty == 'vptr':
            return 'vptr'
        r = self.record(ty)
        if r is None:
            return None
        best = None
        for off, t, nm in r[1]:
            if nm == '$vptr':
                if o == off and not rest:
                    return 'vptr'
                continue
            if off <= o:
                sz = self.size(t)
                if sz is not None and o >= off + max(sz, 1):
                    continue
                k = self.leafkind(t, (o - off,) + rest)
                if k is not None:
                    best = k
                    if nm != '$base':
                        return k
        return best

    def subtype(self, ty, off, size=None):
        """types of the sub-objects at byte offset off (outermost first)"""
        ty = self.resolve(ty)
        out = []
        if off == 0:
            out.append(ty)
        if ty.startswith('std::') or ty == 'FF61':
            return out
        r = self.record(ty)
        if r:
            for o, t, nm in r[1]:
                sz = self.size(t)
                if nm != '$vptr' and o <= off and (sz is None or off < o + max(sz, 1)):
                    out += self.subtype(t, off - o)
        return out

    def type_at(self, p):
        """candidate types of the object p points to"""
        ty = p.root.ty
        if ty is None:
            return []
        offs = list(p.offs)
        nf = getattr(p.root, 'fam', 0)
        offs = offs[nf:]
        cur = [ty]
        for i, o in enumerate(offs):
            nxt = []
            for t in cur:
                nxt += self.subtype(t, o)
            if i + 1 < len(offs):
                el = []
                for t in nxt:
                    if t.startswith(('std::vector<', 'std::deque<')):
                        el.append(targ(t)[0])
                    elif t.startswith(('std::map<', 'std::unordered_map<')):
                        el.append(targ(t)[1])
                cur = el
            else:
                return nxt
        return []

    def fieldptr(self, p, cls, *names):
        t = cls
        for n in names:
            off, t = self.lay.field(self.resolve(t), n)
            p = p.plus(off)
            t = self.resolve(t)
        return p, t

    # -------------------------------------------------------- roots
    def sym_root(self, name, ty):
        r = self.roots.get((name, ty))
        if r is None:
            r = Root(name, 'sym', self.resolve(ty))
            r.world = self
            r.fam = 0
            self.roots[(name, ty)] = r
        return r

    def family(self, name, ty, arity):
        key = ('fam', name, ty, arity)
        r = self.roots.get(key)
        if r is None:
            r = Root(name, 'sym', self.resolve(ty))
            r.world = self
            r.fam = arity
            self.roots[key] = r
        return r

    def global_root(self, name, ref):
        r = self.globals.get(name)
        if r is None:
            r = Root(name, 'global')
            r.ref = ref
            self.globals[name] = r
        return r

    def load_global(self, p, ty, ex):
        r = p.root
        if r.name.startswith('_ZTV'):
            return OPQ
        init = self.mod.global_init(r.ref)
        if init is None:
            return OPQ
        v = init
        off = p.path[0]
        while True:
            if v.kind == 'const':
                return const(v.val)
            if v.kind == 'zero':
                return ZERO if ty.kind == 'int' else NULL
            if v.kind == 'agg':
                t = v.ty
                if t.kind == 'struct':
                    i = max(j for j, o in enumerate(t.offs) if o <= off)
                    off -= t.offs[i]
                    v = v.ops[i]
                    continue
                if t.kind == 'array':
                    i = off // t.elem.size
                    off -= i * t.elem.size
                    v = v.ops[i]
                    continue
            return OPQ

    def alloca_root(self, act, ins):
        key = (act.tag, ins.id)
        r = self.alloc_roots.get(key)
        if r is None:
            r = Root('%s' % (ins.name,), 'local')
            r.world = self
            r.ty = None
            r.fam = 0
            t = ins.srcty
            if t.kind == 'struct' and t.name:
                n = re.sub(r'\.\d+$', '', re.sub(r'^(class|struct)\.', '', t.name))
                if n == 'scl::details::FF':
                    r.ty = 'FF61' if t.size == 8 else 'FF127'
                elif n in self.lay.rec and not n.startswith('std::__cxx11'):     # the linker merges isomorphic helper structs
                    r.ty = n
            r.llty = t
            self.alloc_roots[key] = r
        return r

    def heap_reset(self):
        """start of the verification of one function: allocation sites are numbered per class"""
        self.newcount, self.specnew = {}, {}
        for k in [k for k in self.alloc_roots if k[0] == 'heap']:
            del self.alloc_roots[k]

    def spec_new(self, ty, i=0, nks=0):
        """the object(s) allocated by the i-th site for class ty that the body meets"""
        ty = self.resolve(ty)
        r = self.specnew.get((ty, i))
        if r is None:
            r = Root('new:%s#%d' % (ty, i), 'heap', ty)
            r.fam = nks
            r.world = self
            r.out = True
            self.specnew[(ty, i)] = r
        return r

    def heap_root(self, act, ins, ty, ks):
        """object allocated at a site inside len(ks) enclosing loops: a family indexed by ks"""
        key = ('heap', act.tag, ins.id)
        r = self.alloc_roots.get(key)
        if r is None:
            ty = self.resolve(ty) if ty else None
            i = self.newcount.get(ty, 0)
            self.newcount[ty] = i + 1
            r = self.specnew.get((ty, i))
            if r is not None and r.fam != len(ks):
                raise Unsupported('allocation of %s inside %d loops' % (ty, len(ks)))
            if r is None:
                r = Root('new%d' % ins.id, 'heap', ty)
                r.fam = len(ks)
                r.world = self
            self.alloc_roots[key] = r
        path = []
        for k in ks:
            path += [0, k]
        return Ptr(r, path + [0])

    def sym_cell(self, root, offs, nidx):
        rel = offs[root.fam:]
        kind = self.leafkind(root.ty, rel) if root.ty else None
        name = '%s.%s' % (root.name, '.'.join(map(str, offs)))
        args = IDX[:nidx]
        h = self.hooks_sym.get((root.name, offs))
        if h is not None:
            return h(args)
        if kind == 'B':
            return T.boolapp(name, *args)
        if kind == 'len':
            declare_app_bounds(name, 0, MAXSZ)
            return T.app(name, *args)
        if isinstance(kind, tuple) and kind[0] == 'I':
            b = kind[1]
            declare_app_bounds(name, 0, MAXSZ if b >= 32 else (1 << b) - 1)
            return T.app(name, *args)
        if isinstance(kind, tuple) and kind[0] == 'P':
            fam = self.family('*' + name, kind[1], nidx)
            path = []
            for a in args:
                path += [0, a]
            return Ptr(fam, path + [0])
        if kind == 'vptr':
            return VTab(root)
        if kind is None:
            return Opaque(name)
        if kind in ('ghost:$len', 'ghost:$pos', 'ghost:$rnd'):
            declare_app_bounds(name, 0, MAXSZ)
        return T.app(name, *args)

    def isnull(self, p):
        if p.root.name in self.nullable:
            return T.boolapp('null.' + p.root.name, *p.idx)
        return ZERO

    def addr(self, p):
        if isinstance(p, PIte):
            return ite(p.c, self.addr(p.a), self.addr(p.b))
        if isinstance(p, Null):
            return T.app('addr.null')
        return T.app('addr.%s%d.%s' % (p.root.name, p.root.uid, '.'.join(map(str, p.offs))), *p.idx)

    def stored_object(self, p):
        return p.root.kind == 'sym' and p.root.ty is not None and len(p.idx) == p.root.fam and not any(p.offs)

    def elem_size(self, p):
        if p.root.ty in ('unsigned char', 'char') and len(p.path) >= 3:
            return 1
        return None

    # -------------------------------------------------------- bulk copy
    def copy_value(self, st, dst, src, ty, fresh_dst=False):
        """st (owned copy) : *dst := *src for type ty"""
        if isinstance(src, PIte):
            raise Unsupported('bulk copy through conditional pointer')
        for l in self.leaves(ty):
            self.copy_leaf(st, dst, src, l)

    def copy_leaf(self, st, dst, src, l):
        dk = dst.offs[:-1] + (dst.offs[-1] + l[0],) + l[1:]
        sk = src.offs[:-1] + (src.offs[-1] + l[0],) + l[1:]
        v = getcell_mem(st.mem, (src.root, sk))
        ns, nd = len(src.idx), len(dst.idx)
        inner = sum(1 for o in l if not isinstance(o, str)) - 1
        mp = {}
        for i, e in enumerate(src.idx):
            mp[IDXA[i]] = e
        for j in range(inner):
            mp[IDXA[ns + j]] = IDX[nd + j]
        v = psub(v, mp) if mp else v
        if inner and isinstance(v, Poly) and any(a.op == 'ind' for m, _ in v.t for a, e in m):
            # elements past the length are unspecified: only live ones need the exact value
            ctx = st.ctx
            acc = sk[:len(src.offs)]
            for j in range(inner):
                n = getcell_mem(st.mem, (src.root, acc + ('len',)))
                if not isinstance(n, Poly):
                    break
                x = IDX[nd + j]
                ctx = ctx.plus(ge0(x), lt(x, psub(n, mp) if mp else n))
                acc = acc + (l[1 + j],)
            v = simp(v, ctx)
        write_key(st, dst.root, dk, dst.idx, v)

    def set_vec(self, st, p, ln, f, elty=None):
        """st owned; vector at p := length ln, content given by f(leaf, IDXs)"""
        write_key(st, p.root, p.offs + ('len',), p.idx, lift(ln))
        if f is not None:
            n = len(p.idx)
            for leaf, fn in f:
                key = p.offs + leaf
                m = sum(1 for o in leaf if not isinstance(o, str))
                write_key(st, p.root, key, p.idx, fn(*IDX[n:n + m]))

    def veclen(self, st, p):
        return read_key(st, p.root, p.offs + ('len',), p.idx)

    # -------------------------------------------------------- calls
    def dispatch(self, ex, act, ins, st, fn, args, ro):
        dem = fn.dem
        c = self.contracts.get(dem)
        if c is not None and dem not in ex.nocontract:
            ex.stats['contracts_used'].add(dem)
            return c.apply(ex, act, ins, st, args, ro)
        h = self.model_for(dem)
        if h is not None:
            f, m = h
            ex.stats['models'].add(dem)
            n0 = len(ro.throws)
            try:
                return f(Call(self, ex, act, ins, st, args, ro, fn, m))
            except (Unsupported, AttributeError):
                c = next((a.c for a in args if isinstance(a, PIte)), None)
                if c is None:
                    raise
                del ro.throws[n0:]
                return self.split(ex, act, ins, st, fn, args, ro, c)
        if fn.isdecl:
            if fn.name.startswith('llvm.'):
                return self.intrinsic(ex, act, ins, st, fn, args, ro)
            raise Unsupported('external function ' + dem)
        return ex.inline(act, ins, st, fn, args, ro)

    def split(self, ex, act, ins, st, fn, args, ro, c):
        """the call through a conditional pointer: once under the condition, once under its negation"""
        outs = []
        for cond, pick in ((c, 'a'), (bnot(c), 'b')):
            s = st.fork(cond)
            if s is None:
                continue
            got = [getattr(a, pick) if isinstance(a, PIte) and a.c is c else a for a in args]
            s2, r = self.dispatch(ex, act, ins, s, fn, got, ro)
            if s2 is not None:
                outs.append((s2, {'r': r}))
        if not outs:
            return None, None
        s, v = merge_states(outs)
        return s, v['r']

    _mf = None

    def model_for(self, dem):
        if self._mf is None:
            self._mf = {}
        if dem in self._mf:
            return self._mf[dem]
        r = None
        for rx, f in self.models:
            m = rx.match(dem)
            if m:
                r = (f, m)
                break
        self._mf[dem] = r
        return r

    def intrinsic(self, ex, act, ins, st, fn, args, ro):
        n = fn.name
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stack')):
            return st, OPQ
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            sz = cval(args[2])
            if isinstance(args[0], Opaque) or isinstance(args[1], Opaque):
                return st, OPQ
            return self.memcpy(st, args[0], args[1], sz), OPQ
        if n.startswith('llvm.memset'):
            if isinstance(args[0], Ptr) and args[0].root.kind == 'local':
                s = st.copy()
                sz = cval(args[2])
                if sz is not None and cval(args[1]) == 0:
                    p = args[0]
                    for o in range(0, sz, 8):
                        q = p.plus(o)
                        write_key(s, q.root, q.offs, q.idx, ZERO)
                return s, OPQ
            raise Unsupported('memset')
        if n.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            w = ins.ty.bits
            f = ex.uns if n[5] == 'u' else ex.sig
            a, b = f(args[0], w, st), f(args[1], w, st)
            c = le(a, b)
            return st, ite(c, b, a) if 'max' in n else ite(c, a, b)
        raise Unsupported('intrinsic ' + n)

    def memcpy(self, st, d, s, sz):
        if sz is None:
            raise Unsupported('memcpy of symbolic size')
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported('memcpy %r %r' % (d, s))
        if s.root.kind == 'global':
            return st
        st = st.copy()
        tys = [t for t in self.type_at(s) + self.type_at(d) if self.size(t) == sz]
        if tys:
            self.copy_value(st, d, s, tys[0])
            return st
        # a range of consecutive fields of a typed object
        for q in (s, d):
            lo = q.path[-1]
            if not isinstance(lo, int):
                continue
            for t in self.type_at(Ptr(q.root, q.path[:-1] + (0,))):
                if self.size(t) is None or self.size(t) < lo + sz or not self.record(self.resolve(t)):
                    continue
                for l in self.leaves(t):
                    if lo <= l[0] < lo + sz:
                        self.copy_leaf(st, d, s, (l[0] - lo,) + l[1:])
                return st
        # untyped: copy the cells known at the source
        lo = s.path[-1]
        n = len(s.offs)
        done = False
        keys = [k for k in list(st.mem) if k[0] is s.root and k[1][:n - 1] == s.offs[:-1] and
                isinstance(k[1][n - 1], int) and lo <= k[1][n - 1] < lo + sz]
        for k in keys:
            l = (k[1][n - 1] - lo,) + k[1][n:]
            self.copy_leaf(st, d, s, l)
            done = True
        if not done:
            if s.root.kind == 'sym':
                raise Unsupported('memcpy from untyped symbolic object %r (%s)' % (s, self.type_at(s)))
        return st

    def bases(self, cls):
        out = [cls]
        r = self.lay.rec.get(cls)
        if r:
            for off, t, nm in r[1]:
                if nm == '$base':
                    out += self.bases(t)
        return out

    def virtual_call(self, ex, act, ins, st, slot, args, ro):
        """a call through a vtable slot is justified by the contract of the method as declared in a base
        class; every overrider is verified against that contract"""
        o = slot.obj
        ty = self.type_at(Ptr(o, (0,) * (1 + 2 * getattr(o, 'fam', 0)))) if isinstance(o, Root) and o.ty else []
        m = None
        for t in ([o.ty] if isinstance(o, Root) and o.ty else []) + ty:
            m = self.vtable_method(t, slot.slot)
            if m:
                break
        if m is None:
            raise Unsupported('virtual call on %r slot %s' % (slot.obj, slot.slot))
        for b in self.bases(t):
            c = self.contracts.get('virtual %s::%s' % (b, m))
            if c is not None:
                ex.stats['contracts_used'].add(c.name)
                return c.apply(ex, act, ins, st, args, ro)
        raise Unsupported('virtual call without contract: %s::%s' % (t, m))

    def vtable_method(self, cls, slot):
        """'method(params)' at a vtable slot of cls (or of a derived class where cls declares it pure)"""
        vts = self.mod.vtables()
        cand = [cls] + [c for c in vts if c != cls and cls in self.bases(c)]
        for c in cand:
            n = vts.get(c)
            if n is None:
                continue
            arr = n.ops[0].ops
            if 2 + slot >= len(arr):
                continue
            e = arr[2 + slot]
            if e.kind == 'func' and '__cxa_pure' not in e.val.name:
                d = e.val.dem
                i, depth = len(d), 0
                i = d.index('(') if d.startswith('tp::') else d.rindex('(')
                return d[d.rindex('::', 0, i) + 2:]
        return None


OPAQUE_TYPES = {'std::mutex', 'std::string', 'std::thread', 'std::condition_variable', 'std::ostream', 'Kind',
                '__m128i', 'PRG'}


class Call:
    """view of one call for a model or contract"""
    __slots__ = ('w', 'ex', 'act', 'ins', 'st', 'args', 'ro', 'fn', 'm')

    def __init__(self, w, ex, act, ins, st, args, ro, fn, m):
        self.w, self.ex, self.act, self.ins, self.st, self.args, self.ro, self.fn, self.m = \
            w, ex, act, ins, st, args, ro, fn, m

    def throw(self, cond, ty):
        """throw ty if cond; returns the continuing state (or None)"""
        cond = simp(cond, self.st.ctx)
        if cond is ZERO:
            return self.st
        self.ro.throws.append((self.st.cond + (cond,), ty))
        if cond is ONE:
            return None
        self.st = self.st.fork(bnot(cond))
        return self.st

    def own(self):
        self.st = self.st.copy()
        return self.st

    def F(self, p):
        """field value at pointer p"""
        if isinstance(p, PIte):
            return ite(p.c, self.F(p.a), self.F(p.b))
        v = read_key(self.st, p.root, p.offs, p.idx)
        if not isinstance(v, Poly):
            raise Unsupported('not a field value: %r' % (v,))
        return v

    def u64(self, v, w=64):
        return self.ex.uns(v, w, self.st)


def install_models(w):
    M = w.models

    def model(rx):
        def d(f):
            M.append((re.compile(rx + r'$'), f))
            return f
        return d

    # ------------------------------------------------ field elements (contracts proved by C01/C02)
    @model(r'FF61::FF\(int\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs, p.idx, c.ex.sig(c.args[1], 32, st))
        return st, None

    @model(r'FF61::FF\(\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs, p.idx, ZERO)
        return st, None

    @model(r'FF61::operator([+\-*/])=\(FF61 const&\)')
    def _(c):
        op = c.m.group(1)
        a, b = c.F(c.args[0]), c.F(c.args[1])
        if op == '/':
            if c.throw(feq(b, ZERO), 'std::logic_error') is None:
                return None, None
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a * inv(b)}[op]()
        st = c.ex.store_val(c.st, c.args[0], r)
        return st, c.args[0]

    @model(r'scl::details::operator([+\-*/])\(FF61 const&, FF61 const&\)')
    def _(c):
        op = c.m.group(1)
        a, b = c.F(c.args[0]), c.F(c.args[1])
        if op == '/':
            if c.throw(feq(b, ZERO), 'std::logic_error') is None:
                return None, None
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a * inv(b)}[op]()
        return c.st, r

    @model(r'scl::details::operator(==|!=)\(FF61 const&, FF61 const&\)')
    def _(c):
        e = feq(c.F(c.args[0]), c.F(c.args[1]))
        return c.st, e if c.m.group(1) == '==' else bnot(e)

    @model(r'FF61::Equal\(FF61 const&\) const')
    def _(c):
        return c.st, feq(c.F(c.args[0]), c.F(c.args[1]))

    @model(r'scl::details::operator-\(FF61 const&\)')
    def _(c):
        return c.st, -c.F(c.args[0])

    @model(r'FF61::Negate\(\)')
    def _(c):
        return c.ex.store_val(c.st, c.args[0], -c.F(c.args[0])), c.args[0]

    @model(r'FF61::Negated\(\)')
    def _(c):
        return c.st, -c.F(c.args[0])

    @model(r'FF61::Inver(t\(\)|se\(\) const)')
    def _(c):
        a = c.F(c.args[0])
        if c.throw(feq(a, ZERO), 'std::logic_error') is None:
            return None, None
        if c.m.group(1)[0] == 't':
            return c.ex.store_val(c.st, c.args[0], inv(a)), c.args[0]
        return c.st, inv(a)

    @model(r'FF61::Random\(scl::PRG&\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        key = p.offs + ('$rnd',)
        ctr = read_key(st, p.root, key, p.idx)
        declare_prg(p)
        write_key(st, p.root, key, p.idx, ctr + 1)
        return st, T.app('rnd', c.w.addr(p), ctr)

    def declare_prg(p):
        pass

    # ------------------------------------------------ std::vector
    V = r'std::vector<(.+)>::'

    def vecm(rx):
        return model(V + rx)

    def elts(c):
        return c.w.leaves(c.m.group(1))

    @vecm(r'vector\(\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs + ('len',), p.idx, ZERO)
        return st, None

    @vecm(r'vector\(unsigned long, std::allocator<.+> const&\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        n = c.u64(c.args[1])
        ty = c.w.resolve(c.m.group(1))
        # value-initialised elements
        if ty == 'FF61' or ty in INTS or ty == 'bool':
            f = [((0,), lambda *i: ZERO)]
        else:
            f = []
            for l in c.w.leaves(ty):
                k = c.w.leafkind(ty, l)
                if k == 'F' or k == 'len' or (isinstance(k, tuple) and k[0] == 'I'):
                    f.append((l, lambda *i: ZERO))
                elif isinstance(k, tuple) and k[0] == 'P':
                    f.append((l, lambda *i: NULL))
                elif k == 'B':
                    f.append((l, lambda *i: ZERO))
        c.w.set_vec(st, p, n, f)
        return st, None

    @vecm(r'vector\(unsigned long, (.+) const&, std::allocator<.+> const&\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        n = c.u64(c.args[1])
        src = c.args[2]
        fill_vec(c, st, p, n, src, c.m.group(1))
        return st, None

    def fill_vec(c, st, p, n, src, ty):
        write_key(st, p.root, p.offs + ('len',), p.idx, n)
        nd = len(p.idx)
        for l in c.w.leaves(ty):
            sk = src.offs[:-1] + (src.offs[-1] + l[0],) + l[1:]
            v = getcell_mem(st.mem, (src.root, sk))
            inner = sum(1 for o in l if not isinstance(o, str)) - 1
            mp = {IDXA[i]: e for i, e in enumerate(src.idx)}
            for j in range(inner):
                mp[IDXA[len(src.idx) + j]] = IDX[nd + 1 + j]
            v = psub(v, mp) if mp else v
            write_key(st, p.root, p.offs + l, p.idx, v)

    @vecm(r'vector\(std::initializer_list<.+>, std::allocator<.+> const&\)')
    def _(c):
        st = c.own()
        p, arr, n = c.args[0], c.args[1], cval(c.args[2])
        if n is None or not isinstance(arr, Ptr):
            raise Unsupported('initializer_list')
        write_key(st, p.root, p.offs + ('len',), p.idx, const(n))
        sz = c.w.size(c.m.group(1))
        for i in range(n):
            src = Ptr(arr.root, arr.path[:-2] + (arr.path[-2] + i, 0)) if len(arr.path) >= 3 else arr.plus(i * sz)
            c.w.copy_value(st, p.elem(const(i)), src, c.m.group(1))
        return st, None

    @vecm(r'vector\(std::vector<.+> ?(const&|&&)\)')
    def _(c):
        st = c.own()
        if isinstance(c.args[1], PIte):
            raise Unsupported('vector copy through conditional pointer')
        c.w.copy_value(st, c.args[0], c.args[1], 'std::vector<%s>' % c.m.group(1))
        if c.m.group(2) == '&&':
            p = c.args[1]
            write_key(st, p.root, p.offs + ('len',), p.idx, ZERO)
        return st, None

    @vecm(r'operator=\(std::vector<.+> ?(const&|&&)\)')
    def _(c):
        st = c.own()
        c.w.copy_value(st, c.args[0], c.args[1], 'std::vector<%s>' % c.m.group(1))
        if c.m.group(2) == '&&' and c.args[0] != c.args[1]:
            p = c.args[1]
            write_key(st, p.root, p.offs + ('len',), p.idx, ZERO)
        return st, c.args[0]

    @vecm(r'vector<__gnu_cxx::__normal_iterator<.*>, void>\(__gnu_cxx::__normal_iterator<.*>, __gnu_cxx::__normal_iterator<.*>, std::allocator<.*> const&\)')
    def _(c):
        p, b, e = c.args[0], c.args[1], c.args[2]
        n = c.ex.ptrdiff(e, b).n
        st = c.own()
        if not st.ctx.prove(ge0(n)):
            raise Unsupported('iterator range not provably ordered')
        write_key(st, p.root, p.offs + ('len',), p.idx, n)
        nd, ns = len(p.idx), len(b.idx)
        for l in c.w.leaves(c.m.group(1)):
            sk = b.offs[:-1] + (b.offs[-1] + l[0],) + l[1:]
            v = getcell_mem(st.mem, (b.root, sk))
            inner = sum(1 for o in l if not isinstance(o, str)) - 1
            mp = {IDXA[i]: x for i, x in enumerate(b.idx[:-1])}
            mp[IDXA[ns - 1]] = IDX[nd] + b.idx[-1]
            for j in range(inner):
                mp[IDXA[ns + j]] = IDX[nd + 1 + j]
            write_key(st, p.root, p.offs + l, p.idx, psub(v, mp))
        return st, None

    @vecm(r'~vector\(\)')
    def _(c):
        return c.st, None

    @vecm(r'(size|empty)\(\) const')
    def _(c):
        p = c.args[0]
        n = vecl(c, p)
        return c.st, n if c.m.group(2) == 'size' else T.eq(n, 0)

    def vecl(c, p):
        if isinstance(p, PIte):
            return ite(p.c, vecl(c, p.a), vecl(c, p.b))
        if not isinstance(p, Ptr):
            raise Unsupported('vector operation on %r' % (p,))
        return c.w.veclen(c.st, p)

    @vecm(r'(reserve\(unsigned long\)|shrink_to_fit\(\))')
    def _(c):
        return c.st, None

    @vecm(r'capacity\(\) const')
    def _(c):
        raise Unsupported('vector::capacity')

    @vecm(r'(operator\[\]|at)\(unsigned long\)( const)?')
    def _(c):
        i = c.u64(c.args[1])

        def f(p):
            if isinstance(p, PIte):
                return vite(p.c, f(p.a), f(p.b))
            if not isinstance(p, Ptr):
                raise Unsupported('vector operation on %r' % (p,))
            return p.elem(i)
        if c.m.group(2) == 'at':
            if c.throw(bnot(lt(i, vecl(c, c.args[0]))), 'std::out_of_range') is None:
                return None, None
        return c.st, f(c.args[0])

    @vecm(r'(begin|cbegin|data)\(\)( const)?')
    def _(c):
        return c.st, c.args[0].elem(ZERO)

    @vecm(r'c?end\(\)( const)?')
    def _(c):
        return c.st, c.args[0].elem(vecl(c, c.args[0]))

    @vecm(r'front\(\)( const)?')
    def _(c):
        return c.st, c.args[0].elem(ZERO)

    @vecm(r'back\(\)( const)?')
    def _(c):
        return c.st, c.args[0].elem(vecl(c, c.args[0]) - 1)

    @vecm(r'clear\(\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs + ('len',), p.idx, ZERO)
        return st, None

    @vecm(r'pop_back\(\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs + ('len',), p.idx, vecl(c, p) - 1)
        return st, None

    @vecm(r'resize\(unsigned long\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        n = c.u64(c.args[1])
        old = vecl(c, p)
        ty = c.w.resolve(c.m.group(1))
        for l in c.w.leaves(ty):
            k = c.w.leafkind(ty, l)
            if sum(1 for o in l if not isinstance(o, str)) > 1 and l[-1] != 'has':
                continue            # elements of an element: none (its length becomes 0)
            z = NULL if isinstance(k, tuple) and k[0] == 'P' else ZERO
            if not (k == 'F' or k == 'len' or k == 'B' or (isinstance(k, tuple) and k[0] in 'IP')):
                raise Unsupported('resize of vector<%s>' % ty)
            key = (p.root, p.offs + l)
            cur = psub(getcell_mem(st.mem, key), dict(zip(IDXA, p.idx)))
            write_key(st, p.root, p.offs + l, p.idx, vite(lt(IDX[len(p.idx)], old), cur, z))
        write_key(st, p.root, p.offs + ('len',), p.idx, n)
        return st, None

    @vecm(r'push_back\((.+?) ?(const&|&&)\)')
    def _(c):
        return push(c, None)

    def push(c, ret):
        st = c.own()
        p = c.args[0]
        if isinstance(p, PIte):
            raise Unsupported('push_back through conditional pointer')
        n = vecl(c, p)
        src = c.args[1]
        ty = c.m.group(1)
        if isinstance(src, PIte):
            raise Unsupported('push_back from conditional pointer')
        c.w.copy_value(st, p.elem(n), src, ty)
        write_key(st, p.root, p.offs + ('len',), p.idx, n + 1)
        return st, p.elem(n)

    @model(r'.*std::vector<(.+)>::emplace_back<(.*)>\((.*)\)')
    def _(c):
        ty = c.w.resolve(c.m.group(1))
        # group(1) is greedy over nested text: recompute from the mangled element type
        ty = elem_of(c.fn.dem)
        arg = c.m.group(3)
        base = re.sub(r'( const)?&+$', '', arg).strip()
        st = c.own()
        p = c.args[0]
        n = vecl(c, p)
        dst = p.elem(n)
        if base == ty:
            c.w.copy_value(st, dst, c.args[1], ty)
            if arg.endswith('&&') and ty.startswith('std::vector<'):
                q = c.args[1]
                write_key(st, q.root, q.offs + ('len',), q.idx, ZERO)
        elif ty == 'FF61' and base == 'int':
            v = read_key(st, c.args[1].root, c.args[1].offs, c.args[1].idx)
            write_key(st, dst.root, dst.offs, dst.idx, c.ex.sig(v, 32, st))
        elif ty == 'FF61' and arg == '':
            write_key(st, dst.root, dst.offs, dst.idx, ZERO)
        elif ty.startswith('std::vector<') and arg == '':
            write_key(st, dst.root, dst.offs + ('len',), dst.idx, ZERO)
        elif ty.startswith('std::shared_ptr<') and base.startswith('std::shared_ptr<'):
            q = c.args[1]
            v = read_key(st, q.root, q.offs, q.idx)
            write_key(st, dst.root, dst.offs, dst.idx, v)
        else:
            # construct in place through the element type's constructor
            return construct(c, st, ty, dst, c.args[1:], n, p)
        write_key(st, p.root, p.offs + ('len',), p.idx, n + 1)
        return st, dst

    def construct(c, st, ty, dst, args, n, p):
        st = construct_at(c, st, ty, dst, args)
        if st is None:
            return None, None
        st = st.copy()
        write_key(st, p.root, p.offs + ('len',), p.idx, n + 1)
        return st, dst

    def construct_at(c, st, ty, dst, args):
        """run the constructor of ty that takes len(args) parameters (args are references) at dst"""
        from .ll import split_params
        short = re.sub(r'<.*', '', ty).rsplit('::', 1)[-1]
        cand = []
        for d, fs in c.w.mod.bydem.items():
            if d.startswith(ty + '::' + short + '('):
                sp = split_params(d)
                if sp and len(sp[2]) == len(args):
                    cand += [f for f in fs if not f.isdecl][:1]
        # copy and move constructors only when nothing else fits
        own = [f for f in cand if not re.match(re.escape(ty) + r'( const)?&', split_params(f.dem)[2][0] if args else '')]
        cand = own or cand
        # forwarded types decide between overloads
        if len(cand) != 1:
            raise Unsupported('constructor of %s with %d arguments' % (ty, len(args)))
        fn = cand[0]
        vals = [dst]
        for t, a in zip(split_params(fn.dem)[2], args):
            if t.endswith('&') or t.endswith('*') and False:
                vals.append(a)
                continue
            v = read_key(st, a.root, a.offs, a.idx)
            if t.startswith(('std::shared_ptr<',)):
                r = Root('byval', 'local')
                r.world, r.ty, r.fam = c.w, c.w.resolve(t), 0
                write_key(st, r, (0,), (), v)
                vals.append(Ptr(r, (0,)))
            else:
                vals.append(v)
        st, _ = c.w.dispatch(c.ex, c.act, c.ins, st, fn, vals, c.ro)
        return st

    def elem_of(dem):
        i = dem.index('std::vector<', dem.index('>::emplace_back') * 0)
        # the class prefix is the last balanced 'std::vector<...>' before '::emplace_back'
        j = dem.rindex('>::emplace_back')
        d, k = 0, j
        while k >= 0:
            if dem[k] == '>':
                d += 1
            elif dem[k] == '<':
                d -= 1
                if d == 0:
                    break
            k -= 1
        return dem[k + 1:j]

    @model(r'bool std::operator(==|!=)<(.+)>\(std::vector<(.+)> const&, std::vector<.+> const&\)')
    def _(c):
        raise Unsupported('vector ==')

    # iterators (pointers)
    @model(r'__gnu_cxx::__normal_iterator<.+>::__normal_iterator\(.*\)')
    def _(c):
        st = c.own()
        p, q = c.args
        v = read_key(st, q.root, q.offs, q.idx)
        write_key(st, p.root, p.offs, p.idx, v)
        return st, None

    @model(r'.*__gnu_cxx::__normal_iterator<.+>::difference_type __gnu_cxx::operator-<.*')
    def _(c):
        a, b = [read_key(c.st, x.root, x.offs, x.idx) for x in c.args]
        return c.st, c.ex.ptrdiff(a, b).n

    # allocators, misc no-ops
    @model(r'std::(__new_)?allocator<.*>::~?(__new_)?allocator\(.*\)')
    def _(c):
        return c.st, None

    @model(r'std::__new_allocator<.*>::~?__new_allocator\(.*\)')
    def _(c):
        return c.st, None

    # ------------------------------------------------ std::shared_ptr
    SP = r'std::(?:__)?shared_ptr(?:_access)?<(.+?)(?:, \(__gnu_cxx::_Lock_policy\)2.*)?>::'

    @model(SP + r'(get|operator->|operator\*)\(\) const')
    def _(c):
        def f(p):
            if isinstance(p, PIte):
                return vite(p.c, f(p.a), f(p.b))
            return read_key(c.st, p.root, p.offs, p.idx)
        return c.st, f(c.args[0])

    @model(SP + r'operator bool\(\) const')
    def _(c):
        p = read_key(c.st, c.args[0].root, c.args[0].offs, c.args[0].idx)
        return c.st, bnot(c.ex.ptreq(p, NULL))

    @model(SP + r'(__)?shared_ptr\((std::nullptr_t|decltype\(nullptr\))?\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs, p.idx, NULL)
        return st, None

    @model(SP + r'(?:__)?shared_ptr(?:<.*>)?\(std::(?:__)?shared_ptr<.*> ?(const&|&&)\)')
    def _(c):
        st = c.own()
        p, q = c.args[0], c.args[1]
        v = read_key(st, q.root, q.offs, q.idx) if isinstance(q, Ptr) else OPQ
        if c.m.group(2) == '&&':
            write_key(st, q.root, q.offs, q.idx, NULL)
        write_key(st, p.root, p.offs, p.idx, v)
        return st, None

    @model(r'.*' + SP + r'operator=(?:<.*>)?\(std::(?:__)?shared_ptr<.*> ?(const&|&&)\)')
    def _(c):
        st = c.own()
        p, q = c.args[0], c.args[1]
        v = read_key(st, q.root, q.offs, q.idx)
        if c.m.group(2) == '&&' and p != q:
            write_key(st, q.root, q.offs, q.idx, NULL)
        write_key(st, p.root, p.offs, p.idx, v)
        return st, p

    @model(SP + r'~(__)?shared_ptr\(\)')
    def _(c):
        return c.st, None

    @model(r'bool std::operator(==|!=)<(.+)>\(std::shared_ptr<.+> const&, std::shared_ptr<.+> const&\)')
    def _(c):
        a, b = [read_key(c.st, x.root, x.offs, x.idx) for x in c.args]
        e = c.ex.ptreq(a, b)
        return c.st, e if c.m.group(1) == '==' else bnot(e)

    @model(r'bool std::operator(==|!=)<(.+)>\(std::shared_ptr<.+> const&, (std::nullptr_t|decltype\(nullptr\))\)')
    def _(c):
        a = read_key(c.st, c.args[0].root, c.args[0].offs, c.args[0].idx)
        e = c.ex.ptreq(a, NULL)
        return c.st, e if c.m.group(1) == '==' else bnot(e)

    @model(r'.*std::make_unique<unsigned char ?\[\]>\(unsigned long\)')
    def _(c):
        # n zero bytes
        st = c.own()
        ks = c.ex.kstack
        p = c.w.heap_root(c.act, c.ins, 'unsigned char', ks)
        p.root.fam = len(ks) + 1
        p = Ptr(p.root, p.path + (ZERO, 0))
        mem = st.mem
        mem[(p.root, p.offs)] = ZERO
        q = c.args[0]
        write_key(st, q.root, q.offs, q.idx, p)
        return st, None

    @model(r'std::unique_ptr<unsigned char ?\[\].*>::get\(\) const')
    def _(c):
        q = c.args[0]
        return c.st, read_key(c.st, q.root, q.offs, q.idx)

    @model(r'std::unique_ptr<unsigned char ?\[\].*>::~unique_ptr\(\)')
    def _(c):
        return c.st, None

    @model(r'std::deque<.+>::deque\(\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs + ('len',), p.idx, ZERO)
        return st, None

    @model(r'std::(array<std::shared_ptr<.+>::~array|deque<.+>::~deque|condition_variable::~?condition_variable|mutex::~?mutex)\(\)')
    def _(c):
        return c.st, None

    @model(r'std::shared_ptr<.*> std::make_shared<(.+)>\((.*)\)')
    def _(c):
        from .ll import split_params
        ty = c.w.resolve(c.m.group(0)[c.m.group(0).index('make_shared<') + 12:])
        ty = c.w.resolve(targ('make_shared<' + c.fn.dem.split('make_shared<', 1)[1].rsplit('>(', 1)[0] + '>')[0])
        p = c.w.heap_root(c.act, c.ins, ty, c.ex.kstack)
        st = construct_at(c, c.own(), ty, p, c.args[1:])
        if st is None:
            return None, None
        st = st.copy()
        d = c.args[0]
        write_key(st, d.root, d.offs, d.idx, p)
        return st, None

    # ------------------------------------------------ map
    MP = r'std::(?:unordered_)?map<(.+)>::'

    @model(MP + r'operator\[\]\((.+?) ?(const&|&&)\)')
    def _(c):
        st = c.own()
        ty = 'std::map<%s>' % c.m.group(1)
        kt, vt = targ(ty)[:2]
        p, q = c.args
        kv = read_key(st, q.root, q.offs, q.idx)
        key = c.w.addr(kv) if isinstance(kv, (Ptr, PIte, Null)) else c.ex.uns(kv, 64, st)
        e = p.elem(key)
        hask = p.offs + ('has', 0)
        has = read_key(st, p.root, hask, p.idx + (key,))
        has = simp(has, st.ctx)
        if has is not ONE:
            for l in c.w.leaves(vt):
                k = c.w.leafkind(vt, l)
                if k in ('F', 'len', 'B') or isinstance(k, tuple) and k[0] == 'I':
                    d = ZERO
                elif isinstance(k, tuple) and k[0] == 'P':
                    d = NULL
                else:
                    raise Unsupported('map default of ' + vt)
                ek = p.offs + l
                if len(l) > 1 and k != 'len':
                    continue
                cur = read_key(st, p.root, ek, p.idx + (key,))
                write_key(st, p.root, ek, p.idx + (key,), vite(has, cur, d))
            write_key(st, p.root, hask, p.idx + (key,), ONE)
        return st, e

    @model(MP + r'(?:unordered_)?map\(\)')
    def _(c):
        st = c.own()
        p = c.args[0]
        write_key(st, p.root, p.offs + ('has', 0), p.idx + (IDX[len(p.idx)],), ZERO)
        return st, None

    @model(MP + r'~(?:unordered_)?map\(\)')
    def _(c):
        return c.st, None

    @model(MP + r'operator=\(.*(const&|&&)\)')
    def _(c):
        st = c.own()
        c.w.copy_value(st, c.args[0], c.args[1], 'std::map<%s>' % c.m.group(1))
        return st, c.args[0]

    # ------------------------------------------------ exceptions / strings / streams: opaque
    @model(r'__cxa_allocate_exception')
    def _(c):
        return c.st, Opaque('exn')

    @model(r'__cxa_free_exception')
    def _(c):
        return c.st, None

    @model(r'__cxa_throw')
    def _(c):
        ti = c.args[1]
        name = ti.root.name if isinstance(ti, Ptr) else '?'
        c.ro.throws.append((c.st.cond, exname(name)))
        return None, None

    @model(r'__assert_fail')
    def _(c):
        c.ro.throws.append((c.st.cond, 'assert'))
        return None, None

    @model(r'std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|exception).*')
    def _(c):
        return c.st, OPQ

    @model(r'.*(std::__cxx11::|std::basic_string|std::basic_ostream|std::ostream|std::allocator<char>|std::basic_stringstream|std::to_string|std::__cxx11).*')
    def _(c):
        return c.st, OPQ

    # std algorithms with bodies worth modelling directly
    @model(r'(?:.* )?std::(copy|move)<__gnu_cxx::__normal_iterator<.*>, __gnu_cxx::__normal_iterator<.*>>\(.*\)')
    def _(c):
        raise Unsupported('std::copy')


def exname(n):
    m = re.match(r'_ZTISt(\d+)(.*)', n)
    if m:
        return 'std::' + m.group(2)[:int(m.group(1))]
    return n
