"""Contracts: each is a functional specification of one function of /repo, keyed by its demangled
name.  The same object is (a) applied as the callee's summary wherever the function is called and
(b) discharged against the function's current body."""
import re
import time
from .terms import *
from . import terms as T
from . import cex
from .ctx import Ctx, simp, declare_app_bounds, STATS
from .exec import (instantiate, Executor, State, Ptr, NULL, Null, PIte, Opaque, OPQ, IDX, IDXA, Root, Unsupported, getcell_mem,
                   read_key, write_key, psub, vite, equal, prove_zero, canon_binders, merge_states, Outcome, MAXSZ, is_bool)
from .world import World, Call, targ, INTS


class View:
    """what a contract may talk about: the arguments, the pre-state, and the post-state it builds"""

    def __init__(self, w, ex, act, ins, st, args, ro):
        self.w, self.ex, self.act, self.ins, self.pre, self.args, self.ro = w, ex, act, ins, st, args, ro
        self.st = st.copy()
        self.ret = None
        self.dead = False
        self.freed = []

    def free(self, p):
        """the contract does not determine the cell at p"""
        g = ONE
        for x, y in zip(IDX, p.idx):
            g = g * T.eq(x, y)
        self.freed.append(((p.root, p.offs), g))

    # --- reading (pre-state)
    def F(self, p):
        return read_key(self.pre, p.root, p.offs, p.idx)

    def int(self, i, w=64):
        return self.ex.uns(self.args[i], w, self.pre)

    def sint(self, i, w=32):
        return self.ex.sig(self.args[i], w, self.pre)

    def fld(self, p, cls, *names):
        q, t = self.w.fieldptr(p, cls, *names)
        return q

    def rd(self, p, cls, *names):
        q, t = self.w.fieldptr(p, cls, *names)
        return read_key(self.pre, q.root, q.offs, q.idx)

    def len(self, p, st=None):
        return read_key(st or self.pre, p.root, p.offs + ('len',), p.idx)

    def el(self, p, i, *more):
        q = p.elem(i)
        for m in more:
            q = q.elem(m)
        return read_key(self.pre, q.root, q.offs, q.idx)

    # --- generator state (ghost): number of field elements drawn so far
    def rnd(self, g):
        return read_key(self.pre, g.root, g.offs + ('$rnd',), g.idx)

    def rndval(self, g, i):
        return T.app('rnd', self.w.addr(g), i)

    def setrnd(self, g, n):
        write_key(self.st, g.root, g.offs + ('$rnd',), g.idx, n)

    # --- exceptions
    def throws(self, cond, ty):
        if self.dead:
            return
        cond = simp(cond, self.st.ctx)
        if cond is ZERO:
            return
        if self.ins is not None and not self.ex.optimistic and any(a.op == 'ind' and a.args[0] == 'all' for a in T.atoms_of(cond)):
            # a call: the quantified facts taken at the counters of the surrounding loops may exclude it
            ctx = self.st.ctx
            for x in self.ex.kstack:
                ctx = instantiate(ctx, x)
            if prove_zero(cond, ctx, 4):
                return
        self.ro.throws.append((self.st.cond + (cond,), ty))
        if cond is ONE:
            self.dead = True
            return
        self.st = self.st.fork(bnot(cond)).copy()

    # --- writing (post-state)
    def setlen(self, p, n):
        write_key(self.st, p.root, p.offs + ('len',), p.idx, lift(n))

    def set(self, p, v):
        write_key(self.st, p.root, p.offs, p.idx, v if not isinstance(v, int) else const(v))

    def setvec(self, p, n, f, depth=1):
        """vector of scalars at p := length n, element i is f(i)"""
        if n is not None:
            self.setlen(p, n)
        nd = len(p.idx)
        write_key(self.st, p.root, p.offs + (0,), p.idx, f(IDX[nd]))

    def new(self, ty, i=0):
        return Ptr(self.w.spec_new(ty, i), (0,))

    def copy(self, dst, src, ty):
        self.w.copy_value(self.st, dst, src, ty)


class Contract:
    def __init__(self, name, types, spec, pre=None, init=None, hints=None):
        # hints: loop invariants supplied by the contract: view -> {cell: f(counters, initial value)}, the
        # closed form of the cell in a nest of loops at the given iterations (None: not for that nest).
        # They are candidates only: the loop rule proves base and step as for the forms it finds itself
        # init: equalities the precondition fixes between pointers (who shares which object), written
        # into the initial state
        self.name, self.types, self.spec, self.pre, self.init = name, types, spec, pre, init
        self.hints = hints

    def apply(self, ex, act, ins, st, args, ro):
        if self.init:
            raise Unsupported('contract with pointer preconditions applied: ' + self.name)
        v = View(ex.w, ex, act, ins, st, args, ro)
        if self.pre:
            for c in self.pre(v):
                if not ex.optimistic and not st.ctx.prove(c):
                    ctx = st.ctx
                    for x in ex.kstack:
                        ctx = instantiate(ctx, x)
                    if ctx.prove(c) or prove_zero(bnot(c), ctx):
                        continue
                    raise Unsupported('precondition of %s not established: %s' % (self.name, c))
        self.spec(v)
        if v.dead:
            return None, None
        return v.st, v.ret


class Ob:
    def __init__(self, fn, kind, ok, why='', ref=None):
        self.fn, self.kind, self.ok, self.why, self.ref = fn, kind, ok, why, ref

    def __repr__(self):
        return '%s %s::%s %s' % ('ok ' if self.ok else 'FAIL' if self.ok is False else '??', self.fn, self.kind,
                                 self.why)


def inrange(key, root, w, idx, st):
    """conditions under which the cell (root,key)[idx] denotes a live element"""
    offs = key
    conds = []
    fam = getattr(root, 'fam', 0)
    n = 0
    acc = ()
    for o in offs:
        if isinstance(o, str):
            break
        acc = acc + (o,)
        # is there a following offset? then acc is a container indexed by idx[n]
        if len(acc) < len([x for x in offs if not isinstance(x, str)]):
            i = idx[n]
            conds.append(ge0(i))
            if len(acc) > fam:
                lenc = getcell_mem(st.mem, (root, acc + ('len',)))
                if isinstance(lenc, Poly):
                    lenc = psub(lenc, dict(zip(IDXA, idx)))
                    conds.append(lt(i, lenc))
            n += 1
    return conds


def setup_args(w, ex, fn, types, base=None):
    st = State({}, (), base or Ctx())
    args = []
    facts = []
    for i, t in enumerate(types):
        if callable(t):
            # an argument that is (part of) another one
            args.append(t(w, st, args))
        elif t.startswith('sret:'):
            r = Root('ret', 'local', None)
            r.fam = 0
            r.ty = w.resolve(t[5:])
            r.out = True
            args.append(Ptr(r, (0,)))
        elif t.startswith('arr:'):
            # the first element of an array
            r = w.sym_root('a%d[]' % i, t[4:])
            r.fam = 1
            args.append(Ptr(r, (0, ZERO, 0)))
        elif t.endswith('*'):
            r = w.sym_root('a%d' % i, t[:-1])
            args.append(Ptr(r, (0,)))
        elif t == 'F':
            args.append(sym('a%d' % i))
        elif t in ('u64', 'u32', 'int', 'u8'):
            s = sym('a%d' % i)
            hi = {'u64': MAXSZ, 'u32': (1 << 32) - 1, 'int': (1 << 31) - 1, 'u8': 255}[t]
            lo = -(1 << 31) if t == 'int' else 0
            from .ctx import declare_bounds
            declare_bounds(the_atom(s), lo, hi)
            args.append(s)
        elif t == 'bool':
            args.append(T.boolapp('a%d' % i))
        elif t == 'opq':
            args.append(OPQ)
        else:
            raise Unsupported('argument type ' + t)
    return st, args


def orc(cs):
    """disjunction of conjunctions (assumed exclusive only if summing is 0/1)"""
    r = ZERO
    for c in cs:
        g = ONE
        for x in c:
            g = g * x
        r = bor(r, g)
    return r


def imprecise(*xs):
    """the value depends on what the loop rule could not summarise: nothing is decided either way"""
    from .exec import atoms_of
    for x in xs:
        if isinstance(x, Poly):
            if any(isinstance(a.args[0], str) and a.args[0].removeprefix('p:').startswith('havoc!') for a in atoms_of(x)
                   if a.op in ('app', 'ind')):
                return True
        elif isinstance(x, PIte):
            if imprecise(x.c, x.a, x.b):
                return True
        elif isinstance(x, Ptr):
            if imprecise(*x.idx):
                return True
        elif isinstance(x, Opaque):
            return True
    return False


def difference(a, b):
    """a term that is nonzero exactly where the values differ; None if there is no such term"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a - b
    if isinstance(a, PIte):
        x, y = difference(a.a, b), difference(a.b, b)
        return None if x is None or y is None else a.c * x + bnot(a.c) * y
    if isinstance(b, PIte):
        return difference(b, a)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.root is not b.root or a.offs != b.offs:
            return ONE
        e = ONE
        for x, y in zip(a.idx, b.idx):
            e = e * T.eq(x, y)
        return bnot(e)
    if isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
        return ONE
    return None


def again(a, b, ctx, depth=10):
    """one more attempt with ranges brought to one form first"""
    x, y = canon_binders(a, ctx), canon_binders(b, ctx)
    return (x is not a or y is not b) and prove_zero(x - y, ctx, depth)


def decide(a, b, ctx, inexact=()):
    """(verdict, reason): True discharged, False refuted by a model, None neither"""
    if equal(a, b, ctx):
        return True, ''
    if isinstance(a, Poly) and isinstance(b, Poly) and again(a, b, ctx):
        return True, ''
    why = 'code: %s  contract: %s' % (a, b)
    if imprecise(a, *inexact):
        return None, why
    d = difference(a, b)
    if d is None:
        return False, why
    return settle(d, ctx, why)


def settle(d, ctx, why):
    r, txt = cex.refute(d, ctx)
    if r:
        return False, 'counterexample of the verification condition: %s  %s' % (txt, why)
    if r is False and txt >= 30:
        return None, 'not discharged, and no counterexample in %d models of the premises  %s' % (txt, why)
    return (None if r is None else False), 'no model tried (%s)  %s' % (txt, why)


def verify(w, c, fn=None, debug=False):
    """obligations of contract c against the current body"""
    obs = []
    t0 = time.time()
    fns = [f for f in w.mod.bydem.get(c.name, []) if not f.isdecl]
    if getattr(c, 'resolve', None):
        r = c.resolve(w)
        fns = [r] if r is not None else []
    if fn is None:
        if not fns:
            return [Ob(c.name, 'body', None, 'function not found in the current source')]
        fn = fns[0]
    try:
        ex = Executor(w)
        if len(fn.args) != len(c.types):
            return [Ob(c.name, 'signature', None, 'has %d IR arguments' % len(fn.args))]
        w.heap_reset()
        st, args = setup_args(w, ex, fn, c.types)
        if c.init:
            v0 = View(w, ex, None, None, st, args, None)
            c.init(v0)
            st = v0.st
        if c.pre:
            v0 = View(w, ex, None, None, st, args, None)
            st = st.fork(*c.pre(v0))
        if not st.ctx.sat():
            return [Ob(c.name, 'requires-satisfiable', None, 'contradictory precondition')]
        obs.append(Ob(c.name, 'requires-satisfiable', True))

        class R:
            throws = []
        sro = R()
        sro.throws = []
        if c.hints:
            ex.hints = c.hints(View(w, ex, None, None, st, args, None))
        v = View(w, ex, None, None, st, args, sro)
        c.spec(v)
        out = ex.run(fn, st, args)
        # exceptions
        types = sorted({t for _, t in out.throws} | {t for _, t in sro.throws})
        n0 = len(st.cond)
        for t in types:
            a = orc([cc[n0:] for cc, tt in out.throws if tt == t])
            b = orc([cc[n0:] for cc, tt in sro.throws if tt == t])
            ok = prove_zero(a - b, st.ctx, 16) or again(a, b, st.ctx, 16)
            y = 'code: %s  contract: %s' % (a, b)
            ok, y = (True, '') if ok else (None, y) if imprecise(a) else settle(a - b, st.ctx, y)
            obs.append(Ob(c.name, 'throws[%s]' % t, ok, y, None if ok else (a - b, st.ctx)))
        if out.state is None or v.dead:
            ok = (out.state is None) == v.dead
            obs.append(Ob(c.name, 'returns', True if ok else False, '' if ok else 'never returns normally'))
            return obs
        post = st.ctx
        for x in v.st.cond[n0:]:
            post = post.plus(x)
        for x in out.state.cond[n0:]:
            post = post.plus(x)
        if not post.sat():
            obs.append(Ob(c.name, 'returns-reachable', False, 'normal return unreachable'))
            return obs
        obs.append(Ob(c.name, 'returns-reachable', True))
        if v.ret is not None:
            def nr(x):
                return x
            ok, y = decide(out.ret, v.ret, post, out.state.cond)
            obs.append(Ob(c.name, 'ensures[result]', ok, y,
                          None if ok or not isinstance(out.ret, Poly) else (out.ret - v.ret, post)))
        if getattr(c, 'goals', None):
            v.post, v.ret = out.state, out.ret
            for name, facts, g in c.goals(v):
                ctx = post.plus(*facts)
                if not ctx.sat():
                    obs.append(Ob(c.name, 'ensures[%s]' % name, None, 'contradictory premises'))
                    continue
                ok, y = decide(g, ONE, ctx, out.state.cond)
                if ok is False and any(x.op in ('app', 'ind') and str(x.args[0]).removeprefix('p:').startswith('undef.') for x in T.atoms_of(g)):
                    ok = None       # speaks of a cell the executor has no value for
                obs.append(Ob(c.name, 'ensures[%s]' % name, ok, y, None if ok else (g - ONE, ctx)))
            return obs
        keys = {}
        for m in (out.state.mem, v.st.mem):
            for k, x in m.items():
                if k[0].kind == 'heap' and k not in v.st.mem:
                    continue        # part of a new object the contract leaves open
                if k[0].kind == 'sym' or getattr(k[0], 'out', False):
                    keys[k] = 1
        for k in sorted(keys, key=lambda k: (k[0].uid, tuple(map(str, k[1])))):
            a = getcell_mem(out.state.mem, k)
            b = getcell_mem(v.st.mem, k)
            if a is b or a == b:
                obs.append(Ob(c.name, 'ensures[%s.%s]' % (k[0].name, '.'.join(map(str, k[1]))), True))
                continue
            free = [bnot(g) for kk, g in v.freed if kk == k]
            ctx = post.plus(*free)
            if free and not ctx.sat():
                continue            # the contract leaves the cell open
            ctx = ctx.plus(*inrange(k[1], k[0], w, IDX, v.st))
            for x in IDX[:max(0, len([o for o in k[1] if not isinstance(o, str)]) - 1)]:
                ctx = instantiate(ctx, x)
            ok, y = decide(a, b, ctx, out.state.cond)
            obs.append(Ob(c.name, 'ensures[%s.%s]' % (k[0].name, '.'.join(map(str, k[1]))), ok, y,
                          None if ok or not (isinstance(a, Poly) and isinstance(b, Poly)) else (a - b, ctx)))
    except Unsupported as e:
        obs.append(Ob(c.name, 'body', None, 'not supported: %s' % e))
    except Blowup as e:
        obs.append(Ob(c.name, 'body', None, 'term size limit'))
    return obs


ITY = {'unsigned long': 'u64', 'long': 'u64', 'unsigned int': 'u32', 'int': 'int', 'bool': 'bool', 'unsigned char': 'u8',
       'FF61': 'F', 'std::size_t': 'u64'}


def autotypes(w, fn, ret=None):
    from .ll import split_params
    r = split_params(fn.dem)
    if r is None:
        raise Unsupported('signature of ' + fn.dem)
    cls, name, ps, isconst, rett = r
    n = len(fn.args)
    types = []
    if getattr(fn, 'sret', False):
        if not ret and not rett:
            t = fn.args[0].x[1].name or ''
            t = re.sub(r'\.\d+$', '', re.sub(r'^(class|struct)\.', '', t))
            rett = next((k for k in w.lay.rec if k == t or k == t + '<FF61>'), '?')
        types.append('sret:' + (ret or rett))
    if n - len(types) == len(ps) + 1:
        types.append((cls or '?') + '*')
    for p in ps:
        byref = p.endswith('&') or p.endswith('*')
        q = re.sub(r'\s*[&*]+$', '', p)
        q = re.sub(r'(^const )|( const$)', '', q)
        if byref:
            types.append(q + '*')
        elif q in ITY:
            types.append(ITY[q])
        else:
            types.append(q + '*')     # class types passed by value go through memory
    if len(types) != n:
        raise Unsupported('cannot type the arguments of ' + fn.dem)
    return types
