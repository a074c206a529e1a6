"""Modular symbolic executor over LLVM IR (algebraic mode).

Integers are mathematical integers carried lazily modulo 2^w: every operation that interprets a
value (comparison, division, widening, indexing) proves the representative in range under the path
condition, or wraps it explicitly.  Field elements (scl::FF) are opaque ring elements: FF's
operations are used through their contracts.  Loops are discharged with synthesised closed-form
invariants whose base case, inductive step and exit are then proved (see Loop rule below)."""
import re
from . import used
from .terms import *
from . import terms as T
from .ctx import Ctx, simp, declare_bounds, _bounds, _appbounds, STATS, match1

MAXSZ = 1 << 30


class Unsupported(Exception):
    pass


class Root:
    _n = 0

    def __init__(self, name, kind, ty=None, fields=None):
        Root._n += 1
        self.uid = Root._n
        self.name, self.kind, self.ty = name, kind, ty

    def __repr__(self):
        return self.name


class Ptr:
    __slots__ = ('root', 'path', 'cls')

    def __init__(self, root, path, cls=None):
        self.root, self.path, self.cls = root, tuple(path), cls

    @property
    def offs(self):
        return self.path[0::2]

    @property
    def idx(self):
        return self.path[1::2]

    def plus(self, d):
        return Ptr(self.root, self.path[:-1] + (self.path[-1] + d,)) if d else self

    def elem(self, i, off=0):
        return Ptr(self.root, self.path + (lift(i), off))

    def __repr__(self):
        return '&%s%s' % (self.root, ''.join('.%s' % p if i % 2 == 0 else '[%s]' % p
                                             for i, p in enumerate(self.path)))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.root is o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root.uid, self.path))


class Null:
    def __repr__(self):
        return 'null'


NULL = Null()


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PIte) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return '(%s ? %s : %s)' % (self.c, self.a, self.b)


class VTab:
    """value of a vtable pointer loaded from a symbolic object, plus slot once indexed"""
    def __init__(self, obj, slot=0):
        self.obj, self.slot = obj, slot


class VSlot(VTab):
    pass


class FnVal:
    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, FnVal) and self.fn is o.fn

    def __hash__(self):
        return hash(self.fn)


class Opaque:
    """a value whose content is not modelled (strings, exception objects, ...)"""
    def __init__(self, tag=''):
        self.tag = tag

    def __repr__(self):
        return '?' + self.tag


OPQ = Opaque()
IDX = [sym('ix%d' % i) for i in range(8)]
IDXA = [the_atom(x) for x in IDX]


def psub(v, mp):
    """substitute in any value"""
    if isinstance(v, Poly):
        return subst(v, mp)
    if isinstance(v, Ptr):
        return Ptr(v.root, tuple(x if i % 2 == 0 else subst(x, mp) for i, x in enumerate(v.path)), v.cls)
    if isinstance(v, PIte):
        c = subst(v.c, mp)
        return mk_pite(c, psub(v.a, mp), psub(v.b, mp))
    if isinstance(v, list):
        return [psub(x, mp) for x in v]
    return v


def psimp(v, ctx):
    if isinstance(v, Poly):
        return simp(v, ctx)
    if isinstance(v, Ptr):
        return Ptr(v.root, tuple(x if i % 2 == 0 else simp(x, ctx) for i, x in enumerate(v.path)), v.cls)
    if isinstance(v, PIte):
        return mk_pite(simp(v.c, ctx), psimp(v.a, ctx), psimp(v.b, ctx))
    return v


def vsyms(v):
    if isinstance(v, Poly):
        return v.syms
    if isinstance(v, Ptr):
        r = frozenset()
        for x in v.idx:
            r |= x.syms
        return r
    if isinstance(v, PIte):
        return v.c.syms | vsyms(v.a) | vsyms(v.b)
    if isinstance(v, list):
        r = frozenset()
        for x in v:
            r |= vsyms(x)
        return r
    return frozenset()


def mk_pite(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    return vite(c, a, b)


def vite(c, a, b):
    """if-then-else on arbitrary values"""
    if a is b or c is ONE:
        return a
    if c is ZERO:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(b, PIte) and b.c is c:
        return vite(c, a, b.b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b:
            return a
        if a.root is b.root and a.offs == b.offs:
            return Ptr(a.root, tuple(x if i % 2 == 0 else ite(c, x, y)
                                     for i, (x, y) in enumerate(zip(a.path, b.path))), a.cls)
        return PIte(c, a, b)
    if isinstance(a, (Ptr, Null, PIte)) and isinstance(b, (Ptr, Null, PIte)):
        return a if a == b else PIte(c, a, b)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Opaque) or isinstance(b, Opaque) or a is None or b is None:
        return OPQ
    if isinstance(a, Poly) and isinstance(b, (Ptr, Null, PIte)):
        return b if is_undef(a) else PIte(c, a, b)
    if isinstance(b, Poly) and isinstance(a, (Ptr, Null, PIte)):
        return a if is_undef(b) else PIte(c, a, b)
    if a == b:
        return a
    raise Unsupported('merge of %r and %r' % (a, b))


def is_undef(p):
    return len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][0].op == 'app' and \
        p.t[0][0][0][0].args[0].startswith('undef.')


class State:
    __slots__ = ('mem', 'cond', 'base')

    def __init__(self, mem, cond, base):
        self.mem, self.cond, self.base = mem, cond, base

    def fork(self, *conds):
        return State(self.mem, self.cond + tuple(c for c in conds if c is not ONE), self.base)

    def copy(self):
        return State(dict(self.mem), self.cond, self.base)

    @property
    def ctx(self):
        return self.base.plus(*self.cond)


def merge_states(lst):
    """lst: [(state, vals dict)] with pairwise exclusive conditions -> (state, vals)"""
    if len(lst) == 1:
        return lst[0]
    n = min(len(s.cond) for s, _ in lst)
    cp = 0
    c0 = lst[0][0].cond
    while cp < n and all(s.cond[cp] is c0[cp] for s, _ in lst):
        cp += 1
    suf = []
    for s, _ in lst:
        g = ONE
        for c in s.cond[cp:]:
            g = g * c
        suf.append(g)
    tot = ZERO
    for g in suf:
        tot = tot + g
    base = lst[0][0].base
    if any(s.base is not base for s, _ in lst[1:]):
        base = Ctx(f for f in base.facts if all(f in s.base.facts for s, _ in lst[1:]))
    # merged condition
    cond = c0[:cp] + (() if tot is ONE else (tot,))
    keys = set()
    m0 = lst[-1][0].mem
    for s, _ in lst[:-1]:
        if s.mem is not m0:
            for k, v in s.mem.items():
                if k not in m0 or m0[k] is not v:
                    keys.add(k)
            for k in m0:
                if k not in s.mem:
                    keys.add(k)
    mem = dict(m0)
    for k in keys:
        r = getcell_mem(m0, k)
        for (s, _), g in list(zip(lst, suf))[:-1][::-1]:
            r = vite(g, getcell_mem(s.mem, k), r)
        mem[k] = r
    vals = dict(lst[-1][1])
    for k in vals:
        r = vals[k]
        for (s, v), g in list(zip(lst, suf))[:-1][::-1]:
            r = vite(g, v[k], r)
        vals[k] = r
    return State(mem, cond, base), vals


# ---------------------------------------------------------------- memory
def getcell_mem(mem, key):
    v = mem.get(key)
    if v is None:
        v = initcell(key)
    return v


_init = {}


def initcell(key):
    v = _init.get(key)
    if v is None:
        root, offs = key
        nidx = sum(1 for o in offs if not isinstance(o, str)) - 1
        if root.kind == 'sym':
            v = root.world.sym_cell(root, offs, nidx)
        else:
            v = T.app('undef.%s%d.%s' % (root.name, root.uid, '.'.join(map(str, offs))), *IDX[:nidx])
        _init[key] = v
    return v


def read_key(st, root, offs, idx):
    v = getcell_mem(st.mem, (root, offs))
    if idx:
        v = psub(v, dict(zip(IDXA, idx)))
    return v


def simple_guard(idx):
    g = ONE
    for i, e in enumerate(idx):
        g = g * T.eq(IDX[i], e)
    return g


def write_key(st, root, offs, idx, val):
    """mutates st.mem (caller owns a copy)"""
    key = (root, offs)
    if not idx:
        st.mem[key] = val
        return
    old = getcell_mem(st.mem, key)
    st.mem[key] = vite(simple_guard(idx), val, old)


# ---------------------------------------------------------------- loops / cfg analysis
class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks = header, blocks
        self.sub = []
        self.parent = None


def analyse(fn):
    if hasattr(fn, '_an'):
        return fn._an
    blocks = fn.blocks
    rpo = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(b.succs))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                rpo.append(x)
                stack.pop()
    dfs(blocks[0])
    rpo.reverse()
    num = {b: i for i, b in enumerate(rpo)}
    # dominators
    dom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in b.preds if p in dom]
            n = ps[0]
            for p in ps[1:]:
                a, c = n, p
                while a is not c:
                    while num[a] > num[c]:
                        a = dom[a]
                    while num[c] > num[a]:
                        c = dom[c]
                n = a
            if dom.get(b) is not n:
                dom[b] = n
                ch = True

    def dominates(a, b):
        while True:
            if a is b:
                return True
            if dom[b] is b:
                return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in b.succs:
            if s in num and dominates(s, b):
                body = {s}
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += [p for p in x.preds if p in num]
                if s in loops:
                    loops[s].blocks |= body
                else:
                    loops[s] = Loop(s, body)
    # blocks that cannot return normally (they throw or abort) belong to the loop they leave from
    ret = {b for b in rpo if any(i.op == 'ret' for i in b.insts)}
    w = list(ret)
    while w:
        for p in w.pop().preds:
            if p in num and p not in ret:
                ret.add(p)
                w.append(p)
    inl = set()
    for l in loops.values():
        inl |= l.blocks
    for l in loops.values():
        for b in rpo:
            if b not in ret and b not in inl and b.preds and all(p in l.blocks and p is not l.header for p in b.preds if p in num):
                l.blocks.add(b)
    for l in loops.values():
        best = None
        for k in loops.values():
            if k is not l and l.header in k.blocks and (best is None or len(k.blocks) < len(best.blocks)):
                best = k
        l.parent = best
    fn._an = (rpo, num, loops)
    return fn._an


class Outcome:
    def __init__(self, state, ret, throws):
        self.state, self.ret, self.throws = state, ret, throws  # throws: [(cond poly, type)]


class RegionOut:
    def __init__(self):
        self.edges = {}     # (from,to) leaving the region -> [(state, phivals)]
        self.rets = []
        self.throws = []    # (cond, type)


INT_I1 = 1


def interval(p, depth=0):
    lo, hi = 0, 0
    for m, c in p.t:
        ml, mh = 1, 1
        for a, e in m:
            if not isinstance(e, int) or e < 0:
                return None
            iv = _aiv(a, depth)
            if iv is None:
                return None
            for _ in range(e):
                xs = [ml * iv[0], ml * iv[1], mh * iv[0], mh * iv[1]]
                ml, mh = min(xs), max(xs)
        xs = (c * ml, c * mh)
        lo += min(xs)
        hi += max(xs)
    return lo, hi


def _aiv(a, depth=0):
    from .ctx import _appbounds
    if a.op == 'ind':
        return 0, 1
    b = _bounds.get(a)
    if b is None and a.op == 'app':
        b = _appbounds.get(a.args[0])
    if b and b[0] is not None and b[1] is not None:
        return b
    if a.op == 'div' and depth < 4:
        x = interval(a.args[0], depth + 1)
        y = interval(a.args[1], depth + 1)
        if x and y and y[0] >= 1 and x[0] >= 0:
            return x[0] // y[1], x[1] // y[0]
    return None


def norm(p, ctx, memo=None):
    """simp + peel constant offsets of sum/prod ranges, to a fixpoint"""
    for _ in range(6):
        q = simp(p, ctx)
        q = _peel(q, ctx)
        if q is p:
            break
        p = q
    return p


def _split_const(n):
    d = dict(n.t)
    c = d.pop((), 0)
    return T._mk(d), c


def _peel(p, ctx):
    rep = {}
    for m, _ in p.t:
        for a, e in m:
            if a in rep:
                continue
            if a.op == 'prod':
                n, c = _split_const(a.args[0])
                if 0 < c <= 4 and n.t and ctx.prove(ge0(n)):
                    v = fresh()
                    body = open_(a.args[1], v, a)
                    r = mk_prod(n, v, body)
                    for i in range(c):
                        r = r * subst(body, {the_atom(v): n + i})
                    rep[a] = r
            elif a.op == 'ind' and a.args[0] == 'all':
                b = the_atom(a.args[1])
                n, c = _split_const(b.args[0])
                if 0 < c <= 4 and n.t and ctx.prove(ge0(n)):
                    v = fresh()
                    body = open_(b.args[1], v, b)
                    r = mk_all(n, v, body)
                    for i in range(c):
                        r = r * subst(body, {the_atom(v): n + i})
                    rep[a] = r
            elif a.op == 'sum':
                for d, nn in enumerate(a.args[0]):
                    n, c = _split_const(nn)
                    if c == 0 or abs(c) > 4 or not n.t:
                        continue
                    if c > 0 and not ctx.prove(ge0(n)):
                        continue
                    if c < 0 and not ctx.prove(ge0(n + c)):
                        continue
                    vs = [fresh() for _ in a.args[0]]
                    body = open_(a.args[1], vs, a)
                    others = [(x, v) for i, (x, v) in enumerate(zip(a.args[0], vs)) if i != d]

                    def wrap(q):
                        for x, v in others[::-1]:
                            q = mk_sum(x, v, q)
                        return q
                    r = wrap(mk_sum(n, vs[d], body))
                    if c > 0:
                        for i in range(c):
                            r = r + wrap(subst(body, {the_atom(vs[d]): n + i}))
                    else:
                        ok = True
                        for i in range(-c):
                            pe = subst(body, {the_atom(vs[d]): n - 1 - i})
                            for mm, _ in pe.t:
                                for y, ee in mm:
                                    if isinstance(ee, Poly) and not ctx.prove(ge0(ee)) or \
                                            isinstance(ee, int) and ee < 0:
                                        ok = False
                        if not ok:
                            continue
                        for i in range(-c):
                            r = r - wrap(subst(body, {the_atom(vs[d]): n - 1 - i}))
                    rep[a] = r
                    break
    if not rep:
        return p
    out = ZERO
    for m, c in p.t:
        q = const(c)
        for a, e in m:
            x = rep.get(a)
            if x is None:
                q = q * T._mk({((a, e),): 1})
            else:
                q = q * (ppow(x, e) if isinstance(e, Poly) else ipow(x, e))
        out = out + q
    return out


def eq_subst(ctx):
    """substitution from equality facts of the context"""
    mp = {}
    for f in ctx.facts:
        if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1:
            a = f.t[0][0][0][0]
            if a.op == 'ind' and a.args[0] == 'eq0':
                p = a.args[1]
                if mp:
                    p = subst(p, {x: y for x, y in mp.items() if x.op == 'sym'})
                for m, c in p.t:
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op == 'sym':
                        x = m[0][0]
                        rest = p - scale(of_atom(x), c)
                        if x in rest.syms:
                            continue
                        r = scale(rest, -c)
                        mp = {y: subst(z, {x: r}) for y, z in mp.items()}
                        mp[x] = r
                        break
    return mp


def eq_apps(ctx):
    """the same for applications (array lengths, fields)"""
    mp = {}
    for f in ctx.facts:
        if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1:
            a = f.t[0][0][0][0]
            if a.op == 'ind' and a.args[0] == 'eq0':
                p = T.replace_atoms(a.args[1], mp) if mp else a.args[1]
                if any(len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' and c in (1, -1) and
                       not any(m[0][0] in x.syms for m2, _ in p.t if m2 != m for x, _ in m2) for m, c in p.t):
                    continue
                for m, c in sorted(p.t, key=lambda t: -max([len(x.args) for x, _ in t[0] if x.op == 'app'] + [0])):
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op == 'app' and not _has_bv(m[0][0]):
                        x = m[0][0]
                        rest = p - scale(of_atom(x), c)
                        if x in atoms_of(rest):
                            continue
                        r = scale(rest, -c)
                        mp = {y: T.replace_atoms(z, {x: r}) for y, z in mp.items()}
                        mp[x] = r
                        break
    return mp


PROOF = dict(splits=0)


def closed_under(ctx, mp):
    """the context together with its facts rewritten by its own equalities (congruence for
    array reads, which the solver sees as unrelated numbers)"""
    c = ctx._cache.get('closed')
    if c is None:
        ks = set(mp)
        new = []
        for f in ctx.facts:
            if f.syms & ks if isinstance(f.syms, (set, frozenset)) else True:
                g = subst(f, mp)
                if g is not ONE and g is not f:
                    new.append(g)
        c = ctx.plus(*new) if new else ctx
        ctx._cache['closed'] = c
        c._cache.setdefault('closed', c)
    return c


def closed_apps(ctx, ma):
    c = ctx._cache.get('closeda')
    if c is None:
        new = []
        for f in ctx.facts:
            if any(a in ma for a in atoms_of(f)):
                g = T.replace_atoms(f, ma)
                if g is not ONE and g is not f:
                    new.append(g)
        for a, z in ma.items():
            # what replaces a number known to be >= 0 is >= 0
            if T.cval(z) is None and a.op == 'app' and not a.args[1:] and (_appbounds.get(a.args[0]) or (None,))[0] == 0:
                g = ge0(z)
                if g is not ONE and not (g.t == ()):
                    new.append(g)
        c = ctx.plus(*new) if new else ctx
        ctx._cache['closeda'] = c
        c._cache.setdefault('closeda', c)
    return c


def prove_zero(d, ctx, depth=13):
    if not d.t:
        return True
    mp = eq_subst(ctx)
    if mp:
        d = subst(d, mp)
        ctx = closed_under(ctx, mp)
    ma = eq_apps(ctx)
    if ma:
        if mp:
            ma = {(the_atom(y) if isinstance(y, Poly) else x): subst(z, mp) for x, z in ma.items()
                  for y in [subst(of_atom(x), mp)] if len(y.t) == 1 and len(y.t[0][0]) == 1}
        d = T.replace_atoms(d, ma)
        ctx = closed_apps(ctx, ma)
    d = norm(d, ctx)
    if not d.t:
        return True
    if not ctx.sat():
        return True
    if depth <= 0:
        return False
    cand = None
    for m, _ in d.t:
        for a, e in m:
            if a.op == 'ind':
                cand = a
                break
        if cand:
            break
    if cand is None:
        cand = _inner_ind(d, ctx)
        if cand is not None:
            c2 = by_trigger(d, ctx)
            if c2 is not None:
                return prove_zero(d, c2, depth)
        if cand is None:
            q = absorb(d)
            if q is not d:
                q = norm(q, ctx)
                if not q.t:
                    return True
            q2 = reflect(q)
            if q2 is not q:
                q2 = norm(q2, ctx)
                if not q2.t:
                    return True
            c2 = tighten(q2, ctx)
            if c2 is not None:
                return prove_zero(q2, c2, depth - 1)
            q3 = align_div(q2, ctx)
            if q3 is not None:
                return prove_zero(q3, ctx, depth - 1)
            q3 = canon_binders(q2, ctx)
            if q3 is not q2:
                return prove_zero(q3, ctx, depth - 1)
            c2 = by_first(q2, ctx) or by_trigger(q2, ctx)
            if c2 is not None:
                return prove_zero(q2, c2, depth - 1)
            if T.cval(d) is not None:
                # nothing left to compare: is the context contradictory, a quantified fact refuted by the others?
                for f in ctx.facts:
                    h = the_all(bnot(f))
                    if h is not None and prove_all(h, ctx, depth - 2):
                        return True
            return len(d.t) <= 12 and any(a.op == 'div' for a in atoms_of(d)) and ctx.prove(T.eq(d, 0))
    PROOF['splits'] += 1
    l = of_atom(cand)
    if cand.args[0] == 'feq0':
        e = int_feq(cand, ctx)
        if e is not None:
            return prove_zero(T.replace_atoms(d, {cand: e}), ctx, depth - 1)
    if cand.args[0] == 'all' and prove_all(cand, ctx, depth - 2):
        return prove_zero(T.replace_atoms(d, {cand: ONE}), ctx, depth - 1)
    c1, c0 = ctx.plus(l), ctx.plus(bnot(l))
    return prove_zero(_setind(d, cand, 1), c1, depth - 1) and prove_zero(_setind(d, cand, 0), c0, depth - 1)


def the_all(f):
    if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1:
        a = f.t[0][0][0][0]
        if a.op == 'ind' and a.args[0] == 'all':
            return a
    return None


def first_body(G):
    """(bound, var, body) with G = forall var < bound: body"""
    if len(G.t) != 1 or G.t[0][1] != 1:
        return None
    n, v, body = None, fresh('f'), ONE
    for a, e in G.t[0][0]:
        if a.op != 'ind' or a.args[0] != 'all':
            return None
        b = the_atom(a.args[1])
        if n is not None and b.args[0] is not n:
            return None
        n = b.args[0]
        body = body * open_(b.args[1], v, b)
    return (n, v, body) if n is not None else None


def by_first(d, ctx):
    """defining facts of first(G), the least index at which the quantified G fails: known once G is false"""
    new = []
    seen = set()
    for p in [d] + list(ctx.facts):
        for a in atoms_of(p):
            if a.op != 'app' or a.args[0] != 'first' or a in seen:
                continue
            seen.add(a)
            G = a.args[1]
            kf = of_atom(a)
            if any(z.op == 'bv' for z in a.syms):
                continue
            fb = first_body(G)
            if fb is None:
                continue
            n, v, body = fb
            fs = [ge0(kf), lt(kf, n), bnot(subst(body, {the_atom(v): kf})), mk_all(kf, v, body)]
            fs = [f for f in fs if f is not ONE and f not in ctx._set]
            if not fs:
                continue
            if bnot(G) in ctx._set or ctx.prove(bnot(G)):
                new += fs
    return ctx.plus(*new) if new else None


def align_div(d, ctx):
    """(x + e) div c = x div c + q in this context: write both with the same atom"""
    dv = sorted([a for a in atoms_of(d) if a.op == 'div' and not any(z.op == 'bv' for z in a.syms)], key=lambda a: a.id)
    for i, a in enumerate(dv):
        for b in dv[i + 1:]:
            if a.args[1] is not b.args[1]:
                continue
            if cval(a.args[1]) is None:
                # (x + e) div c = x div c + [x mod c + e >= c] for 0 <= e <= c
                D = a.args[1]
                for x, y in ((a, b), (b, a)):
                    e = x.args[0] - y.args[0]
                    if ctx.prove(ge0(e)) and ctx.prove(ge0(D - e)):
                        return T.replace_atoms(d, {x: of_atom(y) + ge0(y.args[0] - D * of_atom(y) + e - D)})
                continue
            e = cval(a.args[0] - b.args[0])
            if e is None:
                continue
            c = cval(a.args[1])
            for q in (e // c, e // c + 1):
                if ctx.prove(T.eq(of_atom(a), of_atom(b) + q)):
                    return T.replace_atoms(d, {a: of_atom(b) + q})
    return None


def by_trigger(d, ctx):
    """instances of the universally quantified facts whose body speaks about an application f(.. t ..) of d"""
    apps = {}
    for p in [d] + [f for f in ctx.facts if len(f.t) <= 2]:
        for a in atoms_of(p):
            if a.op == 'app' and len(a.args) > 1 and not any(z.op == 'bv' for z in a.syms) and a not in apps.setdefault(a.args[0], []):
                apps[a.args[0]].append(a)
    if not apps:
        return None
    new = []
    for f in list(ctx.facts):
        if len(f.t) != 1 or f.t[0][1] != 1:
            continue
        for h, e in f.t[0][0]:
            if h.op != 'ind' or h.args[0] != 'all':
                continue
            b = the_atom(h.args[1])
            v = fresh('u')
            body = open_(b.args[1], v, b)
            for x in atoms_of(body):
                if x.op != 'app' or x.args[0] not in apps or the_atom(v) not in x.syms:
                    continue
                for y in apps[x.args[0]]:
                    t = None
                    for p, q in zip(x.args[1:], y.args[1:]):
                        if isinstance(p, Poly) and isinstance(q, Poly) and the_atom(v) in p.syms:
                            t = match1(p, q, v)
                            break
                    if t is None or any(z.op == 'bv' for z in t.syms):
                        continue
                    g = subst(body, {the_atom(v): t})
                    if g in ctx._set or g in new or g is ONE:
                        continue
                    if ctx.prove(ge0(t)) and ctx.prove(lt(t, b.args[0])):
                        new.append(g)
    return ctx.plus(*new) if new else None


FIELDP = (1 << 61) - 1


def int_poly(p):
    """all atoms of p denote integers with declared bounds"""
    from .ctx import _appbounds
    for m, c in p.t:
        for a, e in m:
            if not isinstance(e, int) or e < 0:
                return False
            if a.op == 'sym':
                if a not in _bounds and not str(a.args[0]).startswith('k'):
                    return False
            elif a.op == 'app':
                if a.args[0] not in _appbounds:
                    return False
            elif a.op != 'ind' and a.op != 'div':
                return False
    return True


def int_feq(a, ctx):
    """[p = 0 in the field] for an integer p of absolute value below the modulus is [p = 0]"""
    p = a.args[1]
    if int_poly(p) and ctx.prove(lt(p, FIELDP)) and ctx.prove(lt(-p, FIELDP)):
        return T.eq(p, 0)
    return None


def instantiate(ctx, v, skip=None):
    """the context plus its universally quantified facts taken at index v"""
    inst = []
    for f in ctx.facts:
        if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1:
            h = f.t[0][0][0][0]
            if h.op == 'ind' and h.args[0] == 'all' and h is not skip:
                hb = the_atom(h.args[1])
                g = ctx.prove(ge0(v)) and ctx.prove(lt(v, hb.args[0]))
                x = open_(hb.args[1], v, hb)
                inst.append(x if g else bnot(ge0(v) * lt(v, hb.args[0]) * bnot(x)))
    return ctx.plus(*inst) if inst else ctx


def prove_all(a, ctx, depth):
    """forall i < n: body, by proving the body at a fresh index"""
    if depth <= 0:
        return False
    b = the_atom(a.args[1])
    v = fresh()
    body = open_(b.args[1], v, b)
    c2 = ctx.plus(ge0(v), lt(v, b.args[0]))
    c2 = instantiate(c2, v, a)
    return prove_zero(1 - body, c2, min(depth, 6))


def tighten(d, ctx):
    """turn a fact p >= 0 with p <= 0 provable into the equation p = 0 (once per leaf)"""
    for f in ctx.facts:
        p = None
        if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1:
            a = f.t[0][0][0][0]
            if a.op == 'ind' and a.args[0] == 'ge0':
                p = a.args[1]
        else:
            g = bnot(f)
            if len(g.t) == 1 and g.t[0][1] == 1 and len(g.t[0][0]) == 1:
                a = g.t[0][0][0][0]
                if a.op == 'ind' and a.args[0] == 'ge0':
                    p = -1 - a.args[1]
        if p is None or any(len(m) > 1 for m, _ in p.t):
            continue
        e = T.eq(p, 0)
        if e is not ONE and e is not ZERO and ctx.prove(ge0(-p)):
            c2 = ctx.plus(e)
            if len(eq_subst(c2)) + len(eq_apps(c2)) > len(eq_subst(ctx)) + len(eq_apps(ctx)):
                return c2
    return None


def absorb(d):
    """multiply powers standing outside a sum into it when the body has powers of the same base"""
    out = ZERO
    ch = False
    for m, c in d.t:
        done = False
        for a, e in m:
            if a.op != 'sum' or e != 1:
                continue
            pb = {x for mm, _ in a.args[1].t for x, y in mm if isinstance(y, Poly)}
            hit = [(x, y) for x, y in m if x in pb and x is not a]
            if hit:
                vs = [fresh() for _ in a.args[0]]
                body = open_(a.args[1], vs, a) * T._mk({tuple(hit): 1})
                r = body
                for n, v in list(zip(a.args[0], vs))[::-1]:
                    r = mk_sum(n, v, r)
                rest = tuple(x for x in m if x[0] is not a and x not in hit)
                out = out + r * T._mk({rest: c})
                done = ch = True
                break
        if not done:
            out = out + T._mk({m: c})
    return out if ch else d


def reflect(d):
    """orient one-dimensional sums so that bound variables occur positively in exponents"""
    out = ZERO
    ch = False
    for m, c in d.t:
        r = const(c)
        for a, e in m:
            x = T._mk({((a, e),): 1})
            if a.op == 'sum' and e == 1 and len(a.args[0]) == 1:
                v = fresh()
                body = open_(a.args[1], [v], a)
                va = the_atom(v)
                neg = pos = False
                for mm, _ in body.t:
                    for y, ee in mm:
                        if isinstance(ee, Poly) and va in ee.syms:
                            l = T._lin(ee, va)
                            if l and l[0] < 0:
                                neg = True
                            elif l and l[0] > 0:
                                pos = True
                if neg and not pos:
                    n = a.args[0][0]
                    x = mk_sum(n, v, subst(body, {va: n - 1 - v}))
                    ch = True
            r = r * x
        out = out + r
    return out if ch else d


def canon_binders(p, ctx):
    """one form for ranges written differently: products and quantifiers with an exception at one index are
    split there, ranges run through backwards are turned round"""
    rep = {}
    for m, _ in p.t:
        for a, e in m:
            if a not in rep and a.op in ('sum', 'prod', 'inv', 'app', 'ind'):
                x = _canon_atom(a, ctx)
                if x is not None:
                    rep[a] = x
    if not rep:
        return p
    out = ZERO
    for m, c in p.t:
        q = const(c)
        for a, e in m:
            x = rep.get(a)
            if x is None:
                x = T._mk({((a, e),): 1})
            elif isinstance(e, Poly):
                x = ppow(x, e)
            elif e != 1:
                x = ipow(x, e)
            q = q * x
        out = out + q
    return out


def _canon_atom(a, ctx):
    if not any(x.op in ('sum', 'prod', 'all') for x in atoms_of(of_atom(a))):
        return None
    if a.op == 'inv':
        x = canon_binders(a.args[0], ctx)
        return None if x is a.args[0] else T.inv(x)
    if a.op == 'app':
        if a.args[0] == 'first':
            return None
        xs = [canon_binders(x, ctx) for x in a.args[1:]]
        return None if all(x is y for x, y in zip(xs, a.args[1:])) else app(a.args[0], *xs)
    if a.op == 'ind' and a.args[0] != 'all':
        xs = [canon_binders(x, ctx) for x in a.args[1:]]
        if all(x is y for x, y in zip(xs, a.args[1:])):
            return None
        k = a.args[0]
        return ge0(xs[0]) if k == 'ge0' else T.eq(xs[0], ZERO) if k == 'eq0' else feq(xs[0], ZERO) if k == 'feq0' else \
            of_atom(mk_atom('ind', k, *xs))
    if a.op == 'sum':
        vs = [fresh() for _ in a.args[0]]
        body = open_(a.args[1], vs, a)
        c = ctx
        for n, v in zip(a.args[0], vs):
            c = c.plus(ge0(v), lt(v, n))
        b = canon_binders(body, c)
        ch = b is not body
        for n, v in zip(a.args[0], vs):
            if _backwards(b, the_atom(v)) and not any(the_atom(v) in y.syms for y in a.args[0]):
                b = subst(b, {the_atom(v): n - 1 - v})
                ch = True
        if len(vs) == 1:
            # Sum f(k + c) over k < n: from 0, less the first c terms
            n, v = a.args[0][0], vs[0]
            o = _offset(b, the_atom(v))
            if 0 < o <= 4 and ctx.prove(ge0(n)):
                b = subst(b, {the_atom(v): v - o})
                r = mk_sum(n + o, v, b)
                for i in range(o):
                    r = r - subst(b, {the_atom(v): const(i)})
                return r
        if not ch:
            return None
        for n, v in list(zip(a.args[0], vs))[::-1]:
            b = mk_sum(n, v, b)
        return b
    if a.op in ('prod', 'ind'):
        q = a if a.op == 'prod' else the_atom(a.args[1])
        n = q.args[0]
        v = fresh()
        body = open_(q.args[1], v, q)
        return _canon_range(n, v, body, ctx, mk_prod if a.op == 'prod' else mk_all, False)
    return None


def _canon_range(n, v, body, ctx, mk, force):
    va = the_atom(v)
    c = ctx.plus(ge0(v), lt(v, n))
    b = canon_binders(body, c)
    for x in sorted(atoms_of(b), key=lambda x: x.id):
        if x.op != 'ind' or x.args[0] != 'eq0' or va not in x.syms or any(z.op == 'bv' for z in x.syms):
            continue
        l = T._lin(x.args[1], va)
        if not l or l[0] not in (1, -1):
            continue
        j = scale(l[1], -l[0])
        if not (ctx.prove(ge0(j)) and ctx.prove(lt(j, n))):
            continue
        b0 = T.replace_atoms(b, {x: ZERO})
        u = fresh()
        return _canon_range(j, v, b0, ctx, mk, True) * subst(b, {va: j}) * \
            _canon_range(n - j - 1, u, subst(b0, {va: u + j + 1}), ctx, mk, True)
    if _backwards(b, va):
        b = subst(b, {va: n - 1 - v})
        force = True
    if mk is mk_prod and len(b.t) > 1:
        # a common factor has its own product
        com = set(b.t[0][0])
        for m, _ in b.t[1:]:
            com &= set(m)
        if com:
            f = T._mk({tuple(x for x in b.t[0][0] if x in com): 1})
            r = T._mk({tuple(x for x in m if x not in com): c for m, c in b.t})
            x = _canon_range(n, v, r, ctx, mk, True)
            return mk(n, v, f) * x
    if mk is mk_prod and T._lead_neg(T.close(b, v, max(b.depth, n.depth) + 1)):
        return T.of_pow(const(-1), n) * mk(n, v, -b)
    if b is body and not force:
        return None
    return mk(n, v, b)


def _offset(b, va):
    o = None
    for x in atoms_of(b):
        if va in x.syms and x.op == 'app' and x.args[0] != 'first':
            for y in x.args[1:]:
                if va in y.syms:
                    l = T._lin(y, va)
                    if not l or l[0] != 1:
                        continue
                    c = dict(l[1].t).get((), 0)
                    o = c if o is None else min(o, c)
    return o or 0


def _backwards(b, va):
    neg = pos = 0
    for x in atoms_of(b):
        if va not in x.syms:
            continue
        if x.op == 'app' and x.args[0] != 'first':
            for y in x.args[1:]:
                l = T._lin(y, va)
                if l and l[0] < 0:
                    neg += 1
                elif l and l[0] > 0:
                    pos += 1
    return neg > pos


def _setind(d, a, v):
    out = {}
    for m, c in d.t:
        if any(x is a for x, _ in m):
            if not v:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        out[m] = out.get(m, 0) + c
    return T._mk(out)


def _inner_ind(d, ctx):
    """an integer indicator without bound variables occurring anywhere inside d"""
    for a in sorted(atoms_of(d), key=lambda a: a.id):
        if a.op == 'ind' and a.args[0] in ('ge0', 'eq0') and not _has_bv(a):
            if ctx.decide(of_atom(a)) is None:
                return a
    return None


def _has_bv(a):
    return any(x.op == 'bv' for x in a.syms)


def equal(a, b, ctx):
    """provable equality of two values under ctx"""
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return prove_zero(a - b, ctx)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.root is b.root and a.offs == b.offs and \
            all(equal(x, y, ctx) for x, y in zip(a.idx, b.idx))
    if isinstance(a, PIte):
        return equal_under(a.a, b, ctx, a.c) and equal_under(a.b, b, ctx, bnot(a.c))
    if isinstance(b, PIte):
        return equal(b, a, ctx)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y, ctx) for x, y in zip(a, b))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    return a == b


def equal_under(a, b, ctx, c):
    c = simp(c, ctx)
    if c is ZERO:
        return True
    x = ctx.plus(c)
    mp = eq_subst(x)
    if mp:
        x = closed_under(x, mp)
    return (not x.sat()) or equal(a, b, x)


_tags = {}


def short_tag(t):
    if t not in _tags:
        _tags[t] = '%s~%d' % (re.sub(r'[^A-Za-z]', '', t[-40:])[-8:], len(_tags))
    return _tags[t]


class Act:
    """one function activation"""
    def __init__(self, fn, tag, depth):
        self.fn, self.tag, self.depth = fn, tag, depth
        self.env = {}
        self.ks = []


class Executor:
    def __init__(self, world):
        self.w = world
        self.optimistic = 0
        self.kstack = []
        self.hints = {}
        self.inv = None
        self.in_inv = False
        self.stats = dict(insts=0, calls=0, loops=0, inlined=used.INLINED, contracts_used=used.CONTRACTS, models=used.MODELS)
        self.loopdepth = 0
        self.nocontract = set()

    # ---------------- integers
    def uns(self, p, w, st):
        c = cval(p)
        if c is not None:
            return const(c % (1 << w))
        iv = interval(p)
        if iv and iv[0] >= 0 and iv[1] < (1 << w):
            return p
        if iv and iv[1] < 0 and iv[0] >= -(1 << w):
            return p + (1 << w)
        if self.optimistic:
            return p
        ctx = st.ctx
        if ctx.prove(band(ge0(p), le(p, (1 << w) - 1))):
            return p
        if ctx.prove(band(lt(p, 0), ge0(p + (1 << w)))):
            return p + (1 << w)
        q = simp(p, ctx)
        if q is not p:
            return self.uns(q, w, st)
        return imod(p, const(1 << w))

    def sig(self, p, w, st):
        c = cval(p)
        h = 1 << (w - 1)
        if c is not None:
            c %= 2 * h
            return const(c - 2 * h if c >= h else c)
        iv = interval(p)
        if iv and iv[0] >= -h and iv[1] < h:
            return p
        if self.optimistic:
            return p
        if st.ctx.prove(band(ge0(p + h), le(p, h - 1))):
            return p
        u = self.uns(p, w, st)
        if st.ctx.prove(le(u, h - 1)):
            return u
        return u - scale(ge0(u - h), 2 * h)

    # ---------------- function entry
    def run(self, fn, st, args, tag=None, depth=0):
        """execute fn's body; returns Outcome (state None if it never returns)"""
        if fn.isdecl:
            raise Unsupported('no body: ' + fn.dem)
        if depth > 40:
            raise Unsupported('call depth (recursion) in ' + fn.dem)
        act = Act(fn, short_tag(tag or fn.name), depth)
        for i, (a, v) in enumerate(zip(fn.args, args)):
            act.env[('a', i)] = v
        rpo, num, loops = analyse(fn)
        ro = self.region(act, None, fn.blocks[0], [(st, {})], st)
        if not ro.rets:
            return Outcome(None, None, ro.throws)
        s, v = merge_states([(s, {'r': v}) for s, v in ro.rets])
        return Outcome(s, v['r'], ro.throws)

    def region(self, act, loop, entry, incoming, st0):
        rpo, num, loops = analyse(act.fn)
        ro = RegionOut()
        pend = {entry: incoming}
        blocks = loop.blocks if loop else None
        for b in rpo:
            if b not in pend:
                continue
            if blocks is not None and b not in blocks:
                continue
            inc = pend.pop(b)
            st, vals = merge_states(inc)
            if b in loops and (loop is None or b is not loop.header):
                lp = loops[b]
                for (s, to, pv) in self.run_loop(act, lp, st, vals, ro):
                    self._edge(act, ro, pend, blocks, loop, s, to, pv, b)
                continue
            for pid, v in vals.items():
                act.env[pid] = v
            self.block(act, b, st, ro, pend, blocks, loop)
        return ro

    def _edge(self, act, ro, pend, blocks, loop, st, to, pv, frm):
        if (blocks is not None and to not in blocks) or (loop is not None and to is loop.header):
            ro.edges.setdefault(to, []).append((st, pv, frm))
        else:
            pend.setdefault(to, []).append((st, pv))

    def phis(self, act, frm, to):
        pv = {}
        for ins in to.insts:
            if ins.op != 'phi':
                break
            for b, v in ins.x:
                if b is frm:
                    pv[ins.id] = self.val(act, v)
                    break
        return pv

    def block(self, act, b, st, ro, pend, blocks, loop):
        for ins in b.insts:
            self.stats['insts'] += 1
            op = ins.op
            if op == 'phi':
                continue
            if op == 'ret':
                ro.rets.append((st, self.val(act, ins.ops[0]) if ins.ops else None))
                return
            if op == 'unreachable':
                return
            if op == 'br':
                if len(ins.x) == 1:
                    self._edge(act, ro, pend, blocks, loop, st, ins.x[0], self.phis(act, b, ins.x[0]), b)
                    return
                c = self.val(act, ins.ops[0])
                if not isinstance(c, Poly):
                    raise Unsupported('branch on %r in %s' % (c, act.fn.dem))
                c = simp(c, st.ctx)
                for cond, to in ((c, ins.x[0]), (bnot(c), ins.x[1])):
                    if cond is ZERO:
                        continue
                    s2 = st.fork(cond)
                    self._edge(act, ro, pend, blocks, loop, s2, to, self.phis(act, b, to), b)
                return
            if op == 'switch':
                v = self.uns(self.val(act, ins.ops[0]), ins.ops[0].ty.bits, st)
                rest = ONE
                for cv, to in ins.x[1]:
                    c = simp(T.eq(v, cv.val), st.ctx)
                    if c is not ZERO:
                        self._edge(act, ro, pend, blocks, loop, st.fork(c), to, self.phis(act, b, to), b)
                    rest = rest * bnot(c)
                rest = simp(rest, st.ctx)
                if rest is not ZERO:
                    self._edge(act, ro, pend, blocks, loop, st.fork(rest), ins.x[0],
                               self.phis(act, b, ins.x[0]), b)
                return
            if op in ('call', 'invoke'):
                st = self.call(act, ins, st, ro)
                if st is None:
                    return
                if op == 'invoke':
                    to = ins.x[1]
                    self._edge(act, ro, pend, blocks, loop, st, to, self.phis(act, b, to), b)
                    return
                continue
            if op == 'store':
                st = self.store(act, ins, st)
                continue
            act.env[ins.id] = self.inst(act, ins, st)

    # ---------------- values
    def val(self, act, v):
        k = v.kind
        if k == 'inst':
            return act.env[v.val.id]
        if k == 'arg':
            return act.env[('a', v.val)]
        if k == 'const':
            return const(v.val)
        if k == 'null':
            return NULL
        if k == 'func':
            return FnVal(v.val)
        if k == 'global':
            return Ptr(self.w.global_root(v.name, v.val), (0,))
        if k == 'undef':
            if v.ty.kind == 'struct':
                return [OPQ] * len(v.ty.elems)
            return OPQ
        if k == 'zero':
            if v.ty.kind == 'struct':
                return [ZERO] * len(v.ty.elems)
            return ZERO
        if k == 'agg':
            return [self.val(act, x) for x in v.ops]
        if k == 'expr' and v.op == 'getelementptr':
            base = self.val(act, v.ops[0])
            return self.gep(base, v.x, [self.gepidx(self.val(act, x), x.ty, None) for x in v.ops[1:]], None)
        return Opaque(k)

    def inst(self, act, ins, st):
        op = ins.op
        if op == 'alloca':
            root = self.w.alloca_root(act, ins)
            return Ptr(root, (0,))
        if op == 'load':
            return self.load(self.val(act, ins.ops[0]), ins.ty, st)
        o = [self.val(act, x) for x in ins.ops]
        if op in ('add', 'sub', 'mul'):
            if isinstance(o[0], Opaque) or isinstance(o[1], Opaque):
                return OPQ
            if not (isinstance(o[0], Poly) and isinstance(o[1], Poly)):
                if op == 'sub' and isinstance(o[0], tuple) and isinstance(o[1], tuple):
                    return self.ptrdiff(o[0][1], o[1][1])
                raise Unsupported('%s on %r' % (op, o))
            if op == 'add' and ins.ty.kind == 'int':
                # adding 2^w - c is subtracting c
                for j in (0, 1):
                    cv = cval(o[j])
                    if cv is not None and 1 << (ins.ty.bits - 1) <= cv < 1 << ins.ty.bits and cval(o[1 - j]) is None:
                        o = list(o)
                        o[j] = const(cv - (1 << ins.ty.bits))
            return o[0] + o[1] if op == 'add' else o[0] - o[1] if op == 'sub' else o[0] * o[1]
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            w = ins.ty.bits
            if isinstance(o[0], Scaled):
                return o[0].n
            f = self.uns if op[0] == 'u' else self.sig
            a, b = f(o[0], w, st), f(o[1], w, st)
            if op[0] == 's' and not (st.ctx.prove(ge0(a)) and st.ctx.prove(lt(0, b))):
                pd = getattr(self, '_pd', None)
                ex = _exact_div(a, b)
                if ex is not None and op == 'sdiv':
                    return ex
                raise Unsupported('signed division of possibly negative values')
            return idiv(a, b) if op[1:] == 'div' else imod(a, b)
        if op == 'icmp':
            return self.icmp(ins, o, st)
        if op == 'zext':
            if ins.ops[0].ty.bits == 1:
                return o[0]
            return self.uns(o[0], ins.ops[0].ty.bits, st) if isinstance(o[0], Poly) else o[0]
        if op == 'sext':
            if ins.ops[0].ty.bits == 1:
                return -o[0]
            return self.sig(o[0], ins.ops[0].ty.bits, st) if isinstance(o[0], Poly) else o[0]
        if op == 'trunc':
            if not isinstance(o[0], Poly):
                return o[0]
            if ins.ty.bits == 1:
                if is_bool(o[0]):
                    return o[0]
                return imod(self.uns(o[0], ins.ops[0].ty.bits, st), const(2))
            return o[0]
        if op == 'shl':
            c = cval(o[1])
            if c is None:
                raise Unsupported('shl by variable')
            return scale(o[0], 1 << c)
        if op in ('lshr', 'ashr'):
            c = cval(o[1])
            if c is None:
                raise Unsupported('shift by variable')
            u = self.uns(o[0], ins.ty.bits, st) if op == 'lshr' else self.sig(o[0], ins.ty.bits, st)
            return idiv(u, const(1 << c))
        if op in ('and', 'or', 'xor'):
            a, b = o
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return OPQ
            if ins.ty.bits == 1 or (is_bool(a) and is_bool(b)):
                return a * b if op == 'and' else bor(a, b) if op == 'or' else a + b - 2 * (a * b)
            for x, y in ((a, b), (b, a)):
                c = cval(y)
                if c is not None and op == 'and' and c >= 0 and (c & (c + 1)) == 0:
                    return imod(self.uns(x, ins.ty.bits, st), const(c + 1))
            raise Unsupported('bitwise ' + op)
        if op == 'select':
            c = simp(o[0], st.ctx)
            return vite(c, o[1], o[2])
        if op == 'getelementptr':
            return self.gep(o[0], ins.srcty, [self.gepidx(x, v.ty, st) for x, v in zip(o[1:], ins.ops[1:])], st)
        if op == 'extractvalue':
            v = o[0]
            for i in ins.x:
                v = v[i] if isinstance(v, list) else OPQ
            return v
        if op == 'insertvalue':
            v = list(o[0]) if isinstance(o[0], list) else [OPQ] * len(ins.ty.elems)
            if len(ins.x) != 1:
                return OPQ
            v[ins.x[0]] = o[1]
            return v
        if op == 'ptrtoint':
            return ('p2i', o[0])
        if op in ('inttoptr',):
            return o[0][1] if isinstance(o[0], tuple) else OPQ
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return o[0]
        if op in ('landingpad', 'insertelement', 'extractelement', 'shufflevector', 'fadd', 'fmul', 'fsub',
                  'fdiv', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'fcmp', 'fneg'):
            return OPQ
        raise Unsupported('instruction ' + op)

    def gepidx(self, x, ty, st):
        if not isinstance(x, Poly):
            return x
        c = cval(x)
        if c is not None:
            c %= 1 << ty.bits
            return const(c - (1 << ty.bits) if c >= 1 << (ty.bits - 1) else c)
        return x if ty.bits == 64 else self.sig(x, ty.bits, st)

    def ptrdiff(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root is b.root and a.offs == b.offs and \
                len(a.path) >= 3 and a.path[:-2] == b.path[:-2]:
            return Scaled(a.path[-2] - b.path[-2])
        raise Unsupported('pointer difference %r %r' % (a, b))

    def icmp(self, ins, o, st):
        a, b = o
        p = ins.x
        if isinstance(a, (Ptr, Null, PIte, VTab)) or isinstance(b, (Ptr, Null, PIte)):
            if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
                return OPQ
            e = self.ptreq(a, b)
            if p == 'eq':
                return e
            if p == 'ne':
                return bnot(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root is b.root and a.offs == b.offs and \
                    len(a.path) >= 3 and a.path[:-2] == b.path[:-2]:
                a, b = a.path[-2], b.path[-2]
                return {'ult': lt(a, b), 'ule': le(a, b), 'ugt': lt(b, a), 'uge': le(b, a)}[p]
            raise Unsupported('pointer comparison')
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            return OPQ
        w = ins.ops[0].ty.bits
        if w == 1:
            e = a * b + (1 - a) * (1 - b)
            return e if p == 'eq' else bnot(e)
        if p in ('eq', 'ne'):
            a, b = self.uns(a, w, st), self.uns(b, w, st)
            if is_bool(a) and b in (ZERO, ONE):
                e = a if b is ONE else bnot(a)
            else:
                e = T.eq(a, b)
            return e if p == 'eq' else bnot(e)
        f = self.uns if p[0] == 'u' else self.sig
        a, b = f(a, w, st), f(b, w, st)
        if is_bool(a) and cval(b) is not None:
            # 0/1 value against a constant
            t = {'gt': lambda x: x > cval(b), 'ge': lambda x: x >= cval(b), 'lt': lambda x: x < cval(b),
                 'le': lambda x: x <= cval(b)}[p[1:]]
            return ite(a, const(int(t(1))), const(int(t(0))))
        return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[p[1:]]

    def ptreq(self, a, b):
        if isinstance(a, PIte):
            return ite(a.c, self.ptreq(a.a, b), self.ptreq(a.b, b))
        if isinstance(b, PIte):
            return self.ptreq(b, a)
        if isinstance(a, Null) and isinstance(b, Null):
            return ONE
        if isinstance(a, Null):
            a, b = b, a
        if isinstance(b, Null):
            if isinstance(a, Ptr):
                return self.w.isnull(a)
            if isinstance(a, (FnVal, VTab)):
                return ZERO
            raise Unsupported('null comparison of %r' % (a,))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if self.w.stored_object(a) and self.w.stored_object(b) and (a.root.name[0] == '*' or b.root.name[0] == '*') and a != b:
                # two pointers found in the initial memory: nothing says whether they point to the same object
                x, y = self.w.addr(a), self.w.addr(b)
                if str(y) < str(x):
                    x, y = y, x
                return T.boolapp('sameobj', x, y)
            if a.root is not b.root or len(a.path) != len(b.path):
                if a.root is b.root:
                    raise Unsupported('pointer comparison at different depth')
                return ZERO
            if a.offs != b.offs:
                return ZERO
            r = ONE
            for x, y in zip(a.idx, b.idx):
                r = r * T.eq(x, y)
            return r
        if a == b:
            return ONE
        raise Unsupported('pointer equality %r %r' % (a, b))

    # ---------------- memory access
    def gep(self, p, srcty, idx, st):
        if isinstance(p, PIte):
            return vite(p.c, self.gep(p.a, srcty, idx, st), self.gep(p.b, srcty, idx, st))
        if isinstance(p, VTab):
            c = cval(idx[0])
            return VSlot(p.obj, c)
        if isinstance(p, (Opaque, Null)):
            return p
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        i0 = idx[0]
        if isinstance(i0, Scaled):
            i0 = i0.n
        c0 = cval(i0)
        r = p
        if c0 != 0:
            sz = srcty.size
            if c0 is not None and srcty.kind == 'int' and srcty.bits == 8 and not (
                    len(p.path) >= 3 and self.w.elem_size(p) == 1):
                r = p.plus(c0 if c0 < (1 << 63) else c0 - (1 << 64))
            elif len(p.path) >= 3 and p.path[-1] == 0:
                if c0 is not None and c0 >= (1 << 63):
                    i0 = const(c0 - (1 << 64))
                r = Ptr(p.root, p.path[:-2] + (p.path[-2] + i0, 0), p.cls)
            elif len(p.path) == 1 and p.root.kind in ('local', 'buf'):
                r = Ptr(p.root, p.path + (i0, 0)) if c0 is None else p.plus(c0 * sz)
            else:
                raise Unsupported('pointer arithmetic on %r' % (p,))
        t = srcty
        for i in idx[1:]:
            c = cval(i)
            if t.kind == 'struct':
                r = r.plus(t.offs[c])
                t = t.elems[c]
            elif t.kind == 'array':
                r = Ptr(r.root, r.path + (i, 0))
                t = t.elem
            else:
                raise Unsupported('gep into %r' % t)
        return r

    def load(self, p, ty, st):
        if isinstance(p, PIte):
            return vite(p.c, self.load(p.a, ty, st), self.load(p.b, ty, st))
        if isinstance(p, VTab):
            return VSlot(p.obj, p.slot)
        if isinstance(p, Opaque):
            return OPQ
        if isinstance(p, Null):
            raise Unsupported('null dereference')
        if not isinstance(p, Ptr):
            raise Unsupported('load from %r' % (p,))
        if p.root.kind == 'global':
            return self.w.load_global(p, ty, self)
        v = read_key(st, p.root, p.offs, p.idx)
        if isinstance(v, Poly) and ty.kind == 'ptr':
            return OPQ
        return v

    def store(self, act, ins, st):
        v = self.val(act, ins.ops[0])
        p = self.val(act, ins.ops[1])
        return self.store_val(st, p, v, ins.srcty)

    def store_val(self, st, p, v, ty=None):
        if isinstance(p, PIte):
            # guarded writes
            s1 = self.store_val(st.fork(p.c), p.a, v, ty)
            s2 = self.store_val(st.fork(bnot(p.c)), p.b, v, ty)
            return merge_states([(s1, {}), (s2, {})])[0]
        if isinstance(p, Opaque):
            return st
        if not isinstance(p, Ptr):
            raise Unsupported('store to %r' % (p,))
        s = st.copy()
        if isinstance(v, list):
            offs = ty.offs if ty is not None and ty.kind == 'struct' else [8 * i for i in range(len(v))]
            for o, x in zip(offs, v):
                q = p.plus(o)
                write_key(s, q.root, q.offs, q.idx, x)
            return s
        write_key(s, p.root, p.offs, p.idx, v)
        return s

    # ---------------- calls
    def call(self, act, ins, st, ro):
        self.stats['calls'] += 1
        callee = ins.x[0]
        args = [self.val(act, x) if x.kind != 'meta' else OPQ for x in ins.ops]
        fv = self.val(act, callee) if callee.kind != 'asm' else OPQ
        n0 = len(ro.throws)
        if isinstance(fv, VSlot):
            st, ret = self.w.virtual_call(self, act, ins, st, fv, args, ro)
        elif isinstance(fv, FnVal):
            st, ret = self.w.dispatch(self, act, ins, st, fv.fn, args, ro)
        else:
            raise Unsupported('indirect call in ' + act.fn.dem)
        if ins.op == 'invoke' and len(ro.throws) > n0:
            lp = [i for i in ins.x[2].insts if i.op == 'landingpad']
            if lp and any(c.kind != 'null' or True for c in lp[0].x):
                raise Unsupported('exception caught in ' + act.fn.dem)
        if st is None:
            return None
        if ins.ty.kind != 'void':
            act.env[ins.id] = ret
        return st

    def inline(self, act, ins, st, fn, args, ro):
        self.stats['inlined'].add(fn.dem)
        out = self.run(fn, st, args, act.tag + '/%d:%s' % (ins.id, fn.name[-24:]), act.depth + 1)
        ro.throws += out.throws
        return out.state, out.ret

    # ---------------- the loop rule
    def run_loop(self, act, loop, st0, phi0, ro):
        from .loops import do_loop
        self.stats['loops'] += 1
        return do_loop(self, act, loop, st0, phi0, ro)


class Scaled:
    """pointer difference in elements (before division by the element size)"""
    def __init__(self, n):
        self.n = n


def _exact_div(a, b):
    return None


def is_bool(p):
    if p is ONE or p is ZERO:
        return True
    if len(p.t) > 24:
        return False
    for m, c in p.t:
        for a, e in m:
            if a.op != 'ind':
                return False
    if not any(m for m, c in p.t):
        return False
    iv = interval(p)
    if iv and iv[0] >= 0 and iv[1] <= 1:
        return True
    # evaluate all 0/1 assignments for few indicators
    ats = list({a for m, _ in p.t for a, _ in m})
    if len(ats) > 6:
        return False
    for bits in range(1 << len(ats)):
        d = {a: (bits >> i) & 1 for i, a in enumerate(ats)}
        v = 0
        for m, c in p.t:
            x = c
            for a, _ in m:
                x *= d[a]
            v += x
        if v not in (0, 1):
            return False
    return True
