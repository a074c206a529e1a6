"""Relational contracts: what the result satisfies, instead of what it is, and loops with a supplied invariant.

Used where the result is not a closed form of the arguments (elimination, long division).  A relational contract says
  requires  pre(v)            facts about the pre-state
  modifies  mod(v, new)       the cells it may change; at a call site they get arbitrary new values
  ensures   post(v, o, ret)   facts relating pre-state v and post-state o
  inv/variant                 for the loop of the body: facts at the head of the loop, and a number that falls
Every obligation is proved for the body as it stands; at a call site only requires/modifies/ensures are used.
An obligation that does not go through is reported as not decided, never as a violation: neither the invariant nor the
intermediate contracts are consequences of the property."""
from .terms import *
from . import terms as T
from . import used
from .ctx import Ctx, declare_app_bounds, declare_bounds
from .exec import (Executor, Ptr, State, Unsupported, IDX, MAXSZ, instantiate, prove_zero, the_all, first_body, norm, getcell_mem, read_key, write_key, eq_apps, closed_apps)
from .spec import View, Ob, setup_args, orc
from .terms import Blowup


class Post:
    def __init__(self, w, st):
        self.w, self.st = w, st

    def len(self, p):
        return read_key(self.st, p.root, p.offs + ('len',), p.idx)

    def el(self, p, i):
        q = p.elem(i)
        return read_key(self.st, q.root, q.offs, q.idx)


def feq_arg(f):
    if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1 and f.t[0][0][0][0].op == 'ind' and f.t[0][0][0][0].args[0] == 'feq0':
        return f.t[0][0][0][0].args[1]
    return None


_free = {}


def freebv(x):
    """bound variables of enclosing binders"""
    if not any(a.op == 'bv' for a in x.syms):
        return frozenset()
    r = _free.get(x)
    if r is not None:
        return r
    s = set()
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a, e in m:
                s |= freebv(a)
                if isinstance(e, Poly):
                    s |= freebv(e)
    elif x.op == 'bv':
        s.add(x)
    else:
        for c in T._children(x.args):
            s |= freebv(c)
        if x.op == 'sum':
            b = T._binder_base(x)
            s -= {T._bv(b + i) for i in range(len(x.args[0]))}
        elif x.op in ('prod', 'all'):
            s.discard(T._bv(x.depth))
    _free[x] = frozenset(s)
    return _free[x]


def cancel(p, ctx):
    """x * inv(x) = 1 where x is known not to vanish"""
    while True:
        for m, c in p.t:
            d = dict(m)
            hit = None
            for a in d:
                if a.op == 'inv' and len(a.args[0].t) == 1 and a.args[0].t[0][1] == 1 and len(a.args[0].t[0][0]) == 1 \
                        and a.args[0].t[0][0][0][1] == 1:
                    x = a.args[0].t[0][0][0][0]
                    if isinstance(d.get(x), int) and isinstance(d[a], int) and ctx.prove(bnot(feq(of_atom(x), ZERO))):
                        hit = (a, x)
                        break
            if hit:
                a, x = hit
                k = min(d[a], d[x])
                for y in hit:
                    d[y] -= k
                    if not d[y]:
                        del d[y]
                q = T._mk({m: c})
                r = const(c)
                for y, e in d.items():
                    r = r * (ppow(of_atom(y), e) if isinstance(e, Poly) else T.ipow(of_atom(y), e))
                p = p - q + r
                break
        else:
            return p


def field_subst(ctx):
    """the field equations of the context, solved for sums and cells (each replaced by something equal to it)"""
    mp = ctx._cache.get('field')
    if mp is not None:
        return mp
    mp = {}
    todo = [p for p in map(feq_arg, ctx.facts) if p is not None]
    while todo:
        p = todo.pop()
        p = cancel(norm(T.replace_atoms(p, mp) if mp else p, ctx), ctx)
        best = None
        for m, c in p.t:
            if len(m) != 1 or m[0][1] != 1 or c not in (1, -1):
                continue
            a = m[0][0]
            if a.op not in ('sum', 'app'):
                continue
            rest = p - scale(of_atom(a), c)
            if a in T.atoms_of(rest):
                continue
            key = (a.op == 'sum', a.id)
            if best is None or key > best[0]:
                best = (key, a, scale(rest, -c))
        if best is None:
            continue
        _, a, v = best
        mp = {x: T.replace_atoms(y, {a: v}) for x, y in mp.items()}
        mp[a] = v
    ctx._cache['field'] = mp
    return mp


def field_close(f, ctx):
    """decide field equations that follow from the ones known, in the goal and in the facts"""
    mp = field_subst(ctx)
    rep = {}
    for p in [f] + list(ctx.facts):
        if feq_arg(p) is not None and p is not f:
            continue
        for a in T.atoms_of(p):
            if a.op == 'ind' and a.args[0] == 'feq0' and a not in rep and not freebv(a):
                q = T.replace_atoms(a.args[1], mp) if mp else a.args[1]
                q = cancel(norm(q, ctx), ctx)
                if not q.t:
                    rep[a] = ONE
                elif q is not a.args[1]:
                    rep[a] = feq(q, ZERO)
    if not rep:
        return f, ctx
    return T.replace_atoms(f, rep), ctx.plus(*[T.replace_atoms(p, rep) for p in ctx.facts if feq_arg(p) is None])


def entails(f, ctx, terms=(), depth=12):
    """f holds in ctx: directly, at an arbitrary index if f is quantified, with the quantified facts of the context taken
    at that index and at the terms given"""
    if f is ONE or ctx.prove(f):
        return True
    h = the_all(f)
    if h is not None:
        b = the_atom(h.args[1])
        v = fresh('i')
        body = T.open_(b.args[1], v, b)
        c = ctx.plus(ge0(v), lt(v, b.args[0]))
        c = instantiate(c, v, h)
        return entails(body, c, terms, depth)
    for t in terms:
        ctx = instantiate(ctx, t)
    p = feq_arg(f)
    if p is not None:
        mp = field_subst(ctx)
        if prove_zero(cancel(norm(T.replace_atoms(p, mp), ctx), ctx) if mp else p, ctx, depth):
            return True
    g, c = field_close(f, ctx)
    if g is ONE or (g is ZERO and not c.sat()) or prove_zero(bnot(g), c, depth):
        return True
    g2, c2 = saturate(g, c)
    return (g2, c2) != (g, c) and (g2 is ONE or not c2.sat() or prove_zero(bnot(g2), c2, depth))


def saturate(f, ctx, rounds=5):
    """what is known used on what is known: equalities between lengths in the array reads, decided cases dropped from the
    alternatives, field equations in the conditions"""
    for _ in range(rounds):
        old = ctx
        ma = eq_apps(ctx)
        if ma:
            f = T.replace_atoms(f, ma)
            ctx = closed_apps(ctx, ma)
        fs = list(ctx.facts)
        for i, x in enumerate(fs):
            if len(x.t) > 1 and the_all(x) is None:
                fs[i] = norm(x, Ctx(fs[:i] + fs[i + 1:]))
        ctx = Ctx(fs)
        f, ctx = field_close(f, ctx)
        f = norm(f, ctx)
        if ctx is old or f is ONE:
            break
    return f, ctx


class ProofFail(Exception):
    pass


def tidy(ctx):
    """the facts about field elements, simplified under the facts about integers"""
    isf = lambda f: any(a.op == 'ind' and a.args[0] == 'feq0' for a in T.atoms_of(f))
    ints = Ctx([f for f in ctx.facts if not isf(f)])
    return Ctx([norm(f, ints) if isf(f) else f for f in ctx.facts])


class Proof:
    """a proof written out: facts established one after the other.  The sum rules are the laws of finite sums; their side
    conditions are proved, everything else goes through entails."""

    def __init__(self, ctx):
        self.ctx = tidy(ctx)
        self.known = {}

    def rewrite(self, x, val):
        """x is val: say so in every fact, and in the goal"""
        self.have(T.eq(x, val))
        mp = {the_atom(x): val}
        self.ctx = self.ctx.plus(*[T.replace_atoms(f, mp) for f in self.ctx.facts])
        self.known = dict(self.known)
        self.known.update(mp)

    def have(self, f, at=()):
        if self.known:
            f = T.replace_atoms(f, self.known)
        if not entails(f, self.ctx, at):
            raise ProofFail(str(f)[:3000])
        self.ctx = self.ctx.plus(f)

    def cases(self, c, fn):
        """fn(proof, truth) proves the goal in both cases"""
        for x, t in ((c, True), (bnot(c), False)):
            k = Proof(self.ctx.plus(x))
            k.known = dict(self.known)
            if k.ctx.sat():
                fn(k, t)

    def first(self, f):
        """the defining facts of a least index known to exist"""
        a = the_atom(f)
        n, v, body = first_body(a.args[1])
        self.have(bnot(a.args[1]))
        self.ctx = self.ctx.plus(ge0(f), lt(f, n), bnot(subst(body, {the_atom(v): f})), mk_all(f, v, body))

    def sum(self, n, f):
        j = fresh('j')
        return mk_sum(n, j, f(j))

    def eq(self, a, b):
        self.ctx = self.ctx.plus(feq(norm(a, self.ctx), norm(b, self.ctx)))
        return a - b

    def zero(self, d):
        self.have(feq(d, ZERO))
        return d

    def total(self, *ds):
        """each d vanishes (returned by a rule), so their sum does"""
        x = ZERO
        for d in ds:
            x = x + d
        self.ctx = self.ctx.plus(feq(x, ZERO))

    def split(self, n, m, g):
        """sum over n = sum over the first m + the rest, for 0 <= m <= n"""
        self.have(ge0(m))
        self.have(le(m, n))
        self.eq(self.sum(n, g), self.sum(m, g) + self.sum(n - m, lambda j: g(m + j)))

    def congr(self, n, g, h, at=lambda i: ()):
        """equal terms, equal sums"""
        v = fresh('i')
        c = self.ctx.plus(ge0(v), lt(v, n))
        for t in (v,) + tuple(at(v)):
            c = instantiate(c, t)
        if not entails(feq(g(v), h(v)), c):
            raise ProofFail('congruence: %s = %s' % (str(g(v))[:1500], str(h(v))[:1500]))
        return self.eq(self.sum(n, g), self.sum(n, h))

    def exchange(self, n, m, t):
        """sum over i < n of the sum over j < m (m free of i) = the other order"""
        return self.eq(self.sum(n, lambda i: self.sum(m, lambda j: t(i, j))), self.sum(m, lambda j: self.sum(n, lambda i: t(i, j))))

    def factor(self, n, z, e, f):
        """z^e out of a sum, e >= 0"""
        self.have(ge0(e))
        self.ctx = self.ctx.plus(feq(self.sum(n, lambda j: ppow(z, e + j) * f(j)), ppow(z, e) * self.sum(n, lambda j: ppow(z, j) * f(j))))

    def window(self, n, lo, q, h):
        """the terms outside lo .. lo+q-1 vanish"""
        for f in (ge0(lo), ge0(q), le(lo + q, n)):
            self.have(f)
        self.ctx = self.ctx.plus(feq(norm(self.sum(n, lambda x: ge0(x - lo) * lt(x - lo, q) * h(x)), self.ctx), self.sum(q, lambda j: h(lo + j))))


class RContract:
    backend = 'vcg relational contract: symbolic execution + supplied invariant + z3'
    src = ('m61', ['tu:scl61'])

    def __init__(self, name, types, world, pre, mod, post, inv=None, variant=None, terms=None, throws=None, via=None, lemma=None, vproof=None):
        self.name, self.types, self.world = name, types, world
        self.throws, self.via, self.lemma, self.vproof = throws, via, lemma, vproof
        self.pre, self.mod, self.post, self.invf, self.varf, self.termsf = pre, mod, post, inv, variant, terms

    # ---- at a call
    def apply(self, ex, act, ins, st, args, ro):
        if ex.kstack:
            raise Unsupported('relational contract inside a summarised loop: ' + self.name)
        v = View(ex.w, ex, act, ins, st, args, ro)
        for n, c in self.pre(v):
            if not ex.optimistic and not entails(c, st.ctx):
                raise Unsupported('precondition of %s not established: %s: %s' % (self.name, n, str(c)[:300]))
        if self.throws:
            v.throws(*self.throws(v))
            if v.dead:
                return None, None
        o = self.havoc(v, '%s/%d' % (act.tag, ins.id))
        o.st.base = o.st.base.plus(*[x[1] for x in self.post(v, o, None)])
        return o.st, v.ret

    def havoc(self, v, tag):
        st = v.st

        def new(p, what):
            """arbitrary new content: 'vec' at p"""
            n = 'new.%s.%s%d' % (tag, p.root.name, p.root.uid)
            if what == 'vec':
                declare_app_bounds(n + '.len', 0, MAXSZ)
                write_key(st, p.root, p.offs + ('len',), p.idx, T.app(n + '.len'))
                write_key(st, p.root, p.offs + (0,), p.idx, T.app(n, IDX[len(p.idx)]))
            else:
                raise Unsupported(what)
        self.mod(v, new)
        return Post(v.w, st)

    # ---- against the body
    def check(self, kind, f, ctx, proof=None):
        ts = self.termsf(self.view) if self.termsf else ()
        why = ''
        try:
            if proof is not None:
                def done(k):
                    k.have(f)
                proof(Proof(ctx), done)
                ok = True
            else:
                ok = entails(f, ctx, ts)
                why = str(f)
        except Blowup:
            ok, why = False, 'term size limit'
        except ProofFail as e:
            ok, why = False, str(e)
        self.obs.append(Ob(self.name, kind, True if ok else None, '' if ok else why))

    def inv(self, h):
        return self.invf(self.view, h)

    def variant(self, h):
        return self.varf(self.view, h)

    def variant_proof(self, h):
        return self.vproof(self.view, h) if self.vproof else None

    def obligations(self, env):
        w = self.world(env)
        self.obs = obs = []
        fns = [f for f in w.mod.bydem.get(self.name, []) if not f.isdecl]
        if not fns:
            return [Ob(self.name, 'body', None, 'function not found in the current source')]
        fn = fns[0]
        if len(fn.args) != len(self.types):
            return [Ob(self.name, 'signature', None, 'has %d IR arguments' % len(fn.args))]
        try:
            ex = Executor(w)
            if self.invf:
                ex.inv = self
            w.heap_reset()
            st, args = setup_args(w, ex, fn, self.types)
            v = self.view = View(w, ex, None, None, st, args, None)
            st = st.fork(*[f for _, f in self.pre(v)])
            obs.append(Ob(self.name, 'requires-satisfiable', True if st.ctx.sat() else None))
            v = self.view = View(w, ex, None, None, st, args, None)
            if self.via is not None:
                # from the functional contract, which is discharged against the body on its own
                class R:
                    throws = []
                    ret = None
                out = R()
                out.throws = []
                x = View(w, ex, None, None, st, args, out)
                for f in (self.via.pre(x) if self.via.pre else ()):
                    self.check('requires of the functional contract', f, st.ctx)
                if self.lemma:
                    # its result in terms of a relational contract proved for every input
                    o = self.havoc(x, 'via')
                    o.st.base = o.st.base.plus(*[f[1] for f in self.lemma(x, o)])
                    out.state, out.ret = o.st, None
                else:
                    self.via.spec(x)
                    out.state, out.ret = (None if x.dead else x.st), x.ret
                used.CONTRACTS.add(self.via.name)
            else:
                out = ex.run(fn, st, args)
            tc, tt = self.throws(v) if self.throws else (ZERO, None)
            for t in sorted({t for _, t in out.throws} | ({tt} if tt else set())):
                c = orc([c[len(st.cond):] for c, x in out.throws if x == t])
                obs.append(Ob(self.name, 'throws[%s]' % t, True if prove_zero(c - (tc if t == tt else ZERO), st.ctx) else None))
            if out.state is None:
                obs.append(Ob(self.name, 'returns', None, 'never returns normally'))
                return obs
            o = Post(w, out.state)
            for n, f, *proof in self.post(v, o, out.ret):
                self.check('ensures[%s]' % n, f, out.state.ctx, *proof)
            # frame: nothing else of the caller changes
            a = View(w, ex, None, None, st, args, None)
            allowed = set()
            self.mod(a, lambda p, what: allowed.update([(p.root, p.offs + ('len',)), (p.root, p.offs + (0,))]))
            for k, x in out.state.mem.items():
                if k[0].kind == 'sym' or getattr(k[0], 'out', False):
                    if k in allowed or k not in out.state.mem:
                        continue
                    y = getcell_mem(st.mem, k)
                    obs.append(Ob(self.name, 'frame[%s.%s]' % (k[0].name, '.'.join(map(str, k[1]))), True if x is y or x == y else None))
        except Unsupported as e:
            obs.append(Ob(self.name, 'body', None, 'not supported: %s' % e))
        except Blowup:
            obs.append(Ob(self.name, 'body', None, 'term size limit'))
        return obs
