"""Path-condition contexts: deciding 0/1 terms with z3, simplification under a context."""
import time
import z3
from .terms import *
from .terms import _bv, _mk
from . import terms as T

STATS = dict(queries=0, time=0.0, timeouts=0)
_ints = {}


def zint(a):
    v = _ints.get(a)
    if v is None:
        v = z3.Int('a%d' % a.id)
        _ints[a] = v
    return v


_bools = {}


def zbool(a):
    v = _bools.get(a)
    if v is None:
        v = z3.Bool('b%d' % a.id)
        _bools[a] = v
    return v


_zi = {}
_zb = {}
_side = {}


def to_int(p, side):
    if isinstance(p, int):
        return z3.IntVal(p)
    key = p
    r = _zi.get(key)
    if r is not None:
        side |= _side[key]
        return r
    mys = set()
    terms = []
    for m, c in p.t:
        f = []
        for a, e in m:
            x = atom_int(a, mys)
            if isinstance(e, Poly):
                f.append(zint(mk_atom('powop', a, e)))
            else:
                f += [x] * e
        if not f:
            terms.append(z3.IntVal(c))
        else:
            t = f[0]
            for y in f[1:]:
                if z3.is_app_of(y, z3.Z3_OP_ITE) and z3.is_int_value(y.arg(1)):
                    t = z3.If(y.arg(0), t, z3.IntVal(0))
                elif z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)):
                    t = z3.If(t.arg(0), y, z3.IntVal(0))
                else:
                    t = t * y
            terms.append(t if c == 1 else c * t)
    r = terms[0] if len(terms) == 1 else (z3.Sum(terms) if terms else z3.IntVal(0))
    _zi[key] = r
    _side[key] = frozenset(mys)
    side |= mys
    return r


def atom_int(a, side):
    if a.op == 'ind':
        return z3.If(atom_bool(a, side), z3.IntVal(1), z3.IntVal(0))
    if a.op == 'div':
        v = zint(a)
        side.add(a)
        return v
    if a.op == 'app' and len(a.args) > 1:
        # applications are uninterpreted functions: equal arguments, equal values
        return zfun(a.args[0], len(a.args) - 1, False)(*[to_int(x, side) for x in a.args[1:]])
    return zint(a)


_funs = {}


def zfun(name, n, boolean):
    k = (name, n, boolean)
    f = _funs.get(k)
    if f is None:
        f = z3.Function('f%d' % len(_funs), *([z3.IntSort()] * n + [z3.BoolSort() if boolean else z3.IntSort()]))
        _funs[k] = f
    return f


def atom_bool(a, side):
    k = a.args[0]
    if k == 'ge0':
        return to_int(a.args[1], side) >= 0
    if k == 'eq0':
        return to_int(a.args[1], side) == 0
    if isinstance(k, str) and k.startswith('p:') and len(a.args) > 1:
        return zfun(k, len(a.args) - 1, True)(*[to_int(x, side) for x in a.args[1:]])
    return zbool(a)


def to_bool(p, side):
    if p is ONE:
        return z3.BoolVal(True)
    if p is ZERO:
        return z3.BoolVal(False)
    r = _zb.get(p)
    if r is not None:
        side |= _side[('b', p)]
        return r
    mys = set()
    if len(p.t) == 1 and p.t[0][1] == 1:
        r = z3.And([atom_bool(a, mys) for a, _ in p.t[0][0]])
    else:
        d = dict(p.t)
        if d.get((), 0) == 1 and len(d) == 2:
            m = [x for x in d if x != ()][0]
            if d[m] == -1:
                r = z3.Not(z3.And([atom_bool(a, mys) for a, _ in m]))
        if r is None:
            r = to_int(p, mys) == 1
    _zb[p] = r
    _side[('b', p)] = frozenset(mys)
    side |= mys
    return r


def side_facts(side):
    out = []
    todo = list(side)
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        s2 = set()
        n = to_int(a.args[0], s2)
        d = to_int(a.args[1], s2)
        v = zint(a)
        out.append(z3.Implies(d > 0, z3.And(d * v <= n, n < d * v + d)))
        todo += list(s2)
    return out


def ge_arg(f):
    if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1:
        a = f.t[0][0][0][0]
        if a.op == 'ind' and a.args[0] == 'ge0':
            return a.args[1]
    return None


class Ctx:
    """a conjunction of 0/1 polys"""
    __slots__ = ('facts', 'key', '_cache', '_solver', '_set')
    _all = {}

    def __new__(cls, facts=()):
        fs = []
        seen = set()
        for f in facts:
            if f is ONE or f in seen:
                continue
            # split monomials of coefficient 1
            if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) > 1:
                for a, _ in f.t[0][0]:
                    q = of_atom(a)
                    if q not in seen:
                        seen.add(q)
                        fs.append(q)
                continue
            if len(f.t) > 1:
                # literals common to all monomials hold
                common = set(a for a, e in f.t[0][0] if a.op == 'ind')
                for m, _ in f.t[1:]:
                    if not common:
                        break
                    common &= set(a for a, e in m)
                if common:
                    for a in sorted(common, key=lambda x: x.id):
                        q = of_atom(a)
                        if q not in seen:
                            seen.add(q)
                            fs.append(q)
                    f = _mk({tuple(x for x in m if x[0] not in common): c for m, c in f.t})
                    if f is ONE or f in seen:
                        continue
            seen.add(f)
            fs.append(f)
        for f in list(fs):
            # x >= 0 and -x >= 0: the equality, in the form substitutions are read from
            x = ge_arg(f)
            if x is not None and T.ge0(-x) in seen:
                e = T.eq(x, 0)
                if e is not ONE and e not in seen:
                    seen.add(e)
                    fs.append(e)
        key = frozenset(fs)
        c = cls._all.get(key)
        if c is None:
            c = object.__new__(cls)
            c.facts = tuple(fs)
            c.key = key
            c._cache = {}
            c._solver = None
            c._set = key
            cls._all[key] = c
        return c

    def plus(self, *fs):
        fs = [f for f in fs if f is not ONE and f not in self._set]
        if not fs:
            return self
        return Ctx(self.facts + tuple(fs))

    def solver(self):
        if self._solver is None:
            s = z3.SolverFor('ALL') if False else z3.Solver()
            s.set('timeout', 3000)
            side = set()
            for f in self.facts:
                s.add(to_bool(f, side))
            for x in side_facts(side):
                s.add(x)
            for x in bound_facts(self.facts):
                s.add(x)
            self._solver = s
        return self._solver

    def sat(self):
        return not self.prove(ZERO)

    def prove(self, g, timeout=3000):
        """True if g follows from the context"""
        if g is ONE:
            return True
        if g in self._set:
            return True
        if g is ZERO and not self.facts:
            return False
        r = self._cache.get(g)
        if r is not None:
            return r
        # conjunction: prove each
        if len(g.t) == 1 and g.t[0][1] == 1 and len(g.t[0][0]) > 1:
            r = all(self.prove(of_atom(a)) for a, _ in g.t[0][0])
            self._cache[g] = r
            return r
        t = time.time()
        s = self.solver()
        s.set('timeout', timeout)
        s.push()
        side = set()
        b = to_bool(g, side)
        for x in side_facts(side):
            s.add(x)
        for x in bound_facts([g]):
            s.add(x)
        s.add(z3.Not(b))
        res = s.check()
        s.pop()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        if res == z3.unknown:
            STATS['timeouts'] += 1
        r = res == z3.unsat
        self._cache[g] = r
        return r

    def model(self, extra):
        s = z3.Solver()
        s.set('timeout', 5000)
        side = set()
        for f in list(self.facts) + list(extra):
            s.add(to_bool(f, side))
        for x in side_facts(side):
            s.add(x)
        for x in bound_facts(list(self.facts) + list(extra)):
            s.add(x)
        if s.check() == z3.sat:
            return s.model()
        return None

    def decide(self, g):
        """True / False / None"""
        if g is ONE:
            return True
        if g is ZERO:
            return False
        if self.prove(g):
            return True
        if self.prove(bnot(g)):
            return False
        return None


# global facts about integer-valued symbols: name-prefix -> (lo, hi)
_bounds = {}


def declare_bounds(atom, lo, hi):
    _bounds[atom] = (lo, hi)


_appbounds = {}


def declare_app_bounds(name, lo, hi):
    _appbounds[name] = (lo, hi)


def _isb(p):
    from .exec import is_bool
    return is_bool(p)


def _nonneg(p):
    """obviously not negative: a sum of products of what is not negative"""
    for m, c in p.t:
        if c < 0:
            return False
        for a, e in m:
            if a.op in ('ind', 'bv'):
                continue
            if a.op == 'sum' and _nonneg(a.args[1]):
                continue
            b = _bounds.get(a) or (_appbounds.get(a.args[0]) if a.op == 'app' else None)
            if not (b and b[0] is not None and b[0] >= 0):
                return False
    return True


def bound_facts(ps):
    out = []
    seen = set()
    for p in ps:
        for a in p.syms if False else atoms_of(p):
            if a in seen:
                continue
            seen.add(a)
            if a.op == 'sum' and len(a.args[0]) == 1 and _isb(a.args[1]):
                # a count
                v = atom_int(a, set())
                n = to_int(a.args[0][0], set())
                out += [v >= 0, z3.Implies(n >= 0, v <= n)]
                continue
            if a.op == 'sum' and _nonneg(a.args[1]):
                out.append(atom_int(a, set()) >= 0)
                n = a.args[0][0]
                if len(a.args[0]) == 1 and dict(n.t).get((), 0) == 1 and len(n.t) > 1:
                    # the last term of the sum
                    v, n1, side = T.fresh('s'), n - 1, set()
                    r = T.mk_sum(n1, v, T.open_(a.args[1], [v], a)) + T.open_(a.args[1], [n1], a)
                    e = z3.Implies(to_int(n1, side) >= 0, atom_int(a, side) == to_int(r, side))
                    if not side:
                        out += [e] + bound_facts([r])
            if a.op == 'app' and a.args[0] == 'first':
                # 0 where nothing fails
                from .exec import first_body
                fb = first_body(a.args[1])
                if fb is not None:
                    v = atom_int(a, set())
                    n = to_int(fb[0], set())
                    out += [v >= 0, z3.Implies(n >= 1, v < n), z3.Implies(n <= 0, to_int(a.args[1], set()) == 1)]
            b = _bounds.get(a)
            if b is None and a.op == 'app':
                b = _appbounds.get(a.args[0])
            if b:
                v = atom_int(a, set())
                if b[0] is not None:
                    out.append(v >= b[0])
                if b[1] is not None:
                    out.append(v <= b[1])
    return out


def simp(p, ctx, memo=None):
    """simplify p under ctx: decide indicators (also inside binders)"""
    if memo is None:
        memo = {}
    key = (p, ctx)
    r = memo.get(key)
    if r is not None:
        return r
    inds = set()
    for m, _ in p.t:
        for a, e in m:
            if a.op in ('ind', 'sum', 'prod', 'app', 'inv', 'div', 'pbase'):
                inds.add(a)
    if not inds:
        memo[key] = p
        return p
    rep = {}
    for a in inds:
        n = _simp_atom(a, ctx, memo)
        if n is not None:
            rep[a] = n
    if not rep:
        r = _mono_simp(p, ctx, memo)
        memo[key] = r
        return r
    out = ZERO
    for m, c in p.t:
        q = const(c)
        for a, e in m:
            x = rep.get(a)
            if x is None:
                q = q * T._mk({((a, e),): 1})
            elif isinstance(e, Poly):
                q = q * ppow(x, e)
            else:
                q = q * ipow(x, e)
        out = out + q
    out = _mono_simp(out, ctx, memo)
    memo[key] = out
    return out


_inner = {}


def _inner_inds(a):
    """integer indicators strictly inside atom a"""
    r = _inner.get(a)
    if r is None:
        r = frozenset(x for x in atoms_of(of_atom(a)) if x is not a and x.op == 'ind' and x.args[0] in ('ge0', 'eq0'))
        _inner[a] = r
    return r


def _mono_simp(p, ctx, memo):
    """a factor [c] of a monomial is known true inside the other factors"""
    out = None
    for i, (m, c) in enumerate(p.t):
        inds = [a for a, e in m if a.op == 'ind' and a.args[0] in ('ge0', 'eq0')]
        q = None
        if inds and len(m) > len(inds):
            syms = frozenset()
            for a in inds:
                syms |= a.syms
            hit = {}
            for a, e in m:
                if a in inds:
                    continue
                inn = _inner_inds(a)
                if inn and any(x.syms & syms for x in inn):
                    c2 = ctx.plus(*[of_atom(x) for x in inds])
                    x = simp(of_atom(a), c2, memo)
                    if len(x.t) != 1 or x.t[0][1] != 1 or len(x.t[0][0]) != 1 or x.t[0][0][0][0] is not a:
                        hit[a] = x
            if hit:
                q = const(c)
                for a, e in m:
                    x = hit.get(a)
                    if x is None:
                        q = q * T._mk({((a, e),): 1})
                    else:
                        q = q * (ppow(x, e) if isinstance(e, Poly) else ipow(x, e))
        if q is not None and out is None:
            out = ZERO
            for mm, cc in p.t[:i]:
                out = out + T._mk({mm: cc})
        if out is not None:
            out = out + (q if q is not None else T._mk({m: c}))
    return p if out is None else out


def match1(pat, tgt, v):
    """a term e with pat[v := e] = tgt, or None if none is found (candidate only)"""
    if pat is v:
        return tgt
    if v not in pat.syms and the_atom(v) not in pat.syms:
        return None
    if len(pat.t) != 1 or len(tgt.t) != 1:
        # pat = v + rest
        d = tgt - (pat - v)
        return d if the_atom(v) not in (pat - v).syms else None
    (m1, c1), (m2, c2) = pat.t[0], tgt.t[0]
    if len(m1) != 1 or len(m2) != 1:
        return None
    x, y = m1[0][0], m2[0][0]
    if x.op != y.op or len(x.args) != len(y.args):
        return None
    for p, q in zip(x.args, y.args):
        if isinstance(p, Poly) and isinstance(q, Poly):
            e = match1(p, q, v)
            if e is not None:
                return e
        elif p != q:
            return None
    return None


def by_universal(a, ctx):
    """the predicate atom a is an instance of a universally quantified fact"""
    us = ctx._cache.get('univ')
    if us is None:
        us = []

        def collect(f, vs):
            if len(f.t) != 1 or f.t[0][1] != 1:
                return
            for h, _ in f.t[0][0]:
                if h.op == 'ind' and h.args[0] == 'all':
                    b = the_atom(h.args[1])
                    v = fresh('u')
                    collect(open_(b.args[1], v, b), vs + [(b.args[0], v)])
                elif vs:
                    us.append((vs, h))
        for f in ctx.facts:
            collect(f, [])
        ctx._cache['univ'] = us
    for vs, x in us:
        if x.op != 'ind' or x.args[0] != a.args[0] or len(x.args) != len(a.args):
            continue
        mp = {}
        for _, v in vs:
            for p, q in zip(x.args[1:], a.args[1:]):
                e = match1(p, q, v)
                if e is not None:
                    mp[the_atom(v)] = e
                    break
        if len(mp) == len(vs) and subst(of_atom(x), mp) == of_atom(a):
            if all(ctx.prove(ge0(mp[the_atom(v)])) and ctx.prove(lt(mp[the_atom(v)], subst(n, mp))) for n, v in vs):
                return True
    return False


def div_known(x, c, ctx):
    """q with c q <= x < c q + c, read off the facts"""
    if T.cval(c) is not None and not x.syms:
        return None
    for f in ctx.facts:
        y = ge_arg(f)
        if y is None:
            continue
        d = x - y               # x >= d
        for s in d.syms:
            if s.op != 'sym' or s in c.syms:
                continue
            q = of_atom(s)
            if d == c * q:
                if ctx.prove(lt(x, d + c)) and ctx.prove(le(1, c)):
                    return q
    return None


def _simp_atom(a, ctx, memo):
    op = a.op
    if op == 'ind':
        k = a.args[0]
        if k in ('ge0', 'eq0'):
            if k == 'eq0' or True:
                d = ctx.decide(of_atom(a))
                if d is not None:
                    return ONE if d else ZERO
            n = simp(a.args[1], ctx, memo)
            if k == 'ge0' and len(n.t) == 2:
                # 1 <= v for a bound variable v >= 0: not v = 0
                v = n + 1
                if len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1 and v.t[0][0][0][0].op == 'sym' and \
                        v.t[0][0][0][1] == 1 and str(v.t[0][0][0][0].args[0]).startswith('k!') and ge0(v) in ctx._set:
                    return bnot(eq(v, ZERO))
            if n is not a.args[1]:
                return ge0(n) if k == 'ge0' else eq(n, ZERO)
            return None
        if of_atom(a) in ctx._set:
            return ONE
        if bnot(of_atom(a)) in ctx._set:
            return ZERO
        if k[0] == 'p' and by_universal(a, ctx):
            return ONE
        if k == 'feq0':
            n = simp(a.args[1], ctx, memo)
            if n is not a.args[1]:
                return feq(n, ZERO)
            return None
        if k == 'all':
            b = the_atom(a.args[1])
            n = simp(b.args[0], ctx, memo)
            if ctx.prove(le(n, 0)):
                return ONE
            v = fresh()
            body0 = open_(b.args[1], v, b)
            body = simp(body0, ctx.plus(ge0(v), lt(v, n)), memo)
            if body is not ONE and ctx.prove(lt(0, n)) and simp(subst(body, {the_atom(v): ZERO}), ctx, memo) is ZERO:
                return ZERO
            if body is not body0 or n is not b.args[0]:
                return mk_all(n, v, body)
            return None
        args = [simp(x, ctx, memo) for x in a.args[1:]]
        if any(x is not y for x, y in zip(args, a.args[1:])):
            return of_atom(mk_atom('ind', k, *args))
        return None
    if op == 'app':
        if a.args[0] == 'first':
            # its argument stands for a predicate, not for its truth value here: the body may change only pointwise
            from .exec import first_body
            fb = first_body(a.args[1])
            if fb is None:
                return None
            n, v, body0 = fb
            body = simp(body0, ctx.plus(ge0(v), lt(v, n)), memo)
            if simp(subst(body, {the_atom(v): ZERO}), ctx, memo) is ZERO:
                return ZERO
            if body is body0 or body is ONE or body is ZERO:
                return None
            G = mk_all(n, v, body)
            if G is a.args[1] or first_body(G) is None:
                return None
            r = app('first', G)
            from .loops import declare_first
            declare_first(r, n)
            return r
        args = [simp(x, ctx, memo) for x in a.args[1:]]
        if any(x is not y for x, y in zip(args, a.args[1:])):
            return app(a.args[0], *args)
        return None
    if op == 'inv':
        n = simp(a.args[0], ctx, memo)
        return inv(n) if n is not a.args[0] else None
    if op == 'pbase':
        n = simp(a.args[0], ctx, memo)
        return n if n is not a.args[0] else None
    if op == 'div':
        n = [simp(x, ctx, memo) for x in a.args]
        q = div_known(n[0], n[1], ctx)
        if q is not None:
            return q
        return idiv(*n) if n[0] is not a.args[0] or n[1] is not a.args[1] else None
    if op == 'prod':
        n = simp(a.args[0], ctx, memo)
        v = fresh()
        b0 = open_(a.args[1], v, a)
        b = simp(b0, ctx.plus(ge0(v), lt(v, n)), memo)
        if b is not b0 or n is not a.args[0]:
            return mk_prod(n, v, b)
        return None
    if op == 'sum':
        vs = [fresh() for _ in a.args[0]]
        ns = [simp(n, ctx, memo) for n in a.args[0]]
        c2 = ctx
        for v, n in zip(vs, ns):
            c2 = c2.plus(ge0(v), lt(v, n))
        if not c2.sat():
            return ZERO
        b0 = open_(a.args[1], vs, a)
        b = simp(b0, c2, memo)
        if b is not b0 or any(x is not y for x, y in zip(ns, a.args[0])):
            r = b
            for n, v in list(zip(ns, vs))[::-1]:
                r = mk_sum(n, v, r)
            return r
        return None
    return None


# ---------------------------------------------------------------- numeric evaluation (refutation)
MOD = (1 << 61) - 1


def _h(*k):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=12).digest(), 'big')


class Eval:
    """evaluate a term at a concrete assignment of the integer symbols; array contents are
    pseudo-random functions of their concrete arguments."""

    def __init__(self, ints, seed=0, intapps=None, mod=MOD, fmod=None):
        self.ints, self.seed, self.mod = ints, seed, mod
        self.intapps = intapps or {}
        self.memo = {}
        self.budget = 400000
        self.fmod = fmod or mod

    def I(self, p, env):
        return self._p(p, env, None)

    def Fv(self, p, env=None):
        return self._p(p, env or {}, self.mod)

    def _p(self, p, env, mod):
        self.budget -= 1
        if self.budget < 0:
            raise Blowup('eval')
        if isinstance(p, int):
            return p
        r = 0
        for m, c in p.t:
            x = c
            for a, e in m:
                if a.op == 'ind' and not x:
                    break
            inds = [ae for ae in m if ae[0].op == 'ind']
            for a, e in inds:
                if not self.ind(a, env):
                    x = 0
                    break
            if x:
                for a, e in m:
                    if a.op == 'ind':
                        continue
                    v = self._a(a, env, mod)
                    ee = e if isinstance(e, int) else self.I(e, env)
                    if ee < 0:
                        v = pow(v, -1, self.mod) if mod else 0
                        ee = -ee
                    x = x * (pow(v, ee, mod) if mod else v ** min(ee, 64))
                    if mod:
                        x %= mod
            r += x
        return r % mod if mod else r

    def ind(self, a, env):
        k = a.args[0]
        if k == 'ge0':
            return self.I(a.args[1], env) >= 0
        if k == 'eq0':
            return self.I(a.args[1], env) == 0
        if k == 'feq0':
            return self.Fv(a.args[1], env) == 0
        if k == 'all':
            b = the_atom(a.args[1])
            n = self.I(b.args[0], env)
            bv = T._bv(b.depth)
            return all(self._p(b.args[1], {**env, bv: i}, None) == 1 for i in range(n))
        args = tuple(self.I(x, env) for x in a.args[1:])
        return bool(_h(self.seed, k, args) & 1)

    def _a(self, a, env, mod):
        op = a.op
        if op == 'bv':
            return env[a]
        if op == 'sym':
            if a in self.ints:
                return self.ints[a]
            v = _h(self.seed, 'sym', a.args)
            return v % mod if mod else v % 5
        if op == 'app':
            args = tuple(self.I(x, env) if isinstance(x, Poly) else x for x in a.args[1:])
            n = a.args[0]
            if n in self.intapps:
                return self.intapps[n](args)
            v = _h(self.seed, n, args)
            b = _appbounds.get(n)
            if b:
                lo, hi = b[0] or 0, b[1]
                return lo + v % (min(hi, lo + 6) - lo + 1)
            return v % mod if mod else v % 7
        if op == 'inv':
            v = self._p(a.args[0], env, self.mod)
            return pow(v, -1, self.mod) if v else 0
        if op == 'div':
            d = self.I(a.args[1], env)
            return self.I(a.args[0], env) // d if d else 0
        if op == 'pbase':
            return self._p(a.args[0], env, mod)
        if op == 'prod':
            n = self.I(a.args[0], env)
            bv = T._bv(a.depth)
            r = 1
            for i in range(max(n, 0)):
                r = r * self._p(a.args[1], {**env, bv: i}, mod)
                if mod:
                    r %= mod
            return r
        if op == 'sum':
            import itertools as it
            base = T._binder_base(a)
            ns = [max(0, self.I(n, env)) for n in a.args[0]]
            r = 0
            for idx in it.product(*[range(n) for n in ns]):
                e2 = dict(env)
                for i, x in enumerate(idx):
                    e2[T._bv(base + i)] = x
                r += self._p(a.args[1], e2, mod)
            return r % mod if mod else r
        raise NotImplementedError(op)
