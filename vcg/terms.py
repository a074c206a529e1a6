"""Term language of the deductive verifier.

Everything is a polynomial with integer coefficients over hash-consed atoms.
 * machine integers (mathematical value), field elements and booleans (as 0/1
   valued polynomials in indicator atoms) share the representation; the ring
   homomorphism Z -> F is implicit;
 * binders: sum/prod/all with canonical bound variables, so that alpha-equal,
   reordered or distributed sums get the same normal form.
Normalisation rules are valid in every commutative ring (coefficients in Z),
with `inv` an uninterpreted unary function that is odd.
"""
import itertools
from functools import lru_cache

_ids = itertools.count(1)


class Atom:
    __slots__ = ('op', 'args', 'id', 'depth', 'syms', '_s')

    def __repr__(self):
        return show_atom(self)


_atoms = {}


def mk_atom(op, *args):
    key = (op,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.op, a.args = op, args
        a.id = next(_ids)
        d = 0
        s = set()
        for x in _children(args):
            d = max(d, x.depth)
            s |= x.syms
        if op in ('sum', 'prod', 'all'):
            d += len(args[0]) if op == 'sum' else 1
        if op in ('sym', 'bv'):
            s.add(a)
        a.depth = d
        a.syms = frozenset(s)
        a._s = None
        _atoms[key] = a
    return a


def _children(args):
    for x in args:
        if isinstance(x, (Poly, Atom)):
            yield x
        elif isinstance(x, tuple):
            yield from _children(x)


class Poly:
    __slots__ = ('t', 'depth', 'syms', '_h', 'id', '_s')

    def __repr__(self):
        return show(self)

    def __add__(a, b):
        return add(a, lift(b))

    __radd__ = __add__

    def __sub__(a, b):
        return add(a, scale(lift(b), -1))

    def __rsub__(a, b):
        return add(lift(b), scale(a, -1))

    def __mul__(a, b):
        return mul(a, lift(b))

    __rmul__ = __mul__

    def __neg__(a):
        return scale(a, -1)


_polys = {}


def _mk(d):
    """d: dict monomial->coef.  monomial: tuple of (Atom, exp) sorted by atom id; exp int or Poly."""
    items = tuple(sorted(((m, c) for m, c in d.items() if c), key=_mkey))
    p = _polys.get(items)
    if p is None:
        p = Poly()
        p.t = items
        p.id = next(_ids)
        dep = 0
        s = frozenset()
        for m, _ in items:
            for a, e in m:
                dep = max(dep, a.depth)
                s |= a.syms
                if isinstance(e, Poly):
                    dep = max(dep, e.depth)
                    s |= e.syms
        p.depth = dep
        p.syms = s
        p._s = None
        _polys[items] = p
    return p


def _mkey(mc):
    return tuple((a.id, e if isinstance(e, int) else 10 ** 9 + e.id) for a, e in mc[0])


ZERO = _mk({})
ONE = _mk({(): 1})


def const(n):
    return _mk({(): int(n)})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, bool)):
        return const(x)
    if isinstance(x, Atom):
        return _mk({((x, 1),): 1})
    raise TypeError(repr(x))


def of_atom(a):
    return _mk({((a, 1),): 1})


def cval(p):
    """integer value if constant else None"""
    if not p.t:
        return 0
    if len(p.t) == 1 and p.t[0][0] == ():
        return p.t[0][1]
    return None


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + c
    return _mk(d)


def scale(a, c):
    if c == 1:
        return a
    return _mk({m: k * c for m, k in a.t})


_iik = {}


def _hasii(m):
    for a, e in m:
        if a.op == 'ind' and (a.args[0] == 'ge0' or a.args[0] == 'eq0'):
            return True
    return False


def _linkey(a):
    r = _iik.get(a)
    if r is None:
        t = a.args[1].t
        c = 0
        n = []
        for m, k in t:
            if m == ():
                c = k
            else:
                n.append((m, k))
        r = _iik[a] = (tuple(n), c)
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            if a.op == 'ind':
                continue
            e0 = d[a]
            if isinstance(e0, int) and isinstance(e, int):
                d[a] = e0 + e
            else:
                s = add(lift(e0), lift(e))
                if a.op == 'pbase' and cval(a.args[0]) == -1:
                    s = _mk({mm: 1 for mm, c in s.t if c % 2})      # (-1)^(2x) = 1
                c = cval(s)
                d[a] = s if c is None else c
        else:
            d[a] = e
    if _hasii(m1) and _hasii(m2):
        by = {}
        for a in d:
            if a.op == 'ind' and (a.args[0] == 'ge0' or a.args[0] == 'eq0'):
                by.setdefault(_linkey(a)[0], []).append(a)
        for l in by.values():
            if len(l) < 2:
                continue
            # literals over the same linear form n: [n + c = 0], [n + g >= 0]
            eqs = [a for a in l if a.args[0] == 'eq0']
            ges = [a for a in l if a.args[0] == 'ge0']
            if len(eqs) > 1:
                return None
            if eqs:
                c = _linkey(eqs[0])[1]
                for a in ges:
                    if _linkey(a)[1] < c:
                        return None
                    del d[a]
            elif len(ges) > 1:
                b = min(ges, key=lambda a: _linkey(a)[1])
                for a in ges:
                    if a is not b:
                        del d[a]
    return tuple(sorted(((a, e) for a, e in d.items() if not (isinstance(e, int) and e == 0)),
                        key=lambda x: x[0].id))


_mulcache = {}


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca, cb = cval(a), cval(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    key = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > 400000:
        raise Blowup('product too large')
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = _mmul(m1, m2)
            if m is not None:
                d[m] = d.get(m, 0) + c1 * c2
    r = _mk(d)
    _mulcache[key] = r
    return r


class Blowup(Exception):
    pass


def ipow(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def sym(name, *tags):
    return of_atom(mk_atom('sym', name, *tags))


_fresh = itertools.count(1)


def fresh(prefix='k'):
    return sym('%s!%d' % (prefix, next(_fresh)))


def the_atom(p):
    assert len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1, p
    return p.t[0][0][0][0]


def app(name, *args):
    return of_atom(mk_atom('app', name, *[lift(a) for a in args]))


# ---------------------------------------------------------------- booleans
def _content(p):
    from math import gcd
    g = 0
    for m, c in p.t:
        if m != ():
            g = gcd(g, abs(c))
    return g


def _lead_neg(p):
    for m, c in p.t:
        if m != ():
            return c < 0
    return False


def ge0(p):
    """indicator of p >= 0 (integers)"""
    c = cval(p)
    if c is not None:
        return ONE if c >= 0 else ZERO
    g = _content(p)
    if g > 1:
        d = {}
        for m, c in p.t:
            d[m] = c // g   # floor for the constant: gx + c >= 0 <=> x + floor(c/g) >= 0
        p = _mk(d)
    if _lead_neg(p):
        return ONE - of_atom(mk_atom('ind', 'ge0', scale(p, -1) - 1))
    return of_atom(mk_atom('ind', 'ge0', p))


def le(a, b):
    return ge0(lift(b) - lift(a))


def lt(a, b):
    return ge0(lift(b) - lift(a) - 1)


def eq(a, b):
    """integer equality"""
    p = lift(a) - lift(b)
    if len(p.t) == 2 and {p.t[0][1], p.t[1][1]} == {1, -1} and all(
            len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0].startswith('addr.')
            for m, _ in p.t):
        # object addresses are injective
        x, y = p.t[0][0][0][0], p.t[1][0][0][0]
        if x.args[0] != y.args[0] or len(x.args) != len(y.args):
            return ZERO
        r = ONE
        for u, w in zip(x.args[1:], y.args[1:]):
            r = r * eq(u, w)
        return r
    c = cval(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    g = _content(p)
    if g > 1:
        cc = dict(p.t).get((), 0)
        if cc % g:
            return ZERO
        p = _mk({m: c // g for m, c in p.t})
    if _lead_neg(p):
        p = scale(p, -1)
    return of_atom(mk_atom('ind', 'eq0', p))


def feq(a, b):
    """field equality"""
    p = lift(a) - lift(b)
    c = cval(p)
    if c is not None and abs(c) < (1 << 60):
        return ONE if c == 0 else ZERO
    if len(p.t) == 1 and abs(p.t[0][1]) < (1 << 60) and all(isinstance(e, int) or cval(x.args[0] if x.op == 'pbase' else ZERO) == -1
                                                            for x, e in p.t[0][0]):
        # a product in a field is zero where a factor is
        r = ONE
        for x, e in p.t[0][0]:
            if isinstance(e, Poly):
                continue
            if x.op == 'ind':
                r = r * of_atom(x)
            elif x.op == 'inv':
                r = r * bnot(feq(x.args[0], ZERO))
            elif x.op == 'prod':
                v = fresh()
                r = r * mk_all(x.args[0], v, bnot(feq(open_(x.args[1], v, x), ZERO)))
            else:
                r = r * bnot(of_atom(mk_atom('ind', 'feq0', of_atom(x))))
        return bnot(r)
    if _lead_neg(p):
        p = scale(p, -1)
    return of_atom(mk_atom('ind', 'feq0', p))


def boolapp(name, *args):
    return of_atom(mk_atom('ind', 'p:' + name, *[lift(a) for a in args]))


def band(*xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def bnot(x):
    return ONE - x


def bor(a, b):
    return a + b - a * b


def ite(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    return b + c * (a - b)


# ---------------------------------------------------------------- int ops
def idiv(a, b):
    """floor division of integers (b > 0)"""
    ca, cb = cval(a), cval(b)
    if cb is not None and cb > 0:
        if ca is not None:
            return const(ca // cb)
        if cb == 1:
            return a
        # pull out multiples of cb
        q, r = {}, {}
        for m, c in a.t:
            if m == ():
                q[m], r[m] = c // cb, c % cb
            else:
                q[m] = c // cb if c >= 0 else -((-c) // cb)
                r[m] = c - q[m] * cb
        q, r = _mk(q), _mk(r)
        if not r.t:
            return q
        cr = cval(r)
        if cr is not None:
            return q + cr // cb
        return q + of_atom(mk_atom('div', r, b))
    return of_atom(mk_atom('div', a, b))


def imod(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb:
        return const(ca % cb)
    return a - b * idiv(a, b)


def inv(p):
    c = cval(p)
    if c in (0, 1, -1):
        return p                # inv(0) = 0: the convention under which inv(-x) = -inv(x) holds for every x
    if _lead_neg(p):
        return -inv(-p)
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) > 1 and \
            all(isinstance(e, int) for _, e in p.t[0][0]):
        r = ONE
        for a, e in p.t[0][0]:
            x = inv(of_atom(a))
            for _ in range(e):
                r = r * x
        return r
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
        a, e = p.t[0][0][0]
        if a.op == 'inv' and e == 1:
            return a.args[0]        # inv(inv x) = x  (inv 0 = 0 by convention)
        if a.op == 'prod' and e == 1:
            v = fresh()
            return mk_prod(a.args[0], v, inv(open_(a.args[1], v, a)))
    return of_atom(mk_atom('inv', p))


def ppow(base, e):
    c = cval(lift(e))
    if c is not None and 0 <= c <= 12:
        return ipow(base, c)
    e = lift(e)
    cb = cval(base)
    if cb == 1:
        return ONE
    if len(base.t) == 1 and base.t[0][1] == 1:
        m = base.t[0][0]
        r = []
        for a, x in m:
            if a.op == 'ind':
                return of_pow(base, e)
            ne = mul(lift(x), e)
            cc = cval(ne)
            r.append((a, ne if cc is None else cc))
        return _mk({tuple(r): 1})
    return of_pow(base, e)


def of_pow(base, e):
    a = mk_atom('pbase', base)
    if cval(base) == -1:
        odd = dict(e.t).get((), 0) % 2
        e = _mk({m: 1 for m, c in e.t if c % 2 and m != ()})
        if odd:
            return -of_pow(base, e)
        if not e.t:
            return ONE
    c = cval(e)
    return _mk({((a, e if c is None else c),): 1})


# ---------------------------------------------------------------- binders
def _bv(d):
    return mk_atom('bv', d)


def open_(body, v, atom=None, which=None):
    """replace the bound variable(s) of binder atom by v (list for sums)"""
    if atom.op == 'sum':
        base = _binder_base(atom)
        return _subst_raw(body, {_bv(base + i): x for i, x in enumerate(v)})
    return _subst_raw(body, {_bv(atom.depth): v})


def _binder_base(atom):
    return atom.depth - len(atom.args[0]) + 1


def close(body, v, d):
    return _subst_raw(body, {the_atom(v): of_atom(_bv(d))})


def mk_prod(n, v, body):
    """Prod_{v<n} body"""
    va = the_atom(v)
    if va not in body.syms:
        return ppow(body, n)
    c = cval(n)
    if c is not None:
        if c <= 0:
            return ONE
        if c == 1:
            return subst(body, {va: ZERO})
    if len(body.t) == 1:
        m, co = body.t[0]
        r = ppow(const(co), n) if co != 1 else ONE
        if len(m) > 1 or co != 1:
            for a, e in m:
                r = r * mk_prod(n, v, _mk({((a, e),): 1}))
            return r
        a, e = m[0]
        if isinstance(e, int) and e > 1:
            x = mk_prod(n, v, of_atom(a))
            return ipow(x, e)
        if a.op == 'inv':
            return inv(mk_prod(n, v, a.args[0])) if False else _prod_atom(n, v, body)
    return _prod_atom(n, v, body)


def _prod_atom(n, v, body):
    d = body.depth + 1
    d = max(d, n.depth + 1)
    b = close(body, v, d)
    if len(b.t) == 1 and b.t[0][1] == -1:
        # naming the variable turned the sign of an inverse
        return of_pow(const(-1), n) * of_atom(mk_atom('prod', n, -b))
    a = mk_atom('prod', n, b)
    assert a.depth == d, (a.depth, d)
    return of_atom(a)


def mk_all(n, v, body):
    """indicator of: for all 0<=v<n: body (0/1 poly)"""
    va = the_atom(v)
    c = cval(n)
    if c is not None and c <= 0:
        return ONE
    if body is ONE:
        return ONE
    if va not in body.syms:
        return bor(bnot(lt(0, n)), body)
    if c == 1:
        return subst(body, {va: ZERO})
    # all(a*b) = all(a)*all(b) for a single monomial
    if len(body.t) == 1 and body.t[0][1] == 1 and len(body.t[0][0]) > 1:
        r = ONE
        for a, e in body.t[0][0]:
            r = r * mk_all(n, v, of_atom(a))
        return r
    d = max(body.depth, n.depth) + 1
    b = close(body, v, d)
    a = mk_atom('ind', 'all', of_atom(mk_atom('all', n, b)))
    return of_atom(a)


def mk_sum(n, v, body):
    """Sum_{v=0}^{n-1} body"""
    va = the_atom(v)
    c = cval(n)
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c <= 4:
        r = ZERO
        for i in range(c):
            r = r + subst(body, {va: const(i)})
        return r
    out = ZERO
    for m, co in body.t:
        out = out + scale(_sum_mono(n, v, va, m), co)
    return out


def _dep(a, e, va):
    return va in a.syms or (isinstance(e, Poly) and va in e.syms)


def _npos(n):
    """max(n,0) as used for constant bodies: sizes are non-negative by construction of ranges"""
    return n


def _lin(p, va):
    """p = a*va + b with a int coefficient, b free of va; else None"""
    a = 0
    rest = {}
    for m, c in p.t:
        if any(x is va or va in x.syms or (isinstance(e, Poly) and va in e.syms) for x, e in m):
            if len(m) == 1 and m[0][0] is va and m[0][1] == 1:
                a += c
            else:
                return None
        else:
            rest[m] = c
    return a, _mk(rest)


def _sum_mono(n, v, va, m):
    indep, dep = [], []
    for a, e in m:
        (dep if _dep(a, e, va) else indep).append((a, e))
    k = _mk({tuple(indep): 1})
    if not dep:
        return k * n
    # delta elimination
    for a, e in dep:
        if a.op == 'ind' and a.args[0] == 'eq0':
            l = _lin(a.args[1], va)
            if l and l[0] in (1, -1):
                ex = scale(l[1], -l[0])
                rest = _mk({tuple(x for x in dep if x[0] is not a): 1})
                r = subst(rest, {va: ex})
                return k * r * ge0(ex) * lt(ex, n)
    # constant body with thresholds: Sum_{j<n} [j+b>=0] / Sum [ -j + b >= 0 ]
    if len(dep) == 1 and dep[0][0].op == 'ind' and dep[0][0].args[0] == 'ge0':
        l = _lin(dep[0][0].args[1], va)
        if l and l[0] in (1, -1):
            if l[0] == -1:
                t = l[1] + 1          # j < t
                cnt = ite(le(t, 0), ZERO, ite(le(t, n), t, n))
            else:
                t = -l[1]             # j >= t
                cnt = n - ite(le(t, 0), ZERO, ite(le(t, n), t, n))
            return k * cnt
    # range restriction: Sum_{v<n} [v >= t] f(v) and Sum_{v<n} [v < t] f(v)
    for a, e in dep:
        if a.op == 'ind' and a.args[0] == 'ge0':
            l = _lin(a.args[1], va)
            if not l or l[0] not in (1, -1):
                continue
            rest = _mk({tuple(x for x in dep if x[0] is not a): 1})
            rest = replace_atoms(rest, {a: ONE})
            if l[0] == -1:
                t = l[1] + 1
                return k * (ge0(n - t) * ge0(t - 1) * mk_sum(t, v, rest) + ge0(t - n - 1) * mk_sum(n, v, rest))
            t = -l[1]
            u = fresh()
            r = ge0(n - t - 1) * mk_sum(n - t, u, subst(rest, {va: u + t}))
            c = cval(t)
            if c is not None:
                return k * (r if c > 0 else mk_sum(n, v, rest))
            return k * (ge0(t - 1) * r + ge0(-t) * mk_sum(n, v, rest))
    # normalise shift is the caller's job (ranges start at 0)
    # flatten nested sums to the first power that depend on v
    ns, vs, rest = [n], [v], []
    for a, e in dep:
        if a.op == 'sum' and e == 1:
            fv = [fresh() for _ in a.args[0]]
            if any(va in x.syms for x in a.args[0]):
                rest.append((a, e))
                continue
            ns += list(a.args[0])
            vs += fv
            b = open_(a.args[1], fv, a)
            rest += list(b.t[0][0])
        else:
            rest.append((a, e))
    if len(vs) == 1:
        return k * _sum_atom(ns, vs, _mk({tuple(sorted(rest, key=lambda x: x[0].id)): 1}))
    body = ONE
    for a, e in rest:
        body = body * _mk({((a, e),): 1})
    return k * _sum_atom(ns, vs, body)


def _sum_atom(ns, vs, body):
    d0 = max([body.depth] + [n.depth for n in ns])
    L = len(ns)
    best = None
    perms = itertools.permutations(range(L)) if L <= 4 else [tuple(range(L))]
    for p in perms:
        mp = {the_atom(vs[p[i]]): of_atom(_bv(d0 + 1 + i)) for i in range(L)}
        b = _subst_raw(body, mp)
        key = (tuple(ns[i].id for i in p), b.id)
        if best is None or _skey(ns, p, b) < best[0]:
            best = (_skey(ns, p, b), tuple(ns[i] for i in p), b)
    b = best[2]
    k = ONE
    if len(b.t) == 1:
        # naming the variables may have turned the signs of inverses: take what does not depend on them out
        bvs = {_bv(d0 + 1 + i) for i in range(L)}
        m, c = b.t[0]
        out = tuple(x for x in m if not ((x[0].syms | (x[1].syms if isinstance(x[1], Poly) else frozenset())) & bvs))
        if c != 1 or out:
            b2 = _mk({tuple(x for x in m if x not in out): 1})
            if max([b2.depth] + [n.depth for n in best[1]]) == d0:
                k, b = _mk({out: c}), b2
    a = mk_atom('sum', best[1], b)
    return of_atom(a) * k


def _skey(ns, p, b):
    return (tuple(ns[i].id for i in p), b.id)


# ---------------------------------------------------------------- substitution
def _subst_raw(p, mp):
    """substitution without entering the renormalisation of binders other than rebuild-by-key.
    Used only for (de)closing of bound variables."""
    return subst(p, mp, raw=True)


def subst(p, mp, raw=False, memo=None):
    keys = frozenset(mp)
    if not (p.syms & keys):
        return p
    if memo is None:
        memo = {}
    return _sp(p, mp, keys, raw, memo)


def _sp(p, mp, keys, raw, memo):
    if not (p.syms & keys):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    d = {}
    for m, c in p.t:
        if not any((a.syms & keys) or (isinstance(e, Poly) and (e.syms & keys)) for a, e in m):
            d[m] = d.get(m, 0) + c
            continue
        q = const(c)
        for a, e in m:
            x = _sa(a, mp, keys, raw, memo)
            if isinstance(e, Poly):
                e2 = _sp(e, mp, keys, raw, memo)
                q = q * ppow(x, e2)
            elif e == 1:
                q = q * x
            else:
                q = q * ipow(x, e)
        out = out + q
    r = add(out, _mk(d))
    memo[p] = r
    return r


def _sa(a, mp, keys, raw, memo):
    if not (a.syms & keys):
        return of_atom(a)
    r = memo.get(a)
    if r is not None:
        return r
    op = a.op
    if op in ('sym', 'bv'):
        r = mp.get(a) or of_atom(a)
    elif op == 'app':
        r = of_atom(mk_atom('app', a.args[0], *[_sp(x, mp, keys, raw, memo) for x in a.args[1:]]))
    elif op == 'ind':
        k = a.args[0]
        if k == 'ge0':
            r = ge0(_sp(a.args[1], mp, keys, raw, memo))
        elif k == 'eq0':
            r = eq(_sp(a.args[1], mp, keys, raw, memo), ZERO)
        elif k == 'feq0':
            r = feq(_sp(a.args[1], mp, keys, raw, memo), ZERO)
        elif k == 'all':
            b = the_atom(a.args[1])
            v = fresh()
            body = subst(open_(b.args[1], v, b), mp)
            r = mk_all(_sp(b.args[0], mp, keys, raw, memo), v, body)
        else:
            r = of_atom(mk_atom('ind', k, *[_sp(x, mp, keys, raw, memo) for x in a.args[1:]]))
    elif op == 'div':
        r = idiv(_sp(a.args[0], mp, keys, raw, memo), _sp(a.args[1], mp, keys, raw, memo))
    elif op == 'inv':
        r = inv(_sp(a.args[0], mp, keys, raw, memo))
    elif op == 'pbase':
        r = of_atom(mk_atom('pbase', _sp(a.args[0], mp, keys, raw, memo)))
        x = a.args[0]
        r = _sp(x, mp, keys, raw, memo)   # exponent applied by caller through ppow
    elif op == 'prod':
        v = fresh()
        body = subst(open_(a.args[1], v, a), mp)
        r = mk_prod(_sp(a.args[0], mp, keys, raw, memo), v, body)
    elif op == 'sum':
        vs = [fresh() for _ in a.args[0]]
        body = subst(open_(a.args[1], vs, a), mp)
        r = body
        ns = [_sp(n, mp, keys, raw, memo) for n in a.args[0]]
        for n, v in list(zip(ns, vs))[::-1]:
            r = mk_sum(n, v, r)
    else:
        raise NotImplementedError(op)
    memo[a] = r
    return r


def replace_atoms(p, mp, memo=None):
    """replace whole atoms (mp: Atom -> Poly) everywhere in p; the atoms must not contain bound variables"""
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    ch = False
    out = []
    for m, c in p.t:
        q = None
        parts = []
        for a, e in m:
            x = _ra(a, mp, memo)
            e2 = replace_atoms(e, mp, memo) if isinstance(e, Poly) else e
            if x is not None or e2 is not e:
                q = True
            parts.append((a, x, e2))
        if q is None:
            out.append(_mk({m: c}))
            continue
        ch = True
        y = const(c)
        for a, x, e in parts:
            if x is None:
                x = of_atom(a)
            if isinstance(e, Poly):
                y = y * ppow(x, e)
            else:
                y = y * (x if e == 1 else ipow(x, e))
        out.append(y)
    if not ch:
        memo[p] = p
        return p
    r = ZERO
    for y in out:
        r = r + y
    memo[p] = r
    return r


def _ra(a, mp, memo):
    """replacement of atom a, or None if unchanged"""
    if a in mp:
        return mp[a]
    if a in memo:
        return memo[a]
    op = a.op
    R = lambda x: replace_atoms(x, mp, memo)
    r = None
    if op == 'app' and a.args[0] == 'first':
        # the argument stands for a predicate, not for its truth value here
        mq = {x: y for x, y in mp.items() if x.op != 'ind'}
        n = replace_atoms(a.args[1], mq) if mq else a.args[1]
        if n is not a.args[1]:
            r = app(a.args[0], n)
    elif op == 'app':
        n = [R(x) for x in a.args[1:]]
        if any(x is not y for x, y in zip(n, a.args[1:])):
            r = app(a.args[0], *n)
    elif op == 'ind':
        k = a.args[0]
        if k == 'all':
            b = the_atom(a.args[1])
            n, bd = R(b.args[0]), R(b.args[1])
            if n is not b.args[0] or bd is not b.args[1]:
                v = fresh()
                r = mk_all(n, v, R(open_(b.args[1], v, b)))
        else:
            n = [R(x) for x in a.args[1:]]
            if any(x is not y for x, y in zip(n, a.args[1:])):
                r = ge0(n[0]) if k == 'ge0' else eq(n[0], ZERO) if k == 'eq0' else feq(n[0], ZERO) if k == 'feq0' else \
                    of_atom(mk_atom('ind', k, *n))
    elif op == 'div':
        n = [R(x) for x in a.args]
        if n[0] is not a.args[0] or n[1] is not a.args[1]:
            r = idiv(*n)
    elif op == 'inv':
        n = R(a.args[0])
        if n is not a.args[0]:
            r = inv(n)
    elif op == 'pbase':
        n = R(a.args[0])
        if n is not a.args[0]:
            r = n
    elif op == 'prod':
        n, bd = R(a.args[0]), R(a.args[1])
        if n is not a.args[0] or bd is not a.args[1]:
            v = fresh()
            r = mk_prod(n, v, R(open_(a.args[1], v, a)))
    elif op == 'sum':
        ns, bd = [R(x) for x in a.args[0]], R(a.args[1])
        if bd is not a.args[1] or any(x is not y for x, y in zip(ns, a.args[0])):
            vs = [fresh() for _ in ns]
            r = R(open_(a.args[1], vs, a))
            for n, v in list(zip(ns, vs))[::-1]:
                r = mk_sum(n, v, r)
    memo[a] = r
    return r


def atoms_of(p, pred=None, acc=None, deep=True):
    """all atoms occurring in p (deep)"""
    if acc is None:
        acc = set()
    stack = [p]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            for m, _ in x.t:
                for a, e in m:
                    stack.append(a)
                    if isinstance(e, Poly):
                        stack.append(e)
        elif isinstance(x, Atom):
            acc.add(x)
            if deep:
                for y in _children(x.args):
                    stack.append(y)
    return acc if pred is None else {a for a in acc if pred(a)}


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a._s:
        return a._s
    op = a.op
    if op == 'sym':
        s = str(a.args[0])
    elif op == 'bv':
        s = '#%d' % a.args[0]
    elif op == 'app':
        s = '%s(%s)' % (a.args[0], ','.join(map(show, a.args[1:])))
    elif op == 'ind':
        k = a.args[0]
        if k == 'ge0':
            s = '[%s>=0]' % show(a.args[1])
        elif k == 'eq0':
            s = '[%s=0]' % show(a.args[1])
        elif k == 'feq0':
            s = '[%s=F0]' % show(a.args[1])
        elif k == 'all':
            b = the_atom(a.args[1])
            s = '[all #%d<%s: %s]' % (b.depth, show(b.args[0]), show(b.args[1]))
        else:
            s = '[%s(%s)]' % (k[2:], ','.join(map(show, a.args[1:])))
    elif op == 'div':
        s = 'div(%s,%s)' % (show(a.args[0]), show(a.args[1]))
    elif op == 'inv':
        s = 'inv(%s)' % show(a.args[0])
    elif op == 'pbase':
        s = '(%s)' % show(a.args[0])
    elif op == 'prod':
        s = 'PROD{#%d<%s}(%s)' % (a.depth, show(a.args[0]), show(a.args[1]))
    elif op == 'sum':
        b = _binder_base(a)
        s = 'SUM{%s}(%s)' % (','.join('#%d<%s' % (b + i, show(n)) for i, n in enumerate(a.args[0])),
                             show(a.args[1]))
    elif op == 'all':
        s = 'all'
    else:
        s = op + repr(a.args)
    a._s = s
    return s


def show(p):
    if isinstance(p, Atom):
        return show_atom(p)
    if p._s:
        return p._s
    if not p.t:
        return '0'
    out = []
    for m, c in p.t:
        f = [show_atom(a) + ('' if e == 1 else '^%s' % (e if isinstance(e, int) else '{%s}' % show(e)))
             for a, e in m]
        s = '*'.join(f)
        if not f:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%d*%s' % (c, s)
        out.append(s)
    r = ' + '.join(out).replace('+ -', '- ')
    p._s = r
    return r
