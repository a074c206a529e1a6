"""Long division: quotient and remainder, by a loop invariant over the evaluation at an arbitrary point.

z stands for any point of the field, so an equation between evaluations at z is one between polynomial functions, and
for degrees below p (sizes are at most 2^30) one between polynomials."""
from .lib import *
from ..rel import RContract, Proof
from ..exec import instantiate, MAXSZ
from ..ctx import declare_bounds
from . import poly  # the functional contracts

P = POLY
Z = sym('z')
HERE = []


def ev(n, f):
    return Sum(n, lambda j: f(j) * ppow(Z, j))


def value(o, p):
    return ev(o.len(p), lambda j: o.el(p, j))


def canonical(o, p):
    n = o.len(p)
    return bor(T.eq(n, 1), bnot(feq(o.el(p, n - 1), ZERO)))


def iszero(o, p):
    return T.eq(o.len(p), 1) * feq(o.el(p, ZERO), ZERO)


def lead(o, p):
    return o.el(p, o.len(p) - 1)


def wpd(env):
    if 'polydiv' not in env.worlds:
        from ..world import World
        m, lay = env.module('m61', ['tu:scl61'])
        w = World(m, lay)
        for c in HERE:
            w.contracts[c.name] = c
        env.worlds['polydiv'] = w
    return env.worlds['polydiv']


WORLDS['polydiv'] = wpd


def rcon(*a, **k):
    c = RContract(*a, **k)
    HERE.append(c)
    GROUPS.setdefault('polydiv', []).append(c)


class V_:
    """the pre-state, read like the post-state"""

    def __init__(self, v):
        self.v = v

    def len(self, p):
        return self.v.len(p)

    def el(self, p, i):
        return self.v.el(p, i)


def nonzero(n, c):
    return lambda i: bnot(feq(c(n - 1 - i), ZERO))


def strip(n, c, then=None):
    """proof about the canonical form of c(0..n-1): either everything vanishes, or the first f of the top coefficients do"""
    nz = nonzero(n, c)
    none = All(n, lambda i: bnot(nz(i)))
    g = lambda i: c(i) * ppow(Z, i)

    def proof(k, done):
        def case(k, t):
            if t:
                k.congr(n, g, lambda i: ZERO, at=lambda i: (n - 1 - i,))
            else:
                f = first(n, nz)
                k.first(f)
                k.known[the_atom(none)] = ZERO
                k.split(n, n - f, g)
                k.congr(f, lambda j: g(n - f + j), lambda j: ZERO, at=lambda j: (f - 1 - j,))
            if then:
                then(k)
            done(k)
        k.cases(none, case)
    return proof


def topzero(n, c):
    """proof when the top coefficient is known to vanish, or not to"""
    nz = nonzero(n, c)
    none = All(n, lambda i: bnot(nz(i)))

    def proof(k, done):
        def case(k, t):
            if t:
                k.ctx = instantiate(instantiate(k.ctx, ZERO), n - 1)
                return done(k)
            f = first(n, nz)
            k.first(f)
            k.known[the_atom(none)] = ZERO

            def top(k, t):
                if t:
                    k.rewrite(f, ZERO)
                else:
                    k.ctx = instantiate(k.ctx, ZERO)
                done(k)
            k.cases(T.eq(f, ZERO), top)
        k.cases(none, case)
    return proof


def shape(o, r, n, c):
    """r is the canonical form of c(0..n-1)"""
    one = le(n, 0)
    top = c(n - 1)
    p = topzero(n, c)
    return [('not empty', le(1, o.len(r)), p), ('canonical', canonical(o, r), p),
            ('length', bor(one * T.eq(o.len(r), 1), le(o.len(r), n)), p),
            ('cancelled', bor(one, bor(bnot(feq(top, ZERO)), bor(lt(o.len(r), n), iszero(o, r)))), p),
            ('kept', bor(one, bor(feq(top, ZERO), T.eq(o.len(r), n) * feq(lead(o, r), top))), p),
            ('value', feq(value(o, r), ev(n, c)), strip(n, c))]


name = P + '::Create(%s const&)' % VEC
rcon(name, ['sret:' + P, VEC + '*'], wpd, via=LIB[name], pre=lambda v: [], mod=lambda v, new: new(v.args[0], 'vec'),
     post=lambda v, o, ret: shape(o, v.args[0], v.len(v.args[1]), vget(v, v.args[1])))


def both(v):
    return [('arguments not empty', le(1, v.len(v.args[1]))), ('arguments not empty', le(1, v.len(v.args[2])))]


def weak(o, r, n):
    return [('not empty', le(1, o.len(r))), ('canonical', canonical(o, r)), ('length', le(o.len(r), n))]


def sums(f):
    def post(v, o, ret):
        r, a, b = v.args
        n = poly.upto(v)
        x = V_(v)
        ca, cb = poly.coef(v, a), poly.coef(v, b)

        def pads(k, done):
            def case(k, t):
                m = v.len(a) if t else v.len(b)
                for p, q in ((a, ca), (b, cb)):
                    l = v.len(p)
                    k.split(m, l, lambda i: q(i) * ppow(Z, i))
                    k.congr(m - l, lambda j: q(l + j) * ppow(Z, l + j), lambda j: ZERO)
                    k.congr(l, lambda i: q(i) * ppow(Z, i), lambda i: v.el(p, i) * ppow(Z, i))
                k.have(feq(value(o, r), f(value(x, a), value(x, b))))
                done(k)
            k.cases(lt(v.len(b), v.len(a)), case)
        same = T.eq(v.len(a), v.len(b)) * feq(lead(x, a), lead(x, b))
        less = bor(lt(o.len(r), n), iszero(o, r))
        return weak(o, r, n) + ([('cancelled', bor(bnot(same), less))] if f(1, 1) == 0 else []) + \
            [('value', feq(value(o, r), f(value(x, a), value(x, b))), pads)]
    return post


def from_strip(nm):
    return lambda v, o: shape(o, *poly.SHAPE[nm](v))


for nm, f in (('Add', lambda a, b: a + b), ('Subtract', lambda a, b: a - b)):
    name = '%s::%s(%s const&) const' % (P, nm, P)
    rcon(name, ['sret:' + P, P + '*', P + '*'], wpd, pre=both, via=LIB[name], lemma=from_strip(nm),
         mod=lambda v, new: new(v.args[0], 'vec'), post=sums(f))


def product(v, o, ret):
    r, a, b = v.args
    p, q = v.len(a), v.len(b)
    n = p + q - 1
    x = V_(v)
    A, B = vget(v, a), vget(v, b)
    cb = poly.coef(v, b)
    c = poly.product(v)[2]

    def cauchy(k, done):
        t = lambda x, i: A(i) * cb(x - i) * ppow(Z, x)
        d1 = k.zero(value(o, r) - ev(n, c))
        d2 = k.congr(n, lambda x: c(x) * ppow(Z, x), lambda x: Sum(p, lambda i: t(x, i)))
        d3 = k.exchange(n, p, t)
        i = fresh('i')
        declare_bounds(the_atom(i), 0, MAXSZ)
        s = Proof(k.ctx.plus(lt(i, p)))
        h = lambda x: B(x - i) * ppow(Z, x)
        s.window(n, i, q, h)
        s.factor(q, Z, i, B)
        s.have(feq(Sum(n, lambda x: t(x, i)), A(i) * ppow(Z, i) * value(V_(v), b)))
        # i was arbitrary below p
        d4 = k.eq(Sum(p, lambda i: Sum(n, lambda x: t(x, i))), Sum(p, lambda i: A(i) * ppow(Z, i) * value(V_(v), b)))
        k.total(d1, d2, d3, d4)
        done(k)
    top = lead(x, a) * lead(x, b)

    def last(k, done):
        # only i = p-1 reaches the top coefficient
        k.split(p, p - 1, lambda i: A(i) * B(n - 1 - i))

        def both(k, t):
            if not t:
                k.rewrite(q, ONE)
            k.have(feq(c(n - 1), top))
            done(k)
        k.cases(le(2, p), lambda k, t: k.cases(le(2, q), both))
    keep = bor(bor(feq(lead(x, a), ZERO), feq(lead(x, b), ZERO)), T.eq(o.len(r), n) * feq(lead(o, r), top))
    return weak(o, r, n) + [('kept', keep, last), ('value', feq(value(o, r), value(x, a) * value(x, b)), cauchy)]


name = '%s::Multiply(%s const&) const' % (P, P)
rcon(name, ['sret:' + P, P + '*', P + '*'], wpd, pre=both, via=LIB[name], lemma=from_strip('Multiply'),
     mod=lambda v, new: new(v.args[0], 'vec'), post=product)


def leading(v, o, ret):
    r, a, b = v.args
    d = v.len(a) - v.len(b)
    x = V_(v)
    return [('length', T.eq(o.len(r), d + 1)), ('leading coefficient', feq(lead(o, r), lead(x, a) * inv(lead(x, b)))),
            ('not zero', bnot(feq(lead(o, r), ZERO)))]


name = '%s scl::details::(anonymous namespace)::DivideLeadingTerms<FF61>(%s const&, %s const&)' % (P, P, P)
rcon(name, ['sret:' + P, P + '*', P + '*'], wpd, via=LIB[name],
     pre=lambda v: both(v) + [('degrees', le(v.len(v.args[2]), v.len(v.args[1]))),
                              ('dividend canonical', canonical(V_(v), v.args[1])), ('divisor canonical', canonical(V_(v), v.args[2])),
                              ('divisor', bnot(feq(lead(V_(v), v.args[2]), ZERO))), ('dividend', bnot(feq(lead(V_(v), v.args[1]), ZERO)))],
     mod=lambda v, new: new(v.args[0], 'vec'), post=leading)


def div_pre(v):
    return both(v) + [('dividend canonical', canonical(V_(v), v.args[1])), ('divisor canonical', canonical(V_(v), v.args[2]))]


def parts(v):
    return v.args[0].elem(ZERO), v.args[0].elem(ONE)


def divides(v, o, q, r):
    a, d = v.args[1], v.args[2]
    x = V_(v)
    return [('quotient not empty', le(1, o.len(q))), ('quotient canonical', canonical(o, q)),
            ('remainder not empty', le(1, o.len(r))), ('remainder canonical', canonical(o, r)),
            ('a = q b + r', feq(value(x, a), value(o, q) * value(x, d) + value(o, r)))]


def div_inv(v, h):
    q, r = h.local('q'), h.local('r')
    return divides(v, h, q, r) + [('quotient size', le(h.len(q), v.len(v.args[1]))), ('remainder size', le(h.len(r), v.len(v.args[1])))]


def div_post(v, o, ret):
    q, r = parts(v)
    return divides(v, o, q, r) + [('degree of the remainder', bor(iszero(o, r), lt(o.len(r), v.len(v.args[2]))))]


def div_falls(v, h):
    d, r = v.args[2], h.local('r')

    def proof(k, done):
        def nz(x, p, then):
            def f(k, t):
                if t:
                    k.rewrite(x.len(p), ONE)
                k.have(bnot(feq(lead(x, p), ZERO)))
                then(k)
            return lambda k: k.cases(T.eq(x.len(p), 1), f)
        nz(V_(v), d, nz(h, r, done))(k)
    return proof


rcon('%s::Divide(%s const&) const' % (P, P), ['sret:arr', P + '*', P + '*'], wpd, pre=div_pre,
     mod=lambda v, new: [new(x, 'vec') for x in parts(v)], post=div_post, inv=div_inv,
     vproof=div_falls, variant=lambda v, h: h.len(h.local('r')) + bnot(iszero(h, h.local('r'))),
     throws=lambda v: (iszero(V_(v), v.args[2]), 'std::invalid_argument'))
