"""Polynomials in coefficient form: canonical (no leading zero), evaluation, ring operations."""
from .lib import *
P = 'scl::details::Polynomial<FF61>'


@con('poly', P + '::Evaluate(FF61 const&) const', [P + '*', 'FF61*'], pre=lambda v: [le(1, v.len(v.args[0]))])
def _(v):
    j = fresh()
    a, x = v.args
    v.ret = mk_sum(v.len(a), j, v.el(a, j) * ppow(v.F(x), j))


def coef(v, p):
    """coefficient of x^i, zero beyond the stored ones"""
    return lambda i: ite(ge0(i) * lt(i, v.len(p)), v.el(p, i), ZERO)


def canonical(v, p):
    n = v.len(p)
    return [le(1, n), bor(T.eq(n, 1), bnot(feq(v.el(p, n - 1), ZERO)))]


def put(v, r, n, c):
    """r := the polynomial with coefficients c(0..n-1), in canonical form"""
    nz = lambda i: bnot(feq(c(n - 1 - i), ZERO))
    none = All(n, lambda i: bnot(nz(i)))
    v.setvec(r, ite(none, ONE, n - first(n, nz)), lambda i: ite(none, ZERO, c(i)))


def upto(v):
    a, b = v.len(v.args[1]), v.len(v.args[2])
    return ite(lt(b, a), a, b)


ANY = lambda *ix: (lambda v: [le(1, v.len(v.args[i])) for i in ix])
CAN = lambda *ix: (lambda v: [x for i in ix for x in canonical(v, v.args[i])])


@con('poly', P + '::Create(%s const&)' % VEC, ['sret:' + P, VEC + '*'])
def _(v):
    r, c = v.args
    put(v, r, v.len(c), vget(v, c))


@con('poly', '%s scl::details::(anonymous namespace)::Pad<FF61>(%s const&, unsigned long)' % (VEC, P), ['sret:' + VEC, P + '*', 'u64'], pre=ANY(1))
def _(v):
    r, p, n = v.args
    v.setvec(r, n, coef(v, p))


def total(f):
    """the sum or difference, before stripping"""
    def terms(v):
        r, p, q = v.args
        return r, upto(v), lambda i: f(coef(v, p)(i), coef(v, q)(i))
    return terms


def product(v):
    r, p, q = v.args
    return r, v.len(p) + v.len(q) - 1, lambda x: Sum(v.len(p), lambda i: v.el(p, i) * coef(v, q)(x - i))


SHAPE = {}      # what is stripped
for nm, f in (('Add', total(lambda a, b: a + b)), ('Subtract', total(lambda a, b: a - b)), ('Multiply', product)):
    SHAPE[nm] = f

    @con('poly', '%s::%s(%s const&) const' % (P, nm, P), ['sret:' + P, P + '*', P + '*'], pre=ANY(1, 2))
    def _(v, f=f):
        put(v, *f(v))


@con('poly', '%s scl::details::(anonymous namespace)::DivideLeadingTerms<FF61>(%s const&, %s const&)' % (P, P, P), ['sret:' + P, P + '*', P + '*'],
     pre=lambda v: CAN(1, 2)(v) + [le(v.len(v.args[2]), v.len(v.args[1])), bnot(feq(v.el(v.args[1], v.len(v.args[1]) - 1), ZERO)),
                                   bnot(feq(v.el(v.args[2], v.len(v.args[2]) - 1), ZERO))])
def _(v):
    r, p, q = v.args
    d = v.len(p) - v.len(q)
    v.setvec(r, d + 1, lambda i: ite(T.eq(i, d), v.el(p, v.len(p) - 1) * inv(v.el(q, v.len(q) - 1)), ZERO))


def wpoly(env):
    """functions of this group are used through their contracts"""
    if 'poly' not in env.worlds:
        from ..world import World
        m, lay = env.module('m61', ['tu:scl61'])
        w = World(m, lay)
        for c in GROUPS['poly']:
            if isinstance(c, Contract):
                w.contracts[c.name] = c
        env.worlds['poly'] = w
    return env.worlds['poly']


WORLDS['poly'] = wpoly
