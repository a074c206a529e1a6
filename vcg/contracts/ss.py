from .lib import *


# ------------------------------------------------ C12 additive
@con('additive', 'FF61 scl::ReconstructAdditive<FF61>(scl::Vec<FF61> const&)', [VEC + '*'])
def _(v):
    s, = v.args
    v.ret = Sum(v.len(s), lambda j: v.el(s, j))


@con('additive', 'scl::Vec<FF61> scl::CreateAdditiveShares<FF61>(FF61 const&, unsigned long, scl::PRG&)', ['sret:' + VEC, 'FF61*', 'u64', PRG + '*'])
def _(v):
    r, s, n, g = v.args
    v.throws(T.eq(n, 0), 'std::invalid_argument')
    c0 = v.rnd(g)
    v.setvec(r, n, lambda i: ite(T.eq(i, 0), v.F(s) - Sum(n - 1, lambda j: v.rndval(g, c0 + j)), v.rndval(g, c0 + i - 1)))
    v.setrnd(g, c0 + n - 1)


# ------------------------------------------------ C11 evaluation representation
@con('evpoly', EVP + '::EvPolynomial()', [EVP + '*'])
def _(v):
    p, = v.args
    for f in ('mX', 'mY'):
        v.setvec(v.fld(p, EVP, f), ONE, lambda i: ZERO)


@con('evpoly', EVP + '::EvPolynomial(FF61 const&)', [EVP + '*', 'FF61*'])
def _(v):
    p, c = v.args
    v.setvec(v.fld(p, EVP, 'mX'), ONE, lambda i: ZERO)
    v.setvec(v.fld(p, EVP, 'mY'), ONE, lambda i: v.F(c))


@con('evpoly', EVP + '::EvPolynomial(%s const&, %s const&)' % (VEC, VEC), [EVP + '*', VEC + '*', VEC + '*'])
def _(v):
    p, x, y = v.args
    v.throws(bor(bnot(T.eq(v.len(x), v.len(y))), T.eq(v.len(x), 0)), 'std::invalid_argument')
    v.setvec(v.fld(p, EVP, 'mX'), v.len(x), vget(v, x))
    v.setvec(v.fld(p, EVP, 'mY'), v.len(y), vget(v, y))


@con('evpoly', EVP + '::EvPolynomial(FF61 const&, %s const&)' % VEC, [EVP + '*', 'FF61*', VEC + '*'])
def _(v):
    p, x, y = v.args
    v.throws(T.eq(v.len(y), 0), 'std::invalid_argument')
    v.setvec(v.fld(p, EVP, 'mX'), v.len(y), lambda i: v.F(x) + i)
    v.setvec(v.fld(p, EVP, 'mY'), v.len(y), vget(v, y))


@con('evpoly', EVP + '::EvPolynomial(%s const&)' % VEC, [EVP + '*', VEC + '*'])
def _(v):
    p, y = v.args
    v.throws(T.eq(v.len(y), 0), 'std::invalid_argument')
    v.setvec(v.fld(p, EVP, 'mX'), v.len(y), lambda i: i)
    v.setvec(v.fld(p, EVP, 'mY'), v.len(y), vget(v, y))


def evwf(v, p):
    x, y = v.fld(p, EVP, 'mX'), v.fld(p, EVP, 'mY')
    return [T.eq(v.len(x), v.len(y)), le(1, v.len(y))]


@con('evpoly', EVP + '::Evaluate(FF61 const&) const', [EVP + '*', 'FF61*'], pre=lambda v: evwf(v, v.args[0]))
def _(v):
    p, x = v.args
    X, Y = v.fld(p, EVP, 'mX'), v.fld(p, EVP, 'mY')
    n = v.len(Y)
    v.throws(bnot(distinct(vget(v, X), n)), 'std::logic_error')
    v.ret = lagrange(v.F(x), vget(v, X), vget(v, Y), n)


@con('evpoly', EVP + '::Evaluate(%s const&) const' % VEC, ['sret:' + VEC, EVP + '*', VEC + '*'], pre=lambda v: evwf(v, v.args[1]))
def _(v):
    r, p, x = v.args
    X, Y = v.fld(p, EVP, 'mX'), v.fld(p, EVP, 'mY')
    n = v.len(Y)
    v.throws(bnot(distinct(vget(v, X), n)) * le(1, v.len(x)), 'std::logic_error')
    v.setvec(r, v.len(x), lambda i: lagrange(v.el(x, i), vget(v, X), vget(v, Y), n))


for nm, f in (('Add', lambda a, b: a + b), ('Subtract', lambda a, b: a - b)):
    @con('evpoly', EVP + '::%s(%s const&) const' % (nm, EVP), ['sret:' + EVP, EVP + '*', EVP + '*'],
         pre=lambda v: evwf(v, v.args[1]) + evwf(v, v.args[2]))
    def _(v, f=f):
        r, a, b = v.args
        X, Y = v.fld(a, EVP, 'mX'), v.fld(a, EVP, 'mY')
        X2, Y2 = v.fld(b, EVP, 'mX'), v.fld(b, EVP, 'mY')
        same = T.eq(v.len(X), v.len(X2)) * All(v.len(X), lambda j: feq(v.el(X, j), v.el(X2, j)))
        v.throws(bnot(same), 'std::invalid_argument')
        v.setvec(v.fld(r, EVP, 'mX'), v.len(X), vget(v, X))
        v.setvec(v.fld(r, EVP, 'mY'), v.len(Y), lambda i: f(v.el(Y, i), v.el(Y2, i)))


# ------------------------------------------------ C13 Shamir
SH = 'scl::'


@con('shamir', 'scl::Vec<FF61> scl::CanonicalAlphas<FF61>(unsigned long)', ['sret:' + VEC, 'u64'])
def _(v):
    r, n = v.args
    v.setvec(r, n, lambda i: i + 1)


@con('shamir', 'FF61 scl::details::InterpolateAt<FF61>(scl::Vec<FF61> const&, scl::Vec<FF61> const&, unsigned long, FF61 const&, unsigned long)',
     [VEC + '*', VEC + '*', 'u64', 'FF61*', 'u64'],
     pre=lambda v: [le(v.args[2] + v.args[4], v.len(v.args[0])), le(v.args[2] + v.args[4], v.len(v.args[1]))])
def _(v):
    ys, xs, k, x, off = v.args
    X = lambda i: v.el(xs, off + i)
    v.throws(bnot(distinct(X, k)), 'std::logic_error')
    v.ret = lagrange(v.F(x), X, lambda i: v.el(ys, off + i), k)


@con('shamir', 'scl::Vec<FF61> scl::CreateShamirShares<FF61>(scl::details::Polynomial<FF61> const&, scl::Vec<FF61> const&)',
     ['sret:' + VEC, POLY + '*', VEC + '*'], pre=lambda v: [le(1, v.len(v.args[1]))])
def _(v):
    r, p, a = v.args
    v.setvec(r, v.len(a), lambda i: Sum(v.len(p), lambda j: v.el(p, j) * ppow(v.el(a, i), j)))


def shpoly(v, s, t, g):
    """length and coefficients of the sharing polynomial: the secret, then t values drawn, without leading zeros"""
    c0 = v.rnd(g)
    c = lambda i: T.eq(i, 0) * v.F(s) + le(1, i) * v.rndval(g, c0 + i - 1)
    nz = lambda i: bnot(feq(c(t - i), ZERO))
    none = All(t + 1, lambda i: bnot(nz(i)))
    return ite(none, ONE, t + 1 - first(t + 1, nz)), lambda i: ite(none, ZERO, c(i))


@con('shgen', POLY + ' scl::details::CreateShamirSharePolynomial<FF61>(FF61 const&, unsigned long, scl::PRG&)', ['sret:' + POLY, 'FF61*', 'u64', PRG + '*'])
def _(v):
    r, s, t, g = v.args
    v.throws(T.eq(t, 0), 'std::invalid_argument')
    n, c = shpoly(v, s, t, g)
    v.setvec(r, n, c)
    v.setrnd(g, v.rnd(g) + t)


@con('shgen', 'scl::Vec<FF61> scl::CreateShamirShares<FF61>(FF61 const&, unsigned long, unsigned long, scl::PRG&)',
     ['sret:' + VEC, 'FF61*', 'u64', 'u64', PRG + '*'])
def _(v):
    r, s, n, t, g = v.args
    v.throws(T.eq(t, 0), 'std::invalid_argument')
    m, c = shpoly(v, s, t, g)
    v.setvec(r, n, lambda i: Sum(m, lambda j: c(j) * ppow(i + 1, j)))
    v.setrnd(g, v.rnd(g) + t)


@con('shamir', 'FF61 scl::ReconstructShamirPassive<FF61>(scl::Vec<FF61> const&, scl::Vec<FF61> const&, FF61 const&, unsigned long)',
     [VEC + '*', VEC + '*', 'FF61*', 'u64'])
def _(v):
    s, a, x, t = v.args
    v.throws(bor(lt(v.len(s), t + 1), lt(v.len(a), t + 1)), 'std::invalid_argument')
    v.throws(bnot(distinct(vget(v, a), t + 1)), 'std::logic_error')
    v.ret = lagrange(v.F(x), vget(v, a), vget(v, s), t + 1)


@con('shamir', 'FF61 scl::ReconstructShamirPassive<FF61>(scl::Vec<FF61> const&, unsigned long)', [VEC + '*', 'u64'])
def _(v):
    s, t = v.args
    v.throws(lt(v.len(s), t + 1), 'std::invalid_argument')
    X = lambda i: i + 1
    v.throws(bnot(distinct(X, t + 1)), 'std::logic_error')
    v.ret = lagrange(ZERO, X, vget(v, s), t + 1)


@con('shamir', 'FF61 scl::ReconstructShamir<FF61>(scl::Vec<FF61> const&, scl::Vec<FF61> const&, FF61 const&, unsigned long)',
     [VEC + '*', VEC + '*', 'FF61*', 'u64'])
def _(v):
    s, a, x, t = v.args
    v.throws(bor(lt(v.len(s), 2 * t + 1), lt(v.len(a), 2 * t + 1)), 'std::invalid_argument')
    d = distinct(vget(v, a), t + 1)
    ok = All(t, lambda k: feq(lagrange(v.el(a, t + 1 + k), vget(v, a), vget(v, s), t + 1), v.el(s, t + 1 + k)))
    v.throws(bor(bnot(d), bnot(ok)), 'std::logic_error')
    v.ret = lagrange(v.F(x), vget(v, a), vget(v, s), t + 1)


@con('shamir', 'FF61 scl::ReconstructShamir<FF61>(scl::Vec<FF61> const&, unsigned long)', [VEC + '*', 'u64'])
def _(v):
    s, t = v.args
    v.throws(lt(v.len(s), 2 * t + 1), 'std::invalid_argument')
    X = lambda i: i + 1
    d = distinct(X, t + 1)
    ok = All(t, lambda k: feq(lagrange(t + k + 2, X, vget(v, s), t + 1), v.el(s, t + 1 + k)))
    v.throws(bor(bnot(d), bnot(ok)), 'std::logic_error')
    v.ret = lagrange(ZERO, X, vget(v, s), t + 1)


# ------------------------------------------------ C14 packed
@con('packed', EVP + ' scl::details::EvPolyFromSecretsAndPoints<FF61>(scl::Vec<FF61> const&, scl::Vec<FF61> const&, scl::PRG&)',
     ['sret:' + EVP, VEC + '*', VEC + '*', PRG + '*'])
def _(v):
    r, s, x, g = v.args
    v.throws(lt(v.len(x), v.len(s)), 'std::invalid_argument')
    v.throws(T.eq(v.len(x), 0), 'std::invalid_argument')
    c0 = v.rnd(g)
    v.setvec(v.fld(r, EVP, 'mX'), v.len(x), vget(v, x))
    v.setvec(v.fld(r, EVP, 'mY'), v.len(x), lambda i: ite(lt(i, v.len(s)), v.el(s, i), v.rndval(g, c0 + i - v.len(s))))
    v.setrnd(g, c0 + v.len(x) - v.len(s))


@con('packed', EVP + ' scl::details::EvPolyFromSecretsAndDegree<FF61>(scl::Vec<FF61> const&, unsigned long, scl::PRG&)',
     ['sret:' + EVP, VEC + '*', 'u64', PRG + '*'])
def _(v):
    r, s, d, g = v.args
    ns = v.len(s)
    v.throws(lt(d + 1, ns), 'std::invalid_argument')
    c0 = v.rnd(g)
    v.setvec(v.fld(r, EVP, 'mX'), d + 1, lambda i: ite(lt(i, ns), -i, i - ns + 1))
    v.setvec(v.fld(r, EVP, 'mY'), d + 1, lambda i: ite(lt(i, ns), v.el(s, i), v.rndval(g, c0 + i - ns)))
    v.setrnd(g, c0 + d + 1 - ns)


@con('packed', EVP + ' scl::details::EvPolyFromSecretAndPointAndDegree<FF61>(FF61 const&, FF61 const&, unsigned long, scl::PRG&)',
     ['sret:' + EVP, 'FF61*', 'FF61*', 'u64', PRG + '*'])
def _(v):
    r, s, x, d, g = v.args
    c0 = v.rnd(g)
    v.setvec(v.fld(r, EVP, 'mX'), d + 1, lambda i: ite(T.eq(i, 0), v.F(x), i))
    v.setvec(v.fld(r, EVP, 'mY'), d + 1, lambda i: ite(T.eq(i, 0), v.F(s), v.rndval(g, c0 + i - 1)))
    v.setrnd(g, c0 + d)


@con('packed', EVP + ' scl::details::EvPolyFromSecretAndDegree<FF61>(FF61 const&, unsigned long, scl::PRG&)',
     ['sret:' + EVP, 'FF61*', 'u64', PRG + '*'])
def _(v):
    r, s, d, g = v.args
    c0 = v.rnd(g)
    v.setvec(v.fld(r, EVP, 'mX'), d + 1, lambda i: i)
    v.setvec(v.fld(r, EVP, 'mY'), d + 1, lambda i: ite(T.eq(i, 0), v.F(s), v.rndval(g, c0 + i - 1)))
    v.setrnd(g, c0 + d)


@con('packed', 'scl::Vec<FF61> scl::details::SharesFromEvPoly<FF61>(%s const&, unsigned long)' % EVP, ['sret:' + VEC, EVP + '*', 'u64'],
     pre=lambda v: evwf(v, v.args[1]))
def _(v):
    r, p, n = v.args
    X, Y = v.fld(p, EVP, 'mX'), v.fld(p, EVP, 'mY')
    v.throws(bnot(distinct(vget(v, X), v.len(Y))) * le(1, n), 'std::logic_error')
    v.setvec(r, n, lambda i: lagrange(i + 1, vget(v, X), vget(v, Y), v.len(Y)))


@con('packed', EVP + ' scl::details::EvPolyFromShares<FF61>(scl::Vec<FF61> const&)', ['sret:' + EVP, VEC + '*'])
def _(v):
    r, s = v.args
    v.throws(T.eq(v.len(s), 0), 'std::invalid_argument')
    v.setvec(v.fld(r, EVP, 'mX'), v.len(s), lambda i: i + 1)
    v.setvec(v.fld(r, EVP, 'mY'), v.len(s), vget(v, s))


@con('packed', 'scl::Vec<FF61> scl::details::SecretsFromPointsAndShares<FF61>(scl::Vec<FF61> const&, scl::Vec<FF61> const&)',
     ['sret:' + VEC, VEC + '*', VEC + '*'])
def _(v):
    r, x, s = v.args
    v.throws(T.eq(v.len(s), 0), 'std::invalid_argument')
    X = lambda i: i + 1
    v.throws(bnot(distinct(X, v.len(s))) * le(1, v.len(x)), 'std::logic_error')
    v.setvec(r, v.len(x), lambda i: lagrange(v.el(x, i), X, vget(v, s), v.len(s)))


@con('packed', 'scl::Vec<FF61> scl::details::SecretsFromSharesAndLength<FF61>(scl::Vec<FF61> const&, unsigned long)', ['sret:' + VEC, VEC + '*', 'u64'])
def _(v):
    r, s, l = v.args
    v.throws(T.eq(v.len(s), 0), 'std::invalid_argument')
    X = lambda i: i + 1
    v.throws(bnot(distinct(X, v.len(s))) * le(1, l), 'std::logic_error')
    v.setvec(r, l, lambda i: lagrange(-i, X, vget(v, s), v.len(s)))


@con('packed', 'FF61 scl::details::SecretFromPointAndShares<FF61>(FF61 const&, scl::Vec<FF61> const&)', ['FF61*', VEC + '*'])
def _(v):
    x, s = v.args
    v.throws(T.eq(v.len(s), 0), 'std::invalid_argument')
    X = lambda i: i + 1
    v.throws(bnot(distinct(X, v.len(s))), 'std::logic_error')
    v.ret = lagrange(v.F(x), X, vget(v, s), v.len(s))


@con('packed', 'FF61 scl::details::SecretFromShares<FF61>(scl::Vec<FF61> const&)', [VEC + '*'])
def _(v):
    s, = v.args
    v.throws(T.eq(v.len(s), 0), 'std::invalid_argument')
    X = lambda i: i + 1
    v.throws(bnot(distinct(X, v.len(s))), 'std::logic_error')
    v.ret = lagrange(ZERO, X, vget(v, s), v.len(s))


def wsh(env):
    """sharing a secret: the polynomial's construction and evaluation at the parties' points are used through their contracts"""
    if 'shgen' not in env.worlds:
        from ..world import World
        m, lay = env.module('m61', ['tu:scl61'])
        w = World(m, lay)
        for c in GROUPS['shamir'] + GROUPS['shgen'] + GROUPS['poly']:
            if isinstance(c, Contract) and ('Create' in c.name or 'CanonicalAlphas' in c.name):
                w.contracts[c.name] = c
        env.worlds['shgen'] = w
    return env.worlds['shgen']


WORLDS['shgen'] = wsh
