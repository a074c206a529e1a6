"""Linear algebra (la.h): row operations, augmentation, consistency and uniqueness by rank."""
from .lib import *
from .mat import MV, M, V, INV, wf, inrange

N = 'scl::details::'
REF = M + '&'
CREF = M + ' const&'


def inrow(a, x, i):
    """flat index x lies in row i"""
    return ge0(x - a.cols * i) * lt(x - a.cols * i, a.cols)


def apart(v, i, j):
    """i != j spelled out for the linear prover: different rows do not overlap (follows from i != j and cols >= 1)"""
    m = MV(v, v.args[0]).cols
    return bor(ge0(m * (i - j) - m), ge0(m * (j - i) - m))


def rows(*which):
    """well-formed matrix, and the named arguments are row numbers"""
    def pre(v):
        a = MV(v, v.args[0])
        out = a.wf() + [le(1, a.cols)]
        for i in which:
            out.append(inrange(v.args[i], a.rows))
        return out
    return pre


def flat_hint(f):
    """content of the matrix after the first c columns were processed"""
    def hints(v):
        a = MV(v, v.args[0])
        q = a.q.elem(IDX[0])
        return {(q.root, q.offs): lambda ks, init: f(v, a, ks[-1], IDX[0])}
    return hints


def swapped(v, a, c, x):
    p, k, h = v.args
    part = lambda i: ge0(x - a.cols * i) * lt(x - a.cols * i, c)
    return ite(part(k), a.flat(x - a.cols * k + a.cols * h), ite(part(h), a.flat(x - a.cols * h + a.cols * k), a.flat(x)))


def added(v, a, c, x):
    p, d, o, m = v.args
    return ite(ge0(x - a.cols * d) * lt(x - a.cols * d, c), a.flat(x) + a.flat(x - a.cols * d + a.cols * o) * v.F(m), a.flat(x))


@con('la', 'void %sSwapRows<FF61>(%s, unsigned long, unsigned long)' % (N, REF), [M + '*', 'u64', 'u64'], hints=flat_hint(swapped),
     pre=lambda v: rows(1, 2)(v) + [bor(T.eq(v.args[1], v.args[2]), apart(v, v.args[1], v.args[2]))])
def _(v):
    p, k, h = v.args
    a = MV(v, p)
    a.fill(None, lambda x: ite(T.eq(k, h), a.flat(x), ite(inrow(a, x, k), a.flat(x - a.cols * k + a.cols * h), ite(inrow(a, x, h), a.flat(x - a.cols * h + a.cols * k), a.flat(x)))))


@con('la', 'void %sMultiplyRow<FF61>(%s, unsigned long, FF61 const&)' % (N, REF), [M + '*', 'u64', 'FF61*'], pre=rows(1))
def _(v):
    p, r, m = v.args
    a = MV(v, p)
    m = v.F(m)
    a.fill(None, lambda x: ite(inrow(a, x, r), a.flat(x) * m, a.flat(x)))


@con('la', 'void %sAddRows<FF61>(%s, unsigned long, unsigned long, FF61 const&)' % (N, REF), [M + '*', 'u64', 'u64', 'FF61*'], hints=flat_hint(added),
     pre=lambda v: rows(1, 2)(v) + [bnot(T.eq(v.args[1], v.args[2])), apart(v, v.args[1], v.args[2])])
def _(v):
    p, d, o, m = v.args
    a = MV(v, p)
    m = v.F(m)
    a.fill(None, lambda x: ite(inrow(a, x, d), a.flat(x) + a.flat(x - a.cols * d + a.cols * o) * m, a.flat(x)))


def augmented(a, b, x):
    w = a.cols + b.cols
    i = idiv(x, w)
    j = x - w * i
    return ite(lt(j, a.cols), a.at(i, j), b.at(i, j - a.cols))


def augment_hint(v):
    r, a, b = [MV(v, x) for x in v.args]
    q = r.q.elem(IDX[0])
    return {(q.root, q.offs): lambda ks, init: ite(ge0(IDX[0]) * lt(IDX[0], ks[0] * (a.cols + b.cols)), augmented(a, b, IDX[0]), init) if len(ks) == 1 else None}


@con('la', '%s %sCreateAugmentedMatrix<FF61>(%s, %s)' % (M, N, CREF, CREF), ['sret:' + M, M + '*', M + '*'], hints=augment_hint,
     pre=lambda v: wf(1, 2)(v) + [T.eq(MV(v, v.args[1]).rows, MV(v, v.args[2]).rows)])
def _(v):
    r, a, b = [MV(v, x) for x in v.args]
    n, m, k = a.rows, a.cols, b.cols
    v.throws(bor(T.eq(n, 0), T.eq(m + k, 0)), INV)
    r.shape(n, m + k)
    r.fill(n * (m + k), lambda x: augmented(a, b, x))


@con('la', 'bool %sHasSolution<FF61>(%s, bool)' % (N, CREF), [M + '*', 'bool'], pre=lambda v: wf(0)(v) + [le(1, MV(v, v.args[0]).cols)])
def _(v):
    a = MV(v, v.args[0])
    u = v.args[1]
    n, m = a.rows, a.cols
    zero = lambda i: All(m - 1, lambda j: feq(a.at(i, j), ZERO))
    ok = All(n, lambda i: bor(bnot(zero(i)), feq(a.at(i, m - 1), ZERO)))
    rank = Sum(n, lambda i: bnot(zero(i)))
    v.ret = ok * bor(bnot(u), T.eq(rank, m - 1))


@con('la', 'unsigned long %s(anonymous namespace)::FindFirstNonZeroRow<FF61>(%s)' % (N, CREF), [M + '*'], pre=lambda v: wf(0)(v) + [le(1, MV(v, v.args[0]).cols)])
def _(v):
    a = MV(v, v.args[0])
    n = a.rows
    zero = lambda i: All(a.cols, lambda j: feq(a.at(n - 1 - i, j), ZERO))
    v.ret = ite(All(n, zero), ZERO - 1, n - 1 - first(n, lambda i: bnot(zero(i))))


def lastin(v):
    """(the last row with a non-zero entry in the column, whether there is none)"""
    a = MV(v, v.args[0])
    n, c = a.rows, v.args[1]
    zero = lambda i: feq(a.at(n - 1 - i, c), ZERO)
    return a, c, n - 1 - first(n, lambda i: bnot(zero(i))), All(n, zero)


def pivot_pre(v):
    """column c exists; and the row found has no entry directly left of column c, a position the code does not look at
    (in reduced form with one pivot per column, as the solver with unique_only uses it, there is none)"""
    yes = wf(0)(v) + [ge0(v.args[1]), lt(v.args[1], MV(v, v.args[0]).cols)]
    a, c, r, none = lastin(v)
    return yes + [bor(bor(none, lt(c, 1)), feq(a.at(r, c - 1), ZERO))]


@con('la', 'int %s(anonymous namespace)::GetPivotInColumn<FF61>(%s, int)' % (N, CREF), [M + '*', 'int'], pre=pivot_pre)
def _(v):
    a, c, r, none = lastin(v)
    clean = All(ge0(c - 1) * (c - 1), lambda k: feq(a.at(r, k), ZERO))
    no = ZERO + ((1 << 32) - 1)  # the int -1
    v.ret = ite(none, no, ite(clean, r, no))
