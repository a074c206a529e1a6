"""Matrices: an array of rows * cols entries in row-major order."""
from .lib import *
V = 'scl::Vec<FF61>'
M = 'scl::Mat<FF61>'
INV = 'std::invalid_argument'
SV = 'std::vector<FF61>'


class MV:
    """a matrix as the contracts see it"""
    def __init__(self, v, p):
        self.v, self.p = v, p
        self.q = v.fld(p, M, 'mValues')

    @property
    def rows(self):
        return self.v.rd(self.p, M, 'mRows')

    @property
    def cols(self):
        return self.v.rd(self.p, M, 'mCols')

    @property
    def size(self):
        return self.v.len(self.q)

    def flat(self, i):
        return self.v.el(self.q, i)

    def at(self, i, j):
        return self.flat(self.cols * i + j)

    def shape(self, r, c):
        self.v.set(self.v.fld(self.p, M, 'mRows'), r)
        self.v.set(self.v.fld(self.p, M, 'mCols'), c)

    def fill(self, n, f):
        self.v.setvec(self.q, n, f)

    def wf(self):
        return [T.eq(self.size, self.rows * self.cols)]


def wf(*idx):
    return lambda v: sum([MV(v, v.args[i]).wf() for i in idx], [])


@con('mat', M + '::Mat(unsigned long, unsigned long)', [M + '*', 'u64', 'u64'])
def _(v):
    p, n, m = v.args
    v.throws(bor(T.eq(n, 0), T.eq(m, 0)), INV)
    a = MV(v, p)
    a.shape(n, m)
    a.fill(n * m, lambda i: ZERO)


@con('mat', M + '::Mat(unsigned long)', [M + '*', 'u64'])
def _(v):
    p, n = v.args
    v.throws(T.eq(n, 0), INV)
    a = MV(v, p)
    a.shape(n, n)
    a.fill(n * n, lambda i: ZERO)


@con('mat', M + '::Rows() const', [M + '*'])
def _(v):
    v.ret = MV(v, v.args[0]).rows


@con('mat', M + '::Cols() const', [M + '*'])
def _(v):
    v.ret = MV(v, v.args[0]).cols


@con('mat', M + '::operator()(unsigned long, unsigned long) const', [M + '*', 'u64', 'u64'])
def _(v):
    v.ret = MV(v, v.args[0]).at(v.args[1], v.args[2])


@con('mat', M + '::IsSquare() const', [M + '*'])
def _(v):
    a = MV(v, v.args[0])
    v.ret = T.eq(a.rows, a.cols)


def inrange(i, n):
    return le(0, i) * lt(i, n)


for nm, f in (('Add', lambda a, b: a + b), ('Subtract', lambda a, b: a - b), ('MultiplyEntryWise', lambda a, b: a * b)):
    @con('mat', '%s::%s(%s const&) const' % (M, nm, M), ['sret:' + M, M + '*', M + '*'], pre=wf(1, 2))
    def _(v, f=f):
        r, a, b = [MV(v, x) for x in v.args]
        v.throws(bnot(T.eq(a.rows, b.rows) * T.eq(a.cols, b.cols)), INV)
        r.shape(a.rows, a.cols)
        r.fill(a.size, lambda i: f(a.flat(i), b.flat(i)))

    @con('mat', '%s::%sInPlace(%s const&)' % (M, nm, M), [M + '*', M + '*'], pre=wf(0, 1))
    def _(v, f=f):
        a, b = [MV(v, x) for x in v.args]
        v.throws(bnot(T.eq(a.rows, b.rows) * T.eq(a.cols, b.cols)), INV)
        a.fill(None, lambda i: ite(inrange(i, a.size), f(a.flat(i), b.flat(i)), a.flat(i)))
        v.ret = v.args[0]

    @con_when('the receiver is the argument', 'mat', '%s::%sInPlace(%s const&)' % (M, nm, M), [M + '*', same(0)], pre=wf(0))
    def _(v, f=f):
        a = MV(v, v.args[0])
        a.fill(None, lambda i: ite(inrange(i, a.size), f(a.flat(i), a.flat(i)), a.flat(i)))
        v.ret = v.args[0]


@con('mat', M + '::ScalarMultiply(FF61 const&) const', ['sret:' + M, M + '*', 'FF61*'])
def _(v):
    r, a = [MV(v, x) for x in v.args[:2]]
    s = v.F(v.args[2])
    r.shape(a.rows, a.cols)
    r.fill(a.size, lambda i: a.flat(i) * s)


@con('mat', M + '::ScalarMultiplyInPlace(FF61 const&)', [M + '*', 'FF61*'])
def _(v):
    a = MV(v, v.args[0])
    s = v.F(v.args[1])
    a.fill(None, lambda i: ite(inrange(i, a.size), a.flat(i) * s, a.flat(i)))
    v.ret = v.args[0]


@con_when('the scalar is an entry of the matrix', 'mat', M + '::ScalarMultiplyInPlace(FF61 const&)', [M + '*', element_of(0, M, 'mValues')],
          pre=lambda v: [le(0, sym('at')), lt(sym('at'), MV(v, v.args[0]).size)])
def _(v):
    a = MV(v, v.args[0])
    s = v.F(v.args[1])
    a.fill(None, lambda i: ite(inrange(i, a.size), a.flat(i) * s, a.flat(i)))
    v.ret = v.args[0]


@con('mat', M + '::Identity(unsigned long)', ['sret:' + M, 'u64'])
def _(v):
    n = v.args[1]
    v.throws(T.eq(n, 0), INV)
    r = MV(v, v.args[0])
    r.shape(n, n)
    r.fill(n * n, lambda i: T.eq(i, (n + 1) * idiv(i, n + 1)))


@con('mat', M + '::FromVector(unsigned long, unsigned long, %s const&)' % SV, ['sret:' + M, 'u64', 'u64', SV + '*'])
def _(v):
    p, n, m, src = v.args
    v.throws(bnot(T.eq(v.len(src), n * m)), INV)
    r = MV(v, p)
    r.shape(n, m)
    r.fill(n * m, lambda i: v.el(src, i))


@con('mat', M + '::Multiply(%s const&) const' % M, ['sret:' + M, M + '*', M + '*'], pre=wf(1, 2))
def _(v):
    r, a, b = [MV(v, x) for x in v.args]
    v.throws(bnot(T.eq(a.cols, b.rows)), INV)
    v.throws(bor(T.eq(a.rows, 0), T.eq(b.cols, 0)), INV)
    r.shape(a.rows, b.cols)
    i = lambda x: idiv(x, b.cols)
    r.fill(a.rows * b.cols, lambda x: Sum(a.cols, lambda k: a.at(i(x), k) * b.at(k, x - b.cols * i(x))))


@con('mat', M + '::Transpose() const', ['sret:' + M, M + '*'], pre=wf(1))
def _(v):
    r, a = [MV(v, x) for x in v.args]
    v.throws(bor(T.eq(a.rows, 0), T.eq(a.cols, 0)), INV)
    r.shape(a.cols, a.rows)
    r.fill(a.rows * a.cols, lambda x: a.at(x - a.rows * idiv(x, a.rows), idiv(x, a.rows)))


@con('mat', M + '::Resize(unsigned long, unsigned long)', [M + '*', 'u64', 'u64'])
def _(v):
    a = MV(v, v.args[0])
    n, m = v.args[1:]
    v.throws(bnot(T.eq(n * m, a.rows * a.cols)), INV)
    a.shape(n, m)
    v.ret = v.args[0]


@con('mat', M + '::Equals(%s const&) const' % M, [M + '*', M + '*'], pre=wf(0, 1))
def _(v):
    a, b = [MV(v, x) for x in v.args]
    v.ret = T.eq(a.rows, b.rows) * T.eq(a.cols, b.cols) * All(a.size, lambda i: feq(a.flat(i), b.flat(i)))


@con('mat', M + '::IsIdentity() const', [M + '*'], pre=wf(0))
def _(v):
    a = MV(v, v.args[0])
    v.ret = T.eq(a.rows, a.cols) * All(a.rows, lambda i: All(a.cols, lambda j: ite(T.eq(i, j), feq(a.at(i, j), ONE), feq(a.at(i, j), ZERO))))


@con('mat', M + '::ByteSize() const', [M + '*'])
def _(v):
    a = MV(v, v.args[0])
    v.ret = a.rows * a.cols * 8
