from .lib import *
V = 'scl::Vec<FF61>'
for nm, f in (('Add', lambda a, b: a + b), ('Subtract', lambda a, b: a - b), ('MultiplyEntryWise', lambda a, b: a * b)):
    @con('vec', '%s::%s(%s const&) const' % (V, nm, V), ['sret:' + V, V + '*', V + '*'])
    def _(v, f=f):
        r, a, b = v.args
        v.throws(bnot(T.eq(v.len(a), v.len(b))), 'std::invalid_argument')
        v.setvec(r, v.len(a), lambda i: f(v.el(a, i), v.el(b, i)))

    @con('vec', '%s::%sInPlace(%s const&)' % (V, nm, V), [V + '*', V + '*'])
    def _(v, f=f):
        a, b = v.args
        v.throws(bnot(T.eq(v.len(a), v.len(b))), 'std::invalid_argument')
        v.setvec(a, None, lambda i: ite(ge0(i) * lt(i, v.len(a)), f(v.el(a, i), v.el(b, i)), v.el(a, i)))
        v.ret = a


@con('vec', V + '::Sum() const', [V + '*'])
def _(v):
    j = fresh()
    v.ret = mk_sum(v.len(v.args[0]), j, v.el(v.args[0], j))


@con('vec', V + '::Dot(%s const&) const' % V, [V + '*', V + '*'])
def _(v):
    j = fresh()
    a, b = v.args
    v.throws(bnot(T.eq(v.len(a), v.len(b))), 'std::invalid_argument')
    v.ret = mk_sum(v.len(a), j, v.el(a, j) * v.el(b, j))


@con('vec', V + '::Equals(%s const&) const' % V, [V + '*', V + '*'])
def _(v):
    j = fresh()
    a, b = v.args
    v.ret = T.eq(v.len(a), v.len(b)) * mk_all(v.len(a), j, feq(v.el(a, j), v.el(b, j)))



# ---- receiver and argument are the same object
SAME = 'the receiver is the argument'
for nm, f in (('Add', lambda a, b: a + b), ('Subtract', lambda a, b: a - b), ('MultiplyEntryWise', lambda a, b: a * b)):
    @con_when(SAME, 'vec', '%s::%sInPlace(%s const&)' % (V, nm, V), [V + '*', same(0)])
    def _(v, f=f):
        a, b = v.args
        v.setvec(a, None, lambda i: ite(ge0(i) * lt(i, v.len(a)), f(v.el(a, i), v.el(a, i)), v.el(a, i)))
        v.ret = a

    @con_when(SAME, 'vec', '%s::%s(%s const&) const' % (V, nm, V), ['sret:' + V, V + '*', same(1)])
    def _(v, f=f):
        r, a, b = v.args
        v.setvec(r, v.len(a), lambda i: f(v.el(a, i), v.el(a, i)))


@con_when(SAME, 'vec', V + '::Dot(%s const&) const' % V, [V + '*', same(0)])
def _(v):
    a = v.args[0]
    v.ret = Sum(v.len(a), lambda j: v.el(a, j) * v.el(a, j))


@con('vec', V + '::ScalarMultiply(FF61 const&) const', ['sret:' + V, V + '*', 'FF61*'])
def _(v):
    r, a, s = v.args
    v.setvec(r, v.len(a), lambda i: v.F(s) * v.el(a, i))


def scaled(v):
    a, s = v.args
    x = v.F(s)
    v.setvec(a, None, lambda i: ite(ge0(i) * lt(i, v.len(a)), v.el(a, i) * x, v.el(a, i)))
    v.ret = a


con('vec', V + '::ScalarMultiplyInPlace(FF61 const&)', [V + '*', 'FF61*'])(scaled)
con_when('the scalar is an element of the vector', 'vec', V + '::ScalarMultiplyInPlace(FF61 const&)', [V + '*', element_of(0)],
         pre=lambda v: [le(0, sym('at')), lt(sym('at'), v.len(v.args[0]))])(scaled)


@con('vec', V + '::Size() const', [V + '*'])
def _(v):
    v.ret = v.len(v.args[0])


@con('vec', V + '::operator[](unsigned long) const', [V + '*', 'u64'])
def _(v):
    v.ret = v.el(v.args[0], v.args[1])


@con('vec', V + '::Vec(unsigned long)', [V + '*', 'u64'])
def _(v):
    v.setvec(v.args[0], v.args[1], lambda i: ZERO)


@con('vec', V + '::Emplace(FF61)', [V + '*', 'F'])
def _(v):
    a, x = v.args
    n = v.len(a)
    v.setvec(a, n + 1, lambda i: ite(T.eq(i, n), x, v.el(a, i)))
