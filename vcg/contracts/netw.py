"""Network configurations: look-up, validation, the local configuration."""
from .lib import *
from ..exec import PIte, Ptr, Unsupported, read_key
from ..spec import difference

CFG = 'scl::NetworkConfig'
PARTY = 'scl::Party'
INV = 'std::invalid_argument'
for g in ('config', 'network'):
    WORLDS[g] = world61


class Cfg:
    def __init__(self, v, p):
        self.v, self.p = v, p
        self.parties = v.fld(p, CFG, 'mParties')

    @property
    def me(self):
        return self.v.rd(self.p, CFG, 'mId')

    @property
    def n(self):
        return self.v.len(self.parties)

    def party(self, i):
        return self.parties.elem(i)

    def id(self, i):
        return self.v.rd(self.party(i), PARTY, 'id')


def valid(me, n, ids):
    return lt(me, n) * All(n, lambda i: lt(ids(i), n)) * All(n, lambda i: All(n, lambda j: bor(ge0(i - j), bnot(T.eq(ids(i), ids(j))))))


@con('config', CFG + '::Validate()', [CFG + '*'])
def _(v):
    c = Cfg(v, v.args[0])
    v.throws(bnot(valid(c.me, c.n, c.id)), INV)


@con('config', CFG + '::GetParty(unsigned int) const', ['sret:' + PARTY, CFG + '*', 'u32'])
def _(v):
    r, p, i = v.args
    c = Cfg(v, p)
    v.throws(All(c.n, lambda j: bnot(T.eq(c.id(j), i))), INV)
    v.copy(r, c.party(first(c.n, lambda j: T.eq(c.id(j), i))), PARTY)


@con('config', CFG + '::NetworkConfig(unsigned int, std::vector<scl::Party>)', [CFG + '*', 'u32', 'arr:' + PARTY])
def _(v):
    p, me, ps = v.args
    n = v.len(ps)
    idof = lambda i: v.rd(ps.elem(i), PARTY, 'id')
    v.throws(bnot(valid(me, n, idof)), INV)
    v.set(v.fld(p, CFG, 'mId'), me)
    parties(v, p, n, lambda i: idof(i), lambda i: v.rd(ps.elem(i), PARTY, 'port'))


def parties(v, p, n, idof, port):
    q = v.fld(p, CFG, 'mParties')
    v.setlen(q, n)
    i = IDX[len(q.idx)]
    for name, f in (('id', idof), ('port', port)):
        c = v.fld(q.elem(i), PARTY, name)
        v.st.mem[(c.root, c.offs)] = f(i)


@con('config', CFG + '::Localhost(unsigned int, unsigned long, int)', ['sret:' + CFG, 'u32', 'u64', 'int'])
def _(v):
    r, me, n, base = v.args
    v.throws(le(n, me), INV)
    v.set(v.fld(r, CFG, 'mId'), me)
    parties(v, r, n, lambda i: i, lambda i: base + i)


NET = 'scl::Network'
IMC = 'scl::InMemoryChannel'
BUF = 'scl::details::SharedDeque<std::vector<unsigned char>>'


def deref(p, f):
    """f of what the pointer value p points at, by cases"""
    if isinstance(p, PIte):
        return p.c * deref(p.a, f) + bnot(p.c) * deref(p.b, f)
    return f(p)


def same_object(p, q):
    d = difference(p, q)
    if d is None:
        raise Unsupported('pointers %s and %s' % (p, q))
    return bnot(d)


class End:
    """one side of a channel: an InMemoryChannel, its two queues"""
    def __init__(self, v, p):
        self.v, self.p = v, p

    def q(self, name):
        def rd(p):
            x, t = self.v.w.fieldptr(p, IMC, name)
            return read_key(self.v.post, x.root, x.offs, x.idx)
        p = self.p
        if isinstance(p, PIte):
            return PIte(p.c, End(self.v, p.a).q(name), End(self.v, p.b).q(name))
        if not isinstance(p, Ptr):
            return p
        return rd(p)


def cell(v, p):
    return read_key(v.post, p.root, p.offs, p.idx)


def queue_empty(v, q):
    def f(p):
        if not isinstance(p, Ptr):
            return ZERO
        x, t = v.w.fieldptr(p, BUF, 'mDeck')
        return T.eq(read_key(v.post, x.root, x.offs + ('len',), x.idx), ZERO)
    return deref(q, f)


def connected(v, a, b):
    """what one end sends is what the other receives; nothing is queued yet"""
    a, b = End(v, a), End(v, b)
    return (same_object(a.q('mOut'), b.q('mIn')) * same_object(a.q('mIn'), b.q('mOut')) * bnot(same_object(a.q('mIn'), a.q('mOut')))
            * queue_empty(v, a.q('mIn')) * queue_empty(v, a.q('mOut')))


def apart(v, a, b):
    """no queue is shared"""
    a, b = End(v, a), End(v, b)
    g = ONE
    for x in ('mIn', 'mOut'):
        for y in ('mIn', 'mOut'):
            g = g * bnot(same_object(a.q(x), b.q(y)))
    return g


PAIR = 'std::array<std::shared_ptr<%s>, 2>' % IMC


@goals('network', IMC + '::CreatePaired()', ['sret:' + PAIR])
def _(v):
    r, = v.args
    yield 'paired', [], connected(v, cell(v, r.elem(ZERO)), cell(v, r.elem(ONE)))


@goals('network', IMC + '::CreateSelfConnecting()', ['sret:std::shared_ptr<%s>' % IMC])
def _(v):
    r, = v.args
    a = End(v, cell(v, r))
    yield 'self', [], same_object(a.q('mIn'), a.q('mOut')) * queue_empty(v, a.q('mIn'))


MOCK = 'std::pair<scl::Network, std::vector<std::shared_ptr<scl::Channel>>>'


@goals('network', NET + '::CreateMock(unsigned int, unsigned long)', ['sret:' + MOCK, 'u32', 'u64'])
def _(v):
    r, me, n = v.args
    ch = v.fld(r, MOCK, 'first', 'mChannels')
    rem = v.fld(r, MOCK, 'second')
    yield 'size', [], T.eq(v.len(ch, v.post), n) * T.eq(v.len(rem, v.post), n)
    i, j = sym('i'), sym('j')
    C = lambda k: cell(v, ch.elem(k))
    R = lambda k: cell(v, rem.elem(k))
    inr = lambda k: [ge0(k), lt(k, n)]
    a = End(v, C(i))
    other = bnot(T.eq(i, me))
    yield 'self', inr(i) + [T.eq(i, me)], same_object(a.q('mIn'), a.q('mOut'))
    yield 'remote', inr(i) + [other], connected(v, C(i), R(i))
    yield 'separate', inr(i) + inr(j) + [lt(i, j)], apart(v, C(i), C(j))


@goals('network', NET + '::CreateFullInMemory(unsigned long)', ['sret:std::vector<scl::Network>', 'u64'])
def _(v):
    r, n = v.args
    yield 'size', [], T.eq(v.len(r, v.post), n)
    i, j, k = sym('i'), sym('j'), sym('k')
    ch = lambda a: v.fld(r.elem(a), NET, 'mChannels')
    C = lambda a, b: cell(v, ch(a).elem(b))
    inr = lambda x: [ge0(x), lt(x, n)]
    yield 'sizes', inr(i), T.eq(v.len(ch(i), v.post), n)
    a = End(v, C(i, i))
    yield 'self', inr(i), same_object(a.q('mIn'), a.q('mOut'))
    yield 'connected', inr(i) + inr(j) + [lt(i, j)], connected(v, C(i, j), C(j, i))
    l = sym('l')
    yield 'separate', inr(i) + inr(j) + inr(k) + inr(l) + [lt(i, j), lt(k, l), bnot(T.eq(i, k) * T.eq(j, l))], apart(v, C(i, j), C(k, l))
    yield 'separate-self', inr(i) + inr(j) + inr(k) + [lt(i, j)], apart(v, C(i, j), C(k, k))
    yield 'separate-selves', inr(i) + inr(j) + [lt(i, j)], apart(v, C(i, i), C(j, j))


@con('network', NET + '::Party(unsigned int)', [NET + '*', 'u32'], pre=lambda v: [lt(v.args[1], v.len(v.fld(v.args[0], NET, 'mChannels')))])
def _(v):
    p, i = v.args
    q = v.fld(p, NET, 'mChannels').elem(i)
    v.ret = read_key(v.pre, q.root, q.offs, q.idx)


@con('network', NET + '::Size() const', [NET + '*'])
def _(v):
    v.ret = v.len(v.fld(v.args[0], NET, 'mChannels'))
