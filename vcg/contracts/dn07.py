"""The DN07 baseline."""
from .tp import *
from ..exec import read_key, write_key, getcell_mem

D = 'tp::DN07'
QV = 'std::queue<scl::Vec<FF61>>'


def thr(v):
    t = TV(v, D)
    return [lt(2 * t.g('mThreshold'), t.g('mParties'))]


@con('threshold', D + '::DN07(unsigned long, unsigned long)', [D + '*', 'u64', 'u64'])
def _(v):
    """accepted exactly when fewer than half of the parties can be corrupted"""
    t = TV(v, D)
    n, th = v.args[1], v.args[2]
    q, ty = v.w.fieldptr(v.args[0], D, 'mCircuit')
    freeall(v, q, ty)
    v.throws(le(n, 2 * th), INV)
    t.set('mParties', n)
    t.set('mThreshold', th)
    for x in ('mCTRDoubleShrs', 'mCTRRandShrs'):
        t.set(x, ZERO)
    for x in ('mDShrs', 'mRShrs'):
        v.setlen(t.fp(x), ZERO)
    for x in ('mMapMults', 'mMapInputs', 'mMapResults'):
        q = t.fp(x)
        v.st.mem[(q.root, q.offs + ('has', 0))] = ZERO
    for x in ('mP1SharesToSend', 'mMapP1SharesFromLast'):
        q = t.fp(x)
        v.setlen(q, ZERO)
        v.set(q.plus(40), ZERO)
    vandermonde(v, t.fp('mVandermonde'), n, th)


def vandermonde(v, q, n, th):
    v.setlen(q, n)
    i, j = IDX[0], IDX[1]
    e = q.elem(i)
    v.st.mem[(q.root, e.offs + ('len',))] = th + 1
    v.st.mem[(q.root, e.offs + (0,))] = Prod(j, lambda m: i)


@con('dn07', D + '::PrecomputeVandermonde()', [D + '*'], pre=lambda v: [T.eq(v.len(v.fld(v.args[0], D, 'mVandermonde')), 0)])
def _(v):
    t = TV(v, D)
    vandermonde(v, t.fp('mVandermonde'), t.g('mParties'), t.g('mThreshold'))


def dummy(v, x):
    t = TV(v, D)
    for f, n, cls, ms in (('mDShrs', 'mNMults', 'tp::DoubleShr', ('shr', 'dshr')), ('mRShrs', 'mNInputs', 'tp::RandShr', ('shr',))):
        q = t.fp(f)
        v.setlen(q, t.g(n))
        for m in ms:
            e = v.fld(q.elem(IDX[0]), cls, m)
            v.st.mem[(e.root, e.offs)] = x


con('dn07', D + '::DummyPrep(FF61)', [D + '*', 'F'])(lambda v: dummy(v, v.args[1]))
con('dn07', D + '::DummyPrep()', [D + '*'])(lambda v: dummy(v, ZERO))


@con('dn07', D + '::SetInputs(std::vector<FF61>)', [D + '*', 'std::vector<FF61>*'],
     pre=lambda v: [lt(v.rd(v.args[0], C, 'mID'), v.len(v.fld(v.args[0], C, 'mFlatInputGates')))])
def _(v):
    LIB['tp::Circuit::SetInputs(std::vector<FF61>)'].spec(v)


# ---------------------------------------------------------------- preprocessing
def blocks(t, amount):
    th = t.g('mThreshold')
    return idiv(amount + th, th + 1)


@con('dn07', D + '::PrepPartiesSend()', [D + '*'], pre=thr)
def _(v):
    """one sharing per party and block: random sharings first, then pairs of sharings of degree t and 2t of one value"""
    t = TV(v, D)
    n, th = t.g('mParties'), t.g('mThreshold')
    b1, b2 = blocks(t, t.g('mNInputs')), blocks(t, t.g('mNMults'))
    ch = Chans(v, C, v.args[0])
    g = t.fp('mPRG')
    c0 = v.rnd(g)
    c1 = c0 + b1 * (th + 1)
    r = lambda i: v.rndval(g, i)
    p = IDX[0]
    append(ch, None, None, b1, lambda x: lagrange(p + 1, lambda i: i, lambda i: r(c0 + x * (th + 1) + i), th + 1), le(0, p) * lt(p, n))

    def pair(x):
        b = idiv(x, const(2))
        c = c1 + b * (3 * th + 1)
        lo = lagrange(p + 1, lambda i: i, lambda i: r(c + i), th + 1)
        hi = lagrange(p + 1, lambda i: i, lambda i: ite(T.eq(i, 0), r(c), r(c + th + i)), 2 * th + 1)
        return ite(T.eq(x, 2 * b), lo, hi)
    append(ch, None, None, 2 * b2, pair, le(0, p) * lt(p, n))
    v.setrnd(g, c1 + b2 * (3 * th + 1))


def extract(v, block, j, src):
    t = TV(v, D)
    M = t.fp('mVandermonde')
    return Sum(t.g('mParties'), lambda p: v.el(M, p, j) * src(p, block))


def vdm(v):
    t = TV(v, D)
    n, th = t.g('mParties'), t.g('mThreshold')
    return [T.eq(v.len(t.fp('mVandermonde')), n), All(n, lambda i: T.eq(v.len(t.fp('mVandermonde').elem(i)), th + 1))]


@con('dn07', D + '::PrepPartiesReceive()', [D + '*'], pre=lambda v: thr(v) + vdm(v) + [T.eq(v.len(v.fld(v.args[0], D, x)), 0) for x in ('mRShrs', 'mDShrs')])
def _(v):
    t = TV(v, D)
    n, th = t.g('mParties'), t.g('mThreshold')
    b1, b2 = blocks(t, t.g('mNInputs')), blocks(t, t.g('mNMults'))
    ch = Chans(v, C, v.args[0])
    i = IDX[0]
    b = idiv(i, th + 1)
    for f, nb, cls, src in (('mRShrs', b1, 'tp::RandShr', {'shr': lambda p, x: ch.recv(p, x)}),
                            ('mDShrs', b2, 'tp::DoubleShr', {'shr': lambda p, x: ch.recv(p, b1 + 2 * x), 'dshr': lambda p, x: ch.recv(p, b1 + 2 * x + 1)})):
        q = t.fp(f)
        v.setlen(q, nb * (th + 1))
        for m, s in src.items():
            e = v.fld(q.elem(i), cls, m)
            v.st.mem[(e.root, e.offs)] = extract(v, b, i - b * (th + 1), s)
    ch.recvs(ZERO, n, b1 + 2 * b2)



# ---------------------------------------------------------------- the online phase
G = 'tp::Gate'


def mapped(v, name, g):
    """the entry of the index map for the object g points to, and whether there is one"""
    q = v.fld(v.args[0], D, name)
    a = v.w.addr(g)
    return read_key(v.pre, q.root, q.offs + (0,), q.idx + (a,)), read_key(v.pre, q.root, q.offs + ('has', 0), q.idx + (a,))


def dshr(v, g, f='shr'):
    """share of the (double) sharing assigned to the product g"""
    i, _ = mapped(v, 'mMapMults', g)
    return v.rd(TV(v, D).fp('mDShrs').elem(i), 'tp::DoubleShr', f)


def rshr(v, g):
    i, _ = mapped(v, 'mMapInputs', g)
    return v.rd(TV(v, D).fp('mRShrs').elem(i), 'tp::RandShr', 'shr')


def mgate(v, l, j):
    return spf(v, v.fld(v.args[0], C, 'mFlatMultLayers').elem(l).elem(j))


def mlen(v, l):
    return v.len(v.fld(v.args[0], C, 'mFlatMultLayers').elem(l))


def minv(v, l):
    """every product of the layer has its double sharing"""
    q = v.fld(v.args[0], D, 'mDShrs')
    has = lambda j: mapped(v, 'mMapMults', mgate(v, l, j))
    return [lt(l, v.len(v.fld(v.args[0], C, 'mFlatMultLayers'))), All(mlen(v, l), lambda j: has(j)[1]), All(mlen(v, l), lambda j: lt(has(j)[0], v.len(q)))]


def iinv(v, i):
    q = v.fld(v.args[0], D, 'mRShrs')
    has = lambda j: mapped(v, 'mMapInputs', flatgate(v, 'Input', i, j))
    return [All(flatlen(v, 'Input', i), lambda j: has(j)[1]), All(flatlen(v, 'Input', i), lambda j: lt(has(j)[0], v.len(q)))]


def low(v):
    """is this one of the first t + 1 parties"""
    t = TV(v, D)
    return lt(v.rd(v.args[0], C, 'mID'), t.g('mThreshold') + 1)


def reduced(v, l, j):
    """share of the product minus the degree-2t sharing"""
    g = mgate(v, l, j)
    a, b = [spf(v, v.fld(g, G, x)) for x in LR]
    return gfun(v.w, 'dn07', a) * gfun(v.w, 'dn07', b) - dshr(v, g, 'dshr')


def operands(v, l):
    return All(mlen(v, l), lambda j: gknown(v.w, 'dn07', spf(v, v.fld(mgate(v, l, j), G, 'mLeft'))) * gknown(v.w, 'dn07', spf(v, v.fld(mgate(v, l, j), G, 'mRight'))))


@con('dn07', D + '::MultPartiesSendP1(unsigned long)', [D + '*', 'u64'], pre=lambda v: minv(v, v.args[1]))
def _(v):
    l = v.args[1]
    n = mlen(v, l)
    v.throws(low(v) * bnot(operands(v, l)), INV)
    append(Chans(v, C, v.args[0]), ZERO, None, n, lambda j: reduced(v, l, j), low(v))


@con('dn07', D + '::MultPartiesReceive(unsigned long)', [D + '*', 'u64'], pre=lambda v: minv(v, v.args[1]))
def _(v):
    l = v.args[1]
    n = mlen(v, l)
    ch = Chans(v, C, v.args[0])
    i, j = IDX[0], IDX[1]
    g = mgate(v, i, j)
    w = low(v) * T.eq(i, l) * le(0, j) * lt(j, n)
    fam(v, v.fld(g, G, 'mDn07Share'), w, ch.recv(ZERO, j) + dshr(v, mgate(v, l, j)))
    fam(v, v.fld(g, G, 'mDn07Set'), w, ONE)
    ch.took(ZERO, low(v) * n)


def zeroed(v, secret, p):
    """share of party p of the degree-t sharing of the secret in which the last t parties have 0"""
    t = TV(v, D)
    n, th = t.g('mParties'), t.g('mThreshold')
    return lagrange(p + 1, lambda i: ite(T.eq(i, 0), ZERO, n - th + i), lambda i: ite(T.eq(i, 0), secret, ZERO), th + 1)



class Queue:
    """a queue of share vectors: the k-th element from the front, its length, what is left"""
    def __init__(self, v, name):
        self.v = v
        self.q = TV(v, D).fp(name)
        self.h = read_key(v.pre, self.q.root, self.q.plus(40).offs, self.q.idx)
        self.n = v.len(self.q)

    def vec(self, k):
        return self.q.elem(self.h + k)

    def at(self, k, i):
        return self.v.el(self.vec(k), i)

    def holds(self, cnt, size):
        return [le(self.h + cnt, self.n), All(cnt, lambda k: le(size, self.v.len(self.vec(k))))]

    def pop(self, cnt):
        self.v.set(self.q.plus(40), self.h + cnt)

    def push(self, cnt, size, val, guard=ONE):
        """cnt vectors of the given size, element i of the x-th being val(x, i)"""
        v = self.v
        x = IDX[0] - self.n
        new = guard * le(0, x) * lt(x, cnt)
        e = self.q.elem(IDX[0])
        kl, ke = (e.root, e.offs + ('len',)), (e.root, e.elem(IDX[1]).offs)
        v.st.mem[kl] = ite(new, size, getcell_mem(v.st.mem, kl))
        v.st.mem[ke] = ite(new * le(0, IDX[1]) * lt(IDX[1], size), val(x, IDX[1]), getcell_mem(v.st.mem, ke))
        v.setlen(self.q, self.n + guard * cnt)


def p1(v):
    return T.eq(v.rd(v.args[0], C, 'mID'), 0)


def p1recvpre(v):
    t = TV(v, D)
    l = v.args[1]
    n, th = t.g('mParties'), t.g('mThreshold')
    return thr(v) + [lt(l, v.len(v.fld(v.args[0], C, 'mFlatMultLayers')))] + Queue(v, 'mMapP1SharesFromLast').holds(mlen(v, l), n - th - 1)


@con('dn07', D + '::MultP1Receives(unsigned long)', [D + '*', 'u64'], pre=p1recvpre)
def _(v):
    """P1 opens each masked product and prepares its degree-t sharing"""
    t = TV(v, D)
    l = v.args[1]
    n, th, m = t.g('mParties'), t.g('mThreshold'), mlen(v, l)
    ch = Chans(v, C, v.args[0])
    last, out = Queue(v, 'mMapP1SharesFromLast'), Queue(v, 'mP1SharesToSend')
    share = lambda x: (lambda i: ite(le(i, th), ch.recv(i, x), last.at(x, i - th - 1)))
    secret = lambda x: lagrange(ZERO, lambda i: i + 1, share(x), n)
    out.push(m, th + 1, lambda x, i: zeroed(v, secret(x), i), p1(v))
    last.pop(p1(v) * m)
    ch.recvs(ZERO, p1(v) * (th + 1), m)


@con('dn07', D + '::MultP1SendsParties(unsigned long)', [D + '*', 'u64'],
     pre=lambda v: [lt(v.args[1], v.len(v.fld(v.args[0], C, 'mFlatMultLayers')))] + Queue(v, 'mP1SharesToSend').holds(mlen(v, v.args[1]), TV(v, D).g('mThreshold') + 1))
def _(v):
    t = TV(v, D)
    m = mlen(v, v.args[1])
    q = Queue(v, 'mP1SharesToSend')
    append(Chans(v, C, v.args[0]), None, None, m, lambda x: q.at(x, IDX[0]), p1(v) * le(0, IDX[0]) * lt(IDX[0], t.g('mThreshold') + 1))
    q.pop(p1(v) * m)


def clients(v):
    return v.rd(v.args[0], C, 'mClients')


def inpre(v):
    return clientspre('Input')(v) + [All(clients(v), lambda i: iinv(v, i)[k]) for k in (0, 1)]


@con('dn07', D + '::InputPartiesSendOwners()', [D + '*'], pre=inpre)
def _(v):
    i = IDX[0]
    append(Chans(v, C, v.args[0]), None, None, flatlen(v, 'Input', i), lambda x: rshr(v, flatgate(v, 'Input', i, x)), low(v) * le(0, i) * lt(i, clients(v)))


def dn_init(*ks):
    def init(v):
        for k in ks:
            q = v.fld(flatgate(v, k, IDX[0], IDX[1]), GC[k], 'mOwnerID')
            v.st.mem[(q.root, q.offs)] = IDX[0]
    return init


@con('dn07', D + '::InputOwnersReceiveAndSendParties()', [D + '*'], init=dn_init('Input'),
     pre=lambda v: thr(v) + [lt(v.rd(v.args[0], C, 'mID'), v.len(v.fld(v.args[0], C, 'mFlatInputGates')))])
def _(v):
    """the owner opens the mask of each of its inputs and shares input minus mask"""
    t = TV(v, D)
    th, me = t.g('mThreshold'), v.rd(v.args[0], C, 'mID')
    ch = Chans(v, C, v.args[0])
    g = lambda x: flatgate(v, 'Input', me, x)
    n = flatlen(v, 'Input', me)
    mask = lambda x: lagrange(ZERO, lambda i: i + 1, lambda i: ch.recv(i, x), th + 1)
    append(ch, None, None, n, lambda x: zeroed(v, v.rd(g(x), GC['Input'], 'mValue') - mask(x), IDX[0]), le(0, IDX[0]) * lt(IDX[0], th + 1))
    ch.recvs(ZERO, th + 1, n)


@con('dn07', D + '::InputPartiesReceive()', [D + '*'], pre=inpre)
def _(v):
    ch = Chans(v, C, v.args[0])
    i, j = IDX[0], IDX[1]
    g = flatgate(v, 'Input', i, j)
    w = low(v) * le(0, i) * lt(i, clients(v)) * le(0, j) * lt(j, flatlen(v, 'Input', i))
    fam(v, v.fld(g, G, 'mDn07Share'), w, ch.recv(i, j) + rshr(v, g))
    fam(v, v.fld(g, G, 'mDn07Set'), w, ONE)
    ch.recvs(ZERO, low(v) * clients(v), flatlen(v, 'Input', IDX[0]))


@con('dn07', D + '::OutputPartiesSendOwners()', [D + '*'], pre=clientspre('Output'))
def _(v):
    i = IDX[0]
    g = lambda i, j: flatgate(v, 'Output', i, j)
    v.throws(low(v) * bnot(All(clients(v), lambda i: All(flatlen(v, 'Output', i), lambda j: gknown(v.w, 'dn07', g(i, j))))), INV)
    append(Chans(v, C, v.args[0]), None, None, flatlen(v, 'Output', i), lambda x: gfun(v.w, 'dn07', g(i, x)), low(v) * le(0, i) * lt(i, clients(v)))


@con('dn07', D + '::GetOutput(unsigned long, unsigned long)', [D + '*', 'u64', 'u64'],
     pre=lambda v: [lt(v.args[1], v.len(v.fld(v.args[0], C, 'mFlatOutputGates'))), lt(v.args[2], flatlen(v, 'Output', v.args[1])),
                    mapped(v, 'mMapResults', flatgate(v, 'Output', v.args[1], v.args[2]))[1]])
def _(v):
    v.ret = mapped(v, 'mMapResults', flatgate(v, 'Output', v.args[1], v.args[2]))[0]


@con('dn07', D + '::SetCircuit(tp::Circuit&)', [D + '*', C + '*'])
def _(v):
    t = TV(v, D)
    q, ty = v.w.fieldptr(v.args[0], D, 'mCircuit')
    v.copy(q, v.args[1], ty)
    t.set('mNMults', v.rd(v.args[1], C, 'mSize'))
    t.set('mNInputs', v.len(v.fld(v.args[1], C, 'mInputGates')))


def install_queue(w):
    """assumed contract of std::queue: a sequence and the number of elements taken from its front"""
    lay = w.lay
    if QV in lay.rec:
        lay.rec[QV] = (lay.rec[QV][0], [(0, 'std::vector<scl::Vec<FF61>>', '$q'), (40, 'u64', '$head')])
    Q = r'std::queue<scl::Vec<FF61>(?:, std::deque<scl::Vec<FF61>>)?>::'

    def add(rx, f):
        w.models.insert(0, (re.compile(rx + '$'), f))

    def parts(c):
        p = c.args[0]
        return p, p.plus(40)

    def push(c):
        st = c.own()
        q, _ = parts(c)
        n = read_key(st, q.root, q.offs + ('len',), q.idx)
        c.w.copy_value(st, q.elem(n), c.args[1], 'scl::Vec<FF61>')
        write_key(st, q.root, q.offs + ('len',), q.idx, n + 1)
        return st, None

    def front(c):
        q, h = parts(c)
        return c.st, q.elem(read_key(c.st, h.root, h.offs, h.idx))

    def pop(c):
        st = c.own()
        q, h = parts(c)
        write_key(st, h.root, h.offs, h.idx, read_key(st, h.root, h.offs, h.idx) + 1)
        return st, None

    def new(c):
        st = c.own()
        q, h = parts(c)
        write_key(st, h.root, h.offs, h.idx, ZERO)
        write_key(st, q.root, q.offs + ('len',), q.idx, ZERO)
        return st, None
    add(Q + r'push\(.*\)', push)
    add(Q + r'front\(\)( const)?', front)
    add(Q + r'pop\(\)', pop)
    add(Q + r'queue(<.*>)?\(.*\)', new)
    add(Q + r'~queue\(\)', lambda c: (c.st, None))


WORLDS['dn07'] = wtp
WORLDS['threshold'] = wtp


def layers(v):
    return v.len(v.fld(v.args[0], C, 'mFlatMultLayers'))


def before(v, l):
    """products in the layers before l"""
    return Sum(l, lambda m: mlen(v, m))


def depth(v):
    return v.len(v.fld(v.args[0], C, 'mMultLayers'))


def ragged_hints(v):
    t = TV(v, D)
    n, th = t.g('mParties'), t.g('mThreshold')
    ch = Chans(v, C, v.args[0])
    last = Queue(v, 'mMapP1SharesFromLast')
    x = IDX[0] - last.n
    e = last.q.elem(IDX[0])

    def new(ks):
        return p1(v) * le(0, x) * lt(x, before(v, ks[0]) + (ks[1] if len(ks) > 1 else ZERO))

    def length(ks, init):
        return ite(new(ks), n - th - 1, init) if len(ks) <= 2 else None

    def elem(ks, init):
        return ite(new(ks) * le(0, IDX[1]), ch.recv(th + 1 + IDX[1], x), init) if len(ks) <= 2 else None
    return {(e.root, e.offs + ('len',)): length, (e.root, e.elem(IDX[1]).offs): elem}


@con('dn07', D + '::FDMultP1Receives()', [D + '*'], hints=ragged_hints, pre=lambda v: thr(v) + [T.eq(depth(v), layers(v))])
def _(v):
    """P1 keeps, product after product, what the last t parties sent"""
    t = TV(v, D)
    n, th = t.g('mParties'), t.g('mThreshold')
    tot = before(v, depth(v))
    ch = Chans(v, C, v.args[0])
    Queue(v, 'mMapP1SharesFromLast').push(tot, n - th - 1, lambda x, i: ch.recv(th + 1 + i, x), p1(v))
    ch.recvs(p1(v) * (th + 1), p1(v) * n, tot)


def turn(v, x):
    """which of this party's outputs the object numbered x is (the outputs of a client are distinct objects)"""
    return T.app('ghost.turn', x)


def results_hints(v):
    me = v.rd(v.args[0], C, 'mID')
    q = TV(v, D).fp('mMapResults')
    val, has = (q.root, q.offs + (0,)), (q.root, q.offs + ('has', 0))
    return {val: lambda ks, init: ite(mine(v, me, ks[0]), opened(v, turn(v, IDX[0])), init) if len(ks) == 1 else None,
            has: lambda ks, init: ite(mine(v, me, ks[0]), ONE, init) if len(ks) == 1 else None}


def mine(v, me, n):
    j = turn(v, IDX[0])
    return le(0, j) * lt(j, n) * T.eq(v.w.addr(flatgate(v, 'Output', me, j)), IDX[0])


def opened(v, j):
    th = TV(v, D).g('mThreshold')
    ch = Chans(v, C, v.args[0])
    return lagrange(ZERO, lambda i: i + 1, lambda i: ch.recv(i, j), th + 1)


@con('dn07', D + '::OutputOwnersReceive()', [D + '*'], init=dn_init('Output'), hints=results_hints,
     pre=lambda v: thr(v) + [lt(v.rd(v.args[0], C, 'mID'), v.len(v.fld(v.args[0], C, 'mFlatOutputGates'))),
                             All(flatlen(v, 'Output', v.rd(v.args[0], C, 'mID')), lambda j: T.eq(turn(v, v.w.addr(flatgate(v, 'Output', v.rd(v.args[0], C, 'mID'), j))), j))])
def _(v):
    """the owner opens each of its outputs, in order"""
    t = TV(v, D)
    me = v.rd(v.args[0], C, 'mID')
    n = flatlen(v, 'Output', me)
    q = t.fp('mMapResults')
    hit = mine(v, me, n)
    val, has = (q.root, q.offs + (0,)), (q.root, q.offs + ('has', 0))
    v.st.mem[val] = ite(hit, opened(v, turn(v, IDX[0])), getcell_mem(v.st.mem, val))
    v.st.mem[has] = ite(hit, ONE, getcell_mem(v.st.mem, has))
    Chans(v, C, v.args[0]).recvs(ZERO, t.g('mThreshold') + 1, n)


class Placed:
    """where the object numbered x is in a list of lists of distinct objects: the row and the place in it"""
    def __init__(self, v, name, rows, size, at):
        self.v, self.name, self.rows, self.size, self.at = v, name, rows, size, at
        self.row, self.col = [T.app('ghost.%s.%s' % (name, k), IDX[0]) for k in ('row', 'col')]

    def distinct(self):
        v = self.v

        def ok(i, j):
            a = v.w.addr(self.at(i, j))
            return T.eq(T.app('ghost.%s.row' % self.name, a), i) * T.eq(T.app('ghost.%s.col' % self.name, a), j)
        return All(self.rows, lambda i: All(self.size(i), lambda j: ok(i, j)))

    def among(self, i, j=None):
        """x is in one of the first i rows, or in row i before place j"""
        r, c = self.row, self.col
        s = le(0, r) * le(0, c) * lt(c, self.size(r)) * T.eq(self.v.w.addr(self.at(r, c)), IDX[0])
        return s * (lt(r, i) if j is None else lt(r, i) + T.eq(r, i) * lt(c, j))

    def number(self):
        return Sum(self.row, self.size) + self.col


def placed(v):
    return (('mMapInputs', 'mCTRRandShrs', Placed(v, 'inputs', clients(v), lambda i: flatlen(v, 'Input', i), lambda i, j: flatgate(v, 'Input', i, j))),
            ('mMapMults', 'mCTRDoubleShrs', Placed(v, 'products', depth(v), lambda i: mlen(v, i), lambda i, j: mgate(v, i, j))))


def cells(v, name):
    q = TV(v, D).fp(name)
    return (q.root, q.offs + (0,)), (q.root, q.offs + ('has', 0))


def map_hints(v):
    r = {}
    for name, ctr, pl in placed(v):
        def mk(pl, new):
            return lambda ks, init: ite(pl.among(*ks), new, init) if len(ks) in (1, 2) else None
        val, has = cells(v, name)
        r[val] = mk(pl, TV(v, D).g(ctr) + pl.number())
        r[has] = mk(pl, ONE)
    return r


@con('dn07', D + '::FDMapPrepToGates()', [D + '*'], hints=map_hints,
     pre=lambda v: clientspre('Input')(v) + [T.eq(depth(v), layers(v))] + [pl.distinct() for _, _, pl in placed(v)])
def _(v):
    """every input gate and every product gets a random sharing of its own, in order"""
    for name, ctr, pl in placed(v):
        c0 = TV(v, D).g(ctr)
        val, has = cells(v, name)
        hit = pl.among(pl.rows)
        v.st.mem[val] = ite(hit, c0 + pl.number(), getcell_mem(v.st.mem, val))
        v.st.mem[has] = ite(hit, ONE, getcell_mem(v.st.mem, has))
        TV(v, D).set(ctr, c0 + Sum(pl.rows, pl.size))
