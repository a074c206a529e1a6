"""The correlator: function-independent preprocessing, its hand-out, and function-dependent preprocessing."""
from .tp import *
from ..exec import read_key, write_key

K = 'tp::Correlator'
NET = 'std::shared_ptr<scl::Network>'


@con('threshold', K + '::SetThreshold(unsigned long)', [K + '*', 'u64'])
def _(v):
    t = TV(v, K)
    th, n, k = v.args[1], t.g('mParties'), t.g('mBatchSize')
    v.throws(bnot(T.eq(n, th + 2 * (k - 1) + 1)), INV)
    v.throws(le(n, 2 * th), INV)
    t.set('mThreshold', th)


@con('corr', K + '::SetNetwork(%s, unsigned long)' % NET, [K + '*', NET + '*', 'u64'])
def _(v):
    t = TV(v, K)
    p = spf(v, v.args[1])
    t.set('mNetwork', p)
    t.set('mID', v.args[2])
    t.set('mParties', v.len(v.fld(p, 'scl::Network', 'mChannels')))


@con('corr', K + '::PrecomputeEi()', [K + '*'])
def _(v):
    """share of the i-th unit vector at this party's point: the Lagrange basis for the positions 0, -1, .."""
    t = TV(v, K)
    q = t.fp('mSharesOfEi')
    n0, k, x = v.len(q), t.g('mBatchSize'), t.g('mID') + 1
    v.setlen(q, n0 + k)
    i = IDX[0]
    old = v.el(q, i)
    new = Prod(k, lambda j: ite(T.eq(j, i - n0), ONE, (x + j) * inv(j - (i - n0))))
    v.st.mem[(q.root, q.offs + (0,))] = ite(le(n0, i) * lt(i, n0 + k), new, old)


@con('corr', K + '::PrecomputeVandermonde()', [K + '*'], pre=lambda v: [T.eq(v.len(v.fld(v.args[0], K, 'mVandermonde')), 0)])
def _(v):
    t = TV(v, K)
    q = t.fp('mVandermonde')
    n, th = t.g('mParties'), t.g('mThreshold')
    v.setlen(q, n)
    i, j = IDX[0], IDX[1]
    e = q.elem(i)
    v.st.mem[(q.root, e.offs + ('len',))] = th + 1
    v.st.mem[(q.root, e.offs + (0,))] = Prod(j, lambda m: i)



# ---------------------------------------------------------------- hand-out of the prepared randomness
def mp(v, name, g):
    """entry of the map at the object g points to"""
    return v.fld(v.args[0], K, name).elem(v.w.addr(g))


def hasp(v, name, g):
    q = v.fld(v.args[0], K, name)
    return read_key(v.pre, q.root, q.offs + ('has', 0), q.idx + (v.w.addr(g),))


def sethas(v, name, g, c=ONE):
    q = v.fld(v.args[0], K, name)
    k = q.offs + ('has', 0)
    i = q.idx + (v.w.addr(g),)
    write_key(v.st, q.root, k, i, bor(read_key(v.st, q.root, k, i), c))


def rdf(v, p, st=None):
    return read_key(st or v.pre, p.root, p.offs, p.idx)


def handout(cls, ctr, vec, mapn, fields, vcls):
    def f(v):
        t = TV(v, K)
        c = t.g(ctr)
        g = spf(v, v.args[1])
        use = ONE if 'Batch' in cls else bnot(v.rd(g, 'tp::Gate', 'mIsPadding'))
        src = t.fp(vec).elem(c)
        d = mp(v, mapn, g)
        for o in fields:
            e, x = d, src
            if o is not None:
                e, x = v.fld(d, vcls, o), v.fld(src, vcls, o)
            v.set(e, ite(use, rdf(v, x), rdf(v, e)))
        sethas(v, mapn, g, use)
        t.set(ctr, c + use)
    return f


def room(ctr, vec):
    return lambda v: [lt(v.rd(v.args[0], K, ctr), v.len(v.fld(v.args[0], K, vec)))]


MF = ('mShrA', 'mShrB', 'mShrC', 'mShrO1', 'mShrO2', 'mShrO3')
for _c in ('MultGate', 'InputGate'):
    con('handout', K + '::PopulateIndvShrs(std::shared_ptr<tp::%s>)' % _c, [K + '*', 'std::shared_ptr<tp::%s>*' % _c], pre=room('mCTRIndShrs', 'mIndShrs'))(
        handout(_c, 'mCTRIndShrs', 'mIndShrs', 'mMapIndShrs', (None,), None))
con('handout', K + '::PopulateMultBatches(std::shared_ptr<tp::MultBatch>)', [K + '*', 'std::shared_ptr<tp::MultBatch>*'], pre=room('mCTRMultBatches', 'mMultBatchFIPrep'))(
    handout('MultBatch', 'mCTRMultBatches', 'mMultBatchFIPrep', 'mMapMultBatch', MF, 'tp::MultBatchFIPrep'))
for _c in ('Input', 'Output'):
    con('handout', K + '::Populate%sBatches(std::shared_ptr<tp::%sBatch>)' % (_c, _c), [K + '*', 'std::shared_ptr<tp::%sBatch>*' % _c], pre=room('mCTRInOutBatches', 'mIOBatchFIPrep'))(
        handout('Batch', 'mCTRInOutBatches', 'mIOBatchFIPrep', 'mMap%sBatch' % _c, ('mShrO',), 'tp::IOBatchFIPrep'))


@con('handout', K + '::PopulateIndvShrs(std::shared_ptr<tp::AddGate>)', [K + '*', 'std::shared_ptr<tp::AddGate>*'],
     pre=lambda v: [hasp(v, 'mMapIndShrs', spf(v, v.fld(spf(v, v.args[1]), 'tp::Gate', x))) for x in LR])
def _(v):
    g = spf(v, v.args[1])
    a, b = [spf(v, v.fld(g, 'tp::Gate', x)) for x in LR]
    d = mp(v, 'mMapIndShrs', g)
    v.set(d, rdf(v, mp(v, 'mMapIndShrs', a)) + rdf(v, mp(v, 'mMapIndShrs', b)))
    sethas(v, 'mMapIndShrs', g)


@con('handout', K + '::PopulateIndvShrs(std::shared_ptr<tp::OutputGate>)', [K + '*', 'std::shared_ptr<tp::OutputGate>*'],
     pre=lambda v: [hasp(v, 'mMapIndShrs', spf(v, v.fld(spf(v, v.args[1]), 'tp::Gate', 'mLeft')))])
def _(v):
    g = spf(v, v.args[1])
    a = spf(v, v.fld(g, 'tp::Gate', 'mLeft'))
    v.set(mp(v, 'mMapIndShrs', g), rdf(v, mp(v, 'mMapIndShrs', a)))
    sethas(v, 'mMapIndShrs', g)



# ---------------------------------------------------------------- function-dependent preprocessing
BATCH = {'Input': 'mInputGatesPtrs', 'Output': 'mOutputGatesPtrs', 'Mult': 'mMultGatesPtrs'}


class Prep:
    """one batch seen through the correlator"""
    def __init__(self, v, kind):
        self.v, self.kind = v, kind
        self.t = TV(v, K)
        self.k = self.t.g('mBatchSize')
        self.map = 'mMap%sBatch' % kind
        if len(v.args) > 1:
            self.b = spf(v, v.args[1])
            self.gates = v.fld(self.b, 'tp::%sBatch' % kind, BATCH[kind])
        self.ei = lambda i: v.el(self.t.fp('mSharesOfEi'), i)

    def gate(self, i):
        return spf(self.v, self.gates.elem(i))

    def par(self, i, f):
        return spf(self.v, self.v.fld(self.gate(i), 'tp::Gate', f))

    def ind(self, g):
        return rdf(self.v, mp(self.v, 'mMapIndShrs', g))

    def has(self, g):
        return hasp(self.v, 'mMapIndShrs', g)

    def packed(self, g):
        """share of the packed masks of the wires g(0), .., g(k-1)"""
        return Sum(self.k, lambda i: self.ei(i) * self.ind(g(i)))

    def prep(self, f):
        v = self.v
        return rdf(v, v.fld(mp(v, self.map, self.b), 'tp::MultBatchFIPrep' if self.kind == 'Mult' else 'tp::IOBatchFIPrep', f))

    def pre(self, *gs):
        v = self.v
        r = [T.eq(v.len(self.gates), self.k), le(self.k, v.len(self.t.fp('mSharesOfEi'))), hasp(v, self.map, self.b)]
        return r + [All(self.k, lambda i: self.has(g(i))) for g in gs]

    def owner(self):
        return self.v.rd(self.b, 'tp::%sBatch' % self.kind, 'mOwnerID')


for _k in ('Input', 'Output'):
    def _pre(v, k=_k):
        P = Prep(v, k)
        return P.pre(P.gate)

    @con('fdprep', K + '::Prep%sPartiesSendOwner(std::shared_ptr<tp::%sBatch>)' % (_k, _k), [K + '*', 'std::shared_ptr<tp::%sBatch>*' % _k], pre=_pre)
    def _(v, k=_k):
        P = Prep(v, k)
        Chans(v, K, v.args[0]).send(P.owner(), P.packed(P.gate) + P.prep('mShrO'))

    def _pre2(v, k=_k):
        P = Prep(v, k)
        return [T.eq(v.len(P.gates), P.k), le(1, P.t.g('mParties'))]

    @con('fdprep', K + '::Prep%sOwnerReceives(std::shared_ptr<tp::%sBatch>)' % (_k, _k), [K + '*', 'std::shared_ptr<tp::%sBatch>*' % _k], pre=_pre2)
    def _(v, k=_k):
        P = Prep(v, k)
        me = T.eq(P.t.g('mID'), P.owner())
        ch = Chans(v, K, v.args[0])
        n = P.t.g('mParties')
        for f, val in (('mLambda', lambda i: lagrange(-i, lambda j: j + 1, lambda j: ch.recv(j), n)), ('mLambdaSet', lambda i: ONE)):
            q = v.fld(P.gate(IDX[0]), 'tp::%sGate' % k, f)
            fam(v, q, me * le(0, IDX[0]) * lt(IDX[0], P.k), val(IDX[0]))
        ch.recvs(ZERO, me * n)


def _pre(v):
    P = Prep(v, 'Mult')
    return P.pre(lambda i: P.par(i, 'mLeft'), lambda i: P.par(i, 'mRight'))


MB = 'std::shared_ptr<tp::MultBatch>'


@con('fdprep', K + '::PrepMultPartiesSendP1(%s)' % MB, [K + '*', MB + '*'], pre=_pre)
def _(v):
    P = Prep(v, 'Mult')
    ch = Chans(v, K, v.args[0])
    ch.send(ZERO, P.packed(lambda i: P.par(i, 'mLeft')) + P.prep('mShrA') + P.prep('mShrO1'))
    ch.send(ZERO, P.packed(lambda i: P.par(i, 'mRight')) + P.prep('mShrB') + P.prep('mShrO2'))


@con('fdprep', K + '::PrepMultP1ReceivesAndSends()', [K + '*'], pre=lambda v: [le(1, v.rd(v.args[0], K, 'mParties')), le(1, v.rd(v.args[0], K, 'mBatchSize'))])
def _(v):
    t = TV(v, K)
    ch = Chans(v, K, v.args[0])
    n, k, p1 = t.g('mParties'), t.g('mBatchSize'), T.eq(t.g('mID'), 0)
    X = lambda j: j + 1
    sec = lambda s: (lambda i: lagrange(-i, X, lambda j: ch.recv(j, s), n))
    val = lambda s, p: lagrange(p + 1, lambda i: -i, sec(s), k)
    ch.sends(ZERO, p1 * n, lambda p: [val(0, p), val(1, p)])
    ch.recvs(ZERO, p1 * n, 2)


@con('fdprep', K + '::PrepMultPartiesReceive(%s)' % MB, [K + '*', MB + '*'], pre=lambda v: Prep(v, 'Mult').pre(Prep(v, 'Mult').gate))
def _(v):
    P = Prep(v, 'Mult')
    ch = Chans(v, K, v.args[0])
    a, b = ch.recv(ZERO, 0), ch.recv(ZERO, 1)
    B = TV(v, 'tp::MultBatch', P.b)
    B.set('mPackedShrLambdaA', a - P.prep('mShrA'))
    B.set('mPackedShrLambdaB', b - P.prep('mShrB'))
    B.set('mPackedShrDeltaC', a * b - a * P.prep('mShrB') - b * P.prep('mShrA') + P.prep('mShrC') + P.prep('mShrO3') - P.packed(P.gate))
    ch.took(ZERO, 2)



# ---------------------------------------------------------------- function-independent preprocessing: dealing
def thr(v):
    t = TV(v, K)
    n, th, k = t.g('mParties'), t.g('mThreshold'), t.g('mBatchSize')
    return [T.eq(n, th + 2 * (k - 1) + 1), lt(2 * th, n), le(1, k)]


def blocks(t, amount):
    """number of dealings needed when each yields t + 1 sharings"""
    th = t.g('mThreshold')
    return idiv(amount + th, th + 1)


def dealing(v, amounts, D, share, packs=None):
    """n_blocks dealings (per pack index, when packs is given): every party p gets share(b, p, c) where
    c is the number of elements drawn before this dealing, each dealing drawing D elements"""
    t = TV(v, K)
    nb = blocks(t, amounts)
    n = t.g('mParties')
    ch = Chans(v, K, v.args[0])
    g = t.fp('mPRG')
    c0 = v.rnd(g)
    q = ch.c(IDX[0]).plus(1024)
    from ..exec import getcell_mem
    kl, ke = (q.root, q.offs + ('len',)), (q.root, q.offs + (0,))
    ln, cur = getcell_mem(v.st.mem, kl), getcell_mem(v.st.mem, ke)
    tot = nb if packs is None else nb * packs
    who = le(0, IDX[0]) * lt(IDX[0], n)
    b = IDX[1] - ln
    new = share(b, IDX[0], lambda i: v.rndval(g, c0 + b * D + i))
    v.st.mem[ke] = ite(who * le(ln, IDX[1]) * lt(IDX[1], ln + tot), new, cur)
    v.st.mem[kl] = ln + who * tot
    v.setrnd(g, c0 + tot * D)


@con('fiprep', K + '::GenIndShrsPartiesSend()', [K + '*'], pre=thr)
def _(v):
    t = TV(v, K)
    n, k = t.g('mParties'), t.g('mBatchSize')
    d = n - k
    dealing(v, t.g('mNIndShrs'), d - k + 2, lambda b, p, r: lagrange(
        p + 1, lambda i: ite(lt(i, k), -i, i - k + 1), lambda i: ite(lt(i, k), r(ZERO), r(i - k + 1)), d + 1))


@con('fiprep', K + '::GenZeroPartiesSend()', [K + '*'], pre=thr)
def _(v):
    t = TV(v, K)
    n, k = t.g('mParties'), t.g('mBatchSize')
    dealing(v, 3 * t.g('mNMultBatches') + t.g('mNInOutBatches'), n - k, lambda b, p, r: lagrange(
        p + 1, lambda i: ite(lt(i, k), -i, i - k + 1), lambda i: ite(lt(i, k), ZERO, r(i - k)), n))

def extract(v, block, j, src):
    """the j-th randomness-extracted sharing of a block: dot product with the Vandermonde matrix"""
    t = TV(v, K)
    M = t.fp('mVandermonde')
    return Sum(t.g('mParties'), lambda p: v.el(M, p, j) * src(p, block))


def vdm(v):
    """the matrix the parties extract randomness with: row i holds the powers of i"""
    t = TV(v, K)
    n, th = t.g('mParties'), t.g('mThreshold')
    return [T.eq(v.len(t.fp('mVandermonde')), n), All(n, lambda i: T.eq(v.len(t.fp('mVandermonde').elem(i)), th + 1))]


@con('fiprep', K + '::GenIndShrsPartiesReceive()', [K + '*'], pre=lambda v: thr(v) + vdm(v) + [T.eq(v.len(v.fld(v.args[0], K, 'mIndShrs')), 0)])
def _(v):
    t = TV(v, K)
    th, n = t.g('mThreshold'), t.g('mParties')
    nb = blocks(t, t.g('mNIndShrs'))
    ch = Chans(v, K, v.args[0])
    q = t.fp('mIndShrs')
    v.setlen(q, nb * (th + 1))
    i = IDX[0]
    b = idiv(i, th + 1)
    v.st.mem[(q.root, q.offs + (0,))] = ite(le(0, i) * lt(i, nb * (th + 1)), extract(v, b, i - b * (th + 1), lambda p, bb: ch.recv(p, bb)), v.el(q, i))
    ch.recvs(ZERO, n, nb)


def small(v):
    """party numbers and slots are small integers, so FF(-i) is the slot"""
    t = TV(v, K)
    return [lt(t.g('mBatchSize'), const(1 << 31))]



@con('fiprep', K + '::GenUnpackedShrPartiesSend()', [K + '*'], pre=lambda v: thr(v) + small(v))
def _(v):
    t = TV(v, K)
    th = t.g('mThreshold')
    nb = blocks(t, 3 * t.g('mNMultBatches'))
    dealing(v, 3 * t.g('mNMultBatches'), th + 1, lambda b, p, r: lagrange(
        p + 1, lambda i: ite(T.eq(i, 0), -idiv(b, nb), i), lambda i: r(i), th + 1), packs=t.g('mBatchSize'))


@con('fiprep', K + '::GenZeroForProdPartiesSend()', [K + '*'], pre=lambda v: thr(v) + small(v))
def _(v):
    t = TV(v, K)
    n = t.g('mParties')
    nb = blocks(t, t.g('mNMultBatches'))
    dealing(v, t.g('mNMultBatches'), n - 1, lambda b, p, r: lagrange(
        p + 1, lambda i: ite(T.eq(i, 0), -idiv(b, nb), i), lambda i: ite(T.eq(i, 0), ZERO, r(i - 1)), n), packs=t.g('mBatchSize'))


@con('fiprep', K + '::GenZeroForProdPartiesReceive()', [K + '*'], pre=lambda v: thr(v) + vdm(v) + [T.eq(v.len(v.fld(v.args[0], K, 'mZeroProdShrs')), 0)])
def _(v):
    t = TV(v, K)
    th, n, k = t.g('mThreshold'), t.g('mParties'), t.g('mBatchSize')
    nb = blocks(t, t.g('mNMultBatches'))
    ch = Chans(v, K, v.args[0])
    q = t.fp('mZeroProdShrs')
    v.setlen(q, k)
    i, j = IDX[0], IDX[1]
    row = q.elem(i)
    v.st.mem[(row.root, row.offs + ('len',))] = nb * (th + 1)
    b = idiv(j, th + 1)
    v.st.mem[(row.root, row.offs + (0,))] = extract(v, b, j - b * (th + 1), lambda p, bb: ch.recv(p, i * nb + bb))
    ch.recvs(ZERO, n, nb * k)


def rows(v, name, m):
    """one row per slot, each with at least m entries"""
    t = TV(v, K)
    q, k = t.fp(name), t.g('mBatchSize')
    return [T.eq(v.len(q), k), All(k, lambda i: le(m, v.len(q.elem(i))))]


@con('fiprep', K + '::GenProdPartiesSendP1()', [K + '*'],
     pre=lambda v: sum([rows(v, x, TV(v, K).g('mNMultBatches')) for x in ('mUnpackedShrsA', 'mUnpackedShrsB', 'mUnpackedShrsMask', 'mZeroProdShrs')], []))
def _(v):
    t = TV(v, K)
    M, k = t.g('mNMultBatches'), t.g('mBatchSize')
    x = lambda nm, p, b: v.el(t.fp(nm), p, b)
    ch = Chans(v, K, v.args[0])
    q = ch.c(ZERO).plus(1024)
    from ..exec import getcell_mem
    kl, ke = (q.root, q.offs + ('len',)), (q.root, q.offs + (0,))
    ln, cur = getcell_mem(v.st.mem, kl), getcell_mem(v.st.mem, ke)
    who = T.eq(IDX[0], 0)
    i = IDX[1] - ln
    p = idiv(i, M)
    b = i - p * M
    val = x('mUnpackedShrsA', p, b) * x('mUnpackedShrsB', p, b) + x('mUnpackedShrsMask', p, b) + x('mZeroProdShrs', p, b)
    v.st.mem[ke] = ite(who * le(ln, IDX[1]) * lt(IDX[1], ln + M * k), val, cur)
    v.st.mem[kl] = ln + who * M * k


@con('fiprep', K + '::GenProdP1ReceivesAndSends()', [K + '*'], pre=lambda v: thr(v) + small(v))
def _(v):
    t = TV(v, K)
    M, k, n, th = t.g('mNMultBatches'), t.g('mBatchSize'), t.g('mParties'), t.g('mThreshold')
    ch = Chans(v, K, v.args[0])
    p1 = T.eq(t.g('mID'), 0)
    q = ch.c(IDX[0]).plus(1024)
    from ..exec import getcell_mem
    kl, ke = (q.root, q.offs + ('len',)), (q.root, q.offs + (0,))
    ln, cur = getcell_mem(v.st.mem, kl), getcell_mem(v.st.mem, ke)
    who = p1 * le(th, IDX[0]) * lt(IDX[0], n)
    i = IDX[1] - ln
    slot = idiv(i, M)
    sec = lagrange(-slot, lambda j: j + 1, lambda j: ch.recv(j, i), n)
    val = lagrange(IDX[0] + 1, lambda j: ite(T.eq(j, 0), -slot, j), lambda j: ite(T.eq(j, 0), sec, ZERO), th + 1)
    v.st.mem[ke] = ite(who * le(ln, IDX[1]) * lt(IDX[1], ln + M * k), val, cur)
    v.st.mem[kl] = ln + who * M * k
    ch.recvs(ZERO, p1 * n, M * k)


@con('fiprep', K + '::GenProdPartiesReceive()', [K + '*'],
     pre=lambda v: rows(v, 'mUnpackedShrsMask', TV(v, K).g('mNMultBatches')) + [T.eq(v.len(v.fld(v.args[0], K, 'mMultBatchFIPrep')), TV(v, K).g('mNMultBatches')),
                                                                           T.eq(v.len(v.fld(v.args[0], K, 'mSharesOfEi')), TV(v, K).g('mBatchSize'))])
def _(v):
    t = TV(v, K)
    M, k, th = t.g('mNMultBatches'), t.g('mBatchSize'), t.g('mThreshold')
    ch = Chans(v, K, v.args[0])
    gets = le(th, t.g('mID'))
    e = lambda p: v.el(t.fp('mSharesOfEi'), p)
    i = IDX[0]
    prod = lambda p: ite(gets, ch.recv(ZERO, p * M + i), ZERO) - v.el(t.fp('mUnpackedShrsMask'), p, i)
    c = v.fld(t.fp('mMultBatchFIPrep').elem(i), 'tp::MultBatchFIPrep', 'mShrC')
    fam(v, c, le(0, i) * lt(i, M), rdf(v, c) + Sum(k, lambda p: e(p) * prod(p)))
    ch.took(ZERO, gets * M * k)


def mixed(v, g, src):
    """the g-th extracted sharing of a run of dealings"""
    th = TV(v, K).g('mThreshold')
    b = idiv(g, th + 1)
    return extract(v, b, g - b * (th + 1), src)


UNP = ('mUnpackedShrsA', 'mUnpackedShrsB', 'mUnpackedShrsMask')


def unpacked_hints(v):
    t = TV(v, K)
    c = t.g('mThreshold') + 1
    M, k = t.g('mNMultBatches'), t.g('mBatchSize')
    nb = blocks(t, 3 * M)
    ch = Chans(v, K, v.args[0])
    i, j = IDX[0], IDX[1]
    out = {}

    def mk(w, q):
        def length(ks, init):
            if len(ks) not in (2, 3):
                return None
            n = c * ks[1] + (ks[2] if len(ks) > 2 else ZERO) - w * M
            return ite(T.eq(i, ks[0]), ite(ge0(n), ite(le(n, M), n, M), ZERO), init)

        def elem(ks, init):
            if len(ks) not in (2, 3):
                return None
            n = c * ks[1] + (ks[2] if len(ks) > 2 else ZERO) - w * M
            new = mixed(v, w * M + j, lambda p, bb: ch.recv(p, ks[0] * nb + bb))
            return ite(T.eq(i, ks[0]) * le(0, j) * lt(j, n) * lt(j, M), new, init)
        row = q.elem(i)
        out[row.root, row.offs + ('len',)] = length
        out[row.root, row.offs + (0,)] = elem
    for w, nm in enumerate(UNP):
        mk(w, t.fp(nm))
    return out


@con('fiprep', K + '::GenUnpackedShrPartiesReceive()', [K + '*'], hints=unpacked_hints,
     pre=lambda v: thr(v) + vdm(v) + [T.eq(v.len(v.fld(v.args[0], K, x)), 0) for x in UNP + ('mMultBatchFIPrep',)] + [T.eq(v.len(v.fld(v.args[0], K, 'mSharesOfEi')), TV(v, K).g('mBatchSize'))])
def _(v):
    t = TV(v, K)
    n, k, M = t.g('mParties'), t.g('mBatchSize'), t.g('mNMultBatches')
    nb = blocks(t, 3 * M)
    ch = Chans(v, K, v.args[0])
    i, j = IDX[0], IDX[1]
    val = lambda c, p, x: mixed(v, c * M + x, lambda q, bb: ch.recv(q, p * nb + bb))
    for c, nm in enumerate(UNP):
        q = t.fp(nm)
        v.setlen(q, k)
        row = q.elem(i)
        v.st.mem[(row.root, row.offs + ('len',))] = M
        v.st.mem[(row.root, row.offs + (0,))] = val(c, i, j)
    q = t.fp('mMultBatchFIPrep')
    v.setlen(q, M)
    e = lambda p: v.el(t.fp('mSharesOfEi'), p)
    for f in MF:
        d = v.fld(q.elem(i), 'tp::MultBatchFIPrep', f)
        x = {'mShrA': Sum(k, lambda p: e(p) * val(0, p, i)), 'mShrB': Sum(k, lambda p: e(p) * val(1, p, i))}.get(f, ZERO)
        v.st.mem[(d.root, d.offs)] = x
    ch.recvs(ZERO, n, nb * k)


def zero_hints(v):
    t = TV(v, K)
    c = t.g('mThreshold') + 1
    M = t.g('mNMultBatches')
    q = t.fp('mIOBatchFIPrep')
    ch = Chans(v, K, v.args[0])
    d = v.fld(q.elem(IDX[0]), 'tp::IOBatchFIPrep', 'mShrO')

    def done(ks):
        return c * ks[0] + (ks[1] if len(ks) > 1 else ZERO)

    def length(ks, init):
        n = done(ks) - 3 * M
        return ite(ge0(n), n, ZERO) if len(ks) <= 2 else None

    def elem(ks, init):
        if len(ks) > 2:
            return None
        n = length(ks, init)
        return ite(lt(IDX[0], n) * le(0, IDX[0]), mixed(v, 3 * M + IDX[0], lambda p, bb: ch.recv(p, bb)), init)
    return {(q.root, q.offs + ('len',)): length, (d.root, d.offs): elem}


@con('fiprep', K + '::GenZeroPartiesReceive()', [K + '*'], hints=zero_hints,
     pre=lambda v: thr(v) + vdm(v) + [T.eq(v.len(v.fld(v.args[0], K, 'mIOBatchFIPrep')), 0), T.eq(v.len(v.fld(v.args[0], K, 'mMultBatchFIPrep')), TV(v, K).g('mNMultBatches'))])
def _(v):
    t = TV(v, K)
    n, M, th = t.g('mParties'), t.g('mNMultBatches'), t.g('mThreshold')
    nb = blocks(t, 3 * M + t.g('mNInOutBatches'))
    ch = Chans(v, K, v.args[0])
    i = IDX[0]
    val = lambda x: mixed(v, x, lambda q, bb: ch.recv(q, bb))
    q = t.fp('mMultBatchFIPrep')
    for c, f in enumerate(('mShrO1', 'mShrO2', 'mShrO3')):
        d = v.fld(q.elem(i), 'tp::MultBatchFIPrep', f)
        fam(v, d, le(0, i) * lt(i, M), val(c * M + i))
    q = t.fp('mIOBatchFIPrep')
    v.setlen(q, nb * (th + 1) - 3 * M)
    d = v.fld(q.elem(i), 'tp::IOBatchFIPrep', 'mShrO')
    v.st.mem[(d.root, d.offs)] = val(3 * M + i)
    ch.recvs(ZERO, n, nb)



for _g in ('threshold', 'corr', 'handout', 'fdprep', 'fiprep'):
    WORLDS[_g] = wtp
