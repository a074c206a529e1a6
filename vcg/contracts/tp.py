"""Gates, batches and the online phase.

A gate's observable is what its virtual functions return.  A call through the vtable is used under the
contract `virtual tp::Gate::X`: it returns X(g), a function of the gate alone, or throws when X(g) is
not known; every overrider in the source is verified against that contract, relative to its parents."""
from .lib import *
from ..world import World
from ..exec import Ptr, vite, read_key, write_key, Unsupported, IDX
import re


def wtp(env):
    key = 'Wtpw'
    if key not in env.worlds:
        m, lay = env.module('tp61', ['tp', 'tu:tp'])
        w = World(m, lay)
        size, f = lay.rec['scl::Channel']
        lay.rec['scl::Channel'] = (size, list(f) + [(1024, 'std::vector<FF61>', '$out'), (2048, 'std::vector<FF61>', '$in'), (4096, 'u64', '$pos')])
        install(w)
        from . import ss
        for c in GROUPS['packed']:          # verified in their own right; callers here use the contract
            w.contracts[c.name] = c
        env.worlds[key] = w
    return env.worlds[key]


# ---------------------------------------------------------------- ghost state of gates and channels
def gfun(w, name, p):
    return T.app('gate.' + name, w.addr(p))


def gknown(w, name, p):
    return T.boolapp('gate.%s.known' % name, w.addr(p))


CH = 'scl::Channel'


def chan_send(w, st, p, val):
    q = p.plus(1024)
    n = read_key(st, q.root, q.offs + ('len',), q.idx)
    e = q.elem(n)
    write_key(st, e.root, e.offs, e.idx, val)
    write_key(st, q.root, q.offs + ('len',), q.idx, n + 1)


def chan_recv(w, st, p):
    q, pos = p.plus(2048), p.plus(4096)
    n = read_key(st, pos.root, pos.offs, pos.idx)
    e = q.elem(n)
    write_key(st, pos.root, pos.offs, pos.idx, n + 1)
    return read_key(st, e.root, e.offs, e.idx)


VIRT = {'GetMu()': 'mu', 'GetDummyLambda()': 'lambda', 'GetIndvShrLambda()': 'indv', 'GetDn07Share()': 'dn07', 'GetClear()': 'clear'}


def install(w):
    for m, nm in VIRT.items():
        def spec(v, nm=nm):
            g = v.args[0]
            v.throws(bnot(gknown(v.w, nm, g)), 'std::invalid_argument')
            v.ret = gfun(v.w, nm, g)
        w.contracts['virtual tp::Gate::' + m] = Contract('virtual tp::Gate::' + m, [], spec)

    def add(rx, f):
        w.models.insert(0, (re.compile(rx + '$'), f))

    def send(c):
        st = c.own()
        chan_send(c.w, st, c.args[0], c.F(c.args[1]))
        return st, None

    def recv(c):
        st = c.own()
        v = chan_recv(c.w, st, c.args[0])
        p = c.args[1]
        write_key(st, p.root, p.offs, p.idx, v)
        return st, None
    from .dn07 import install_queue
    install_queue(w)
    # generators: their internal state is not observed here
    add(r'scl::PRG::PRG\(.*\)', lambda c: (c.st, None))
    add(r'void scl::Channel::Send<FF61, true>\(FF61 const&\)', send)
    add(r'void scl::Channel::Recv<FF61, true>\(FF61&\)', recv)


class TV:
    """accessors shared by the contracts"""
    def __init__(self, v, cls, p=None):
        self.v, self.cls, self.p = v, cls, p if p is not None else v.args[0]

    def fp(self, *names):
        return self.v.fld(self.p, self.cls, *names)

    def g(self, *names):
        return self.v.rd(self.p, self.cls, *names)

    def set(self, name, val):
        self.v.set(self.fp(name), val)


def spf(v, p):
    """target of the shared_ptr / pointer cell at p (pre-state)"""
    return read_key(v.pre, p.root, p.offs, p.idx)


def channel(v, cls, p, i):
    """the channel to party i of the object's network"""
    net = spf(v, v.fld(p, cls, 'mNetwork'))
    ch = v.fld(net, 'scl::Network', 'mChannels')
    return spf(v, ch.elem(i))


class Chans:
    """ghost channels as one family over the party index"""
    def __init__(self, v, cls, p):
        self.v = v
        c = channel(v, cls, p, sym('ch!'))
        self.root = c.root
        self.c = lambda i: channel(v, cls, p, i)

    def sent0(self, i):
        q = self.c(i).plus(1024)
        return read_key(self.v.pre, q.root, q.offs + ('len',), q.idx)

    def recv(self, i, k=0):
        """k-th element received from now on on channel i"""
        pos, q = self.c(i).plus(4096), self.c(i).plus(2048)
        n = read_key(self.v.pre, pos.root, pos.offs, pos.idx)
        e = q.elem(n + k)
        return read_key(self.v.pre, e.root, e.offs, e.idx)

    def _wr(self, p, guard, newval):
        """cell family p(i) (a function from index to pointer): where guard(i) holds becomes newval(i, old)"""
        from ..exec import getcell_mem
        q = p(IDX[0])
        key = (q.root, q.offs)
        old = getcell_mem(self.v.st.mem, key)
        return key, old

    def sends(self, lo, hi, vals):
        """for lo <= i < hi: channel i gets the values vals(i) (list) appended"""
        from ..exec import getcell_mem, vite
        v = self.v
        q = self.c(IDX[0]).plus(1024)
        assert list(q.idx) == [IDX[0]], q
        g = le(lo, IDX[0]) * lt(IDX[0], hi)
        kl = (q.root, q.offs + ('len',))
        n = getcell_mem(v.st.mem, kl)
        ke = (q.root, q.offs + (0,))
        cur = getcell_mem(v.st.mem, ke)
        vs = vals(IDX[0])
        for j, x in enumerate(vs):
            cur = ite(g * T.eq(IDX[1], n + j), x, cur)
        v.st.mem[ke] = cur
        v.st.mem[kl] = n + g * len(vs)

    def send(self, i, val):
        chan_send(self.v.w, self.v.st, self.c(i), val)

    def send_if(self, c, i, val):
        st = self.v.st
        q = self.c(i).plus(1024)
        n = read_key(st, q.root, q.offs + ('len',), q.idx)
        e = q.elem(n)
        write_key(st, e.root, e.offs, e.idx, ite(c, val, read_key(st, e.root, e.offs, e.idx)))
        write_key(st, q.root, q.offs + ('len',), q.idx, n + c)

    def recvs(self, lo, hi, cnt=1):
        from ..exec import getcell_mem
        v = self.v
        q = self.c(IDX[0]).plus(4096)
        k = (q.root, q.offs)
        v.st.mem[k] = getcell_mem(v.st.mem, k) + le(lo, IDX[0]) * lt(IDX[0], hi) * cnt

    def took(self, i, cnt=1):
        pos = self.c(i).plus(4096)
        n = read_key(self.v.st, pos.root, pos.offs, pos.idx)
        write_key(self.v.st, pos.root, pos.offs, pos.idx, n + cnt)


INV = 'std::invalid_argument'
GATES = {'mu': ('mLearned', 'mMu'), 'lambda': ('mLambdaSet', 'mLambda'), 'indv': ('mIndvShrLambdaCSet', 'mIndvShrLambdaC'),
         'dn07': ('mDn07Set', 'mDn07Share'), 'clear': ('mEvaluated', 'mClear')}


def gate_field(v, cls, nm):
    """value field of observable nm in class cls (a derived class may shadow the field of Gate)"""
    return v.fld(v.args[0], cls, GATES[nm][1])


def vslot(w, cls, method):
    """the function dispatched to when `method` is called on an object of dynamic type cls"""
    vts = w.mod.vtables()
    for c, init in vts.items():
        if 'tp::Gate' not in w.bases(c):
            continue
        for i, e in enumerate(init.ops[0].ops):
            if e.kind == 'func' and e.val.dem.endswith('::' + method):
                return vts[cls].ops[0].ops[i].val
    return None


def gatecon(cls, method):
    """contract of what a virtual call does on an object of class cls, whichever function implements it"""
    def d(f):
        con('gates', 'tp::%s::%s' % (cls, method), ['tp::%s*' % cls])(f)
        LIB['tp::%s::%s' % (cls, method)].resolve = lambda w: vslot(w, 'tp::' + cls, method)
        return f
    return d


def leafgate(cls, method, nm):
    """returns the stored value, throws when it has not been set"""
    @gatecon(cls, method)
    def _(v):
        t = TV(v, 'tp::' + cls)
        v.throws(bnot(t.g(GATES[nm][0])), INV)
        v.ret = t.g(GATES[nm][1])


def memogate(cls, method, nm, f, parents):
    """memoised function of the parents' values"""
    @gatecon(cls, method)
    def _(v):
        t = TV(v, 'tp::' + cls)
        known, val = t.g(GATES[nm][0]), t.g(GATES[nm][1])
        ps = [spf(v, t.fp(x)) for x in parents]
        bad = ZERO
        for p in ps:
            bad = bor(bad, bnot(gknown(v.w, nm, p)))
        v.throws(bnot(known) * bad, INV)
        new = f(*[gfun(v.w, nm, p) for p in ps])
        r = ite(known, val, new)
        v.set(t.fp(GATES[nm][1]), r)
        v.set(t.fp(GATES[nm][0]), ONE)
        v.ret = r


def zerogate(cls, method):
    @gatecon(cls, method)
    def _(v):
        v.ret = ZERO


LR = ('mLeft', 'mRight')
for m, nm in (('GetMu()', 'mu'), ('GetDummyLambda()', 'lambda'), ('GetIndvShrLambda()', 'indv'), ('GetDn07Share()', 'dn07')):
    leafgate('MultGate', m, nm)
    leafgate('InputGate', m, nm)
leafgate('InputGate', 'GetClear()', 'clear')
memogate('MultGate', 'GetClear()', 'clear', lambda a, b: a * b, LR)
for m, nm in VIRT.items():
    memogate('AddGate', m, nm, lambda a, b: a + b, LR)
    memogate('OutputGate', m, nm, lambda a: a, LR[:1])
for cls, ms in (('PadMultGate', ('GetMu()', 'GetDummyLambda()')), ('PadInputGate', ('GetMu()', 'GetDummyLambda()', 'GetIndvShrLambda()')),
                ('PadOutputGate', ('GetMu()', 'GetDummyLambda()'))):
    for m in ms:
        zerogate(cls, m)


class Closed:
    """the classes derived from Gate are the ones under contract"""
    name = 'tp::Gate (overriders)'

    def obligations(self, env):
        w = wtp(env)
        ds = {c[4:] for c in w.mod.vtables() if 'tp::Gate' in w.bases(c)} - {'Gate'}
        known = {'MultGate', 'InputGate', 'AddGate', 'OutputGate', 'PadMultGate', 'PadInputGate', 'PadOutputGate'}
        return [Ob(self.name, 'closed', True if ds <= known else None, '' if ds <= known else 'unknown gate classes %s' % sorted(ds - known))]


GROUPS['gates'].append(Closed())


# ---------------------------------------------------------------- batches and the online phase
def free_index(p):
    """the index variable of the family a pointer belongs to, its last index"""
    return IDX[len(p.idx) - 1]


def fam_at(v, q, guard, val):
    """the cells q (a pointer whose last index is the family's index variable) become val where guard holds"""
    from ..exec import getcell_mem
    n = len(q.idx) - 1
    assert q.idx[n] == IDX[n], q
    for e in range(n):
        if q.idx[e] is not IDX[e]:
            guard = guard * T.eq(IDX[e], q.idx[e])
    k = (q.root, q.offs)
    v.st.mem[k] = ite(guard, val, getcell_mem(v.st.mem, k))


def B(name):
    return 'tp::%s' % name


@con('batches', 'tp::MultBatch::PartiesSend()', ['tp::MultBatch*'])
def _(v):
    t = TV(v, 'tp::MultBatch')
    ma, mb, la, lb, d = [t.g(x) for x in ('mPackedShrMuA', 'mPackedShrMuB', 'mPackedShrLambdaA', 'mPackedShrLambdaB', 'mPackedShrDeltaC')]
    Chans(v, 'tp::MultBatch', t.p).send(ZERO, mb * la + ma * lb + ma * mb + d)


@con('batches', 'tp::MultBatch::PartiesReceive()', ['tp::MultBatch*'])
def _(v):
    t = TV(v, 'tp::MultBatch')
    ch = Chans(v, 'tp::MultBatch', t.p)
    t.set('mPackedShrMuA', ch.recv(ZERO, 0))
    t.set('mPackedShrMuB', ch.recv(ZERO, 1))
    ch.took(ZERO, 2)


def mbgates(v, t, field='mMultGatesPtrs'):
    q = t.fp(field)
    return v.len(q), lambda i: spf(v, q.elem(i))


def parent(v, g, which):
    return spf(v, v.fld(g, 'tp::Gate', which))


def packed_points(i):
    return -i


@con('batches', 'tp::MultBatch::P1Sends()', ['tp::MultBatch*'],
     pre=lambda v: [T.eq(mbgates(v, TV(v, 'tp::MultBatch'))[0], TV(v, 'tp::MultBatch').g('mBatchSize')), le(1, TV(v, 'tp::MultBatch').g('mBatchSize'))])
def _(v):
    t = TV(v, 'tp::MultBatch')
    n, gate = mbgates(v, t)
    P, isp1 = t.g('mParties'), T.eq(t.g('mID'), 0)
    ok = All(n, lambda j: gknown(v.w, 'mu', parent(v, gate(j), 'mLeft')) * gknown(v.w, 'mu', parent(v, gate(j), 'mRight')))
    v.throws(isp1 * bnot(ok), INV)
    v.throws(isp1 * bnot(distinct(packed_points, n)) * le(1, P), 'std::logic_error')
    X = packed_points
    share = lambda which: lambda i: lagrange(i + 1, X, lambda j: gfun(v.w, 'mu', parent(v, gate(j), which)), n)
    Chans(v, 'tp::MultBatch', t.p).sends(ZERO, isp1 * P, lambda i: [share('mLeft')(i), share('mRight')(i)])


@con('batches', 'tp::MultBatch::P1Receives()', ['tp::MultBatch*'],
     pre=lambda v: [T.eq(mbgates(v, TV(v, 'tp::MultBatch'))[0], TV(v, 'tp::MultBatch').g('mBatchSize')), le(1, TV(v, 'tp::MultBatch').g('mBatchSize')),
                    le(1, TV(v, 'tp::MultBatch').g('mParties'))])
def _(v):
    t = TV(v, 'tp::MultBatch')
    n, gate = mbgates(v, t)
    P, isp1 = t.g('mParties'), T.eq(t.g('mID'), 0)
    ch = Chans(v, 'tp::MultBatch', t.p)
    X = lambda i: i + 1
    v.throws(isp1 * bnot(distinct(X, P)), 'std::logic_error')
    i = free_index(gate(sym('i?')))
    for f, val in (('mMu', lagrange(-i, X, lambda j: ch.recv(j), P)), ('mLearned', ONE)):
        fam_at(v, v.fld(gate(i), 'tp::Gate', f), isp1 * le(0, i) * lt(i, n), val)
    ch.recvs(ZERO, isp1 * P)



# ---------------------------------------------------------------- small members
def setter(fn, types, f, group='gates'):
    cls = 'tp::' + fn.split('::')[0]

    @con(group, 'tp::' + fn, [cls + '*'] + types)
    def _(v):
        f(v, TV(v, cls))


def sets(**kw):
    """kw: field = argument index or constant"""
    def f(v, t):
        for k, x in kw.items():
            t.set(k, x if isinstance(x, type(ONE)) else v.args[x])
    return f


def getter(fn, field, group='gates', ptr=False):
    cls = 'tp::' + fn.split('::')[0]

    @con(group, 'tp::' + fn, [cls + '*'])
    def _(v):
        t = TV(v, cls)
        v.ret = t.g(field)


setter('MultGate::SetDummyLambda(FF61)', ['F'], sets(mLambda=1, mLambdaSet=ONE))
setter('MultGate::SetIndvShrLambda(FF61)', ['F'], sets(mIndvShrLambdaC=1, mIndvShrLambdaCSet=ONE))
setter('Gate::SetDn07Share(FF61)', ['F'], sets(mDn07Share=1, mDn07Set=ONE))
setter('Gate::_SetDummyMu(FF61)', ['F'], sets(mMu=1, mLearned=ONE))
setter('InputGate::ClearInput(FF61)', ['F'], sets(mClear=1, mEvaluated=ONE))
setter('InputGate::SetLambda(FF61)', ['F'], sets(mLambda=1, mLambdaSet=ONE))
setter('InputGate::SetIndvShrLambda(FF61)', ['F'], sets(mIndvShrLambdaC=1, mIndvShrLambdaCSet=ONE))
setter('OutputGate::SetLambda(FF61)', ['F'], sets(mLambda=1, mLambdaSet=ONE))
getter('InputGate::GetOwner()', 'mOwnerID')
getter('OutputGate::GetOwner()', 'mOwnerID')
getter('InputGate::GetValue()', 'mValue')
getter('OutputGate::GetValue()', 'mValue')
getter('Gate::IsPadding()', 'mIsPadding')
getter('Gate::IsLearned()', 'mLearned')
getter('Gate::IsEvaluated()', 'mEvaluated')


def owner_only(field, arg):
    def f(v, t):
        t.set(field, ite(T.eq(t.g('mID'), t.g('mOwnerID')), v.args[arg], t.g(field)))
    return f


setter('InputGate::SetInput(FF61)', ['F'], owner_only('mValue', 1))
for k in ('Input', 'Output'):
    setter(k + 'Gate::_DummyPrep(FF61)', ['F'], owner_only('mLambda', 1), 'batches')


# input: the owner sends input minus mask, P1 learns it; output: P1 sends mu, the owner adds the mask
@con('batches', 'tp::InputGate::OwnerSendsP1()', ['tp::InputGate*'])
def _(v):
    t = TV(v, 'tp::InputGate')
    Chans(v, t.cls, t.p).send_if(T.eq(t.g('mID'), t.g('mOwnerID')), ZERO, t.g('mValue') - t.g('mLambda'))


@con('batches', 'tp::InputGate::P1Receives()', ['tp::InputGate*'])
def _(v):
    t = TV(v, 'tp::InputGate')
    isp1 = T.eq(t.g('mID'), 0)
    ch = Chans(v, t.cls, t.p)
    t.set('mMu', ite(isp1, ch.recv(t.g('mOwnerID')), t.g('mMu')))
    t.set('mLearned', ite(isp1, ONE, t.g('mLearned')))
    ch.took(t.g('mOwnerID'), isp1)


@con('batches', 'tp::OutputGate::P1SendsMu()', ['tp::OutputGate*'])
def _(v):
    t = TV(v, 'tp::OutputGate')
    isp1 = T.eq(t.g('mID'), 0)
    v.throws(isp1 * bnot(gknown(v.w, 'mu', t.p)), INV)
    Chans(v, t.cls, t.p).send_if(isp1, t.g('mOwnerID'), gfun(v.w, 'mu', t.p))


@con('batches', 'tp::OutputGate::OwnerReceivesMu()', ['tp::OutputGate*'])
def _(v):
    t = TV(v, 'tp::OutputGate')
    own = T.eq(t.g('mID'), t.g('mOwnerID'))
    ch = Chans(v, t.cls, t.p)
    t.set('mValue', ite(own, t.g('mLambda') + ch.recv(ZERO), t.g('mValue')))
    ch.took(ZERO, own)


# preprocessing shares of a batch
GP = {'Mult': 'mMultGatesPtrs', 'Input': 'mInputGatesPtrs', 'Output': 'mOutputGatesPtrs'}


def polyshare(v, x, n, vals):
    """share of the polynomial of degree n-1 through vals(j) at -j, at point x"""
    return lagrange(x, packed_points, vals, n)


def batchpre(cls, field):
    def pre(v):
        t = TV(v, cls)
        return [T.eq(v.len(t.fp(field)), t.g('mBatchSize')), le(1, t.g('mBatchSize'))]
    return pre


@con('batches', 'tp::MultBatch::PrepFromDummyLambdas()', ['tp::MultBatch*'], pre=batchpre('tp::MultBatch', GP['Mult']))
def _(v):
    t = TV(v, 'tp::MultBatch')
    n, gate = mbgates(v, t)
    lam = lambda p: gfun(v.w, 'lambda', p)
    kn = lambda p: gknown(v.w, 'lambda', p)
    L, R = (lambda j: parent(v, gate(j), 'mLeft')), (lambda j: parent(v, gate(j), 'mRight'))
    v.throws(bnot(All(n, lambda j: kn(L(j)) * kn(R(j)) * kn(gate(j)))), INV)
    v.throws(bnot(distinct(packed_points, n)), 'std::logic_error')
    x = t.g('mID') + 1
    t.set('mPackedShrLambdaA', polyshare(v, x, n, lambda j: lam(L(j))))
    t.set('mPackedShrLambdaB', polyshare(v, x, n, lambda j: lam(R(j))))
    t.set('mPackedShrDeltaC', polyshare(v, x, n, lambda j: lam(L(j)) * lam(R(j)) - lam(gate(j))))


for _k in ('Input', 'Output'):
    @con('batches', 'tp::%sBatch::PrepFromDummyLambdas()' % _k, ['tp::%sBatch*' % _k],
         pre=lambda v, k=_k: batchpre('tp::%sBatch' % k, GP[k])(v) + [lt(TV(v, 'tp::%sBatch' % k).g('mID'), TV(v, 'tp::%sBatch' % k).g('mParties'))])
    def _(v, k=_k):
        t = TV(v, 'tp::%sBatch' % k)
        n, gate = mbgates(v, t, GP[k])
        lam = lambda p: gfun(v.w, 'lambda', p)
        v.throws(bnot(All(n, lambda j: gknown(v.w, 'lambda', gate(j)))), INV)
        v.throws(bnot(distinct(packed_points, n)), 'std::logic_error')
        t.set('mPackedShrLambda', polyshare(v, t.g('mID') + 1, n, lambda j: lam(gate(j))))


setter('MultBatch::SetPreprocessing(FF61, FF61, FF61)', ['F', 'F', 'F'], sets(mPackedShrLambdaA=1, mPackedShrLambdaB=2, mPackedShrDeltaC=3), 'batches')
for _k in ('Input', 'Output'):
    setter(_k + 'Batch::SetPreprocessing(FF61)', ['F'], sets(mPackedShrLambda=1), 'batches')
    getter(_k + 'Batch::GetPackedShrLambda()', 'mPackedShrLambda', 'batches')
    getter(_k + 'Batch::GetOwner()', 'mOwnerID', 'batches')


@con('batches', 'tp::MultBatch::_DummyPrep(FF61, FF61, FF61)', ['tp::MultBatch*', 'F', 'F', 'F'])
def _(v):
    t = TV(v, 'tp::MultBatch')
    n, gate = mbgates(v, t)
    v.throws(bnot(T.eq(n, t.g('mBatchSize'))), INV)
    t.set('mPackedShrLambdaA', v.args[1])
    t.set('mPackedShrLambdaB', v.args[2])
    t.set('mPackedShrDeltaC', v.args[1] * v.args[2] - v.args[3])


def batchinv(v, k, p):
    """class invariant of a batch: room for one gate at least, never over-full"""
    n, c = v.len(v.fld(p, 'tp::%sBatch' % k, GP[k])), v.rd(p, 'tp::%sBatch' % k, 'mBatchSize')
    return [le(1, c), le(n, c)]


def layerinv(v, k, p):
    """class invariant of a layer under construction: a last batch, and a batch size to open the next one with"""
    q = v.fld(p, 'tp::%sLayer' % k, 'mBatches')
    return [le(1, v.len(q)), le(1, v.rd(p, 'tp::%sLayer' % k, 'mBatchSize'))] + batchinv(v, k, spf(v, q.elem(v.len(q) - 1)))


for _k in ('Mult', 'Input', 'Output'):
    @con('batches', 'tp::%sBatch::HasRoom()' % _k, ['tp::%sBatch*' % _k], pre=lambda v, k=_k: batchinv(v, k, v.args[0]))
    def _(v, k=_k):
        t = TV(v, 'tp::%sBatch' % k)
        v.ret = lt(v.len(t.fp(GP[k])), t.g('mBatchSize'))


def fam(v, p, guard, val):
    """the cells p (a pointer whose index is IDX0..) become val where guard holds"""
    from ..exec import getcell_mem
    k = (p.root, p.offs)
    v.st.mem[k] = vite(guard, val, getcell_mem(v.st.mem, k))


def setnet(v, cls, p, net, id, guard=None):
    size = v.len(v.fld(net, 'scl::Network', 'mChannels'))
    for f, x in (('mNetwork', net), ('mID', id), ('mParties', size)):
        q = v.fld(p, cls, f)
        if guard is None:
            v.set(q, x)
        else:
            fam(v, q, guard, x)


def pushptr(v, vec, val):
    """append the pointer val to a vector of pointers"""
    n = v.len(vec)
    e = vec.elem(n)
    write_key(v.st, e.root, e.offs, e.idx, val)
    v.setlen(vec, n + 1)


GC = {'Mult': 'tp::MultGate', 'Input': 'tp::InputGate', 'Output': 'tp::OutputGate'}
for _k in ('Mult', 'Input', 'Output'):
    @con('batches', 'tp::%sBatch::Append(std::shared_ptr<%s>)' % (_k, GC[_k]), ['tp::%sBatch*' % _k, 'std::shared_ptr<%s>*' % GC[_k]],
         pre=lambda v, k=_k: batchinv(v, k, v.args[0]))
    def _(v, k=_k):
        t = TV(v, 'tp::%sBatch' % k)
        q = t.fp(GP[k])
        g = spf(v, v.args[1])
        full = T.eq(v.len(q), t.g('mBatchSize'))
        v.throws(full, INV)
        if k != 'Mult':
            v.throws(bnot(T.eq(v.rd(g, GC[k], 'mOwnerID'), t.g('mOwnerID'))), INV)
        pushptr(v, q, g)

    @con('batches', 'tp::%sBatch::GetClear()' % _k, ['tp::%sBatch*' % _k])
    def _(v, k=_k):
        t = TV(v, 'tp::%sBatch' % k)
        n, gate = mbgates(v, t, GP[k])
        v.throws(bnot(All(n, lambda j: gknown(v.w, 'clear', gate(j)))), INV)

    @con('batches', 'tp::%sBatch::SetNetwork(std::shared_ptr<scl::Network>, unsigned long)' % _k, ['tp::%sBatch*' % _k, 'std::shared_ptr<scl::Network>*', 'u64'])
    def _(v, k=_k):
        t = TV(v, 'tp::%sBatch' % k)
        net = spf(v, v.args[1])
        setnet(v, t.cls, t.p, net, v.args[2])
        if k != 'Mult':
            n, gate = mbgates(v, t, GP[k])
            setnet(v, GC[k], gate(IDX[0]), net, v.args[2], le(0, IDX[0]) * lt(IDX[0], n))


def layer_setnet(v, k, p, net, id, g, d):
    """the batches (and gates) of the layer p, whose own index is IDX0..IDX(d-1) under guard g"""
    t = TV(v, 'tp::%sLayer' % k, p)
    B = 'tp::%sBatch' % k
    nb, batch = mbgates(v, t, 'mBatches')
    i, j = IDX[d], IDX[d + 1]
    g = g * le(0, i) * lt(i, nb)
    b = batch(i)
    setnet(v, B, b, net, id, g)
    if k != 'Mult':
        q = v.fld(b, B, GP[k])
        setnet(v, GC[k], spf(v, q.elem(j)), net, id, g * le(0, j) * lt(j, v.len(q)))


def newbatch(v, p, B, k, guard, ini, gates):
    def put(q, x):
        write_key(v.st, q.root, q.offs, q.idx, vite(guard, x, read_key(v.st, q.root, q.offs, q.idx)))
    for f, x in ini.items():
        put(v.fld(p, B, f), x)
    q = v.fld(p, B, GP[k])
    n = read_key(v.st, q.root, q.offs + ('len',), q.idx)
    write_key(v.st, q.root, q.offs + ('len',), q.idx, ite(guard, const(len(gates)), n))
    for i, g in enumerate(gates):
        put(q.elem(const(i)), g)


# ---------------------------------------------------------------- layers
for _k in ('Mult', 'Input', 'Output'):
    @con('layers', 'tp::%sLayer::SetNetwork(std::shared_ptr<scl::Network>, unsigned long)' % _k, ['tp::%sLayer*' % _k, 'std::shared_ptr<scl::Network>*', 'u64'])
    def _(v, k=_k):
        net = spf(v, v.args[1])
        setnet(v, 'tp::%sLayer' % k, v.args[0], net, v.args[2])
        layer_setnet(v, k, v.args[0], net, v.args[2], ONE, 0)

    @con('layers', 'tp::%sLayer::ClearEvaluation()' % _k, ['tp::%sLayer*' % _k])
    def _(v, k=_k):
        t = TV(v, 'tp::%sLayer' % k)
        nb, batch = mbgates(v, t, 'mBatches')
        B = 'tp::%sBatch' % k
        def allof(j):
            q = v.fld(batch(j), B, GP[k])
            return All(v.len(q), lambda i: gknown(v.w, 'clear', spf(v, q.elem(i))))
        v.throws(bnot(All(nb, allof)), INV)

    @con('layers', 'tp::%sLayer::GetSize()' % _k, ['tp::%sLayer*' % _k])
    def _(v, k=_k):
        v.ret = v.len(v.fld(v.args[0], 'tp::%sLayer' % k, 'mBatches'))

    @con('layers', 'tp::%sLayer::Append(std::shared_ptr<%s>)' % (_k, GC[_k]), ['tp::%sLayer*' % _k, 'std::shared_ptr<%s>*' % GC[_k]],
         pre=lambda v, k=_k: layerinv(v, k, v.args[0]))
    def _(v, k=_k):
        g = spf(v, v.args[1])
        layer_append(v, k, v.args[0], g, v.rd(g, GC[k], 'mOwnerID') if k != 'Mult' else None)


def layer_append(v, k, p, g, gown):
    t = TV(v, 'tp::%sLayer' % k, p)
    B = 'tp::%sBatch' % k
    nb, batch = mbgates(v, t, 'mBatches')
    last = batch(nb - 1)
    q = v.fld(last, B, GP[k])
    n, cap = v.len(q), v.rd(last, B, 'mBatchSize')
    room = lt(n, cap)
    lcap = t.g('mBatchSize')
    if k != 'Mult':
        v.throws(room * bnot(T.eq(gown, v.rd(last, B, 'mOwnerID'))) + bnot(room) * bor(T.eq(lcap, 0), bnot(T.eq(gown, t.g('mOwnerID')))), INV)
    else:
        v.throws(bnot(room) * T.eq(lcap, 0), INV)
    # room in the last batch: the gate goes there
    e = q.elem(n)
    write_key(v.st, e.root, e.offs, e.idx, vite(room, g, read_key(v.st, e.root, e.offs, e.idx)))
    v.setlen(q, n + room)
    # otherwise it opens a new batch
    b2 = v.new(B)
    ini = {'mBatchSize': lcap}
    if k != 'Mult':
        ini['mOwnerID'] = t.g('mOwnerID')
    newbatch(v, b2, B, k, bnot(room), ini, [g])
    qb = t.fp('mBatches')
    e = qb.elem(nb)
    write_key(v.st, e.root, e.offs, e.idx, vite(bnot(room), b2, read_key(v.st, e.root, e.offs, e.idx)))
    v.setlen(qb, nb + bnot(room))


def lastbatch(v, k, p=None):
    t = TV(v, 'tp::%sLayer' % k, p)
    nb, batch = mbgates(v, t, 'mBatches')
    return t, nb, batch(nb - 1)


def closepre(v, k, p=None):
    t, nb, last = lastbatch(v, k, p)
    r = layerinv(v, k, t.p)
    if k != 'Mult':
        r.append(T.eq(v.rd(last, 'tp::%sBatch' % k, 'mOwnerID'), t.g('mOwnerID')))
    return r


def layer_close(v, k, p):
    t, nb, last = lastbatch(v, k, p)
    B, P = 'tp::%sBatch' % k, 'tp::Pad%sGate' % k
    q = v.fld(last, B, GP[k])
    n, cap = v.len(q), v.rd(last, B, 'mBatchSize')
    pad = v.new(P)
    room = lt(n, cap)
    # the last batch is filled up with one padding gate
    v.setlen(q, ite(room, cap, n))
    i = len(q.idx)
    g = ONE
    for x, y in zip(IDX, q.idx):
        g = g * T.eq(x, y)
    fam(v, q.elem(IDX[i]), g * le(n, IDX[i]) * lt(IDX[i], cap), pad)
    v.set(v.fld(pad, 'tp::Gate', 'mIsPadding'), ONE)
    if k in ('Mult', 'Output'):
        v.set(v.fld(pad, 'tp::Gate', 'mLeft'), pad)
    if k == 'Mult':
        v.set(v.fld(pad, 'tp::Gate', 'mRight'), pad)
    else:
        v.set(v.fld(pad, GC[k], 'mOwnerID'), t.g('mOwnerID'))


for _k in ('Mult', 'Input', 'Output'):
    con('layers', 'tp::%sLayer::Close()' % _k, ['tp::%sLayer*' % _k], pre=lambda v, k=_k: closepre(v, k))(
        lambda v, k=_k: layer_close(v, k, v.args[0]))


# ---------------------------------------------------------------- building a circuit
C = 'tp::Circuit'


def layer_of(v, k, i):
    return v.fld(v.args[0], C, {'Mult': 'mMultLayers', 'Input': 'mInputLayers', 'Output': 'mOutputLayers'}[k]).elem(i)


def nb_pos(v, k, i):
    return layerinv(v, k, layer_of(v, k, i))


for _k in ('Input', 'Output'):
    def iopre(v, k=_k):
        t = TV(v, C)
        o = v.args[1]
        return [lt(o, v.len(t.fp('m%sLayers' % k))), lt(o, v.len(t.fp('mFlat%sGates' % k))), *nb_pos(v, k, o)]

    @con('circuit', 'tp::Circuit::%s(unsigned long%s)' % (_k, ', std::shared_ptr<tp::Gate>' if _k == 'Output' else ''),
         ['sret:std::shared_ptr<%s>' % GC[_k], C + '*', 'u64'] + (['std::shared_ptr<tp::Gate>*'] if _k == 'Output' else []), pre=lambda v, f=iopre: f(CV(v)))
    def _(v0, k=_k):
        v = CV(v0)
        t = TV(v, C)
        o = v.args[1]
        g = v.new(GC[k])
        v.set(v.fld(g, GC[k], 'mOwnerID'), o)
        if k == 'Output':
            v.set(v.fld(g, 'tp::Gate', 'mLeft'), spf(v, v.args[2]))
        layer_append(v, k, layer_of(v, k, o), g, o)
        pushptr(v, t.fp('mFlat%sGates' % k).elem(o), g)
        pushptr(v, t.fp('m%sGates' % k), g)
        v.set(v0.args[0], g)


class CV:
    """view of a member function that returns an object: this is the second IR argument"""
    def __init__(self, v):
        self.__dict__['v'] = v
        self.__dict__['args'] = v.args[1:]

    def __getattr__(self, n):
        return getattr(self.v, n)

    def __setattr__(self, n, x):
        setattr(self.v, n, x)


def multpre(v):
    t = TV(v, C)
    n = v.len(t.fp('mMultLayers'))
    return [le(1, n), le(1, v.len(t.fp('mFlatMultLayers'))), *nb_pos(v, 'Mult', n - 1)]


@con('circuit', 'tp::Circuit::Mult(std::shared_ptr<tp::Gate>, std::shared_ptr<tp::Gate>)',
     ['sret:std::shared_ptr<tp::MultGate>', C + '*', 'std::shared_ptr<tp::Gate>*', 'std::shared_ptr<tp::Gate>*'], pre=lambda v: multpre(CV(v)))
def _(v0):
    v = CV(v0)
    t = TV(v, C)
    n = v.len(t.fp('mMultLayers'))
    g = v.new('tp::MultGate')
    v.set(v.fld(g, 'tp::Gate', 'mLeft'), spf(v, v.args[1]))
    v.set(v.fld(g, 'tp::Gate', 'mRight'), spf(v, v.args[2]))
    layer_append(v, 'Mult', layer_of(v, 'Mult', n - 1), g, None)
    f = t.fp('mFlatMultLayers')
    pushptr(v, f.elem(v.len(f) - 1), g)
    t.set('mSize', t.g('mSize') + 1)
    v.set(v0.args[0], g)


@con('circuit', 'tp::Circuit::Add(std::shared_ptr<tp::Gate>, std::shared_ptr<tp::Gate>)',
     ['sret:std::shared_ptr<tp::AddGate>', C + '*', 'std::shared_ptr<tp::Gate>*', 'std::shared_ptr<tp::Gate>*'])
def _(v0):
    v = CV(v0)
    t = TV(v, C)
    g = v.new('tp::AddGate')
    v.set(v.fld(g, 'tp::Gate', 'mLeft'), spf(v, v.args[1]))
    v.set(v.fld(g, 'tp::Gate', 'mRight'), spf(v, v.args[2]))
    pushptr(v, t.fp('mAddGates'), g)
    v.set(v0.args[0], g)


def finish_layer(v):
    """width, padding and the flat list when the current multiplication layer ends"""
    t = TV(v, C)
    f = t.fp('mFlatMultLayers')
    nf = v.len(f)
    w, cur = t.g('mWidth'), v.len(f.elem(nf - 1))
    t.set('mWidth', ite(lt(w, cur), cur, w))
    e = f.elem(nf)
    write_key(v.st, e.root, e.offs + ('len',), e.idx, ZERO)
    v.setlen(f, nf + 1)
    n = v.len(t.fp('mMultLayers'))
    layer_close(v, 'Mult', layer_of(v, 'Mult', n - 1))


def layerpre(v):
    t = TV(v, C)
    n = v.len(t.fp('mMultLayers'))
    return [le(1, n), le(1, v.len(t.fp('mFlatMultLayers'))), *nb_pos(v, 'Mult', n - 1)]


con('circuit', 'tp::Circuit::LastLayer()', [C + '*'], pre=layerpre)(finish_layer)


@con('circuit', 'tp::Circuit::NewLayer()', [C + '*'], pre=layerpre)
def _(v):
    finish_layer(v)
    t = TV(v, C)
    q = t.fp('mMultLayers')
    n = v.len(q)
    newlayer(v, 'Mult', q.elem(n), t.g('mBatchSize'))
    v.setlen(q, n + 1)


def newlayer(v, k, p, bs, owner=None, guard=None):
    """a layer with one empty batch"""
    L, B = 'tp::%sLayer' % k, 'tp::%sBatch' % k
    b = v.new(B)
    v.set(v.fld(b, B, 'mBatchSize'), bs)
    v.setlen(v.fld(b, B, GP[k]), ZERO)
    v.set(v.fld(p, L, 'mBatchSize'), bs)
    if owner is not None:
        v.set(v.fld(b, B, 'mOwnerID'), owner)
        v.set(v.fld(p, L, 'mOwnerID'), owner)
    q = v.fld(p, L, 'mBatches')
    e = q.elem(ZERO)
    write_key(v.st, e.root, e.offs, e.idx, b)
    v.setlen(q, ONE)
    for f in ('mNetwork', 'mID', 'mParties'):       # set by SetNetwork only
        v.free(v.fld(p, L, f))


def newlayers(v, k, q, n, bs):
    """one layer with one empty batch for each of the n clients"""
    L, B = 'tp::%sLayer' % k, 'tp::%sBatch' % k
    i = IDX[0]
    b = Ptr(v.w.spec_new(B, 0, 1), (0, i, 0))
    def put(p, x, *more):
        v.st.mem[(p.root, p.offs + more)] = x
        if p.root is b.root:        # the objects that exist
            v.freed.append(((p.root, p.offs + more), bnot(le(0, i) * lt(i, n))))
    put(v.fld(b, B, 'mBatchSize'), bs)
    put(v.fld(b, B, 'mOwnerID'), i)
    put(v.fld(b, B, GP[k]), ZERO, 'len')
    v.setlen(q, n)
    p = q.elem(i)
    put(v.fld(p, L, 'mBatchSize'), bs)
    put(v.fld(p, L, 'mOwnerID'), i)
    bq = v.fld(p, L, 'mBatches')
    v.st.mem[(bq.root, bq.offs + ('len',))] = ONE
    e = bq.elem(IDX[1])
    v.st.mem[(e.root, e.offs)] = vite(T.eq(IDX[1], 0), b, v.st.mem.get((e.root, e.offs), NULL))
    for f in ('mNetwork', 'mID', 'mParties'):       # set by SetNetwork only
        v.free(v.fld(p, L, f))


def circuit_new(v, p, n, k, full=True):
    """the circuit without gates: one layer per client for inputs and outputs, one multiplication layer"""
    t = TV(v, C, p)
    newlayers(v, 'Input', t.fp('mInputLayers'), n, k)
    newlayers(v, 'Output', t.fp('mOutputLayers'), n, k)
    for x in ('mFlatInputGates', 'mFlatOutputGates'):
        q = t.fp(x)
        v.setlen(q, n)
        e = q.elem(IDX[0])
        v.st.mem[(e.root, e.offs + ('len',))] = ZERO
    q = t.fp('mMultLayers')
    newlayer(v, 'Mult', q.elem(ZERO), k)
    v.setlen(q, ONE)
    q = t.fp('mFlatMultLayers')
    v.setlen(q, ONE)
    e = q.elem(ZERO)
    write_key(v.st, e.root, e.offs + ('len',), e.idx, ZERO)
    t.set('mIsClosed', ZERO)
    t.set('mIsNetworkSet', ZERO)
    if full:
        t.set('mBatchSize', k)
        t.set('mClients', n)
        t.set('mWidth', ZERO)
        t.set('mSize', ZERO)
        for x in ('mInputGates', 'mOutputGates', 'mAddGates'):
            v.setlen(t.fp(x), ZERO)
        t.set('mNetwork', NULL)
        q, ty = v.w.fieldptr(p, C, 'mCorrelator')
        freeall(v, q, ty)
        for x in ('mID', 'mParties'):
            v.free(t.fp(x))


def freeall(v, q, ty):
    """nothing is said about the object at q"""
    for l in v.w.leaves(ty):
        v.freed.append(((q.root, q.offs[:-1] + (q.offs[-1] + l[0],) + l[1:]), ONE))


EMPTY = ('mInputLayers', 'mOutputLayers', 'mMultLayers', 'mFlatMultLayers', 'mFlatInputGates', 'mFlatOutputGates')
con('circuit', 'tp::Circuit::Init(unsigned long, unsigned long)', [C + '*', 'u64', 'u64'],
    pre=lambda v: [T.eq(v.len(v.fld(v.args[0], C, x)), 0) for x in EMPTY] + [T.eq(v.args[2], v.rd(v.args[0], C, 'mBatchSize'))])(
    lambda v: circuit_new(v, v.args[0], v.args[1], v.args[2], False))
con('circuit', 'tp::Circuit::Circuit(unsigned long, unsigned long)', [C + '*', 'u64', 'u64'])(
    lambda v: circuit_new(v, v.args[0], v.args[1], v.args[2]))


for _m, _f in (('GetDepth', 'mMultLayers'), ('GetNInputs', 'mInputGates'), ('GetNOutputs', 'mOutputGates')):
    con('circuit', 'tp::Circuit::%s()' % _m, [C + '*'])(lambda v, f=_f: setattr(v, 'ret', v.len(v.fld(v.args[0], C, f))))
getter('Circuit::GetWidth()', 'mWidth', 'circuit')
getter('Circuit::GetSize()', 'mSize', 'circuit')
for _k in ('Input', 'Output', 'Mult'):
    @con('circuit', 'tp::Circuit::GetN%sBatches()' % _k, [C + '*'])
    def _(v, k=_k):
        n = v.len(v.fld(v.args[0], C, 'm%sLayers' % k))
        v.ret = Sum(n, lambda i: v.len(v.fld(layer_of(v, k, i), 'tp::%sLayer' % k, 'mBatches')))
for _k in ('In', 'Out'):
    @con('circuit', 'tp::CircuitConfig::ComputeNumberOf%sputs()' % _k, ['tp::CircuitConfig*'])
    def _(v, k=_k):
        q = v.fld(v.args[0], 'tp::CircuitConfig', {'In': 'inp_gates', 'Out': 'out_gates'}[k])
        v.ret = Sum(v.len(q), lambda i: v.el(q, i))


for _k in ('Input', 'Output'):
    def closesp(v, k=_k):
        L, n = 'tp::%sLayer' % k, v.len(v.fld(v.args[0], C, 'm%sLayers' % k))
        i = sym('i!')
        nb = lambda i: v.len(v.fld(layer_of(v, k, i), L, 'mBatches'))
        last = lambda i: spf(v, v.fld(layer_of(v, k, i), L, 'mBatches').elem(nb(i) - 1))
        return [All(n, lambda i: le(1, nb(i)) * T.eq(v.rd(last(i), 'tp::%sBatch' % k, 'mOwnerID'), v.rd(layer_of(v, k, i), L, 'mOwnerID')))]

    @con('circuit', 'tp::Circuit::Close%sputs()' % _k[:-3], [C + '*'], pre=closesp)
    def _(v, k=_k):
        L, B, P = 'tp::%sLayer' % k, 'tp::%sBatch' % k, 'tp::Pad%sGate' % k
        n = v.len(v.fld(v.args[0], C, 'm%sLayers' % k))
        i, j, m = IDX[0], IDX[1], IDX[2]
        layer = layer_of(v, k, i)
        qb = v.fld(layer, L, 'mBatches')
        bt = spf(v, qb.elem(j))
        islast = le(0, i) * lt(i, n) * T.eq(j, v.len(qb) - 1)
        q = v.fld(bt, B, GP[k])
        cnt, cap = v.len(q), v.rd(bt, B, 'mBatchSize')
        pad = Ptr(v.w.spec_new(P, 0, 1), (0, i, 0))
        write = lambda p, g, x: fam(v, p, g, x)
        lk = (q.root, q.offs + ('len',))
        from ..exec import getcell_mem
        v.st.mem[lk] = ite(islast * lt(cnt, cap), cap, getcell_mem(v.st.mem, lk))
        fam(v, q.elem(m), islast * le(cnt, m) * lt(m, cap), pad)
        live = le(0, i) * lt(i, n)
        fam(v, v.fld(pad, 'tp::Gate', 'mIsPadding'), live, ONE)
        if k == 'Output':
            fam(v, v.fld(pad, 'tp::Gate', 'mLeft'), live, pad)
        fam(v, v.fld(pad, GC[k], 'mOwnerID'), live, v.rd(layer, L, 'mOwnerID'))
        if k == 'Output':
            v.set(v.fld(v.args[0], C, 'mIsClosed'), ONE)


@con('circuit', 'tp::Circuit::SetNetwork(std::shared_ptr<scl::Network>, unsigned long)', [C + '*', 'std::shared_ptr<scl::Network>*', 'u64'])
def _(v):
    t = TV(v, C)
    net = spf(v, v.args[1])
    v.throws(bnot(t.g('mIsClosed')), INV)
    setnet(v, C, t.p, net, v.args[2])
    for k in ('Input', 'Mult', 'Output'):
        n = v.len(t.fp('m%sLayers' % k))
        layer_setnet(v, k, layer_of(v, k, IDX[0]), net, v.args[2], le(0, IDX[0]) * lt(IDX[0], n), 1)
    t.set('mIsNetworkSet', ONE)


# ---------------------------------------------------------------- the circuit on clear values
def flatgate(v, k, i, j):
    return spf(v, v.fld(v.args[0], C, 'mFlat%sGates' % k).elem(i).elem(j))


def flatlen(v, k, i):
    q = v.fld(v.args[0], C, 'mFlat%sGates' % k).elem(i)
    return v.len(q)


def clientspre(*ks):
    return lambda v: [T.eq(v.len(v.fld(v.args[0], C, 'mFlat%sGates' % k)), v.rd(v.args[0], C, 'mClients')) for k in ks]


@con('circuit', 'tp::Circuit::SetInputs(std::vector<FF61>)', [C + '*', 'std::vector<FF61>*'],
     pre=lambda v: [lt(v.rd(v.args[0], C, 'mID'), v.len(v.fld(v.args[0], C, 'mFlatInputGates')))])
def _(v):
    me = v.rd(v.args[0], C, 'mID')
    n = flatlen(v, 'Input', me)
    v.throws(bnot(T.eq(v.len(v.args[1]), n)), INV)
    i, j = IDX[0], IDX[1]
    g = flatgate(v, 'Input', i, j)
    G = GC['Input']
    fam(v, v.fld(g, G, 'mValue'), T.eq(i, me) * le(0, j) * lt(j, n) * T.eq(v.rd(g, G, 'mID'), v.rd(g, G, 'mOwnerID')), v.el(v.args[1], j))


@con('circuit', 'tp::Circuit::SetClearInputs(std::vector<std::vector<FF61>>)', [C + '*', 'std::vector<std::vector<FF61>>*'], pre=clientspre('Input'))
def _(v):
    q = v.args[1]
    n = v.rd(v.args[0], C, 'mClients')
    v.throws(bnot(T.eq(v.len(q), n)), INV)
    v.throws(bnot(All(n, lambda i: T.eq(v.len(q.elem(i)), flatlen(v, 'Input', i)))), INV)
    i, j = IDX[0], IDX[1]
    g = flatgate(v, 'Input', i, j)
    w = le(0, i) * lt(i, n) * le(0, j) * lt(j, flatlen(v, 'Input', i))
    fam(v, v.fld(g, 'tp::Gate', 'mClear'), w, v.el(q, i, j))
    fam(v, v.fld(g, 'tp::Gate', 'mEvaluated'), w, ONE)


@con('circuit', 'tp::Circuit::GetClearOutputsFlat()', ['sret:std::vector<FF61>', C + '*'])
def _(v0):
    v = CV(v0)
    q = v.fld(v.args[0], C, 'mOutputGates')
    n = v.len(q)
    g = lambda i: spf(v, q.elem(i))
    v.throws(bnot(All(n, lambda i: gknown(v.w, 'clear', g(i)))), INV)
    v.setvec(v0.args[0], n, lambda i: gfun(v.w, 'clear', g(i)))


@con('circuit', 'tp::Circuit::GetClearOutputs()', ['sret:std::vector<std::vector<FF61>>', C + '*'], pre=lambda v: clientspre('Output')(CV(v)))
def _(v0):
    v = CV(v0)
    n = v.rd(v.args[0], C, 'mClients')
    g = lambda i, j: flatgate(v, 'Output', i, j)
    v.throws(bnot(All(n, lambda i: All(flatlen(v, 'Output', i), lambda j: gknown(v.w, 'clear', g(i, j))))), INV)
    q = v0.args[0]
    v.setlen(q, n)
    i, j = IDX[0], IDX[1]
    e = q.elem(i)
    v.st.mem[(q.root, e.offs + ('len',))] = flatlen(v, 'Output', i)
    v.st.mem[(q.root, e.offs + (0,))] = gfun(v.w, 'clear', g(i, j))


@con('circuit', 'tp::Circuit::GetOutputs()', ['sret:std::vector<FF61>', C + '*'],
     pre=lambda v: [lt(CV(v).rd(v.args[1], C, 'mID'), v.len(v.fld(v.args[1], C, 'mFlatOutputGates')))])
def _(v0):
    v = CV(v0)
    me = v.rd(v.args[0], C, 'mID')
    v.setvec(v0.args[0], flatlen(v, 'Output', me), lambda j: v.rd(flatgate(v, 'Output', me, j), GC['Output'], 'mValue'))


# ---------------------------------------------------------------- the phases of the online protocol
# The objects of one party share one network (SetNetwork) and have the same shape (construction):
# written into the initial state as equalities between the fields.
def wlay(env):
    key = 'Wtplay'
    if key not in env.worlds:
        wtp(env)
        m, lay = env.module('tp61', ['tp', 'tu:tp'])
        w = World(m, lay)
        install(w)
        for g in ('packed', 'batches'):
            for c in GROUPS[g]:
                w.contracts[c.name] = c
        env.worlds[key] = w
    return env.worlds[key]


def like(v, dst, dcls, src, scls, *fields):
    """every member of the family dst has the same value as src in these fields"""
    for f in fields:
        q = v.fld(dst, dcls, f)
        assert all(x is y for x, y in zip(q.idx, IDX)), q
        v.st.mem[(q.root, q.offs)] = v.rd(src, scls, f)


def layer_init(v):
    t = TV(v, 'tp::MultLayer')
    _, batch = mbgates(v, t, 'mBatches')
    like(v, batch(IDX[0]), 'tp::MultBatch', t.p, t.cls, 'mNetwork', 'mID', 'mParties', 'mBatchSize')


def layer_pre(v):
    t = TV(v, 'tp::MultLayer')
    nb, batch = mbgates(v, t, 'mBatches')
    return [All(nb, lambda b: T.eq(v.len(v.fld(batch(b), 'tp::MultBatch', 'mMultGatesPtrs')), t.g('mBatchSize'))), le(1, t.g('mBatchSize')), le(1, t.g('mParties'))]


def append(ch, i, lo, n, val, guard=ONE):
    """channel i (IDX0: all of them where guard holds) gets the n values val(0..n-1) appended"""
    from ..exec import getcell_mem
    v = ch.v
    q = ch.c(IDX[0]).plus(1024)
    if i is not None:
        guard = guard * T.eq(IDX[0], i)
    kl, ke = (q.root, q.offs + ('len',)), (q.root, q.offs + (0,))
    ln, cur = getcell_mem(v.st.mem, kl), getcell_mem(v.st.mem, ke)
    x = IDX[1] - ln
    v.st.mem[ke] = ite(guard * le(0, x) * lt(x, n), val(x), cur)
    v.st.mem[kl] = ln + guard * n


ML = 'tp::MultLayer'


class Lay:
    """a multiplication layer, on its own or as element `ix` of the circuit's list"""
    def __init__(self, v, ix=None):
        self.v = v
        if ix is None:
            self.t, self.d, self.guard = TV(v, ML), 0, ONE
            self.nb, self.fbatch = mbgates(v, self.t, 'mBatches')
        else:
            self.t, self.d, self.guard = TV(v, ML, layer_of(v, 'Mult', ix)), 1, T.eq(IDX[0], ix)
            self.fbatch = mbgates(v, TV(v, ML, layer_of(v, 'Mult', IDX[0])), 'mBatches')[1]
        self.nb, self.batch = mbgates(v, self.t, 'mBatches')
        self.ch = Chans(v, ML, self.t.p) if ix is None else Chans(v, C, v.args[0])
        g = self.t.g if ix is None else (lambda f: v.rd(v.args[0], C, f))
        self.k, self.P, self.isp1 = g('mBatchSize'), g('mParties'), T.eq(g('mID'), 0)
        self.b, self.j = IDX[self.d], IDX[self.d + 1]

    def gate(self, b, j):
        return spf(self.v, self.v.fld(self.batch(b), 'tp::MultBatch', 'mMultGatesPtrs').elem(j))

    def inbatch(self):
        return self.guard * le(0, self.b) * lt(self.b, self.nb)


# P1 shares the masked inputs of every batch
def ph_p1sends(v, L):
    ok = All(L.nb, lambda b: All(L.k, lambda j: gknown(v.w, 'mu', parent(v, L.gate(b, j), 'mLeft')) * gknown(v.w, 'mu', parent(v, L.gate(b, j), 'mRight'))))
    v.throws(L.isp1 * bnot(ok), INV)

    def val(x):
        b = idiv(x, const(2))
        sh = lambda which: lagrange(IDX[0] + 1, packed_points, lambda j: gfun(v.w, 'mu', parent(v, L.gate(b, j), which)), L.k)
        return ite(T.eq(x, 2 * b), sh('mLeft'), sh('mRight'))
    append(L.ch, None, None, 2 * L.nb, val, L.isp1 * le(0, IDX[0]) * lt(IDX[0], L.P))


# everybody receives its two shares per batch
def ph_receive(v, L):
    p = L.fbatch(L.b)
    fam(v, v.fld(p, 'tp::MultBatch', 'mPackedShrMuA'), L.inbatch(), L.ch.recv(ZERO, 2 * L.b))
    fam(v, v.fld(p, 'tp::MultBatch', 'mPackedShrMuB'), L.inbatch(), L.ch.recv(ZERO, 2 * L.b + 1))
    L.ch.took(ZERO, 2 * L.nb)


# and sends its share of the batch of masked products
def ph_send(v, L, mu=None):
    def val(b):
        la, lb, d = [v.rd(L.batch(b), 'tp::MultBatch', x) for x in ('mPackedShrLambdaA', 'mPackedShrLambdaB', 'mPackedShrDeltaC')]
        ma, mb = mu(b) if mu else [v.rd(L.batch(b), 'tp::MultBatch', x) for x in ('mPackedShrMuA', 'mPackedShrMuB')]
        return mb * la + ma * lb + ma * mb + d
    append(L.ch, ZERO, None, L.nb, val)


# from which P1 interpolates the masked outputs
def ph_p1receives(v, L, pos=None):
    X = lambda i: i + 1
    v.throws(L.isp1 * le(1, L.nb) * bnot(distinct(X, L.P)), 'std::logic_error')
    g = spf(v, v.fld(L.fbatch(L.b), 'tp::MultBatch', 'mMultGatesPtrs').elem(L.j))
    w = L.isp1 * L.inbatch() * le(0, L.j) * lt(L.j, L.k)
    fam(v, v.fld(g, 'tp::Gate', 'mMu'), w, lagrange(-L.j, X, lambda i: L.ch.recv(i, pos(i, L.b) if pos else L.b), L.P))
    fam(v, v.fld(g, 'tp::Gate', 'mLearned'), w, ONE)
    L.ch.recvs(ZERO, L.isp1 * L.P, L.nb)


for _f, _ph in (('P1Sends', ph_p1sends), ('PartiesReceive', ph_receive), ('PartiesSend', ph_send), ('P1Receives', ph_p1receives)):
    con('phases', ML + '::%s()' % _f, [ML + '*'], init=layer_init,
        pre=lambda v, f=_f: layer_pre(v) + ([distinct(packed_points, TV(v, ML).g('mBatchSize'))] if f == 'P1Sends' else []))(
        lambda v, ph=_ph: ph(v, Lay(v)))


# the circuit: gates listed for client i are owned by client i, and everything shares the circuit's network
def circ_init(*ks):
    def init(v):
        me = v.args[0]
        for k in ks:
            if k == 'Mult':
                l = layer_of(v, k, IDX[0])
                like(v, l, ML, me, C, 'mNetwork', 'mID', 'mParties', 'mBatchSize')
                b = mbgates(v, TV(v, ML, layer_of(v, k, IDX[0])), 'mBatches')[1](IDX[1])
                like(v, b, 'tp::MultBatch', me, C, 'mNetwork', 'mID', 'mParties', 'mBatchSize')
                continue
            g = flatgate(v, k, IDX[0], IDX[1])
            like(v, g, GC[k], me, C, 'mNetwork', 'mID')
            q = v.fld(g, GC[k], 'mOwnerID')
            v.st.mem[(q.root, q.offs)] = IDX[0]
    return init


def ph_owner_sends(v):
    me, n = v.rd(v.args[0], C, 'mID'), v.rd(v.args[0], C, 'mClients')
    G = GC['Input']
    val = lambda x: v.rd(flatgate(v, 'Input', me, x), G, 'mValue') - v.rd(flatgate(v, 'Input', me, x), G, 'mLambda')
    append(Chans(v, C, v.args[0]), ZERO, None, flatlen(v, 'Input', me), val, lt(me, n))


def ph_input_p1(v):
    isp1, n = T.eq(v.rd(v.args[0], C, 'mID'), 0), v.rd(v.args[0], C, 'mClients')
    ch = Chans(v, C, v.args[0])
    i, j = IDX[0], IDX[1]
    g = flatgate(v, 'Input', i, j)
    w = isp1 * le(0, i) * lt(i, n) * le(0, j) * lt(j, flatlen(v, 'Input', i))
    fam(v, v.fld(g, 'tp::Gate', 'mMu'), w, ch.recv(i, j))
    fam(v, v.fld(g, 'tp::Gate', 'mLearned'), w, ONE)
    ch.recvs(ZERO, isp1 * n, flatlen(v, 'Input', IDX[0]))


def ph_output_p1(v):
    isp1, n = T.eq(v.rd(v.args[0], C, 'mID'), 0), v.rd(v.args[0], C, 'mClients')
    g = lambda i, j: flatgate(v, 'Output', i, j)
    v.throws(isp1 * bnot(All(n, lambda i: All(flatlen(v, 'Output', i), lambda j: gknown(v.w, 'mu', g(i, j))))), INV)
    append(Chans(v, C, v.args[0]), None, None, flatlen(v, 'Output', IDX[0]), lambda x: gfun(v.w, 'mu', g(IDX[0], x)),
           isp1 * le(0, IDX[0]) * lt(IDX[0], n))


def ph_owner_receives(v):
    me, n = v.rd(v.args[0], C, 'mID'), v.rd(v.args[0], C, 'mClients')
    ch = Chans(v, C, v.args[0])
    i, j = IDX[0], IDX[1]
    g = flatgate(v, 'Output', i, j)
    nj = flatlen(v, 'Output', me)
    w = T.eq(i, me) * lt(me, n) * le(0, j) * lt(j, nj)
    fam(v, v.fld(g, GC['Output'], 'mValue'), w, v.rd(g, GC['Output'], 'mLambda') + ch.recv(ZERO, j))
    ch.took(ZERO, lt(me, n) * nj)


for _f, _k, _phs in (('InputOwnerSendsP1', 'Input', (ph_owner_sends,)), ('InputP1Receives', 'Input', (ph_input_p1,)),
                     ('OutputP1SendsMu', 'Output', (ph_output_p1,)), ('OutputOwnerReceivesMu', 'Output', (ph_owner_receives,)),
                     ('RunInput', 'Input', (ph_owner_sends, ph_input_p1)), ('RunOutput', 'Output', (ph_output_p1, ph_owner_receives))):
    con('phases', C + '::%s()' % _f, [C + '*'], init=circ_init(_k), pre=clientspre(_k))(lambda v, phs=_phs: [ph(v) for ph in phs] and None)


# one layer of the circuit
def runpre(v):
    ix = v.args[1]
    L = Lay(v, ix)
    return [lt(ix, v.len(v.fld(v.args[0], C, 'mMultLayers'))),
            All(L.nb, lambda b: T.eq(v.len(v.fld(L.batch(b), 'tp::MultBatch', 'mMultGatesPtrs')), L.k)), le(1, L.k), le(1, L.P), distinct(packed_points, L.k)]


def ph_run(v, L):
    ph_p1sends(v, L)
    ph_receive(v, L)
    ph_send(v, L, lambda b: [L.ch.recv(ZERO, 2 * b), L.ch.recv(ZERO, 2 * b + 1)])
    ph_p1receives(v, L, lambda i, b: b + 2 * L.nb * T.eq(i, 0))


for _f, _ph in (('MultP1Sends', ph_p1sends), ('MultPartiesReceive', ph_receive), ('MultPartiesSend', ph_send), ('MultP1Receives', ph_p1receives),
                ('RunMult', ph_run)):
    con('phases', C + '::%s(unsigned long)' % _f, [C + '*', 'u64'], init=circ_init('Mult'), pre=runpre)(lambda v, ph=_ph: ph(v, Lay(v, v.args[1])))


for _g in ('gates', 'batches', 'layers', 'circuit'):
    WORLDS[_g] = wtp
WORLDS['phases'] = wlay
