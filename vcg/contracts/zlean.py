"""Mathematics over the contracts, checked by Lean."""
from .lib import *
from ..leanx import LeanLemma, Export

EV = EVP + '::'
PTS = [('n', 'Z', 'a0.24.len'), ('xs', 'V', 'a0.0.0')]
LeanLemma('evpoly', 'evpoly', 'interpolation', [
    Export('evaluate', 'evpoly', EV + 'Evaluate(FF61 const&) const', 'ret', PTS + [('ys', 'V', 'a0.24.0'), ('x', 'K', 'a1.0')]),
    Export('evaluate_throws', 'evpoly', EV + 'Evaluate(FF61 const&) const', 'throws:std::logic_error', PTS),
    Export('evaluate_all', 'evpoly', EV + 'Evaluate(%s const&) const' % VEC, ('ret', (0, 0)),
           [('n', 'Z', 'a1.24.len'), ('xs', 'V', 'a1.0.0'), ('ys', 'V', 'a1.24.0'), ('as', 'V', 'a2.0.0'), ('i', 'Z', None)]),
])

D = '%s scl::details::' % EVP
SV = 'scl::Vec<FF61> scl::details::'
deg, pts = D + 'EvPolyFromSecretsAndDegree<FF61>(%s const&, unsigned long, scl::PRG&)' % VEC, D + 'EvPolyFromSecretsAndPoints<FF61>(%s const&, %s const&, scl::PRG&)' % (VEC, VEC)
one, at = D + 'EvPolyFromSecretAndDegree<FF61>(FF61 const&, unsigned long, scl::PRG&)', D + 'EvPolyFromSecretAndPointAndDegree<FF61>(FF61 const&, FF61 const&, unsigned long, scl::PRG&)'
NS = ('ns', 'Z', 'a1.0.len')


def rndp(g):
    return [('rnd', 'V', 'rnd'), ('c', 'Z', '%s.0.$rnd' % g)]


I = ('i', 'Z', None)
LeanLemma('packed', 'packed', 'sharing and recovery', [
    Export('degX', 'packed', deg, ('ret', (0, 0)), [NS, I]),
    Export('degY', 'packed', deg, ('ret', (24, 0)), [NS, ('s', 'V', 'a1.0.0')] + rndp('a3') + [I]),
    Export('ptX', 'packed', pts, ('ret', (0, 0)), [('xs', 'V', 'a2.0.0'), I]),
    Export('ptY', 'packed', pts, ('ret', (24, 0)), [NS, ('s', 'V', 'a1.0.0')] + rndp('a3') + [I]),
    Export('oneX', 'packed', one, ('ret', (0, 0)), [I]),
    Export('oneY', 'packed', one, ('ret', (24, 0)), [('s', 'K', 'a1.0')] + rndp('a3') + [I]),
    Export('atX', 'packed', at, ('ret', (0, 0)), [('x', 'K', 'a2.0'), I]),
    Export('atY', 'packed', at, ('ret', (24, 0)), [('s', 'K', 'a1.0')] + rndp('a4') + [I]),
    Export('shares', 'packed', SV + 'SharesFromEvPoly<FF61>(%s const&, unsigned long)' % EVP, ('ret', (0, 0)),
           [('n', 'Z', 'a1.24.len'), ('xs', 'V', 'a1.0.0'), ('ys', 'V', 'a1.24.0'), I]),
    Export('secrets', 'packed', SV + 'SecretsFromSharesAndLength<FF61>(%s const&, unsigned long)' % VEC, ('ret', (0, 0)),
           [('n', 'Z', 'a1.0.len'), ('s', 'V', 'a1.0.0'), I]),
    Export('secretsAt', 'packed', SV + 'SecretsFromPointsAndShares<FF61>(%s const&, %s const&)' % (VEC, VEC), ('ret', (0, 0)),
           [('n', 'Z', 'a2.0.len'), ('s', 'V', 'a2.0.0'), ('xs', 'V', 'a1.0.0'), I]),
    Export('secretAt', 'packed', 'FF61 scl::details::SecretFromPointAndShares<FF61>(FF61 const&, %s const&)' % VEC, 'ret',
           [('n', 'Z', 'a1.0.len'), ('s', 'V', 'a1.0.0'), ('x', 'K', 'a0.0')]),
    Export('secret', 'packed', 'FF61 scl::details::SecretFromShares<FF61>(%s const&)' % VEC, 'ret',
           [('n', 'Z', 'a0.0.len'), ('s', 'V', 'a0.0.0')]),
])

SP = POLY + ' scl::details::CreateShamirSharePolynomial<FF61>(FF61 const&, unsigned long, scl::PRG&)'
T_ = ('t', 'Z', 'a2')
S_ = ('s', 'K', 'a1.0')
V2 = '%s const&, %s const&' % (VEC, VEC)
RP = 'FF61 scl::ReconstructShamirPassive<FF61>('
RD = 'FF61 scl::ReconstructShamir<FF61>('
SZ = [('ls', 'Z', 'a0.0.len'), ('la', 'Z', 'a1.0.len')]
SS = ('s', 'V', 'a0.0.0')
LeanLemma('shgen', 'shamir', 'sharing, reconstruction and detection', [
    Export('polyLen', 'shgen', SP, ('ret', (0, 'len')), [T_, S_] + rndp('a3')),
    Export('polyCoef', 'shgen', SP, ('ret', (0, 0)), [T_, S_] + rndp('a3') + [I]),
    Export('create', 'shamir', 'scl::Vec<FF61> scl::CreateShamirShares<FF61>(%s const&, %s const&)' % (POLY, VEC), ('ret', (0, 0)),
           [('np', 'Z', 'a1.0.len'), ('cs', 'V', 'a1.0.0'), ('as', 'V', 'a2.0.0'), I]),
    Export('passive', 'shamir', RP + V2 + ', FF61 const&, unsigned long)', 'ret', [('t', 'Z', 'a3'), SS, ('as', 'V', 'a1.0.0'), ('x', 'K', 'a2.0')]),
    Export('passive0', 'shamir', RP + VEC + ' const&, unsigned long)', 'ret', [('t', 'Z', 'a1'), SS]),
    Export('detect', 'shamir', RD + V2 + ', FF61 const&, unsigned long)', 'ret', [('t', 'Z', 'a3'), SS, ('as', 'V', 'a1.0.0'), ('x', 'K', 'a2.0')]),
    Export('detect0', 'shamir', RD + VEC + ' const&, unsigned long)', 'ret', [('t', 'Z', 'a1'), SS]),
    Export('detect_throws', 'shamir', RD + V2 + ', FF61 const&, unsigned long)', 'throws:std::logic_error',
           SZ + [('t', 'Z', 'a3'), SS, ('as', 'V', 'a1.0.0')]),
    Export('detect0_throws', 'shamir', RD + VEC + ' const&, unsigned long)', 'throws:std::logic_error', [SZ[0], ('t', 'Z', 'a1'), SS]),
])
LeanLemma('field', 'prime', 'the moduli are prime')
LeanLemma('additive', 'additive', 'shares sum to the secret', [
    Export('reconstruct', 'additive', 'FF61 scl::ReconstructAdditive<FF61>(%s const&)' % VEC, 'ret', [('n', 'Z', 'a0.0.len'), SS]),
    Export('share', 'additive', '%s scl::CreateAdditiveShares<FF61>(FF61 const&, unsigned long, scl::PRG&)' % VEC, ('ret', (0, 0)),
           [('n', 'Z', 'a2'), ('s', 'K', 'a1.0')] + rndp('a3') + [I]),
])

MB, CO = 'tp::MultBatch::', 'tp::Correlator::'


def mb(f):
    return '{tp::MultBatch.%s}' % f


def co(f):
    return '{tp::Correlator.%s}' % f


def ins(net):
    return [('len', 'W', net + '.0.1024.len'), ('old', 'M', net + '.0.1024.0'), I, ('i1', 'Z', None)]


def inr(net):
    return [('head', 'W', net + '.0.4096'), ('recv', 'M', net + '.0.2048.0')]


NET, FNET = '**a0.%s.0.0' % mb('mNetwork'), '**a0.%s.0.0' % co('mNetwork')
GS = 'a0.%s' % mb('mMultGatesPtrs')
SH = '(std::shared_ptr<tp::MultBatch>)'
KEY = ('key', 'Z', 'addr.*a1.0@.0')
ME, N_, K_ = [('%s' % x, 'Z', 'a0.' + mb(f)) for x, f in (('me', 'mID'), ('n', 'mParties'), ('k', 'mBatchSize'))]
CME, CN, CK = [('%s' % x, 'Z', 'a0.' + co(f)) for x, f in (('me', 'mID'), ('n', 'mParties'), ('k', 'mBatchSize'))]
NG = ('k', 'Z', GS + '.len')
EI = [CK, ('ei', 'V', 'a0.%s.0' % co('mSharesOfEi')), ('ind', 'V', 'a0.%s.0' % co('mMapIndShrs'))]


def tri(*fs):
    return [(f[4:], 'V', 'a0.%s.{tp::MultBatchFIPrep.%s}' % (co('mMapMultBatch'), f)) for f in fs]


def par(x, f):
    return 'addr.%s.0.0.{tp::Gate.%s}@.0.0' % (x, f)


FGS = '***a1.0.%s' % mb('mMultGatesPtrs')
DU = [('me', 'Z', 'a0.' + mb('mID')), NG, ('lam', 'V', 'gate.lambda'), ('adL', 'W', par('**' + GS, 'mLeft')), ('adR', 'W', par('**' + GS, 'mRight')), ('ad', 'W', 'addr.*' + GS + '.0@.0.0')]
IGS, OGS = '**a1.0.{tp::InputBatch.mInputGatesPtrs}', '**a1.0.{tp::OutputBatch.mOutputGatesPtrs}'


def par0(gs):
    return 'addr.' + gs + '.0@.0.0'


def io(m):
    return [('O', 'V', 'a0.%s.{tp::IOBatchFIPrep.mShrO}' % co(m))]


LeanLemma('compose', 'mult', 'multiplication of a batch', [
    Export('p1Sends', 'batches', MB + 'P1Sends()', (NET, (0, 1024, 0)),
           [ME, N_, NG, ('mu', 'V', 'gate.mu'), ('adL', 'W', par('**' + GS, 'mLeft')), ('adR', 'W', par('**' + GS, 'mRight'))] + ins(NET)),
    Export('partySend', 'batches', MB + 'PartiesSend()', (NET, (0, 1024, 0)),
           [(x, 'K', 'a0.' + mb(f)) for x, f in (('muA', 'mPackedShrMuA'), ('muB', 'mPackedShrMuB'), ('lamA', 'mPackedShrLambdaA'), ('lamB', 'mPackedShrLambdaB'), ('delta', 'mPackedShrDeltaC'))] + ins(NET)),
    Export('p1Opens', 'batches', MB + 'P1Receives()', ('*' + GS + '.0', (0, '{tp::Gate.mMu}')),
           [ME, N_, NG, ('prev', 'V', '*' + GS + '.0.0.{tp::Gate.mMu}')] + inr(NET) + [I]),
    Export('basis', 'corr', CO + 'PrecomputeEi()', ('a0', (co('mSharesOfEi'), 0)),
           [CK, CME, ('l0', 'Z', 'a0.%s.len' % co('mSharesOfEi')), ('prev', 'V', 'a0.%s.0' % co('mSharesOfEi')), I]),
    Export('fdSend', 'fdprep', CO + 'PrepMultPartiesSendP1' + SH, (FNET, (0, 1024, 0)),
           EI + [('adL', 'W', par(FGS, 'mLeft')), ('adR', 'W', par(FGS, 'mRight')), KEY] + tri('mShrA', 'mShrB', 'mShrO1', 'mShrO2') + ins(FNET)),
    Export('fdP1', 'fdprep', CO + 'PrepMultP1ReceivesAndSends()', (FNET, (0, 1024, 0)), [CME, CN, CK] + inr(FNET) + ins(FNET)),
    Export('fdLamA', 'fdprep', CO + 'PrepMultPartiesReceive' + SH, ('*a1.0', (mb('mPackedShrLambdaA'),)), [KEY] + tri('mShrA') + inr(FNET)),
    Export('fdLamB', 'fdprep', CO + 'PrepMultPartiesReceive' + SH, ('*a1.0', (mb('mPackedShrLambdaB'),)), [KEY] + tri('mShrB') + inr(FNET)),
    Export('fdDelta', 'fdprep', CO + 'PrepMultPartiesReceive' + SH, ('*a1.0', (mb('mPackedShrDeltaC'),)),
           EI + [('ad', 'W', 'addr.**a1.0.%s.0@.0.0' % mb('mMultGatesPtrs')), KEY] + tri('mShrA', 'mShrB', 'mShrC', 'mShrO3') + inr(FNET)),
    Export('duA', 'batches', MB + 'PrepFromDummyLambdas()', ('a0', (mb('mPackedShrLambdaA'),)), DU[:2] + DU[2:4]),
    Export('duB', 'batches', MB + 'PrepFromDummyLambdas()', ('a0', (mb('mPackedShrLambdaB'),)), DU[:2] + [DU[2], DU[4]]),
    Export('duDelta', 'batches', MB + 'PrepFromDummyLambdas()', ('a0', (mb('mPackedShrDeltaC'),)), DU),
    Export('inSend', 'fdprep', CO + 'PrepInputPartiesSendOwner(std::shared_ptr<tp::InputBatch>)', (FNET, (0, 1024, 0)),
           EI + [('ad', 'W', par0(IGS)), ('own', 'Z', '*a1.0.{tp::InputBatch.mOwnerID}'), KEY] + io('mMapInputBatch') + ins(FNET)),
    Export('outSend', 'fdprep', CO + 'PrepOutputPartiesSendOwner(std::shared_ptr<tp::OutputBatch>)', (FNET, (0, 1024, 0)),
           EI + [('ad', 'W', par0(OGS)), ('own', 'Z', '*a1.0.{tp::OutputBatch.mOwnerID}'), KEY] + io('mMapOutputBatch') + ins(FNET)),
    Export('inMask', 'fdprep', CO + 'PrepInputOwnerReceives(std::shared_ptr<tp::InputBatch>)', (IGS + '.0', (0, '{tp::InputGate.mLambda}')),
           [CK, CME, CN, ('own', 'Z', '*a1.0.{tp::InputBatch.mOwnerID}'), ('prev', 'V', IGS + '.0.0.{tp::InputGate.mLambda}')] + inr(FNET) + [I]),
    Export('outMask', 'fdprep', CO + 'PrepOutputOwnerReceives(std::shared_ptr<tp::OutputBatch>)', (OGS + '.0', (0, '{tp::OutputGate.mLambda}')),
           [CK, CME, CN, ('own', 'Z', '*a1.0.{tp::OutputBatch.mOwnerID}'), ('prev', 'V', OGS + '.0.0.{tp::OutputGate.mLambda}')] + inr(FNET) + [I]),
])


def memo(cls, what, get, flag, val):
    """GET of a gate that may have the value already: FLAG known, VAL what is remembered, the parents at l and r"""
    ps = [('known', 'B', 'a0.{%s.%s}' % (cls, flag)), ('memo', 'K', 'a0.{%s.%s}' % (cls, val)), ('of', 'V', 'gate.' + what)]
    lr = [('l', 'Z', 'addr.*a0.{tp::Gate.mLeft}@.0')] + ([('r', 'Z', 'addr.*a0.{tp::Gate.mRight}@.0')] if 'Output' not in cls else [])
    return Export(cls.split('::')[1][0].lower() + cls.split('::')[1][1:3] + get, 'gates', '%s::%s()' % (cls, get), 'ret', ps + lr)


LeanLemma('compose', 'wires', 'every wire of a circuit', [
    memo('tp::AddGate', 'mu', 'GetMu', 'mLearned', 'mMu'), memo('tp::AddGate', 'lambda', 'GetDummyLambda', 'mLambdaSet', 'mLambda'),
    memo('tp::AddGate', 'clear', 'GetClear', 'mEvaluated', 'mClear'), memo('tp::MultGate', 'clear', 'GetClear', 'mEvaluated', 'mClear'),
    memo('tp::OutputGate', 'mu', 'GetMu', 'mLearned', 'mMu'), memo('tp::OutputGate', 'clear', 'GetClear', 'mEvaluated', 'mClear'),
])


def remembered(cls, what, get, flag, val):
    e = memo(cls, what, get, flag, val)
    return Export(e.name[:3] + 'Memo', 'gates', '%s::%s()' % (cls, get), ('a0', ('{%s.%s}' % (cls, val),)), e.params)


CLR = ('clear', 'GetClear', 'mEvaluated', 'mClear')
LeanLemma('meaning', 'clear', 'the value of a circuit', [
    memo('tp::AddGate', *CLR), memo('tp::MultGate', *CLR), memo('tp::OutputGate', *CLR), remembered('tp::AddGate', *CLR), remembered('tp::MultGate', *CLR)])


def hands(what, fn, ctr, vec, mapn, cls=None, f=None, use=()):
    """what a hand-out stores at the object AT it is for, and what it leaves of the counter"""
    o = 0 if f is None else '{tp::%s.%s}' % (cls, f)
    c = [('ctr', 'Z', 'a0.' + co(ctr))]
    m = [('key', 'Z', 'addr.*a1.0@.0'), ('map', 'V', 'a0.%s.%s' % (co(mapn), o)), ('prep', 'V', 'a0.%s.%s' % (co(vec), o))]
    return [Export('hand' + what, 'handout', CO + fn, ('a0', (co(mapn), o)), list(use) + m + c + [I]),
            Export('next' + what, 'handout', CO + fn, ('a0', (co(ctr),)), list(use) + c)]


EXT = [('n', 'Z', 'a0.' + co('mParties')), ('t', 'Z', 'a0.' + co('mThreshold')), ('N', 'Z', 'a0.' + co('mNMultBatches')),
       ('vdm', 'M', 'a0.%s.0.0' % co('mVandermonde'))] + inr(FNET)
UNI = 'tp::MultBatchFIPrep'
PADDING = [('pad', 'B', '*a1.0.{tp::Gate.mIsPadding}')]


def zero(f):
    return Export('zero' + f[4:], 'fiprep', CO + 'GenZeroPartiesReceive()', ('a0', (co('mMultBatchFIPrep'), '{%s.%s}' % (UNI, f))),
                  EXT + [('old', 'V', 'a0.%s.{%s.%s}' % (co('mMultBatchFIPrep'), UNI, f)), I])


LeanLemma('once', 'once', 'no correlation is handed out twice', sum([
    hands('Mul' + f[4:], 'PopulateMultBatches' + SH, 'mCTRMultBatches', 'mMultBatchFIPrep', 'mMapMultBatch', 'MultBatchFIPrep', f)[:(2 if f == 'mShrA' else 1)]
    for f in ('mShrA', 'mShrB', 'mShrC', 'mShrO1', 'mShrO2', 'mShrO3')], []) + sum([
        hands(x, 'Populate%sBatches(std::shared_ptr<tp::%sBatch>)' % (x, x), 'mCTRInOutBatches', 'mIOBatchFIPrep', 'mMap%sBatch' % x, 'IOBatchFIPrep', 'mShrO')
        for x in ('Input', 'Output')], []) + sum([
            hands(x, 'PopulateIndvShrs(std::shared_ptr<tp::%s>)' % x, 'mCTRIndShrs', 'mIndShrs', 'mMapIndShrs', use=PADDING) for x in ('InputGate', 'MultGate')], []) + [
                zero(f) for f in ('mShrO1', 'mShrO2', 'mShrO3')] + [
                    Export('zeroIO', 'fiprep', CO + 'GenZeroPartiesReceive()', ('a0', (co('mIOBatchFIPrep'), '{tp::IOBatchFIPrep.mShrO}')), EXT + [I]),
                    Export('single', 'fiprep', CO + 'GenIndShrsPartiesReceive()', ('a0', (co('mIndShrs'), 0)),
                           EXT[:2] + [('S', 'Z', 'a0.' + co('mNIndShrs'))] + EXT[3:] + [('old', 'V', 'a0.%s.0' % co('mIndShrs')), I]),
                ] + [Export(x[1:], 'fiprep', CO + 'GenUnpackedShrPartiesReceive()', ('a0', (co(x), 0, 0)), EXT + [I, ('i1', 'Z', None)])
                     for x in ('mUnpackedShrsA', 'mUnpackedShrsB', 'mUnpackedShrsMask')] + [
    Export('vandermonde', 'corr', CO + 'PrecomputeVandermonde()', ('a0', (co('mVandermonde'), 0, 0)), [I, ('i1', 'Z', None)]),
    Export('lenIO', 'fiprep', CO + 'GenZeroPartiesReceive()', ('a0', (co('mIOBatchFIPrep'), 'len')), EXT[1:3] + [('q', 'Z', 'a0.' + co('mNInOutBatches'))]),
    Export('lenSingle', 'fiprep', CO + 'GenIndShrsPartiesReceive()', ('a0', (co('mIndShrs'), 'len')), [EXT[1], ('S', 'Z', 'a0.' + co('mNIndShrs'))])])

DN = 'tp::DN07::'


def dn(f, more=''):
    return '{tp::DN07.%s%s}' % (f, more)


def dc(f):
    return dn('mCircuit', '/tp::Circuit.' + f)


DNET, ROW = '**a0.%s.0.0' % dc('mNetwork'), '**a0.%s.0.0.0' % dc('mFlatMultLayers')
DME, DN_, DT, DL = ('me', 'Z', 'a0.' + dc('mID')), ('n', 'Z', 'a0.' + dn('mParties')), ('t', 'Z', 'a0.' + dn('mThreshold')), ('l', 'Z', 'a1')
DLEN = ('len', 'W', 'a0.%s.0.len' % dc('mFlatMultLayers'))
DOPS = [('dn07', 'V', 'gate.dn07')] + [('ad' + x[1], 'MZ', 'addr.%s.0.{tp::Gate.%s}@.0.0.0' % (ROW, x)) for x in ('mLeft', 'mRight')] + [('ad', 'MZ', 'addr.*a0.%s.0.0@.0.0.0' % dc('mFlatMultLayers')), ('key', 'W', 'a0.%s.0' % dn('mMapMults'))]
DINS = [('size', 'W', DNET + '.0.1024.len'), ('old', 'M', DNET + '.0.1024.0'), I, ('i1', 'Z', None)]
DQ = [('pend', 'Z', 'a0.%s.len' % dn('mMapP1SharesFromLast')), ('front', 'Z', 'a0.%s' % dn('mMapP1SharesFromLast', '/40')), ('last', 'M', 'a0.%s.0.0' % dn('mMapP1SharesFromLast'))]
DOUT = [('outn', 'Z', 'a0.%s.len' % dn('mP1SharesToSend')), ('out', 'M', 'a0.%s.0.0' % dn('mP1SharesToSend')), ('outh', 'Z', 'a0.%s' % dn('mP1SharesToSend', '/40'))]
DIN = [('ilen', 'W', 'a0.%s.0.len' % dc('mFlatInputGates')), ('ad', 'MZ', 'addr.*a0.%s.0.0@.0.0.0' % dc('mFlatInputGates')), ('key', 'W', 'a0.%s.0' % dn('mMapInputs')),
       ('rsh', 'V', 'a0.%s.{tp::RandShr.shr}' % dn('mRShrs'))]
DPREP = [DN_, DT, ('nm', 'Z', 'a0.' + dn('mNMults')), ('ni', 'Z', 'a0.' + dn('mNInputs')), ('vdm', 'M', 'a0.%s.0.0' % dn('mVandermonde'))] + inr(DNET) + [I]
DOUTS = [('olen', 'W', 'a0.%s.0.len' % dc('mFlatOutputGates')), ('ad', 'MZ', 'addr.*a0.%s.0.0@.0.0.0' % dc('mFlatOutputGates'))]
LeanLemma('dn07', 'dn07', 'sharings of the baseline', [
    Export('multSend', 'dn07', DN + 'MultPartiesSendP1(unsigned long)', (DNET, (0, 1024, 0)),
           [DME, DT, DL, DLEN] + DOPS + [('dsh', 'V', 'a0.%s.{tp::DoubleShr.dshr}' % dn('mDShrs'))] + DINS),
    Export('p1Opens', 'dn07', DN + 'MultP1Receives(unsigned long)', ('a0', (dn('mP1SharesToSend'), 0, 0)),
           [DME, DN_, DT, DL, DLEN] + inr(DNET) + DQ + DOUT[:2] + [I, ('i1', 'Z', None)]),
    Export('p1Sends', 'dn07', DN + 'MultP1SendsParties(unsigned long)', (DNET, (0, 1024, 0)), [DME, DT, DL, DLEN] + DOUT[1:] + DINS),
    Export('multGets', 'dn07', DN + 'MultPartiesReceive(unsigned long)', ('*a0.%s.0.0' % dc('mFlatMultLayers'), (0, 0, '{tp::Gate.mDn07Share}')),
           [DME, DT, DL, DLEN] + DOPS[3:] + [('shr', 'V', 'a0.%s.{tp::DoubleShr.shr}' % dn('mDShrs'))] + inr(DNET) + [('prev', 'M', '*a0.%s.0.0.0.0.{tp::Gate.mDn07Share}' % dc('mFlatMultLayers')), I, ('i1', 'Z', None)]),
    Export('fdKeep', 'dn07', DN + 'FDMultP1Receives()', ('a0', (dn('mMapP1SharesFromLast'), 0, 0)),
           [DME, DN_, DT, DLEN, ('layers', 'Z', 'a0.%s.len' % dc('mFlatMultLayers')), ('depth', 'Z', 'a0.%s.len' % dc('mMultLayers'))] + inr(DNET) + [DQ[0], DQ[2], I, ('i1', 'Z', None)]),
    Export('inMask', 'dn07', DN + 'InputPartiesSendOwners()', (DNET, (0, 1024, 0)), [DME, DT, ('clients', 'Z', 'a0.' + dc('mClients'))] + DIN + DINS),
    Export('inShare', 'dn07', DN + 'InputOwnersReceiveAndSendParties()', (DNET, (0, 1024, 0)),
           [DME, DN_, DT, DIN[0], ('value', 'M', '*a0.%s.0.0.0.0.{tp::InputGate.mValue}' % dc('mFlatInputGates'))] + inr(DNET) + DINS),
    Export('inGets', 'dn07', DN + 'InputPartiesReceive()', ('*a0.%s.0.0' % dc('mFlatInputGates'), (0, 0, '{tp::Gate.mDn07Share}')),
           [DME, DT, ('clients', 'Z', 'a0.' + dc('mClients'))] + DIN + inr(DNET) + [('prev', 'M', '*a0.%s.0.0.0.0.{tp::Gate.mDn07Share}' % dc('mFlatInputGates')), I, ('i1', 'Z', None)]),
    Export('single', 'dn07', DN + 'PrepPartiesReceive()', ('a0', (dn('mRShrs'), 0)), DPREP),
    Export('doubleT', 'dn07', DN + 'PrepPartiesReceive()', ('a0', (dn('mDShrs'), '{tp::DoubleShr.shr}')), DPREP),
    Export('double2T', 'dn07', DN + 'PrepPartiesReceive()', ('a0', (dn('mDShrs'), '{tp::DoubleShr.dshr}')), DPREP),
    Export('outSend', 'dn07', DN + 'OutputPartiesSendOwners()', (DNET, (0, 1024, 0)),
           [DME, DT, ('clients', 'Z', 'a0.' + dc('mClients')), ('dn07', 'V', 'gate.dn07')] + DOUTS + DINS),
    Export('outOpen', 'dn07', DN + 'OutputOwnersReceive()', ('a0', (dn('mMapResults'), 0)),
           [DME, DT, ('turn', 'W', 'ghost.turn')] + DOUTS + inr(DNET) + [('old', 'V', 'a0.%s.0' % dn('mMapResults')), I]),
    memo('tp::AddGate', 'dn07', 'GetDn07Share', 'mDn07Set', 'mDn07Share'), memo('tp::OutputGate', 'dn07', 'GetDn07Share', 'mDn07Set', 'mDn07Share'),
    memo('tp::AddGate', *CLR), memo('tp::MultGate', *CLR), memo('tp::OutputGate', *CLR),
])
