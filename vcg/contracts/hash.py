"""P04: SHA3.  Keccakf = Keccak-f[1600] of FIPS 202 (round constants, offsets and lane order derived here
from the standard's recurrences); Update absorbs the bytes one by one into the abstract sponge, for every
chunk length and every starting position; Finalize pads, permutes and truncates."""
from ..wspec import *
from . import lib
from .fields import SRC

G = lib.GROUPS.setdefault('hash', [])
M64 = (1 << 64) - 1


def add(name, body):
    G.append(WC(name, SRC, body))


def bv(x):
    return z3.BitVecVal(x, 64)


# ------------------------------------------------------------------ FIPS 202
def rc(t):
    """rc(t) of FIPS 202, algorithm 5"""
    if t % 255 == 0:
        return 1
    r = [1, 0, 0, 0, 0, 0, 0, 0]
    for _ in range(t % 255):
        r = [0] + r
        for k in (0, 4, 5, 6):
            r[k] ^= r[8]
        r = r[:8]
    return r[0]


RC = [sum(rc(j + 7 * i) << ((1 << j) - 1) for j in range(7)) for i in range(24)]
OFFS = {(0, 0): 0}
_x, _y = 1, 0
for _t in range(24):
    OFFS[(_x, _y)] = ((_t + 1) * (_t + 2) // 2) % 64
    _x, _y = _y, (2 * _x + 3 * _y) % 5


def rotl(a, n):
    return z3.RotateLeft(a, n) if n else a


def spec_round(A, i):
    """A: 25 lanes, lane (x, y) at index x + 5 y"""
    C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
    D = [C[(x - 1) % 5] ^ rotl(C[(x + 1) % 5], 1) for x in range(5)]
    A = [A[x + 5 * y] ^ D[x] for y in range(5) for x in range(5)]
    B = [None] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(A[x + 5 * y], OFFS[(x, y)])
    R = [B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]) for y in range(5) for x in range(5)]
    R[0] = R[0] ^ bv(RC[i])
    return R


def word(ex, st, o, off, bits=64):
    return ex.load(st, Ptr(o, off), _T(bits))


class _T:
    kind = 'int'

    def __init__(self, bits):
        self.bits, self.size = bits, bits // 8


KNAME = 'scl::details::Keccakf(unsigned long*)'


def keccakf(W):
    f = W.fn(KNAME)
    o, a = obj_words('state', 25, 64)

    def inv(env, g, st, ex, pre):
        return [('the state is round %d of the specification' % g['n'], z3.And(*[word(ex, st, o, 8 * j) == g['A%d' % j] for j in range(25)]))]

    def step(g, env, pre, st, ex):
        if g['n'] >= 24:
            raise Unsupported('more than 24 rounds')
        B = spec_round([g['A%d' % j] for j in range(25)], g['n'])
        for j in range(25):
            g['A%d' % j] = B[j]
        g['n'] += 1

    def havoc(env, g, st, ex):
        for j in range(25):
            ex.store(st, Ptr(o, 8 * j), z3.FreshConst(z3.BitVecSort(64), 'st'), 8)
        st.ghost['rounds'] = g['n']
        st.ghost['A'] = [g['A%d' % j] for j in range(25)]
        return [o]
    loop = LoopSpec(lambda fn: fn.dem == KNAME, 0, [], inv, havoc=havoc, step=step, unroll=True,
                    ghosts=[('A%d' % j, (lambda j: lambda e, st, ex: word(ex, st, o, 8 * j))(j)) for j in range(25)] + [('n', lambda e, st, ex: 0)])
    ex = W.ex(loops=[loop])
    n = 0
    for s, r in ex.run(f, State(), [Ptr(o)]):
        if r[0] == 'cut':
            continue
        n += 1
        if r[0] != 'ret':
            W.ob('returns', False, str(r))
            continue
        W.ob('ensures 24 rounds are applied', s.ghost.get('rounds') == 24, 'rounds: %s' % s.ghost.get('rounds'))
        W.goal(ex, s, z3.And(*[word(ex, s, o, 8 * j) == s.ghost['A'][j] for j in range(25)]), 'ensures the state is Keccak-f of the old state')
        W.ob('writes only the state', True)
    if not n and not ex.failures:
        raise Unsupported('no path returns')
    W.finish(ex)


add(KNAME, keccakf)


# ------------------------------------------------------------------ the sponge
KF = [z3.Function('K%d' % i, *([z3.BitVecSort(64)] * 26)) for i in range(25)]


def K(A):
    return [k(*A) for k in KF]


def kmodel(ex, st, args, ins):
    o, off = args[0].obj, ex.concrete(st, args[0].off, args[0].obj)
    A = [word(ex, st, o, off + 8 * j) for j in range(25)]
    for j, v in enumerate(K(A)):
        ex.store(st, Ptr(o, off + 8 * j), v, 8)
    return [(st, JUNK)]


KMODEL = (lambda fn, ins: fn is not None and fn.dem == KNAME, kmodel)


def unique(ex, st, v):
    """the constant v equals on this path, if there is one"""
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v
    if ex.check(st.cond) == z3.sat:
        c = ex.model.eval(v, model_completion=True)
        if ex.check(st.cond + [v != c]) == z3.unsat:
            return c
    return v


def normalise(ex, st, a, rate):
    """a completed word (b = 8) moves on to the next one; a completed block is permuted"""
    A, w, b = a
    full = z3.simplify(b == 8)
    if z3.is_false(full) or not ex.feasible(st, full):
        return a
    w2 = z3.simplify(z3.If(full, w + 1, w))
    b2 = z3.simplify(z3.If(full, z3.BitVecVal(0, 32), b))
    end = z3.simplify(w2 == rate)
    if not z3.is_false(end) and ex.feasible(st, end):
        A = [z3.simplify(z3.If(end, k, a)) for k, a in zip(K(A), A)]
        w2 = z3.simplify(z3.If(end, z3.BitVecVal(0, 32), w2))
    return A, w2, b2


def absorb1(ex, st, a, byte, rate):
    """absorb one byte at word w, byte b of the block; returns (A, w, b)"""
    A, w, b = normalise(ex, st, a, rate)
    x = z3.ZeroExt(56, byte) << (z3.ZeroExt(32, b) * 8)
    A = [z3.simplify(z3.If(w == j, a ^ x, a)) if j < rate else a for j, a in enumerate(A)]
    return A, w, z3.simplify(b + 1)


class Sponge:
    def __init__(self, W, B):
        self.B = B
        self.cls = 'scl::details::Hash<%d>' % B
        rec = W.lay.rec.get('scl::details::Hash<%dul>' % B) or W.lay.rec.get(self.cls)
        if rec is None:
            raise Unsupported('layout of ' + self.cls)
        self.size = rec[0]
        od = {n: off for off, t, n in rec[1]}
        try:
            self.f = [od[n] for n in ('mState', 'mSaved', 'mByteIndex', 'mWordIndex')]
        except KeyError as e:
            raise Unsupported('field %s' % e)
        self.rate = 25 - 2 * B // 64

    def conc(self, ex, st, o):
        S, sv, bi, wi = self.f
        return [word(ex, st, o, S + 8 * j) for j in range(25)], word(ex, st, o, sv), word(ex, st, o, bi, 32), word(ex, st, o, wi, 32)

    def wf(self, A, sv, b, w, closed=True):
        s64 = z3.ZeroExt(32, b)
        low = z3.Or(b == 8, z3.LShR(sv, s64 * 8) == 0)
        return [('mWordIndex below the rate', z3.ULT(w, self.rate)), ('mByteIndex in a word', z3.ULT(b, 8) if closed else z3.ULE(b, 8)), ('mSaved holds mByteIndex bytes', low)]

    def abstract(self, ex, st, o):
        A, sv, b, w = self.conc(ex, st, o)
        w, b = unique(ex, st, w), unique(ex, st, b)
        A = [z3.simplify(z3.If(w == j, a ^ sv, a)) for j, a in enumerate(A)]
        return A, w, b

    def equal(self, ex, st, x, y):
        return eqabs(normalise(ex, st, x, self.rate), normalise(ex, st, y, self.rate))

    def fresh(self, ex, st, o, what):
        S, sv, bi, wi = self.f
        if 'state' in what:
            for j in range(25):
                ex.store(st, Ptr(o, S + 8 * j), z3.FreshConst(z3.BitVecSort(64), 'A'), 8)
        if 'saved' in what:
            ex.store(st, Ptr(o, sv), z3.FreshConst(z3.BitVecSort(64), 'saved'), 8)
        if 'byte' in what:
            ex.store(st, Ptr(o, bi), z3.FreshConst(z3.BitVecSort(32), 'byte'), 4)
        if 'word' in what:
            ex.store(st, Ptr(o, wi), z3.FreshConst(z3.BitVecSort(32), 'word'), 4)


def eqabs(x, y):
    return z3.And(x[1] == y[1], x[2] == y[2], *[p == q for p, q in zip(x[0], y[0])])


def update(B):
    def body(W):
        H = Sponge(W, B)
        fname = 'scl::details::Hash<%dul>::Update(unsigned char const*, unsigned long)' % B
        f = W.fn(fname)
        o = Obj('hash', H.size)
        inp = Obj('input', None, z3.Const('input', z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))))
        base, N = z3.BitVec('base', 64), z3.BitVec('N', 64)
        arr = inp.arr0
        c0v = {}

        def gst(g):
            return [g['A%d' % j] for j in range(25)], g['w'], g['b']

        def setg(g, a):
            for j in range(25):
                g['A%d' % j] = a[0][j]
            g['w'], g['b'] = a[1], a[2]

        def cur(st, k):
            return st.ghost['cur'][k]

        ghosts = [('A%d' % j, (lambda j: lambda e, st, ex: cur(st, 'A%d' % j))(j)) for j in range(25)] + \
                 [(n, (lambda n: lambda e, st, ex: cur(st, n))(n)) for n in ('w', 'b', 'c')]

        def stepper(d):
            def step(g, env, pre, st, ex):
                a = gst(g)
                a = (a[0], unique(ex, st, a[1]), unique(ex, st, a[2]))
                at = base + g['c']
                for p in env['$phis'].values():
                    if isinstance(p, Ptr) and p.obj is inp and not isinstance(p.off, int):
                        at = p.off - d      # the invariant says it is the same; keeps the terms in one form
                for i in range(d):
                    a = absorb1(ex, st, a, z3.Select(arr, z3.simplify(at + i)), H.rate)
                setg(g, a)
                g['c'] = z3.simplify(g['c'] + d)
            return step

        def mk(ordinal, d, havoc_what, rel):
            def inv(env, g, st, ex, pre):
                A, sv, b, w = H.conc(ex, st, o)
                out = H.wf(A, sv, b, w, closed=False)
                for p in env['$phis'].values():
                    if isinstance(p, Ptr) and p.obj is inp:
                        out.append(('p = bytes + absorbed', (p.off if not isinstance(p.off, int) else bv(p.off)) == base + g['c']))
                out += [('absorbed at most nbytes', z3.ULE(g['c'], N)),
                        ('counters', rel(g['it'], g['c'], z3.ZeroExt(32, b), z3.ZeroExt(32, cur0['b']), sv))]
                out += [('the sponge has absorbed bytes [0, p - bytes)', (H.equal(ex, st, H.abstract(ex, st, o), gst(g)) if ordinal == 2 else eqabs(H.abstract(ex, st, o), gst(g))))]
                return out

            def havoc(env, g, st, ex):
                H.fresh(ex, st, o, havoc_what)
                setg(g, H.abstract(ex, st, o))      # the ghost is the abstraction: eliminates the equalities of the invariant
                st.ghost['cur'] = dict(g)
                return [o]
            return LoopSpec(lambda fn: fn.dem == fname, ordinal, [], inv, havoc=havoc, ghosts=ghosts, step=stepper(d), linear='it')

        cur0 = {}
        c0 = lambda b0: (8 - b0) & 7
        words = lambda b0: z3.UDiv(N - c0(b0), bv(8))

        def make():
            return [
                mk(0, 1, ('saved', 'byte'), lambda it, c, b, b0, sv: z3.And(c == it, b == b0 + c, z3.ULT(N, c0(b0)))),
                mk(1, 1, ('saved', 'byte'), lambda it, c, b, b0, sv: z3.And(c == it, b == b0 + c, b0 != 0, z3.ULE(c0(b0), N))),
                mk(2, 8, ('state', 'word'), lambda it, c, b, b0, sv: z3.And(c == c0(b0) + 8 * it, z3.ULE(c0(b0), N), z3.ULE(it, words(b0)), b == 0, sv == 0)),
                mk(3, 1, ('saved', 'byte'), lambda it, c, b, b0, sv: z3.And(z3.ULE(c0(b0), N), c == c0(b0) + 8 * words(b0) + it, b == it)),
            ]

        def verify(loops):
            ex = W.ex(models=[KMODEL], loops=loops, timeout=30000)
            st = State()
            A, sv, b, w = H.conc(ex, st, o)
            cur0['b'] = b
            for l in loops:
                if l.ordinal == 2:
                    l.keep = {'N', 'base', str(b)}
            st.cond = [x for _, x in H.wf(A, sv, b, w)] + [z3.ULT(N, bv(1 << 40)), z3.ULT(base, bv(1 << 40))]
            a0 = H.abstract(ex, st, o)
            g = {'c': bv(0)}
            setg(g, a0)
            st.ghost['cur'] = g
            n = 0
            for s, r in ex.run(f, st, [Ptr(o), Ptr(inp, base), N]):
                if r[0] == 'cut':
                    continue
                n += 1
                if r[0] != 'ret':
                    W.ob('returns', False, str(r))
                    continue
                W.ob('ensures returns *this', isinstance(r[1], Ptr) and r[1].obj is o and r[1].off == 0)
                g = s.ghost['cur']
                for what, x in H.wf(*H.conc(ex, s, o)):
                    W.goal(ex, s, x, 'invariant kept: ' + what)
                W.goal(ex, s, g['c'] == N, 'ensures every byte is absorbed')
                W.goal(ex, s, H.equal(ex, s, H.abstract(ex, s, o), gst(g)), 'ensures the sponge has absorbed the bytes in order')
                W.ob('ensures the input is unchanged', s.mem.get(inp, arr) is arr or s.mem[inp].eq(arr))
            if not n and not ex.failures:
                raise Unsupported('no path returns')
            W.finish(ex)
        def small(n, b0, w0):
            ex = W.ex(models=[KMODEL], timeout=30000)
            st = State()
            A, sv, b, w = H.conc(ex, st, o)
            ex.store(st, Ptr(o, H.f[2]), z3.BitVecVal(b0, 32), 4)
            ex.store(st, Ptr(o, H.f[3]), z3.BitVecVal(w0, 32), 4)
            ex.store(st, Ptr(o, H.f[1]), z3.simplify(sv & bv((1 << (8 * b0)) - 1)), 8)
            a = H.abstract(ex, st, o)
            for i in range(n):
                a = absorb1(ex, st, a, z3.Select(arr, z3.simplify(base + i)), H.rate)
            for s, r in ex.run(f, st, [Ptr(o), Ptr(inp, base), bv(n)]):
                if r[0] == 'ret':
                    W.goal(ex, s, H.equal(ex, s, H.abstract(ex, s, o), a), 'ensures the sponge has absorbed the bytes in order')
        with_perms(W, make, verify, lambda: [('%d bytes, byte index %d, word index %d' % q, lambda q=q: small(*q))
                                             for n in (0, 1, 3, 7, 8, 9, 16, 21) for b0 in (0, 1, 4, 7) for w0 in (0, H.rate - 1) for q in [(n, b0, w0)]])
    return body


def finalize(B):
    def body(W):
        H = Sponge(W, B)
        f = W.fn('scl::details::Hash<%dul>::Finalize()' % B)
        o, dg = Obj('hash', H.size), Obj('digest', B // 8)
        ex = W.ex(models=[KMODEL])
        st = State()
        A, sv, b, w = H.conc(ex, st, o)
        st.cond = [x for _, x in H.wf(A, sv, b, w)]
        A0, w0, b0 = H.abstract(ex, st, o)
        n = 0
        for s, r in ex.run(f, st, [Ptr(dg), Ptr(o)]):
            n += 1
            if r[0] != 'ret':
                W.ob('returns', False, str(r))
                continue
            wc = unique(ex, s, w0)
            pad = bv(6) << (z3.ZeroExt(32, b0) * 8)
            P = [z3.simplify(z3.If(wc == j, a ^ pad, a)) for j, a in enumerate(A0)]
            P[H.rate - 1] = P[H.rate - 1] ^ bv(1 << 63)
            R = K(P)
            W.goal(ex, s, z3.And(*[word(ex, s, dg, 8 * j) == R[j] for j in range(B // 64)]),
                   'ensures the digest is the first %d bits of Keccak-f of the padded state' % B)
        if not n:
            raise Unsupported('no path returns')
        W.finish(ex)
    return body


def ctor(B):
    def body(W):
        H = Sponge(W, B)
        f = W.fn('scl::details::Hash<%dul>::Hash()' % B)
        o = Obj('hash', H.size)
        ex = W.ex()
        for s, r in ex.run(f, State(), [Ptr(o)]):
            A, sv, b, w = H.conc(ex, s, o)
            W.goal(ex, s, z3.And(*[x == 0 for x in A + [sv]] + [b == 0, w == 0]), 'ensures the sponge is empty')
        W.finish(ex)
    return body


def update_vec(B):
    def body(W):
        cls = 'scl::details::Hash<%dul>::Update' % B
        f = W.fn(cls + '(std::vector<unsigned char> const&)')
        inner = cls + '(unsigned char const*, unsigned long)'
        o = Obj('hash', 400)
        inp = Obj('input', None, z3.Const('input', z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))))
        base, N = z3.BitVec('base', 64), z3.BitVec('N', 64)
        vec = Obj('bytes', 24)
        vec.ptrs = {0: Ptr(inp, base), 8: Ptr(inp, base + N), 16: Ptr(inp, base + N)}
        calls = []

        def model(ex, st, args, ins):
            calls.append(1)
            ex.oblige(st, z3.And(z3.BoolVal(args[0].obj is o and args[1].obj is inp), args[1].off == base, args[2] == N), 'Update(bytes.data(), bytes.size()) is called')
            st.events.append('update')
            return [(st, args[0])]
        ex = W.ex(models=[(lambda fn, ins: fn is not None and fn.dem == inner, model)])
        for s, r in ex.run(f, State(), [Ptr(o), Ptr(vec)]):
            W.ob('ensures the bytes of the vector are absorbed exactly once', s.events == ['update'], str(s.events))
            W.ob('returns *this', r[0] == 'ret' and isinstance(r[1], Ptr) and r[1].obj is o)
        W.finish(ex)
    return body


for _B in (256, 384, 512):
    c = 'Hash<%d>::' % _B
    add(c + 'Hash()', ctor(_B))
    add(c + 'Update(const unsigned char*, std::size_t)', update(_B))
    add(c + 'Update(const std::vector<unsigned char>&)', update_vec(_B))
    add(c + 'Finalize()', finalize(_B))
