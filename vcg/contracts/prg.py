"""P05: the generator is AES-128 in counter mode.  The AES instructions are given their Intel SDM meaning
(the S-box and the round function stay uninterpreted: specification and code share them); the key schedule
is FIPS-197's, the block for counter c is AES(key, c || nonce)."""
from ..wspec import *
from ..word import Fun
from .wmodels import *
from . import lib
from .fields import SRC

G = lib.GROUPS.setdefault('prg', [])
V128 = z3.BitVecSort(128)
SBOX = z3.Function('Sbox', z3.BitVecSort(8), z3.BitVecSort(8))
ENC = z3.Function('AesRound', V128, V128)        # MixColumns(SubBytes(ShiftRows(s)))
ENCL = z3.Function('AesLastRound', V128, V128)   # SubBytes(ShiftRows(s))
KEYASSIST = 'llvm.x86.aesni.aeskeygenassist'


def lane(x, i):
    return z3.Extract(32 * i + 31, 32 * i, x)


def subword(w):
    return z3.Concat(*[SBOX(z3.Extract(8 * i + 7, 8 * i, w)) for i in (3, 2, 1, 0)])


def rotword(w):         # [a0,a1,a2,a3] -> [a1,a2,a3,a0], a0 the lowest byte
    return z3.RotateRight(w, 8)


def m_assist(ex, st, args, ins):
    x, r = args[0], args[1]
    rc = z3.ZeroExt(24, r)
    s1, s3 = subword(lane(x, 1)), subword(lane(x, 3))
    return [(st, z3.simplify(z3.Concat(rotword(s3) ^ rc, s3, rotword(s1) ^ rc, s1)))]


AES = [(lambda fn, ins: fn is not None and fn.name == KEYASSIST, m_assist),
       (lambda fn, ins: fn is not None and fn.name == 'llvm.x86.aesni.aesenc', lambda ex, st, a, ins: [(st, z3.simplify(ENC(a[0]) ^ a[1]))]),
       (lambda fn, ins: fn is not None and fn.name == 'llvm.x86.aesni.aesenclast', lambda ex, st, a, ins: [(st, z3.simplify(ENCL(a[0]) ^ a[1]))])]


def key_schedule(key):
    """FIPS-197 section 5.2 on little-endian words"""
    w = [lane(key, i) for i in range(4)]
    rcon = 1
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = subword(rotword(t)) ^ z3.BitVecVal(rcon, 32)
            rcon = (rcon << 1) ^ (0x11b if rcon & 0x80 else 0)
        w.append(w[i - 4] ^ t)
    return [z3.Concat(*w[4 * r:4 * r + 4][::-1]) for r in range(11)]


def aes(ks, m):
    m = m ^ ks[0]
    for r in range(1, 10):
        m = ENC(m) ^ ks[r]
    return ENCL(m) ^ ks[10]


class L:
    def __init__(self, W):
        rec = W.lay.rec.get('scl::PRG')
        if rec is None:
            raise Unsupported('layout of scl::PRG')
        od = {n: off for off, t, n in rec[1]}
        self.size = rec[0]
        try:
            self.seed, self.ctr, self.st = od['mSeed'], od['mCounter'], od['mState']
        except KeyError as e:
            raise Unsupported('field %s' % e)

    def rd(self, ex, st, o, off, bits):
        return ex.load(st, Ptr(o, off), _T(bits))

    def keys(self, ex, st, o):
        return [self.rd(ex, st, o, self.st + 16 * i, 128) for i in range(11)]


class _T:
    kind = 'int'

    def __init__(self, bits):
        self.bits, self.size = bits, bits // 8


def consts(W):
    """PRG_INITIAL_COUNTER and PRG_NONCE are configuration: any fixed values are right, but they must be the
    same ones throughout; they are read off the default constructor and the first block"""
    return None


def setup_ok(W, ex, s, l, o, key, ctr):
    ks = key_schedule(key)
    got = l.keys(ex, s, o)
    for r in range(11):
        W.goal(ex, s, got[r] == ks[r], 'ensures round key %d is the one of FIPS-197' % r)
    W.goal(ex, s, l.rd(ex, s, o, l.seed, 128) == key, 'ensures the seed is stored unchanged')
    W.goal(ex, s, l.rd(ex, s, o, l.ctr, 64) == ctr, 'ensures the counter is the initial one')


def initial(W):
    """the initial counter: what the default constructor leaves"""
    l = L(W)
    ex = W.ex(models=AES)
    o = Obj('prg', l.size)
    vs = [l.rd(ex, s, o, l.ctr, 64) for s, r in ex.run(W.fn('scl::PRG::PRG()'), State(), [Ptr(o)])]
    if len(vs) != 1 or not z3.is_bv_value(vs[0]):
        raise Unsupported('the initial counter is not a constant')
    return vs[0]


def ctor(kind):
    def body(W):
        l = L(W)
        c0 = initial(W)
        ex = W.ex(models=AES)
        o = Obj('prg', l.size)
        st = State()
        if kind == 'default':
            outs = ex.run(W.fn('scl::PRG::PRG()'), st, [Ptr(o)])
            key = z3.BitVecVal(0, 128)
        elif kind == 'seed':
            sd = Obj('seed', 16)
            key = z3.BitVec('key', 128)
            sd.init[(0, 16)] = key
            outs = ex.run(W.fn('scl::PRG::PRG(unsigned char const*)'), st, [Ptr(o), Ptr(sd)])
        else:
            key = l.rd(ex, st, o, l.seed, 128)
            l.keys(ex, st, o), l.rd(ex, st, o, l.ctr, 64)
            outs = ex.run(W.fn('scl::PRG::Reset()'), st, [Ptr(o)])
        for s, r in outs:
            W.ob('returns', r[0] == 'ret', str(r))
            setup_ok(W, ex, s, l, o, key, c0)
        W.finish(ex)
    return body


NEXT = 'scl::PRG::Next(unsigned char*, unsigned long)'


def block(ks, ctr, nonce):
    return aes(ks, z3.Concat(nonce, ctr))


def nonce_of(W):
    """the upper half of the counter block of the first block: read off by running Next for one block"""
    l = L(W)
    got = []

    def spy(ex, st, a, ins):
        got.append(a[0])
        return [(st, ENC(a[0]) ^ a[1])]
    ex = W.ex(models=[(AES[1][0], spy), AES[2]] + HEAP)
    o, d = Obj('prg', l.size), byte_obj('dest')
    st = State()
    for r in range(11):
        ex.store(st, Ptr(o, l.st + 16 * r), z3.BitVecVal(0, 128), 16)
    ctr = l.rd(ex, st, o, l.ctr, 64)
    ex.run(W.fn(NEXT), st, [Ptr(o), Ptr(d), z3.BitVecVal(16, 64)])
    if not got:
        raise Unsupported('no block is encrypted')
    m = z3.simplify(got[0])
    n = z3.simplify(z3.Extract(127, 64, m))
    if not z3.is_bv_value(n):
        raise Unsupported('the nonce is not a constant')
    return n


def nxt(W):
    l = L(W)
    nonce = nonce_of(W)
    f = W.fn(NEXT)
    N = z3.BitVec('nbytes', 64)
    o, d = Obj('prg', l.size), byte_obj('dest')
    st0 = State()
    ex0 = W.ex()
    ks = l.keys(ex0, st0, o)
    c0 = l.rd(ex0, st0, o, l.ctr, 64)
    nblocks = z3.UDiv(N, 16) + z3.If(z3.URem(N, 16) == 0, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))

    def stream(j):
        b = block(ks, c0 + z3.LShR(j, 4), nonce)
        sh = z3.ZeroExt(64, (j & 15) * 8)
        return z3.Extract(7, 0, z3.LShR(b, sh))
    J = z3.BitVec('j', 64)

    def make():
        def inv(env, g, st, ex, pre):
            i = z3.simplify(l.rd(ex, st, o, l.ctr, 64) - c0)
            allocs = [e for e in st.events if e[0] == 'alloc']
            if len(allocs) != 1:
                raise Unsupported('one buffer expected')
            _, n, buf = allocs[0]
            out = [('i <= nblocks', z3.ULE(i, nblocks)), ('the buffer holds nblocks blocks', n == nblocks * 16),
                   ]
            m = counter_block(st, pre)
            if m:
                out.append(('the mask is the next counter block', ex.load(st, Ptr(m, 0), _T(128)) == z3.Concat(nonce, c0 + i)))
            x = ex.content(st, buf)
            out.append(('blocks 0..i-1 are the stream', z3.Implies(z3.ULT(J, i * 16), rd_(x, J) == stream(J))))
            return out

        def counter_block(st, pre=None):
            """a 16-byte local that holds the next counter block across iterations, if there is one"""
            ms = [b for b in st.mem if b.name.startswith('%') and b.size == 16 and st.mem[b] and (pre is None or b in pre['mem'])]
            if len(ms) > 1:
                raise Unsupported('several counter block variables')
            return ms[0] if ms else None

        def havoc(env, g, st, ex):
            buf = [e for e in st.events if e[0] == 'alloc'][0][2]
            i = z3.FreshConst(z3.BitVecSort(64), 'i')
            old = fresh_bytes('rest')
            st.mem[buf] = Fun(lambda j: z3.If(z3.ULT(j, i * 16), stream(j), old(j)))
            ex.store(st, Ptr(o, l.ctr), c0 + i, 8)
            m = counter_block(st)
            if m:
                ex.store(st, Ptr(m, 0), z3.simplify(z3.Concat(nonce, c0 + i)), 16)
            return [o, buf] + ([m] if m else [])
        return [LoopSpec(lambda fn: fn.dem == NEXT, 0, [], inv, havoc=havoc, linear=lambda g, st: z3.simplify(l.rd(ex0, st, o, l.ctr, 64) - c0))]

    def rd_(x, j):
        return x(j)

    def verify(loops, fixed=None):
        ex = W.ex(models=AES + HEAP, loops=loops)
        st = st0.fork(z3.ULT(N, z3.BitVecVal(1 << 60, 64)))
        if fixed is not None:
            st = st.fork(N == fixed)
        st.ghost['mask'] = None
        d0 = ex.content(st, d)
        n = 0
        for s, r in ex.run(f, st, [Ptr(o), Ptr(d), N if fixed is None else z3.BitVecVal(fixed, 64)]):
            if r[0] == 'cut':
                continue
            n += 1
            if r[0] != 'ret':
                W.ob('returns', False, str(r))
                continue
            x = s.mem[d]
            W.goal(ex, s, z3.Implies(z3.ULT(J, N), x(J) == stream(J)), 'ensures dest[j] is byte j of the stream from the counter on')
            W.goal(ex, s, z3.Implies(z3.UGE(J, N), x(J) == d0(J)), 'ensures nothing beyond dest[nbytes) is written')
            W.goal(ex, s, l.rd(ex, s, o, l.ctr, 64) == c0 + nblocks, 'ensures the counter advances by the number of blocks, rounded up')
            W.goal(ex, s, z3.And(*[a == b for a, b in zip(l.keys(ex, s, o), ks)]), 'ensures the key schedule is unchanged')
            W.goal(ex, s, l.rd(ex, s, o, l.seed, 128) == l.rd(ex, st, o, l.seed, 128), 'ensures the seed is unchanged')
        if not n and not ex.failures:
            raise Unsupported('no path returns')
        W.finish(ex)
    with_perms(W, make, verify, lambda: [('nbytes = %d' % n, lambda n=n: verify([], n)) for n in (0, 1, 16, 17, 33)])


for _n, _k in (('PRG::PRG()', 'default'), ('PRG::PRG(const unsigned char*)', 'seed'), ('PRG::Reset()', 'reset')):
    G.append(WC(_n, SRC, ctor(_k)))
G.append(WC('PRG::Next(unsigned char*, std::size_t)', SRC, nxt))


def inner_model(calls):
    """the contract of Next(dest, n): writes n bytes of the stream; recorded"""
    def h(ex, st, a, ins):
        st.events.append(('next', a[1], a[2]))
        s = ex.ghost_stream
        x = ex.content(st, a[1].obj)
        st.mem[a[1].obj] = x.copy(z64(a[1].off), a[2], s, z3.BitVecVal(0, 64))
        return [(st, JUNK)]
    return [(dem(NEXT), h)]


def overload(kind):
    def body(W):
        ex = W.ex(models=inner_model(None) + HEAP + VEC)
        ex.ghost_stream = fresh_bytes('stream')
        S = ex.ghost_stream
        J = z3.BitVec('j', 64)
        o = Obj('prg', 400)
        N = z3.BitVec('nbytes', 64)
        st = State()
        v, buf, n = bytevec('dest')
        st.cond = [z3.ULT(N, z3.BitVecVal(1 << 60, 64)), z3.ULT(n, z3.BitVecVal(1 << 60, 64))]
        if kind == 'vec':
            outs = ex.run(W.fn('scl::PRG::Next(std::vector<unsigned char>&)'), st, [Ptr(o), Ptr(v)])
            N = n
        elif kind == 'vecn':
            outs = ex.run(W.fn('scl::PRG::Next(std::vector<unsigned char>&, unsigned long)'), st, [Ptr(o), Ptr(v), N])
        else:
            v = Obj('result', 24)
            outs = ex.run(W.fn('scl::PRG::Next(unsigned long)'), st, [Ptr(v), Ptr(o), N])
        for s, r in outs:
            if kind == 'vecn' and r[0] == 'throw':
                W.ob('throws std::invalid_argument', r[1] == 'std::invalid_argument', r[1])
                W.goal(ex, s, z3.ULT(n, N), 'throws only when the destination is too small')
                W.ob('throws before consuming', not [e for e in s.events if e[0] == 'next'])
                continue
            if r[0] != 'ret':
                W.ob('returns', False, str(r))
                continue
            calls = [e for e in s.events if e[0] == 'next']
            W.ob('ensures one request is made', len(calls) == 1, '%d' % len(calls))
            if kind == 'vecn':
                W.goal(ex, s, z3.ULE(N, n), 'a destination that is too small is rejected')
            W.goal(ex, s, calls[0][2] == N, 'ensures exactly nbytes are requested')
            b, e = vec_get(ex, s, Ptr(v))
            W.goal(ex, s, z64(e.off) - z64(b.off) == (N if kind == 'ret' else n), 'ensures the length')
            W.goal(ex, s, z3.Implies(z3.ULT(J, N), ex.content(s, b.obj)(z64(b.off) + J) == S(J)), 'ensures the bytes are those of the stream')
            if kind != 'ret':
                W.goal(ex, s, z3.Implies(z3.UGE(J, N), ex.content(s, b.obj)(z64(b.off) + J) == buf.arr0(J)), 'ensures the rest is unchanged')
        W.finish(ex)
    return body


for _n, _k in (('PRG::Next(std::vector<unsigned char>&)', 'vec'), ('PRG::Next(std::vector<unsigned char>&, std::size_t)', 'vecn'), ('PRG::Next(std::size_t)', 'ret')):
    G.append(WC(_n, SRC, overload(_k)))
