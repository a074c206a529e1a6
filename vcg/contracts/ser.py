"""Serialization of vectors and matrices: elements laid out one after the other, eight bytes each.  How one
element is read from and written to eight bytes is FF<61>'s business (contracts of P02): here `ff8` is the
element eight bytes stand for and `byte` the j-th byte written for an element."""
from .lib import *
from .mat import M, V, MV, wf, INV

FFB = 8


def byte(x, j):
    return T.app('by', x, j)


def ff8(b):
    """the element the bytes b(0) .. b(7) stand for; the one that was written, if they were written"""
    return T.app('ff8', *[b(j) for j in range(FFB)])


def bytes_at(v, p):
    return lambda i: read_key(v.pre, p.root, p.offs, p.idx[:-1] + (p.idx[-1] + i,)) if p.idx else None


def put(v, p, n, f):
    """bytes p[0 .. n) := f(i)"""
    from ..exec import getcell_mem
    key = (p.root, p.offs)
    d = len(p.idx) - 1
    i = IDX[d] - p.idx[d]
    cond = ge0(i) * lt(i, n)
    for e in range(d):
        cond = cond * T.eq(IDX[e], p.idx[e])
    v.st.mem[key] = ite(cond, f(i), getcell_mem(v.st.mem, key))


def _read(v):
    p = v.args[0]
    v.ret = ff8(bytes_at(v, p))


def _write(v):
    x, p = v.F(v.args[0]), v.args[1]
    put(v, p, const(FFB), lambda i: byte(x, i))


def _next(v):
    g, p, n = v.args
    c0 = v.rnd(g)
    put(v, p, n, lambda i: T.app('rndbyte', v.w.addr(g), c0, i))
    v.setrnd(g, c0 + 1)


ASSUMED = [Contract('scl::PRG::Next(unsigned char*, unsigned long)', [PRG + '*', 'arr:unsigned char', 'u64'], _next),
           Contract('FF61::Read(unsigned char const*)', ['arr:unsigned char'], _read),
           Contract('FF61::Write(unsigned char*) const', ['FF61*', 'arr:unsigned char'], _write)]


def wser(env):
    key = 'Wser'
    if key not in env.worlds:
        from ..world import World
        m, lay = env.module('m61', ['tu:scl61'])
        w = World(m, lay)
        for c in ASSUMED:
            w.contracts[c.name] = c
        env.worlds[key] = w
    return env.worlds[key]


WORLDS['serial'] = wser


def elem(b, i):
    return ff8(lambda j: b(FFB * i + j))


@con('serial', V + '::Read(unsigned long, unsigned char const*)', ['sret:' + V, 'u64', 'arr:unsigned char'])
def _(v):
    r, n, p = v.args
    b = bytes_at(v, p)
    v.setvec(r, n, lambda i: elem(b, i))


def laid_out(v, p, n, f):
    """n elements, consecutively"""
    def at(i):
        q = idiv(i, const(FFB))
        return byte(f(q), i - FFB * q)
    put(v, p, FFB * n, at)


@con('serial', V + '::Write(unsigned char*) const', [V + '*', 'arr:unsigned char'])
def _(v):
    a, p = v.args
    laid_out(v, p, v.len(a), lambda i: v.el(a, i))


@con('serial', V + '::ByteSize() const', [V + '*'])
def _(v):
    v.ret = FFB * v.len(v.args[0])


@con('serial', V + '::Random(unsigned long, scl::PRG&)', ['sret:' + V, 'u64', PRG + '*'])
def _(v):
    r, n, g = v.args
    c0 = v.rnd(g)
    v.setvec(r, n, lambda i: v.rndval(g, c0 + i))
    v.setrnd(g, c0 + n)


@con('serial', M + '::Read(unsigned long, unsigned long, unsigned char const*)', ['sret:' + M, 'u64', 'u64', 'arr:unsigned char'])
def _(v):
    n, m, p = v.args[1:]
    b = bytes_at(v, p)
    r = MV(v, v.args[0])
    r.shape(n, m)
    r.fill(n * m, lambda i: elem(b, i))


@con('serial', M + '::Write(unsigned char*) const', [M + '*', 'arr:unsigned char'], pre=wf(0))
def _(v):
    a = MV(v, v.args[0])
    laid_out(v, v.args[1], a.rows * a.cols, a.flat)


@con('serial', V + '::ToColumnMatrix() const', ['sret:' + M, V + '*'])
def _(v):
    r, a = MV(v, v.args[0]), v.args[1]
    r.shape(v.len(a), ONE)
    r.fill(v.len(a), lambda i: v.el(a, i))


@con('serial', V + '::ToRowMatrix() const', ['sret:' + M, V + '*'])
def _(v):
    r, a = MV(v, v.args[0]), v.args[1]
    r.shape(ONE, v.len(a))
    r.fill(v.len(a), lambda i: v.el(a, i))


@con('serial', M + '::Random(unsigned long, unsigned long, scl::PRG&)', ['sret:' + M, 'u64', 'u64', PRG + '*'])
def _(v):
    n, m, g = v.args[1:]
    c0 = v.rnd(g)
    r = MV(v, v.args[0])
    r.shape(n, m)
    # one request of n m elements' bytes, read in order
    r.fill(n * m, lambda i: ff8(lambda j: T.app('rndbyte', v.w.addr(g), c0, FFB * i + j)))
    v.setrnd(g, c0 + 1)


def roundtrip():
    """reading n elements where n elements were written gives those elements (by(x, 0..7) stand for x:
    the round trip of one element, P02)"""
    n, i = sym('n'), sym('i')
    x = lambda e: T.app('x', e)
    old = lambda o: T.app('old', o)

    def mem(o):
        q = idiv(o, const(FFB))
        return ite(ge0(o) * lt(o, FFB * n), byte(x(q), o - FFB * q), old(o))
    facts = [le(0, i), lt(i, n)]
    ctx = Ctx().plus(*facts)
    return [('element', elem(mem, i) - ff8(lambda j: byte(x(i), const(j))), facts)]


Lemma('serial', 'reading back what was written gives the same elements', roundtrip)
