"""Contracts assumed for library functions outside the repository (allocation), used by word-level contracts."""
import z3
from ..word import Ptr, Obj, Fun, JUNK, Throw, NULL

NEW = {'_Znam': 'operator new[]', '_Znwm': 'operator new', 'malloc': 'malloc'}
FREE = ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm', 'free')


def fresh_bytes(name):
    a = z3.FreshConst(z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8)), name)
    return Fun(lambda j: z3.Select(a, j))


def byte_obj(name):
    o = Obj(name, None, fresh_bytes(name))
    return o


def alloc(ex, st, args, ins):
    n = args[0]
    o = byte_obj('heap')
    st.events.append(('alloc', n, o))
    o.len = n
    return [(st, Ptr(o, 0))]


def free(ex, st, args, ins):
    if isinstance(args[0], Ptr):
        st.events.append(('free', args[0].obj))
    return [(st, JUNK)]


def named(*names):
    return lambda fn, ins: fn is not None and fn.name in names


def dem(d):
    return lambda fn, ins: fn is not None and fn.dem == d


def demstart(*d):
    return lambda fn, ins: fn is not None and fn.dem.startswith(d)


def memset(ex, st, args, ins):
    """memset of a whole fresh allocation, or of a known number of bytes"""
    c = ex.dom.cval(args[2])
    x = ex.content(st, args[0].obj)
    if c is not None and c <= 4096:
        for k in range(c):
            ex.store(st, Ptr(args[0].obj, ex.padd(args[0].off, k)), args[1], 1)
    elif isinstance(x, Fun):
        d = args[0].off if not isinstance(args[0].off, int) else z3.BitVecVal(args[0].off, 64)
        v = args[1]
        st.mem[args[0].obj] = x.copy(d, args[2], Fun(lambda j: v), z3.BitVecVal(0, 64))
    else:
        from ..exec import Unsupported
        raise Unsupported('memset of symbolic size')
    return [(st, JUNK)]


HEAP = [(named(*NEW), alloc), (named(*FREE), free), (lambda fn, ins: fn is not None and fn.name.startswith('llvm.memset'), memset)]


# ------------------------------------------------------------------ std::vector<unsigned char> as (buffer, length)
def z64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def vec_set(ex, st, v, obj, lo, hi):
    off = v.off
    for k, p in ((0, lo), (8, hi), (16, hi)):
        ex.store(st, Ptr(v.obj, ex.padd(off, k)), Ptr(obj, p), 8)


class _P:
    kind, size = 'ptr', 8


def vec_get(ex, st, v):
    """(buffer object, begin, end) of the vector at v"""
    b, e = [ex.load(st, Ptr(v.obj, ex.padd(v.off, k)), _P) for k in (0, 8)]
    return b, e


def vec_range(ex, st, args, ins):
    v, a, b = args[0], args[1], args[2]
    o = byte_obj('vecbuf')
    if a is NULL:
        ex.store(st, Ptr(v.obj, ex.padd(v.off, 0)), NULL, 8)
        raise_unsup('range of null')
    ex.oblige(st, z3.And(z3.BoolVal(a.obj is b.obj), z3.ULE(z64(a.off), z64(b.off))), 'a vector is built from a valid range')
    n = z3.simplify(z64(b.off) - z64(a.off))
    o.len = n
    src = ex.content(st, a.obj)
    if isinstance(src, dict):
        raise_unsup('range over a non-buffer')
    st.mem[o] = Fun(rdshift(src, z64(a.off)))
    vec_set(ex, st, v, o, 0, n)
    return [(st, JUNK)]


def rdshift(src, off):
    from ..word import rdf
    f = rdf(src)
    return lambda j: f(j + off)


def raise_unsup(s):
    from ..exec import Unsupported
    raise Unsupported(s)


def vec_move(ex, st, args, ins):
    d, s = args[0], args[1]
    for k in (0, 8, 16):
        ex.store(st, Ptr(d.obj, ex.padd(d.off, k)), ex.load(st, Ptr(s.obj, ex.padd(s.off, k)), _P), 8)
    b, e = vec_get(ex, st, d)
    vec_set(ex, st, s, byte_obj('moved'), 0, 0)
    return [(st, d)]


def vec_insert(ex, st, args, ins):
    """insert(end(), first, last)"""
    v, pos, a, b = args[0], args[1], args[2], args[3]
    lo, hi = vec_get(ex, st, v)
    ex.oblige(st, z3.And(z3.BoolVal(pos.obj is hi.obj), z64(pos.off) == z64(hi.off)), 'insertion is at the end')
    ex.oblige(st, z3.And(z3.BoolVal(a.obj is b.obj), z3.ULE(z64(a.off), z64(b.off))), 'a valid range is inserted')
    old, add = rdshift(ex.content(st, lo.obj), z64(lo.off)), rdshift(ex.content(st, a.obj), z64(a.off))
    n0 = z3.simplify(z64(hi.off) - z64(lo.off))
    n = z3.simplify(n0 + z64(b.off) - z64(a.off))
    o = byte_obj('vecbuf')
    st.mem[o] = Fun(lambda j: z3.If(z3.ULT(j, n0), old(j), add(j - n0)))
    vec_set(ex, st, v, o, 0, n)
    return [(st, Ptr(o, n0))]


def noop(ex, st, args, ins):
    return [(st, JUNK)]


V8 = 'std::vector<unsigned char>::'
VEC = [(demstart(V8 + 'vector<'), vec_range), (dem(V8 + '~vector()'), noop), (demstart(V8 + 'reserve('), noop),
       (demstart(V8 + 'operator=(std::vector<unsigned char>&&)'), vec_move),
       (lambda fn, ins: fn is not None and V8 + 'insert<' in fn.dem, vec_insert)]


def bytevec(name, n=None):
    """a vector object holding n symbolic bytes; returns (object, buffer, n)"""
    o, buf = Obj(name, 24), byte_obj(name + '.data')
    n = z3.BitVec('len_' + name, 64) if n is None else n
    o.ptrs = {0: Ptr(buf, 0), 8: Ptr(buf, n), 16: Ptr(buf, n)}
    return o, buf, n
