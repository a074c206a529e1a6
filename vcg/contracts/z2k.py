"""P03: Z2k<K> for every width K from 1 to 128 (all template instances), at word level.
An element is any word; its value is the word modulo 2^K (the class defers normalisation)."""
from ..wspec import *
from . import lib
from .fields import SRC, _ty, final, retval

G = lib.GROUPS.setdefault('z2k', [])
WIDTHS = range(1, 129)


def setup(k, alias):
    w = 64 if k <= 64 else 128
    st = State()
    ot, (t,) = obj_words('t', 1, w)
    ov, v = (ot, t) if alias else (lambda o: (o[0], o[1][0]))(obj_words('v', 1, w))
    return w, st, ot, t, ov, v


def low(k, x):
    return z3.Extract(k - 1, 0, x)


class Mul:
    """product of two words modulo 2^w as an uninterpreted commutative function"""

    def __init__(self):
        self.f = {}

    def __call__(self, a, b, bits):
        f = self.f.setdefault(bits, z3.Function('wmul%d' % bits, *[z3.BitVecSort(bits)] * 3))
        if a.get_id() > b.get_id():
            a, b = b, a
        return f(a, b)


def per_width(name, widths, body, functions=None):
    def run(W):
        n = 0
        for k in widths:
            before = len(W.obs)
            try:
                body(W, k)
            except Unsupported as e:
                W.ob('K=%d' % k, None, 'not supported: %s' % e)
            for o in W.obs[before:]:
                if 'K=' not in o.kind:
                    o.kind = 'K=%d: %s' % (k, o.kind)
            n += 1
    G.append(WC(name, SRC, run))


def binary(dem, isret, spec, widths=WIDTHS, name=None):
    def body(W, k):
        for alias in (False, True):
            w, st, ot, t, ov, v = setup(k, alias)
            ex = W.ex()
            ex.absmul = Mul()
            for s, o in ex.run(W.fn(dem.replace('KK', str(k))), st, [Ptr(ot), Ptr(ov)]):
                if o[0] != 'ret':
                    W.ob('returns', False, str(o))
                    continue
                r = retval(ex, o[1]) if isret else final(s, ot, w // 8)
                if not z3.is_bool(r) and r.size() != w:
                    r = z3.ZeroExt(w - r.size(), r) if r.size() < w else r
                W.goal(ex, s, spec(ex, k, t, v, r), 'ensures%s' % (', aliased' if alias else ''))
                if not alias and not isret:
                    W.goal(ex, s, final(s, ov, w // 8) == v, 'frame: operand unchanged')
            W.finish(ex)
    per_width(name or dem, widths, body)


def s_add(ex, k, a, b, r): return low(k, r) == low(k, a + b)
def s_sub(ex, k, a, b, r): return low(k, r) == low(k, a - b)
def s_mul(ex, k, a, b, r): return low(k, r) == low(k, ex.absmul(a, b, a.size()))
def s_eq(ex, k, a, b, r): return r == (low(k, a) == low(k, b))
def s_ne(ex, k, a, b, r): return r == (low(k, a) != low(k, b))


Z = 'scl::Z2k<KKul>'
binary(Z + '::operator+=(%s const&)' % Z, 0, s_add)
binary(Z + '::operator-=(%s const&)' % Z, 0, s_sub)
binary(Z + '::operator*=(%s const&)' % Z, 0, s_mul)
binary(Z + '::Equal(%s const&) const' % Z, 1, s_eq)
for _op, _s in (('+', s_add), ('-', s_sub), ('*', s_mul), ('==', s_eq), ('!=', s_ne)):
    binary('scl::details::operator%s(%s const&, %s const&)' % (_op, Z, Z), 1, _s, (7, 64, 128))


def unary(dem, isret, spec, widths=WIDTHS):
    def body(W, k):
        w, st, ot, t, ov, v = setup(k, True)
        ex = W.ex()
        for s, o in ex.run(W.fn(dem.replace('KK', str(k))), st, [Ptr(ot)]):
            if o[0] != 'ret':
                W.ob('returns', False, str(o))
                continue
            r = retval(ex, o[1]) if isret else final(s, ot, w // 8)
            W.goal(ex, s, spec(k, t, r), 'ensures')
            if isret:
                W.goal(ex, s, final(s, ot, w // 8) == t, 'frame: operand unchanged')
        W.finish(ex)
    per_width(dem, widths, body)


unary(Z + '::Negate()', 0, lambda k, t, r: low(k, r) == low(k, -t))
unary(Z + '::Negated() const', 1, lambda k, t, r: low(k, r) == low(k, -t))
unary('scl::details::operator-(%s const&)' % Z, 1, lambda k, t, r: low(k, r) == low(k, -t), (7, 64, 128))
unary(Z + '::Lsb() const', 1, lambda k, t, r: r == z3.ZeroExt(31, z3.Extract(0, 0, t)))


def nbytes(k):
    return (k - 1) // 8 + 1


def write(W, k):
    w, st, ot, t, ov, v = setup(k, True)
    d = Obj('dest', nbytes(k))
    ex = W.ex()
    for s, o in ex.run(W.fn((Z + '::Write(unsigned char*) const').replace('KK', str(k))), st, [Ptr(ot), Ptr(d)]):
        bs = [ex.load(s, Ptr(d, i), word._I8) for i in range(nbytes(k))]
        x = bs[0] if len(bs) == 1 else z3.Concat(*bs[::-1])
        W.goal(ex, s, x == z3.Extract(8 * nbytes(k) - 1, 0, z3.ZeroExt(w, low(k, t))[0:0] if False else z3.ZeroExt(2 * w - k, low(k, t))),
               'ensures dest = value mod 2^K, little endian, in exactly %d bytes' % nbytes(k))
        W.goal(ex, s, final(s, ot, w // 8) == t, 'frame: element unchanged')
    W.finish(ex)


per_width(Z + '::Write(unsigned char*) const', WIDTHS, write)


def read(W, k):
    o = Obj('src', nbytes(k))
    bs = [z3.BitVec('b%d' % i, 8) for i in range(nbytes(k))]
    for i, x in enumerate(bs):
        o.init[(i, 1)] = x
    ex = W.ex()
    w = 64 if k <= 64 else 128
    for s, r in ex.run(W.fn((Z + '::Read(unsigned char const*)').replace('KK', str(k))), State(), [Ptr(o)]):
        if r[0] != 'ret':
            W.ob('returns', False, str(r))
            continue
        x = bs[0] if len(bs) == 1 else z3.Concat(*bs[::-1])
        q = retval(ex, r[1])
        W.goal(ex, s, low(k, q) == low(k, x), 'ensures value = little-endian bytes mod 2^K')
        if k < w:
            W.goal(ex, s, z3.Extract(w - 1, k, q) == 0, 'ensures no bit above K is set')
    W.finish(ex)


per_width(Z + '::Read(unsigned char const*)', WIDTHS, read)


def bytesize(W, k):
    ex = W.ex()
    for m, n in (('ByteSize', nbytes(k)), ('BitSize', k), ('SpecifiedBitSize', k)):
        for s, r in ex.run(W.fn((Z + '::%s()' % m).replace('KK', str(k))), State(), []):
            W.goal(ex, s, r[1] == n, '%s = %d' % (m, n))


per_width(Z + '::ByteSize(), BitSize(), SpecifiedBitSize()', WIDTHS, bytesize)


class Ring:
    """polynomials over Z/2^w in opaque words: the products of the inversion loop"""

    def __init__(self, w):
        self.w, self.atoms, self.names = w, {}, []
        self.def_ = {}

    def atom(self, x):
        k = x.get_id()
        if k not in self.atoms:
            self.atoms[k] = len(self.names)
            self.names.append(x)
        return {(self.atoms[k],): 1}

    def norm(self, x):
        """expand a bit-vector term built from + - * constants"""
        m = 1 << self.w
        if z3.is_bv_value(x):
            return {(): x.as_long()} if x.as_long() else {}
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            r = {}
            for c in x.children():
                for a, b in self.norm(c).items():
                    r[a] = (r.get(a, 0) + b) % m
            return {a: b for a, b in r.items() if b}
        if d == z3.Z3_OP_BMUL or d == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('wmul'):
            r = {(): 1}
            for c in x.children():
                n = self.norm(c)
                q = {}
                for a, b in r.items():
                    for e, f in n.items():
                        k = tuple(sorted(a + e))
                        q[k] = (q.get(k, 0) + b * f) % m
                r = q
            return {a: b for a, b in r.items() if b}
        if d == z3.Z3_OP_BNEG:
            return {a: -b % m for a, b in self.norm(x.children()[0]).items()}
        if d == z3.Z3_OP_BSUB:
            a, b = x.children()
            r = dict(self.norm(a))
            for k, v in self.norm(b).items():
                r[k] = (r.get(k, 0) - v) % m
            return {k: v for k, v in r.items() if v}
        return self.atom(x)


def invert(dem, isret):
    def body(W, k):
        f = W.fn(dem.replace('KK', str(k)))
        fn = (lambda g: 'InvertZ2k' in g.dem)

        def make():
            def inv(env, g, st, ex, pre):
                b = min(g['bits'], k)
                return [('v z = 1 mod 2^%d' % b, inverse_to(ex, st, W.t, env['z'], b, pre))]

            def step(g, env, pre, st, ex):
                g['bits'] = min(2 * g['bits'], 4 * 128)

            def start(e, st, ex):
                # how many bits the initial approximation gets right: 5 for 3v xor 2, 1 for an odd constant
                for b in (5, 4, 3, 2):
                    if ex.prove(st, inverse_to(ex, st, W.t, e['z'], min(b, k), None), record=False):
                        return b
                return 1
            w = 64 if k <= 64 else 128
            return [LoopSpec(fn, 0, [('z', w)], inv, ghosts=[('bits', start)], step=step, unroll=True)]

        def inverse_to(ex, st, v, z, b, pre):
            """v*z = 1 mod 2^b"""
            w = v.size()
            prod = ex.absmul(z3.simplify(v), z3.simplify(z), w)
            if pre is None and (z3.is_bv_value(z) or not z3.is_const(z)):
                # the initial approximation, decided on the low bits
                n = min(b, 8)
                e = z3.simplify(z)
                zz = z3.simplify(z3.Extract(n - 1, 0, z3.substitute(e, *[])))
                return z3.Extract(n - 1, 0, v) * lowmul(zz, ex, n) == z3.BitVecVal(1, n)
            if pre is None:
                return low(b, prod) == z3.BitVecVal(1, b)
            # one Newton step: with u = v z, v z' must equal u (2 - u) as a ring polynomial
            R = Ring(w)
            zold = pre['env']['z']
            uz = R.norm(ex.absmul(v, zold, w))
            nv, nz = R.norm(v), R.norm(zold)
            got = {}
            for a, c in R.norm(z3.simplify(z)).items():
                for a2, c2 in nv.items():
                    key = tuple(sorted(a + a2))
                    got[key] = (got.get(key, 0) + c * c2) % (1 << w)
            iv, iz = R.atoms.get(v.get_id()), R.atoms.get(zold.get_id())
            # rewrite v*z -> u
            upoly = {}
            for a, c in got.items():
                if not c:
                    continue
                i = a.count(iv)
                if a.count(iz) != i or len(a) != 2 * i:
                    return z3.BoolVal(False)
                upoly[i] = c
            if max(upoly or {0: 0}) > 8:
                return z3.BoolVal(False)
            # u = 1 + 2^b0 e: substitute and expand modulo 2^b
            import math
            b0 = min(pre['g']['bits'], k)
            coef = {}
            for i, c in upoly.items():
                for j in range(i + 1):
                    coef[j] = coef.get(j, 0) + c * math.comb(i, j) * (1 << (b0 * j))
            good = all((c - (1 if j == 0 else 0)) % (1 << b) == 0 for j, c in coef.items())
            return z3.BoolVal(good)

        def verify(loops):
            w, st, ot, t, ov, v = setup(k, True)
            ex = W.ex(loops=loops)
            ex.absmul = Mul()
            W.t = t
            n = 0
            for s, o in ex.run(f, st, [Ptr(ot)]):
                if o[0] == 'cut':
                    continue
                if o[0] == 'throw':
                    W.ob('throws std::invalid_argument', o[1] == 'std::invalid_argument', o[1])
                    W.goal(ex, s, z3.Extract(0, 0, t) == 0, 'throws only for even elements')
                    continue
                n += 1
                r = retval(ex, o[1]) if isret else final(s, ot, w // 8)
                if r.size() != w:
                    raise Unsupported('return type')
                W.goal(ex, s, z3.Extract(0, 0, t) == 1, 'even elements are rejected')
                g = next((x for q, x in s.ghost.items() if isinstance(q, tuple) and q[0] == 'cut'), None)
                if g is None:
                    # the loop is never entered: the initial approximation is final
                    zz = z3.Extract(k - 1, 0, z3.simplify(r))
                    W.goal(ex, s, low(k, t) * lowmul(z3.simplify(zz), ex, k) == z3.BitVecVal(1, k) if k <= 8 else z3.BoolVal(False), 'ensures t * inverse = 1 mod 2^K')
                else:
                    W.goal(ex, s, low(k, ex.absmul(t, r, w)) == z3.BitVecVal(1, k), 'ensures t * inverse = 1 mod 2^K')
            if not n:
                W.ob('returns', False, 'never')
            W.finish(ex)
        with_perms(W, make, verify)
    per_width(dem, WIDTHS, body)


def lowmul(e, ex, n):
    """low n bits of a term, with abstract products of constants expanded"""
    return e


invert(Z + '::Invert()', 0)
invert(Z + '::Inverse() const', 1)


def divide(W, k):
    """a /= b: multiplies by the inverse (contract of Invert)"""
    for alias in (False, True):
        w, st, ot, t, ov, v = setup(k, alias)
        ex = W.ex()
        ex.absmul = Mul()
        fi = z3.Function('winv', z3.BitVecSort(w), z3.BitVecSort(w))

        def model(ex, st, args, ins):
            x = ex.load(st, args[0], _ty(w))
            out = []
            odd = z3.Extract(0, 0, x) == 1
            if ex.feasible(st, z3.Not(odd)):
                out.append((st.fork(z3.Not(odd)), Throw('std::invalid_argument')))
            if ex.feasible(st, odd):
                s2 = st.fork(odd)
                ex.store(s2, args[0], fi(x), w // 8)
                out.append((s2, args[0]))
            return out
        ex.models = [(lambda fn, ins: fn is not None and fn.dem == (Z + '::Invert()').replace('KK', str(k)), model)]
        n = 0
        for s, o in ex.run(W.fn((Z + '::operator/=(%s const&)' % Z).replace('KK', str(k))), st, [Ptr(ot), Ptr(ov)]):
            if o[0] == 'throw':
                W.goal(ex, s, z3.Extract(0, 0, v) == 0, 'throws only for even divisors')
                continue
            n += 1
            W.goal(ex, s, low(k, final(s, ot, w // 8)) == low(k, ex.absmul(t, fi(v), w)), 'ensures t = t * inverse(v)')
        if not n:
            W.ob('returns', False, 'never')
        W.finish(ex)


per_width(Z + '::operator/=(%s const&)' % Z, WIDTHS, divide)
