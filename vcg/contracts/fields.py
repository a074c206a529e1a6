"""P01/P02: the two prime fields at word level."""
from ..wspec import *
from . import lib

SRC = ('words', ['mersenne61.cc', 'mersenne127.cc', 'hash.cc', 'prg.cc', 'str.cc', 'tu:words'])
GF = lib.GROUPS.setdefault('field', [])
GE = lib.GROUPS.setdefault('fieldenc', [])
PARAM = {61: ('unsigned long', 64), 127: ('unsigned __int128', 128)}


def P(b):
    return (1 << b) - 1


def add(group, name, body, **kw):
    group.append(WC(name, SRC, body, **kw))


def modp(b, x, r, k):
    """x = r + k p and r < p, in a width where nothing overflows"""
    w = x.size()
    z = lambda v: z3.ZeroExt(w - v.size(), v) if v.size() < w else v
    kk = z(k)
    return z3.And(x == z(r) + (kk << b) - kk, z3.ULT(r, z3.BitVecVal(P(b), r.size())))


def setup(b, alias):
    w = PARAM[b][1]
    p = z3.BitVecVal(P(b), w)
    st = State()
    ot, (t,) = obj_words('t', 1, w)
    ov, v = (ot, t) if alias else (lambda o: (o[0], o[1][0]))(obj_words('v', 1, w))
    st.cond = [z3.ULT(t, p)] + ([] if alias else [z3.ULT(v, p)])
    return w, p, st, ot, t, ov, v


def final(st, o, n):
    c = st.mem[o].get(0)
    if c is None or c[0] != n:
        if c is None:
            return o.init[(0, n)]
        parts = []
        i = 0
        while i < n:            # stored in pieces
            c = st.mem[o].get(i)
            if c is None or isinstance(c[1], (Ptr,)) or not isinstance(c[1], z3.ExprRef) or i + c[0] > n:
                raise Unsupported('result not stored as whole words')
            parts.append(c[1])
            i += c[0]
        return z3.simplify(z3.Concat(*parts[::-1]))
    return c[1]


def unchanged(W, ex, st, o, v, what):
    W.goal(ex, st, final(st, o, v.size() // 8) == v, what)


# value computed by each operation, on w+1 bit integers, as (x, k) with x = result + k p
def op_add(w, b, t, v):
    x = z3.ZeroExt(2, t) + z3.ZeroExt(2, v)
    return x, [0, 1]


def linear(b, fname, opname, spec):
    def body(W):
        for alias in (False, True):
            w, p, st, ot, t, ov, v = setup(b, alias)
            ex = W.ex()
            f = W.fn(fname)
            outs = ex.run(f, st, [Ptr(ot), Ptr(ov)][:len(f.args)])
            tag = ', aliased' if alias else ''
            for s, o in outs:
                if o[0] != 'ret':
                    W.ob('returns%s' % tag, False, str(o))
                    continue
                r = final(s, ot, w // 8)
                X = lambda y: z3.ZeroExt(2, y)
                W.goal(ex, s, z3.And(spec(X(t), X(v), X(r), X(p)), z3.ULT(r, p)), 'ensures t = %s mod p, canonical%s' % (opname, tag))
                if not alias:
                    unchanged(W, ex, s, ov, v, 'ensures v unchanged') if len(f.args) > 1 else None
            W.finish(ex, tag)
            if len(f.args) == 1:
                break
    return body


def mul_model(b):
    """contract of Multiply used at its call sites: t = fmul(t, v), canonical"""
    w = PARAM[b][1]
    fm = z3.Function('fmul%d' % b, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))

    def h(ex, st, args, ins):
        t = ex.load(st, args[0], _ty(w))
        v = ex.load(st, args[1], _ty(w))
        p = z3.BitVecVal(P(b), w)
        ex.oblige(st, z3.And(z3.ULT(t, p), z3.ULT(v, p)), 'requires of Multiply: canonical operands')
        r = fm(t, v)
        st.cond = st.cond + [z3.ULT(r, p), r == fm(v, t)]
        ex.store(st, args[0], r, w // 8)
        return [(st, JUNK)]
    return fm, h


def inv_model(b):
    w = PARAM[b][1]
    fi = z3.Function('finv%d' % b, z3.BitVecSort(w), z3.BitVecSort(w))

    def h(ex, st, args, ins):
        t = ex.load(st, args[0], _ty(w))
        p = z3.BitVecVal(P(b), w)
        ex.oblige(st, z3.ULT(t, p), 'requires of Invert: canonical operand')
        out = []
        if ex.feasible(st, t == 0):
            out.append((st.fork(t == 0), Throw('std::logic_error')))
        if ex.feasible(st, t != 0):
            s2 = st.fork(t != 0)
            r = fi(t)
            s2.cond = s2.cond + [z3.ULT(r, p)]
            ex.store(s2, args[0], r, w // 8)
            out.append((s2, JUNK))
        return out
    return fi, h


class _Ty:
    def __init__(self, bits):
        self.kind, self.bits, self.size = 'int', bits, bits // 8


def _ty(w):
    return _Ty(w)


MF = 'MultiplyFull(unsigned __int128, unsigned __int128)'


def full(W):
    """contract of MultiplyFull: high * 2^128 + low = x * y, from the partial products of 64-bit halves"""
    f = W.fn(MF)
    ex = W.ex(timeout=200000)
    xs = [z3.BitVec(n, 64) for n in ('xlo', 'xhi', 'ylo', 'yhi')]
    prods = {}

    def absmul(a, c, bits):
        k = []
        for f_ in (a, c):
            m = [i for i, h in enumerate(xs) if z3.simplify(z3.ZeroExt(64, h)).eq(f_)]
            if not m or bits != 128:
                raise Unsupported('a product of something other than halves of the operands')
            k.append(m[0])
        k = tuple(sorted(k))
        if k not in prods:
            prods[k] = z3.BitVec('prod%d%d' % k, 128)
        return prods[k]
    ex.absmul = absmul
    o = Obj('result', 32)
    st = State()
    for s, r in ex.run(f, st, [Ptr(o)] + xs):
        X = z3.BitVecVal(0, 256)
        for (i, j), sh in (((0, 2), 0), ((0, 3), 64), ((1, 2), 64), ((1, 3), 128)):
            if (i, j) not in prods:
                raise Unsupported('partial product %d%d is never formed' % (i, j))
            q = prods[(i, j)]
            s.cond = s.cond + [z3.ULE(q, z3.BitVecVal(((1 << 64) - 1) ** 2, 128))]
            X = X + (z3.ZeroExt(128, q) << sh)
        offs = W.lay.rec.get('u256', (0, []))[1]
        od = {n: off for off, t, n in offs}
        hi, lo = [ex.load(s, Ptr(o, od[n]), _ty(128)) for n in ('high', 'low')]
        W.goal(ex, s, z3.Concat(hi, lo) == X, 'ensures high 2^128 + low = x y')
    W.finish(ex)


GF.append(WC(MF, SRC, full))


def multiply(b):
    def body(W):
        for alias in (False, True):
            if b == 127 and MF in W.mod.bydem:
                multiply_modular(W, alias)
                continue
            w, p, st, ot, t, ov, v = setup(b, alias)
            ex = W.ex(timeout=200000)
            prods = {}

            def part(x):
                """which half (shift) of t or v a factor is"""
                for nm, y in (('t', t), ('v', v)):
                    for lo, n in ((0, 64), (64, 64)) if w == 128 else ((0, 64),):
                        h = z3.simplify(z3.ZeroExt(x.size() - n, z3.Extract(lo + n - 1, lo, y)) if x.size() > n else z3.Extract(lo + n - 1, lo, y))
                        if z3.simplify(h).eq(x):
                            return nm, lo
                raise Unsupported('a product of something other than halves of the operands')

            def absmul(x, y, bits):
                a, c = sorted([part(x), part(y)])
                if bits < 128:
                    raise Unsupported('narrow product')
                if (a, c) not in prods:
                    prods[(a, c)] = z3.BitVec('prod_%s%d_%s%d' % (a + c), bits)
                return prods[(a, c)]
            ex.absmul = absmul
            outs = ex.run(W.fn('M%d::Multiply(%s&, %s const&)' % (b, PARAM[b][0], PARAM[b][0])), st, [Ptr(ot), Ptr(ov)])
            W2 = 2 * w
            tag = ', aliased' if alias else ''
            # the exact product, from the partial products (distributivity)
            nm2 = 't' if alias else 'v'
            halves = (0, 64) if w == 128 else (0,)
            X = z3.BitVecVal(0, W2)
            cs = []
            m64 = ((1 << 64) - 1) ** 2
            for i in halves:
                for j in halves:
                    key = tuple(sorted([('t', i), (nm2, j)]))
                    if key not in prods:
                        W.ob('ensures t = t*v mod p%s' % tag, False, 'partial product %s is never formed' % (key,))
                        return
                    q = prods[key]
                    cs.append(z3.ULE(q, z3.BitVecVal(m64 if w == 128 else (P(b) - 1) ** 2, q.size())))
                    X = X + (z3.ZeroExt(W2 - q.size(), q) << (i + j))
            cs.append(z3.ULE(X, z3.BitVecVal((P(b) - 1) ** 2, W2)))
            for s, o in outs:
                if o[0] != 'ret':
                    W.ob('returns' + tag, False, str(o))
                    continue
                r = final(s, ot, w // 8)
                s.cond = s.cond + cs
                hi = z3.LShR(X, b)
                W.goal(ex, s, z3.Or(modp(b, X, r, hi), modp(b, X, r, hi + 1)), 'ensures t = t*v mod p, canonical' + tag)
                if not alias:
                    unchanged(W, ex, s, ov, v, 'ensures v unchanged')
            W.finish(ex, tag)
    return body


def multiply_modular(W, alias):
    b = 127
    w, p, st, ot, t, ov, v = setup(b, alias)
    X = z3.BitVec('product', 256)
    calls = []
    od = {n: off for off, ty, n in W.lay.rec.get('u256', (0, []))[1]}

    def model(ex, st, args, ins):
        x, y = z3.Concat(args[2], args[1]), z3.Concat(args[4], args[3])
        ex.oblige(st, z3.Or(z3.And(x == t, y == v), z3.And(x == v, y == t)), 'MultiplyFull is applied to t and v')
        ex.store(st, Ptr(args[0].obj, ex.padd(args[0].off, od['high'])), z3.Extract(255, 128, X), 16)
        ex.store(st, Ptr(args[0].obj, ex.padd(args[0].off, od['low'])), z3.Extract(127, 0, X), 16)
        calls.append(1)
        return [(st, JUNK)]
    ex = W.ex(models=[(lambda fn, ins: fn is not None and fn.dem == MF, model)])
    st.cond = st.cond + [z3.ULE(X, z3.BitVecVal((P(b) - 1) ** 2, 256))]
    tag = ', aliased' if alias else ''
    for s, o in ex.run(W.fn('M127::Multiply(unsigned __int128&, unsigned __int128 const&)'), st, [Ptr(ot), Ptr(ov)]):
        if o[0] != 'ret':
            W.ob('returns' + tag, False, str(o))
            continue
        r = final(s, ot, w // 8)
        hi = z3.LShR(X, b)
        W.goal(ex, s, z3.Or(modp(b, X, r, hi), modp(b, X, r, hi + 1)), 'ensures t = t*v mod p, canonical' + tag)
        if not alias:
            unchanged(W, ex, s, ov, v, 'ensures v unchanged')
    if not calls:
        raise Unsupported('MultiplyFull is not called')
    W.finish(ex, tag)


def invert(b):
    T_, w = PARAM[b]

    def body(W):
        f = W.fn('M%d::Invert(%s&)' % (b, T_))
        p = P(b)

        def make():
            def ghosts():
                return [('A', lambda e, st, ex: z3.IntVal(-1)), ('B', lambda e, st, ex: z3.IntVal(0)), ('s', lambda e, st, ex: z3.IntVal(-1)),
                        ('K', lambda e, st, ex: z3.IntVal(0)), ('N', lambda e, st, ex: z3.IntVal(1))]

            def step(g, env, pre, st, ex):
                qs = st.ghost.get('quot', [])
                if not qs:
                    raise Unsupported('no division in the body of the inversion loop')
                q, a, c = qs[-1]
                A, B, s, K, N = [g[x] for x in 'ABsKN']
                g['A'], g['B'] = B, A - q * B
                g['s'], g['K'], g['N'] = -s, N, K + q * N
                e = pre['env']
                # ghost: multiply the hypotheses by the quotient
                v = W.v
                st.cond = st.cond + [q * (e['nk'] * v - e['nr'] - B * p) == 0, q * (e['nk'] + s * N) == 0,
                                     q * N >= 0, N * (q * e['nr'] - (e['r'] - (e['r'] - q * e['nr']))) == 0,
                                     z3.Implies(N >= 1, N * e['r'] >= e['r']), q * N * e['nr'] <= N * e['r'],
                                     z3.Implies(z3.And(K >= 0, e['nr'] >= 0), K * e['nr'] >= 0),
                                     z3.Implies(z3.And(N >= 0, e['nr'] + 1 <= e['r']), N * (e['nr'] + 1) <= N * e['r'])]
            W.lemmas_used = True

            def inv(env, g, st, ex, pre):
                k, nk, r, nr = [env[x] for x in ('k', 'nk', 'r', 'nr')]
                A, B, s, K, N = [g[x] for x in 'ABsKN']
                v = W.v
                out = [('k v = r + A p', k * v == r + A * p), ("k' v = r' + B p", nk * v == nr + B * p),
                       ("0 <= r' < r <= p", z3.And(0 <= nr, nr < r, r <= p)),
                       ('sign', z3.And(z3.Or(s == 1, s == -1), K >= 0, N >= 1)),
                       ('k = s K', k == s * K), ("k' = - s N", nk == -s * N),
                       ("K r' + N r = p", K * nr + N * r == p), ('K (r + 1) <= p', K * (r + 1) <= p),
                       ("r = p only at the start", z3.Implies(r == p, nr == v))]
                if pre is not None:
                    out.append(("r' decreases", nr < pre['env']['nr']))
                return out
            return [LoopSpec(lambda fn: 'InverseModPrime' in fn.dem or 'Invert' in fn.dem, 0,
                             [('k', w), ('nk', w), ('r', w), ('nr', w)], inv, ghosts=ghosts(), step=step)]

        def verify(loops):
            ex = W.ex(IntDom(), loops=loops, timeout=20000)
            st = State()
            ot = Obj('t', w // 8)
            v = z3.Int('v')
            ot.init[(0, w // 8)] = v
            W.v = v
            st.cond = [v >= 0, v < p]
            outs = ex.run(f, st, [Ptr(ot)])
            n = 0
            for s, o in outs:
                if o[0] == 'cut':
                    continue
                if o[0] == 'throw':
                    W.ob('throws std::logic_error', o[1] == 'std::logic_error', o[1])
                    W.goal(ex, s, v == 0, 'throws only for zero')
                    continue
                n += 1
                W.goal(ex, s, v != 0, 'zero is rejected')
                r = final(s, ot, w // 8)
                g = next((x for k, x in s.ghost.items() if isinstance(k, tuple) and k[0] == 'cut'), None)
                if g is None:
                    W.ob('ensures', False, 'returns without entering the loop')
                    continue
                e, gg = g['env'], g['g']
                K, N, A = gg['K'], gg['N'], gg['A']
                rr = e['r']
                # primality of p: N r = p and r < p imply r = 1
                W.goal(ex, s, N * rr == p, 'at exit N r = p')
                W.goal(ex, s, z3.And(rr < p, rr >= 1), 'at exit 1 <= r < p')
                s.cond = s.cond + [rr == 1]
                W.goal(ex, s, z3.And(r >= 0, r < p), 'ensures canonical')
                W.goal(ex, s, z3.Or(r * v == 1 + A * p, r * v == 1 + (A + v) * p), 'ensures t * v = 1 mod p')
            if n == 0:
                W.ob('returns', False, 'no normal return')
            W.finish(ex)
        with_perms(W, make, verify)
    return body


def field_ops(b):
    T_, w = PARAM[b]
    F = 'M%d' % b
    add(GF, '%s::Add' % F, linear(b, '%s::Add(%s&, %s const&)' % (F, T_, T_), 't+v', lambda t, v, r, p: z3.Or(r == t + v, r + p == t + v)))
    add(GF, '%s::Subtract' % F, linear(b, '%s::Subtract(%s&, %s const&)' % (F, T_, T_), 't-v', lambda t, v, r, p: z3.Or(r + v == t, r + v == t + p)))
    add(GF, '%s::Negate' % F, linear(b, '%s::Negate(%s&)' % (F, T_), '-t', lambda t, v, r, p: z3.Or(z3.And(t == 0, r == 0), r + t == p)))
    add(GF, '%s::Multiply' % F, multiply(b))
    add(GF, '%s::Invert' % F, invert(b))

    def equal(W):
        for alias in (False, True):
            w, p, st, ot, t, ov, v = setup(b, alias)
            ex = W.ex()
            for s, o in ex.run(W.fn('%s::Equal(%s const&, %s const&)' % (F, T_, T_)), st, [Ptr(ot), Ptr(ov)]):
                W.goal(ex, s, o[1] == (t == v) if o[0] == 'ret' else z3.BoolVal(False), 'ensures result = (a = b)')
            W.finish(ex)
    add(GF, '%s::Equal' % F, equal)

    def fromint(W):
        i = z3.BitVec('i', 32)
        ex = W.ex()
        p = P(b)
        for s, o in ex.run(W.fn('%s::FromInt(int)' % F), State(), [i]):
            r = retval(ex, o[1])
            e = z3.SignExt(w + 2 - 32, i)
            R = z3.ZeroExt(2, r)
            W.goal(ex, s, z3.And(z3.Or(R == e, R == e + p), z3.ULT(r, z3.BitVecVal(p, w))), 'ensures result = i mod p, canonical')
        W.finish(ex)
    add(GF, '%s::FromInt' % F, fromint)

    def frombytes(W):
        o = Obj('src', w // 8)
        bs = [z3.BitVec('b%d' % i, 8) for i in range(w // 8)]
        for i, x in enumerate(bs):
            o.init[(i, 1)] = x
        d = Obj('dest', w // 8)
        ex = W.ex()
        for s, r in ex.run(W.fn('%s::FromBytes(%s&, unsigned char const*)' % (F, T_)), State(), [Ptr(d), Ptr(o)]):
            x = z3.Concat(*bs[::-1])
            q = final(s, d, w // 8)
            W.goal(ex, s, q == z3.URem(x, z3.BitVecVal(P(b), w)), 'ensures dest = little-endian value mod p')
            W.ob('frame: nothing else is written', set(s.mem) <= {o, d} | {k for k in s.mem if k.name.startswith('%')}, '')
        W.finish(ex)
    add(GE, '%s::FromBytes' % F, frombytes)

    def tobytes(W):
        o, (x,) = obj_words('src', 1, w)
        d = Obj('dest', w // 8)
        ex = W.ex()
        for s, r in ex.run(W.fn('%s::ToBytes(unsigned char*, %s const&)' % (F, T_)), State(), [Ptr(d), Ptr(o)]):
            bs = [ex.load(s, Ptr(d, i), word._I8) for i in range(w // 8)]
            W.goal(ex, s, z3.Concat(*bs[::-1]) == x, 'ensures dest = the value, little endian, in exactly %d bytes' % (w // 8))
            unchanged(W, ex, s, o, x, 'frame: src unchanged')
        W.finish(ex)
    add(GE, '%s::ToBytes' % F, tobytes)


def ff_ops(b):
    """the FF class and the ring operators, over the contracts of Multiply and Invert"""
    w = PARAM[b][1]
    F, FF = 'M%d' % b, 'FF%d' % b
    fm, hm = mul_model(b)
    fi, hi = inv_model(b)
    models = [(lambda fn, ins: fn is not None and fn.dem.startswith(F + '::Multiply('), hm),
              (lambda fn, ins: fn is not None and fn.dem.startswith(F + '::Invert('), hi)]
    p = z3.BitVecVal(P(b), w)
    X = lambda y: z3.ZeroExt(2, y)

    def spec(op, a, c, r):
        if op == '+':
            return z3.Or(X(r) == X(a) + X(c), X(r) + X(p) == X(a) + X(c))
        if op == '-':
            return z3.Or(X(r) + X(c) == X(a), X(r) + X(c) == X(a) + X(p))
        if op == '*':
            return r == fm(a, c)
        if op == '/':
            return r == fm(a, fi(c))
        if op == 'neg':
            return z3.Or(z3.And(a == 0, r == 0), X(r) + X(a) == X(p))
        if op == 'inv':
            return r == fi(a)

    def run(W, dem, args, st, op, a, c, result, tag):
        ex = W.ex(models=models)
        ret = 0
        for s, o in ex.run(W.fn(dem), st, args):
            if o[0] == 'throw':
                W.ob('throws only std::logic_error' + tag, o[1] == 'std::logic_error' and op in ('/', 'inv'), o[1])
                if op in ('/', 'inv'):
                    W.goal(ex, s, (c if op == '/' else a) == 0, 'throws only for zero' + tag)
                continue
            ret += 1
            r = result(ex, s, o[1])
            W.goal(ex, s, z3.And(spec(op, a, c, r), z3.ULT(r, p)), 'ensures result = %s, canonical%s' % (op, tag))
            if op in ('/', 'inv'):
                W.goal(ex, s, (c if op == '/' else a) != 0, 'zero divisor is rejected' + tag)
        if not ret:
            W.ob('returns' + tag, False, 'never')
        W.finish(ex, tag)

    for op in '+-*/':
        def compound(W, op=op):
            for alias in (False, True):
                _, _, st, ot, t, ov, v = setup(b, alias)
                run(W, '%s::operator%s=(%s const&)' % (FF, op, FF), [Ptr(ot), Ptr(ov)], st, op, t, v,
                    lambda ex, s, r: final(s, ot, w // 8), ', aliased' if alias else '')
        add(GF, '%s::operator%s=' % (FF, op), compound)

        def binary(W, op=op):
            for alias in (False, True):
                _, _, st, ot, t, ov, v = setup(b, alias)
                run(W, 'scl::details::operator%s(%s const&, %s const&)' % (op, FF, FF), [Ptr(ot), Ptr(ov)], st, op, t, v,
                    lambda ex, s, r: retval(ex, r), ', aliased' if alias else '')
        add(GF, 'operator%s(%s,%s)' % (op, FF, FF), binary)
    for m, op, isret in (('Negate()', 'neg', 0), ('Negated()', 'neg', 1), ('Invert()', 'inv', 0), ('Inverse() const', 'inv', 1)):
        def unary(W, m=m, op=op, isret=isret):
            _, _, st, ot, t, ov, v = setup(b, True)
            run(W, '%s::%s' % (FF, m), [Ptr(ot)], st, op, t, None,
                (lambda ex, s, r: retval(ex, r)) if isret else (lambda ex, s, r: final(s, ot, w // 8)), '')
        add(GF, '%s::%s' % (FF, m), unary)

    def neg(W):
        _, _, st, ot, t, ov, v = setup(b, True)
        run(W, 'scl::details::operator-(%s const&)' % FF, [Ptr(ot)], st, 'neg', t, None, lambda ex, s, r: retval(ex, r), '')
    add(GF, 'operator-(%s)' % FF, neg)
    for nm, pos in (('operator==', 1), ('operator!=', 0)):
        def cmp(W, nm=nm, pos=pos):
            for alias in (False, True):
                _, _, st, ot, t, ov, v = setup(b, alias)
                ex = W.ex()
                for s, o in ex.run(W.fn('scl::details::%s(%s const&, %s const&)' % (nm, FF, FF)), st, [Ptr(ot), Ptr(ov)]):
                    W.goal(ex, s, o[1] == ((t == v) if pos else (t != v)) if o[0] == 'ret' else z3.BoolVal(False), 'ensures result')
                W.finish(ex)
        add(GF, '%s(%s,%s)' % (nm, FF, FF), cmp)


for _b in (61, 127):
    field_ops(_b)
    ff_ops(_b)
