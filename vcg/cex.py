"""Refutation of an obligation the prover did not discharge: a finite model of its premises in which the
code's and the contract's value differ.  Every term of the language has a meaning in such a model (lengths and
indices are small numbers, field elements are numbers mod p, arrays are finite tables), so a difference found
here is a genuine counterexample of the verification condition; finding none decides nothing."""
import random
import time
from .terms import *
from . import terms as T
from .ctx import _bounds, _appbounds
from .terms import _bv, _binder_base

P = (1 << 61) - 1


class Skip(Exception):
    """the sampled model is of no use here"""


class Opaque(Exception):
    """the term has no meaning in a model (a value the loop rule could not summarise)"""


class Model:
    def __init__(self, rng, ints, consts, fast=False):
        self.rng, self.ints, self.consts = rng, ints, consts
        self.v = {}
        self.trace = None
        self.steps = 0
        self.mode = {}
        self.addrs = {}
        self.big = rng.random() < 0.25
        self.focus = rng.choice(consts) if consts else 0
        self.alias = rng.random() < 0.3
        self.top = rng.choice((2, 3, 3, 4, 5, 7))

    # ---- values
    def pick(self, name, lo, hi, integer):
        r = self.rng
        if not integer:
            k = r.random()
            if k < 0.3:
                return r.randrange(0, 4)
            return r.randrange(P)
        lo = 0 if lo is None else lo
        m = min(lo + self.top, hi) if hi is not None else lo + self.top
        if self.big and self.consts and r.random() < 0.3:
            c = (self.focus if r.random() < 0.7 else r.choice(self.consts)) + r.choice((-1, 0, 1))
            if c >= lo and (hi is None or c <= hi):
                return c
        return r.randint(lo, max(lo, m))

    def value(self, a, args):
        if a.op == 'sym':
            key = a
            name = a
            b = _bounds.get(a)
        elif a.op == 'ind':
            key = (a.args[0],) + args
            if a.args[0] == 'p:sameobj':
                self.v[key] = int(args[0] == args[1])
                return self.v[key]
            if key not in self.v:
                self.v[key] = self.rng.randrange(2)
            self.note(a, key)
            return self.v[key]
        else:
            name = a.args[0]
            if name.startswith('havoc!'):
                raise Opaque(name)
            if name.startswith('undef.'):
                name = 'undef'
            key = (name,) + args
            b = _appbounds.get(name)
            if name.startswith('addr.'):
                if key not in self.v:
                    self.v[key] = 10 ** 7 + 64 * len(self.v)
                    if self.alias and name.startswith('addr.*'):
                        o = [x for k, x in self.v.items() if isinstance(k, tuple) and isinstance(k[0], str) and k[0].startswith('addr.*')]
                        if self.rng.random() < 0.5:
                            self.v[key] = self.rng.choice(o)
                return self.v[key]
        x = self.v.get(key)
        if x is None:
            lo, hi = b if b else (None, None)
            integer = b is not None or name in self.ints
            if integer and len(args):
                # tables of integers are often constant
                md = self.mode.get(name)
                if md is None:
                    md = self.mode[name] = self.pick(name, lo, hi, True) if self.rng.random() < 0.6 else -1
                x = md if md >= 0 else self.pick(name, lo, hi, True)
            else:
                x = self.pick(name, lo, hi, integer)
            self.v[key] = x
        self.note(a, key)
        return x

    def note(self, a, key):
        if self.trace is not None:
            self.trace[1][key] = a

    # ---- terms
    def ev(self, p, env):
        self.steps += 1
        if self.steps > 600000:
            raise Skip
        s = 0
        for m, c in p.t:
            v = c
            late = None
            for a, e in m:
                if a.op == 'ind':
                    if not self.ind(a, env):
                        v = 0
                        break
                else:
                    late = True
            if v and late:
                for a, e in m:
                    if a.op == 'ind':
                        continue
                    if e == 1:
                        v *= self.atom(a, env)
                    else:
                        n = self.ev(e, env) if isinstance(e, Poly) else e
                        if n < 0 or n > 9000:
                            raise Skip
                        v *= pow(self.atom(a, env), n) if n < 8 else pow(self.atom(a, env) % P, n, P)
                    if not v:
                        break
                if v.bit_length() > 4000:
                    v %= P
            s += v
        return s

    def rng_(self, n):
        if n < 0 or n > 9000:
            raise Skip
        return range(n)

    def ind(self, a, env):
        k = a.args[0]
        if k == 'ge0' or k == 'eq0' or k == 'feq0':
            x = self.ev(a.args[1], env)
            r = x >= 0 if k == 'ge0' else x == 0 if k == 'eq0' else x % P == 0
            if self.trace is not None:
                self.trace[0].append((k, a.args[1], env, x, r))
            return r
        if k == 'all':
            b = the_atom(a.args[1])
            n = self.ev(b.args[0], env)
            v = _bv(b.depth)
            ok = True
            for i in self.rng_(max(n, 0)):
                e2 = dict(env)
                e2[v] = i
                if not self.ev(b.args[1], e2):
                    ok = False
                    break
            return ok
        r = self.value(a, tuple(self.ev(x, env) for x in a.args[1:]))
        if self.trace is not None:
            self.trace[0].append(('p', a, env, r, r))
        return r

    def atom(self, a, env):
        op = a.op
        if op == 'bv':
            return env[a]
        if op == 'sym':
            return self.value(a, ())
        if op == 'app':
            if a.args[0] == 'first':
                return self.first(a, env)
            return self.value(a, tuple(self.ev(x, env) for x in a.args[1:]))
        if op == 'div':
            n, d = self.ev(a.args[0], env), self.ev(a.args[1], env)
            if d <= 0:
                raise Skip
            return n // d
        if op == 'inv':
            x = self.ev(a.args[0], env) % P
            return pow(x, P - 2, P)
        if op == 'pbase':
            return self.ev(a.args[0], env)
        if op == 'sum':
            base = _binder_base(a)
            rs = []
            for n in a.args[0]:
                rs.append(self.rng_(self.ev(n, env)))
            s = 0

            def go(i, e):
                nonlocal s
                if i == len(rs):
                    s += self.ev(a.args[1], e)
                    return
                v = _bv(base + i)
                for x in rs[i]:
                    e2 = dict(e)
                    e2[v] = x
                    go(i + 1, e2)
            go(0, env)
            return s
        if op == 'prod':
            v = _bv(a.depth)
            r = 1
            for i in self.rng_(self.ev(a.args[0], env)):
                e2 = dict(env)
                e2[v] = i
                r *= self.ev(a.args[1], e2)
                if not r:
                    return 0
                if r.bit_length() > 4000:
                    r %= P
            return r
        raise Opaque(op)

    def first(self, a, env):
        from .exec import first_body
        fb = first_body(a.args[1])
        if fb is None:
            raise Opaque('first')
        n, v, body = fb
        va = the_atom(v)
        n = self.ev(n, env)
        for i in self.rng_(max(n, 0)):
            e2 = dict(env)
            e2[_VAR] = i
            self.v[va] = i
            ok = self.ev(body, e2)
            del self.v[va]
            if not ok:
                return i
        return 0

    # ---- repair
    def repair(self, f, want):
        """change one table entry or number so that some literal evaluated in f changes its value"""
        self.trace = ([], {})
        try:
            self.ev(f, {})
            lits, keys = self.trace
        finally:
            self.trace = None
        if not keys:
            raise Skip
        r = self.rng
        for _ in range(6):
            if lits and r.random() < 0.9:
                k, p, env, x, val = r.choice(lits)
                if k == 'p':
                    key = (p.args[0],) + tuple(self.ev(y, env) for y in p.args[1:])
                    old = self.v[key]
                    self.v[key] = 1 - old
                    return key, old
                cands = []
                for m, c in p.t:
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'app'):
                        cands.append((c, m[0][0]))
                    elif len(m) == 2 and all(e == 1 and z.op in ('sym', 'app') for z, e in m):
                        # linear in one factor
                        i = r.randrange(2)
                        cands.append((c * self.atom(m[1 - i][0], env), m[i][0]))
                if not cands:
                    continue
                c, a = r.choice(cands)
                if c == 0 or (a.op == 'app' and (a.args[0] == 'first' or a.args[0].startswith('addr.'))):
                    continue
                nm = a.args[0] if a.op == 'app' else a
                if isinstance(nm, str) and nm.startswith('undef.'):
                    nm = 'undef'
                key = a if a.op == 'sym' else (nm,) + tuple(self.ev(y, env) for y in a.args[1:])
                old = self.v.get(key)
                if old is None:
                    continue
                b = _bounds.get(a) if a.op == 'sym' else _appbounds.get(nm)
                if k == 'feq0' and not val:
                    new = (old - x * pow(c % P, P - 2, P)) % P if b is None else (old - x // c if x % c == 0 else None)
                elif k == 'eq0' and not val:
                    new = old - x // c if x % c == 0 else None
                elif k == 'ge0' and not val:
                    need = -x
                    st = -(-need // abs(c)) + r.choice((0, 0, 1, 2))
                    new = old + st if c > 0 else old - st
                elif k == 'ge0':
                    st = (x + abs(c)) // abs(c) + r.choice((0, 0, 1))
                    new = old - st if c > 0 else old + st
                else:
                    new = old + r.choice((-2, -1, 1, 2))
                if new is None:
                    continue
            else:
                key = r.choice(list(keys))
                a = keys[key]
                old = self.v.get(key)
                if old is None:
                    continue
                if a.op == 'ind':
                    new = 1 - old
                    b = None
                else:
                    nm = a if a.op == 'sym' else key[0]
                    b = _bounds.get(a) if a.op == 'sym' else _appbounds.get(nm)
                    lo, hi = b if b else (None, None)
                    new = self.pick(nm, lo, hi, b is not None or nm in self.ints)
            if b:
                if b[0] is not None and new < b[0] or b[1] is not None and new > b[1]:
                    continue
            self.v[key] = new
            return key, old
        raise Skip


_VAR = object()


def int_names(ps):
    """names of the applications and symbols used as integers (indices, sizes, counts)"""
    out = set()
    work = []
    for p in ps:
        for a in T.atoms_of(p):
            if a.op == 'ind' and a.args[0] in ('ge0', 'eq0'):
                work.append(a.args[1])
            elif a.op == 'div':
                work += list(a.args)
            elif a.op in ('prod', 'all'):
                work.append(a.args[0])
            elif a.op == 'sum':
                work += list(a.args[0])
            elif a.op == 'app' and a.args[0] != 'first':
                work += list(a.args[1:])
            elif a.op == 'ind' and a.args[0].startswith('p:'):
                work += list(a.args[1:])
    for w in work:
        for m, _ in w.t:
            for a, e in m:
                if a.op == 'sym':
                    out.add(a)
                elif a.op == 'app':
                    out.add(a.args[0])
    return out


def constants(ps):
    out = set()
    for p in ps:
        for a in T.atoms_of(p):
            if a.op == 'ind' and a.args[0] in ('ge0', 'eq0'):
                for m, c in a.args[1].t:
                    if m == () and 1 < abs(c) < (1 << 31):
                        out.add(abs(c))
    return sorted(out)


def refute(d, ctx, limit=6.0, seed=1):
    """(True, text) a counterexample; (False, n) none in n models of the premises; (None, why) not applicable"""
    rng = random.Random(seed)
    ps = [d] + list(ctx.facts)
    ints = int_names(ps)
    consts = constants(ps)
    t0 = time.time()
    n = good = 0
    facts = list(ctx.facts)
    while time.time() - t0 < limit and good < 400 and n < 6000:
        n += 1
        m = Model(rng, ints, consts)
        try:
            if not satisfy(m, facts, t0 + limit):
                continue
            for _ in range(6):
                m.steps = 0
                x = m.ev(d, {})
                m.steps = 0
                if x % P and all(m.ev(f, {}) for f in facts):
                    return True, describe(m, d, x)
                good += 1
                # move to a neighbouring model: flip a test the difference depends on
                try:
                    m.repair(d, None)
                except Skip:
                    break
                m.steps = 0
                if not satisfy(m, facts, t0 + limit):
                    break
        except Skip:
            continue
        except Opaque as e:
            return None, str(e)
        except (RecursionError, KeyError) as e:
            return None, repr(e)
    return False, good


def satisfy(m, facts, end):
    bad = [f for f in facts if not m.ev(f, {})]
    for _ in range(80):
        if not bad:
            return True
        if time.time() > end:
            return False
        f = m.rng.choice(bad)
        key, old = m.repair(f, True)
        m.steps = 0
        try:
            b2 = [g for g in facts if not m.ev(g, {})]
        except Skip:
            b2 = None
        if b2 is None or (len(b2) > len(bad) and m.rng.random() > 0.15):
            m.v[key] = old
            bad = [g for g in facts if not m.ev(g, {})]
        else:
            bad = b2
    return not bad


def describe(m, d, x):
    syms = []
    for k, v in m.v.items():
        if isinstance(k, Atom):
            syms.append('%s=%s' % (k.args[0], v))
        elif len(k) <= 2:
            syms.append('%s(%s)=%s' % (k[0], ','.join(map(str, k[1:])), v))
    return 'differ by %d (mod 2^61-1) when %s' % (x % P, ', '.join(sorted(syms)[:40]))
