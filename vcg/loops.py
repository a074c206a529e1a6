r"""The loop rule.

For a natural loop with header h, entered in state S0, the rule looks for a closed form C(k) of every
loop-carried SSA value and every memory cell the body writes, and for a trip count N, and then proves
  base:  C(0) = S0,
  step:  under path condition /\ 0 <= k <= N, executing the body from C(k) and reaching the back edge
         gives C(k+1), and the back edge is taken only if k < N,
  exit:  the main exit is taken only if k = N.
The search for C and N is a heuristic and is not trusted: only base/step/exit are.
Cells for which no closed form is found may be havocked (the invariant says nothing about them)."""
from .terms import *
from . import terms as T
from .ctx import simp, declare_bounds, _bounds
from .exec import (is_undef, State, Ptr, NULL, Null, PIte, Opaque, OPQ, IDX, IDXA, Unsupported, getcell_mem, psub, psimp,
                   vsyms, vite, merge_states, equal, read_key, _appbounds, MAXSZ, prove_zero, interval, norm, is_bool, VSlot, VTab, FnVal)

DEBUG = False


def lin_in(p, va):
    """p = A*va + B (polys free of va) or None"""
    A, B = {}, {}
    for m, c in p.t:
        hit = [e for a, e in m if a is va]
        if hit:
            if hit[0] != 1:
                return None
            mm = tuple((a, e) for a, e in m if a is not va)
            if any(va in a.syms or (isinstance(e, Poly) and va in e.syms) for a, e in mm):
                return None
            A[mm] = A.get(mm, 0) + c
        else:
            if any(va in a.syms or (isinstance(e, Poly) and va in e.syms) for a, e in m):
                return None
            B[m] = B.get(m, 0) + c
    return T._mk(A), T._mk(B)


def shift_sum(k, f):
    """Sum_{j<k} f(j); f a poly in the sym k"""
    j = fresh('j')
    return mk_sum(k, j, subst(f, {the_atom(k): j}))


def shift_prod(k, f):
    j = fresh('j')
    if is_bool(f):
        return mk_all(k, j, subst(f, {the_atom(k): j}))
    return mk_prod(k, j, subst(f, {the_atom(k): j}))


def solve_rec(A, B, init, k):
    """closed form of x_{k+1} = A(k) x_k + B(k), x_0 = init"""
    ka = the_atom(k)
    if not A.t:
        # x_k = init if k = 0 else B(k-1)
        if ka not in B.syms:
            if B is init:
                return init
        z = T.eq(k, 0)
        return ite(z, init, subst(B, {ka: k - 1}))
    if A is ONE:
        return init + shift_sum(k, B)
    if not B.t:
        if ka not in A.syms:
            return init * ppow(A, k)
        return init * shift_prod(k, A)
    if ka not in A.syms:
        j = fresh('j')
        # sum_{j<k} B(k-1-j) A^j  == sum_{j<k} B(j) A^(k-1-j)
        s = mk_sum(k, j, subst(B, {ka: j}) * ppow(A, k - 1 - j))
        return init * ppow(A, k) + s
    return None


def from_(num):
    """[num >= 0], for the index of a cell minus a small number as 'none of the indices below it'"""
    for d in range(2):
        c = cval(IDX[d] - num)
        if c is not None and 1 <= c <= 2:
            r = ONE
            for i in range(c):
                r = r - T.eq(IDX[d], i)
            return r
    return ge0(num)


def shannon(nxt, sig, k, init, ctx, solve):
    """an indicator that does not depend on the iteration, inside an atom that does: one closed form
    for each of its two values (a guess like every closed form: the step is proved afterwards)"""
    ka = the_atom(k)
    cand = {}
    for a in atoms_of(nxt):
        if a.op == 'ind' and a.args[0] == 'eq0' and ka in a.args[1].syms:
            for b in atoms_of(a.args[1]):
                if b.op == 'ind' and b.args[0] in ('ge0', 'eq0') and ka not in b.syms and not has_sig(b.args[1], {sig}) \
                        and not any(x.op == 'bv' for x in b.syms):
                    cand[b] = cand.get(b, 0) + 1
    for b in sorted(cand, key=lambda b: (b.args[0] != 'eq0', -cand[b]))[:1]:
        parts = []
        for val in (ONE, ZERO):
            mp = {b: val}
            c2 = ctx.plus(of_atom(b) if val is ONE else bnot(of_atom(b)))
            if not c2.sat():
                parts.append(None)
                continue
            c = solve(simp(T.replace_atoms(nxt, mp), c2), T.replace_atoms(init, mp), c2)
            if c is None:
                return None
            parts.append(c)
        if None in parts:
            return parts[0] if parts[1] is None else parts[1]
        return ite(of_atom(b), parts[0], parts[1])
    return None


def solve_write(nxt, sig, arity, k, init, ctx=None):
    """closed form of an array cell; nxt is a poly in IDX, the app atom sig(IDX..) and k"""
    ka = the_atom(k)
    own = the_atom(T.app(sig, *IDX[:arity]))
    l = lin_in(nxt, own)
    if l is None:
        return None
    A, B = l
    if A is ONE:
        bl = solve_block(A, B, k, init, True)
        return bl if bl is not None else init + shift_sum(k, B)
    if not A.t:
        return ite(T.eq(k, 0), init, subst(B, {ka: k - 1}))

    def tr(p):
        out = ZERO
        for m, c in p.t:
            best = None
            for a, e in m:
                if a.op == 'ind' and a.args[0] == 'eq0' and ka in a.args[1].syms:
                    li = lin_in(a.args[1], ka)
                    if li and cval(li[0]):
                        cc = cval(li[0])
                        # an element written by one iteration, or a single iteration that writes
                        pr = (0 if any(x in a.args[1].syms for x in IDXA) else 1, abs(cc))
                        if best is None or pr < best[3]:
                            best = (a, cc, li[1], pr)
            if best is None:
                if any(ka in a.syms for a, e in m):
                    return None
                # the same write in every iteration
                q = T._mk({m: c})
                out = out + q * ge0(k - 1)
                continue
            a, cc, b, _ = best
            rest = T._mk({tuple(x for x in m if x[0] is not a): c})
            num = scale(b, -1 if cc > 0 else 1)
            h = idiv(num, const(abs(cc)))
            g = from_(num) * lt(h, k)
            if abs(cc) != 1:
                g = g * T.eq(scale(h, abs(cc)), num)
            out = out + subst(rest, {ka: h}) * g
        return out
    d = tr(A - 1)
    e = tr(B)
    if d is None or e is None:
        # write with a value that is the same index every time, value depends on k: last write wins
        if all(not any(ka in a.syms for a, x in m) for m, c in A.t):
            return ite(T.eq(k, 0), init, ite_last(A, B, init, k, ka))
        st = solve_stride(A, B, k, init, ctx)
        return st if st is not None else solve_block(A, B, k, init)
    return init * (1 + d) + e


def solve_stride(A, B, k, init, ctx):
    """iteration k writes the element ix = c k + d, c not a constant: the element ix is written by
    iteration ix div c if its remainder is d"""
    ka = the_atom(k)
    for a in atoms_of(1 - A):
        if a.op != 'ind' or a.args[0] != 'eq0' or ka not in a.args[1].syms:
            continue
        l = lin_in(a.args[1], ka)
        if l is None or cval(l[0]) is not None or ka in l[0].syms:
            continue
        for x in IDXA:
            lx = lin_in(l[1], x) if x in l[1].syms else None
            if lx is None or cval(lx[0]) not in (1, -1):
                continue
            sg = cval(lx[0])
            c, num = scale(l[0], -sg), scale(l[1], sg)
            d = of_atom(x) - num

            def part(q):
                r = {}
                for m, cc in q.t:
                    if not any(y is a for y, _ in m):
                        return None
                    mm = tuple(y for y in m if y[0] is not a)
                    r[mm] = r.get(mm, 0) + cc
                return T._mk(r)
            R, V = part(1 - A), part(B)
            if R is None or V is None:
                continue
            if ctx is not None and d.t and ctx.prove(ge0(d)) and ctx.prove(lt(d, c)):
                h = idiv(of_atom(x), c)
                g = T.eq(of_atom(x) - c * h, d)
            else:
                h = idiv(num, c)
                g = T.eq(num - c * h, 0) * ge0(num)
            g = g * ge0(of_atom(x)) * lt(h, k)
            return init * (1 - subst(R, {ka: h}) * g) + subst(V, {ka: h}) * g
    return None


def solve_block(A, B, k, init, add=False):
    """iteration k writes the block a + c k <= ix < a + c (k + 1) (c > 0 need not be a constant):
    the element ix is written by iteration (ix - a) div c"""
    ka = the_atom(k)
    I = 1 - A
    cs = []
    for a in atoms_of(B if add else I):
        if a.op == 'ind' and a.args[0] == 'ge0' and ka in a.args[1].syms:
            l = lin_in(a.args[1], ka)
            if l is not None and l[0].t:
                cs.append((a, -l[0], l[1]))
    if add and not any(x in e.syms for _, _, e in cs for x in IDXA):
        return None
    for a1, c1, e1 in cs:
        for a2, c2, e2 in cs:
            if a1 is a2 or c1 is not c2 or e1 - e2 != c1:
                continue
            P = of_atom(a1) * (1 - of_atom(a2))

            def part(q):
                r = {}
                for m, c in q.t:
                    at = [x for x, _ in m]
                    if a1 in at and a2 not in at:
                        mm = tuple(x for x in m if x[0] is not a1)
                        r[mm] = r.get(mm, 0) + c
                r = T._mk(r)
                return r if r * P == q else None
            R, V = part(I), part(B)
            if R is None or V is None:
                continue
            h = idiv(e1, c1)
            g = ge0(e1) * lt(e1, c1 * k)
            if add:
                if not any(x in e1.syms for x in IDXA):
                    continue
                return init + subst(V, {ka: h}) * g
            return init * (1 - subst(R, {ka: h}) * g) + subst(V, {ka: h}) * g
    return None


def ite_last(A, B, init, k, ka):
    return init * A + subst(B, {ka: k - 1})


def has_sig(p, names):
    if isinstance(p, Poly):
        for a in atoms_of(p):
            if (a.op == 'app' or (a.op == 'ind' and a.args[0][:2] == 'p:')) and \
                    (a.args[0] in names or a.args[0][2:] in names):
                return True
            if a.op == 'sym' and a in names:
                return True
        return False
    if isinstance(p, Ptr):
        return any(has_sig(x, names) for x in p.idx)
    if isinstance(p, PIte):
        return has_sig(p.c, names) or has_sig(p.a, names) or has_sig(p.b, names)
    return False


def suffix(st, n):
    g = ONE
    for c in st.cond[n:]:
        g = g * c
    return g


def find_bound(g, k):
    """g: exit condition. Return (kind, expr) with the exit at the first k >= 0 such that ..."""
    ka = the_atom(k)
    cands = []
    for m, c in g.t:
        for a, e in m:
            if a.op == 'ind' and a.args[0] in ('ge0', 'eq0') and ka in a.args[1].syms:
                cands.append(a)
    for a in cands:
        l = lin_in(a.args[1], ka)
        if l is None or cval(l[0]) is None or ka in l[1].syms:
            continue
        # polarity: coefficient of the monomial [a] alone / in products
        pos = all(any(x is a for x, _ in m) for m, c in g.t)
        c, b = cval(l[0]), l[1]
        if a.args[0] == 'ge0':
            if pos and c > 0:       # exit when c k + b >= 0
                yield 'ge', idiv(scale(b, -1) + (c - 1), const(c))
            if not pos and c < 0:   # continue while c k + b >= 0
                yield 'ge', idiv(b + (-c), const(-c))
            if not pos and c > 0:   # continue while ck+b>=0, exits immediately or never
                continue
        else:
            if pos and c in (1, -1):
                yield 'eq', scale(b, -c)


class AtHead:
    """what a loop invariant may talk about: the state and the loop variables at the head of the loop, and the
    state in which the loop was entered"""

    def __init__(self, ex, st, phi, phis, st0):
        self.ex, self.st, self.st0, self.w = ex, st, st0, ex.w
        self.names = {str(i.name).split('.')[0]: phi[pid] for pid, i in phis.items() if pid in phi}

    def var(self, name):
        if name not in self.names:
            raise Unsupported('no loop variable ' + name)
        return self.names[name]

    def local(self, name):
        r = [k[0] for k in self.st.mem if k[0].kind == 'local' and k[0].name.split('.')[-1].split(':')[-1] == name]
        if not r:
            raise Unsupported('no local object ' + name)
        return Ptr(r[0], (0,))

    def len(self, p):
        return read_key(self.st, p.root, p.offs + ('len',), p.idx)

    def el(self, p, i):
        q = p.elem(i)
        return read_key(self.st, q.root, q.offs, q.idx)


def inv_loop(ex, act, loop, st0, phi0, ro):
    """Hoare's rule with the invariant the contract supplies: it holds on entry, an arbitrary iteration from any state
    satisfying it re-establishes it and lowers the variant, and it is what is known afterwards"""
    J = ex.inv
    phis = {i.id: i for i in loop.header.insts if i.op == 'phi'}
    mods = []
    hphi = {}
    for pid, v in phi0.items():
        if not isinstance(v, Poly):
            raise Unsupported('loop variable of the invariant is not a number')
        s = sym('at.%s' % phis[pid].name)
        declare_bounds(the_atom(s), 0, (1 << 64) - 1)
        hphi[pid] = s

    def havocked():
        mem = dict(st0.mem)
        for key in mods:
            n = 'at.%s%d.%s' % (key[0].name, key[0].uid, '.'.join(map(str, key[1])))
            ar = sum(1 for o in key[1] if not isinstance(o, str)) - 1
            if not isinstance(getcell_mem(st0.mem, key), Poly):
                raise Unsupported('loop changes a pointer: %s' % (key,))
            mem[key] = T.app(n, *IDX[:ar])
            if key[1][-1] == 'len':
                _appbounds[n] = (0, MAXSZ)
        return mem

    ex.in_inv = True
    try:
        while True:
            hst = State(havocked(), st0.cond, st0.base)
            ex.optimistic += 1
            try:
                out = ex.region(act, loop, loop.header, [(hst, dict(hphi))], hst)
            finally:
                ex.optimistic -= 1
            new = []
            for s, _, _ in out.edges.get(loop.header, []):
                for key, v in s.mem.items():
                    old = hst.mem.get(key)
                    old = getcell_mem(hst.mem, key) if old is None else old
                    if v is not old and v != old and key not in mods and key not in new:
                        new.append(key)
            if not new:
                break
            mods += new
        h0 = AtHead(ex, st0, phi0, phis, st0)
        for name, f in J.inv(h0):
            J.check('invariant[%s] on entry' % name, f, st0.ctx)
        hst = State(havocked(), st0.cond, st0.base)
        h = AtHead(ex, hst, hphi, phis, st0)
        facts = [f for _, f in J.inv(h)]
        hst.base = hst.base.plus(*facts)
        if not hst.ctx.sat():
            raise Unsupported('contradictory loop invariant')
        out = ex.region(act, loop, loop.header, [(hst, dict(hphi))], hst)
        for s, pv, _ in out.edges.pop(loop.header, []):
            h1 = AtHead(ex, s, pv, phis, st0)
            for name, f in J.inv(h1):
                J.check('invariant[%s] preserved' % name, f, s.ctx)
            a, b = J.variant(h), J.variant(h1)
            J.check('variant decreases', lt(b, a), s.ctx, J.variant_proof(h))
            J.check('variant bounded', ge0(a), s.ctx)
    finally:
        ex.in_inv = False
    ro.rets.extend(out.rets)
    ro.throws.extend(out.throws)
    return [(s, to, pv) for to, lst in out.edges.items() for (s, pv, frm) in lst]


def do_loop(ex, act, loop, st0, phi0, ro):
    if ex.inv is not None and act.depth == 0 and not ex.in_inv:
        return inv_loop(ex, act, loop, st0, phi0, ro)
    ctx0 = st0.ctx
    base_tag = '%s@%s' % (act.tag, loop.header.id)
    nest = '.'.join(str(the_atom(x).id) for x in ex.kstack)
    tag = base_tag + '|' + nest
    ncond = len(st0.cond)
    solved_phi, solved_cell, havoc = {}, {}, set()
    mods = []
    N = None
    Nkind = None
    phis = {i.id: i for i in loop.header.insts if i.op == 'phi'}
    phi0 = dict(phi0)
    phi_start = dict(phi0)
    progress = True
    last_full = False

    def sigma(key):
        root, offs = key
        return 's!%s%d.%s@%s' % (root.name, root.uid, '.'.join(map(str, offs)), tag)

    def arity(key):
        return sum(1 for o in key[1] if not isinstance(o, str)) - 1

    rounds = 0
    retried = False
    while True:
        rounds += 1
        if rounds > 24:
            raise Unsupported('loop not summarised in %s (%s)' % (act.fn.dem, loop.header.name))
        k = sym('k[%s]' % tag, N.id if N is not None else 0)
        ka = the_atom(k)
        if N is not None:
            iv = interval(N)
            declare_bounds(ka, 0, iv[1] if iv else None)
        else:
            declare_bounds(ka, 0, None)
        unsolved = set()
        hphi = {}
        for pid, v in phi0.items():
            if pid in solved_phi:
                hphi[pid] = psub(solved_phi[pid], {KVAR: k})
                continue
            if isinstance(v, Poly):
                ty = phis[pid].ty
                if ty.kind == 'int' and ty.bits in (1, 8) and is_bool(v):
                    s = T.boolapp('phi[%s]%d' % (tag, pid))
                    unsolved.add('phi[%s]%d' % (tag, pid))
                else:
                    s = sym('phi[%s]%d' % (tag, pid))
                    unsolved.add(the_atom(s))
                    if ty.kind == 'int' and ty.bits == 64:
                        # discovery only: a phi left unsolved never reaches a discharged obligation
                        declare_bounds(the_atom(s), 0, None)
                hphi[pid] = s
            elif isinstance(v, Ptr) and len(v.path) >= 3:
                s = sym('phi[%s]%d' % (tag, pid))
                unsolved.add(the_atom(s))
                hphi[pid] = Ptr(v.root, v.path[:-2] + (s, v.path[-1]), v.cls)
            else:
                hphi[pid] = v
        mem = dict(st0.mem)
        for key in mods:
            if key in solved_cell:
                mem[key] = psub(solved_cell[key], {KVAR: k})
            elif key in havoc:
                mem[key] = havoc_value(key, arity(key), k, tag, getcell_mem(st0.mem, key))
            else:
                init = getcell_mem(st0.mem, key)
                if isinstance(init, Ptr) and len(init.path) >= 3 and arity(key) == 0:
                    unsolved.add(sigma(key))
                    mem[key] = Ptr(init.root, init.path[:-2] + (T.app(sigma(key)), init.path[-1]), init.cls)
                elif isinstance(init, Poly):
                    unsolved.add(sigma(key))
                    if is_bool(init) and (not (init is ZERO or init is ONE) or is_boolcell(key)):
                        mem[key] = T.boolapp(sigma(key), *IDX[:arity(key)])
                    else:
                        mem[key] = T.app(sigma(key), *IDX[:arity(key)])
                else:
                    mem[key] = init
        hc = (ge0(k),) + ((le(k, N),) if N is not None else ())
        hst = State(mem, st0.cond + hc, st0.base)
        optimistic = N is None or bool(unsolved)
        ex.optimistic += 1 if optimistic else 0
        ex.kstack.append(k)
        try:
            out = ex.region(act, loop, loop.header, [(hst, dict(hphi))], hst)
        finally:
            ex.kstack.pop()
            ex.optimistic -= 1 if optimistic else 0
        backs = out.edges.pop(loop.header, [])
        if not backs:
            # no iteration completes: plain code, run from the state at the loop's entry
            out = ex.region(act, loop, loop.header, [(st0, dict(phi_start))], st0)
            if out.edges.pop(loop.header, []):
                raise Unsupported('loop neither entered nor skipped in ' + act.fn.dem)
            ro.rets.extend(out.rets)
            ro.throws.extend(out.throws)
            return [(s, to, pv) for to, lst in out.edges.items() for (s, pv, frm) in lst]
        st1, phin = merge_states([(s, pv) for s, pv, _ in backs])
        # ---- discover modified cells
        newm = []
        for key, v in st1.mem.items():
            old = mem.get(key)
            if old is None:
                old = getcell_mem(mem, key)
            if v is not old and v != old and key not in mods and key[0].name != 'byval':      # dead after the call
                newm.append(key)
        if newm:
            mods += newm
            # cells of objects born in this iteration and indexed by k stay plain
            continue
        names = unsolved
        back_ctx = st1.ctx
        got = False
        # ---- closed forms of phis
        for pid, v0 in phi0.items():
            if pid in solved_phi:
                continue
            nv = phin[pid]
            h = hphi[pid]
            if isinstance(v0, Poly):
                c = solve_scalar(nv, h, v0, k, names, back_ctx)
                if c is not None:
                    solved_phi[pid] = subst(c, {ka: KSYM})
                    got = True
            elif isinstance(v0, Ptr) and len(v0.path) >= 3 and isinstance(nv, Ptr) and nv.root is v0.root \
                    and nv.offs == v0.offs and nv.path[:-2] == v0.path[:-2]:
                c = solve_scalar(nv.path[-2], h.path[-2], v0.path[-2], k, names, back_ctx)
                if c is not None:
                    solved_phi[pid] = Ptr(v0.root, v0.path[:-2] + (subst(c, {ka: KSYM}), v0.path[-1]), v0.cls)
                    got = True
            else:
                if nv == h or nv is h:
                    solved_phi[pid] = v0
                    got = True
                elif not has_sig(nv, names) and nv is not None and ka not in vsyms(nv):
                    # constant after the first iteration
                    solved_phi[pid] = vite(T.eq(KSYM, 0), v0, nv)
                    got = True
                elif isinstance(nv, Opaque):
                    phi0[pid] = OPQ
                    got = True
        # ---- closed forms of cells
        pend = []
        # cells the body may have read with their initial value go first
        stale = [key for key in mods if key not in solved_cell and key not in havoc and arity(key)
                 and isinstance(getcell_mem(st0.mem, key), (PIte, Null)) and isinstance(st1.mem[key], PIte) and st1.mem[key] != mem[key]]
        for key in stale:
            c = solve_ptr_cell(st1.mem[key], getcell_mem(st0.mem, key), mem[key], k, arity(key), names, back_ctx)
            if c is not None:
                solved_cell[key] = psub(c, {ka: KSYM})
        if any(key in solved_cell for key in stale):
            continue
        for key in mods:
            if key in solved_cell or key in havoc:
                continue
            init = getcell_mem(st0.mem, key)
            nv = st1.mem[key]
            ar = arity(key)
            if key in ex.hints and isinstance(init, Poly):
                c = ex.hints[key](list(ex.kstack) + [KSYM], init)
                if c is not None:
                    solved_cell[key] = c
                    got = True
                    continue
            if isinstance(init, Poly) and isinstance(nv, Poly):
                sg = sigma(key)
                if ar == 0:
                    h = T.app(sg)
                    if mem[key] is not h:
                        h = mem[key]
                    c = solve_scalar(nv, h, init, k, names, back_ctx, sg)
                else:
                    nv2 = simp(nv, back_ctx)
                    bo = T.boolapp(sg, *IDX[:ar])
                    if mem[key] is bo:
                        # (also where it is read at other indices)
                        nv2 = replace_apps(nv2, {a: T.app(sg, *a.args[1:]) for a in atoms_of(nv2)
                                                 if a.op == 'ind' and a.args[0] == 'p:' + sg and not any(x.op == 'bv' for x in a.syms)})
                    c = solve_array(nv2, sg, ar, k, init, names, back_ctx)
                if c is not None:
                    solved_cell[key] = subst(c, {ka: KSYM})
                    got = True
                    continue
            elif isinstance(init, Ptr) and len(init.path) >= 3 and ar == 0 and isinstance(nv, Ptr) and \
                    nv.root is init.root and nv.offs == init.offs and nv.path[:-2] == init.path[:-2] and \
                    isinstance(mem[key], Ptr):
                c = solve_scalar(nv.path[-2], mem[key].path[-2], init.path[-2], k, names, back_ctx, sigma(key))
                if c is not None:
                    solved_cell[key] = Ptr(init.root, init.path[:-2] + (subst(c, {ka: KSYM}), init.path[-1]), init.cls)
                    got = True
                    continue
            elif not isinstance(init, Poly) and nv == mem[key]:
                solved_cell[key] = init
                got = True
                continue
            elif isinstance(nv, Opaque) or isinstance(init, Opaque):
                if isinstance(nv, Opaque):
                    solved_cell[key] = OPQ
                    got = True
                    continue
            c = solve_ptr_cell(nv, init, mem[key], k, ar, names, back_ctx)
            if c is not None:
                solved_cell[key] = psub(c, {ka: KSYM})
                got = True
                continue
            pend.append(key)
        # ---- trip count
        exits = [(to, s, pv, frm) for to, l in out.edges.items() for (s, pv, frm) in l]
        if N is None:
            for (to, s, pv, frm) in sorted(exits, key=lambda e: 0 if e[3] is loop.header else 1):
                g = simp(suffix(s, ncond + 1), ctx0.plus(ge0(k)))
                g = subst(g, phi_closed(solved_phi, hphi, k))
                g = sub_sig(g, solved_cell, sigma, k)
                for kind, e in find_bound(g, k):
                    if has_sig(e, names) or ka in e.syms:
                        continue
                    e = simp(e, ctx0)
                    if ctx0.prove(ge0(e)):
                        N, Nkind, Nexit = e, kind, (to, frm)
                    elif kind == 'ge':
                        N, Nkind, Nexit = simp(ite(ge0(e), e, ZERO), ctx0), kind, (to, frm)
                    elif ex.optimistic:
                        N, Nkind, Nexit = e, kind, (to, frm)
                    else:
                        continue
                    break
                if N is not None:
                    got = True
                    break
        if DEBUG:
            print('LOOP', act.fn.dem[:60], loop.header.name, 'round', rounds, 'N=', N, 'pend', pend,
                  'phis', {phis[p].name: (solved_phi.get(p), phin[p]) for p in phi0})
            for key in pend:
                print('   pend', key, st1.mem[key])
        if optimistic or got or pend or any(p not in solved_phi for p in phi0):
            if not got and pend and not retried:
                # what looked modified while the counters were unknown may not be
                retried = True
                mods = [m for m in mods if m not in pend]
                continue
            if not got:
                # havoc local scratch cells; otherwise give up
                hv = [key for key in pend if key[0].kind in ('local', 'heap', 'buf', 'tmp')]
                if hv:
                    for key in hv:
                        havoc.add(key)
                    continue
                raise Unsupported('loop not summarised in %s (%s): %s' % (
                    act.fn.dem, loop.header.name,
                    [k_ for k_ in pend] + [phis[p].name for p in phi0 if p not in solved_phi] +
                    (['trip count'] if N is None else [])))
            continue
        # ---------------- proof of the rule (skipped while an enclosing loop is still being explored)
        redo = False
        if not ex.optimistic:
            mpk1 = {KVAR: k + 1}
            mp0 = {KVAR: ZERO}
            bctx = back_ctx
            for pid, c in solved_phi.items():
                if not equal(psub(c, mp0), phi0[pid], ctx0):
                    raise Unsupported('loop base case fails in ' + act.fn.dem)
                if not equal(phin[pid], psub(c, mpk1), bctx):
                    raise Unsupported('loop step fails for %%%s in %s' % (phis[pid].name, act.fn.dem))
            for key, c in list(solved_cell.items()):
                ini = getcell_mem(st0.mem, key)
                # an uninitialised pointer may be given any value
                ok = isinstance(ini, Poly) and is_undef(ini) and not isinstance(c, Poly) or \
                    equal(psub(c, mp0), ini, cell_ctx(ctx0, key))
                if ok and not equal(st1.mem[key], psub(c, mpk1), cell_ctx(bctx, key)):
                    ok = False
                if not ok:
                    if DEBUG:
                        print('  REJECTED', key, c, '| init', getcell_mem(st0.mem, key), '| next', st1.mem[key])
                    if key[0].kind in ('local', 'heap', 'buf', 'tmp') and not getattr(key[0], 'out', False):
                        havoc.add(key)
                        del solved_cell[key]
                        redo = True
                        continue
                    raise Unsupported('loop invariant for %s not inductive in %s: %s  vs  %s' % (
                        key, act.fn.dem, st1.mem[key], psub(c, mpk1)))
            if redo:
                continue
            if not bctx.prove(lt(k, N)):
                raise Unsupported('back edge taken beyond the trip count in ' + act.fn.dem)
        break

    # ---------------- exits
    main = None
    early = []
    for (to, s, pv, frm) in exits:
        if (to, frm) == Nexit and main is None:
            main = (to, s, pv)
        else:
            early.append((to, s, pv))
    if main is None:
        raise Unsupported('no main exit in ' + act.fn.dem)
    if not ex.optimistic and not main[1].ctx.prove(T.eq(k, N)):
        # several exits from the same block or not a counted exit
        raise Unsupported('main exit taken before the trip count in ' + act.fn.dem)
    hn = ncond + len(hc)
    E = ZERO
    for (to, s, pv) in early:
        E = E + suffix(s, hn)
    for s, v in out.rets:
        E = E + suffix(s, hn)
    TH = []
    for c, t in out.throws:
        g = ONE
        for x in c[hn:]:
            g = g * x
        E = E + g
        TH.append((g, t))
    kctx = ctx0.plus(ge0(k), le(k, N))
    E = simp(E, kctx)
    res = []
    mpN = {ka: N}
    to, s, pv = main
    leftover = simp(subst(suffix(s, hn), mpN), ctx0)
    if E is ZERO:
        G = ONE
    else:
        j = fresh('j')
        En = simp(bnot(E), ctx0.plus(ge0(k), lt(k, N)))
        G = mk_all(N, j, subst(En, {ka: j}))
        if G is not ONE and not ex.optimistic and TH and not early and not out.rets and prove_zero(1 - G, ctx0):
            G, E, TH = ONE, ZERO, []
    sm = sub_state(s, mpN, st0, ncond, None, extra=(G, leftover))
    res.append((sm, to, {x: psub(y, mpN) for x, y in pv.items()}))
    if early or out.rets or TH:
        # iterations 0..N-1 (and N for code executed before the exit test)
        lastE = simp(subst(E, mpN), ctx0)
        M = N
        if lastE is not ZERO:
            j = fresh('j')
            M = N + 1
            G = mk_all(M, j, subst(bnot(E), {ka: j}))
            sm = sub_state(s, mpN, st0, ncond, None, extra=(G,))
            res[0] = (sm, to, res[0][2])
        NG = bnot(G)
        if not early and not out.rets and len({t for _, t in TH}) == 1:
            ro.throws.append((st0.cond + (NG,), TH[0][1]))
        else:
            # index of the first iteration that leaves early, a function of the exit predicate
            kf = T.app('first', G)
            declare_first(kf, M)
            mpf = {ka: kf}
            facts = (NG, ge0(kf), lt(kf, M))
            for (to, s, pv) in early:
                c = simp(subst(suffix(s, hn), mpf), ctx0.plus(*facts))
                if len(early) + len(out.rets) + len(TH) == 1:
                    c = ONE
                ss = sub_state(s, mpf, st0, ncond, None, extra=(NG, c))
                ss.base = ss.base.plus(*facts[1:])
                res.append((ss, to, {x: psub(y, mpf) for x, y in pv.items()}))
            for s, v in out.rets:
                c = simp(subst(suffix(s, hn), mpf), ctx0.plus(*facts))
                if len(early) + len(out.rets) + len(TH) == 1:
                    c = ONE
                ss = sub_state(s, mpf, st0, ncond, None, extra=(NG, c))
                ro.rets.append((ss, psub(v, mpf) if v is not None else None))
            for g, t in TH:
                c = simp(subst(g, mpf), ctx0.plus(*facts))
                if len(early) + len(out.rets) + len(TH) == 1:
                    c = ONE
                ro.throws.append((st0.cond + (NG, c), t))
    return res


KSYM = sym('K!')
KVAR = the_atom(KSYM)


def is_boolcell(key):
    root, offs = key
    if root.kind == 'local' and getattr(root, 'llty', None) is not None and root.llty.kind == 'int':
        return root.llty.bits == 8
    if root.ty and len(offs) > getattr(root, 'fam', 0):
        try:
            return root.world.leafkind(root.ty, offs[root.fam:]) == 'B'
        except Exception:
            return False
    return False


def declare_first(kf, M):
    iv = interval(M)
    declare_bounds(the_atom(kf), 0, (iv[1] - 1) if iv else None)


def cell_ctx(ctx, key):
    """cells are compared at arbitrary non-negative indices"""
    n = sum(1 for o in key[1] if not isinstance(o, str)) - 1
    return ctx.plus(*[ge0(x) for x in IDX[:n]])


def havoc_value(key, ar, k, tag, init):
    if isinstance(init, Poly):
        return T.app('havoc!%s%d.%s@%s' % (key[0].name, key[0].uid, '.'.join(map(str, key[1])), tag), k, *IDX[:ar])
    return Opaque('havoc')


def phi_closed(solved, hphi, k):
    mp = {}
    for pid, c in solved.items():
        h = hphi[pid]
        if isinstance(h, Poly) and isinstance(c, Poly) and len(h.t) == 1 and len(h.t[0][0]) == 1 and \
                h.t[0][0][0][0].op == 'sym' and str(h.t[0][0][0][0].args[0]).startswith('phi['):
            mp[the_atom(h)] = subst(c, {KVAR: k})
        elif isinstance(h, Ptr) and isinstance(c, Ptr) and len(h.path) >= 3:
            x = h.path[-2]
            if len(x.t) == 1 and len(x.t[0][0]) == 1 and x.t[0][1] == 1 and x.t[0][0][0][0].op == 'sym' and \
                    str(x.t[0][0][0][0].args[0]).startswith('phi['):
                mp[the_atom(x)] = subst(c.path[-2], {KVAR: k})
    return mp


def sub_sig(g, solved_cell, sigma, k):
    mp = {}
    names = {sigma(key): key for key in solved_cell}
    for a in atoms_of(g):
        if a.op == 'app' and a.args[0] in names and len(a.args) == 1:
            v = solved_cell[names[a.args[0]]]
            if isinstance(v, Poly):
                mp[a] = subst(v, {KVAR: k})
            elif isinstance(v, Ptr):
                mp[a] = subst(v.path[-2], {KVAR: k})
    if not mp:
        return g
    return replace_apps(g, mp)


def replace_apps(p, mp):
    """replace application atoms (free of bound variables) by polys"""
    tmp = {}
    # go through symbols: atoms are not in syms, so rebuild by hand
    def rp(q):
        out = ZERO
        for m, c in q.t:
            x = const(c)
            for a, e in m:
                y = ra(a)
                x = x * (ppow(y, rp(e)) if isinstance(e, Poly) else ipow(y, e))
            out = out + x
        return out

    def ra(a):
        if a in mp:
            return mp[a]
        if a in tmp:
            return tmp[a]
        r = of_atom(a)
        if a.op == 'app':
            r = T.app(a.args[0], *[rp(x) for x in a.args[1:]])
        elif a.op == 'ind' and a.args[0] in ('ge0', 'eq0', 'feq0'):
            x = rp(a.args[1])
            r = ge0(x) if a.args[0] == 'ge0' else T.eq(x, 0) if a.args[0] == 'eq0' else feq(x, ZERO)
        elif a.op == 'div':
            r = idiv(rp(a.args[0]), rp(a.args[1]))
        elif a.op == 'inv':
            r = inv(rp(a.args[0]))
        tmp[a] = r
        return r
    return rp(p)


def sub_state(s, mp, st0, ncond, nh, extra=None):
    mem = {}
    m0 = st0.mem
    memo = {}
    keys = frozenset(mp)
    for key, v in s.mem.items():
        if m0.get(key) is v:
            mem[key] = v
        else:
            mem[key] = psub(v, mp)
    if extra is None:
        ctx0 = st0.ctx
        cs = []
        for c in s.cond[ncond:]:
            c = simp(psub(c, mp), ctx0)
            if c is not ONE:
                cs.append(c)
        return State(mem, st0.cond + tuple(cs), st0.base)
    return State(mem, st0.cond + tuple(c for c in extra if c is not ONE), st0.base)


def solve_scalar(nv, h, init, k, names, ctx, sg=None):
    if not isinstance(nv, Poly):
        return None
    if nv is h:
        return init
    nv = simp(nv, ctx)
    if nv is h:
        return init
    if not isinstance(h, Poly) or len(h.t) != 1:
        return None
    va = h.t[0][0][0][0]
    if va.op == 'sym':
        l = lin_in(nv, va)
        others = names - {va}
    else:
        # 0-ary sigma application: make it a symbol
        s = fresh('sg')
        q = replace_apps(nv, {va: s}) if va.op == 'app' else replace_ind(nv, va, s)
        l = lin_in(q, the_atom(s))
        others = names - {va.args[0]} if va.op == 'app' else names - {va.args[0][2:]}
        if va.op == 'ind':
            others = names - {va.args[0][2:]}
        if l and (has_sig(l[0], {va.args[0]}) or has_sig(l[1], {va.args[0]})):
            return None
    if l is None:
        return None
    A, B = l
    if has_sig(A, others) or has_sig(B, others):
        return None
    return solve_rec(A, B, init, k)


def replace_ind(p, va, s):
    out = ZERO
    for m, c in p.t:
        x = const(c)
        for a, e in m:
            x = x * (s if a is va else T._mk({((a, e),): 1}))
        out = out + x
    return out


def solve_array(nv, sg, ar, k, init, names, ctx, depth=3):
    c = solve_array1(nv, sg, ar, k, init, names, ctx)
    if c is not None or depth == 0:
        return c
    return shannon(nv, sg, k, init, ctx, lambda n, i, c: solve_array(n, sg, ar, k, i, names, c, depth - 1))


def solve_array1(nv, sg, ar, k, init, names, ctx):
    ka = the_atom(k)
    own = the_atom(T.app(sg, *IDX[:ar]))
    nv = fresh_reads(nv, sg, ar, k, init)
    # other reads of the same array
    others = [a for a in atoms_of(nv) if a.op == 'app' and a.args[0] == sg and a is not own]
    if has_sig(nv, names - {sg}):
        return None
    if not others:
        return solve_write(nv, sg, ar, k, init, ctx)
    # a[g(k)] := alpha * a[g(k-1)] + beta : recurrence through the previously written element
    # all reads at the same index e(k)
    if len({a.args for a in others}) != 1:
        # reads of the element being overwritten: a[g] := f(a[g]): substitute own value
        r = read_own(nv, sg, ar, others, ctx)
        return solve_write(r, sg, ar, k, init, ctx) if r is not None else None
    o = others[0]
    r = read_own(nv, sg, ar, others, ctx)
    if r is not None:
        return solve_write(r, sg, ar, k, init, ctx)
    own_s = fresh('own')
    s = fresh('prev')
    q = replace_apps(nv, {o: s, own: own_s})
    l = lin_in(q, the_atom(own_s))
    if l is None:
        return None
    A, B = l
    # A = 1 - I, B = I * v
    I = 1 - A
    if len(I.t) != 1 or I.t[0][1] != 1:
        return None
    lb = lin_in(B, the_atom(s))
    if lb is None or the_atom(s) in A.syms:
        return None
    # g(k): write index from the equality literals
    g = {}
    for a, e in I.t[0][0]:
        if a.op == 'ind' and a.args[0] == 'eq0':
            for d in range(ar):
                li = lin_in(a.args[1], IDXA[d])
                if li and cval(li[0]) in (1, -1) and not any(x in li[1].syms for x in IDXA):
                    g[d] = scale(li[1], -cval(li[0]))
    if set(g) != set(range(ar)):
        return None
    # reading index e(k) must be g(k-1)
    for d in range(ar):
        if subst(g[d], {ka: k - 1}) is not o.args[1 + d]:
            return None
    dl = {IDXA[d]: g[d] for d in range(ar)}
    strip = T._mk({tuple((a, e) for a, e in I.t[0][0] if a.op == 'ind' and a.args[0] == 'eq0' and
                         any(x in a.args[1].syms for x in IDXA)): 1})
    al, be = subst(lb[0], dl), subst(lb[1], dl)
    Ig = subst(I, dl)
    if Ig is not ONE:
        return None
    # s_k := array_k(g(k-1)); s_0 = init(g(-1))
    s0 = subst(init, {IDXA[d]: subst(g[d], {ka: const(-1)}) for d in range(ar)})
    S = solve_rec(al, be, s0, k)
    if S is None:
        return None
    v = subst(S, {ka: k + 1})
    nv2 = T.app(sg, *IDX[:ar]) * A + I * v
    return solve_write(nv2, sg, ar, k, init, ctx)


def fresh_reads(nv, sg, ar, k, init):
    """where iteration k writes only elements whose d-th index is k, elements it reads with d-th index k
    still have their initial value (a guess like every closed form: the step is proved afterwards)"""
    own = T.app(sg, *IDX[:ar])
    diff = nv - own
    for d in range(ar):
        lit = the_atom(T.eq(IDX[d], k))
        if not diff.t or not all(any(a is lit for a, e in m) for m, c in diff.t):
            continue
        mp = {}
        for a in atoms_of(nv):
            if a.op == 'app' and a.args[0] == sg and a is not the_atom(own) and a.args[1 + d] is k and \
                    not any(has_sig(x, {sg}) for x in a.args[1:]):
                mp[a] = subst(init, dict(zip(IDXA, a.args[1:])))
        if mp:
            return replace_apps(nv, mp)
    return nv


def read_own(nv, sg, ar, others, ctx):
    """rewrite sg(e) to sg(IDX) inside monomials that carry the literals IDX = e"""
    own = T.app(sg, *IDX[:ar])
    out = ZERO
    for m, c in nv.t:
        hit = [a for a, e in m if a in others]
        if not hit:
            if any(has_sig(of_atom(a), {sg}) and a is not the_atom(own) for a, e in m):
                return None
            out = out + T._mk({m: c})
            continue
        eqs = [a for a, e in m if a.op == 'ind' and a.args[0] == 'eq0']
        x = const(c)
        for a, e in m:
            if a in others:
                ok = True
                for d in range(ar):
                    if a.args[1 + d] is IDX[d]:
                        continue
                    if the_atom(T.eq(IDX[d], a.args[1 + d])) not in eqs:
                        ok = False
                if not ok:
                    return None
                for _ in range(e):
                    x = x * own
            else:
                x = x * T._mk({((a, e),): 1})
        out = out + x
    return out


def guarded(v, c, h):
    if isinstance(v, PIte) and v != h:
        return guarded(v.a, c * v.c, h) + guarded(v.b, c * bnot(v.c), h)
    return [(c, v)]


def solve_ptr_cell(nv, init, h, k, ar, names, ctx):
    """pointer-valued cells: written at affine index with a value free of unsolved symbols"""
    ka = the_atom(k)
    own = isinstance(nv, PIte) and nv.b == h
    if not (ar and isinstance(nv, PIte)) and (has_sig(nv.c, names) or has_sig(nv.a, names) if own else has_sig(nv, names)):
        return None
    # nv = PIte([IDX = g(k)], p(k), h)
    guards = []
    v = nv
    if isinstance(v, PIte) and v.b == h and not has_sig(v.c, names) and not has_sig(v.a, names):
        c, p = v.c, v.a
        # literals common to all monomials of the guard: one of them fixes the iteration that writes
        if c.t:
            common = set(a for a, e in c.t[0][0])
            for m, _ in c.t[1:]:
                common &= set(a for a, e in m)
            for a in sorted(common, key=lambda x: x.id):
                if a.op == 'ind' and a.args[0] == 'eq0' and ka in a.args[1].syms:
                    li = lin_in(a.args[1], ka)
                    if li and cval(li[0]) in (1, -1):
                        hh = scale(li[1], -cval(li[0]))
                        rest = T._mk({tuple(x for x in m if x[0] is not a): cc for m, cc in c.t})
                        g = subst(rest, {ka: hh}) * ge0(hh) * lt(hh, k)
                        return vite(g, psub(p, {ka: hh}), init)
    if ar and isinstance(v, PIte):
        # several writes at the index of the iteration, under conditions that exclude each other
        out, at, seen = init, None, []
        for c, p in guarded(v, ONE, h):
            if p == h:
                continue
            if has_sig(p, names) or has_sig(c, names) or not c.t:
                return None
            hit = None
            for a in sorted(set.intersection(*[set(a for a, e in m) for m, _ in c.t]), key=lambda x: x.id):
                if a.op == 'ind' and a.args[0] == 'eq0' and ka in a.args[1].syms:
                    li = lin_in(a.args[1], ka)
                    if li and cval(li[0]) in (1, -1) and any(x in li[1].syms for x in IDXA):
                        hit = (a, scale(li[1], -cval(li[0])))
                        break
            if hit is None:
                return None
            a, at = hit
            rest = T._mk({tuple(x for x in m if x[0] is not a): cc for m, cc in c.t})
            g = subst(rest, {ka: at}) * ge0(at) * lt(at, k)
            if any(y is not at and not prove_zero(x * g, ctx, 4) for x, y in seen):
                return None
            seen.append((g, at))
            out = vite(g, psub(p, {ka: at}), out)
        if at is not None:
            return out
    if ar and isinstance(v, Ptr) and isinstance(init, Ptr) and h == init and v.root is h.root and v.offs == h.offs and equal(v, h, ctx):
        return init         # written with the value it has
    if not isinstance(v, (PIte,)) and ar == 0:
        return vite(T.eq(k, 0), init, psub(v, {ka: k - 1}))
    if not has_sig(v, names) and isinstance(v, (Ptr, Null, Opaque)) and isinstance(init, (Opaque, Poly)):
        return None
    return None
