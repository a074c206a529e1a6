"""Consequences of the contracts that are mathematics (interpolation, uniqueness, primality), checked by Lean 4 with Mathlib.

A formula enters Lean only from a contract: `Export` runs the contract's own text on symbolic arguments and prints the
term it writes into the post-state as a Lean definition.  lean/*.lean states and proves theorems about those
definitions; what it says about the code is what the exported contracts say, and those are discharged against the
current source as obligations of their own.
"""
import os
import re
import subprocess
from . import terms as T
from .terms import Poly, Atom, the_atom
from .spec import Executor, View, setup_args, Ob

HERE = os.path.dirname(os.path.abspath(__file__))
ALLOWED = {'propext', 'Classical.choice', 'Quot.sound'}


# the printed normal form of the Lagrange formula and of "pairwise distinct" into the plain ones
TACTICS = {'LAGR': '''
refine sum_congr rfl fun j _ => ?_
congr 1
refine prod_congr rfl fun m _ => ?_
simp only [ind_eq]
by_cases h : m = j
· subst h
  simp
· first
  | (simp only [h, if_false]; push_cast; ring1)
  | (simp only [h, if_false, inv_flip]; push_cast; ring1)
''', 'TERM': '''
by_cases hz : j = 0
· subst hz
  have h1 : ((t - 0 : ℕ) : ℤ) = (t : ℤ) := by omega
  simpa [h1] using this
· have h1 : ((t - j : ℕ) : ℤ) = (t : ℤ) - (j : ℤ) := by omega
  have h2 : ¬ ((t : ℤ) - ((t : ℤ) - (j : ℤ)) = 0) := by omega
  have h3 : (-1 : ℤ) + (t : ℤ) + c - ((t : ℤ) - (j : ℤ)) = c + (j : ℤ) - 1 := by omega
  have h4 : (-1 : ℤ) - ((t : ℤ) - (j : ℤ)) + (t : ℤ) + c = c + (j : ℤ) - 1 := by omega
  have h5 : (1 : ℤ) ≤ (j : ℤ) := by omega
  have h6 : ¬ ((j : ℤ) ≤ 0) := by omega
  simp only [h1] at this
  ring_nf at this ⊢
  simp_all
''', 'SIZES': '''
have hs' : (0 : ℤ) ≤ -1 + ls + -2 * (t : ℤ) := by omega
have ha' : (0 : ℤ) ≤ -1 + la + -2 * (t : ℤ) := by omega
have hs'' : ¬ ((0 : ℤ) ≤ 2 * (t : ℤ) + -1 * ls) := by omega
have ha'' : ¬ ((0 : ℤ) ≤ 2 * (t : ℤ) + -1 * la) := by omega
have hs3 : ¬ ((0 : ℤ) ≤ -1 * ls + 2 * (t : ℤ)) := by omega
have ha3 : ¬ ((0 : ℤ) ≤ -1 * la + 2 * (t : ℤ)) := by omega
simp only [hs', ha', hs'', ha'', hs3, ha3, two_inds, if_true, if_false]
simp
'''}


class Cannot(Exception):
    pass


class Printer:
    """terms -> Lean: 'Z' integers, 'K' the field, 'P' a proposition"""

    def __init__(self, names, prefix='', sig='', use=''):
        self.names = names              # cell -> (lean name, sort of its value)
        self.bv = {}
        self.open = []                  # bound variables in scope
        self.prefix, self.sig, self.use = prefix, sig, use
        self.defs, self.made, self.flat = '', {}, 0

    def bind(self, d, *more):
        b = ['b%d' % x for x in (d,) + more]
        for x, y in zip((d,) + more, b):
            self.bv[x] = '(%s : ℕ)' % y
        self.open += b
        return len(b)

    def outline(self, key, kind, ty, body):
        """a part of the formula as a definition of its own, over the parameters and the bound variables in scope"""
        k = (kind, key, tuple(self.open))
        if k not in self.made:
            text = body()
            nm = '%s_%s%d' % (self.prefix, kind, sum(1 for x in self.made if x[0] == kind))
            self.made[k] = nm
            self.defs += 'noncomputable def %s%s%s : %s :=\n  %s\n\n' % (nm, self.sig, ''.join(' (%s : ℕ)' % b for b in self.open), ty, text)
        return '(%s%s%s)' % (self.made[k], self.use, ''.join(' ' + b for b in self.open))

    def app(self, a, arity=None):
        nm = a.args[0]
        if nm == 'first':
            x = a.args[1]
            if len(x.t) != 1 or x.t[0][1] != 1 or len(x.t[0][0]) != 1 or x.t[0][0][0][0].args[0] != 'all':
                raise Cannot('least index of a compound condition')
            b = the_atom(x.t[0][0][0][0].args[1])

            def body():
                self.bind(b.depth)
                r = 'sInf {b%d : ℕ | ¬ %s}' % (b.depth, self.cond(b.args[1]))
                self.open.pop()
                return r
            return '(%s : ℤ)' % self.outline(a, 'first', 'ℕ', body), 'Z'
        if nm == 'rnd':
            nm, xs = 'rnd', a.args[2:]
        else:
            xs = a.args[1:]
        if nm not in self.names and nm.startswith('addr.'):      # addr.NAME with the number of the object NAME refers to
            for x in list(self.names):
                if '@' in x and re.fullmatch(re.escape(x).replace('@', r'\d+'), nm):
                    self.names[nm] = self.names[x]
        if nm not in self.names:
            raise Cannot('cell %s has no name' % nm)
        ln, sort = self.names[nm]
        return '(%s%s)' % (ln, ''.join(' (%s)' % self.poly(x, 'Z') for x in xs)), sort

    def poly(self, p, s):
        out = []
        for m, c in p.t:
            fs = ['(%d : %s)' % (c, {'Z': 'ℤ', 'K': 'K'}[s])]
            for a, e in m:
                x = self.atom(a, s)
                if isinstance(e, int):
                    fs += [x] * e if e > 0 else ['(%s ^ (%d : ℤ))' % (x, e)]
                else:
                    fs.append('(%s ^ (%s : ℤ).toNat)' % (x, self.poly(e, 'Z')))
            if len(fs) > 1 and c == 1:
                fs = fs[1:]
            out.append(' * '.join(fs))
        return '(%s)' % (' + '.join(out) if out else '0')

    def cast(self, x, sort, s):
        if sort == s:
            return x
        if sort == 'Z' and s == 'K':
            return '((%s : ℤ) : K)' % x
        raise Cannot('a field element where an integer is needed')

    def atom(self, a, s):
        op = a.op
        if op == 'sym':
            if str(a.args[0]) not in self.names:
                raise Cannot('symbol %s has no name' % a.args[0])
            ln, sort = self.names[str(a.args[0])]
            return self.cast(ln, sort, s)
        if op == 'bv':
            return self.cast('(%s : ℤ)' % self.bv[a.args[0]], 'Z', s)
        if op == 'app':
            x, sort = self.app(a)
            return self.cast(x, sort, s)
        if op == 'ind':
            return '(if %s then (1 : %s) else 0)' % (self.prop(a), {'Z': 'ℤ', 'K': 'K'}[s])
        if op == 'inv':
            return '(%s)⁻¹' % self.poly(a.args[0], 'K')
        if op == 'div':
            return self.cast('(%s / %s)' % tuple(self.poly(x, 'Z') for x in a.args), 'Z', s)
        if op == 'pbase':
            return self.poly(a.args[0], s)
        if op == 'prod':
            n = self.poly(a.args[0], 'Z')
            self.bind(a.depth)
            r = '(∏ b%d ∈ Finset.range (%s : ℤ).toNat, %s)' % (a.depth, n, self.poly(a.args[1], s))
            self.open.pop()
            return r
        if op == 'sum':
            b = T._binder_base(a)

            def body():
                r, ns = '', [self.poly(n, 'Z') for n in a.args[0]]
                for i, n in enumerate(ns):
                    self.bind(b + i)
                    r += '∑ b%d ∈ Finset.range (%s : ℤ).toNat, ' % (b + i, n)
                r += self.poly(a.args[1], s)
                del self.open[len(self.open) - len(ns):]
                return r
            return self.outline(a, 'sum' + s, {'Z': 'ℤ', 'K': 'K'}[s], body)
        raise Cannot('no Lean form of ' + op)

    def prop(self, a):
        k = a.args[0]
        if k == 'ge0':
            return '(0 ≤ %s)' % self.poly(a.args[1], 'Z')
        if k == 'eq0':
            return '(%s = 0)' % self.poly(a.args[1], 'Z')
        if k == 'feq0':
            return '(%s = 0)' % self.poly(a.args[1], 'K')
        if k == 'all':
            b = the_atom(a.args[1])

            def body():
                n = self.poly(b.args[0], 'Z')
                self.bind(b.depth)
                r = '∀ b%d < (%s : ℤ).toNat, %s' % (b.depth, n, self.cond(b.args[1]))
                self.open.pop()
                return r
            if b.args[1].t and any(x.args[0] == 'all' for m, c in b.args[1].t for x, e in m if x.op == 'ind'):
                self.flat += 1
                r = self.outline(a, 'all', 'Prop', body)
                self.flat -= 1
                return r
            return '(%s)' % body() if self.flat else self.outline(a, 'all', 'Prop', body)
        if k.startswith('p:') and k[2:] in self.names and self.names[k[2:]][1] == 'B':
            return '(%s%s)' % (self.names[k[2:]][0], ''.join(' (%s)' % self.poly(x, 'Z') for x in a.args[1:]))
        raise Cannot('no Lean form of the condition ' + k)

    def cond(self, p):
        """a 0/1-valued term as a proposition"""
        if len(p.t) == 1 and p.t[0][1] == 1 and all(a.op == 'ind' for a, e in p.t[0][0]):
            return ' ∧ '.join(self.prop(a) for a, e in p.t[0][0]) or 'True'
        return '(%s = 1)' % self.poly(p, 'Z')


class Export:
    """a Lean definition: what a contract writes to one cell (or returns, or when it throws)"""

    def __init__(self, name, group, fn, cell, params, at=None):
        # cell: 'ret' | (argument name, offsets) | 'throws:TYPE'; params: [(lean name, sort or arity, cell)]
        self.name, self.group, self.fn, self.cell, self.params = name, group, fn, cell, params

    def lean(self, env):
        from .contracts import lib
        w = lib.WORLDS.get(self.group, lib.math61)(env)
        cs = [c for c in lib.GROUPS[self.group] if getattr(c, 'name', None) == self.fn]
        if len(cs) != 1:
            raise Cannot('%d contracts named %s' % (len(cs), self.fn))
        c = cs[0]
        fns = [f for f in w.mod.bydem.get(c.name, []) if not f.isdecl]
        if not fns:
            raise Cannot('function not found in the current source: ' + self.fn)
        ex = Executor(w)
        w.heap_reset()
        st, args = setup_args(w, ex, fns[0], c.types)
        if c.init:
            v = View(w, ex, None, None, st, args, None)
            c.init(v)
            st = v.st
        if c.pre:
            v = View(w, ex, None, None, st, args, None)
            st = st.fork(*c.pre(v))

        class R:
            throws = []
        R.throws = []
        v = View(w, ex, None, None, st, args, R)
        n0 = len(st.cond)
        c.spec(v)
        names, sig = {'ix0': ('i', 'Z'), 'ix1': ('i1', 'Z')}, ''

        def off(m):
            o = 0
            for part in m.group(1).split('/'):
                cls, f = part.rsplit('.', 1) if '.' in part else (None, part)
                o += w.lay.field(w.resolve(cls), f)[0] if cls else int(f)
            return str(o)
        for ln, ty, cell in self.params:
            so = {'Z': 'Z', 'W': 'Z', 'MZ': 'Z', 'B': 'B'}.get(ty, 'K')
            if cell is not None:
                names[re.sub(r'\{([^}]*)\}', off, cell)] = (ln, so)
            sig += ' (%s : %s)' % (ln, {'Z': 'ℤ', 'K': 'K', 'V': 'ℤ → K', 'M': 'ℤ → ℤ → K', 'W': 'ℤ → ℤ', 'MZ': 'ℤ → ℤ → ℤ', 'B': 'Prop'}[ty])
        pr = Printer(names, self.name, sig, ''.join(' ' + x[0] for x in self.params))
        if self.cell == 'ret':
            t, so = pr.poly(v.ret, 'K'), 'K'
        elif isinstance(self.cell, str):
            ty = self.cell.split(':', 1)[1]
            r = ' ∨ '.join('(%s)' % ' ∧ '.join(pr.cond(x) for x in cs[n0:]) for cs, t in R.throws if t == ty)
            return pr.defs + 'noncomputable def %s%s : Prop :=\n  %s\n' % (self.name, sig, r or 'False')
        else:
            root, offs = self.cell
            root, offs = re.sub(r'\{([^}]*)\}', off, root), tuple(int(re.sub(r'\{([^}]*)\}', off, o)) if str(o)[:1] == '{' else o for o in offs)
            ks = [k for k in v.st.mem if k[0].name == root and k[1] == offs]
            if len(ks) != 1:
                raise Cannot('cell %s' % (self.cell,))
            x = v.st.mem[ks[0]]
            so = 'Z' if offs[-1] in ('len', '$rnd') else names.get('.'.join([root] + [str(o) for o in offs]), (0, 'K'))[1]
            t = pr.poly(x, so)
        return pr.defs + 'noncomputable def %s%s : %s :=\n  %s\n' % (self.name, sig, {'Z': 'ℤ', 'K': 'K'}[so], t)


class LeanLemma:
    """theorems of lean/FILE.lean over exported contract formulas"""
    backend = 'Lean 4 + Mathlib kernel (lemma over contract formulas)'

    def __init__(self, group, file, title, exports=()):
        from .contracts import lib
        self.name = 'lemma ' + title
        self.file, self.exports = file, exports
        lib.GROUPS.setdefault(group, []).append(self)

    def theorems(self):
        return re.findall(r'^theorem (\S+)', open(os.path.join(HERE, 'lean', self.file + '.lean')).read(), re.M)

    def obligations(self, env):
        src = open(os.path.join(HERE, 'lean', self.file + '.lean')).read()
        thms = self.theorems()
        defs = ''
        try:
            for e in self.exports:
                defs += e.lean(env) + '\n'
        except Cannot as x:
            return [Ob(self.name, t, None, str(x)) for t in thms]
        for _ in range(3):
            src = re.sub(r'^-- INCLUDE (\w+)$', lambda m: open(os.path.join(HERE, 'lean', m.group(1) + '.inc')).read(), src, flags=re.M)
        src = src.replace('open scoped Classical', 'set_option linter.all false\nopen scoped Classical', 1)
        if '-- EXPORTS' in src:
            src = src.replace('-- EXPORTS', defs, 1)
        for k, x in TACTICS.items():
            src = re.sub(r'^( *)%s$' % k, lambda m: ''.join(m.group(1) + l + '\n' for l in x.strip('\n').split('\n')), src, flags=re.M)
        src += '\n' + '\n'.join('#print axioms Vcg.%s' % t for t in thms) + '\n'
        d = os.path.join(env.work, 'lean')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.file + '.lean')
        with open(p, 'w') as f:
            f.write(src)
        try:
            r = subprocess.run(['lean', '-j2', p], capture_output=True, text=True, timeout=600)
            out = r.stdout + r.stderr
        except (OSError, subprocess.TimeoutExpired) as x:
            return [Ob(self.name, t, None, 'lean: %s' % x) for t in thms]
        obs = []
        for t in thms:
            m = re.search(r"'Vcg\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(t), out)
            ok = r.returncode == 0 and m is not None and set(x.strip() for x in (m.group(2) or '').split(',') if x.strip()) <= ALLOWED
            obs.append(Ob(self.name, t, True if ok else None, '' if ok else 'Lean does not accept: ' + out[:1500]))
        return obs
