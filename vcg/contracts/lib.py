"""Contract library: name -> Contract, grouped."""
from ..spec import *
from .. import terms as T
from ..terms import *

LIB = {}
GROUPS = {}
FIELD_BITS = 61
VEC = 'scl::Vec<FF61>'
MAT = 'scl::Mat<FF61>'
POLY = 'scl::details::Polynomial<FF61>'
EVP = 'scl::details::EvPolynomial<FF61>'
PRG = 'scl::PRG'


def con(group, name, types, pre=None, init=None, hints=None):
    def d(f):
        c = Contract(name, types, f, pre, init, hints)
        LIB[name] = c
        GROUPS.setdefault(group, []).append(c)
        return f
    return d


def goals(group, name, types, pre=None, throws=None, hints=None):
    """a contract that states facts about the final state (v.post) instead of giving its value; never used at calls"""
    def d(f):
        c = Contract(name, types, throws or (lambda v: None), pre, None, hints)
        c.goals = f
        GROUPS.setdefault(group, []).append(c)
        return f
    return d


def same(k):
    """argument: the very object argument k is"""
    return lambda w, st, args: args[k]


def element_of(k, cls=None, field=None):
    """argument: a reference to element `at` of the vector that argument k is, or has as a field"""
    def f(w, st, args):
        p = args[k] if cls is None else w.fieldptr(args[k], cls, field)[0]
        return p.elem(sym('at'))
    return f


def con_when(label, group, name, types, pre=None):
    """the contract of a function for arguments that coincide"""
    def d(f):
        c = Contract('%s [%s]' % (name, label), types, f, pre)
        c.resolve = lambda w: next((x for x in w.mod.bydem.get(name, []) if not x.isdecl), None)
        GROUPS.setdefault(group, []).append(c)
        return f
    return d


def world61(env):
    return env.world('w61', ['scl', 'tp', 'tu:scl61'])


def math61(env):
    return env.world('m61', ['tu:scl61'])


# ---------------------------------------------------------------- mathematics used in the contracts
def Sum(n, f):
    j = fresh('j')
    return mk_sum(lift(n), j, f(j))


def Prod(n, f):
    j = fresh('j')
    return mk_prod(lift(n), j, f(j))


def All(n, f):
    j = fresh('j')
    return mk_all(lift(n), j, f(j))


def first(n, f):
    """least i < n with f(i); only used where some such i exists"""
    from ..loops import declare_first
    n = lift(n)
    k = T.app('first', All(n, lambda i: bnot(f(i))))
    declare_first(k, n)
    return k


def lagrange_basis(j, x, xs, k):
    """prod over m != j of (x - xs m) / (xs j - xs m)"""
    return Prod(k, lambda m: ite(T.eq(m, j), ONE, (x - xs(m)) * inv(xs(j) - xs(m))))


def lagrange(x, xs, ys, k):
    return Sum(k, lambda j: ys(j) * lagrange_basis(j, x, xs, k))


def distinct(xs, k):
    return All(k, lambda j: All(k, lambda m: bor(T.eq(m, j), bnot(feq(xs(j), xs(m))))))


def inr(i, n):
    return ge0(i) * lt(i, n)


def vget(v, p):
    return lambda i: v.el(p, i)


WORLDS = {}


class Lemma:
    """a consequence of the contracts: f() gives (name, difference that must vanish, facts assumed)"""
    backend = 'vcg polynomial normal form + z3 (lemma)'

    def __init__(self, group, name, f):
        self.name, self.f = 'lemma ' + name, f
        GROUPS.setdefault(group, []).append(self)

    def obligations(self, env):
        from ..ctx import Ctx
        out = []
        for kind, d, facts in self.f():
            ctx = Ctx().plus(*facts)
            out.append(Ob(self.name, kind + '[satisfiable]', True if ctx.sat() else None))
            out.append(Ob(self.name, kind, True if prove_zero(d, ctx) else False, str(d)))
        return out




def run_group(group, rx=''):
    def run(env, res, dump, pid):
        import re
        from ..registry import run_contracts
        cs = [c for c in GROUPS[group] if re.search(rx, c.name)]
        run_contracts(env, (lambda: WORLDS.get(group, math61)(env)), cs, res, dump)
    return run
