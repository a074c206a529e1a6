"""Contracts decided in word-level mode: each is a Python procedure that sets up a symbolic pre-state,
runs the real function's IR through vcg.word and states the postcondition on every path."""
import time
import z3
from . import word
from .word import Exec, State, Ptr, Obj, BV, IntDom, LoopSpec, Throw, NULL, JUNK
from .exec import Unsupported
from .spec import Ob

BACKEND = 'vcg word-level symbolic execution + z3 (bit vectors / integers)'


class WC:
    """a word-level contract: name (what is under contract), sources, and body(W)"""

    def __init__(self, name, src, body, functions=None):
        self.name, self.src, self.body = name, src, body
        self.types = []
        self.functions = functions or [name]

    def obligations(self, env):
        obs = []
        W = Ctx(env, self, obs)
        try:
            self.body(W)
            if not obs:
                obs.append(Ob(self.name, 'body', None, 'no obligation was generated'))
            annotation(obs)
        except Unsupported as e:
            obs.append(Ob(self.name, 'body', None, 'not supported: %s' % e))
        return obs


def annotation(obs):
    """A loop invariant is this check's annotation, not the property: a loop that was rewritten may not satisfy it
    although the function still meets its contract.  When invariants fail, the contract is undecided - not refuted -
    and so is the absence of a return that follows from cutting every path at the loop."""
    bad = [o for o in obs if o.ok is False]
    if not any(INV in o.kind or 'loop frame' in o.kind for o in bad):
        return
    for o in bad:
        if INV in o.kind or 'loop frame' in o.kind or o.kind.endswith('returns'):
            o.ok, o.why = None, 'the loop no longer satisfies the annotated invariant: ' + o.why


DBG = 0
INV = 'loop invariant'


class Ctx:
    def __init__(self, env, c, obs):
        tag, which = c.src
        self.mod, self.lay = env.module(tag, which)
        self.c, self.obs = c, obs

    def fn(self, dem):
        fs = [f for f in self.mod.bydem.get(dem, []) if not f.isdecl]
        if not fs:
            raise Unsupported('function %s not found in the current source' % dem)
        return fs[0]

    def ex(self, dom=None, models=(), loops=None, **kw):
        return Exec(self.mod, dom, models, loops, **kw)

    def ob(self, kind, ok, why=''):
        self.obs.append(Ob(self.c.name, kind, ok, why))

    def goal(self, ex, st, g, kind, timeout=None):
        ok = ex.prove(st, g, record=False, timeout=timeout)
        r = None
        if not ok:
            r = self._why(ex)
        self.ob(kind, True if ok else (False if ex.model is not None else None), r or '')
        return ok

    def _why(self, ex):
        return 'counterexample: ' + ex.show_model() if ex.model is not None else 'solver gives up'

    def finish(self, ex, label=''):
        """obligations the executor met on the way (ranges, memory accesses, loop invariants)"""
        for w, d in ex.failures:
            self.ob(label + w, None if d == 'unknown' else False, d)
        if ex.discharged:
            self.ob(label + 'side conditions on every path (%d)' % ex.discharged, True)
        for l in ex.loops:
            if not l.used:
                self.ob(label + 'loop with an invariant', None, 'the loop the invariant belongs to was not found')


def retval(ex, v):
    """compose a coerced integer return value"""
    if isinstance(v, list):
        return z3.simplify(z3.Concat(*v[::-1]))
    return v


def obj_words(name, n, width, prefix=None):
    """an object holding n words of the given width; returns (obj, values)"""
    o = Obj(name, n * width // 8)
    vs = []
    for i in range(n):
        v = z3.BitVec('%s_%d' % (prefix or name, i) if n > 1 else (prefix or name), width)
        o.init[(i * width // 8, width // 8)] = v
        vs.append(v)
    return o, vs


def refutation(W, bounded):
    """Some invariant failed, so the proof says nothing.  Before the contract is given up, the function is run with
    concrete sizes (loops followed iteration by iteration, everything else symbolic): a postcondition that fails there
    is refuted, not merely unproved."""
    t0 = time.time()
    for label, f in bounded():
        if time.time() - t0 > 90:
            return
        saved = list(W.obs)
        try:
            f()
        except Unsupported:
            pass
        bad = [o for o in W.obs[len(saved):] if o.ok is False and INV not in o.kind]
        W.obs[:] = saved
        if bad:
            for o in bad:
                o.kind = '%s (refuted for %s)' % (o.kind, label)
            W.obs += bad[:3]
            return


def with_perms(W, make, verify, bounded=None):
    """try the assignments of loop roles; keep the first one under which nothing fails"""
    best = None
    i = 0
    while True:
        loops = make()
        for l in loops:
            l.perm = i
        saved = list(W.obs)
        try:
            verify(loops)
            for _ in range(3):
                if not any([l.learned() for l in loops if l.linear]):
                    break
                del W.obs[len(saved):]
                verify(loops)
            bad = [o for o in W.obs[len(saved):] if o.ok is not True]
            for l in loops:
                for _ in (l.guesses() if bad and l.linear else ()):
                    kept = W.obs[len(saved):]
                    del W.obs[len(saved):]
                    for x in loops:
                        x.seen, x.used = [], 0
                    verify(loops)
                    now = [o for o in W.obs[len(saved):] if o.ok is not True]
                    if DBG: print([(o.kind[-60:],o.why[:300]) for o in now])
                    if now and (len(now) >= len(bad) or any('moves with' in o.kind or 'stays in its' in o.kind for o in now)):
                        W.obs[len(saved):] = kept
                        continue
                    bad = now
                    break
            err = None
        except Unsupported as e:
            bad, err = [1], e
        if not bad:
            return
        got = W.obs[len(saved):]
        rank = (sum('(entry)' in o.kind for o in got if o.ok is not True), err is not None, len([o for o in got if o.ok is not True]))
        if best is None or rank < best[2]:
            best = (got, err, rank)
        n = max([l.nperm for l in loops] or [1])
        i += 1
        if i >= n or i > 130:
            del W.obs[len(saved):]
            W.obs += best[0]
            if bounded:
                refutation(W, bounded)
            if best[1]:
                raise best[1]
            return
        del W.obs[len(saved):]
