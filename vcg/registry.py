"""Which contract groups a property rests on, and running them."""
import importlib
from . import used
import re
import time
import traceback


class Env:
    def __init__(self, work):
        self.work = work
        self.worlds = {}

    def module(self, tag, which):
        """bitcode of the named source set, built once"""
        if tag not in self.worlds:
            from . import build, ll
            bc, lay = build.build(which, self.work + '/' + tag)
            self.worlds[tag] = (ll.Module(bc), lay)
        return self.worlds[tag]

    def world(self, tag, which):
        key = 'W' + tag
        if key not in self.worlds:
            from .world import World
            m, lay = self.module(tag, which)
            self.worlds[key] = World(m, lay)
        return self.worlds[key]


def _one(env, w, c):
    from .spec import verify
    t = time.time()
    used.clear()
    why = None
    obs = None
    try:
        obs = c.obligations(env) if hasattr(c, 'obligations') else verify(w, c)
        obs = [(o.kind, 'discharged' if o.ok else ('failed' if o.ok is False else 'unsupported'), str(o.why)[:6000]) for o in obs]
    except RecursionError:
        why = 'recursion limit'
    except MemoryError:
        why = 'memory limit'
    except Exception as e:
        why = 'verifier error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()[-400:]
    return obs, why, time.time() - t, sorted({used.short(x) for x in used.MODELS}), sorted(used.CONTRACTS - {c.name}), sorted({used.short(x) for x in used.INLINED})


_job = None


def _run(i):
    env, w, cs = _job
    return _one(env, w, cs[i])


def run_contracts(env, w, cs, res, dump, backend='vcg symbolic execution + polynomial normal form + z3'):
    """every contract in a forked process of its own (the program is loaded once, before)"""
    global _job
    import multiprocessing as mp
    ww = None
    if any(not hasattr(c, 'obligations') for c in cs):
        ww = w() if callable(w) else w
    for c in cs:
        if hasattr(c, 'src'):
            try:
                env.module(*c.src)
            except Exception:
                pass            # reported by the contract itself
    _job = (env, ww, cs)
    ctx = mp.get_context('fork')
    with ctx.Pool(min(7, max(1, len(cs))), maxtasksperchild=1) as pool:
        for c, (obs, why, dt, mo, cc, inl) in zip(cs, pool.imap(_run, range(len(cs)), 1)):
            if obs is None:
                res['obligations'].append({'function': c.name, 'obligation': 'body', 'status': 'unsupported', 'why': why})
            else:
                for k, st, y in obs:
                    res['obligations'].append({'function': c.name, 'obligation': k, 'status': st, 'why': y})
            res['uses'][c.name] = {'by_contract': cc, 'in_place': inl}
            res['models'] = sorted(set(res['models']) | set(mo))
            bk = backend if not hasattr(c, 'obligations') else getattr(c, 'backend', 'vcg word-level symbolic execution + z3')
            b = res['backends'].setdefault(bk, {'obligations': 0, 'seconds': 0.0})
            b['obligations'] += len(obs or [1])
            b['seconds'] = round(b['seconds'] + dt, 3)
            res['solver_s'] = round(res['solver_s'] + dt, 3)
            dump()


def load():
    import os
    d = os.path.dirname(__file__) + '/contracts'
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f not in ('__init__.py', 'lib.py'):
            importlib.import_module('vcg.contracts.' + f[:-3])
    from .contracts import lib
    return lib


def prove(pid, work, res, dump):
    import sys
    sys.path.insert(0, '.')
    import props
    env = Env(work)
    lib = load()
    for g in props.PROPS[pid].get('groups', []):
        try:
            g, _, rx = g.partition(':')
            lib.run_group(g, rx)(env, res, dump, pid)
        except Exception as e:
            res['obligations'].append({'function': '(group %s)' % g, 'obligation': 'run', 'status': 'unsupported',
                                       'why': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]})
        dump()
