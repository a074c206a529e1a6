#!/usr/bin/env python3
"""check.py PID : decides one property against /repo's current sources.

1. vcg (contract-based deductive verifier) extracts /repo's functions mechanically, generates the
   obligations of every contract PID rests on and discharges them.
2. The property's harness is compiled against /repo's sources and run: it replays a refutation on the
   real code and is the labelled, bounded stand-in for functions the verifier cannot reach.

exit 0: held;  exit 1 with a VIOLATION line: broken."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCL = REPO + '/secure-computation-library'
sys.path.insert(0, HERE)
import props  # noqa: E402

CXX = ['g++', '-std=c++17', '-O1', '-maes', '-msse4.1', '-include', 'cstdint', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address',
       '-fno-omit-frame-pointer', '-w', '-I' + SCL + '/include', '-I' + REPO + '/src', '-I' + HERE + '/harness', '-pthread']


def compile_one(job):
    src, out = job
    r = subprocess.run(CXX + ['-c', src, '-o', out], capture_output=True, text=True)
    return None if r.returncode == 0 else '%s:\n%s' % (src, r.stderr[-3000:])


def harness_build(p, work):
    """returns (exe, error)"""
    srcs = sorted(glob.glob(SCL + '/src/scl/**/*.cc', recursive=True))
    if p.get('tp'):
        srcs += sorted(glob.glob(REPO + '/src/tp/**/*.cc', recursive=True))
    srcs += [HERE + '/harness/main.cpp', HERE + '/harness/' + p['harness'] + '.cpp']
    jobs = [(s, '%s/h%d.o' % (work, i)) for i, s in enumerate(srcs)]
    jobs = jobs[-1:] + jobs[:-1]
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        return None, errs
    exe = work + '/harness'
    r = subprocess.run(['g++', '-fsanitize=address', '-pthread', '-o', exe] + [o for _, o in jobs], capture_output=True, text=True)
    if r.returncode:
        return None, [r.stderr[-3000:]]
    return exe, None


def harness_run(exe, seed, tier, limit, work):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, TMPDIR=work,
               ASAN_OPTIONS='detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigfpe=0:allocator_may_return_null=1:allow_user_segv_handler=1')
    t = time.time()
    try:
        r = subprocess.run([exe], capture_output=True, env=env, timeout=limit, cwd=work)
        out = r.stdout.decode('utf8', 'replace')
        err = r.stderr.decode('utf8', 'replace')
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        return {'status': 'timeout', 'wall': time.time() - t, 'out': (e.stdout or b'').decode('utf8', 'replace')[-2000:]}
    res = {'wall': time.time() - t, 'seed': seed, 'tier': tier, 'rc': rc}
    m = re.search(r'^EVALS (\d+)\nDISTINCT (\d+)', out, re.M)
    res['evals'], res['distinct'] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    res['samples'] = re.findall(r'^SAMPLE (.*)$', out, re.M)
    res['sections'] = sorted(set(re.findall(r'^SECTION (.*)$', out, re.M)))
    if rc == 0 and out.rstrip().endswith('OK'):
        res['status'] = 'ok'
        return res
    res['status'] = 'fail'
    sec = re.search(r'^FAIL section=(.*)$', out, re.M)
    case = re.search(r'^CASE (.*)$', out, re.M)
    det = re.search(r'^DETAIL (.*)$', out, re.M)
    secs = re.findall(r'^SECTION (.*)$', out, re.M)
    res['section'] = sec.group(1) if sec else (secs[-1] if secs else '?')
    res['case'] = case.group(1) if case else '(see output)'
    res['detail'] = det.group(1) if det else ('terminated (%d): ' % rc) + (re.findall(r'ERROR: .*', err) or [err[-300:]])[0]
    res['stderr'] = err[-4000:]
    res['tail'] = out[-3000:]
    return res


def run_prover(pid, work, limit):
    if not props.PROPS[pid].get('contracts', True):
        return None
    out = work + '/prove.json'
    t = time.time()
    env = dict(os.environ, PYTHONHASHSEED='0')
    try:
        r = subprocess.run(['python3-vt', '-m', 'vcg.prove', pid, work + '/bc', out], cwd=HERE, env=env, capture_output=True,
                           text=True, timeout=limit)
        if os.path.exists(out):
            d = json.load(open(out))
            d['wall'] = time.time() - t
            return d
        return {'error': (r.stderr or r.stdout)[-3000:], 'obligations': [], 'functions': [], 'wall': time.time() - t}
    except subprocess.TimeoutExpired:
        if os.path.exists(out):
            d = json.load(open(out))
            d['wall'] = time.time() - t
            d['error'] = 'time limit'
            return d
        return {'error': 'time limit', 'obligations': [], 'functions': [], 'wall': time.time() - t}


def known(pid):
    out = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = props.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir='/tmp')
    try:
        return decide(pid, p, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, p, tier, seed, work, t0):
    budget = 560 if tier == 'quick' else 7200
    ex = cf.ThreadPoolExecutor(2)
    fprove = ex.submit(run_prover, pid, work, 420 if tier == 'quick' else 1800)
    exe, errs = harness_build(p, work)
    runs = []
    if exe:
        runs.append(harness_run(exe, seed, tier, 300 if tier == 'quick' else 3600, work))
    prove = fprove.result()
    obs = prove['obligations'] if prove else []
    failed = [o for o in obs if o['status'] == 'failed']
    unsup = [o for o in obs if o['status'] == 'unsupported']
    if prove and prove.get('error'):
        unsup = unsup + [{'function': '(verifier)', 'obligation': 'run', 'status': 'unsupported', 'why': prove['error'][:500]}]
    # escalate the search for a failing input when an obligation is not discharged
    if exe and (failed or unsup) and runs[-1]['status'] == 'ok':
        for s in (seed + 1, seed + 2, seed + 3):
            left = budget - (time.time() - t0)
            if left < 60:
                break
            r = harness_run(exe, s, 'thorough', min(left - 30, 240), work)
            runs.append(r)
            if r['status'] != 'ok':
                break
    bad = next((r for r in runs if r['status'] == 'fail'), None)
    violations = 0
    rc = 0
    os.makedirs(HERE + '/evidence', exist_ok=True)
    replay = '%s/evidence/%s.replay' % (HERE, pid)
    if os.path.exists(replay):
        os.unlink(replay)
    lines = []
    if bad:
        violations = 1
        rc = 1
        with open(replay, 'w') as f:
            f.write('property %s (%s)\nobligation replayed: %s\ninput: %s\nobserved: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s H_ONLY=%s harness/%s.cpp\n' %
                    (pid, p['title'], bad['section'], bad['case'], bad['detail'], bad['seed'], bad['tier'], bad['section'], p['harness']))
            for o in failed:
                f.write('failed obligation: %s :: %s\n  %s\n' % (o['function'], o['obligation'], o['why'][:3000]))
            f.write('\n--- output\n' + bad.get('tail', '') + '\n' + bad.get('stderr', ''))
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay))
        print('failing input: section %s: %s: %s' % (bad['section'], bad['case'][:500], bad['detail'][:500]))
    elif failed:
        violations = 1
        rc = 1
        with open(replay, 'w') as f:
            f.write('property %s (%s)\nno failing input found; obligations the verifier does not discharge on the current source:\n' % (pid, p['title']))
            for o in failed:
                f.write('%s :: %s\n  %s\n' % (o['function'], o['obligation'], o['why'][:6000]))
        for o in failed[:6]:
            print('failed obligation: %s :: %s  %s' % (o['function'], o['obligation'], o['why'][:300]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    for o in unsup:
        print('NOT PROVED (bounded stand-in applies): %s :: %s  %s' % (o['function'], o['obligation'], o['why'][:300]))
    if errs:
        for e in errs:
            print('harness does not compile against the current tree: ' + e[:1500])
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    write_evidence(pid, p, tier, seed, prove, obs, failed, unsup, runs, errs, violations, time.time() - t0)
    if exe is None and rc == 0 and not (obs and not failed and not unsup):
        print('no answer: the harness could not be built')
        return 2
    if any(r['status'] == 'timeout' for r in runs) and rc == 0 and runs[0]['status'] == 'timeout':
        print('no answer: the harness ran out of time')
        return 2
    n = len([o for o in obs if o['status'] == 'discharged'])
    print('%s: %d/%d obligations discharged over %d functions; %d stand-in evaluations; %.1fs' %
          (pid, n, len(obs), len({o['function'] for o in obs}), sum(r.get('evals', 0) for r in runs), time.time() - t0))
    for l in lines:
        print(l)
    return rc


def write_evidence(pid, p, tier, seed, prove, obs, failed, unsup, runs, errs, violations, wall):
    fns = {}
    for o in obs:
        f = fns.setdefault(o['function'], {'function': o['function'], 'obligations': 0, 'discharged': 0, 'status': 'proved'})
        f['obligations'] += 1
        if o['status'] == 'discharged':
            f['discharged'] += 1
        else:
            f['status'] = 'failed' if o['status'] == 'failed' else ('bounded stand-in' if f['status'] != 'failed' else f['status'])
    level = p['level']
    for n, f in fns.items():
        f.update((prove or {}).get('uses', {}).get(n, {}))
    cov = {
        'obligations': len(obs),
        'discharged': len([o for o in obs if o['status'] == 'discharged']),
        'checker_cmd': 'python3 -m vcg.prove %s WORK OUT.json (obligations generated from %s)' % (pid, REPO),
        'trusted_base': TRUSTED + p.get('trusted', []) + (prove or {}).get('trusted', []),
        'functions_under_contract': sorted(fns.values(), key=lambda f: f['function']),
        'assumed_contracts': (prove or {}).get('models', []),
        'failed_obligations': [{k: str(o[k])[:800] for k in ('function', 'obligation', 'why')} for o in failed],
        'not_proved': [{k: str(o[k])[:800] for k in ('function', 'obligation', 'why')} for o in unsup],
        'backends': (prove or {}).get('backends', {}),
        'solver_seconds': (prove or {}).get('solver_s', 0),
        'bounded_standin': {
            'label': 'bounded: never counted as proved',
            'harness': 'harness/%s.cpp' % p['harness'],
            'bound': p.get('bound', 'the enumerated and seeded random cases of the harness'),
            'runs': [{k: r.get(k) for k in ('seed', 'tier', 'status', 'wall')} for r in runs],
        },
        'evaluations': sum(r.get('evals', 0) for r in runs),
        'distinct_nontrivial': max([r.get('distinct', 0) for r in runs] + [0]),
        'rule': 'one case per enumerated/random input; distinct by the printed case description and section; every case runs the real code against an independent oracle',
        'samples': next((r['samples'] for r in runs if r.get('samples')), [])[:12],
        'explanation': p['note'],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': props.ASSUME + p.get('assume', []) + (prove or {}).get('assumptions', []), 'wall_s': round(wall, 2), 'violations': violations}
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, pid), 'w'), indent=1)


TRUSTED = ['clang 18 front end and opt (sroa, simplifycfg, loop-simplify, lcssa) preserve the C++ semantics',
           'the vcg verifier in /verif/vcg (symbolic executor, loop-summary synthesiser, polynomial normaliser)',
           'z3 4.8.12']

if __name__ == '__main__':
    sys.exit(main())
