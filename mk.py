#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open('properties.jsonl', 'w') as f:
    for pid, p in PROPS.items():
        assert len(p['title']) <= 80, pid
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
na = []
for pid, p in PROPS.items():
    if p.get('na'):
        na.append({'property': pid, 'reason': p['na']})
        continue
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'python3 check.py %s --thorough' % pid,
                   'technique': p.get('technique') or ('contract-based deductive verification (function contracts on the real code, vcg over LLVM IR) with bounded replay/stand-in harness' if p['contracts'] else 'bounded stand-in: oracle harness on the real code (no contract within reach yet)'),
                   'level': p['level'], 'level_note': p['note'] or 'bounded'})
import re, sys
try:
    sys.setrecursionlimit(40000)
    from vcg import registry
    lib = registry.load()
    with open('CONTRACTS.md', 'w') as f:
        f.write('# Contracts per group (written by mk.py with python3-vt)\n\n')
        for g in sorted(lib.GROUPS):
            used = [k for k, p in PROPS.items() for x in p['groups'] if x.split(':')[0] == g]
            f.write('## %s  (%s)\n\n' % (g, ', '.join(sorted(set(used))) or 'not attached'))
            for n in sorted({c.name for c in lib.GROUPS[g]}):
                f.write('* `%s`\n' % n)
            for c in lib.GROUPS[g]:
                if hasattr(c, 'theorems'):
                    f.write('  * Lean theorems of "%s": %s\n' % (c.name, ', '.join(c.theorems())))
            f.write('\n')
except ImportError:
    pass
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import sys; sys.path.insert(0, \'.\'); import props, vcg.registry"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: nothing in /repo is guarded.  See DESIGN.md.'}, open('MANIFEST.json', 'w'), indent=1)
