#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and bounds.json from meta/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
from props import PROPS
S = 'orocos_bfl/src/'
lines = []; checks = []; na = []; bounds = {}
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']}, 'why_tests_cant': p['why'],
        'anchors': {'files': [S + f for f in p['files']], 'mechanism': [{'name': n, 'where': S + w} for n, w in p['mech']], 'observe_at': p.get('obs', []), 'hook_needed': None}}))
    if p.get('na'): na.append({'property': p['id'], 'reason': p['na']}); continue
    bounds[p['id']] = {'bounds': p['bounds'], 'outside': p['outside'], 'assumptions': p.get('assume', [])}
    checks.append({'property': p['id'], 'quick_cmd': 'python3 engine/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 engine/check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'symbolic execution of the compiled code (LLVM IR), every obligation decided by z3 over all real inputs within bounds',
        'level': 'other', 'level_note': 'Bounded symbolic execution, all paths explored; each obligation is an SMT query over every real-valued input and random draw. Bounds: ' + p['bounds'] + ' Outside: ' + p['outside'] + ' Trusted: clang front end, the instrumentation pass and runtime in engine/, z3; doubles are treated as exact reals.'})
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(bounds, open(os.path.join(V, 'bounds.json'), 'w'), indent=1)
json.dump({'version': 1, 'setup_cmd': 'python3 engine/check.py --setup', 'hooks': {'guard': 'BFL_VERIF', 'enable': 'no hooks are needed: the checks compile the unmodified sources; the guard is unused', 'source_commits': []},
    'checks': checks, 'not_applicable': na, 'notes': 'All checks share engine/check.py, which compiles /repo with an LLVM pass that turns floating-point operations into symbolic terms. Exit 2 means undecided, never success.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

F = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
fix = 'Each was shown on the real code by a replay and repaired in a `fix:` commit; `known_findings.json` has the list. No finding is left open.\n\n' if all(f['status'] == 'fixed' for f in F) else 'Shown on the real code by a replay; repaired in a `fix:` commit, or recorded as known.\n\n'
fix += '\n'.join('* %s %s' % (f['id'], f['text']) for f in F)
seeds = '| bug | check that catches it | breaks | needs |\n|--|--|--|--|\n'
miss = []
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    c = m.get('caught', True)
    seeds += '| %s | %s | %s | %s |\n' % (b, m['property'] if c else 'missed (%s)' % m['property'], m['what_it_breaks'], m['needs'])
t = open(os.path.join(V, 'meta/DESIGN.in.md')).read().replace('@@FIX@@', fix).replace('@@SEEDS@@', seeds)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
