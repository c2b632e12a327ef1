#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
idx = json.load(open(os.path.join(HERE, 'contracts', 'index.json')))
out, checks, na = [], [], []
for p in props.PROPS:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p.get('over', ['inputs']), 'text': p['all']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}})
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    assert p['id'] in idx, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('technique', 'contract-based deductive verification (contracts + loop invariants on the real C++, VCs from the clang AST, z3)'),
                   'level': p.get('level', 'proof'), 'level_note': p['note']})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, vf.verify" && clang --version >/dev/null && g++ --version >/dev/null',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks verify the unmodified text of /repo. Commits in /repo are fix: commits only. See DESIGN.md.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
