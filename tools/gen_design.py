#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (between the markers) from tools/props.py and contracts/index.json."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
N0 = getattr(__import__('props'), 'N0')
idx = json.load(open(root + '/contracts/index.json'))
out = []
for p in sorted(PROPS, key=lambda p: p['id']):
    i = idx.get(p['id'], {})
    out.append('### %s - %s' % (p['id'], p['title'])); out.append('')
    out.append('*Ranges over:* ' + p['all'] + '. *Beyond the tests:* ' + p['why']); out.append('')
    for m, d in i.get('modules', {}).items():
        fs = d.get('functions', [])
        short = [re.sub(r'^flut::(math::)?', '', f) for f in fs]
        out.append('- contracts (`contracts/%s.py`, %d functions): %s' % (m, len(fs), ', '.join('`%s`' % s for s in short[:14]) + (', ...' if len(short) > 14 else '')))
        if d.get('lemmas'): out.append('- lemmas over them: ' + ', '.join('`%s`' % l for l in d['lemmas']))
    note = p['note'].replace(N0, '').strip()
    if note: out.append('- ' + note)
    for a in i.get('assumes', []): out.append('- assumed: ' + a)
    out.append('- counterexample replay / model guard: `harness/%s.cpp` (bounded, not counted as proof)' % p['id'])
    out.append('')
t = open(root + '/DESIGN.md').read()
a, b = '<!-- generated: properties -->', '<!-- end generated -->'
t = t[:t.index(a) + len(a)] + '\n\n' + '\n'.join(out) + '\n' + t[t.index(b):]
open(root + '/DESIGN.md', 'w').write(t)
# the table of planted bugs
h = '|-----|----------|-----------|-----|\n'
if h in t and os.path.isdir(root + '/seeded'):
    i = t.index(h) + len(h); j = t.index('\n\n', i)
    rows = []
    for k in sorted(os.listdir(root + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (root, k)))
        rows.append('| %s | %s | check of %s | failed obligation, with a concrete failing input: %s |' % (k, m['property'], m['property'], m['what_it_breaks'].rstrip('.').replace('|', '/')))
    open(root + '/DESIGN.md', 'w').write(t[:i] + '\n'.join(rows) + t[j:])
