"""developer CLI: python3-vt -m vf.dev MODULE [substring]"""
import sys, time, os
sys.setrecursionlimit(20000)
from .module import load, build_world
from .verify import verify_contract, verify_lemma, run_jobs
import json

m = load(sys.argv[1])
t = time.time()
w = build_world(m)
print('world built %.1fs' % (time.time() - t), 'missing:', [(c.target, r) for c, r in w.missing])
sel = sys.argv[2] if len(sys.argv) > 2 else ''
jobs = [('fn', w, c, 300, 5000, False) for c in w.contract_list if sel in c.target] + \
       [('lemma', w, l, 300, 5000, False) for l in w.spec.lemmas.values() if sel in 'lemma ' + l.name]
res = run_jobs(jobs)
for r in res:
    print('%-10s %-50s %4d obls %6.1fs q=%s' % (r['status'], r['target'], len(r['obligations']), r.get('time', 0), r.get('solver', {}).get('queries')), r['detail'])
    if r['status'] != 'proved':
        if 'trace' in r:
            print(r['trace'])
        for o in r['obligations']:
            if o['status'] != 'proved':
                print('    ', o['status'], o['kind'], o['fn'], o['line'], o['label'], o.get('why'))
                if '-v' in sys.argv:
                    print('        goal', o.get('goal'))
                    print('        path', o.get('path'))
                    print('        model', o.get('model'))
        if '-v' in sys.argv:
            for l in r['loops']:
                print('   loop', l)
