#!/usr/bin/env python3
"""behaviour-preserving edits: apply each to a scratch copy of /repo and run the checks of the properties it touches; every check must stay quiet
usage: tryref.py [id ...]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from refactor_defs import DEFS
from refactor_defs2 import DEFS2
from refactor_defs3 import DEFS3
from refactor_defs4 import DEFS4
from refactor_defs5 import DEFS5
DEFS = DEFS + DEFS2 + DEFS3 + DEFS4 + DEFS5


def one(d):
    rid, checks, edits = d
    w = tempfile.mkdtemp(prefix='ref_')
    out = []
    try:
        repo = os.path.join(w, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, prs in edits.items():
            p = os.path.join(repo, f)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            for a, b in prs:
                if s.count(a) < 1:
                    return ['%s: text not found in %s: %s' % (rid, f, a[:60])]
                s = s.replace(a, b)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        v = os.path.join(w, 'verif')
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        for c in checks:
            r = subprocess.run(['python3-vt', 'check.py', c], cwd=v, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            lvl = ''
            try:
                import json
                lvl = json.load(open(os.path.join(v, 'evidence', c + '.json'))).get('level', '')
            except Exception:
                pass
            t = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'fall' in l.lower()]
            out.append('%-5s %s exit=%d level=%s %s' % (rid, c, r.returncode, lvl, ' | '.join(t)[:150]))
            if r.returncode not in (0, 1) or '-v' in sys.argv:
                out.append(r.stdout[-1500:] + r.stderr[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


ids = [a for a in sys.argv[1:] if not a.startswith('-')]
with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
    for o in ex.map(one, [d for d in DEFS if not ids or d[0] in ids]):
        print('\n'.join(o), flush=True)
