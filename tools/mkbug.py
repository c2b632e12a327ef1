#!/usr/bin/env python3
"""mkbug.py DEFS.py [ID...]: make seeded/<id>/ from definitions (id, property, edits, needs, breaks, demo) and confirm each in a scratch copy:
demo passes on the clean tree; with the patch it builds, the stable tests pass, the demo fails."""
import sys, os, json, subprocess, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('defs', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
DEMO_SH = '''#!/bin/bash
# run with cwd = repository root
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -g -w %s-DFLUT_STATIC_DEFINE -include cstring -include cstdlib -include cmath -include cxxabi.h -include limits -I"$PWD" -I"$PWD/flut" "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
W = '/tmp/mkbug'
for b in m.BUGS:
    if only and b['id'] not in only: continue
    d = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo ' + W)
    for f, old, new in b['edits']:
        p = os.path.join(W, f); raw = open(p, newline='').read(); crlf = '\r\n' in raw
        s = raw.replace('\r\n', '\n'); assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        s = s.replace(old, new); open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', W, 'diff', '--binary'], capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO_SH % b.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(b['demo'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    # build and test with the patch applied to /repo's place: use a bind-free approach, apply in /repo, undo afterwards
    a = sh('git -C /repo apply --check %s/patch.diff' % d)
    sh('git -C /repo apply %s/patch.diff' % d)
    try:
        bl = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/mkbug.json')
        res = json.load(open('/tmp/mkbug.json'))
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
    finally:
        sh('git -C /repo checkout -- .')
    passed = set(res.get('passed', [])); stable = set(base.get('stable', base.get('passed', [])))
    print('%-6s %s clean demo rc=%d, apply=%d, build rc=%d, stable tests lost=%s, patched demo rc=%d %s' % (b['id'], b['property'], r0.returncode, a.returncode, bl.returncode, sorted(stable - passed), r1.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else ''), r1.stdout[-200:].strip(), r1.stderr[-300:] if r1.returncode==3 else '')
shutil.rmtree(W, ignore_errors=True)
sh('bash /opt/vp/build.sh')
