#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: every obligation discharged (or, where the verifier could not process the code, the bounded stand-in found nothing)
exit 1: VIOLATION line
"""
import sys, os, json, time, subprocess, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vf.module import load, build_world
from vf.cast import ExtractError, REPO
from vf import verify as V
from vf.trusted import TRUSTED_BASE

PROPS = json.load(open(os.path.join(HERE, 'contracts', 'index.json')))
FINDINGS = os.path.join(HERE, 'known_findings.json')


def log(*a):
    print(*a, flush=True)


def run_harness(pid, tier, seed, budget):
    """compile and run the concrete harness of a property against the real code"""
    src = os.path.join(HERE, 'harness', pid + '.cpp')
    out = {'available': os.path.exists(src)}
    if not out['available']:
        return out
    bd = os.path.join(HERE, '.build', pid)
    os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, 'harness')
    flags = ['-std=c++14', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-DFLUT_STATIC_DEFINE',
             '-include', 'cstring', '-include', 'cstdlib', '-include', 'cmath', '-include', 'cxxabi.h', '-I' + REPO, '-I' + REPO + '/flut', '-I' + os.path.join(HERE, 'harness')]
    first = open(src).readline()
    if first.startswith('// flags:'):
        flags += first.split(':', 1)[1].split()
    t = time.time()
    p = subprocess.run(['g++'] + flags + [src, '-o', exe], capture_output=True, text=True)
    out['compile_s'] = round(time.time() - t, 2)
    if p.returncode != 0:
        out['compiled'] = False
        out['error'] = p.stderr[-2000:]
        return out
    out['compiled'] = True
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    t = time.time()
    try:
        p = subprocess.run([exe, str(seed), str(budget)], capture_output=True, text=True, errors='replace', env=env, timeout=budget * 4 + 120, cwd=bd)
        so, se, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        so, se, rc = (e.stdout or b'').decode('latin-1', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), '', 124
    out['run_s'] = round(time.time() - t, 2)
    out['rc'] = rc
    for line in so.splitlines():
        if line.startswith('STATS '):
            out['stats'] = json.loads(line[6:])
        if line.startswith('FAIL '):
            out.setdefault('fail', line[5:])
        if line.startswith('CASE '):
            out.setdefault('case', line[5:])
    if rc != 0 and 'fail' not in out:
        out['fail'] = 'abnormal end (exit %s) on case: %s; %s' % (rc, out.get('case', '?'), ' '.join(se.split('\n')[:6])[:800])
    return out


def main():
    pid = sys.argv[1]
    if '--harness-only' in sys.argv:
        out, tier, seed, budget = sys.argv[sys.argv.index('--harness-only') + 1:][:4]
        json.dump(run_harness(pid, tier, int(seed), float(budget)), open(out, 'w'))
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = PROPS[pid]
    thorough = tier == 'thorough'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {}, 'wall_s': 0}
    results, problems, failed = [], [], []
    assumptions = set()
    try:
        hbudget = cfg.get('harness_s', 6) * (10 if thorough else 1)
        os.makedirs(os.path.join(HERE, '.build'), exist_ok=True)
        hout = os.path.join(HERE, '.build', '%s.%d.json' % (pid, os.getpid()))
        hproc = subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, '--harness-only', hout, tier, str(seed), str(hbudget)])
        worlds = {}
        try:
            for mod in cfg['modules']:
                m = load(mod)
                try:
                    worlds[mod] = build_world(m)
                except ExtractError as e:
                    problems.append('extraction of %s failed: %s' % (mod, str(e)[-600:]))
            for mod, sel in cfg['modules'].items():
                if mod in worlds:
                    r, p, f = verify_module(pid, worlds[mod], sel, thorough)
                    results += r
                    problems += p
                    failed += f
                    assumptions |= worlds[mod].assumptions
        except Exception as e:
            import traceback
            problems.append('internal: ' + traceback.format_exc()[-1500:])
        hproc.wait()
        try:
            hres = json.load(open(hout))
            os.unlink(hout)
        except (OSError, ValueError):
            hres = {'available': False, 'error': 'harness process failed'}
        return finish(pid, tier, seed, ev, results, problems, failed, assumptions, hres, t0, cfg)
    except SystemExit:
        raise


def verify_module(pid, w, sel, thorough):
    """verify the selected contracts, the contracts they use, and the selected lemmas"""
    problems, failed = [], []
    byname = {c.target: c for c in w.contract_list}
    lem = w.spec.lemmas
    want = sel.get('functions', [])
    if want == '*':
        want = list(byname)
    want = [t for w_ in want for t in ([w_] if not w_.endswith('*') else [b for b in list(byname) + [c.target for c, _ in w.missing] if b.startswith(w_[:-1])])]
    lems = sel.get('lemmas', [])
    if lems == '*':
        lems = list(lem)
    for c, why in w.missing:
        if c.target in want and c.public and not c.optional:
            problems.append('contract target %s: %s' % (c.target, why))
    budget, tmo = (600, 20000) if thorough else (450, 5000)
    done = {}
    todo = [t for t in want if t in byname]
    ldone = {}
    ltodo = set(lems)
    dropped = set()
    while todo or ltodo:
        jobs = [('fn', w, byname[t], budget, tmo, thorough) for t in todo] + [('lemma', w, lem[l], budget, tmo, thorough) for l in sorted(ltodo)]
        for r in V.run_jobs(jobs, hard=800 if thorough else 400):
            if r['target'].startswith('lemma '):
                ldone[r['target'][6:]] = r
            else:
                done[r['target']] = r
        ltodo = set()
        for l in list(ldone):
            for u in list(lem[l].uses) + [h.lstrip('@').split('(')[0].strip() for h in lem[l].hints if h.startswith('@')]:
                if u not in ldone:
                    ltodo.add(u)
        todo = []
        # non-public helper contracts that do not hold any more: drop them (the helper is then inlined) and redo the callers
        bad = [t for t, r in done.items() if r['status'] not in ('proved', 'trusted') and not byname[t].public and t not in dropped]
        if bad:
            for t in bad:
                dropped.add(t)
                ct = byname[t]
                w.contracts.pop(w.tu.canonical(ct.node['id']), None)
            redo = [t for t, r in done.items() if any(b in r['contracts_used'] for b in bad) and t not in dropped]
            for t in redo:
                done.pop(t)
            todo += redo
        for t, r in list(done.items()):
            if t in dropped:
                continue
            ct = byname[t]
            for u in r['contracts_used']:
                if u not in done and u not in todo and u not in dropped:
                    todo.append(u)
            for u in list(ct.uses) + [h.lstrip('?@').split('(')[0].strip() for h in ct.hints if h.lstrip('?').startswith('@')]:
                if u not in ldone:
                    ltodo.add(u)
    res = []
    for t, r in done.items():
        if t in dropped:
            continue
        res.append(r)
        if r['status'] == 'failed':
            failed.append(r)
        elif r['status'] in ('unsupported', 'vacuous', 'error'):
            problems.append('%s: %s %s' % (t, r['status'], r['detail']))
        if r.get('assumptions'):
            w.assumptions |= set(r['assumptions'])
    for l, r in ldone.items():
        res.append(r)
        if r['status'] == 'failed':
            failed.append(r)
        elif r['status'] != 'proved':
            problems.append('lemma %s: %s' % (l, r['detail']))
    return res, problems, failed


def finish(pid, tier, seed, ev, results, problems, failed, assumptions, h, t0, cfg):
    known = json.load(open(FINDINGS)) if os.path.exists(FINDINGS) else {'findings': []}
    obl = sum(len(r['obligations']) + sum(l['obligations'] for l in r['loops']) for r in results)
    dis = sum(sum(1 for o in r['obligations'] if o['status'] == 'proved') + sum(l['obligations'] for l in r['loops']) for r in results)
    stime = sum(r.get('solver', {}).get('time', 0) for r in results)
    fns = [r for r in results if not r['target'].startswith('lemma ')]
    lms = [r for r in results if r['target'].startswith('lemma ')]
    stats = h.get('stats', {})
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier),
        'backend': 'z3 (python bindings) on verification conditions generated from clang 18 AST of the current /repo sources' + '; polynomial identities over the reals: ideal membership (sympy), cofactors rechecked exactly where they are computed',
        'discharged_by_ideal_membership': sum(1 for r in results for o in r['obligations'] if o.get('why') == 'ideal membership'),
        'solver_seconds': round(stime, 2), 'solver_queries': sum(r.get('solver', {}).get('queries', 0) for r in results),
        'functions_under_contract': [{'function': r['target'], 'status': r['status'], 'obligations': len(r['obligations']), 'loops': [{'line': l['line'], 'invariants': len(l['invariants'])} for l in r['loops']], 'inlined': r['inlined'][:20]} for r in fns],
        'lemmas': [{'lemma': r['target'][6:], 'status': r['status'], 'obligations': len(r['obligations'])} for r in lms],
        'trusted_base': TRUSTED_BASE + sorted(assumptions) + cfg.get('assumes', []),
        'not_discharged': problems,
        'concrete_cross_check': {k: v for k, v in h.items() if k not in ('error',)},
    }
    ev['coverage'] = cov
    x = [r['cvc5'] for r in results if 'cvc5' in r]
    if x:
        cov['cvc5_cross_check'] = {k: sum(y[k] for y in x) for k in x[0]}
    rc = 0
    lines = []
    for k in known.get('findings', []):
        if k.get('property') == pid and k.get('status') == 'known':
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    concrete = h.get('fail')
    if failed or concrete:
        rc = 1
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % pid)
        rep = {'property': pid, 'seed': seed,
               'failed_obligations': [{'function': r['target'], 'where': r.get('where'), 'obligations': [{k: v for k, v in o.items() if k != '_obl'} for o in r['obligations'] if o['status'] != 'proved']} for r in failed],
               'failing_input': concrete,
               'replay_cmd': 'VERIF_SEED=%d python3-vt check.py %s   (rebuilds harness/%s.cpp against the real code and reruns the same cases)' % (seed, pid, pid),
               'harness': {k: v for k, v in h.items()}, 'problems': problems}
        json.dump(rep, open(rp, 'w'), indent=1)
        for r in failed:
            for o in r['obligations']:
                if o['status'] != 'proved':
                    log('  failed obligation: %s line %s: %s [%s]' % (r['target'], o['line'], o['label'], o['status']))
        if concrete:
            log('  failing input: ' + concrete[:600])
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if concrete else ' no-failing-input-found'))
    elif problems or not fns:
        ev['level'] = 'exploration'
        cov.update({'evaluations': stats.get('evaluations', 0), 'distinct_nontrivial': stats.get('distinct', 0), 'rule': stats.get('rule', 'harness/%s.cpp' % pid), 'samples': stats.get('samples', []),
                    'note': 'BOUNDED: the verifier could not process part of the code under this property (see not_discharged); the bounded concrete check stands in and nothing is claimed proved'})
        log('  not within the verifier\'s reach, bounded stand-in used: ' + '; '.join(problems)[:1500])
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s: %d/%d obligations discharged over %d functions and %d lemmas, solver %.1fs; concrete cross-check: %s; %.1fs' % (
        pid, dis, obl, len(fns), len(lms), stime, ('%s cases' % stats.get('evaluations')) if stats else (h.get('error') or 'none')[:200], ev['wall_s']))
    for l in lines:
        log(l)
    bd = os.path.join(HERE, '.build', pid)
    if os.path.isdir(bd):
        shutil.rmtree(bd, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
