"""Verify functions against their contracts."""
import os, re, sys, time, traceback, json, multiprocessing
import z3
from .types import *
from .values import *
from .exec import Exec, Contract, World, RefV
from .spec import SpecEval, SpecError, veq
from .prove import prove, conjuncts, to_smt2, cvc5_check, STATS, satisfiable_pc
from .cast import line_of
from . import logic


def fresh_param(ex, st, p, cons, late=False):
    """symbolic argument for a parameter declaration: returns Loc (references) or value"""
    sh = ex.w.types.of(p)
    q = p.get('type', {}).get('qualType', '')
    nm = p.get('name') or 'arg'
    ref = sh.kind == 'ref' or q.endswith('&')
    if sh.kind == 'ref':
        sh = sh.to
    if late:
        return ex.alloc(st, VoidV(), nm)
    if sh.kind == 'ptr' and sh.to.kind == 'rec' and sh.to.name in ex.w.heap_types:
        return ex.alloc(st, ex.sorts.fresh(sh, nm, cons), nm)
    if sh.kind == 'ptr':
        tgt = getattr(sh, 'to', None)
        if tgt is None:
            raise Unsupported('pointer parameter ' + sh.key())
        v = ex.havoc_like(tgt, nm + '_at', cons) if hasattr(ex, 'havoc_like') else ex.sorts.fresh(tgt, nm + '_at', cons)
        loc = ex.alloc(st, v, nm + '_at')
        null = z3.Bool('%s_null!%d' % (nm, ex.bump()))
        v = Ptr(loc, null, sh)
    elif ex.bv:
        v = ex.freshbv(sh, nm)
    else:
        v = ex.sorts.fresh(sh, nm, cons)
    loc = ex.alloc(st, v, nm)
    return loc


def setup(w, ct):
    ex = Exec(w, ct)
    for u in ct.uses:
        ex.extra.append(w.spec.lemma_axiom(w.spec.lemmas[u]))
    tu = w.tu
    d = tu.definition(ct.node['id']) or ct.node
    st = St()
    cons = []
    arglocs = []
    for i, p in enumerate(tu.params(d)):
        arglocs.append(fresh_param(ex, st, p, cons, i < len(ct.params) and ct.params[i] in ct.itin))
    thisloc = None
    if d['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and d.get('storageClass') != 'static':
        rec = tu.parent_rec.get(d['id']) or tu.parent_rec.get(tu.canonical(d['id']))
        sh = w.types.rec_shape(rec)
        if sh.name in w.heap_types:
            i = z3.Int('this_id!%d' % ex.bump())
            cons.append(i != 0)
            thisloc = Loc(w.heap_types[sh.name], (('h', i),))
        elif d['kind'] == 'CXXConstructorDecl':
            v = Rec({a: Undef(b) for a, b in ex.sorts.fields(sh)}, sh)
        elif ex.bv:
            v = ex.freshbv(sh, 'this')
        else:
            v = ex.sorts.fresh(sh, 'this', cons)
        if thisloc is None:
            thisloc = ex.alloc(st, v, 'this')
    for nm, path in ct.itin.items():
        cl = ex.path_loc(st, path, thisloc, arglocs, ct)
        sv = ex.read(st, cl)
        off = z3.Int('%s!%d' % (nm, ex.bump()))
        cons += [off >= 0, off <= ex.sorts.th(sv.sh).len(sv.t)]
        st.store[arglocs[ct.params.index(nm)].root] = It(cl, off)
    if ct.ghost:
        for g in ct.ghost.split(','):
            n, s = g.split(':')
            sh = w.spec.shape(s.strip())
            st.store['ghost:' + n.strip()] = ex.sorts.fresh(sh, n.strip(), cons)
    for key, mk in getattr(w, 'global_state', {}).items():
        st.store[key] = mk(ex, cons)
    st.pc += cons
    return ex, d, st, thisloc, arglocs


def verify_contract(w, ct, budget=120, timeout=5000):
    """returns a result dict"""
    t0 = time.time()
    res = {'target': ct.target, 'status': 'error', 'obligations': [], 'loops': [], 'inlined': [], 'contracts_used': [], 'std_models': [], 'detail': ''}
    if ct.trusted:
        res['status'] = 'trusted'
        res['detail'] = ct.trusted
        return res
    try:
        ex, d, st, thisloc, arglocs = setup(w, ct)
        res['where'] = '%s:%s' % (w.tu.file_of(d), line_of(d))
        ex.deadline = t0 + budget
        body = w.tu.body(d)
        ex.frame = (d, thisloc, list(arglocs))
        pre = ex.spec_env(st, ct, d, thisloc, arglocs)
        ex.spec_env0 = pre
        ev = SpecEval(w.spec, pre)
        for r in ct.requires + ct.assume:
            st.pc.append(ev.bool(r))
        if not satisfiable_pc(st.pc, ex.extra, 1500):
            res['status'] = 'vacuous'
            res['detail'] = 'precondition is contradictory'
            return res
        pre_store = dict(st.store)
        tc = ev.bool(ct.throws) if ct.throws is not None else None
        results = ex_body(ex, st, d, body, thisloc, arglocs)
        ex.deadline = None
        nex = 0
        for s, r in results:
            nex += 1
            post = ex.spec_env(s, ct, d, thisloc, arglocs)
            for nm, p, a in zip(ct.params, w.tu.params(d), arglocs):
                sh = w.types.of(p)
                if sh.kind != 'ref':
                    post[nm] = pre[nm]      # by-value parameters denote their entry values in postconditions
            rv = None
            if not isinstance(r, VoidV):
                rv = ex.rv(s, r) if isinstance(r, Loc) else r
                post['result'] = rv
                if isinstance(rv, Ptr) and ct.ref == 'any':
                    c0 = []
                    post['result_at'] = ex.read(s, rv.loc) if rv.loc is not None else ex.sorts.fresh(ex.ret_shape(d).to, 'no_result', c0)
                    s.pc += c0
            ex.curfn = [d.get('name', '')]
            if tc is not None:
                ex.oblige(s, z3.Not(tc), 'throws when: %s' % ct.throws, 'throws', d)
            if isinstance(rv, Rec) and isinstance(rv.sh, THPtr):
                # a pointer kept in a field: it must point into the array named by the contract
                want = ex.path_loc(s, ct.iter, thisloc, arglocs, ct)
                own = ex.read(s, Loc(want.root, want.path[:-1]))
                ex.oblige(s, own.f['id'].t == rv.f['id'].t, 'the pointer returned points into ' + ct.iter, 'ref', d)
                r = It(want, rv.f['off'].t)
                post['result'] = r
            if isinstance(r, It) and ct.ref is None:
                try:
                    want = ex.path_loc(s, ct.iter, thisloc, arglocs, ct)
                    ex.oblige(s, z3.BoolVal(repr(want) == repr(r.loc)), 'the iterator returned points into ' + ct.iter, 'ref', d)
                    sv = ex.read(s, want)
                    ex.oblige(s, z3.And(r.off >= 0, r.off <= ex.sorts.th(sv.sh).len(sv.t)), 'the iterator returned is valid', 'ref', d)
                except (KeyError, Unsupported, AttributeError, ValueError):
                    pass
            if ct.ref is not None and ct.ref != 'any':
                check_ref(ex, s, ct, thisloc, arglocs, post, pre, r, d)
            e2 = SpecEval(w.spec, post, pre)
            for hnt in ct.hints:
                if hnt.startswith('@'):
                    s.pc.append(w.spec.instance(hnt, post, pre))
                elif hnt.startswith('?'):
                    # optional: used where it is proved, dropped where it is not
                    try:
                        loc = {re.split('[!#]', k)[0]: v for k, v in s.store.items() if re.split('[!#]', k)[0].isidentifier()}
                        loc.update(post)
                        if hnt[1] == '@':
                            s.pc.append(w.spec.instance(hnt[1:], loc, pre))
                            continue
                        for c in conjuncts(SpecEval(w.spec, loc, pre).bool(hnt[1:])):
                            if prove(s.pc, c, ex.extra, 3000)[0] == 'proved':
                                ex.oblige(s, c, 'hint: ' + hnt[1:], 'hint', d)
                    except SpecError:
                        pass
                else:
                    for c in conjuncts(e2.bool(hnt)):
                        ex.oblige(s, c, 'hint: ' + hnt, 'hint', d)
            no_width(s)
            for e in ct.ensures:
                g = e2.bool(e)
                for k, c in enumerate(conjuncts(g)):
                    n0 = len(s.pc)
                    ex.oblige(s, c, 'ensures: ' + e, 'post', d)
            frame(ex, s, ct, d, thisloc, arglocs, pre_store)
        for s, what in ex.thrown:
            if tc is None:
                ex.oblige(s, z3.BoolVal(False), 'does not throw (%s)' % what, 'throws', d)
            else:
                ex.oblige(s, tc, 'throws only when: %s' % ct.throws, 'throws', d)
        res['paths'] = nex
        bad = 0
        groups = {}
        proved_keys = set()
        for o in ex.obls:
            key = None
            r = discharge(o, ex.extra, timeout)
            res['obligations'].append(r)
            if r['status'] != 'proved':
                bad += 1
                if bad >= 3:
                    break
        res['status'] = 'proved' if not bad else 'failed'
        if not bad and nex == 0 and not ex.thrown:
            res['status'] = 'vacuous'
            res['detail'] = 'no reachable exit'
        if not bad and not res['obligations']:
            res['status'] = 'vacuous'
            res['detail'] = 'no obligations'
        if res['status'] == 'proved':
            # reachability guard: at least one exit is not contradictory
            if not any(satisfiable_pc(s.pc, ex.extra, 1000) for s in [x[0] for x in results] + [x[0] for x in ex.thrown]):
                res['status'] = 'vacuous'
                res['detail'] = 'all exits unreachable'
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['detail'] = str(e)
    except SpecError as e:
        res['status'] = 'unsupported'
        res['detail'] = 'contract does not apply: ' + str(e)
    except RecursionError as e:
        res['status'] = 'unsupported'
        res['detail'] = 'recursion limit'
    except Exception as e:
        res['status'] = 'unsupported'
        res['detail'] = 'internal: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()
    try:
        res['loops'] = ex.loop_report
        res['inlined'] = sorted(ex.inlined)
        res['contracts_used'] = sorted(ex.used_contracts)
        res['std_models'] = sorted(ex.models)
    except NameError:
        pass
    res['time'] = round(time.time() - t0, 2)
    res['solver'] = dict(STATS)
    res['assumptions'] = sorted(w.assumptions)
    return res


def ex_body(ex, st, d, body, thisloc, arglocs):
    return ex.inline(st, d, body, thisloc, arglocs, {}, ctor=(d['kind'] == 'CXXConstructorDecl'))


def check_ref(ex, s, ct, thisloc, arglocs, post, pre, r, d):
    want = ex.ref_loc(s, ct, thisloc, arglocs, post, pre)
    if ct.null is not None:
        if not isinstance(r, Ptr):
            raise Unsupported('pointer result')
        nl = SpecEval(ex.w.spec, post, pre).bool(ct.null)
        ex.oblige(s, r.null == nl, 'the pointer returned is null exactly when: ' + ct.null, 'ref', d)
        if r.loc is None:
            return
        r = r.loc
    if isinstance(want, CondLoc):
        same = lambda x: isinstance(r, Loc) and r.root == x.root and [p[0] for p in r.path] == [p[0] for p in x.path]
        pick = want.a if same(want.a) and not (same(want.b) and not ex.valid(s, want.c)) else want.b
        ex.oblige(s, want.c if pick is want.a else z3.Not(want.c), 'returns a reference to ' + ct.ref, 'ref', d)
        want = pick
    if not isinstance(r, Loc) or isinstance(r, (ValLoc, CondLoc)):
        if isinstance(r, CondLoc):
            raise Unsupported('conditional reference result')
        ex.oblige(s, z3.BoolVal(False), 'returns a reference to ' + ct.ref, 'ref', d)
        return
    ok = r.root == want.root and len(r.path) == len(want.path)
    conds = []
    if ok:
        for a, b in zip(r.path, want.path):
            if a[0] != b[0]:
                ok = False
            elif a[0] == 'f':
                ok = ok and a[1] == b[1]
            else:
                conds.append(a[1] == b[1])
    ex.oblige(s, z3.And(conds + [z3.BoolVal(ok)]), 'returns a reference to ' + ct.ref, 'ref', d)


def frame(ex, s, ct, d, thisloc, arglocs, pre_store):
    if ct.modifies is None and not any(k.startswith('g:') or k.startswith('ghost:') for k in pre_store):
        return
    allowed = [(l.root, tuple(p[1] for p in l.path)) for l in ex.modified_locs(ct, d, thisloc, arglocs, s) if isinstance(l, Loc)]

    def go(a, b, root, path):
        for (r, p) in allowed:
            if r == root and path[:len(p)] == p:
                return
        if isinstance(a, Rec):
            for k in a.f:
                go(a.f[k], b.f[k], root, path + (k,))
            return
        if a is b:
            return
        ex.oblige(s, veq(ex.w, a, b), 'frame: %s%s unchanged' % (root.split('#')[0], ''.join('.' + p for p in path)), 'frame', d)
    for root, v in pre_store.items():
        if ct.modifies is None and not (root.startswith('g:') or (root.startswith('ghost:') and root in getattr(ex.w, 'global_state', {}))):
            continue
        par = [l for l in arglocs if isinstance(l, Loc) and l.root == root]
        if par:
            p = ex.tu.params(d)[arglocs.index(par[0])]
            if ex.w.types.of(p).kind != 'ref':
                continue
        if root in s.store:
            go(v, s.store[root], root, ())


def discharge(o, extra, timeout):
    t0 = time.time()
    st, why = prove(o.pc, o.goal, extra, timeout)
    if st == 'timeout':
        st, why = prove(o.pc, o.goal, extra, timeout * 4)
    r = {'label': o.label, 'kind': o.kind, 'line': o.line, 'fn': o.fn, 'status': st, 'time': round(time.time() - t0, 3)}
    if st != 'proved':
        r['path'] = o.notes[-12:]
        r['why'] = str(why)
        _, info = prove(o.pc, o.goal, extra, timeout, want_model=True)
        try:
            m = info[1]
            if m is not None:
                r['model'] = {str(k): str(m[k]) for k in m.decls() if k.arity() == 0 and '!' in k.name()}
        except Exception:
            pass
        try:
            r['goal'] = str(z3.simplify(o.goal))[:2000]
        except Exception:
            pass
    r['_obl'] = o
    o.extra = list(extra)
    if st == 'proved' and why:
        r['why'] = str(why)
    return r


def verify_lemma(w, lm, timeout=5000):
    out = {'target': 'lemma ' + lm.name, 'status': 'proved', 'obligations': [], 'detail': '', 'loops': [], 'inlined': [], 'contracts_used': [], 'std_models': []}
    t0 = time.time()
    try:
        for name, hyps, goal, extra in [(n if len(cs) == 1 else '%s.%d' % (n, k), h, c, e) for n, h, g, e in w.spec.lemma_obligations(lm) for cs in [conjuncts(g)] for k, c in enumerate(cs)]:
            t1 = time.time()
            st, why = prove(hyps, goal, w.spec.visible(lm.hide) + extra, timeout)
            if st == 'timeout':
                st, why = prove(hyps, goal, w.spec.visible(lm.hide) + extra, timeout * 4)
            q = type('Q', (), {})()
            q.pc, q.goal, q.extra = hyps, goal, w.spec.visible(lm.hide) + extra
            out['obligations'].append({'_obl': q, 'label': name, 'kind': 'lemma', 'line': None, 'fn': lm.name, 'status': st, 'why': str(why), 'time': round(time.time() - t1, 3)})
            if st != 'proved':
                out['status'] = 'failed'
        if out['status'] == 'proved':
            # guard against contradictory hypotheses or axioms: hypotheses and conclusions together must not prove falsity
            ob = w.spec.lemma_obligations(lm)
            if not satisfiable_pc(ob[-1][1] + [g for _, _, g, _ in ob], w.spec.visible(lm.hide) + ob[-1][3], 1500):
                out['status'] = 'vacuous'
                out['detail'] = 'hypotheses are contradictory'
    except (SpecError, Unsupported) as e:
        out['status'] = 'unsupported'
        out['detail'] = str(e)
    out['time'] = round(time.time() - t0, 2)
    out['solver'] = dict(STATS)
    return out


def strip(res):
    for o in res['obligations']:
        o.pop('_obl', None)
    return res


def _job(args):
    kind, w, x, budget, timeout, cvc = args
    STATS['queries'] = 0
    STATS['time'] = 0.0
    r = verify_contract(w, x, budget, timeout) if kind == 'fn' else verify_lemma(w, x, timeout)
    if cvc and r['status'] == 'proved':
        cross_check(r, w)
    return strip(r)


def cross_check(r, w, budget=60):
    '''second opinion: obligations discharged by z3 are given to cvc5 as well (same formula); counts are reported, a disagreement is a failure'''
    n = {'agree': 0, 'undecided': 0, 'disagree': 0, 'not tried': 0}
    t0 = time.time()
    for o in r['obligations']:
        q = o.get('_obl')
        if o['status'] != 'proved' or o.get('why') == 'ideal membership':
            continue
        if q is None or time.time() - t0 > budget:
            n['not tried'] += 1
            continue
        try:
            a = cvc5_check(to_smt2(q.pc, q.goal, q.extra), 5)
        except Exception as e:
            a = 'error ' + str(e)[:100]
        if a == 'unsat':
            n['agree'] += 1
        elif a == 'sat':
            n['disagree'] += 1
            o['status'] = 'failed'
            o['why'] = 'cvc5 finds a model'
            r['status'] = 'failed'
        else:
            n['undecided'] += 1
    r['cvc5'] = n


def run_jobs(jobs, nproc=8, hard=600):
    """jobs: list of (kind, world, item, budget, timeout, cvc); each in its own forked process"""
    results = [None] * len(jobs)
    pending = list(range(len(jobs)))
    running = {}
    ctx = multiprocessing.get_context('fork')
    while pending or running:
        while pending and len(running) < nproc:
            i = pending.pop(0)
            rd, wr = ctx.Pipe(False)

            def target(i=i, wr=wr):
                try:
                    sys.setrecursionlimit(20000)
                    r = _job(jobs[i])
                except BaseException as e:
                    r = {'target': str(getattr(jobs[i][2], 'target', '?')), 'status': 'unsupported', 'detail': 'crash: %r' % (e,), 'obligations': [], 'time': 0, 'loops': [], 'inlined': [], 'contracts_used': [], 'std_models': [], 'trace': traceback.format_exc()}
                wr.send(r)
                wr.close()
                os._exit(0)
            p = ctx.Process(target=target)
            p.start()
            wr.close()
            running[i] = (p, rd, time.time())
        done = []
        for i, (p, rd, t) in running.items():
            if rd.poll(0.02):
                try:
                    results[i] = rd.recv()
                except EOFError:
                    results[i] = {'target': str(getattr(jobs[i][2], 'target', '?')), 'status': 'unsupported', 'detail': 'worker died', 'obligations': [], 'time': 0, 'loops': [], 'inlined': [], 'contracts_used': [], 'std_models': []}
                p.join()
                done.append(i)
            elif time.time() - t > hard:
                p.kill()
                p.join()
                results[i] = {'target': str(getattr(jobs[i][2], 'target', '?')), 'status': 'unsupported', 'detail': 'hard time limit', 'obligations': [], 'time': hard, 'loops': [], 'inlined': [], 'contracts_used': [], 'std_models': []}
                done.append(i)
        for i in done:
            running.pop(i)
    return results
