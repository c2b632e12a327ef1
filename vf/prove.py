"""Solver front end."""
import z3, time, subprocess, tempfile, os
from . import ring
from .logic import SeqTheory, relevant_axioms, symbols

STATS = {'queries': 0, 'time': 0.0}


def goalify(f):
    """replace sequence equalities in positive positions by the extensional predicate"""
    if z3.is_and(f):
        return z3.And([goalify(c) for c in f.children()])
    if z3.is_or(f):
        return z3.Or([goalify(c) for c in f.children()])
    if z3.is_implies(f):
        return z3.Implies(f.arg(0), goalify(f.arg(1)))
    if z3.is_quantifier(f) and f.is_forall():
        vs = [z3.Const('%s!g%d' % (f.var_name(i), i), f.var_sort(i)) for i in range(f.num_vars())]
        body = z3.substitute_vars(f.body(), *reversed(vs))
        return goalify_q(vs, goalify(body))
    if z3.is_eq(f) and f.arg(0).sort() == z3.BoolSort():
        a, b = f.arg(0), f.arg(1)
        for x, y in ((a, b), (b, a)):
            if z3.is_true(x):
                return goalify(y)
        ga, gb = goalify(a), goalify(b)
        if z3.eq(ga, a) and z3.eq(gb, b):
            return f
        return z3.And(z3.Implies(a, gb), z3.Implies(b, ga))
    if z3.is_eq(f):
        th = SeqTheory.of_sort(f.arg(0).sort())
        if th is not None and not z3.eq(f.arg(0), f.arg(1)):
            return th.eqs(f.arg(0), f.arg(1))
    return f


def goalify_q(vs, body):
    return z3.ForAll(vs, body)


def conjuncts(f):
    if z3.is_eq(f) and (z3.is_true(f.arg(0)) or z3.is_true(f.arg(1))):
        return conjuncts(f.arg(1) if z3.is_true(f.arg(0)) else f.arg(0))
    if z3.is_and(f):
        out = []
        for c in f.children():
            out += conjuncts(c)
        return out
    if z3.is_implies(f):
        cs = conjuncts(f.arg(1))
        return [f] if len(cs) == 1 else [z3.Implies(f.arg(0), c) for c in cs]
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
        return [z3.Implies(f.arg(0), c) for c in conjuncts(f.arg(1))] + [z3.Implies(z3.Not(f.arg(0)), c) for c in conjuncts(f.arg(2))]
    return [f]


def build(pc, goal, extra):
    g = goalify(goal)
    fs = list(pc) + [z3.Not(g)]
    ax = relevant_axioms(fs, extra)
    return ax, fs


def limit(s, timeout):
    """deterministic resource limit (about timeout milliseconds on an idle machine); the wall clock is only a backstop, so a busy machine gives the same verdict"""
    s.set('rlimit', int(timeout * 3000))
    s.set('timeout', int(timeout * 8))


def mk_solver(timeout):
    s = z3.Solver()
    limit(s, timeout)
    s.set('smt.mbqi', False)
    s.set('auto_config', False)
    s.set('smt.random_seed', 1)
    s.set('smt.relevancy', 2)
    return s


def real_eq(g):
    while z3.is_implies(g):
        g = g.arg(1)
    return z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()


def nonlinear(t, seen):
    if t.get_id() in seen or not z3.is_app(t):
        return False
    seen.add(t.get_id())
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in t.children()) > 1:
        return True
    if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
        return True
    return any(nonlinear(c, seen) for c in t.children())


def ints(t, out, seen):
    if t.get_id() in seen or not z3.is_app(t):
        return
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort() and str(t).startswith('fq!'):
        out[str(t)] = t
    for c in t.children():
        ints(c, out, seen)


def prove(pc, goal, extra=(), timeout=4000, want_model=False):
    """returns (status, info): 'proved' | 'failed' | 'timeout'"""
    goal_s = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
    if z3.is_true(goal_s):
        return 'proved', ''
    t0 = time.time()
    if not want_model and real_eq(goal) and nonlinear(goal, set()):
        if z3.is_implies(goal):
            s = mk_solver(300)
            for f in pc:
                s.add(f)
            s.add(goal.arg(0))
            if s.check() == z3.unsat:       # the premise is false on this path
                STATS['queries'] += 1
                return 'proved', ''
        nz = lambda t: prove(pc, t, extra, 1000)[0] == 'proved'
        if ring.ring_prove(pc, goal, nz, min(25, max(1, 5 * timeout / 1000))):
            STATS['ring'] = STATS.get('ring', 0) + 1
            return 'proved', 'ideal membership'
    if not want_model and z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IS_INT:
        # witness search: the term equals an integer of the path condition (a quotient introduced by fmod), up to -1/0/+1
        qs = {}
        for f in pc:
            ints(f, qs, set())
        for q in qs.values():
            for c in (0, -1, 1):
                if ring.ring_prove(pc, goal.arg(0) == z3.ToReal(q) + c, lambda t: prove(pc, t, extra, 1000)[0] == 'proved', 4):
                    STATS['ring'] = STATS.get('ring', 0) + 1
                    return 'proved', 'ideal membership'
    ax, fs = build(pc, goal, extra)
    if not want_model and timeout >= 3000 and ring.ineq_goal(goal) and any(real_eq(f) and nonlinear(f, set()) for p in pc for f in conjuncts(p)):
        s = mk_solver(1000)
        for a in ax:
            s.add(a.f)
        for f in fs:
            s.add(f)
        STATS['queries'] += 1
        if s.check() == z3.unsat:
            return 'proved', ''
        # low-degree consequences of the equations, with the equations themselves left out
        cons = ring.consequences(pc, goal, lambda t: prove(pc, t, extra, 1000)[0] == 'proved')
        if cons:
            s = mk_solver(2000)
            for f in cons + [c for p in pc for c in conjuncts(p) if not z3.is_quantifier(c) and not nonlinear(c, set())] + [z3.Not(goal)]:
                s.add(f)
            if s.check() == z3.unsat:
                STATS['ring'] = STATS.get('ring', 0) + 1
                return 'proved', 'ideal membership'
    s = mk_solver(timeout)
    for a in ax:
        s.add(a.f)
    for f in fs:
        s.add(f)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        return 'proved', ''
    reason = s.reason_unknown() if r == z3.unknown else 'sat'
    st = 'timeout' if ('timeout' in reason or 'cancel' in reason or 'resource' in reason) else 'failed'
    model = None
    if want_model:
        try:
            model = s.model()
        except z3.Z3Exception:
            model = None
        return st, (reason, model)
    return st, reason


def satisfiable_pc(pc, extra=(), timeout=300):
    """False only if the path condition is proved contradictory"""
    st, _ = prove(pc, z3.BoolVal(False), extra, timeout)
    return st != 'proved'


def to_smt2(pc, goal, extra=()):
    ax, fs = build(pc, goal, extra)
    s = z3.Solver()
    for a in ax:
        s.add(a.f)
    for f in fs:
        s.add(f)
    return '(set-logic ALL)\n' + s.to_smt2()


def cvc5_check(smt2, timeout_s=20):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(smt2)
        fn = fh.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout_s * 1000), '-q', fn], capture_output=True, text=True, timeout=timeout_s + 10)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ('error ' + p.stderr[:200])
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(fn)
    return out


class Batch:
    """one hypothesis set, many goals"""

    def __init__(self, pc, extra, goals):
        self.pc, self.extra = list(pc), extra
        self.s = mk_solver(1000)
        gs = [goalify(g) for g in goals]
        for a in relevant_axioms(self.pc + gs, extra):
            self.s.add(a.f)
        for f in self.pc:
            self.s.add(f)

    def feasible(self, timeout):
        limit(self.s, timeout)
        return self.s.check() != z3.unsat

    def check(self, goal, timeout):
        g = goalify(goal)
        if z3.is_true(z3.simplify(goal)):
            return True
        t0 = time.time()
        limit(self.s, timeout)
        self.s.push()
        self.s.add(z3.Not(g))
        r = self.s.check()
        self.s.pop()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        return r == z3.unsat
