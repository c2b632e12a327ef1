"""Ideal membership for polynomial equalities over the reals.

A goal  l == r  follows from hypotheses  p_i == 0  when  l - r = sum c_i * p_i  for polynomials c_i.
The cofactors c_i come from polynomial division (sympy); the identity itself is then recomputed here
with exact rational arithmetic, so sympy is not trusted.  Non-arithmetic subterms are indeterminates."""
import z3, signal
from fractions import Fraction as Q


class NoRing(Exception):
    pass


class Ctx:
    def __init__(self):
        self.atoms, self.inv, self.n, self.terms = {}, {}, 0, {}

    def atom(self, key, term=None):
        if key not in self.atoms:
            self.atoms[key] = self.n
            self.terms[self.n] = term
            self.n += 1
        return {((self.atoms[key], 1),): Q(1)}


def padd(a, b, k=Q(1)):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, Q(0)) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 200000:
        raise NoRing('size')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, Q(0)) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def const(p):
    if not p:
        return Q(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def key(p):
    return tuple(sorted(p.items()))


def poly(t, cx):
    t0 = t
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = Q(t.as_fraction()) if z3.is_rational_value(t) else Q(t.as_long())
        return {(): v} if v else {}
    k = t.decl().kind() if z3.is_app(t) else None
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = padd(r, poly(c, cx))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(ch[0], cx)
        for c in ch[1:]:
            r = padd(r, poly(c, cx), Q(-1))
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(ch[0], cx), Q(-1))
    if k == z3.Z3_OP_MUL:
        r = {(): Q(1)}
        for c in ch:
            r = pmul(r, poly(c, cx))
        return r
    if k == z3.Z3_OP_DIV:
        d = poly(ch[1], cx)
        c = const(d)
        n = poly(ch[0], cx)
        if c is not None:
            if not c:
                raise NoRing('division by zero')
            return padd({}, n, 1 / c)
        a = cx.atom(('inv', key(d)), 1 / ch[1])
        cx.inv[key(d)] = (a, d, ch[1])
        return pmul(n, a)
    if k == z3.Z3_OP_TO_REAL:
        return poly(ch[0], cx) if z3.is_app(ch[0]) and ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM) else cx.atom(('r', ch[0].sexpr()), t)
    if k == z3.Z3_OP_ITE:
        raise NoRing('ite')
    if z3.is_app(t) and ch and k == z3.Z3_OP_UNINTERPRETED and all(c.sort() == z3.RealSort() for c in ch):
        return cx.atom((t.decl().name(),) + tuple(key(poly(c, cx)) for c in ch), t)
    return cx.atom(('t', t.sexpr()), t)


def flat(f, out):
    if z3.is_and(f):
        for c in f.children():
            flat(c, out)
    else:
        out.append(f)


def has_real_eq(f):
    if z3.is_and(f) or (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE):
        return any(has_real_eq(c) for c in f.children())
    return z3.is_eq(f) and f.arg(0).sort() == z3.RealSort()


def ring_prove(pc, goal, nonzero=None, seconds=8, hyps=True):
    """True when the real equality `goal` follows from the equalities in pc by ideal membership"""
    hs = []
    for f in pc:
        flat(f, hs)
    while z3.is_implies(goal):
        flat(goal.arg(0), hs)
        goal = goal.arg(1)
    if not (z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort()):
        return False
    if nonzero is not None:
        resolve(hs, nonzero)
    cx = Ctx()
    try:
        g = padd(poly(goal.arg(0), cx), poly(goal.arg(1), cx), Q(-1))
        if not g:
            return True
        if not hyps:
            return False
        gens = []
        done = set()
        for h in hs:
            if z3.is_eq(h) and h.arg(0).sort() == z3.RealSort():
                try:
                    p = padd(poly(h.arg(0), cx), poly(h.arg(1), cx), Q(-1))
                except NoRing:
                    continue
                if p and key(p) not in done:
                    done.add(key(p))
                    gens.append(p)
        for kd, (a, d, t) in list(cx.inv.items()):
            if nonzero is not None and nonzero(t != 0):
                gens.append(padd(pmul(a, d), {(): Q(1)}, Q(-1)))
        # only generators that share (transitively) indeterminates with the goal
        used = {v for m in g for v, _ in m}
        sel, rest = [], gens
        while True:
            nx = [p for p in rest if used & {v for m in p for v, _ in m}]
            if not nx:
                break
            sel += nx
            rest = [p for p in rest if p not in nx]
            for p in nx:
                used |= {v for m in p for v, _ in m}
        if not sel:
            return False
        g, sel = eliminate(g, sel)
        if not g:
            return True
        rank = {i: (0 if k[0] == 'inv' else 1 if k[0] not in ('t', 'r') else 2, i) for k, i in cx.atoms.items()}
        return member(g, sel, sorted(range(cx.n), key=rank.get), seconds)
    except NoRing:
        return False
    except RecursionError:
        return False


INEQ = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)


def ineq_goal(g):
    if z3.is_not(g):
        g = g.arg(0)
        return z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()
    return z3.is_app(g) and g.decl().kind() in INEQ and g.arg(0).sort() == z3.RealSort()


def resolve(hs, known):
    """add the branch of a conditional hypothesis whose condition is known"""
    for h in list(hs)[:200]:
        if z3.is_app(h):
            k = h.decl().kind()
            if z3.is_implies(h) and has_real_eq(h.arg(1)) and known(h.arg(0)):
                flat(h.arg(1), hs)
            elif k == z3.Z3_OP_ITE and has_real_eq(h):
                if known(h.arg(0)):
                    flat(h.arg(1), hs)
                elif known(z3.Not(h.arg(0))):
                    flat(h.arg(2), hs)


def consequences(pc, goal, known, seconds=10):
    """polynomial equations of low degree that follow from the equations of pc (and from the negated goal, when that is an equation):
    elements of a Groebner basis, as formulas over the terms that occur in the inequalities of pc and goal"""
    hs = []
    for f in pc:
        flat(f, hs)
    resolve(hs, known)
    cx = Ctx()
    eqs, ineqs = [], []
    if z3.is_not(goal):
        eqs.append(goal.arg(0))
    else:
        ineqs.append(goal)
    for h in hs:
        if z3.is_eq(h) and h.arg(0).sort() == z3.RealSort():
            eqs.append(h)
        elif not z3.is_quantifier(h) and not has_real_eq(h):
            ineqs.append(h)
    keep = set()

    def leaves(t, seen):
        if t.get_id() in seen or not z3.is_app(t):
            return
        seen.add(t.get_id())
        if t.sort() == z3.RealSort() and not z3.is_rational_value(t) and t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_ITE, z3.Z3_OP_TO_REAL):
            try:
                for m in poly(t, cx):
                    keep.update(v for v, _ in m)
            except NoRing:
                pass
            return
        for c in t.children():
            leaves(c, seen)
    seen = set()
    for h in ineqs:
        leaves(h, seen)
    gens = []
    for h in eqs:
        try:
            p = padd(poly(h.arg(0), cx), poly(h.arg(1), cx), Q(-1))
        except NoRing:
            continue
        if p and p not in gens:
            gens.append(p)
    if not gens or not keep:
        return []
    import sympy
    # an equation that only defines a quantity no other equation mentions has no consequences for the others
    while True:
        cnt = {}
        for p in gens:
            for v in {v for m in p for v, _ in m}:
                cnt[v] = cnt.get(v, 0) + 1
        rest = [p for p in gens if not any(cnt[m[0][0]] == 1 and m[0][0] not in keep and not any(v == m[0][0] for n in p if n != m for v, _ in n) for m in p if len(m) == 1 and m[0][1] == 1)]
        if len(rest) == len(gens) or not rest:
            break
        gens = rest
    gens.sort(key=lambda q: (max(sum(e for _, e in m) for m in q), len(q)))
    gens = gens[:16]
    used = {v for p in gens for m in p for v, _ in m}
    order = sorted(used, key=lambda v: (v in keep, v))
    ren = {v: k for k, v in enumerate(order)}
    xs = sympy.symbols('x0:%d' % len(order))

    def handler(*_):
        raise _TO()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    out = []
    try:
        G = [sympy.Add(*[sympy.Rational(c.numerator, c.denominator) * sympy.Mul(*[xs[ren[v]] ** e for v, e in m]) for m, c in p.items()]) for p in gens]
        B = sympy.groebner(G, *xs, order='grevlex', domain='QQ')
        for b in B.exprs:
            pb = sympy.Poly(b, *xs)
            if pb.total_degree() > 2 or len(pb.terms()) > 6:
                continue
            t = z3.RealVal(0)
            ok = True
            for m, c in pb.terms():
                u = z3.RealVal(str(c))
                for k, e in enumerate(m):
                    term = cx.terms[order[k]]
                    ok = ok and (not e or (order[k] in keep and term is not None))
                    for _ in range(e):
                        u = u * term
                t = t + u
            if ok:
                out.append(t == 0)
    except _TO:
        return []
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out


def psub(p, v, d):
    """p with the indeterminate v replaced by the polynomial d"""
    r, pw = {}, {0: {(): Q(1)}}
    for m, c in p.items():
        e = dict(m).get(v, 0)
        if not e:
            r = padd(r, {m: c})
            continue
        for k in range(1, e + 1):
            if k not in pw:
                pw[k] = pmul(pw[k - 1], d)
        r = padd(r, pmul({tuple(x for x in m if x[0] != v): c}, pw[e]))
    return r


def eliminate(g, gens):
    """use generators of the form  v - d  (v not in d) as definitions of v"""
    gens = list(gens)
    if len(gens) <= 3:
        return g, gens
    deg = lambda q: max([sum(e for _, e in m) for m in q] or [0])
    again = True
    while again:
        again = False
        gens.sort(key=lambda q: (deg(q), len(q)))
        for k, p in enumerate(gens):
            for m, c in p.items():
                if len(m) != 1 or m[0][1] != 1 or any(v == m[0][0] for n in p if n != m for v, _ in n):
                    continue
                v = m[0][0]
                d = {n: -x / c for n, x in p.items() if n != m}
                if len(d) > 6 or deg(d) > 2:
                    continue
                gens = [q for q in (psub(q, v, d) for j, q in enumerate(gens) if j != k) if q]
                g = psub(g, v, d)
                again = True
                break
            if again:
                break
    return g, gens[:12]


class _TO(Exception):
    pass


def member(g, gens, order, seconds):
    import sympy
    used = {v for p in [g] + gens for m in p for v, _ in m}
    order = [v for v in order if v in used]     # inverses, then roots and other function values, then plain variables
    ren = {v: k for k, v in enumerate(order)}
    g, gens = [{tuple(sorted((ren[v], e) for v, e in m)): c for m, c in p.items()} for p in [g]][0], [{tuple(sorted((ren[v], e) for v, e in m)): c for m, c in p.items()} for p in gens]
    xs = sympy.symbols('x0:%d' % len(order))

    def conv(p):
        return sympy.Add(*[sympy.Rational(c.numerator, c.denominator) * sympy.Mul(*[xs[v] ** e for v, e in m]) for m, c in p.items()])

    def back(e):
        p = sympy.Poly(e, *xs)
        return {tuple((i, k) for i, k in enumerate(m) if k): Q(int(c.p), int(c.q)) for m, c in p.terms() if c}

    def handler(*_):
        raise _TO()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        G = [conv(p) for p in gens]
        e = conv(g)
        # substitution of linear definitions first (x - p, x not in p) keeps the basis small
        gs = list(G)
        def divide(order):
            q, r = sympy.reduced(e, gs, *xs, order=order)
            if r != 0:
                return False
            tot = {}
            for c, p in zip(q, gens):
                tot = padd(tot, pmul(back(c), p))
            return tot == g
        if len(gens) <= 4 and (divide('grevlex') or divide('lex')):
            return True
        if len(gens) <= 12:
            B = sympy.groebner(gs, *xs, order='grevlex', domain='QQ')
            return bool(B.contains(e))
        return divide('grevlex') or divide('lex')
    except _TO:
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
