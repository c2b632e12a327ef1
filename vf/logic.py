"""Logical theories: axiomatised finite sequences, character-set search functions, recursive spec functions.

Every axiom in this file is part of the trusted base (see DESIGN.md, 'trusted base').
"""
import z3
import ast as pyast

I = z3.IntSort()
B = z3.BoolSort()
NPOS = (1 << 64) - 1
MAXLEN = (1 << 31) - 2    # assumed bound on the size of every container and buffer (so that int indices reach all elements)


class Axiom:
    def __init__(self, name, formula, needs):
        self.name, self.f, self.needs = name, formula, needs   # needs: set of function decl names that must occur


class SeqTheory:
    """One axiomatised sequence sort per element sort."""
    cache = {}

    def __init__(self, esort, tag):
        self.e = esort
        self.tag = tag
        self.S = z3.DeclareSort('Seq_' + tag)
        S, E = self.S, esort
        f = lambda n, *a: z3.Function('%s_%s' % (n, tag), *a)
        self.len = f('len', S, I)
        self.at = f('at', S, I, E)
        self.empty = z3.Const('empty_' + tag, S)
        self.unit = f('unit', E, S)
        self.cat = f('cat', S, S, S)
        self.sub = f('sub', S, I, I, S)
        self.upd = f('upd', S, I, E, S)
        self.rep = f('rep', I, E, S)
        self.mem = f('mem', E, S, B)
        self.midx = f('midx', E, S, I)
        self.eqs = f('eqs', S, S, B)
        self.skd = f('skd', S, S, I)
        s, a, b = z3.Consts('s a b', S)
        i, j, k, n = z3.Ints('i j k n')
        v = z3.Const('v', E)
        L, A = self.len, self.at
        ax = []

        def add(name, vs, body, pats, needs):
            ax.append(Axiom('%s_%s' % (name, tag), z3.ForAll(vs, body, patterns=[(p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p)) for p in pats]), {'%s_%s' % (x, tag) for x in needs}))
        add('len_nonneg', [s], L(s) >= 0, [L(s)], ['len'])
        add('len_zero', [s], z3.Implies(L(s) == 0, s == self.empty), [L(s)], ['len', 'empty'])
        ax.append(Axiom('len_empty_' + tag, L(self.empty) == 0, {'empty_' + tag}))
        add('unit', [v], z3.And(L(self.unit(v)) == 1, A(self.unit(v), 0) == v), [self.unit(v)], ['unit'])
        add('cat_len', [a, b], L(self.cat(a, b)) == L(a) + L(b), [self.cat(a, b)], ['cat'])
        add('cat_e1', [a, b], z3.Implies(L(a) == 0, self.cat(a, b) == b), [self.cat(a, b)], ['cat'])
        add('cat_e2', [a, b], z3.Implies(L(b) == 0, self.cat(a, b) == a), [self.cat(a, b)], ['cat'])
        add('cat_at', [a, b, i], z3.And(z3.Implies(z3.And(0 <= i, i < L(a)), A(self.cat(a, b), i) == A(a, i)),
                                       z3.Implies(z3.And(L(a) <= i, i < L(a) + L(b)), A(self.cat(a, b), i) == A(b, i - L(a)))),
            [A(self.cat(a, b), i)], ['cat', 'at'])
        add('cat_at_l', [a, b, i], z3.Implies(z3.And(0 <= i, i < L(a)), A(self.cat(a, b), i) == A(a, i)), [(self.cat(a, b), A(a, i))], ['cat', 'at'])
        add('sub_len', [s, i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= L(s)), L(self.sub(s, i, j)) == j - i), [self.sub(s, i, j)], ['sub'])
        add('sub_all', [s, i, j], z3.Implies(z3.And(i == 0, j == L(s)), self.sub(s, i, j) == s), [self.sub(s, i, j)], ['sub'])
        add('sub_at', [s, i, j, k], z3.Implies(z3.And(0 <= i, i <= j, j <= L(s), 0 <= k, k < j - i), A(self.sub(s, i, j), k) == A(s, i + k)),
            [A(self.sub(s, i, j), k)], ['sub', 'at'])
        add('sub_at_r', [s, i, j, k], z3.Implies(z3.And(0 <= i, i <= k, k < j, j <= L(s)), A(self.sub(s, i, j), k - i) == A(s, k)),
            [(self.sub(s, i, j), A(s, k))], ['sub', 'at'])
        add('upd_len', [s, i, v], L(self.upd(s, i, v)) == L(s), [self.upd(s, i, v)], ['upd'])
        add('upd_at', [s, i, v, k], z3.Implies(z3.And(0 <= k, k < L(s)), A(self.upd(s, i, v), k) == z3.If(k == i, v, A(s, k))), [A(self.upd(s, i, v), k)], ['upd', 'at'])
        add('upd_at_r', [s, i, v, k], z3.Implies(z3.And(0 <= k, k < L(s), k != i), A(self.upd(s, i, v), k) == A(s, k)), [(self.upd(s, i, v), A(s, k))], ['upd', 'at'])
        u = z3.Const('u', E)
        add('upd_last', [a, u, i, v], z3.Implies(i == L(a), self.upd(self.cat(a, self.unit(u)), i, v) == self.cat(a, self.unit(v))), [self.upd(self.cat(a, self.unit(u)), i, v)], ['upd', 'cat', 'unit'])
        add('rep', [n, v], L(self.rep(n, v)) == z3.If(n >= 0, n, 0), [self.rep(n, v)], ['rep'])
        add('rep_at', [n, v, k], z3.Implies(z3.And(0 <= k, k < n), A(self.rep(n, v), k) == v), [A(self.rep(n, v), k)], ['rep', 'at'])
        add('mem1', [v, s], z3.Implies(self.mem(v, s), z3.And(0 <= self.midx(v, s), self.midx(v, s) < L(s), A(s, self.midx(v, s)) == v)), [self.mem(v, s)], ['mem'])
        add('mem2', [v, s, i], z3.Implies(z3.And(0 <= i, i < L(s), A(s, i) == v), self.mem(v, s)), [(self.mem(v, s), A(s, i))], ['mem', 'at'])
        # extensionality, used only through eqs (goals of the form s == t)
        d = self.skd(a, b)
        add('ext', [a, b], z3.Or(self.eqs(a, b), L(a) != L(b), z3.And(0 <= d, d < L(a), A(a, d) != A(b, d))), [self.eqs(a, b)], ['eqs'])
        add('ext2', [a, b], z3.Implies(self.eqs(a, b), a == b), [self.eqs(a, b)], ['eqs'])
        self.axioms = ax
        self.lits = {}

    @classmethod
    def get(cls, esort, tag):
        if tag not in cls.cache:
            cls.cache[tag] = SeqTheory(esort, tag)
        return cls.cache[tag]

    @classmethod
    def of_sort(cls, sort):
        for t in cls.cache.values():
            if t.S == sort:
                return t
        return None

    def srt(self, key=None):
        '''sorted(s): the ordered permutation of s (unique where the order is total)'''
        if not hasattr(self, '_srt'):
            f = z3.Function('srt_' + self.tag, self.S, self.S)
            P, Q = z3.Function('sp_' + self.tag, self.S, I, I), z3.Function('sq_' + self.tag, self.S, I, I)
            if key is None:
                key = lambda v: v if self.e in (I, z3.RealSort()) else z3.Function('ord_' + str(self.e), self.e, z3.RealSort())(v)
            s = z3.Const('s', self.S)
            i, j = z3.Ints('i j')
            L, A, nd = self.len, self.at, {'srt_' + self.tag}
            inr = lambda k: z3.And(0 <= k, k < L(s))
            ax = lambda nm, vs, b, ps: self.axioms.append(Axiom('srt_' + nm + self.tag, z3.ForAll(vs, b, patterns=ps), nd))
            ax('len', [s], L(f(s)) == L(s), [f(s)])
            ax('ord', [s, i, j], z3.Implies(z3.And(0 <= i, i < j, j < L(s)), key(A(f(s), i)) <= key(A(f(s), j))), [z3.MultiPattern(A(f(s), i), A(f(s), j))])
            ax('p', [s, i], z3.Implies(inr(i), z3.And(inr(P(s, i)), Q(s, P(s, i)) == i, A(f(s), i) == A(s, P(s, i)))), [A(f(s), i), P(s, i)])
            ax('q', [s, i], z3.Implies(inr(i), z3.And(inr(Q(s, i)), P(s, Q(s, i)) == i, A(f(s), Q(s, i)) == A(s, i))), [z3.MultiPattern(f(s), A(s, i)), Q(s, i)])
            self._srt = f
        return self._srt

    # smart constructors ---------------------------------------------------
    def is_empty(self, t):
        return z3.eq(t, self.empty)

    def mkcat(self, a, b):
        if self.is_empty(a):
            return b
        if self.is_empty(b):
            return a
        # right-nest the left operand: cat(cat(x,y),b) kept as is (left nested)
        return self.cat(a, b)

    def mklen(self, s):
        if self.is_empty(s):
            return z3.IntVal(0)
        d = s.decl().name() if z3.is_app(s) else ''
        if d == 'cat_' + self.tag:
            return self.mklen(s.arg(0)) + self.mklen(s.arg(1))
        if d == 'unit_' + self.tag:
            return z3.IntVal(1)
        if d == 'upd_' + self.tag:
            return self.mklen(s.arg(0))
        nm = str(s)
        if nm in self.lits:
            return z3.IntVal(len(self.lits[nm]))
        return self.len(s)

    def mksub(self, s, i, j):
        i, j = z3.simplify(i), z3.simplify(j)
        if z3.eq(i, j):
            return self.empty
        if z3.is_int_value(i) and i.as_long() == 0 and z3.eq(j, z3.simplify(self.mklen(s))):
            return s
        return self.sub(s, i, j)

    def lit(self, vals):
        """literal sequence from python list of element terms"""
        if not vals:
            return self.empty
        key = 'lit_%s_%s' % (self.tag, '_'.join(str(v).replace('-', 'm') for v in vals))
        c = z3.Const(key, self.S)
        if key not in self.lits:
            self.lits[key] = list(vals)
            fs = [self.len(c) == len(vals)] + [self.at(c, k) == v for k, v in enumerate(vals)]
            v = z3.Const('v', self.e)
            fs.append(z3.ForAll([v], self.mem(v, c) == z3.Or([v == x for x in vals]), patterns=[self.mem(v, c)]))
            self.axioms.append(Axiom(key, z3.And(fs), {key}))
        return c

    def mkmem(self, v, s):
        nm = str(s) if z3.is_const(s) else ''
        if nm in self.lits:
            return z3.Or([v == x for x in self.lits[nm]]) if len(self.lits[nm]) != 1 else v == self.lits[nm][0]
        if self.is_empty(s):
            return z3.BoolVal(False)
        if z3.is_app(s) and s.decl().name() == 'unit_' + self.tag:
            return v == s.arg(0)
        return self.mem(v, s)


CS = SeqTheory.get(I, 'c')    # int-valued sequences (strings, vector<int>, ...)


def strlit(s):
    """python str/bytes (latin-1) -> char sequence (signed chars)"""
    b = s if isinstance(s, bytes) else s.encode('latin-1')
    return CS.lit([z3.IntVal(x - 256 if x >= 128 else x) for x in b])


GLOBAL_AXIOMS = []   # beyond SeqTheory axioms


def gax(name, vs, body, pats, needs):
    GLOBAL_AXIOMS.append(Axiom(name, z3.ForAll(vs, body, patterns=[(p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p)) for p in pats]), set(needs)))


# --- char-set searches: total functions with "not found" = len(s) (first_*) or -1 (last_*) -------------
ffo = z3.Function('ffo', CS.S, CS.S, I, I)
fno = z3.Function('fno', CS.S, CS.S, I, I)
flo = z3.Function('flo', CS.S, CS.S, I, I)    # last index <= p
fln = z3.Function('fln', CS.S, CS.S, I, I)
cstr_ = z3.Function('cstrz', CS.S, CS.S)       # prefix before the first NUL
fsub = z3.Function('fsub', CS.S, CS.S, I, I)   # first occurrence of t at >= p, else -1
rsub = z3.Function('rsub', CS.S, CS.S, I, I)   # last occurrence of t at <= p, else -1
matchat = z3.Function('matchat', CS.S, CS.S, I, B)
mmis = z3.Function('mmis', CS.S, CS.S, I, I)


def _mk():
    s, t = z3.Consts('s t', CS.S)
    p, k = z3.Ints('p k')
    L, A, M = CS.len, CS.at, CS.mem
    for (fn, nm, pos) in ((ffo, 'ffo', True), (fno, 'fno', False)):
        r = fn(s, t, p)
        hit = (lambda x: M(A(s, x), t)) if pos else (lambda x: z3.Not(M(A(s, x), t)))
        gax(nm + '_rng', [s, t, p], z3.Implies(0 <= p, z3.And(r <= L(s), z3.Implies(p <= L(s), p <= r), z3.Implies(p > L(s), r == L(s)),
                                                           z3.Implies(r < L(s), z3.And(hit(r))))), [r], [nm])
        gax(nm + '_min', [s, t, p, k], z3.Implies(z3.And(0 <= p, p <= k, k < r), z3.Not(hit(k))), [(r, A(s, k))], [nm])
    for (fn, nm, pos) in ((flo, 'flo', True), (fln, 'fln', False)):
        r = fn(s, t, p)
        hit = (lambda x: M(A(s, x), t)) if pos else (lambda x: z3.Not(M(A(s, x), t)))
        gax(nm + '_rng', [s, t, p], z3.And(r >= -1, r < L(s), z3.Implies(p >= -1, r <= p), z3.Implies(r >= 0, hit(r))), [r], [nm])
        gax(nm + '_max', [s, t, p, k], z3.Implies(z3.And(r < k, k <= p, 0 <= k, k < L(s)), z3.Not(hit(k))), [(r, A(s, k))], [nm])
    # C string view
    c = cstr_(s)
    gax('cstrz1', [s], z3.And(L(c) <= L(s), z3.Implies(L(c) < L(s), A(s, L(c)) == 0)), [c], ['cstrz'])
    gax('cstrz2', [s, k], z3.Implies(z3.And(0 <= k, k < L(c)), z3.And(A(c, k) == A(s, k), A(s, k) != 0)), [(c, A(s, k))], ['cstrz'])
    gax('cstrz3', [s, k], z3.Implies(z3.And(0 <= k, k < L(c)), z3.And(A(c, k) == A(s, k), A(c, k) != 0)), [A(c, k)], ['cstrz'])
    # substring match
    gax('match1', [s, t, p], z3.Implies(matchat(s, t, p), z3.And(0 <= p, p + L(t) <= L(s))), [matchat(s, t, p)], ['matchat'])
    gax('match2', [s, t, p, k], z3.Implies(z3.And(matchat(s, t, p), 0 <= k, k < L(t)), A(s, p + k) == A(t, k)), [(matchat(s, t, p), A(t, k))], ['matchat'])
    gax('match2b', [s, t, p, k], z3.Implies(z3.And(matchat(s, t, p), p <= k, k < p + L(t)), A(s, k) == A(t, k - p)), [(matchat(s, t, p), A(s, k))], ['matchat'])
    m = mmis(s, t, p)
    gax('match3', [s, t, p], z3.Implies(z3.And(0 <= p, p + L(t) <= L(s), z3.Not(matchat(s, t, p))), z3.And(0 <= m, m < L(t), A(s, p + m) != A(t, m))), [matchat(s, t, p)], ['matchat'])
    r = fsub(s, t, p)
    gax('fsub1', [s, t, p], z3.And(r >= -1, z3.Implies(r >= 0, z3.And(r >= p, matchat(s, t, r)))), [r], ['fsub'])
    gax('fsub2', [s, t, p, k], z3.Implies(z3.And(matchat(s, t, k), p <= k), z3.And(r >= 0, r <= k)), [(r, matchat(s, t, k))], ['fsub'])
    r = rsub(s, t, p)
    gax('rsub1', [s, t, p], z3.And(r >= -1, z3.Implies(r >= 0, z3.And(r <= p, matchat(s, t, r)))), [r], ['rsub'])
    gax('rsub2', [s, t, p, k], z3.Implies(z3.And(matchat(s, t, k), k <= p), z3.And(r >= k)), [(r, matchat(s, t, k))], ['rsub'])


_mk()


def cstr_of(base, off):
    """char sequence denoted by the C string starting at base+off"""
    if z3.is_const(base) and str(base) in CS.lits and z3.is_int_value(z3.simplify(off)):
        vals = CS.lits[str(base)][z3.simplify(off).as_long():]
        iv = [v.as_long() for v in vals]
        if 0 in iv:
            vals = vals[:iv.index(0)]
        return CS.lit(vals)
    if CS.is_empty(base):
        return CS.empty
    o = z3.simplify(off)
    if z3.is_int_value(o) and o.as_long() == 0:
        return cstr_(base)
    return cstr_(CS.mksub(base, o, CS.mklen(base)))


# --- products, quotients and remainders of two symbolic integers ------------------------------------------
mul_ = z3.Function('mul', I, I, I)
div_ = z3.Function('divu', I, I, I)     # only constrained for x >= 0, y > 0
mod_ = z3.Function('modu', I, I, I)


def _mk2():
    x, y, a, b = z3.Ints('x y a b')
    m = mul_
    gax('mul_comm', [x, y], m(x, y) == m(y, x), [m(x, y)], ['mul'])
    gax('mul_unit', [x, y], z3.And(z3.Implies(x == 0, m(x, y) == 0), z3.Implies(x == 1, m(x, y) == y)), [m(x, y)], ['mul'])
    gax('mul_sign', [x, y], z3.And(z3.Implies(z3.And(x >= 0, y >= 0), m(x, y) >= 0), z3.Implies(z3.And(x >= 1, y >= 0), m(x, y) >= y)), [m(x, y)], ['mul'])
    gax('mul_mono', [a, b, y], z3.And(z3.Implies(z3.And(y >= 0, a < b), m(a, y) + y <= m(b, y)), z3.Implies(z3.And(y >= 0, a + 2 <= b), m(a, y) + 2 * y <= m(b, y)), z3.Implies(b == a + 2, m(b, y) == m(a, y) + 2 * y), z3.Implies(b == a + 1, m(b, y) == m(a, y) + y), z3.Implies(b == a, m(b, y) == m(a, y))),
        [(m(a, y), m(b, y))], ['mul'])
    gax('mul_mono2', [a, b, x, y], z3.Implies(z3.And(0 <= a, a <= x, 0 <= b, b <= y), m(a, b) <= m(x, y)), [(m(a, b), m(x, y))], ['mul'])
    gax('divmod', [x, y], z3.Implies(z3.And(x >= 0, y > 0), z3.And(0 <= mod_(x, y), mod_(x, y) < y, 0 <= div_(x, y), div_(x, y) <= x, x == m(div_(x, y), y) + mod_(x, y), z3.Implies(x < y, mod_(x, y) == x))),
        [mod_(x, y)], ['modu'])
    gax('divmod2', [x, y], z3.Implies(z3.And(x >= 0, y > 0), z3.And(0 <= mod_(x, y), mod_(x, y) < y, 0 <= div_(x, y), div_(x, y) <= x, x == m(div_(x, y), y) + mod_(x, y))),
        [div_(x, y)], ['divu'])


_mk2()


RR = z3.RealSort()
rmul_ = z3.Function('rmul', RR, RR, RR)
rdiv_ = z3.Function('rdiv', RR, RR, RR)


def _mk3():
    x, y = z3.Reals('x y')
    m = rmul_
    gax('rmul_comm', [x, y], m(x, y) == m(y, x), [m(x, y)], ['rmul'])
    gax('rmul_unit', [x, y], z3.And(z3.Implies(x == 0, m(x, y) == 0), z3.Implies(x == 1, m(x, y) == y)), [m(x, y)], ['rmul'])
    gax('rmul_sign', [x, y], z3.Implies(z3.Or(z3.And(x >= 0, y >= 0), z3.And(x <= 0, y <= 0)), m(x, y) >= 0), [m(x, y)], ['rmul'])
    gax('rdiv_def', [x, y], z3.Implies(y != 0, m(rdiv_(x, y), y) == x), [rdiv_(x, y)], ['rdiv'])
    gax('rdiv_sign', [x, y], z3.Implies(z3.And(x >= 0, y > 0), rdiv_(x, y) >= 0), [rdiv_(x, y)], ['rdiv'])


_mk3()


def rmul(x, y):
    '''product of two reals as an uninterpreted function (modules with w.real_uf)'''
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_rational_value(x) or z3.is_rational_value(y):
        return x * y
    return rmul_(x, y) if x.get_id() <= y.get_id() else rmul_(y, x)


def rdiv(x, y):
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_rational_value(y):
        return x / y
    return rdiv_(x, y)


def _poly(t):
    """linear decomposition: ({atom id: (atom, coeff)}, const)"""
    if z3.is_int_value(t):
        return {}, t.as_long()
    if z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            d, c = {}, 0
            for i, ch in enumerate(t.children()):
                sg = -1 if (k == z3.Z3_OP_SUB and i > 0) else 1
                d2, c2 = _poly(ch)
                c += sg * c2
                for key, (a, q) in d2.items():
                    d[key] = (a, d.get(key, (a, 0))[1] + sg * q)
            return d, c
        if k == z3.Z3_OP_UMINUS:
            d, c = _poly(t.arg(0))
            return {key: (a, -q) for key, (a, q) in d.items()}, -c
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            n = t.arg(0).as_long()
            d, c = _poly(t.arg(1))
            return {key: (a, n * q) for key, (a, q) in d.items()}, n * c
    return {t.get_id(): (t, 1)}, 0


def imul(x, y):
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_int_value(x) or z3.is_int_value(y):
        return x * y
    (dx, cx), (dy, cy) = _poly(x), _poly(y)
    if len(dx) * len(dy) > 12:
        return mul_(x, y)
    r = [z3.IntVal(cx * cy)]
    for a, q in dx.values():
        r.append(a * (q * cy))
        for b, p in dy.values():
            u, v = (a, b) if a.get_id() <= b.get_id() else (b, a)
            r.append(mul_(u, v) * (q * p))
    for b, p in dy.values():
        r.append(b * (p * cx))
    return z3.simplify(z3.Sum(r))


# --- used symbol closure ---------------------------------------------------------------------------
_sym_cache = {}


def symbols(f, acc=None):
    """names of uninterpreted function/const symbols in a formula"""
    key = f.get_id()
    hit = _sym_cache.get(key)
    if hit is not None and hit[0].eq(f):
        return hit[1]
    acc = set()
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            for q in range(x.num_patterns()):
                pass
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() in (z3.Z3_OP_UNINTERPRETED,):
                acc.add(d.name())
            st.extend(x.children())
    _sym_cache[key] = (f, acc)
    return acc


def relevant_axioms(formulas, extra):
    """transitively select axioms whose needed symbols occur"""
    syms = set()
    for f in formulas:
        syms |= symbols(f)
    pool = []
    for t in SeqTheory.cache.values():
        pool += t.axioms
    pool += GLOBAL_AXIOMS + list(extra)
    chosen = []
    changed = True
    rest = pool
    while changed:
        changed = False
        nrest = []
        for a in rest:
            if a.needs <= syms:
                chosen.append(a)
                ns = symbols(a.f)
                if not ns <= syms:
                    syms |= ns
                changed = True
            else:
                nrest.append(a)
        rest = nrest
    return chosen
