"""Specification language: Python-syntax expressions over symbolic values."""
import ast, z3
from .types import *
from .values import *
from . import logic
from .logic import CS, SeqTheory, NPOS


class SpecError(Exception):
    pass


class RecFun:
    """recursive spec function, axiomatised with two levels of unfolding"""

    def __init__(self, name, params, ret, body, fuel=2):
        self.name, self.params, self.ret, self.body, self.fuel = name, params, ret, body, fuel


class Lemma:
    def __init__(self, name, params, requires, ensures, induct=None, pats=None, uses=(), hints=(), induct_from=None, gen=None, hide=()):
        self.hide = tuple(hide)
        self.name, self.params, self.requires, self.ensures = name, params, requires, ensures
        self.induct, self.pats, self.uses, self.hints = induct, pats, list(uses), list(hints)
        self.gen = gen


SORTNAMES = {'int': lambda w: TInt(64, True), 'char': lambda w: CHAR, 'str': lambda w: STR, 'bool': lambda w: TBool(),
             'real': lambda w: TFloat(64)}


class SpecCtx:
    """declarations shared by the contracts of one module"""

    def __init__(self, world):
        self.w = world
        self.macros = {}
        self.funs = {}     # name -> (z3 decls by level, ret shape)
        self.axioms = []
        self.level1 = {}
        self.lemmas = {}
        self.shapes = {}

    def shape(self, s):
        if isinstance(s, Shape):
            return s
        if s in SORTNAMES:
            return SORTNAMES[s](self.w)
        if s.startswith('seq<'):
            return TSeq(self.shape(s[4:-1]))
        if s in self.shapes:
            return self.shapes[s]
        return self.w.types.parse(s)

    # macro: non-recursive spec function, expanded
    def macro(self, name, params, body):
        d = ([p.strip() for p in params.split(',') if p.strip()], ast.parse('(' + body + ')', mode='eval').body)
        assert name not in self.macros or (self.macros[name][0] == d[0] and ast.dump(self.macros[name][1]) == ast.dump(d[1])), 'macro %s is redefined' % name
        self.macros[name] = d

    def visible(self, hide):
        return [a for a in self.axioms if not any(a.name.startswith('def_%s_' % h) for h in hide)] if hide else list(self.axioms)

    def uf(self, name, params, ret):
        shs = [self.shape(p) for p in params]
        r = self.shape(ret)
        d = z3.Function(name, *[self.w.sorts.sort(s) for s in shs], self.w.sorts.sort(r))
        self.funs[name] = (d, shs, r)
        return d

    def recfun(self, name, params, ret, body, fuel=2, extra_pats=()):
        """params: 's:str,i:int'"""
        ps = [p.split(':') for p in params.split(',')]
        names = [p[0].strip() for p in ps]
        shs = [self.shape(p[1].strip()) for p in ps]
        r = self.shape(ret)
        sorts = [self.w.sorts.sort(s) for s in shs]
        rs = self.w.sorts.sort(r)
        decls = [z3.Function('%s' % name if k == 0 else '%s#%d' % (name, k), *sorts, rs) for k in range(fuel + 1)]
        self.funs[name] = (decls[0], shs, r)
        self.level1[name] = decls[1] if fuel >= 1 else None
        tree = ast.parse('(' + body + ')', mode='eval').body
        vs = [self.w.sorts.fresh_term(s, n) for n, s in zip(names, shs)]
        env = {n: self.w.sorts.reflect(v, s) for n, v, s in zip(names, vs, shs)}
        for k in range(fuel):
            saved = self.funs[name]
            self.funs[name] = (decls[k + 1], shs, r)
            b = SpecEval(self, env).reify(tree)
            self.funs[name] = saved
            self.axioms.append(logic.Axiom('def_%s_%d' % (name, k), z3.ForAll(vs, decls[k](*vs) == b, patterns=[decls[k](*vs)]), {decls[k].name()}))
            self.axioms.append(logic.Axiom('fuel_%s_%d' % (name, k), z3.ForAll(vs, decls[k](*vs) == decls[k + 1](*vs), patterns=[decls[k](*vs)]), {decls[k].name()}))

    def axiom(self, name, params, body, pats, needs=None):
        vs, f, ps = self.quant(params, body, pats)
        syms = set()
        for p in ps:
            syms |= logic.symbols(p)
        self.axioms.append(logic.Axiom(name, z3.ForAll(vs, f, patterns=[p if isinstance(p, z3.PatternRef) else p for p in ps]) if vs else f, needs if needs is not None else syms - {str(v) for v in vs} - {'pattern'}))

    def quant(self, params, body, pats):
        ps = [p.split(':') for p in params.split(',') if p.strip()]
        names = [p[0].strip() for p in ps]
        shs = [self.shape(p[1].strip()) for p in ps]
        vs = [self.w.sorts.fresh_term(s, n) for n, s in zip(names, shs)]
        env = {n: self.w.sorts.reflect(v, s) for n, v, s in zip(names, vs, shs)}
        ev = SpecEval(self, env)
        f = ev.bool(ast.parse('(' + body + ')', mode='eval').body)
        out = []
        for p in pats or []:
            ts = [ev.reify(ast.parse(q, mode='eval').body) for q in (p if isinstance(p, (list, tuple)) else [p])]
            out.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
        return vs, f, out

    def lemma(self, name, params, requires, ensures, induct=None, pats=None, uses=(), hints=(), gen=None, hide=()):
        self.lemmas[name] = Lemma(name, params, requires, ensures, induct, pats, uses, hints, gen=gen, hide=hide)

    def lemma_axiom(self, lm):
        body = ' and '.join('(%s)' % r for r in lm.requires + ([lm.induct + ' >= 0'] if lm.induct else [])) or 'True'
        ens = ' and '.join('(%s)' % r for r in lm.ensures)
        vs, f, ps = self.quant(lm.params, 'implies(%s, %s)' % (body, ens), lm.pats)
        needs = set()
        for p in ps:
            needs |= logic.symbols(p)
        needs -= {str(v) for v in vs} | {'pattern'}
        return logic.Axiom('lemma_' + lm.name, z3.ForAll(vs, f, patterns=ps) if ps else z3.ForAll(vs, f), needs)

    def uses_fun(self, t, nm):
        if isinstance(t, z3.PatternRef):
            return any(self.uses_fun(c, nm) for c in t.children())
        return z3.is_app(t) and t.decl().eq(self.funs[nm][0])

    def down(self, f, nm):
        d0, d1 = self.funs[nm][0], self.level1[nm]
        n = d0.arity()
        vs = [z3.Var(i, d0.domain(i)) for i in range(n)]

        def walk(t, cache={}):
            if z3.is_var(t):
                return t
            if z3.is_quantifier(t):
                names = [(t.var_name(i), t.var_sort(i)) for i in range(t.num_vars())]
                cs = [z3.FreshConst(s, 'q') for _, s in names]
                body = z3.substitute_vars(t.body(), *reversed(cs))
                pts = [z3.substitute_vars(t.pattern(i), *reversed(cs)) for i in range(t.num_patterns())]
                np = []
                for pt in pts:
                    ch = [walk(c) for c in pt.children()] if isinstance(pt, z3.PatternRef) else [walk(pt)]
                    np.append(ch[0] if len(ch) == 1 else z3.MultiPattern(*ch))
                b = walk(body)
                return z3.ForAll(cs, b, patterns=np) if t.is_forall() else z3.Exists(cs, b)
            if z3.is_app(t):
                ch = [walk(c) for c in t.children()]
                if t.decl().eq(d0):
                    return d1(*ch)
                if not ch:
                    return t
                if z3.is_and(t):
                    return z3.And(ch)
                if z3.is_or(t):
                    return z3.Or(ch)
                return t.decl()(*ch)
            return t
        return walk(f)

    def instance(self, call, env, old=None):
        '''formula of a lemma instance '@name(arg, ...)' in an environment'''
        t = ast.parse(call.lstrip('@').strip(), mode='eval').body
        lm = self.lemmas[t.func.id]
        ev = SpecEval(self, env, old)
        names = [p.split(':')[0].strip() for p in lm.params.split(',') if p.strip()]
        e2 = SpecEval(self, dict(zip(names, [ev.ev(a) for a in t.args])))
        P = lambda x: ast.parse('(' + x + ')', mode='eval').body
        reqs = [e2.bool(P(r)) for r in lm.requires]
        if lm.induct:
            reqs.append(e2.bool(P(lm.induct + ' >= 0')))
        return z3.Implies(z3.And(reqs) if reqs else z3.BoolVal(True), z3.And([e2.bool(P(r)) for r in lm.ensures]))

    def check_acyclic(self):
        def deps(lm):
            return list(lm.uses) + [h.lstrip('@').split('(')[0].strip() for h in lm.hints if h.startswith('@')]
        done, path = set(), []

        def go(n):
            if n in path:
                raise SpecError('circular lemma use: ' + ' -> '.join(path + [n]))
            if n in done:
                return
            path.append(n)
            for u in deps(self.lemmas[n]):
                go(u)
            path.pop()
            done.add(n)
        for n in self.lemmas:
            go(n)

    def lemma_obligations(self, lm):
        """(name, hypotheses, goal, extra axioms) proving the lemma; induction on an int parameter"""
        ps = [p.split(':') for p in lm.params.split(',') if p.strip()]
        names = [p[0].strip() for p in ps]
        shs = [self.shape(p[1].strip()) for p in ps]
        cons = []
        vals = {n: self.w.sorts.fresh(s, n, []) for n, s in zip(names, shs)}
        ev = SpecEval(self, vals)
        P = lambda x: ast.parse('(' + x + ')', mode='eval').body
        hyps = [ev.bool(P(r)) for r in lm.requires]
        hints = []
        for h in lm.hints:
            if h.startswith('@'):
                hints.append(('inst', self.instance(h, vals)))
            else:
                hints.append(ev.bool(P(h)))
        extra = [self.lemma_axiom(self.lemmas[u]) for u in lm.uses]
        if lm.induct:
            n = lm.induct
            # induction hypothesis: holds for n-1 (with all other params; generalised over lm.gen params)
            env2 = dict(vals)
            nv = vals[n]
            gens = []
            for g in (lm.gen or []):
                gt = self.w.sorts.fresh_term(vals[g].sh, g + '_g')
                env2[g] = self.w.sorts.reflect(gt, vals[g].sh)
                gens.append(gt)
            env2[n] = T(nv.t - 1, nv.sh)
            ev2 = SpecEval(self, env2)
            ih = z3.Implies(z3.And([nv.t > 0] + [ev2.bool(P(r)) for r in lm.requires]) if lm.requires else nv.t > 0,
                            z3.And([ev2.bool(P(e)) for e in lm.ensures]))
            if gens:
                pats = []
                for pt in lm.pats or []:
                    ts = [ev2.reify(P(q)) for q in (pt if isinstance(pt, (list, tuple)) else [pt])]
                    pats.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
                ih = z3.ForAll(gens, ih, patterns=pats) if pats else z3.ForAll(gens, ih)
                # the same fact about the once-unfolded symbol (definitionally equal, see the fuel axioms)
                ih = z3.And([ih] + [self.down(ih, nm) for nm in self.level1 if self.level1[nm] is not None and any(self.uses_fun(p, nm) for p in pats)])
            hyps = [nv.t >= 0, ih] + hyps
        out = []
        hy = list(hyps)
        for k, h in enumerate(hints):
            if isinstance(h, tuple):
                hy.append(h[1])
                continue
            out.append(('%s.hint%d' % (lm.name, k), list(hy), h, extra))
            hy.append(h)
        for k, e in enumerate(lm.ensures):
            out.append(('%s.ensures%d' % (lm.name, k), list(hy), ev.bool(P(e)), extra))
        return out


class SpecEval:
    def __init__(self, ctx, env, old=None):
        self.c, self.env, self.old = ctx, env, old
        self.w = ctx.w

    def ev(self, n):
        if isinstance(n, str):
            n = ast.parse('(' + n.strip() + ')', mode='eval').body
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise SpecError('spec syntax ' + type(n).__name__)
        return m(n)

    def term(self, n):
        v = self.ev(n)
        if isinstance(v, T):
            return v.t
        return self.w.sorts.reify(v)

    def reify(self, n):
        v = self.ev(n)
        return self.w.sorts.reify(v)

    def bool(self, n):
        v = self.ev(n)
        if isinstance(v, T):
            if v.t.sort() == B:
                return v.t
            return v.t != 0
        raise SpecError('not a bool: ' + str(v))

    # nodes
    def x_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        if n.id == 'NPOS':
            return T(z3.IntVal(NPOS), TInt(64, False))
        if n.id == 'INT_MAX':
            return T(z3.IntVal(2**31 - 1), TInt(64, True))
        if n.id == 'MAXLEN':
            return T(z3.IntVal(logic.MAXLEN), TInt(64, True))
        if n.id in self.c.macros and not self.c.macros[n.id][0]:
            return self.call_macro(n.id, [])
        raise SpecError('unknown name ' + n.id)

    def x_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            return T(z3.BoolVal(v), TBool())
        if isinstance(v, int):
            return T(z3.IntVal(v), TInt(64, True))
        if isinstance(v, float):
            return T(z3.RealVal(repr(v)), TFloat(64))
        if isinstance(v, str):
            return T(logic.strlit(v), STR)
        raise SpecError('const')

    def x_BoolOp(self, n):
        vs = [self.bool(x) for x in n.values]
        return T(z3.And(vs) if isinstance(n.op, ast.And) else z3.Or(vs), TBool())

    def x_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return T(z3.Not(self.bool(n.operand)), TBool())
        if isinstance(n.op, ast.USub):
            v = self.ev(n.operand)
            return T(-v.t, v.sh)
        raise SpecError('unary')

    def x_IfExp(self, n):
        c = self.bool(n.test)
        a, b = self.ev(n.body), self.ev(n.orelse)
        return ite(self.w, c, a, b)

    def x_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        op = type(n.op).__name__
        if op == 'Add' and a.sh.kind == 'seq':
            return T(self.w.sorts.th(a.sh).mkcat(a.t, b.t), a.sh)
        x, y = num2(a, b)
        if z3.is_bv(x):
            sg = a.sh.signed if z3.is_bv(a.t) else b.sh.signed
            f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                 'LShift': lambda: x << y, 'RShift': lambda: x >> y if sg else z3.LShR(x, y), 'Mod': lambda: z3.SRem(x, y) if sg else z3.URem(x, y), 'FloorDiv': lambda: x / y if sg else z3.UDiv(x, y)}
            if op not in f:
                raise SpecError('binop ' + op)
            return T(f[op](), a.sh if z3.is_bv(a.t) else b.sh)
        if op == 'Add':
            r = x + y
        elif op == 'Sub':
            r = x - y
        elif op == 'Mult':
            r = logic.imul(x, y) if x.sort() == I and y.sort() == I else logic.rmul(x, y) if self.w.real_uf else x * y
        elif op == 'Div':
            r = logic.rdiv(x, y) if self.w.real_uf and x.sort() == z3.RealSort() else x / y
        elif op == 'FloorDiv':
            r = (x / y if z3.is_int_value(y) else logic.div_(x, y)) if x.sort() == I else z3.ToInt(x / y)
        elif op == 'Mod':
            r = x % y if z3.is_int_value(z3.simplify(y)) else logic.mod_(x, y)
        elif op == 'Pow' and isinstance(n.right, ast.Constant):
            r = x
            for _ in range(n.right.value - 1):
                r = r * x
        else:
            raise SpecError('binop ' + op)
        return T(r, TFloat(64) if r.sort() == z3.RealSort() else TInt(64, True))

    def x_Compare(self, n):
        out = []
        l = self.ev(n.left)
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn)
            out.append(self.cmp(type(op).__name__, l, r))
            l = r
        return T(z3.And(out) if len(out) > 1 else out[0], TBool())

    def cmp(self, op, a, b):
        if op in ('Eq', 'NotEq'):
            e = veq(self.w, a, b)
            return e if op == 'Eq' else z3.Not(e)
        if op in ('In', 'NotIn'):
            th = self.w.sorts.th(b.sh)
            m = th.mkmem(self.w.sorts.reify(a), b.t)
            return m if op == 'In' else z3.Not(m)
        x, y = num2(a, b)
        if z3.is_bv(x) and not (a.sh if z3.is_bv(a.t) else b.sh).signed:
            return {'Lt': z3.ULT, 'LtE': z3.ULE, 'Gt': z3.UGT, 'GtE': z3.UGE}[op](x, y)
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]

    def x_Attribute(self, n):
        v = self.ev(n.value)
        if isinstance(v, Rec):
            if n.attr in v.f:
                return v.f[n.attr]
            if n.attr == 'base' and '$base' in v.f:
                return v.f['$base']
            raise SpecError('no field ' + n.attr)
        if isinstance(v, It) and n.attr == 'off':
            return T(v.off, TInt(64, True))
        if isinstance(v, CP):
            if n.attr == 'off':
                return T(v.off, TInt(64, True))
            if n.attr == 'base':
                return T(v.base, STR)
            if n.attr == 'null':
                return T(v.null, TBool())
        if isinstance(v, MapV) and n.attr == 'size':
            return T(v.size, TInt(64, False))
        raise SpecError('attribute %s of %s' % (n.attr, v))

    def x_Subscript(self, n):
        v = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            th = self.w.sorts.th(v.sh)
            lo = self.term(n.slice.lower) if n.slice.lower else z3.IntVal(0)
            hi = self.term(n.slice.upper) if n.slice.upper else th.mklen(v.t)
            return T(th.mksub(v.t, lo, hi), v.sh)
        if isinstance(v, MapV):
            k = self.reify(n.slice)
            return self.w.sorts.reflect(z3.Select(v.val, k), v.sh.v)
        th = self.w.sorts.th(v.sh)
        return self.w.sorts.reflect(th.at(v.t, self.term(n.slice)), v.sh.elem)

    def call_macro(self, name, args):
        ps, body = self.c.macros[name]
        if len(ps) != len(args):
            raise SpecError('macro arity ' + name)
        env = dict(self.env)
        env.update(zip(ps, args))
        return SpecEval(self.c, env, self.old).ev(body)

    def x_Call(self, n):
        fn = n.func.id if isinstance(n.func, ast.Name) else None
        if fn is None:
            raise SpecError('call')
        if fn == 'old':
            if self.old is None:
                raise SpecError('old() without pre-state')
            env = dict(self.old)
            for k, v in self.env.items():
                env.setdefault(k, v)
            return SpecEval(self.c, env, self.old).ev(n.args[0])
        if fn in ('forall', 'exists'):
            # forall(k, body) | forall(k, body, trigger...) ; k may be 'k' name(s) or tuple of names; optional shape via k: kw types
            names = [n.args[0].id] if isinstance(n.args[0], ast.Name) else [e.id for e in n.args[0].elts]
            kinds = {kw.arg: kw.value.value for kw in n.keywords}
            shs = [self.c.shape(kinds.get(x, 'int')) for x in names]
            vs = [self.w.sorts.fresh_term(s, x) for x, s in zip(names, shs)]
            env = dict(self.env)
            env.update({x: self.w.sorts.reflect(v, s) for x, v, s in zip(names, vs, shs)})
            old = None
            if self.old is not None:
                old = dict(self.old)
                old.update({x: env[x] for x in names})
            e2 = SpecEval(self.c, env, old)
            body = e2.bool(n.args[1])
            pats = []
            for p in n.args[2:]:
                ts = [e2.reify(q) for q in (p.elts if isinstance(p, ast.Tuple) else [p])]
                pats.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
            if not pats:
                pats = auto_pats(vs, body)
            q = z3.ForAll if fn == 'forall' else z3.Exists
            try:
                return T(q(vs, body, patterns=pats) if pats else q(vs, body), TBool())
            except z3.Z3Exception:        # the trigger term was simplified to something that cannot be a pattern
                return T(q(vs, body), TBool())
        if fn == 'implies':
            return T(z3.Implies(self.bool(n.args[0]), self.bool(n.args[1])), TBool())
        if fn == 'iff':
            return T(self.bool(n.args[0]) == self.bool(n.args[1]), TBool())
        if fn == 'let':
            # let(name, value, body)
            env = dict(self.env)
            env[n.args[0].id] = self.ev(n.args[1])
            return SpecEval(self.c, env, self.old).ev(n.args[2])
        if fn == 'isint':
            t = self.term(n.args[0])
            return T(z3.IsInt(t), TBool())
        if fn == 'floor_':
            return T(z3.ToReal(z3.ToInt(self.term(n.args[0]))), TFloat(64))
        if fn == 'apply_':
            from .stdmodel import apply_fn
            vs = [self.ev(a) for a in n.args]
            return apply_fn(self.c.w, vs[0], vs[1:])
        if fn in ('no_', 'made_'):      # no_("U"): no object; made_("U", "D", args): a pointer of shape U to a D constructed from args
            from .stdmodel import made, nouniq
            U = self.c.shape(n.args[0].value)
            if fn == 'no_':
                return self.w.sorts.reflect(nouniq(self.w, U), U)
            return made(self.w, U, self.w.types.parse(n.args[1].value).key(), [self.ev(a) for a in n.args[2:]])
        if fn == 'hp':
            return self.ev(n.args[0]).get(self.term(n.args[1]))
        if fn == 'ifloor':
            return T(z3.ToInt(self.term(n.args[0])), TInt(64, True))
        if fn == 'ch':
            b = n.args[0].value.encode('latin-1')[0]
            return T(z3.IntVal(b - 256 if b >= 128 else b), CHAR)
        if fn == 'with_':
            # with_(rec, field=value,...)
            v = self.ev(n.args[0])
            f = dict(v.f)
            for kw in n.keywords:
                key = '$base' if kw.arg == 'base' and '$base' in f else kw.arg
                f[key] = self.ev(kw.value)
            return Rec(f, v.sh)
        if fn == 'rec':
            # rec("Shape", field=value, ...): every field must be given
            sh = self.c.shape(n.args[0].value)
            f = {}
            want = dict(self.w.sorts.fields(sh))
            for kw in n.keywords:
                v = self.ev(kw.value)
                if want[kw.arg].kind == 'float' and v.t.sort() == I:
                    v = T(z3.simplify(z3.ToReal(v.t)), want[kw.arg])
                f[kw.arg] = v
            if set(f) != set(want):
                raise SpecError('rec: fields ' + ','.join(want))
            return Rec({k: f[k] for k in want}, sh)
        if fn == 'ordk':
            v = self.ev(n.args[0])
            return T(v.t if v.t.sort() in (I, z3.RealSort()) else z3.Function('ord_' + str(v.t.sort()), v.t.sort(), z3.RealSort())(v.t), TFloat(64) if v.t.sort() != I else v.sh)
        if fn == 'default_':
            return self.w.sorts.default(self.c.shape(n.args[0].value))
        if fn in self.c.macros:
            return self.call_macro(fn, [self.ev(a) for a in n.args])
        args = [self.ev(a) for a in n.args]
        if fn == 'len':
            v = args[0]
            return T(self.w.sorts.th(v.sh).mklen(v.t), TInt(64, True))
        if fn == 'cstr':
            v = args[0]
            if isinstance(v, CP):
                return T(logic.cstr_of(v.base, v.off), STR)
            return T(logic.cstr_of(v.t, z3.IntVal(0)), STR)
        if fn in ('ffo', 'fno', 'flo', 'fln', 'fsub', 'rsub'):
            f = getattr(logic, fn)
            return T(f(args[0].t, args[1].t, args[2].t), TInt(64, True))
        if fn == 'matchat':
            return T(logic.matchat(args[0].t, args[1].t, args[2].t), TBool())
        if fn == 'mem':
            th = self.w.sorts.th(args[1].sh)
            return T(th.mkmem(self.w.sorts.reify(args[0]), args[1].t), TBool())
        if fn == 'unit':
            sh = TSeq(args[0].sh)
            if args[0].sh.kind == 'int' and args[0].sh.bits == 64:
                sh = TSeq(args[0].sh)
            return T(self.w.sorts.th(sh).unit(self.w.sorts.reify(args[0])), sh)
        if fn == 'upd':
            th = self.w.sorts.th(args[0].sh)
            return T(th.upd(args[0].t, args[1].t, self.w.sorts.reify(args[2], args[0].sh.elem)), args[0].sh)
        if fn == 'rep':
            sh = TSeq(args[1].sh)
            return T(self.w.sorts.th(sh).rep(args[0].t, self.w.sorts.reify(args[1])), sh)
        if fn == 'srt':
            return T(self.w.sorts.th(args[0].sh).srt()(args[0].t), args[0].sh)
        if fn == 'emptylike':
            return T(self.w.sorts.th(args[0].sh).empty, args[0].sh)
        if fn == 'has':
            return T(z3.Select(args[0].dom, self.w.sorts.reify(args[1])), TBool())
        if fn == 'min':
            x, y = num2(args[0], args[1])
            return T(z3.If(x <= y, x, y), args[0].sh)
        if fn == 'max':
            x, y = num2(args[0], args[1])
            return T(z3.If(x >= y, x, y), args[0].sh)
        if fn == 'abs':
            return T(z3.If(args[0].t >= 0, args[0].t, -args[0].t), args[0].sh)
        if fn == 'uchar':
            t = args[0].t
            return T(z3.If(t < 0, t + 256, t), TInt(64, True))
        if fn == 'pair':
            return Rec({'first': args[0], 'second': args[1]}, TPair(args[0].sh, args[1].sh))
        if fn == 'real':
            return T(z3.ToReal(args[0].t), TFloat(64))
        if fn == 'isnull':
            return T(args[0].null, TBool())
        if fn in self.c.funs:
            d, shs, r = self.c.funs[fn]
            ts = []
            for a, s in zip(args, shs):
                t = self.w.sorts.reify(a, s)
                if s.kind == 'float' and t.sort() == I:
                    t = z3.ToReal(t)
                ts.append(t)
            return self.w.sorts.reflect(d(*ts), r)
        raise SpecError('unknown function ' + fn)


def num2(a, b):
    if not (isinstance(a, T) and isinstance(b, T)):
        raise SpecError('numeric op on %s %s' % (a, b))
    x, y = a.t, b.t
    if x.sort() == B:
        x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if y.sort() == B:
        y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bv(x) or z3.is_bv(y):
        n = max(t.size() for t in (x, y) if z3.is_bv(t))
        sg = lambda v: getattr(v.sh, 'signed', False)
        cv = lambda t, v: z3.BitVecVal(z3.simplify(t).as_long(), n) if not z3.is_bv(t) else t if t.size() == n else (z3.SignExt if sg(v) else z3.ZeroExt)(n - t.size(), t)
        return cv(x, a), cv(y, b)
    if x.sort() != y.sort():
        if x.sort() == I:
            x = z3.ToReal(x)
        if y.sort() == I:
            y = z3.ToReal(y)
    return x, y


def veq(w, a, b):
    """equality of two symbolic values"""
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = [k for k in a.f if k in b.f]
        if len(ks) != len(a.f) or len(ks) != len(b.f):
            raise SpecError('record equality: different fields')
        return z3.And([veq(w, a.f[k], b.f[k]) for k in ks])
    if isinstance(a, It) and isinstance(b, It):
        return a.off == b.off
    if isinstance(a, CP) and isinstance(b, CP):
        return z3.And(a.base == b.base, a.off == b.off, a.null == b.null)
    if isinstance(a, HeapV) and isinstance(b, HeapV):
        return z3.And([a.arr[k] == b.arr[k] for k in a.arr])
    if isinstance(a, MapV) and isinstance(b, MapV):
        return z3.And(a.dom == b.dom, a.val == b.val)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return z3.BoolVal(repr(a.loc) == repr(b.loc))
    if isinstance(a, CP) or isinstance(b, CP):
        return w.sorts.reify(a) == w.sorts.reify(b)
    x, y = a.t, b.t
    if x.sort() == y.sort():
        return x == y
    x, y = num2(a, b)
    return x == y


def ite(w, c, a, b):
    if isinstance(a, Rec):
        return Rec({k: ite(w, c, a.f[k], b.f[k]) for k in a.f}, a.sh)
    if isinstance(a, CP):
        return CP(z3.If(c, a.base, b.base), z3.If(c, a.off, b.off), z3.If(c, a.null, b.null))
    if isinstance(a, HeapV):
        return HeapV({k: z3.If(c, a.arr[k], b.arr[k]) for k in a.arr}, a.sh, a.sorts)
    if isinstance(a, MapV):
        return MapV(z3.If(c, a.dom, b.dom), z3.If(c, a.val, b.val), z3.If(c, a.size, b.size), a.sh)
    if isinstance(a, It) and isinstance(b, It) and repr(a.loc) == repr(b.loc):
        return It(a.loc, z3.If(c, a.off, b.off), a.sh)
    if isinstance(a, T) and isinstance(b, T):
        x, y = a.t, b.t
        if x.sort() != y.sort():
            x, y = num2(a, b)
        return T(z3.If(c, x, y), a.sh if a.sh.kind != 'int' or b.sh.kind != 'int' else (a.sh if a.sh.bits >= b.sh.bits else b.sh))
    raise Unsupported('ite of %s / %s' % (type(a).__name__, type(b).__name__))


def auto_pats(vs, body):
    """pick at()/mem/select/function applications covering all bound variables as triggers"""
    cands = []
    seen = set()
    st = [body]
    ids = {v.get_id() for v in vs}

    def has_vars(x):
        out = set()
        s2 = [x]
        while s2:
            y = s2.pop()
            if y.get_id() in ids:
                out.add(y.get_id())
            if z3.is_app(y):
                s2.extend(y.children())
        return out

    def ok(x):
        # no arithmetic on bound vars directly under the pattern
        for c in x.children():
            if z3.is_app(c) and c.decl().kind() != z3.Z3_OP_UNINTERPRETED and has_vars(c):
                k = c.decl().kind()
                if k not in (z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_SELECT):
                    return False
            if not ok(c):
                return False
        return True
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and x.num_args() > 0:
                hv = has_vars(x)
                if len(hv) == len(ids) and ok(x):
                    cands.append(x)
            st.extend(x.children())
    # keep minimal (innermost) candidates
    out = []
    for c in cands:
        if not any(d is not c and contains(c, d) for d in cands):
            if not any(z3.eq(c, o) for o in out):
                out.append(c)
    return out


def contains(x, y):
    st = list(x.children())
    while st:
        z = st.pop()
        if z3.eq(z, y):
            return True
        st.extend(z.children())
    return False
