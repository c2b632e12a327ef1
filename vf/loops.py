"""Loop rule: havoc the written locations, infer an inductive invariant from candidate templates (Houdini),
check that it is established and preserved, prove a termination measure.

Every invariant that survives has been proved established on entry and preserved by an arbitrary iteration; a
candidate that is not provable is dropped, so a wrong candidate can never make anything provable that is not true."""
import os
import itertools, time
import ast as pyast
import z3
from .types import *
from .values import *
from . import logic
from .logic import CS, NPOS
from .prove import Batch, prove
from .spec import SpecEval, SpecError, veq


class View:
    """an integer-valued view on a location"""
    __slots__ = ('name', 'loc', 'kind')

    def __init__(self, name, loc, kind):
        self.name, self.loc, self.kind = name, loc, kind

    def get(self, ex, st):
        return view_term(ex, ex.read(st, self.loc))


def view_term(ex, v):
    if isinstance(v, T):
        if v.sh.kind == 'seq':
            return ex.sorts.th(v.sh).mklen(v.t)
        if v.t.sort() == I:
            return v.t
        return None
    if isinstance(v, (It, CP)):
        return v.off
    return None


def leaves(v, loc, name, depth=0):
    if isinstance(v, Rec) and depth < 3:
        for k, x in v.f.items():
            yield from leaves(x, loc.f(k), name + '.' + k, depth + 1)
    else:
        yield name, loc, v


ROLE_OK = {
    'int': lambda v: isinstance(v, T) and v.t.sort() == I and v.sh.kind == 'int',
    'enum': lambda v: isinstance(v, T) and v.t.sort() == I and v.sh.kind == 'enum',
    'pos': lambda v: (isinstance(v, T) and v.t.sort() == I and v.sh.kind == 'int') or isinstance(v, (It, CP)),
    'it': lambda v: isinstance(v, It),
    'cp': lambda v: isinstance(v, CP),
    'seq': lambda v: isinstance(v, T) and v.sh.kind == 'seq',
    'str': lambda v: isinstance(v, T) and v.sh.kind == 'seq' and v.sh.elem == CHAR,
    'lstr': lambda v: isinstance(v, T) and v.sh.kind == 'seq' and v.sh.elem == CHAR,   # a whole variable, not a member
    'bool': lambda v: isinstance(v, T) and v.t.sort() == z3.BoolSort(),
    'real': lambda v: isinstance(v, T) and v.t.sort() == z3.RealSort(),
    'rec': lambda v: isinstance(v, Rec),
    'map': lambda v: isinstance(v, MapV),
    'word': lambda v: isinstance(v, T) and v.sh.kind == 'int' and z3.is_bv(v.t),
    'any': lambda v: True,
}


def split_template(s):
    """'A:int, S!:seq | expr' -> ([(name, kind, const)], expr)"""
    if '|' in s:
        h, e = s.split('|', 1)
        roles = []
        for p in h.split(','):
            n, k = p.split(':')
            n = n.strip()
            const = n.endswith('!')
            roles.append((n.rstrip('!'), k.strip(), const))
        return roles, e.strip()
    return [], s.strip()

DEBUG = bool(os.environ.get('VF_DEBUG'))


class LoopProver:
    def __init__(self, ex, node, st, cond, body, inc):
        self.ex, self.node, self.st0, self.cond, self.body, self.inc = ex, node, st, cond, body, inc
        self.unstable = set()
        no_width(st)

    # ---- running an iteration without recording anything
    def dry(self, st):
        ex = self.ex
        so, sth = len(ex.obls), len(ex.thrown)
        ex.dry += 1
        try:
            r = ex.iter_once(st, self.cond, self.body, self.inc)
        finally:
            ex.dry -= 1
            del ex.obls[so:]
            del ex.thrown[sth:]
        return r

    def havoc(self, mods):
        ex = self.ex
        s = self.st0.copy()
        s.writes = None
        for (root, path) in mods:
            loc = Loc(root, tuple(('f', p) for p in path))
            v = ex.read(s, loc)
            cons = []
            s.store[root] = ex.wr(s.store[root], list(loc.path), self.hv(v, root.split('#')[0], cons, (root, path)))
            s.pc += cons
        return s

    def hv(self, v, name, cons, key):
        ex = self.ex
        if isinstance(v, Undef):
            return v
        if isinstance(v, CP):
            if key in self.unstable:
                return ex.havoc_value(v, name, cons)
            return CP(v.base, z3.Int('%s!%d' % (name, ex.bump())), v.null)
        if isinstance(v, Ptr):
            if key in self.unstable:
                raise Unsupported('pointer variable re-targeted in a loop')
            return v
        if isinstance(v, Rec):
            return Rec({k: self.hv(x, name + '.' + k, cons, (key[0], key[1] + (k,))) for k, x in v.f.items()}, v.sh)
        return ex.havoc_value(v, name, cons)

    def minimal(self, w):
        w = {x for x in w if x[0] in self.st0.store}
        return sorted(x for x in w if not any(y != x and y[0] == x[0] and x[1][:len(y[1])] == y[1] for y in w))

    def find_mods(self):
        mods = []
        for _ in range(8):
            s = self.havoc(mods)
            W = set()
            s.writes = W
            exits, ends, others = self.dry(s)
            new = self.minimal(W | set(mods))
            again = new != mods
            # pointer stability
            for e in exits + ends + [o[0] for o in others]:
                for (root, path) in new:
                    loc = Loc(root, tuple(('f', p) for p in path))
                    for nm, l, v in leaves(self.ex.read(e, loc), loc, ''):
                        v0 = self.ex.read(s, l) if root in s.store else None
                        key = (root, tuple(p[1] for p in l.path))
                        if isinstance(v, CP) and isinstance(v0, CP) and key not in self.unstable and not (z3.eq(v.base, v0.base) and z3.eq(v.null, v0.null)):
                            self.unstable.add(key)
                            again = True
                        if isinstance(v, Ptr) and isinstance(v0, Ptr) and repr(v.loc) != repr(v0.loc):
                            self.unstable.add(key)
                            again = True
                        if isinstance(v, It) and isinstance(v0, It) and repr(v.loc) != repr(v0.loc):
                            raise Unsupported('iterator re-targeted in a loop')
            mods = new
            if not again:
                return mods
        raise Unsupported('modified set did not stabilise')

    # ---- candidates
    def scope(self):
        """all leaves reachable from the environment: name, loc, value (at loop entry)"""
        ex, st = self.ex, self.st0
        out, seen = [], set()
        locs = []
        for k, l in st.env.items():
            if isinstance(l, Loc) and not isinstance(l, (ValLoc, CondLoc)) and l.root in st.store:
                locs.append(l)
        fr = getattr(ex, 'frame', None)
        if fr:
            locs += [l for l in [fr[1]] + list(fr[2]) if isinstance(l, Loc) and not isinstance(l, (ValLoc, CondLoc)) and l.root in st.store]
        for r in st.store:
            if r.startswith('g:') or r.startswith('ghost:'):
                locs.append(Loc(r))
        for l in locs:
            try:
                v = ex.read(st, l)
            except Unsupported:
                continue
            for nm, l2, v2 in leaves(v, l, l.root.split('#')[0]):
                if repr(l2) in seen:
                    continue
                seen.add(repr(l2))
                out.append((nm, l2, v2))
                if isinstance(v2, It):   # container behind an iterator
                    try:
                        v3 = ex.read(st, v2.loc)
                        if repr(v2.loc) not in seen and isinstance(v3, T):
                            seen.add(repr(v2.loc))
                            out.append((nm + '.container', v2.loc, v3))
                    except Unsupported:
                        pass
        return out

    def is_mod(self, loc, mods):
        fp = tuple(p[1] for p in itertools.takewhile(lambda p: p[0] == 'f', loc.path))
        for (root, path) in mods:
            if root == loc.root and (fp[:len(path)] == path or path[:len(fp)] == fp):
                return True
        return False

    def candidates(self, mods):
        ex = self.ex
        sc = self.scope()
        mod, con = [], []
        for nm, l, v in sc:
            (mod if self.is_mod(l, mods) else con).append((nm, l, v))
        # modified leaves not reachable via env (inlined callers etc.)
        have = {repr(l) for _, l, _ in mod}
        for (root, path) in mods:
            loc = Loc(root, tuple(('f', p) for p in path))
            for nm, l, v in leaves(ex.read(self.st0, loc), loc, root.split('#')[0]):
                if repr(l) not in have:
                    have.add(repr(l))
                    mod.append((nm, l, v))
        self.mod, self.con = mod, con
        C = []
        mv = [(nm, View(nm, l, None), view_term(ex, v), v) for nm, l, v in mod if view_term(ex, v) is not None]
        cv = [(nm, view_term(ex, v), v) for nm, l, v in con if view_term(ex, v) is not None]

        def add(name, fn):
            C.append((name, fn))
        if not ex.bv:
            # terms for constants: dedupe
            cts = {}
            for nm, t, v in cv:
                t = z3.simplify(t)
                cts.setdefault(str(t), (nm, t, v))
            cts.pop('0', None)
            for nm, vw, t0, v0 in mv:
                g = vw.get
                isseq = isinstance(v0, T) and v0.sh.kind == 'seq'
                add('%s >= %s@entry' % (nm, nm), lambda s, g=g, t0=t0: g(ex, s) >= t0)
                add('%s <= %s@entry' % (nm, nm), lambda s, g=g, t0=t0: g(ex, s) <= t0)
                if not isseq:
                    add('%s >= 0' % nm, lambda s, g=g: g(ex, s) >= 0)
                    if isinstance(v0, T) and v0.sh.kind == 'int' and v0.sh.signed:
                        add('%s >= -1' % nm, lambda s, g=g: g(ex, s) >= -1)
                    if isinstance(v0, It):
                        cl = v0.loc
                        lv = View('len', cl, None)
                        if self.is_mod(cl, mods):
                            add('%s <= end' % nm, lambda s, g=g, lv=lv: g(ex, s) <= lv.get(ex, s))
                    if isinstance(v0, CP) and z3.is_expr(v0.base):
                        b = CS.mklen(v0.base)
                        add('%s <= len' % nm, lambda s, g=g, b=b: g(ex, s) <= b)
                for k, (un, ut, uv) in list(cts.items())[:14]:
                    add('%s <= %s' % (nm, un), lambda s, g=g, ut=ut: g(ex, s) <= ut)
                    add('%s >= %s' % (nm, un), lambda s, g=g, ut=ut: g(ex, s) >= ut)
                    if isinstance(v0, T) and not isseq and v0.sh.kind == 'int' and v0.sh.bits == 64 and not v0.sh.signed:
                        add('%s <= %s or npos' % (nm, un), lambda s, g=g, ut=ut: z3.Or(g(ex, s) <= ut, g(ex, s) == NPOS))
            for (n1, v1, a0, x1), (n2, v2, b0, x2) in itertools.combinations(mv, 2):
                g1, g2 = v1.get, v2.get
                add('%s <= %s' % (n1, n2), lambda s, g1=g1, g2=g2: g1(ex, s) <= g2(ex, s))
                add('%s >= %s' % (n1, n2), lambda s, g1=g1, g2=g2: g1(ex, s) >= g2(ex, s))
                add('%s and %s advance together' % (n1, n2), lambda s, g1=g1, g2=g2, a0=a0, b0=b0: g1(ex, s) - a0 == g2(ex, s) - b0)
                add('%s and %s advance oppositely' % (n1, n2), lambda s, g1=g1, g2=g2, a0=a0, b0=b0: g1(ex, s) - a0 == b0 - g2(ex, s))
        ct = ex.ct
        if ct is not None:
            for tpl in ct.inv:
                C += self.instantiate(tpl, True)
        return C

    def instantiate(self, tpl, boolean):
        ex = self.ex
        roles, expr = split_template(tpl)
        try:
            tree = pyast.parse('(' + expr + ')', mode='eval').body
        except SyntaxError as e:
            raise SpecError('template %s: %s' % (tpl, e))
        pools = []
        for nm, kind, const in roles:
            octr = kind.startswith('o.')      # constant here, but modified by an enclosing loop
            k2 = kind[2:] if octr else kind
            pool = [(n, l, v) for n, l, v in (self.con if const or octr else self.mod) if not isinstance(v, Undef) and ROLE_OK[k2](v) and (not octr or self.is_mod(l, self.outer)) and (k2 != 'lstr' or not l.path)]
            if const or octr:     # equal constants need one representative only
                seen, p2 = set(), []
                for n, l, v in pool:
                    key = v.t.get_id() if isinstance(v, T) else repr(l)
                    if key not in seen:
                        seen.add(key)
                        p2.append((n, l, v))
                pool = p2
            if kind == 'rec':
                pool = self.recs(const)
            pools.append(pool)
        out = []
        ent0 = {k + '0': v for k, v in self.base_env(self.st0).items()}
        for combo in itertools.islice(itertools.product(*pools), 400):
            keys = [repr(c[1]) for c in combo]
            if len(set(keys)) != len(keys):
                continue
            ent = dict(ent0)
            for (nm, kind, const), (n, l, v) in zip(roles, combo):
                ent[nm + '0'] = self.role_val(kind, v)

            def fn(s, combo=combo, ent=ent):
                env = self.base_env(s)
                env.update(ent)
                for (nm, kind, const), (n, l, v) in zip(roles, combo):
                    env[nm] = self.role_val(kind, ex.read(s, l))
                e = SpecEval(ex.w.spec, env, ex.spec_env0)
                return e.bool(tree) if boolean else e.term(tree)
            label = '%s [%s]' % (expr, ', '.join('%s=%s' % (r[0], c[0]) for r, c in zip(roles, combo)))
            out.append((label, fn))
        return out

    def recs(self, const):
        """whole record variables"""
        out, seen = [], set()
        for n, l, v in (self.con if const else self.mod):
            if l.path and l.root not in seen:
                seen.add(l.root)
                b = Loc(l.root, ())
                try:
                    v = self.ex.read(self.st0, b)
                except Unsupported:
                    continue
                if isinstance(v, Rec):
                    out.append((n.split('.')[0], b, v))
        return out

    def role_val(self, kind, v):
        if kind in ('pos', 'o.pos') and isinstance(v, (It, CP)):
            return T(v.off, TInt(64, True))
        return v

    def base_env(self, s):
        ex = self.ex
        fr = getattr(ex, 'frame', None)
        if fr is None:
            return {}
        d, thisloc, arglocs = fr
        return ex.spec_env(s, ex.ct, d, thisloc, arglocs)

    def safe(self, fn, s):
        try:
            r = fn(s)
            return r
        except (SpecError, Unsupported, z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError):
            return None

    # ---- main
    def run(self):
        ex, st = self.ex, self.st0
        ex.chk_time()
        outerW = st.writes
        st.writes = None
        mods = self.find_mods()
        if outerW is not None:
            outerW |= set(mods)
        self.outer = [m for ms in ex.loopmods for m in ms]
        ex.loopmods.append(mods)
        try:
            return self.run2(mods, outerW)
        finally:
            ex.loopmods.pop()

    def run2(self, mods, outerW):
        ex = self.ex
        inv = []
        if ex.dry == 0:
            inv = self.houdini(mods)
        elif ex.dry > 0 and getattr(ex, 'dry_inv', 0) > 0:
            inv = self.houdini(mods)
        h = self.havoc(mods)
        h.writes = outerW
        for name, fn in inv:
            h.pc.append(fn(h))
        hpc = list(h.pc)
        start = h.copy()
        exits, ends, others = ex.iter_once(h, self.cond, self.body, self.inc)
        if ex.dry == 0 and 'no-termination' not in (ex.ct.note if ex.ct else ''):
            self.termination(start, ends, mods)
        if ex.dry == 0:
            ex.loopctr += 1
            ex.loop_report.append({'line': line(self.node), 'function': ex.curfn[-1] if ex.curfn else '', 'invariants': [n for n, _ in inv], 'obligations': self.nobl})
        out = [(s, 'fall', None) for s in exits]
        for s, kind, v in others:
            out.append((s, 'fall' if kind == 'break' else kind, v))
        return out

    nobl = 0

    def houdini(self, mods):
        ex, st = self.ex, self.st0
        C = self.candidates(mods)
        # drop those that do not evaluate, and those not established on entry
        live = []
        goals = []
        for name, fn in C:
            g = self.safe(fn, st)
            if g is None:
                continue
            live.append((name, fn))
            goals.append(g)
        b = Batch(st.pc, ex.extra, goals)
        keep = [b.check(g, 600) or (c[0].endswith(']') and prove(st.pc, g, ex.extra, 1500)[0] == 'proved') for c, g in zip(live, goals)]
        if DEBUG:
            for c, k in zip(live, keep):
                if not k and '[' in c[0]:
                    print('ENTRY line', line(self.node), c[0], flush=True)
        live = [c for c, k in zip(live, keep) if k]
        nent = len(live)
        for rnd in range(12):
            ex.chk_time()
            h = self.havoc(mods)
            ok = []
            for name, fn in live:
                g = self.safe(fn, h)
                if g is None:
                    continue
                h.pc.append(g)
                ok.append((name, fn))
            live = ok
            ex.dry_inv = getattr(ex, 'dry_inv', 0) + 1
            try:
                exits, ends, others = self.dry(h)
            finally:
                ex.dry_inv -= 1
            drop = set()
            for e in ends:
                gs = []
                idx = []
                for i, (name, fn) in enumerate(live):
                    if i in drop:
                        continue
                    g = self.safe(fn, e)
                    if g is None:
                        drop.add(i)
                        continue
                    gs.append(g)
                    idx.append(i)
                b = Batch(e.pc, ex.extra, gs)
                if not b.feasible(200):
                    continue
                for i, g in zip(idx, gs):
                    if not (b.check(g, 400) or prove(e.pc, g, ex.extra, 2500)[0] == 'proved' if live[i][0].endswith(']') else b.check(g, 2500)):
                        drop.add(i)
                        if DEBUG and '[' in live[i][0]:
                            print('DROP line', line(self.node), 'round', rnd, live[i][0], e.notes[-6:], flush=True)
                ex.chk_time()
            if not drop:
                self.nobl = nent + len(live) * max(1, len(ends))
                return self.prune(live, mods)
            live = [c for i, c in enumerate(live) if i not in drop]
        raise Unsupported('invariant inference did not converge')

    def prune(self, live, mods):
        """the set is inductive as a whole; keep all of it (dropping members could break inductiveness)"""
        return live

    def termination(self, start, ends, mods):
        ex = self.ex
        M = []
        mv = [(nm, View(nm, l, None)) for nm, l, v in self.mod if view_term(ex, v) is not None]
        cts = {}
        for nm, l, v in self.con:
            t = view_term(ex, v)
            if t is not None:
                cts.setdefault(str(z3.simplify(t)), (nm, t))
        for tpl in (ex.ct.dec if ex.ct is not None else []):
            M += self.instantiate(tpl, False)
        for nm, vw in mv:
            M.append((nm, lambda s, vw=vw: vw.get(ex, s)))
            for un, ut in cts.values():
                M.append(('%s - %s' % (un, nm), lambda s, vw=vw, ut=ut: ut - vw.get(ex, s)))
            v0 = ex.read(self.st0, vw.loc)
            if isinstance(v0, CP):
                M.append(('len - %s' % nm, lambda s, vw=vw, v0=v0: CS.mklen(v0.base) - vw.get(ex, s)))
            for n2, v2 in mv:
                if n2 != nm:
                    M.append(('%s - %s' % (n2, nm), lambda s, vw=vw, v2=v2: v2.get(ex, s) - vw.get(ex, s)))
        live = [e for e in ends]
        if not live:
            return
        batches = None
        for name, fn in M:
            m0 = self.safe(fn, start)
            if m0 is None:
                continue
            ok = True
            goals = []
            for e in live:
                m1 = self.safe(fn, e)
                if m1 is None:
                    ok = False
                    break
                goals.append(z3.And(m0 >= 0, m1 < m0))
            if not ok:
                continue
            if batches is None:
                batches = [Batch(e.pc, ex.extra, [g]) for e, g in zip(live, goals)]
            if all(b.check(g, 1000) or (name.endswith(']') and prove(e.pc, g, ex.extra, 1500)[0] == 'proved') for b, e, g in zip(batches, live, goals)):
                for e, g in zip(live, goals):
                    ex.oblige(e, g, 'loop measure %s decreases and is bounded below' % name, 'termination', self.node)
                return
        for e in live:
            ex.oblige(e.copy(), z3.BoolVal(False), 'loop terminates (no decreasing measure found)', 'termination', self.node)
            break


def line(n):
    from .cast import line_of
    return line_of(n)
