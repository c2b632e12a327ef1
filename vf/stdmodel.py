"""Assumed contracts on the C++ standard library and libc (part of the trusted base)."""
import z3, re
from fractions import Fraction as Q
from .types import *
from .values import *
from . import logic
from .logic import CS, NPOS, MAXLEN

U64 = TInt(64, False)


def charset(x, st, r):
    v = x.rv(st, r)
    if isinstance(v, CP):
        return logic.cstr_of(v.base, v.off)
    if v.sh.kind == 'seq':
        if v.sh.cont == 'lit':
            return logic.cstr_of(v.t, z3.IntVal(0))
        return v.t
    if v.sh.kind == 'int':
        if z3.is_int_value(v.t):
            return CS.lit([v.t])
        return CS.unit(v.t)
    raise Unsupported('charset')


def outtext(x, st, v):
    """what << writes: text verbatim, numbers by uninterpreted functions (default stream format)"""
    if isinstance(v, tuple) and v[0] == 'fn':
        if v[2] == 'endl':
            return logic.strlit('\n')
        if v[2] == 'flush':
            return logic.strlit('')
        raise Unsupported('stream manipulator ' + v[2])
    sh = getattr(v, 'sh', None)
    if isinstance(v, T) and sh.kind == 'float':
        return z3.Function('numtxt', z3.RealSort(), CS.S)(v.t)
    if isinstance(v, T) and sh.kind == 'int' and sh.bits > 8:
        return z3.Function('inttxt', I, CS.S)(v.t)
    return strval(x, st, v)


def strval(x, st, r):
    """sequence denoted by a string-ish argument (std::string, C string, char)"""
    return charset(x, st, r)


def fresh_int(x, st, name, defn):
    t = z3.Int('%s!%d' % (name, x.bump()))
    st.pc.append(t == defn)
    return t


def may_throw(x, st, cond, what):
    """fork an exceptional path; returns False when the normal path is infeasible"""
    c = z3.simplify(cond)
    if z3.is_false(c):
        return True
    if x.feasible(st, c):
        s2 = st.copy()
        s2.pc.append(c)
        x.throw(s2, what)
    st.pc.append(z3.Not(c))
    return x.feasible(st, z3.BoolVal(True))


def elem(x, st, v, sh):
    return x.sorts.reify(x.coerce(x.rv(st, v), sh), sh)


# ---------------------------------------------------------------- construction
def construct(x, st, sh, ct, rs, n):
    if sh.kind == 'seq':
        return construct_seq(x, st, sh, ct, rs, n)
    if sh.kind == 'iter':
        if len(rs) == 0:
            return [(st, Undef(sh))]
        return [(st, x.rv(st, rs[0]))]
    if sh.kind in ('mapiter',):
        return [(st, x.rv(st, rs[0]))]
    if sh.kind == 'pair':
        if len(rs) == 0:
            return [(st, x.default(sh))]
        if len(rs) == 1:
            v = x.rv(st, rs[0])
            return [(st, v)]
        return [(st, Rec({'first': pairval(x, st, rs[0], sh.a), 'second': pairval(x, st, rs[1], sh.b)}, sh))]
    if sh.kind == 'map':
        if not rs:
            return [(st, x.default(sh))]
        return [(st, x.rv(st, rs[0]))]
    if sh.kind == 'opaque':
        if len(rs) == 1:
            v = x.rv(st, rs[0])
            if getattr(v, 'sh', None) == sh or (isinstance(v, Clo) and not ('function<' in sh.name and getattr(x.w, 'lambda_functions', False))) or (isinstance(v, tuple) and v[0] == 'setw'):
                return [(st, v)]
        if len(rs) == 0:
            return [(st, x.default(sh))]
        if isinstance(x.rv(st, rs[0]), Clo):
            v = x.rv(st, rs[0])
            return [(st, clo_to_fn(x, st, v, sh) if getattr(x.w, 'lambda_functions', False) and 'function<' in sh.name else v)]
    if sh.kind == 'tuple' and not isinstance(sh, THeap) and len(rs) == 1:
        v = x.rv(st, rs[0])
        if isinstance(v, Rec) and v.sh.kind == 'tuple' and len(v.f) == len(sh.el):
            if '&&' in ct and isinstance(rs[0], Loc) and not isinstance(rs[0], (ValLoc, CondLoc)) and is_std_move(n):
                cons = []
                x.write(st, rs[0], x.sorts.fresh(v.sh, 'moved', cons))
                st.pc += cons
            return [(st, v)]
    if isinstance(sh, THeap):
        if not rs or isinstance(x.rv(st, rs[0]), Ptr):
            return [(st, x.default(sh))]
        v = x.rv(st, rs[0])
        if isinstance(rs[0], Loc) and not isinstance(rs[0], ValLoc):
            x.write(st, rs[0], x.default(sh))       # moved from: owns nothing
        return [(st, v)]
    if sh.kind == 'uniq' and len(rs) <= 1:
        v = x.rv(st, rs[0]) if rs else None
        if isinstance(v, tuple) and v[0] == 'new':
            return [(st, made(x.w, sh, v[1].key(), v[2]))]
        if v is None or isinstance(v, Ptr):
            return [(st, x.sorts.reflect(nouniq(x.w, sh), sh))]
        return [(st, v)]
    raise Unsupported('construct %s from %s' % (sh, ct))


def pairval(x, st, r, sh):
    v = x.rv(st, r)
    if sh.kind == 'seq' and isinstance(v, CP):
        return T(logic.cstr_of(v.base, v.off), sh)
    if sh.kind == 'seq' and isinstance(v, T) and v.sh.cont == 'lit':
        return T(v.t, sh)
    return x.coerce(v, sh)


def construct_seq(x, st, sh, ct, rs, n):
    th = x.sorts.th(sh)
    if len(rs) == 0:
        return [(st, x.default(sh) if sh.n else T(th.empty, sh))]
    v0 = x.rv(st, rs[0])
    isstr = sh.cont == 'string'
    if len(rs) == 1:
        if isinstance(v0, CP):
            x.oblige(st, z3.Not(v0.null), 'string constructed from a non-null pointer', 'null', n)
            x.oblige(st, z3.And(v0.off >= 0, v0.off <= CS.mklen(v0.base)), 'C string pointer is within its buffer', 'bounds', n)
            return [(st, T(logic.cstr_of(v0.base, v0.off), sh))]
        if v0.sh.kind == 'seq':
            if '&&' in ct and isinstance(rs[0], Loc) and not isinstance(rs[0], (ValLoc, CondLoc)) and is_std_move(n):
                cons = []
                x.write(st, rs[0], x.sorts.fresh(v0.sh, 'moved', cons))
                st.pc += cons
            return [(st, T(v0.t, sh))]
        if v0.sh.kind == 'int':   # vector( n )
            x.oblige(st, v0.t <= MAXLEN, 'container size does not exceed max_size', 'alloc', n)
            d = x.sorts.reify(x.default(sh.elem), sh.elem)
            return [(st, T(th.rep(v0.t, d), sh))]
    if len(rs) == 2:
        v1 = x.rv(st, rs[1])
        if isinstance(v0, CP) and isinstance(v1, T):      # string( ptr, n )
            n1 = v1.t
            x.oblige(st, z3.And(z3.Not(v0.null), n1 >= 0, v0.off >= 0, v0.off + n1 <= CS.mklen(v0.base) + 1), 'string( ptr, n ) reads within the buffer', 'bounds', n)
            x.oblige(st, v0.off + n1 <= CS.mklen(v0.base), 'string( ptr, n ) does not include the terminator', 'bounds', n)
            return [(st, T(CS.mksub(v0.base, v0.off, v0.off + n1), sh))]
        if isinstance(v0, CP) and isinstance(v1, CP):     # string( p, q )
            x.oblige(st, z3.And(v0.base == v1.base, v0.off >= 0, v0.off <= v1.off, v1.off <= CS.mklen(v0.base)), 'string( first, last ) is a valid range', 'bounds', n)
            return [(st, T(CS.mksub(v0.base, v0.off, v1.off), sh))]
        if isinstance(v0, It) and isinstance(v1, It):
            sv = x.read(st, v0.loc)
            x.oblige(st, z3.And(v0.off >= 0, v0.off <= v1.off, v1.off <= th.mklen(sv.t)), 'iterator range is valid', 'bounds', n)
            return [(st, T(th.mksub(sv.t, v0.off, v1.off), sh))]
        if isinstance(v0, T) and v0.sh.kind == 'int':     # ( n, value )
            x.oblige(st, z3.And(v0.t >= 0, v0.t <= MAXLEN), 'container size does not exceed max_size', 'alloc', n)
            e = elem(x, st, v1, sh.elem)
            if z3.is_int_value(v0.t) and 0 <= v0.t.as_long() <= 4:
                t = th.empty
                for _ in range(v0.t.as_long()):
                    t = th.mkcat(t, th.unit(e))
                return [(st, T(t, sh))]
            return [(st, T(th.rep(v0.t, e), sh))]
        if isinstance(v0, T) and v0.sh.kind == 'seq' and v1.sh.kind == 'int':   # string( s, pos )
            return m_substr(x, st, T(v0.t, sh), [v1], n)
    if len(rs) == 3 and isinstance(v0, T) and v0.sh.kind == 'seq':
        return m_substr(x, st, T(v0.t, sh), [x.rv(st, rs[1]), x.rv(st, rs[2])], n)
    raise Unsupported('container constructor ' + ct)


def is_std_move(n):
    """argument is an explicit std::move( lvalue )"""
    def look(m):
        if not m:
            return False
        if m.get('kind') == 'CallExpr':
            c = m['inner'][0]
            while c.get('kind') == 'ImplicitCastExpr':
                c = c['inner'][0]
            return c.get('referencedDecl', {}).get('name') == 'move'
        if m.get('kind') in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ParenExpr'):
            return look(m['inner'][0])
        return False
    return any(look(c) for c in n.get('inner', []))


def m_substr(x, st, v, a, n):
    L = CS.mklen(v.t)
    pos = a[0].t if a else z3.IntVal(0)
    if not may_throw(x, st, pos > L, 'substr: position out of range'):
        return []
    if len(a) < 2:
        return [(st, T(CS.mksub(v.t, pos, L), v.sh))]
    cnt = a[1].t
    if z3.is_int_value(cnt) and cnt.as_long() == NPOS:
        return [(st, T(CS.mksub(v.t, pos, L), v.sh))]
    e = z3.simplify(z3.If(cnt >= L - pos, L, pos + cnt))
    if not (z3.is_int_value(e) or z3.is_const(e)):
        if x.valid(st, cnt >= L - pos, 300):
            e = L
        elif x.valid(st, cnt <= L - pos, 300):
            e = z3.simplify(pos + cnt)
        else:
            e = fresh_int(x, st, 'send', e)
    return [(st, T(CS.mksub(v.t, pos, e), v.sh))]


# ---------------------------------------------------------------- methods
def method(x, st, b, name, rs, n, me):
    if isinstance(b, Ptr):
        b = x.this_loc(st, b, n)
    v = x.rv(st, b) if isinstance(b, Loc) else b
    x.models.add('%s::%s' % (getattr(v, 'sh', '?'), name))
    if isinstance(v, T) and v.sh.kind == 'seq':
        r = seq_method(x, st, b, v, name, rs, n)
        if r is not None:
            return r
    if isinstance(v, MapV):
        return map_method(x, st, b, v, name, rs, n)
    if isinstance(getattr(v, 'sh', None), THeap) and name == 'get':
        l = b if isinstance(b, Loc) and not isinstance(b, ValLoc) else x.alloc(st, v, 'tmp')
        return [(st, It(l.f('v'), z3.IntVal(0)))]
    if isinstance(v, Rec) and v.sh.kind == 'rec' and '$base' in v.f:
        return method(x, st, b.f('$base'), name, rs, n, me)
    raise Unsupported('method %s on %s' % (name, getattr(v, 'sh', type(v).__name__)))


def idx_result(x, st, r, s, found, nm):
    """code-level result of a find: index or npos"""
    f = z3.simplify(found)
    if x.valid(st, found, 150):
        return [(st, T(r, U64))]
    t = fresh_int(x, st, nm, z3.If(found, r, z3.IntVal(NPOS)))
    return [(st, T(t, U64))]


def seq_method(x, st, b, v, name, rs, n):
    sh = v.sh
    th = x.sorts.th(sh)
    L = th.mklen(v.t)
    s = v.t
    a = [x.rv(st, r) for r in rs]
    isstr = th is CS
    loc = b if isinstance(b, Loc) else None

    def setv(t):
        if loc is None or isinstance(loc, ValLoc):
            raise Unsupported('mutation of a temporary')
        x.write(st, loc, T(t, sh))

    if name in ('size', 'length') and not a:
        return [(st, T(L, U64))]
    if name == 'empty':
        return [(st, T(z3.simplify(L == 0), TBool()))]
    if name in ('c_str', 'data') and isstr and sh.elem == CHAR:
        return [(st, CP(s, z3.IntVal(0)))]
    if name == 'str' and sh.cont == 'sstream' and not a:
        return [(st, T(s, STR))]
    if name == 'data':
        return [(st, It(loc, z3.IntVal(0)))]
    if name in ('begin', 'cbegin'):
        l = loc if loc is not None and not isinstance(loc, ValLoc) else x.alloc(st, v, 'tmp')
        return [(st, It(l, z3.IntVal(0)))]
    if name in ('end', 'cend'):
        l = loc if loc is not None and not isinstance(loc, ValLoc) else x.alloc(st, v, 'tmp')
        return [(st, It(l, L))]
    if name in ('front', 'back'):
        x.oblige(st, L > 0, '%s() on a non-empty container' % name, 'bounds', n)
        i = z3.IntVal(0) if name == 'front' else z3.simplify(L - 1)
        if loc is None or isinstance(loc, ValLoc):
            return [(st, ValLoc(x.sorts.reflect(th.at(s, i), sh.elem)))]
        return [(st, loc.i(i))]
    if name == 'at':
        i = a[0].t
        if not may_throw(x, st, i >= L, 'at: index out of range'):
            return []
        if isinstance(loc, ValLoc):
            return [(st, ValLoc(x.sorts.reflect(th.at(s, i), sh.elem)))]
        return [(st, loc.i(i))]
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and sh.elem.kind == 'pair' and len(a) == 2:
            e = x.sorts.reify(Rec({'first': pairval(x, st, a[0], sh.elem.a), 'second': pairval(x, st, a[1], sh.elem.b)}, sh.elem), sh.elem)
        elif len(a) == 1:
            e = x.sorts.reify(pairval(x, st, a[0], sh.elem), sh.elem)
        else:
            raise Unsupported('emplace_back')
        setv(th.mkcat(s, th.unit(e)))
        st.pc.append(L + 1 <= MAXLEN)    # allocation beyond max_size throws; out of scope
        return [(st, VoidV())]
    if name == 'pop_back':
        x.oblige(st, L > 0, 'pop_back() on a non-empty container', 'bounds', n)
        setv(th.mksub(s, z3.IntVal(0), L - 1))
        return [(st, VoidV())]
    if name == 'clear':
        setv(th.empty)
        return [(st, VoidV())]
    if name in ('reserve', 'shrink_to_fit'):
        return [(st, VoidV())]
    if name == 'swap':
        o = x.rv(st, rs[0])
        x.write(st, rs[0], T(s, sh))
        setv(o.t)
        return [(st, VoidV())]
    if name == 'resize':
        nn = a[0].t
        x.oblige(st, z3.And(nn >= 0, nn <= MAXLEN), 'container size does not exceed max_size', 'alloc', n)
        e = elem(x, st, a[1], sh.elem) if len(a) > 1 else x.sorts.reify(x.default(sh.elem), sh.elem)
        t = z3.Const('rsz!%d' % x.bump(), th.S)
        k = z3.Int('k')
        st.pc.append(th.len(t) == nn)
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nn), th.at(t, k) == z3.If(k < L, th.at(s, k), e)), patterns=[th.at(t, k)]))
        st.pc.append(z3.Implies(nn <= L, t == th.mksub(s, z3.IntVal(0), nn)))
        setv(t)
        return [(st, VoidV())]
    if name == 'assign':
        if len(a) == 2 and isinstance(a[0], T) and a[0].sh.kind == 'int':
            x.oblige(st, z3.And(a[0].t >= 0, a[0].t <= MAXLEN), 'container size does not exceed max_size', 'alloc', n)
            setv(th.rep(a[0].t, elem(x, st, a[1], sh.elem)))
            return [(st, VoidV())]
        if len(a) == 1 and a[0].sh.kind in ('seq', 'cstr'):
            setv(strval(x, st, a[0]) if isstr else a[0].t)
            return [(st, loc)]
        if len(a) == 2 and isinstance(a[0], It):
            sv = x.read(st, a[0].loc)
            x.oblige(st, z3.And(a[0].off >= 0, a[0].off <= a[1].off, a[1].off <= th.mklen(sv.t)), 'iterator range is valid', 'bounds', n)
            setv(th.mksub(sv.t, a[0].off, a[1].off))
            return [(st, VoidV())]
        raise Unsupported('assign')
    if name == 'erase':
        if a and isinstance(a[0], It):
            i = a[0].off
            if len(a) == 1:
                x.oblige(st, z3.And(i >= 0, i < L), 'erased iterator is dereferenceable', 'bounds', n)
                j = z3.simplify(i + 1)
            else:
                j = a[1].off
                x.oblige(st, z3.And(i >= 0, i <= j, j <= L), 'erased range is valid', 'bounds', n)
            setv(th.mkcat(th.mksub(s, z3.IntVal(0), i), th.mksub(s, j, L)))
            return [(st, It(loc, i))]
        pos = a[0].t if a else z3.IntVal(0)
        if not may_throw(x, st, pos > L, 'erase: position out of range'):
            return []
        if len(a) < 2 or (z3.is_int_value(a[1].t) and a[1].t.as_long() == NPOS):
            setv(th.mksub(s, z3.IntVal(0), pos))
        else:
            e = fresh_int(x, st, 'eend', z3.If(a[1].t >= L - pos, L, pos + a[1].t))
            setv(th.mkcat(th.mksub(s, z3.IntVal(0), pos), th.mksub(s, e, L)))
        return [(st, loc)]
    if name == 'insert' and a and isinstance(a[0], It):
        i = a[0].off
        x.oblige(st, z3.And(i >= 0, i <= L), 'insert position is within [begin,end]', 'bounds', n)
        if len(a) == 2:
            e = th.unit(elem(x, st, a[1], sh.elem))
        elif len(a) == 3 and isinstance(a[1], It):
            sv = x.read(st, a[1].loc)
            x.oblige(st, z3.And(a[1].off >= 0, a[1].off <= a[2].off, a[2].off <= th.mklen(sv.t)), 'iterator range is valid', 'bounds', n)
            e = th.mksub(sv.t, a[1].off, a[2].off)
        else:
            raise Unsupported('insert')
        setv(th.mkcat(th.mkcat(th.mksub(s, z3.IntVal(0), i), e), th.mksub(s, i, L)))
        st.pc.append(th.len(x.read(st, loc).t) <= MAXLEN)
        return [(st, It(loc, i))]
    if not (isstr and sh.elem == CHAR):
        return None
    # ---- string only
    if name == 'substr':
        return m_substr(x, st, v, a, n)
    if name in ('find_first_of', 'find_first_not_of') or (name == 'find' and isinstance(a[0], T) and a[0].sh.kind == 'int'):
        fn = logic.fno if name == 'find_first_not_of' else logic.ffo
        S = charset3(x, st, a)
        p = a[1].t if len(a) > 1 else z3.IntVal(0)
        r = fn(s, S, p)
        return idx_result(x, st, r, s, r < L, 'pos')
    if name in ('find_last_of', 'find_last_not_of') or (name == 'rfind' and isinstance(a[0], T) and a[0].sh.kind == 'int'):
        fn = logic.fln if name == 'find_last_not_of' else logic.flo
        S = charset3(x, st, a)
        p = a[1].t if len(a) > 1 else L - 1
        if z3.is_int_value(p) and p.as_long() == NPOS:
            p = L - 1
        r = fn(s, S, z3.simplify(p))
        return idx_result(x, st, r, s, r >= 0, 'pos')
    if name == 'find':
        S = strval(x, st, a[0])
        p = a[1].t if len(a) > 1 else z3.IntVal(0)
        r = logic.fsub(s, S, p)
        x.w.spec  # keep
        # reaching definitions for the trigger-based axioms
        st.pc.append(logic.matchat(s, S, r) == (r >= 0))
        return idx_result(x, st, r, s, r >= 0, 'pos')
    if name == 'rfind':
        S = strval(x, st, a[0])
        p = a[1].t if len(a) > 1 else L
        if z3.is_int_value(p) and p.as_long() == NPOS:
            p = L
        r = logic.rsub(s, S, p)
        return idx_result(x, st, r, s, r >= 0, 'pos')
    if name == 'append':
        if len(a) == 1:
            setv(CS.mkcat(s, strval(x, st, a[0])))
        elif len(a) == 2 and isinstance(a[0], T) and a[0].sh.kind == 'int':
            setv(CS.mkcat(s, CS.rep(a[0].t, a[1].t)))
        elif len(a) == 2 and isinstance(a[0], CP) and isinstance(a[1], T):
            x.oblige(st, z3.And(a[0].off >= 0, a[0].off + a[1].t <= CS.mklen(a[0].base)), 'append( ptr, n ) reads within the buffer', 'bounds', n)
            setv(CS.mkcat(s, CS.mksub(a[0].base, a[0].off, a[0].off + a[1].t)))
        elif len(a) == 2 and isinstance(a[0], It):
            sv = x.read(st, a[0].loc)
            x.oblige(st, z3.And(a[0].off >= 0, a[0].off <= a[1].off, a[1].off <= th.mklen(sv.t)), 'iterator range is valid', 'bounds', n)
            setv(CS.mkcat(s, CS.mksub(sv.t, a[0].off, a[1].off)))
        elif len(a) in (2, 3) and isinstance(a[0], T) and a[0].sh.kind == 'seq':
            out = []
            for s2, sv in m_substr(x, st, a[0], a[1:], n):
                x.write(s2, loc, T(CS.mkcat(s, sv.t), sh))
                out.append((s2, loc))
            return out
        else:
            raise Unsupported('append')
        st.pc.append(CS.len(x.read(st, loc).t) <= MAXLEN)
        return [(st, loc)]
    if name == 'compare':
        if len(a) == 1:
            S = strval(x, st, a[0])
            r = z3.Int('cmp!%d' % x.bump())
            st.pc.append((r == 0) == (s == S))
            # both directions usable: equality is extensional
            d = CS.skd(s, S)
            st.pc.append(z3.Or(r == 0, CS.mklen(s) != CS.mklen(S), z3.And(0 <= d, d < CS.mklen(s), CS.at(s, d) != CS.at(S, d))))
            return [(st, T(r, TInt(32, True)))]
        if len(a) == 3:
            out = []
            S = strval(x, st, a[2])
            for s2, sv in m_substr(x, st, v, a[:2], n):
                r = z3.Int('cmp!%d' % x.bump())
                s2.pc.append((r == 0) == (sv.t == S))
                d = CS.skd(sv.t, S)
                s2.pc.append(z3.Or(r == 0, CS.mklen(sv.t) != CS.mklen(S), z3.And(0 <= d, d < CS.mklen(sv.t), CS.at(sv.t, d) != CS.at(S, d))))
                out.append((s2, T(r, TInt(32, True))))
            return out
    if name == 'insert' and isinstance(a[0], T) and len(a) == 2:
        pos = a[0].t
        if not may_throw(x, st, pos > L, 'insert: position out of range'):
            return []
        setv(CS.mkcat(CS.mkcat(CS.mksub(s, z3.IntVal(0), pos), strval(x, st, a[1])), CS.mksub(s, pos, L)))
        return [(st, loc)]
    return None


def charset3(x, st, a):
    S = charset(x, st, a[0])
    if len(a) == 3 and isinstance(a[0], CP):
        return CS.mksub(a[0].base, a[0].off, a[0].off + a[2].t)
    return S


def map_method(x, st, b, v, name, rs, n):
    sh = v.sh
    so = x.sorts
    key = (lambda r: so.reify(pairval(x, st, r, sh.k), sh.k))
    if name == 'find':
        k = key(rs[0])
        return [(st, MIt(b, k, z3.Not(z3.Select(v.dom, k))))]
    if name in ('end', 'cend'):
        return [(st, MIt(b, so.fresh_term(sh.k, 'nokey'), z3.BoolVal(True)))]
    if name == 'count':
        return [(st, T(z3.If(z3.Select(v.dom, key(rs[0])), z3.IntVal(1), z3.IntVal(0)), U64))]
    if name == 'size':
        return [(st, T(v.size, U64))]
    if name == 'empty':
        return [(st, T(v.size == 0, TBool()))]
    if name == 'clear':
        x.write(st, b, x.default(sh))
        return [(st, VoidV())]
    if name == 'at':
        k = key(rs[0])
        if not may_throw(x, st, z3.Not(z3.Select(v.dom, k)), 'map::at: no such key'):
            return []
        return [(st, Loc(b.root, b.path + (('mv', k),)))]
    if name == 'erase':
        r = x.rv(st, rs[0])
        k = r.key if isinstance(r, MIt) else key(rs[0])
        if isinstance(r, MIt):
            x.oblige(st, z3.Not(r.end), 'erased map iterator is dereferenceable', 'bounds', n)
        x.write(st, b, MapV(z3.Store(v.dom, k, z3.BoolVal(False)), v.val, v.size - z3.If(z3.Select(v.dom, k), 1, 0), sh))
        return [(st, T(z3.If(z3.Select(v.dom, k), z3.IntVal(1), z3.IntVal(0)), U64))]
    if name in ('emplace', 'insert', 'try_emplace'):
        if len(rs) == 2:
            k, val = key(rs[0]), so.reify(pairval(x, st, rs[1], sh.v), sh.v)
        else:
            p = x.rv(st, rs[0])
            k, val = so.reify(p.f['first'], sh.k), so.reify(x.coerce(p.f['second'], sh.v), sh.v)
        has = z3.Select(v.dom, k)
        x.write(st, b, MapV(z3.Store(v.dom, k, z3.BoolVal(True)), z3.If(has, v.val, z3.Store(v.val, k, val)), v.size + z3.If(has, 0, 1), sh))
        return [(st, Rec({'first': MIt(b, k, z3.BoolVal(False)), 'second': T(z3.Not(has), TBool())}, TOpaque('pair_it_bool')))]
    if name == 'operator[]':
        return map_index(x, st, b, v, rs[0])
    raise Unsupported('map method ' + name)


def map_index(x, st, b, v, r):
    sh = v.sh
    k = x.sorts.reify(pairval(x, st, r, sh.k), sh.k)
    dv = x.sorts.reify(x.default(sh.v), sh.v)
    has = z3.Select(v.dom, k)
    x.write(st, b, MapV(z3.Store(v.dom, k, z3.BoolVal(True)), z3.If(has, v.val, z3.Store(v.val, k, dv)), v.size + z3.If(has, 0, 1), sh))
    return [(st, Loc(b.root, b.path + (('mv', k),)))]


# ---------------------------------------------------------------- operators
CMP = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}


def nouniq(w, sh):
    return z3.Const('null_' + str(w.sorts.sort(sh)), w.sorts.sort(sh))


def made(w, sh, typ, args):
    """a pointer to an object of a type constructed from arguments (identity of objects is not modelled)"""
    so = w.sorts
    w.assumptions.add('an object is known by its type and the arguments of its constructor; constructors terminate normally')
    ts = [so.reify(v) for v in args]
    fn = z3.Function('made_' + typ + '_' + str(so.sort(sh)), *([t.sort() for t in ts] + [so.sort(sh)])) if ts else None
    return so.reflect(fn(*ts) if ts else z3.Const('made_' + typ + '_' + str(so.sort(sh)), so.sort(sh)), sh)


def clo_to_fn(x, st, clo, sh):
    """a lambda stored in a std::function: an unknown function that gives, for all arguments, what the body of the lambda gives"""
    m = re.match(r'^(?:std::)?function<(.*?)\s*\((.*)\)>$', sh.name)
    if not m or (m.group(2).strip() and any(c in m.group(2) for c in '<(')):
        raise Unsupported('lambda as ' + sh.name)
    so = x.sorts
    cons = []
    args = [so.fresh(x.w.types.parse(t), 'larg', cons) for t in m.group(2).split(',') if t.strip()]
    if not args or any(not isinstance(a, T) or not z3.is_const(a.t) for a in args):
        raise Unsupported('lambda as ' + sh.name)
    f = so.fresh(sh, 'fn', [])
    s = st.copy()
    n0 = len(s.pc)
    s.pc += cons
    res = x.call_closure(s, clo, [ValLoc(a) for a in args])
    if len(res) != 1:
        raise Unsupported('lambda with several paths')
    s2, r = res[0]
    ap = so.reify(apply_fn(x.w, f, args))
    st.pc.append(z3.ForAll([a.t for a in args], z3.Implies(z3.And(cons) if cons else z3.BoolVal(True), z3.And([ap == so.reify(x.rv(s2, r))] + [c for c in s2.pc[n0 + len(cons):]])), patterns=[ap]))
    return f


def apply_fn(w, f, args):
    """call of a std::function: an unknown but pure function of its arguments"""
    m = re.match(r'^(?:std::)?function<(.*?)\s*\((.*)\)>$', f.sh.name)
    if not m:
        raise Unsupported('call of ' + f.sh.name)
    rsh = w.types.parse(m.group(1))
    so = w.sorts
    w.assumptions.add('a callable passed as std::function is total, pure and a function of its arguments only')
    ts = [so.reify(v) for v in args]
    fn = z3.Function('apply_' + str(so.sort(f.sh)), *([so.sort(f.sh)] + [t.sort() for t in ts] + [so.sort(rsh)]))
    return so.reflect(fn(f.t, *ts), rsh)


def operator(x, st, name, rs, n):
    a = [x.rv(st, r) if isinstance(r, Loc) else r for r in rs]
    k0 = a[0].sh.kind if getattr(a[0], 'sh', None) is not None else None
    if name in CMP:
        return [(st, compare(x, st, CMP[name], a[0], a[1], n))]
    if isinstance(a[0], (It, CP)) or (len(a) > 1 and isinstance(a[1], It) and name == 'operator+'):
        v = a[0]
        if name in ('operator++', 'operator--'):
            nv = x.incr(st, v, name[-2:], n)
            x.write(st, rs[0], nv)
            return [(st, v if len(a) > 1 else rs[0])]
        if name == 'operator*':
            return [(st, x.deref(st, v, n))]
        if name == 'operator->':
            return [(st, v)]
        if name == 'operator[]':
            return [(st, x.index(st, v, a[1].t, n))]
        if name in ('operator+', 'operator-'):
            if name == 'operator-' and isinstance(a[1], (It, CP)):
                return [(st, x.binop(st, '-', a[0], a[1], TInt(64, True), n))]
            return [(st, x.ptr_add(st, v, a[1].t if name == 'operator+' else -a[1].t, n))]
        if name in ('operator+=', 'operator-='):
            d = a[1].t if name == 'operator+=' else -a[1].t
            x.write(st, rs[0], x.ptr_add(st, v, d, n))
            return [(st, rs[0])]
        if name == 'operator=':
            x.write(st, rs[0], a[1])
            return [(st, rs[0])]
    if isinstance(a[0], MIt):
        if name == 'operator->':
            return [(st, a[0])]
        if name == 'operator*':
            return [(st, x.deref(st, a[0], n))]
        if name == 'operator=':
            x.write(st, rs[0], a[1])
            return [(st, rs[0])]
    if name == 'operator<<' and k0 == 'seq' and a[0].sh.cont == 'sstream' and isinstance(rs[0], Loc):
        wk, lk = 'ghost:width:%r' % (rs[0],), 'ghost:left:%r' % (rs[0],)
        if isinstance(a[1], tuple) and a[1][0] == 'setw':
            st.store[wk] = a[1][1]
            return [(st, rs[0])]
        if isinstance(a[1], tuple) and a[1][0] == 'fn' and a[1][2] == 'left':
            st.store[lk] = T(z3.BoolVal(True), TBool())
            return [(st, rs[0])]
        if wk in st.store and not isinstance(a[1], tuple):
            wd = st.store.pop(wk)
            txt = outtext(x, st, a[1])
            if not x.valid(st, wd.t <= 0, 500):
                if lk not in st.store:
                    raise Unsupported('field width with unknown adjustment')
                x.w.assumptions.add('assumed: the fill character of a stream is the default (a blank)')
                txt = CS.mkcat(txt, CS.rep(wd.t - CS.mklen(txt), z3.IntVal(32)))
            x.write(st, rs[0], T(CS.mkcat(a[0].t, txt), a[0].sh))
            return [(st, rs[0])]
        x.write(st, rs[0], T(CS.mkcat(a[0].t, outtext(x, st, a[1])), a[0].sh))
        return [(st, rs[0])]
    if isinstance(getattr(a[0], 'sh', None), THeap):
        if name == 'operator[]' and isinstance(rs[0], Loc):
            return [(st, x.index(st, rs[0].f('v'), a[1].t, n))]
        if name == 'operator=':
            r1 = x.default(a[0].sh) if isinstance(a[1], Ptr) else a[1]
            if isinstance(rs[1], Loc) and not isinstance(rs[1], ValLoc):
                x.write(st, rs[1], x.default(a[0].sh))
            x.write(st, rs[0], r1)
            return [(st, rs[0])]
    if name == 'operator=' and k0 == 'opaque' and 'function<' in a[0].sh.name and isinstance(a[1], Clo) and isinstance(rs[0], Loc):
        x.write(st, rs[0], clo_to_fn(x, st, a[1], a[0].sh))
        return [(st, rs[0])]
    if name == 'operator()' and k0 == 'opaque' and 'function<' in a[0].sh.name:
        if 'ghost:ncalls' in st.store:
            c = st.store['ghost:ncalls']
            st.store['ghost:ncalls'] = T(c.t + 1, c.sh)
        return [(st, apply_fn(x.w, a[0], [x.rv(st, r) for r in rs[1:]]))]
    if isinstance(a[0], MapV):
        if name == 'operator[]':
            return map_index(x, st, rs[0], a[0], rs[1])
        if name == 'operator=':
            x.write(st, rs[0], a[1])
            return [(st, rs[0])]
    strish = lambda v: isinstance(v, CP) or (isinstance(v, T) and v.sh.kind == 'seq' and x.sorts.th(v.sh) is CS and v.sh.elem == CHAR)
    if name == 'operator+' and any(strish(v) for v in a):
        t = CS.mkcat(strval(x, st, a[0]), strval(x, st, a[1]))
        st.pc.append(CS.mklen(t) <= MAXLEN)
        return [(st, T(t, STR))]
    if name == 'operator+=' and strish(a[0]):
        t = CS.mkcat(a[0].t, strval(x, st, a[1]))
        st.pc.append(CS.mklen(t) <= MAXLEN)
        x.write(st, rs[0], T(t, a[0].sh))
        return [(st, rs[0])]
    if name == 'operator=':
        if isinstance(a[0], T) and a[0].sh.kind == 'seq':
            if isinstance(a[1], CP) or (isinstance(a[1], T) and (a[1].sh.kind == 'int' or a[1].sh.cont == 'lit')):
                x.write(st, rs[0], T(strval(x, st, a[1]), a[0].sh))
            else:
                x.write(st, rs[0], T(a[1].t, a[0].sh))
                if is_std_move(n) and isinstance(rs[1], Loc) and not isinstance(rs[1], ValLoc):
                    cons = []
                    x.write(st, rs[1], x.sorts.fresh(a[1].sh, 'moved', cons))
                    st.pc += cons
            return [(st, rs[0])]
        if isinstance(rs[0], Loc):
            x.write(st, rs[0], x.coerce(a[1], a[0].sh))
            return [(st, rs[0])]
    if name == 'operator[]' and isinstance(a[0], T) and a[0].sh.kind == 'seq':
        if strish(a[0]):
            # s[size()] is the terminator
            th = CS
            i = a[1].t
            if x.valid(st, i < th.mklen(a[0].t), 300):
                return [(st, x.index(st, rs[0], i, n))]
            x.oblige(st, z3.And(i >= 0, i <= th.mklen(a[0].t)), 'string index within [0,size()]', 'bounds', n)
            return [(st, ValLoc(T(z3.If(i < th.mklen(a[0].t), th.at(a[0].t, i), z3.IntVal(0)), CHAR)))]
        return [(st, x.index(st, rs[0], a[1].t, n))]
    if isinstance(a[0], Rec) and '$base' in a[0].f and name in ('operator[]',):
        return operator(x, st, name, [rs[0].f('$base')] + list(rs[1:]), n)
    raise Unsupported('operator %s on %s' % (name, k0))


def compare(x, st, op, a, b, n):
    strish = lambda v: isinstance(v, CP) or (isinstance(v, T) and v.sh.kind == 'seq' and v.sh.elem == CHAR)
    if strish(a) and strish(b):
        s, t = strval(x, st, a), strval(x, st, b)
        if op in ('==', '!='):
            return eqterm(x, st, CS, s, t, op)
        lt = z3.Function('strlt', CS.S, CS.S, B)
        return T({'<': lt(s, t), '>': lt(t, s), '<=': z3.Not(lt(t, s)), '>=': z3.Not(lt(s, t))}[op], TBool())
    if isinstance(a, T) and isinstance(b, T) and a.sh.kind == 'seq' and op in ('==', '!='):
        return eqterm(x, st, x.sorts.th(a.sh), a.t, b.t, op)
    if isinstance(a, T) and a.t.sort().kind() == z3.Z3_UNINTERPRETED_SORT and op not in ('==', '!='):
        key = z3.Function('ord_' + str(a.t.sort()), a.t.sort(), z3.RealSort())
        x.w.assumptions.add('operator< on the element type is a strict weak (total) order')
        p, q = key(a.t), key(b.t)
        return T({'<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q}[op], TBool())
    if isinstance(a, Rec) and isinstance(b, Rec) and op in ('==', '!='):
        from .spec import veq
        e = veq(x.w, a, b)
        return T(e if op == '==' else z3.Not(e), TBool())
    return x.compare(st, op, a, b, n)


def eqterm(x, st, th, s, t, op):
    """string equality as a boolean; adds the extensional witness so that both outcomes are usable"""
    if z3.eq(s, t):
        e = z3.BoolVal(True)
        return T(e if op == '==' else z3.Not(e), TBool())
    d = th.skd(s, t)
    st.pc.append(z3.Or(s == t, th.mklen(s) != th.mklen(t), z3.And(0 <= d, d < th.mklen(s), th.at(s, d) != th.at(t, d))))
    return T((s == t) if op == '==' else (s != t), TBool())


# ---------------------------------------------------------------- free functions
FREE = {}


def free(*names):
    def deco(f):
        for nm in names:
            FREE[nm] = f
        return f
    return deco


@free('move', 'forward', 'as_const')
def _move(x, st, rs, n):
    return [(st, rs[0])]


@free('min', 'max')
def _minmax(x, st, rs, n):
    raise Unsupported('min/max')


LIMITS = {('epsilon', 64): Q(1, 2 ** 52), ('epsilon', 32): Q(1, 2 ** 23), ('max', 64): Q((2 ** 53 - 1) * 2 ** 971), ('max', 32): Q((2 ** 24 - 1) * 2 ** 104),
          ('min', 64): Q(1, 2 ** 1022), ('min', 32): Q(1, 2 ** 126)}


def limit(x, st, name, n):
    """std::numeric_limits<T>::name()"""
    sh = x.w.types.of(n)
    if sh.kind == 'float':
        v = -LIMITS[('max', sh.bits)] if name == 'lowest' else LIMITS[(name, sh.bits)]
        return [(st, T(z3.RealVal('%d/%d' % (v.numerator, v.denominator)), sh))]
    if sh.kind == 'int' and name != 'epsilon':
        lo, hi = (-(1 << (sh.bits - 1)), (1 << (sh.bits - 1)) - 1) if sh.signed else (0, (1 << sh.bits) - 1)
        v = hi if name == 'max' else lo
        return [(st, T(z3.BitVecVal(v, sh.bits) if x.bv else z3.IntVal(v), sh))]
    raise Unsupported('numeric_limits::' + name)


@free('epsilon')
def _eps(x, st, rs, n):
    return limit(x, st, 'epsilon', n)


@free('lowest')
def _lowest(x, st, rs, n):
    return limit(x, st, 'lowest', n)


def mk_minmax(mx):
    def f(x, st, rs, n):
        if not rs:
            return limit(x, st, 'max' if mx else 'min', n)
        a, b = x.rv(st, rs[0]), x.rv(st, rs[1])
        c = x.compare(st, '<', a, b, n).t      # min: (b < a) ? b : a ; max: (a < b) ? b : a
        if mx:
            t = z3.If(c, b.t, a.t)
        else:
            c2 = x.compare(st, '<', b, a, n).t
            t = z3.If(c2, b.t, a.t)
        return [(st, ValLoc(T(z3.simplify(t), a.sh)))]
    return f


FREE['min'] = mk_minmax(False)
FREE['max'] = mk_minmax(True)


@free('make_tuple')
def _make_tuple(x, st, rs, n):
    vs = [x.rv(st, r) for r in rs]
    sh = x.w.types.of(n)
    if sh.kind != 'tuple':
        sh = TTuple([v.sh for v in vs])
    return [(st, Rec({k: v for (k, _), v in zip(x.sorts.fields(sh), vs)}, sh))]


@free('make_pair')
def _mkpair(x, st, rs, n):
    sh = x.w.types.of(n)
    if sh.kind != 'pair':
        a, b = x.rv(st, rs[0]), x.rv(st, rs[1])
        return [(st, Rec({'first': a, 'second': b}, TPair(a.sh, b.sh)))]
    return [(st, Rec({'first': pairval(x, st, rs[0], sh.a), 'second': pairval(x, st, rs[1], sh.b)}, sh))]


@free('begin', 'cbegin')
def _begin(x, st, rs, n):
    return seq_method(x, st, rs[0], x.rv(st, rs[0]), 'begin', [], n)


@free('end', 'cend')
def _end(x, st, rs, n):
    return seq_method(x, st, rs[0], x.rv(st, rs[0]), 'end', [], n)


@free('distance')
def _dist(x, st, rs, n):
    return [(st, x.binop(st, '-', x.rv(st, rs[1]), x.rv(st, rs[0]), TInt(64, True), n))]


@free('next', 'prev')
def _next(x, st, rs, n):
    return [(st, x.ptr_add(st, x.rv(st, rs[0]), x.rv(st, rs[1]).t if len(rs) > 1 else z3.IntVal(1), n))]


@free('swap')
def _swap(x, st, rs, n):
    a, b = x.rv(st, rs[0]), x.rv(st, rs[1])
    x.write(st, rs[0], b)
    x.write(st, rs[1], a)
    return [(st, VoidV())]


def pred_formula(x, st, clo, el):
    """boolean formula of a pure unary predicate applied to a value"""
    s = st.copy()
    n0 = len(s.pc)
    x.dry += 1
    try:
        if isinstance(clo, Clo):
            res = x.call_closure(s, clo, [ValLoc(el)])
        else:
            raise Unsupported('predicate')
    finally:
        x.dry -= 1
    if len(res) != 1:
        # several pure paths: join
        out = []
        for s2, r in res:
            v = x.rv(s2, r)
            out.append(z3.And(list(s2.pc[n0:]) + [x.tobool(v)]))
        return z3.Or(out)
    s2, r = res[0]
    return x.tobool(x.rv(s2, r))


def rng(x, st, f, l, n):
    if not (isinstance(f, It) and isinstance(l, It)) or repr(f.loc) != repr(l.loc):
        raise Unsupported('iterator range')
    sv = x.read(st, f.loc)
    th = x.sorts.th(sv.sh)
    x.oblige(st, z3.And(f.off >= 0, f.off <= l.off, l.off <= th.mklen(sv.t)), 'iterator range is valid', 'bounds', n)
    return sv, th


def do_find(x, st, f, l, P, n):
    sv, th = rng(x, st, f, l, n)
    r = z3.Int('find!%d' % x.bump())
    k = z3.Int('k!%d' % x.bump())
    at = lambda i: x.sorts.reflect(th.at(sv.t, i), sv.sh.elem)
    st.pc.append(z3.And(f.off <= r, r <= l.off))
    st.pc.append(z3.Implies(r < l.off, P(at(r))))
    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(f.off <= k, k < r), z3.Not(P(at(k)))), patterns=[th.at(sv.t, k)]))
    return r, sv, th


@free('find_if')
def _find_if(x, st, rs, n):
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    clo = x.rv(st, rs[2])
    r, sv, th = do_find(x, st, f, l, lambda e: pred_formula(x, st, clo, e), n)
    return [(st, It(f.loc, r))]


@free('find')
def _find(x, st, rs, n):
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    val = x.rv(st, rs[2])
    r, sv, th = do_find(x, st, f, l, lambda e: compare(x, st, '==', e, val, n).t if not (isinstance(e, T) and e.sh.kind == 'seq') else e.t == x.sorts.reify(val), n)
    if sv.sh.elem.kind == 'seq':
        k = z3.Int('k!%d' % x.bump())
    return [(st, It(f.loc, r))]


@free('any_of', 'none_of', 'all_of')
def _anyof(x, st, rs, n):
    raise Unsupported('any_of')


def mk_anyof(kind):
    def g(x, st, rs, n):
        f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
        clo = x.rv(st, rs[2])
        P = lambda e: pred_formula(x, st, clo, e)
        Q = P if kind != 'all_of' else (lambda e: z3.Not(P(e)))
        r, sv, th = do_find(x, st, f, l, Q, n)
        t = r < l.off
        return [(st, T(t if kind == 'any_of' else z3.Not(t), TBool()))]
    return g


for _k in ('any_of', 'none_of', 'all_of'):
    FREE[_k] = mk_anyof(_k)


@free('count_if')
def _count_if(x, st, rs, n):
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    clo = x.rv(st, rs[2])
    r, sv, th = do_find(x, st, f, l, lambda e: pred_formula(x, st, clo, e), n)
    c = z3.Int('count!%d' % x.bump())
    st.pc.append(z3.And(c >= 0, c <= l.off - f.off, (c == 0) == (r == l.off)))
    # exactly one when no second match
    k = z3.Int('k!%d' % x.bump())
    st.pc.append(z3.Implies(z3.And(r < l.off, z3.ForAll([k], z3.Implies(z3.And(r < k, k < l.off), z3.Not(pred_formula(x, st, clo, x.sorts.reflect(th.at(sv.t, k), sv.sh.elem)))), patterns=[th.at(sv.t, k)])), c == 1))
    return [(st, T(c, TInt(64, True)))]


def ordkey(x, v):
    if isinstance(v, T) and v.t.sort() in (I, z3.RealSort()):
        return v.t
    if isinstance(v, T) and v.t.sort().kind() == z3.Z3_UNINTERPRETED_SORT and v.sh.kind == 'opaque':
        x.w.assumptions.add('operator< on the element type is a strict weak (total) order')
        return z3.Function('ord_' + str(v.t.sort()), v.t.sort(), z3.RealSort())(v.t)
    raise Unsupported('ordering')


def mk_bound(upper):
    def g(x, st, rs, n):
        f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
        val = x.rv(st, rs[2])
        sv, th = rng(x, st, f, l, n)
        if len(rs) > 3:
            # comp( value, element ) for upper_bound, comp( element, value ) for lower_bound: the range must be partitioned by it
            clo = x.rv(st, rs[3])
            E = lambda i: x.sorts.reflect(th.at(sv.t, i), sv.sh.elem)
            B = (lambda i: pred_formula2(x, st, clo, val, E(i))) if upper else (lambda i: z3.Not(pred_formula2(x, st, clo, E(i), val)))
            i, j = z3.Int('i!%d' % x.bump()), z3.Int('j!%d' % x.bump())
            x.oblige(st, z3.ForAll([i, j], z3.Implies(z3.And(f.off <= i, i < j, j < l.off, B(i)), B(j)), patterns=[z3.MultiPattern(th.at(sv.t, i), th.at(sv.t, j))]),
                     'range passed to %s is sorted' % ('upper_bound' if upper else 'lower_bound'), 'pre', n)
            r = z3.Int('bound!%d' % x.bump())
            st.pc.append(z3.And(f.off <= r, r <= l.off))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(f.off <= i, i < l.off), B(i) == (i >= r)), patterns=[th.at(sv.t, i)]))
            return [(st, It(f.loc, r))]
        K = lambda i: ordkey(x, x.sorts.reflect(th.at(sv.t, i), sv.sh.elem))
        i, j = z3.Ints('i!b j!b')
        x.oblige(st, z3.ForAll([i, j], z3.Implies(z3.And(f.off <= i, i < j, j < l.off), K(i) <= K(j)), patterns=[z3.MultiPattern(th.at(sv.t, i), th.at(sv.t, j))]),
                 'range passed to %s is sorted' % ('upper_bound' if upper else 'lower_bound'), 'pre', n)
        r = z3.Int('bound!%d' % x.bump())
        vk = ordkey(x, val)
        st.pc.append(z3.And(f.off <= r, r <= l.off))
        if upper:
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(f.off <= i, i < r), K(i) <= vk), patterns=[th.at(sv.t, i)]))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(r <= i, i < l.off), K(i) > vk), patterns=[th.at(sv.t, i)]))
        else:
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(f.off <= i, i < r), K(i) < vk), patterns=[th.at(sv.t, i)]))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(r <= i, i < l.off), K(i) >= vk), patterns=[th.at(sv.t, i)]))
        return [(st, It(f.loc, r))]
    return g


FREE['upper_bound'] = mk_bound(True)
FREE['lower_bound'] = mk_bound(False)


@free('copy')
def _copy(x, st, rs, n):
    f, l, o = x.rv(st, rs[0]), x.rv(st, rs[1]), x.rv(st, rs[2])
    sv, th = rng(x, st, f, l, n)
    if not isinstance(o, It):
        raise Unsupported('copy target')
    dv = x.read(st, o.loc)
    cnt = l.off - f.off
    L = th.mklen(dv.t)
    x.oblige(st, z3.And(o.off >= 0, o.off + cnt <= L), 'std::copy target range is large enough', 'bounds', n)
    t = th.mkcat(th.mkcat(th.mksub(dv.t, z3.IntVal(0), o.off), th.mksub(sv.t, f.off, l.off)), th.mksub(dv.t, o.off + cnt, L))
    x.write(st, o.loc, T(t, dv.sh))
    return [(st, It(o.loc, z3.simplify(o.off + cnt)))]


@free('fill')
def _fill(x, st, rs, n):
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    sv, th = rng(x, st, f, l, n)
    e = elem(x, st, rs[2], sv.sh.elem)
    t = th.mkcat(th.mkcat(th.mksub(sv.t, z3.IntVal(0), f.off), th.rep(l.off - f.off, e)), th.mksub(sv.t, l.off, th.mklen(sv.t)))
    x.write(st, f.loc, T(t, sv.sh))
    return [(st, VoidV())]


@free('copy_backward', 'move_backward')
def _copy_backward(x, st, rs, n):
    f, l, o = x.rv(st, rs[0]), x.rv(st, rs[1]), x.rv(st, rs[2])
    sv, th = rng(x, st, f, l, n)
    if not isinstance(o, It):
        raise Unsupported('copy_backward target')
    dv = x.read(st, o.loc)
    cnt = l.off - f.off
    L = th.mklen(dv.t)
    x.oblige(st, z3.And(o.off - cnt >= 0, o.off <= L), 'std::copy_backward target range is large enough', 'bounds', n)
    if repr(o.loc) == repr(f.loc):
        x.oblige(st, z3.Or(o.off >= l.off, o.off <= f.off), 'std::copy_backward target end lies outside the source range', 'bounds', n)
    t = th.mkcat(th.mkcat(th.mksub(dv.t, z3.IntVal(0), o.off - cnt), th.mksub(sv.t, f.off, l.off)), th.mksub(dv.t, o.off, L))
    x.write(st, o.loc, T(t, dv.sh))
    return [(st, It(o.loc, z3.simplify(o.off - cnt)))]


def pointwise(x, st, f, l, sv, th, fn):
    '''the range is overwritten with fn(index, old element)'''
    r = z3.Const('pw!%d' % x.bump(), th.S)
    i = z3.Int('i!pw')
    L = th.mklen(sv.t)
    inr = z3.And(f.off <= i, i < l.off)
    st.pc.append(th.len(r) == L)
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L), th.at(r, i) == z3.If(inr, fn(i, th.at(sv.t, i)), th.at(sv.t, i))), patterns=[th.at(r, i)]))
    x.write(st, f.loc, T(r, sv.sh))


@free('iota')
def _iota(x, st, rs, n):
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    sv, th = rng(x, st, f, l, n)
    v = x.rv(st, rs[2])
    if sv.sh.elem.kind != 'int' or v.sh.kind != 'int':
        raise Unsupported('iota')
    x.oblige(st, z3.And(sv.sh.elem.lo <= v.t, v.t + l.off - f.off <= sv.sh.elem.hi), 'iota: no overflow', 'arith', n)
    pointwise(x, st, f, l, sv, th, lambda i, e: v.t + i - f.off)
    return [(st, VoidV())]


@free('replace')
def _replace(x, st, rs, n):
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    sv, th = rng(x, st, f, l, n)
    a, b = elem(x, st, rs[2], sv.sh.elem), elem(x, st, rs[3], sv.sh.elem)
    if sv.sh.elem.kind != 'int':
        raise Unsupported('replace')
    pointwise(x, st, f, l, sv, th, lambda i, e: z3.If(e == a, b, e))
    return [(st, VoidV())]


@free('accumulate')
def _accumulate(x, st, rs, n):
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    sv, th = rng(x, st, f, l, n)
    if len(rs) > 3 or 'fsum' not in x.w.spec.funs or sv.sh.elem.kind != 'float':
        raise Unsupported('accumulate')
    F = x.w.spec.funs['fsum'][0]
    init = x.coerce(x.rv(st, rs[2]), sv.sh.elem)
    return [(st, T(z3.simplify(init.t + F(sv.t, l.off) - F(sv.t, f.off)), sv.sh.elem))]


@free('partial_sort_copy')
def _partial_sort_copy(x, st, rs, n):
    f, l, g, h = [x.rv(st, r) for r in rs[:4]]
    if len(rs) > 4:
        raise Unsupported('custom comparator')
    sv, th = rng(x, st, f, l, n)
    dv, th2 = rng(x, st, g, h, n)
    if th is not th2 or not all(x.valid(st, c, 300) for c in (f.off == 0, l.off == th.mklen(sv.t), g.off == 0, h.off == th.mklen(dv.t))):
        raise Unsupported('partial_sort_copy of a sub-range')
    m = z3.If(th.mklen(sv.t) < th.mklen(dv.t), th.mklen(sv.t), th.mklen(dv.t))
    srt = th.srt()(sv.t)
    x.write(st, g.loc, T(th.mkcat(th.mksub(srt, z3.IntVal(0), m), th.mksub(dv.t, m, th.mklen(dv.t))), dv.sh))
    return [(st, It(g.loc, m))]


@free('rotate')
def _rotate(x, st, rs, n):
    f, m, l = [x.rv(st, r) for r in rs[:3]]
    sv, th = rng(x, st, f, l, n)
    if not isinstance(m, It) or repr(m.loc) != repr(f.loc):
        raise Unsupported('rotate')
    x.oblige(st, z3.And(f.off <= m.off, m.off <= l.off), 'rotate: middle lies in the range', 'bounds', n)
    t = th.mkcat(th.mkcat(th.mkcat(th.mksub(sv.t, z3.IntVal(0), f.off), th.mksub(sv.t, m.off, l.off)), th.mksub(sv.t, f.off, m.off)), th.mksub(sv.t, l.off, th.mklen(sv.t)))
    x.write(st, f.loc, T(t, sv.sh))
    return [(st, It(f.loc, z3.simplify(f.off + l.off - m.off)))]


@free('sort', 'stable_sort')
def _sort(x, st, rs, n):
    '''the range becomes a permutation of itself that is ordered'''
    f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
    sv, th = rng(x, st, f, l, n)
    if len(rs) == 2 and z3.is_int_value(z3.simplify(f.off)) and z3.simplify(f.off).as_long() == 0 and x.valid(st, l.off == th.mklen(sv.t), 300):
        ordkey(x, x.sorts.reflect(th.at(sv.t, z3.IntVal(0)), sv.sh.elem))
        x.write(st, f.loc, T(th.srt()(sv.t), sv.sh))
        return [(st, VoidV())]
    c = x.bump()
    r = z3.Const('sorted!%d' % c, th.S)
    P, Q = z3.Function('perm!%d' % c, I, I), z3.Function('pinv!%d' % c, I, I)
    i, j = z3.Ints('i!s j!s')
    inr = lambda k: z3.And(f.off <= k, k < l.off)
    L = th.mklen(sv.t)
    st.pc.append(th.len(r) == L)
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L, z3.Not(inr(i))), th.at(r, i) == th.at(sv.t, i)), patterns=[th.at(r, i)]))
    st.pc.append(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(P(i)), Q(P(i)) == i, th.at(r, i) == th.at(sv.t, P(i)))), patterns=[th.at(r, i), P(i)]))
    st.pc.append(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(Q(i)), P(Q(i)) == i, th.at(r, Q(i)) == th.at(sv.t, i))), patterns=[th.at(sv.t, i), Q(i)]))
    ei, ej = [x.sorts.reflect(th.at(r, k), sv.sh.elem) for k in (i, j)]
    if len(rs) > 2:
        s2 = st.copy()
        s2.pc += [inr(i), inr(j)]
        x.w.assumptions.add('comparators passed to std::sort are transitive')
        clo = x.rv(st, rs[2])
        # every access the comparator makes is within bounds, for any two elements of the range
        a, b = z3.Ints('cmpa!%d cmpb!%d' % (c, c))
        s3 = st.copy()
        s3.pc += [inr(a), inr(b)]
        x.call_closure(s3, clo, [ValLoc(x.sorts.reflect(th.at(sv.t, k), sv.sh.elem)) for k in (a, b)])
        lt = pred_formula2(x, s2, clo, ej, ei)
        ea = x.sorts.reflect(th.at(sv.t, a), sv.sh.elem)
        x.oblige(s3, z3.Not(pred_formula2(x, s3, clo, ea, ea)), 'the comparator is irreflexive', 'pre', n)
    else:
        lt = ordkey(x, ej) < ordkey(x, ei)
    st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), z3.Not(lt)), patterns=[z3.MultiPattern(th.at(r, i), th.at(r, j))]))
    x.write(st, f.loc, T(r, sv.sh))
    return [(st, VoidV())]


def pred_formula2(x, st, clo, a, b):
    s = st.copy()
    x.dry += 1
    try:
        res = x.call_closure(s, clo, [ValLoc(a), ValLoc(b)])
    finally:
        x.dry -= 1
    if len(res) != 1:
        raise Unsupported('comparator with several paths')
    return x.tobool(x.rv(*res[0]))


def mk_extremum(mx):
    def g(x, st, rs, n):
        f, l = x.rv(st, rs[0]), x.rv(st, rs[1])
        if len(rs) > 2:
            raise Unsupported('custom comparator')
        sv, th = rng(x, st, f, l, n)
        r, k = z3.Int('ext!%d' % x.bump()), z3.Int('k!%d' % x.bump())
        K = lambda i: ordkey(x, x.sorts.reflect(th.at(sv.t, i), sv.sh.elem))
        st.pc.append(z3.And(f.off <= r, r <= l.off, z3.Implies(f.off < l.off, r < l.off)))
        less = (lambda p, q: p > q) if mx else (lambda p, q: p < q)
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(f.off <= k, k < l.off), z3.And(z3.Not(less(K(k), K(r))), z3.Implies(k < r, less(K(r), K(k))))), patterns=[th.at(sv.t, k)]))
        return [(st, It(f.loc, r))]
    return g


FREE['min_element'] = mk_extremum(False)
FREE['max_element'] = mk_extremum(True)


# ---- libc
@free('strlen')
def _strlen(x, st, rs, n):
    p = x.rv(st, rs[0])
    x.oblige(st, z3.And(z3.Not(p.null), p.off >= 0, p.off <= CS.mklen(p.base)), 'C string pointer is within its buffer', 'bounds', n)
    return [(st, T(CS.mklen(logic.cstr_of(p.base, p.off)), U64))]


@free('strchr')
def _strchr(x, st, rs, n):
    p, c = x.rv(st, rs[0]), x.rv(st, rs[1])
    x.oblige(st, z3.And(z3.Not(p.null), p.off >= 0, p.off <= CS.mklen(p.base)), 'C string pointer is within its buffer', 'bounds', n)
    S = logic.cstr_of(p.base, p.off)
    ct = c.t
    # the searched value is converted to char
    if not x.valid(st, z3.And(ct >= -128, ct <= 127), 200):
        ct = x.wrap(st, ct, CHAR)
    found = z3.Or(ct == 0, CS.mkmem(ct, S))
    o = z3.Int('chr!%d' % x.bump())
    st.pc.append(z3.Implies(found, z3.And(p.off <= o, o <= p.off + CS.mklen(S))))
    return [(st, CP(p.base, o, z3.Not(found)))]


def mk_span(neg):
    def g(x, st, rs, n):
        p, q = x.rv(st, rs[0]), x.rv(st, rs[1])
        x.oblige(st, z3.And(z3.Not(p.null), p.off >= 0, p.off <= CS.mklen(p.base)), 'C string pointer is within its buffer', 'bounds', n)
        S = logic.cstr_of(q.base, q.off)
        src = logic.cstr_of(p.base, p.off)
        fn = logic.ffo if neg else logic.fno
        return [(st, T(fn(src, S, z3.IntVal(0)), U64))]
    return g


FREE['strcspn'] = mk_span(True)
FREE['strspn'] = mk_span(False)


@free('to_string')
def _to_string(x, st, rs, n):
    v = x.rv(st, rs[0])
    if v.sh.kind not in ('float', 'int'):
        raise Unsupported('to_string of ' + v.sh.kind)
    x.w.assumptions.add('std::to_string: the text of a number is a function of the number (uninterpreted)')
    r = T(z3.Function('fixtxt', z3.RealSort(), CS.S)(v.t) if v.sh.kind == 'float' else z3.Function('inttxt', I, CS.S)(v.t), STR)
    return [(st, r)]


@free('setw')
def _setw(x, st, rs, n):
    return [(st, ('setw', x.rv(st, rs[0])))]


@free('isspace')
def _isspace(x, st, rs, n):
    c = x.rv(st, rs[0])
    x.oblige(st, z3.And(c.t >= -1, c.t <= 255), 'isspace argument is representable as unsigned char', 'pre', n)
    t = z3.Or([c.t == k for k in (32, 9, 10, 11, 12, 13)])
    return [(st, T(z3.If(t, z3.IntVal(1), z3.IntVal(0)), TInt(32, True)))]


def mk_ctype(nm, ranges):
    def f(x, st, rs, n):
        c = x.rv(st, rs[0])
        x.oblige(st, z3.And(c.t >= -1, c.t <= 255), nm + ' argument is representable as unsigned char', 'pre', n)
        x.w.assumptions.add('assumed: character classification follows the "C" locale')
        t = z3.Or([z3.And(c.t >= a, c.t <= b) for a, b in ranges])
        return [(st, T(z3.If(t, z3.IntVal(1), z3.IntVal(0)), TInt(32, True)))]
    return f


for _nm, _r in (('isalpha', ((65, 90), (97, 122))), ('isdigit', ((48, 57),)), ('isalnum', ((48, 57), (65, 90), (97, 122))), ('isupper', ((65, 90),)), ('islower', ((97, 122),))):
    FREE[_nm] = mk_ctype(_nm, _r)


def mk_strto(nm, fl):
    def g(x, st, rs, n):
        p = x.rv(st, rs[0])
        e = x.rv(st, rs[1])
        x.oblige(st, z3.And(z3.Not(p.null), p.off >= 0, p.off <= CS.mklen(p.base)), 'C string pointer is within its buffer', 'bounds', n)
        rad = x.rv(st, rs[2]).t if len(rs) > 2 else z3.IntVal(10)
        src = logic.cstr_of(p.base, p.off)
        sh = x.w.types.of(n)
        vf = z3.Function(nm + '_val', CS.S, I, x.sorts.sort(sh))
        ef = z3.Function(nm + '_len', CS.S, I, I)
        v, L = vf(src, rad), ef(src, rad)
        cons = []
        x.sorts.constrain(v, sh, cons)
        st.pc += cons + [L >= 0, L <= CS.mklen(src)]
        if isinstance(e, Ptr) and e.loc is not None:
            x.write(st, e.loc, CP(p.base, z3.simplify(p.off + L)))
        return [(st, T(v, sh))]
    return g


for _nm in ('strtol', 'strtoul', 'strtoll', 'strtoull', 'strtof', 'strtod'):
    FREE[_nm] = mk_strto(_nm, None)


@free('abs', 'fabs', 'labs')
def _abs(x, st, rs, n):
    v = x.rv(st, rs[0])
    return [(st, T(z3.If(v.t >= 0, v.t, -v.t), v.sh))]


@free('sqrt', 'sqrtf')
def _sqrt(x, st, rs, n):
    v = x.rv(st, rs[0])
    f = z3.Function('sqrt_', z3.RealSort(), z3.RealSort())
    t = x.toreal(v)
    r = f(t)
    st.pc.append(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
    return [(st, T(r, x.w.types.of(n)))]


@free('floor')
def _floor(x, st, rs, n):
    v = x.rv(st, rs[0])
    return [(st, T(z3.ToReal(z3.ToInt(x.toreal(v))), x.w.types.of(n)))]


@free('fmod')
def _fmod(x, st, rs, n):
    a, b = x.toreal(x.rv(st, rs[0])), x.toreal(x.rv(st, rs[1]))
    x.oblige(st, b != 0, 'fmod divisor is non-zero', 'div0', n)
    q = z3.Int('fq!%d' % x.bump())
    r = z3.Real('fr!%d' % x.bump())
    ab = z3.If(b >= 0, b, -b)
    st.pc.append(z3.And(a == b * z3.ToReal(q) + r, z3.Implies(a >= 0, z3.And(0 <= r, r < ab)), z3.Implies(a <= 0, z3.And(-ab < r, r <= 0))))
    return [(st, T(r, x.w.types.of(n)))]


def mk_uf(nm):
    def g(x, st, rs, n):
        ts = [x.toreal(x.rv(st, r)) for r in rs]
        f = z3.Function(nm + '_', *([z3.RealSort()] * (len(ts) + 1)))
        return [(st, T(f(*ts), x.w.types.of(n)))]
    return g


for _nm in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'pow'):
    FREE[_nm] = mk_uf(_nm)
