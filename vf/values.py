"""Symbolic values, locations and states."""
import z3
from .types import *
from .logic import SeqTheory, CS, I, B, MAXLEN


def no_width(st):
    """field widths (setw) are modelled only from the manipulator to the next insertion"""
    if any(isinstance(k, str) and k.startswith('ghost:width:') for k in st.store):
        raise Unsupported('a pending field width')


class Unsupported(Exception):
    """The code left the subset the verifier understands."""


class V:
    pass


class T(V):
    """a z3 term with a shape"""
    __slots__ = ('t', 'sh')

    def __init__(self, t, sh):
        self.t, self.sh = t, sh

    def __repr__(self):
        return 'T(%s:%s)' % (self.t, self.sh)


class Rec(V):
    __slots__ = ('f', 'sh')

    def __init__(self, f, sh):
        self.f, self.sh = f, sh

    def __repr__(self):
        return 'Rec(%s)' % self.f


class It(V):
    """iterator / pointer into a sequence stored at loc"""
    __slots__ = ('loc', 'off', 'sh')

    def __init__(self, loc, off, sh=None):
        self.loc, self.off, self.sh = loc, off, sh

    def __repr__(self):
        return 'It(%s,%s)' % (self.loc, self.off)


class Ptr(V):
    """pointer to one object; loc None = definitely null; null = symbolic null-ness"""
    __slots__ = ('loc', 'null', 'sh')

    def __init__(self, loc, null=None, sh=None):
        self.loc, self.sh = loc, sh
        self.null = z3.BoolVal(loc is None) if null is None else null

    def __repr__(self):
        return 'Ptr(%s)' % (self.loc,)


class FP(V):
    """pointer to the off-th member of the record at loc (members of one arithmetic type, laid out in order)"""
    __slots__ = ('loc', 'off', 'sh')

    def __init__(self, loc, off, sh=None):
        self.loc, self.off, self.sh = loc, off, sh

    def __repr__(self):
        return 'FP(%s,%s)' % (self.loc, self.off)


class CP(V):
    """char pointer: offset into a NUL-terminated immutable character sequence"""
    __slots__ = ('base', 'off', 'null', 'sh')

    def __init__(self, base, off, null=None):
        self.base, self.off = base, off
        self.null = z3.BoolVal(False) if null is None else null
        self.sh = TCStr()

    def __repr__(self):
        return 'CP(%s,%s)' % (self.base, self.off)


class MapV(V):
    """associative container: domain predicate, values, size"""
    __slots__ = ('dom', 'val', 'size', 'sh')

    def __init__(self, dom, val, size, sh):
        self.dom, self.val, self.size, self.sh = dom, val, size, sh


class HeapV(V):
    """all objects of one class that are handled by pointer: object id -> field values (id 0 is the null pointer)"""
    __slots__ = ('arr', 'sh', 'sorts')

    def __init__(self, arr, sh, sorts):
        self.arr, self.sh, self.sorts = arr, sh, sorts

    def get(self, i):
        return Rec({n: self.sorts.reflect(z3.Select(self.arr[n], i), s) for n, s in self.sorts.fields(self.sh)}, self.sh)

    def put(self, ex, i, path, nv):
        r = ex.wr(self.get(i), path, nv)
        out = {}
        for n, s in self.sorts.fields(self.sh):
            v = r.f[n]
            out[n] = self.arr[n] if path and path[0] != ('f', n) else z3.Store(self.arr[n], i, self.sorts.reify(ex.coerce(v, s), s))
        return HeapV(out, self.sh, self.sorts)

    def havoc(self, ex, name, cons):
        return HeapV.fresh(self.sorts, self.sh, name)

    @staticmethod
    def fresh(sorts, sh, name='heap'):
        Sorts.ctr[0] += 1
        return HeapV({n: z3.Const('%s_%s!%d' % (name, n, Sorts.ctr[0]), z3.ArraySort(I, sorts.sort(s))) for n, s in sorts.fields(sh)}, sh, sorts)


def heap_id(v):
    """the object a pointer value denotes, or None if it does not denote a heap object"""
    if isinstance(v, T) and v.sh.kind == 'ptr':
        return v.t
    if isinstance(v, Ptr):
        if v.loc is None:
            return z3.IntVal(0)
        if v.loc.path and len(v.loc.path) == 1 and v.loc.path[0][0] == 'h':
            return v.loc.path[0][1]
    return None


class MIt(V):
    __slots__ = ('loc', 'key', 'end', 'sh')

    def __init__(self, loc, key, end, sh=None):
        self.loc, self.key, self.end, self.sh = loc, key, end, sh


class Clo(V):
    __slots__ = ('node', 'env', 'sh')

    def __init__(self, node, env):
        self.node, self.env = node, env
        self.sh = TOpaque('lambda')


class Undef(V):
    __slots__ = ('sh',)

    def __init__(self, sh):
        self.sh = sh

    def __repr__(self):
        return 'Undef'


class VoidV(V):
    sh = TVoid()


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def f(self, name):
        return Loc(self.root, self.path + (('f', name),))

    def i(self, idx):
        return Loc(self.root, self.path + (('i', idx),))

    def __repr__(self):
        return '%s%s' % (self.root, ''.join('.' + str(p[1]) if p[0] == 'f' else '[%s]' % (p[1],) for p in self.path))


class ValLoc(Loc):
    """read-only glvalue that has no storage of its own"""
    __slots__ = ('val', 'cp')

    def __init__(self, val, cp=None):
        self.root, self.path, self.val, self.cp = '<val>', (), val, cp


class CondLoc(Loc):
    """c ? a : b as a glvalue"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.root, self.path = '<cond>', ()
        self.c, self.a, self.b = c, a, b


class St:
    __slots__ = ('env', 'store', 'pc', 'nw', 'writes', 'notes')

    def __init__(self):
        self.env, self.store, self.pc, self.nw = {}, {}, [], 0
        self.writes = None
        self.notes = []

    def copy(self):
        s = St()
        s.env, s.store, s.pc, s.nw = dict(self.env), dict(self.store), list(self.pc), self.nw
        s.writes = self.writes
        s.notes = list(self.notes)
        return s


_sorts = {}
_dt = {}


class Sorts:
    """shape -> z3 sort; reify / reflect"""

    def __init__(self, world):
        self.w = world

    def sort(self, sh):
        k = sh.kind
        if k == 'int' or k == 'enum':
            return I
        if k == 'bool':
            return B
        if k == 'float':
            return z3.RealSort()
        if k == 'seq':
            if sh.elem.kind in ('pair', 'tuple', 'rec'):
                # the sequence sort is known by its name: records may contain sequences of themselves
                return z3.DeclareSort('Seq_' + self.dtname(sh.elem.key()))
            return self.th(sh).S
        if k == 'cstr':
            return CS.S
        if k == 'opaque' or k == 'uniq':
            nm = 'O_' + ''.join(c if c.isalnum() else '_' for c in sh.key())
            if nm not in _sorts:
                _sorts[nm] = z3.DeclareSort(nm)
            return _sorts[nm]
        if k == 'ptr':
            return I
        if k in ('pair', 'tuple', 'rec'):
            return self.dt(sh)[0]
        raise Unsupported('no sort for ' + sh.key())

    def fields(self, sh):
        if sh.kind == 'pair':
            return [('first', sh.a), ('second', sh.b)]
        if sh.kind == 'tuple':
            return list(zip(sh.names, sh.el)) if hasattr(sh, 'names') else [('e%d' % i, e) for i, e in enumerate(sh.el)]
        if sh.kind == 'rec':
            return self.w.rec_fields(sh)
        raise Unsupported('fields of ' + sh.key())

    @staticmethod
    def dtname(key):
        return 'D_' + ''.join(c if c.isalnum() else '_' for c in key)

    def dt(self, sh):
        key = sh.key()
        if key not in _dt:
            nm = self.dtname(key)
            fs = self.fields(sh)
            d = z3.Datatype(nm)
            d.declare('mk_' + nm, *[(nm + '_' + n.replace('$', ''), self.sort(s)) for n, s in fs])
            ds = d.create()
            _dt[key] = (ds, ds.constructor(0), [ds.accessor(0, i) for i in range(len(fs))], fs)
        return _dt[key]

    def th(self, sh):
        assert sh.kind == 'seq', sh
        es = self.sort(sh.elem)
        if es == I:
            return CS
        tag = ''.join(c if c.isalnum() else '_' for c in str(es))
        return SeqTheory.get(es, tag)

    def reify(self, v, sh=None):
        sh = sh or v.sh
        if isinstance(v, T):
            return v.t
        if isinstance(v, CP):
            from .logic import cstr_of
            return cstr_of(v.base, v.off)
        if isinstance(v, Rec):
            ds, mk, acc, fs = self.dt(sh if sh.kind in ('pair', 'tuple', 'rec') else v.sh)
            src = self.same_source(v, acc, fs)
            if src is not None:
                return src
            return mk(*[self.reify(v.f[n], s) for n, s in fs])
        if isinstance(v, Undef):
            return self.fresh_term(sh, 'undef')
        if isinstance(v, Ptr) and heap_id(v) is not None:
            return heap_id(v)
        raise Unsupported('reify %s' % type(v).__name__)

    def same_source(self, v, acc, fs):
        '''the term whose fields, unchanged, make up the record v (or None)'''
        src = None
        for a, (n, s) in zip(acc, fs):
            x = v.f.get(n)
            if isinstance(x, T):
                t = x.t
            elif isinstance(x, CP) and z3.is_int_value(x.off) and x.off.as_long() == 0 and z3.is_false(x.null):
                t = x.base
            elif isinstance(x, Rec) and s.kind in ('pair', 'tuple', 'rec'):
                _, _, a2, f2 = self.dt(s)
                t = self.same_source(x, a2, f2)
            else:
                return None
            if t is None or not z3.is_app(t) or not t.decl().eq(a):
                return None
            if src is None:
                src = t.arg(0)
            elif not src.eq(t.arg(0)):
                return None
        return src

    def reflect(self, t, sh):
        if sh.kind in ('pair', 'tuple', 'rec'):
            ds, mk, acc, fs = self.dt(sh)
            if z3.is_app(t) and t.decl().eq(mk):
                return Rec({n: self.reflect(t.arg(i), s) for i, (n, s) in enumerate(fs)}, sh)
            return Rec({n: self.reflect(acc[i](t), s) for i, (n, s) in enumerate(fs)}, sh)
        if sh.kind == 'cstr':
            return CP(t, z3.IntVal(0))
        return T(t, sh)

    ctr = [0]

    def fresh_term(self, sh, name):
        self.ctr[0] += 1
        return z3.Const('%s!%d' % (name, self.ctr[0]), self.sort(sh))

    def fresh(self, sh, name, cons):
        """fresh symbolic value of a shape; appends type constraints to cons"""
        k = sh.kind
        if k == 'ref':
            return self.fresh(sh.to, name, cons)
        if k == 'cstr':
            b = self.fresh_term(STR, name + '_base')
            o = self.fresh_term(TInt(64, True), name + '_off')
            cons += [o >= 0, o <= CS.len(b), CS.len(b) <= MAXLEN]
            return CP(b, o)
        if k in ('pair', 'tuple', 'rec'):
            return Rec({n: self.fresh(s, name + '.' + n, cons) for n, s in self.fields(sh)}, sh)
        if k == 'map':
            ks, vs = self.sort(sh.k), self.sort(sh.v)
            self.ctr[0] += 1
            c = self.ctr[0]
            dom = z3.Const('%s_dom!%d' % (name, c), z3.ArraySort(ks, B))
            val = z3.Const('%s_val!%d' % (name, c), z3.ArraySort(ks, vs))
            size = z3.Int('%s_size!%d' % (name, c))
            cons += [size >= 0, size <= MAXLEN]
            return MapV(dom, val, size, sh)
        if k == 'void':
            return VoidV()
        t = self.fresh_term(sh, name)
        self.constrain(t, sh, cons)
        return T(t, sh)

    def constrain(self, t, sh, cons, deep=3):
        """range facts guaranteed by the C++ type of a term"""
        k = sh.kind
        if k == 'int':
            cons += [t >= sh.lo, t <= sh.hi]
        elif k == 'enum':
            cons += [t >= sh.lo, t <= sh.hi]
        elif k == 'seq':
            th = self.th(sh)
            if sh.n is not None:
                cons.append(th.len(t) == sh.n)
            else:
                cons.append(th.len(t) <= MAXLEN)
            e = sh.elem
            if e.kind == 'int':
                j = z3.Int('j')
                cons.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < th.len(t)), z3.And(th.at(t, j) >= e.lo, th.at(t, j) <= e.hi)), patterns=[th.at(t, j)]))
            elif e.kind in ('seq', 'pair', 'rec', 'tuple'):
                j = z3.Int('j')
                inner = []
                if deep:
                    self.constrain_v(self.reflect(th.at(t, j), e), inner, deep - 1)
                inner = [c for c in inner]
                if inner:
                    cons.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < th.len(t)), z3.And(inner)), patterns=[th.at(t, j)]))

    def constrain_v(self, v, cons, deep=3):
        if isinstance(v, Rec):
            for x in v.f.values():
                self.constrain_v(x, cons, deep)
        elif isinstance(v, T):
            self.constrain(v.t, v.sh, cons, deep)

    def default(self, sh):
        """value-initialised value T()"""
        k = sh.kind
        if k in ('int', 'enum'):
            return T(z3.IntVal(0), sh)
        if k == 'bool':
            return T(z3.BoolVal(False), sh)
        if k == 'float':
            return T(z3.RealVal(0), sh)
        if k == 'seq':
            if sh.n:
                return T(self.th(sh).rep(z3.IntVal(sh.n), self.reify(self.default(sh.elem), sh.elem)), sh)
            return T(self.th(sh).empty, sh)
        if k in ('pair', 'tuple', 'rec'):
            return Rec({n: self.default(s) for n, s in self.fields(sh)}, sh)
        if k == 'map':
            ks, vs = self.sort(sh.k), self.sort(sh.v)
            dv = self.reify(self.default(sh.v), sh.v)
            return MapV(z3.K(ks, z3.BoolVal(False)), z3.K(ks, dv), z3.IntVal(0), sh)
        if k == 'opaque':
            return T(z3.Const('default_' + str(self.sort(sh)), self.sort(sh)), sh)
        if k in ('ptr',):
            return Ptr(None, sh=sh)
        if k == 'cstr':
            return CP(CS.empty, z3.IntVal(0), z3.BoolVal(True))
        raise Unsupported('default of ' + sh.key())
