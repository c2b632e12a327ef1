"""Symbolic executor / verification-condition generator over clang's AST."""
import z3, time, itertools, re, ast as pyast
from .types import *
from .values import *
from . import logic
from .logic import CS, NPOS, MAXLEN
from .cast import const_value, line_of, demangle
from .prove import prove, satisfiable_pc
from .spec import SpecCtx, SpecEval, SpecError, veq, ite, num2
from . import stdmodel


class Obligation:
    __slots__ = ('label', 'kind', 'pc', 'goal', 'line', 'fn', 'notes', 'extra')

    def __init__(self, label, kind, pc, goal, line, fn, notes=()):
        self.label, self.kind, self.pc, self.goal, self.line, self.fn, self.notes = label, kind, pc, goal, line, fn, list(notes)


class Contract:
    def __init__(self, target, params, requires=(), ensures=(), throws=None, inv=(), dec=(), unroll=0, uses=(),
                 ref=None, trusted=None, ghost='', mode='math', modifies=None, public=True, pure=False, may_throw=None,
                 const_globals=(), optional=False, inst=(), noframe=(), hints=(), fresh_this=False, note='', assume=(), gpat=None, iter='this.base', null=None, rdec=None, itin=None, hide=()):
        self.hide = tuple(hide)    # spec functions whose definition the proof does not need
        self.target, self.params = target, [p.strip() for p in params.split(',') if p.strip()]
        self.requires, self.ensures, self.throws = list(requires), list(ensures), throws
        self.inv, self.dec, self.unroll, self.uses = list(inv), list(dec), unroll, list(uses)
        self.ref, self.trusted, self.ghost, self.mode = ref, trusted, ghost, mode
        if isinstance(modifies, str):
            modifies = [m.strip() for m in modifies.split(',') if m.strip()]
        self.modifies, self.public, self.may_throw = modifies, public, may_throw
        self.optional = optional
        self.hints = list(hints)
        self.note, self.gpat = note, gpat
        self.iter, self.null, self.rdec = iter, null, rdec
        self.itin = itin or {}     # iterator parameter -> the container it points into
        self.assume = list(assume)


class World:
    """a translation unit + contracts"""
    real_uf = False      # products of two reals as an uninterpreted function

    def __init__(self, tu):
        self.tu = tu
        self.types = TypeMap(tu)
        self.sorts = Sorts(self)
        self.spec = SpecCtx(self)
        self.contracts = {}     # canonical decl id -> Contract
        self.contract_list = []
        self.missing = []
        self._rf = {}
        self.assumptions = set()
        self.opaque_ops = {}
        self.heap_types = {}     # record handled by pointer -> store key of its objects
        self.field_shapes = {}   # (record, field) -> shape, for pointers into an array the record owns
        self.dropped = set()     # (record, field): not part of the modelled state; reads yield any value, writes are ignored
        self.fn_hooks = {}       # qualified name -> model (trusted, listed in assumptions)
        self.functions_seen = {}

    # --- records
    def rec_fields(self, sh):
        if sh.name in self._rf:
            return self._rf[sh.name]
        node = self.tu.records[sh.name]
        out = []
        for k, b in enumerate(node.get('bases', [])):
            t = b['type']
            bs = self.types.parse(t.get('desugaredQualType') or t['qualType'], t['qualType'])
            if bs.kind == 'opaque':
                continue
            out.append(('$base' if k == 0 else '$base%d' % k, bs))
        for f in self.tu.fields(node):
            if (sh.name, f['name']) in self.dropped:
                continue
            fs = self.field_shapes.get((sh.name, f['name'])) or self.types.of(f)
            out.append((f['name'], fs))
        self._rf[sh.name] = out
        return out

    # --- function lookup
    def fn_key(self, nd):
        return self.tu.qname.get(nd['id'], nd.get('name'))

    def demangled(self, nd):
        m = nd.get('mangledName')
        return demangle([m])[0] if m else self.fn_key(nd)

    def tags(self, nd, full=False):
        out = []
        for p in self.tu.params(nd):
            out.append(self.tag(self.types.of(p), full))
        return out

    def tag(self, sh, full=False):
        if sh.kind == 'ref':
            return self.tag(sh.to, full) + ('&&' if sh.rvalue else '')
        if sh.kind == 'seq':
            return 'str' if sh.elem == CHAR and sh.cont == 'string' else ('il' if sh.cont == 'initializer_list' else 'vec')
        if sh.kind in ('rec', 'enum'):
            m = re.match(r'[^<]*<([^,<>]*)', sh.name)
            return sh.name.split('<')[0].split('::')[-1] + (':' + m.group(1).strip() if full and m else '')
        if sh.kind == 'opaque' and re.match(r'(std::)?function<', sh.name):
            return 'function'
        return sh.key()

    def is_const(self, nd):
        q = nd.get('type', {}).get('qualType', '')
        return re.search(r'\)\s*const\b', q) is not None

    def find_fn(self, target):
        """target: qualified name, optionally '(tag,tag)' and trailing ' const'/' mut'"""
        m = re.match(r'^(.*?)(\((?:[\w,&: <>*]*)\))?( const| mut)?$', target)
        name, args, cv = m.group(1), m.group(2), m.group(3)
        if name.endswith('operator') and args == '()':
            name, args = name + '()', None
            m2 = re.match(r'^(.*operator\(\))(\(.*\))?( const| mut)?$', target)
        m2 = re.match(r'^(.*operator\(\))(\([^()]*\))?( const| mut)?$', target)
        if m2:
            name, args, cv = m2.group(1), m2.group(2), m2.group(3)
        c = []
        tmpl, name = name.endswith('#'), name.rstrip('#')       # '#': an instantiation of a member template
        for q, lst in self.tu.funcs.items():
            if q == name or TypeMap._norm(q) == TypeMap._norm(name):
                c += lst
        if args is not None:
            want = [a.strip() for a in args[1:-1].split(',') if a.strip()]
            exact = [f for f in c if re.search(r'\(([^()]*)\)( const)?$', self.demangled(f)) and re.search(r'\(([^()]*)\)( const)?$', self.demangled(f)).group(1).replace(' ', '') == args[1:-1].replace(' ', '')] if args != '()' else []
            c = exact or [f for f in c if len(self.tags(f)) == len(want) and all(b in ('*', a, a2) for a, a2, b in zip(self.tags(f), self.tags(f, True), want))]
        if cv is not None:
            c = [f for f in c if self.is_const(f) == (cv.strip() == 'const')]
        if len(c) > 1 or tmpl:
            c = [f for f in c if ('::' + name.split('::')[-1] + '<' in self.demangled(f)) == tmpl] or ([] if tmpl else c)
        return c

    def add_contract(self, ct):
        c = self.find_fn(ct.target)
        if len(c) == 0:
            self.missing.append((ct, 'not found'))
            return
        if len(c) > 1:
            self.missing.append((ct, 'ambiguous: ' + '; '.join(self.demangled(f) + ' ' + str(self.tags(f)) for f in c)))
            return
        nd = c[0]
        ct.node = nd
        if len(ct.params) != len(self.tu.params(nd)):
            self.missing.append((ct, 'arity changed'))
            return
        self.contracts[self.tu.canonical(nd['id'])] = ct
        self.contract_list.append(ct)


class Exec:
    def __init__(self, world, contract=None, fast=1500, quiet=True):
        self.loopmods = []
        self.w = world
        self.tu = world.tu
        self.sorts = world.sorts
        self.ct = contract
        self.obls = []
        self.thrown = []
        self.rootctr = 0
        self.depth = 0
        self.fast = fast
        self.extra = world.spec.visible(contract.hide if contract is not None else ())
        self.fnname = ''
        self.dry = 0
        self.bv = contract is not None and contract.mode == 'bv'
        self.deadline = None
        self.inlined = set()
        self.used_contracts = set()
        self.models = set()
        self.spec_env0 = None
        self.curfn = []
        self.loopctr = 0
        self.loop_report = []
        self.fork_count = 0

    # ------------------------------------------------------------------ utils
    def chk_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def new_root(self, hint):
        self.rootctr += 1
        return '%s#%d' % (hint, self.rootctr)

    def alloc(self, st, v, hint='tmp'):
        r = self.new_root(hint)
        st.store[r] = v
        return Loc(r)

    def oblige(self, st, goal, label, kind, node=None):
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if not z3.is_true(g):
            if self.dry == 0:
                self.obls.append(Obligation(label, kind, list(st.pc), goal, line_of(node) if node else None, self.curfn[-1] if self.curfn else '', st.notes))
            st.pc.append(goal)
        else:
            if self.dry == 0:
                self.obls.append(Obligation(label, kind, [], z3.BoolVal(True), line_of(node) if node else None, self.curfn[-1] if self.curfn else '', []))

    def valid(self, st, goal, timeout=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and not st.pc:
            return False
        s, _ = prove(st.pc, goal, self.extra, timeout or self.fast)
        return s == 'proved'

    def feasible(self, st, c):
        g = z3.simplify(c)
        if z3.is_false(g):
            return False
        if z3.is_true(g):
            return True
        return satisfiable_pc(st.pc + [c], self.extra, 250)

    def throw(self, st, what='exception'):
        self.thrown.append((st, what))

    # ------------------------------------------------------------------ memory
    def read(self, st, loc):
        if isinstance(loc, ValLoc):
            return loc.val
        if isinstance(loc, CondLoc):
            return ite(self.w, loc.c, self.read(st, loc.a), self.read(st, loc.b))
        if loc.root not in st.store:
            raise Unsupported('read of unknown object ' + loc.root)
        v = st.store[loc.root]
        for p in loc.path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        if p[0] == 'f':
            if isinstance(v, Undef):
                for n, s in self.sorts.fields(v.sh):
                    if n == p[1]:
                        return Undef(s)
            if not isinstance(v, Rec):
                raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
            if p[1] not in v.f:
                raise Unsupported('no field %s' % p[1])
            return v.f[p[1]]
        if p[0] == 'i':
            if isinstance(v, T) and v.sh.kind == 'seq':
                return self.sorts.reflect(self.sorts.th(v.sh).at(v.t, p[1]), v.sh.elem)
            raise Unsupported('index into %s' % type(v).__name__)
        if p[0] == 'mv':
            return self.sorts.reflect(z3.Select(v.val, p[1]), v.sh.v)
        if p[0] == 'fx':
            vals = [v.f[nm] for nm, _ in self.sorts.fields(v.sh)]
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = ite(self.w, p[1] == k, vals[k], r)
            return r
        if p[0] == 'h':
            return v.get(p[1])
        raise Unsupported('path')

    def write(self, st, loc, nv):
        if isinstance(loc, ValLoc):
            raise Unsupported('write through a read-only glvalue')
        if isinstance(loc, CondLoc):
            a, b = self.read(st, loc.a), self.read(st, loc.b)
            self.write(st, loc.a, ite(self.w, loc.c, nv, a))
            b = self.read(st, loc.b)
            self.write(st, loc.b, ite(self.w, loc.c, b, nv))
            return
        if loc.root.startswith('drop#'):
            return
        if isinstance(nv, (It, Ptr)):
            nv = self.to_hptr(st, loc, nv)
        st.nw += 1
        if st.writes is not None:
            pre = []
            for p in loc.path:
                if p[0] != 'f':
                    break
                pre.append(p[1])
            st.writes.add((loc.root, tuple(pre)))
        if loc.root not in st.store:
            raise Unsupported('write to unknown object ' + str(loc.root))
        st.store[loc.root] = self.wr(st.store[loc.root], list(loc.path), nv)

    def to_hptr(self, st, loc, nv):
        """a pointer written to a field that is modelled as (array, offset)"""
        if not loc.path or loc.path[-1][0] != 'f':
            return nv
        try:
            cur = self.read(st, loc)
        except Unsupported:
            return nv
        if not isinstance(getattr(cur, 'sh', None), THPtr):
            return nv
        i64 = TInt(64, True)
        if isinstance(nv, Ptr) and nv.loc is None:
            return Rec({'id': T(z3.IntVal(0), i64), 'off': T(z3.IntVal(0), i64)}, cur.sh)
        if isinstance(nv, It) and nv.loc.path and nv.loc.path[-1] == ('f', 'v'):
            own = self.read(st, Loc(nv.loc.root, nv.loc.path[:-1]))
            if isinstance(own.sh, THeap):
                return Rec({'id': own.f['id'], 'off': T(nv.off, i64)}, cur.sh)
        raise Unsupported('pointer stored in a field')

    def e_CXXNewExpr(self, n, st):
        sh = self.w.types.of(n)
        if not n.get('isArray'):
            # an object on the heap: what is known of it is its type and what it was constructed from
            ce = [c for c in self.inner(n) if c['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')]
            if len(ce) != 1 or len(self.inner(n)) != 1:
                raise Unsupported('new')
            return [(s, ('new', sh.to, [self.rv(s, r) for r in rs])) for s, rs in self.evs([c for c in self.inner(ce[0])], st)]
        out = []
        for s, r in self.ev(self.inner(n)[0], st):
            cnt = self.rv(s, r)
            self.oblige(s, z3.And(cnt.t >= 0, cnt.t <= MAXLEN), 'array size is not negative and does not exceed the address space', 'alloc', n)
            cons = []
            hs = THeap(sh.to)
            v = self.sorts.fresh(hs, 'newarr', cons)
            cons += [v.f['id'].t > 0, self.sorts.th(hs.el[1]).len(v.f['v'].t) == cnt.t]
            s.pc += cons
            out.append((s, v))
        return out

    def wr(self, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, Undef):
                v = Rec({n: Undef(s) for n, s in self.sorts.fields(v.sh)}, v.sh)
            f = dict(v.f)
            f[p[1]] = self.wr(f[p[1]], path[1:], nv)
            return Rec(f, v.sh)
        if p[0] == 'i':
            th = self.sorts.th(v.sh)
            el = self.sorts.reflect(th.at(v.t, p[1]), v.sh.elem)
            return T(th.upd(v.t, p[1], self.sorts.reify(self.coerce(self.wr(el, path[1:], nv), v.sh.elem), v.sh.elem)), v.sh)
        if p[0] == 'mv':
            el = self.sorts.reflect(z3.Select(v.val, p[1]), v.sh.v)
            return MapV(v.dom, z3.Store(v.val, p[1], self.sorts.reify(self.coerce(self.wr(el, path[1:], nv), v.sh.v), v.sh.v)), v.size, v.sh)
        if p[0] == 'fx':
            f = dict(v.f)
            for k, (nm, _) in enumerate(self.sorts.fields(v.sh)):
                f[nm] = ite(self.w, p[1] == k, self.coerce(nv, f[nm].sh), f[nm])
            return Rec(f, v.sh)
        if p[0] == 'h':
            return v.put(self, p[1], path[1:], nv)
        raise Unsupported('write path')

    def coerce(self, v, sh):
        if isinstance(v, T) and sh.kind == 'float' and v.t.sort() == I:
            return T(z3.ToReal(v.t), sh)
        return v

    def rv(self, st, r):
        """rvalue of an evaluation result"""
        if isinstance(r, Loc):
            return self.read(st, r)
        return r

    # ------------------------------------------------------------------ integers
    def mkint(self, n, sh):
        if self.bv and sh.kind == 'int':
            return T(z3.BitVecVal(n, sh.bits), sh)
        return T(z3.IntVal(n), sh)

    def wrap(self, st, t, sh):
        """value of mathematical integer t converted to sh (modulo 2^n)"""
        if z3.is_int_value(t):
            n = t.as_long()
            n &= (1 << sh.bits) - 1
            if sh.signed and n > sh.hi:
                n -= 1 << sh.bits
            return z3.IntVal(n)
        if self.valid(st, z3.And(t >= sh.lo, t <= sh.hi), 400):
            return t
        m = 1 << sh.bits
        if self.valid(st, z3.And(t >= sh.lo - m, t <= sh.hi + m), 300):
            return z3.If(t < sh.lo, t + m, z3.If(t > sh.hi, t - m, t))
        if sh.signed:
            return (t - sh.lo) % m + sh.lo
        return t % m

    def conv_int(self, st, v, sh):
        """integral conversion"""
        t = v.t
        if t.sort() == B:
            if self.bv:
                return T(z3.If(t, z3.BitVecVal(1, sh.bits), z3.BitVecVal(0, sh.bits)), sh)
            return T(z3.simplify(z3.If(t, z3.IntVal(1), z3.IntVal(0))), sh)
        if z3.is_bv(t):
            b = t.size()
            if sh.kind == 'enum' and z3.is_bv_value(z3.simplify(t)):
                return T(z3.IntVal(z3.simplify(t).as_signed_long() if v.sh.signed else z3.simplify(t).as_long()), sh)
            if sh.kind != 'int':
                raise Unsupported('bv conversion')
            if sh.bits == b:
                return T(t, sh)
            if sh.bits < b:
                return T(z3.Extract(sh.bits - 1, 0, t), sh)
            src = v.sh
            signed = src.signed if src.kind == 'int' else True
            return T((z3.SignExt if signed else z3.ZeroExt)(sh.bits - b, t), sh)
        if sh.kind == 'int':
            if self.bv:
                src = v.sh if v.sh.kind == 'int' else TInt(32, True)
                x = z3.Int2BV(t, src.bits)
                return self.conv_int(st, T(x, src), sh)
            if v.sh.kind in ('int', 'enum') and v.sh.lo >= sh.lo and v.sh.hi <= sh.hi:
                return T(t, sh)
            return T(self.wrap(st, t, sh), sh)
        return T(t, sh)

    def arith(self, st, op, a, b, sh, node):
        """integer / float arithmetic in type sh"""
        x, y = a.t, b.t
        if sh.kind == 'float':
            return self.farith(st, op, a, b, sh, node)
        if z3.is_bv(x) or z3.is_bv(y):
            return self.bvarith(st, op, a, b, sh, node)
        if op in ('+', '-', '*'):
            r = x + y if op == '+' else x - y if op == '-' else logic.imul(x, y)
            r = z3.simplify(r)
            if sh.signed:
                self.oblige(st, z3.And(r >= sh.lo, r <= sh.hi), 'no signed overflow in %s' % op, 'overflow', node)
                return T(r, sh)
            return T(self.wrap(st, r, sh), sh)
        if op in ('/', '%'):
            self.oblige(st, y != 0, 'divisor is non-zero', 'div0', node)
            if not sh.signed or (self.valid(st, z3.And(x >= 0, y > 0), 300)):
                if op == '%' and not z3.is_int_value(y):
                    # symbolic modulus: linear form where the range allows it
                    if self.valid(st, z3.And(x >= 0, x < y), 300):
                        return T(x, sh)
                    if self.valid(st, z3.And(x >= 0, x < 2 * y), 300):
                        return T(z3.If(x >= y, x - y, x), sh)
                    return T(logic.mod_(x, y), sh)
                if not z3.is_int_value(y):
                    return T(logic.div_(x, y), sh)
                return T(x / y if op == '/' else x % y, sh)
            # truncated division
            ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
            q = z3.If((x >= 0) == (y >= 0), ax / ay, -(ax / ay))
            if op == '/':
                self.oblige(st, z3.And(q >= sh.lo, q <= sh.hi), 'no signed overflow in /', 'overflow', node)
                return T(q, sh)
            return T(x - logic.imul(q, y), sh)
        if op in ('<<', '>>', '&', '|', '^'):
            if z3.is_int_value(x) and z3.is_int_value(y):
                p, q = x.as_long(), y.as_long()
                r = {'<<': lambda: p << q, '>>': lambda: p >> q, '&': lambda: p & q, '|': lambda: p | q, '^': lambda: p ^ q}[op]()
                return T(self.wrap(st, z3.IntVal(r), sh), sh)
            if op == '&' and z3.is_int_value(y) and y.as_long() == 1:
                return T(x % 2, sh)
            if op == '<<' and z3.is_int_value(y):
                return T(self.wrap(st, x * (1 << y.as_long()), sh), sh)
            if op == '>>' and z3.is_int_value(y) and not sh.signed and y.as_long() < sh.bits:
                return T(x / (1 << y.as_long()), sh)
            if op in ('&', '|', '^') and not sh.signed and (z3.is_int_value(x) or z3.is_int_value(y)):
                # exact arithmetic form for masks with few relevant bits
                v, m = (x, y.as_long()) if z3.is_int_value(y) else (y, x.as_long())
                bit = lambda k: (v / (1 << k)) % 2 if k else v % 2
                ones = [k for k in range(sh.bits) if (m >> k) & 1]
                zeros = [k for k in range(sh.bits) if not (m >> k) & 1]
                if op == '&' and len(ones) <= 8:
                    return T(z3.Sum([bit(k) * (1 << k) for k in ones]) if ones else z3.IntVal(0), sh)
                if op == '&' and len(zeros) <= 8:
                    return T(v - z3.Sum([bit(k) * (1 << k) for k in zeros]) if zeros else v, sh)
                if op == '|' and len(ones) <= 8:
                    return T(v + z3.Sum([(1 - bit(k)) * (1 << k) for k in ones]) if ones else v, sh)
                if op == '^' and len(ones) <= 8:
                    return T(v + z3.Sum([(1 - 2 * bit(k)) * (1 << k) for k in ones]) if ones else v, sh)
            # uninterpreted bit operations (sound: nothing is assumed about them but congruence)
            f = z3.Function('bit_%s_%s' % ({'<<': 'shl', '>>': 'shr', '&': 'and', '|': 'or', '^': 'xor'}[op], sh.key()), I, I, I)
            r = f(x, y)
            st.pc.append(z3.And(r >= sh.lo, r <= sh.hi))
            if op in ('&', '|', '^'):
                st.pc.append(r == f(y, x))
            return T(r, sh)
        raise Unsupported('arith ' + op)

    def bvarith(self, st, op, a, b, sh, node):
        x, y = self.conv_int(st, a, sh).t, None
        if op in ('<<', '>>'):
            y = self.conv_int(st, b, sh).t
            bb = b.t
            if z3.is_bv(bb):
                self.oblige(st, z3.And(z3.ULT(bb, z3.BitVecVal(sh.bits, bb.size()))) if bb.size() >= 8 else z3.BoolVal(True), 'shift amount in range', 'shift', node)
            if op == '<<':
                return T(x << y, sh)
            return T((x >> y) if sh.signed else z3.LShR(x, y), sh)
        y = self.conv_int(st, b, sh).t
        if op in ('+', '-', '*'):
            r = x + y if op == '+' else x - y if op == '-' else x * y
            if sh.signed:
                ov = {'+': z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                      '-': z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                      '*': z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]
                self.oblige(st, ov, 'no signed overflow in %s' % op, 'overflow', node)
            return T(r, sh)
        if op in ('/', '%'):
            self.oblige(st, y != 0, 'divisor is non-zero', 'div0', node)
            if op == '/':
                return T(x / y if sh.signed else z3.UDiv(x, y), sh)
            return T(z3.SRem(x, y) if sh.signed else z3.URem(x, y), sh)
        r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
        return T(r, sh)

    def farith(self, st, op, a, b, sh, node):
        self.w.assumptions.add('floating-point arithmetic treated as exact real arithmetic')
        x, y = self.toreal(a), self.toreal(b)
        if op == '+':
            return T(x + y, sh)
        if op == '-':
            return T(x - y, sh)
        if op == '*':
            return T(logic.rmul(x, y) if self.w.real_uf else x * y, sh)
        if op == '/':
            if self.ct is not None and 'ieee-div' not in self.ct.note:
                self.oblige(st, y != 0, 'real divisor is non-zero', 'div0', node)
            return T(logic.rdiv(x, y) if self.w.real_uf else x / y, sh)
        raise Unsupported('float op ' + op)

    def toreal(self, v):
        t = v.t
        if t.sort() == I:
            return z3.ToReal(t)
        if t.sort() == B:
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        return t

    def compare(self, st, op, a, b, node):
        a, b = self.hptr_pair(st, a, b, node)
        if isinstance(a, (Ptr, FP)) and isinstance(b, (Ptr, FP)) and (isinstance(a, FP) or isinstance(b, FP)):
            a, b = self.field_ptr(st, a), self.field_ptr(st, b)
            if repr(a.loc) != repr(b.loc):
                raise Unsupported('comparison of unrelated pointers')
            i64 = TInt(64, True)
            a, b = T(a.off, i64), T(b.off, i64)
        if isinstance(a, T) and isinstance(b, T):
            x, y = a.t, b.t
            if z3.is_bv(x) or z3.is_bv(y):
                sh = a.sh if z3.is_bv(x) else b.sh
                x, y = self.conv_int(st, a, sh).t, self.conv_int(st, b, sh).t
                s = sh.kind != 'int' or sh.signed
                r = {'==': lambda: x == y, '!=': lambda: x != y,
                     '<': lambda: x < y if s else z3.ULT(x, y), '<=': lambda: x <= y if s else z3.ULE(x, y),
                     '>': lambda: x > y if s else z3.UGT(x, y), '>=': lambda: x >= y if s else z3.UGE(x, y)}[op]()
                return T(r, TBool())
            if x.sort() == B and y.sort() == B and op in ('==', '!='):
                return T(x == y if op == '==' else x != y, TBool())
            if x.sort() != y.sort() or x.sort() in (I, z3.RealSort(), B):
                x, y = num2(a, b)
            if op == '==':
                return T(x == y, TBool())
            if op == '!=':
                return T(x != y, TBool())
            if x.sort() not in (I, z3.RealSort()):
                raise Unsupported('ordering on ' + str(x.sort()))
            return T({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op], TBool())
        if isinstance(a, CP) and isinstance(b, CP):
            na, nb = z3.simplify(a.null), z3.simplify(b.null)
            if z3.is_true(nb) or z3.is_true(na):
                o = na if z3.is_true(nb) else nb
                e = a.null if z3.is_true(nb) else b.null
                return T(e if op == '==' else z3.Not(e), TBool())
            self.oblige(st, a.base == b.base, 'compared pointers point into the same buffer', 'ptr', node)
            x, y = a.off, b.off
            return T({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op], TBool())
        if isinstance(a, It) and isinstance(b, It):
            if repr(a.loc) != repr(b.loc):
                raise Unsupported('comparison of iterators into different containers')
            x, y = a.off, b.off
            return T({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op], TBool())
        if isinstance(a, (T, Ptr)) and isinstance(b, (T, Ptr)) and (isinstance(a, T) or isinstance(b, T)) and op in ('==', '!='):
            x, y = heap_id(a), heap_id(b)
            if x is not None and y is not None:
                return T(x == y if op == '==' else x != y, TBool())
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if b.loc is None or a.loc is None:
                e = a.null if b.loc is None else b.null
                return T(e if op == '==' else z3.Not(e), TBool())
            e = z3.BoolVal(repr(a.loc) == repr(b.loc))
            return T(e if op == '==' else z3.Not(e), TBool())
        if isinstance(a, MIt) and isinstance(b, MIt):
            e = z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))
            return T(e if op == '==' else z3.Not(e), TBool())
        raise Unsupported('compare %s %s' % (type(a).__name__, type(b).__name__))

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, st):
        """evaluate a list of expressions left to right: [(st, [results])]"""
        out = [(st, [])]
        for n in nodes:
            nxt = []
            for s, rs in out:
                for s2, r in self.ev(n, s):
                    nxt.append((s2, rs + [r]))
            out = nxt
        return out

    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s at line %s' % (k, line_of(n)))
        return m(n, st)

    def inner(self, n):
        return [c for c in n.get('inner', []) if c]

    def passthru(self, n, st):
        return self.ev(self.inner(n)[0], st)

    e_ParenExpr = passthru
    e_ExprWithCleanups = passthru
    e_CXXBindTemporaryExpr = passthru
    e_ConstantExpr = passthru
    e_SubstNonTypeTemplateParmExpr = None
    e_FullExpr = passthru
    e_CXXRewrittenBinaryOperator = passthru

    def e_SubstNonTypeTemplateParmExpr(self, n, st):
        for c in self.inner(n):
            if c['kind'] not in ('NonTypeTemplateParmDecl',):
                return self.ev(c, st)
        raise Unsupported('template parameter')

    def e_IntegerLiteral(self, n, st):
        return [(st, self.mkint(int(n['value']), self.w.types.of(n)))]

    def e_CharacterLiteral(self, n, st):
        v = int(n['value'])
        sh = self.w.types.of(n)
        if sh.signed and v > sh.hi:
            v -= 1 << sh.bits
        return [(st, self.mkint(v, sh))]

    def e_CXXBoolLiteralExpr(self, n, st):
        return [(st, T(z3.BoolVal(n['value'] in (True, 'true')), TBool()))]

    def e_FloatingLiteral(self, n, st):
        from fractions import Fraction
        s = n['value']
        if 'p' in s or 'x' in s:
            fr = Fraction(float.fromhex(s))
        else:
            fr = Fraction(s)
        return [(st, T(z3.RealVal(str(fr)), self.w.types.of(n)))]

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return [(st, Ptr(None))]

    def e_StringLiteral(self, n, st):
        raw = n['value']
        try:
            # clang prints C escapes; octal / hex / standard
            b = c_unescape(raw)
        except Exception:
            raise Unsupported('string literal')
        return [(st, ValLoc(T(logic.strlit(b), TSeq(CHAR, 'lit'))))]

    def e_PredefinedExpr(self, n, st):
        return [(st, ValLoc(T(logic.strlit('?'), TSeq(CHAR, 'lit'))))]

    def e_CXXThisExpr(self, n, st):
        if 'this' not in st.env:
            raise Unsupported('this')
        return [(st, Ptr(st.env['this']))]

    def e_CXXDefaultInitExpr(self, n, st):
        raise Unsupported('default member initialiser without expression')

    def e_CXXScalarValueInitExpr(self, n, st):
        return [(st, self.default(self.w.types.of(n)))]

    def e_ImplicitValueInitExpr(self, n, st):
        return [(st, self.default(self.w.types.of(n)))]

    def default(self, sh):
        v = self.sorts.default(sh)
        if self.bv:
            v = self.tobv(v)
        return v

    def tobv(self, v):
        if isinstance(v, T) and v.sh.kind == 'int' and v.t.sort() == I:
            return T(z3.simplify(z3.Int2BV(v.t, v.sh.bits)), v.sh)
        if isinstance(v, Rec):
            return Rec({k: self.tobv(x) for k, x in v.f.items()}, v.sh)
        return v

    def e_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        id_, k = rd['id'], rd['kind']
        if k == 'EnumConstantDecl':
            nd = self.tu.byid.get(id_)
            if nd is None or '_value' not in nd:
                raise Unsupported('enum constant ' + rd['name'])
            return [(st, T(z3.IntVal(nd['_value']), TEnum(nd['_enum'])))]
        if id_ in st.env:
            return [(st, st.env[id_])]
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, ('fn', id_, rd['name']))]
        if k == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parm')
        if k in ('VarDecl', 'VarTemplateSpecializationDecl'):
            return [(st, self.global_loc(st, rd))]
        if k == 'ParmVarDecl' or k == 'BindingDecl':
            raise Unsupported('unbound parameter ' + rd.get('name', '?'))
        raise Unsupported('reference to ' + k)

    def global_loc(self, st, rd):
        id_ = rd['id']
        if rd['name'] == 'npos':
            return ValLoc(T(z3.IntVal(NPOS), TInt(64, False)))
        if id_ in getattr(self.w, 'known_globals', {}):
            return ValLoc(T(z3.BoolVal(self.w.known_globals[id_]), TBool()))
        nd = self.tu.globals.get(id_)
        if nd is None:
            raise Unsupported('external variable ' + rd['name'])
        # find definition with initialiser
        key = 'g:' + self.tu.qname.get(id_, rd['name'])
        if key in st.store:
            return Loc(key)
        q = nd['type']['qualType']
        is_const = q.startswith('const ') or nd.get('constexpr')
        if is_const:
            init = None
            for cand in [nd] + [g for g in self.tu.globals.values() if g.get('previousDecl') == id_ or (g.get('name') == nd.get('name') and 'inner' in g and self.tu.qname.get(g['id']) == self.tu.qname.get(id_))]:
                for c in cand.get('inner', []):
                    if c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal') or c.get('kind', '').endswith('Operator'):
                        init = c
            if init is None:
                raise Unsupported('const global without initialiser ' + rd['name'])
            rs = self.ev(init, st)
            v = self.rv(rs[0][0], rs[0][1])
            st.store[key] = v
            return Loc(key)
        raise Unsupported('mutable global ' + rd['name'])

    def e_MaterializeTemporaryExpr(self, n, st):
        out = []
        for s, r in self.ev(self.inner(n)[0], st):
            if isinstance(r, Loc):
                out.append((s, r))
            else:
                out.append((s, self.alloc(s, r, 'tmp')))
        return out

    def e_CXXStdInitializerListExpr(self, n, st):
        # inner: MaterializeTemporary of array InitListExpr
        x = self.inner(n)[0]
        sh = self.w.types.of(n)
        out = []
        for s, r in self.ev(x, st):
            v = self.rv(s, r)
            out.append((s, T(v.t, sh)))
        return out

    def e_InitListExpr(self, n, st):
        sh = self.w.types.of(n)
        kids = self.inner(n)
        out = []
        if 'array_filler' in n:
            kids = [c for c in n['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr' or len(n['array_filler']) == 1]
            # array_filler list: first the filler, then explicit elements
            kids = n['array_filler'][1:]
        if sh.kind == 'seq':
            if len(kids) == 1 and kids[0].get('kind') == 'InitListExpr' and sh.cont == 'array':
                return [(s, T(self.rv(s, v).t, sh)) for s, v in self.ev(kids[0], st)]
            for s, rs in self.evs(kids, st):
                th = self.sorts.th(sh)
                t = th.empty
                for r in rs:
                    t = th.mkcat(t, th.unit(self.sorts.reify(self.coerce(self.rv(s, r), sh.elem), sh.elem)))
                if sh.n is not None and sh.n > len(kids):
                    d = self.sorts.reify(self.default(sh.elem), sh.elem)
                    t = th.mkcat(t, th.rep(z3.IntVal(sh.n - len(kids)), d))
                out.append((s, T(t, sh)))
            return out
        if sh.kind in ('rec', 'pair'):
            fs = self.sorts.fields(sh)
            for s, rs in self.evs(kids, st):
                f = {}
                for i, (nm, fsh) in enumerate(fs):
                    f[nm] = self.coerce(self.rv(s, rs[i]), fsh) if i < len(rs) else self.default(fsh)
                out.append((s, Rec(f, sh)))
            return out
        if len(kids) == 1:
            return self.ev(kids[0], st)
        if not kids:
            return [(st, self.default(sh))]
        raise Unsupported('init list for ' + sh.key())

    # casts
    def cast(self, n, st):
        ck = n.get('castKind')
        sub = self.inner(n)[-1] if n['kind'] != 'CXXFunctionalCastExpr' else self.inner(n)[0]
        sub = self.inner(n)[0]
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(sub, st)
        if ck == 'ToVoid':
            return [(s, VoidV()) for s, r in self.ev(sub, st)]
        out = []
        sh = self.w.types.of(n)
        for s, r in self.ev(sub, st):
            out += self.cast1(n, s, r, ck, sh, sub)
        return out

    def cast1(self, n, s, r, ck, sh, sub):
        if ck == 'LValueToRValue':
            v = self.rv(s, r)
            if isinstance(v, Undef):
                self.oblige(s, z3.BoolVal(False), 'no read of an uninitialised variable', 'uninit', n)
                cons = []
                v = self.sorts.fresh(v.sh, 'uninit', cons)
                s.pc += cons
            return [(s, v)]
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'Dependent'):
            return [(s, r)]
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            nm = '$base'
            if isinstance(r, tuple) and r[0] == 'new':
                return [(s, r)]
            if isinstance(r, Ptr):
                return [(s, Ptr(self.base_loc(s, r.loc, n), r.null))]
            if isinstance(r, Loc):
                return [(s, self.base_loc(s, r, n))]
            if isinstance(r, Rec):
                return [(s, r.f[nm])]
            raise Unsupported('derived-to-base')
        if ck == 'ArrayToPointerDecay':
            v = self.rv(s, r)
            if v.sh.kind == 'seq' and v.sh.elem == CHAR and v.sh.cont == 'lit':
                return [(s, CP(v.t, z3.IntVal(0)))]
            if isinstance(r, Loc) and not isinstance(r, ValLoc):
                return [(s, It(r, z3.IntVal(0)))]
            raise Unsupported('array decay')
        if ck == 'IntegralCast':
            v = self.rv(s, r)
            if sh.kind == 'bool':
                return [(s, T(v.t != 0, sh))]
            return [(s, self.conv_int(s, v, sh))]
        if ck == 'BooleanToSignedIntegral':
            raise Unsupported(ck)
        if ck == 'IntegralToBoolean':
            v = self.rv(s, r)
            if v.t.sort() == B:
                return [(s, v)]
            return [(s, T(z3.simplify(v.t != 0), TBool()))]
        if ck == 'IntegralToFloating':
            v = self.rv(s, r)
            if z3.is_bv(v.t):
                raise Unsupported('bv to float')
            return [(s, T(z3.simplify(self.toreal(v)), sh))]
        if ck == 'FloatingCast':
            v = self.rv(s, r)
            return [(s, T(v.t, sh))]
        if ck == 'FloatingToIntegral':
            v = self.rv(s, r)
            t = z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
            self.oblige(s, z3.And(t >= sh.lo, t <= sh.hi), 'float-to-integer conversion in range', 'fconv', n)
            return [(s, T(t, sh))]
        if ck == 'FloatingToBoolean':
            v = self.rv(s, r)
            return [(s, T(v.t != 0, TBool()))]
        if ck == 'NullToPointer':
            if sh.kind == 'cstr':
                return [(s, CP(CS.empty, z3.IntVal(0), z3.BoolVal(True)))]
            return [(s, Ptr(None, sh=sh))]
        if ck == 'PointerToBoolean':
            v = self.rv(s, r)
            if isinstance(v, (CP, Ptr)):
                return [(s, T(z3.Not(v.null), TBool()))]
            if isinstance(v, It):
                if v.loc.path and v.loc.path[-1] == ('f', 'v'):
                    raise Unsupported('pointer to bool')
                return [(s, T(z3.BoolVal(True), TBool()))]
            raise Unsupported('pointer to bool')
        if ck == 'BitCast' or ck == 'LValueBitCast':
            v = r
            if isinstance(v, (CP,)):
                return [(s, v)]
            raise Unsupported('bit cast')
        raise Unsupported('cast ' + str(ck))

    def base_loc(self, s, loc, n):
        path = n.get('path', [])
        cur = loc
        for step in (path or [None]):
            v = self.read(s, cur)
            if isinstance(v, (Rec, Undef)):
                sh = v.sh
                fs = self.sorts.fields(sh)
                bases = [(a, b) for a, b in fs if a.startswith('$base')]
                if not bases:
                    raise Unsupported('no base')
                pick = bases[0][0]
                if step and len(bases) > 1:
                    for a, b in bases:
                        if b.key().split('::')[-1].startswith(step['name'].split('::')[-1]):
                            pick = a
                cur = cur.f(pick)
            else:
                return cur
        return cur

    e_ImplicitCastExpr = cast
    e_CStyleCastExpr = cast
    e_CXXStaticCastExpr = cast
    e_CXXFunctionalCastExpr = cast
    e_CXXConstCastExpr = cast

    def e_MemberExpr(self, n, st):
        rid = n.get('referencedMemberDecl')
        base = self.inner(n)[0]
        nd = self.tu.byid.get(rid)
        if nd is not None and nd['kind'] == 'VarDecl':
            return [(st, self.global_loc(st, {'id': rid, 'name': nd['name']}))]
        if nd is not None and nd['kind'] == 'EnumConstantDecl':
            return [(st, T(z3.IntVal(nd['_value']), TEnum(nd['_enum'])))]
        out = []
        for s, r in self.ev(base, st):
            out.append((s, self.member(s, r, n['name'], n)))
        return out

    def member(self, s, r, name, n):
        if isinstance(r, Ptr):
            self.oblige(s, z3.Not(r.null), 'pointer is not null', 'null', n)
            if r.loc is None:
                raise Unsupported('member of null')
            loc = r.loc
        elif isinstance(r, It):
            th = self.sorts.th(self.read(s, r.loc).sh)
            self.deref_ok(s, r, n)
            loc = r.loc.i(r.off)
        elif isinstance(r, MIt):
            loc = self.mapit_loc(s, r, n)
            if name == 'first':
                return ValLoc(self.sorts.reflect(r.key, self.read(s, r.loc).sh.k))
            return Loc(r.loc.root, r.loc.path + (('mv', r.key),))
        elif isinstance(r, Loc):
            v = self.read(s, r) if isinstance(r, ValLoc) else None
            if isinstance(r, ValLoc):
                return ValLoc(self.step(v, ('f', name)))
            if isinstance(r, CondLoc):
                return CondLoc(r.c, self.member(s, r.a, name, n), self.member(s, r.b, name, n))
            loc = r
        elif isinstance(r, Rec):
            return ValLoc(r.f[name])
        else:
            raise Unsupported('member of %s' % type(r).__name__)
        v = self.read(s, loc)
        if isinstance(v, Rec) and name not in v.f and '$base' in v.f:
            # inherited member reached without explicit cast
            return self.member(s, loc.f('$base'), name, n)
        if isinstance(v, (Rec, Undef)) and v.sh.kind == 'rec' and (v.sh.name, name) in self.w.dropped:
            fd = [f for f in self.tu.fields(self.tu.records[v.sh.name]) if f['name'] == name][0]
            cons = []
            dl = self.alloc(s, self.sorts.fresh(self.w.types.of(fd), 'drop', cons), 'drop')
            s.pc += cons
            return dl
        # reference members are represented by an alias pointer
        fv = self.step(v, ('f', name))
        if isinstance(fv, RefV):
            return fv.loc
        return loc.f(name)

    def mapit_loc(self, s, r, n):
        self.oblige(s, z3.Not(r.end), 'map iterator is dereferenceable', 'bounds', n)
        return r.loc

    def deref_ok(self, s, it, n):
        v = self.read(s, it.loc)
        th = self.sorts.th(v.sh)
        self.oblige(s, z3.And(it.off >= 0, it.off < th.mklen(v.t)), 'dereferenced iterator/pointer is in range', 'bounds', n)

    def field_ptr(self, s, p):
        """pointer to a member of a record all of whose members have one arithmetic type: record and position"""
        if isinstance(p, FP):
            return p
        if p.loc is None or isinstance(p.loc, (ValLoc, CondLoc)) or not p.loc.path or p.loc.path[-1][0] != 'f':
            raise Unsupported('pointer arithmetic on an object pointer')
        loc = Loc(p.loc.root, p.loc.path[:-1])
        v = self.read(s, loc)
        fs = self.sorts.fields(v.sh) if v.sh.kind == 'rec' else []
        if not fs or any(sh.kind not in ('float', 'int') or sh != fs[0][1] for _, sh in fs):
            raise Unsupported('pointer arithmetic over members of different types')
        return FP(loc, z3.IntVal([nm for nm, _ in fs].index(p.loc.path[-1][1])))

    def field_deref(self, s, p, n):
        fs = self.sorts.fields(self.read(s, p.loc).sh)
        self.oblige(s, z3.And(p.off >= 0, p.off < len(fs)), 'dereferenced pointer points to a member', 'bounds', n)
        k = z3.simplify(p.off)
        if z3.is_int_value(k):
            if not 0 <= k.as_long() < len(fs):
                raise Unsupported('pointer outside the record')
            return p.loc.f(fs[k.as_long()][0])
        return Loc(p.loc.root, p.loc.path + (('fx', k),))

    def index(self, s, base, idx, n):
        """glvalue base[idx] for sequences"""
        if isinstance(base, (Ptr, FP)):
            p = self.field_ptr(s, base)
            return self.field_deref(s, FP(p.loc, z3.simplify(p.off + idx)), n)
        if isinstance(base, CP):
            return self.cp_deref(s, CP(base.base, z3.simplify(base.off + idx), base.null), n)
        if isinstance(base, It):
            it = It(base.loc, z3.simplify(base.off + idx))
            self.deref_ok(s, it, n)
            return base.loc.i(it.off)
        v = self.read(s, base)
        th = self.sorts.th(v.sh)
        self.oblige(s, z3.And(idx >= 0, idx < th.mklen(v.t)), 'index within bounds', 'bounds', n)
        if isinstance(base, ValLoc):
            return ValLoc(self.sorts.reflect(th.at(v.t, idx), v.sh.elem))
        if isinstance(base, CondLoc):
            return ValLoc(self.sorts.reflect(th.at(v.t, idx), v.sh.elem))
        return base.i(z3.simplify(idx))

    def cp_deref(self, s, p, n):
        self.oblige(s, z3.And(z3.Not(p.null), p.off >= 0, p.off <= CS.mklen(p.base)), 'dereferenced char pointer is within its buffer', 'bounds', n)
        c = z3.If(p.off < CS.mklen(p.base), CS.at(p.base, p.off), z3.IntVal(0))
        cs = z3.simplify(p.off)
        if z3.is_const(p.base) and str(p.base) in CS.lits and z3.is_int_value(cs):
            vals = CS.lits[str(p.base)]
            k = cs.as_long()
            c = vals[k] if 0 <= k < len(vals) else z3.IntVal(0)
        elif not z3.is_int_value(z3.simplify(c)):
            if self.valid(s, p.off < CS.mklen(p.base), 200):
                c = CS.at(p.base, p.off)
            # element range
            s.pc.append(z3.And(c >= -128, c <= 127))
        return ValLoc(T(c, CHAR), cp=p)

    def e_ArraySubscriptExpr(self, n, st):
        out = []
        for s, (b, i) in self.evs(self.inner(n), st):
            iv = self.rv(s, i)
            bv = b
            if isinstance(b, Loc):
                bv = self.rv(s, b)
                if isinstance(bv, T):
                    bv = b
            out.append((s, self.index(s, bv, iv.t, n)))
        return out

    # ---- unary
    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = self.inner(n)[0]
        out = []
        sh = self.w.types.of(n)
        for s, r in self.ev(sub, st):
            if op == '&':
                out.append((s, self.addr(s, r)))
            elif op == '*':
                out.append((s, self.deref(s, self.rv(s, r), n)))
            elif op in ('++', '--'):
                old = self.rv(s, r)
                if isinstance(old, Undef):
                    self.oblige(s, z3.BoolVal(False), 'no read of an uninitialised variable', 'uninit', n)
                    continue
                nv = self.incr(s, old, op, n)
                self.write(s, r, nv)
                out.append((s, old if n.get('isPostfix') else r))
            elif op == '!':
                v = self.rv(s, r)
                t = v.t if v.t.sort() == B else v.t != 0
                out.append((s, T(z3.simplify(z3.Not(t)), TBool())))
            elif op == '-':
                v = self.rv(s, r)
                if sh.kind == 'float':
                    out.append((s, T(-v.t, sh)))
                elif z3.is_bv(v.t):
                    out.append((s, T(-v.t, sh)))
                else:
                    t = z3.simplify(-v.t)
                    if sh.signed:
                        self.oblige(s, z3.And(t >= sh.lo, t <= sh.hi), 'no signed overflow in unary -', 'overflow', n)
                        out.append((s, T(t, sh)))
                    else:
                        out.append((s, T(self.wrap(s, t, sh), sh)))
            elif op == '+':
                out.append((s, self.rv(s, r)))
            elif op == '~':
                v = self.rv(s, r)
                if z3.is_bv(v.t):
                    out.append((s, T(~v.t, sh)))
                else:
                    out.append((s, T(z3.simplify((sh.hi - v.t) if not sh.signed else (-1 - v.t)), sh)))
            elif op in ('__extension__', 'extension'):
                out.append((s, r))
            else:
                raise Unsupported('unary ' + op)
        return out

    def addr(self, s, r):
        if isinstance(r, ValLoc):
            if r.cp is not None:
                return r.cp
            raise Unsupported('address of value')
        if isinstance(r, Loc):
            if r.path and r.path[-1][0] == 'i':
                par = Loc(r.root, r.path[:-1])
                v = self.read(s, par)
                if v.sh.elem == CHAR:
                    return CP(v.t, r.path[-1][1])
                return It(par, r.path[-1][1])
            return Ptr(r)
        if isinstance(r, tuple):
            return r
        raise Unsupported('address-of')

    def deref(self, s, v, n):
        if isinstance(v, FP):
            return self.field_deref(s, v, n)
        if isinstance(v, Ptr):
            self.oblige(s, z3.Not(v.null), 'dereferenced pointer is not null', 'null', n)
            if v.loc is None:
                raise Unsupported('null deref')
            return v.loc
        if isinstance(v, It):
            self.deref_ok(s, v, n)
            return v.loc.i(z3.simplify(v.off))
        if isinstance(v, CP):
            return self.cp_deref(s, v, n)
        if isinstance(v, MIt):
            self.mapit_loc(s, v, n)
            m = self.read(s, v.loc)
            return ValLoc(Rec({'first': self.sorts.reflect(v.key, m.sh.k), 'second': self.sorts.reflect(z3.Select(m.val, v.key), m.sh.v)}, TPair(m.sh.k, m.sh.v)))
        if isinstance(v, T) and v.sh.kind == 'ptr':
            return self.heap_loc(s, v, n)
        if isinstance(v, Clo) or isinstance(v, tuple):
            return v
        raise Unsupported('deref of %s' % type(v).__name__)

    def heap_loc(self, s, v, n):
        to = v.sh.to
        if to.kind != 'rec' or to.name not in self.w.heap_types:
            raise Unsupported('pointer to ' + to.key())
        self.oblige(s, v.t != 0, 'object pointer is not null', 'null', n)
        return Loc(self.w.heap_types[to.name], (('h', z3.simplify(v.t)),))

    def incr(self, s, v, op, n):
        d = 1 if op == '++' else -1
        if isinstance(v, T):
            if v.sh.kind == 'float':
                return T(v.t + d, v.sh)
            # ++ on narrow ints computes in int then converts
            if z3.is_bv(v.t):
                return T(v.t + d, v.sh)
            t = z3.simplify(v.t + d)
            if v.sh.kind == 'int' and v.sh.signed:
                if v.sh.bits >= 32:
                    self.oblige(s, z3.And(t >= v.sh.lo, t <= v.sh.hi), 'no signed overflow in ' + op, 'overflow', n)
                    return T(t, v.sh)
                return T(self.wrap(s, t, v.sh), v.sh)
            return T(self.wrap(s, t, v.sh), v.sh)
        return self.ptr_add(s, v, z3.IntVal(d), n)

    def ptr_add(self, s, v, d, n):
        if isinstance(v, (Ptr, FP)):
            p = self.field_ptr(s, v)
            no = z3.simplify(p.off + d)
            self.oblige(s, z3.And(no >= 0, no <= len(self.sorts.fields(self.read(s, p.loc).sh))), 'pointer stays within the object', 'bounds', n)
            return FP(p.loc, no)
        if isinstance(v, It):
            no = z3.simplify(v.off + d)
            sv = self.read(s, v.loc)
            self.oblige(s, z3.And(no >= 0, no <= self.sorts.th(sv.sh).mklen(sv.t)), 'iterator stays within [begin,end]', 'bounds', n)
            return It(v.loc, no, v.sh)
        if isinstance(v, CP):
            no = z3.simplify(v.off + d)
            self.oblige(s, z3.And(z3.Not(v.null), no >= 0, no <= CS.mklen(v.base) + 1), 'char pointer stays within its buffer', 'bounds', n)
            return CP(v.base, no, v.null)
        raise Unsupported('pointer arithmetic on %s' % type(v).__name__)

    # ---- binary
    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = self.inner(n)
        if op in ('&&', '||'):
            return self.shortcircuit(n, a, b, op, st)
        if op == ',':
            out = []
            for s, _ in self.ev(a, st):
                out += self.ev(b, s)
            return out
        if op == '=':
            out = []
            for s, rr in self.ev(b, st):
                v = self.rv(s, rr)
                for s2, l in self.ev(a, s):
                    self.assign(s2, l, v)
                    out.append((s2, l))
            return out
        out = []
        sh = self.w.types.of(n)
        for s, (x, y) in self.evs([a, b], st):
            xv, yv = self.rv(s, x), self.rv(s, y)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((s, self.compare(s, op, xv, yv, n)))
            else:
                out.append((s, self.binop(s, op, xv, yv, sh, n)))
        return out

    def hptr_pair(self, s, a, b, n):
        """a pointer kept as (array, offset) next to a pointer into an owned array: both as offsets into that array"""
        for p, q, sw in ((a, b, False), (b, a, True)):
            if isinstance(p, Rec) and isinstance(p.sh, THPtr) and isinstance(q, It) and q.loc.path and q.loc.path[-1] == ('f', 'v'):
                own = self.read(s, Loc(q.loc.root, q.loc.path[:-1]))
                if isinstance(own.sh, THeap):
                    self.oblige(s, z3.And(p.f['id'].t == own.f['id'].t), 'subtracted or compared pointers point into the same buffer', 'ptr', n)
                    r = It(q.loc, p.f['off'].t)
                    return (q, r) if sw else (r, q)
        return a, b

    def binop(self, s, op, xv, yv, sh, n):
        xv, yv = self.hptr_pair(s, xv, yv, n)
        if isinstance(xv, (Ptr, FP)) and isinstance(yv, (Ptr, FP)) and op == '-':
            xv, yv = self.field_ptr(s, xv), self.field_ptr(s, yv)
        if isinstance(xv, (It, CP, FP, Ptr)) or isinstance(yv, (It, CP, FP, Ptr)):
            if op == '-' and type(xv) == type(yv):
                if isinstance(xv, (It, FP)):
                    if repr(xv.loc) != repr(yv.loc):
                        raise Unsupported('difference of unrelated iterators')
                else:
                    self.oblige(s, xv.base == yv.base, 'subtracted pointers point into the same buffer', 'ptr', n)
                return T(z3.simplify(xv.off - yv.off), sh)
            if op == '+':
                p, d = (xv, yv) if isinstance(xv, (It, CP, FP, Ptr)) else (yv, xv)
                return self.ptr_add(s, p, d.t, n)
            if op == '-':
                return self.ptr_add(s, xv, -yv.t, n)
            raise Unsupported('pointer op ' + op)
        return self.arith(s, op, xv, yv, sh, n)

    def assign(self, s, l, v):
        if not isinstance(l, Loc):
            raise Unsupported('assignment target')
        self.write(s, l, v)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = self.inner(n)
        out = []
        t = n.get('computeResultType', n.get('type'))
        csh = self.w.types.parse(t.get('desugaredQualType') or t['qualType'], t['qualType'])
        lsh = self.w.types.of(n)
        for s, rr in self.ev(b, st):
            y = self.rv(s, rr)
            for s2, l in self.ev(a, s):
                x = self.rv(s2, l)
                if isinstance(x, Undef):
                    self.oblige(s2, z3.BoolVal(False), 'no read of an uninitialised variable', 'uninit', n)
                    continue
                if isinstance(x, (It, CP)):
                    d = y.t if op == '+' else -y.t
                    self.write(s2, l, self.ptr_add(s2, x, d, n))
                else:
                    if csh.kind == 'int' and x.sh.kind == 'int':
                        x = self.conv_int(s2, x, csh)
                    r = self.arith(s2, op, x, y, csh, n)
                    if lsh.kind == 'int' and csh.kind == 'int':
                        r = self.conv_int(s2, r, lsh)
                    elif lsh.kind == 'int' and csh.kind == 'float':
                        r = self.cast1(n, s2, r, 'FloatingToIntegral', lsh, None)[0][1]
                    elif lsh.kind == 'bool':
                        r = T(r.t != 0, lsh)
                    self.write(s2, l, T(r.t, lsh))
                out.append((s2, l))
        return out

    def tobool(self, v):
        if isinstance(v, T):
            return v.t if v.t.sort() == B else v.t != 0
        if isinstance(v, (CP, Ptr)):
            return z3.Not(v.null)
        raise Unsupported('condition of %s' % type(v).__name__)

    def shortcircuit(self, n, a, b, op, st):
        out = []
        for s, r in self.ev(a, st):
            x = z3.simplify(self.tobool(self.rv(s, r)))
            g = x if op == '&&' else z3.simplify(z3.Not(x))   # condition to evaluate rhs
            if z3.is_false(g):
                out.append((s, T(z3.BoolVal(op == '||'), TBool())))
                continue
            if z3.is_true(g):
                for s2, r2 in self.ev(b, s):
                    out.append((s2, T(self.tobool(self.rv(s2, r2)), TBool())))
                continue
            s1 = s.copy()
            s1.pc.append(g)
            n0, nthr = len(s1.pc), len(self.thrown)
            res = self.ev(b, s1)
            if len(res) == 1 and res[0][0].nw == s.nw and len(self.thrown) == nthr:
                s2, r2 = res[0]
                y = self.tobool(self.rv(s2, r2))
                facts = s2.pc[n0:]
                s.pc += [z3.Implies(g, f) for f in facts]
                for k_, v_ in s2.store.items():
                    s.store.setdefault(k_, v_)
                out.append((s, T(z3.And(x, y) if op == '&&' else z3.Or(x, y), TBool())))
            else:
                for s2, r2 in res:
                    out.append((s2, T(self.tobool(self.rv(s2, r2)), TBool())))
                s.pc.append(z3.Not(g))
                if self.feasible(s, z3.BoolVal(True)):
                    out.append((s, T(z3.BoolVal(op == '||'), TBool())))
        return out

    def e_ConditionalOperator(self, n, st):
        c, a, b = self.inner(n)
        out = []
        for s, r in self.ev(c, st):
            x = z3.simplify(self.tobool(self.rv(s, r)))
            if z3.is_true(x):
                out += self.ev(a, s)
                continue
            if z3.is_false(x):
                out += self.ev(b, s)
                continue
            s1, s2 = s.copy(), s.copy()
            s1.pc.append(x)
            s2.pc.append(z3.Not(x))
            f1, f2 = self.feasible(s, x), self.feasible(s, z3.Not(x))
            if not f1:
                out += self.ev(b, s2)
                continue
            if not f2:
                out += self.ev(a, s1)
                continue
            out += self.ev(a, s1)
            out += self.ev(b, s2)
        return out

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') == 'sizeof':
            t = n.get('argType')
            if t:
                sh = self.w.types.parse(t.get('desugaredQualType') or t['qualType'], t['qualType'])
                if sh.kind == 'int':
                    return [(st, T(z3.IntVal(sh.bits // 8), TInt(64, False)))]
            else:
                sh = self.w.types.of(self.inner(n)[0])
                if sh.kind == 'seq' and sh.n is not None and sh.elem == CHAR:
                    return [(st, T(z3.IntVal(sh.n), TInt(64, False)))]
                if sh.kind == 'int':
                    return [(st, T(z3.IntVal(sh.bits // 8), TInt(64, False)))]
        raise Unsupported('sizeof')

    def e_LambdaExpr(self, n, st):
        return [(st, Clo(n, dict(st.env)))]

    def call_closure(self, st, clo, args):
        """args: list of Loc/V"""
        rec = [c for c in clo.node['inner'] if c.get('kind') == 'CXXRecordDecl'][0]
        op = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
            if c.get('kind') == 'FunctionTemplateDecl':
                for d in c.get('inner', []):
                    if d.get('kind') == 'CXXMethodDecl' and TU_body(d) is not None:
                        op = d
        if op is None:
            raise Unsupported('lambda')
        body = TU_body(op) or clo.node['inner'][-1]
        return self.inline(st, op, body, None, args, dict(clo.env), ret=op['type']['qualType'])

    def e_CXXThrowExpr(self, n, st):
        self.throw(st, 'throw')
        return []

    def e_CXXDefaultArgExpr(self, n, st):
        raise Unsupported('default argument outside a call')

    # ---- construction
    def real_args(self, n):
        return [c for c in self.inner(n) if c['kind'] != 'CXXDefaultArgExpr']

    def e_CXXConstructExpr(self, n, st):
        sh = self.w.types.of(n)
        ct = n.get('ctorType', {}).get('qualType', '')
        if sh.kind == 'rec':
            return self.construct_rec(n, st, sh, ct)
        args = self.real_args(n)
        out = []
        for s, rs in self.evs(args, st):
            out += stdmodel.construct(self, s, sh, ct, rs, n)
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_rec(self, n, st, sh, ct):
        rec = self.tu.records[sh.name]
        ctor = None
        cands = []
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXConstructorDecl':
                cands.append(c)
            if c.get('kind') == 'FunctionTemplateDecl':
                cands += [d for d in c.get('inner', [])[0:] if d.get('kind') == 'CXXConstructorDecl']
        norm = lambda q: re.sub(r'\s+|noexcept(\([^)]*\))?', '', q)
        for c in cands:
            if norm(c['type']['qualType']) == norm(ct):
                ctor = c
                if self.tu.definition(c['id']) is not None:
                    break
        args = self.inner(n)
        iscopy = len([a for a in args if a['kind'] != 'CXXDefaultArgExpr']) == 1 and re.match(r'^void ?\((const )?[\w:<>, *]+ ?&&?\)', ct) and self.is_self_type(ct, sh)
        d = self.tu.definition(ctor['id']) if ctor is not None else None
        if d is None or d.get('isImplicit') or d.get('explicitlyDefaulted'):
            if iscopy:
                out = []
                for s, (r,) in self.evs(args, st):
                    out.append((s, self.rv(s, r)))
                return out
            if not args:
                return self.construct_default(st, sh, rec)
            raise Unsupported('constructor %s of %s' % (ct, sh.name))
        # user-defined constructor
        out = []
        for s, rs in self.eval_args(d, args, st):
            loc = self.alloc(s, Undef(sh), 'obj')
            s.store[loc.root] = Rec({a: Undef(b) for a, b in self.sorts.fields(sh)}, sh)
            for s2, _ in self.call(s, d, loc, rs, n):
                out.append((s2, self.read(s2, loc)))
        return out

    def is_self_type(self, ct, sh):
        m = re.match(r'^void ?\((?:const )?([\w:<>, *]+?) ?&&?\)', ct)
        if not m:
            return False
        t = self.w.types.parse(m.group(1))
        return t == sh or m.group(1).split('<')[0].split('::')[-1] == sh.name.split('<')[0].split('::')[-1]

    def construct_default(self, st, sh, rec):
        """implicit default constructor: default member initialisers, then default-init"""
        states = [(st, {})]
        for k, b in enumerate(rec.get('bases', [])):
            for nm, bs in self.sorts.fields(sh):
                if nm == ('$base' if k == 0 else '$base%d' % k):
                    states = [(s, dict(f, **{nm: self.default(bs)})) for s, f in states]
        for fd in self.tu.fields(rec):
            if (sh.name, fd['name']) in self.w.dropped:
                continue
            fs = self.w.types.of(fd)
            init = [c for c in self.inner(fd) if 'Comment' not in c['kind']]
            nxt = []
            for s, f in states:
                if init:
                    for s2, r in self.ev(init[0], s):
                        nxt.append((s2, dict(f, **{fd['name']: self.rv(s2, r)})))
                else:
                    nxt += [(s2, dict(f, **{fd['name']: v})) for s2, v in self.default_init(s, fs)]
            states = nxt
        return [(s, Rec(f, sh)) for s, f in states]

    def default_init(self, st, fs):
        if fs.kind == 'rec':
            rec = self.tu.records[fs.name]
            # user ctor without args?
            for c in rec.get('inner', []):
                if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') and not c.get('explicitlyDefaulted'):
                    d = self.tu.definition(c['id'])
                    if d is not None and all(p.get('init') for p in self.tu.params(c)):
                        loc = self.alloc(st, Undef(fs), 'obj')
                        st.store[loc.root] = Rec({a: Undef(b) for a, b in self.sorts.fields(fs)}, fs)
                        out = []
                        for s, rs in self.eval_args(d, [{'kind': 'CXXDefaultArgExpr'} for _ in self.tu.params(d)], st):
                            for s2, _ in self.call(s, d, loc, rs, c):
                                out.append((s2, self.read(s2, loc)))
                        return out
            return self.construct_default(st, fs, rec)
        if fs.kind in ('int', 'bool', 'float', 'enum', 'ptr', 'cstr'):
            return [(st, Undef(fs))]
        return [(st, self.default(fs))]

    # ---- calls
    def eval_args(self, fnode, args, st):
        """evaluate call arguments, substituting default arguments from the callee"""
        ps = self.tu.params(fnode)
        nodes = []
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr':
                init = self.default_arg(fnode, i)
                if init is None:
                    raise Unsupported('default argument')
                nodes.append(init)
            else:
                nodes.append(a)
        return self.evs(nodes, st)

    def default_arg(self, fnode, i):
        cands = [fnode, self.tu.byid.get(self.tu.canonical(fnode['id'])), fnode.get('_pattern')]
        for c in list(cands):
            if c is not None and 'previousDecl' in c:
                cands.append(self.tu.byid.get(c['previousDecl']))
        for c in cands:
            if not c:
                continue
            ps = self.tu.params(c)
            if i < len(ps):
                for e in ps[i].get('inner', []):
                    if e and not e['kind'].endswith('Comment') and not e['kind'].endswith('Attr') and not e['kind'].endswith('Type'):
                        return e
        return None

    def e_CallExpr(self, n, st):
        inn = self.inner(n)
        callee, args = inn[0], inn[1:]
        out = []
        for s, f in self.ev(callee, st):
            if isinstance(f, Loc):
                f = self.rv(s, f)
            if isinstance(f, Clo):
                for s2, rs in self.evs(args, s):
                    out += self.call_closure(s2, f, rs)
                continue
            if not isinstance(f, tuple):
                raise Unsupported('indirect call')
            _, id_, name = f
            d = self.find_callee(id_)
            if d is not None:
                for s2, rs in self.eval_args(d, args, s):
                    out += self.call(s2, d, None, rs, n)
            else:
                out += self.std_free(n, s, name, args, id_)
        return out

    def find_callee(self, id_):
        d = self.tu.definition(id_)
        if d is not None:
            return d
        c = self.tu.canonical(id_)
        if c in self.w.contracts:
            return self.w.contracts[c].node
        nd = self.tu.byid.get(id_)
        return None

    def std_free(self, n, s, name, args, id_):
        self.models.add('std::' + name)
        m = stdmodel.FREE.get(name) or getattr(self.w, 'std_hooks', {}).get(name)
        if m is None:
            raise Unsupported('call to ' + name)
        a2 = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        out = []
        for s2, rs in self.evs(a2, s):
            out += m(self, s2, rs, n)
        return out

    def e_CXXMemberCallExpr(self, n, st):
        inn = self.inner(n)
        me, args = inn[0], inn[1:]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = self.inner(me)[0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'])
        rid = me.get('referencedMemberDecl')
        d = self.find_callee(rid) if rid else None
        base = self.inner(me)[0]
        name = me['name']
        out = []
        nd = self.tu.byid.get(rid)
        for s, b in self.ev(base, st):
            if d is not None and not (nd is not None and nd.get('pure')):
                loc = self.this_loc(s, b, me)
                for s2, rs in self.eval_args(d, args, s):
                    out += self.call(s2, d, loc, rs, n)
            else:
                a2 = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
                for s2, rs in self.evs(a2, s):
                    hook = self.w.opaque_ops.get(name) if nd is not None else None
                    if hook:
                        out += hook(self, s2, b, rs, n)
                        continue
                    if nd is not None and nd['kind'] in ('CXXMethodDecl', 'CXXConversionDecl') and (nd.get('isImplicit') or nd.get('explicitlyDefaulted')) and name == 'operator=':
                        loc = self.this_loc(s2, b, me)
                        self.write(s2, loc, self.rv(s2, rs[0]))
                        out.append((s2, loc))
                        continue
                    out += stdmodel.method(self, s2, b, name, rs, n, me)
        return out

    def this_loc(self, s, b, n):
        if isinstance(b, T) and b.sh.kind == 'ptr':
            return self.heap_loc(s, b, n)
        if isinstance(b, Loc) and not isinstance(b, ValLoc):
            try:
                bv = self.read(s, b)
            except Unsupported:
                bv = None
            if isinstance(bv, T) and bv.sh.kind == 'ptr':
                return self.heap_loc(s, bv, n)
        if isinstance(b, Ptr):
            self.oblige(s, z3.Not(b.null), 'object pointer is not null', 'null', n)
            if b.loc is None:
                raise Unsupported('call on null')
            return b.loc
        if isinstance(b, It):
            self.deref_ok(s, b, n)
            return b.loc.i(b.off)
        if isinstance(b, ValLoc):
            return self.alloc(s, b.val, 'tmpobj')
        if isinstance(b, Loc):
            return b
        return self.alloc(s, b, 'tmpobj')

    def e_CXXOperatorCallExpr(self, n, st):
        inn = self.inner(n)
        callee, args = inn[0], inn[1:]
        c = callee
        while c['kind'] == 'ImplicitCastExpr':
            c = self.inner(c)[0]
        rd = c.get('referencedDecl', {})
        id_, name = rd.get('id'), rd.get('name', '')
        d = self.find_callee(id_) if id_ else None
        out = []
        if d is not None and not d.get('isImplicit') and not d.get('explicitlyDefaulted') and self.is_lambda_op(d) is False:
            if d['kind'] == 'CXXMethodDecl':
                for s, b in self.ev(args[0], st):
                    loc = self.this_loc(s, b, n)
                    for s2, rs in self.eval_args(d, args[1:], s):
                        out += self.call(s2, d, loc, rs, n)
            else:
                for s2, rs in self.eval_args(d, args, st):
                    out += self.call(s2, d, None, rs, n)
            return out
        nd = self.tu.byid.get(id_)
        a2 = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        for s, rs in self.evs(a2, st):
            f = rs[0]
            if name == 'operator()':
                fv = self.rv(s, f) if isinstance(f, Loc) else f
                if isinstance(fv, Clo):
                    out += self.call_closure(s, fv, rs[1:])
                    continue
            if name == 'operator=' and isinstance(rs[0], Loc):
                cur = self.rv(s, rs[0])
                if getattr(cur, 'sh', None) is None or cur.sh.kind == 'rec':
                    self.write(s, rs[0], self.rv(s, rs[1]))
                    out.append((s, rs[0]))
                    continue
            hook = self.w.opaque_ops.get(name)
            if hook and nd is not None:
                out += hook(self, s, rs[0], rs[1:], n)
                continue
            out += stdmodel.operator(self, s, name, rs, n)
        return out

    def is_lambda_op(self, d):
        p = self.tu.parent_rec.get(d['id'])
        return bool(p is not None and (p.get('definitionData', {}).get('isLambda') or (p.get('name', '') == '' and d.get('name') == 'operator()')))

    # contract or inline
    def call(self, st, d, thisloc, args, n):
        self.chk_time()
        c = self.tu.canonical(d['id'])
        hook = self.w.fn_hooks.get(self.w.fn_key(d))
        if hook is not None:
            return hook(self, st, d, args, n)
        ct = self.w.contracts.get(c)
        if ct is not None and not (self.ct is not None and ct is self.ct and not self.in_recursion_ok(ct)):
            self.used_contracts.add(ct.target)
            return self.apply_contract(st, ct, d, thisloc, args, n)
        body = self.tu.body(d)
        if body is None:
            raise Unsupported('no body for ' + self.w.fn_key(d))
        if self.depth > 12:
            raise Unsupported('inlining depth')
        self.inlined.add(self.w.demangled(d))
        return self.inline(st, d, body, thisloc, args, {}, ctor=(d['kind'] == 'CXXConstructorDecl'))

    def in_recursion_ok(self, ct):
        return self.depth > 0

    def bind_args(self, st, d, args, env):
        ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        for p, a in zip(ps, args):
            sh = self.w.types.of(p)
            q = p.get('type', {}).get('qualType', '')
            if sh.kind == 'ref' or q.endswith('&'):
                if isinstance(a, Loc):
                    env[p['id']] = a
                else:
                    env[p['id']] = self.alloc(st, a, 'arg')
            else:
                v = self.rv(st, a)
                env[p['id']] = self.alloc(st, v, p.get('name', 'p'))
        return env

    def inline(self, st, d, body, thisloc, args, env, ctor=False, ret=None):
        saved = st.env
        env = dict(env)
        if thisloc is not None:
            env['this'] = thisloc
        self.bind_args(st, d, args, env)
        st.env = env
        self.depth += 1
        self.curfn.append(d.get('name', 'lambda'))
        out = []
        try:
            states = [st]
            if ctor:
                states = self.ctor_inits(d, st, thisloc)
            for s0 in states:
                for s, kind, v in self.ex(body, s0):
                    if kind in ('fall', 'return'):
                        s.env = saved
                        if kind == 'fall':
                            v = VoidV()
                        out.append((s, v))
                    else:
                        raise Unsupported('stray ' + kind)
            # fix env of thrown states lazily (handlers restore their own env)
        finally:
            self.depth -= 1
            self.curfn.pop()
        return out

    def ctor_inits(self, d, st, thisloc):
        """run constructor member initialisers in AST (declaration) order"""
        states = [st]
        sh = self.read(st, thisloc).sh
        rec = self.tu.records.get(sh.name)
        inited = set()
        for ci in d.get('inner', []):
            if ci.get('kind') != 'CXXCtorInitializer':
                continue
            init = self.inner(ci)
            if not init:
                continue
            init = init[0]
            nxt = []
            for s in states:
                if 'anyInit' in ci:
                    fname = ci['anyInit']['name']
                    if (sh.name, fname) in self.w.dropped:
                        nxt.append(s)
                        continue
                    tgt = thisloc.f(fname)
                    inited.add(fname)
                    fd = [f for f in self.tu.fields(rec) if f['name'] == fname][0]
                    q = fd['type']['qualType']
                    if init['kind'] == 'CXXDefaultInitExpr':
                        sub = [c for c in self.inner(fd) if 'Comment' not in c['kind']]
                        inits = self.ev(sub[0], s)
                    else:
                        inits = self.ev(init, s)
                    for s2, r in inits:
                        if q.endswith('&'):
                            self.write(s2, tgt, RefV(r))
                        else:
                            v = self.rv(s2, r)
                            self.write(s2, tgt, v)
                        nxt.append(s2)
                elif 'delegatingInit' in ci:
                    for s2, r in self.ev(init, s):
                        self.write(s2, thisloc, self.rv(s2, r))
                        nxt.append(s2)
                    inited = None
                else:
                    bname = '$base'
                    bq = ci.get('baseInit', {}).get('qualType', '')
                    for s2, r in self.ev(init, s):
                        fs = dict(self.sorts.fields(sh))
                        if '$base' in fs:
                            self.write(s2, thisloc.f('$base'), self.rv(s2, r))
                        nxt.append(s2)
            states = nxt
        return states

    def spec_env(self, st, ct, d, thisloc, arglocs):
        """name -> current value"""
        env = {}
        for nm, a in zip(ct.params, arglocs):
            env[nm] = self.rv(st, a) if isinstance(a, Loc) else a
            if isinstance(env[nm], Ptr) and env[nm].loc is not None and env[nm].loc.root in st.store:
                env[nm + '_at'] = self.read(st, env[nm].loc)
        if thisloc is not None:
            env['this'] = self.read(st, thisloc)
            if thisloc.path and thisloc.path[-1][0] == 'h':
                env['this_id'] = T(thisloc.path[-1][1], TInt(64, True))
        for k, v in st.store.items():
            if k.startswith('g:'):
                env[k[2:].split('::')[-1]] = v
            elif k.startswith('ghost:'):
                env[k[6:]] = v
        return env

    def modified_locs(self, ct, d, thisloc, args, st=None):
        out = []
        if ct.modifies is not None:
            for m in ct.modifies:
                if m == 'this':
                    out.append(thisloc)
                elif m.startswith('g:') or m.startswith('ghost:'):
                    out.append(Loc(m))
                elif m.startswith('this.'):
                    l = thisloc
                    for f in m.split('.')[1:]:
                        l = l.f('$base' if f == 'base' else f)
                    out.append(l)
                elif m.endswith('_at'):
                    a = args[ct.params.index(m[:-3])]
                    v = self.rv(st, a) if isinstance(a, Loc) else a
                    if isinstance(v, Ptr) and v.loc is not None:
                        out.append(v.loc)
                else:
                    out.append(args[ct.params.index(m)])
            return out
        if thisloc is not None and not self.w.is_const(d):
            out.append(thisloc)
        for p, a in zip(self.tu.params(d), args):
            sh = self.w.types.of(p)
            if sh.kind == 'ref' and not sh.const and isinstance(a, Loc):
                out.append(a)
            if sh.kind == 'ptr' and isinstance(a, (Ptr, Loc)):
                v = self.rv(st, a) if isinstance(a, Loc) else a
                if isinstance(v, Ptr) and v.loc is not None:
                    out.append(v.loc)
        return out

    def havoc_value(self, v, name, cons):
        if isinstance(v, It):
            t = z3.Int('%s!%d' % (name, self.bump()))
            return It(v.loc, t, v.sh)
        if isinstance(v, CP):
            nv = self.sorts.fresh(TCStr(), name, cons)
            return nv
        if isinstance(v, Ptr):
            raise Unsupported('havoc of pointer')
        if isinstance(v, Rec):
            return Rec({k: self.havoc_value(x, name + '.' + k, cons) for k, x in v.f.items()}, v.sh)
        if isinstance(v, (Clo,)):
            return v
        if isinstance(v, RefV):
            return v
        if hasattr(v, 'havoc'):
            return v.havoc(self, name, cons)
        nv = self.sorts.fresh(v.sh, name, cons)
        if self.bv:
            nv = self.freshbv(v.sh, name)
        return nv

    def freshbv(self, sh, name):
        if sh.kind == 'int':
            return T(z3.BitVec('%s!%d' % (name, self.bump()), sh.bits), sh)
        if sh.kind in ('rec', 'pair'):
            return Rec({n: self.freshbv(s, name + '.' + n) for n, s in self.sorts.fields(sh)}, sh)
        return self.sorts.fresh(sh, name, [])

    def bump(self):
        self.sorts.ctr[0] += 1
        return self.sorts.ctr[0]

    def apply_contract(self, st, ct, d, thisloc, args, n):
        spec = self.w.spec
        no_width(st)
        # normalise by-value / by-ref args
        args = [a if not isinstance(a, ValLoc) else a.val for a in args]
        for i, p in enumerate(self.tu.params(d)[:len(args)]):
            if isinstance(args[i], Ptr) and heap_id(args[i]) is not None:
                psh = self.w.types.of(p)
                if psh.kind == 'ptr' and psh.to.kind == 'rec' and psh.to.name in self.w.heap_types:
                    args[i] = T(heap_id(args[i]), psh)
        pre = self.spec_env(st, ct, d, thisloc, args)
        nm = ct.target
        ev = SpecEval(spec, pre)
        for pn, path in ct.itin.items():
            a = args[ct.params.index(pn)]
            v = self.rv(st, a) if isinstance(a, Loc) else a
            cl = self.path_loc(st, path, thisloc, args, ct)
            sv = self.read(st, cl)
            self.oblige(st, z3.And(repr(v.loc) == repr(cl), v.off >= 0, v.off <= self.sorts.th(sv.sh).len(sv.t)), 'iterator %s of %s points into %s' % (pn, nm, path), 'pre', n)
        for i, r in enumerate(ct.requires):
            self.oblige(st, ev.bool(r), 'precondition %d of %s holds: %s' % (i, nm, r), 'pre', n)
        if ct is self.ct or (ct.rdec is not None and self.ct is not None and self.ct.rdec is not None):
            # (mutually) recursive call: the measure decreases
            if ct.rdec is None:
                self.w.assumptions.add('termination of the recursion in %s is not checked' % nm)
            else:
                m0, m1 = SpecEval(spec, self.spec_env0).term(self.ct.rdec), ev.term(ct.rdec)
                self.oblige(st, z3.And(m1 >= 0, m1 < m0), 'recursion terminates: %s decreases' % ct.rdec, 'measure', n)
        out = []
        if ct.throws is not None:
            tc = ev.bool(ct.throws)
            if self.feasible(st, tc):
                s2 = st.copy()
                s2.pc.append(tc)
                for l in self.modified_locs(ct, d, thisloc, args, st):
                    pass   # contract: state unchanged on throw only if stated; be conservative
                    cons = []
                    if isinstance(l, Loc):
                        self.write(s2, l, self.havoc_value(self.read(s2, l), 'thr', cons))
                        s2.pc += cons
                self.throw(s2, 'contract of ' + nm)
            st.pc.append(z3.Not(tc))
            if not self.feasible(st, z3.BoolVal(True)):
                return out
        cons = []
        for l in self.modified_locs(ct, d, thisloc, args, st):
            if isinstance(l, Loc) and not isinstance(l, ValLoc):
                self.write(st, l, self.havoc_value(self.read(st, l), (l.root.split('#')[0]), cons))
        # ghost parameters are universally quantified in the callee's proof; not used at call sites
        post = self.spec_env(st, ct, d, thisloc, args)
        rsh = self.ret_shape(d)
        result = None
        if ct.ref == 'any' and rsh.kind == 'ptr':
            v = self.sorts.fresh(rsh.to, 'res_at', cons)
            result = Ptr(ValLoc(v), z3.Bool('res_null!%d' % self.bump()))
            post['result'], post['result_at'] = result, v
        elif ct.ref == 'any':
            v = self.sorts.fresh(rsh.to if rsh.kind == 'ref' else rsh, 'res', cons)
            result = ValLoc(v)
            post['result'] = v
        elif ct.ref is not None:
            result = self.ref_loc(st, ct, thisloc, args, post, pre)
            if ct.null is not None:
                result = Ptr(result, SpecEval(spec, post, pre).bool(ct.null))
                post['result'] = result
            else:
                post['result'] = self.read(st, result)
        elif rsh.kind == 'ref':
            if rsh.to.kind in ('rec',) and thisloc is not None and self.read(st, thisloc).sh == rsh.to:
                result = thisloc
                post['result'] = post['this']
            else:
                v = self.sorts.fresh(rsh.to, 'res', cons)
                result = ValLoc(v)
                post['result'] = v
        elif rsh.kind == 'void':
            result = VoidV()
        elif rsh.kind == 'iter' or (rsh.kind == 'ptr'):
            if thisloc is None:
                raise Unsupported('iterator-returning contract on free function')
            t = z3.Int('itoff!%d' % self.bump())
            cl = self.path_loc(st, ct.iter, thisloc, args, ct)
            result = It(cl, t)
            sv = self.read(st, cl)
            cons += [t >= 0, t <= self.sorts.th(sv.sh).len(sv.t)]
            post['result'] = result
        else:
            result = self.sorts.fresh(rsh, 'res_' + d.get('name', 'f').replace('operator', 'op'), cons)
            if self.bv:
                result = self.freshbv(rsh, 'res')
            post['result'] = result
        st.pc += cons
        ev = SpecEval(spec, post, pre)
        ghosts = {g.split(':')[0].strip() for g in ct.ghost.split(',')} if ct.ghost else set()
        absent = {g for g in ghosts if g not in post}
        for e in ct.ensures:
            if absent and absent & {x.id for x in pyast.walk(pyast.parse('(' + e + ')', mode='eval')) if isinstance(x, pyast.Name)}:
                if ct.gpat and absent == ghosts:
                    # the callee is proved for an arbitrary ghost: generalise
                    env2, vs = dict(post), []
                    for g in ct.ghost.split(','):
                        gn, gs = g.split(':')
                        gsh = spec.shape(gs.strip())
                        gv = self.sorts.fresh_term(gsh, gn.strip())
                        vs.append(gv)
                        env2[gn.strip()] = self.sorts.reflect(gv, gsh)
                    e2 = SpecEval(spec, env2, pre)
                    ps = [e2.term(q) for q in ct.gpat.split(';')]
                    st.pc.append(z3.ForAll(vs, e2.bool(e), patterns=[ps[0] if len(ps) == 1 else z3.MultiPattern(*ps)]))
                continue      # stated for a ghost the caller does not have: weaker, hence sound
            st.pc.append(ev.bool(e))
        out.append((st, result))
        return out

    def path_loc(self, st, path, thisloc, args, ct):
        '''location named by a path such as this.base or p.children'''
        ps = path.split('.')
        l = thisloc if ps[0] == 'this' else args[ct.params.index(ps[0])]
        for f in ps[1:]:
            v = self.read(st, l)
            l = l.f('$base' if f == 'base' and '$base' in v.f else f)
        return l

    def ref_loc(self, st, ct, thisloc, args, post, pre):
        """build the Loc described by a ref clause such as this.base[i].second"""
        tree = pyast.parse(ct.ref, mode='eval').body
        ev = SpecEval(self.w.spec, post, pre)

        def go(t):
            if isinstance(t, pyast.Name):
                if t.id == 'this':
                    return thisloc
                return args[ct.params.index(t.id)]
            if isinstance(t, pyast.Attribute):
                l = go(t.value)
                v = self.read(st, l)
                return l.f('$base' if t.attr == 'base' and '$base' in v.f else t.attr)
            if isinstance(t, pyast.Subscript):
                return go(t.value).i(ev.term(t.slice))
            if isinstance(t, pyast.IfExp):
                return CondLoc(ev.bool(t.test), go(t.body), go(t.orelse))
            raise SpecError('ref clause')
        return go(tree)

    def ret_shape(self, d):
        q = d['type']['qualType']
        m = d.get('type', {})
        # "R (args) const"
        depth = 0
        # find the '(' that starts the parameter list: last top-level '('
        pos = None
        i = 0
        cut = None
        dd = 0
        for i, ch in enumerate(q):
            if ch in '<':
                dd += 1
            elif ch == '>' and q[i - 1] != '-':
                dd -= 1
            elif ch == '(' and dd == 0:
                cut = i
                break
        r = q[:cut].strip() if cut is not None else q
        if r == 'auto' or '->' in q:
            m2 = re.search(r'->\s*(.*)$', q)
            if m2:
                r = m2.group(1)
        sh = self.w.types.parse(r)
        if sh.kind == 'opaque' or (sh.kind == 'ref' and sh.to.kind == 'opaque'):
            # dependent names such as 'iterator': look at the return statements
            rs = self.find_returns(self.tu.body(d))
            if rs:
                sub = self.inner(rs[0])
                if sub:
                    s2 = self.w.types.of(sub[0])
                    if s2.kind != 'opaque':
                        return TRef(s2) if sh.kind == 'ref' else s2
        return sh

    def find_returns(self, n):
        out = []
        if not n:
            return out
        if n.get('kind') == 'ReturnStmt':
            return [n]
        for c in n.get('inner', []):
            if c and c.get('kind') != 'LambdaExpr':
                out += self.find_returns(c)
        return out

    # ------------------------------------------------------------------ statements
    def ex(self, n, st):
        """returns [(state, kind, value)]; kind in fall/return/break/continue"""
        if not n:
            return [(st, 'fall', None)]
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        if hasattr(self, 'e_' + k):
            return [(s, 'fall', None) for s, r in self.ev(n, st)]
        raise Unsupported('statement kind ' + k)

    def s_CompoundStmt(self, n, st):
        return self.seq(self.inner(n), st)

    def seq(self, stmts, st):
        live = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in live:
                for s2, kind, v in self.ex(x, s):
                    if kind == 'fall':
                        nxt.append(s2)
                    else:
                        out.append((s2, kind, v))
            live = nxt
            if len(live) > 200:
                raise Unsupported('path explosion')
        return out + [(s, 'fall', None) for s in live]

    def s_NullStmt(self, n, st):
        return [(st, 'fall', None)]

    def s_AttributedStmt(self, n, st):
        return self.ex(self.inner(n)[-1], st)

    def s_DeclStmt(self, n, st):
        states = [st]
        for d in self.inner(n):
            if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EnumDecl'):
                continue
            if d['kind'] != 'VarDecl':
                raise Unsupported('declaration ' + d['kind'])
            nxt = []
            for s in states:
                nxt += self.decl(d, s)
            states = nxt
        return [(s, 'fall', None) for s in states]

    def decl(self, d, st):
        if d.get('storageClass') == 'static':
            raise Unsupported('static local')
        q = d['type']['qualType']
        init = [c for c in self.inner(d) if not c['kind'].endswith('Attr') and 'Comment' not in c['kind']]
        if not init:
            sh = self.w.types.of(d)
            out = []
            for s, v in self.default_init(st, sh):
                s.env[d['id']] = self.alloc(s, v, d['name'])
                out.append(s)
            return out
        out = []
        for s, r in self.ev(init[0], st):
            if q.endswith('&'):
                if isinstance(r, Loc):
                    s.env[d['id']] = r
                else:
                    s.env[d['id']] = self.alloc(s, r, d['name'])
            else:
                v = self.rv(s, r)
                s.env[d['id']] = self.alloc(s, v, d['name'])
            out.append(s)
        return out

    def s_ReturnStmt(self, n, st):
        inn = self.inner(n)
        if not inn:
            return [(st, 'return', VoidV())]
        return [(s, 'return', r) for s, r in self.ev(inn[0], st)]

    def s_BreakStmt(self, n, st):
        return [(st, 'break', None)]

    def s_ContinueStmt(self, n, st):
        return [(st, 'continue', None)]

    def branch(self, st, c):
        """split on a boolean term: [(state, truth)] feasible ones"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.copy()
        a.pc.append(c)
        b = st
        fa = self.feasible(st, c)
        fb = self.feasible(st, z3.Not(c)) if fa else True
        if fa:
            out.append((a, True))
        if fb:
            b = st.copy() if fa else st
            b.pc.append(z3.Not(c))
            out.append((b, False))
        return out

    def s_IfStmt(self, n, st):
        inn = self.inner(n)
        if n.get('isConstexpr') and n.get('hasInit'):
            raise Unsupported('if with init')
        out = []
        pre = []
        if n.get('hasInit'):
            pre = [inn[0]]
            inn = inn[1:]
        if n.get('hasVar'):
            pre.append(inn[0])
            inn = inn[1:]
        states = [st]
        for p in pre:
            states = [s for s0 in states for s, k, v in self.ex(p, s0)]
        for s0 in states:
            for s, r in self.ev(inn[0], s0):
                c = self.tobool(self.rv(s, r))
                for s2, truth in self.branch(s, c):
                    s2.notes.append('line %s: condition %s' % (line_of(n), truth))
                    if truth:
                        out += self.ex(inn[1], s2)
                    elif len(inn) > 2:
                        out += self.ex(inn[2], s2)
                    else:
                        out.append((s2, 'fall', None))
        return out

    def s_SwitchStmt(self, n, st):
        inn = self.inner(n)
        body = inn[-1]
        cond = inn[-2]
        items = []   # list of (labels, stmt)

        def flat(stmt, labels):
            if stmt['kind'] == 'CaseStmt':
                c = self.inner(stmt)
                v = const_value(c[0])
                flat(c[-1], labels + [('case', c[0])])
            elif stmt['kind'] == 'DefaultStmt':
                flat(self.inner(stmt)[-1], labels + [('default', None)])
            else:
                items.append((labels, stmt))
        for x in self.inner(body):
            flat(x, [])
        out = []
        for s, r in self.ev(cond, st):
            v = self.rv(s, r)
            cases = []
            for idx, (labels, _) in enumerate(items):
                for kind, c in labels:
                    if kind == 'case':
                        rs = self.ev(c, s)
                        cv = self.rv(rs[0][0], rs[0][1])
                        cases.append((idx, self.compare(s, '==', v, cv, n).t))
            dflt = [idx for idx, (labels, _) in enumerate(items) if any(k == 'default' for k, _ in labels)]
            noneof = z3.Not(z3.Or([c for _, c in cases])) if cases else z3.BoolVal(True)
            targets = [(i, c) for i, c in cases] + [(dflt[0] if dflt else None, noneof)]
            for i, c in targets:
                c = z3.simplify(c)
                if z3.is_false(c) or not self.feasible(s, c):
                    continue
                s2 = s.copy()
                s2.pc.append(c)
                if i is None:
                    out.append((s2, 'fall', None))
                    continue
                for s3, kind, val in self.seq([x for _, x in items[i:]], s2):
                    out.append((s3, 'fall' if kind == 'break' else kind, val))
        return out

    def s_CXXTryStmt(self, n, st):
        inn = self.inner(n)
        body, handlers = inn[0], inn[1:]
        saved_thrown, self.thrown = self.thrown, []
        env = dict(st.env)
        res = self.ex(body, st)
        thrown, self.thrown = self.thrown, saved_thrown
        out = list(res)
        for s, what in thrown:
            s.env = dict(env)
            h = handlers[0]
            hi = self.inner(h)
            out += self.ex(hi[-1], s)
        return out

    # ---- loops
    def s_WhileStmt(self, n, st):
        inn = self.inner(n)
        return self.loop(n, st, inn[0], inn[1], None)

    def s_ForStmt(self, n, st):
        raw = n['inner']
        init, cvar, cond, inc, body = raw[0], raw[1], raw[2], raw[3], raw[4]
        out = []
        states = [s for s, k, v in self.ex(init, st)] if init else [st]
        for s in states:
            out += self.loop(n, s, cond or None, body, inc or None)
        return out

    def s_DoStmt(self, n, st):
        inn = self.inner(n)
        body, cond = inn[0], inn[1]
        # do { B } while (C)   ==   first iteration unconditionally, then while (C) B
        cv = const_value(cond) if cond['kind'] in ('IntegerLiteral', 'CXXBoolLiteralExpr') else None
        if cond['kind'] == 'CXXBoolLiteralExpr':
            cv = 1 if cond['value'] in (True, 'true') else 0
        else:
            c2 = cond
            while c2['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                c2 = self.inner(c2)[0]
            if c2['kind'] == 'IntegerLiteral':
                cv = int(c2['value'])
            if c2['kind'] == 'CXXBoolLiteralExpr':
                cv = 1 if c2['value'] in (True, 'true') else 0
        out = []
        for s, kind, v in self.ex(body, st):
            if kind == 'break':
                out.append((s, 'fall', None))
            elif kind == 'return':
                out.append((s, kind, v))
            elif cv == 0:
                out.append((s, 'fall', None))
            else:
                out += self.loop(n, s, cond, body, None)
        return out

    def s_CXXForRangeStmt(self, n, st):
        raw = n['inner']
        # [init, range, begin, end, cond, inc, loopvar, body]
        init, rng, beg, end, cond, inc, var, body = raw
        states = [st]
        for d in (init, rng, beg, end):
            if d:
                states = [s for s0 in states for s, k, v in self.ex(d, s0)]
        out = []
        for s in states:
            out += self.loop(n, s, cond, {'kind': '_RangeBody', 'inner': [var, body]}, inc)
        return out

    def s__RangeBody(self, n, st):
        return self.seq(n['inner'], st)

    def iter_once(self, st, cond, body, inc):
        """one iteration: returns (exits, ends, others): cond-false states, end-of-iteration states, [(s,kind,v)]"""
        exits, ends, others = [], [], []
        if cond is None:
            conds = [(st, True)]
        else:
            conds = []
            for s, r in self.ev(cond, st):
                conds += self.branch(s, self.tobool(self.rv(s, r)))
        for s, truth in conds:
            if not truth:
                exits.append(s)
                continue
            for s2, kind, v in self.ex(body, s):
                if kind in ('fall', 'continue'):
                    if inc is not None:
                        for s3, _ in self.ev(inc, s2):
                            ends.append(s3)
                    else:
                        ends.append(s2)
                else:
                    others.append((s2, kind, v))
        return exits, ends, others

    def loop(self, n, st, cond, body, inc):
        self.chk_time()
        limit = (self.ct.unroll if self.ct is not None else 0) or const_trips(cond)
        if limit:
            r = self.try_unroll(n, st, cond, body, inc, limit)
            if r is not None:
                return r
        return self.loop_inv(n, st, cond, body, inc)

    def try_unroll(self, n, st, cond, body, inc, limit):
        saved_o, saved_t, saved_env = len(self.obls), len(self.thrown), dict(st.env)
        st0 = st.copy()
        out = []
        live = [st.copy()]
        for k in range(limit + 1):
            nxt = []
            for s in live:
                exits, ends, others = self.iter_once(s, cond, body, inc)
                for e in exits:
                    e.env = {**e.env}
                    out.append((e, 'fall', None))
                for s2, kind, v in others:
                    out.append((s2, 'fall' if kind == 'break' else kind, v))
                nxt += ends
            live = [s for s in nxt if self.feasible(s, z3.BoolVal(True))]
            if not live:
                return out
            if len(live) > 30:
                break
        del self.obls[saved_o:]
        del self.thrown[saved_t:]
        return None

    def loop_inv(self, n, st, cond, body, inc):
        from .loops import LoopProver
        return LoopProver(self, n, st, cond, body, inc).run()


def const_trips(cond):
    """a loop whose condition compares with a small literal is unrolled completely (or, if that does not end it, needs an invariant)"""
    n = cond
    while isinstance(n, dict) and n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and n.get('inner'):
        n = n['inner'][0]
    if not isinstance(n, dict) or n.get('kind') != 'BinaryOperator' or n.get('opcode') not in ('<', '<=', '!=', '>', '>='):
        return 0
    for c in n['inner']:
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and c.get('inner'):
            c = c['inner'][0]
        if c.get('kind') == 'IntegerLiteral' and 0 < int(c['value']) <= 8:
            return int(c['value']) + 1
    return 0


class RefV(V):
    """reference member: alias to a location"""
    __slots__ = ('loc', 'sh')

    def __init__(self, loc):
        self.loc = loc
        self.sh = TOpaque('ref')


def TU_body(nd):
    for c in nd.get('inner', []):
        if c.get('kind') in ('CompoundStmt',):
            return c
    return None


def c_unescape(raw):
    """clang prints the literal with quotes and C escapes"""
    i0 = raw.index('"')
    s = raw[i0 + 1:raw.rindex('"')]
    out = bytearray()
    i = 0
    simple = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7, 'b': 8, '\\': 92, '"': 34, "'": 39, '?': 63, 'e': 27}
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
            continue
        i += 1
        c = s[i]
        if c in simple:
            out.append(simple[c])
            i += 1
        elif c == 'x':
            j = i + 1
            while j < len(s) and s[j] in '0123456789abcdefABCDEF':
                j += 1
            out.append(int(s[i + 1:j], 16) & 255)
            i = j
        elif c in '01234567':
            j = i
            while j < len(s) and j < i + 3 and s[j] in '01234567':
                j += 1
            out.append(int(s[i:j], 8) & 255)
            i = j
        else:
            raise ValueError('escape')
    return bytes(out)
