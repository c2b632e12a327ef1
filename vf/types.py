"""C++ type strings -> shapes."""
import re


class Shape:
    kind = '?'

    def __eq__(self, o):
        return isinstance(o, Shape) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.key()

    def key(self):
        return self.kind


class TVoid(Shape):
    kind = 'void'


class TBool(Shape):
    kind = 'bool'


class TInt(Shape):
    kind = 'int'

    def __init__(self, bits, signed):
        self.bits, self.signed = bits, signed

    def key(self):
        return ('i' if self.signed else 'u') + str(self.bits)

    @property
    def lo(self):
        return -(1 << (self.bits - 1)) if self.signed else 0

    @property
    def hi(self):
        return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1


class TFloat(Shape):
    kind = 'float'

    def __init__(self, bits):
        self.bits = bits

    def key(self):
        return 'f%d' % self.bits


class TSeq(Shape):
    """std::string, std::vector, std::initializer_list, std::array, C arrays: a finite sequence value"""
    kind = 'seq'

    def __init__(self, elem, cont='vector', n=None):
        self.elem, self.cont, self.n = elem, cont, n

    def key(self):
        return 'seq<%s>' % self.elem.key()


class TPair(Shape):
    kind = 'pair'

    def __init__(self, a, b):
        self.a, self.b = a, b

    def key(self):
        return 'pair<%s,%s>' % (self.a.key(), self.b.key())


class TTuple(Shape):
    kind = 'tuple'

    def __init__(self, el):
        self.el = el

    def key(self):
        return 'tuple<%s>' % ','.join(x.key() for x in self.el)


class TRec(Shape):
    kind = 'rec'

    def __init__(self, name):
        self.name = name

    def key(self):
        return 'rec:' + self.name


class TCStr(Shape):
    """const char* / char*: pointer into an immutable NUL-terminated character sequence"""
    kind = 'cstr'


class TPtr(Shape):
    kind = 'ptr'

    def __init__(self, to):
        self.to = to

    def key(self):
        return 'ptr<%s>' % self.to.key()


class TIter(Shape):
    kind = 'iter'

    def __init__(self, elem):
        self.elem = elem

    def key(self):
        return 'iter<%s>' % self.elem.key()


class TMap(Shape):
    kind = 'map'

    def __init__(self, k, v):
        self.k, self.v = k, v

    def key(self):
        return 'map<%s,%s>' % (self.k.key(), self.v.key())


class TMapIter(Shape):
    kind = 'mapiter'

    def __init__(self, k, v):
        self.k, self.v = k, v

    def key(self):
        return 'mapiter<%s,%s>' % (self.k.key(), self.v.key())


class TEnum(Shape):
    kind = 'enum'
    ranges = {}      # name -> values an object of the type can hold ([dcl.enum]: no fixed underlying type)

    def __init__(self, name):
        self.name = name
        self.lo, self.hi = TEnum.ranges.get(name, (-(1 << 31), (1 << 31) - 1))

    def key(self):
        return 'enum:' + self.name


class TUniq(Shape):
    """std::unique_ptr<T> / shared_ptr<T>"""
    kind = 'uniq'

    def __init__(self, to):
        self.to = to

    def key(self):
        return 'uniq<%s>' % self.to.key()


class THeap(TTuple):
    """std::unique_ptr<T[]>: the array it owns (id 0: none)"""

    def __init__(self, elem):
        self.el = [TInt(64, True), TSeq(elem)]
        self.names = ['id', 'v']

    def key(self):
        return 'heap<%s>' % self.el[1].elem.key()


class THPtr(TTuple):
    """pointer into the array owned by a unique_ptr<T[]>: array id and offset"""

    def __init__(self):
        self.el = [TInt(64, True), TInt(64, True)]
        self.names = ['id', 'off']

    def key(self):
        return 'hptr'


class TOpaque(Shape):
    kind = 'opaque'

    def __init__(self, name):
        self.name = name

    def key(self):
        return 'opaque:' + self.name


class TRef(Shape):
    kind = 'ref'

    def __init__(self, to, const=False, rvalue=False):
        self.to, self.const, self.rvalue = to, const, rvalue

    def key(self):
        return self.to.key() + ('&&' if self.rvalue else '&')


INTS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
        'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'size_t': (64, False), 'std::size_t': (64, False), 'index_t': (64, False), 'flut::index_t': (64, False),
        'ptrdiff_t': (64, True), 'difference_type': (64, True), 'size_type': (64, False),
        'uint32_t': (32, False), 'std::uint64_t': (64, False), 'uint64_t': (64, False), 'hash_t': (64, False),
        'flut::hash_t': (64, False), 'int32_t': (32, True), 'int64_t': (64, True), 'std::ptrdiff_t': (64, True),
        'nanoseconds_t': (64, True), 'wchar_t': (32, True)}
FLOATS = {'float': 32, 'double': 64, 'long double': 80, 'real_t': 64, 'flut::real_t': 64, 'seconds_t': 64}
CHAR = TInt(8, True)
STR = TSeq(CHAR, 'string')


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class TypeMap:
    def __init__(self, tu):
        self.tu = tu
        self.cache = {}
        self.short = {}
        for q in list(tu.records) + list(tu.enums):
            self.short.setdefault(q.split('<')[0].split('::')[-1] + ('<' + q.split('<', 1)[1] if '<' in q else ''), []).append(q)

    def of(self, node):
        t = node.get('type', {})
        return self.parse(t.get('desugaredQualType') or t.get('qualType'), t.get('qualType'))

    def parse(self, s, alt=None):
        if s in self.cache:
            return self.cache[s]
        r = self._parse(s.strip())
        if r.kind == 'opaque' and alt and alt != s:
            r2 = self._parse(alt.strip())
            if r2.kind != 'opaque':
                r = r2
        self.cache[s] = r
        return r

    def _strip(self, s):
        s = s.strip()
        changed = True
        while changed:
            changed = False
            for p in ('const ', 'volatile ', 'typename ', 'class ', 'struct ', 'enum '):
                if s.startswith(p):
                    s = s[len(p):].strip()
                    changed = True
            if s.endswith(' const'):
                s = s[:-6].strip()
                changed = True
            if s.endswith('const') and s[:-5].rstrip().endswith('*'):
                s = s[:-5].strip()
                changed = True
        return s

    def _parse(self, s):
        s = s.strip()
        if s.endswith('&&'):
            return TRef(self.parse(s[:-2]), rvalue=True)
        if s.endswith('&'):
            inner = s[:-1].strip()
            return TRef(self.parse(inner), const=inner.startswith('const ') or inner.endswith(' const'))
        s = self._strip(s)
        if s.endswith('*'):
            inner = self._strip(s[:-1])
            if inner == 'char':
                return TCStr()
            if inner.endswith(')') or '(' in re.sub(r'<.*>', '', inner):
                return TOpaque(s)
            return TPtr(self.parse(inner))
        if s == 'void':
            return TVoid()
        if s == 'bool':
            return TBool()
        if s in INTS:
            return TInt(*INTS[s])
        if s in FLOATS:
            return TFloat(FLOATS[s])
        if s in ('string', 'std::string', 'flut::string', 'std::basic_string<char>', 'basic_string<char>', 'std::__cxx11::basic_string<char>'):
            return STR
        if s in ('std::stringstream', 'stringstream', 'std::basic_stringstream<char>', 'basic_stringstream<char>', 'std::ostream', 'std::basic_ostream<char>', 'basic_ostream<char>', 'ostream', 'std::ostringstream', 'std::basic_ostringstream<char>', 'basic_ostringstream<char>'):
            return TSeq(CHAR, 'sstream')
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m:
            return TSeq(self.parse(m.group(1)), 'carray', int(m.group(2)))
        m = re.match(r'^([\w:]+)<(.*)>(.*)$', s, re.S)
        if m and m.group(3) == '':
            nm, args = m.group(1), split_args(m.group(2))
            base = nm.split('::')[-1]
            isstd = nm.startswith('std::') or nm.startswith('__gnu_cxx') or '::' not in nm or nm.startswith('flut::')
            full = self._rec_lookup(s)
            if full:
                return full
            if isstd:
                if base == 'basic_string':
                    return STR
                if base in ('vector', 'initializer_list', 'deque'):
                    return TSeq(self.parse(args[0]), base)
                if base == 'array' and len(args) == 2 and args[1].rstrip('UuLl').isdigit():
                    return TSeq(self.parse(args[0]), 'array', int(args[1].rstrip('UuLl')))
                if base == 'pair':
                    return TPair(self.parse(args[0]), self.parse(args[1]))
                if base == 'tuple':
                    return TTuple([self.parse(a) for a in args])
                if base == '__normal_iterator':
                    p = self._strip(args[0])
                    return TIter(self.parse(p[:-1] if p.endswith('*') else p))
                if base in ('map', 'unordered_map'):
                    return TMap(self.parse(args[0]), self.parse(args[1]))
                if base in ('_Node_iterator', '_Node_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator_base'):
                    p = self.parse(args[0])
                    if p.kind == 'pair':
                        return TMapIter(p.a, p.b)
                if base in ('unique_ptr', 'u_ptr') and args[0].strip().endswith('[]'):
                    return THeap(self.parse(args[0].strip()[:-2]))
                if base in ('unique_ptr', 'shared_ptr', 'u_ptr', 's_ptr'):
                    return TUniq(self.parse(args[0]))
                if base == 'remove_reference' or base == 'remove_reference_t':
                    return self.parse(args[0])
        m = re.match(r'^typename (.*)::(size_type|difference_type)$', s)
        if s.endswith('::size_type'):
            return TInt(64, False)
        if s.endswith('::difference_type'):
            return TInt(64, True)
        r = self._rec_lookup(s)
        if r:
            return r
        for q, t in self.tu.aliases.items():
            if q == s or q.endswith('::' + s):
                if t != s and t:
                    return self.parse(t)
        for q in (s, 'const ' + s):
            t = self.tu.sugar.get(q)
            if t and t != q and self._strip(t) != s:
                return self.parse(t)
        if s in ('K', 'V', 'P', 'R'):     # element types of the instantiations (namespace vt of the tu files)
            return TOpaque('vt::' + s)
        return TOpaque(s)

    def _rec_lookup(self, s):
        tu = self.tu
        if s in tu.records:
            return TRec(s)
        if '<' in s and ('::' in s or '(' in s):
            # enumerators as template arguments are known by their value
            s = re.sub(r'\([\w:]+\)(-?\d+)', r'\1', s)
            s = re.sub(r'([\w:]+)::(\w+)(?=\s*[,>])', self._enumarg, s)
        if s in tu.records:
            return TRec(s)
        if s in tu.enums:
            return TEnum(s)
        base = s.split('<')[0].split('::')[-1] + ('<' + s.split('<', 1)[1] if '<' in s else '')
        c = self.short.get(base)
        if c:
            c2 = [q for q in c if q == s or q.endswith('::' + s)] or (c if len(c) == 1 else [])
            if c2:
                q = c2[0]
                return TEnum(q) if q in tu.enums else TRec(q)
        # normalise template argument spelling
        if '<' in s:
            nb = self._norm(s)
            for q in tu.records:
                if '<' in q:
                    nq = self._norm(q)
                    if nq == nb or nq.endswith('::' + nb):
                        return TRec(q)
            # default template arguments left out and arguments spelled without their scope
            sb, sa = nb.split('<', 1)[0], split_args(nb[nb.index('<') + 1:nb.rindex('>')])
            hit = []
            for q in tu.records:
                if '<' in q:
                    nq = self._norm(q)
                    qb, qa = nq.split('<', 1)[0], split_args(nq[nq.index('<') + 1:nq.rindex('>')])
                    if (qb == sb or qb.endswith('::' + sb)) and len(qa) >= len(sa) and all(a == b or b.endswith('::' + a) or a.endswith('::' + b) for a, b in zip(sa, qa)):
                        hit.append(q)
            if len(hit) == 1:
                return TRec(hit[0])
        return None

    def _enumarg(self, m):
        e = m.group(1)
        for q, n in self.tu.enums.items():
            if q == e or q.endswith('::' + e):
                for c in n.get('inner', []):
                    if c.get('name') == m.group(2) and '_value' in c:
                        return str(c['_value'])
        return m.group(0)

    @staticmethod
    def _norm(s):
        s = s.replace('std::__cxx11::', 'std::').replace('std::basic_string<char>', 'std::string').replace('basic_string<char>', 'std::string')
        s = re.sub(r'(?<![\w:])(flut::)?string(?![\w])', 'std::string', s).replace('std::std::', 'std::')
        s = re.sub(r'\bstd::vector\b', 'vector', s)
        s = re.sub(r'(?<![\w:])(std::)?size_t(?!\w)', 'unsigned long', s)
        return re.sub(r'\s+', '', s)


def _rec_shape(self, rec):
    return TRec(rec['_qname'])


TypeMap.rec_shape = _rec_shape
