"""math/optional.hpp: values that may be absent"""
from vf.module import load
TU = 'optional.cpp'
FLAGS = ['-Dp=pattern']


def refs(n, out, val):
    if n.get('kind') == 'DeclRefExpr':
        out[n['referencedDecl']['id']] = val
    for c in n.get('inner', []):
        refs(c, out, val)


def build(w, C):
    load('charstream').build(w, lambda t, *a, **k: C(t, *a, **dict(k, note="imported")))
    w.known_globals = {}
    for i, q in w.tu.qname.items():
        if q.startswith('flut::vt_true_') or q.startswith('flut::vt_false_'):
            refs(w.tu.byid.get(i) or {}, w.known_globals, q.startswith('flut::vt_true_'))
    S = w.spec
    M = S.macro
    for T, tag, sent, fn, cv in (('int', 'i32', '-2147483648', 'strtol', 's32(%s)'), ('unsigned long', 'u64', '18446744073709551615', 'strtoul', '%s')):
        K = 'flut::optional<%s, void>::' % T
        C(K + 'optional()', '', ensures=['this.value_ == ' + sent])
        C(K + 'optional(%s)' % tag, 'v', ensures=['this.value_ == v'])
        C(K + 'operator=(%s)' % tag, 'v', ensures=['this.value_ == v'])
        C(K + 'operator bool', '', ensures=['iff(result, this.value_ != %s)' % sent], modifies='')
        C(K + 'operator*', '', ensures=['result == this.value_'], modifies='')
        val = '%s_val(old(rest(str)), old(str.radix))' % fn
        C('flut::operator>>(char_stream,optional:%s)' % T, 'str,v', requires=['INV(str)'], uses=['skip_range'],
          ensures=['READ(str, old(str), old(cur(str)) + %s_len(old(rest(str)), old(str.radix)))' % fn, 'v.value_ == (old(v.value_) if failf(str) else %s)' % (cv % val)])
    K = 'flut::optional<std::basic_string<char>, void>::'
    C(K + 'optional()', '', ensures=['not this.has_value_'])
    for t in ('str', 'str&&'):
        C(K + 'optional(%s)' % t, 'v', ensures=['this.has_value_', 'this.value_ == old(v)'])
        C(K + 'operator=(%s)' % t, 'v', ensures=['this.has_value_', 'this.value_ == old(v)'])
    C(K + 'operator bool', '', ensures=['iff(result, this.has_value_)'], modifies='')
    C(K + 'operator*', '', ensures=['result == this.value_'], modifies='')
    C('flut::operator>>(char_stream,optional:std::basic_string)', 'str,v', requires=['INV(str)'], uses=['skip_range', 'upto_range'],
      ensures=['implies(failf(str), v == old(v))', 'implies(not failf(str), v.has_value_ and v.value_ == B(str)[old(cur(str)):upto(B(str), old(cur(str)), N(str), D(str))])', 'READ(str, old(str), upto(B(str), old(cur(str)), N(str), D(str)))'])
