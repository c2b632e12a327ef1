"""merging of prop_nodes"""
from contracts import propnode
TU = 'proptools.cpp'
FLAGS = propnode.FLAGS


def build(w, C):
    S = w.spec
    M = S.macro
    want = ('find mut', 'push_back(str,prop_node)', 'operator=(prop_node)', 'operator=(prop_node&&)', 'prop_node(prop_node)', 'prop_node(prop_node&&)')
    propnode.build(w, lambda t, *a, **k: C(t, *a, **k) if t.startswith('flut::prop_node::') and t[len('flut::prop_node::'):] in want else None)
    # contents after merging the first i children of another node
    M('step', 's,e,ow', 's + unit(e) if not hask(s, e.first) else (upd(s, kpos(s, e.first), e) if ow else s)')
    S.recfun('mg', 's:CH,o:CH,i:int,ow:bool', 'CH', 's if i <= 0 else step(mg(s, o, i - 1, ow), o[i - 1], ow)', fuel=1)
    C('flut::merge_prop_nodes', 'pn,other,overwrite', requires=['len(pn.children) + len(other.children) <= MAXLEN'], modifies='pn',
      ensures=['pn.children == mg(old(pn.children), other.children, len(other.children), overwrite)', 'pn.value == old(pn.value)'],
      inv=['R:it | 0 <= R.off and R.off <= len(other.children) and pn.children == mg(old(pn.children), other.children, R.off, overwrite) and pn.value == old(pn.value) and len(pn.children) <= old(len(pn.children)) + R.off'])
    # what a client sees: keys present before keep their position, and their node unless overwriting; every key of the other node is present; nothing else appears
    S.lemma('mg_keep', 's:CH,o:CH,k:str,ow:bool,i:int', ['hask(s,k)', 'i <= len(o)'], ['kpos(mg(s,o,i,ow),k) == kpos(s,k)', 'hask(mg(s,o,i,ow),k)', 'implies(not ow, mg(s,o,i,ow)[kpos(s,k)] == s[kpos(s,k)])'], induct='i',
            hints=['@step_pos(mg(s,o,i-1,ow), o[i-1], ow, k)'])
    S.lemma('mg_all', 's:CH,o:CH,ow:bool,i:int,j:int', ['0 <= j', 'j < i', 'i <= len(o)'], ['hask(mg(s,o,i,ow), o[j].first)'], induct='i', hints=['@step_pos(mg(s,o,i-1,ow), o[i-1], ow, o[j].first)'])
    S.lemma('mg_only', 's:CH,o:CH,k:str,ow:bool,i:int', ['hask(mg(s,o,i,ow),k)', 'i <= len(o)', 'not hask(s,k)'], ['kpos(o,k) < i'], induct='i', hints=['@step_pos(mg(s,o,i-1,ow), o[i-1], ow, k)', 'implies(i > 0 and o[i-1].first == k, kpos(o,k) <= i - 1)'])
    S.lemma('step_pos', 's:CH,e:KVP,ow:bool,k:str', [], ['let(t, step(s,e,ow), kpos(t,k) == (kpos(s,k) if hask(s,k) else (len(s) if e.first == k else len(t))))', 'let(t, step(s,e,ow), implies(hask(s,k) and (not ow or e.first != k), t[kpos(s,k)] == s[kpos(s,k)]))',
            'let(t, step(s,e,ow), implies(e.first == k and (ow or not hask(s,k)), t[kpos(t,k)] == e))'],
            hints=['implies(not hask(s, e.first), step(s,e,ow)[len(s)].first == e.first and step(s,e,ow)[len(s)] == e)', 'implies(not hask(s,k) and e.first == k, kpos(step(s,e,ow),k) <= len(s))', 'let(t, step(s,e,ow), implies(hask(s,k), t[kpos(s,k)].first == k) and implies(kpos(t,k) < len(s) and kpos(t,k) < len(t), s[kpos(t,k)].first == k))'])
