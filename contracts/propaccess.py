"""prop_node: which nodes were read"""
TU = 'propnode.cpp'
from contracts import propnode
FLAGS = propnode.FLAGS


def build(w, C):
    S = w.spec
    M = S.macro
    PN = S.shapes['PN'] = w.types.parse('flut::prop_node')
    from vf.types import TPair, TSeq, STR
    S.shapes['CH'] = TSeq(TPair(STR, PN))
    S.shapes['KVP'] = TPair(STR, PN)
    P = 'flut::prop_node::'
    S.uf('kpos', ['CH', 'str'], 'int')
    S.axiom('kpos_def', 's:CH,k:str', '0 <= kpos(s,k) and kpos(s,k) <= len(s) and implies(kpos(s,k) < len(s), s[kpos(s,k)].first == k)', ['kpos(s,k)'])
    S.axiom('kpos_first', 's:CH,k:str,j:int', 'implies(0 <= j and j < kpos(s,k), s[j].first != k)', [('kpos(s,k)', 's[j]')])
    M('hk', 't,k', 'kpos(t.children, k) < len(t.children)')
    M('fl', 'n', 'n.accessed_flag')
    # n with its own mark set; n with the marks of itself and of its child at position i set
    M('mark', 'n', 'rec("PN", accessed_flag=True, value=n.value, children=n.children)')
    M('markc', 'n,i', 'rec("PN", accessed_flag=True, value=n.value, children=upd(n.children, i, pair(n.children[i].first, mark(n.children[i].second))))')
    M('kp', 't,k', 'kpos(t.children, k)')
    # new nodes are not marked
    for a, p in (('', ''), ('str', 'v'), ('str&&', 'v'), ('prop_node', 'other'), ('prop_node&&', 'other')):
        C(P + 'prop_node(%s)' % a, p, ensures=['not fl(this)'])
    C(P + 'is_accessed', '', ensures=['iff(result, fl(this))'])
    for cv in ('mut', 'const'):
        C(P + 'access ' + cv, '', ensures=['this == mark(old(this))'], ref='this', modifies='this')
        C(P + 'find ' + cv, 'key', ensures=['result.off == kpos(this.children, key)', 'this == mark(old(this))'], modifies='this', iter='this.children', inv=['I:pos | I <= kpos(this.children, key)'])
        C(P + 'get_child(str) ' + cv, 'key', throws='not hk(this, key)', ensures=['this == mark(old(this))'], ref='this.children[kpos(this.children, key)].second', modifies='this')
        C(P + 'get_child(u64) ' + cv, 'idx', requires=['idx < len(this.children)'], ensures=['this == mark(old(this))'], ref='this.children[idx].second', modifies='this')
        C(P + 'try_get_child(str) ' + cv, 'key', null='not hk(this, key)', ensures=['this == (old(markc(this, kp(this, key))) if old(hk(this, key)) else old(mark(this)))'], ref='this.children[kpos(this.children, key)].second', modifies='this')
    C(P + 'get_key', 'idx', requires=['idx < len(this.children)'], ensures=['this == mark(old(this))'], ref='this.children[idx].first', modifies='this')
    C(P + 'get_value', '', ensures=['this == mark(old(this))'], ref='this.value', modifies='this')
    C(P + 'get()', '', ensures=['this == mark(old(this))', 'result == old(this.value)'], modifies='this')
    C(P + 'get(str)', 'key', throws='not hk(this, key)', ensures=['this == old(markc(this, kp(this, key)))', 'result == old(this.children[kp(this, key)].second.value)'], modifies='this')
    C(P + 'get(str,str)', 'key,dv', ensures=['this == (old(markc(this, kp(this, key))) if old(hk(this, key)) else old(mark(this)))'], modifies='this')
    C(P + 'try_get_child(str,prop_node)', 'key,default_node', ensures=['this == (old(markc(this, kp(this, key))) if old(hk(this, key)) else old(mark(this)))'], ref='this.children[kpos(this.children, key)].second if hk(this, key) else default_node', modifies='this')
    C(P + 'get_or_add_child', 'key', requires=['len(this.children) < MAXLEN'], ensures=['fl(this)', 'implies(old(hk(this, key)), this == old(markc(this, kp(this, key))))'], ref='any', modifies='this')
    # assignment of contents leaves the mark alone
    C(P + 'clear', '', ensures=['iff(fl(this), old(fl(this)))'])
    C(P + 'operator=(prop_node&&)', 'other', ensures=['iff(fl(this), old(fl(this)))'], ref='this')
    # ---- number of nodes without a mark
    S.uf('rank', ['PN'], 'int')
    S.axiom('rank_nonneg', 'n:PN', 'rank(n) >= 0', ['rank(n)'])
    S.axiom('rank_child', 'n:PN,i:int', 'rank(n) >= 0 and implies(0 <= i and i < len(n.children), rank(n.children[i].second) < rank(n))', [('rank(n)', 'n.children[i]')])
    S.uf('UA', ['PN'], 'int')
    S.recfun('UAS', 'c:CH,i:int', 'int', '0 if i <= 0 or i > len(c) else UAS(c, i - 1) + UA(c[i - 1].second)', fuel=1)
    S.axiom('UA_def', 'n:PN', 'UA(n) == (0 if n.accessed_flag else 1) + UAS(n.children, len(n.children))', ['UA(n)'])
    C(P + 'count_unaccessed', '', ensures=['result == UA(this) % 18446744073709551616'], modifies='', rdec='rank(this)',
      inv=['R:pos, N:int | 0 <= R and R <= len(this.children) and N == ((0 if fl(this) else 1) + UAS(this.children, R)) % 18446744073709551616', 'R:pos, N:int | 0 <= R and R <= len(this.children) and N == UAS(this.children, R) % 18446744073709551616'])
    # ---- removal of all marks
    S.uf('cleared', ['PN', 'PN'], 'bool')
    S.axiom('cleared_def', 'a:PN,b:PN', 'iff(cleared(a, b), not a.accessed_flag and a.value == b.value and len(a.children) == len(b.children) and forall(i, implies(0 <= i and i < len(a.children), a.children[i].first == b.children[i].first and cleared(a.children[i].second, b.children[i].second)), a.children[i]))', ['cleared(a, b)'])
    C(P + 'clear_accessed_recursively', '', ensures=['cleared(this, old(this))'], rdec='rank(this)', modifies='this',
      inv=['R:pos | 0 <= R and R <= len(this.children) and len(this.children) == len(old(this.children)) and not fl(this) and this.value == old(this.value) and forall(i, implies(0 <= i and i < R, this.children[i].first == old(this.children)[i].first and cleared(this.children[i].second, old(this.children)[i].second)), this.children[i]) and forall(i, implies(R <= i and i < len(this.children), this.children[i] == old(this.children)[i]), this.children[i])'])
