"""prop_node: ordered tree of key/value nodes"""
TU = 'propnode.cpp'
FLAGS = ['-Dp=pattern', '-include', 'map', '-include', 'functional', '-include', 'limits', '-include', 'iomanip', '-include', 'iostream', '-include', 'cstring']


def build(w, C):
    S = w.spec
    M = S.macro
    w.dropped.add(('flut::prop_node', 'accessed_flag'))
    PN = S.shapes['PN'] = w.types.parse('flut::prop_node')
    from vf.types import TPair, TSeq, STR
    S.shapes['CH'] = TSeq(TPair(STR, PN))
    S.shapes['KVP'] = TPair(STR, PN)
    P = 'flut::prop_node::'
    # index of the first child with a key, or the number of children
    S.uf('kpos', ['CH', 'str'], 'int')
    S.axiom('kpos_def', 's:CH,k:str', '0 <= kpos(s,k) and kpos(s,k) <= len(s) and implies(kpos(s,k) < len(s), s[kpos(s,k)].first == k)', ['kpos(s,k)'])
    S.axiom('kpos_first', 's:CH,k:str,j:int', 'implies(0 <= j and j < kpos(s,k), s[j].first != k)', [('kpos(s,k)', 's[j]')])
    M('ch', 't', 't.children')
    M('hask', 's,k', 'kpos(s, k) < len(s)')
    M('kp', 't,k', 'kpos(t.children, k)')
    M('hk', 't,k', 'kpos(t.children, k) < len(t.children)')
    M('child', 't,k', 't.children[kpos(t.children, k)].second')
    M('leaf', 'v', 'rec("PN", value=v, children=default_("CH"))')
    M('pnode', 'v,c', 'rec("PN", value=v, children=c)')
    # ---- construction and assignment
    C(P + 'prop_node()', '', ensures=['this.value == ""', 'len(this.children) == 0'])
    C(P + 'prop_node(str)', 'v', ensures=['this.value == v', 'len(this.children) == 0'])
    C(P + 'prop_node(str&&)', 'v', ensures=['this.value == old(v)', 'len(this.children) == 0'])
    C(P + 'prop_node(prop_node)', 'other', ensures=['this == other'])
    C(P + 'prop_node(prop_node&&)', 'other', ensures=['this == old(other)'])
    C(P + 'operator=(prop_node)', 'other', ensures=['this == old(other)'], ref='this')
    C(P + 'operator=(prop_node&&)', 'other', ensures=['this == old(other)'], ref='this')
    C(P + 'operator=(str)', 'v', ensures=['this == leaf(old(v))'], ref='this')
    # ---- lookup
    for cv in ('mut', 'const'):
        C(P + 'find ' + cv, 'key', ensures=['result.off == kpos(this.children, key)'], modifies='', iter='this.children', inv=['I:pos | I <= kpos(this.children, key)'])
    C(P + 'has_key', 'key', ensures=['iff(result, hk(this, key))'])
    C(P + 'has_value()', '', ensures=['iff(result, len(this.value) > 0)'])
    C(P + 'has_value(str)', 'key', ensures=['iff(result, hk(this, key) and len(child(this, key).value) > 0)'])
    C(P + 'size', '', ensures=['result == len(this.children)'])
    C(P + 'empty', '', ensures=['iff(result, len(this.children) == 0 and len(this.value) == 0)'])
    C(P + 'clear', '', ensures=['len(this.children) == 0', 'len(this.value) == 0'])

    # ---- values
    C(P + 'get_value', '', ref='this.value', modifies='')
    C(P + 'set_value(str)', 'v', ensures=['this.value == old(v)', 'this.children == old(this.children)'], ref='this')
    C(P + 'set_value(str&&)', 'v', ensures=['this.value == old(v)', 'this.children == old(this.children)'], ref='this')
    C('flut::prop_node_cast<std::basic_string<char>, void>::from', 'pn', ensures=['result == pn.value'])
    C('flut::prop_node_cast<std::basic_string<char>, void>::to', 'value', ensures=['result == leaf(value)'])
    C('flut::prop_node_cast<flut::prop_node, void>::from', 'pn', ensures=['result == pn'])
    C('flut::prop_node_cast<flut::prop_node, void>::to', 'value', ensures=['result == value'])
    C('flut::make_prop_node(str)', 'value', ensures=['result == leaf(value)'])
    C(P + 'get()', '', ensures=['result == this.value'])
    C(P + 'get(str)', 'key', throws='not hk(this, key)', ensures=['result == child(this, key).value'])
    C(P + 'get(str,str)', 'key,dv', ensures=['result == (child(this, key).value if hk(this, key) else dv)'])
    # ---- children
    for cv in ('mut', 'const'):
        C(P + 'get_child(str) ' + cv, 'key', throws='not hk(this, key)', ref='this.children[kpos(this.children, key)].second', modifies='')
        C(P + 'get_child(u64) ' + cv, 'idx', requires=['idx < len(this.children)'], ref='this.children[idx].second', modifies='')
        C(P + 'operator[](u64) ' + cv, 'idx', requires=['idx < len(this.children)'], ref='this.children[idx].second', modifies='')
        C(P + 'try_get_child(str) ' + cv, 'key', null='not hk(this, key)', ref='this.children[kpos(this.children, key)].second', modifies='')
    C(P + 'operator[](str) const', 'key', throws='not hk(this, key)', ref='this.children[kpos(this.children, key)].second', modifies='')
    C(P + 'get_key', 'idx', requires=['idx < len(this.children)'], ref='this.children[idx].first', modifies='')
    C(P + 'try_get_child(str,prop_node)', 'key,default_node', ref='this.children[kpos(this.children, key)].second if hk(this, key) else default_node', modifies='')
    ROOM = ['len(this.children) < MAXLEN']
    ADD = lambda node: 'this.children == old(this.children) + unit(pair(old(key), %s))' % node
    LAST = 'this.children[len(this.children) - 1].second'
    for t, v in (('str', 'leaf(old(value))'), ('prop_node', 'old(value)'), ('prop_node&&', 'old(value)')):
        C(P + 'push_back(str,%s)' % t, 'key,value', requires=ROOM, ensures=[ADD(v), 'this.value == old(this.value)'], ref=LAST)
    C(P + 'push_back(str)', 'key', requires=ROOM, ensures=[ADD('leaf("")'), 'this.value == old(this.value)'], ref=LAST)
    GOA = ['this.children == (old(this.children) if old(hk(this, key)) else old(this.children) + unit(pair(key, leaf(""))))', 'this.value == old(this.value)', 'hk(this, key)',
           'kp(this, key) == old(kp(this, key))']
    for f in ('get_or_add_child', 'operator[](str) mut'):
        C(P + f, 'key', requires=ROOM, uses=['kpos_snoc'], ensures=GOA, ref='this.children[kpos(this.children, key)].second')
    # store of a node under a key: the first child with the key is replaced, otherwise a child is appended
    M('store', 's,k,n', 'upd(s, kpos(s, k), pair(k, n)) if kpos(s, k) < len(s) else s + unit(pair(k, n))')
    for t, v in (('str', 'leaf(old(v))'), ('prop_node', 'old(v)')):
        C(P + 'set(str,%s)' % t, 'key,v', requires=ROOM, ensures=['this.children == store(old(this.children), old(key), %s)' % v, 'this.value == old(this.value)'], ref='this')
    for t, v in (('str', 'leaf(old(v))'), ('prop_node', 'old(v)'), ('prop_node&&', 'old(v)')):
        C(P + 'set(%s)' % t, 'v', ensures=['this == %s' % v], ref='this')
    S.lemma('kpos_snoc', 's:CH,a:str,n:PN,k:str', [], ['kpos(s + unit(pair(a,n)), k) == (kpos(s,k) if hask(s,k) else (len(s) if a == k else len(s) + 1))'],
            hints=['(s + unit(pair(a,n)))[len(s)].first == a', 'implies(hask(s,k), (s + unit(pair(a,n)))[kpos(s,k)].first == k)',
                   'let(p, kpos(s + unit(pair(a,n)), k), implies(p < len(s), s[p].first == k))'], pats=['kpos(s + unit(pair(a,n)), k)'])
    # what a client sees
    S.lemma('store_same', 's:CH,k:str,n:PN', [], ['let(t, store(s,k,n), kpos(t,k) == kpos(s,k) and kpos(t,k) < len(t) and t[kpos(t,k)].second == n and len(t) == (len(s) if hask(s,k) else len(s) + 1))'],
            hints=['let(t, store(s,k,n), t[kpos(s,k)].first == k and implies(kpos(t,k) < kpos(s,k), s[kpos(t,k)].first == k))'])
    S.lemma('store_other', 's:CH,k:str,n:PN,o:str', ['o != k'], ['let(t, store(s,k,n), iff(hask(t,o), hask(s,o)) and implies(hask(s,o), kpos(t,o) == kpos(s,o) and t[kpos(t,o)] == s[kpos(s,o)]))'],
            hints=['let(t, store(s,k,n), implies(hask(s,o), t[kpos(s,o)] == s[kpos(s,o)]) and implies(hask(t,o), t[kpos(t,o)].first == o and implies(kpos(t,o) < len(s), implies(kpos(t,o) != kpos(s,k), s[kpos(t,o)].first == o))))'])
    C(P + 'reserve', 'n', requires=['n <= MAXLEN'], ensures=['this == old(this)'])
    C(P + 'erase', 'it', requires=['it.off < len(this.children)'], ensures=['this.children == old(this.children)[:it.off] + old(this.children)[it.off+1:]', 'result.off == old(it.off)', 'this.value == old(this.value)'], iter='this.children', itin={'it': 'this.children'})

    # ---- equality: same value and the same children, in the same order, at every depth
    S.uf('rank', ['PN'], 'int')
    S.axiom('rank_nonneg', 'n:PN', 'rank(n) >= 0', ['rank(n)'])
    S.axiom('rank_child', 'n:PN,i:int', 'rank(n) >= 0 and implies(0 <= i and i < len(n.children), rank(n.children[i].second) < rank(n))', [('rank(n)', 'n.children[i]')])
    C(P + 'operator==', 'other', ensures=['iff(result, this == other)'], modifies='', rdec='2 * rank(this)',
      inv=['I:pos, J:pos | I == J', 'I:pos | I <= len(this.children)', 'I:pos | I <= len(this.children) and this.value == other.value and len(this.children) == len(other.children) and forall(j, implies(0 <= j and j < I, this.children[j] == other.children[j]), this.children[j])'])
    C(P + 'operator!=', 'other', ensures=['iff(result, not (this == other))'], modifies='', rdec='2 * rank(this) + 1')
    import z3
    from vf import logic
    # the same axiom, triggered by a node that is built from its parts
    ps = w.sorts.sort(S.shape('PN'))
    mk, acc = ps.constructor(0), [ps.accessor(0, k) for k in range(ps.constructor(0).arity())]
    parts = [z3.Const('c%d' % k, a.range()) for k, a in enumerate(acc)]
    i_, rank = z3.Int('i'), S.funs['rank'][0]
    from vf.spec import SpecEval
    import ast
    env = {'n': w.sorts.reflect(mk(*parts), S.shape('PN')), 'i': w.sorts.reflect(i_, S.shape('int'))}
    ev = SpecEval(S, env)
    body = ev.bool('implies(0 <= i and i < len(n.children), rank(n.children[i].second) < rank(n)) and rank(n) >= 0')
    at = ev.reify(ast.parse('(n.children[i])', mode='eval').body)
    S.axioms.append(logic.Axiom('rank_child_mk', z3.ForAll(parts + [i_], body, patterns=[z3.MultiPattern(rank(mk(*parts)), z3.simplify(at))]), {'rank', mk.name()}))

    S.shapes['KL'] = TSeq(STR)
    S.recfun('GA', 'n:PN,l:KL,i:int,dv:str', 'str', 'dv if i >= len(l) or i < 0 else (child(n, l[i]).value if hk(n, l[i]) else GA(n, l, i + 1, dv))', fuel=1)
    S.recfun('anyk', 'n:PN,l:KL,i:int', 'bool', 'i >= 0 and i < len(l) and (hk(n, l[i]) or anyk(n, l, i + 1))', fuel=1)
    C(P + 'get_any(il,str)', 'keys,dv', ensures=['result == GA(this, keys, 0, dv)'], inv=['R:it | GA(this, keys, R.off, dv) == GA(this, keys, 0, dv)'])
    C(P + 'get_any(il)', 'keys', throws='not anyk(this, keys, 0)', ensures=['result == GA(this, keys, 0, "")'],
      inv=['R:it | GA(this, keys, R.off, "") == GA(this, keys, 0, "") and iff(anyk(this, keys, R.off), anyk(this, keys, 0))'])
    delimited(w, C, S, M, P)


def delimited(w, C, S, M, P):
    # ---- access along a path of keys separated by a delimiter
    M('dp', 'k,d', 'ffo(k, unit(d), 0)')
    M('hd', 'k,d', 'k[:dp(k,d)]')
    M('tl', 'k,d', 'k[dp(k,d)+1:]')
    M('single', 'k,d', 'dp(k,d) >= len(k)')
    M('childor', 't,k', 't.children[kpos(t.children, k)].second if kpos(t.children, k) < len(t.children) else leaf("")')
    S.recfun('dhas', 'n:PN,k:str,d:char', 'bool', 'hk(n, k) if single(k,d) else (hk(n, hd(k,d)) and dhas(child(n, hd(k,d)), tl(k,d), d))', fuel=1)
    S.recfun('dget', 'n:PN,k:str,d:char', 'PN', 'child(n, k) if single(k,d) else dget(child(n, hd(k,d)), tl(k,d), d)', fuel=1)
    S.recfun('dset', 'n:PN,k:str,d:char,v:PN', 'PN', 'pnode(n.value, store(n.children, k, v)) if single(k,d) else pnode(n.value, store(n.children, hd(k,d), dset(childor(n, hd(k,d)), tl(k,d), d, v)))', fuel=1)
    S.recfun('droom', 'n:PN,k:str,d:char', 'bool', 'len(n.children) < MAXLEN and (single(k,d) or droom(childor(n, hd(k,d)), tl(k,d), d))', fuel=1)
    C(P + 'get_delimited', 'key,delim', throws='not dhas(this, key, delim)', ensures=['result == dget(this, key, delim).value'], rdec='len(key)')
    C(P + 'try_get_child_delimited', 'key,delim', ref='any', ensures=['iff(isnull(result), not dhas(this, key, delim))', 'implies(not isnull(result), result_at == dget(this, key, delim))'], rdec='len(key)', modifies='')
    C(P + 'set_delimited', 'key,v,delim', requires=['droom(this, key, delim)'], ref='any', ensures=['this == dset(old(this), key, delim, leaf(v))'], rdec='len(key)', modifies='this')
    # writing along a path and reading along the same path gives the value written; a subtree under another first key is not touched
    S.lemma('dset_get_m', 'n:PN,k:str,d:char,v:PN,m:int', ['len(k) <= m'], ['dhas(dset(n,k,d,v),k,d)', 'dget(dset(n,k,d,v),k,d) == v'], induct='m', gen=['n', 'k'], pats=['dset(n,k,d,v)'],
            hints=['@store_same(n.children, k if single(k,d) else hd(k,d), v if single(k,d) else dset(childor(n, hd(k,d)), tl(k,d), d, v))'])
    S.lemma('dset_get', 'n:PN,k:str,d:char,v:PN', [], ['dhas(dset(n,k,d,v),k,d)', 'dget(dset(n,k,d,v),k,d) == v'], hints=['@dset_get_m(n,k,d,v,len(k))'])
    S.lemma('dset_other', 'n:PN,k:str,d:char,v:PN,o:str', ['o != (k if single(k,d) else hd(k,d))'], ['iff(hk(dset(n,k,d,v),o), hk(n,o))', 'implies(hk(n,o), child(dset(n,k,d,v),o) == child(n,o))', 'dset(n,k,d,v).value == n.value'],
            hints=['@store_other(n.children, k if single(k,d) else hd(k,d), v if single(k,d) else dset(childor(n, hd(k,d)), tl(k,d), d, v), o)'])
