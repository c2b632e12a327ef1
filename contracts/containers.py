"""containers: flat_map, sorted_vector, dictionary, circular_deque, container_tools"""
TU = 'containers.cpp'
FLAGS = ['-Dp=pattern', '-include', 'map', '-include', 'functional', '-include', 'limits']


def model_to_str(x, st, rs, n):
    from vf.values import T
    from vf.types import STR
    cons = []
    v = x.sorts.fresh(STR, 'to_str', cons)
    st.pc += cons
    x.w.assumptions.add('to_str of an element terminates normally (its result is used only in an error message)')
    return [(st, v)]


def build(w, C):
    w.fn_hooks['flut::to_str'] = model_to_str
    S = w.spec
    M = S.macro
    K = S.shapes['K'] = w.types.parse('vt::K')
    V = S.shapes['V'] = w.types.parse('vt::V')
    from vf.types import TPair, TSeq, STR
    S.shapes['KV'] = TSeq(TPair(K, V))
    S.shapes['KS'] = TSeq(TPair(K, STR))
    flat_map(w, C, S, M)
    sorted_vec(w, C, S, M)
    dictionary(w, C, S, M)
    deque(w, C, S, M)
    dyn(w, C, S, M)
    memo(w, C, S, M)
    tools(w, C, S, M)


def flat_map(w, C, S, M):
    # ---- flat_map: sequence of pairs; the first pair with a key holds its value
    F = 'flut::flat_map<vt::K, vt::V>::'
    S.uf('kpos', ['KV', 'K'], 'int')
    # definition by characterisation: index of the first pair with the key, or the length
    S.axiom('kpos_def', 's:KV,k:K', '0 <= kpos(s,k) and kpos(s,k) <= len(s) and implies(kpos(s,k) < len(s), s[kpos(s,k)].first == k)', ['kpos(s,k)'])
    S.axiom('kpos_first', 's:KV,k:K,j:int', 'implies(0 <= j and j < kpos(s,k), s[j].first != k)', [('kpos(s,k)', 's[j]')])
    M('E', 't', 't.base')
    M('at', 't,k', 'kpos(E(t), k)')
    M('hask', 's,k', 'kpos(s, k) < len(s)')
    # distinct keys (class invariant)
    M('DK', 's', 'forall((i,j), implies(0 <= i and i < j and j < len(s), s[i].first != s[j].first), (s[i], s[j]))')
    for cv in ('mut', 'const'):
        C(F + 'find ' + cv, 'key', ensures=['result.off == kpos(E(this), key)'], modifies='', inv=['I:pos | I <= kpos(E(this), key)'])
        C(F + 'at ' + cv, 'key', throws='not hask(E(this), key)', ref='this.base[kpos(this.base, key)].second', modifies='', inv=['I:pos | I <= kpos(E(this), key)'])
    C(F + 'count', 'key', requires=['DK(E(this))'], inv=['I:pos, A:int | A == (1 if kpos(E(this), key) < I else 0)'], ensures=['result == (1 if hask(E(this), key) else 0)'])
    C(F + 'has_key', 'key', inv=['I:pos | I <= kpos(E(this), key)'], ensures=['iff(result, hask(E(this), key))'])
    C(F + 'operator[] mut', 'key', requires=['DK(E(this))', 'len(E(this)) < MAXLEN'], uses=['kpos_snoc'], ref='this.base[kpos(this.base, key)].second',
      ensures=['hask(E(this), key)', 'DK(E(this))', 'implies(old(hask(E(this), key)), E(this) == old(E(this)))',
               'implies(not old(hask(E(this), key)), E(this) == old(E(this)) + unit(pair(key, default_("V"))))'])
    C(F + 'operator[] const', 'key', throws='not hask(E(this), key)', ref='this.base[kpos(this.base, key)].second')
    # lemmas: what a client sees
    S.lemma('kpos_snoc', 's:KV,a:K,v:V,k:K', [], ['kpos(s + unit(pair(a,v)), k) == (kpos(s,k) if hask(s,k) else (len(s) if a == k else len(s) + 1))'],
            hints=['(s + unit(pair(a,v)))[len(s)].first == a', 'implies(hask(s,k), (s + unit(pair(a,v)))[kpos(s,k)].first == k)',
                   'let(p, kpos(s + unit(pair(a,v)), k), implies(p < len(s), s[p].first == k))'], pats=['kpos(s + unit(pair(a,v)), k)'])
    S.lemma('fm_store_same', 's:KV,k:K,v:V', ['DK(s)', 'hask(s,k)'], ['let(t, upd(s, kpos(s,k), pair(k, v)), kpos(t,k) == kpos(s,k) and t[kpos(t,k)].second == v and len(t) == len(s) and DK(t))'],
            hints=['let(t, upd(s, kpos(s,k), pair(k, v)), t[kpos(s,k)].first == k and implies(kpos(t,k) < kpos(s,k), s[kpos(t,k)].first == k))'])
    S.lemma('fm_store_other', 's:KV,k:K,v:V,o:K', ['DK(s)', 'hask(s,k)', 'o != k'], ['let(t, upd(s, kpos(s,k), pair(k, v)), kpos(t,o) == kpos(s,o) and implies(hask(s,o), t[kpos(t,o)] == s[kpos(s,o)]))'])
    S.lemma('fm_insert_other', 's:KV,k:K,v:V,o:K', ['DK(s)', 'not hask(s,k)', 'o != k'], ['let(t, s + unit(pair(k, v)), iff(hask(t,o), hask(s,o)) and implies(hask(s,o), t[kpos(t,o)] == s[kpos(s,o)]))'])
    S.lemma('fm_erase', 's:KV,i:int,o:K', ['DK(s)', '0 <= i', 'i < len(s)'], ['let(t, s[:i] + s[i+1:], DK(t) and iff(hask(t,o), hask(s,o) and kpos(s,o) != i) and implies(hask(t,o), t[kpos(t,o)] == s[kpos(s,o)]))'],
            hints=['let(t, s[:i] + s[i+1:], implies(hask(t,o), t[kpos(t,o)] == s[kpos(t,o) if kpos(t,o) < i else kpos(t,o)+1]))', 'implies(hask(s,o) and kpos(s,o) < i, (s[:i] + s[i+1:])[kpos(s,o)] == s[kpos(s,o)])', 'implies(hask(s,o) and kpos(s,o) > i, (s[:i] + s[i+1:])[kpos(s,o)-1] == s[kpos(s,o)])'])


def sorted_vec(w, C, S, M):
    X = 'flut::sorted_vector<vt::K>::'
    S.axiom('ord_inj', 'a:K,b:K', 'implies(ordk(a) == ordk(b), a == b)', [('ordk(a)', 'ordk(b)')])
    M('SO', 's', 'forall((i,j), implies(0 <= i and i < j and j < len(s), ordk(s[i]) <= ordk(s[j])), (s[i], s[j]))')
    C(X + 'insert', 'e', inv=['I:pos | forall(j, implies(0 <= j and j < I, ordk(E(this)[j]) <= ordk(e)), E(this)[j])', 'I:pos | forall(j, implies(I <= j and j < len(E(this)), ordk(e) < ordk(E(this)[j])), E(this)[j])', 'I:pos | forall(j, implies(I <= j and j < len(E(this)), ordk(e) <= ordk(E(this)[j])), E(this)[j])'], requires=['SO(E(this))', 'len(E(this)) < MAXLEN'],
      ensures=['0 <= result.off and result.off <= old(len(E(this)))', 'E(this) == old(E(this))[:result.off] + unit(e) + old(E(this))[result.off:]', 'SO(E(this))',
               'E(this)[result.off] == e', 'len(E(this)) == old(len(E(this))) + 1'])
    for cv in ('mut', 'const'):
        C(X + 'find ' + cv, 'e', requires=['SO(E(this))'], modifies='', inv=['I:pos | forall(j, implies(0 <= j and j < I, E(this)[j] != e), E(this)[j])'],
          ensures=['0 <= result.off and result.off <= len(E(this))', 'implies(result.off < len(E(this)), E(this)[result.off] == e)',
                   'forall(j, implies(0 <= j and j < result.off, E(this)[j] != e), E(this)[j])'])


def dictionary(w, C, S, M):
    D = 'flut::dictionary<vt::K>::operator()'
    S.uf('dk', ['KS', 'K'], 'int')
    S.uf('ds', ['KS', 'str'], 'int')
    for f, ks, fld in (('dk', 'K', 'first'), ('ds', 'str', 'second')):
        S.axiom(f + '_def', 's:KS,k:' + ks, '0 <= %s(s,k) and %s(s,k) <= len(s) and implies(%s(s,k) < len(s), s[%s(s,k)].%s == k)' % (f, f, f, f, fld), ['%s(s,k)' % f])
        S.axiom(f + '_first', 's:KS,k:%s,j:int' % ks, 'implies(0 <= j and j < %s(s,k), s[j].%s != k)' % (f, fld), [('%s(s,k)' % f, 's[j]')])
    C(D + '(opaque:vt::K)', 'e', throws='dk(this.data, e) == len(this.data)', ref='this.data[dk(this.data, e)].second', modifies='', inv=['I:pos | I <= dk(this.data, e)'])
    C(D + '(str)', 'str', throws='ds(this.data, str) == len(this.data)', ref='this.data[ds(this.data, str)].first', modifies='', inv=['I:pos | I <= ds(this.data, str)'])
    C(D + '(str,opaque:vt::K)', 'str,v', ensures=['result == (v if ds(this.data, str) == len(this.data) else this.data[ds(this.data, str)].first)'], modifies='', inv=['I:pos | I <= ds(this.data, str)'])
    C('flut::dictionary<vt::K>::dictionary(il)', 'l', ensures=['this.data == l'])
    C('flut::make_dictionary', 'l', ensures=['result.data == l'])
    from vf.types import TPair, TSeq, TCStr
    S.shapes['CK'] = TSeq(TPair(TCStr(), S.shapes['K']))
    S.uf('lk', ['CK', 'str'], 'int')
    S.axiom('lk_def', 's:CK,k:str', '0 <= lk(s,k) and lk(s,k) <= len(s) and implies(lk(s,k) < len(s), cstr(s[lk(s,k)].first) == k)', ['lk(s,k)'])
    S.axiom('lk_first', 's:CK,k:str,j:int', 'implies(0 <= j and j < lk(s,k), cstr(s[j].first) != k)', [('lk(s,k)', 's[j]')])
    C('flut::lookup', 'value,table', throws='lk(table, value) == len(table)', ensures=['result == table[lk(table, value)].second'], inv=['I:pos | I <= lk(table, value)'])
    S.lemma('dict_inverse', 's:KS,k:K', ['dk(s,k) < len(s)', 'forall((i,j), implies(0 <= i and i < j and j < len(s), s[i].second != s[j].second and s[i].first != s[j].first), (s[i], s[j]))'],
            ['let(n, s[dk(s,k)].second, ds(s,n) < len(s) and s[ds(s,n)].first == k)'])


def dyn(w, C, S, M):
    from vf.types import THPtr
    w.field_shapes[('flut::dynarray<vt::V>', 'end_')] = THPtr()
    D = 'flut::dynarray<vt::V>::'
    M('WFD', 'd', 'd.end_.id == d.data_.id and d.end_.off == len(d.data_.v) and len(d.data_.v) <= MAXLEN')
    M('els', 'd', 'd.data_.v')
    C(D + 'dynarray()', '', ensures=['WFD(this)', 'len(els(this)) == 0'])
    C(D + 'dynarray(u64)', 'n', requires=['n <= MAXLEN'], ensures=['WFD(this)', 'len(els(this)) == n'])
    FILL = 'I:pos | forall((k,), implies(0 <= k and k < I, els(this)[k] == v), (els(this)[k],))'
    COPY = 'I:pos | forall((k,), implies(0 <= k and k < I, els(this)[k] == els(o)[k]), (els(this)[k],))'
    C(D + 'dynarray(u64,*)', 'n,v', inv=[FILL], requires=['n <= MAXLEN'], ensures=['WFD(this)', 'len(els(this)) == n', 'forall((k,), implies(0 <= k and k < n, els(this)[k] == v), (els(this)[k],))'])
    C(D + 'dynarray(dynarray)', 'o', inv=[COPY], requires=['WFD(o)'], ensures=['WFD(this)', 'els(this) == els(o)'])
    C(D + 'dynarray(dynarray&&)', 'o', requires=['WFD(o)'], ensures=['WFD(this)', 'els(this) == old(els(o))', 'WFD(o)', 'len(els(o)) == 0'])
    C(D + 'operator=(dynarray)', 'o', inv=[COPY], requires=['WFD(this)', 'WFD(o)'], ensures=['WFD(this)', 'els(this) == els(o)'])
    C(D + 'operator=(dynarray&&)', 'o', requires=['WFD(this)', 'WFD(o)'], ensures=['WFD(this)', 'els(this) == old(els(o))', 'WFD(o)', 'len(els(o)) == 0'])
    for cv in ('mut', 'const'):
        C(D + 'operator[] ' + cv, 'i', requires=['WFD(this)', 'i < len(els(this))'], ref='this.data_.v[i]', modifies='')
        C(D + 'at ' + cv, 'i', requires=['WFD(this)'], throws='i >= len(els(this))', ref='this.data_.v[i]', modifies='')
        C(D + 'begin ' + cv, '', requires=['WFD(this)'], iter='this.data_.v', modifies='', ensures=['result.off == 0'])
        C(D + 'end ' + cv, '', requires=['WFD(this)'], iter='this.data_.v', modifies='', ensures=['result.off == len(els(this))'])
        C(D + 'data ' + cv, '', requires=['WFD(this)'], iter='this.data_.v', modifies='', ensures=['result.off == 0'])
    C(D + 'cbegin', '', requires=['WFD(this)'], iter='this.data_.v', modifies='', ensures=['result.off == 0'])
    C(D + 'cend', '', requires=['WFD(this)'], iter='this.data_.v', modifies='', ensures=['result.off == len(els(this))'])
    C(D + 'size', '', requires=['WFD(this)'], ensures=['result == len(els(this))'])
    C(D + 'assign', 'v', inv=[FILL], requires=['WFD(this)'], ensures=['WFD(this)', 'len(els(this)) == len(old(els(this)))', 'forall((k,), implies(0 <= k and k < len(els(this)), els(this)[k] == v), (els(this)[k],))'])


def memo(w, C, S, M):
    from vf.types import TTuple, TInt
    S.shapes['K1'] = TTuple([S.shapes['K']])
    S.shapes['K2'] = TTuple([S.shapes['K'], TInt(32, True)])
    for args, ps, sh, key, app in (('vt::K', 'k', 'K1', 'rec("K1", e0=k)', 'apply_(this.func_, q.e0)'), ('vt::K, int', 'k,i', 'K2', 'rec("K2", e0=k, e1=i)', 'apply_(this.func_, q.e0, q.e1)')):
        P = 'flut::memoize<vt::V (%s)>::' % args
        ok = 'forall(q, implies(has(this.mem_, q), this.mem_[q] == %s), has(this.mem_, q), q="%s")' % (app, sh)
        C(P + 'memoize(function)', 'f', ensures=['this.func_ == f', ok, 'forall(q, not has(this.mem_, q), has(this.mem_, q), q="%s")' % sh])
        C(P + 'operator()', ps, ghost='ncalls:int', requires=[ok], ensures=[ok, 'this.func_ == old(this.func_)', 'result == apply_(this.func_, %s)' % ps, 'has(this.mem_, %s)' % key,
          'ncalls == old(ncalls) + (0 if has(old(this.mem_), %s) else 1)' % key, 'forall(q, implies(q != %s, has(this.mem_, q) == has(old(this.mem_), q)), has(this.mem_, q), q="%s")' % (key, sh)])


def deque(w, C, S, M):
    Q = 'flut::circular_deque<vt::V>::'
    M('cap', 't', 'len(t.buffer_)')
    M('WFQ', 't', 't.size_ <= cap(t) and (t.front_ < cap(t) or (cap(t) == 0 and t.front_ == 0))')
    # element i of the deque (0 = front), wherever it is stored
    M('vw', 't,i', 't.buffer_[t.front_ + i] if t.front_ + i < cap(t) else t.buffer_[t.front_ + i - cap(t)]')
    M('pos', 't,i', '(t.front_ + i if t.front_ + i < cap(t) else t.front_ + i - cap(t))')
    M('SAMEV', 't,u,n', 'forall(i, implies(0 <= i and i < n, vw(t, i) == vw(u, i)), t.buffer_[i])')
    R = ['WFQ(this)']
    ROOM = ['cap(this) < MAXLEN']
    C(Q + 'circular_deque(u64)', 'n', requires=['n <= MAXLEN'], ensures=['WFQ(this)', 'this.size_ == 0', 'cap(this) == n'])
    C(Q + 'push_back', 'value', inv=['I:pos, B:seq | forall(k, implies(0 <= k and k < I, B[k] == vw(this, k)), B[k])', 'B:seq | forall(k, implies(0 <= k and k < len(B), B[k] == vw(this, k)), B[k])', 'I:pos, B:seq | len(B) == I'], requires=R + ROOM, ghost='gi:int', ensures=['WFQ(this)', 'this.size_ == old(this.size_) + 1', 'vw(this, old(this.size_)) == value',
      'implies(0 <= gi and gi < old(this.size_), vw(this, gi) == old(vw(this, gi)))', 'cap(this) == max(old(cap(this)), this.size_)'])
    C(Q + 'push_front', 'value', inv=['I:pos, B:seq | forall(k, implies(0 <= k and k < I, B[k] == vw(this, k)), B[k])', 'B:seq | forall(k, implies(0 <= k and k < len(B), B[k] == vw(this, k)), B[k])', 'I:pos, B:seq | len(B) == I'], requires=R + ROOM, ghost='gi:int', ensures=['WFQ(this)', 'this.size_ == old(this.size_) + 1', 'vw(this, 0) == value',
      'implies(0 <= gi and gi < old(this.size_), vw(this, gi + 1) == old(vw(this, gi)))', 'cap(this) == max(old(cap(this)), this.size_)'])
    C(Q + 'pop_back', '', requires=R, throws='this.size_ == 0', ghost='gi:int', ensures=['WFQ(this)', 'this.size_ == old(this.size_) - 1', 'implies(0 <= gi and gi < this.size_, vw(this, gi) == old(vw(this, gi)))', 'this.buffer_ == old(this.buffer_)'])
    C(Q + 'pop_front', '', requires=R, throws='this.size_ == 0', ghost='gi:int', ensures=['WFQ(this)', 'this.size_ == old(this.size_) - 1', 'implies(0 <= gi and gi < this.size_, vw(this, gi) == old(vw(this, gi + 1)))', 'this.buffer_ == old(this.buffer_)'])
    for cv in ('mut', 'const'):
        C(Q + 'back ' + cv, '', requires=R, throws='this.size_ == 0', ref='this.buffer_[pos(this, this.size_ - 1)]', modifies='')
        C(Q + 'front ' + cv, '', requires=R, throws='this.size_ == 0', ref='this.buffer_[pos(this, 0)]', modifies='')
        C(Q + 'operator[] ' + cv, 'idx', requires=R + ['idx < this.size_'], ref='this.buffer_[pos(this, idx)]', modifies='')
    C(Q + 'size', '', ensures=['result == this.size_'])
    C(Q + 'empty', '', ensures=['iff(result, this.size_ == 0)'])
    C(Q + 'full', '', ensures=['iff(result, this.size_ == cap(this))'])
    C(Q + 'capacity', '', ensures=['result == cap(this)'])
    C(Q + 'clear', '', requires=R, ensures=['WFQ(this)', 'this.size_ == 0', 'cap(this) == old(cap(this))'])
    C(Q + 'reserve', 's', inv=['I:pos, B:seq | forall(k, implies(0 <= k and k < I, B[k] == vw(this, k)), B[k])', 'B:seq | forall(k, implies(0 <= k and k < len(B), B[k] == vw(this, k)), B[k])', 'I:pos, B:seq | len(B) == I'], requires=R + ['s <= MAXLEN'], ghost='gi:int', ensures=['WFQ(this)', 'this.size_ == old(this.size_)', 'cap(this) == max(old(cap(this)), s)', 'implies(0 <= gi and gi < this.size_, vw(this, gi) == old(vw(this, gi)))'])


def tools(w, C, S, M):
    C('flut::find_index', 'vec,val', inv=['I:pos | forall(j, implies(0 <= j and j < I, vec[j] != val), vec[j])'], ensures=['implies(result == NPOS, forall(j, implies(0 <= j and j < len(vec), vec[j] != val), vec[j]))',
      'implies(result != NPOS, result < len(vec) and vec[result] == val and forall(j, implies(0 <= j and j < result, vec[j] != val), vec[j]))'])
    C('flut::back_index', 'vec', throws='len(vec) == 0', ensures=['result == len(vec) - 1'])

    # sums and averages over the reals
    S.recfun('fsum', 's:seq<double>,n:int', 'real', '0.0 if n <= 0 else fsum(s, n - 1) + s[n - 1]')
    C('flut::average(vec)', 'cont', inv=['I:pos, R:real | R == fsum(cont, I)'], requires=['len(cont) > 0'], ensures=['result == fsum(cont, len(cont)) / len(cont)'])
    C('flut::sorted_copy(std::vector<vt::K,std::allocator<vt::K>>const&)', 'cont', ensures=['result == srt(cont)'])
    C('flut::sorted_copy(std::vector<double,std::allocator<double>>const&)', 'cont', ensures=['result == srt(cont)'])
    C('flut::median', 'vec', throws='len(vec) == 0', ensures=['implies(len(vec) % 2 == 1, result == srt(vec)[len(vec) // 2])',
      'implies(len(vec) % 2 == 0, 2 * result == srt(vec)[len(vec) // 2] + srt(vec)[len(vec) // 2 - 1])'])
    C('flut::top_average', 'vec,count', requires=['0 < count', 'count <= len(vec)'], ensures=['result == fsum(srt(vec)[:count], count) / count'])
    C('flut::sort_indices', 'cont', inv=['A:int, S:seq | forall(k, implies(0 <= k and k < A, S[k] == k), S[k])', 'S:seq | forall(k, implies(0 <= k and k < len(S), S[k] == k), S[k])'],
      ensures=['len(result) == len(cont)', 'forall(i, implies(0 <= i and i < len(cont), 0 <= result[i] and result[i] < len(cont)), result[i])',
               'forall((i,j), implies(0 <= i and i < j and j < len(cont), result[i] != result[j]), (result[i], result[j]))',
               'forall((i,j), implies(0 <= i and i < j and j < len(cont), ordk(cont[result[i]]) <= ordk(cont[result[j]])), (result[i], result[j]))'])
    for f, op in (('min', '<='), ('max', '>=')):
        for cv in ('std::vector<vt::K,std::allocator<vt::K>>&', 'std::vector<vt::K,std::allocator<vt::K>>const&'):
            C('flut::%s_element(%s)' % (f, cv), 'cont', modifies='', inv=['P:it, I:pos | forall(j, implies(0 <= j and j < I, ordk(cont[P.off]) %s ordk(cont[j])), cont[j])' % op], ensures=['implies(len(cont) > 0, 0 <= result.off and result.off < len(cont) and forall(j, implies(0 <= j and j < len(cont), ordk(cont[result.off]) %s ordk(cont[j])), cont[j]))' % op,
              'implies(len(cont) == 0, result.off == 0)'])
