"""factory: creation of objects by registered name"""
TU = 'factory.cpp'
FLAGS = ['-Dp=pattern', '-include', 'map', '-include', 'functional', '-include', 'limits']


def build(w, C):
    S = w.spec
    M = S.macro
    w.lambda_functions = True
    from vf.types import TPair, TSeq, STR
    F = 'flut::factory<vt_B, int>::'
    FM = 'flut::flat_map<std::basic_string<char>, std::function<std::unique_ptr<vt_B> (int)>>::'
    FN = S.shapes['FN'] = w.types.parse('std::function<std::unique_ptr<vt_B> (int)>')
    U = S.shapes['U'] = w.types.parse('std::unique_ptr<vt_B>')
    S.shapes['FS'] = TSeq(TPair(STR, FN))
    S.uf('kpos', ['FS', 'str'], 'int')
    S.axiom('kpos_def', 's:FS,k:str', '0 <= kpos(s,k) and kpos(s,k) <= len(s) and implies(kpos(s,k) < len(s), s[kpos(s,k)].first == k)', ['kpos(s,k)'])
    S.axiom('kpos_first', 's:FS,k:str,j:int', 'implies(0 <= j and j < kpos(s,k), s[j].first != k)', [('kpos(s,k)', 's[j]')])
    M('hask', 's,k', 'kpos(s, k) < len(s)')
    M('fn', 's,k', 's[kpos(s, k)].second')
    M('E', 't', 't.func_map_.base')
    M('DK', 's', 'forall((i,j), implies(0 <= i and i < j and j < len(s), s[i].first != s[j].first), (s[i], s[j]))')
    S.lemma('kpos_snoc', 's:FS,a:str,v:FN,k:str', [], ['kpos(s + unit(pair(a,v)), k) == (kpos(s,k) if hask(s,k) else (len(s) if a == k else len(s) + 1))'],
            hints=['(s + unit(pair(a,v)))[len(s)].first == a', 'implies(hask(s,k), (s + unit(pair(a,v)))[kpos(s,k)].first == k)',
                   'let(p, kpos(s + unit(pair(a,v)), k), implies(p < len(s), s[p].first == k))'], pats=['kpos(s + unit(pair(a,v)), k)'])
    S.lemma('kpos_upd', 's:FS,i:int,v:FN,k:str', ['0 <= i', 'i < len(s)'], ['kpos(upd(s, i, pair(s[i].first, v)), k) == kpos(s, k)'],
            hints=['let(t, upd(s, i, pair(s[i].first, v)), implies(kpos(t,k) < len(s), t[kpos(t,k)].first == s[kpos(t,k)].first) and implies(kpos(s,k) < len(s), t[kpos(s,k)].first == s[kpos(s,k)].first))'],
            pats=['kpos(upd(s, i, pair(s[i].first, v)), k)'])
    for cv in ('mut', 'const'):
        C(FM + 'find ' + cv, 'key', ensures=['result.off == kpos(this.base, key)'], modifies='', inv=['I:pos | I <= kpos(this.base, key)'], optional=True)
    C(FM + 'operator[] mut', 'key', requires=['DK(this.base)', 'len(this.base) < MAXLEN'], uses=['kpos_snoc'], ref='this.base[kpos(this.base, key)].second', optional=True,
      ensures=['hask(this.base, key)', 'DK(this.base)', 'implies(old(hask(this.base, key)), this.base == old(this.base))',
               'implies(not old(hask(this.base, key)), this.base == old(this.base) + unit(pair(key, default_("FN"))))'])
    INV = dict(inv=['I:pos | I <= kpos(E(this), type)'])
    C(F + 'has_type', 'type', **INV, ensures=['iff(result, hask(E(this), type))'], modifies='')
    C(F + 'empty', '', ensures=['iff(result, len(E(this)) == 0)'], modifies='')
    C(F + 'operator[]', 'type', **INV, throws='not hask(E(this), type)', ref='this.func_map_.base[kpos(this.func_map_.base, type)].second', modifies='')
    for f in ('create', 'operator()'):
        C(F + f, 'type,args', **INV, throws='not hask(E(this), type)', ensures=['result == apply_(fn(E(this), type), args)'], modifies='')
    C(F + 'try_create', 'type,args', **INV, ensures=['result == (apply_(fn(E(this), type), args) if hask(E(this), type) else no_("U"))'], modifies='')
    C(F + 'register_class', 'name', ghost='ga:int,gk:str', requires=['DK(E(this))', 'len(E(this)) < MAXLEN'], uses=['kpos_snoc', 'kpos_upd'],
      ensures=['hask(E(this), name)', 'DK(E(this))', 'implies(-2147483648 <= ga and ga <= 2147483647, apply_(fn(E(this), name), ga) == made_("U", "vt_D", ga))',
               'implies(gk != name, iff(hask(E(this), gk), old(hask(E(this), gk))))',
               'implies(gk != name and hask(E(this), gk), fn(E(this), gk) == old(fn(E(this), gk)))'])
