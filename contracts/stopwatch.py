"""stopwatch: elapsed time per tag"""
from contracts import propnode
TU = 'stopwatch.cpp'
FLAGS = propnode.FLAGS


def build(w, C):
    S = w.spec
    M = S.macro
    from vf.types import TPair, TSeq, TFloat, STR
    import z3
    from vf.values import T
    pw = ('prop_node()', 'prop_node(str&&)', 'prop_node(str)')
    propnode.build(w, lambda t, *a, **k: C(t, *a, **k) if t.startswith('flut::prop_node::') and t[len('flut::prop_node::'):] in pw else None)
    W = 'flut::stopwatch::'
    S.shapes['MS'] = TSeq(TPair(STR, TFloat(64)))
    w.global_state = {'ghost:clock': lambda ex, cons: ex.sorts.fresh(TFloat(64), 'clock', cons)}
    C('flut::timer::seconds', '', trusted='a reading of the clock is not earlier than the readings before it', modifies='ghost:clock', ensures=['result == clock', 'clock >= old(clock)'])
    C('flut::timer::timer()', '', trusted='starts the clock', modifies='this,ghost:clock')
    S.recfun('SUM', 's:MS,n:int', 'real', '0.0 if n <= 0 else SUM(s,n-1) + s[n-1].second', fuel=1)
    S.lemma('sum_upd', 's:MS,t:MS,n:int,k:int', ['0 <= k', 'forall(i, implies(0 <= i and i < n and i != k, s[i].second == t[i].second), t[i])'],
            ['SUM(t,n) == SUM(s,n) + (t[k].second - s[k].second if k < n else 0.0)'], induct='n')
    S.uf('mpos', ['MS', 'str'], 'int')
    S.axiom('mpos_def', 's:MS,k:str', '0 <= mpos(s,k) and mpos(s,k) <= len(s) and implies(mpos(s,k) < len(s), s[mpos(s,k)].first == k)', ['mpos(s,k)'])
    S.axiom('mpos_first', 's:MS,k:str,j:int', 'implies(0 <= j and j < mpos(s,k), s[j].first != k)', [('mpos(s,k)', 's[j]')])
    M('hastag', 's,k', 'mpos(s,k) < len(s)')
    M('base', 's,k', '(s if hastag(s,k) else s + unit(pair(k, 0.0)))')
    M('TOT', 'x', 'SUM(x.measures_, len(x.measures_)) + x.internal_measure_ - x.epoch_')
    C(W + 'add_measure', 's', requires=['this.epoch_ <= clock', 'len(this.measures_) < MAXLEN'], modifies='this,ghost:clock',
      inv=['I:pos | 0 <= I and I <= mpos(old(this.measures_), s)', 'this.measures_ == old(this.measures_)', 'B:bool | not B'], uses=['sum_upd'], hints=['@sum_upd(old(this.measures_), this.measures_, len(old(this.measures_)), mpos(old(this.measures_), s))'],
      ensures=['len(this.measures_) == len(base(old(this.measures_), s))', 'forall(i, implies(0 <= i and i < len(this.measures_), this.measures_[i].first == base(old(this.measures_), s)[i].first), this.measures_[i])',
               'forall(i, implies(0 <= i and i < len(this.measures_) and i != mpos(old(this.measures_), s), this.measures_[i].second == old(this.measures_)[i].second), this.measures_[i])',
               'this.measures_[mpos(old(this.measures_), s)].second >= base(old(this.measures_), s)[mpos(old(this.measures_), s)].second',
               'this.internal_measure_ >= old(this.internal_measure_)', 'this.epoch_ <= clock', 'old(clock) <= this.epoch_', 'TOT(this) == old(TOT(this))'])
    S.uf('fixtxt', ['real'], 'str')
    M('leafn', 'x', 'leaf(fixtxt(x))')
    PR = 'flut::to_str_precision_value'
    w.global_state['g:' + PR] = lambda ex, cons: ex.sorts.fresh(w.types.parse('int'), 'prec', cons)
    C('flut::set_to_str_precision', 'v', modifies='g:' + PR, ensures=['to_str_precision_value == v', 'result == old(to_str_precision_value)'])
    C('flut::prop_node::push_back(str,f64)', 'key,value', requires=['len(this.children) < MAXLEN'], ensures=['this.children == old(this.children) + unit(pair(old(key), leafn(old(value))))', 'this.value == old(this.value)'], ref='this.children[len(this.children) - 1].second')
    S.recfun('REP', 's:MS,n:int', 'CH', 'default_("CH") if n <= 0 else REP(s,n-1) + unit(pair(s[n-1].first, leafn(s[n-1].second)))', fuel=1)
    S.lemma('rep_len', 's:MS,n:int', [], ['len(REP(s,n)) == n'], induct='n', pats=['REP(s,n)'])
    C(W + 'stopwatch()', '', ensures=['len(this.measures_) == 0', 'this.internal_measure_ == 0.0', 'this.epoch_ <= clock'], modifies='this,ghost:clock')
    C(W + 'start_first_measure', '', ensures=['this.measures_ == old(this.measures_)', 'this.internal_measure_ == old(this.internal_measure_)', 'this.epoch_ <= clock', 'old(clock) <= this.epoch_'], modifies='this,ghost:clock')
    C(W + 'get_report', 'decimals', requires=['len(this.measures_) < MAXLEN'], uses=['rep_len'],
      ensures=['result.value == ""', 'result.children == REP(this.measures_, len(this.measures_)) + unit(pair("internal", leafn(this.internal_measure_)))', 'to_str_precision_value == old(to_str_precision_value)',
               'this.measures_ == old(this.measures_)', 'this.internal_measure_ == old(this.internal_measure_)', 'this.epoch_ == old(this.epoch_)'], modifies='g:' + PR,
      inv=['P:seq, R:pos | P == REP(this.measures_, R)'])
