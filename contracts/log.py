"""logging: delivery of messages to the registered sinks"""
TU = 'log.cpp'
FLAGS = ['-Dp=pattern', '-include', 'map', '-include', 'functional', '-include', 'limits', '-include', 'vector']


def build(w, C):
    S = w.spec
    M = S.macro
    from vf.types import TPair, TSeq, TInt, TPtr, TRec, STR
    from vf.values import HeapV, T, Loc, heap_id
    from vf.spec import SpecEval
    import z3
    LV = w.types.parse('flut::log::level')
    SK = w.types.parse('flut::log::sink')
    i64 = TInt(64, True)
    PS = S.shapes['PS'] = TSeq(TPtr(SK))
    TR = S.shapes['TR'] = TSeq(TPair(i64, STR))
    w.heap_types['flut::log::sink'] = 'ghost:heap'
    gs = z3.Int('gs')
    w.global_state = {
        'g:flut::log::global_sinks': lambda ex, cons: ex.sorts.fresh(PS, 'global_sinks', cons),
        'g:flut::log::lowest_log_level': lambda ex, cons: ex.sorts.fresh(LV, 'lowest', cons),
        'ghost:heap': lambda ex, cons: HeapV.fresh(ex.sorts, SK),
        'ghost:trace': lambda ex, cons: ex.sorts.fresh(TR, 'trace', cons),      # what the sink gs has received
        'ghost:gs': lambda ex, cons: T(gs, i64),
    }
    LOWEST, SINKS, HEAP, TRACE = 'g:flut::log::lowest_log_level', 'g:flut::log::global_sinks', 'ghost:heap', 'ghost:trace'
    POS = lambda *tpl: [('I:pos | ' + t.replace('%P', 'I') if '%P' in t else t) for t in tpl]     # position of the loop: an iterator or an index
    N, K = 'flut::log::', 'flut::log::sink::'
    S.uf('sp', ['PS', 'int'], 'int')
    S.axiom('sp_def', 's:PS,k:int', '0 <= sp(s,k) and sp(s,k) <= len(s) and implies(sp(s,k) < len(s), s[sp(s,k)] == k)', ['sp(s,k)'])
    S.axiom('sp_first', 's:PS,k:int,j:int', 'implies(0 <= j and j < sp(s,k), s[j] != k)', [('sp(s,k)', 's[j]')])
    M('lev', 'h,s', 'hp(h, s).log_level_')
    M('reg', 'q,s', 'sp(q, s) < len(q)')
    M('DS', 'q', 'forall((i,j), implies(0 <= i and i < j and j < len(q), q[i] != q[j]), (q[i], q[j])) and forall(i, implies(0 <= i and i < len(q), q[i] != 0), q[i])')
    M('LOW', 'q,h,l', 'forall(i, implies(0 <= i and i < len(q), l <= lev(h, q[i])), q[i])')
    M('LOWN', 'q,h,l,n', 'forall(i, implies(0 <= i and i < n, l <= lev(h, q[i])), q[i])')
    INV = ['DS(global_sinks)', 'LOW(global_sinks, heap, lowest_log_level)']
    M('got', 't,c,l,m', '(t + unit(pair(l + 0, m)) if c else t)')
    same = 'forall(o, implies(o != this_id, lev(heap, o) == lev(old(heap), o)), lev(heap, o))'
    # ---- one sink
    C(K + 'test_log_level', 'l', modifies='', ensures=['result == (l >= this.log_level_)'])
    C(K + 'get_log_level', '', modifies='', ensures=['result == this.log_level_'])
    # virtual and not defined in sink itself: what it means that a sink receives a message (the ghost trace of the arbitrary sink gs);
    # assumed: a sink does not change the set of sinks or their levels while it handles a message
    def send(ex, st, this, args, n):
        i = heap_id(ex.rv(st, this)) if not isinstance(this, Loc) else ex.this_loc(st, this, n).path[0][1]
        l, m = ex.rv(st, args[0]), ex.rv(st, args[1])
        h = st.store[TRACE]
        env = dict(trace=h, l=l, m=m, i=T(i, i64), gs=T(gs, i64))
        st.store[TRACE] = SpecEval(S, env).ev('got(trace, i == gs, l, m)')
        return [(st, None)]
    w.opaque_ops['send_log_message'] = send
    C(K + 'try_send_log_message', 'l,msg', modifies=TRACE, ensures=['trace == got(old(trace), this_id == gs and l >= this.log_level_, l, msg)'])
    C(K + 'set_log_level', 'l', modifies=HEAP + ',' + LOWEST, requires=INV[:1], ensures=['lev(heap, this_id) == l', same] + INV)
    C(K + 'sink(level)', 'l', modifies=HEAP + ',' + LOWEST + ',' + SINKS, requires=INV + ['not reg(global_sinks, this_id)', 'len(global_sinks) < MAXLEN'],
      ensures=['lev(heap, this_id) == l', same, 'global_sinks == old(global_sinks) + unit(this_id)', 'reg(global_sinks, this_id)'] + INV)
    C(K + '~sink', '', modifies=LOWEST + ',' + SINKS, ghost='go:int', requires=INV, ensures=['not reg(global_sinks, this_id)', 'implies(go != this_id, reg(global_sinks, go) == reg(old(global_sinks), go))'] + INV)
    # ---- registry
    C(N + 'add_sink', 's', modifies=LOWEST + ',' + SINKS, requires=INV + ['len(global_sinks) < MAXLEN'], throws='s == 0', hints=['implies(not reg(old(global_sinks), s), (old(global_sinks) + unit(s))[len(old(global_sinks))] == s)'],
      ensures=['global_sinks == (old(global_sinks) if reg(old(global_sinks), s) else old(global_sinks) + unit(s))', 'reg(global_sinks, s)'] + INV)
    C(N + 'remove_sink', 's', modifies=LOWEST + ',' + SINKS, ghost='go:int', gpat='sp(global_sinks, go)', requires=INV[:1],
      hints=['implies(go != s and reg(old(global_sinks), go), global_sinks[sp(old(global_sinks), go) - (1 if sp(old(global_sinks), s) < sp(old(global_sinks), go) else 0)] == go)',
             'implies(reg(global_sinks, go), old(global_sinks)[sp(global_sinks, go) + (1 if sp(old(global_sinks), s) <= sp(global_sinks, go) else 0)] == go)'],
      ensures=['not reg(global_sinks, s)', 'implies(go != s, reg(global_sinks, go) == reg(old(global_sinks), go))'] + INV)
    # ---- levels
    C(N + 'get_global_log_level', '', modifies=LOWEST, ghost='gc:int',
      requires=INV[:1],
      inv=POS('LOWN(global_sinks, heap, lowest_log_level, %P)', 'lowest_log_level <= 6', 'implies(gc <= 6 and LOW(global_sinks, heap, gc), lowest_log_level >= gc)') + [
           'I:pos, L:enum | LOWN(global_sinks, heap, L, I)', 'L:enum | L <= 6', 'L:enum | implies(gc <= 6 and LOW(global_sinks, heap, gc), L >= gc)'],
      ensures=[INV[1], 'result == lowest_log_level', 'lowest_log_level <= 6', 'implies(gc <= 6 and LOW(global_sinks, heap, gc), lowest_log_level >= gc)'])
    C(N + 'set_global_log_level', 'l', modifies=LOWEST + ',' + HEAP, requires=INV[:1],
      ensures=['lowest_log_level == l', 'forall(i, implies(0 <= i and i < len(global_sinks), lev(heap, global_sinks[i]) == l), global_sinks[i])',
               'implies(not reg(global_sinks, go), lev(heap, go) == lev(old(heap), go))'] + INV[1:], ghost='go:int', gpat='hp(heap, go).log_level_',
      inv=POS('forall(i, implies(0 <= i and i < %P, lev(heap, global_sinks[i]) == l), global_sinks[i])', 'implies(not reg(global_sinks, go), lev(heap, go) == lev(old(heap), go))'))
    C(N + 'test_log_level', 'l', modifies='', ensures=['result == (l >= lowest_log_level)'])
    # ---- messages
    G = 'trace == got(old(trace), reg(global_sinks, gs) and %s >= lev(heap, gs), %s, %s)'
    C(N + 'log_string', 'l,str', modifies=TRACE, requires=INV[:1], ensures=[G % ('l', 'l', 'str')],
      inv=POS('trace == got(old(trace), sp(global_sinks, gs) < %P and l >= lev(heap, gs), l, str)'))
    C(N + 'log_stream(level,vec)', 'l,msg', modifies=TRACE, requires=INV[:1], ensures=[G % ('l', 'l', 'msg')], optional=True)
    C(N + 'message(level,str)', 'l,a', modifies=TRACE, requires=INV, ensures=[G % ('l', 'l', 'a')])
    C(N + 'message(level,str,str)', 'l,a,b', modifies=TRACE, requires=INV, ensures=[G % ('l', 'l', 'a + b')])
    for i, f in enumerate(('trace', 'debug', 'info', 'warning', 'error', 'critical')):
        C(N + f + '(str)', 'a', modifies=TRACE, requires=INV, ensures=[G % (str(i + 1), str(i + 1), 'a')])
