"""char_stream.{hpp,cpp}: reading text"""
TU = 'charstream.cpp'
FLAGS = ['-Dp=pattern']


def build(w, C):
    from vf.module import load
    load('strings').quoting(w, C)
    S = w.spec
    M = S.macro
    # ---- abstract state of a stream: text b, end n, position cur, flags
    M('B', 't', 't.buffer_end.base')
    M('N', 't', 't.buffer_end.off')
    M('cur', 't', 't.cur_pos.off')
    M('D', 't', 'cstr(t.delimiters_)')
    M('failf', 't', 't.buffer_flags.data % 2 == 1')
    M('eoff', 't', '(t.buffer_flags.data // 2) % 2 == 1')
    M('goodf', 't', 'not failf(t) and not eoff(t)')
    # representation invariant: position inside the buffer, terminator at its end, eof flag exactly at the end
    M('WF', 't', '''t.cur_pos.base == B(t) and not isnull(t.cur_pos) and not isnull(t.buffer_end) and not isnull(t.delimiters_)
        and 0 <= cur(t) and cur(t) <= N(t) and N(t) <= len(B(t)) and N(t) <= INT_MAX and (N(t) == len(B(t)) or B(t)[N(t)] == 0)
        and t.buffer_flags.data < 4''')
    M('INV', 't', 'WF(t) and iff(eoff(t), cur(t) == N(t))')
    M('isd', 'c,q', 'c == 0 or mem(c, q)')
    S.recfun('skipd', 'b:str,i:int,n:int,q:str', 'int', 'i if i >= n or not isd(b[i], q) else skipd(b, i + 1, n, q)', fuel=1)
    M('SAME', 't,u', 't.buffer_end == u.buffer_end and t.delimiters_ == u.delimiters_ and t.radix == u.radix and t.str_buffer == u.str_buffer')
    M('AT', 't,u,k', 'INV(t) and cur(t) == skipd(B(u), k, N(u), D(u)) and SAME(t, u)')
    K = 'flut::char_stream::'
    NP = dict(public=False)
    S.lemma('skip_range_m', 'b:str,n:int,q:str,m:int', [], ['n - m <= skipd(b,n-m,n,q)', 'skipd(b,n-m,n,q) <= n'], induct='m')
    S.lemma('skip_range', 'b:str,i:int,n:int,q:str', ['i <= n'], ['i <= skipd(b,i,n,q)', 'skipd(b,i,n,q) <= n'], hints=['@skip_range_m(b,n,q,n-i)'], pats=['skipd(b,i,n,q)'])
    C(K + 'test_eof', '', requires=['WF(this)'], ensures=['iff(result, cur(this) == N(this))', 'WF(this)', 'iff(failf(this), failf(old(this)))',
      'iff(eoff(this), eoff(old(this)) or cur(this) == N(this))'], modifies='this.buffer_flags', **NP)
    C(K + 'skip_delimiters()', '', requires=['WF(this)', 'implies(eoff(this), cur(this) == N(this))'], modifies='this.buffer_flags,this.cur_pos',
      ensures=['AT(this, old(this), old(cur(this)))', 'iff(failf(this), failf(old(this)))'],
      inv=['skipd(B(this), cur(this), N(this), D(this)) == skipd(B(this), old(cur(this)), N(this), D(this))', 'WF(this)', 'cur(this) >= old(cur(this))', 'implies(eoff(this), cur(this) == N(this))', 'iff(failf(this), failf(old(this)))'],
      dec=['N(this) - cur(this)'], **NP)
    C(K + 'process_end_pos', '', requires=['INV(this)', 'this.cur_pos_end.base == B(this)', 'not isnull(this.cur_pos_end)', 'cur(this) <= this.cur_pos_end.off', 'this.cur_pos_end.off <= N(this)'],
      modifies='this.buffer_flags,this.cur_pos', uses=['skip_range'],
      ensures=['INV(this)', 'SAME(this, old(this))',
               'implies(old(cur(this)) == old(this.cur_pos_end.off), cur(this) == old(cur(this)) and failf(this) and iff(eoff(this), eoff(old(this))))',
               'implies(old(cur(this)) != old(this.cur_pos_end.off), cur(this) == skipd(B(this), old(this.cur_pos_end.off), N(this), D(this)) and iff(failf(this), failf(old(this))))'], **NP)
    # a read consumes [old position, k) and the delimiters behind it; when it consumes nothing it sets the fail state
    M('READ', 't,u,k', '''INV(t) and SAME(t, u) and
        ((cur(t) == cur(u) and failf(t)) if k == cur(u) else (cur(t) == skipd(B(u), k, N(u), D(u)) and cur(t) > cur(u) and iff(failf(t), failf(u))))''')
    S.recfun('upto', 'b:str,i:int,n:int,q:str', 'int', 'i if i >= n or isd(b[i], q) else upto(b, i + 1, n, q)', fuel=1)
    S.lemma('upto_range_m', 'b:str,n:int,q:str,m:int', [], ['n - m <= upto(b,n-m,n,q)', 'upto(b,n-m,n,q) <= n'], induct='m')
    S.lemma('upto_range', 'b:str,i:int,n:int,q:str', ['i <= n'], ['i <= upto(b,i,n,q)', 'upto(b,i,n,q) <= n'], hints=['@upto_range_m(b,n,q,n-i)'], pats=['upto(b,i,n,q)'])
    M('rest', 't', 'cstr(t.cur_pos)')
    # numbers: value and extent are those of the C library conversion of the text at the position
    for fn in ('strtol', 'strtoul', 'strtoll', 'strtoull', 'strtof', 'strtod'):
        S.uf(fn + '_val', ['str', 'int'], 'real' if fn in ('strtof', 'strtod') else 'int')
        S.uf(fn + '_len', ['str', 'int'], 'int')
    M('w32', 'v', 'v % 4294967296')
    M('w16', 'v', 'v % 65536')
    M('s32', 'v', '(v + 2147483648) % 4294967296 - 2147483648')
    M('s16', 'v', '(v + 32768) % 65536 - 32768')
    for tag, fn, cv in (('f32', 'strtof', '%s'), ('f64', 'strtod', '%s'), ('long&', 'strtol', '%s'), ('unsigned long&', 'strtoul', '%s'), ('long long&', 'strtoll', '%s'), ('unsigned long long&', 'strtoull', '%s'), ('i32', 'strtol', 's32(%s)'), ('u32', 'strtoul', 'w32(%s)'), ('i16', 'strtol', 's16(%s)'), ('u16', 'strtoul', 'w16(%s)')):
        rad = '10' if fn in ('strtof', 'strtod') else 'old(this.radix)'
        val = '%s_val(old(rest(this)), %s)' % (fn, rad)
        C(K + 'operator>>(%s)' % tag, 'v', requires=['INV(this)'], uses=['skip_range'],
          ensures=['v == ' + cv % val, 'READ(this, old(this), old(cur(this)) + %s_len(old(rest(this)), %s))' % (fn, rad)])
    C(K + 'operator>>(str)', 's', requires=['INV(this)'], uses=['skip_range', 'upto_range'],
      ensures=['s == B(this)[old(cur(this)):upto(B(this), old(cur(this)), N(this), D(this))]', 'READ(this, old(this), upto(B(this), old(cur(this)), N(this), D(this)))'],
      inv=['upto(B(this), this.cur_pos_end.off, N(this), D(this)) == upto(B(this), old(cur(this)), N(this), D(this))', 'this.cur_pos_end.base == B(this)', 'not isnull(this.cur_pos_end)',
           'cur(this) <= this.cur_pos_end.off', 'this.cur_pos_end.off <= N(this)'],
      dec=['N(this) - this.cur_pos_end.off'])
    C(K + 'get_line', '', requires=['INV(this)'], uses=['skip_range'],
      ensures=[r'let(k, old(cur(this)) + ffo(old(rest(this)), "\r\n", 0), result == B(this)[old(cur(this)):k] and READ(this, old(this), k))'])
    C(K + 'getc', '', requires=['INV(this)'], modifies='this.cur_pos,this.buffer_flags',
      ensures=['result == (B(this)[old(cur(this))] if old(cur(this)) < N(this) else 0)', 'cur(this) == min(old(cur(this)) + 1, N(this))', 'INV(this)', 'SAME(this, old(this))', 'iff(failf(this), failf(old(this)))'])
    C(K + 'peekc', '', requires=['INV(this)'], ensures=['result == (B(this)[cur(this)] if cur(this) < N(this) else 0)'], modifies='')
    C(K + 'good', '', requires=['INV(this)'], ensures=['iff(result, goodf(this))'], modifies='')
    C(K + 'eof', '', requires=['INV(this)'], ensures=['iff(result, cur(this) == N(this))'], modifies='')
    C(K + 'fail', '', requires=['INV(this)'], ensures=['iff(result, failf(this))'], modifies='')
    M('START', 't,b,o,n', '''INV(t) and B(t) == b and N(t) == n and cur(t) == skipd(b, o, n, D(t)) and not failf(t)''')
    C(K + 'char_stream(cstr,cstr)', 'buf,delim', requires=['not isnull(buf)', 'not isnull(delim)', 'len(cstr(buf)) + buf.off <= INT_MAX'], uses=['skip_range'],
      ensures=['START(this, buf.base, buf.off, buf.off + len(cstr(buf)))', 'D(this) == cstr(delim)', 'this.radix == 10'])
    C(K + 'char_stream(str&&,cstr)', 'other,delim', requires=['not isnull(delim)', 'len(other) <= INT_MAX'], uses=['skip_range'],
      ensures=['START(this, old(other), 0, len(old(other)))', 'D(this) == cstr(delim)', 'this.radix == 10'])
    # ---- tokens
    # QS/QE: what the quoted part starting at i decodes to, and where it ends (behind the closing quote)
    S.recfun('QE', 'b:str,n:int,q:int,i:int', 'int', 'n if i >= n else i + 1 if b[i] == q else QE(b, n, q, i + (dlen(b, i, n - i) if b[i] == 92 else 1))', fuel=1)
    S.recfun('QS', 'b:str,n:int,q:int,i:int', 'str', '"" if i >= n or b[i] == q else unit(dval(b, i, n - i)) + QS(b, n, q, i + (dlen(b, i, n - i) if b[i] == 92 else 1))', fuel=1)
    # TS/TP: token and its end, scanning from e with piece start p and text s so far
    S.recfun('TS', 'b:str,n:int,d:str,o:str,k:str,p:int,e:int,s:str', 'str', '''s + b[p:e] if e >= n or isd(b[e], d) else
        TS(b,n,d,o,k,QE(b,n,b[e],e+1),QE(b,n,b[e],e+1),s + QS(b,n,b[e],e+1)) if mem(b[e],k) else
        (unit(b[e]) if p == e and len(s) == 0 else s + b[p:e]) if mem(b[e],o) else
        TS(b,n,d,o,k,p,e+1,s)''', fuel=1)
    S.recfun('TP', 'b:str,n:int,d:str,o:str,k:str,p:int,e:int,s:str', 'int', '''e if e >= n or isd(b[e], d) else
        TP(b,n,d,o,k,QE(b,n,b[e],e+1),QE(b,n,b[e],e+1),s + QS(b,n,b[e],e+1)) if mem(b[e],k) else
        (e + 1 if p == e and len(s) == 0 else e) if mem(b[e],o) else
        TP(b,n,d,o,k,p,e+1,s)''', fuel=1)
    S.lemma('qe_m', 'b:str,n:int,q:int,i:int,m:int', ['n - i <= m', 'i <= n', '0 <= i'], ['i <= QE(b,n,q,i)', 'QE(b,n,q,i) <= n'], induct='m', gen=['i'], pats=['QE(b,n,q,i)'],
            hints=['implies(i < n, 1 <= dlen(b,i,n-i) and i + dlen(b,i,n-i) <= n)', 'implies(i < n and b[i] != q, QE(b,n,q,i) == QE(b, n, q, i + (dlen(b, i, n - i) if b[i] == 92 else 1)))'])
    S.lemma('qe', 'b:str,n:int,q:int,i:int', ['i <= n', '0 <= i'], ['i <= QE(b,n,q,i)', 'QE(b,n,q,i) <= n'], hints=['@qe_m(b,n,q,i,n-i)'], pats=['QE(b,n,q,i)'])
    S.lemma('tp_m', 'b:str,n:int,d:str,o:str,k:str,p:int,e:int,s:str,m:int', ['n - e <= m', 'e <= n', '0 <= e'], ['e <= TP(b,n,d,o,k,p,e,s)', 'TP(b,n,d,o,k,p,e,s) <= n'],
            induct='m', gen=['e', 'p', 's'], pats=['TP(b,n,d,o,k,p,e,s)'], uses=['qe'],
            hints=['implies(e < n, let(x, QE(b,n,b[e],e+1), e < x and x <= n and TP(b,n,d,o,k,x,x,s + QS(b,n,b[e],e+1)) >= x and TP(b,n,d,o,k,x,x,s + QS(b,n,b[e],e+1)) <= n))',
                   'implies(e < n, TP(b,n,d,o,k,p,e+1,s) >= e and TP(b,n,d,o,k,p,e+1,s) <= n)'])
    S.lemma('tp', 'b:str,n:int,d:str,o:str,k:str,p:int,e:int,s:str', ['e <= n', '0 <= e'], ['e <= TP(b,n,d,o,k,p,e,s)', 'TP(b,n,d,o,k,p,e,s) <= n'], hints=['@tp_m(b,n,d,o,k,p,e,s,n-e)'], pats=['TP(b,n,d,o,k,p,e,s)'])
    S.lemma('tok_progress', 'b:str,n:int,d:str,o:str,k:str,e:int', ['0 <= e', 'e < n', 'n <= len(b)'], ['skipd(b, TP(b,n,d,o,k,e,e,""), n, d) > e'], pats=['TP(b,n,d,o,k,e,e,"")'], uses=['tp', 'qe', 'skip_range'],
            hints=['TP(b,n,d,o,k,e,e+1,"") >= e + 1', 'let(x, QE(b,n,b[e],e+1), TP(b,n,d,o,k,x,x,"" + QS(b,n,b[e],e+1)) >= e + 1)', 'implies(isd(b[e],d), skipd(b,e,n,d) == skipd(b,e+1,n,d))'])
    # a quoted string reads back as one token
    for j in '0123':
        S.lemma('bq' + j, 't:str,b:str,p:int,i:int', ['0 <= p', 'p + len(Q(t)) <= len(b)', 'b[p:p+len(Q(t))] == Q(t)', '0 <= i', 'i < len(t)', '%s < len(esc(t[i]))' % j],
                ['b[p + 1 + len(E(t,i)) + %s] == esc(t[i])[%s]' % (j, j)], hints=['@escq%s(t,i)' % j, 'b[p:p+len(Q(t))][1+len(E(t,i))+%s] == b[p+1+len(E(t,i))+%s]' % (j, j)])
    M('BQ', 't,b,p,n', '0 <= p and p + len(Q(t)) <= n and n <= len(b) and b[p:p+len(Q(t))] == Q(t) and chars(t)')
    S.lemma('qstep', 't:str,b:str,p:int,n:int,i:int', ['BQ(t,b,p,n)', '0 <= i', 'i < len(t)'],
            ['dval(b, p + 1 + len(E(t,i)), n - (p + 1 + len(E(t,i)))) == t[i]', 'dlen(b, p + 1 + len(E(t,i)), n - (p + 1 + len(E(t,i)))) == len(esc(t[i]))',
             'b[p + 1 + len(E(t,i))] != 34', 'p + 1 + len(E(t,i)) < n'],
            hints=['@bq0(t,b,p,i)', '@bq1(t,b,p,i)', '@bq2(t,b,p,i)', '@bq3(t,b,p,i)', '@prefixlen(t,i+1,len(t))', 'E(t,i+1) == E(t,i) + esc(t[i])', 'p + 1 + len(E(t,i)) + len(esc(t[i])) < n'])
    S.lemma('qend', 't:str,b:str,p:int,n:int', ['BQ(t,b,p,n)'], ['b[p + 1 + len(E(t,len(t)))] == 34', 'b[p] == 34', 'p + 1 + len(E(t,len(t))) < n'],
            hints=['b[p:p+len(Q(t))][1+len(E(t,len(t)))] == b[p+1+len(E(t,len(t)))]', 'b[p:p+len(Q(t))][0] == b[p]'])
    M('qpos', 't,p,m', 'p + 1 + len(E(t, len(t) - m))')
    S.lemma('qrt', 't:str,b:str,p:int,n:int,m:int', ['BQ(t,b,p,n)', 'm <= len(t)'], ['QS(b, n, 34, qpos(t,p,m)) == t[len(t)-m:]', 'QE(b, n, 34, qpos(t,p,m)) == p + len(Q(t))'], induct='m',
            hints=['@qend(t,b,p,n)', '@qstep(t,b,p,n,len(t)-m)', 'implies(m > 0, E(t, len(t)-m+1) == E(t, len(t)-m) + esc(t[len(t)-m]))',
                   'implies(m > 0, b[qpos(t,p,m)] == 92 or len(esc(t[len(t)-m])) == 1)',
                   'implies(m > 0, QS(b, n, 34, qpos(t,p,m)) == unit(t[len(t)-m]) + QS(b, n, 34, qpos(t,p,m-1)))'], uses=[])
    S.lemma('token_quoted', 't:str,b:str,p:int,n:int,d:str,o:str,k:str', ['BQ(t,b,p,n)', 'mem(34, k)', 'not mem(34, d)', 'let(e, p + len(Q(t)), e >= n or isd(b[e], d))'],
            ['TS(b,n,d,o,k,p,p,"") == t', 'TP(b,n,d,o,k,p,p,"") == p + len(Q(t))'], hints=['@qrt(t,b,p,n,len(t))', '@qend(t,b,p,n)', 'len(E(t,0)) == 0', 'QS(b,n,34,p+1) == t', 'QE(b,n,34,p+1) == p + len(Q(t))',
                'TS(b,n,d,o,k,p,p,"") == TS(b,n,d,o,k,p+len(Q(t)),p+len(Q(t)),t)', 'TP(b,n,d,o,k,p,p,"") == TP(b,n,d,o,k,p+len(Q(t)),p+len(Q(t)),t)'])
    # plain text up to a delimiter, an operator or the end is one token
    M('plain', 'c,d,o,k', 'not isd(c,d) and not mem(c,o) and not mem(c,k)')
    S.lemma('plain_m', 'b:str,n:int,d:str,o:str,k:str,p:int,f:int,m:int', ['0 <= p', 'f <= n', 'n <= len(b)', 'm <= f - p', 'forall(j, implies(p <= j and j < f, plain(b[j],d,o,k)), b[j])', 'f > p', 'f >= n or isd(b[f],d) or (mem(b[f],o) and not mem(b[f],k))'],
            ['TS(b,n,d,o,k,p,f-m,"") == b[p:f]', 'TP(b,n,d,o,k,p,f-m,"") == f'], induct='m')
    S.lemma('token_plain', 'b:str,n:int,d:str,o:str,k:str,p:int,f:int', ['0 <= p', 'f <= n', 'n <= len(b)', 'f > p', 'forall(j, implies(p <= j and j < f, plain(b[j],d,o,k)), b[j])', 'f >= n or isd(b[f],d) or (mem(b[f],o) and not mem(b[f],k))'],
            ['TS(b,n,d,o,k,p,p,"") == b[p:f]', 'TP(b,n,d,o,k,p,p,"") == f'], hints=['@plain_m(b,n,d,o,k,p,f,f-p)'])
    S.lemma('token_operator', 'b:str,n:int,d:str,o:str,k:str,p:int', ['0 <= p', 'p < n', 'n <= len(b)', 'mem(b[p],o)', 'not isd(b[p],d)', 'not mem(b[p],k)'],
            ['TS(b,n,d,o,k,p,p,"") == unit(b[p])', 'TP(b,n,d,o,k,p,p,"") == p + 1'])
    TA = 'B(this),N(this),D(this),cstr(operators),cstr(quotations)'
    C(K + 'get_token', 'operators,quotations', requires=['INV(this)', 'not isnull(operators)', 'not isnull(quotations)'], uses=['skip_range', 'catassoc', 'tok_progress'],
      ensures=['implies(goodf(old(this)), cur(this) > old(cur(this)))', 'INV(this)', 'SAME(this, old(this))', 'iff(failf(this), failf(old(this)))',
               'implies(not goodf(old(this)), len(result) == 0 and cur(this) == skipd(B(this), old(cur(this)), N(this), D(this)))',
               'implies(goodf(old(this)), result == TS(%s,old(cur(this)),old(cur(this)),""))' % TA,
               'implies(goodf(old(this)), cur(this) == skipd(B(this), TP(%s,old(cur(this)),old(cur(this)),""), N(this), D(this)))' % TA],
      inv=['INV(this)', 'iff(failf(this), failf(old(this)))',
           'this.cur_pos_end.base == B(this)', 'not isnull(this.cur_pos_end)', 'cur(this) <= this.cur_pos_end.off', 'this.cur_pos_end.off <= N(this)',
           'implies(not goodf(this), cur(this) == this.cur_pos_end.off)',
           'R:str | implies(not goodf(old(this)), len(R) == 0 and cur(this) == old(cur(this)))',
           'R:str | implies(goodf(old(this)), TS(%s,cur(this),this.cur_pos_end.off,R) == TS(%s,old(cur(this)),old(cur(this)),""))' % (TA, TA),
           'R:str | implies(goodf(old(this)), TP(%s,cur(this),this.cur_pos_end.off,R) == TP(%s,old(cur(this)),old(cur(this)),""))' % (TA, TA),
           'cur(this) >= this0.cur_pos.off',
           'R:str, Qc!:int | R + QS(B(this),N(this),Qc,cur(this)) == R0 + QS(B(this),N(this),Qc,this0.cur_pos.off)',
           'Qc!:int | QE(B(this),N(this),Qc,cur(this)) == QE(B(this),N(this),Qc,this0.cur_pos.off)',
           # the same with a flag that tells that the closing quote was read
           'R:str, Qc!:int, F:bool | (R if F else R + QS(B(this),N(this),Qc,cur(this))) == R0 + QS(B(this),N(this),Qc,this0.cur_pos.off)',
           'Qc!:int, F:bool | (cur(this) if F else QE(B(this),N(this),Qc,cur(this))) == QE(B(this),N(this),Qc,this0.cur_pos.off)',
           'R:str, Qc!:int, F:bool | (R if not F else R + QS(B(this),N(this),Qc,cur(this))) == R0 + QS(B(this),N(this),Qc,this0.cur_pos.off)',
           'Qc!:int, F:bool | (cur(this) if not F else QE(B(this),N(this),Qc,cur(this))) == QE(B(this),N(this),Qc,this0.cur_pos.off)',
           'L:int | cur(this) + L == this0.cur_pos.off + L0', 'L:int | L <= L0', 'L:int | L >= 0', 'L:int | cur(this) + L <= N(this)',
           ],
      dec=['N(this) - this.cur_pos_end.off', 'N(this) - cur(this)', 'L:int | L'])
