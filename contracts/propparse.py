"""prop_node_tools.cpp: reading a property tree from text"""
from contracts import propnode
TU = 'propparse.cpp'
FLAGS = propnode.FLAGS


def build(w, C):
    from vf.module import load
    pw = ('prop_node()', 'push_back(str)', 'set_value(str&&)', 'set_value(str)', 'has_value()', 'size', 'empty', 'get_value', 'prop_node(prop_node&&)', 'prop_node(prop_node)')
    propnode.build(w, lambda t, *a, **k: C(t, *a, **k) if t.startswith('flut::prop_node::') and t[len('flut::prop_node::'):] in pw else None)
    cw = ('test_eof', 'skip_delimiters()', 'process_end_pos', 'getc', 'get_token', 'get_line', 'good', 'peekc', 'char_stream(cstr,cstr)')
    load('charstream').build(w, lambda t, *a, **k: C(t, *a, **dict(k, note="imported")) if (t.startswith('flut::char_stream::') and t[len('flut::char_stream::'):] in cw) or t in ('flut::quoted', 'flut::try_quoted', 'flut::needs_quotes', 'flut::encode_char', 'flut::decode_char') else None)
    load('strings').rest(w, lambda t, *a, **k: C(t, *a, **dict(k, note="imported")) if t in ('flut::trim_str',) else None)
    S = w.spec
    M = S.macro
    # position c of a text b that ends at n; d: separators
    M('OPS', '', '"={}%"')
    M('QUO', '', r'''"\"'"''')
    M('tok', 'b,n,d,c', 'TS(b,n,d,OPS(),QUO(),c,c,"")')
    M('nxt', 'b,n,d,c', 'skipd(b, TP(b,n,d,OPS(),QUO(),c,c,""), n, d)')
    # behind the rest of the line
    M('lnx', 'b,n,d,c', r'skipd(b, c + ffo(cstr(b[c:]), "\r\n", 0), n, d)')
    # behind all comments; the token there and the position behind it
    S.recfun('cmt', 'b:str,n:int,d:str,c:int', 'int', 'c if c >= n or b[c] != 37 else cmt(b,n,d,lnx(b,n,d,c))', fuel=1)
    S.recfun('PT', 'b:str,n:int,d:str,c:int', 'str', 'let(e, cmt(b,n,d,c), "" if e >= n else TR(tok(b,n,d,e), WS()))', fuel=1)
    S.recfun('PP', 'b:str,n:int,d:str,c:int', 'int', 'let(e, cmt(b,n,d,c), skipd(b, e, n, d) if e >= n else nxt(b,n,d,e))', fuel=1)
    M('isal', 'c', '(65 <= c and c <= 90) or (97 <= c and c <= 122)')
    M('lab', 's', 'len(s) > 0 and isal(s[0])')
    M('SI', 't', 'INV(t) and not failf(t)')
    A = 'B(str),N(str),D(str)'
    C('flut::is_valid_prop_label', 's', ensures=['iff(result, lab(s))'], optional=True)
    C('flut::get_prop_token', 'str', requires=['SI(str)'], modifies='str',
      ensures=['SI(str)', 'SAME(str, old(str))', 'result == PT(%s,old(cur(str)))' % A, 'cur(str) == PP(%s,old(cur(str)))' % A, 'implies(old(cur(str)) < N(str), cur(str) > old(cur(str)))', 'implies(old(cur(str)) == N(str), len(result) == 0)', 'cur(str) >= old(cur(str))'],
      inv=['SI(str)', 'SAME(str, old(str))', 'cur(str) >= old(cur(str))', 'cmt(%s,cur(str)) == cmt(%s,old(cur(str)))' % (A, A)],
      dec=['N(str) - cur(str)'])

    # what follows a label: '= value', then optionally '{' children '}'. HT/HP/HN: last token of the head, position behind it, node with the value
    T = 'b:str,n:int,d:str,c:int'
    S.recfun('HT', T, 'str', 'let(t, PT(b,n,d,c), let(k, PP(b,n,d,PP(b,n,d,c)), t if t != "=" else PT(b,n,d,k) if k < n and b[k] == 123 else "="))', fuel=1)
    S.recfun('HP', T, 'int', 'let(t, PT(b,n,d,c), let(k, PP(b,n,d,PP(b,n,d,c)), PP(b,n,d,c) if t != "=" else PP(b,n,d,k) if k < n and b[k] == 123 else k))', fuel=1)
    M('HN', 'b,n,d,c,p', 'pnode(PT(b,n,d,PP(b,n,d,c)), p.children) if PT(b,n,d,c) == "=" else p')
    # node, position and failure of a node / of the rest of a list of children / of the rest of the top level
    M('RN', 'b,n,d,c,p', 'LN(b,n,d,HP(b,n,d,c),HN(b,n,d,c,p)) if HT(b,n,d,c) == "{" else HN(b,n,d,c,p)')
    M('RP', 'b,n,d,c', 'LP(b,n,d,HP(b,n,d,c)) if HT(b,n,d,c) == "{" else HP(b,n,d,c)')
    M('RX', 'b,n,d,c', 'HT(b,n,d,c) == "{" and LX(b,n,d,HP(b,n,d,c))')
    M('addc', 'p,t,x', 'pnode(p.value, p.children + unit(pair(t, x)))')
    S.recfun('LP', T, 'int', 'c if c >= n else PP(b,n,d,c) if not lab(PT(b,n,d,c)) else LP(b,n,d,RP(b,n,d,PP(b,n,d,c)))', fuel=1)
    S.recfun('LX', T, 'bool', 'c < n and (RX(b,n,d,PP(b,n,d,c)) or LX(b,n,d,RP(b,n,d,PP(b,n,d,c))) if lab(PT(b,n,d,c)) else PT(b,n,d,c) != "}")', fuel=1)
    S.recfun('LN', T + ',p:PN', 'PN', 'p if c >= n or not lab(PT(b,n,d,c)) else LN(b,n,d,RP(b,n,d,PP(b,n,d,c)), addc(p, PT(b,n,d,c), RN(b,n,d,PP(b,n,d,c),leaf(""))))', fuel=1)
    S.recfun('TN', T + ',p:PN', 'PN', 'p if not lab(PT(b,n,d,c)) else TN(b,n,d,RP(b,n,d,PP(b,n,d,c)), addc(p, PT(b,n,d,c), RN(b,n,d,PP(b,n,d,c),leaf(""))))', fuel=1)
    S.recfun('TX', T, 'bool', 'lab(PT(b,n,d,c)) and (RX(b,n,d,PP(b,n,d,c)) or TX(b,n,d,RP(b,n,d,PP(b,n,d,c))))', fuel=1)
    HID = ('PT', 'PP', 'cmt', 'TS', 'TP', 'QS', 'QE', 'skipd', 'E', 'U')
    O = A + ',old(cur(str))'
    K = A + ',cur(str)'
    C('flut::read_prop_node', 'str,parent', requires=['SI(str)', 'len(parent.children) + N(str) - cur(str) <= MAXLEN'], modifies='str,parent', rdec='N(str) - cur(str)', throws='RX(%s,cur(str))' % A, hide=HID,
      ensures=['SI(str)', 'SAME(str, old(str))', 'parent == RN(%s,old(parent))' % O, 'cur(str) == RP(%s)' % O, 'cur(str) >= old(cur(str))', 'implies(old(cur(str)) < N(str), cur(str) > old(cur(str)))'],
      inv=['SI(str)', 'SAME(str, old(str))', 'cur(str) >= old(cur(str))', 'len(parent.children) + N(str) - cur(str) <= MAXLEN',
           't:lstr | implies(t != "}", LN(%s,parent) == RN(%s,old(parent)))' % (K, O), 't:lstr | implies(t == "}", parent == RN(%s,old(parent)))' % O,
           't:lstr | (cur(str) if t == "}" else LP(%s)) == RP(%s)' % (K, O), 't:lstr | iff(t != "}" and LX(%s), RX(%s))' % (K, O),
           'LN(%s,parent) == RN(%s,old(parent))' % (K, O), 'LP(%s) == RP(%s)' % (K, O), 'iff(LX(%s), RX(%s))' % (K, O)],
      dec=['N(str) - cur(str)'])
    C('flut::parse_prop(char_stream,ptr<rec:flut::error_code>)', 'str,ec', requires=['SI(str)', 'N(str) - cur(str) <= MAXLEN'], modifies='str', throws='TX(%s,cur(str))' % A, hide=HID + ('HT', 'HP', 'LN', 'LP', 'LX'),
      ensures=['SI(str)', 'SAME(str, old(str))', 'result == TN(%s,leaf(""))' % O],
      inv=['SI(str)', 'SAME(str, old(str))', 'cur(str) >= old(cur(str))', 't:lstr, root:rec | len(root.children) + N(str) - cur(str) + (1 if lab(t) else 0) <= MAXLEN',
           't:lstr, root:rec | TN(%s,leaf("")) == (root if not lab(t) else TN(%s,RP(%s),addc(root,t,RN(%s,leaf("")))))' % (O, A, K, K),
           't:lstr | iff(TX(%s), lab(t) and (RX(%s) or TX(%s,RP(%s))))' % (O, K, A, K),
           'root:rec | TN(%s,leaf("")) == TN(%s,root)' % (O, K), 'iff(TX(%s), TX(%s))' % (O, K), 'root:rec | len(root.children) + N(str) - cur(str) <= MAXLEN'],
      dec=['t:lstr | N(str) - cur(str) + (1 if lab(t) else 0)', 'N(str) - cur(str)'])

    M("PSEP", '', r'"\n\r\t\v;"')
    # the tree that a text denotes; texts that are rejected
    M('text', 's', 'cstr(s)')
    M('PARSE', 's,o,n', 'TN(s, n, PSEP(), skipd(s, o, n, PSEP()), leaf(""))')
    M('REJECT', 's,o,n', 'TX(s, n, PSEP(), skipd(s, o, n, PSEP()))')
    C('flut::parse_prop(cstr,ptr<rec:flut::error_code>)', 'str,ec', requires=['not isnull(str)', 'str.off + len(cstr(str)) <= MAXLEN'], throws='REJECT(str.base, str.off, str.off + len(cstr(str)))', hide=HID + ('HT', 'HP', 'LN', 'LP', 'LX', 'TN', 'TX'),
      ensures=['result == PARSE(str.base, str.off, str.off + len(cstr(str)))'], uses=['skip_range'])
    # ---- writing: text o followed by the text of a node / of the first i children (l: level, r: readable)
    M('PSP', '', '''"={}%;'"''')
    S.recfun('qs', 's:str', 'str', 'Q(s) if ffo(s, PSP(), 0) < len(s) or NQ(s) else s', fuel=1)
    C('flut::quoted_prop_str', 's', ensures=['result == qs(s)'], optional=True)
    M('IND', 'o,l,r', 'o + rep(l, 9) if r else o')
    M('NLC', 'r', r'"\n" if r else ";"')
    M('LBL', 'o,k,l,r', 'IND(o,l,r) + qs(k)')
    M('VAL', 'o,v,r', '(o + (" = " if r else "=")) + v')
    M('HDR', 'o,k,x,l,r', r'''(VAL(LBL(o,k,l,r), (qs(x.value) if len(x.value) > 0 else "\"\""), r) if len(x.value) > 0 or len(x.children) == 0 else LBL(o,k,l,r)) + NLC(r)''')
    M('OPN', 'o,l,r', '(IND(o,l,r) + "{") + NLC(r)')
    M('CLS', 'o,l,r', '(IND(o,l,r) + "}") + NLC(r)')
    M('WT', 'o,k,x,l,r', 'CLS(WC(OPN(HDR(o,k,x,l,r),l,r), x.children, len(x.children), l + 1, r), l, r) if len(x.children) > 0 else HDR(o,k,x,l,r)')
    S.recfun('WC', 'o:str,h:CH,i:int,l:int,r:bool', 'str', 'o if i <= 0 else WT(WC(o,h,i-1,l,r), h[i-1].first, h[i-1].second, l, r)', fuel=1)
    C('flut::write_prop_none', 'str,label,pn,level,readable', requires=['0 <= level', 'level + rank(pn) <= MAXLEN'], rdec='rank(pn)', modifies='str', hide=HID,
      ensures=['str == WT(old(str), label, pn, level, readable)'],
      inv=['R:pos | 0 <= R and R <= len(pn.children) and str == WC(OPN(HDR(old(str),label,pn,level,readable),level,readable), pn.children, R, level + 1, readable)'])
    roundtrip(w, C, S, M, HID)


def roundtrip(w, C, S, M, HID):
    NOQ = ('TS', 'TP', 'QS', 'QE', 'E', 'U', 'skipd', 'cmt', 'PT', 'PP', 'qs')
    # ---- prefixes
    S.recfun('pre', 'x:str,b:str', 'bool', 'len(x) <= len(b) and b[:len(x)] == x', fuel=1)
    S.lemma('pre_cat', 'x:str,y:str', [], ['pre(x, x + y)'], pats=['x + y'], hints=['(x + y)[:len(x)] == x'])
    S.lemma('pre_at', 'x:str,b:str,i:int', ['pre(x, b)', '0 <= i', 'i < len(x)'], ['b[i] == x[i]'], pats=[('pre(x, b)', 'b[i]')], hints=['b[:len(x)][i] == b[i]'])
    S.lemma('pre_len', 'x:str,b:str', ['pre(x, b)'], ['len(x) <= len(b)'], pats=['pre(x, b)'])
    S.lemma('pre_trans', 'x:str,y:str,b:str', ['pre(x, y)', 'pre(y, b)'], ['pre(x, b)'], pats=[('pre(x, y)', 'pre(y, b)')], uses=['pre_at', 'pre_len'], hints=['len(x) <= len(b)', 'b[:len(x)] == x'])
    S.lemma('pre_seg', 'x:str,y:str,b:str', ['pre(x + y, b)'], ['b[len(x):len(x) + len(y)] == y'], uses=['pre_at', 'pre_len'], hints=['len(x) + len(y) <= len(b)', 'forall(j, implies(0 <= j and j < len(y), b[len(x) + j] == y[j]), y[j])'])
    # ---- blanks
    M('trimmed', 's', 'len(s) == 0 or (not mem(s[0], WS()) and not mem(s[len(s) - 1], WS()))')
    S.lemma('trim_same', 's:str', ['trimmed(s)'], ['TR(s, WS()) == s'], pats=['TR(s, WS())'])
    S.lemma('trim_right1', 's:str', ['trimmed(s)', 'len(s) > 0'], ['TR(s + " ", WS()) == s'], hints=['(s + " ")[len(s) - 1] == s[len(s) - 1]', '(s + " ")[0] == s[0]', '(s + " ")[len(s)] == 32', 'mem(32, WS())',
            'fno(s + " ", WS(), 0) == 0', 'fln(s + " ", WS(), len(s)) == len(s) - 1'])
    S.lemma('trim_left1', 's:str', ['trimmed(s)'], ['TR(" " + s, WS()) == s'], hints=['(" " + s)[0] == 32', 'mem(32, WS())', 'implies(len(s) > 0, (" " + s)[len(s)] == s[len(s) - 1] and (" " + s)[1] == s[0])',
            'implies(len(s) > 0, fno(" " + s, WS(), 0) == 1)', 'implies(len(s) > 0, fln(" " + s, WS(), len(s)) == len(s))', 'implies(len(s) == 0, fno(" " + s, WS(), 0) == 1)'])
    # ---- tokens of written words
    M('isq', 's', 'ffo(s, PSP(), 0) < len(s) or NQ(s)')
    S.lemma('qs_plain', 's:str,j:int', ['not isq(s)', '0 <= j', 'j < len(s)', 'chars(s)'], ['plain(s[j], PSEP(), OPS(), QUO())', 's[j] != 37', 's[j] != 32'], hide=NOQ)
    M('seg', 'b,p,y', 'b[p:p + len(y)] == y')
    M('AR', 'b,n', 'b,n,PSEP(),OPS(),QUO()')
    M('ends', 'b,n,f', 'f >= n or isd(b[f], PSEP())')
    # a word is followed by a separator, by '=' or by ' ='; tl: number of blanks that belong to the token
    M('folw', 'b,n,f', 'ends(b,n,f) or b[f] == 61 or (b[f] == 32 and f + 1 < n and b[f + 1] == 61)')
    M('tlb', 'b,n,f', '1 if f < n and b[f] == 32 else 0')
    PR = ['n == len(b)', '0 <= p', 'p + len(qs(s)) <= n', 'seg(b, p, qs(s))', 'chars(s)', 'len(s) > 0', 'folw(b, n, p + len(qs(s)))']
    TT = ['let(f, p + len(qs(s)), tokt(b,n,p) == (s + " " if tlb(b,n,f) == 1 else s) and tokp(b,n,p) == f + tlb(b,n,f))']
    M('tokt', 'b,n,p', 'TS(b,n,PSEP(),OPS(),QUO(),p,p,"")')
    M('tokp', 'b,n,p', 'TP(b,n,PSEP(),OPS(),QUO(),p,p,"")')
    S.lemma('word_plain', 'b:str,n:int,p:int,s:str', PR + ['not isq(s)'], TT,
            hints=['qs(s) == s', 'forall(j, implies(p <= j and j < p + len(s), b[j] == s[j - p]), b[j])',
                   '@token_plain(b,n,PSEP(),OPS(),QUO(),p,p + len(s) + tlb(b,n,p + len(s)))',
                   'forall(j, implies(p <= j and j < p + len(s) + tlb(b,n,p + len(s)), plain(b[j],PSEP(),OPS(),QUO())), b[j])',
                   'implies(tlb(b,n,p + len(s)) == 1, b[p:p + len(s) + 1] == s + " ")'], uses=['qs_plain2'], hide=('TS', 'TP', 'QS', 'QE', 'E', 'U', 'skipd', 'cmt', 'PT', 'PP'))
    S.lemma('qs_plain2', 's:str,j:int', ['not isq(s)', '0 <= j', 'j < len(s)', 'chars(s)'], ['plain(s[j], PSEP(), OPS(), QUO())'], hide=NOQ, pats=['s[j]'], hints=['@qs_plain(s,j)'])
    S.lemma('word_quoted', 'b:str,n:int,p:int,s:str', PR + ['isq(s)'], TT,
            hints=['qs(s) == Q(s)', 'BQ(s, b, p, n)', '@qrt(s,b,p,n,len(s))', '@qend(s,b,p,n)', 'len(E(s,0)) == 0', 'QS(b,n,34,p+1) == s', 'QE(b,n,34,p+1) == p + len(Q(s))',
                   'let(f, p + len(Q(s)), tokt(b,n,p) == TS(b,n,PSEP(),OPS(),QUO(),f,f,s) and tokp(b,n,p) == TP(b,n,PSEP(),OPS(),QUO(),f,f,s))',
                   'let(f, p + len(Q(s)), implies(tlb(b,n,f) == 1, TS(b,n,PSEP(),OPS(),QUO(),f,f,s) == TS(b,n,PSEP(),OPS(),QUO(),f,f+1,s) and TP(b,n,PSEP(),OPS(),QUO(),f,f,s) == TP(b,n,PSEP(),OPS(),QUO(),f,f+1,s)))',
                   'let(f, p + len(Q(s)), implies(tlb(b,n,f) == 1, TS(b,n,PSEP(),OPS(),QUO(),f,f+1,s) == s + b[f:f+1] and TP(b,n,PSEP(),OPS(),QUO(),f,f+1,s) == f + 1))',
                   'let(f, p + len(Q(s)), implies(tlb(b,n,f) == 1, b[f:f+1] == " "))',
                   'let(f, p + len(Q(s)), implies(tlb(b,n,f) == 0, TS(b,n,PSEP(),OPS(),QUO(),f,f,s) == s and TP(b,n,PSEP(),OPS(),QUO(),f,f,s) == f))'], hide=('U', 'skipd', 'cmt', 'PT', 'PP'))
    S.lemma('word', 'b:str,n:int,p:int,s:str', PR, TT, hints=['@word_plain(b,n,p,s)', '@word_quoted(b,n,p,s)'], hide=NOQ)
    # the same behind one blank (a value), then followed by a separator
    M('w1', 's', 'qs(s) if len(s) > 0 else "\\"\\""')

    # blk: number of blanks before the word (0 or 1)
    VR = ['n == len(b)', '0 <= p', '0 <= k', 'k <= 1', 'implies(k == 1, b[p] == 32)', 'p + k + len(w1(s)) < n', 'seg(b, p + k, w1(s))', 'chars(s)', 'ends(b, n, p + k + len(w1(s)))']
    VT = ['let(f, p + k + len(w1(s)), TR(tokt(b,n,p), WS()) == s and tokp(b,n,p) == f)']
    S.lemma('val_plain', 'b:str,n:int,p:int,k:int,s:str', VR + ['len(s) > 0', 'not isq(s)', 'trimmed(s)'], VT,
            hints=['qs(s) == s', 'forall(j, implies(p + k <= j and j < p + k + len(s), b[j] == s[j - p - k]), b[j])',
                   '@token_plain(b,n,PSEP(),OPS(),QUO(),p,p + k + len(s))',
                   'forall(j, implies(p <= j and j < p + k + len(s), plain(b[j],PSEP(),OPS(),QUO())), b[j])',
                   'implies(k == 1, b[p:p + k + len(s)] == " " + s)', 'implies(k == 0, b[p:p + k + len(s)] == s)', '@trim_left1(s)', '@trim_same(s)'], uses=['qs_plain2'], hide=('TS', 'TP', 'QS', 'QE', 'E', 'U', 'skipd', 'cmt', 'PT', 'PP'))
    S.lemma('val_quoted', 'b:str,n:int,p:int,k:int,s:str', VR + ['len(s) == 0 or isq(s)', 'trimmed(s)'], VT,
            hints=['E(s,0) == ""', 'w1(s) == Q(s)', 'BQ(s, b, p + k, n)', '@qrt(s,b,p + k,n,len(s))', '@qend(s,b,p + k,n)', 'len(E(s,0)) == 0', 'QS(b,n,34,p+k+1) == s', 'QE(b,n,34,p+k+1) == p + k + len(Q(s))',
                   'implies(k == 1, tokt(b,n,p) == TS(b,n,PSEP(),OPS(),QUO(),p,p+1,"") and tokp(b,n,p) == TP(b,n,PSEP(),OPS(),QUO(),p,p+1,""))',
                   'let(f, p + k + len(Q(s)), TS(b,n,PSEP(),OPS(),QUO(),p,p+k,"") == TS(b,n,PSEP(),OPS(),QUO(),f,f,s) and TP(b,n,PSEP(),OPS(),QUO(),p,p+k,"") == TP(b,n,PSEP(),OPS(),QUO(),f,f,s))',
                   'let(f, p + k + len(Q(s)), TS(b,n,PSEP(),OPS(),QUO(),f,f,s) == s and TP(b,n,PSEP(),OPS(),QUO(),f,f,s) == f)', '@trim_same(s)'], hide=('U', 'skipd', 'cmt', 'PT', 'PP'))
    S.lemma('val', 'b:str,n:int,p:int,k:int,s:str', VR + ['trimmed(s)'], VT, hints=['@val_plain(b,n,p,k,s)', '@val_quoted(b,n,p,k,s)'], hide=NOQ)
    # ---- from tokens to positions of the parser
    H1 = ('TS', 'TP', 'QS', 'QE', 'E', 'U', 'qs')
    PX = 'b,n,PSEP(),'
    S.lemma('ptok', 'b:str,n:int,c:int', ['0 <= c', 'c < n', 'b[c] != 37'], ['PT(b,n,PSEP(),c) == TR(tokt(b,n,c), WS())', 'PP(b,n,PSEP(),c) == skipd(b, tokp(b,n,c), n, PSEP())'], hide=H1 + ('skipd',), hints=['cmt(b,n,PSEP(),c) == c'])
    M('sk', 'b,n,p', 'skipd(b, p, n, PSEP())')
    S.lemma('skip_m', 'b:str,n:int,q:int,m:int', ['q <= n', 'forall(j, implies(q - m <= j and j < q, isd(b[j], PSEP())), b[j])'], ['sk(b,n,q-m) == sk(b,n,q)'], induct='m', hide=H1)
    S.lemma('skip_to', 'b:str,n:int,p:int,q:int', ['0 <= p', 'p <= q', 'q <= n', 'forall(j, implies(p <= j and j < q, isd(b[j], PSEP())), b[j])'], ['sk(b,n,p) == sk(b,n,q)', 'implies(q < n and not isd(b[q], PSEP()), sk(b,n,p) == q)'], hints=['@skip_m(b,n,q,q-p)'], hide=H1)
    S.lemma('qs_first', 's:str', ['lab(s)', 'chars(s)'], ['len(qs(s)) > 0', 'qs(s)[0] == 34 or isal(qs(s)[0])'], hide=('TS', 'TP', 'QS', 'QE', 'E', 'U'))
    S.lemma('skip_ind', 'o:str,b:str,n:int,l:int,r:bool', ['n == len(b)', 'pre(IND(o,l,r), b)', 'l >= 0'], ['sk(b,n,len(o)) == sk(b,n,len(IND(o,l,r)))', 'len(IND(o,l,r)) <= n', 'len(IND(o,l,r)) >= len(o)'], uses=['pre_at', 'pre_len'], hide=H1 + ('skipd',),
            hints=['implies(r, forall(j, implies(len(o) <= j and j < len(o) + l, b[j] == 9), b[j]))', '@skip_to(b,n,len(o),len(IND(o,l,r)))'])
    M('okL', 'k', 'lab(k) and chars(k) and trimmed(k)')
    S.lemma('label', 'o:str,k:str,b:str,n:int,l:int,r:bool', ['n == len(b)', 'pre(LBL(o,k,l,r), b)', 'l >= 0', 'okL(k)', 'folw(b,n,len(LBL(o,k,l,r)))'],
            ['let(c, len(IND(o,l,r)), c < n and sk(b,n,len(o)) == c and (b[c] == 34 or isal(b[c])) and PT(b,n,PSEP(),c) == k and PP(b,n,PSEP(),c) == sk(b,n,len(LBL(o,k,l,r)) + tlb(b,n,len(LBL(o,k,l,r)))))'],
            hide=H1 + ('skipd', 'cmt', 'PT', 'PP', 'pre'), uses=['pre_at', 'pre_len', 'pre_cat', 'pre_trans'],
            hints=['@qs_first(k)', 'pre(IND(o,l,r), b)', '@skip_ind(o,b,n,l,r)', '@pre_seg(IND(o,l,r), qs(k), b)', 'let(c, len(IND(o,l,r)), b[c] == qs(k)[0])', '@skip_to(b,n,len(IND(o,l,r)),len(IND(o,l,r)))',
                   '@word(b,n,len(IND(o,l,r)),k)', '@ptok(b,n,len(IND(o,l,r)))', '@trim_same(k)', '@trim_right1(k)'])
    for nm, mac, chv, txt in (('brace_open', 'OPN', 123, '{'), ('brace_close', 'CLS', 125, '}')):
        S.lemma(nm, 'o:str,b:str,n:int,l:int,r:bool', ['n == len(b)', 'pre(%s(o,l,r), b)' % mac, 'l >= 0'],
            ['let(c, len(IND(o,l,r)), c < n and sk(b,n,len(o)) == c and b[c] == %d and PT(b,n,PSEP(),c) == "%s" and PP(b,n,PSEP(),c) == sk(b,n,len(%s(o,l,r))))' % (chv, txt, mac)],
            hide=H1 + ('skipd', 'cmt', 'PT', 'PP', 'pre'), uses=['pre_at', 'pre_len', 'pre_cat', 'pre_trans'],
            hints=['pre(IND(o,l,r), b)', '@skip_ind(o,b,n,l,r)', 'let(c, len(IND(o,l,r)), c + 1 < n and b[c] == %d and isd(b[c + 1], PSEP()))' % chv, '@skip_to(b,n,len(IND(o,l,r)),len(IND(o,l,r)))',
                   '@token_operator(b,n,PSEP(),OPS(),QUO(),len(IND(o,l,r)))', '@ptok(b,n,len(IND(o,l,r)))', 'unit(%d) == "%s"' % (chv, txt), '@trim_same("%s")' % txt, '@skip_to(b,n,len(IND(o,l,r)) + 1,len(IND(o,l,r)) + 2)'])
    M('okV', 'v', 'chars(v) and trimmed(v)')
    HH = H1 + ('skipd', 'cmt', 'PT', 'PP', 'pre')
    UP = ['pre_at', 'pre_len', 'pre_cat', 'pre_trans']
    S.lemma('w1_first', 'v:str', ['okV(v)'], ['len(w1(v)) > 0', 'not isd(w1(v)[0], PSEP())', 'w1(v)[0] != 37'], hide=('TS', 'TP', 'QS', 'QE', 'E', 'U'), hints=['@qs_plain(v, 0)'])
    M('POS', 'b,n,c', 'PP(b,n,PSEP(),c)')
    M('TXT', 'b,n,c', 'PT(b,n,PSEP(),c)')
    M('VL', 'o,k,v,l,r', 'VAL(LBL(o,k,l,r), w1(v), r)')
    HV = ['n == len(b)', 'pre(VL(o,k,v,l,r) + NLC(r), b)', 'l >= 0', 'okL(k)', 'okV(v)']
    # positions: q at '=', p behind it
    M('qp', 'o,k,l,r', 'len(LBL(o,k,l,r)) + (1 if r else 0)')
    S.lemma('head_eq', 'o:str,k:str,v:str,b:str,n:int,l:int,r:bool', HV, ['let(q, qp(o,k,l,r), q + 1 < n and b[q] == 61 and folw(b,n,len(LBL(o,k,l,r))) and tlb(b,n,len(LBL(o,k,l,r))) == (1 if r else 0) and not isd(b[q + 1], PSEP()) and b[q + 1] != 37 and implies(r, b[q + 1] == 32))'],
            hide=HH, uses=UP, hints=['@w1_first(v)', 'let(L, LBL(o,k,l,r), implies(r, pre(L + " = ", b) and b[len(L)] == 32 and b[len(L) + 1] == 61 and b[len(L) + 2] == 32))', 'let(L, LBL(o,k,l,r), implies(not r, pre(L + "=", b) and b[len(L)] == 61 and b[len(L) + 1] == w1(v)[0]))'])
    S.lemma('head_tok', 'o:str,k:str,v:str,b:str,n:int,l:int,r:bool', HV, ['let(q, qp(o,k,l,r), sk(b,n,q) == q and TXT(b,n,q) == "=" and POS(b,n,q) == q + 1)'],
            hide=HH, hints=['@head_eq(o,k,v,b,n,l,r)', 'qp(o,k,l,r) >= 0', '@skip_to(b,n,qp(o,k,l,r),qp(o,k,l,r))', '@skip_to(b,n,qp(o,k,l,r) + 1,qp(o,k,l,r) + 1)', '@token_operator(b,n,PSEP(),OPS(),QUO(),qp(o,k,l,r))', '@ptok(b,n,qp(o,k,l,r))', 'unit(61) == "="', '@trim_same("=")'])
    S.lemma('head_end', 'o:str,k:str,v:str,b:str,n:int,l:int,r:bool', HV, ['let(q, qp(o,k,l,r), TXT(b,n,q + 1) == v and POS(b,n,q + 1) == sk(b,n,len(VL(o,k,v,l,r) + NLC(r))))'],
            hide=HH, uses=UP, hints=['@head_eq(o,k,v,b,n,l,r)', '@w1_first(v)', 'let(A, VAL(LBL(o,k,l,r), "", r), pre(A + w1(v), b))', '@pre_seg(VAL(LBL(o,k,l,r), "", r), w1(v), b)',
                   'len(VAL(LBL(o,k,l,r), "", r)) == qp(o,k,l,r) + 1 + (1 if r else 0)', 'let(e, len(VL(o,k,v,l,r)), e < n and isd(b[e], PSEP()) and e + 1 <= n)',
                   '@val(b,n,qp(o,k,l,r) + 1,1 if r else 0,v)', '@ptok(b,n,qp(o,k,l,r) + 1)', '@skip_to(b,n,len(VL(o,k,v,l,r)),len(VL(o,k,v,l,r)) + 1)'])
    M('c0', 'o,l,r', 'len(IND(o,l,r))')
    S.lemma('head_val', 'o:str,k:str,v:str,b:str,n:int,l:int,r:bool', HV,
            ['let(c, c0(o,l,r), c < n and sk(b,n,len(o)) == c and (b[c] == 34 or isal(b[c])) and TXT(b,n,c) == k and TXT(b,n,POS(b,n,c)) == "=" and TXT(b,n,POS(b,n,POS(b,n,c))) == v and POS(b,n,POS(b,n,POS(b,n,c))) == sk(b,n,len(VL(o,k,v,l,r) + NLC(r))))'],
            hide=HH, uses=UP, hints=['pre(LBL(o,k,l,r), b)', '@head_eq(o,k,v,b,n,l,r)', '@head_tok(o,k,v,b,n,l,r)', '@head_end(o,k,v,b,n,l,r)', '@label(o,k,b,n,l,r)'])
    S.lemma('head_no', 'o:str,k:str,b:str,n:int,l:int,r:bool', ['n == len(b)', 'pre(LBL(o,k,l,r) + NLC(r), b)', 'l >= 0', 'okL(k)'],
            ['let(c, c0(o,l,r), c < n and sk(b,n,len(o)) == c and (b[c] == 34 or isal(b[c])) and TXT(b,n,c) == k and POS(b,n,c) == sk(b,n,len(LBL(o,k,l,r) + NLC(r))))'],
            hide=HH, uses=UP, hints=['pre(LBL(o,k,l,r), b)', 'let(e, len(LBL(o,k,l,r)), e < n and isd(b[e], PSEP()) and b[e] != 32 and e + 1 <= n)', '@label(o,k,b,n,l,r)', '@skip_to(b,n,len(LBL(o,k,l,r)),len(LBL(o,k,l,r)) + 1)'])
    # ---- whole trees. NS: number of nodes in the first i subtrees (finite trees)
    S.uf('NS', ['CH', 'int'], 'int')
    S.axiom('NS_nonneg', 'h:CH,i:int', 'NS(h, i) >= 0', ['NS(h, i)'])
    S.axiom('NS_def', 'h:CH,i:int', 'implies(0 < i and i <= len(h), NS(h, i) == NS(h, i - 1) + 1 + NS(h[i - 1].second.children, len(h[i - 1].second.children)))', ['NS(h, i)'])
    S.uf('okT', ['PN'], 'bool')
    M('okC', 'h', 'forall(j, implies(0 <= j and j < len(h), okL(h[j].first) and okT(h[j].second)), h[j])')
    S.axiom('okT_def', 'x:PN', 'iff(okT(x), okV(x.value) and okC(x.children))', ['okT(x)'])
    HA = HH + ('HT', 'HP', 'LN', 'LP', 'LX', 'TN', 'TX')
    S.lemma('wc_pre_m', 'o:str,h:CH,i:int,l:int,r:bool,m:int', ['0 <= i', 'i <= len(h)', 'NS(h,i) <= m'], ['pre(o, WC(o,h,i,l,r))'], induct='m', gen=['o', 'h', 'i', 'l'], pats=['WC(o,h,i,l,r)'],
            uses=['pre_cat', 'pre_trans', 'pre_self'], hide=HA,
            hints=['@pre_self(o)', 'implies(i > 0, pre(o, WC(o,h,i-1,l,r)))', 'implies(i > 0, let(a, HDR(WC(o,h,i-1,l,r), h[i-1].first, h[i-1].second, l, r), pre(WC(o,h,i-1,l,r), a) and pre(a, OPN(a,l,r)) and pre(OPN(a,l,r), WC(OPN(a,l,r), h[i-1].second.children, len(h[i-1].second.children), l + 1, r))))',
                   'implies(i > 0, pre(WC(o,h,i-1,l,r), WC(o,h,i,l,r)))'])
    S.lemma('pre_self', 'x:str', [], ['pre(x, x)'], pats=['len(x)'], hide=tuple(a for a in HA if a != 'pre'), hints=['x[:len(x)] == x'])
    S.lemma('wc_pre', 'o:str,h:CH,i:int,l:int,r:bool', ['0 <= i', 'i <= len(h)'], ['pre(o, WC(o,h,i,l,r))'], pats=['WC(o,h,i,l,r)'], hints=['@wc_pre_m(o,h,i,l,r,NS(h,i))'], hide=HA + ('WC',))
    M('H2', 'o,k,x,l,r', 'OPN(HDR(o,k,x,l,r),l,r)')
    S.lemma('wt_pre', 'o:str,k:str,x:PN,l:int,r:bool', [], ['pre(o, HDR(o,k,x,l,r))', 'pre(HDR(o,k,x,l,r), WT(o,k,x,l,r))', 'implies(len(x.children) > 0, pre(H2(o,k,x,l,r), WT(o,k,x,l,r)) and len(H2(o,k,x,l,r)) > len(o))', 'len(WT(o,k,x,l,r)) > len(o)'],
            uses=['pre_cat', 'pre_trans', 'pre_self', 'pre_len'], hide=HA + ('WC',), hints=['@wc_pre(H2(o,k,x,l,r),x.children,len(x.children),l+1,r)', 'pre(o, HDR(o,k,x,l,r))', 'len(o) < len(HDR(o,k,x,l,r))'])
    S.lemma('wc_mono_m', 'o:str,h:CH,j:int,l:int,r:bool,m:int', ['m <= j', 'j <= len(h)'], ['pre(WC(o,h,j-m,l,r), WC(o,h,j,l,r))'], induct='m', uses=['pre_cat', 'pre_trans', 'pre_self'], hide=HA,
            hints=['implies(m > 0, WC(o,h,j-m+1,l,r) == WT(WC(o,h,j-m,l,r), h[j-m].first, h[j-m].second, l, r))', '@wt_pre(WC(o,h,j-m,l,r), h[j-m].first, h[j-m].second, l, r)', 'implies(m > 0, pre(WC(o,h,j-m,l,r), WC(o,h,j-m+1,l,r)))'])
    S.lemma('wc_mono', 'o:str,h:CH,i:int,j:int,l:int,r:bool', ['0 <= i', 'i <= j', 'j <= len(h)'], ['pre(WC(o,h,i,l,r), WC(o,h,j,l,r))'], hints=['@wc_mono_m(o,h,j,l,r,j-i)'], hide=HA + ('WC',))
    # the head of a node: its label, its value if it has one, and the position behind it
    S.lemma('head', 'o:str,k:str,x:PN,b:str,n:int,l:int,r:bool', ['n == len(b)', 'pre(HDR(o,k,x,l,r), b)', 'l >= 0', 'okL(k)', 'okV(x.value)'],
            ['let(c, sk(b,n,len(o)), c < n and (b[c] == 34 or isal(b[c])) and TXT(b,n,c) == k)',
             'let(c, sk(b,n,len(o)), let(e, POS(b,n,c), let(z, sk(b,n,len(HDR(o,k,x,l,r))), (TXT(b,n,e) == "=" and TXT(b,n,POS(b,n,e)) == x.value and POS(b,n,POS(b,n,e)) == z) if len(x.value) > 0 or len(x.children) == 0 else e == z)))'],
            hide=HA + ('WC',), hints=['@head_val(o,k,x.value,b,n,l,r)', '@head_no(o,k,b,n,l,r)'])
    E0 = 'POS(b,n,sk(b,n,len(o)))'
    NODE = ['n == len(b)', 'pre(WT(o,k,x,l,r), b)', 'l >= 0', 'okL(k)', 'okT(x)', 'let(z, sk(b,n,len(WT(o,k,x,l,r))), z >= n or b[z] != 123)']
    S.lemma('node', 'o:str,k:str,x:PN,b:str,n:int,l:int,r:bool', NODE + ['implies(len(x.children) > 0, let(c, sk(b,n,len(H2(o,k,x,l,r))), LN(b,n,PSEP(),c,pnode(x.value,default_("CH"))) == x and LP(b,n,PSEP(),c) == sk(b,n,len(WT(o,k,x,l,r))) and not LX(b,n,PSEP(),c)))'],
            ['RN(b,n,PSEP(),%s,leaf("")) == x' % E0, 'RP(b,n,PSEP(),%s) == sk(b,n,len(WT(o,k,x,l,r)))' % E0, 'not RX(b,n,PSEP(),%s)' % E0],
            hide=HH + ('LN', 'LP', 'LX', 'TN', 'TX', 'WC'), uses=['pre_trans'],
            hints=['@wt_pre(o,k,x,l,r)', 'pre(HDR(o,k,x,l,r), b)', '@head(o,k,x,b,n,l,r)', 'implies(len(x.children) > 0, pre(H2(o,k,x,l,r), b))', '@brace_open(HDR(o,k,x,l,r),b,n,l,r)',
                   'implies(len(x.children) > 0, HT(b,n,PSEP(),%s) == "{" and HP(b,n,PSEP(),%s) == sk(b,n,len(H2(o,k,x,l,r))))' % (E0, E0), 'implies(len(x.children) == 0, HT(b,n,PSEP(),%s) == "=" and HP(b,n,PSEP(),%s) == sk(b,n,len(WT(o,k,x,l,r))))' % (E0, E0)])
    Z = 'CLS(WC(o,h,len(h),l,r),l - 1,r)'
    WI = 'WC(o,h,i,l,r)'
    S.lemma('next_ok', 'o:str,h:CH,i:int,b:str,n:int,l:int,r:bool', ['n == len(b)', '0 <= i', 'i <= len(h)', 'l >= 1', 'okC(h)', 'pre(%s, b)' % Z], ['let(z, sk(b,n,len(%s)), z < n and b[z] != 123)' % WI],
            hide=HA, uses=['pre_cat', 'pre_trans'], hints=['@brace_close(WC(o,h,len(h),l,r),b,n,l-1,r)', 'pre(WC(o,h,len(h),l,r), b)', '@wc_mono(o,h,i+1,len(h),l,r)', 'implies(i < len(h), pre(WC(o,h,i+1,l,r), b))',
                  'implies(i < len(h), WC(o,h,i+1,l,r) == WT(%s,h[i].first,h[i].second,l,r))' % WI, '@wt_pre(%s,h[i].first,h[i].second,l,r)' % WI, 'implies(i < len(h), pre(HDR(%s,h[i].first,h[i].second,l,r), b))' % WI,
                  'implies(i < len(h), okL(h[i].first) and okT(h[i].second) and okV(h[i].second.value))', '@head(%s,h[i].first,h[i].second,b,n,l,r)' % WI])
    CI = 'sk(b,n,len(%s))' % WI
    KX = 'h[i].first,h[i].second'
    O2 = 'H2(%s,%s,l,r)' % (WI, KX)
    S.lemma('kids_m', 'o:str,h:CH,i:int,b:str,n:int,l:int,r:bool,p:PN,c:int,m:int', ['n == len(b)', '0 <= i', 'i <= len(h)', 'l >= 1', 'okC(h)', 'pre(%s, b)' % Z, 'c == ' + CI, 'n - len(%s) <= m' % WI],
            ['LN(b,n,PSEP(),c,p) == pnode(p.value, p.children + h[i:])', 'LP(b,n,PSEP(),c) == sk(b,n,len(%s))' % Z, 'not LX(b,n,PSEP(),c)'], induct='m', gen=['o', 'h', 'i', 'l', 'p', 'c'],
            pats=[('WC(o,h,i,l,r)', 'LN(b,n,PSEP(),c,p)')], hide=HH + ('TN', 'TX', 'HT', 'HP', 'WC', 'LN', 'LP', 'LX'), uses=['pre_trans', 'pre_len', 'pre_cat'],
            hints=['@brace_close(WC(o,h,len(h),l,r),b,n,l-1,r)', 'pre(WC(o,h,len(h),l,r), b)', '@wc_mono(o,h,i+1,len(h),l,r)', 'implies(i < len(h), pre(WC(o,h,i+1,l,r), b))',
                   '@wc_step(o,h,i,l,r)', '@wt_pre(%s,%s,l,r)' % (WI, KX), 'implies(i < len(h), okL(h[i].first) and okT(h[i].second) and okV(h[i].second.value) and okC(h[i].second.children))',
                   'implies(i < len(h), pre(HDR(%s,%s,l,r), b))' % (WI, KX), '@head(%s,%s,b,n,l,r)' % (WI, KX), '@next_ok(o,h,i+1,b,n,l,r)', '@wc_zero(%s,h[i].second.children,l+1,r)' % O2,
                   '@ln_step(b,n,c,p)', 'implies(i == len(h), TXT(b,n,c) == "}" and not lab("}"))',
                   'implies(i < len(h), n - len(%s) <= m - 1)' % O2,
                   'implies(i < len(h) and len(h[i].second.children) > 0, let(x, h[i].second, let(c2, sk(b,n,len(%s)), LN(b,n,PSEP(),c2,pnode(x.value,default_("CH"))) == x)))' % O2,
                   'implies(i < len(h) and len(h[i].second.children) > 0, let(c2, sk(b,n,len(%s)), LP(b,n,PSEP(),c2) == sk(b,n,len(WT(%s,%s,l,r))) and not LX(b,n,PSEP(),c2)))' % (O2, WI, KX),
                   '@node(%s,%s,b,n,l,r)' % (WI, KX),
                   'implies(i < len(h), let(e, POS(b,n,c), RN(b,n,PSEP(),e,leaf("")) == h[i].second and RP(b,n,PSEP(),e) == sk(b,n,len(WC(o,h,i+1,l,r))) and not RX(b,n,PSEP(),e)))',
                   'implies(i < len(h), let(c2, sk(b,n,len(WC(o,h,i+1,l,r))), let(q, addc(p,%s), LN(b,n,PSEP(),c2,q) == pnode(p.value, q.children + h[i+1:]) and LP(b,n,PSEP(),c2) == sk(b,n,len(%s)) and not LX(b,n,PSEP(),c2))))' % (KX, Z),
                   'implies(i < len(h), (p.children + unit(pair(%s))) + h[i+1:] == p.children + h[i:])' % KX, 'implies(i == len(h), p.children + h[i:] == p.children)'])
    S.lemma('wc_step', 'o:str,h:CH,i:int,l:int,r:bool', ['0 <= i', 'i < len(h)'], ['WC(o,h,i+1,l,r) == WT(%s,%s,l,r)' % (WI, KX)], hide=HA)
    S.lemma('wc_zero', 'o:str,h:CH,l:int,r:bool', [], ['WC(o,h,0,l,r) == o'], hide=HA)
    PC = 'POS(b,n,c)'
    S.lemma('ln_step', 'b:str,n:int,c:int,p:PN', ['c < n'], ['let(t, TXT(b,n,c), let(e, POS(b,n,c), LN(b,n,PSEP(),c,p) == (LN(b,n,PSEP(),RP(b,n,PSEP(),e),addc(p,t,RN(b,n,PSEP(),e,leaf("")))) if lab(t) else p) and LP(b,n,PSEP(),c) == (LP(b,n,PSEP(),RP(b,n,PSEP(),e)) if lab(t) else e) and iff(LX(b,n,PSEP(),c), (RX(b,n,PSEP(),e) or LX(b,n,PSEP(),RP(b,n,PSEP(),e))) if lab(t) else t != "}")))'],
            hide=HH + ('TN', 'TX', 'HT', 'HP', 'WC'))
    # ---- top level: the texts of all nodes, one after the other
    TI = 'WC("",h,i,0,r)'
    S.lemma('tn_step', 'b:str,n:int,c:int,p:PN', [], ['let(t, TXT(b,n,c), let(e, POS(b,n,c), TN(b,n,PSEP(),c,p) == (TN(b,n,PSEP(),RP(b,n,PSEP(),e),addc(p,t,RN(b,n,PSEP(),e,leaf("")))) if lab(t) else p) and iff(TX(b,n,PSEP(),c), lab(t) and (RX(b,n,PSEP(),e) or TX(b,n,PSEP(),RP(b,n,PSEP(),e))))))'],
            hide=HH + ('LN', 'LP', 'LX', 'HT', 'HP', 'WC'))
    O3 = 'H2(%s,%s,0,r)' % (TI, KX)
    S.lemma('kids0', 'o:str,h:CH,b:str,n:int,l:int,r:bool,p:PN', ['n == len(b)', 'l >= 1', 'okC(h)', 'pre(%s, b)' % Z], ['let(c, sk(b,n,len(o)), LN(b,n,PSEP(),c,p) == pnode(p.value, p.children + h) and LP(b,n,PSEP(),c) == sk(b,n,len(%s)) and not LX(b,n,PSEP(),c))' % Z],
            hide=HA + ('WC',), uses=['pre_trans', 'pre_len', 'pre_cat'], hints=['@wc_zero(o,h,l,r)', '@kids_m(o,h,0,b,n,l,r,p,sk(b,n,len(o)),n - len(o))', '@wc_mono(o,h,0,len(h),l,r)', 'pre(WC(o,h,len(h),l,r), b)', 'pre(o, b)', 'len(o) <= n', 'h[0:] == h'])
    S.lemma('top_m', 'h:CH,b:str,n:int,r:bool,i:int,m:int,p:PN', ['n == len(b)', 'b == WC("",h,len(h),0,r)', 'okC(h)', 'm == len(h) - i', '0 <= i', 'i <= len(h)'],
            ['let(c, sk(b,n,len(%s)), TN(b,n,PSEP(),c,p) == pnode(p.value, p.children + h[i:]) and not TX(b,n,PSEP(),c))' % TI], induct='m', gen=['i', 'p'], pats=[('WC("",h,i,0,r)', 'TN(b,n,PSEP(),sk(b,n,len(WC("",h,i,0,r))),p)')],
            hide=HH + ('TN', 'TX', 'HT', 'HP', 'WC', 'LN', 'LP', 'LX'), uses=['pre_trans', 'pre_len', 'pre_cat'],
            hints=['@sk_end(b,n)', 'implies(i == len(h), sk(b,n,len(%s)) == n)' % TI, '@pt_end(b,n)', '@tn_step(b,n,sk(b,n,len(%s)),p)' % TI, 'implies(i == len(h), not lab(TXT(b,n,n)))', 'implies(i == len(h), p.children + h[i:] == p.children)',
                   '@wc_mono("",h,i+1,len(h),0,r)', 'implies(i < len(h), pre(WC("",h,i+1,0,r), b))', '@wc_step("",h,i,0,r)', '@wt_pre(%s,%s,0,r)' % (TI, KX),
                   'implies(i < len(h), okL(h[i].first) and okT(h[i].second) and okV(h[i].second.value) and okC(h[i].second.children))',
                   'implies(i < len(h), pre(HDR(%s,%s,0,r), b))' % (TI, KX), '@head(%s,%s,b,n,0,r)' % (TI, KX), '@top_next(h,i+1,b,n,r)',
                   '@kids0(%s,h[i].second.children,b,n,1,r,pnode(h[i].second.value,default_("CH")))' % O3,
                   'implies(i < len(h) and len(h[i].second.children) > 0, let(x, h[i].second, let(c2, sk(b,n,len(%s)), LN(b,n,PSEP(),c2,pnode(x.value,default_("CH"))) == x and LP(b,n,PSEP(),c2) == sk(b,n,len(WT(%s,%s,0,r))) and not LX(b,n,PSEP(),c2))))' % (O3, TI, KX),
                   '@node(%s,%s,b,n,0,r)' % (TI, KX),
                   'implies(i < len(h), let(e, POS(b,n,sk(b,n,len(%s))), RN(b,n,PSEP(),e,leaf("")) == h[i].second and RP(b,n,PSEP(),e) == sk(b,n,len(WC("",h,i+1,0,r))) and not RX(b,n,PSEP(),e)))' % TI,
                   'implies(i < len(h), let(c2, sk(b,n,len(WC("",h,i+1,0,r))), let(q, addc(p,%s), TN(b,n,PSEP(),c2,q) == pnode(p.value, q.children + h[i+1:]))))' % KX,
                   'implies(i < len(h), let(c2, sk(b,n,len(WC("",h,i+1,0,r))), not TX(b,n,PSEP(),c2)))',
                   'implies(i < len(h), (p.children + unit(pair(%s))) + h[i+1:] == p.children + h[i:])' % KX,
                   'implies(i < len(h), lab(TXT(b,n,sk(b,n,len(%s)))) and TXT(b,n,sk(b,n,len(%s))) == h[i].first)' % (TI, TI)])
    S.lemma('pt_end', 'b:str,n:int', [], ['TXT(b,n,n) == ""'], hide=H1 + ('skipd',))
    S.lemma('top_next', 'h:CH,i:int,b:str,n:int,r:bool', ['n == len(b)', 'b == WC("",h,len(h),0,r)', '0 <= i', 'i <= len(h)', 'okC(h)'], ['let(z, sk(b,n,len(%s)), z >= n or b[z] != 123)' % TI],
            hide=HA + ('WC',), uses=['pre_trans'], hints=['@sk_end(b,n)', '@wc_mono("",h,i+1,len(h),0,r)', '@wc_step("",h,i,0,r)', '@wt_pre(%s,%s,0,r)' % (TI, KX), 'implies(i < len(h), pre(HDR(%s,%s,0,r), b))' % (TI, KX), 'implies(i < len(h), okL(h[i].first) and okT(h[i].second) and okV(h[i].second.value))', '@head(%s,%s,b,n,0,r)' % (TI, KX)])
    S.lemma('sk_end', 'b:str,n:int', [], ['sk(b,n,n) == n'], hide=H1)
    # ---- the text contains no NUL character, so that all of it is read
    S.recfun('nz', 's:str', 'bool', 'forall(j, implies(0 <= j and j < len(s), s[j] != 0), s[j])', fuel=1)
    S.lemma('nz_cat', 'x:str,y:str', ['nz(x)', 'nz(y)'], ['nz(x + y)'], pats=['x + y'], hide=tuple(a for a in HA))
    S.lemma('nz_E', 's:str,i:int', ['chars(s)', 'i <= len(s)'], ['nz(E(s,i))'], induct='i', uses=['nz_cat'], hide=tuple(a for a in HA if a != 'E'), hints=['implies(i > 0, E(s,i) == E(s,i-1) + esc(s[i-1]))', 'implies(i > 0, nz(esc(s[i-1])))', 'nz("")'])
    S.lemma('nz_qs', 's:str', ['chars(s)'], ['nz(qs(s))'], uses=['nz_cat'], hide=tuple(a for a in HA if a != 'qs'), hints=['@nz_E(s,len(s))', 'nz("\\"")', 'nz(Q(s))', 'implies(not isq(s), nz(s))'])
    S.lemma('nz_rep', 'l:int', [], ['nz(rep(l, 9))'], hide=HA, pats=['rep(l, 9)'])
    S.lemma('nz_head', 'o:str,k:str,x:PN,l:int,r:bool', ['nz(o)', 'chars(k)', 'chars(x.value)'], ['nz(HDR(o,k,x,l,r))', 'nz(H2(o,k,x,l,r))'], uses=['nz_cat'], hide=HA + ('WC', 'nz'),
            hints=['@nz_qs(k)', '@nz_qs(x.value)', '@nz_rep(l)', '@nz_lit()', 'nz(LBL(o,k,l,r))', 'nz(HDR(o,k,x,l,r))'])
    S.lemma('nz_lit', '', [], [r'nz(" = ")', 'nz("=")', r'nz("\"\"")', r'nz("\n")', 'nz(";")', 'nz("{")', 'nz("}")'], hide=HA)
    S.lemma('nz_m', 'o:str,h:CH,i:int,l:int,r:bool,m:int', ['0 <= i', 'i <= len(h)', 'NS(h,i) <= m', 'nz(o)', 'okC(h)'], ['nz(WC(o,h,i,l,r))'], induct='m', gen=['o', 'h', 'i', 'l'], pats=['WC(o,h,i,l,r)'],
            uses=['nz_cat'], hide=HA + ('nz',),
            hints=['@nz_lit()', '@nz_rep(l)', 'implies(i > 0, nz(WC(o,h,i-1,l,r)))', 'implies(i > 0, okL(h[i-1].first) and okT(h[i-1].second) and okV(h[i-1].second.value) and okC(h[i-1].second.children))',
                   '@nz_head(WC(o,h,i-1,l,r), h[i-1].first, h[i-1].second, l, r)', 'implies(i > 0, nz(WC(H2(WC(o,h,i-1,l,r), h[i-1].first, h[i-1].second, l, r), h[i-1].second.children, len(h[i-1].second.children), l + 1, r)))',
                   'implies(i > 0, WC(o,h,i,l,r) == WT(WC(o,h,i-1,l,r), h[i-1].first, h[i-1].second, l, r))'])
    S.lemma('nz_cstr', 's:str', ['nz(s)'], ['cstr(s) == s'], hide=HA, hints=['len(cstr(s)) == len(s)'])
    S.lemma('nz_all', 'h:CH,r:bool', ['okC(h)'], ['let(b, WC("",h,len(h),0,r), cstr(b) == b)'], hide=HA + ('WC',), hints=['nz("")', '@nz_m("",h,len(h),0,r,NS(h,len(h)))', '@nz_cstr(WC("",h,len(h),0,r))'])
    # what is written is read back
    S.lemma('write_read', 'x:PN,b:str,r:bool', ['okC(x.children)', 'len(x.value) == 0', 'b == WC("",x.children,len(x.children),0,r)'], ['PARSE(b, 0, len(cstr(b))) == x', 'not REJECT(b, 0, len(cstr(b)))'],
            hide=HA + ('WC',), hints=['@wc_zero("",x.children,0,r)', '@nz_all(x.children,r)', '@top_m(x.children,b,len(b),r,0,len(x.children),leaf(""))'])
