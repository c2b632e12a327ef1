"""string_tools.{hpp,cpp} and system/path.{hpp,cpp}"""
TU = 'strings.cpp'
FLAGS = ['-Dp=pattern']


def stringf_hook(x, st, d, args, n):
    """stringf: printf-style varargs. Only '\\%03o' with an int argument is modelled (trusted)."""
    import z3
    from vf.values import T, CP, Unsupported
    from vf.logic import CS
    from vf.types import STR
    f = x.rv(st, args[0])
    key = str(f.base) if isinstance(f, CP) else ''
    vals = [v.as_long() for v in CS.lits.get(key, [])]
    if bytes(v & 255 for v in vals) != b'\\%03o' or len(args) != 2:
        raise Unsupported('stringf format')
    v = x.rv(st, args[1]).t
    x.w.assumptions.add('trusted: stringf("\\\\%03o", v) for 0 <= v < 512 yields a backslash and three octal digits (C printf semantics)')
    x.oblige(st, z3.And(v >= 0, v < 512), 'octal escape value fits three digits', 'pre', n)
    u = lambda t: CS.unit(t)
    r = CS.cat(CS.cat(CS.cat(u(z3.IntVal(92)), u(48 + v / 64)), u(48 + (v / 8) % 8)), u(48 + v % 8))
    return [(st, T(r, STR))]


def build(w, C):
    quoting(w, C)
    rest(w, C)


def quoting(w, C):
    w.fn_hooks['flut::stringf'] = stringf_hook
    S = w.spec
    M = S.macro
    # ---------------------------------------------------------------- quoting
    M('ctl', 'c', '0 <= c and c < 32')
    M('special', 'c', 'c == 34 or c == 92 or ctl(c)')
    M('esc', 'c', r'''("\\\"" if c == 34 else "\\\\" if c == 92 else "\\r" if c == 13 else "\\n" if c == 10 else "\\t" if c == 9 else
        (unit(ch("\\")) + unit(48 + c // 64) + unit(48 + (c // 8) % 8) + unit(48 + c % 8)) if ctl(c) else unit(c))''')
    S.recfun('E', 's:str,i:int', 'str', '"" if i <= 0 else E(s, i - 1) + esc(s[i - 1])', fuel=1)
    M('Q', 's', r'"\"" + E(s, len(s)) + "\""')
    # decoding one character at offset o of b with n characters available
    M('isoct', 'x', '48 <= x and x < 56')
    M('d1', 'b,o,n', 'n >= 2 and isoct(b[o + 1])')
    M('d2', 'b,o,n', 'd1(b,o,n) and n >= 3 and isoct(b[o + 2])')
    M('d3', 'b,o,n', 'd2(b,o,n) and n >= 4 and isoct(b[o + 3])')
    M('simple', 'c', 'c == 0 or c == 92 or c == 34 or c == 114 or c == 110 or c == 116')
    M('dlen', 'b,o,n', '''1 if b[o] != 92 or n == 1 else 2 if simple(b[o+1]) else
        4 if d3(b,o,n) else 3 if d2(b,o,n) else 2 if d1(b,o,n) else 1''')
    M('oct1', 'b,o', 'b[o+1] - 48')
    M('oct2', 'b,o', 'oct1(b,o) * 8 + b[o+2] - 48')
    M('oct3', 'b,o', 'oct2(b,o) * 8 + b[o+3] - 48')
    M('okc', 'v', 'v if v < 32 else 63')
    M('dval', 'b,o,n', '''b[o] if b[o] != 92 or n == 1 else
        63 if b[o+1] == 0 else 92 if b[o+1] == 92 else 34 if b[o+1] == 34 else 13 if b[o+1] == 114 else 10 if b[o+1] == 110 else 9 if b[o+1] == 116 else
        okc(oct3(b,o)) if d3(b,o,n) else okc(oct2(b,o)) if d2(b,o,n) else okc(oct1(b,o)) if d1(b,o,n) else 63''')
    # U(s,i): what the quoted text from position i decodes to
    S.recfun('U', 's:str,i:int', 'str', '"" if i >= len(s) - 1 or s[i] == 34 else unit(dval(s, i, len(s) - i)) + U(s, i + dlen(s, i, len(s) - i))', fuel=1)
    M('UNQ', 's', 's if len(s) < 2 or s[0] != 34 or s[len(s)-1] != 34 else U(s, 1)')
    C('flut::encode_char', 'c', ensures=['result == esc(c)'])
    C('flut::decode_char', 'buf,n,plen', unroll=4,
      requires=['not isnull(buf)', 'not isnull(plen)', 'n <= INT_MAX', 'buf.off + n <= len(buf.base)'],
      throws='n == 0',
      ensures=['plen_at == dlen(buf.base, buf.off, n)', 'result == dval(buf.base, buf.off, n)', '1 <= plen_at and plen_at <= n'])
    C('flut::quoted', 's', ensures=['result == Q(s)'], inv=[r'R:str, I:pos | R == "\"" + E(s, I)', r'R:str, I!:pos | R == "\"" + E(s, I)'])
    C('flut::needs_quotes', 's',
      ensures=['iff(result, exists(k, 0 <= k and k < len(s) and (special(s[k]) or s[k] == 32)))'],
      inv=['I:pos | forall(k, implies(0 <= k and k < I, not (special(s[k]) or s[k] == 32)))'])
    M('NQ', 's', 'exists(k, 0 <= k and k < len(s) and (special(s[k]) or s[k] == 32))')
    C('flut::try_quoted', 's', ensures=['implies(NQ(s), result == Q(s))', 'implies(not NQ(s), result == s)'])
    C('flut::try_unquoted', 's', requires=['len(s) <= INT_MAX'], ensures=['result == UNQ(s)'], uses=['catassoc'],
      inv=['R:str, I:pos | R + U(s, I) == U(s, 1)', 'I:pos | I <= len(s)', 'I:pos | I >= 1'])
    S.lemma('catassoc', 'a:str,b:str,c:str', [], ['(a + b) + c == a + (b + c)'], pats=['(a + b) + c'])
    S.lemma('catassoc2', 'a:str,b:str,c:str', [], ['(a + b) + c == a + (b + c)'], pats=['a + (b + c)'])
    S.lemma('prefix', 't:str,i:int,n:int,k:int', ['0 <= i', 'i <= n', '0 <= k', 'k < len(E(t,i))'], ['E(t,n)[k] == E(t,i)[k]', 'len(E(t,i)) <= len(E(t,n))'],
            induct='n', pats=[('E(t,n)', 'E(t,i)[k]')])
    S.lemma('prefixlen', 't:str,i:int,n:int', ['0 <= i', 'i <= n'], ['len(E(t,i)) <= len(E(t,n))'], induct='n', pats=[('E(t,n)', 'E(t,i)')])
    for nm, j in (('escq0', '0'), ('escq1', '1'), ('escq2', '2'), ('escq3', '3')):
        S.lemma(nm, 't:str,i:int', ['0 <= i', 'i < len(t)', '%s < len(esc(t[i]))' % j],
                ['Q(t)[1 + len(E(t,i)) + %s] == esc(t[i])[%s]' % (j, j), '1 + len(E(t,i)) + %s < len(Q(t)) - 1' % j],
                uses=['prefix', 'prefixlen'], pats=['E(t,i)'],
                hints=['E(t,i+1) == E(t,i) + esc(t[i])', 'E(t,len(t))[len(E(t,i)) + %s] == E(t,i+1)[len(E(t,i)) + %s]' % (j, j), 'E(t,i+1)[len(E(t,i))+%s] == esc(t[i])[%s]' % (j, j)])
    M('chars', 't', 'forall(k, implies(0 <= k and k < len(t), -128 <= t[k] and t[k] <= 127), t[k])')
    M('pos', 't,m', '1 + len(E(t, len(t) - m))')
    S.lemma('step', 't:str,i:int', ['chars(t)', '0 <= i', 'i < len(t)'],
            ['dval(Q(t), 1 + len(E(t,i)), len(Q(t)) - 1 - len(E(t,i))) == t[i]',
             'dlen(Q(t), 1 + len(E(t,i)), len(Q(t)) - 1 - len(E(t,i))) == len(esc(t[i]))',
             '1 + len(E(t,i)) < len(Q(t)) - 1', 'Q(t)[1 + len(E(t,i))] != 34'],
            uses=['escq0', 'escq1', 'escq2', 'escq3', 'prefixlen'], pats=['E(t,i)'])
    S.lemma('rt', 't:str,m:int', ['chars(t)', 'm <= len(t)'], ['U(Q(t), pos(t,m)) == t[len(t)-m:]'], induct='m', uses=['step'],
            hints=['implies(m > 0, U(Q(t), pos(t,m)) == unit(t[len(t)-m]) + U(Q(t), pos(t,m-1)))'])
    # the round-trip theorems, over the contracts of quoted / try_quoted / try_unquoted
    S.lemma('roundtrip', 't:str', ['chars(t)'], ['UNQ(Q(t)) == t'], hints=['@rt(t, len(t))'])
    S.lemma('esc_clean', 't:str,n:int,k:int', ['chars(t)', '0 <= n', 'n <= len(t)', '0 <= k', 'k < len(E(t,n))'], ['not ctl(E(t,n)[k])'], induct='n')
    S.lemma('quoted_clean', 't:str,k:int', ['chars(t)', '0 <= k', 'k < len(Q(t))'], ['not ctl(Q(t)[k])'], hints=['@esc_clean(t, len(t), k - 1)'])
    S.lemma('try_roundtrip', 't:str', ['chars(t)', 'not NQ(t)'], ['UNQ(t) == t'])


def rest(w, C):
    S = w.spec
    M = S.macro
    # ---------------------------------------------------------------- slicing, trimming, splitting
    C('flut::left_str', 's,n', requires=['len(s) <= INT_MAX'], ensures=['result == (s[0:min(n, len(s))] if n >= 0 else s[0:max(0, len(s) + n)])'])
    C('flut::mid_str', 's,pos,n', throws='pos > len(s)', ensures=['result == s[pos:min(pos + n, len(s))]'])
    C('flut::right_str', 's,n', requires=['n > -INT_MAX - 1'], ensures=['result == (s[len(s) - min(len(s), n):] if n >= 0 else s[min(len(s), -n):])'])
    C('flut::in_str', 's,t,p', ensures=['result == (NPOS if fsub(s, t, p) < 0 else fsub(s, t, p))'])
    C('flut::str_begins_with', 's,t', ensures=['iff(result, matchat(s, t, 0))'])
    C('flut::str_ends_with', 's,t', ensures=['iff(result, matchat(s, t, len(s) - len(t)))'])
    M('TR', 's,q', 'let(L, fno(s, q, 0), "" if L == len(s) else s[L:fln(s, q, len(s)-1)+1])')
    C('flut::trim_str', 's,sp', requires=['not isnull(sp)'], ensures=['result == TR(s, cstr(sp))'])
    C('flut::trim_right_str', 's,sp', requires=['not isnull(sp)'], ensures=['result == s[0:fln(s, cstr(sp), len(s)-1)+1]'])
    C('flut::left_of_str', 's,seps', ensures=['result == s[0:ffo(s, cstr(seps), 0)]'])
    C('flut::right_of_str', 's,seps', ensures=['result == s[flo(s, cstr(seps), len(s)-1)+1:]'])
    M('WS', '', r'" \t\r\n\f\v"')
    C('flut::make_key_value_str', 's,seps', ensures=['''let(p, ffo(s, cstr(seps), 0),
        (result.first == s and len(result.second) == 0) if p == len(s) else (result.first == TR(s[0:p], WS) and result.second == TR(s[p+1:], WS)))'''])
    # split_str: token k is [ST(k), EN(k))
    S.recfun('ST', 's:str,q:str,k:int', 'int', 'fno(s, q, 0) if k <= 0 else fno(s, q, ffo(s, q, ST(s, q, k - 1)))', fuel=1)
    M('EN', 's,q,k', 'ffo(s, q, ST(s, q, k))')
    C('flut::split_str', 's,seps', ensures=[
        'forall(k, implies(0 <= k and k < len(result), result[k] == s[ST(s, cstr(seps), k):EN(s, cstr(seps), k)]), result[k])',
        'forall(k, implies(0 <= k and k < len(result), 0 <= ST(s, cstr(seps), k) and ST(s, cstr(seps), k) < EN(s, cstr(seps), k) and EN(s, cstr(seps), k) <= len(s)), ST(s, cstr(seps), k))',
        'ST(s, cstr(seps), len(result)) == len(s)'],
      inv=['R:seq | forall(k, implies(0 <= k and k < len(R), R[k] == s[ST(s, cstr(seps), k):EN(s, cstr(seps), k)]), R[k])',
           'R:seq | forall(k, implies(0 <= k and k < len(R), 0 <= ST(s, cstr(seps), k) and ST(s, cstr(seps), k) < EN(s, cstr(seps), k) and EN(s, cstr(seps), k) <= len(s)), ST(s, cstr(seps), k))',
           'R:seq, P:int | (P if P != NPOS else len(s)) == ST(s, cstr(seps), len(R))',
           'P:int | P == NPOS or P < len(s)',
           'P:int | P == NPOS or not mem(s[P], cstr(seps))',
           'R:seq, P:int | fno(s, cstr(seps), (P if P != NPOS else len(s))) == ST(s, cstr(seps), len(R))',
           'P:int | P == NPOS or P <= len(s)'],
      dec=['P:int | 0 if P == NPOS else len(s) - P'])
    # tokens are exactly the maximal runs of non-separators
    S.lemma('st_range', 's:str,q:str,k:int', ['0 <= k'], ['0 <= ST(s,q,k)', 'ST(s,q,k) <= len(s)'], induct='k')
    S.lemma('token_chars', 's:str,q:str,k:int,j:int', ['0 <= k', 'ST(s,q,k) < len(s)', 'ST(s,q,k) <= j', 'j < EN(s,q,k)'], ['not mem(s[j], q)'], hints=['@st_range(s,q,k)'])
    S.lemma('gap_chars', 's:str,q:str,k:int,j:int', ['0 <= k', '0 <= EN(s,q,k)', 'EN(s,q,k) <= j', 'j < ST(s,q,k+1)'], ['mem(s[j], q)'], hints=['ST(s,q,k+1) == fno(s,q,EN(s,q,k))', 'EN(s,q,k) <= len(s)'])
    # ---------------------------------------------------------------- file names
    M('SEP', '', r'"/\\"')
    M('lsp', 's', 'flo(s, SEP, len(s)-1)')
    M('dot', 's', 'flo(s, ".", len(s)-1)')
    M('isext', 's', 'dot(s) >= 0 and dot(s) > lsp(s)')
    C('flut::get_filename_ext', 's', ensures=['result == (s[dot(s)+1:] if isext(s) else "")'])
    C('flut::get_filename_without_ext', 's', ensures=['result == (s[0:dot(s)] if isext(s) and dot(s) + 1 < len(s) else s)'])
    C('flut::get_filename_folder', 's', ensures=['result == s[0:lsp(s)+1]'])
    C('flut::get_filename_without_folder', 's', ensures=['result == s[lsp(s)+1:]'])
    S.lemma('folder_partition', 's:str', [], ['s[0:lsp(s)+1] + s[lsp(s)+1:] == s'])
    S.lemma('ext_partition', 's:str', ['isext(s)', 'dot(s) + 1 < len(s)'], ['s[0:dot(s)] + "." + s[dot(s)+1:] == s'])
    # ---------------------------------------------------------------- path
    P = 'flut::path::'
    M('d', 'p', 'p.data_')
    M('STEM', 's', 's[lsp(s)+1:(dot(s) if isext(s) else len(s))]')
    M('FN', 's', 's[lsp(s)+1:]')
    M('PAR', 's', 's[0:lsp(s)] if lsp(s) >= 0 else ""')
    M('EXT', 's', 's[dot(s)+1:] if isext(s) else ""')
    M('NOEXT', 's', 's[0:dot(s)] if isext(s) else s')
    M('HASFN', 's', 'lsp(s) != len(s) - 1')
    M('JOIN', 's,f', 's + "/" + f if HASFN(s) else s + f')
    C(P + 'replace_extension', 'ext', ensures=['d(this) == (NOEXT(old(d(this))) if len(d(old(ext))) == 0 else NOEXT(old(d(this))) + ("." + d(old(ext))))'])
    C(P + 'remove_filename', '', ensures=['d(this) == PAR(old(d(this)))'])
    C(P + 'replace_filename', 'f', ensures=['d(this) == JOIN(PAR(old(d(this))), d(old(f)))'])
    C(P + 'make_preferred', '', ensures=['len(d(this)) == len(old(d(this)))',
       'forall(k, implies(0 <= k and k < len(d(this)), d(this)[k] == (47 if old(d(this))[k] == 92 else old(d(this))[k])))'],
       inv=['I:pos | forall(k, implies(0 <= k and k < I, d(this)[k] == (47 if old(d(this))[k] == 92 else old(d(this))[k])))',
            'I:pos | forall(k, implies(I <= k and k < len(d(this)), d(this)[k] == old(d(this))[k]))',
            'len(d(this)) == len(old(d(this)))'])
    C(P + 'parent_path', '', ensures=['d(result) == PAR(d(this))'])
    C(P + 'extension', '', ensures=['d(result) == EXT(d(this))'])
    C(P + 'filename', '', ensures=['d(result) == FN(d(this))'])
    C(P + 'stem', '', ensures=['d(result) == STEM(d(this))'])
    C(P + 'empty', '', ensures=['iff(result, len(d(this)) == 0)'])
    C(P + 'has_filename', '', ensures=['iff(result, HASFN(d(this)))'])
    C(P + 'has_parent_path', '', ensures=['iff(result, lsp(d(this)) >= 0)'])
    C(P + 'operator/=(str)', 'p', ensures=['d(this) == JOIN(old(d(this)), old(p))'])
    C(P + 'operator/=(path)', 'p', ensures=['d(this) == JOIN(old(d(this)), d(old(p)))'])
    C('flut::operator/(path,str)', 'a,b', ensures=['d(result) == JOIN(d(a), b)'])
    C('flut::operator/(path,path)', 'a,b', ensures=['d(result) == JOIN(d(a), d(b))'])
    C('flut::operator/(path,cstr)', 'a,b', requires=['not isnull(b)'], ensures=['d(result) == JOIN(d(a), cstr(b))'])
    C('flut::operator+(path,str)', 'a,b', ensures=['d(result) == d(a) + b'])
    C('flut::operator+(str,path)', 'a,b', ensures=['d(result) == a + d(b)'])
    C('flut::operator==(path,path)', 'a,b', ensures=['iff(result, d(a) == d(b))'])
    C('flut::operator!=(path,path)', 'a,b', ensures=['iff(result, d(a) != d(b))'])
    M('nosep', 's', 'lsp(s) < 0')
    M('nodot', 's', 'dot(s) < 0')
    S.lemma('path_split', 's:str', ['lsp(s) >= 0'], ['(PAR(s)) + s[lsp(s):lsp(s)+1] + FN(s) == s', 'lsp(FN(s)) < 0'])
    S.lemma('path_split0', 's:str', ['lsp(s) < 0'], ['FN(s) == s', 'len(PAR(s)) == 0'])
    S.lemma('stem_ext', 's:str', ['isext(s)'], ['STEM(s) + "." + EXT(s) == FN(s)'])
    S.lemma('stem_noext', 's:str', ['not isext(s)'], ['STEM(s) == FN(s)', 'len(EXT(s)) == 0'])
    S.lemma('join_name', 's:str,f:str', ['nosep(f)'], ['FN(JOIN(s,f)) == f'],
            hints=['implies(HASFN(s), (s + "/" + f)[len(s)] == 47)', 'implies(HASFN(s), lsp(s + "/" + f) == len(s))',
                   'implies(not HASFN(s) and len(s) > 0, (s + f)[len(s)-1] == s[len(s)-1])', 'implies(not HASFN(s) and len(s) > 0, mem(s[len(s)-1], SEP))',
                   'implies(not HASFN(s), lsp(s + f) == len(s)-1)'])
    S.lemma('repl_ext', 's:str,e:str', ['len(e) > 0', 'nosep(e)', 'nodot(e)'], ['EXT(NOEXT(s) + ("." + e)) == e'],
            hints=['let(b, NOEXT(s), (b + ("." + e))[len(b)] == 46)', 'let(b, NOEXT(s), dot(b + ("." + e)) == len(b))', 'let(b, NOEXT(s), lsp(b + ("." + e)) < len(b))'])
