"""stream output: the text that << appends, element by element (numbers by the uninterpreted default format)"""
TU = 'output.cpp'
FLAGS = ['-Dp=pattern', '-include', 'map', '-include', 'functional', '-include', 'limits', '-include', 'vector', '-include', 'iomanip']


def build(w, C):
    S = w.spec
    M = S.macro
    from vf.types import TSeq, TFloat, TInt, STR
    S.shapes['RV'] = TSeq(TFloat(64))
    S.shapes['SV'] = TSeq(STR)
    S.uf('numtxt', ['real'], 'str')
    # the text after the first k of n cells, each followed by a separator: a tab, or a newline after the last one
    S.recfun('cells', 'o:str,d:RV,b:int,k:int,n:int', 'str', 'o if k <= 0 else cells(o, d, b, k - 1, n) + numtxt(d[b + k - 1]) + ("\\n" if k == n else "\\t")')
    S.recfun('heads', 'o:str,d:SV,k:int,n:int', 'str', 'o if k <= 0 else heads(o, d, k - 1, n) + d[k - 1] + ("\\n" if k == n else "\\t")')
    S.recfun('frames', 'o:str,d:RV,f:int,n:int', 'str', 'o if f <= 0 else cells(frames(o, d, f - 1, n), d, (f - 1) * n, n, n)')
    # cells preceded by a separator
    S.recfun('tcells', 'o:str,d:RV,b:int,k:int', 'str', 'o if k <= 0 else tcells(o, d, b, k - 1) + "\\t" + numtxt(d[b + k - 1])')
    S.recfun('theads', 'o:str,d:SV,k:int', 'str', 'o if k <= 0 else theads(o, d, k - 1) + "\\t" + d[k - 1]')
    S.recfun('trows', 'o:str,l:SV,d:RV,r:int,n:int', 'str', 'o if r <= 0 else tcells(trows(o, l, d, r - 1, n) + l[r - 1], d, (r - 1) * n, n) + "\\n"')
    # cells with a separator in between
    S.recfun('vcells', 'o:str,d:RV,b:int,k:int', 'str', 'o if k <= 0 else vcells(o, d, b, k - 1) + ("" if k == 1 else "\\t") + numtxt(d[b + k - 1])')
    S.recfun('vheads', 'o:str,d:SV,k:int', 'str', 'o if k <= 0 else vheads(o, d, k - 1) + ("" if k == 1 else "\\t") + d[k - 1]')
    M('sepa', 'k,n', '("" if k <= 0 else "\\n" if k == n else "\\t")')
    M('nl', 'k,n', '("\\n" if 0 < k and k == n else "")')
    S.lemma('cells_join', 'o:str,d:RV,b:int,k:int,n:int', ['k <= n'], ['cells(o, d, b, k, n) == vcells(o, d, b, k) + sepa(k, n)'], induct='k', pats=['cells(o, d, b, k, n)'])
    S.lemma('heads_join', 'o:str,d:SV,k:int,n:int', ['k <= n'], ['heads(o, d, k, n) == vheads(o, d, k) + sepa(k, n)'], induct='k', pats=['heads(o, d, k, n)'])

    O = 'flut::operator<<'
    M('FS', 's', 's.frame_size_')
    M('LB', 's', 's.labels_.labels_')
    C(O + '(vec,vec)', 'str,vec', ensures=['str == vcells(old(str), vec, 0, len(vec)) + "\\n"'],
      inv=['I:pos | str == vcells(old(str), vec, 0, I)', 'F:bool, I:pos | iff(F, I == 0)', 'F:bool, I:pos | iff(F, I != 0)'])
    M('nch', 's', 'len(LB(s))')
    M('HD', 'o,s', 'heads(o, LB(s), nch(s), nch(s))')
    M('FR', 'o,s,f', 'frames(HD(o, s), s.data_, f, nch(s))')
    C(O + '(vec,storage)', 'str,buf', requires=['len(buf.data_) == FS(buf) * nch(buf)'], ensures=['str == FR(old(str), buf, FS(buf))'], uses=['cells_join', 'heads_join'],
      inv=['I:pos | str == heads(old(str), LB(buf), I, nch(buf))', 'I:pos | str == FR(old(str), buf, I)',
           'A:o.pos, B:pos | str == cells(FR(old(str), buf, A), buf.data_, A * nch(buf), B, nch(buf))',
           'F:bool, I:pos | iff(F, I == 0)', 'F:bool, I:pos | iff(F, I != 0)',
           # separators written before the elements, line ends with the last one or after it
           'I:pos | str == vheads(old(str), LB(buf), I) + nl(I, nch(buf))', 'I:pos | str == vheads(old(str), LB(buf), I)',
           'A:o.pos, B:pos | str == vcells(FR(old(str), buf, A), buf.data_, A * nch(buf), B) + nl(B, nch(buf))',
           'A:o.pos, B:pos | str == vcells(FR(old(str), buf, A), buf.data_, A * nch(buf), B)'])
    M('ncol', 't', 'len(t.col_labels_.labels_)')
    M('TH', 'o,t,k', 'theads(o + "Row", t.col_labels_.labels_, k)')
    M('TT', 'o,t,r', 'trows(TH(o, t, ncol(t)) + "\\n", t.row_labels_.labels_, t.data_, r, ncol(t))')
    C(O + '(vec,table)', 'str,t', requires=['len(t.data_) == len(t.row_labels_.labels_) * ncol(t)'], ensures=['str == TT(old(str), t, len(t.row_labels_.labels_))'],
      inv=['I:pos | str == TH(old(str), t, I)', 'I:pos | str == TT(old(str), t, I)',
           'A:o.pos, B:pos | str == tcells(TT(old(str), t, A) + t.row_labels_.labels_[A], t.data_, A * ncol(t), B)'])
    C(O + '(vec,bounds)', 'str,v', ensures=['str == old(str) + numtxt(v.lower) + " " + numtxt(v.upper)'])
    C(O + '(vec,path)', 'str,p', ensures=['str == old(str) + p.data_'])
    C('flut::math::operator<<(vec,vec3_)', 'str,v', ensures=['str == old(str) + numtxt(v.x) + " " + numtxt(v.y) + " " + numtxt(v.z)'])
    C('flut::math::operator<<(vec,quat_)', 'str,v', ensures=['str == old(str) + numtxt(v.w) + " " + numtxt(v.x) + " " + numtxt(v.y) + " " + numtxt(v.z)'])
    C('flut::math::operator<<(vec,angle_)', 'str,a', ensures=['str == old(str) + numtxt(a.value)'])
