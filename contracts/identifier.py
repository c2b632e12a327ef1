"""system_tools.cpp: names of properties made from the names of variables, names of types"""
from vf.module import load
TU = 'identifier.cpp'
FLAGS = ['-Dp=pattern', '-include', 'iomanip', '-include', 'cxxabi.h', '-include', 'ctime']


def demangle(x, st, args, n):
    import z3
    from vf.values import CP
    from vf.logic import CS, MAXLEN, cstr_, cstr_of
    v = x.rv(st, args[0])
    x.w.assumptions.add('trusted: abi::__cxa_demangle gives, for the name of a type, a text without NUL that depends on the name only')
    t = x.w.spec.funs['dem'][0](cstr_of(v.base, v.off))
    st.pc += [cstr_(t) == t, CS.mklen(t) <= MAXLEN]
    return [(st, CP(t, z3.IntVal(0)))]


def build(w, C):
    S = w.spec
    M = S.macro
    S.uf('dem', ['str'], 'str')
    w.std_hooks = {'__cxa_demangle': demangle, 'free': lambda x, st, args, n: [(st, None)]}
    load('strings').rest(w, lambda t, *a, **k: C(t, *a, **dict(k, note="imported")) if t in ('flut::trim_str', 'flut::trim_right_str', 'flut::str_begins_with', 'flut::right_of_str', 'flut::left_of_str', 'flut::mid_str') else None)
    M('col', 's', 'flo(s, ":", len(s) - 1)')
    M('member', 's', 'col(s) < 0 and matchat(s, "m_", 0)')
    M('TID', 's', 's[2:max(2, fln(s, "_", len(s) - 1) + 1)] if member(s) else TR(s[col(s) + 1:], "_")')
    C('flut::tidy_identifier', 'id', ensures=['result == TID(id)'],
      inv=['N:str | 2 + len(N) <= len(id) and N == id[2:2 + len(N)]', 'N:str | fln(id, "_", len(id) - 1) < 2 + len(N)', 'I:pos | I <= len(id)', 'I:pos | fno(id, "_", 0) >= I', 'I:pos | fno(id, "_", col(id) + 1) >= I', 'I:pos | fln(id, "_", len(id) - 1) < I', 'I:pos | fno(id[col(id) + 1:], "_", 0) >= I', 'I:pos | fln(id[col(id) + 1:], "_", len(id) - col(id) - 2) < I'])
    # where the result starts in the name
    M('A', 's', '2 if member(s) else col(s) + 1 + fno(s[col(s) + 1:], "_", 0)')
    S.lemma('tidy_part', 's:str,i:int', ['0 <= i', 'i < len(TID(s))'], ['TID(s)[i] == s[A(s) + i]', 'A(s) + len(TID(s)) <= len(s)'])
    S.lemma('tidy_no_colon', 's:str,i:int', ['0 <= i', 'i < len(TID(s))'], ['TID(s)[i] != 58'], hints=['@tidy_part(s,i)', 'A(s) + i > col(s)', 's[A(s) + i] != 58'])
    S.lemma('tidy_end', 's:str', ['len(TID(s)) > 0'], ['TID(s)[len(TID(s)) - 1] != 95', 'implies(not member(s), TID(s)[0] != 95)'])
    # only decoration is left out: the qualification or m_, and underscores
    S.lemma('tidy_removed', 's:str,i:int', ['0 <= i', 'i < len(s)', 'len(TID(s)) > 0', 'not (A(s) <= i and i < A(s) + len(TID(s)))'], ['s[i] == 95 or i <= col(s) or (i == 0 and s[i] == 109 and member(s))'])
    S.lemma('tidy_empty', 's:str,i:int', ['0 <= i', 'i < len(s)', 'len(TID(s)) == 0'], ['s[i] == 95 or i <= col(s) or (i == 0 and s[i] == 109 and member(s))'])
    S.lemma('tidy_plain', 's:str', ['col(s) < 0', 'len(s) > 0', 's[0] != 95', 's[len(s) - 1] != 95', 'not matchat(s, "m_", 0)'], ['TID(s) == s'])
    C('flut::clean_type_name', 'name', requires=['not isnull(name)'], ensures=['let(t, dem(cstr(name)), result == t[flo(t, ": ", len(t) - 1) + 1:])'], optional=True)
