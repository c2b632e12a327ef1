"""hash (FNV-1a) and flag_set"""
TU = 'bits.cpp'
FLAGS = ['-include', 'cstring']


def build(w, C):
    S = w.spec
    M = S.macro
    S.uf('bit_xor_u64', ['int', 'int'], 'int')
    M('step', 'h,c', '(bit_xor_u64(h, (c if c >= 0 else c + 256)) * 1099511628211) % 18446744073709551616')
    # 64-bit FNV-1a of the characters i.. up to the first NUL, continuing from h
    S.recfun('fnv', 's:str,i:int,h:int', 'int', '(h if i >= len(s) or i < 0 or s[i] == 0 else fnv(s, i + 1, step(h, s[i])))')
    B = '14695981039346656037'
    C('flut::hash(cstr)', 'p', requires=['not isnull(p)'], ensures=['result == fnv(p.base, p.off, %s)' % B], inv=['P:cp, H:int | fnv(P.base, P.off, H) == fnv(P.base, P0.off, %s)' % B])
    C('flut::hash_constexpr', 'p,h', requires=['not isnull(p)'], ensures=['result == fnv(p.base, p.off, h)'])
    C('flut::hash(str)', 's', ensures=['result == fnv(s, 0, %s)' % B])
    from vf.types import TSeq
    S.shapes['FL'] = TSeq(w.types.parse('flut::vt_flag'), 'initializer_list')
    # flag k is among the first n of the list
    S.recfun('among', 'l:FL,n:int,k:int', 'bool', 'n > 0 and (l[n-1] == k or among(l, n - 1, k))', fuel=1)
    # flags are observed one by one: bit k of the word answers for flag k
    for st, n in (('unsigned int', 32), ('unsigned char', 8)):
        K = 'flut::flag_set<flut::vt_flag, %s>::' % st
        rng = ['0 <= i', 'i < %d' % n]
        bit = lambda d, k: '(%s // %d) %% 2 == 1' % (d, 1 << k)
        each = lambda f: [f(k) for k in range(n)]
        C(K + 'get(vt_flag)', 'i', mode='bv', requires=rng, ensures=each(lambda k: 'implies(i == %d, iff(result, %s))' % (k, bit('this.data', k))))
        C(K + 'operator()', 'i', mode='bv', requires=rng, ensures=each(lambda k: 'implies(i == %d, iff(result, %s))' % (k, bit('this.data', k))))
        C(K + 'set(vt_flag,bool)', 'i,v', mode='bv', requires=rng, ref='this', ensures=each(lambda k: 'iff(%s, v if i == %d else old(%s))' % (bit('this.data', k), k, bit('this.data', k))))
        C(K + 'set(vt_flag)', 'i', mode='bv', requires=rng, ref='this', ensures=each(lambda k: 'iff(%s, i == %d or old(%s))' % (bit('this.data', k), k, bit('this.data', k))))
        C(K + 'clear(vt_flag)', 'i', mode='bv', requires=rng, ref='this', ensures=each(lambda k: 'iff(%s, i != %d and old(%s))' % (bit('this.data', k), k, bit('this.data', k))))
        C(K + 'clear()', '', mode='bv', ensures=each(lambda k: 'not ' + bit('this.data', k)))
        C(K + 'any', '', mode='bv', ensures=['iff(result, %s)' % ' or '.join(each(lambda k: bit('this.data', k)))])
        C(K + 'flag_set()', '', mode='bv', ensures=each(lambda k: 'not ' + bit('this.data', k)))
        inr = 'forall(j, implies(0 <= j and j < len(flags), 0 <= flags[j] and flags[j] < %d), flags[j])' % n
        A = 'among(flags, len(flags), %d)'
        MASK = each(lambda k: 'M:word, R:pos | iff(%s, among(flags, R, %d))' % (bit('M', k), k))     # of a local word
        C(K + 'set(il)', 'flags', mode='bv', requires=[inr], ref='this', ensures=each(lambda k: 'iff(%s, %s or old(%s))' % (bit('this.data', k), A % k, bit('this.data', k))),
          inv=['R:pos | 0 <= R and R <= len(flags)'] + MASK + each(lambda k: 'R:pos | iff(%s, among(flags, R, %d) or old(%s))' % (bit('this.data', k), k, bit('this.data', k))))
        C(K + 'clear(il)', 'flags', mode='bv', requires=[inr], ref='this', ensures=each(lambda k: 'iff(%s, not %s and old(%s))' % (bit('this.data', k), A % k, bit('this.data', k))),
          inv=['R:pos | 0 <= R and R <= len(flags)'] + MASK + each(lambda k: 'R:pos | iff(%s, not among(flags, R, %d) and old(%s))' % (bit('this.data', k), k, bit('this.data', k))))
        C(K + 'flag_set(il)', 'flags', mode='bv', requires=[inr], ensures=each(lambda k: 'iff(%s, %s)' % (bit('this.data', k), A % k)), inv=['R:pos | 0 <= R and R <= len(flags)'] + MASK)
        C(K + 'flag_set(flag_set)', 'o', mode='bv', ensures=['this.data == o.data'])
        C(K + 'operator=', 'o', mode='bv', ensures=['this.data == o.data'], ref='this')
        # the flag as a template argument (number 5 instantiated)
        C(K + 'get#()', '', mode='bv', ensures=['iff(result, %s)' % bit('this.data', 5)])
        C(K + 'set#(bool)', 'v', mode='bv', ref='this', ensures=each(lambda k: 'iff(%s, %s)' % (bit('this.data', k), 'v' if k == 5 else 'old(%s)' % bit('this.data', k))))
        C(K + 'set#()', '', mode='bv', ref='this', ensures=each(lambda k: 'iff(%s, %s)' % (bit('this.data', k), 'True' if k == 5 else 'old(%s)' % bit('this.data', k))))
        C(K + 'clear#()', '', mode='bv', ref='this', ensures=each(lambda k: 'iff(%s, %s)' % (bit('this.data', k), 'False' if k == 5 else 'old(%s)' % bit('this.data', k))))
