"""prop_node.cpp: a property tree as indented text"""
from contracts import propnode
TU = 'propnode.cpp'
FLAGS = propnode.FLAGS


def build(w, C):
    pw = ('has_value()', 'size', 'empty', 'get_value')
    propnode.build(w, lambda t, *a, **k: C(t, *a, **k) if t.startswith('flut::prop_node::') and t[len('flut::prop_node::'):] in pw else None)
    S = w.spec
    M = S.macro
    # the width of the longest indented key in a tree
    S.recfun('AWC', 'h:CH,i:int,d:int', 'int', '0 if i <= 0 else max(max(AWC(h,i-1,d), d * 2 + len(h[i-1].first)), AWC(h[i-1].second.children, len(h[i-1].second.children), d + 1))', fuel=1)
    M('AW', 'x,d', 'AWC(x.children, len(x.children), d)')
    S.lemma('awc_nn', 'h:CH,n:int,d:int', [], ['0 <= AWC(h,n,d)'], induct='n', pats=[('AWC(h,n,d)',)])
    S.lemma('awc_mono', 'h:CH,i:int,n:int,d:int', ['0 <= i', 'i <= n'], ['AWC(h,i,d) <= AWC(h,n,d)'], induct='n', pats=[('AWC(h,i,d)', 'AWC(h,n,d)')])
    S.lemma('awc_child', 'h:CH,i:int,n:int,d:int', ['0 <= i', 'i < n'], ['d * 2 + len(h[i].first) <= AWC(h,n,d)', 'AWC(h[i].second.children, len(h[i].second.children), d + 1) <= AWC(h,n,d)'],
            pats=[('h[i]', 'AWC(h,n,d)')], uses=['awc_mono'], hints=['@awc_mono(h,i+1,n,d)'])
    C('flut::get_align_width', 'pn,depth', requires=['0 <= depth', 'depth < INT_MAX', 'AW(pn, depth) <= INT_MAX'], ensures=['result == AW(pn, depth)'], modifies='', rdec='rank(pn)', uses=['awc_child', 'awc_mono', 'awc_nn'], optional=True,
      inv=['W:int, R:pos | W == AWC(pn.children, R, depth)'])
    # a line: indented key, padded; value of a node that has one or that has no children
    M('pad', 's,n', 's + rep(n - len(s), 32)')
    M('KEY', 'o,k,d,a', 'o + pad(rep(d * 2, 32) + k, a)')
    M('LINE', 'o,k,x,d,a', '(((KEY(o,k,d,a) + " = ") + x.value) if len(x.value) > 0 or len(x.children) == 0 else KEY(o,k,d,a)) + "\\n"')
    M('TXN', 'o,x,d,a', 'TXC(o, x.children, len(x.children), d, (AW(x,d) if a == 0 else a))')
    S.recfun('TXC', 'o:str,h:CH,i:int,d:int,a:int', 'str', 'o if i <= 0 else TXN(LINE(TXC(o,h,i-1,d,a), h[i-1].first, h[i-1].second, d, a), h[i-1].second, d + 1, a)', fuel=1)
    C('flut::to_stream', 'str,pn,depth,align', requires=['0 <= depth', 'depth < INT_MAX', 'AW(pn, depth) <= INT_MAX'], ensures=['str == TXN(old(str), pn, depth, align)'], ref='str', modifies='str', rdec='2 * rank(pn) + 1', uses=['awc_child', 'awc_mono', 'awc_nn'],
      inv=['R:pos | str == TXC(old(str), pn.children, R, depth, (AW(pn,depth) if old(align) == 0 else old(align)))'])
    C('flut::operator<<(vec,prop_node)', 'str,pn', requires=['AW(pn, 0) <= INT_MAX'], ensures=['str == TXN(old(str), pn, 0, 0)'], ref='str')
