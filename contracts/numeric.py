"""polynomials, filters, interpolation"""
TU = 'numeric.cpp'
FLAGS = ['-include', 'algorithm', '-include', 'string', '-include', 'sstream', '-include', 'cmath', '-include', 'limits', '-include', 'iomanip', '-include', 'map']


def build(w, C):
    S = w.spec
    M = S.macro
    from vf.types import TPair, TSeq, TFloat
    S.shapes['PP'] = TSeq(TPair(TFloat(64), TFloat(64)))
    S.uf('tan_', ['real'], 'real')
    S.uf('sqrt_', ['real'], 'real')
    S.axiom('sqrt_def', 't:real', 'implies(t >= 0, sqrt_(t) >= 0 and sqrt_(t) * sqrt_(t) == t)', ['sqrt_(t)'])
    from contracts.math import pi_literal
    M('PI', '', '(%s)' % pi_literal(w).replace('/', '.0 / '))
    C('flut::constants<double>::pi', '', ensures=['result == PI()'])
    for d in (1, 2, 3):
        P = 'flut::polynomial<double, %d>::' % d
        val = 'this.coeff[0]' + ''.join(' + this.coeff[%d]%s' % (i, ' * v' * i) for i in range(1, d + 1))
        C(P + 'polynomial()', '', ensures=['this.coeff[%d] == 0' % i for i in range(d + 1)])
        C(P + 'polynomial(' + ','.join(['f64&&'] * (d + 1)) + ')', ','.join('e%d' % i for i in range(d + 1)), ensures=['this.coeff[%d] == e%d' % (i, i) for i in range(d + 1)])
        C(P + 'operator()', 'v', unroll=d + 1, ensures=['result == ' + val])
        for cv in ('mut', 'const'):
            C(P + 'operator[] ' + cv, 'idx', requires=['idx <= %d' % d], ref='this.coeff[idx]', modifies='')
        C(P + 'offset', '', ensures=['result == this.coeff[0]'])
        C(P + 'slope', '', ensures=['result == this.coeff[1]'])
    C('flut::intersect_y', 'f,y', requires=['f.coeff[1] != 0'], ensures=['result == (y - f.coeff[0]) / f.coeff[1]', 'f.coeff[0] + f.coeff[1] * result == y'])
    C('flut::make_lowpass_butterworth_2nd_order', 'cutoff_ratio', requires=['tan_(PI() * cutoff_ratio) != 0'],
      ensures=['result.b0_ + result.b_[0] + result.b_[1] + result.a_[0] + result.a_[1] == 1', 'let(t, 1 / tan_(PI() * cutoff_ratio), result.b0_ * (1 + sqrt_(2) * t + t * t) == 1 and result.b_[0] == 2 * result.b0_ and result.b_[1] == result.b0_ and result.a_[0] == 2 * (t * t - 1) * result.b0_ and result.a_[1] == -(1 - sqrt_(2) * t + t * t) * result.b0_)'] + ['result.%s[%d] == 0' % (f, i) for f in ('x_', 'y_') for i in range(2)])
    for n in (2, 4):
        I = 'flut::iir_filter<double, %d>::' % n
        C(I + 'iir_filter()', '', ensures=['this.b0_ == 0'] + ['this.%s[%d] == 0' % (f, i) for f in ('x_', 'y_', 'a_', 'b_') for i in range(n)])
        y = 'old(this).b0_ * x' + ''.join(' + (old(this).b_[%d] * old(this).x_[%d] + old(this).a_[%d] * old(this).y_[%d])' % (i, i, i, i) for i in range(n))
        C(I + 'operator()(f64)', 'x', unroll=n + 1, ref='this.y_[0]', ensures=['this.y_[0] == ' + y, 'this.x_[0] == x', 'this.b0_ == old(this.b0_)', 'this.a_ == old(this.a_)', 'this.b_ == old(this.b_)'] +
          ['this.%s[%d] == old(this).%s[%d]' % (f, i, f, i - 1) for f in ('x_', 'y_') for i in range(1, n)])
        C(I + 'operator()()', '', ref='this.y_[0]', modifies='')
        C(I + 'velocity', '', ensures=['result == this.y_[0] - this.y_[1]'])
    # ---- interpolation between samples (sorted by key)
    S.uf('ub', ['PP', 'real'], 'int')
    S.axiom('ub_def', 's:PP,k:real', '0 <= ub(s,k) and ub(s,k) <= len(s) and implies(ub(s,k) < len(s), s[ub(s,k)].first > k)', ['ub(s,k)'])
    S.axiom('ub_first', 's:PP,k:real,j:int', 'implies(0 <= j and j < ub(s,k), s[j].first <= k)', [('ub(s,k)', 's[j]')])
    M('SK', 's', 'forall((i,j), implies(0 <= i and i < j and j < len(s), s[i].first <= s[j].first), (s[i], s[j]))')
    M('lin', 'a,b,k', '(1 - (k - a.first) / (b.first - a.first)) * a.second + (k - a.first) / (b.first - a.first) * b.second')
    C('flut::interpolated_value(vec,f64)', 'cont,key', requires=['len(cont) > 0', 'SK(cont)'],
      ensures=['let(u, ub(cont, key), result == (cont[len(cont)-1].second if u == len(cont) else (cont[0].second if u == 0 else lin(cont[u-1], cont[u], key))))'])
    M('iv', 's,k', 'let(u, ub(s, k), s[len(s)-1].second if u == len(s) else (s[0].second if u == 0 else lin(s[u-1], s[u], k)))')
    S.lemma('interp_knot', 's:PP,i:int', ['0 <= i', 'i < len(s)', 'implies(i + 1 < len(s), s[i].first < s[i + 1].first)', 'forall((a,b), implies(0 <= a and a < b and b < len(s), s[a].first < s[b].first), (s[a], s[b]))'],
            ['ub(s, s[i].first) == i + 1', 'iv(s, s[i].first) == s[i].second'])
    S.lemma('interp_between', 's:PP,k:real', ['SK(s)', '0 < ub(s, k)', 'ub(s, k) < len(s)'],
            ['let(u, ub(s, k), s[u-1].first <= k and k < s[u].first)', 'let(u, ub(s, k), (s[u-1].second <= iv(s, k) and iv(s, k) <= s[u].second) or (s[u].second <= iv(s, k) and iv(s, k) <= s[u-1].second))'])
    S.lemma('interp_outside', 's:PP,k:real', ['SK(s)', 'len(s) > 0'], ['implies(k < s[0].first, iv(s, k) == s[0].second)', 'implies(k >= s[len(s)-1].first, iv(s, k) == s[len(s)-1].second)'])
    M('liv', 's,i,k', '(1 - (k - i)) * s[i] + (k - i) * s[i + 1]')
    C('flut::interpolated_value(vec,f64,*)', 'cont,key,dummy', requires=['len(cont) > 0', 'len(cont) <= MAXLEN', 'key < 1000000000000000000'],
      ensures=['implies(key < 0, result == cont[0])', 'implies(key >= 0 and ifloor(key) + 1 >= len(cont), result == cont[len(cont)-1])', 'implies(key >= 0 and ifloor(key) + 1 < len(cont), result == liv(cont, ifloor(key), key))'])
    # ---- regular piecewise linear function
    R = 'flut::math::regular_piecewise_linear_function<double>::'
    C('flut::math::clamp(i32,i32,i32)', 'v,lower,upper', requires=['lower <= upper'], ref='v', modifies='v', ensures=['v == (lower if old(v) < lower else (upper if old(v) > upper else old(v)))'])
    PWL = ['this.points >= 2', 'this.x_step > 0', 'len(this.data.v) == this.points']
    C(R + 'regular_piecewise_linear_function(f64,f64,i32,*)', 'x_min,x_max,intervals,fn', requires=['x_min < x_max', '1 <= intervals', 'intervals < 2147483646'],
      ensures=['this.points == intervals + 1', 'this.x_base == x_min', 'this.x_step * intervals == x_max - x_min', 'this.x_step > 0', 'len(this.data.v) == intervals + 1',
               'forall((k,), implies(0 <= k and k <= intervals, this.data.v[k] == apply_(fn, x_min + k * this.x_step)), (this.data.v[k],))'],
      inv=['A:int | 0 <= A and A <= this.points', 'A:int | forall((k,), implies(0 <= k and k < A, this.data.v[k] == apply_(fn, x_min + k * this.x_step)), (this.data.v[k],))', 'A:int | len(this.data.v) == this.points'], dec=['A:int | this.points - A'])
    C(R + 'operator()', 'x', requires=PWL + ['-2147483648 * this.x_step <= x - this.x_base', 'x - this.x_base < 2147483648 * this.x_step'],
      ensures=['let(j, ifloor((x - this.x_base) / this.x_step), let(i, 0 if j < 0 else (this.points - 2 if j > this.points - 2 else j), (let(u, (x - this.x_base) / this.x_step, result == (1 - (u - i)) * this.data.v[i] + (u - i) * this.data.v[i + 1]))))'])
