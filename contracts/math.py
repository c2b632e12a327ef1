"""math: vec3, vec4, quat, transform, bounding box, scalar helpers"""
from fractions import Fraction
TU = 'math.cpp'
FLAGS = ['-include', 'map', '-include', 'functional', '-include', 'limits', '-include', 'cmath', '-include', 'cstring']


def build(w, C):
    S = w.spec
    M = S.macro
    S.uf('sqrt_', ['real'], 'real')
    S.axiom('sqrt_def', 't:real', 'implies(t >= 0, sqrt_(t) >= 0 and sqrt_(t) * sqrt_(t) == t)', ['sqrt_(t)'])
    for f in ('sin_', 'cos_', 'acos_', 'tan_'):
        S.uf(f, ['real'], 'real')
    M('EPS', '', '1.0 / 4503599627370496')
    vec(w, C, S, M)
    quat(w, C, S, M)
    orient(w, C, S, M)
    transform(w, C, S, M)
    angle(w, C, S, M)
    scalar(w, C, S, M)


V3 = 'flut::math::vec3_<double>'
V4 = 'flut::math::vec4_<double>'


def vec(w, C, S, M):
    N = 'flut::math::'
    r3 = lambda *e: ['result.%s == %s' % (c, x) for c, x in zip('xyz', e)]
    each = lambda cs, f, t='result': ['%s.%s == %s' % (t, c, f.replace('$', c)) for c in cs]
    for nm, cs in (('vec3_', 'xyz'), ('vec4_', 'xyzw')):
        t2 = '(%s,%s)' % (nm, nm)
        C(N + 'operator+' + t2, 'a,b', ensures=each(cs, 'a.$ + b.$'))
        C(N + 'operator-' + t2, 'a,b', ensures=each(cs, 'a.$ - b.$'))
        C(N + 'operator-(%s)' % nm, 'a', ensures=each(cs, '-a.$'))
        C(N + 'operator*(f64,%s)' % nm, 's,a', ensures=each(cs, 's * a.$'))
        C(N + 'operator*(%s,f64)' % nm, 'a,s', ensures=each(cs, 's * a.$'))
        C(N + 'operator/(%s,f64)' % nm, 'a,s', requires=['s != 0'], ensures=each(cs, 'a.$ / s'))
        C(N + 'operator+=' + t2, 'a,b', ensures=each(cs, 'old(a.$) + b.$', 'a'), ref='a')
        C(N + 'operator-=' + t2, 'a,b', ensures=each(cs, 'old(a.$) - b.$', 'a'), ref='a')
        C(N + 'operator*=(%s,f64)' % nm, 'a,s', ensures=each(cs, 'old(a.$) * s', 'a'), ref='a')
        C(N + 'operator/=(%s,f64)' % nm, 'a,s', requires=['s != 0'], ensures=each(cs, 'old(a.$) / s', 'a'), ref='a')
    C(N + 'operator*(vec3_,vec3_)', 'a,b', ensures=each('xyz', 'a.$ * b.$'))
    C(N + 'operator*=(vec3_,vec3_)', 'a,b', ensures=each('xyz', 'old(a.$) * b.$', 'a'), ref='a')
    M('dot3', 'a,b', 'a.x * b.x + a.y * b.y + a.z * b.z')
    M('n2', 'a', 'dot3(a, a)')
    C(N + 'squared_length(vec3_)', 'v', ensures=['result == n2(v)'])
    C(N + 'length(vec3_)', 'v', ensures=['result == sqrt_(n2(v))', 'result >= 0', 'result * result == n2(v)'])
    C(N + 'distance(vec3_,vec3_)', 'a,b', ensures=['result >= 0', 'result * result == (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)'])
    C(N + 'operator==(vec3_,vec3_)', 'a,b', ensures=['iff(result, a == b)'])
    C(N + 'operator!=(vec3_,vec3_)', 'a,b', ensures=['iff(result, not a == b)'])
    C(N + 'dot_product(vec3_,vec3_)', 'a,b', ensures=['result == dot3(a, b)', 'result * result <= n2(a) * n2(b)'], hints=['@cauchy_schwarz(a, b)'])
    C(N + 'cross_product(vec3_,vec3_)', 'a,b', ensures=r3('a.y * b.z - a.z * b.y', 'a.z * b.x - a.x * b.z', 'a.x * b.y - a.y * b.x') + ['n2(result) == n2(a) * n2(b) - dot3(a, b) * dot3(a, b)'])

    V = 'flut::math::vec3_<double>::'
    C(V + 'length', '', ensures=['result >= 0', 'result * result == n2(this)'])
    C(V + 'squared_length', '', ensures=['result == n2(this)'])
    C(V + 'is_null', '', ensures=['iff(result, this.x == 0 and this.y == 0 and this.z == 0)'])
    C(V + 'clear', '', ensures=['this.x == 0 and this.y == 0 and this.z == 0'])
    C(V + 'normalized', '', requires=['n2(this) > 0'], ensures=['n2(result) == 1', 'dot3(result, this) >= 0', 'result.x * this.y == result.y * this.x and result.y * this.z == result.z * this.y and result.z * this.x == result.x * this.z'])
    # scaled to unit length unless (nearly) null
    M('unitof', 'u,v', '(u.x * sqrt_(n2(v)) == v.x and u.y * sqrt_(n2(v)) == v.y and u.z * sqrt_(n2(v)) == v.z and n2(u) == 1 if sqrt_(n2(v)) > EPS() else u == v)')
    C(N + 'normalize(vec3_)', 'v', ensures=['unitof(v, old(v))'])
    C(N + 'normalized(vec3_)', 'v', ensures=['unitof(result, v)'])
    z3 = lambda *e: ['result.%s == %s' % (c, x) for c, x in zip('xyzw', e)]
    C(V + 'zero', '', ensures=z3(0, 0, 0))
    for i, c in enumerate('xyz'):
        C(V + 'unit_' + c, '', ensures=z3(*[int(i == j) for j in range(3)]))
        C(V + 'neg_unit_' + c, '', ensures=z3(*[-int(i == j) for j in range(3)]))
    C(V + 'uniform', 'v', ensures=z3('v', 'v', 'v'))
    C(V + 'unit', 'i', ensures=z3(*['(1 if i == %d else 0)' % j for j in range(3)]))
    C(V + 'set', 'a,b,c', ensures=['this.x == a', 'this.y == b', 'this.z == c'])
    U = 'flut::math::vec4_<double>::'
    C(U + 'zero', '', ensures=z3(0, 0, 0, 0))
    for i, c in enumerate('xyzw'):
        C(U + 'unit_' + c, '', ensures=z3(*[int(i == j) for j in range(4)]))
    C(U + 'squared_length', '', ensures=['result == this.x * this.x + this.y * this.y + this.z * this.z + this.w * this.w'])
    C(U + 'length', '', ensures=['result >= 0', 'result * result == this.x * this.x + this.y * this.y + this.z * this.z + this.w * this.w'])
    C(U + 'is_null', '', ensures=['iff(result, this.x == 0 and this.y == 0 and this.z == 0 and this.w == 0)'])
    for k, cs in ((V, 'xyz'), (U, 'xyzw')):
        C(k + 'operator[] const', 'i', requires=['i < %d' % len(cs)], ensures=['implies(i == %d, result == this.%s)' % (j, c) for j, c in enumerate(cs)])
    C(N + 'vec3_from_polar', 'r,inc,az', ensures=['result.x == r * sin_(inc.value) * sin_(az.value)', 'result.y == r * cos_(inc.value)', 'result.z == r * sin_(inc.value) * cos_(az.value)'])
    S.lemma('polar_length', 'r:real,si:real,ci:real,sa:real,ca:real', ['si * si + ci * ci == 1', 'sa * sa + ca * ca == 1'], ['let(v, v3(r * si * sa, r * ci, r * si * ca), n2(v) == r * r)'])
    B = 'flut::math::bounding_box_<double>::'
    C(B + 'bounding_box_(vec3_)', 'p', ensures=['this.lower_bounds == p', 'this.upper_bounds == p'])
    C(B + 'bounding_box_(vec3_,vec3_)', 'l,u', ensures=['this.lower_bounds == l', 'this.upper_bounds == u'])
    low = lambda a, b: 'v3(min(%s.x, %s.x), min(%s.y, %s.y), min(%s.z, %s.z))' % (a, b, a, b, a, b)
    upp = lambda a, b: low(a, b).replace('min(', 'max(')
    C(B + 'operator+=(vec3_)', 'v', ensures=['this.lower_bounds == old(%s)' % low('this.lower_bounds', 'v'), 'this.upper_bounds == old(%s)' % upp('this.upper_bounds', 'v')], ref='this')
    C(B + 'operator+=(bounding_box_)', 'o', ensures=['this.lower_bounds == old(%s)' % low('this.lower_bounds', 'o.lower_bounds'), 'this.upper_bounds == old(%s)' % upp('this.upper_bounds', 'o.upper_bounds')], ref='this')
    S.shapes['V'] = w.types.parse('flut::math::vec3_<double>')
    M('v3', 'a,b,c', 'rec("V", x=a, y=b, z=c)')
    M('cross', 'a,b', 'v3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)')
    S.lemma('cross_orthogonal', 'a:V,b:V', [], ['dot3(cross(a, b), a) == 0', 'dot3(cross(a, b), b) == 0'])
    S.lemma('lagrange', 'a:V,b:V', [], ['n2(cross(a, b)) == n2(a) * n2(b) - dot3(a, b) * dot3(a, b)'])
    S.lemma('cauchy_schwarz', 'a:V,b:V', [], ['dot3(a, b) * dot3(a, b) <= n2(a) * n2(b)'], hints=['n2(a) * n2(b) - dot3(a, b) * dot3(a, b) == n2(cross(a, b))', 'n2(cross(a, b)) >= 0'])


def quat(w, C, S, M):
    N = 'flut::math::'
    Q = lambda f, t='result': ['%s.%s == %s' % (t, c, f.replace('$', c)) for c in 'wxyz']
    S.shapes['Q'] = w.types.parse('flut::math::quat_<double>')
    S.shapes['T'] = w.types.parse('flut::math::transform_<double>')
    M('qw', 'a,b', 'a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z')
    M('qx', 'a,b', 'a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y')
    M('qy', 'a,b', 'a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x')
    M('qz', 'a,b', 'a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w')
    M('qmul', 'a,b', 'rec("Q", w=qw(a,b), x=qx(a,b), y=qy(a,b), z=qz(a,b))')
    M('qn', 'q', 'q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z')
    M('conj', 'q', 'rec("Q", w=q.w, x=-q.x, y=-q.y, z=-q.z)')
    # q v q* for unit q (rotation matrix of q applied to v)
    M('rot', 'q,v', 'v3((1 - 2 * (q.y * q.y + q.z * q.z)) * v.x + 2 * (q.x * q.y - q.w * q.z) * v.y + 2 * (q.x * q.z + q.w * q.y) * v.z,'
      '2 * (q.x * q.y + q.w * q.z) * v.x + (1 - 2 * (q.x * q.x + q.z * q.z)) * v.y + 2 * (q.y * q.z - q.w * q.x) * v.z,'
      '2 * (q.x * q.z - q.w * q.y) * v.x + 2 * (q.y * q.z + q.w * q.x) * v.y + (1 - 2 * (q.x * q.x + q.y * q.y)) * v.z)')
    C(N + 'quat_<double>::identity', '', ensures=['result == rec("Q", w=1, x=0, y=0, z=0)'])
    C(N + 'quat_<double>::set', 'w,x,y,z', ensures=['this.%s == %s' % (c, c) for c in 'wxyz'])
    C(N + 'operator*(quat_,quat_)', 'a,b', ensures=['result == qmul(a, b)'])
    C(N + 'operator-(quat_)', 'a', ensures=['result == conj(a)'])
    C(N + 'operator*(quat_,vec3_)', 'q,v', ensures=['result == rot(q, v)'])
    S.lemma('rot_len', 'q:Q,v:V', ['qn(q) == 1'], ['n2(rot(q, v)) == n2(v)'])
    S.lemma('rot_dot', 'q:Q,v:V,u:V', ['qn(q) == 1'], ['dot3(rot(q, v), rot(q, u)) == dot3(v, u)'])
    S.lemma('rot_cross', 'q:Q,v:V,u:V', ['qn(q) == 1'], ['cross(rot(q, v), rot(q, u)) == rot(q, cross(v, u))'])
    S.lemma('rot_compose', 'p:Q,q:Q,v:V', ['qn(q) == 1', 'qn(p) == 1'], ['rot(qmul(p, q), v) == rot(p, rot(q, v))'])
    S.lemma('rot_inverse', 'q:Q,v:V', ['qn(q) == 1'], ['rot(conj(q), rot(q, v)) == v', 'rot(q, rot(conj(q), v)) == v'])
    S.lemma('qmul_norm', 'p:Q,q:Q', [], ['qn(qmul(p, q)) == qn(p) * qn(q)', 'qn(conj(q)) == qn(q)'])
    S.lemma('qmul_assoc', 'p:Q,q:Q,r:Q', [], ['qmul(p, qmul(q, r)) == qmul(qmul(p, q), r)'])
    S.lemma('qmul_inverse', 'q:Q', ['qn(q) == 1'], ['qmul(q, conj(q)) == rec("Q", w=1, x=0, y=0, z=0)', 'qmul(conj(q), q) == rec("Q", w=1, x=0, y=0, z=0)'])
    C(N + 'length(quat_)', 'q', ensures=['result == sqrt_(qn(q))', 'result >= 0', 'result * result == qn(q)'])
    M('unitq', 'u,q', '(u.w * sqrt_(qn(q)) == q.w and u.x * sqrt_(qn(q)) == q.x and u.y * sqrt_(qn(q)) == q.y and u.z * sqrt_(qn(q)) == q.z and qn(u) == 1 if sqrt_(qn(q)) > EPS() else u == q)')
    C(N + 'normalize(quat_)', 'q', ensures=['unitq(q, old(q))'], ref='q')
    C(N + 'normalized(quat_)', 'q', ensures=['unitq(result, q)'])
    C(N + 'quat_from_quats', 'a,b', ensures=['result == qmul(conj(a), b)'])
    M('near', 'a,b', 'abs(a - b) <= abs(a) * 4 * EPS()')
    C(N + 'is_normalized(quat_)', 'q', ensures=['iff(result, near(qn(q), 1))'])
    C(N + 'is_normalized(vec3_)', 'v', ensures=['result == (1 if near(n2(v), 1) else 0)'])
    C(N + 'quat_from_axis_angle', 'axis,ang', throws='not near(n2(axis), 1)', ensures=['let(h, ang.value / 2, result == rec("Q", w=cos_(h), x=sin_(h) * axis.x, y=sin_(h) * axis.y, z=sin_(h) * axis.z))'])
    hx = 'rec("Q", w=cos_(x.value / 2), x=sin_(x.value / 2), y=0, z=0)'
    hy = 'rec("Q", w=cos_(y.value / 2), x=0, y=sin_(y.value / 2), z=0)'
    hz = 'rec("Q", w=cos_(z.value / 2), x=0, y=0, z=sin_(z.value / 2))'
    h = {'x': hx, 'y': hy, 'z': hz}
    C(N + 'quat_from_euler(angle_,angle_,angle_,euler_order)', 'x,y,z,eo', throws='eo < 0 or eo > 5', ensures=['implies(eo == %d, result == qmul(%s, qmul(%s, %s)))' % (i, h[o[0]], h[o[1]], h[o[2]]) for i, o in enumerate(('xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx'))])
    C(N + 'quat_from_euler(vec3_,euler_order)', 'eu,eo', throws='eo < 0 or eo > 5', ensures=['implies(eo == %d, result == qmul(%s, qmul(%s, %s)))' % ((i,) + tuple(h[c].replace(c + '.value', 'eu.%s.value' % c) for c in o)) for i, o in enumerate(('xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx'))])
    # the rotation about a unit axis k by the angle with cosine c*c-s*s and sine 2*s*c (Rodrigues)
    S.lemma('axis_angle', 'k:V,v:V,c:real,s:real', ['n2(k) == 1', 'c * c + s * s == 1'],
            ['let(q, rec("Q", w=c, x=s * k.x, y=s * k.y, z=s * k.z), let(C, c * c - s * s, let(D, 2 * s * c, let(kv, cross(k, v), let(d, (1 - C) * dot3(k, v), qn(q) == 1 and rot(q, k) == k and rot(q, v) == v3(C * v.x + D * kv.x + d * k.x, C * v.y + D * kv.y + d * k.y, C * v.z + D * kv.z + d * k.z))))))'])
    # axis and angle of a quaternion (acos is uninterpreted)
    AX = '(let(l, sqrt_(q.x * q.x + q.y * q.y + q.z * q.z), %s))'
    C(N + 'rotation_vector_from_quat', 'q', ensures=[AX % ('(result.x * l == 2 * acos_(q.w) * q.x and result.y * l == 2 * acos_(q.w) * q.y and result.z * l == 2 * acos_(q.w) * q.z if l > EPS() else result == v3(0, 0, 0))')])
    C(N + 'axis_angle_from_quat', 'q', ensures=[AX % ('(result.first.x * l == q.x and result.first.y * l == q.y and result.first.z * l == q.z and n2(result.first) == 1 and result.second.value == 2 * acos_(q.w) if l > EPS() else result.first == v3(1, 0, 0) and result.second.value == 0)')])


def orient(w, C, S, M):
    N = 'flut::math::'
    S.uf('atan2_', ['real', 'real'], 'real')
    ex, ey, ez = 'v3(1, 0, 0)', 'v3(0, 1, 0)', 'v3(0, 0, 1)'
    # each angle is the direction of a rotated coordinate axis in the plane of the other two
    ANG = {'pitch': 'let(a, rot(q, %s), atan2_(a.z, a.y))' % ey, 'yaw': 'let(a, rot(q, %s), atan2_(a.x, a.z))' % ez, 'roll': 'let(a, rot(q, %s), atan2_(a.y, a.x))' % ex}
    for f, e in ANG.items():
        C(N + f, 'q', ensures=['result.value == ' + e])
    C(N + 'euler_from_quat', 'q', ensures=['result.%s.value == %s' % (c, ANG[f]) for c, f in zip('xyz', ('pitch', 'yaw', 'roll'))])
    # the arc cosine of a number in [-1,1]
    S.axiom('acos_def', 'd:real', 'implies(d >= -1 and d <= 1, cos_(acos_(d)) == d and sin_(acos_(d)) >= 0 and sin_(acos_(d)) * sin_(acos_(d)) + d * d == 1)', ['acos_(d)'])
    # the quaternion built from the axis and the angle of a unit quaternion is that quaternion
    S.lemma('axis_angle_round_trip', 'q:Q,a:V,l:real', ['qn(q) == 1', 'l > 0', 'l * l == q.x * q.x + q.y * q.y + q.z * q.z', 'a.x * l == q.x', 'a.y * l == q.y', 'a.z * l == q.z'],
            ['let(h, acos_(q.w), rec("Q", w=cos_(h), x=sin_(h) * a.x, y=sin_(h) * a.y, z=sin_(h) * a.z) == q)'], hints=['q.w * q.w <= 1', 'q.w >= -1', 'q.w <= 1', '(sin_(acos_(q.w)) - l) * (sin_(acos_(q.w)) + l) == 0', 'sin_(acos_(q.w)) == l'])
    C(N + 'mat33_from_axes', 'x,y,z', ensures=['result.e%d%d == %s.%s' % (i, j, a, c) for j, a in enumerate('xyz') for i, c in enumerate('xyz')])
    M('frame', 'x,y,z', 'n2(x) == 1 and n2(y) == 1 and dot3(x, y) == 0 and cross(x, y) == z')
    C(N + 'quat_from_axes', 'x,y,z', requires=['frame(x, y, z)'], ensures=['qn(result) == 1', 'rot(result, %s) == x' % ex, 'rot(result, %s) == y' % ey, 'rot(result, %s) == z' % ez])


def transform(w, C, S, M):
    T = 'flut::math::transform_<double>::'
    M('add3', 'a,b', 'v3(a.x + b.x, a.y + b.y, a.z + b.z)')
    M('sub3', 'a,b', 'v3(a.x - b.x, a.y - b.y, a.z - b.z)')
    M('app', 't,v', 'add3(t.p, rot(t.q, v))')
    M('unapp', 't,v', 'rot(conj(t.q), sub3(v, t.p))')
    M('tmul', 'a,b', 'rec("T", p=app(a, b.p), q=qmul(a.q, b.q))')
    M('tinv', 't', 'rec("T", p=rot(conj(t.q), v3(-t.p.x, -t.p.y, -t.p.z)), q=conj(t.q))')
    C(T + 'operator*(transform_)', 'o', ensures=['result == tmul(this, o)'])
    C(T + 'transform(transform_)', 'o', ensures=['result == tmul(this, o)'])
    C(T + 'inv_transform(transform_)', 'o', ensures=['result == rec("T", p=unapp(this, o.p), q=qmul(conj(this.q), o.q))'])
    C(T + 'operator-', '', ensures=['result == tinv(this)'])
    C(T + 'inverse', '', ensures=['result == tinv(this)'])
    C(T + 'operator*(vec3_)', 'v', ensures=['result == app(this, v)'])
    C(T + 'transform(vec3_)', 'v', ensures=['result == app(this, v)'])
    C(T + 'inv_transform(vec3_)', 'v', ensures=['result == unapp(this, v)'])
    C(T + 'operator*(quat_)', 'o', ensures=['result == qmul(this.q, o)'])
    C(T + 'transform(quat_)', 'o', ensures=['result == qmul(this.q, o)'])
    C(T + 'inv_transform(quat_)', 'o', ensures=['result == qmul(conj(this.q), o)'])
    M('idt', '', 'rec("T", p=v3(0, 0, 0), q=rec("Q", w=1, x=0, y=0, z=0))')
    C(T + 'identity', '', ensures=['result == idt()'])
    S.lemma('tr_undo', 't:T,v:V', ['qn(t.q) == 1'], ['unapp(t, app(t, v)) == v', 'app(t, unapp(t, v)) == v', 'unapp(t, v) == app(tinv(t), v)'])
    S.lemma('tr_compose', 'a:T,b:T,v:V', ['qn(a.q) == 1', 'qn(b.q) == 1'], ['app(tmul(a, b), v) == app(a, app(b, v))'])
    S.lemma('tr_inverse', 't:T', ['qn(t.q) == 1'], ['tmul(t, tinv(t)) == idt()', 'tmul(tinv(t), t) == idt()'])
    S.lemma('tr_rigid', 't:T,u:V,v:V', ['qn(t.q) == 1'], ['n2(sub3(app(t, u), app(t, v))) == n2(sub3(u, v))'])


def pi_literal(w):
    """the value the code gives to pi (its accuracy is the lemma pi_accuracy)"""
    def lits(n):
        if isinstance(n, dict):
            if n.get('kind') == 'FloatingLiteral':
                yield n['value']
            for c in n.get('inner', []):
                yield from lits(c)
    for f in w.find_fn('flut::constants<double>::pi'):
        for v in lits(f):
            return str(Fraction(v) if 'p' not in v else Fraction(float.fromhex(v)))
    return '3'


def angle(w, C, S, M):
    N = 'flut::math::'
    M('PI', '', '(%s)' % pi_literal(w).replace('/', '.0 / '))
    S.lemma('pi_accuracy', '', [], ['PI() * 10000000000000 >= 31415926535897', 'PI() * 10000000000000 <= 31415926535898'])
    C('flut::constants<double>::pi', '', ensures=['result == PI()'])
    C('flut::constants<double>::half_pi', '', ensures=['result == PI() / 2'])
    C('flut::constants<double>::two_pi', '', ensures=['result == PI() * 2'])
    M('todeg', 'v', '180 / PI() * v')
    M('torad', 'v', 'PI() / 180 * v')
    C(N + 'rad_to_deg', 'v', ensures=['result == todeg(v)'])
    C(N + 'deg_to_rad', 'v', ensures=['result == torad(v)'])
    S.lemma('angle_round_trip', 'v:real', [], ['torad(todeg(v)) == v', 'todeg(torad(v)) == v', 'todeg(PI()) == 180'])
    for u, du, dr in (('degrees', '%s', 'torad(%s)'), ('radians', 'todeg(%s)', '%s')):
        A = N + 'angle_<%d, double>::' % (u == 'radians')
        for op in '*/':
            C(A + 'operator%s(f64)' % op, 's', requires=['s != 0'] * (op == '/'), ensures=['result.value == this.value %s s' % op])
            C(A + 'operator%s=(f64)' % op, 's', requires=['s != 0'] * (op == '/'), ensures=['this.value == old(this.value) %s s' % op], ref='this')
        C(A + 'deg_value', '', ensures=['result == ' + du % 'this.value'])
        C(A + 'rad_value', '', ensures=['result == ' + dr % 'this.value'])
        C(A + 'degree', '', ensures=['result.value == ' + du % 'this.value'])
        C(A + 'radian', '', ensures=['result.value == ' + dr % 'this.value'])
        C(A + 'operator+=', 'o', ensures=['this.value == old(this.value) + o.value'], ref='this')
        C(A + 'operator-=', 'o', ensures=['this.value == old(this.value) - o.value'], ref='this')
        C(A + 'operator-', '', ensures=['result.value == -this.value'])
        t = 'angle_:%d' % (u == 'radians')
        C(N + 'operator*(f64,%s)' % t, 's,a', ensures=['result.value == s * a.value'])
        C(N + 'operator/(f64,%s)' % t, 's,a', requires=['a.value != 0'], ensures=['result.value == s / a.value'])
        for op in '+-':
            C(N + 'operator%s(%s,%s)' % (op, t, t), 'a,b', ensures=['result.value == a.value %s b.value' % op])
        for f in ('sin', 'cos', 'tan'):
            C(N + '%s(%s)' % (f, t), 'a', ensures=['result == %s_(%s)' % (f, dr % 'a.value')])
        C(N + ('rad' if u == 'radians' else 'deg'), 'v', ensures=['result.value == v'])
        o = 'angle_:%d' % (u != 'radians')
        C(A + 'angle_(%s)' % o, 'a', ensures=['this.value == ' + ('torad(a.value)' if u == 'radians' else 'todeg(a.value)')])
        C(A + 'operator=(%s)' % o, 'a', ensures=['this.value == ' + ('torad(a.value)' if u == 'radians' else 'todeg(a.value)')], ref='this')
        for op in ('<', '>', '<=', '>=', '==', '!='):
            C(A + 'operator' + op, 'o', ensures=['iff(result, this.value %s o.value)' % op])


def scalar(w, C, S, M):
    N = 'flut::math::'
    C(N + 'equals', 'a,b,e', ensures=['iff(result, abs(a - b) <= abs(a) * e)'])
    C(N + 'inv', 'v', requires=['v != 0'], ensures=['result * v == 1'])
    C(N + 'invsqrt', 'v', requires=['v > 0'], ensures=['result > 0', 'result * result * v == 1'])
    C(N + 'signed_sqrt', 'v', ensures=['implies(v >= 0, result >= 0)', 'implies(v <= 0, result <= 0)', 'result * result == abs(v)'])
    C(N + 'squared', 'v', ensures=['result == v * v'])
    C(N + 'cubed', 'v', ensures=['result == v * v * v'])
    C(N + 'sign', 'v', ensures=['result == (1 if v >= 0 else -1)', 'result * abs(v) == v'])
    C(N + 'set_if_smaller', 'v,o', ensures=['v == min(old(v), o)'], ref='v')
    C(N + 'set_if_bigger', 'v,o', ensures=['v == max(old(v), o)'], ref='v')
    C(N + 'clamp(f64,f64,f64)', 'v,lo,hi', requires=['lo <= hi'], ensures=['v == max(lo, min(hi, old(v)))'], ref='v')
    C(N + 'clamp(i32,i32,i32)', 'v,lo,hi', requires=['lo <= hi'], ensures=['v == max(lo, min(hi, old(v)))'], ref='v')
    C(N + 'clamped', 'v,lo,hi', requires=['lo <= hi'], ensures=['result == max(lo, min(hi, v))'])
    S.lemma('clamp_best', 'v:real,lo:real,hi:real,x:real', ['lo <= hi', 'lo <= x', 'x <= hi'], ['let(c, max(lo, min(hi, v)), lo <= c and c <= hi and implies(lo <= v and v <= hi, c == v) and abs(v - c) <= abs(v - x))'])
    C(N + 'limit_transfer', 'x,l', requires=['x + l != 0'], ensures=['result == l - l * l / (x + l)'])
    SC = lambda r: ['implies(old(v) <= hi - b * (hi - lo) and old(v) >= lo + b * (hi - lo), %s == old(v))' % r, 'lo <= %s and %s <= hi' % (r, r), '%s == sclamp(old(v), lo, hi, b)' % r]
    M('sclamp', 'v,lo,hi,b', 'let(r, b * (hi - lo), (hi - r * r / (v - hi + 2 * r) if v > hi - r else (lo + r * r / (lo + 2 * r - v) if v < lo + r else v)))')
    S.lemma('sclamp_monotone', 'u:real,v:real,lo:real,hi:real,b:real', ['lo <= hi', '0 <= b', '2 * b <= 1', 'u <= v'], ['sclamp(u, lo, hi, b) <= sclamp(v, lo, hi, b)'],
            hints=['let(r, b * (hi - lo), 0 <= r and 2 * r <= hi - lo)', 'let(r, b * (hi - lo), implies(u > hi - r and r > 0, r * r / (v - hi + 2 * r) <= r * r / (u - hi + 2 * r)))', 'let(r, b * (hi - lo), implies(v < lo + r and r > 0, r * r / (lo + 2 * r - u) <= r * r / (lo + 2 * r - v)))',
                   'let(r, b * (hi - lo), implies(v > hi - r and r > 0, r * r / (v - hi + 2 * r) <= r))', 'let(r, b * (hi - lo), implies(u < lo + r and r > 0, r * r / (lo + 2 * r - u) <= r))'])
    C(N + 'soft_clamp', 'v,lo,hi,b', requires=['lo <= hi', '0 <= b', '2 * b <= 1'], ensures=SC('v'), ref='v')
    C(N + 'soft_clamped', 'v,lo,hi,b', requires=['lo <= hi', '0 <= b', '2 * b <= 1'], ensures=[e.replace('old(v)', 'v') for e in SC('result')])
    WR = lambda r: ['lo <= %s and %s <= hi' % (r, r), 'isint((old(v) - %s) / (hi - lo))' % r, 'implies(lo <= old(v) and old(v) < hi, %s == old(v))' % r]
    C(N + 'wrap', 'v,lo,hi', requires=['lo < hi'], ensures=WR('v'), ref='v')
    C(N + 'wrapped', 'v,lo,hi', requires=['lo < hi'], ensures=[e.replace('old(v)', 'v') for e in WR('result')])
    C(N + 'is_between', 'v,lo,hi', ensures=['iff(result, lo <= v and v <= hi)'])
    C(N + 'square_wave', 'v', ensures=['result == (1 if v - 2 * floor_(v / 2) < 1 else -1)'])
    C(N + 'is_power_of_two', 'v', mode='bv', ensures=['iff(result, %s)' % ' or '.join('v == %d' % (1 << k) for k in range(32))])
    C(N + 'is_even', 'v', mode='bv', ensures=['iff(result, v % 2 == 0)'])
    C(N + 'is_odd', 'v', mode='bv', ensures=['iff(result, v % 2 != 0)'])
    B = 'flut::bounds<double>::'
    C(B + 'is_within', 'v', ensures=['iff(result, this.lower <= v and v <= this.upper)'])
    C(B + 'range', '', ensures=['result == this.upper - this.lower'])
    C(B + 'get_violation', 'v', requires=['this.lower <= this.upper'], ensures=['result == v - max(this.lower, min(this.upper, v))'])
    C(B + 'clamp', 'v', requires=['this.lower <= this.upper'], ensures=['v == max(this.lower, min(this.upper, old(v)))'], ref='v')
    C(B + 'soft_clamp', 'v,b', requires=['this.lower <= this.upper', '0 <= b', '2 * b <= 1'], ensures=['v == sclamp(old(v), this.lower, this.upper, b)'], ref='v')
    C(B + 'operator-', '', ensures=['result.lower == -this.upper', 'result.upper == -this.lower'])
    A = N + 'average_<double>::'
    C(A + 'average_()', '', ensures=['this.tot_v == 0', 'this.tot_w == 0'])
    C(A + 'add', 'v,w', ensures=['this.tot_v == old(this.tot_v) + w * v', 'this.tot_w == old(this.tot_w) + w'])
    C(A + 'get', '', ensures=['implies(this.tot_w > 0, result * this.tot_w == this.tot_v)', 'implies(this.tot_w <= 0, result == 0)'])
    C(A + 'empty', '', ensures=['iff(result, this.tot_w == 0)'])
    C(A + 'reset', '', ensures=['this.tot_v == 0', 'this.tot_w == 0'])
    # induction step of: the average of values in [lo,hi] with non-negative weights lies in [lo,hi]
    S.lemma('average_range', 'tv:real,tw:real,v:real,w:real,lo:real,hi:real', ['lo * tw <= tv', 'tv <= hi * tw', 'w >= 0', 'lo <= v', 'v <= hi'], ['lo * (tw + w) <= tv + w * v', 'tv + w * v <= hi * (tw + w)'], hints=['w * (v - lo) >= 0', 'w * (hi - v) >= 0'])
    D = 'flut::delta<double>::'
    C(D + 'operator()', 'v', ensures=['result == v - old(this.previous_)', 'this.previous_ == v'])
    C(D + 'delta', 'v', ensures=['this.previous_ == v'])
