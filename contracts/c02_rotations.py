"""C02: rotation builders and converters (quaternion.py, matrix3.py, euler.py, angle.py)"""
from pv.check import contract
Q = 'rainbow.math.quaternion.'
M = 'rainbow.math.matrix3.'
E = 'rainbow.math.euler.'


def axis_angle_matrix(c, cs, sn, n):
    """Rodrigues: specification of the right-handed rotation about the unit axis n"""
    I = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    K = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
    return c.array([[cs * I[i][j] + sn * K[i][j] + (1 - cs) * n[i] * n[j] for j in range(3)] for i in range(3)])


@contract('C02')
def axis_angle(c):
    h = c.angle('h', 1, -4, 4)
    n = c.unit_vec('n')
    k = c.positive('k', 0.2, 3)
    q = c.call(Q + 'Ru', h * 2, n * k)
    R = c.call(M + 'Ru', h * 2, n * k)
    s, cs = c.sin(h), c.cos(h)
    c.prove('quaternion is (cos half, sin half axis)', c.eq(q, c.array([cs, s * n[0], s * n[1], s * n[2]])))
    spec = axis_angle_matrix(c, c.cos(h * 2), c.sin(h * 2), n)
    c.prove('matrix is the right-handed rotation about the axis', c.eq(R, spec))
    c.prove('matrix and quaternion agree', c.eq(c.call(Q + 'to_matrix', q), R))
    c.prove('fixes the axis', c.eq(c.mv(R, n), n))
    c.prove('proper', [c.eq(c.mm(R, c.transpose(R)), c.identity(3)), c.eq(c.det3(R), 1)])


def coordinate(ax):
    def f(c):
        h = c.angle('h', 1, -4, 4)
        e = [0, 0, 0]
        e[ax] = 1
        nm = 'R' + 'xyz'[ax]
        q = c.call(Q + nm, h * 2)
        R = c.call(M + nm, h * 2)
        s = c.sin(h)
        c.prove('quaternion about the coordinate axis', c.eq(q, c.array([c.cos(h), s * e[0], s * e[1], s * e[2]])))
        c.prove('matrix about the coordinate axis', c.eq(R, axis_angle_matrix(c, c.cos(h * 2), c.sin(h * 2), e)))
        c.prove('they agree', c.eq(c.call(Q + 'to_matrix', q), R))
    return f


for _i, _n in enumerate(['about_x', 'about_y', 'about_z']):
    contract('C02', name=_n)(coordinate(_i))


@contract('C02')
def matrix_to_quaternion(c):
    """every proper rotation is the matrix of some unit quaternion p"""
    p = c.unit_quat('p')
    R = c.quat_matrix(p)
    q = c.call(Q + 'from_matrix', R)
    c.prove('unit', c.eq(c.dot(q, q), 1))
    c.prove('describes the same rotation', c.eq(c.quat_matrix(q), R))
    c.prove('is the quaternion up to sign', c.or_(c.eq(q, p), c.eq(q, -p)))


@contract('C02')
def matrix_to_quaternion_half_turn(c):
    n = c.unit_vec('n')
    p = c.array([0, n[0], n[1], n[2]])
    q = c.call(Q + 'from_matrix', c.quat_matrix(p))
    c.prove('half turns round-trip', c.or_(c.eq(q, p), c.eq(q, -p)))


@contract('C02')
def angle_axis_of_quaternion(c):
    q = c.unit_quat('q')
    th, n = c.call(Q + 'to_angle_axis', q)
    s, cs = c.sin(th / 2), c.cos(th / 2)
    c.prove('angle and axis rebuild the quaternion', c.eq(c.array([cs, s * n[0], s * n[1], s * n[2]]), q))
    nn = c.dot(n, n)
    c.prove('unit axis unless there is no rotation', c.or_(c.eq(nn, 1), c.and_(c.eq(nn, 0), c.eq(c.dot(q[1:], q[1:]), 0))))
    c.prove('angle range', [c.le(0, th), c.le(th, 2 * c.pi)])


@contract('C02')
def angle_about_axis(c):
    h = c.angle('h', 1, -3, 3)
    n = c.unit_vec('n')
    s = c.sin(h)
    q = c.array([c.cos(h), s * n[0], s * n[1], s * n[2]])
    th = c.call(Q + 'to_angle', q, n)
    c.prove('cosine of the angle', c.eq(c.cos(th), c.cos(h * 2)))
    c.prove('sine of the angle (signed by the axis)', c.eq(c.sin(th), c.sin(h * 2)))
    c.prove('range', [c.lt(-c.pi, th), c.le(th, c.pi)])


def euler_matrix(c, e):
    ca, sa, cb, sb, cg, sg = c.cos(e.alpha), c.sin(e.alpha), c.cos(e.beta), c.sin(e.beta), c.cos(e.gamma), c.sin(e.gamma)
    X = c.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    Y = c.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])
    Z = c.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]])
    return c.mm(Z, c.mm(Y, X))


@contract('C02')
def euler_of_matrix(c):
    p = c.unit_quat('p')
    R = c.quat_matrix(p)
    c.requires(c.abs(R[2][0]) < c.const('0.99999999'))
    e = c.call(E + 'make_euler_xyz_from_matrix', R)
    c.prove('Rz(gamma) Ry(beta) Rx(alpha) rebuilds the rotation', c.eq(euler_matrix(c, e), R))
    c.prove('beta in [-pi/2, pi/2]', [c.le(-c.pi / 2, e.beta), c.le(e.beta, c.pi / 2)])


@contract('C02')
def euler_gimbal(c):
    """gimbal lock: beta is a quarter turn, alpha and gamma arbitrary"""
    a, g = c.angle('a', 1, -4, 4), c.angle('g', 1, -4, 4)
    up = c.choice('beta', [1, -1])
    ca, sa, cg, sg = c.cos(a), c.sin(a), c.cos(g), c.sin(g)
    X = c.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    Y = c.array([[0, 0, up], [0, 1, 0], [-up, 0, 0]])
    Z = c.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]])
    R = c.mm(Z, c.mm(Y, X))
    e = c.call(E + 'make_euler_xyz_from_matrix', R)
    c.prove('gimbal lock rebuilds the rotation', c.eq(euler_matrix(c, e), R))


@contract('C02')
def euler_of_quaternion(c):
    if c.boolean('gimbal'):
        # the quaternions with R[2][0] = s are those with (x, y, -s x, s y), x^2 + y^2 = 1/2
        x, y = c.unit_vec('u', 2) * c.sqrt(c.const('1/2'))
        s = c.choice('s', [1, -1])
        p = c.array([x, y, -x * s, y * s])
    else:
        p = c.unit_quat('p')
        c.requires(c.abs(c.quat_matrix(p)[2][0]) < c.const('0.99999999'))
    e = c.call(E + 'make_euler_xyz_from_quaternion', p)
    c.prove('rebuilds the rotation of the quaternion', c.eq(euler_matrix(c, e), c.quat_matrix(p)))


@contract('C02', concrete_only=True, concrete=300, tol=1e-5)
def euler_near_gimbal(c):
    """bounded: rotations close to gimbal lock, in floating point"""
    a, g = c.real('a', -4, 4), c.real('g', -4, 4)
    b = c.choice('side', [1, -1]) * (c.pi / 2 - c.choice('d', [0, 1e-9, -1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4]))
    import numpy as np
    e0 = c.fn(E + 'EulerXYZ')(a, b, g)
    R = euler_matrix(c, e0)
    e = c.call(E + 'make_euler_xyz_from_matrix', R)
    c.prove('rebuilds the rotation', c.eq(euler_matrix(c, e), R))


@contract('C02')
def lerp(c):
    a, b, t = c.vec('a', 4), c.vec('b', 4), c.real('t', -1, 2)
    r = c.call(Q + 'lerp', a, b, t)
    c.prove('below 0 is the first', c.or_(t > 0, c.eq(r, a)))
    c.prove('above 1 is the second', c.or_(t < 1, c.eq(r, b)))
    c.prove('linear in between', c.or_(t < 0, t > 1, c.eq(r, a * (1 - t) + b * t)))


def unit_dot(c, a, b, d):
    """|a.b| <= 1 for unit a and b (Lagrange identity)"""
    w = [a[i] * b[j] - a[j] * b[i] for i in range(4) for j in range(i)]
    D, W = c.define('D', d), c.define('W', c.dot(w, w))
    c.lemma('sum of squares', W >= 0, using=[c.eq(W, c.dot(w, w)), c.dot(w, w) >= 0])
    c.lemma('Lagrange identity', c.eq(D * D + W, 1))
    c.lemma('Cauchy-Schwarz', [D <= 1, -D <= 1], using=[W >= 0, c.eq(D * D + W, 1)])
    return D


@contract('C02')
def slerp_far(c):
    a, b = c.unit_quat('a'), c.unit_quat('b')
    t = c.real('t', 0, 1)
    c.requires([t >= 0, t <= 1])
    d = c.dot(a, b)
    D = unit_dot(c, a, b, d)
    c.requires(c.abs(D) <= c.const('0.9999999'))
    r = c.call(Q + 'slerp', a, b, t)
    c.prove('unit', c.eq(c.dot(r, r), 1))
    om = c.acos(c.abs(d))
    c.prove('turns at constant rate from the first', c.eq(c.dot(r, a), c.cos(om * t)))
    c.prove('towards the second along the shorter arc', c.eq(c.dot(r, b), c.ite(d < 0, -1, 1) * c.cos(om * (1 - t))))


@contract('C02')
def slerp_same(c):
    """a and b describe the same rotation"""
    a, t = c.unit_quat('a'), c.real('t', 0, 1)
    c.requires([t >= 0, t <= 1])
    s = c.choice('same', [1, -1])
    r = c.call(Q + 'slerp', a, a * s, t)
    c.prove('equal rotations stay', c.or_(c.eq(r, a), c.eq(r, -a)))


@contract('C02')
def slerp_near(c):
    a, b = c.unit_quat('a'), c.unit_quat('b')
    t = c.real('t', 0, 1)
    c.requires([t >= 0, t <= 1])
    s = c.choice('sign', [1, -1])
    d = c.dot(a, b)
    if not c.sym:
        c.requires(False)       # concrete inputs of this kind: slerp_nearly_opposite
    D = unit_dot(c, a, b, d) * s
    c.requires(D > c.const('0.9999999'))
    l = a + (b * s - a) * t
    k = c.define('k', 2 * t * (1 - t) * (1 - D))
    u = c.define('u', 1 - D)
    c.lemma('u', [u >= 0, u < c.const('0.001')], using=[c.eq(u, 1 - D), D <= 1, D > c.const('0.9999999')])
    p = c.define('p', t * (1 - t))
    c.lemma('p', [p >= 0, p <= 1], using=[c.eq(p, t * (1 - t)), t >= 0, t <= 1])
    c.lemma('k is small', [k >= 0, k < c.const('0.01')], using=[c.eq(k, 2 * p * u), u >= 0, u < c.const('0.001'), p >= 0, p <= 1])
    L = c.define('L', c.dot(l, l))
    c.lemma('chord length', c.eq(L, 1 - k))
    c.lemma('chord does not vanish', L > c.const('0.99'), using=[c.eq(L, 1 - k), k < c.const('0.01')])
    r = c.call(Q + 'slerp', a, b, t)
    c.prove('unit', c.eq(c.dot(r, r), 1))
    c.prove('first rotation at 0', c.or_(t > 0, c.eq(r, a), c.eq(r, -a)))
    c.prove('second rotation at 1', c.or_(t < 1, c.eq(r, b), c.eq(r, -b)))


@contract('C02', concrete_only=True, concrete=300)
def slerp_nearly_opposite(c):
    """bounded: floating point near a = -b"""
    a, n = c.unit_quat('a'), c.unit_vec('n')
    e, t, s = c.real('e', 0, 4e-4), c.real('t', 0, 1), c.choice('s', [1, -1])
    b = c.hamilton(a, c.array([c.cos(e), c.sin(e) * n[0], c.sin(e) * n[1], c.sin(e) * n[2]])) * s
    r = c.call(Q + 'slerp', a, b, t)
    d = abs(c.dot(r, a))
    c.prove('stays on the short arc', [c.close(c.dot(r, r), 1), d >= abs(c.dot(a, b)) - 1e-9])


@contract('C02')
def slerp_ends(c):
    a, b = c.unit_quat('a'), c.unit_quat('b')
    t = c.choice('t', [0, 1])
    d = c.dot(a, b)
    D = unit_dot(c, a, b, d)
    c.requires(c.abs(D) <= c.const('0.9999999'))
    r = c.call(Q + 'slerp', a, b, t)
    e = b if t else a
    c.prove('end rotations', c.or_(c.eq(r, e), c.eq(r, -e)))


@contract('C02')
def degrees_radians(c):
    x = c.real('x', -400, 400)
    r = c.call('rainbow.math.angle.degrees_to_radians', x)
    c.prove('180 degrees is pi', c.eq(r * 180, x * c.pi))
    c.prove('round trip', c.eq(c.call('rainbow.math.angle.radians_to_degrees', r), x))
