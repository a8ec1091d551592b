"""C05: exponential map (rainbow/math/expmap.py)"""
from pv.check import contract
X = 'rainbow.math.expmap.'


def rotvec(c, lo, hi, tag=''):
    """v = 2h n with a unit n: every vector of length 2h"""
    h = c.angle('h' + tag, 1, lo, hi)
    n = c.unit_vec('n' + tag)
    return h, n, n * (h * 2)


def quat(c, h, n):
    s = c.sin(h)
    return c.array([c.cos(h), s * n[0], s * n[1], s * n[2]])


@contract('C05')
def exp_direct(c):
    h, n, v = rotvec(c, 0, 7)
    c.requires(c.and_(h > 0, h > c.const('1e-6')))
    q = c.call(X + 'exp', v, False)
    c.prove('(cos half length, sin half length times the direction)', c.eq(q, quat(c, h, n)))
    c.prove('to_quaternion is the same', c.eq(c.call(X + 'to_quaternion', v, False), q))


@contract('C05')
def exp_small(c):
    v = c.vec('v', 3, -1e-6, 1e-6)
    c.requires(c.dot(v, v) < c.const('1e-12'))
    q = c.call(X + 'exp', v, False)
    w = c.call(X + 'exp', v, True)
    th2 = c.dot(v, v)
    c.prove('vector part is the series of sin(x/2)/x', c.eq(q[1:], v * (c.const('0.5') - th2 / 48)))
    c.prove('scalar part is the cosine of half the length', c.eq(q[0], c.cos(c.sqrt(th2) / 2)))
    c.prove('no re-parameterisation of small vectors', c.eq(w, q))


@contract('C05')
def exp_zero(c):
    q = c.call(X + 'exp', c.array([0, 0, 0]))
    c.prove('zero maps to the identity', c.eq(q, c.array([1, 0, 0, 0])))


@contract('C05')
def reparameterization(c):
    h, n, v = rotvec(c, 0, 12)
    c.requires(h > 0)
    w = c.call(X + 'reparameterization', v)
    L = c.dot(w, w)
    c.prove('length at most pi', c.le(L, c.pi * c.pi))
    c.prove('short vectors are kept', c.or_(h * 2 > c.pi, c.eq(w, v)))
    # w is v shortened by a whole number of turns about the same axis
    m = c.dot(w, n)
    c.prove('same axis', c.eq(w, n * m))
    c.prove('same rotation', [c.eq(c.cos(m), c.cos(h * 2)), c.eq(c.sin(m), c.sin(h * 2))])


@contract('C05')
def exp_reparam(c):
    """against the contract of reparameterization: it returns m n with the same sine and cosine as the angle of v"""
    h, n, v = rotvec(c, 0, 12)
    c.requires(h > 0)
    if c.sym:
        # same sine and cosine: the angles differ by whole turns
        k = h - c.pi * c.integer('turns', -3, 3, bounded=False)
        c.assume(c.or_(k > c.const('1e-6'), k < -c.const('1e-6')))
        w = n * (k * 2)
        c.replace(X + 'reparameterization', lambda u: w)
    q = c.call(X + 'exp', v)
    R = c.quat_matrix(quat(c, h, n))
    c.prove('the rotation matrix is that of the vector', c.eq(c.quat_matrix(q), R))
    c.prove('to_matrix', c.eq(c.call(X + 'to_matrix', v), R))


@contract('C05')
def log_inverts_exp(c):
    h, n, v = rotvec(c, 0, 3.2)
    c.requires(c.and_(h > 0, h < c.pi))
    c.requires(c.not_(c.eq(c.cos(h), 0)))
    c.axiom('acos(cos x) = x for 0 <= x <= pi', c.eq(c.acos(c.cos(h)), h))
    v = c.call(X + 'log', quat(c, h, n))
    c.prove('logarithm of the quaternion is the rotation vector', c.eq(v, n * (h * 2)))


@contract('C05')
def exp_inverts_log(c):
    q = c.unit_quat('q')
    c.requires(c.not_(c.eq(q[0], 0)))
    v = c.call(X + 'log', q)
    t = c.acos(q[0])
    s2 = c.dot(q[1:], q[1:])
    c.prove('rotation vector: angle 2 acos(w) about the axis', c.or_(c.eq(s2, 0), c.eq(v * c.sqrt(s2), q[1:] * (t * 2))))
    c.prove('identity maps to zero', c.or_(s2 > 0, c.eq(v, c.array([0, 0, 0]))))
    c.prove('to_expmap is log', c.eq(c.call(X + 'to_expmap', q), v))


@contract('C05')
def log_half_turn(c):
    n = c.unit_vec('n')
    v = c.call(X + 'log', c.array([0, n[0], n[1], n[2]]))
    c.prove('logarithm of a half turn', c.eq(v, n * c.pi))


@contract('C05')
def quaternion_derivative(c):
    v = c.vec('v')
    i = c.choice('i', [0, 1, 2])
    th2 = c.dot(v, v)
    c.requires(th2 > c.const('1e-12'))
    d = c.call(X + 'dQdv_i', v, i)
    th = c.sqrt(th2)
    spec = [c.cos(th / 2)] + [c.sin(th / 2) / th * v[k] for k in range(3)]
    if c.sym:
        for k in range(4):
            c.prove('derivative of component %d' % k, c.eq(d[k], c.diff(spec[k], v[i])))
    else:
        e = 1e-5

        def f(u):
            t = (u @ u) ** 0.5
            return c.np.array([c.np.cos(t / 2), *(c.np.sin(t / 2) / t * u)])
        u = c.np.array(v, dtype=float)
        if th2 > 1e-4:
            a, b = u.copy(), u.copy()
            a[i] += e
            b[i] -= e
            fd = (f(a) - f(b)) / (2 * e)
            for k in range(4):
                c.prove('derivative of component %d' % k, c.close(d[k], fd[k], 1e-6))


@contract('C05')
def quaternion_derivative_small(c):
    v = c.vec('v', 3, -1e-6, 1e-6)
    i = c.choice('i', [0, 1, 2])
    th2 = c.dot(v, v)
    c.requires(th2 < c.const('1e-12'))
    d = c.call(X + 'dQdv_i', v, i)
    # Taylor expansion of the true derivative; the remainder is below 1e-28
    c.prove('scalar part', c.eq(d[0], -v[i] / 4 + v[i] * th2 / 96))
    for k in range(3):
        s = (c.const('0.5') - th2 / 48 if k == i else 0) - v[k] * v[i] / 24 + v[k] * v[i] * th2 / 960
        c.prove('vector part %d' % k, c.eq(d[k + 1], s))


@contract('C05')
def matrix_derivative(c):
    v = c.vec('v')
    i = c.choice('i', [0, 1, 2])
    th2 = c.dot(v, v)
    c.requires(th2 > c.const('1e-12'))
    D = c.call(X + 'dRdv_i', v, i)
    if c.sym:
        th = c.sqrt(th2)
        q = [c.cos(th / 2)] + [c.sin(th / 2) / th * v[k] for k in range(3)]
        dq = [c.diff(x, v[i]) for x in q]
        w, x, y, z = q
        # entries of the rotation matrix as polynomials of (x,y,z,w): 1-2(..) on the diagonal
        R = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
        for a in range(3):
            for b in range(3):
                c.prove('derivative of entry %d%d' % (a, b), c.eq(D[a][b], c.diff(R[a][b], v[i])))
    elif th2 > 1e-4:
        e = 1e-5
        toM = c.fn(X + 'to_matrix')
        u = c.np.array(v, dtype=float)
        a, b = u.copy(), u.copy()
        a[i] += e
        b[i] -= e
        fd = (toM(a) - toM(b)) / (2 * e)
        for r in range(3):
            for s in range(3):
                c.prove('derivative of entry %d%d' % (r, s), c.close(D[r][s], fd[r][s], 1e-6))


@contract('C05')
def velocity_of_vector(c):
    """dvdt: the quaternion of v changes as 1/2 (0, omega) q"""
    h, n, v = rotvec(c, 0, 3.1)
    om = c.vec('om')
    c.requires(c.and_(h > 0, h > c.const('1e-6'), h < c.pi))
    c.axiom('sin x > 0 for 0 < x < pi', c.sin(h) > 0)
    d = c.call(X + 'dvdt', om, v)
    # along the axis and across it (Rodrigues' differential)
    s, cs = c.sin(h), c.cos(h)
    an = c.dot(d, n)
    c.prove('rate of the angle is the spin about the axis', c.eq(an, c.dot(om, n)))
    perp = om - n * c.dot(om, n)
    c.prove('rate across the axis', c.eq(s * (d - n * an), h * (cs * perp + s * c.cross(om, n))))
    # dq/dt from the chain rule equals 1/2 omega q
    qdot = [-s * an / 2] + [cs * an / 2 * n[k] + s * (d[k] - n[k] * an) / (h * 2) for k in range(3)]
    w = c.hamilton(c.array([0, om[0], om[1], om[2]]), quat(c, h, n))
    c.prove('quaternion rate', c.eq(c.array(qdot), w / 2))


@contract('C05')
def velocity_of_small_vector(c):
    v = c.vec('v', 3, -1e-6, 1e-6)
    om = c.vec('om')
    c.requires(c.dot(v, v) < c.const('1e-12'))
    d = c.call(X + 'dvdt', om, v)
    first = om + c.cross(om, v) / 2
    bound = c.const('1e-11')
    for k in range(3):
        c.prove('first order rate', c.le(c.abs(d[k] - first[k]), bound * (1 + c.dot(om, om))))
