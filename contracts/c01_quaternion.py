"""C01: quaternion algebra (rainbow/math/quaternion.py)"""
from pv.check import contract
Q = 'rainbow.math.quaternion.'


@contract('C01')
def product(c):
    a, b, d = c.vec('a', 4), c.vec('b', 4), c.vec('d', 4)
    s, t = c.real('s'), c.real('t')
    p = c.call(Q + 'prod', a, b)
    c.prove('is the Hamilton product', c.eq(p, c.hamilton(a, b)))
    one = c.call(Q + 'identity')
    c.prove('identity is a unit', [c.eq(c.call(Q + 'prod', one, a), a), c.eq(c.call(Q + 'prod', a, one), a)])
    c.prove('associative', c.eq(c.call(Q + 'prod', p, d), c.call(Q + 'prod', a, c.call(Q + 'prod', b, d))))
    lin = c.call(Q + 'prod', a, b * s + d * t)
    c.prove('linear on the right', c.eq(lin, p * s + c.call(Q + 'prod', a, d) * t))
    lin = c.call(Q + 'prod', b * s + d * t, a)
    c.prove('linear on the left', c.eq(lin, c.call(Q + 'prod', b, a) * s + c.call(Q + 'prod', d, a) * t))
    c.prove('multiplies norms', c.eq(c.dot(p, p), c.dot(a, a) * c.dot(b, b)))


@contract('C01')
def conjugate(c):
    a, b = c.vec('a', 4), c.vec('b', 4)
    ca = c.call(Q + 'conjugate', a)
    c.prove('negates the vector part', c.eq(ca, c.array([a[0], -a[1], -a[2], -a[3]])))
    c.prove('is an involution', c.eq(c.call(Q + 'conjugate', ca), a))
    cp = c.call(Q + 'conjugate', c.call(Q + 'prod', a, b))
    c.prove('reverses products', c.eq(cp, c.call(Q + 'prod', c.call(Q + 'conjugate', b), ca)))
    n = c.dot(a, a)
    c.prove('a times its conjugate is the squared norm',
            [c.eq(c.call(Q + 'prod', a, ca), c.array([n, 0, 0, 0])), c.eq(c.call(Q + 'prod', ca, a), c.array([n, 0, 0, 0]))])


@contract('C01')
def conjugate_inverts_unit(c):
    q = c.unit_quat('q')
    one = c.array([1, 0, 0, 0])
    c.prove('conjugate is the inverse', [c.eq(c.call(Q + 'prod', q, c.call(Q + 'conjugate', q)), one),
                                         c.eq(c.call(Q + 'prod', c.call(Q + 'conjugate', q), q), one)])


@contract('C01')
def rotate(c):
    q, r, v = c.unit_quat('q'), c.vec('r'), c.vec('v')
    w, z = c.call(Q + 'rotate', q, r), c.call(Q + 'rotate', q, v)
    R = c.quat_matrix(q)
    c.prove('equals the rotation matrix times the vector', c.eq(w, c.mv(R, r)))
    c.prove('preserves inner products', c.eq(c.dot(w, z), c.dot(r, v)))
    c.prove('preserves length', c.eq(c.dot(w, w), c.dot(r, r)))
    c.prove('preserves handedness', c.eq(c.cross(w, z), c.call(Q + 'rotate', q, c.cross(r, v))))
    c.prove('undone by the conjugate', c.eq(c.call(Q + 'rotate', c.call(Q + 'conjugate', q), w), r))


@contract('C01')
def rotate_sequence(c):
    p, q, r = c.unit_quat('p'), c.unit_quat('q'), c.vec('r')
    lhs = c.call(Q + 'rotate', c.call(Q + 'prod', p, q), r)
    c.prove('rotating by a product is rotating in sequence', c.eq(lhs, c.call(Q + 'rotate', p, c.call(Q + 'rotate', q, r))))


@contract('C01')
def to_matrix(c):
    q = c.unit_quat('q')
    R = c.call(Q + 'to_matrix', q)
    c.prove('is the rotation matrix of the quaternion', c.eq(R, c.quat_matrix(q)))
    c.prove('is orthogonal', c.eq(c.mm(R, c.transpose(R)), c.identity(3)))
    c.prove('is proper', c.eq(c.det3(R), 1))


@contract('C01')
def to_matrix_any_scale(c):
    q = c.vec('q', 4)
    c.requires(c.dot(q, q) > 0)
    s = c.real('s')
    c.requires(s != 0)
    R = c.call(Q + 'to_matrix', q)
    c.prove('every non-zero quaternion gives a rotation matrix', c.eq(c.mm(R, c.transpose(R)), c.identity(3)))
    c.prove('the matrix does not depend on the length or sign', c.eq(c.call(Q + 'to_matrix', q * s), R))


@contract('C01')
def to_matrix_product(c):
    p, q = c.unit_quat('p'), c.unit_quat('q')
    M = c.call(Q + 'to_matrix', c.call(Q + 'prod', p, q))
    c.prove('matrix of a product is the product of matrices', c.eq(M, c.mm(c.quat_matrix(p), c.quat_matrix(q))))


@contract('C01')
def unit(c):
    q = c.vec('q', 4)
    u = c.call(Q + 'unit', q)
    c.prove('unit length', c.eq(c.dot(u, u), 1))
    n = c.sqrt(c.dot(q, q))
    c.prove('same direction', c.or_(c.eq(n, 0), c.eq(u * n, q)))
    c.prove('zero becomes the identity', c.or_(n > 0, c.eq(u, c.array([1, 0, 0, 0]))))


@contract('C01')
def constructors(c):
    a = c.vec('a', 4)
    v = c.vec('v')
    c.prove('make keeps the components', c.eq(c.call(Q + 'make', a[0], a[1], a[2], a[3]), a))
    c.prove('from_array keeps the components', c.eq(c.call(Q + 'from_array', a), a))
    c.prove('from_vector3 has zero scalar part', c.eq(c.call(Q + 'from_vector3', v), c.array([0, v[0], v[1], v[2]])))
    h = c.call(Q + 'hat', a)
    c.prove('hat is orthogonal and of the same length', [c.eq(c.dot(h, a), 0), c.eq(c.dot(h, h), c.dot(a, a))])


@contract('C01')
def rotation_vector_form(c):
    """the conjugation formula of a pure quaternion stays pure"""
    q, r = c.vec('q', 4), c.vec('r')
    c.requires(c.dot(q, q) > 0)
    x = c.call(Q + 'prod', c.call(Q + 'prod', q, c.call(Q + 'from_vector3', r)), c.call(Q + 'conjugate', q))
    c.prove('no scalar part appears', c.eq(x[0], 0))
    c.prove('rotate returns the vector part', c.eq(c.call(Q + 'rotate', q, r), x[1:]))


@contract('C01', rows=True)
def prod_array(c):
    b = c.vec('b', 4)
    A = c.rows('A', 4)
    P = c.call(Q + 'prod_array', A, b)
    S = c.call(Q + 'prod_array', b, A)
    c.prove('one row per row', [c.eq(c.shape(P)[0], c.shape(A)[0]), c.eq(c.shape(P)[1], 4), c.eq(c.shape(S)[0], c.shape(A)[0])])
    for i in c.each_row(A):
        c.prove('row times quaternion', c.eq(P[i], c.hamilton(A[i], b)))
        c.prove('quaternion times row', c.eq(S[i], c.hamilton(b, A[i])))


@contract('C01', rows=True)
def rotate_array(c):
    q = c.unit_quat('q')
    V = c.rows('V', 3)
    W = c.call(Q + 'rotate_array', q, V)
    R = c.quat_matrix(q)
    c.prove('one row per row', [c.eq(c.shape(W)[0], c.shape(V)[0]), c.eq(c.shape(W)[1], 3)])
    for i in c.each_row(V):
        c.prove('each row is rotated', c.eq(W[i], c.mv(R, V[i])))


@contract('C01')
def prod_array_rejects(c):
    """neither two arrays nor two single quaternions are silently accepted"""
    a, b = c.vec('a', 4), c.vec('b', 4)
    A = c.mat('A', 2, 4)
    c.expect_raise('two single quaternions are rejected', lambda: c.call(Q + 'prod_array', a, b), exc=ValueError)
    c.expect_raise('two arrays are rejected', lambda: c.call(Q + 'prod_array', A, A), exc=NotImplementedError)
