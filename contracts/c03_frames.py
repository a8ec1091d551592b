"""C03: rigid frames (rainbow/math/coordsys.py)"""
from pv.check import contract
F = 'rainbow.math.coordsys.'
Q = 'rainbow.math.quaternion.'


def frame(c, n):
    return c.fn(F + 'make')(c.vec('r' + n), c.unit_quat('q' + n))


def point(c, X, p):
    """specification: the rotation matrix of the frame times the point plus the origin"""
    return c.mv(c.quat_matrix(X.q), p) + X.r


@contract('C03')
def make(c):
    r, q = c.vec('r'), c.unit_quat('q')
    X = c.call(F + 'make', r, q)
    c.prove('keeps origin', c.eq(X.r, r))
    c.prove('keeps orientation', c.eq(X.q, q))
    I = c.call(F + 'CoordSys')
    p = c.vec('p')
    c.prove('a new frame is the identity', c.eq(c.call(F + 'xform_point', I, p), p))


@contract('C03')
def transforms(c):
    X, p, v = frame(c, 'x'), c.vec('p'), c.vec('v')
    M = c.mat('M', 3, 3)
    R = c.quat_matrix(X.q)
    c.prove('points are rotated and shifted', c.eq(c.call(F + 'xform_point', X, p), point(c, X, p)))
    c.prove('vectors are rotated only', c.eq(c.call(F + 'xform_vector', X, v), c.mv(R, v)))
    c.prove('matrices are rotated column by column', c.eq(c.call(F + 'xform_matrix', X, M), c.mm(R, M)))
    c.prove('vector of a difference is the difference of points',
            c.eq(c.call(F + 'xform_point', X, p + v) - c.call(F + 'xform_point', X, p), c.call(F + 'xform_vector', X, v)))


@contract('C03')
def inverse(c):
    X, p, v = frame(c, 'x'), c.vec('p'), c.vec('v')
    Y = c.call(F + 'inverse', X)
    c.prove('unit orientation', c.eq(c.dot(Y.q, Y.q), 1))
    c.prove('undoes points', c.eq(c.call(F + 'xform_point', Y, point(c, X, p)), p))
    c.prove('is undone by the frame', c.eq(c.call(F + 'xform_point', X, c.call(F + 'xform_point', Y, p)), p))
    c.prove('undoes vectors', c.eq(c.call(F + 'xform_vector', Y, c.mv(c.quat_matrix(X.q), v)), v))


@contract('C03')
def concat(c):
    A, B, p, v = frame(c, 'a'), frame(c, 'b'), c.vec('p'), c.vec('v')
    C = c.call(F + 'concat', B, A)
    c.prove('unit orientation', c.eq(c.dot(C.q, C.q), 1))
    c.prove('first A then B', c.eq(c.call(F + 'xform_point', C, p), point(c, B, point(c, A, p))))
    c.prove('first A then B on vectors', c.eq(c.call(F + 'xform_vector', C, v),
                                              c.mv(c.quat_matrix(B.q), c.mv(c.quat_matrix(A.q), v))))


@contract('C03')
def concat_inverse(c):
    A, p = frame(c, 'a'), c.vec('p')
    I = c.call(F + 'concat', c.call(F + 'inverse', A), A)
    c.prove('a frame and its inverse cancel', [c.eq(I.r, c.array([0, 0, 0])), c.eq(I.q, c.array([1, 0, 0, 0]))])


@contract('C03')
def relative(c):
    A, B, p = frame(c, 'a'), frame(c, 'b'), c.vec('p')
    C = c.call(F + 'make_coordsys_from_to', A, B)
    c.prove('unit orientation', c.eq(c.dot(C.q, C.q), 1))
    c.prove('coordinates of A become coordinates of B', c.eq(point(c, B, c.call(F + 'xform_point', C, p)), point(c, A, p)))


@contract('C03')
def concat_keeps_unit(c):
    """also when the inputs have drifted off unit length"""
    A = c.fn(F + 'make')(c.vec('ra'), c.vec('qa', 4))
    B = c.fn(F + 'make')(c.vec('rb'), c.vec('qb', 4))
    c.requires(c.and_(c.dot(A.q, A.q) > 0, c.dot(B.q, B.q) > 0))
    C = c.call(F + 'concat', B, A)
    c.prove('concat returns a unit orientation', c.eq(c.dot(C.q, C.q), 1))
    D = c.call(F + 'make_coordsys_from_to', A, B)
    c.prove('relative frame has a unit orientation', c.eq(c.dot(D.q, D.q), 1))
