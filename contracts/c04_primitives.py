"""C04: vectors, matrices, small functions"""
from pv.check import contract
V = 'rainbow.math.vector3.'
M = 'rainbow.math.matrix3.'
F = 'rainbow.math.functions.'


@contract('C04')
def orthonormal_triple(c):
    n = c.vec('n')
    c.requires(c.dot(n, n) > 0)
    t, b, u = c.call(V + 'make_orthonormal_vectors', n)
    L = c.sqrt(c.dot(n, n))
    c.prove('last is along the input', c.eq(u * L, n))
    c.prove('unit', [c.eq(c.dot(x, x), 1) for x in (t, b, u)])
    c.prove('orthogonal', [c.eq(c.dot(t, b), 0), c.eq(c.dot(t, u), 0), c.eq(c.dot(b, u), 0)])
    c.prove('right handed', c.eq(c.cross(t, b), u))


@contract('C04')
def unit(c):
    a = c.vec('a')
    c.requires(c.dot(a, a) > 0)
    u = c.call(V + 'unit', a)
    c.prove('unit', c.eq(c.dot(u, u), 1))
    c.prove('same direction', c.eq(u * c.sqrt(c.dot(a, a)), a))
    n = c.call(V + 'norm', a)
    c.prove('norm', [c.eq(n * n, c.dot(a, a)), c.le(0, n)])


@contract('C04')
def products(c):
    a, b = c.vec('a'), c.vec('b')
    x = c.call(V + 'cross', a, b)
    c.prove('cross product', c.eq(x, c.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])))
    c.prove('skew matrix times vector is the cross product', c.eq(c.mv(c.call(M + 'star', a), b), x))


@contract('C04')
def builders(c):
    a, b, d = c.vec('a'), c.vec('b'), c.vec('d')
    z = c.array([0, 0, 0])
    c.prove('make', c.eq(c.call(V + 'make', a[0], a[1], a[2]), a))
    c.prove('make_vec4', c.eq(c.call(V + 'make_vec4', a[0], a[1], a[2], b[0]), c.array([a[0], a[1], a[2], b[0]])))
    c.prove('axes', [c.eq(c.call(V + 'i'), c.array([1, 0, 0])), c.eq(c.call(V + 'j'), c.array([0, 1, 0])),
                     c.eq(c.call(V + 'k'), c.array([0, 0, 1])), c.eq(c.call(V + 'zero'), z), c.eq(c.call(V + 'ones'), c.array([1, 1, 1]))])
    D = c.array([[a[0], 0, 0], [0, a[1], 0], [0, 0, a[2]]])
    c.prove('diagonals', [c.eq(c.call(M + 'diag', a[0], a[1], a[2]), D), c.eq(c.call(M + 'diag_from_array', a), D)])
    R = c.array([[a[j] for j in range(3)], [b[j] for j in range(3)], [d[j] for j in range(3)]])
    c.prove('rows', [c.eq(c.call(M + 'make_from_rows', a, b, d), R), c.eq(c.call(M + 'make_from_cols', a, b, d), c.transpose(R)),
                     c.eq(c.call(M + 'make', a[0], a[1], a[2], b[0], b[1], b[2], d[0], d[1], d[2]), R)])
    c.prove('identity', c.eq(c.call(M + 'identity'), c.identity(3)))


@contract('C04')
def largest_component(c):
    a = c.vec('a')
    k = c.call(V + 'max_abs_component', a)
    c.prove('valid index', c.or_(*[c.eq(k, i) for i in range(3)]))
    for i in range(3):
        c.prove('no component is larger than the chosen one (%d)' % i,
                c.and_(*[c.implies(c.eq(k, j), c.le(c.abs(a[i]), c.abs(a[j]))) for j in range(3)]))


def lex(c, a, b):
    return c.or_(c.xlt(a[0], b[0]), c.and_(c.xeq(a[0], b[0]), c.xlt(a[1], b[1])),
                 c.and_(c.xeq(a[0], b[0]), c.xeq(a[1], b[1]), c.xlt(a[2], b[2])))


@contract('C04')
def lexicographic(c):
    a, b = c.vec('a'), c.vec('b')
    for i in range(2):
        if c.choice('tie%d' % i, [False, True]):
            b = c.array([a[j] if j == i else b[j] for j in range(3)])
    lt, gt = c.call(V + 'less', a, b), c.call(V + 'greather', a, b)
    c.prove('less is the lexicographic order', c.iff(lt, lex(c, a, b)))
    c.prove('greater is its converse', c.iff(gt, lex(c, b, a)))
    c.prove('less or equal', c.iff(c.call(V + 'less_than_equal', a, b), c.not_(lex(c, b, a))))
    c.prove('greater or equal', c.iff(c.call(V + 'greather_than_equal', a, b), c.not_(lex(c, a, b))))


@contract('C04')
def lexicographic_equal(c):
    a = c.vec('a')
    c.prove('irreflexive', [c.not_(c.call(V + 'less', a, c.array(list(a)))), c.not_(c.call(V + 'greather', a, c.array(list(a))))])
    c.prove('reflexive', [c.call(V + 'less_than_equal', a, c.array(list(a))), c.call(V + 'greather_than_equal', a, c.array(list(a)))])


@contract('C04')
def orthonormalize(c):
    A = c.mat('A', 3, 3)
    c.requires(c.dot(A[0], A[0]) > 0)
    l0 = c.sqrt(c.dot(A[0], A[0]))
    e0 = A[0] / l0
    w = A[1] - c.dot(e0, A[1]) * e0
    c.requires(c.dot(w, w) > c.const('1e-12'))        # the first two rows are linearly independent
    R = c.call(M + 'ortonormalize', A)
    c.prove('keeps the direction of the first row', c.eq(R[0] * l0, A[0]))
    c.prove('orthonormal rows', [c.eq(c.dot(R[0], R[0]), 1), c.eq(c.dot(R[1], R[1]), 1), c.eq(c.dot(R[0], R[1]), 0)])
    c.prove('proper', c.eq(R[2], c.cross(R[0], R[1])))
    c.prove('second row is the normalised remainder of the input row', c.eq(R[1] * c.sqrt(c.dot(w, w)), w))


@contract('C04')
def sinc(c):
    x = c.real('x', -7, 7)
    s = c.call(F + 'sinc', x)
    if not c.sym and x != 0:
        for f in (1, 0.1, 1e-2, 1e-4):
            y = x * f
            c.prove('accurate', abs(c.fn(F + 'sinc')(y) * y - c.np.sin(y)) <= 1e-12 * abs(y))
    small = c.lt(c.abs(x), c.const('1e-4'))
    c.prove('sin(x)/x away from zero', c.or_(small, c.eq(s * x, c.sin(x))))
    c.prove('series near zero', c.implies(small, c.and_(c.le(s, 1), c.le(1 - x * x / 6 - c.const('1e-17'), s))))


@contract('C04', loops=True, concrete=200)
def principal_direction(c):
    """any number of points; numpy.linalg.eig under its contract: column k of the second result belongs to value k; numpy.cov is the
    covariance of the rows, which does not change when every point is shifted by the same vector"""
    if not c.unbounded_sizes:
        return None if c.sym else few_points(c)
    N = c.size('N', 2, 4)
    P, i, j = c.table('P', N, 3), c.index('i', N), c.index('j', N)
    C, w, U = c.mat('C', 3, 3), c.vec('w', 3), c.mat('U', 3, 3)

    def cov(X):
        c.prove('covariance of the points', [c.eq(X.N, N)] + [c.eq(X.at(i)[a][0] - P[i][a], X.at(j)[a][0] - P[j][a]) for a in range(3)])
        return C

    def eig(V):
        c.prove('the matrix decomposed is the covariance', c.eq(c.array(V), C))
        return w, U
    c.stubs['cov'], c.stubs['eig'] = cov, eig
    mean, vals, vecs = c.call(F + 'PCA', P)
    for a in range(3):
        got = c.summand(mean[a] * N, i, N)
        c.prove('mean', c.eq(got, P[i][a]) if got is not None else False)
    c.prove('values and vectors as decomposed', [c.eq(vals, w), c.eq(vecs, U)])
    d = c.call(F + 'direction_of_most_variance', P)
    c.prove('an eigenvector of the largest eigenvalue', c.or_(*[c.and_(c.eq(d, U[:, k]), *[c.le(w[q], w[k]) for q in range(3)]) for k in range(3)]))


def few_points(c):
    P = c.mat('P', 4, 3)
    m = [sum(P[i][a] for i in range(4)) / 4 for a in range(3)]
    C = c.array([[sum((P[i][a] - m[a]) * (P[i][b] - m[b]) for i in range(4)) / 3 for b in range(3)] for a in range(3)])
    if c.sym:
        w = c.vec('w', 3)
        U = c.mat('U', 3, 3)

        def eig(V):
            V = c.array(V)
            c.prove('the matrix decomposed is the covariance', c.eq(V, C))
            for k in range(3):
                c.assume(c.eq(c.mv(C, U[:, k]), U[:, k] * w[k]))
            return w, U
        c.stubs['eig'] = eig
    mean, vals, vecs = c.call(F + 'PCA', P)
    if not c.sym:
        w, U = vals, vecs
        for k in range(3):
            c.prove('the matrix decomposed is the covariance', c.eq(c.np.array(C) @ U[:, k], U[:, k] * w[k]))
    c.prove('mean', c.eq(mean, c.array(m)))
    c.prove('values and vectors as decomposed', [c.eq(vals, w), c.eq(vecs, U)])
    d = c.call(F + 'direction_of_most_variance', P)
    c.prove('an eigenvector of the largest eigenvalue', c.or_(*[c.and_(c.eq(d, U[:, k]), *[c.le(w[j], w[k]) for j in range(3)])
                                                               for k in range(3)]))


def spd(c, tag=''):
    """any symmetric positive definite matrix through its eigen-decomposition"""
    W = c.array(c.quat_matrix(c.unit_quat('W' + tag)))
    s = [c.positive('s%s%d' % (tag, i), 0.3, 3) for i in range(3)]
    S = c.array([[sum(W[i][k] * W[j][k] * s[k] for k in range(3)) for j in range(3)] for i in range(3)])
    return W, s, S


@contract('C04', budget=120)
def polar(c):
    """every invertible matrix is Q S with Q orthogonal and S positive definite: exactly these factors are returned
    (numpy.linalg.eigh under its contract: the orthonormal eigenvectors are columns of the second result, in any order and sign)"""
    array = c.choice('array', [False, True])
    W, s, S = spd(c)
    Q = c.array(c.quat_matrix(c.unit_quat('Q')))
    if c.choice('reflection', [False, True]):
        Q = -Q
    A = c.array(c.mm(Q, S))
    if c.sym:
        perm = c.choice('order', [[0, 1, 2], [2, 0, 1], [1, 0, 2]])
        flip = c.choice('flip', [1, -1])
        d = c.array([s[k] * s[k] for k in perm])
        U = c.array([[W[i][k] * (flip if k == 0 else 1) for k in perm] for i in range(3)])

        def eigh(B):
            c.prove('decomposes A^T A', c.eq(B[0] if array else B, c.array(c.mm(c.transpose(A), A))))
            return (c.array([list(d)]), c.array([U.tolist()])) if array else (d.copy(), U.copy())
        c.stubs['eigh'] = eigh
    if array:
        R, T = c.call(M + 'polar_decomposition_array', c.array([A.tolist()]))
        c.prove('one pair per matrix', [len(R) == 1, len(T) == 1])
        R, T = R[0], T[0]
    else:
        R, T = c.call(M + 'polar_decomposition', A)
    c.prove('the orthogonal factor', c.close(R, Q, 1e-8))
    c.prove('the stretch', c.close(T, S, 1e-8))


@contract('C04')
def polar_singular(c):
    """matrices without inverse are rejected"""
    array = c.choice('array', [False, True])
    if not c.sym:
        A = c.choice('A', [[[0, 0, 0], [0, 1, 0], [0, 0, 2]], [[0, 0, 0]] * 3, [[1, 0, 0], [0, 0, 0], [0, 0, 0]]])
        A = c.array(A) * 1.0
    else:
        A = c.mat('A')
        d = c.array([c.real('d%d' % i) for i in range(3)])
        c.requires(c.or_(*[c.le(x, 0) for x in d]))
        U = c.mat('U')
        c.stubs['eigh'] = lambda B: (c.array([list(d)]), c.array([U.tolist()])) if array else (d.copy(), U.copy())
    if array:
        c.expect_raise('rejected', c.fn(M + 'polar_decomposition_array'), c.array([A.tolist()]), exc=ValueError)
    else:
        c.expect_raise('rejected', c.fn(M + 'polar_decomposition'), A, exc=ValueError)
