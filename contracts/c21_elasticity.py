"""C21: soft body elasticity (prox_soft_bodies/mechanics.py, Native in prox_soft_bodies/solver.py)"""
from pv.check import contract
from contracts._soft import *
P3 = 'rainbow.math.matrix3.'


def lame(c, tag=''):
    la, mu = c.real('lambda' + tag, 0, 3), c.positive('mu' + tag, 0.2, 3)
    c.requires(la >= 0)
    return la, mu


def differences(c, psi, F, h=1e-5):
    """numerical derivative (concrete runs)"""
    import numpy
    G = numpy.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            D = numpy.zeros((3, 3))
            D[i, j] = h
            G[i, j] = (psi(F + D) - psi(F - D)) / (2 * h)
    return G


def stress_is_derivative(c, cls, F, la, mu):
    P = c.call(MECH + cls + '.pk1_stress', F, la, mu)
    psi = c.call(MECH + cls + '.energy_density', F, la, mu)
    if c.sym:
        c.prove('stress is the derivative of the energy', [c.eq(P[i][j], c.diff(psi, F[i][j])) for i in range(3) for j in range(3)])
    else:
        f = c.fn(MECH + cls + '.energy_density')
        c.prove('stress is the derivative of the energy', c.close(P, differences(c, lambda X: f(X, la, mu), F), 1e-5))
    return P, psi


def objective(c, cls, F, la, mu):
    """superimposed rotations: the energy is unchanged, the stress rotates; no stress at rotations"""
    Q = c.array(c.quat_matrix(c.unit_quat('rotation')))
    pk, en = c.fn(MECH + cls + '.pk1_stress'), c.fn(MECH + cls + '.energy_density')
    c.prove('no stress for rotations', c.close(pk(Q, la, mu), 0 * Q, 1e-9))
    QF = c.array(c.mm(Q, F))
    c.prove('the energy does not change with a superimposed rotation', c.close(en(QF, la, mu), en(F, la, mu), 1e-8))
    P = pk(F, la, mu)
    c.prove('the stress rotates with the body', c.close(pk(QF, la, mu), c.array(c.mm(Q, P)), 1e-8))
    S = c.mm(P, c.transpose(F))
    c.prove('the Kirchhoff stress is symmetric', c.close(S, c.transpose(S), 1e-8))


@contract('C21')
def saint_venant(c):
    F = c.mat('F', 3, 3, -2, 2)
    stress_is_derivative(c, 'SVK', F, *lame(c))


@contract('C21')
def saint_venant_objective(c):
    objective(c, 'SVK', c.mat('F', 3, 3, -2, 2), *lame(c))


@contract('C21')
def neo_hookean(c):
    F = c.mat('F', 3, 3, -2, 2)
    stress_is_derivative(c, 'SNH', F, *lame(c))


@contract('C21')
def neo_hookean_objective(c):
    objective(c, 'SNH', c.mat('F', 3, 3, -2, 2), *lame(c))


def stretch(c, tag=''):
    """rotation or reflection R and positive definite S"""
    R = c.array(c.quat_matrix(c.unit_quat('R' + tag)))
    if c.choice('orientation', [1, -1]) < 0:
        R = -R
    a = [c.real('s%s%d' % (tag, i), -0.3, 0.3) for i in range(6)]
    S = c.array([[1 + a[0], a[3], a[4]], [a[3], 1 + a[1], a[5]], [a[4], a[5], 1 + a[2]]])
    return R, S


@contract('C21')
def corotational(c):
    """for every F = R S (contract of the polar decomposition, proved in C04): energy mu |S-1|^2 + lambda/2 tr(S-1)^2, stress its derivative:
    P : dF is the change of the energy for every dF = R (W S + dS), W skew, dS symmetric (these are all changes of F, S being definite)"""
    R, S = stretch(c)
    la, mu = lame(c)
    F = c.array(c.mm(R, S))
    if c.sym:
        def polar(A):
            c.prove('decomposes the deformation gradient', c.eq(A, F))
            return R.copy(), S.copy()
        c.replace(P3 + 'polar_decomposition', polar)
    else:
        c.requires(c.det3(S) > c.const('0.05'))
    P = c.call(MECH + 'COR.pk1_stress', F, la, mu)
    psi = c.call(MECH + 'COR.energy_density', F, la, mu)
    I = c.array(c.identity(3))
    tr = lambda M: M[0][0] + M[1][1] + M[2][2]
    ddot = lambda A, B: sum(A[i][j] * B[i][j] for i in range(3) for j in range(3))
    E = S - I
    c.prove('energy of the stretch', c.close(psi, mu * ddot(E, E) + la * tr(E) * tr(E) / 2, 1e-9))
    w = c.vec('w')
    W = c.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    b = [c.real('d%d' % i) for i in range(6)]
    dS = c.array([[b[0], b[3], b[4]], [b[3], b[1], b[5]], [b[4], b[5], b[2]]])
    dF = c.array(c.mm(R, c.array(c.mm(W, S)) + dS))
    c.prove('the stress is the derivative of the energy', c.close(ddot(P, dF), 2 * mu * ddot(E, dS) + la * tr(E) * tr(dS), 1e-8))
    K = c.mm(P, c.transpose(F))
    c.prove('the Kirchhoff stress is symmetric', c.close(K, c.transpose(K), 1e-8))
    if not c.sym:
        f = c.fn(MECH + 'COR.energy_density')
        c.prove('stress against differences of the energy', c.close(P, differences(c, lambda X: f(X, la, mu), F), 1e-5))


@contract('C21')
def corotational_rotates(c):
    """lemma over the polar decomposition (unique): Q F = (Q R) S; rotations have S = 1"""
    R, S = stretch(c)
    Q = c.array(c.quat_matrix(c.unit_quat('rotation')))
    la, mu = lame(c)
    F = c.array(c.mm(R, S))
    QF, QR, I = c.array(c.mm(Q, F)), c.array(c.mm(Q, R)), c.array(c.identity(3))
    pk, en = c.fn(MECH + 'COR.pk1_stress'), c.fn(MECH + 'COR.energy_density')
    c.targets.update({MECH + 'COR.pk1_stress', MECH + 'COR.energy_density'})
    st = {}
    if c.sym:
        c.replace(P3 + 'polar_decomposition', lambda A: tuple(x.copy() for x in st['now']))
    else:
        c.requires(c.det3(S) > c.const('0.05'))

    def at(f, F, R, S):
        st['now'] = R, S
        return f(F, la, mu)
    c.prove('the stress rotates with the body', c.close(at(pk, QF, QR, S), c.array(c.mm(Q, at(pk, F, R, S))), 1e-8))
    c.prove('the energy does not change with a superimposed rotation', c.close(at(en, QF, QR, S), at(en, F, R, S), 1e-8))
    c.prove('no stress for rotations', c.close(at(pk, Q, Q, I), 0 * Q, 1e-8))
    c.prove('no energy for rotations', c.close(at(en, Q, Q, I), 0, 1e-12))


@contract('C21')
def strains(c):
    F = c.mat('F', 3, 3, -2, 2)
    C = c.mm(c.transpose(F), F)
    c.prove('right Cauchy-Green tensor', c.eq(c.call(MECH + 'right_cauchy_strain_tensor', F), c.array(C)))
    E = c.call(MECH + 'green_strain_tensor', F)
    c.prove('Green strain', c.eq(E, (c.array(C) - c.array(c.identity(3))) / 2))


@contract('C21')
def lame_parameters(c):
    """the elastic moduli are recovered from the Lame parameters"""
    E, nu = c.positive('E', 0.1, 10), c.real('nu', 0, 0.49)
    c.requires(c.and_(c.le(0, nu), nu < c.const('0.5')))
    la, mu = c.call(MECH + 'first_lame', E, nu), c.call(MECH + 'second_lame', E, nu)
    c.prove('Young modulus', c.close(mu * (3 * la + 2 * mu), E * (la + mu), 1e-9))
    c.prove('Poisson ratio', c.close(2 * nu * (la + mu), la, 1e-9))
    c.prove('signs', [la >= 0, mu > 0])


@contract('C21')
def named_materials(c):
    name = c.choice('name', [None, 'cartilage', 'Cortical Bone', 'cancellous bone', 'RUBBER', 'concrete', 'copper', 'steel', 'aluminium', 'glass', 'other'])
    E, nu, rho = c.call(MECH + 'create_material_parameters', name)
    c.prove('admissible', [E > 0, 0 <= nu, nu < 0.5, rho > 0])


@contract('C21', loops=True)
def cauchy_stress(c):
    """any number of elements"""
    n = c.size('n', 1, 2)
    F, S = c.table('F', n, (3, 3)), c.table('S', n, (3, 3))
    k = c.index('k', n)
    if c.sym and c.unbounded_sizes:
        c.requires(c.not_(c.eq(c.det3(F.at(k)[0]), 0)))
    elif not c.sym:
        c.requires(min(abs(c.det3(f)) for f in F) > 0.01)
    s = c.call(MECH + 'cauchy_stress_tensor', F, S)
    c.prove('sigma J = F S F^T', c.close(c.array(s[k]) * c.det3(F[k]), c.array(c.mm(F[k], c.mm(S[k], c.transpose(F[k])))), 1e-8))


# ---- elements --------------------------------------------------------------------------------------
@contract('C21', loops=True)
def face_normals(c):
    """any mesh: the vectors of an arbitrary element are minus volume times the shape function gradients"""
    F = NAT + 'compute_outward_face_vectors'
    n, N = c.size('n', 0, 3), c.size('N', 5, 5)
    T, x = elements(c, n, N), c.table('x', N, 3)
    st = {}

    def check(G, X):
        v = vol(c, X)
        return [c.close(c.dot([G[q][s] for q in range(3)], X[t] - X[s]), v, 1e-9) for s in range(4) for t in range(4) if s != t]
    if not c.unbounded_sizes:
        G = c.call(F, x, T)
        c.prove('one per element', G.shape == (n, 3, 4))
        for e in range(n):
            X = [x[i] for i in T[e]]
            c.prove('minus volume times the gradient of the shape function', check(G[e], X) + [c.close(G[e].T, c.array(face_vectors(c, X)), 1e-9)])
        return

    def havoc(env, k):
        env.gradN.assign(c.table('G', n, (3, 4)))
        st['k'], st['G'] = k, env.gradN

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.gradN.N, n)]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        X = [x[i] for i in T.at(k)[0]]
        G = env.gradN.at(k)[0]
        want = face_vectors(c, X)
        return [c.eq(i, k) for i, _ in env.gradN.stores] + check(G, X) + [c.eq(G[q][s], want[s][q]) for s in range(4) for q in range(3)]
    c.invariant(F, 1, inv, havoc, modifies=('gradN',))
    c.prove('returned', c.call(F, x, T) is st['G'])


@contract('C21', loops=True)
def edge_matrices(c):
    """any mesh: the columns are the edges from the first node; elements without positive volume are rejected"""
    F = NAT + 'compute_D'
    n, N = c.size('n', 0, 3), c.size('N', 5, 5)
    T, x = elements(c, n, N), c.table('x', N, 3)
    st = {}

    def want(X):
        return [[X[j + 1][i] - X[0][i] for j in range(3)] for i in range(3)]
    if not c.unbounded_sizes:
        pos = [vol(c, [x[i] for i in t]) > 0 for t in T]
        try:
            D = c.call(F, x, T)
        except RuntimeError:
            c.prove('only meshes with an inverted element are rejected', not all(pos))
            return
        c.prove('no element is inverted', all(pos))
        c.prove('edge vectors', [c.eq(c.array(D[e]), c.array(want([x[i] for i in T[e]]))) for e in range(n)])
        return

    def havoc(env, k):
        env.D.assign(c.table('D', n, (3, 3)))
        st['k'], st['D'] = k, env.D

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.D.N, n)]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        X = [x[i] for i in T.at(k)[0]]
        return [c.eq(i, k) for i, _ in env.D.stores] + [c.eq(env.D.at(k)[0], c.array(want(X))), vol(c, X) > 0]
    c.invariant(F, 1, inv, havoc, modifies=('D',))
    try:
        c.prove('returned', c.call(F, x, T) is st['D'])
    except RuntimeError:
        c.prove('the rejected element has no positive volume', c.le(vol(c, [x[i] for i in T.at(st['k'])[0]]), 0))


@contract('C21', loops=True)
def inverse_edge_matrices(c):
    F = NAT + 'compute_inverse_D0'
    n = c.size('n', 1, 3)
    I = c.array(c.identity(3))
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        X, T = small_mesh(c)
        A = c.call(F, X, T)
        D = c.fn(NAT + 'compute_D')(X, T)
        c.prove('inverse', [c.close(c.array(D[e] @ A[e]), I, 1e-6) for e in range(len(T))])
        return
    x, T, D = object(), elements(c, n, 5), c.table('D', n, (3, 3))
    st = {}

    def edges(a, b):
        c.prove('of the material coordinates', [a is x, b is T])
        return D
    c.replace(NAT + 'compute_D', edges)

    def havoc(env, k):
        env.invD0.assign(c.table('A', n, (3, 3)))
        st['k'], st['A'] = k, env.invD0
        c.requires(c.det3(D.at(k)[0]) > 0)       # postcondition of edge_matrices

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.invD0.N, n)]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        return [c.eq(i, k) for i, _ in env.invD0.stores] + [c.eq(c.array(c.mm(D.at(k)[0], env.invD0.at(k)[0])), I)]
    c.invariant(F, 1, inv, havoc, modifies=('invD0',))
    c.prove('returned', c.call(F, x, T) is st['A'])


@contract('C21', loops=True)
def deformation_gradients(c):
    F = NAT + 'compute_deformation_gradient'
    n = c.size('n', 1, 3)
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        X, T = small_mesh(c)
        A = c.fn(NAT + 'compute_inverse_D0')(X, T)
        M, b = c.mat('M', 3, 3, -2, 2), c.vec('b')
        c.requires(c.det3(M) > c.const('0.05'))
        G = c.call(F, X @ M.T + b, T, A)
        c.prove('an affine motion is reproduced', [c.close(c.array(G[e]), M, 1e-6) for e in range(len(T))])
        return
    x, T, D, A = object(), elements(c, n, 5), c.table('D', n, (3, 3)), c.table('A', n, (3, 3))
    st = {}

    def edges(a, b):
        c.prove('of the spatial coordinates', [a is x, b is T])
        return D
    c.replace(NAT + 'compute_D', edges)

    def havoc(env, k):
        env.F.assign(c.table('F', n, (3, 3)))
        st['k'], st['F'] = k, env.F

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.F.N, n)]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        return [c.eq(i, k) for i, _ in env.F.stores] + [c.eq(env.F.at(k)[0], c.array(c.mm(D.at(k)[0], A.at(k)[0])))]
    c.invariant(F, 1, inv, havoc, modifies=('F',))
    c.prove('returned', c.call(F, x, T, A) is st['F'])


@contract('C21')
def affine_motions(c):
    """lemma: with D0^-1 the inverse of the material edges, D D0^-1 is the linear part of any affine motion, and
    D D0^-1 = - sum_s x_s N_s^T / vol for any motion of the nodes"""
    X = [c.vec('X%d' % i) for i in range(4)]
    v = vol(c, X)
    c.requires(v > c.const('0.05'))
    D = lambda X: c.array([[X[j + 1][i] - X[0][i] for j in range(3)] for i in range(3)])
    D0 = D(X)
    # D0^-1 through its cofactors
    B = c.array([list(c.cross(X[2] - X[0], X[3] - X[0])), list(c.cross(X[3] - X[0], X[1] - X[0])), list(c.cross(X[1] - X[0], X[2] - X[0]))]) / (6 * v)
    c.prove('the inverse', c.close(c.array(c.mm(B, D0)), c.array(c.identity(3)), 1e-6))
    M, b = c.mat('M', 3, 3, -2, 2), c.vec('b')
    c.prove('affine motions are reproduced', c.close(c.array(c.mm(D([c.mv(M, x) + b for x in X]), B)), M, 1e-6))
    Y = [c.vec('Y%d' % i) for i in range(4)]
    N = face_vectors(c, X)
    c.prove('the deformation gradient through the face vectors', c.close(c.array(c.mm(D(Y), B)) * v,
            c.array([[-sum(Y[s][i] * N[s][j] for s in range(4)) for j in range(3)] for i in range(3)]), 1e-6))
    c.prove('face vectors sum to zero', c.close(N[0] + N[1] + N[2] + N[3], 0 * b, 1e-9))


@contract('C21')
def element_balance(c):
    """lemma: for any stress with P F^T symmetric, the element forces P N_s sum to zero, have no torque and are minus the derivative of
    the element energy vol psi(F) with respect to the node, dpsi = P : dF, F = - sum x_s N_s^T / vol"""
    N = [c.vec('N%d' % i) for i in range(3)]
    N.append(-N[0] - N[1] - N[2])
    Y = [c.vec('Y%d' % i) for i in range(4)]
    v = c.positive('v', 0.1, 2)
    S = [c.real('k%d' % i) for i in range(6)]
    F = c.array([[-sum(Y[s][i] * N[s][j] for s in range(4)) for j in range(3)] for i in range(3)]) / v
    P = c.mat('P')
    f = [c.mv(P, n) for n in N]
    c.prove('no net force', c.close(f[0] + f[1] + f[2] + f[3], 0 * v * N[0], 1e-9))
    # the torque is the axial vector of - vol P F^T
    K = c.mm(P, c.transpose(F))
    t = sum((c.cross(y, g) for y, g in zip(Y[1:], f[1:])), c.cross(Y[0], f[0]))
    ax = c.array([K[2][1] - K[1][2], K[0][2] - K[2][0], K[1][0] - K[0][1]])
    c.prove('torque is that of the antisymmetric part of P F^T', c.close(t, -v * ax, 1e-7))
    # moving node s along i by d changes F by -d e_i N_s^T / vol
    for s in range(4):
        for i in range(3):
            c.prove('force is minus the derivative of the element energy', c.close(f[s][i], -v * sum(P[i][j] * (-N[s][j] / v) for j in range(3)), 1e-9))


@contract('C21', loops=True)
def assembled_forces(c):
    """any mesh and stress: an arbitrary element adds P N_s to its node s and nothing else"""
    F = NAT + 'compute_elastic_forces'
    n, N = c.size('n', 1, 3), c.size('N', 5, 5)
    la, mu = lame(c)
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_mesh(c, la, mu)
    T, x, G, D = elements(c, n, N), c.table('x', N, 3), c.table('G', n, (3, 4)), c.table('F', n, (3, 3))
    st = {}
    P = c.mat('P')

    def pk1(A, l, m):
        c.prove('stress of the element', [c.eq(A, c.array(D.at(st['k'])[0])), c.identical(l, la), c.identical(m, mu)])
        return P.copy()

    def havoc(env, k):
        st['old'] = c.table('f', N, 3)
        env.Fe.assign(st['old'])
        st['k'], st['f'] = k, env.Fe
        different(c, T.at(k)[0])

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.Fe.N, N), c.eq(env.Fe.at(c.fresh_int('i'))[0], c.array([0, 0, 0]))]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        t, g = T.at(k)[0], G.at(k)[0]
        return [c.or_(*[c.eq(i, j) for j in t]) for i, _ in env.Fe.stores] + \
            [c.eq(env.Fe.at(t[s])[0], st['old'].at(t[s])[0] + c.mv(P, [g[q][s] for q in range(3)])) for s in range(4)]
    c.invariant(F, 1, inv, havoc, modifies=('Fe',))
    c.prove('returned', c.call(F, x, T, G, D, la, mu, pk1) is st['f'])


def whole_mesh(c, la, mu):
    """(concrete) the functions together, against differences of the total energy"""
    import numpy
    X, T = small_mesh(c)
    M = c.fn(MECH + c.choice('model', ['SVK', 'SNH', 'COR']))
    R = numpy.array(c.quat_matrix(c.unit_quat('R')))
    Y = X @ R.T + numpy.array([c.vec('dY%d' % i, 3, -0.05, 0.05) for i in range(5)]) + c.vec('b')
    c.requires(min(vol(c, Y[t]) for t in T) > 0.01)
    G, A = c.fn(NAT + 'compute_outward_face_vectors')(X, T), c.fn(NAT + 'compute_inverse_D0')(X, T)
    v0 = numpy.array([vol(c, X[t]) for t in T])
    grad, energy = c.fn(NAT + 'compute_deformation_gradient'), c.fn(NAT + 'compute_elastic_energy')
    f = c.call(NAT + 'compute_elastic_forces', Y, T, G, grad(Y, T, A), la, mu, M.pk1_stress)
    scale = 1 + abs(f).max()
    c.prove('forces sum to zero', c.close(f.sum(axis=0) / scale, numpy.zeros(3), 1e-9))
    c.prove('no torque', c.close(numpy.cross(Y, f).sum(axis=0) / scale, numpy.zeros(3), 1e-8))
    h = 1e-6
    for i in range(5):
        for q in range(3):
            d = numpy.zeros((5, 3))
            d[i, q] = h
            e = [energy(v0, grad(Y + s * d, T, A), la, mu, M.energy_density) for s in (1, -1)]
            c.prove('minus the gradient of the energy', c.close(f[i, q] / scale, (e[1] - e[0]) / (2 * h) / scale, 1e-5))
    rigid = grad(X @ R.T + 1.5, T, A)
    c.prove('no force in a rigid motion', c.close(c.fn(NAT + 'compute_elastic_forces')(X @ R.T + 1.5, T, G, rigid, la, mu, M.pk1_stress), 0 * f, 1e-6))


@contract('C21', loops=True)
def total_energy(c):
    """any number of elements: the sum of the element energies"""
    F = NAT + 'compute_elastic_energy'
    n = c.size('n', 0, 3)
    la, mu = lame(c)
    v, D = c.table('v', n), c.table('F', n, (3, 3))
    st = {}

    def density(A, l, m):
        if not c.sym:
            return A[0][1] * l + A[2][1] * m
        c.prove('energy of the element', [c.eq(A, c.array(D.at(st['k'])[0])), c.identical(l, la), c.identical(m, mu)])
        return st['psi']
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        c.prove('the sum over the elements', c.close(c.call(F, v, D, la, mu, density), sum(v[e] * density(D[e], la, mu) for e in range(n)), 1e-9))
        return

    def havoc(env, k):
        st['k'], st['E'], st['psi'] = k, c.fresh('E'), c.fresh('psi')
        return {'energy': st['E']}

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.energy, 0)]
        if c.phase != 'preserved':
            return [True]
        return [c.eq(env.energy, st['E'] + st['psi'] * v[st['k']])]
    c.invariant(F, 1, inv, havoc)
    r = c.call(F, v, D, la, mu, density)
    c.prove('returned', c.identical(r, st['E']))
