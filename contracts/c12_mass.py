"""C12: mass properties (rainbow/simulators/prox_rigid_bodies/mass.py)"""
from pv.check import contract
M = 'rainbow.simulators.prox_rigid_bodies.mass.'
TINY = '1e-10'


def monomials(c, P):
    """mean over the triangle P of x^2, x^3, x^2 y (y the next coordinate) for each coordinate x"""
    out = []
    for a in range(3):
        x, y = [p[a] for p in P], [p[(a + 1) % 3] for p in P]
        h1 = x[0] + x[1] + x[2]
        h2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[0] * x[1] + x[0] * x[2] + x[1] * x[2]
        h3 = (x[0] * x[0] * x[0] + x[1] * x[1] * x[1] + x[2] * x[2] * x[2] + x[0] * x[0] * (x[1] + x[2]) + x[1] * x[1] * (x[0] + x[2])
              + x[2] * x[2] * (x[0] + x[1]) + x[0] * x[1] * x[2])
        # mean of x^2 y = (2/5!) sum over multi-indices
        m = 0
        for i in range(3):
            for j in range(3):
                for k in range(3):
                    n = [0, 0, 0]
                    for t in (i, j, k):
                        n[t] += 1
                    f = 1
                    for t in n:
                        f *= (1, 1, 2, 6)[t]
                    m = m + f * x[i] * x[j] * y[k]
        out.append((h1 / 3, h2 / 6, h3 / 10, m / 60))
    return out


@contract('C12', loops=True, budget=200, ite=True, timeout=20000)
def face_integrals(c):
    """an arbitrary triangle of a mesh of any size adds the flux of (x,0,0), (x_a^2), (x_a^3), (x_a^2 x_{a+1}) through it"""
    F = M + 'compute_mass_properties'
    n = c.size('n', 0, 1)
    if not c.unbounded_sizes:
        return None if c.sym else whole_mesh(c)
    Z, side = c.choice('axis', [0, 1, 2]), c.choice('side', [1, -1])
    # every non-degenerate triangle is the graph of a linear function with slopes at most one over one coordinate plane
    al, be, ga = c.real('alpha', -1, 1), c.real('beta', -1, 1), c.real('gamma', -2, 2)
    X, Y = (Z + 1) % 3, (Z + 2) % 3
    P = []
    for i in range(3):
        a, b = c.real('a%d' % i, -2, 2), c.real('b%d' % i, -2, 2)
        p = [None] * 3
        p[X], p[Y], p[Z] = a, b, al * a + be * b + ga
        P.append(c.array(p))
    A = c.positive('A', 0.1, 2)
    D = (P[1][X] - P[0][X]) * (P[2][Y] - P[0][Y]) - (P[1][Y] - P[0][Y]) * (P[2][X] - P[0][X])
    c.requires(D * side > 0)
    # the scale is immaterial for the unit normal: N = D (-alpha, -beta, 1)
    N = [None] * 3
    N[X], N[Y], N[Z] = -al * D / 2, -be * D / 2, D / 2
    s = c.sqrt(1 + al * al + be * be)
    u = [None] * 3
    u[X], u[Y], u[Z] = -al * side / s, -be * side / s, c.const(str(side)) / s
    u = c.array(u)

    def unit(v):
        c.prove('normalises the normal of the triangle', c.eq(v, c.array([2 * x for x in N])))
        return u.copy()
    c.replace('rainbow.math.vector3.unit', unit)
    c.replace('rainbow.math.vector3.max_abs_component', lambda v: Z)
    perm = [2, 0, 1]
    V = c.array([list(P[1]), list(P[2]), list(P[0])])
    T = c.constant_rows(n, perm)
    st = {}

    def havoc(e, k):
        for x in (e.T1, e.T2, e.TP):
            for a in range(3):
                x[a] = c.fresh('t')
        st['k'] = k

    def inv(e, k):
        now = [e.T0] + list(e.T1) + list(e.T2) + list(e.TP)
        if 'k' not in st:
            return [c.eq(x, 0) for x in now]
        if 'old' not in st:
            st['old'] = now
            # the rest of the function is verified once (it does not depend on the triangle)
            return [not (c.identical(k, n) and (Z, side) != (0, 1))]
        m = monomials(c, P)
        add = [N[0] * m[0][0]] + [N[a] * m[a][1] for a in range(3)] + [N[a] * m[a][2] for a in range(3)] + [N[a] * m[a][3] for a in range(3)]
        return [c.eq(x, o + d) for x, o, d in zip(now, st['old'], add)]
    c.invariant(F, 1, inv, havoc, modifies=('T1', 'T2', 'TP'))
    rho = c.positive('rho', 0.1, 3)
    try:
        p = c.call(F, V, T, rho)
    except RuntimeError:
        c.prove('meshes without volume are rejected', c.le(st['old'][0], 0))
        return
    t = st['old']
    c.prove('volume is positive', t[0] > 0)
    tiny = c.const(TINY)
    want = dict(mass=rho * t[0], x=t[1] / 2 / t[0], y=t[2] / 2 / t[0], z=t[3] / 2 / t[0], Ixx=rho * (t[5] + t[6]) / 3, Iyy=rho * (t[6] + t[4]) / 3,
                Izz=rho * (t[4] + t[5]) / 3, Ixy=-rho * t[7] / 2, Iyz=-rho * t[8] / 2, Ixz=-rho * t[9] / 2)
    for k, v in want.items():
        g = getattr(p, k)
        small = c.le(v, tiny) if k in ('mass', 'Ixx', 'Iyy', 'Izz') else c.and_(c.le(v, tiny), c.le(-tiny, v))
        c.prove('%s is that of the volume integral (tiny values become zero)' % k, c.or_(c.eq(g, v), c.and_(c.eq(g, 0), small)))


def tet_integrals(c, X):
    """volume integrals over a positively oriented tetrahedron"""
    D = c.dot(X[3] - X[0], c.cross(X[1] - X[0], X[2] - X[0]))
    s = X[0] + X[1] + X[2] + X[3]
    second = [[(s[a] * s[b] + sum(x[a] * x[b] for x in X)) * D / 120 for b in range(3)] for a in range(3)]
    return D / 6, s * D / 24, second


def whole_mesh(c):
    """a tetrahedron: all integrals against the closed form"""
    X = [c.vec('x%d' % i, 3, -2, 2) for i in range(4)]
    rho = c.positive('rho', 0.1, 3)
    D = c.dot(X[3] - X[0], c.cross(X[1] - X[0], X[2] - X[0]))
    c.requires(D > c.const('0.1'))
    T = c.np.array([[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]])
    p = c.call(M + 'compute_mass_properties', c.array([list(x) for x in X]), T, rho)
    vol, first, S = tet_integrals(c, X)
    c.prove('mass', c.eq(p.mass, rho * vol))
    c.prove('centre of mass', [c.eq(g * vol, f) for g, f in zip((p.x, p.y, p.z), first)])
    c.prove('moments', [c.eq(g, rho * v) for g, v in ((p.Ixx, S[1][1] + S[2][2]), (p.Iyy, S[0][0] + S[2][2]), (p.Izz, S[0][0] + S[1][1]))])
    c.prove('products', [c.close(g, -rho * v, 1e-9) for g, v in ((p.Ixy, S[0][1]), (p.Iyz, S[1][2]), (p.Ixz, S[0][2]))])


@contract('C12', loops=True)
def flux_is_volume(c):
    """divergence theorem for a tetrahedron (hence for every closed mesh, by summing over cones from the origin whose inner faces cancel):
    the fluxes of face_integrals are the volume integrals"""
    X = [c.vec('x%d' % i, 3, -2, 2) for i in range(4)]
    vol, first, S = tet_integrals(c, X)
    tot = [0] * 10
    for f in ((1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)):
        P = [X[i] for i in f]
        N = c.cross(P[1] - P[0], P[2] - P[0]) / 2
        m = monomials(c, P)
        add = [N[0] * m[0][0]] + [N[a] * m[a][1] for a in range(3)] + [N[a] * m[a][2] for a in range(3)] + [N[a] * m[a][3] for a in range(3)]
        tot = [t + x for t, x in zip(tot, add)]
    c.prove('volume', c.eq(tot[0], vol))
    c.prove('first moments', [c.eq(tot[1 + a], 2 * first[a]) for a in range(3)])
    c.prove('second moments', [c.eq(tot[4 + a], 3 * S[a][a]) for a in range(3)])
    c.prove('mixed moments', [c.eq(tot[7 + a], 2 * S[a][(a + 1) % 3]) for a in range(3)])


def properties(c, mass, com, A):
    p = c.fn(M + 'MassProperties')()
    p.mass = mass
    p.x, p.y, p.z = com
    p.Ixx, p.Iyy, p.Izz, p.Ixy, p.Ixz, p.Iyz = A[0][0], A[1][1], A[2][2], A[0][1], A[0][2], A[1][2]
    return p


@contract('C12')
def parallel_axis(c):
    m, r = c.positive('m', 0.1, 3), c.vec('r')
    J = [[None] * 3 for _ in range(3)]
    for a in range(3):
        for b in range(a, 3):
            J[a][b] = J[b][a] = c.real('J%d%d' % (a, b))
    rr = c.dot(r, r)
    A = [[J[a][b] + m * ((rr if a == b else 0) - r[a] * r[b]) for b in range(3)] for a in range(3)]
    p = properties(c, m, r, A)
    t, q = c.call(M + '__translate_to_body_space_origin', p)
    c.prove('translation to the centre of mass', c.eq(t, -r))
    c.prove('mass is kept, centre at the origin', [c.eq(q.mass, m), c.eq(q.x, 0), c.eq(q.y, 0), c.eq(q.z, 0)])
    tiny = c.const(TINY)
    for k, a, b in (('Ixx', 0, 0), ('Iyy', 1, 1), ('Izz', 2, 2), ('Ixy', 0, 1), ('Ixz', 0, 2), ('Iyz', 1, 2)):
        g = getattr(q, k)
        c.prove('%s about the centre of mass' % k, c.eq(g, J[a][b]) if a == b else c.or_(c.eq(g, J[a][b]), c.and_(c.eq(g, 0), c.le(c.abs(J[a][b]), tiny))))


@contract('C12')
def principal_axes(c):
    """for every inertia tensor, equal moments included"""
    p = c.unit_quat('p')
    R = c.quat_matrix(p)
    kind = c.choice('kind', ['distinct', 'two equal', 'all equal'])
    a = c.positive('a', 0.1, 3)
    b = a if kind != 'distinct' else a + c.positive('ab', 0.1, 3)
    e = b if kind == 'all equal' else b + c.positive('be', 0.1, 3)
    d = c.choice('order', [[a, b, e], [e, b, a], [b, e, a]])
    A = [[sum(R[i][k] * R[j][k] * d[k] for k in range(3)) for j in range(3)] for i in range(3)]
    if c.sym:
        flip = c.choice('det', [1, -1])
        W = c.array([[R[i][k] * (flip if k == 0 else 1) for k in range(3)] for i in range(3)])
        c.stubs['eig'] = c.stubs['eigh'] = lambda B: (c.prove('decomposes the tensor', c.eq(B, c.array(A))), (c.array(d), W.copy()))[1]

        def from_matrix(B):
            c.prove('a proper rotation is converted', c.and_(c.eq(c.mm(B, c.transpose(B)), c.identity(3)), c.eq(c.det3(B), 1)))
            q = c.unit_quat('q%d' % len(made))
            made.append(B)
            return q
        made = []
        c.replace('rainbow.math.quaternion.from_matrix', from_matrix)
    q, I = c.call(M + '__rotate_to_model_space_orientation', properties(c, 1, [0, 0, 0], A))
    Q = made[0] if c.sym else c.quat_matrix(q)
    if not c.sym:
        c.prove('unit quaternion', c.eq(c.dot(q, q), 1))
    c.prove('the frame and the moments give the tensor', [c.eq(sum(Q[i][k] * Q[j][k] * I[k] for k in range(3)), A[i][j]) for i in range(3) for j in range(3)])


@contract('C12')
def body_frame(c):
    """the frame change composes the two steps: [p]_model = q [p]_body + centre"""
    m, r = c.positive('m', 0.1, 3), c.vec('r')
    p = properties(c, m, r, [[c.positive('I%d%d' % (a, b)) for b in range(3)] for a in range(3)])
    mid, q, I = c.fn(M + 'MassProperties')(), c.unit_quat('q'), c.vec('I')
    seen = []
    if c.sym:
        c.replace(M + '__translate_to_body_space_origin', lambda x: (seen.append(x), (-r, mid))[1])
        c.replace(M + '__rotate_to_model_space_orientation', lambda x: (seen.append(x), (q, I))[1])
        o, u, w, J = c.call(M + 'xform_model_2_body_space', p)
        c.prove('the tensor about the centre of mass is diagonalised', [len(seen) == 2, seen[0] is p, seen[1] is mid])
        c.prove('frame, mass and moments', [c.eq(o, r), c.eq(u, q), c.eq(w, m), c.eq(J, I)])
    else:
        o, u, w, J = c.call(M + 'xform_model_2_body_space', p)
        c.prove('frame, mass and moments', [c.eq(o, r), c.eq(w, m), c.eq(c.dot(u, u), 1)])


@contract('C12')
def world_inertia(c):
    R = [[c.real('r%d%d' % (a, b)) for b in range(3)] for a in range(3)]
    d = c.vec('d')
    W = c.call(M + 'update_inertia_tensor', c.array(R), d)
    c.prove('R diag(B) R^T', [c.eq(W[i][j], sum(R[i][k] * R[j][k] * d[k] for k in range(3))) for i in range(3) for j in range(3)])


@contract('C12', bounded='closed meshes of the surface generators, random pose', concrete=25, concrete_only=True)
def solids(c):
    """the integrals of the mesh against a sum over its tetrahedra (cones from an arbitrary point)"""
    import numpy
    G = c.mod('rainbow.geometry.surface_mesh')
    V, T = c.choice('shape', [lambda: G.create_box(1.0, 2.0, 0.5), lambda: G.create_cylinder(0.5, 2.0, 5), lambda: G.create_sphere(1.2, 6, 5), lambda: G.create_cone(1.0, 2.0, 7)])()
    q, t, rho = c.unit_quat('q'), c.vec('t'), c.positive('rho', 0.2, 5)
    V = V @ numpy.asarray(c.quat_matrix(q)).T + t
    p = c.fn(M + 'compute_mass_properties')(V, T, rho)
    o = numpy.array(c.vec('o'))
    vol, first, S = 0, numpy.zeros(3), numpy.zeros((3, 3))
    for i, j, k in T:
        v, f, s = tet_integrals(c, [o, V[i], V[j], V[k]])
        vol, first, S = vol + v, first + f, S + numpy.array(s)
    I = rho * (numpy.trace(S) * numpy.eye(3) - S)
    c.prove('mass and centre', [c.eq(p.mass, rho * vol), c.eq(c.array([p.x, p.y, p.z]) * vol, first)])
    c.prove('inertia tensor', c.close(c.array([[p.Ixx, p.Ixy, p.Ixz], [p.Ixy, p.Iyy, p.Iyz], [p.Ixz, p.Iyz, p.Izz]]), I, 1e-8))
    r, u, m, J = c.fn(M + 'xform_model_2_body_space')(p)
    U = numpy.asarray(c.fn('rainbow.math.quaternion.to_matrix')(u))
    L = U @ numpy.diag(J) @ U.T + m * (numpy.dot(r, r) * numpy.eye(3) - numpy.outer(r, r))
    c.prove('body frame describes the same inertia', c.close(L, I, 1e-7))
