"""C28: the functions of the mathematics and geometry libraries leave their arguments alone and return new storage"""
from pv.check import contract
M = 'rainbow.math.'
G = 'rainbow.geometry.'
Q, V3, M3, XM, CS, FN, EU, PO, AN = [M + x + '.' for x in ('quaternion', 'vector3', 'matrix3', 'expmap', 'coordsys', 'functions', 'euler', 'polynomial', 'angle')]
BC, TE, GR = [G + x + '.' for x in ('barycentric', 'tetrahedron', 'grid3')]


# ---- arguments -----------------------------------------------------------------------------------------
def v3(c, n):
    return c.vec(n)


def v3_any_size(c, n):
    """also tiny and zero vectors: every branch of the function"""
    return c.vec(n) if c.sym else c.vec(n) * c.choice('size ' + n, [1.0, 1e-9, 0.0, 20.0])


def unit3(c, n):
    return c.unit_vec(n) + 0


def uq(c, n):
    return c.unit_quat(n) + 0 if c.sym or not c.boolean('identity ' + n) else c.array([1, 0, 0, 0])


def uq_near(c, n):
    if not c.sym and c.boolean('near'):
        return (c.unit_quat('a') + 0) * c.choice('sign', [1.0, -1.0])
    return uq(c, n)


def q4(c, n):
    return c.vec(n, 4)


def m3(c, n):
    return c.mat(n) + 0


def real(c, n):
    return c.real(n)


def regular(c, n):
    A = c.mat(n) + 0
    d = c.det3(A)
    c.requires(c.or_(d > c.const('0.01'), d < -c.const('0.01')))
    return A


def rotation(c, n):
    return c.array([list(r) for r in c.quat_matrix(c.unit_quat(n))])


def frame(c, n):
    X = c.fn(CS + 'CoordSys')()
    X.r, X.q = c.vec('r' + n), c.unit_quat('q' + n) + 0
    return X


def rows3(c, n):
    return c.rows(n, 3)


def rows4(c, n):
    return c.rows(n, 4)


def weight(c, n):
    return c.real(n, 0, 1)


def cell(c, n):
    return c.integer(n, 0, 2, bounded=True)


def count(c, n):
    return c.choice(n, [2, 3, 5])


def axis(c, n):
    return c.choice(n, [0, 1, 2])


def poly(c, n):
    p = c.fn(PO + 'Poly')(2, c.choice('order', [1, 0] if c.sym else [1, 2, 0, 3]))
    p.coefficients = c.vec('a', len(p.powers))
    return p


def low(c):
    lo = c.vec('lo', 3, -1, 0)
    c.requires([x <= 1 for x in lo])
    return lo


def grid(c, n):
    g = c.fn(GR + 'Grid')(low(c), c.array([2, 3, 4]), 3, 4, 3)
    g.values = c.vec('values', 36, -1, 1)
    return g


def point(c, n):
    """inside the box of the grid"""
    p = c.vec(n, 3, 0, 2)
    lo = low(c)
    if c.sym:
        c.requires([c.and_(lo[i] < p[i], p[i] < 2 + i) for i in range(3)])
    return p


def word(c, n):
    return c.choice(n, ['ones', 'zero', 'i', '[1,2,3]', 'k'])


def qword(c, n):
    return c.choice(n, ['identity', '[1,0,0,0]', 'rx:1.5', 'ru:1.5:[0,0,1]'])


def proper(c, x):
    d = c.dot(x[3] - x[0], c.cross(x[1] - x[0], x[2] - x[0]))
    c.requires(d > c.const('0.05'))


def edge(c, x):
    c.requires(c.dot(x[1] - x[0], x[1] - x[0]) > c.const('0.01'))


def face(c, x):
    n = c.cross(x[1] - x[0], x[2] - x[0])
    c.requires(c.dot(n, n) > c.const('0.01'))


def not_zero(c, x):
    c.requires(c.dot(x[0], x[0]) > c.const('0.01'))


def no_column(c, x):
    pass


FUNCTIONS = [
    (V3 + 'zero',), (V3 + 'ones',), (V3 + 'i',), (V3 + 'j',), (V3 + 'k',), (V3 + 'make', real, real, real), (V3 + 'make_vec4', real, real, real, real),
    (V3 + 'make_orthonormal_vectors', unit3), (V3 + 'cross', v3, v3), (V3 + 'unit', v3, not_zero), (V3 + 'norm', v3), (V3 + 'max_abs_component', v3),
    (V3 + 'less', v3, v3), (V3 + 'greather', v3, v3), (V3 + 'less_than_equal', v3, v3), (V3 + 'greather_than_equal', v3, v3), (V3 + 'from_string', word),
    (Q + 'make', real, real, real, real), (Q + 'from_array', q4), (Q + 'from_vector3', v3), (Q + 'identity',), (Q + 'unit', q4, not_zero), (Q + 'Ru', real, unit3), (Q + 'Rx', real),
    (Q + 'Ry', real), (Q + 'Rz', real), (Q + 'to_matrix', uq), (Q + 'from_matrix', rotation), (Q + 'conjugate', q4), (Q + 'prod', q4, q4), (Q + 'rotate', uq, v3),
    (Q + 'prod_array', uq, rows4), (Q + 'prod_array', rows4, uq), (Q + 'rotate_array', uq, rows3), (Q + 'to_angle_axis', uq), (Q + 'to_angle', uq, unit3), (Q + 'lerp', q4, q4, weight),
    (Q + 'slerp', uq, uq_near, weight), (Q + 'hat', q4), (Q + 'from_string', qword),
    (M3 + 'identity',), (M3 + 'diag_from_array', v3), (M3 + 'diag', real, real, real), (M3 + 'zero',), (M3 + 'ones',), (M3 + 'make',) + (real,) * 9,
    (M3 + 'make_from_rows', v3, v3, v3), (M3 + 'make_from_cols', v3, v3, v3), (M3 + 'star', v3), (M3 + 'ortonormalize', regular), (M3 + 'Ru', real, unit3), (M3 + 'Rx', real),
    (M3 + 'Ry', real), (M3 + 'Rz', real), (M3 + 'polar_decomposition', regular), (M3 + 'polar_decomposition_array', regular),
    (XM + 'reparameterization', v3_any_size), (XM + 'exp', v3_any_size), (XM + 'log', uq), (XM + 'to_quaternion', v3_any_size), (XM + 'to_expmap', uq),
    (XM + 'to_matrix', v3_any_size), (XM + 'dvdt', v3, v3_any_size), (XM + 'dQdv_i', v3_any_size, axis), (XM + 'dRdv_i', v3_any_size, axis),
    (CS + 'CoordSys',), (CS + 'make', v3, uq), (CS + 'xform_point', frame, v3), (CS + 'xform_vector', frame, v3), (CS + 'xform_matrix', frame, m3), (CS + 'concat', frame, frame), (CS + 'inverse', frame),
    (CS + 'make_coordsys_from_to', frame, frame),
    (FN + 'sinc', real), (FN + 'PCA', m3), (FN + 'direction_of_most_variance', m3), (AN + 'radians_to_degrees', v3), (AN + 'degrees_to_radians', v3),
    (EU + 'make_euler_xyz_from_matrix', rotation), (EU + 'make_euler_xyz_from_quaternion', uq),
    (PO + 'evaluate', poly, lambda c, n: c.vec(n, 2)), (PO + 'derivative', poly), (PO + 'to_str', poly),
    (BC + 'compute_barycentric_edge', v3, v3, v3, edge), (BC + 'compute_barycentric_triangle', v3, v3, v3, v3, face), (BC + 'compute_barycentric_tetrahedron', v3, v3, v3, v3, v3, proper),
    (BC + 'compute_barycentric_derivatives_tetrahedron', v3, v3, v3, v3, proper),
    (BC + 'is_inside_edge', weight, weight), (BC + 'is_inside_triangle', weight, weight, weight), (BC + 'is_inside_tetrahedron', weight, weight, weight, weight),
    (TE + 'compute_signed_volume', v3, v3, v3, v3), (TE + 'is_left_orientation', v3, v3, v3, v3), (TE + 'compute_circumscribed_sphere', v3, v3, v3, v3, proper),
    (TE + 'compute_inscribed_sphere', v3, v3, v3, v3, proper), (TE + 'generate_sample_points', count), (TE + 'generate_interior_sample_points', count),
    (GR + 'Grid', lambda c, n: c.vec(n, 3, -1, 0), lambda c, n: c.vec(n, 3, 1, 2), lambda c, n: 3, lambda c, n: 2, lambda c, n: 4, lambda c, x: c.requires([c.le(a, b) for a, b in zip(x[0], x[1])])),
    (GR + 'get_value', grid, point), (GR + 'get_gradient', grid, point), (GR + 'is_inside', grid, v3), (GR + 'get_nodes_array', grid),
    (GR + 'Grid.get_node_coord', grid, cell, cell, cell), (GR + 'Grid.get_node_value', grid, cell, cell, cell), (GR + 'Grid.get_linear_index', grid, cell, cell, cell),
    (GR + 'Grid.is_valid_node_index', grid, cell, cell, cell), (GR + 'Grid.get_enclosing_cell_idx', grid, point),
]


# the frame constructor keeps the arrays it is given; a short rotation vector is returned as it is
SHARE = {CS + 'make', XM + 'reparameterization'}


def storage(x, out, depth=0):
    """the arrays reachable from a value"""
    import numpy
    if hasattr(x, '__pv_row__'):
        storage(x.rep, out, depth)
    elif isinstance(x, numpy.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            storage(y, out, depth)
    elif isinstance(x, dict):
        for y in x.values():
            storage(y, out, depth)
    elif hasattr(x, '__dict__') and depth < 3 and not isinstance(x, type) and type(x).__module__.startswith('rainbow'):
        storage(vars(x), out, depth + 1)
    return out


def disjoint(xs, ys):
    import numpy
    return [not (a.size and b.size and numpy.shares_memory(a, b)) for a in xs for b in ys]


def make(spec, i):
    f, args = spec[0], list(spec[1:])
    special = [a for a in args if a in (proper, edge, face, not_zero) or getattr(a, '__code__', None) is not None and a.__code__.co_varnames[1:2] == ('x',)]
    makers = [a for a in args if a not in special]

    own = f not in SHARE

    def body(c):
        xs = [a(c, 'abcdefghij'[k]) for k, a in enumerate(makers)]
        for s in special:
            s(c, xs)
        if f.endswith('polar_decomposition_array'):
            xs = [c.array([xs[0].tolist()])]
        if c.sym and 'polar' in f:
            d = c.array([c.positive('d%d' % k) for k in range(3)])
            U = c.mat('U') + 0
            c.stubs['eigh'] = lambda B: (c.array([list(d)]), c.array([U.tolist()])) if f.endswith('array') else (d + 0, U + 0)
        if c.sym and f.startswith(FN):
            w, U = c.vec('w'), c.mat('U')
            c.stubs['eig'] = lambda B: (w + 0, U + 0)
        if c.sym and 'scribed' in f:
            c.solves('lstsq')
        given = []
        for x in xs:
            storage(x, given)
        keep = c.snapshot(*xs)
        g = c.fn(f)
        c.targets.add(f)
        r = g(*xs)
        c.prove('the arguments are as before', c.unchanged(keep))
        out = storage(r, [])
        if own:
            c.prove('the result has its own storage', disjoint(out, given))
        if not own:
            return
        s = g(*xs)
        again = storage(s, [])
        c.prove('results of different calls have their own storage', disjoint(out, again))
        import numpy
        if not c.sym:
            # changing the result changes neither the arguments nor what the function returns next
            first = [a.copy() for a in again]
            for a in out:
                if a.flags.writeable and a.dtype.kind == 'f':
                    a += 1.0
            c.prove('changing the result does not change the arguments', c.unchanged(keep))
            third = storage(g(*xs), [])
            c.prove('nor later results', [len(third) == len(first)] + [numpy.array_equal(a, b, equal_nan=True) for a, b in zip(first, third)])
    body.__doc__ = f
    body.__name__ = f.split('.', 2)[2].replace('.', '_') + ('_right' if args[:2] == [rows4, uq] else '')
    contract('C28', concrete=20, paths=3000)(body)


for i, s in enumerate(FUNCTIONS):
    make(s, i)


@contract('C28', bounded='orders 1 and 2', concrete=40)
def polynomial_interpolate(c):
    """rainbow.math.polynomial.interpolate"""
    n, cols = c.choice('order', [1, 2]), c.choice('columns', [0, 1, 2])
    K = (n + 1) * (n + 2) // 2
    x, v = c.mat('x', K, 2) + 0, c.mat('v', K, max(cols, 1)) + 0
    if not c.sym:
        x = x + c.array([[3 * (p - i), 3 * i] for p in range(n + 1) for i in range(p + 1)])
    else:
        c.mod(PO[:-1]).linalg = type('L', (), {'solve': staticmethod(lambda V, b: c.mat('A', *b.shape) + 0 if cols else c.vec('A', len(b)) + 0)})
    if not cols:
        v = v[:, 0]
    keep = c.snapshot(x, v)
    F = c.fn(PO + 'interpolate')
    c.targets.add(PO + 'interpolate')
    r, s = F(n, x, v), F(n, x, v)
    c.prove('the arguments are as before', c.unchanged(keep))
    c.prove('the result has its own storage', disjoint(storage(r, []), [x, v]) + disjoint(storage(r, []), storage(s, [])))
    H = c.fn(PO + 'Helpers.make_vandermonde_matrix')
    V = H(n, x)
    c.targets.add(PO + 'Helpers.make_vandermonde_matrix')
    c.prove('the matrix too', [c.unchanged(keep)] + disjoint([V], [x, v]) + disjoint([V], [H(n, x)]))


@contract('C28', concrete=10)
def grid3_create_signed_distance(c):
    """rainbow.geometry.grid3.create_signed_distance (igl.signed_distance under its contract: new arrays)"""
    V, F = c.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]) * c.positive('size', 0.5, 2), c.np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
    if c.sym:
        F = __import__('numpy').array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
        c.stubs['igl.signed_distance'] = lambda P, V, F: (c.vec('phi', len(P)) + 0, None, None)
    keep = c.snapshot(V, F)
    f = c.fn(GR + 'create_signed_distance')
    c.targets.add(GR + 'create_signed_distance')
    b = c.choice('boundary', [0.5, 0])
    r, s = f(V, F, 3, 2, 2, b), f(V, F, 3, 2, 2, b)
    c.prove('the arguments are as before', c.unchanged(keep))
    c.prove('the result has its own storage', disjoint(storage(r, []), [V, F]) + disjoint(storage(r, []), storage(s, [])))


@contract('C28', concrete=10)
def grid3_eval_on_grid(c):
    """rainbow.geometry.grid3.eval_on_grid: only the values of the grid are set"""
    g = c.fn(GR + 'Grid')(low(c), c.array([2, 3, 4]), 2, 3, 2)
    keep = c.snapshot(g.min_coord, g.max_coord, g.spacing)
    seen = []

    def f(p):
        c.prove('points have their own storage', disjoint([p], [g.min_coord, g.max_coord, g.spacing]))
        seen.append(p)
        return p[0]
    c.fn(GR + 'eval_on_grid')(g, f)
    c.targets.add(GR + 'eval_on_grid')
    c.prove('the box is as before', c.unchanged(keep))
