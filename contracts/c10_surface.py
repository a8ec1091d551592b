"""C10: surface meshes (rainbow/geometry/surface_mesh.py)"""
from pv.check import contract
S = 'rainbow.geometry.surface_mesh.'
Q = 'rainbow.math.quaternion.'
SLICES = 'slice and segment counts up to 6 (dimensions unbounded)'


def ints(T):
    return [tuple(int(i) for i in t) for t in T]


def closed(c, T, n, what='closed'):
    """every directed edge occurs once and its reverse occurs once; indices are valid; every vertex is used"""
    T = ints(T)
    c.prove('valid vertex indices', all(0 <= i < n for t in T for i in t))
    c.prove('every vertex is used', len({i for t in T for i in t}) == n)
    E = [(t[q], t[(q + 1) % 3]) for t in T for q in range(3)]
    c.prove(what + ': every edge is shared by exactly two oppositely directed triangles',
            [len(set(E)) == len(E)] + [(b, a) in set(E) for a, b in E])


def volume6(c, V, T):
    s = 0
    for i, j, k in ints(T):
        s = s + c.dot(V[i], c.cross(V[j], V[k]))
    return s


def outward(c, V, T, inside, what='outward'):
    for n, (i, j, k) in enumerate(ints(T)):
        c.prove('%s: triangle %d' % (what, n), c.dot(V[i] - inside, c.cross(V[j] - V[i], V[k] - V[i])) > 0)


def slice_sin(c, J):
    """sin of a slice angle"""
    return c.sin(2 * c.pi / J)


@contract('C10', bounded=SLICES, budget=200)
def sweep(c):
    """profile with arbitrary radii and heights: rotated copies, closed, and the volume of the swept prism rings"""
    J = c.choice('J', [3, 4, 6])
    N = c.choice('N', [3, 4, 5])
    r = [0] + [c.positive('r%d' % i, 0.1, 2) for i in range(N - 2)] + [0]
    y = [c.real('y%d' % i) for i in range(N)]
    prof = [c.array([r[i], y[i], 0]) for i in range(N)]
    V, T = c.call(S + 'profile_sweep', prof, J)
    c.prove('number of vertices', len(V) == (N - 2) * J + 2)
    closed(c, T, len(V))
    rows = {}
    for j in range(J):
        th = 2 * c.pi * j / J
        for i in range(1, N - 1):
            p = c.array([c.cos(th) * r[i], y[i], -c.sin(th) * r[i]])
            c.prove('profile point %d in slice %d' % (i, j), c.eq(V[j * (N - 2) + i - 1], p))
    c.prove('the two poles', [c.eq(V[-1], prof[0]), c.eq(V[-2], prof[-1])])
    want = 0
    for i in range(N - 1):
        want = want + (y[i + 1] - y[i]) * (r[i] * r[i] + r[i] * r[i + 1] + r[i + 1] * r[i + 1])
    c.prove('encloses the swept volume, outward for a rising profile', c.eq(volume6(c, V, T), want * J * slice_sin(c, J)))


@contract('C10')
def sweep_rejects(c):
    c.expect_raise('too short a profile', lambda: c.fn(S + 'profile_sweep')([c.vec('a'), c.vec('b')], 5))
    c.expect_raise('too few slices', lambda: c.fn(S + 'profile_sweep')([c.vec('a'), c.vec('b'), c.vec('d')], 2))


@contract('C10', bounded=SLICES, budget=100)
def cylinder(c):
    J, n = c.choice('J', [3, 4, 6]), c.choice('n', [1, 2, 3])
    r, h = c.positive('r', 0.1, 2), c.positive('h', 0.1, 2)
    V, T = c.call(S + 'create_cylinder', r, h, J, n)
    closed(c, T, len(V))
    c.prove('volume of the inscribed prism', c.eq(volume6(c, V, T), 3 * r * r * h * J * slice_sin(c, J)))
    c.prove('on the cylinder or the cap centres', [c.or_(c.eq(v[0] * v[0] + v[2] * v[2], r * r), c.and_(c.eq(v[0], 0), c.eq(v[2], 0), c.eq(v[1] * v[1] * 4, h * h))) for v in V])
    c.prove('between the caps', [c.and_(c.le(-h, 2 * v[1]), c.le(2 * v[1], h)) for v in V])


@contract('C10', bounded=SLICES)
def cone(c):
    J = c.choice('J', [3, 4, 6])
    r, h = c.positive('r', 0.1, 2), c.positive('h', 0.1, 2)
    V, T = c.call(S + 'create_cone', r, h, J)
    closed(c, T, len(V))
    c.prove('volume of the inscribed pyramid', c.eq(volume6(c, V, T), r * r * h * J * slice_sin(c, J)))
    outward(c, V, T, c.array([0, h / 4, 0]))


@contract('C10', bounded=SLICES)
def conical(c):
    J = c.choice('J', [3, 4, 6])
    a, b, h = c.positive('a', 0.1, 2), c.positive('b', 0.1, 2), c.positive('h', 0.1, 2)
    V, T = c.call(S + 'create_conical', a, b, h, J)
    closed(c, T, len(V))
    c.prove('volume of the inscribed frustum', c.eq(volume6(c, V, T), (a * a + a * b + b * b) * h * J * slice_sin(c, J)))


@contract('C10', bounded=SLICES, budget=100)
def sphere(c):
    J, n = c.choice('J', [3, 4, 6]), c.choice('n', [3, 4, 5])
    r = c.positive('r', 0.1, 2)
    V, T = c.call(S + 'create_sphere', r, J, n)
    closed(c, T, len(V))
    c.prove('on the sphere', [c.eq(c.dot(v, v), r * r) for v in V])
    d = c.pi / (n - 1)
    R, Y = [r * c.sin(d * i) for i in range(n)], [-r * c.cos(d * i) for i in range(n)]
    want = 0
    for i in range(n - 1):
        want = want + (Y[i + 1] - Y[i]) * (R[i] * R[i] + R[i] * R[i + 1] + R[i + 1] * R[i + 1])
    c.prove('volume of the inscribed rings', c.eq(volume6(c, V, T), want * J * slice_sin(c, J)))


@contract('C10', bounded=SLICES, budget=100)
def ellipsoid(c):
    J, n = c.choice('J', [3, 4]), c.choice('n', [3, 4])
    s = [c.positive(x, 0.2, 2) for x in 'abc']
    V, T = c.call(S + 'create_ellipsoid', *s, J, n)
    closed(c, T, len(V))
    c.prove('on the ellipsoid', [c.eq(sum((v[q] / s[q]) * (v[q] / s[q]) for q in range(3)), 1) for v in V])
    W, U = c.fn(S + 'create_sphere')(c.const('1'), J, n)
    c.prove('volume scales with the half axes', c.eq(volume6(c, V, T), volume6(c, W, U) * s[0] * s[1] * s[2]))


@contract('C10', bounded=SLICES, budget=100)
def capsule(c):
    J, n = c.choice('J', [3, 4, 6]), c.choice('n', [4, 5])
    r, h = c.positive('r', 0.1, 2), c.positive('h', 0.1, 2)
    V, T = c.call(S + 'create_capsule', r, h, J, n)
    closed(c, T, len(V))
    d = c.pi / (n - 1)
    for v in V:
        lo, hi = c.array([0, -h / 2, 0]), c.array([0, h / 2, 0])
        c.prove('on the capsule', c.or_(c.eq(c.dot(v - lo, v - lo), r * r), c.eq(c.dot(v - hi, v - hi), r * r)))
        c.prove('not inside the caps', c.or_(c.eq(v[0] * v[0] + v[2] * v[2], r * r), c.lt(h * h, 4 * v[1] * v[1])))
    up = [(r * c.sin(d * i), -r * c.cos(d * i) + (-h / 2 if 2 * i < n else h / 2)) for i in range(n)]
    want = 0
    for (a, p), (b, q) in zip(up, up[1:]):
        want = want + (q - p) * (a * a + a * b + b * b)
    c.prove('volume', c.eq(volume6(c, V, T), want * J * slice_sin(c, J)))


@contract('C10')
def box(c):
    w, h, d = [c.positive(x, 0.1, 2) for x in 'whd']
    V, T = c.call(S + 'create_box', w, h, d)
    closed(c, T, 8)
    outward(c, V, T, c.array([0, 0, 0]))
    c.prove('volume', c.eq(volume6(c, V, T), 6 * w * h * d))
    c.prove('corners', [c.and_(c.eq(v[0] * v[0] * 4, w * w), c.eq(v[1] * v[1] * 4, h * h), c.eq(v[2] * v[2] * 4, d * d)) for v in V])


@contract('C10')
def cuboid(c):
    """any affine box with the documented corner order"""
    o, a, b, e = [c.vec(x) for x in 'oabe']
    D = c.dot(a, c.cross(b, e))
    c.requires(D > c.const('0.01'))
    P = [o + e, o + a + e, o + a + b + e, o + b + e, o, o + a, o + a + b, o + b]
    V, T = c.call(S + 'create_cuboid', *P)
    closed(c, T, 8)
    c.prove('corners are kept', [c.eq(V[i], P[i]) for i in range(8)])
    outward(c, V, T, o + (a + b + e) / 2)
    c.prove('volume', c.eq(volume6(c, V, T), 6 * D))


@contract('C10', bounded=SLICES, budget=100)
def torus(c):
    I, K = c.choice('I', [3, 4]), c.choice('K', [3, 4, 6])
    R, r = c.positive('R', 1, 2), c.positive('r', 0.1, 0.9)
    c.requires(r < R)
    V, T = c.call(S + 'create_torus', R, r, I, K)
    c.prove('number of vertices', len(V) == I * K)
    closed(c, T, len(V))
    for v in V:
        m = v[0] * v[0] + v[1] * v[1]
        t = m + v[2] * v[2] + R * R - r * r
        c.prove('on the torus', c.eq(t * t, 4 * R * R * m))
    # Pappus with polygons: area of the minor polygon, chord polygon of the major circle (exact for the swept polygon)
    a = [(R + r * c.cos(2 * c.pi * i / I), r * c.sin(2 * c.pi * i / I)) for i in range(I)]
    want = 0
    for i in range(I):
        (x0, z0), (x1, z1) = a[i], a[(i + 1) % I]
        want = want + (z1 - z0) * (x0 * x0 + x0 * x1 + x1 * x1)
    c.prove('volume, outward', c.eq(volume6(c, V, T), want * K * slice_sin(c, K)))


# ---- transformations ------------------------------------------------------------------------------------
def mesh(c, n, T=()):
    X = [c.vec('x%d' % i) for i in range(n)]
    m = c.fn(S + 'Mesh')(c.array([list(x) for x in X]), c.np.array(T, dtype=int) if T else c.np.zeros((0, 3), dtype=int))
    return m, X


@contract('C10', rows=True)
def translate_rotate(c):
    X = c.rows('X', 3)
    m = c.fn(S + 'Mesh')(X, [])
    t, q = c.vec('t'), c.unit_quat('q')
    r = c.call(S + 'translate', m, t, mutates=(0,))
    c.prove('same mesh object', r is m)
    for i in c.each_row(X):
        c.prove('translated', c.eq(m.V[i], X[i] + t))
    m = c.fn(S + 'Mesh')(X, [])
    r = c.call(S + 'rotate', m, q, mutates=(0,))
    for i in c.each_row(X):
        c.prove('rotated', c.eq(m.V[i], c.mv(c.quat_matrix(q), X[i])))


@contract('C10', loops=True)
def scale(c):
    n = c.size('n', 1, 3)
    X = c.table('X', n, 3)
    i = c.index('i', n)
    m = c.fn(S + 'Mesh')(X, [])
    s = [c.real(x) for x in 'abc']
    if c.unbounded_sizes:
        W = c.table('W', n, 3)
        c.invariant(S + 'scale', 1, lambda e, k: c.eq(e.mesh.V[i], [X[i][q] * s[q] for q in range(3)] if i < k else X[i]),
                    lambda e, k: (e.mesh.V.assign(c.table('W', n, 3)), c.requires(c.eq(e.mesh.V[k], X[k])), None)[2], modifies=('mesh',))
    r = c.call(S + 'scale', m, *s, mutates=(0,))
    c.prove('scaled', c.eq(m.V[i], [X[i][q] * s[q] for q in range(3)]))


@contract('C10', loops=True, ite=True)
def axis_aligned_box(c):
    n = c.size('n', 1, 3)
    X = c.table('X', n, 3)
    m = c.fn(S + 'Mesh')(X, [])
    i = c.index('i', n)
    l, u = c.call(S + 'aabb', m)
    c.instantiate(i)
    c.prove('bounds every vertex', [c.and_(c.le(l[a], X[i][a]), c.le(X[i][a], u[a])) for a in range(3)])
    c.prove('tight', [c.and_(c.exists(lambda w: c.eq(l[a], X[w][a]), n), c.exists(lambda w: c.eq(u[a], X[w][a]), n)) for a in range(3)])


@contract('C10', loops=True, ite=True)
def scale_to_unit(c):
    """aabb and scale by their contracts"""
    n = c.size('n', 2, 4)
    X = c.table('X', n, 3)
    m = c.fn(S + 'Mesh')(X, [])
    i, j = c.index('i', n), c.index('j', n)
    l, u = c.vec('l'), c.vec('u')
    if c.sym:
        c.replace(S + 'aabb', lambda x: (l, u))
        c.replace(S + 'scale', lambda x, a, b, e: setattr(x, 'V', x.V * c.array([a, b, e])))
    else:
        l, u = c.fn(S + 'aabb')(m)
    c.requires(c.and_(*[c.le(l[a], X[k][a]) for a in range(3) for k in (i, j)], *[c.le(X[k][a], u[a]) for a in range(3) for k in (i, j)]))
    d = [u[a] - l[a] for a in range(3)]
    c.requires(c.or_(*[d[a] > c.const('0.01') for a in range(3)]))
    s = c.call(S + 'scale_to_unit', m, mutates=(0,))
    big = [c.and_(*[d[a] >= d[b] for b in range(3)]) for a in range(3)]
    for a in range(3):
        if big[a]:
            for k in range(3):
                c.prove('the largest extent becomes one, same centre', c.eq((m.V[i][k] * 2 - l[k] - u[k]) * d[a], X[i][k] * 2 - l[k] - u[k]))
                c.prove('inside the unit box around the centre', [c.le(m.V[i][k] * 2 - l[k] - u[k], 1), c.le(-1, m.V[i][k] * 2 - l[k] - u[k])])
            break


@contract('C10', bounded='meshes of 4 vertices and 3 triangles')
def axis_sort(c):
    small_axis_sort(c)


def small_axis_sort(c):
    T = [[0, 1, 2], [3, 2, 1], [0, 2, 3]]
    m, X = mesh(c, 4, T)
    a = c.vec('axis')
    c.requires(c.dot(a, a) > c.const('0.01'))
    c.call(S + 'axis_sort', m, a, mutates=(0,))
    N, P = ints(m.T), m.V
    d = [c.dot(P[i], a) for i in range(4)]
    c.prove('vertices sorted along the axis', [c.le(d[i], d[i + 1]) for i in range(3)])
    c.prove('triangles sorted by mean index', [sum(N[i]) <= sum(N[i + 1]) for i in range(2)])
    # the same triangles: some renumbering of the triangles maps corner positions exactly
    import itertools
    c.prove('the same triangles', c.or_(*[c.and_(*[c.eq(P[N[p[t]][v]], X[T[t][v]]) for t in range(3) for v in range(3)]) for p in itertools.permutations(range(3))]))


class Sorting:
    """contract of sorted(range(n), key=...): a permutation of 0..n-1 (place: its inverse) along which the keys do not decrease;
    sorting by a permutation gives its inverse"""
    def __init__(self, c):
        self.c, self.made = c, []

    def __call__(self, xs, key=None, reverse=False):
        from pv import terms
        c = self.c
        if key is None or reverse or not hasattr(xs, 'count') or isinstance(xs, (list, tuple)):
            return sorted(xs, key=key, reverse=reverse)
        n = xs.count()
        probe = c.fresh_int('probe')
        c.requires(c.and_(0 <= probe, probe < n))
        for o in self.made:
            if terms.node_of(key(probe)) is terms.node_of(o['p'].at(probe)[0]):
                r = dict(p=o['q'], q=o['p'], key=None)
                self.made.append(r)
                return r['p']
        m = len(self.made)
        r = dict(p=c.table('perm%d' % m, n, (), integer=True, within=(0, n)), q=c.table('place%d' % m, n, (), integer=True, within=(0, n)), key=key, n=n)
        self.made.append(r)
        return r['p']

    def inverse(self, o, i):
        """instances of: p and q are inverse to each other on 0..n-1"""
        c = self.c
        p, q = o['p'], o['q']
        c.requires([c.eq(q.at(p.at(i)[0])[0], i), c.eq(p.at(q.at(i)[0])[0], i)])

    def ordered(self, o, i, j):
        """instance of: the keys do not decrease (i <= j)"""
        c = self.c
        c.requires(o['key'](o['p'].at(i)[0]) <= o['key'](o['p'].at(j)[0]))


@contract('C10', loops=True)
def axis_sort_any(c):
    """any mesh and axis"""
    if not c.unbounded_sizes:
        return small_axis_sort(c)
    F = S + 'axis_sort'
    nv, nt = c.size('nv', 1), c.size('nt', 1)
    X, T0 = c.table('X', nv, 3), c.table('T', nt, 3, integer=True, within=(0, nv))
    m = c.fn(S + 'Mesh')(X.copy(), T0.copy())
    a = c.vec('axis')
    c.requires(c.dot(a, a) > c.const('0.01'))
    so = Sorting(c)
    c.mod(S[:-1]).sorted = so
    i0, t0 = c.index('i0', nv), c.index('t0', nt)
    T1, D = c.table('T1', nt, 3, integer=True, within=(0, nv)), c.table('d', nv)
    along = lambda i: c.dot(X.at(i)[0], a)
    l = c.norm(a)

    def made(q):
        if len(so.made) <= q:
            from pv.terms import Unsupported
            raise Unsupported('sorting in another way')
        return so.made[q]
    old2new = lambda v: made(1)['p'].at(v)[0]
    c.invariant(F, 1, lambda e, k: [c.eq(e.d[i0] * l, along(i0)) if i0 < k else True], lambda e, k: e.d.assign(D), modifies=('d',))

    def havoc(e, k):
        e.mesh.T.assign(T1)
        if k < nt:
            c.requires(c.eq(T1[k], T0[k]))                       # (the invariant for triangle k)

    def inv(e, k):
        return [c.eq(e.mesh.T[t0], c.array([old2new(v) for v in T0[t0]]) if t0 < k else T0[t0])]
    c.invariant(F, 2, inv, havoc, modifies=('mesh',))
    c.call(F, m, a, mutates=(0,))
    one, three = made(0), made(2)
    i, j = c.index('i', nv), c.index('j', nv)
    c.requires(i <= j)
    so.ordered(one, i, j)
    for x in (i, j):
        p = one['p'].at(x)[0]
        c.requires(c.eq(D[p] * l, along(p)))                     # (the first invariant for vertex p)
    c.prove('vertices sorted along the axis', c.le(c.dot(m.V[i], a), c.dot(m.V[j], a)))
    s, t = c.index('s', nt), c.index('t', nt)
    c.requires(s <= t)
    so.ordered(three, s, t)
    c.prove('triangles sorted by mean index', sum(m.T[s][q] for q in range(3)) <= sum(m.T[t][q] for q in range(3)))
    o = three['p'].at(s)[0]
    c.requires(c.eq(T1[o], c.array([old2new(v) for v in T0[o]])))   # (the second invariant for triangle o)
    for v in T0[o]:
        so.inverse(one, v)
    c.prove('triangle s of the result is a triangle of the argument, with the same corner positions (which one: a permutation)',
            [c.eq(m.V[m.T[s][q]], X[T0[o][q]]) for q in range(3)])
    so.inverse(one, i)
    c.prove('the vertices are the same (in another order)', [c.eq(m.V[i], X[one['p'][i]]), c.eq(m.V.N, nv), c.eq(m.T.N, nt)])


@contract('C10', bounded='the result of scipy.spatial.ConvexHull on random points', concrete=30, concrete_only=True)
def convex_hull(c):
    import numpy
    P = numpy.array([list(c.vec('p%d' % i)) for i in range(c.choice('n', [4, 6, 9, 14]))])
    if abs(numpy.linalg.det(P[1:4] - P[0])) < 0.5:
        return
    V, T = c.fn(S + 'create_convex_hull')(P)
    closed(c, T, len(V))
    inside = V.mean(axis=0)
    vol = 0
    for i, j, k in ints(T):
        n = numpy.cross(V[j] - V[i], V[k] - V[i])
        c.prove('outward', float(numpy.dot(V[i] - inside, n)) > -1e-12)
        c.prove('no point outside', bool(numpy.all((P - V[i]) @ n <= 1e-9)))
        vol += numpy.dot(V[i], numpy.cross(V[j], V[k])) / 6
    from scipy.spatial import ConvexHull
    c.prove('volume', c.eq(vol, ConvexHull(P).volume))


@contract('C10')
def convex_hull_orientation(c):
    """the hull of a tetrahedron, with scipy's facets in either orientation"""
    o, a, b, e = [c.vec(x) for x in 'oabe']
    D = c.dot(a, c.cross(b, e))
    c.requires(D > c.const('0.01'))
    X = [o, o + a, o + b, o + e]
    X = X if c.boolean('positive') else [X[1], X[0], X[2], X[3]]
    if not c.sym:
        import numpy
        V, T = c.fn(S + 'create_convex_hull')(numpy.array([list(x) for x in X]))
    else:
        F = [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]]
        F = [[f[0], f[2], f[1]] if c.boolean('flip%d' % i) else f for i, f in enumerate(F)]
        class Hull:
            def __init__(self, P):
                self.points, self.vertices, self.simplices = P, c.np.array(order, dtype=int), c.np.array(F, dtype=int)
        order = [2, 0, 3, 1]
        c.stubs['ConvexHull'] = Hull
        V, T = c.call(S + 'create_convex_hull', c.array([list(x) for x in X]))
    closed(c, T, 4)
    outward(c, V, T, (X[0] + X[1] + X[2] + X[3]) / 4)


# ---- any number of slices and profile points -----------------------------------------------------------------
def families(c, J, H, i, j):
    """directed edges of a swept surface by the triangle they belong to; a vertex is (slice, ring), or a pole"""
    r = c.ite(c.eq(j + 1, J), 0, j + 1)
    B, U = (-1, 0), (-2, 0)
    ring = [('quad', t) for t in (((j, i), (r, i), (r, i + 1)), ((j, i), (r, i + 1), (j, i + 1)))]
    return r, [('bottom', (B, (r, 0), (j, 0)))] + ring + [('top', (U, (j, H - 1), (r, H - 1)))]


def same_vertex(c, p, q):
    return c.and_(c.eq(p[0], q[0]), c.eq(p[1], q[1]))


@contract('C10')
def sweep_surface_closed(c):
    """lemma for any number of slices and rings: the triangles (of which sweep_any shows that they are the ones stored) are closed: the
    reverse of every edge is an edge of a triangle, and no two triangles have an edge in the same direction"""
    if not c.sym:
        return
    J, H = c.integer('J', 3, 9, bounded=False), c.integer('H', 1, 9, bounded=False)
    i, j, a, b = [c.integer(x, 0, 9, bounded=False) for x in 'ijab']
    c.requires([J >= 3, H >= 1, 0 <= j, j < J, 0 <= b, b < J, 0 <= i, 0 <= a])
    r, F = families(c, J, H, i, j)
    left = c.ite(c.eq(j, 0), J - 1, j - 1)

    def domain(kind, i):
        return i + 1 < H if kind == 'quad' else True
    E = [(k, n, e, t[e], t[(e + 1) % 3]) for n, (k, t) in enumerate(F) for e in range(3)]
    _, G = families(c, J, H, a, b)
    E2 = [(k, n, e, t[e], t[(e + 1) % 3]) for n, (k, t) in enumerate(G) for e in range(3)]
    for k, n, e, p, q in E:
        for k2, n2, e2, p2, q2 in E2:
            if (n2, e2) < (n, e):
                continue
            same = c.and_(same_vertex(c, p, p2), same_vertex(c, q, q2), domain(k, i), domain(k2, a))
            if (n, e) == (n2, e2):
                here = c.eq(b, j) if k != 'quad' else c.and_(c.eq(b, j), c.eq(a, i))
                c.prove('each directed edge once: edge %d of triangle %d' % (e, n), c.implies(same, here))
            else:
                c.prove('each directed edge once: edges %d of %d, %d of %d' % (e, n, e2, n2), c.not_(same))
    # the partner of each edge: the triangle it is in, as a function of the ring and the slice
    for k, n, e, p, q in E:
        opts = []
        for di in (-1, 0, 1, 'bottom', 'top'):
            for jj in (j, r, left):
                if isinstance(di, str):
                    ii, kinds = 0, (di,)
                else:
                    ii, kinds = i + di, ('quad',)
                if k in ('bottom',) and di == 0:
                    ii = 0
                if k == 'top' and di == -1:
                    ii = H - 2
                _, P = families(c, J, H, ii, jj)
                for k2, t in P:
                    if k2 not in kinds:
                        continue
                    for e2 in range(3):
                        opts.append(c.and_(same_vertex(c, t[e2], q), same_vertex(c, t[(e2 + 1) % 3], p),
                                           *([0 <= ii, ii + 1 < H] if k2 == 'quad' else [])))
        c.prove('the reverse is an edge too: edge %d of triangle %d' % (e, n), c.implies(domain(k, i), c.or_(*opts)))


@contract('C10')
def sweep_slots_distinct(c):
    """different (slice, ring) have different slots, below the slots of the poles"""
    i, j, a, b = [c.integer(x, 0, 4, bounded=False) for x in 'ijab']
    J, H = c.integer('J', 3, 6, bounded=False), c.integer('H', 1, 5, bounded=False)
    c.requires([0 <= i, i < H, 0 <= a, a < H, 0 <= j, 0 <= b, j < J])
    c.lemma('row', c.implies(c.eq(j * H + i, b * H + a), c.eq(j, b)), using=[0 <= i, i < H, 0 <= a, a < H])
    c.prove('same slot, same vertex', c.implies(c.eq(j * H + i, b * H + a), c.and_(c.eq(j, b), c.implies(c.eq(j, b), c.eq(i, a)))))
    c.lemma('slice', (j + 1) * H <= J * H, using=[j + 1 <= J, H >= 1])
    c.prove('below the poles', j * H + i < J * H)


@contract('C10', loops=True, budget=120)
def sweep_any(c):
    """any profile and number of slices: where every vertex and triangle is stored and what it is"""
    F = S + 'profile_sweep'
    N, J = c.size('N', 3, 6), c.size('J', 3, 7)
    P = c.table('P', N, 3)
    c.requires([N >= 3, J >= 3])
    H = N - 2

    def turned(j, p):
        h = c.pi * j / J
        C, Z = c.cos(h), c.sin(h)
        return c.array([(1 - 2 * Z * Z) * p[0] + 2 * Z * C * p[2], p[1], (1 - 2 * Z * Z) * p[2] - 2 * Z * C * p[0]])
    if not c.unbounded_sizes:
        V, T = c.call(F, P, J)
        c.prove('number of vertices', len(V) == H * J + 2)
        closed(c, T, len(V))
        for j in range(J):
            for i in range(H):
                c.prove('profile point %d in slice %d' % (i + 1, j), c.eq(V[j * H + i], turned(j, P[i + 1])))
        c.prove('the two poles', [c.eq(V[-1], P[0]), c.eq(V[-2], P[N - 1])])
        return
    st = {}

    def right(j):
        return (j + 1) % J

    def clear(x):
        def f(e, k):
            if x in 'ji':
                e.V.assign(c.table('V', J * H + 2, 3))
                st['V'] = e.V
            else:
                e.T.assign(c.table('T', 2 * J * H, 3, integer=True))
            st[x] = k
        return f

    def spec(j, p):
        h = (2 * c.pi / J * j) / 2
        C, Z = c.cos(h), c.sin(h)
        return c.array([(1 - 2 * Z * Z) * p[0] + 2 * Z * C * p[2], p[1], (1 - 2 * Z * Z) * p[2] - 2 * Z * C * p[0]])

    def vertex(e, i):
        out = [c.eq(e.v, st['j'] * H + i)]
        for ix, rep in e.V.stores:
            m = st['j'] * H + st['i']
            out += [c.eq(ix, m), c.eq(c.array(rep).reshape(-1), spec(st['j'], P[st['i'] + 1]))]
        return out
    c.invariant(F, 1, lambda e, j: c.eq(e.v, j * H), clear('j'), modifies=('V',))
    c.invariant(F, 2, vertex, clear('i'), modifies=('V',))

    def faces(x, base, tris):
        def inv(e, k):
            out = [c.eq(e.f, base(k))]
            if e.T.stores:
                j = st[x]
                want = tris(j)
                c.prove('triangles per step', len(e.T.stores) == len(want))
                for q, (ix, rep) in enumerate(e.T.stores):
                    c.prove('stored one after the other', c.eq(ix, base(j) + q))
                    c.prove('the triangle of its ring and slice (corners in cyclic order)',
                            c.or_(*[c.eq(c.array(rep).reshape(-1), list(w)) for w in [want[q][s:] + want[q][:s] for s in range(3)]]))
            return out
        return inv
    bottom, top = J * H + 1, J * H
    c.invariant(F, 3, faces('b', lambda j: j, lambda j: [(bottom, right(j) * H, j * H)]), clear('b'), modifies=('T',))
    c.invariant(F, 4, lambda e, i: c.eq(e.f, J + 2 * J * i), clear('m'), modifies=('T',))
    c.invariant(F, 5, faces('s', lambda j: J + 2 * J * st.get('m', 0) + 2 * j,
                            lambda j: [(j * H + st['m'], right(j) * H + st['m'], right(j) * H + st['m'] + 1),
                                       (j * H + st['m'], right(j) * H + st['m'] + 1, j * H + st['m'] + 1)]), clear('s'), modifies=('T',))
    c.invariant(F, 6, faces('t', lambda j: J + 2 * J * (H - 1) + j, lambda j: [(top, j * H + H - 1, right(j) * H + H - 1)]),
                clear('t'), modifies=('T',))
    V, T = c.call(F, P, J)
    c.prove('number of vertices and triangles', [c.eq(V.N, J * H + 2), c.eq(T.N, 2 * J * H)])
    c.prove('the poles', [c.eq(V.at(top).reshape(-1), P[N - 1].reshape(-1)), c.eq(V.at(bottom).reshape(-1), P[0].reshape(-1))])


@contract('C10')
def sweep_volume(c):
    """any ring and slice: the cone from the origin over its triangles; the last terms cancel in the sum over the rings, so the
    surface encloses J sin(2 pi/J)/6 times the sum of (y' - y)(r^2 + r r' + r'^2): positive, hence outward, for a rising profile"""
    u, d = c.real('t', 0, 6), c.real('d', 0.1, 2)
    cl, sl, cd, sd = c.cos(u), c.sin(u), c.cos(d), c.sin(d)
    cr, sr = cl * cd - sl * sd, sl * cd + cl * sd
    a, b = c.positive('r', 0.1, 2), c.positive('R', 0.1, 2)
    x, y = c.real('x'), c.real('y')

    def at(C, Z, r, h):
        return c.array([C * r, h, -Z * r])

    def six(p, q, s):
        return c.dot(p, c.cross(q, s))
    L, M, R, W = at(cl, sl, a, x), at(cr, sr, a, x), at(cr, sr, b, y), at(cl, sl, b, y)
    c.prove('a ring', c.eq(six(L, M, R) + six(L, R, W), sd * ((y - x) * (a * a + a * b + b * b) - (y * b * b - x * a * a))))
    B = c.array([0, x, 0])
    c.prove('the bottom', c.eq(six(B, at(cr, sr, b, y), at(cl, sl, b, y)), sd * ((y - x) * (b * b) - y * (b * b))))
    U = c.array([0, y, 0])
    c.prove('the top', c.eq(six(U, at(cl, sl, a, x), at(cr, sr, a, x)), sd * ((y - x) * (a * a) + x * a * a)))


def swept(c):
    """profile_sweep by its contract (sweep_any): only the profile and the number of slices matter"""
    calls = []
    c.replace(S + 'profile_sweep', lambda p, s: calls.append((p, s)) or ('V', 'T'))
    return calls


def first_slice(c, V, J, want):
    """concrete: the profile seen in the vertices of slice zero and the poles"""
    H = len(want) - 2
    c.prove('number of vertices', len(V) == H * J + 2)
    c.prove('the profile', [c.eq(V[i], want[i + 1]) for i in range(H)] + [c.eq(V[-1], want[0]), c.eq(V[-2], want[-1])])


@contract('C10', loops=True)
def cylinder_profile(c):
    """any number of segments: equal rings of the given radius from the bottom to the top, closed by the two centres"""
    F = S + 'create_cylinder'
    n, J = c.size('n', 1, 4), c.size('J', 3, 6)
    r, h = c.positive('r', 0.1, 2), c.positive('h', 0.1, 2)

    def want(q):
        return [r, h * (q - 1) / n - h / 2, 0]
    ends = [0, -h / 2, 0], [0, h / 2, 0]
    if not c.unbounded_sizes:
        V, T = c.call(F, r, h, J, n)
        closed(c, T, len(V))
        return first_slice(c, V, J, [c.array(ends[0])] + [c.array(want(q)) for q in range(1, n + 2)] + [c.array(ends[1])])
    c.requires(n >= 1)
    calls = swept(c)
    q = c.index('q', n + 3)

    def inv(e, i):
        p = e.profile
        out = [c.eq(p[0], ends[0])]
        if c.and_(q >= 1, q <= i + 1):
            out.append(c.eq(p[q], want(q)))
        return out
    c.invariant(F, 1, inv, lambda e, i: e.profile.forget(lambda k: c.array([c.fresh('p') for _ in range(3)])), modifies=('profile',))
    c.call(F, r, h, J, n)
    (p, s), = calls
    c.prove('number of points and slices', [c.eq(p.N, n + 3), c.eq(s, J)])
    c.prove('ends', [c.eq(p[0], ends[0]), c.eq(p[n + 2], ends[1])])
    if c.and_(q >= 1, q <= n + 1):
        c.prove('rings', c.eq(p[q], want(q)))


@contract('C10', loops=True)
def arc_profile(c):
    """any number of segments: the profile of a sphere or capsule is a half circle of the given radius, from the bottom to the top"""
    capsule = c.boolean('capsule')
    n, J = c.size('n', 3, 6), c.size('J', 3, 6)
    r, h = c.positive('r', 0.1, 2), c.positive('h', 0.1, 2)
    F = S + ('create_capsule' if capsule else 'create_sphere')
    args = (r, h, J, n) if capsule else (r, J, n)

    def want(q):
        C, Z = c.cos(c.pi / (n - 1) * q / 2), c.sin(c.pi / (n - 1) * q / 2)
        up = 0
        if capsule:
            up = -h / 2 if 2 * q < n else h / 2
        return [r * 2 * Z * C, -r * (1 - 2 * Z * Z) + up, 0]
    if not c.unbounded_sizes:
        V, T = c.call(F, *args)
        closed(c, T, len(V))
        return first_slice(c, V, J, [c.array(want(q)) for q in range(n)])
    c.requires(n >= 2)
    calls = swept(c)
    q = c.index('q', n)

    def inv(e, i):
        if q < i:
            return [c.eq(e.profile[q], want(i - 1 if c.phase == 'preserved' and c.eq(q, i - 1) else q))]
        return [True]
    c.invariant(F, 1, inv, lambda e, i: e.profile.forget(lambda k: c.array([c.fresh('p') for _ in range(3)])), modifies=('profile',))
    c.call(F, *args)
    (p, s), = calls
    c.prove('number of points and slices', [c.eq(p.N, n), c.eq(s, J)])
    c.prove('points', c.eq(p[q], want(q)))


@contract('C10', loops=True)
def ellipsoid_vertices(c):
    """any number of vertices: the unit sphere with every coordinate scaled by its half axis, same triangles"""
    F = S + 'create_ellipsoid'
    a = [c.positive(x, 0.1, 2) for x in 'abd']
    n, J = c.size('n', 3, 5), c.size('J', 3, 5)
    if not c.unbounded_sizes:
        V, T = c.call(F, *a, J, n)
        W, U = c.fn(S + 'create_sphere')(1.0 if not c.sym else c.const('1'), J, n)
        c.prove('scaled unit sphere', [c.eq(V, W * c.array(a)), c.eq(T, U)])
        return
    m = c.size('m', 3, 9)
    V, T, calls = c.table('V', m, 3), object(), []
    X = V.copy()
    c.replace(S + 'create_sphere', lambda *x: calls.append(x) or (V, T))
    i = c.index('i', m)
    c.invariant(F, 1, lambda e, k: c.eq(e.V[i], [X[i][q] * a[q] for q in range(3)] if i < k else X[i]),
                lambda e, k: (e.V.assign(c.table('W', m, 3)), c.requires(c.eq(e.V[k], X[k])), None)[2], modifies=('V',))
    R, U = c.call(F, *a, J, n)
    c.prove('unit sphere', [len(calls) == 1] + [c.eq(x, y) for x, y in zip(calls[0], (1, J, n))])
    c.prove('scaled', [c.eq(R[i], [X[i][q] * a[q] for q in range(3)]), U is T])


@contract('C10', loops=True, budget=120)
def torus_any(c):
    """any number of slices and segments: where every vertex and triangle is stored and what it is"""
    F = S + 'create_torus'
    I, K = c.size('I', 3, 6), c.size('K', 3, 6)
    R, r = c.positive('R', 1, 2), c.positive('r', 0.1, 0.9)

    def vertex(i, k):
        t, p = 2 * c.pi * i / I, 2 * c.pi * k / K
        m = R + r * c.cos(t)
        return [m * c.cos(p), m * c.sin(p), r * c.sin(t)]

    def quad(i, k):
        i2, k2 = (i + 1) % I, (k + 1) % K
        a, b, d, e = k * I + i, k2 * I + i, k2 * I + i2, k * I + i2
        return [(a, b, d), (a, d, e)]
    if not c.unbounded_sizes:
        V, T = c.call(F, R, r, I, K)
        closed(c, T, I * K)
        for k in range(K):
            for i in range(I):
                c.prove('vertices', c.eq(V[k * I + i], vertex(i, k)))
        return
    c.requires([I >= 3, K >= 3])
    st = {}

    def clear(x):
        def f(e, k):
            if x in ('vk', 'vi'):
                e.V.assign(c.table('V', I * K, 3))
            else:
                e.T.assign(c.table('T', 2 * I * K, 3, integer=True))
            st[x] = k
        return f

    def made(e, i):
        out = [c.eq(e.n, st['vk'] * I + i)]
        for ix, rep in e.V.stores:
            out += [c.eq(ix, st['vk'] * I + st['vi']), c.eq(c.array(rep).reshape(-1), vertex(st['vi'], st['vk']))]
        return out

    def split(e, i):
        out = [c.eq(e.n, 2 * (st['k'] * I + i))]
        if e.T.stores:
            want = quad(st['i'], st['k'])
            c.prove('two triangles per quad', len(e.T.stores) == 2)
            for q, (ix, rep) in enumerate(e.T.stores):
                c.prove('stored one after the other', c.eq(ix, 2 * (st['k'] * I + st['i']) + q))
                c.prove('the triangle of its ring and slice (corners in cyclic order)',
                        c.or_(*[c.eq(c.array(rep).reshape(-1), list(want[q][s:] + want[q][:s])) for s in range(3)]))
        return out
    c.invariant(F, 1, lambda e, k: c.eq(e.n, k * I), clear('vk'), modifies=('V',))
    c.invariant(F, 2, made, clear('vi'), modifies=('V',))
    c.invariant(F, 3, lambda e, k: c.eq(e.n, 2 * k * I), clear('k'), modifies=('T',))
    c.invariant(F, 4, split, clear('i'), modifies=('T',))
    V, T = c.call(F, R, r, I, K)
    c.prove('number of vertices and triangles', [c.eq(V.N, I * K), c.eq(T.N, 2 * I * K)])


@contract('C10')
def torus_surface_closed(c):
    """lemma for any number of slices and segments: every edge of a quad's triangles is met by exactly one reversed edge"""
    if not c.sym:
        return
    I, K = c.integer('I', 3, 9, bounded=False), c.integer('K', 3, 9, bounded=False)
    i, k, a, b = [c.integer(x, 0, 9, bounded=False) for x in 'ikab']
    c.requires([I >= 3, K >= 3, 0 <= i, i < I, 0 <= a, a < I, 0 <= k, k < K, 0 <= b, b < K])

    def up(x, n):
        return c.ite(c.eq(x + 1, n), 0, x + 1)

    def down(x, n):
        return c.ite(c.eq(x, 0), n - 1, x - 1)

    def edges(i, k):
        A, B, D, E = (i, k), (i, up(k, K)), (up(i, I), up(k, K)), (up(i, I), k)
        return [(t[e], t[(e + 1) % 3]) for t in ((A, B, D), (A, D, E)) for e in range(3)]
    E, G = edges(i, k), edges(a, b)
    for m, (p, q) in enumerate(E):
        for n, (p2, q2) in enumerate(G):
            if n >= m:
                same = c.and_(same_vertex(c, p, p2), same_vertex(c, q, q2))
                c.prove('each directed edge once: %d, %d' % (m, n), c.implies(same, c.and_(c.eq(a, i), c.eq(b, k))) if m == n else c.not_(same))
        opts = [c.and_(same_vertex(c, q, p2), same_vertex(c, p, q2)) for x in (i, up(i, I), down(i, I)) for y in (k, up(k, K), down(k, K)) for p2, q2 in edges(x, y)]
        c.prove('the reverse is an edge too: %d' % m, c.or_(*opts))


@contract('C10')
def torus_volume(c):
    """lemma, as sweep_volume, for a quad of the torus between two slices; the last terms cancel around the minor circle"""
    u, d = c.real('t', 0, 6), c.real('d', 0.1, 2)
    cl, sl, cd, sd = c.cos(u), c.sin(u), c.cos(d), c.sin(d)
    cr, sr = cl * cd - sl * sd, sl * cd + cl * sd
    a, b, x, y = c.positive('r', 0.1, 2), c.positive('R', 0.1, 2), c.real('x'), c.real('y')
    A, B, D, E = [c.array([m * C, m * Z, h]) for m, C, Z, h in ((a, cl, sl, x), (a, cr, sr, x), (b, cr, sr, y), (b, cl, sl, y))]

    def six(p, q, s):
        return c.dot(p, c.cross(q, s))
    c.prove('a quad', c.eq(six(A, B, D) + six(A, D, E), sd * ((y - x) * (a * a + a * b + b * b) - (y * b * b - x * a * a))))
