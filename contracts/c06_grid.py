"""C06: regular grids (rainbow/geometry/grid3.py, mean_curvature.py)"""
from pv.check import contract
G = 'rainbow.geometry.grid3.'


def box(c, n=True):
    """a grid of arbitrary size over an arbitrary box"""
    lo = c.vec('lo', 3, -3, 3)
    d = c.array([c.positive('d%d' % a, 0.2, 3) for a in range(3)])
    if n:
        I, J, K = [c.integer(x, 2, 5, bounded=False) for x in 'IJK']
        c.requires(c.and_(I >= 2, J >= 2, K >= 2))
    else:
        I, J, K = [c.choice(x, [2, 3, 4]) for x in 'IJK']
    N = [I, J, K]
    hi = c.array([lo[a] + d[a] * (N[a] - 1) for a in range(3)])
    g = c.fn(G + 'Grid')(lo, hi, I, J, K)
    return g, lo, d, N


@contract('C06')
def construction(c):
    g, lo, d, N = box(c)
    c.prove('spacing subdivides the box evenly', c.eq(g.spacing, d))
    i, j, k = [c.integer(x, -2, 6, bounded=False) for x in 'ijk']
    c.prove('node position', c.eq(c.call(g.get_node_coord, i, j, k), c.array([lo[0] + i * d[0], lo[1] + j * d[1], lo[2] + k * d[2]])))
    c.prove('first node is the lower corner', c.eq(c.call(g.get_node_coord, 0, 0, 0), g.min_coord))
    c.prove('last node is the upper corner', c.eq(c.call(g.get_node_coord, N[0] - 1, N[1] - 1, N[2] - 1), g.max_coord))
    ok = c.and_(0 <= i, i < N[0], 0 <= j, j < N[1], 0 <= k, k < N[2])
    c.prove('valid node test', c.iff(c.call(g.is_valid_node_index, i, j, k), ok))


@contract('C06')
def construction_rejects(c):
    lo, hi = c.vec('lo'), c.vec('hi')
    N = [c.integer(x, 0, 4, bounded=False) for x in 'IJK']
    bad = c.or_(*[lo[a] > hi[a] for a in range(3)], *[N[a] < 2 for a in range(3)])
    r = c.raises(c.fn(G + 'Grid'), lo, hi, *N)
    c.prove('inverted boxes and degenerate sizes are rejected, others accepted', c.iff(r is not None, bad))


@contract('C06')
def storage_slots(c):
    """slots of two nodes differ unless the nodes are equal, and lie within the storage"""
    g, lo, d, N = box(c)
    a = [c.integer(x, 0, 4, bounded=False) for x in ('a0', 'a1', 'a2')]
    b = [c.integer(x, 0, 4, bounded=False) for x in ('b0', 'b1', 'b2')]
    for q in (a, b):
        for t in range(3):
            c.requires(c.and_(0 <= q[t], q[t] < N[t]))
    s, t = c.call(g.get_linear_index, *a), c.call(g.get_linear_index, *b)
    I, J, K = N
    # division with remainder, twice: s = x + I y with 0 <= x < I determines x and y
    y, z = c.define('y', a[1] + J * a[2]), c.define('z', b[1] + J * b[2])
    c.prove('slot', [c.eq(s, a[0] + I * y), c.eq(t, b[0] + I * z)])
    c.lemma('plane index within range', c.and_(0 <= y, y <= J * K - 1),
            using=[c.eq(y, a[1] + J * a[2]), 0 <= a[1], a[1] < J, 0 <= a[2], a[2] < K])
    c.prove('slot within the storage', c.and_(0 <= s, s <= I * (J * K) - 1))
    c.lemma('plane indices decide nodes', c.or_(c.not_(c.eq(y, z)), c.and_(c.eq(a[1], b[1]), c.eq(a[2], b[2]))),
            using=[c.eq(y, a[1] + J * a[2]), c.eq(z, b[1] + J * b[2]), 0 <= a[1], a[1] < J, 0 <= b[1], b[1] < J])
    c.lemma('slots decide planes', c.or_(c.not_(c.eq(s, t)), c.and_(c.eq(y, z), c.eq(a[0], b[0]))),
            using=[c.eq(s, a[0] + I * y), c.eq(t, b[0] + I * z), 0 <= a[0], a[0] < I, 0 <= b[0], b[0] < I])
    c.prove('equal slots mean equal nodes', c.or_(c.not_(c.eq(s, t)), c.and_(*[c.eq(a[q], b[q]) for q in range(3)])))


@contract('C06')
def cell_lookup(c):
    g, lo, d, N = box(c)
    p = c.vec('p', 3, -6, 12)
    cell = c.call(g.get_enclosing_cell_idx, p)
    for a in range(3):
        x, i = c.define('x%d' % a, (p[a] - lo[a]) / d[a]), cell[a]
        c.lemma('cell position', c.eq(lo[a] + d[a] * x, p[a]))
        c.prove('valid cell %d' % a, [c.le(0, i), c.le(i, N[a] - 2)])
        c.prove('contains the point (%d)' % a, c.or_(x < 0, x >= N[a] - 1, c.and_(c.le(i, x), c.lt(x, i + 1))))
        c.prove('nearest cell below (%d)' % a, c.or_(x >= 0, c.eq(i, 0)))
        c.prove('nearest cell above (%d)' % a, c.or_(x < N[a] - 1, c.eq(i, N[a] - 2)))


def in_cell(c, g, N):
    """the point with local coordinates w in cell (i,j,k); lookup under its contract"""
    cell = [c.integer(x, 0, 0, bounded=False) for x in 'ijk'] if c.sym else [c.integer(x, 0, 3) for x in 'ijk']
    for a in range(3):
        c.requires(c.and_(0 <= cell[a], cell[a] <= N[a] - 2))
    w = c.vec('w', 3, 0, 1)
    c.requires(c.and_(*[c.and_(0 <= w[a], w[a] <= 1) for a in range(3)]))
    if c.sym:
        g.get_enclosing_cell_idx = lambda p: tuple(cell)
    return cell, w


def scalar(c, v):
    return v if c.sym else float(c.np.ravel(v)[0])


def trilinear(w, V):
    s = 0
    for a in (0, 1):
        for b in (0, 1):
            for e in (0, 1):
                s = s + (w[0] if a else 1 - w[0]) * (w[1] if b else 1 - w[1]) * (w[2] if e else 1 - w[2]) * V(a, b, e)
    return s


def grid_values(c, g, N):
    """arbitrary stored values"""
    if c.sym:
        g.values = c.function('values', 1)
    else:
        g.values = c.np.array([c.real('v%d' % n) for n in range(N[0] * N[1] * N[2])])


@contract('C06')
def interpolation(c):
    g, lo, d, N = box(c)
    grid_values(c, g, N)
    cell, w = in_cell(c, g, N)
    p = c.array([lo[a] + (cell[a] + w[a]) * d[a] for a in range(3)])
    I, J, K = N
    V = lambda a, b, e: g.values[(cell[0] + a) + I * ((cell[1] + b) + J * (cell[2] + e))]
    v = c.call(G + 'get_value', g, p)
    c.prove('trilinear interpolation of the eight corners', c.eq(v, trilinear(w, V)))


@contract('C06')
def gradient(c):
    g, lo, d, N = box(c)
    grid_values(c, g, N)
    cell, w = in_cell(c, g, N)
    p = c.array([lo[a] + (cell[a] + w[a]) * d[a] for a in range(3)])
    I, J, K = N
    V = lambda a, b, e: g.values[(cell[0] + a) + I * ((cell[1] + b) + J * (cell[2] + e))]
    q = c.call(G + 'get_gradient', g, p)
    one = c.array([1, 1, 1])
    for a in range(3):
        hi = c.array([1 if t == a else w[t] for t in range(3)])
        lw = c.array([0 if t == a else w[t] for t in range(3)])
        if not c.sym and not (0.001 < w[a] < 0.999 and all(0.001 < x < 0.999 for x in w)):
            continue                 # on a face the neighbouring cell may be looked up
        c.prove('derivative of the trilinear interpolant (%d)' % a, c.eq(q[a] * d[a], trilinear(hi, V) - trilinear(lw, V)))


@contract('C06')
def trilinear_fields(c):
    """sampling a trilinear field and reading it back is exact everywhere in the box, its gradient at the point too"""
    g, lo, d, N = box(c)
    m = c.vec('m', 8)
    F = lambda x, y, z: m[0] + m[1] * x + m[2] * y + m[3] * z + m[4] * x * y + m[5] * x * z + m[6] * y * z + m[7] * x * y * z
    X = lambda i, j, k: (lo[0] + i * d[0], lo[1] + j * d[1], lo[2] + k * d[2])
    cell, w = in_cell(c, g, N)
    if c.sym:
        g.get_node_value = lambda i, j, k: F(*X(i, j, k))       # contract of get_node_value on a sampled field
    else:
        c.fn(G + 'eval_on_grid')(g, lambda x: F(*x))
    p = c.array([lo[a] + (cell[a] + w[a]) * d[a] for a in range(3)])
    c.prove('value', c.eq(scalar(c, c.call(G + 'get_value', g, p)), F(*p)))
    x, y, z = p
    q = c.call(G + 'get_gradient', g, p)
    c.prove('gradient', c.eq(q, c.array([m[1] + m[4] * y + m[5] * z + m[7] * y * z, m[2] + m[4] * x + m[6] * z + m[7] * x * z,
                                         m[3] + m[5] * x + m[6] * y + m[7] * x * y])))


@contract('C06')
def node_access(c):
    g, lo, d, N = box(c)
    grid_values(c, g, N)
    i, j, k = [c.integer(x, 0, 3, bounded=False) for x in 'ijk']
    for a, t in enumerate((i, j, k)):
        c.requires(c.and_(0 <= t, t < N[a]))
    v = c.call(g.get_node_value, i, j, k)
    c.prove('the value stored at the slot of the node', c.eq(v, g.values[c.call(g.get_linear_index, i, j, k)]))


@contract('C06')
def inside(c):
    g, lo, d, N = box(c)
    p, b = c.vec('p', 3, -4, 12), c.real('b', 0, 1)
    c.requires(b >= 0)
    hi = [lo[a] + d[a] * (N[a] - 1) for a in range(3)]
    r = c.call(G + 'is_inside', g, p, b)
    spec = c.and_(*[c.and_(c.le(lo[a] + b, p[a]), c.le(p[a], hi[a] - b)) for a in range(3)])
    if not c.sym and any(abs(p[a] - x) < 1e-6 for a in range(3) for x in (lo[a] + b, hi[a] - b)):
        return
    c.prove('accepts exactly the shrunk box', c.iff(r, spec))


@contract('C06')
def inside_rejects_negative(c):
    g, lo, d, N = box(c)
    p, b = c.vec('p'), c.real('b', -2, -0.1)
    c.requires(b < 0)
    c.expect_raise('negative boundary', lambda: c.call(G + 'is_inside', g, p, b), exc=ValueError)


def node(lo, d, i, j, k, c):
    return c.array([lo[0] + i * d[0], lo[1] + j * d[1], lo[2] + k * d[2]])


def sweep(c, F, array, name, want, N, first=0):
    """loop invariants of a sweep over the nodes: the body stores the wanted value at the slot of its node, and nothing else
    (different nodes have different slots within the storage: storage_slots)"""
    st = {}
    I, J, K = N

    def havoc(x):
        def f(e, k):
            a = array(e)
            a.assign(c.table('values', I * J * K, tuple(a.rshape[1:])))
            st[x] = k + first
        return f

    def inv(e, i):
        a = array(e)
        if c.phase != 'preserved':
            return [c.eq(a.N, I * J * K)]
        ijk = (st['i'], st['j'], st['k'])
        m = ijk[0] + I * (ijk[1] + J * ijk[2])
        return [len(a.stores) == 1] + [c.eq(ix, m) for ix, r in a.stores] + [c.eq(r, want(*ijk)) for ix, r in a.stores]
    def keep(inner, n):
        # (the sweep inside goes over all nodes but the `first` ones at either end)
        return lambda e, k: [c.eq(array(e).N, I * J * K)] + ([c.eq(st[inner], n - first)] if c.phase == 'preserved' else [])
    c.invariant(F, 1, keep('j', J), havoc('k'), modifies=(name,))
    c.invariant(F, 2, keep('i', I), havoc('j'), modifies=(name,))
    c.invariant(F, 3, inv, havoc('i'), modifies=(name,))
    return lambda: c.prove('the sweep goes over all nodes', c.eq(st['k'], K - first))


@contract('C06', loops=True)
def samples_on_any_grid(c):
    if not c.unbounded_sizes:
        return small_grid(c)
    g, lo, d, N = box(c)
    f = c.function('f', 3)
    done = sweep(c, G + 'eval_on_grid', lambda e: e.grid.values, 'grid', lambda i, j, k: c.array([[f(*node(lo, d, i, j, k, c))]]), N)
    c.call(G + 'eval_on_grid', g, lambda x: f(x[0], x[1], x[2]), mutates=(0,))
    done()
    c.prove('one value per node', [c.eq(g.values.N, N[0] * N[1] * N[2]), g.values.rshape[1:] == (1,)])


@contract('C06', loops=True)
def nodes_of_any_grid(c):
    if not c.unbounded_sizes:
        return small_grid(c)
    g, lo, d, N = box(c)
    done = sweep(c, G + 'get_nodes_array', lambda e: e.nodes, 'nodes', lambda i, j, k: c.array([list(node(lo, d, i, j, k, c))]), N)
    P = c.call(G + 'get_nodes_array', g)
    done()
    c.prove('one position per node', [c.eq(P.N, N[0] * N[1] * N[2]), P.rshape[1:] == (3,)])


def small_grid(c):
    g, lo, d, N = box(c, False)
    if c.sym:
        f = lambda x: c.function('f', 3)(x[0], x[1], x[2])
    else:
        f = lambda x: float(c.np.sin(x[0]) + 2 * c.np.cos(3 * x[1]) + x[2] ** 2)
    I, J, K = N
    c.call(G + 'eval_on_grid', g, f, mutates=(0,))
    P = c.call(G + 'get_nodes_array', g)
    c.prove('one value per node', c.eq(c.shape(g.values)[0], I * J * K))
    c.prove('one position per node', [c.eq(c.shape(P)[0], I * J * K), c.eq(c.shape(P)[1], 3)])
    for k in range(K):
        for j in range(J):
            for i in range(I):
                x = c.array([lo[0] + i * d[0], lo[1] + j * d[1], lo[2] + k * d[2]])
                s = i + I * (j + J * k)
                c.prove('positions in slot order', c.eq(P[s], x))
                y = g.get_node_coord(i, j, k)
                c.prove('values in slot order', c.eq(g.values[s], c.array([f(y)])))


@contract('C06', bounded='grid sizes 2..4 per axis', concrete=60)
def sampling(c):
    small_grid(c)


C = 'rainbow.geometry.mean_curvature.'


def curvature(c, v, d, i, j, k):
    """oracle: div(grad phi / |grad phi|) by central differences, limited by the resolution; a short gradient counts as a unit one"""
    D = [None] * 3
    H = [[None] * 3 for _ in range(3)]
    e = [[int(a == b) for b in range(3)] for a in range(3)]
    at = lambda o: v(i + o[0], j + o[1], k + o[2])
    add = lambda a, b, s=1, t=1: [s * x + t * y for x, y in zip(a, b)]
    for a in range(3):
        D[a] = (at(e[a]) - at([-x for x in e[a]])) / (2 * d[a])
        H[a][a] = (at(e[a]) - 2 * at([0, 0, 0]) + at([-x for x in e[a]])) / (d[a] * d[a])
        for b in range(a):
            H[a][b] = H[b][a] = (at(add(e[a], e[b])) - at(add(e[a], e[b], -1)) - at(add(e[a], e[b], 1, -1)) + at(add(e[a], e[b], -1, -1))) / (4 * d[a] * d[b])
    l = c.norm(c.array(D))
    l = 1 if bool(l < c.const('0.5')) else l
    # |g|^2 tr(H) - g.Hg
    q = sum(x * x for x in D) * sum(H[a][a] for a in range(3)) - sum(D[a] * H[a][b] * D[b] for a in range(3) for b in range(3))
    return q / (l * l * l)


@contract('C06', loops=True, budget=250)
def curvature_field(c):
    """any grid and values: interior nodes carry the difference formula, limited to the inverse of the spacing; the others zero"""
    if not c.unbounded_sizes:
        g, lo, d, N = box(c, False)
        I, J, K = N
        g.values = c.array([c.real('v%d' % q, -1, 1) for q in range(I * J * K)])
        kap = c.call(C + 'create_from_sdf', g)
        c.prove('the same grid', [c.eq(kap.min_coord, g.min_coord), c.eq(kap.max_coord, g.max_coord), (kap.I, kap.J, kap.K) == (I, J, K), kap.values.shape == g.values.shape])
        top = 1 / min(float(x) for x in d)
        v = lambda i, j, k: g.values[i + I * (j + J * k)]
        for i in range(I):
            for j in range(J):
                for k in range(K):
                    inner = 0 < i < I - 1 and 0 < j < J - 1 and 0 < k < K - 1
                    w = min(max(curvature(c, v, d, i, j, k), -top), top) if inner else 0
                    c.prove('curvature', c.eq(kap.values[i + I * (j + J * k)], w))
        return
    g, lo, d, N = box(c)
    I, J, K = N
    g.values = c.table('phi', I * J * K)
    v = lambda i, j, k: g.values[i + I * (j + J * k)]
    g.spacing = d                                               # (as shown in construction)
    np, cut = c.np, []

    def clip(x, lo_, hi_, **k):
        """(contract of numpy.clip: the nearest number between the bounds)"""
        if k or getattr(x, 'shape', ()) not in ((), (1,)):
            return np.clip(x, lo_, hi_, **k)
        y = c.fresh('clipped')
        cut.append((x, lo_, hi_, y))
        return y
    c.mod(C[:-1]).np = type('np', (), {'clip': staticmethod(clip), '__getattr__': lambda self, k: getattr(np, k)})()
    small = d[0] if bool(c.and_(d[0] <= d[1], d[0] <= d[2])) else d[1] if bool(d[1] <= d[2]) else d[2]

    def want(i, j, k):
        w, top = curvature(c, v, d, i, j, k), 1 / small
        if len(cut) == 1:
            x, l, h, y = cut[0]
            c.prove('the curvature', c.eq(x, w))
            c.prove('the limits', [c.eq(l, -top), c.eq(h, top)])
            return c.array([y])
        return c.array([c.ite(w < -top, -top, c.ite(w > top, top, w))])
    done = sweep(c, C + 'create_from_sdf', lambda e: e.kappa.values, 'kappa', want, N, first=1)
    kap = c.call(C + 'create_from_sdf', g)
    done()
    c.prove('the same grid', [c.eq(kap.min_coord, g.min_coord), c.eq(kap.max_coord, g.max_coord)] + [c.eq(a, b) for a, b in zip((kap.I, kap.J, kap.K), N)] + [c.eq(kap.values.N, I * J * K)])
