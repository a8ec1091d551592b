"""C24: contact generation of the rigid bodies (prox_rigid_bodies/collision_detection.py)"""
from pv.check import contract
R = 'rainbow.simulators.prox_rigid_bodies.'
CDR = R + 'collision_detection.'
T = R + 'types.'
A = R + 'api.'
Q = 'rainbow.math.quaternion.'
G = 'rainbow.geometry.grid3.'
BV = 'rainbow.geometry.kdop_bvh.'


class Obj:
    pass


class Recorder:
    """a list of which only the additions are known"""

    def __init__(self):
        self.new = []

    def append(self, x):
        self.new.append(x)

    def __pv_state__(self):
        return len(self.new)


def proxy(c, module, name, **over):
    """the attribute `name` of a module, some of its functions replaced"""
    m = c.mod(module)
    base = getattr(m, name)

    class P:
        def __getattr__(self, n):
            return over[n] if n in over else getattr(base, n)
    setattr(m, name, P())
    return base


def same(c, a, b):
    """equal by normal form"""
    from pv import terms as T_
    return all(c.normal_const(T_.node_of(x), T_.node_of(y)) == 0 for x, y in zip(a, b))


class Field:
    """contract of a distance field (C06): some value and some gradient at every point, equal for equal points"""

    def __init__(self, c):
        self.c, self.g, self.v = c, [], []
        self.asked = []

    def of(self, memo, x, mk):
        for y, r in memo:
            if same(self.c, x, y):
                return r
        r = mk()
        memo.append(([e for e in x], r))
        return r

    def gradient(self, x):
        return self.of(self.g, x, lambda: self.c.vec('grad%d' % len(self.g))) + 0

    def value(self, x):
        return self.of(self.v, x, lambda: self.c.real('phi%d' % len(self.v)))

    def inside(self, x):
        r = self.c.boolean('inside%d' % len(self.asked))
        self.asked.append(([e for e in x], r))
        return r

    def forget(self):
        self.g, self.v, self.asked = [], [], []

    def install(self, c, grid):
        mine = lambda g: c.prove('the distance field of the other body', g is grid)
        c.replace(G + 'get_gradient', lambda g, x: mine(g) or self.gradient(x))
        c.replace(G + 'get_value', lambda g, x: mine(g) or self.value(x))
        c.replace(G + 'is_inside', lambda g, x, boundary=0.5: mine(g) or c.prove('the whole grid is used', c.eq(boundary, 0)) or self.inside(x))


class Hull:
    """x is in the convex hull of the points: every half space h.y <= m (h, m arbitrary) that holds the points holds x"""

    def __init__(self, c, h):
        self.c, self.h, self.m = c, h, c.real('m')

    def around(self, P):
        self.c.requires([self.c.le(self.c.dot(self.h, p), self.m) for p in P])

    def holds(self, x):
        return self.c.le(self.c.dot(self.h, x), self.m)


def any_argmin(c, module, name='np'):
    """which of the points is chosen is left open"""
    n = []

    def argmin(a):
        n.append(1)
        return c.choice('argmin %d' % len(n), range(len(a)))
    proxy(c, module, name, argmin=argmin)


def unit_stub(c):
    """contracts of norm and unit (C04)"""
    V3 = 'rainbow.math.vector3.'
    n, memo = [], []

    def norm(v):
        for w, s in memo:
            if same(c, v, w):
                return s
        s = c.real('norm%d' % len(memo), 0, 3)
        c.requires([s >= 0, c.eq(s * s, c.dot(v, v))])
        memo.append(([e for e in v], s))
        return s

    def unit(v):
        s = norm(v)
        c.prove('only vectors that are not zero are normalised', s > 0)
        u = c.vec('unit%d' % len(n))
        n.append(u)
        c.requires([c.eq(s * u, v), c.eq(c.dot(u, u), 1)])
        memo.append(([e for e in u], c.const('1')))
        return u + 0
    c.replace(V3 + 'norm', norm)
    c.replace(V3 + 'unit', unit)


def concrete_rigid(c, count=None):
    """(concrete) overlapping bodies, made through the API"""
    import numpy
    F = lambda f: c.fn(A + f)
    S = 'rainbow.geometry.surface_mesh.'
    e = F('create_engine')()
    p = e.params
    p.resolution, p.envelope = c.choice('resolution', [6, 9]), c.choice('envelope', [0.1, 0.01, 0.3])
    p.contact_optimization_max_iterations = c.choice('iterations', [8, 1, 3])
    p.contact_optimization_tolerance = c.choice('tolerance', [0, 0.5])
    p.bvh_chunk_size, p.K = c.choice('chunk', [255, 5]), c.choice('K', [3, 4])
    n = count or c.choice('bodies', [2, 3, 1])
    for i in range(n):
        V, T_ = c.choice('solid%d' % i, [c.fn(S + 'create_box')(1.0, 1.0, 1.0), c.fn(S + 'create_box')(2.0, 0.5, 1.0), c.fn(S + 'create_cylinder')(0.5, 1.0, 5)])
        F('create_shape')(e, 's%d' % i, F('create_mesh')(V, T_))
        F('create_rigid_body')(e, 'b%d' % i)
        F('connect_shape')(e, 'b%d' % i, 's%d' % i)
        F('set_position')(e, 'b%d' % i, c.vec('r%d' % i, 3, -0.5, 0.5))
        F('set_orientation')(e, 'b%d' % i, c.unit_quat('q%d' % i))
        if c.boolean('fixed%d' % i):
            F('set_body_type')(e, 'b%d' % i, 'fixed')
    return e


def world_mesh(c, b):
    import numpy
    M = numpy.array(c.quat_matrix(b.q))
    return b.shape.mesh.V @ M.T + b.r, M


def on_triangle(c, x, P, tol=1e-9):
    """(concrete) x is a convex combination of the rows of P"""
    import numpy
    M = numpy.vstack([P.T, numpy.ones(3)])
    w = numpy.linalg.lstsq(M, numpy.append(x, 1.0), rcond=None)[0]
    return c.and_(bool(w.min() >= -1e-7), c.close(M @ w, numpy.append(x, 1.0), 1e-7))


def concrete_contacts(c):
    """contacts of one body pair: exactly where the search on a triangle ends within the envelope"""
    import numpy
    e = concrete_rigid(c, 2)
    a, b = e.bodies.values()
    asked = []
    base = proxy(c, CDR[:-1], 'GRID', is_inside=lambda g, x, boundary=0.5: asked.append((g, x.copy())) or base.is_inside(g, x, boundary))
    n = len(a.shape.mesh.T)
    tris = [i for i in range(n) if c.boolean('t%d' % i)]
    had = e.contact_points = [object()]
    debug = c.boolean('debug')
    keep = c.snapshot(*[x for q in (a, b) for x in (q.r, q.q, q.shape.mesh.V, q.shape.mesh.T, q.shape.grid.values)])
    c.call(CDR + '_compute_contacts', e, a, b, numpy.array(tris, dtype=int), {}, debug, mutates=(0, 4))
    c.prove('bodies are not changed', c.unchanged(keep))
    Va, Ma = world_mesh(c, a)
    Vb, Mb = world_mesh(c, b)
    grid = b.shape.grid
    new = [x for x in e.contact_points if not any(x is h for h in had[:1])]
    c.prove('earlier contacts are kept', e.contact_points[0] is had[0])
    c.prove('one search per triangle', [len(asked) == len(tris)] + [g is grid for g, _ in asked])
    for (g, x), t in zip(asked, tris):
        w = Mb @ x + b.r
        c.prove('the point is on the triangle', on_triangle(c, w, Va[a.shape.mesh.T[t]]))
        phi, n = base.get_value(grid, x), base.get_gradient(grid, x)
        want = base.is_inside(grid, x, 0) and phi <= e.params.envelope and numpy.linalg.norm(n) > 0
        if want:
            c.prove('a contact is made', len(new) > 0)
            if not new:
                return
            cp = new.pop(0)
            c.prove('from the body with the field to the body with the triangle', [cp.bodyA is b, cp.bodyB is a])
            c.prove('contact', [c.close(cp.p, w, 1e-9), c.close(cp.g, phi, 1e-9), c.close(cp.n, Mb @ n / numpy.linalg.norm(n), 1e-9), c.close(numpy.linalg.norm(cp.n), 1, 1e-9)])
    c.prove('no other contacts', new == [])


@contract('C24', loops=True, paths=4000)
def rigid_contacts(c):
    """any number of triangles and optimisation steps: the search stays on the triangle; a contact is made exactly for a point within the
    envelope, at its place in the world, with the unit normal of the field"""
    F = CDR + '_compute_contacts'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_contacts(c)
    a, b, e = Obj(), Obj(), Obj()
    for x, n in ((a, 'a'), (b, 'b')):
        x.r, x.q, x.shape = c.vec('r' + n), c.unit_quat('q' + n), Obj()
    N, M, K = c.size('N', 1, 4), c.size('M', 1, 4), c.size('K', 0, 3)
    mesh, grid = Obj(), object()
    a.shape.mesh, b.shape.grid = mesh, grid
    mesh.V, mesh.T = c.table('V', N, 3), c.table('T', M, 3, integer=True, within=(0, N))
    P = c.table('P', N, 3)
    from pv.loops import LArr
    RB = c.quat_matrix(b.q)
    up = lambda p: c.mv(RB, p) + b.r
    W = LArr(N, lambda i: c.array([list(up(P.at(i)[0]) - a.r)]), 0, (None, 3))
    j = c.index('row', N)
    calls = []

    def rotate(q, V):
        """contract of rotate_array (C01): the rows are rotated; the triangles in the frame of the other body are called P"""
        calls.append(1)
        if len(calls) == 1:
            c.prove('the vertices are turned by the orientation of the body', [c.eq(q, a.q), c.eq(V.at(j)[0], mesh.V.at(j)[0])])
            return W.copy()
        c.prove('and taken to the frame of the other body', [len(calls) == 2, c.eq(q, c.array([b.q[0], -b.q[1], -b.q[2], -b.q[3]])), c.eq(V.at(j)[0], up(P.at(j)[0]) - b.r)])
        return P.copy()
    c.replace(Q + 'rotate_array', rotate)
    field = Field(c)
    field.install(c, grid)
    hull = Hull(c, c.vec('h'))
    any_argmin(c, CDR[:-1])
    unit_stub(c)
    e.params = Obj()
    e.params.contact_optimization_max_iterations = c.size('steps', 0, 3)
    e.params.contact_optimization_tolerance, e.params.envelope = c.real('tol', -1, 1), c.real('envelope', 0, 1)
    rec = e.contact_points = Recorder()
    tris = c.table('tris', K, integer=True, within=(0, M))
    cur = {}
    corners = lambda t: [P.at(mesh.T.at(t)[0][i])[0] for i in range(3)]

    def outer_havoc(env, k):
        rec.new.clear()
        field.forget()
        cur['k'] = k
        if not c.identical(k, K):
            hull.around(corners(tris.at(k)[0]))

    def outer(env, k):
        if c.phase == 'entry':
            return [rec.new == [], e.contact_points is rec]
        if c.phase != 'preserved':
            return [True]
        out = [len(field.asked) == 1]
        if len(field.asked) != 1:
            return out
        x, inside = field.asked[0]
        x = c.array(x)
        phi, g = field.value(x), field.gradient(x)
        n = c.mv(RB, g)
        want = c.and_(inside, c.le(phi, e.params.envelope), c.dot(g, g) > 0)
        out += [c.iff(want, len(rec.new) == 1), len(rec.new) <= 1, e.contact_points is rec, hull.holds(x)]
        for cp in rec.new:
            out += [cp.bodyA is b, cp.bodyB is a, c.eq(cp.p, up(x)), c.eq(cp.g, phi), c.eq(c.dot(cp.n, cp.n), 1), c.eq(c.fn('rainbow.math.vector3.norm')(n) * cp.n, n), c.fn('rainbow.math.vector3.norm')(n) > 0]
        return out

    def inner_havoc(env, k):
        x = c.vec('x')
        cur['x'] = x
        field.forget()
        return {'x_i': x}

    def inner(env, k):
        return [hull.holds(env.x_i)]
    c.invariant(F, 1, outer, outer_havoc, modifies=('engine', 'profile_data'))
    c.invariant(F, 2, inner, inner_havoc, modifies=('engine', 'profile_data'))
    c.call(F, e, a, b, tris, {}, False, mutates=(0, 4))
    c.prove('nothing else', [rec.new == [], e.contact_points is rec])


# ---- the pipeline -----------------------------------------------------------------------------------
SOFT = 'rainbow.simulators.prox_soft_bodies.'
CDS = SOFT + 'collision_detection.'


@contract('C24', loops=True)
def rigid_volumes(c):
    """any number of bodies: the volumes of each are refitted to the mesh where the body is now"""
    F = CDR + '_update_bvh'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        e = concrete_rigid(c)
        c.call(F, e, {}, c.boolean('debug'), mutates=(0, 1))
        K = c.fn('rainbow.geometry.kdop.make')
        for b in e.bodies.values():
            V, _ = world_mesh(c, b)
            v, w = b.bvh.root, K(e.params.K, V, e.params.envelope)
            c.prove('the root is the volume of the whole body', [c.and_(c.close(x.lower, y.lower, 1e-9), c.close(x.upper, y.upper, 1e-9)) for x, y in zip(v.slabs, w.slabs)])
        return
    B, one, e = c.size('bodies', 0, 2), {}, Obj()
    e.params = c.fn(T + 'Parameters')()
    e.params.K, e.params.envelope = 4, c.real('envelope', 0, 1)

    def mk(k):
        b = one['b'] = Obj()
        b.r, b.q, b.shape, b.bvh = c.vec('r'), c.unit_quat('q'), Obj(), object()
        b.shape.mesh = Obj()
        b.shape.mesh.V, b.shape.mesh.T = c.table('V', c.size('N', 1, 3), 3), object()
        one['done'] = []
        return b
    e.bodies = c.mapping({}, B, mk)

    def rotate(q, V):
        b = one['b']
        c.prove('rotated by the orientation of the body', [q is b.q, V is b.shape.mesh.V])
        one['W'] = c.table('W', V.N, 3)
        return one['W'].copy()

    def refit(V, T_, bvh, K, envelope=0.0):
        b = one['b']
        i = c.index('i', V.N)
        one['done'].append(c.and_(c.eq(V.at(i)[0], one['W'].at(i)[0] + b.r), T_ is b.shape.mesh.T, bvh is b.bvh, K == 4, c.eq(envelope, e.params.envelope)))
    c.replace(Q + 'rotate_array', rotate)
    c.replace(BV + 'refit_bvh', refit)
    c.invariant(F, 1, lambda env, k: [len(one['done']) == 1] + one['done'] if c.phase == 'preserved' else [True], modifies=('engine', 'body', 'profile_data'))
    c.call(F, e, {}, c.boolean('debug'), mutates=(0, 1))


@contract('C24', loops=True)
def soft_volumes(c):
    """any number of soft bodies: the volumes of each are refitted to its deformed surface"""
    F = CDS + '_update_bvh'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        from contracts._soft import boxes
        e = boxes(c, 1, hashing=False)
        K = c.fn('rainbow.geometry.kdop.make')
        for b in e.bodies.values():
            b.x = b.x + c.vec('d')
        c.call(F, e, {}, c.boolean('debug'), mutates=(0, 1))
        for b in e.bodies.values():
            v, w = b.bvh.root, K(e.params.K, b.x[numpy_unique(b.surface)], e.params.envelope)
            c.prove('the root is the volume of the whole body', [c.and_(c.close(x.lower, y.lower, 1e-9), c.close(x.upper, y.upper, 1e-9)) for x, y in zip(v.slabs, w.slabs)])
        return
    B, one, e = c.size('bodies', 0, 2), {}, Obj()
    e.params = Obj()
    e.params.K, e.params.envelope = 4, c.real('envelope', 0, 1)

    def mk(k):
        b = one['b'] = Obj()
        b.x, b.x0, b.surface, b.bvh = object(), object(), object(), object()
        one['done'] = []
        return b
    e.bodies = c.mapping({}, B, mk)

    def refit(V, T_, bvh, K, envelope=0.0):
        b = one['b']
        one['done'].append(c.and_(V is b.x, T_ is b.surface, bvh is b.bvh, K == 4, c.eq(envelope, e.params.envelope)))
    c.replace(BV + 'refit_bvh', refit)
    c.invariant(F, 1, lambda env, k: [len(one['done']) == 1] + one['done'] if c.phase == 'preserved' else [True], modifies=('engine', 'body', 'stats'))
    c.call(F, e, {}, c.boolean('debug'), mutates=(0, 1))


def numpy_unique(a):
    import numpy
    return numpy.unique(a)


def two_bodies(c, soft):
    if soft:
        from contracts._soft import boxes
        return boxes(c, hashing=False)
    return concrete_rigid(c)


@contract('C24', loops=True)
def pairs(c):
    """any number of bodies: every pair of bodies is traversed, and exactly the pairs with overlapping triangles are reported"""
    soft = c.boolean('soft')
    D = CDS if soft else CDR
    F = D + '_narrow_phase'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        e = two_bodies(c, soft)
        c.fn(D + '_update_bvh')(e, {}, False)
        r = c.call(F, e, {}, c.boolean('debug'), mutates=(0, 1))
        r = r[0] if soft else r
        bs = list(e.bodies.values())
        verts = lambda b: b.x[b.surface] if soft else world_mesh(c, b)[0][b.shape.mesh.T]
        want, eps = {}, e.params.envelope
        for i in range(len(bs)):
            for j in range(i + 1, len(bs)):
                X, Y = verts(bs[i]), verts(bs[j])
                got = [tuple(x) for k, v in r.items() if set(k) == {bs[i], bs[j]} for x in (v if k[0] is bs[i] else v[:, ::-1])]
                for s in range(len(X)):
                    for t in range(len(Y)):
                        # triangles whose corner or centre coincide closely touch; far triangles may be skipped
                        if min(numpy.abs(a - b).max() for a in list(X[s]) + [X[s].mean(axis=0)] for b in list(Y[t]) + [Y[t].mean(axis=0)]) < eps * 0.9:
                            c.prove('triangles that touch are not skipped', (s, t) in got)
        for k, v in r.items():
            c.prove('different bodies, triangles of them', [k[0] is not k[1], v.ndim == 2 and v.shape[1] == 2 and len(v) > 0, v.min() >= 0,
                    v[:, 0].max() < len(verts(k[0])), v[:, 1].max() < len(verts(k[1]))])
        return
    e, one = Obj(), {}
    e.bodies = c.mapping({}, c.size('bodies', 0, 3), None)
    P = c.size('pairs', 0, 3)

    def values():
        one['asked'] = True
        return 'bodies'
    e.bodies = type('B', (), dict(values=staticmethod(values)))()

    class Pairs:
        """the result of a traversal: some number of pairs"""

        def __init__(self, n):
            self.n = n

        def __pv_len__(self):
            return self.n

    def mk(i):
        a, b = Obj(), Obj()
        a.bvh, b.bvh = object(), object()
        one['pair'] = (a, b)
        return a, b

    def combinations(x, r=2):
        c.prove('all pairs of all bodies', [x == 'bodies', r == 2])
        return c.sequence(P, mk)
    c.mod(D[:-1]).combinations = combinations

    def traversal(s, t):
        c.prove('the volumes of the pair', [s is one['pair'][0].bvh, t is one['pair'][1].bvh])
        one['result'] = Pairs(c.integer('found', 0, 3, bounded=False))
        c.requires(0 <= one['result'].n)
        return one['result']
    c.replace(BV + 'traversal', traversal)
    made = {}

    def array(x, dtype=None, **k):
        made['a'] = (x, Obj())
        return made['a'][1]
    from contracts._soft import numpy_with
    numpy_with(c, D[:-1], array=array)
    st = {}

    def havoc(env, k):
        made.clear()
        st['d'] = {}
        return {'overlaps': st['d']}

    def inv(env, k):
        if c.phase == 'entry':
            return [env.overlaps == {}]
        if c.phase != 'preserved':
            return [True]
        d, n = st['d'], one['result'].n
        out = [env.overlaps is d, c.iff(n > 0, len(d) == 1), len(d) <= 1]
        for k_, v in d.items():
            out += [k_ == one['pair'], v is made['a'][1], made['a'][0] is one['result']]
        return out
    c.invariant(F, 1, inv, havoc, modifies=('overlaps', 'engine', 'stats', 'profile_data'))
    r = c.call(F, e, {}, False, mutates=(0, 1))
    c.prove('returned', (r[0] if soft else r) is st.get('d'))


class Overlaps:
    """any number of overlapping body pairs"""

    def __init__(self, c, mk):
        self.s = c.sequence(c.size('pairs', 0, 3), mk)

    def items(self):
        return self.s


@contract('C24', loops=True)
def determination(c):
    """any number of overlapping pairs: each body is tested against the other, with its own triangles, once"""
    soft = c.boolean('soft')
    D = CDS if soft else CDR
    F = D + '_contact_determination'
    calls = []
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        e = Obj()
        e.contact_points = [1]

        def record(*a):
            x, y, t = a[2:5] if soft else a[1:4]
            calls.append((x, y, t))
            e.contact_points.append((x, y))
            return {}
        c.mod(D[:-1])._compute_contacts = record
        n = c.choice('n', [0, 1, 2, 3])
        over = {('a%d' % i, 'b%d' % i): numpy.array([[c.choice('%d %d %d' % (i, j, q), [0, 1, 2]) for q in range(2)] for j in range(1 + c.choice('rows%d' % i, [0, 1, 4]))]) for i in range(n)}
        c.call(F, over, e, {}, c.boolean('debug'), mutates=(1, 2))
        want = [(k[q], k[1 - q], sorted(set(map(int, v[:, q])))) for k, v in over.items() for q in (0, 1)]
        tris = lambda t: sorted(set(map(int, t[:, 0]))) if soft else sorted(map(int, t))
        key = lambda x: str(x)
        c.prove('both directions of all pairs', sorted([(x, y, tris(t)) for x, y, t in calls], key=key) == sorted(want, key=key))
        if soft:
            pair = lambda x, y, t: sorted(map(tuple, t.tolist())) == sorted(map(tuple, (over[x, y] if (x, y) in over else over[y, x][:, ::-1]).tolist()))
            c.prove('with the triangles they overlap', [pair(*a) for a in calls])
        c.prove('old contacts are dropped, new are kept', e.contact_points == [(x, y) for x, y, _ in calls])
        return
    one, e = {}, Obj()

    class Result:
        def __getitem__(self, k):
            return ('columns', self, k if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) else None)

    def mk(i):
        one['a'], one['b'], one['r'] = object(), object(), Result()
        return (one['a'], one['b']), one['r']
    from contracts._soft import numpy_with
    numpy_with(c, D[:-1], unique=lambda x: ('unique', x))

    def contacts(*a):
        if soft:
            en, s, x, y, t, d = a
        else:
            en, x, y, t, s, d = a
        calls.append((en, x, y, t))
        return s
    c.replace(D + '_compute_contacts', contacts)
    col = lambda x, k: isinstance(x, tuple) and x[0] == 'columns' and x[1] is one['r'] and x[2] is not None and (list(x[2][1]) if isinstance(k, list) else x[2][1]) == k
    old = e.contact_points = [object()]
    st = {}

    def inv(env, k):
        if c.phase == 'entry':
            return [e.contact_points == [], calls == []]
        if c.phase != 'preserved':
            return [True]
        out = [len(calls) == 2, all(a[0] is e for a in calls)]
        one_way = [a for a in calls if a[1] is one['a'] and a[2] is one['b']]
        other = [a for a in calls if a[1] is one['b'] and a[2] is one['a']]
        out += [len(one_way) == 1, len(other) == 1]
        if soft:
            out += [a[3] is one['r'] or col(a[3], [0, 1]) for a in one_way] + [col(a[3], [1, 0]) for a in other]
        else:
            out += [a[3][0] == 'unique' and col(a[3][1], q) for q, s in enumerate((one_way, other)) for a in s]
        return out
    c.invariant(F, 1, inv, lambda env, k: calls.clear(), modifies=('engine', 'stats', 'profile_data'))
    c.call(F, Overlaps(c, mk), e, {}, c.boolean('debug'), mutates=(1, 2))
    c.prove('a new list', [e.contact_points == [], e.contact_points is not old])


@contract('C24')
def pipeline(c):
    """volumes first, then pairs, contacts and reduction, each on the results of the one before"""
    soft = c.boolean('soft')
    hashing = c.boolean('hashing')
    D = CDS if soft else CDR
    debug = c.boolean('debug')
    if not c.sym:
        return concrete_pipeline(c, soft, hashing, debug)
    e, log, over = Obj(), [], object()
    e.params = Obj()
    e.params.use_spatial_hashing = hashing

    def stage(name, result=None, n=0):
        def f(*a):
            args, rest = a[:n], a[n:]
            c.prove('%s of the same engine' % name, [args == (over,) * n, rest[0] is e, rest[2] is debug])
            log.append(name)
            if result == 'overlaps':
                return (over, rest[1]) if soft else over
            return rest[1] if soft else None
        return f
    c.replace(D + '_update_bvh', stage('volumes'))
    c.replace(D + '_narrow_phase', stage('pairs', 'overlaps'))
    c.replace(D + '_contact_determination', stage('contacts', None, 1))
    c.replace(D + '_contact_reduction', stage('reduction'))
    if soft:
        c.replace(D + '_spatial_hashing_narrow_phase', stage('hash', 'overlaps'))
    c.call(D + 'run_collision_detection', e, {}, debug, mutates=(0, 1))
    want = ['hash', 'contacts', 'reduction'] if soft and hashing else ['volumes', 'pairs', 'contacts', 'reduction']
    c.prove('stages', [log == want])


def concrete_pipeline(c, soft, hashing, debug):
    import numpy
    if soft:
        from contracts._soft import boxes
        e = boxes(c, hashing=hashing)
        for i, b in enumerate(e.bodies.values()):
            b.x = b.x + 0.02 * numpy.array([c.vec('d%d %d' % (i, j), 3, -1, 1) for j in range(len(b.x))])
    else:
        e = concrete_rigid(c)
    e.contact_points = [None]
    c.call((CDS if soft else CDR) + 'run_collision_detection', e, {}, debug, mutates=(0, 1))
    bodies = list(e.bodies.values())
    seen = []
    for cp in e.contact_points:
        a, b = cp.bodyA, cp.bodyB
        c.prove('two different bodies of the world', [a is not b, any(a is x for x in bodies), any(b is x for x in bodies)])
        c.prove('unit normal', c.close(numpy.linalg.norm(cp.n), 1, 1e-9))
        c.prove('within the envelope', cp.g <= e.params.envelope + 1e-12)
        if soft:
            XA, XB = a.x[a.T[cp.idx_tetA]], b.x[b.T[cp.idx_tetB]]
            c.prove('the weights give the point in both bodies', [c.close(XA.T @ cp.omegaA, cp.p, 1e-6), c.close(XB.T @ cp.omegaB, cp.p, 1e-6), c.close(sum(cp.omegaA), 1, 1e-7), c.close(sum(cp.omegaB), 1, 1e-7)])
            tri = b.x[b.surface]
            x0 = a.x0[a.T[cp.idx_tetA]].T @ cp.omegaA
            grid = a.grid
        else:
            V, _ = world_mesh(c, b)
            tri = V[b.shape.mesh.T]
            M = numpy.array(c.quat_matrix(a.q))
            x0, grid = M.T @ (cp.p - a.r), a.shape.grid
        value, gradient = c.fn(G + 'get_value'), c.fn(G + 'get_gradient')
        c.prove('on the surface of the second body', any(bool(on_triangle(c, cp.p, P)) for P in tri))
        c.prove('the gap is the distance to the first body', c.close(value(grid, x0), cp.g, 1e-5))
        n0 = gradient(grid, x0)
        if soft:
            X0 = a.x0[a.T[cp.idx_tetA]]
            n = numpy.linalg.solve((XA[:3] - XA[3]), (X0[:3] - X0[3]) @ n0)
        else:
            n = M @ n0
        steps = [value(grid, x0 + s * 1e-7 * d) for s in (-1, 1) for d in numpy.eye(3)]
        c.prove('the normal points away from the first body', c.or_(c.close(cp.n, n / numpy.linalg.norm(n), 1e-4), not numpy.allclose(gradient(grid, x0 + 1e-6), gradient(grid, x0 - 1e-6), atol=1e-3)))
        key = (id(a), id(b), tuple(cp.p))
        c.prove('no duplicates', key not in seen)
        seen.append(key)


# ---- reduction --------------------------------------------------------------------------------------
def contact(c, tag, bodies):
    x = Obj()
    x.bodyA, x.bodyB = c.choice('pair' + tag, [(a, b) for a in bodies for b in bodies if a is not b])
    x.p = c.vec('p' + tag)
    return x


def concrete_reduction(c, soft, F):
    import numpy
    bodies = [Obj(), Obj(), Obj()]
    n = c.choice('n', [4, 0, 1, 8])
    pts = [c.vec('x%d' % i) for i in range(3)]
    cps = []
    for i in range(n):
        x = Obj()
        x.bodyA, x.bodyB = c.choice('pair%d' % i, [(a, b) for a in bodies for b in bodies if a is not b])
        x.p = c.choice('at%d' % i, pts).copy()
        if c.choice('near%d' % i, [False, False, True]):
            x.p[c.choice('axis%d' % i, range(3))] += c.choice('eps%d' % i, [1e-3, 0.5, 1.0])
        x.n, x.g = c.vec('n%d' % i), c.real('g%d' % i)
        cps.append(x)
    e = Obj()
    e.contact_points = list(cps)
    keep = c.snapshot(*cps)
    c.call(F, e, {}, c.boolean('debug'), mutates=(0, 1))
    out = e.contact_points
    like = lambda x, y: {id(x.bodyA), id(x.bodyB)} == {id(y.bodyA), id(y.bodyB)} and bool((x.p == y.p).all())
    strict = (lambda x, y: x.bodyA is y.bodyA and bool((x.p == y.p).all())) if soft else like
    c.prove('contacts are not changed', c.unchanged(keep))
    c.prove('only contacts that were there, once each', [any(x is y for y in cps) for x in out] + [len(set(map(id, out))) == len(out)])
    c.prove('removed only if an equal one is kept', [any(like(x, y) and x.bodyA in (y.bodyA, y.bodyB) for y in out) for x in cps])
    c.prove('no duplicates are kept', [not (like(x, y) and x.bodyA is y.bodyA) for i, x in enumerate(out) for y in out[:i]])
    order = [[i for i, y in enumerate(cps) if y is x][0] for x in out]
    c.prove('in order', order == sorted(order))


@contract('C24', loops=True, paths=3000)
def rigid_reduction(c):
    """any number of contacts: one is dropped only if another of the same bodies at the same place is kept, and then it is dropped"""
    F = CDR + '_contact_reduction'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_reduction(c, False, F)
    b = [Obj() for _ in range(4)]
    st, e = {}, Obj()
    n = c.size('n', 0, 3)
    equal = lambda x, y: c.and_({id(x.bodyA), id(x.bodyB)} == {id(y.bodyA), id(y.bodyB)}, c.eq(x.p, y.p))

    def new(i):
        x = Obj()
        x.bodyA, x.bodyB, x.p = b[0], b[1], c.vec('p')
        st['cp'] = x
        return x
    e.contact_points = c.sequence(n, new)

    def kept(i):
        st['i'] = i
        return contact(c, ' kept', b[:3])

    class Kept(type(c.sequence(n, kept))):
        added = ()

        def append(self, x):
            self.added += (x,)

        def __pv_state__(self):
            return len(self.added)

    def outer_havoc(env, k):
        st['list'] = Kept(c.integer('kept', 0, 3, bounded=False), kept)
        c.requires([0 <= st['list'].N, c.le(st['list'].N, k)])
        st['other'] = c.choice('some kept', [True, False]) and c.index('other', st['list'].N)
        return {'reduced_list': st['list']}

    def outer(env, k):
        if c.phase == 'entry':
            return [env.reduced_list == []]
        if c.phase != 'preserved':
            return [True]
        L, x = st['list'], st['cp']
        out = [env.reduced_list is L, all(y is x for y in L.added), len(L.added) <= 1]
        if len(L.added) == 0:
            out.append(c.exists(lambda w: equal(L.item(w), x), L.N))
        elif st['other'] is not False:
            out.append(c.not_(equal(L.item(st['other']), x)))
        return out

    def inner(env, k):
        out = [env.unique is True]
        if st['other'] is not False:
            out.append(c.implies(st['other'] < k, c.not_(equal(st['list'].item(st['other']), st['cp']))))
        return out
    c.invariant(F, 1, outer, outer_havoc, modifies=('engine', 'profile_data', 'reduced_list'))
    c.invariant(F, 2, inner, lambda env, k: {'unique': True}, modifies=('engine', 'profile_data', 'reduced_list'))
    c.call(F, e, {}, False, mutates=(0, 1))
    c.prove('the kept contacts are stored', e.contact_points is st.get('list', e.contact_points))


@contract('C24', loops=True, paths=3000)
def soft_reduction(c):
    """any number of contacts: one is dropped only if its bodies and place have been kept before"""
    F = CDS + '_contact_reduction'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_reduction(c, True, F)
    st, e = {}, Obj()
    n = c.size('n', 0, 3)
    b = [Obj(), Obj()]

    def new(i):
        x = Obj()
        x.bodyA, x.bodyB, x.p = b[0], b[1], c.vec('p')
        st['cp'] = x
        return x
    e.contact_points = c.sequence(n, new)

    class Seen:
        """the identities kept so far (each belongs to a contact in the list)"""

        def __init__(self):
            self.asked, self.added = [], []

        def __contains__(self, u):
            self.asked.append((u, c.boolean('seen')))
            return self.asked[-1][1]

        def add(self, u):
            self.added.append(u)

        def __pv_state__(self):
            return len(self.added)

    def havoc(env, k):
        st['seen'], st['list'] = Seen(), Recorder()
        return {'seen_ids': st['seen'], 'reduced_list': st['list']}

    def identity(u, x):
        return c.and_(len(u) == 3, u[0] is x.bodyA, u[1] is x.bodyB, c.eq(c.array(list(u[2])), x.p)) if isinstance(u, tuple) and len(u) == 3 else False

    def inv(env, k):
        if c.phase == 'entry':
            return [env.reduced_list == [], len(env.seen_ids) == 0]
        if c.phase != 'preserved':
            return [True]
        s, L, x = st['seen'], st['list'], st['cp']
        out = [env.seen_ids is s, env.reduced_list is L, len(s.asked) == 1] + [identity(u, x) for u, _ in s.asked]
        drop = s.asked[0][1] if s.asked else False
        out += [len(L.new) == (0 if drop else 1), all(y is x for y in L.new), all(identity(u, x) is not False for u in s.added)] + [identity(u, x) for u in s.added]
        return out + [len(s.added) >= (0 if drop else 1)]
    c.invariant(F, 1, inv, havoc, modifies=('engine', 'stats', 'reduced_list', 'seen_ids'))
    c.call(F, e, {}, False, mutates=(0, 1))
    c.prove('the kept contacts are stored', e.contact_points is st.get('list', e.contact_points))
