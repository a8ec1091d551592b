"""C23: building soft body models (prox_soft_bodies/api.py, types.py) and the contact Jacobian (solver.py)"""
from pv.check import contract
from contracts._soft import *
from contracts import _formal as FO
from contracts.c13_rigid_api import count, others, changed_only
from contracts.c14_hinges import col
MOD = SOLVER[:-1]
V3 = 'rainbow.math.vector3.'


# ---- contact Jacobian and friction -----------------------------------------------------------------
def contact(c, N, tag=''):
    """an arbitrary contact of two tetrahedra (of bodies of any size)"""
    x = c.fn(TYPES + 'ContactPoint').__new__(c.fn(TYPES + 'ContactPoint'))
    for s in 'AB':
        b = Box()
        b.material_description = Box()
        b.offset = c.integer('offset' + s + tag, 0, 3, bounded=False)
        c.requires([0 <= b.offset])
        if c.unbounded_sizes:
            K = c.size('K' + s + tag, 1, 3)
            b.T = c.table('T' + s + tag, K, 4, integer=True)
            e = c.index('e' + s + tag, K)
        else:
            b.T, e = c.np.array([[0, 1, 2, 3], [1, 3, 2, 4]]), c.choice('e' + s + tag, [0, 1])
        setattr(x, 'body' + s, b)
        setattr(x, 'idx_tet' + s, e)
        setattr(x, 'omega' + s, c.vec('omega' + s + tag, 4))
    x.n, x.g = c.unit_vec('n' + tag), c.real('g' + tag, -1, 1)
    return x


def frame_stub(c, n):
    """contract of make_orthonormal_vectors (C04): any right-handed orthonormal frame (s, t, n)"""
    s, t, n = c.vec('s'), c.vec('t'), c.array(list(n))

    def f(v):
        c.prove('the frame is made for the normal', c.eq(v, n))
        return s.copy(), t.copy(), n.copy()
    c.replace(V3 + 'make_orthonormal_vectors', f)
    return s, t, n


def rows_of(c, x, s, t, n):
    """{(row, node slot, axis): value}: minus (A) or plus (B) the barycentric weight times the direction"""
    return {(i, 4 * q + a, j): sg * w[a] * d[j] for q, sg, w in ((0, -1, x.omegaA), (1, 1, x.omegaB)) for a in range(4)
            for i, d in enumerate((n, s, t, [0, 0, 0])) for j in range(3)}


def bases(x):
    return [3 * (b.T[e][a] + b.offset) for b, e in ((x.bodyA, x.idx_tetA), (x.bodyB, x.idx_tetB)) for a in range(4)]


@contract('C23', loops=True)
def jacobian(c):
    """any number of contacts, nodes and bodies: an arbitrary contact fills exactly its own four rows"""
    F = MOD + '.compute_jacobian_matrix'
    K = c.size('K', 0, 2)
    e = Box()
    debug = c.boolean('debug')
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        e.number_of_nodes = 9
        e.contact_points = [contact(c, 9, str(i)) for i in range(int(K))]
        J = c.call(F, e, {}, debug, mutates=(0, 1)).toarray()
        c.prove('shape', J.shape == (4 * K, 27))
        want = numpy.zeros(J.shape)
        for k, x in enumerate(e.contact_points):
            for (i, a, j), v in rows_of(c, x, *c.fn(V3 + 'make_orthonormal_vectors')(x.n)).items():
                want[4 * k + i, bases(x)[a] + j] += v
        return c.prove('entries', c.close(J, want, 1e-12))
    N = e.number_of_nodes = c.integer('nodes', 0, 9, bounded=False)
    one, st = {}, {}

    def mk(i):
        one['x'] = contact(c, N)
        one['f'] = frame_stub(c, one['x'].n)
        return one['x']
    e.contact_points = c.sequence(K, mk)

    def havoc(env, k):
        st['arrays'] = [env.data, env.row, env.col]
        for a, n in zip(st['arrays'], ('data', 'row', 'col')):
            a.assign(c.table(n, 96 * K))
        return {'next_entry': 96 * k}

    def inv(env, k):
        if c.phase != 'preserved':
            return [c.eq(env.next_entry, 96 * k)]
        es = FO.entries(c, (env.data, env.row, env.col), 96 * (k - 1), 96)
        x = one['x']
        got = es and FO.block(c, es, 4 * (k - 1), 4, bases(x), 3)
        want = rows_of(c, x, *one['f'])
        return [c.eq(env.next_entry, 96 * k), bool(got) and set(got) == set(want)] + [c.eq(v, want[q]) for q, v in (got or {}).items() if q in want]
    c.invariant(F, 1, inv, havoc, modifies=('data', 'row', 'col', 'next_entry'))

    def coo(data, row, col, shape):
        c.prove('the matrix is made of the entries of all contacts', [data is st['arrays'][0], row is st['arrays'][1], col is st['arrays'][2], c.eq(data.N, 96 * K),
                c.eq(shape[0], 4 * K), c.eq(shape[1], 3 * N)])
        return 'J'
    c.stubs['coo'] = coo
    c.prove('returned', c.call(F, e, {}, debug, mutates=(0, 1)) == 'J')


@contract('C23')
def meaning(c):
    """the rows applied to nodal velocities: velocity of the contact point of B seen from A; impulses are equal and opposite"""
    x = Box()
    for s in 'AB':
        w = [c.real('w%s%d' % (s, i)) for i in range(3)]
        setattr(x, 'omega' + s, w + [1 - w[0] - w[1] - w[2]])
    W = c.quat_matrix(c.unit_quat('f'))
    s, t, n = [c.array(col(W, j)) for j in range(3)]
    R = rows_of(c, x, s, t, n)
    u = [c.vec('u%d' % a) for a in range(8)]
    Ju = [sum(R[i, a, j] * u[a][j] for a in range(8) for j in range(3)) for i in range(4)]
    rel = sum(x.omegaB[a] * u[4 + a] for a in range(4)) - sum(x.omegaA[a] * u[a] for a in range(4))
    c.prove('relative velocity along normal and tangents', [c.eq(Ju[0], c.dot(n, rel)), c.eq(Ju[1], c.dot(s, rel)), c.eq(Ju[2], c.dot(t, rel)), c.eq(Ju[3], 0)])
    lam = [c.real('l%d' % i) for i in range(4)]
    imp = [c.array([sum(R[i, a, j] * lam[i] for i in range(4)) for j in range(3)]) for a in range(8)]
    f = lam[0] * n + lam[1] * s + lam[2] * t
    c.prove('the impulse on a body is the contact impulse', [c.eq(sum(imp[:4]), -f), c.eq(sum(imp[4:]), f)])
    X = [c.vec('X%d' % a) for a in range(4)]
    p = sum(x.omegaA[a] * X[a] for a in range(4))
    c.prove('and acts at the contact point', c.eq(sum(c.cross(X[a], imp[a]) for a in range(4)), c.cross(p, -f)))


def library(c, e):
    """two declared pairs and the default"""
    S = c.fn(TYPES + 'SurfacesInteraction')
    lib = e.surfaces_interactions = c.fn(TYPES + 'SurfacesInteractionLibrary')()
    for i, k in enumerate((('p', 'q'), ('q', 'q'), ('default', 'default'))):
        lib.storage[k] = S()
        lib.storage[k].mu = c.array([c.positive('mu%d%d' % (i, j)) for j in range(3)])
    L = dict(lib.storage)
    return lambda a, b: L.get((min(a, b), max(a, b)), L['default', 'default'])


@contract('C23', loops=True, paths=1500)
def friction(c):
    """any number of contacts: entry k is the first coefficient of the material pair of contact k"""
    from contracts.c15_contacts import gather
    F = MOD + '.get_friction_coefficient_vector'
    K = c.size('K', 0, 3)
    e = Box()
    pair = library(c, e)

    def mk(i):
        x = Box()
        x.bodyA, x.bodyB = Box(), Box()
        for b, m in zip((x.bodyA, x.bodyB), c.choice('m%s' % (i if not c.unbounded_sizes else ''), ['pp', 'pq', 'qp', 'qq', 'rq'])):
            b.material_description = Box()
            b.material_description.name = m
        return x
    of = lambda x: pair(x.bodyA.material_description.name, x.bodyB.material_description.name)
    if not c.unbounded_sizes:
        e.contact_points = [mk(i) for i in range(int(K))]
        mu = c.call(F, e)
        c.prove('one per contact', len(mu) == K)
        c.prove('coefficient of the pair', [c.eq(mu[i], of(x).mu[0]) for i, x in enumerate(e.contact_points)])
        return
    e.contact_points = c.sequence(K, mk)
    st = gather(c, F, (e,), K, 1, e.contact_points, lambda x: [of(x).mu[0]], 'mu')
    mu = c.call(F, e, mutates=(0,))
    c.prove('one per contact', [mu is st.get('a', mu), c.eq(mu.N, K)])


@contract('C23', rows=True)
def contact_point(c):
    """stores copies; rejects normals that are far from unit length"""
    n = c.vec('n')
    if c.choice('unit', [True, False]):
        s = c.positive('s', 0.91, 1.09)
        c.requires([s > 0.9, s < 1.1])
        n = s * c.unit_vec('d')
    else:
        s = c.choice('scale', ['0', '0.5', '0.89', '1.11', '2'])
        n = c.const(s) * c.unit_vec('d')
        c.expect_raise('a normal that is not a unit vector', c.fn(TYPES + 'ContactPoint'), 1, 2, 3, 4, c.vec('wA', 4), c.vec('wB', 4), c.vec('p'), n, c.real('g'))
        return
    wA, wB, p, g = c.vec('wA', 4), c.vec('wB', 4), c.vec('p'), c.real('g')
    keep = [a + 0 for a in (wA, wB, p, n)]
    if c.sym:
        c.targets.add(TYPES + 'ContactPoint.__init__')
    x = c.fn(TYPES + 'ContactPoint')('a', 'b', 3, 5, wA, wB, p, n, g)
    c.prove('stored', [x.bodyA == 'a', x.bodyB == 'b', x.idx_tetA == 3, x.idx_tetB == 5, c.eq(x.g, g)] + [c.eq(v, k) for v, k in zip((x.omegaA, x.omegaB, x.p, x.n), keep)])
    for a in (wA, wB, p, n):
        a[0] = a[0] + 1
    c.prove('copies', [c.eq(v, k) for v, k in zip((x.omegaA, x.omegaB, x.p, x.n), keep)])


@contract('C23', rows=True)
def conditions(c):
    """conditions keep copies of the values"""
    v, w = c.vec('v'), c.vec('w')
    a, b = v + 0, w + 0
    d, t = c.fn(TYPES + 'DirichletCondition')(3, v), c.fn(TYPES + 'TractionCondition')(4, 5, 6, w)
    if c.sym:
        c.targets |= {TYPES + 'DirichletCondition.__init__', TYPES + 'TractionCondition.__init__'}
    v[0], w[1] = v[0] + 1, w[1] + 1
    c.prove('stored', [d.idx == 3, c.eq(d.value, a), (t.i, t.j, t.k) == (4, 5, 6), c.eq(t.traction, b)])


# ---- registries -------------------------------------------------------------------------------------
def body(c, n='b'):
    b = c.fn(TYPES + 'SoftBody')(n)
    b.gravity = c.vec('gravity ' + n)
    b.vol0, b.T, b.M_array, b.C_array, b.material_description = [object() for _ in range(5)]
    return b


def row(A, i):
    return A.at(i)[0] if hasattr(A, 'at') else A[i]


def material(c, n='m'):
    m = c.fn(TYPES + 'MaterialDescription')()
    m.name, m.E, m.nu, m.rho, m.c = n, c.positive('E ' + n), c.real('nu ' + n, 0, 0.5), c.positive('rho ' + n), c.positive('c ' + n)
    return m


def engine(c, bodies=None, materials=None):
    """an engine with the given entries and any number of others"""
    e = Box()
    e.bodies, e.materials = c.mapping(bodies or {}, c.size('n_bodies', 0, 2)), c.mapping(materials or {}, c.size('n_materials', 0, 2))
    e.surfaces_interactions, e.params = c.fn(TYPES + 'SurfacesInteractionLibrary')(), c.fn(TYPES + 'Parameters')()
    e.contact_points, e.number_of_nodes = [], c.integer('nodes', 0, 9, bounded=False)
    return e


def rejected(c, name, e, f, *args, exc=Exception, extra=(), **kw):
    """an error, and nothing reachable from the model changes"""
    s = c.snapshot(e, *extra)
    c.expect_raise(name + ' is rejected', c.fn(API + f), e, *args, exc=exc, **kw)
    c.prove(name + ': no change', c.unchanged(s))


@contract('C23', loops=True)
def create_material(c):
    m = material(c)
    e = engine(c, {'b': body(c)}, {'m': m})
    n, before, rest = count(c, e.materials), others(e.materials), c.snapshot(e.bodies, e.surfaces_interactions, e.params, e.number_of_nodes)
    name = c.choice('name', ['n', ''])
    c.call(API + 'create_material', e, name, mutates=(0,))
    after = others(e.materials)
    c.prove('adds exactly one entry', [c.eq(count(c, e.materials), n + 1), set(after) == set(before) | {name}] + [after[k] is before[k] for k in before])
    d = c.fn(TYPES + 'MaterialDescription')()
    c.prove('default parameters under the name', [after[name].name == name, after[name] is not m] + [getattr(after[name], k) == getattr(d, k) for k in ('E', 'nu', 'rho', 'c', 'constitutive_model')])
    c.prove('the rest is unchanged', c.unchanged(rest))
    rejected(c, 'a known name', e, 'create_material', name)
    rejected(c, 'a known name', e, 'create_material', 'm')


@contract('C23', loops=True)
def material_parameters(c):
    m, o = material(c), material(c, 'o')
    e = engine(c, {'b': body(c)}, {'m': m, 'o': o})
    what = c.choice('what', ['elasticity', 'viscosity', 'mass_density', 'constitutive_model'])
    x, y = c.real('x', -1, 1), c.real('y', -0.3, 0.8)
    before, rest = dict(m.__dict__), c.snapshot(o, e.bodies)
    f = 'set_' + what
    if what == 'constitutive_model':
        model = c.fn(MECH + c.choice('model', ['SVK', 'SNH', 'COR']))
        rejected(c, 'an unknown material', e, f, 'x', model)
        rejected(c, 'something that is not a model', e, f, 'm', Box)
        half = type('Half', (), {c.choice('half', ['pk1_stress', 'energy_density']): None})
        rejected(c, 'half a model', e, f, 'm', half)
        c.call(API + f, e, 'm', model, mutates=(0,))
        c.prove('stored', m.constitutive_model is model)
        return changed_only(c, m, ('constitutive_model',), before, rest)
    args, names = ((x, y), ('E', 'nu')) if what == 'elasticity' else ((x,), ({'viscosity': 'c', 'mass_density': 'rho'}[what],))
    rejected(c, 'an unknown material', e, f, 'x', *args)
    bad = c.or_(x <= 0, y < 0, y > c.const('0.5')) if what == 'elasticity' else x < 0
    if bad:
        return rejected(c, 'a value out of range', e, f, 'm', *args)
    c.call(API + f, e, 'm', *args, mutates=(0,))
    c.prove('stored', [c.eq(getattr(m, k), v) for k, v in zip(names, args)])
    changed_only(c, m, names, before, rest)


@contract('C23', loops=True)
def set_material(c):
    """the description is shared and mass and damping are recomputed for it"""
    b, o, m = body(c), body(c, 'o'), material(c)
    b.is_lumped = c.boolean('lumped')
    e = engine(c, {'b': b, 'o': o}, {'m': m})
    if c.sym:
        made = object(), object()

        def arrays(what, i):
            def f(v, vol, T, lumped):
                c.prove('%s of the body made of the new material' % what, [v is getattr(m, what), vol is b.vol0, T is b.T, lumped is b.is_lumped])
                return made[i]
            return f
        c.replace(NAT + 'compute_mass_element_array', arrays('rho', 0))
        c.replace(NAT + 'compute_damping_element_array', arrays('c', 1))
    else:
        import numpy
        X, b.T = small_mesh(c)
        b.vol0 = numpy.array([vol(c, X[t]) for t in b.T])
        made = [c.fn(NAT + 'compute_%s_element_array' % k)(v, b.vol0, b.T, b.is_lumped) for k, v in (('mass', m.rho), ('damping', m.c))]
    rejected(c, 'an unknown body', e, 'set_material', 'x', 'm')
    rejected(c, 'an unknown material', e, 'set_material', 'b', 'x')
    before, rest = dict(b.__dict__), c.snapshot(o, m)
    c.call(API + 'set_material', e, 'b', 'm', mutates=(0,))
    c.prove('the description is shared', b.material_description is m)
    c.prove('mass and damping', [a is k if c.sym else c.eq(a, k) for a, k in zip((b.M_array, b.C_array), made)])
    changed_only(c, b, ('material_description', 'M_array', 'C_array'), before, rest)


@contract('C23', loops=True)
def set_gravity(c):
    b, o = body(c), body(c, 'o')
    e = engine(c, {'b': b, 'o': o})
    g = c.vec('g')
    rejected(c, 'an unknown body', e, 'set_gravity', 'x', g)
    rejected(c, 'a vector of two', e, 'set_gravity', 'b', [g[0], g[1]])
    before, rest, keep = dict(b.__dict__), c.snapshot(o), g + 0
    c.call(API + 'set_gravity', e, 'b', g, mutates=(0,))
    changed_only(c, b, ('gravity',), before, rest)
    g[0] = g[0] + 1
    c.prove('a copy is stored', c.eq(b.gravity, keep))


@contract('C23', loops=True)
def set_type(c):
    b, o = body(c), body(c, 'o')
    b.is_fixed = c.boolean('was')
    e = engine(c, {'b': b, 'o': o})
    kind = c.choice('kind', [('fixed', True), ('Fixed', True), ('FIXED', True), ('free', False), ('Free', False), ('FREE', False), ('other', None), ('', None)])
    rejected(c, 'an unknown body', e, 'set_type', 'x', kind[0])
    if kind[1] is None:
        return rejected(c, 'an unknown type', e, 'set_type', 'b', kind[0])
    before, rest = dict(b.__dict__), c.snapshot(o)
    c.call(API + 'set_type', e, 'b', kind[0], mutates=(0,))
    c.prove('type is stored', b.is_fixed is kind[1])
    changed_only(c, b, ('is_fixed',), before, rest)


@contract('C23', loops=True)
def set_velocity(c):
    """any number of nodes: all get the velocity"""
    b, o = body(c), body(c, 'o')
    N = c.size('N', 0, 4)
    b.u = c.table('u', N, 3)
    e = engine(c, {'b': b, 'o': o})
    v = c.vec('v')
    rejected(c, 'an unknown body', e, 'set_velocity', 'x', v)
    rejected(c, 'a vector of two', e, 'set_velocity', 'b', [v[0], v[1]])
    before, rest, keep = dict(b.__dict__), c.snapshot(o), v + 0
    F = API + 'set_velocity'
    if c.unbounded_sizes:
        j, st = c.index('j', N), {}

        def havoc(env, k):
            b.u.assign(c.table('w', N, 3))

        def inv(env, k):
            if c.phase == 'preserved':
                return [c.implies(j < k, c.eq(b.u[j], v)), b.u is before['u']]
            return [c.implies(j < k, c.eq(b.u[j], v))]
        c.invariant(F, 1, inv, havoc, modifies=('body', 'b', 'engine'))
    c.call(F, e, 'b', v, mutates=(0,))
    rows = [b.u[j]] if c.unbounded_sizes else [b.u[i] for i in range(int(N))]
    c.prove('all nodes have the velocity', [c.eq(r, keep) for r in rows])
    changed_only(c, b, ('u',), before, rest)
    v[0] = v[0] + 1
    c.prove('a copy is stored', [c.eq(r, keep) for r in ([b.u[j]] if c.unbounded_sizes else rows)])


@contract('C23', loops=True)
def coordinates(c):
    """copies in both directions"""
    b, o = body(c), body(c, 'o')
    b.x0, b.x = c.mat('x0', 4, 3), c.mat('x', 4, 3)
    e = engine(c, {'b': b, 'o': o})
    y = c.mat('y', 4, 3)
    rejected(c, 'an unknown body', e, 'set_spatial_coordinates', 'x', y)
    rejected(c, 'too many nodes', e, 'set_spatial_coordinates', 'b', c.mat('z', 5, 3))
    rejected(c, 'an unknown body', e, 'get_material_coordinates', 'x')
    before, rest = dict(b.__dict__), c.snapshot(o)
    x0, keep = b.x0 + 0, y + 0
    c.call(API + 'set_spatial_coordinates', e, 'b', y, mutates=(0,))
    changed_only(c, b, ('x',), before, rest)
    y[1, 2] = y[1, 2] + 1
    c.prove('a copy is stored', c.eq(b.x, keep))
    z = c.call(API + 'get_material_coordinates', e, 'b')
    c.prove('coordinates', c.eq(z, x0))
    z[0, 0] = z[0, 0] + 1
    c.prove('a copy is returned', c.eq(b.x0, x0))


@contract('C23', loops=True, paths=2000)
def create_interaction(c):
    m = {k: material(c, k) for k in 'pqr'}
    e = engine(c, {}, m)
    lib = e.surfaces_interactions.storage
    S = c.fn(TYPES + 'SurfacesInteraction')
    for pair in (('p', 'q'), ('q', 'q')):
        if c.boolean('has %s%s' % pair):
            lib[pair] = S()
    x, y, mu = c.choice('x', 'pqr'), c.choice('y', 'pqr'), c.real('mu', -1, 1)
    before = dict(lib)
    f = 'create_surfaces_interaction'
    rejected(c, 'an unknown material', e, f, x, 'z', mu)
    rejected(c, 'an unknown material', e, f, 'z', y, mu)
    if (min(x, y), max(x, y)) in lib:
        return rejected(c, 'a described pair', e, f, x, y, mu)
    if mu < 0:
        return rejected(c, 'a negative coefficient', e, f, x, y, mu)
    c.call(API + f, e, x, y, mu, mutates=(0,))
    c.prove('adds exactly one description', [set(lib) == set(before) | {(min(x, y), max(x, y))}] + [lib[k] is before[k] for k in before])
    for k in ((x, y), (y, x)):
        g = c.call(e.surfaces_interactions.get_interaction, *k)
        c.prove('stores the coefficient', [c.eq(g.mu[0], mu), c.call(e.surfaces_interactions.exist_interaction, *k) is True])


@contract('C23', loops=True, paths=1000)
def lookup(c):
    """the names of the two materials in every order relation, any described pairs"""
    L = c.fn(TYPES + 'SurfacesInteractionLibrary')()
    S, lib = c.fn(TYPES + 'SurfacesInteraction'), L.storage
    for pair in (('p', 'q'), ('q', 'q')):
        if c.boolean('has %s%s' % pair):
            lib[pair] = S()
    x, y = c.choice('x', 'pqr'), c.choice('y', 'pqr')
    s = c.snapshot(L)
    got = [c.call(L.get_interaction, *k) for k in ((x, y), (y, x))]
    want = lib.get((min(x, y), max(x, y)), lib[('default', 'default')])
    c.prove('found in either order, default if not listed', [g is want for g in got])
    c.prove('existence', [c.call(L.exist_interaction, *k) is ((min(x, y), max(x, y)) in lib) for k in ((x, y), (y, x))])
    c.prove('named in some description', [c.call(L.exist_material, n) is any(n in k for k in lib) for n in ('p', 'q', 'r', 'default')])
    c.prove('nothing changes', c.unchanged(s))
    if c.sym:
        c.targets |= {TYPES + 'SurfacesInteractionLibrary.' + k for k in ('get_interaction', 'exist_interaction', 'exist_material')}


# ---- conditions -------------------------------------------------------------------------------------
class Recorder:
    def __init__(self, c, N, had):
        self.had, self.new = had, []

    def append(self, x):
        self.new.append(x)

    def __pv_state__(self):
        return len(self.new)


@contract('C23', loops=True)
def dirichlet(c):
    """any number of nodes: a condition for exactly the nodes inside, at their undeformed positions"""
    F = API + 'create_dirichlet_conditions'
    b, o = body(c), body(c, 'o')
    e = engine(c, {'b': b, 'o': o})
    rejected(c, 'an unknown body', e, 'create_dirichlet_conditions', 'x', lambda x: 0)
    N = c.size('N', 0, 4)
    b.x0 = c.table('x0', N, 3)
    a = c.vec('a')
    phi = lambda x: c.dot(a, x)
    rest = c.snapshot(o)
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        old = b.dirichlet_conditions = [object()][:c.choice('had', [0, 1])]
        had = list(old)
        c.call(F, e, 'b', phi, mutates=(0,))
        got = b.dirichlet_conditions
        c.prove('earlier conditions are kept', [got[:len(had)] == had])
        c.prove('nodes inside', [d.idx for d in got[len(had):]] == [i for i in range(int(N)) if c.dot(a, b.x0[i]) <= 0])
        c.prove('undeformed positions', [c.eq(d.value, b.x0[d.idx]) for d in got[len(had):]])
        return c.prove('other body', c.unchanged(rest))
    st = {}
    R = b.dirichlet_conditions = Recorder(c, N, None)

    def inv(env, k):
        if c.phase == 'entry':
            return [R.new == []]
        if c.phase != 'preserved':
            return [True]
        i = k - 1
        inside = c.dot(a, b.x0.at(i)[0]) <= 0
        return [c.iff(inside, len(R.new) == 1), len(R.new) <= 1, b.dirichlet_conditions is R] + [x for d in R.new for x in (c.eq(d.idx, i), c.eq(d.value, b.x0.at(i)[0]))]

    def havoc(env, k):
        R.new.clear()
    c.invariant(F, 1, inv, havoc, modifies=('body', 'b', 'engine'))
    c.call(F, e, 'b', phi, mutates=(0,))
    c.prove('nothing else', [R.new == [], b.dirichlet_conditions is R, c.unchanged(rest)])


@contract('C23', loops=True)
def traction(c):
    """any number of surface triangles: a condition for exactly those with all three nodes inside"""
    F = API + 'create_traction_conditions'
    b, o = body(c), body(c, 'o')
    e = engine(c, {'b': b, 'o': o})
    load = c.vec('load')
    rejected(c, 'an unknown body', e, 'create_traction_conditions', 'x', lambda x: 0, load)
    rejected(c, 'a load that is not an array', e, 'create_traction_conditions', 'b', lambda x: 0, 3)
    a = c.vec('a')
    phi = lambda x: c.dot(a, x)
    rest = c.snapshot(o)
    H, N = c.size('H', 0, 4), c.size('N', 3, 5)
    b.x0 = c.table('x0', N, 3)
    b.surface = c.table('S', H, 3, integer=True, within=(0, N))
    inside = lambda t: c.and_(*[c.dot(a, row(b.x0, t[q])) <= 0 for q in range(3)])
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        b.traction_conditions = [object()][:c.choice('had', [0, 1])]
        had = list(b.traction_conditions)
        keep = load.copy()
        c.call(F, e, 'b', phi, load, mutates=(0,))
        load[0] += 1
        got = b.traction_conditions
        c.prove('earlier conditions are kept', got[:len(had)] == had)
        c.prove('triangles inside', [(d.i, d.j, d.k) for d in got[len(had):]] == [tuple(t) for t in b.surface if inside(t)])
        c.prove('the load', [c.eq(d.traction, keep) for d in got[len(had):]])
        return
    R = b.traction_conditions = Recorder(c, H, None)

    def inv(env, k):
        if c.phase == 'entry':
            return [R.new == []]
        if c.phase != 'preserved':
            return [True]
        t = b.surface.at(k - 1)[0]
        return [c.iff(inside(t), len(R.new) == 1), len(R.new) <= 1, b.traction_conditions is R] + [
            x for d in R.new for x in (c.eq(d.i, t[0]), c.eq(d.j, t[1]), c.eq(d.k, t[2]), c.eq(d.traction, load))]

    def havoc(env, k):
        R.new.clear()
    c.invariant(F, 1, inv, havoc, modifies=('body', 'b', 'engine'))
    c.call(F, e, 'b', phi, load, mutates=(0,))
    c.prove('nothing else', [R.new == [], b.traction_conditions is R, c.unchanged(rest)])


# ---- creation ---------------------------------------------------------------------------------------
class Opaque:
    def __init__(self, n, name):
        self.n, self.name = n, name

    def __pv_len__(self):
        return self.n


@contract('C23', loops=True)
def create_soft_body(c):
    """any mesh and any number of bodies before: nodes get the range after all others; everything is computed from the sorted mesh"""
    if not c.sym:
        return concrete_create(c)
    o = body(c, 'o')
    e = engine(c, {'o': o})
    P = e.params
    P.envelope, P.resolution, P.use_spatial_hashing, P.K, P.bvh_chunk_size = c.positive('envelope'), 7, c.boolean('hashing'), 4, 17
    h = e.hash_grid = Box()
    h.cell_size = c.choice('cell', ['none', 'some'])
    had = h.cell_size == 'some'
    h.cell_size = c.positive('cell size') if had else 0
    h.grown, old = [], h.cell_size
    h.increment_hash_table_size = h.grown.append
    N = c.size('N', 4, 6)
    if not c.unbounded_sizes:
        return c.requires(False)
    V, T4 = c.table('V', N, 3), c.table('T', c.size('K', 1, 3), 4, integer=True, within=(0, N))
    made = {k: Opaque(None, k) for k in ('vol0', 'gradN0', 'invD0', 'neighbors', 'owners', 'grid', 'bvh')}
    made['surface'] = Opaque(c.integer('H', 0, 9, bounded=False), 'surface')
    axis, size, st = object(), c.positive('optimal'), {}
    M, S, G = 'rainbow.geometry.volume_mesh.', 'rainbow.geometry.surface_mesh.', 'rainbow.geometry.'
    X = lambda A: c.eq(row(A, st['j']), row(st['V'], st['j']))

    def variance(v):
        c.prove('axis of the mesh given', v is V)
        return axis

    def sort(mesh, a):
        c.prove('sorted along that axis', [a is axis, mesh.V is not V, mesh.T is not T4])
        j = c.index('j0', N)
        c.prove('the mesh given is sorted', [c.eq(row(mesh.V, j), row(V, j))])
        st['V'] = mesh.V = c.table('sorted V', N, 3)
        st['T'] = mesh.T = c.table('sorted T', T4.N, 4, integer=True, within=(0, N))
        st['j'], st['k'] = c.index('j', N), c.index('k', T4.N)
    c.replace('rainbow.math.functions.direction_of_most_variance', variance)
    c.replace(S + 'axis_sort', sort)

    def of_mesh(name, tets=True):
        def f(x, T_):
            c.prove('%s of the undeformed sorted mesh' % name, [X(x), c.eq(row(T_, st['k']), row(st['T'], st['k']))])
            return made[name]
        return f
    c.replace(M + 'compute_volumes', of_mesh('vol0'))
    c.replace(NAT + 'compute_outward_face_vectors', of_mesh('gradN0'))
    c.replace(NAT + 'compute_inverse_D0', of_mesh('invD0'))
    same_T = lambda T_: c.eq(row(T_, st['k']), row(st['T'], st['k']))

    def neighbors(T_):
        c.prove('neighbours of the sorted mesh', same_T(T_))
        return made['neighbors']

    def surface(T_, n):
        c.prove('surface of the sorted mesh', [same_T(T_), n is made['neighbors']])
        return made['surface'], made['owners']
    c.replace(M + 'compute_neighbors', neighbors)
    c.replace(M + 'compute_surface', surface)
    lo, hi = c.vec('lo'), c.vec('hi')

    def sdf(x, tri, i, j, k, boundary):
        c.prove('distance field of the undeformed surface', [X(x), tri is made['surface'], (i, j, k) == (7, 7, 7)])
        c.prove('the field reaches beyond the envelope', c.le(2 * P.envelope, boundary))
        return made['grid']
    c.replace(G + 'grid3.create_signed_distance', sdf)

    def optimal(x, tri):
        c.prove('cell size of the undeformed surface', [X(x), tri is made['surface']])
        return size
    c.mod(G + 'spatial_hashing').HashGird.compute_optial_cell_size = staticmethod(optimal)

    def bvh(x, tri, K, chunk, env):
        c.prove('bounding volumes of the surface, grown by the envelope', [X(x), tri is made['surface'], K == 4, chunk == 17, c.eq(env, P.envelope)])
        return made['bvh']
    c.replace(G + 'kdop_bvh.make_bvh', bvh)
    n, nodes, before, rest = count(c, e.bodies), e.number_of_nodes, others(e.bodies), c.snapshot(o, e.materials, e.surfaces_interactions, P)
    rejected(c, 'a known name', e, 'create_soft_body', 'o', V, T4, extra=(V, T4))
    c.call(API + 'create_soft_body', e, 'b', V, T4, mutates=(0,))
    after = others(e.bodies)
    c.prove('adds exactly one entry', [c.eq(count(c, e.bodies), n + 1), set(after) == set(before) | {'b'}, after['o'] is o, c.unchanged(rest)])
    b = after['b']
    c.prove('range after all others', [c.eq(b.offset, nodes), c.eq(e.number_of_nodes, nodes + N), c.eq(b.idx, n), b.name == 'b'])
    c.prove('undeformed and deformed coordinates', [X(b.x0), X(b.x), b.x is not b.x0, same_T(b.T), c.eq(b.x.N, N), c.eq(b.x0.N, N)])
    c.prove('at rest', [c.eq(row(b.u, st['j']), c.array([0, 0, 0])), c.eq(b.u.N, N)])
    c.prove('free, no conditions', [b.is_fixed is False, b.dirichlet_conditions == [], b.traction_conditions == []])
    c.prove('everything made is stored', [getattr(b, k) is made[k] for k in ('vol0', 'gradN0', 'invD0', 'neighbors', 'surface', 'owners', 'grid')])
    if P.use_spatial_hashing:
        c.prove('the hash grid grows by the surface', [len(h.grown) == 1, c.eq(h.grown[0], made['surface'].n)])
        c.prove('cell size', c.eq(h.cell_size, (size + old) / 2 if had else size))
    else:
        c.prove('bounding volumes', [b.bvh is made['bvh'], h.grown == [], h.cell_size is old])
    b.x.assign(c.table('moved', N, 3))
    c.prove('coordinates are kept apart', X(b.x0))


def concrete_create(c):
    import numpy
    e = new_engine(c)
    e.params.use_spatial_hashing, e.params.resolution, e.params.envelope = c.boolean('hashing'), 5, c.choice('envelope', [0.1, 0.6])
    total = 0
    for i in range(c.choice('count', [1, 2, 3])):
        V, T4 = c.fn('rainbow.geometry.volume_mesh.create_beam')(*c.choice('size%d' % i, [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]), 1.0, 2.0, 1.5)
        V = V @ numpy.array(c.quat_matrix(c.unit_quat('q%d' % i))).T + c.vec('t%d' % i)
        perm = numpy.argsort([c.real('p%d %d' % (i, j)) for j in range(len(V))])
        V, T4 = V[perm], numpy.argsort(perm)[T4]
        V0, T0 = V.copy(), T4.copy()
        c.call(API + 'create_soft_body', e, 'b%d' % i, V, T4, mutates=(0,))
        b = e.bodies['b%d' % i]
        tets = lambda X, T_: sorted(sorted(tuple(numpy.round(X[k], 9)) for k in t) for t in T_)
        c.prove('the mesh given is unchanged', bool((V == V0).all() and (T4 == T0).all()))
        c.prove('the same elements', tets(b.x0, b.T) == tets(V, T4))
        c.prove('deformed like undeformed, at rest', [c.eq(b.x, b.x0), c.eq(b.u, 0 * b.x0), not numpy.shares_memory(b.x, b.x0)])
        c.prove('volumes', [c.close(v, vol(c, b.x0[t]), 1e-9) for v, t in zip(b.vol0, b.T)] + [len(b.vol0) == len(b.T), c.close(sum(b.vol0), 3.0, 1e-9)])
        c.prove('range after all others', [b.offset == total, b.idx == i])
        total += len(V)
        reach = 2 * e.params.envelope - 1e-9
        c.prove('the field reaches beyond the envelope', [(b.grid.min_coord <= b.x0.min(axis=0) - reach).all(), (b.grid.max_coord >= b.x0.max(axis=0) + reach).all()])
        c.prove('nodes', e.number_of_nodes == total)
        c.prove('shape functions', [c.close(b.invD0[k] @ numpy.array([b.x0[t[q]] - b.x0[t[0]] for q in (1, 2, 3)]).T, numpy.eye(3), 1e-8) for k, t in enumerate(b.T)])
        keep = c.snapshot(e)
        rejected(c, 'a known name', e, 'create_soft_body', 'b%d' % i, V, T4)


@contract('C23', loops=True)
def prescribe(c):
    """any number of conditions: the rows of a prescribed node become the identity and its right-hand side the prescribed value"""
    F = NAT + 'apply_dirichlet_conditions'
    D = c.fn(TYPES + 'DirichletCondition')
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        N = 4
        A, b = c.mat('A', 12, 12), c.vec('b', 12)
        nodes = [i for i in range(N) if c.boolean('on%d' % i)]
        ds = [D(i, c.vec('v%d' % i)) for i in nodes]
        A0, b0 = A.copy(), b.copy()
        c.call(F, ds, A, b, mutates=(1, 2))
        I = numpy.eye(12)
        for i in range(N):
            for r in range(3 * i, 3 * i + 3):
                c.prove('row', [c.eq(A[r], I[r] if i in nodes else A0[r]), c.eq(b[r], ds[nodes.index(i)].value[r - 3 * i] if i in nodes else b0[r])])
        return
    one = {}

    class Rec:
        def __init__(self):
            self.log = []

        def __setitem__(self, k, v):
            self.log.append((k, v))

        def __pv_state__(self):
            return len(self.log)
    A, b = Rec(), Rec()

    def mk(i):
        one['d'] = D(c.index('idx', c.size('N', 1, 3)), c.vec('v'))
        return one['d']

    def inv(env, k):
        if c.phase == 'entry':
            return [A.log == [], b.log == []]
        if c.phase != 'preserved':
            return [True]
        d = one['d']
        own = lambda s: c.and_(s.step is None, c.eq(s.start, 3 * d.idx), c.eq(s.stop, 3 * d.idx + 3))
        out = [len(A.log) == 2, len(b.log) == 1]
        if A.log and len(A.log) == 2 and len(b.log) == 1:
            (k1, v1), (k2, v2) = A.log
            out += [own(k1[0]), k1[1] == slice(None), c.eq(v1, 0), own(k2[0]), own(k2[1]), c.eq(c.array(v2), c.identity(3)), own(b.log[0][0]), c.eq(b.log[0][1], d.value)]
        return out

    def havoc(env, k):
        A.log.clear()
        b.log.clear()
    c.invariant(F, 1, inv, havoc, modifies=('A', 'b'))
    c.call(F, c.sequence(c.size('K', 0, 3), mk), A, b, mutates=(1, 2))
    c.prove('nothing else', [A.log == [], b.log == []])


@contract('C23')
def fresh_engine(c):
    """a new engine is empty but for the default material; engines share nothing (the 8 GB hash grid is left out)"""
    SH = c.fn(TYPES + 'Engine.__init__').__globals__['SH']
    old, grids = SH.HashGird, []
    SH.HashGird = lambda: grids.append(Box()) or grids[-1]
    try:
        e, f = c.fn(API + 'create_engine')(), c.fn(API + 'create_engine')()
    finally:
        SH.HashGird = old
    c.prove('empty', [len(e.bodies) == 0, len(e.contact_points) == 0, e.number_of_nodes == 0, list(e.materials) == ['default'], e.simulator_type == 'soft_body', e.stepper is None])
    c.prove('default material', [isinstance(e.materials['default'], c.fn(TYPES + 'MaterialDescription')), e.materials['default'].name == c.fn(TYPES + 'MaterialDescription')().name])
    d = e.surfaces_interactions.get_interaction('default', 'default')
    c.prove('default surface', c.eq(c.array(list(d.mu)), c.array([1, 1, 1])))
    c.prove('engines share nothing', [getattr(e, k) is not getattr(f, k) for k in ('materials', 'bodies', 'contact_points', 'surfaces_interactions', 'params', 'hash_grid')] + [e.materials['default'] is not f.materials['default']])
    if c.sym:
        c.targets.add(API + 'create_engine')
        c.targets.add(TYPES + 'Engine.__init__')
