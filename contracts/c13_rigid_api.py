"""C13: building rigid body models (rainbow/simulators/prox_rigid_bodies/api.py, types.py)"""
from pv.check import contract
A = 'rainbow.simulators.prox_rigid_bodies.api.'
T = 'rainbow.simulators.prox_rigid_bodies.types.'
KINDS = ('bodies', 'hinges', 'shapes', 'forces')


def engine(c, **known):
    """an engine with the given entries and any number of others"""
    e = c.fn(T + 'Engine')()
    for k in KINDS:
        setattr(e, k, c.mapping(known.get(k, {}), c.size('n_' + k, 0, 2)))
    return e


def pose(c, b, n):
    b.r, b.q, b.v, b.w = c.vec('r' + n), c.unit_quat('q' + n), c.vec('v' + n), c.vec('w' + n)
    return b


def body(c, n='b', shape=True):
    b = pose(c, c.fn(T + 'RigidBody')(n), n)
    if shape:
        s = b.shape = c.fn(T + 'Shape')('s' + n)
        s.r, s.q, s.mass, s.inertia = c.vec('sr' + n), c.unit_quat('sq' + n), c.positive('m' + n), c.vec('I' + n)
    return b


def rejected(c, name, e, f, *args, exc=RuntimeError, extra=(), **kw):
    """an error, and nothing reachable from the model changes"""
    s = c.snapshot(e, *extra)
    c.expect_raise(name + ' is rejected', c.fn(A + f), e, *args, exc=exc, **kw)
    c.prove(name + ': no change', c.unchanged(s))


def count(c, d):
    return d.__pv_len__() if hasattr(d, '__pv_len__') else len(d)


def others(d):
    return {k: v for k, v in dict.items(d)}


def only(c, e, kind, name, before, ncount, rest):
    """exactly one new entry"""
    d = getattr(e, kind)
    after = others(d)
    c.prove('adds exactly one entry', [c.eq(count(c, d), ncount + 1), set(after) == set(before) | {name}] + [after[k] is before[k] for k in before])
    c.prove('the other collections are unchanged', c.unchanged(rest))


def rest_of(c, e, kind):
    return c.snapshot(*[getattr(e, k) for k in KINDS if k != kind], e.surfaces_interactions, e.params, e.contact_points)


@contract('C13', loops=True)
def create_rigid_body(c):
    e = engine(c, bodies={'a': body(c, 'a')})
    n, before, rest = count(c, e.bodies), others(e.bodies), rest_of(c, e, 'bodies')
    name = c.choice('name', ['b', ''])
    c.call(A + 'create_rigid_body', e, name, mutates=(0,))
    only(c, e, 'bodies', name, before, n, rest)
    b = e.bodies[name]
    c.prove('index and name', [c.eq(b.idx, n), b.name == name])
    c.prove('at rest at the origin, free, default material, no forces', [c.eq(b.r, c.array([0, 0, 0])), c.eq(b.q, c.array([1, 0, 0, 0])), c.eq(b.v, c.array([0, 0, 0])),
            c.eq(b.w, c.array([0, 0, 0])), b.is_fixed is False, b.material == 'default', b.forces == [], b.shape is None])
    rejected(c, 'duplicate body', e, 'create_rigid_body', name)
    rejected(c, 'duplicate body', e, 'create_rigid_body', 'a')


@contract('C13', loops=True)
def create_two_bodies(c):
    """bodies do not share mutable state"""
    e = engine(c)
    c.call(A + 'create_rigid_body', e, 'a', mutates=(0,))
    c.call(A + 'create_rigid_body', e, 'b', mutates=(0,))
    a, b = e.bodies['a'], e.bodies['b']
    c.prove('distinct indices', c.eq(b.idx, a.idx + 1))
    c.prove('no shared state', [a is not b, a.forces is not b.forces] + [getattr(a, k) is not getattr(b, k) for k in 'rqvw'] + [a.inertia is not b.inertia])


@contract('C13', loops=True)
def create_hinge(c):
    e = engine(c, hinges={'a': c.fn(T + 'Hinge')('a')})
    n, before, rest = count(c, e.hinges), others(e.hinges), rest_of(c, e, 'hinges')
    c.call(A + 'create_hinge', e, 'h', mutates=(0,))
    only(c, e, 'hinges', 'h', before, n, rest)
    h = e.hinges['h']
    c.prove('index and name', [c.eq(h.idx, n), h.name == 'h', h.parent is None, h.child is None])
    rejected(c, 'duplicate hinge', e, 'create_hinge', 'h')
    rejected(c, 'duplicate hinge', e, 'create_hinge', 'a')


@contract('C13', loops=True)
def create_gravity(c):
    e = engine(c, forces={'a': c.fn(T + 'Gravity')('a')})
    g, up = c.real('g'), c.vec('up')
    n, before, rest = count(c, e.forces), others(e.forces), rest_of(c, e, 'forces')
    rejected(c, 'duplicate force', e, 'create_gravity_force', 'a', g, up)
    if g <= 0:
        rejected(c, 'gravity that is not positive', e, 'create_gravity_force', 'f', g, up)
        return
    c.requires(c.dot(up, up) > c.const('0.01'))
    c.call(A + 'create_gravity_force', e, 'f', g, up, mutates=(0,))
    only(c, e, 'forces', 'f', before, n, rest)
    f = e.forces['f']
    c.prove('stores the acceleration and the unit direction', [f.g is g or c.eq(f.g, g), c.eq(f.up * c.norm(up), up)])
    b = body(c, 'b', False)
    b.mass = c.positive('m')
    F, M = c.call(f.compute, b, c.vec('r'), c.unit_quat('q'), c.vec('v'), c.vec('w'))
    c.targets.add(T + 'Gravity.compute') if c.sym else None
    c.prove('force is minus mass times gravity along up, no torque', [c.eq(F * c.norm(up), -b.mass * g * up), c.eq(M, c.array([0, 0, 0]))])


@contract('C13', loops=True)
def create_damping(c):
    e = engine(c, forces={'a': c.fn(T + 'Gravity')('a')})
    al, be = c.real('alpha'), c.real('beta')
    n, before, rest = count(c, e.forces), others(e.forces), rest_of(c, e, 'forces')
    rejected(c, 'duplicate force', e, 'create_damping_force', 'a', al, be)
    if c.or_(al <= 0, be <= 0):
        rejected(c, 'damping that is not positive', e, 'create_damping_force', 'f', al, be)
        return
    c.call(A + 'create_damping_force', e, 'f', al, be, mutates=(0,))
    only(c, e, 'forces', 'f', before, n, rest)
    f, v, w = e.forces['f'], c.vec('v'), c.vec('w')
    F, M = c.call(f.compute, body(c, 'b', False), c.vec('r'), c.unit_quat('q'), v, w)
    c.targets.add(T + 'Damping.compute') if c.sym else None
    c.prove('force and torque oppose the velocities', [c.eq(F, -al * v), c.eq(M, -be * w)])


@contract('C13', loops=True)
def connect_force(c):
    f, g = c.fn(T + 'Gravity')('f'), c.fn(T + 'Damping')('g')
    b, o = body(c, 'b', False), body(c, 'o', False)
    had = c.choice('had', [0, 1, 2])
    b.forces = [g, c.fn(T + 'Gravity')('h')][:had]
    before = list(b.forces)
    e = engine(c, bodies={'b': b, 'o': o}, forces={'f': f, 'g': g})
    rejected(c, 'unknown body', e, 'connect_force', 'x', 'f')
    rejected(c, 'unknown force', e, 'connect_force', 'b', 'x')
    s = c.snapshot(o, e.forces)
    c.call(A + 'connect_force', e, 'b', 'f', mutates=(0,))
    c.prove('appends the force to the body', [len(b.forces) == had + 1, b.forces[-1] is f] + [x is y for x, y in zip(b.forces, before)])
    c.prove('nothing else changes', c.unchanged(s))
    rejected(c, 'a force that is connected already', e, 'connect_force', 'b', 'f')


@contract('C13', loops=True)
def unknown_names(c):
    b = body(c, 'b')
    e = engine(c, bodies={'b': b}, shapes={'s': b.shape})
    x3, q = c.vec('x'), c.unit_quat('q')
    for f, args in (('set_position', (x3,)), ('set_orientation', (q,)), ('set_velocity', (x3,)), ('set_spin', (x3,)), ('get_position', ()), ('get_orientation', ()),
                    ('get_velocity', ()), ('get_spin', ()), ('set_mass_properties', (c.positive('rho'),)), ('set_body_type', ('fixed',)), ('is_fixed_body', ()),
                    ('set_body_material', ('default',)), ('connect_shape', ('s',))):
        rejected(c, f + ' of an unknown body', e, f, 'x', *args)
    rejected(c, 'connecting an unknown shape', e, 'connect_shape', 'b', 'x')
    rejected(c, 'an unknown body type', e, 'set_body_type', 'b', 'floating')
    rejected(c, 'an unknown material', e, 'set_body_material', 'b', 'rubber')


def changed_only(c, o, names, before, rest):
    c.prove('nothing else changes', [getattr(o, k) is v for k, v in before.items() if k not in names] + [c.unchanged(rest)])


@contract('C13', loops=True)
def plain_state(c):
    """position, velocity, spin and orientation of the body frame: stored and read back"""
    b, o = body(c, 'b'), body(c, 'o')
    e = engine(c, bodies={'b': b, 'o': o})
    what = c.choice('what', [('position', 'r'), ('velocity', 'v'), ('spin', 'w'), ('orientation', 'q')])
    x = c.vec('x', 4 if what[1] == 'q' else 3)
    if what[1] == 'q':
        c.requires(c.dot(x, x) > c.const('0.01'))
    before, rest = dict(b.__dict__), c.snapshot(o, b.shape)
    c.call(A + 'set_' + what[0], e, 'b', x, mutates=(0,))
    y = c.call(A + 'get_' + what[0], e, 'b')
    if what[1] == 'q':
        c.prove('stored as a unit orientation', [c.eq(c.dot(b.q, b.q), 1), c.eq(b.q * c.norm(x), x)])
    else:
        c.prove('stored exactly', c.eq(getattr(b, what[1]), x))
    c.prove('read back', c.eq(y, getattr(b, what[1])))
    changed_only(c, b, (what[1],), before, rest)
    kept = getattr(b, what[1]).copy()
    y[0] = y[0] + 1
    x[1] = x[1] + 1
    c.prove('the model does not share storage with arguments and results', c.eq(getattr(b, what[1]), kept))


def model_frame(c, b):
    """world frame of the model frame (rotation matrix and origin), from body frame = model frame composed with the stored offset"""
    R = c.mm(c.quat_matrix(b.q), c.transpose(c.quat_matrix(b.shape.q)))
    return R, b.r - c.mv(R, b.shape.r)


@contract('C13', loops=True)
def model_position(c):
    b, o = body(c, 'b'), body(c, 'o')
    e = engine(c, bodies={'b': b, 'o': o})
    x = c.vec('x')
    before, rest = dict(b.__dict__), c.snapshot(o, b.shape)
    R, _ = model_frame(c, b)
    c.call(A + 'set_position', e, 'b', x, True, mutates=(0,))
    R2, o2 = model_frame(c, b)
    c.prove('model frame origin is where it was asked', c.eq(o2, x))
    c.prove('model frame orientation is kept', c.eq(R2, R))
    changed_only(c, b, ('r',), before, rest)


@contract('C13', loops=True)
def model_orientation(c):
    b, o = body(c, 'b'), body(c, 'o')
    e = engine(c, bodies={'b': b, 'o': o})
    x = c.unit_quat('x')
    lam = c.positive('lam')
    before, rest = dict(b.__dict__), c.snapshot(o, b.shape)
    _, org = model_frame(c, b)
    c.call(A + 'set_orientation', e, 'b', lam * x, True, mutates=(0,))
    R2, o2 = model_frame(c, b)
    c.prove('model frame has the orientation asked for', c.eq(R2, c.quat_matrix(x)))
    c.prove('model frame origin is kept', c.eq(o2, org))
    c.prove('unit orientation', c.eq(c.dot(b.q, b.q), 1))
    changed_only(c, b, ('r', 'q'), before, rest)


@contract('C13', loops=True)
def mass_properties(c):
    b, o = body(c, 'b'), body(c, 'o', False)
    e = engine(c, bodies={'b': b, 'o': o})
    rho = c.positive('rho')
    before, rest = dict(b.__dict__), c.snapshot(o, b.shape)
    c.call(A + 'set_mass_properties', e, 'b', rho, mutates=(0,))
    c.prove('mass and inertia of the shape times the density', [c.eq(b.mass, rho * b.shape.mass), c.eq(b.inertia, rho * b.shape.inertia)])
    changed_only(c, b, ('mass', 'inertia'), before, rest)
    rejected(c, 'a body without shape', e, 'set_mass_properties', 'o', rho)


@contract('C13', loops=True)
def body_type(c):
    b, o = body(c, 'b'), body(c, 'o')
    b.is_fixed = c.boolean('was')
    e = engine(c, bodies={'b': b, 'o': o})
    kind = c.choice('kind', [('fixed', True), ('Fixed', True), ('FIXED', True), ('free', False), ('Free', False), ('FREE', False)])
    before, rest = dict(b.__dict__), c.snapshot(o, b.shape)
    c.call(A + 'set_body_type', e, 'b', kind[0], mutates=(0,))
    c.prove('type is stored', [b.is_fixed is kind[1], c.call(A + 'is_fixed_body', e, 'b') is kind[1]])
    changed_only(c, b, ('is_fixed',), before, rest)


def interactions(c, e):
    """a library in which some pairs of the names p < q < r are described"""
    S = c.fn(T + 'SurfacesInteraction')
    lib = e.surfaces_interactions.storage
    for pair in (('p', 'q'), ('q', 'q')):
        if c.boolean('has %s%s' % pair):
            lib[pair] = S()
    return S, lib


@contract('C13', loops=True, paths=1000)
def lookup(c):
    """the names of the two materials in every order relation, any described pairs"""
    e = engine(c)
    S, lib = interactions(c, e)
    x, y = c.choice('x', 'pqr'), c.choice('y', 'pqr')
    s = c.snapshot(e)
    got = [c.call(e.surfaces_interactions.get_interaction, *k) for k in ((x, y), (y, x))]
    want = lib.get((min(x, y), max(x, y)), lib[('default', 'default')])
    c.prove('found in either order, default if not listed', [g is want for g in got])
    c.prove('existence', [c.call(e.surfaces_interactions.exist_interaction, *k) is ((min(x, y), max(x, y)) in lib) for k in ((x, y), (y, x))])
    c.prove('nothing changes', c.unchanged(s))
    if c.sym:
        c.targets |= {T + 'SurfacesInteractionLibrary.get_interaction', T + 'SurfacesInteractionLibrary.exist_interaction'}


@contract('C13', loops=True, paths=2000)
def create_interaction(c):
    e = engine(c)
    S, lib = interactions(c, e)
    x, y = c.choice('x', 'pqr'), c.choice('y', 'pqr')
    eps, mu = c.real('eps'), c.vec('mu')
    before = dict(lib)
    if (min(x, y), max(x, y)) in lib:
        rejected(c, 'a described pair', e, 'create_surfaces_interaction', x, y, eps, mu)
        return
    if c.or_(eps < 0, mu[0] < 0, mu[1] < 0, mu[2] < 0):
        rejected(c, 'a negative coefficient', e, 'create_surfaces_interaction', x, y, eps, mu)
        return
    c.call(A + 'create_surfaces_interaction', e, x, y, eps, mu, mutates=(0,))
    c.prove('adds exactly one description', [set(lib) == set(before) | {(min(x, y), max(x, y))}] + [lib[k] is before[k] for k in before])
    for k in ((x, y), (y, x)):
        g = c.fn(T + 'SurfacesInteractionLibrary').get_interaction(e.surfaces_interactions, *k)
        c.prove('stores the coefficients', [c.eq(g.epsilon, eps), c.eq(c.array(list(g.mu)), mu)])


@contract('C13', loops=True)
def materials(c):
    """a material exists if some description names it"""
    e = engine(c)
    n = c.size('n', 0, 3)
    lib = e.surfaces_interactions
    if c.unbounded_sizes:
        names = c.function('names', 1)

        class Key:
            def __init__(self, i):
                self.i = i

            def __contains__(self, x):
                return bool(names(self.i) > 0)
        lib.storage = c.sequence(n, Key)
        j = c.index('j', n) if c.choice('some', [False, True]) else None

        def inv(env, k):
            return [c.implies(j < k, c.not_(names(j) > 0))] if j is not None else []
        c.invariant(T + 'SurfacesInteractionLibrary.exist_material', 1, inv)
        c.targets.add(T + 'SurfacesInteractionLibrary.exist_material')
        if c.fn(T + 'SurfacesInteractionLibrary').exist_material(lib, 'm'):
            c.prove('some description names the material', c.exists(lambda w: names(w) > 0, n))
        elif j is not None:
            c.prove('no description names the material', c.not_(names(j) > 0))
        return
    for i in range(n):
        lib.storage[c.choice('k%d' % i, [('p', 'q'), ('default', 'q'), ('q', 'r'), ('x p', 'y')])] = None
    for m in ('p', 'q', 'r', 'x', 'default'):
        c.prove('exists if some description names it', lib.exist_material(m) is any(m == a or m == b for a, b in lib.storage))


@contract('C13', loops=True)
def body_material(c):
    b, o = body(c, 'b'), body(c, 'o')
    e = engine(c, bodies={'b': b, 'o': o})
    S, lib = interactions(c, e)
    m = c.choice('m', ['p', 'q', 'default', 'x'])
    if m not in ('default',) and not any(m in k for k in lib):
        rejected(c, 'an undescribed material', e, 'set_body_material', 'b', m)
        return
    before, rest = dict(b.__dict__), c.snapshot(o, b.shape, e.surfaces_interactions)
    c.call(A + 'set_body_material', e, 'b', m, mutates=(0,))
    c.prove('material is stored', b.material == m)
    changed_only(c, b, ('material',), before, rest)


@contract('C13', loops=True)
def create_shape(c):
    """any mesh: mass properties for unit density, geometry moved into the body frame, offset kept"""
    M, G, S = 'rainbow.simulators.prox_rigid_bodies.mass.', 'rainbow.geometry.grid3.', 'rainbow.geometry.surface_mesh.'
    e = engine(c, shapes={'a': c.fn(T + 'Shape')('a')})
    e.params.envelope, e.params.resolution = c.positive('env', 0.01, 1), 5
    n, before, rest = count(c, e.shapes), others(e.shapes), rest_of(c, e, 'shapes')
    move = c.boolean('move')
    if c.sym:
        N = c.size('N', 1, 3)
        if not c.unbounded_sizes:
            return
        mesh = c.fn(S + 'Mesh')(c.table('V', N, 3), c.table('T', N, 3, integer=True, rng=range(1)))
        r, q, m, I = c.vec('r'), c.unit_quat('q'), c.positive('m'), c.vec('I')
        X = c.table('V', N, 3)
        made = object()
        seen = []

        def props(V, T_, rho):
            c.prove('unit density, mesh as given', [c.eq(rho, 1), V is mesh.V, T_ is mesh.T])
            return 'prop'
        c.replace(M + 'compute_mass_properties', props)
        c.replace(M + 'xform_model_2_body_space', lambda p: (r, q, m, I))

        def sdf(V, T_, i, j, k, bound):
            seen.append(1)
            c.prove('distance field of the moved mesh, at the configured resolution', [V is mesh.V, T_ is mesh.T, (i, j, k) == (5, 5, 5)])
            c.prove('field reaches beyond the envelope', c.le(2 * e.params.envelope, bound))
            return made
        c.replace(G + 'create_signed_distance', sdf)
        tris = mesh.T
        i = c.index('i', N)
        want = c.mv(c.transpose(c.quat_matrix(q)), X[i] - r) if move else X[i]
    else:
        P, F = c.choice('solid', [c.fn(S + 'create_box')(1.0, 2.0, 3.0), c.fn(S + 'create_cylinder')(0.5, 1.0, 6)])
        mesh = c.fn(S + 'Mesh')(P + c.vec('t'), F)
        r, q, m, I = c.fn(M + 'xform_model_2_body_space')(c.fn(M + 'compute_mass_properties')(mesh.V, mesh.T, 1.0))
        i = c.choice('i', range(8))
        tris = mesh.T
        want = c.mv(c.transpose(c.quat_matrix(q)), mesh.V[i] - r) if move else mesh.V[i].copy()
    c.call(A + 'create_shape', e, 'n', mesh, move, mutates=(0, 2))
    only(c, e, 'shapes', 'n', before, n, rest)
    s = e.shapes['n']
    c.prove('offset of the body frame is stored', [c.eq(s.r, r), c.eq(s.q, q)])
    c.prove('mass and inertia are stored', [c.eq(s.mass, m), c.eq(s.inertia, I)])
    c.prove('the mesh is stored in the body frame', [s.mesh is mesh, c.eq(mesh.V[i], want), mesh.T is tris])
    c.prove('has a distance field', (s.grid is made and len(seen) == 1) if c.sym else s.grid is not None)
    rejected(c, 'duplicate shape', e, 'create_shape', 'n', mesh)
    rejected(c, 'duplicate shape', e, 'create_shape', 'a', mesh)


@contract('C13', loops=True)
def connect_shape(c):
    b, o = body(c, 'b', c.boolean('had')), body(c, 'o')
    s = c.fn(T + 'Shape')('s')
    S = 'rainbow.geometry.surface_mesh.'
    e = engine(c, bodies={'b': b, 'o': o}, shapes={'s': s})
    if c.sym:
        s.mesh = c.fn(S + 'Mesh')(c.array([[c.real('V%d%d' % (i, j)) for j in range(3)] for i in range(3)]), c.np.array([[0, 1, 2]]))
        made = object()
        e.params.envelope, e.params.K, e.params.bvh_chunk_size = c.positive('env'), 4, 17

        def bvh(V, F, K, chunk, env):
            c.prove('bounding volumes of the shape, grown by the envelope', [V is s.mesh.V, F is s.mesh.T, K == 4, chunk == 17, c.eq(env, e.params.envelope)])
            return made
        c.replace('rainbow.geometry.kdop_bvh.make_bvh', bvh)
    else:
        s.mesh = c.fn(S + 'Mesh')(*c.fn(S + 'create_box')(1.0, 2.0, 3.0))
    before, rest = dict(b.__dict__), c.snapshot(o, s)
    c.call(A + 'connect_shape', e, 'b', 's', mutates=(0,))
    c.prove('shape is shared', b.shape is s)
    c.prove('has bounding volumes', b.bvh is made if c.sym else b.bvh is not None)
    changed_only(c, b, ('shape', 'bvh'), before, rest)


@contract('C13', bounded='concrete meshes of the surface generators with random vertex moves', concrete=20, concrete_only=True)
def create_mesh(c):
    solid_mesh(c)


def solid_mesh(c):
    """same geometry as the arguments, which are left alone"""
    import numpy
    S = 'rainbow.geometry.surface_mesh.'
    P, F = c.choice('solid', [c.fn(S + 'create_box')(1.0, 2.0, 3.0), c.fn(S + 'create_cylinder')(0.5, 1.0, 6), c.fn(S + 'create_sphere')(1.0, 5, 5)])
    P = numpy.array([p + c.vec('d%d' % i, 3, -0.1, 0.1) for i, p in enumerate(P)], dtype=float)
    P0, F0 = P.copy(), F.copy()
    m = c.fn(A + 'create_mesh')(P, F)
    c.prove('arguments are unchanged', [bool((P == P0).all()), bool((F == F0).all())])

    def triangles(V, T_):
        out = []
        for t in T_:
            v = [tuple(float(x) for x in V[i]) for i in t]
            k = v.index(min(v))
            out.append(tuple(v[k:] + v[:k]))
        return sorted(out)
    c.prove('the same oriented triangles', triangles(m.V, m.T) == triangles(P, F))


@contract('C13', loops=True)
def new_engine(c):
    e = c.call(A + 'create_engine')
    c.prove('empty', [len(e.bodies) == 0, len(e.hinges) == 0, len(e.shapes) == 0, len(e.forces) == 0, len(e.contact_points) == 0])
    c.prove('has a stepper', e.stepper is not None)
    d = e.surfaces_interactions.get_interaction('default', 'default')
    c.prove('default surface', [c.eq(d.epsilon, 0), c.eq(c.array(list(d.mu)), c.array([1, 1, 1]))])
    f = c.call(A + 'create_engine')
    c.prove('engines share nothing', [getattr(e, k) is not getattr(f, k) for k in KINDS + ('contact_points', 'surfaces_interactions', 'params', 'stepper')])


@contract('C13', loops=True)
def shape_without_volume(c):
    """a mesh that encloses no volume is rejected by the mass computation: the engine and the mesh stay as they were"""
    S, M = 'rainbow.geometry.surface_mesh.', 'rainbow.simulators.prox_rigid_bodies.mass.'
    e = engine(c, shapes={'a': c.fn(T + 'Shape')('a')})
    mesh = c.fn(S + 'Mesh')(c.array([[c.real('V%d%d' % (i, j), 0, 1) + 2 * (i == j) for j in range(3)] for i in range(4)]), c.np.array([[2, 1, 0]]))
    if c.sym:
        def props(V, T_, rho):
            raise RuntimeError('no volume')
        c.replace(M + 'compute_mass_properties', props)
    rejected(c, 'a mesh without volume', e, 'create_shape', 'n', mesh, extra=(mesh,))


@contract('C13', loops=True)
def mesh_of_any_arrays(c):
    """any vertices and triangles: a mesh of its own arrays, reordered along the direction of most variance (the reordering has
    its own contract: C10 axis_sort_any)"""
    if not c.unbounded_sizes:
        return solid_mesh(c)
    nv, nt = c.size('nv', 3), c.size('nt', 1)
    V, F = c.table('V', nv, 3), c.table('T', nt, 3, integer=True, within=(0, nv))
    i, t = c.index('i', nv), c.index('t', nt)
    axis, seen = c.vec('axis'), []
    g = c.fn(A + 'create_mesh').__globals__
    V0, F0 = V.copy(), F.copy()

    def direction(P):
        seen.append('direction')
        c.prove('the direction of the vertices', c.eq(P[i], V0[i]))
        return axis

    def sort(mesh, a):
        seen.append('sort')
        c.prove('sorted along that direction', [a is axis, c.eq(mesh.V[i], V0[i]), c.eq(mesh.T[t], F0[t])])
        mesh.V[i], mesh.T[t] = c.vec('moved'), [0, 1, 2]
    c.replace(g['FUNC'].__name__ + '.direction_of_most_variance', direction)
    c.replace(g['MESH'].__name__ + '.axis_sort', sort)
    m = c.call(A + 'create_mesh', V, F)
    c.prove('a mesh', [isinstance(m, c.fn(g['MESH'].__name__ + '.Mesh')), seen == ['direction', 'sort']])
    c.prove('the arguments do not change', [c.eq(V[i], V0[i]), c.eq(F[t], F0[t])])


@contract('C13')
def unique_names(c):
    """a text without the characters that names must not have, beginning with the name; different on every call"""
    n = c.choice('name', ['a', '', 'my body', 'x.y:z-w', 'ground_1'])
    F = c.fn(A + 'generate_unique_name')
    r, s = F(n), F(n)
    c.targets.add(A + 'generate_unique_name')
    clean = n
    for x in ' .:-':
        clean = clean.replace(x, '_')
    c.prove('begins with the name', r.startswith(clean + '_'))
    c.prove('only valid characters', not any(x in r for x in ' .:-'))
    c.prove('different names', r != s)
