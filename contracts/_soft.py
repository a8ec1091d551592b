"""shared specification of tetrahedral soft bodies"""
MECH = 'rainbow.simulators.prox_soft_bodies.mechanics.'
SOLVER = 'rainbow.simulators.prox_soft_bodies.solver.'
NAT = SOLVER + 'Native.'
TYPES = 'rainbow.simulators.prox_soft_bodies.types.'
API = 'rainbow.simulators.prox_soft_bodies.api.'
CD = 'rainbow.simulators.prox_soft_bodies.collision_detection.'


def vol(c, X):
    return c.dot(X[3] - X[0], c.cross(X[1] - X[0], X[2] - X[0])) / 6


def elements(c, K, N, name='T'):
    """any number of tetrahedra over N nodes: the nodes of an element are different"""
    T = c.table(name, K, 4, integer=True, within=(0, N))
    if not c.unbounded_sizes:
        for e in range(int(K)):
            T[e] = c.choice('%s perm %d' % (name, e), PERMS)
    return T


PERMS = [(0, 1, 2, 3), (1, 2, 0, 4), (4, 0, 3, 2), (3, 1, 4, 2)]


def different(c, t):
    c.requires([c.not_(c.eq(t[a], t[b])) for a in range(4) for b in range(a)])


def small_mesh(c, n=3):
    """(concrete) positions in general position and consistently oriented tetrahedra that share nodes"""
    import numpy
    X = numpy.array([c.vec('X%d' % i, 3, -2, 2) for i in range(5)])
    T = []
    for i in range(c.choice('elements', range(1, n + 1))):
        t = list(PERMS[i])
        v = vol(c, X[t])
        if v < 0:
            t[2], t[3] = t[3], t[2]
        c.requires(abs(v) > 0.05)
        T.append(t)
    return X, numpy.array(T, dtype=numpy.int32)


def face_vectors(c, X):
    """minus the volume times the gradients of the shape functions = (outward normal of the opposite face) * area / 3"""
    f = ((1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1))
    return [c.cross(X[b] - X[a], X[d] - X[a]) / 6 for a, b, d in f]


def numpy_with(c, module, **over):
    """the module's numpy, some functions replaced"""
    m = c.mod(module)
    base = m.np

    class P:
        def __getattr__(self, n):
            return over[n] if n in over else getattr(base, n)
    m.np = P()


class Part:
    """the range [a, b) of a global vector"""

    def __init__(self, of, a, b):
        self.of, self.a, self.b = of, a, b

    def __pv_len__(self):
        return self.b - self.a


class Global:
    """a vector over all nodes of the world of which the ranges read and written are recorded"""

    def __init__(self, N, name=''):
        self.N, self.name, self.sets = N, name, []

    @property
    def shape(self):
        return (self.N, 3)

    def __pv_len__(self):
        return self.N

    def __pv_state__(self):
        return len(self.sets)

    def __getitem__(self, s):
        return Part(self, s.start, s.stop)

    def __setitem__(self, s, v):
        self.sets.append((s.start, s.stop, v))

    def is_part(self, c, p, b):
        return isinstance(p, Part) and p.of is self and c.and_(c.eq(p.a, b.offset), c.eq(p.b, b.offset + b.n))

    def only_set(self, c, b):
        """exactly the range of body b has been written, once -> conditions"""
        return [len(self.sets) == 1] + ([c.eq(self.sets[0][0], b.offset), c.eq(self.sets[0][1], b.offset + b.n)] if self.sets else [])


class Rows:
    """an array of n rows that is only passed around"""

    def __init__(self, n, name=''):
        self.n, self.name = n, name

    def __pv_len__(self):
        return self.n


class World:
    """an engine with any number of bodies"""

    def __init__(self, c, mk):
        self.c, self.one = c, {}
        self.B = c.size('bodies', 0, 2)
        self.number_of_nodes = c.integer('nodes', 0, 9, bounded=False)

        def body(k):
            b = self.one['b'] = mk(k)
            self.one['k'] = k
            return b
        self.bodies = c.mapping({}, self.B, body)


def bare_body(c, N, name='b'):
    """a body with all its arrays opaque"""
    b = c.fn(TYPES + 'SoftBody')(name)
    b.n, b.offset = c.integer('n ' + name, 0, 5, bounded=False), c.integer('offset ' + name, 0, 5, bounded=False)
    c.requires([b.n >= 0, b.offset >= 0, c.le(b.offset + b.n, N)])
    for q in ('T', 'gradN0', 'invD0', 'vol0', 'M_array', 'C_array'):
        setattr(b, q, Rows(0, q))
    b.x, b.x0, b.u = Rows(b.n, 'x'), Rows(b.n, 'x0'), Rows(b.n, 'u')
    b.material_description = c.fn(TYPES + 'MaterialDescription')()
    b.is_fixed = c.boolean('fixed ' + name)
    return b


class Box:
    pass


def real_world(c, count=2):
    """(concrete) a few bodies, deformed and moving, with their own materials"""
    import numpy
    e = Box()
    e.bodies, e.number_of_nodes, e.contact_points = {}, 0, []
    e.params = c.fn(TYPES + 'Parameters')()
    for i in range(c.choice('bodies', range(1, count + 1))):
        t = 'body%d ' % i
        b = c.fn(TYPES + 'SoftBody')('b%d' % i)
        b.idx, b.offset = i, e.number_of_nodes
        X = numpy.array([c.vec(t + 'X%d' % j, 3, -2, 2) for j in range(5)])
        T = []
        for j in range(c.choice(t + 'elements', [1, 2, 3])):
            p = list(PERMS[j])
            if vol(c, X[p]) < 0:
                p[2], p[3] = p[3], p[2]
            c.requires(vol(c, X[p]) > 0.05)
            T.append(p)
        if len(T) == 1:
            X = X[:4]
        b.T, b.x0 = numpy.array(T, dtype=numpy.int32), X
        R = numpy.array(c.quat_matrix(c.unit_quat(t + 'R')))
        b.x = X @ R.T + numpy.array([c.vec(t + 'd%d' % j, 3, -0.02, 0.02) for j in range(len(X))])
        c.requires(min(vol(c, b.x[p]) for p in T) > 0.01)
        b.u = numpy.array([c.vec(t + 'u%d' % j) for j in range(len(X))])
        b.gradN0, b.invD0 = c.fn(NAT + 'compute_outward_face_vectors')(X, b.T), c.fn(NAT + 'compute_inverse_D0')(X, b.T)
        b.vol0 = numpy.array([vol(c, X[p]) for p in T])
        m = b.material_description = c.fn(TYPES + 'MaterialDescription')()
        m.E, m.nu, m.rho, m.c = c.real(t + 'E', 0.5, 3), c.real(t + 'nu', 0, 0.4), c.real(t + 'rho', 0.5, 3), c.real(t + 'c', 0, 2)
        c.requires(m.E > 0 and 0 <= m.nu < 0.45 and m.rho > 0.1 and m.c >= 0)
        m.constitutive_model = c.fn(MECH + c.choice(t + 'model', ['SVK', 'SNH', 'COR']))
        b.is_lumped, b.is_fixed = c.boolean(t + 'lumped'), c.boolean(t + 'fixed')
        b.M_array = c.fn(NAT + 'compute_mass_element_array')(m.rho, b.vol0, b.T, b.is_lumped)
        b.C_array = c.fn(NAT + 'compute_damping_element_array')(m.c, b.vol0, b.T, b.is_lumped)
        b.gravity = c.vec(t + 'g')
        TC = c.fn(TYPES + 'TractionCondition')
        b.traction_conditions = [TC(*T[0][:3], c.vec(t + 'load'))] if c.boolean(t + 'traction') else []
        e.bodies[b.name] = b
        e.number_of_nodes += len(X)
    return e


def new_engine(c):
    """an engine (the 8 GB table of random offsets of the hash grid is replaced by a function)"""
    from contracts.c09_hashing import Offsets
    if c.sym:
        c.stubs['random.randint'] = lambda *a, **k: Offsets(c)
        return c.fn(API + 'create_engine')()
    import numpy
    old = numpy.random.randint
    numpy.random.randint = lambda *a, **k: Offsets(c)
    try:
        return c.fn(API + 'create_engine')()
    finally:
        numpy.random.randint = old


def boxes(c, count=None, hashing=None):
    """(concrete) boxes of tetrahedra on top of each other, made through the API, with materials, conditions and motion"""
    import numpy
    A = lambda f: c.fn(API + f)
    e = new_engine(c)
    p = e.params
    p.use_spatial_hashing, p.resolution, p.envelope = c.boolean('hashing') if hashing is None else hashing, 8, 0.2
    p.use_post_stabilization, p.time_step, p.max_iterations = c.boolean('post'), 0.004, 20
    beam = c.fn('rainbow.geometry.volume_mesh.create_beam')
    for m in ('soft', 'hard'):
        A('create_material')(e, m)
        A('set_elasticity')(e, m, 1e3 if m == 'soft' else 1e4, c.real('nu ' + m, 0.1, 0.4))
        A('set_mass_density')(e, m, c.positive('rho ' + m, 5, 20))
        A('set_viscosity')(e, m, c.positive('c ' + m, 0.1, 2))
        A('set_constitutive_model')(e, m, c.fn(MECH + c.choice('model ' + m, ['SVK', 'SNH', 'COR'])))
    A('create_surfaces_interaction')(e, 'soft', 'hard', c.positive('friction', 0.1, 1))
    n = count or c.choice('count', [2, 1])
    for i in range(n):
        V, T = beam(2, 2, 2, 1.0, 1.0, 1.0)
        shift = numpy.array([0, i * c.real('lift', 0.9, 1.05), 0.0]) + (c.vec('shift%d' % i, 3, -0.05, 0.05) if i else 0)
        b = 'box%d' % i
        A('create_soft_body')(e, b, V + shift, T)
        A('set_material')(e, b, 'hard' if i else 'soft')
        A('set_velocity')(e, b, c.vec('v%d' % i))
        A('set_gravity')(e, b, c.vec('g%d' % i))
        if c.boolean('conditions%d' % i):
            lo = e.bodies[b].x0[:, 0].min()
            A('create_dirichlet_conditions')(e, b, lambda x: x[0] - lo - 0.1)
        if c.boolean('load%d' % i):
            hi = e.bodies[b].x0[:, 1].max()
            A('create_traction_conditions')(e, b, lambda x: hi - 0.1 - x[1], c.vec('load'))
        if c.boolean('fixed%d' % i):
            A('set_type')(e, b, 'Fixed')
    return e
