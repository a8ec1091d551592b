"""C15: contact constraints of the rigid simulator (constraints/contacts.py, constraints/post_stabilization.py)"""
from pv.check import contract
from contracts import _formal as FO
from contracts.c14_hinges import check_initialize, col
T = 'rainbow.simulators.prox_rigid_bodies.types.'
P = 'rainbow.simulators.prox_rigid_bodies.constraints.'
C = P + 'contacts.Contacts.'
S = P + 'post_stabilization.PostStabilization.'
V3 = 'rainbow.math.vector3.'


def body(c, n, idx):
    b = c.fn(T + 'RigidBody')(n)
    b.r, b.idx = c.vec('r' + n), idx
    return b


def contact(c, N, tag='', gap=True):
    """an arbitrary contact of two different bodies (normal of any length the constructor accepts)"""
    a, b = c.integer('A' + tag, 0, 2, bounded=False), c.integer('B' + tag, 0, 2, bounded=False)
    c.requires(c.and_(0 <= a, a < N, 0 <= b, b < N, c.not_(c.eq(a, b))))
    x = c.fn(T + 'ContactPoint').__new__(c.fn(T + 'ContactPoint'))
    x.bodyA, x.bodyB = body(c, 'a' + tag, a), body(c, 'b' + tag, b)
    x.p, x.n, x.g = c.vec('p' + tag), c.unit_vec('n' + tag), c.real('g' + tag, -1, 1)
    return x


def frame_stub(c, x):
    """contract of make_orthonormal_vectors (C04): any right-handed orthonormal frame (s, t, n)"""
    if c.sym:
        s, t = c.vec('s'), c.vec('t')
        n = c.array(list(x.n))

        def f(v):
            c.prove('the frame is made for the normal', c.eq(v, n))
            return s.copy(), t.copy(), n.copy()
        c.replace(V3 + 'make_orthonormal_vectors', f)
        return s, t, n
    return c.fn(V3 + 'make_orthonormal_vectors')(x.n)


def rows_of(c, x, s, t, n):
    """rows: relative velocity of B seen from A along n, s, t and relative spin about n; columns (body, linear then angular)"""
    out = {}
    for q, sg, b in ((0, -1, x.bodyA), (1, 1, x.bodyB)):
        arm = x.p - b.r
        for i, d in enumerate((n, s, t)):
            m = c.cross(arm, d)
            for j in range(3):
                out[i, q, j], out[i, q, 3 + j] = sg * d[j], sg * m[j]
        for j in range(3):
            out[3, q, j], out[3, q, 3 + j] = 0, sg * n[j]
    return out


@contract('C15', loops=True)
def jacobian(c):
    """any number of contacts and bodies: an arbitrary contact fills exactly its own rows"""
    F = C + '_compute_jacobian_matrix'
    N, K = c.size('N', 2, 3), c.size('K', 0, 3)
    e = c.fn(T + 'Engine')()
    if not c.unbounded_sizes:
        xs = [contact(c, N, str(i)) for i in range(int(K))]
        bs = {}
        for x in xs:
            x.bodyA = bs.setdefault(int(x.bodyA.idx), x.bodyA)
            x.bodyB = bs.setdefault(int(x.bodyB.idx), x.bodyB)
        e.bodies, e.contact_points = dict.fromkeys(range(int(N))), xs
        J = c.call(F, e, mutates=(0,)).toarray()
        c.prove('shape', J.shape == (4 * K, 6 * N))
        for i, x in enumerate(xs):
            want = rows_of(c, x, *c.fn(V3 + 'make_orthonormal_vectors')(x.n))
            base = [int(x.bodyA.idx), int(x.bodyB.idx)]
            c.prove('rows', [c.eq(J[4 * i + r, 6 * base[s] + j], v) for (r, s, j), v in want.items()])
            c.prove('other columns are zero', [c.eq(J[4 * i + r, 6 * q + j], 0) for q in range(int(N)) if q not in base for r in range(4) for j in range(6)])
        return
    e.bodies = c.mapping({}, N)
    one, st = {}, {}

    def mk(i):
        one['x'] = contact(c, N)
        one['f'] = frame_stub(c, one['x'])
        return one['x']
    e.contact_points = c.sequence(K, mk)

    def havoc(env, k):
        st['arrays'] = [env.data, env.row, env.col]
        for a, n in zip(st['arrays'], ('data', 'row', 'col')):
            a.assign(c.table(n, 48 * K))
        return {'next_entry': 48 * k}

    def inv(env, k):
        if c.phase != 'preserved':
            return [c.eq(env.next_entry, 48 * k)]
        es = FO.entries(c, (env.data, env.row, env.col), 48 * (k - 1), 48)
        x = one['x']
        got = es and FO.block(c, es, 4 * (k - 1), 4, [6 * x.bodyA.idx, 6 * x.bodyB.idx])
        want = rows_of(c, x, *one['f'])
        return [c.eq(env.next_entry, 48 * k), bool(got) and set(got) == set(want)] + [c.eq(v, want[q]) for q, v in (got or {}).items() if q in want]
    c.invariant(F, 1, inv, havoc, modifies=('data', 'row', 'col', 'next_entry'))

    def coo(data, row, col, shape):
        c.prove('the matrix is made of the entries of all contacts', [data is st['arrays'][0], row is st['arrays'][1], col is st['arrays'][2], c.eq(data.N, 48 * K),
                c.eq(shape[0], 4 * K), c.eq(shape[1], 6 * N)])
        return 'J'
    c.stubs['coo'] = coo
    c.prove('returned', c.call(F, e, mutates=(0,)) == 'J')


@contract('C15')
def meaning(c):
    """the rows applied to velocities: relative contact-point velocity of B seen from A; impulses are equal and opposite"""
    x = contact(c, 3)
    W = c.quat_matrix(c.unit_quat('f'))
    s, t, n = [c.array(col(W, j)) for j in range(3)]
    R = rows_of(c, x, s, t, n)
    vA, wA, vB, wB = [c.vec(k) for k in ('vA', 'wA', 'vB', 'wB')]
    u = [list(vA) + list(wA), list(vB) + list(wB)]
    Ju = [sum(R[i, q, j] * u[q][j] for q in range(2) for j in range(6)) for i in range(4)]
    rel = vB + c.cross(wB, x.p - x.bodyB.r) - vA - c.cross(wA, x.p - x.bodyA.r)
    c.prove('relative velocity along normal and tangents', [c.eq(Ju[0], c.dot(n, rel)), c.eq(Ju[1], c.dot(s, rel)), c.eq(Ju[2], c.dot(t, rel))])
    c.prove('relative spin', c.eq(Ju[3], c.dot(n, wB - wA)))
    lam = [c.real('l%d' % i) for i in range(4)]
    imp = [[sum(R[i, q, j] * lam[i] for i in range(4)) for j in range(6)] for q in range(2)]
    lin = c.array([imp[0][j] + imp[1][j] for j in range(3)])
    c.prove('linear momentum is conserved', c.eq(lin, c.array([0, 0, 0])))
    ang = sum((c.array(imp[q][3:]) + c.cross(b.r, c.array(imp[q][:3])) for q, b in ((0, x.bodyA), (1, x.bodyB))), c.array([0, 0, 0]))
    c.prove('angular momentum about the origin is conserved', c.eq(ang, c.array([0, 0, 0])))
    c.prove('frame is right-handed', c.eq(c.cross(s, t), n))


def interaction(c, e):
    """a library with two declared pairs -> (choose: give a contact materials, of: the interaction of a contact)"""
    S_ = c.fn(T + 'SurfacesInteraction')
    for a, b in (('p', 'q'), ('q', 'q')):
        s = S_()
        s.epsilon, s.mu = c.positive('eps' + a + b), c.array([c.positive('mu%s%s%d' % (a, b, i)) for i in range(3)])
        e.surfaces_interactions.storage[(a, b)] = s
    d = e.surfaces_interactions.storage[('default', 'default')]
    d.epsilon, d.mu = c.positive('eps'), c.array([c.positive('mu%d' % i) for i in range(3)])
    lib = dict(e.surfaces_interactions.storage)

    def choose(x, i=0):
        x.bodyA.material, x.bodyB.material = c.choice('m%s' % i, ['pp', 'pq', 'qp', 'qq', 'rq'] if i == 0 else ['qp', 'qq'])
        return x

    def of(x):
        a, b = sorted((x.bodyA.material, x.bodyB.material))
        return lib.get((a, b), d)
    return choose, of


def gather(c, F, args, K, width, seq, check, before=None, name='out'):
    """a function that fills an array of width*K entries in one loop over the contacts: entry by entry"""
    tab = c.table(name, width * K)
    st = {}

    def havoc(env, k):
        arr = getattr(env, before)
        arr.assign(tab)
        st['a'] = arr

    def inv(env, k):
        if c.phase == 'entry':
            i = c.fresh_int('i')
            return [c.eq(getattr(env, before).at(i)[0], 0)]
        if c.phase != 'preserved':
            return [True]
        arr = getattr(env, before)
        k0 = k - 1
        # entries not stored keep their initial value zero
        val = {}
        for i, v in arr.stores:
            d = c.normal_const(FO._node(i), FO._node(width * k0))
            if d is None or not 0 <= d < width:
                return [False]
            val[int(d)] = v[0] if getattr(v, 'ndim', 0) else v
        return [c.eq(val.get(q, 0), w) for q, w in enumerate(check(seq.item(k0)))]
    c.invariant(F, 1, inv, havoc, modifies=(before,))
    return st


@contract('C15', loops=True, paths=1500)
def friction(c):
    """any number of contacts: entry k is the first coefficient of the material pair of contact k"""
    F = C + '_get_friction_coefficient_vector'
    K = c.size('K', 0, 3)
    e = c.fn(T + 'Engine')()
    if not c.unbounded_sizes:
        choose, of = interaction(c, e)
        e.contact_points = [choose(contact(c, 3, str(i)), i) for i in range(int(K))]
        mu = c.call(F, e, mutates=(0,))
        c.prove('one per contact', len(mu) == K)
        c.prove('coefficient of the pair', [c.eq(mu[i], of(x).mu[0]) for i, x in enumerate(e.contact_points)])
        return
    choose, of = interaction(c, e)
    e.contact_points = c.sequence(K, lambda i: choose(contact(c, 3)))
    st = gather(c, F, (e,), K, 1, e.contact_points, lambda x: [of(x).mu[0]], 'mu')
    mu = c.call(F, e, mutates=(0,))
    c.prove('one per contact', [mu is st.get('a', mu), c.eq(mu.N, K)])


@contract('C15', loops=True, paths=1500)
def restitution(c):
    """any number of contacts: only normal rows, only with bounce switched on"""
    F = C + '_get_restitution_vector'
    K = c.size('K', 0, 3)
    e = c.fn(T + 'Engine')()
    e.params.use_bounce = c.boolean('bounce')
    if not c.unbounded_sizes:
        choose, of = interaction(c, e)
        e.contact_points = [choose(contact(c, 3, str(i)), i) for i in range(int(K))]
        r = c.call(F, e, mutates=(0,))
        c.prove('four per contact', len(r) == 4 * K)
        c.prove('coefficient of the pair in the normal row', [c.eq(r[4 * i + q], of(x).epsilon if q == 0 and e.params.use_bounce else 0) for i, x in enumerate(e.contact_points) for q in range(4)])
        return
    choose, of = interaction(c, e)
    e.contact_points = c.sequence(K, lambda i: choose(contact(c, 3)))
    st = gather(c, F, (e,), K, 4, e.contact_points, lambda x: [of(x).epsilon, 0, 0, 0], 'e')
    r = c.call(F, e, mutates=(0,))
    c.prove('four per contact', [r is st.get('a', r), c.eq(r.N, 4 * K)])
    if not e.params.use_bounce:
        i = c.index('i', 4 * K)
        c.prove('no restitution without bounce', c.eq(r[i], 0))


def stabilisation(c, e, x, v, dt):
    """pre-stabilisation of a contact: only for penetration beyond the tolerance that is not separating already"""
    rate = e.params.gap_reduction / dt
    on = c.and_(x.g < -e.params.min_gap_value, c.le(v, 0))
    want = rate * x.g
    cap = -e.params.max_gap_value / dt
    return on, want, cap


@contract('C15', loops=True)
def pre_stabilisation(c):
    F = C + '_compute_error_vector'
    K = c.size('K', 0, 3)
    e = c.fn(T + 'Engine')()
    e.params.use_pre_stabilization = c.boolean('on')
    e.params.gap_reduction, e.params.min_gap_value, e.params.max_gap_value = c.positive('beta', 0.1, 1), c.positive('mn', 0.001, 0.3), c.positive('mx', 0.01, 0.5)
    dt = c.positive('dt')
    v = c.table('v', 4 * K, lo=-1, hi=1)

    def entry(x, vn, g):
        on, want, cap = stabilisation(c, e, x, vn, dt)
        return [c.ite(on, c.eq(g, c.ite(c.le(cap, want), want, cap)), c.eq(g, 0)), c.le(g, 0), c.le(cap, g)]
    if not c.unbounded_sizes:
        e.contact_points = [contact(c, 3, str(i)) for i in range(int(K))]
        g = c.call(F, dt, v, e, mutates=(2,))
        c.prove('four per contact', len(g) == 4 * K)
        for i, x in enumerate(e.contact_points):
            if e.params.use_pre_stabilization:
                on, want, cap = stabilisation(c, e, x, v[4 * i], dt)
                c.prove('normal row', c.eq(g[4 * i], (max(want, cap) if on else 0) if not c.sym else c.ite(on, c.ite(c.le(cap, want), want, cap), c.const('0'))))
            else:
                c.prove('zero without stabilisation', c.eq(g[4 * i], 0))
            c.prove('never attracts', [c.le(g[4 * i], 0), c.eq(g[4 * i + 1], 0), c.eq(g[4 * i + 2], 0), c.eq(g[4 * i + 3], 0)])
        return
    e.contact_points = c.sequence(K, lambda i: contact(c, 3))
    st = {}

    def havoc(env, k):
        env.g.assign(c.table('g', 4 * K))
        st['g'] = env.g

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.g.at(c.fresh_int('i'))[0], 0)]
        if c.phase != 'preserved':
            return [True]
        k0 = k - 1
        x = e.contact_points.item(k0)
        val = 0
        for i, w in env.g.stores:
            if c.normal_const(FO._node(i), FO._node(4 * k0)) != 0:
                return [False]
            val = w[0] if getattr(w, 'ndim', 0) else w
        on, want, cap = stabilisation(c, e, x, v[4 * k0], dt)
        return [c.implies(on, c.or_(c.and_(c.le(cap, want), c.eq(val, want)), c.and_(c.le(want, cap), c.eq(val, cap)))), c.implies(c.not_(on), c.eq(val, 0)), c.le(val, 0)]
    c.invariant(F, 1, inv, havoc, modifies=('g',))
    g = c.call(F, dt, v, e, mutates=(2,))
    c.prove('four per contact', [c.eq(g.N, 4 * K), g is st.get('g', g)])
    if not e.params.use_pre_stabilization:
        i = c.index('i', 4 * K)
        c.prove('zero without stabilisation', c.eq(g[i], 0))


@contract('C15', loops=True)
def post_stabilisation(c):
    F = S + '_compute_error_vector'
    K = c.size('K', 0, 3)
    e = c.fn(T + 'Engine')()
    e.params.min_gap_value = c.positive('mn', 0.001, 0.3)
    if not c.unbounded_sizes:
        e.contact_points = [contact(c, 3, str(i)) for i in range(int(K))]
        g = c.call(F, e, mutates=(0,))
        c.prove('four per contact', len(g) == 4 * K)
        for i, x in enumerate(e.contact_points):
            c.prove('penetration beyond the tolerance, normal row only', [c.implies(x.g < -e.params.min_gap_value, c.eq(g[4 * i], x.g)), c.implies(c.not_(x.g < -e.params.min_gap_value), c.eq(g[4 * i], 0)),
                    c.eq(g[4 * i + 1], 0), c.eq(g[4 * i + 2], 0), c.eq(g[4 * i + 3], 0)])
        return
    e.contact_points = c.sequence(K, lambda i: contact(c, 3))

    def check(x):
        return [x.g if x.g < -e.params.min_gap_value else 0, 0, 0, 0]
    st = gather(c, F, (e,), K, 4, e.contact_points, check, 'g')
    g = c.call(F, e, mutates=(0,))
    c.prove('four per contact', [c.eq(g.N, 4 * K), g is st.get('a', g)])


@contract('C15', loops=True)
def largest_penetration(c):
    F = C + 'get_largest_penetration'
    K = c.size('K', 0, 3)
    e = c.fn(T + 'Engine')()
    gap = c.table('gap', K, lo=-1, hi=1)

    class X:
        def __init__(self, i):
            self.g = gap[i]
    e.contact_points = c.sequence(K, X)
    j = c.index('j', K) if c.choice('some', [False, True]) else None

    def inv(env, k):
        out = [c.le(env.gap, 0)]
        if j is not None:
            out.append(c.implies(j < k, c.le(env.gap, gap[j])))
        if c.phase != 'entry':
            out.append(c.or_(c.eq(env.gap, 0), c.exists(lambda w: c.and_(w < k, c.eq(gap[w], env.gap)), K)))
        return out
    if c.unbounded_sizes:
        c.witnesses.append(c.fresh_int('at'))
    c.invariant(F, 1, inv)
    d = c.call(F, e, mutates=(0,))
    c.prove('not negative', c.le(0, d))
    if j is not None:
        c.prove('no contact penetrates deeper', c.le(-gap[j], d))
    c.prove('it is the depth of some contact, or zero', c.or_(c.eq(d, 0), c.exists(lambda w: c.eq(gap[w], -d), K)))


@contract('C15', loops=True)
def initialize(c):
    """any number of contacts and bodies: right-hand side, Delassus diagonal, step factors and starting point; post stabilisation on the same contacts"""
    if not c.unbounded_sizes:
        return None if c.sym else small_initialize(c)
    K, N = c.size('K', 0, 2), c.size('N', 2, 3)
    R = 4 * K
    J, W = FO.constraint_system(c, R, N)
    dt, e, s = c.positive('dt'), c.fn(T + 'Engine')(), c.fn('rainbow.simulators.prox_rigid_bodies.state_storage.StateStorage')()
    e.contact_points = c.sequence(K, lambda k: None)
    s.W, s.u, s.delta_u_ext = W, c.table('u', 6 * N), c.table('a', 6 * N)
    g, eps, mu, gap = c.table('g', R), c.table('eps', R), c.table('mu', K), c.table('gap', R)
    p = c.fn(C[:-1])()
    cls = type(p)
    i = c.index('i', R)
    along = lambda x: sum(v * x[j] for j, v in zip(J.cols(i), J.vals(i)))
    names = ('_compute_jacobian_matrix', '_compute_error_vector', '_get_restitution_vector', '_get_friction_coefficient_vector')
    old = [cls.__dict__[n] for n in names]

    def of(what, r):
        def f(en):
            c.prove(what + ' of this engine', en is e)
            return r
        return f

    def err(d, vel, en):
        c.prove('stabilisation for this step, the current relative velocities and this engine', [d is dt, en is e, c.eq(vel[i], along(s.u))])
        return g.copy()
    new = [of('Jacobian', J), err, of('restitution', eps.copy()), of('friction', mu.copy())]
    try:
        for n, f in zip(names, new):
            setattr(cls, n, staticmethod(f))
        c.call(p.initialize, dt, s, e)
    finally:
        for n, f in zip(names, old):
            setattr(cls, n, f)
    c.targets.add(C + 'initialize')
    k = c.index('k', K)
    c.prove('friction and number of contacts', [c.eq(p.mu[k], mu[k]), c.eq(p.K, K)])
    FO.check_system(c, p, J, W, i, (1 + eps[i]) * along(s.u) + dt * along(s.delta_u_ext) + g[i])
    p.sol = c.table('lam', R)
    d = c.call(p.finalize_solution)
    c.prove('the final velocity change is W J^T times the accepted impulses', [isinstance(d, FO.Applied) and d.M is p.WJT, c.eq(d.x[i], p.sol[i])])
    e2 = c.fn(S[:-1])(p)
    cls2 = type(e2)
    old2 = cls2.__dict__['_compute_error_vector']
    try:
        cls2._compute_error_vector = staticmethod(of('depths', gap.copy()))
        c.call(e2.initialize, c.const('1'), s, e)
    finally:
        cls2._compute_error_vector = old2
    c.targets.add(S + 'initialize')
    c.prove('same operators', [e2.J is p.J, e2.WJT is p.WJT, e2.K is p.K])
    FO.check_system(c, e2, J, W, i, None)
    c.prove('the depths are the right-hand side', c.eq(e2.g[i], gap[i]))
    kept = e2.diag[i]
    p.diag[i] = p.diag[i] + 1
    c.prove('the diagonal is a copy', c.eq(e2.diag[i], kept))
    e2.sol = c.table('lam2', R)
    d = c.call(e2.finalize_solution)
    c.prove('the final displacement is W J^T times the accepted values', [isinstance(d, FO.Applied) and d.M is p.WJT, c.eq(d.x[i], e2.sol[i])])


def small_initialize(c):
    sp = c.fn(C + 'initialize').__globals__['sparse']
    J, dt = c.array([[c.real('J%d_%d' % (i, j), -1, 1) for j in range(12)] for i in range(4)]), c.positive('dt')
    at = c.choice('row', [0, 1, 2, 3] + ([] if c.sym else ['all']))
    if at != 'all':
        for i in range(4):
            if i != at:
                J[i] = c.array([1 if j == i else 0 for j in range(12)])
        J[at][3] = c.positive('Jp')
    w = [c.positive('w%d' % i) for i in range(12)]
    if not c.sym:
        light = c.choice('inverse mass', [1, 1, 1e-3, 1e-6])
        w = [v * light for v in w]
    W = c.array([[w[i] if i == j else 0 for j in range(12)] for i in range(12)])
    g, eps, mu = [c.array([c.real('%s%d' % (k, i)) for i in range(n)]) for k, n in (('g', 4), ('e', 4), ('mu', 1))]
    e = c.fn(T + 'Engine')()
    e.contact_points, e.bodies = [None], {'a': None, 'b': None}
    s = c.fn('rainbow.simulators.prox_rigid_bodies.state_storage.StateStorage')()
    s.W, s.u, s.delta_u_ext = sp.csr_matrix(W), c.array([c.real('u%d' % i) for i in range(12)]), c.array([c.real('a%d' % i) for i in range(12)])
    p = c.fn(C[:-1])()
    cls = type(p)
    names = ('_compute_jacobian_matrix', '_compute_error_vector', '_get_restitution_vector', '_get_friction_coefficient_vector')
    old = [cls.__dict__[n] for n in names]
    v = c.mv(J, s.u)

    def err(d, vel, en):
        c.prove('stabilisation for this step, the current relative velocities and this engine', [d is dt, en is e, c.eq(vel, v)])
        return g.copy()
    new = [lambda en: sp.csr_matrix(J), err, lambda en: eps.copy(), lambda en: mu.copy()]
    try:
        for n, f in zip(names, new):
            setattr(cls, n, staticmethod(f))
        c.call(p.initialize, dt, s, e)
    finally:
        for n, f in zip(names, old):
            setattr(cls, n, f)
    c.targets.add(C + 'initialize') if c.sym else None
    c.prove('friction and number of contacts', [c.eq(p.mu, mu), p.K == 1])
    check_initialize(c, p, J, W, c.array([(1 + eps[i]) * v[i] for i in range(4)]) + c.mv(J, dt * s.delta_u_ext) + g, 4)
    # post stabilisation on the same contacts
    e2 = c.fn(S[:-1])(p)
    cls2 = type(e2)
    old2 = cls2.__dict__['_compute_error_vector']
    try:
        cls2._compute_error_vector = staticmethod(lambda en: g.copy())
        c.call(e2.initialize, c.const('1'), s, e)
    finally:
        cls2._compute_error_vector = old2
    c.targets.add(S + 'initialize') if c.sym else None
    c.prove('same operators', [e2.J is p.J, e2.WJT is p.WJT, e2.K == p.K])
    c.prove('starts from zero with the depths as right-hand side', [c.eq(e2.g, g), c.eq(e2.x, 0 * g), c.eq(e2.sol, 0 * g), e2.x is not e2.sol, c.eq(e2.r * e2.diag, c.array([1, 1, 1, 1]))])
    kept = e2.diag.copy()
    p.diag[0] = p.diag[0] + 1
    c.prove('the diagonal is a copy', c.eq(e2.diag, kept))
    c.prove('the final displacement is W J^T times the accepted values', c.eq(c.call(e2.finalize_solution), c.mv(W, c.mv(c.transpose(J), e2.sol))))


@contract('C15')
def contact_point(c):
    """a contact stores what it is given; normals that are not unit are rejected"""
    a, b = c.fn(T + 'RigidBody')('a'), c.fn(T + 'RigidBody')('b')
    p, n, g = c.vec('p'), c.vec('n'), c.real('g')
    L = c.norm(n)
    try:
        x = c.call(T + 'ContactPoint', a, b, p, n, g)
    except RuntimeError:
        c.prove('only non-unit normals are rejected', c.or_(L < c.const('0.9'), L > c.const('1.1')))
        return
    c.prove('normal is unit within a tenth', [c.le(c.const('0.9'), L), c.le(L, c.const('1.1'))])
    c.prove('stores the contact', [x.bodyA is a, x.bodyB is b, c.eq(x.p, p), c.eq(x.n, n), c.eq(x.g, g)])
