"""C14: hinge joints (rainbow/simulators/prox_rigid_bodies/constraints/hinges.py, api.set_hinge, types.Hinge)"""
from pv.check import contract
from contracts import _formal as FO
A = 'rainbow.simulators.prox_rigid_bodies.api.'
T = 'rainbow.simulators.prox_rigid_bodies.types.'
H = 'rainbow.simulators.prox_rigid_bodies.constraints.hinges.Hinges.'
V3 = 'rainbow.math.vector3.'


def body(c, n, idx=None):
    b = c.fn(T + 'RigidBody')(n)
    b.r, b.q, b.idx = c.vec('r' + n), c.unit_quat('q' + n), idx
    return b


def col(M, j):
    return [M[i][j] for i in range(3)]


@contract('C14', budget=120)
def set_hinge(c):
    """all three ways of giving the joint: both sockets are at the world point and along the world axis"""
    mode = c.choice('mode', ['world', 'body', 'model'])
    p, k, o = body(c, 'p'), body(c, 'k'), body(c, 'o')
    if mode == 'model':
        s = p.shape = c.fn(T + 'Shape')('s')
        s.r, s.q = c.vec('sr'), c.unit_quat('sq')
    e = c.fn(T + 'Engine')()
    e.bodies = {'p': p, 'k': k, 'o': o}
    h, h2 = c.fn(T + 'Hinge')('h'), c.fn(T + 'Hinge')('h2')
    e.hinges = {'h': h, 'h2': h2}
    Rp, Rk = c.quat_matrix(p.q), c.quat_matrix(k.q)
    # world point and axis, and what the caller passes for them
    qw, lam, ow = c.unit_quat('qw'), c.positive('lam'), c.vec('ow')
    W = c.quat_matrix(qw)
    n = c.array(col(W, 2))
    to = (lambda x: x) if mode == 'world' else (lambda x: c.mv(c.transpose(Rp), x))
    origin, axis = (ow if mode == 'world' else to(ow - p.r)), to(lam * n)
    if mode == 'model':
        S = c.quat_matrix(p.shape.q)
        origin, axis = c.mv(S, origin) + p.shape.r, c.mv(S, axis)
    if c.sym:
        def frame(x):
            c.prove('the frame is made for the axis', c.eq(x, lam * n))
            return c.array(col(W, 0)), c.array(col(W, 1)), n.copy()
        c.replace(V3 + 'make_orthonormal_vectors', frame)

        def quat(B):
            c.prove('the frame has the axis as its z direction', c.eq(B, W))
            return c.choice('sign', [1, -1]) * qw
        c.replace('rainbow.math.quaternion.from_matrix', quat)
    rest = c.snapshot(p, k, o, h2)
    args = (e, 'h', 'p', 'k', origin, axis) + ((mode,) if mode != 'world' or c.boolean('default mode') is False else ())
    c.call(A + 'set_hinge', *args, mutates=(0,))
    if c.sym:
        c.targets |= {T + 'Hinge.set_parent_socket', T + 'Hinge.set_child_socket'}
    c.prove('links', [h.parent is p, h.child is k])
    for b, R, r, a, what in ((p, Rp, h.arm_p, h.axis_p, 'parent'), (k, Rk, h.arm_c, h.axis_c, 'child')):
        c.prove('anchor of the %s is the world point' % what, c.eq(c.mv(R, r) + b.r, ow))
        c.prove('axis of the %s is the world axis' % what, c.eq(c.mv(R, a), n))
    c.prove('socket frames agree with the anchors', [c.eq(h.socket_p.r, h.arm_p), c.eq(h.socket_c.r, h.arm_c)])
    c.prove('sockets coincide', c.eq(c.mm(Rp, c.quat_matrix(h.socket_p.q)), c.mm(Rk, c.quat_matrix(h.socket_c.q))))
    c.prove('bodies and other hinges are unchanged', c.unchanged(rest))
    kept = h.arm_p.copy()
    origin[0] = origin[0] + 1
    c.prove('the hinge does not share storage with the arguments', c.eq(h.arm_p, kept))


@contract('C14')
def rejections(c):
    p, k = body(c, 'p'), body(c, 'k')
    e = c.fn(T + 'Engine')()
    e.bodies, e.hinges = {'p': p, 'k': k}, {'h': c.fn(T + 'Hinge')('h')}
    o, a = c.vec('o'), c.unit_vec('a')
    for what, args, exc in (('an unknown hinge', ('x', 'p', 'k', o, a), RuntimeError), ('an unknown parent', ('h', 'x', 'k', o, a), RuntimeError),
                            ('an unknown child', ('h', 'p', 'x', o, a), RuntimeError), ('an unknown mode', ('h', 'p', 'k', o, a, 'local'), ValueError)):
        s = c.snapshot(e)
        c.expect_raise(what + ' is rejected', c.fn(A + 'set_hinge'), e, *args, exc=exc)
        c.prove(what + ': no change', c.unchanged(s))


def hinge(c, i, N, tag=''):
    """an arbitrary hinge between two different bodies"""
    a, b = c.integer('A' + tag, 0, 2, bounded=False), c.integer('B' + tag, 0, 2, bounded=False)
    c.requires(c.and_(0 <= a, a < N, 0 <= b, b < N, c.not_(c.eq(a, b))))
    h = c.fn(T + 'Hinge')('h')
    h.idx = i
    h.parent, h.child = body(c, 'p' + tag, a), body(c, 'k' + tag, b)
    h.arm_p, h.arm_c, h.axis_p, h.axis_c = c.vec('ap' + tag), c.vec('ac' + tag), c.unit_vec('np' + tag), c.unit_vec('nc' + tag)
    return h


def frame_stub(c, h):
    """contract of make_orthonormal_vectors (C04): any right-handed orthonormal frame (t, b, n)"""
    t, b = c.vec('t'), c.vec('b')
    n = c.mv(c.quat_matrix(h.parent.q), h.axis_p)
    if c.sym:
        def f(x):
            c.prove('the frame is made for the world axis of the parent', c.eq(x, n))
            return t.copy(), b.copy(), c.array(list(n))
        c.replace(V3 + 'make_orthonormal_vectors', f)
        return t, b, n
    t, b, _ = c.fn(V3 + 'make_orthonormal_vectors')(n)
    return t, b, n


def rows_of(c, h, t, b):
    """the five rows: relative velocity of the anchors, relative angular velocity along t and b; [parent | child], linear then angular"""
    ap, ac = c.mv(c.quat_matrix(h.parent.q), h.arm_p), c.mv(c.quat_matrix(h.child.q), h.arm_c)
    star = lambda a: [[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]
    out = {}
    for s, arm, sg in ((0, star(ap), 1), (1, star(ac), -1)):
        for i in range(3):
            for j in range(3):
                out[i, s, j] = sg * (1 if i == j else 0)
                out[i, s, 3 + j] = -sg * arm[i][j]
        for i, d in ((3, t), (4, b)):
            for j in range(3):
                out[i, s, j] = 0
                out[i, s, 3 + j] = sg * d[j]
    return out


@contract('C14', loops=True)
def jacobian(c):
    """any number of hinges and bodies: an arbitrary hinge fills exactly its own rows"""
    F = H + '_compute_jacobian_matrix'
    N, K = c.size('N', 2, 3), c.size('K', 0, 2)
    e = c.fn(T + 'Engine')()
    if not c.unbounded_sizes:
        hs = [hinge(c, i, N, str(i)) for i in range(int(K))]
        bs = {}
        for h in hs:                       # hinges share bodies
            h.parent = bs.setdefault(int(h.parent.idx), h.parent)
            h.child = bs.setdefault(int(h.child.idx), h.child)
        e.bodies, e.hinges = dict.fromkeys(range(int(N))), dict(enumerate(hs))
        J = c.call(F, e, mutates=(0,)).toarray()
        c.prove('shape', J.shape == (5 * K, 6 * N))
        for i, h in enumerate(hs):
            t, b, _ = c.fn(V3 + 'make_orthonormal_vectors')(c.mv(c.quat_matrix(h.parent.q), h.axis_p))
            want = rows_of(c, h, t, b)
            base = [int(h.parent.idx), int(h.child.idx)]
            c.prove('rows', [c.eq(J[5 * i + r, 6 * base[s] + j], v) for (r, s, j), v in want.items()])
            c.prove('other columns are zero', [c.eq(J[5 * i + r, 6 * q + j], 0) for q in range(int(N)) if q not in base for r in range(5) for j in range(6)])
        return
    e.bodies = c.mapping({}, N)
    one = {}

    def mk(i):
        one['h'] = hinge(c, i, N)
        one['f'] = frame_stub(c, one['h'])
        return one['h']
    e.hinges = c.mapping({}, K, mk)
    st = {}

    def havoc(env, k):
        st['arrays'] = [env.data, env.row, env.col]
        for a, n in zip(st['arrays'], ('data', 'row', 'col')):
            a.assign(c.table(n, 60 * K))
        return {'next_entry': 60 * k}

    def inv(env, k):
        if c.phase != 'preserved':
            return [c.eq(env.next_entry, 60 * k)]
        es = FO.entries(c, (env.data, env.row, env.col), 60 * (k - 1), 60)
        h = one['h']
        got = es and FO.block(c, es, 5 * h.idx, 5, [6 * h.parent.idx, 6 * h.child.idx])
        want = rows_of(c, h, *one['f'][:2])
        return [c.eq(env.next_entry, 60 * k), bool(got) and set(got) == set(want)] + [c.eq(v, want[q]) for q, v in (got or {}).items() if q in want]
    c.invariant(F, 1, inv, havoc, modifies=('data', 'row', 'col', 'JA_v', 'JA_w', 'JB_v', 'JB_w', 'next_entry'))

    def coo(data, row, col, shape):
        c.prove('the matrix is made of the entries of all hinges', [data is st['arrays'][0], row is st['arrays'][1], col is st['arrays'][2], c.eq(data.N, 60 * K),
                c.eq(shape[0], 5 * K), c.eq(shape[1], 6 * N)])
        return 'J'
    c.stubs['coo'] = coo
    c.prove('returned', c.call(F, e, mutates=(0,)) == 'J')


@contract('C14')
def meaning(c):
    """the rows applied to velocities (lemma over the specification of the rows)"""
    h = hinge(c, 0, 3)
    t, b, n = c.vec('t'), c.vec('b'), c.vec('n')
    R = rows_of(c, h, t, b)
    u = [c.vec('v0').tolist() + c.vec('w0').tolist(), c.vec('v1').tolist() + c.vec('w1').tolist()]
    Ju = [sum(R[i, s, j] * u[s][j] for s in range(2) for j in range(6)) for i in range(5)]
    ap, ac = c.mv(c.quat_matrix(h.parent.q), h.arm_p), c.mv(c.quat_matrix(h.child.q), h.arm_c)
    v0, w0, v1, w1 = c.array(u[0][:3]), c.array(u[0][3:]), c.array(u[1][:3]), c.array(u[1][3:])
    c.prove('relative velocity of the anchors', c.eq(c.array(Ju[:3]), v0 + c.cross(w0, ap) - v1 - c.cross(w1, ac)))
    c.prove('relative angular velocity off the axis', [c.eq(Ju[3], c.dot(t, w0 - w1)), c.eq(Ju[4], c.dot(b, w0 - w1))])


@contract('C14')
def kernel(c):
    """zero exactly for rigid motion or rotation about the axis: J u = 0 iff anchors move together and w0 - w1 is along n"""
    q = c.unit_quat('f')
    W = c.quat_matrix(q)
    t, b, n = [c.array(col(W, j)) for j in range(3)]
    w = c.vec('w')
    s = c.real('s')
    c.prove('rotation about the axis is free', [c.eq(c.dot(t, s * n), 0), c.eq(c.dot(b, s * n), 0)])
    c.prove('every relative angular velocity is its off-axis parts plus one along the axis', c.eq(w, c.dot(t, w) * t + c.dot(b, w) * b + c.dot(n, w) * n))


@contract('C14', loops=True)
def error_vector(c):
    """any number of hinges: the rate of anchor separation and misalignment that the constraint J u + g = 0 prescribes"""
    F = H + '_compute_error_vector'
    N, K = c.size('N', 2, 3), c.size('K', 0, 2)
    dt, beta = c.positive('dt'), c.positive('beta', 0.1, 1)
    e = c.fn(T + 'Engine')()
    e.params.use_pre_stabilization, e.params.gap_reduction = c.boolean('on'), beta
    rate = beta / dt

    def want(h, t, b):
        ap, ac = c.mv(c.quat_matrix(h.parent.q), h.arm_p), c.mv(c.quat_matrix(h.child.q), h.arm_c)
        np_, nc = c.mv(c.quat_matrix(h.parent.q), h.axis_p), c.mv(c.quat_matrix(h.child.q), h.axis_c)
        # required: d/dt (anchor difference) = -rate (anchor difference);  relative spin rate along t, b turning the child axis towards the parent axis
        sep = h.parent.r + ap - h.child.r - ac
        u = c.cross(nc, np_)
        return list(sep) + [c.dot(t, u), c.dot(b, u)]
    if not c.unbounded_sizes:
        hs = [hinge(c, i, N, str(i)) for i in range(int(K))]
        e.hinges = dict(enumerate(hs))
        g = c.call(F, dt, e, mutates=(1,))
        c.prove('five per hinge', len(g) == 5 * K)
        for i, h in enumerate(hs):
            t, b, _ = c.fn(V3 + 'make_orthonormal_vectors')(c.mv(c.quat_matrix(h.parent.q), h.axis_p))
            c.prove('stabilisation term', [c.eq(g[5 * i + j], rate * x if e.params.use_pre_stabilization else 0) for j, x in enumerate(want(h, t, b))])
        return
    one = {}

    def mk(i):
        one['h'] = hinge(c, i, N)
        one['f'] = frame_stub(c, one['h'])
        return one['h']
    e.hinges = c.mapping({}, K, mk)
    g0, i = c.table('g', 5 * K), c.index('i', 5 * K)
    st = {}

    def havoc(env, k):
        env.g.assign(g0)
        st['g'] = env.g

    def inv(env, k):
        if c.phase != 'preserved':
            return [True]
        h = one['h']
        w = want(h, *one['f'][:2])
        idx = [5 * h.idx + j for j in range(5)]
        return [c.or_(*[c.eq(q, j) for j in idx]) for q, _ in env.g.stores] + [c.eq(env.g[j], v) for j, v in zip(idx, w)]
    c.invariant(F, 1, inv, havoc, modifies=('g',))
    g = c.call(F, dt, e, mutates=(1,))
    if not e.params.use_pre_stabilization:
        c.prove('zero without stabilisation', c.eq(g[i], 0))
        return
    c.prove('scaled by the rate of reduction', c.eq(g[i], rate * g0[i]))


@contract('C14')
def stabilisation_direction(c):
    """velocities that satisfy J u + g = 0 reduce the separation, and the spin they prescribe turns the child axis towards the parent axis"""
    q = c.unit_quat('f')
    W = c.quat_matrix(q)
    t, b, n = [c.array(col(W, j)) for j in range(3)]
    m, w, rate = c.vec('m'), c.vec('w'), c.positive('rate')
    sep, vrel = c.vec('sep'), c.vec('vrel')
    if c.sym:
        c.requires(c.and_(*[c.eq(vrel[j] + rate * sep[j], 0) for j in range(3)]))
    else:
        vrel = -rate * sep
    c.prove('anchor separation shrinks', c.eq(c.dot(sep, vrel), -rate * c.dot(sep, sep)))
    # w = w_parent - w_child with t.w = -rate t.(m x n), b.w = -rate b.(m x n), nothing along n
    u = c.cross(m, n)
    w = -rate * (c.dot(t, u) * t + c.dot(b, u) * b)
    # derivative of n.m under dn = w_p x n, dm = w_c x m is  (w_p - w_c) . (n x m)
    c.prove('the axes turn towards each other', c.eq(c.dot(w, c.cross(n, m)), rate * c.dot(u, u)))


@contract('C14', loops=True)
def sweep(c):
    """any number of hinges: each block is relaxed once, w = WJT x is kept"""
    F = H + 'sweep'
    K = c.size('K', 0, 2)
    p = c.fn(H[:-1])()
    p.K = K
    if not c.unbounded_sizes:
        n, m = 5 * int(K), 12
        p.J, W = [c.fn('scipy.sparse.csr_matrix') if False else None] * 2
        import numpy
        if c.sym:
            return
        import scipy.sparse as sp
        J = numpy.array([[c.real('J%d_%d' % (i, j)) for j in range(m)] for i in range(n)]).reshape(n, m)
        WJT = numpy.array([[c.real('W%d_%d' % (i, j)) for j in range(m)] for i in range(n)]).reshape(n, m).T
        p.J, p.WJT = sp.csr_matrix(J), sp.csr_matrix(WJT).tobsr() if n else sp.csr_matrix(WJT)
        p.x, p.r, p.b = [numpy.array([c.real('%s%d' % (s, i)) for i in range(n)]) for s in 'xrb']
        x = p.x.copy()
        for k in range(int(K)):
            s = slice(5 * k, 5 * k + 5)
            x[s] = x[s] - p.r[s] * (J @ (WJT @ x) + p.b)[s]
        old = [p.r.copy(), p.b.copy()]
        p.sweep()
        c.prove('each block is relaxed in turn', c.close(p.x, x, 1e-9))
        c.prove('only the impulses change', [c.eq(p.r, old[0]), c.eq(p.b, old[1])])
        return
    L = FO.Formal(c)
    p.J, p.WJT = L.op('J'), L.op('WJT')
    p.x, p.r, p.b = [c.table(s, 5 * K) for s in 'xrb']
    x0, x1 = p.x.copy(), c.table('x1', 5 * K)
    st = {}
    base = L.opaque('WJT x')

    def havoc(env, k):
        p.x.assign(x1)
        st['k'] = k
        return {'w': base.copy()}

    def inv(env, k):
        if c.phase == 'entry':
            t = env.w.terms
            return [len(t) == 1 and t[0][0] == 'all' and t[0][1] == 'WJT' and FO.same_array(t[0][2], p.x)] if hasattr(env.w, 'terms') else [False]
        if c.phase != 'preserved':
            return [True]
        idx = [5 * st['k'] + j for j in range(5)]
        z = [x1[i] - p.r[i] * (L.entry('J', base, i) + p.b[i]) for i in idx]
        return FO.check_sweep(c, L, base, env.w, p.x, x1, idx) + [c.eq(p.x[i], v) for i, v in zip(idx, z)]
    c.invariant(F, 1, inv, havoc, modifies=('self', 'w'))
    r, b = p.r, p.b
    c.call(p.sweep)
    c.targets.add(F)
    c.prove('only the impulses change', [p.r is r, p.b is b, not r.stores, not b.stores])


@contract('C14', loops=True)
def initialize(c):
    """any number of hinges and bodies: right-hand side, Delassus diagonal, step factors and starting point"""
    if not c.unbounded_sizes:
        return None if c.sym else small_initialize(c)
    K, N = c.size('K', 0, 2), c.size('N', 2, 3)
    R = 5 * K
    J, W = FO.constraint_system(c, R, N)
    dt, e, s = c.positive('dt'), c.fn(T + 'Engine')(), c.fn('rainbow.simulators.prox_rigid_bodies.state_storage.StateStorage')()
    e.hinges = c.mapping({}, K)
    s.W, s.u, s.delta_u_ext, g = W, c.table('u', 6 * N), c.table('a', 6 * N), c.table('g', R)
    p = c.fn(H[:-1])()
    cls = type(p)
    old = cls.__dict__['_compute_jacobian_matrix'], cls.__dict__['_compute_error_vector']

    def jac(en):
        c.prove('Jacobian of this engine', en is e)
        return J

    def err(d, en):
        c.prove('stabilisation for this step and engine', [d is dt, en is e])
        return g.copy()
    try:
        cls._compute_jacobian_matrix, cls._compute_error_vector = staticmethod(jac), staticmethod(err)
        c.call(p.initialize, dt, s, e)
    finally:
        cls._compute_jacobian_matrix, cls._compute_error_vector = old
    c.targets.add(H + 'initialize')
    i = c.index('i', R)
    along = lambda x: sum(v * x[j] for j, v in zip(J.cols(i), J.vals(i)))
    FO.check_system(c, p, J, W, i, along(s.u) + dt * along(s.delta_u_ext) + g[i])
    c.prove('number of hinges', c.eq(p.K, K))
    p.sol = c.table('lam', R)
    d = c.call(p.finalize_solution)
    c.prove('the final velocity change is W J^T times the accepted impulses', [isinstance(d, FO.Applied) and d.M is p.WJT and d.x.N is p.sol.N, c.eq(d.x[i], p.sol[i])])


def small_initialize(c):
    sp = c.fn(H + 'initialize').__globals__['sparse']
    rnd = lambda n, r, k: c.array([[c.real('%s%d_%d' % (n, i, j), -1, 1) for j in range(k)] for i in range(r)])
    J, dt, rel = rnd('J', 5, 12), c.positive('dt'), c.boolean('zero row')
    if rel:
        J[4] = 0 * J[4]
    at = c.choice('row', [0, 1, 2, 3] + ([] if c.sym else ['all']))
    if at != 'all':                        # rows are independent: one arbitrary row, any position
        for i in range(4 if rel else 5):
            if i != at:
                J[i] = c.array([1 if j == i else 0 for j in range(12)])
        J[at][3] = c.positive('Jp')
    w = [c.positive('w%d' % i) for i in range(12)]
    if not c.sym:
        light = c.choice('inverse mass', [1, 1, 1e-3, 1e-6])
        w = [v * light for v in w]
    W = c.array([[w[i] if i == j else 0 for j in range(12)] for i in range(12)])
    g = c.array([c.real('g%d' % i) for i in range(5)])
    e = c.fn(T + 'Engine')()
    e.hinges, e.bodies = {'h': None}, {'a': None, 'b': None}
    s = c.fn('rainbow.simulators.prox_rigid_bodies.state_storage.StateStorage')()
    s.W, s.u, s.delta_u_ext = sp.csr_matrix(W), c.array([c.real('u%d' % i) for i in range(12)]), c.array([c.real('a%d' % i) for i in range(12)])
    p = c.fn(H[:-1])()
    cls = type(p)
    old = cls.__dict__['_compute_jacobian_matrix'], cls.__dict__['_compute_error_vector']

    def err(d, en):
        c.prove('stabilisation for this step and engine', [d is dt, en is e])
        return g.copy()
    try:
        cls._compute_jacobian_matrix, cls._compute_error_vector = staticmethod(lambda en: sp.csr_matrix(J)), staticmethod(err)
        c.call(p.initialize, dt, s, e)
    finally:
        cls._compute_jacobian_matrix, cls._compute_error_vector = old
    c.targets.add(H + 'initialize') if c.sym else None
    check_initialize(c, p, J, W, c.mv(J, s.u) + c.mv(J, dt * s.delta_u_ext) + g, 5)
    c.prove('number of hinges', p.K == 1)


def check_initialize(c, p, J, W, b, n):
    c.prove('right-hand side', c.eq(p.b, b))
    for i in range(n):
        d = sum(J[i][j] * W[j][j] * J[i][j] for j in range(len(W)))
        if c.sym and c.identical(c.array(list(J[i])), 0 * c.array(list(J[i]))) or not c.sym and not c.np.any(J[i]):
            d = c.const('1')
        c.prove('step factor is the inverse diagonal of J W J^T (one for empty rows)', c.eq(p.r[i] * d, 1))
    z = c.array([0] * n)
    c.prove('starts from zero', [c.eq(p.x, z), c.eq(p.sol, z), p.x is not p.sol, p.error is not p.x, p.error is not p.sol])
    c.prove('WJT is the inverse mass matrix times the transposed Jacobian', c.eq(p.WJT.toarray(), c.mm(W, c.transpose(J))))
    lam = c.array([c.real('lam%d' % i) for i in range(n)])
    p.sol = lam
    c.prove('the final velocity change is W J^T times the accepted impulses', c.eq(c.call(p.finalize_solution), c.mv(W, c.mv(c.transpose(J), lam))))
