"""C18: state gathering, external forces, energies and integration (prox_rigid_bodies/state_storage.py, steppers.py, types.py)"""
from pv.check import contract
from contracts import _formal as FO
R = 'rainbow.simulators.prox_rigid_bodies.'
S = R + 'state_storage.StateStorage.'
T = R + 'types.'


class Obj:
    pass


def body(c, i, fixed=None):
    b = c.fn(T + 'RigidBody')('b%s' % i)
    b.r, b.q, b.v, b.w = c.vec('r%s' % i), c.unit_quat('q%s' % i), c.vec('v%s' % i), c.vec('w%s' % i)
    b.is_fixed = c.boolean('fixed%s' % i) if fixed is None else fixed
    b.mass, b.inertia = c.positive('m%s' % i), c.array([c.positive('I%s_%d' % (i, j)) for j in range(3)])
    return b


def engine(c, N, fixed=None):
    """an engine with any number of bodies -> engine, the bodies that are known, the accessor of body k"""
    e = c.fn(T + 'Engine')()
    one = {}
    if c.unbounded_sizes:
        def mk(k):
            one['b'] = body(c, '', fixed)
            one['k'] = k
            return one['b']
        e.bodies = c.mapping({}, N, mk)
    else:
        e.bodies = {'n%d' % i: body(c, i, fixed) for i in range(int(N))}
    return e, one


def state(c, N, tag=''):
    s = c.fn(S[:-1])()
    s.x, s.u = c.table('x' + tag, 7 * N), c.table('u' + tag, 6 * N)
    return s


def within(c, stores, lo, n):
    return [c.and_(c.le(lo, i), i < lo + n) for i, _ in stores]


@contract('C18', loops=True)
def gather(c):
    """positions and velocities of any number of bodies, body k at its own range"""
    N = c.size('N', 0, 3)
    e, one = engine(c, N)
    what = c.choice('what', ['position', 'velocity'])
    F, n = S + '_get_%s_vector' % what, 7 if what == 'position' else 6
    parts = lambda b: list(b.r) + list(b.q) if n == 7 else list(b.v) + list(b.w)
    if not c.unbounded_sizes:
        keep = c.snapshot(*e.bodies.values())
        x = c.call(F, e, mutates=(0,))
        c.prove('one range per body', len(x) == n * N)
        for k, b in enumerate(e.bodies.values()):
            c.prove('the range of body k', c.eq(c.array(x[n * k:n * k + n]), c.array(parts(b))))
        c.prove('bodies are not changed', c.unchanged(keep))
        return
    name = 'x' if n == 7 else 'u'
    st = {}

    def havoc(env, k):
        st['x'] = getattr(env, name)
        st['x'].assign(c.table('x', n * N))
        st['k'] = k

    def inv(env, k):
        x = getattr(env, name)
        if c.phase == 'entry':
            return [c.eq(x.N, n * N)]
        if c.phase != 'preserved':
            return [True]
        b, k = one['b'], st['k']
        return within(c, x.stores, n * k, n) + [c.eq(x[n * k + j], p) for j, p in enumerate(parts(b))]
    c.invariant(F, 1, inv, havoc, modifies=(name,))
    c.prove('returns the vector', c.call(F, e, mutates=(0,)) is st['x'])


@contract('C18', loops=True)
def scatter(c):
    """writing back: every body receives its own range and nothing else changes"""
    N = c.size('N', 0, 3)
    e, one = engine(c, N)
    s = state(c, N)
    F = S + 'copy_to_engine'

    def conditions(b, k, old):
        return [c.eq(b.v, c.array([s.u[6 * k + j] for j in range(3)])), c.eq(b.w, c.array([s.u[6 * k + 3 + j] for j in range(3)])),
                c.eq(b.r, c.array([s.x[7 * k + j] for j in range(3)])), c.eq(b.q, c.array([s.x[7 * k + 3 + j] for j in range(4)])),
                {q: v for q, v in b.__dict__.items() if q not in 'vwrq'} == old]
    rest = lambda b: {q: v for q, v in b.__dict__.items() if q not in 'vwrq'}
    if not c.unbounded_sizes:
        old = [rest(b) for b in e.bodies.values()]
        x, u = s.x.copy(), s.u.copy()
        c.call(s.copy_to_engine, e, mutates=(0,))
        for k, b in enumerate(e.bodies.values()):
            c.prove('body k receives its range', conditions(b, k, old[k])[:4])
            c.prove('nothing else of the body changes', all(b.__dict__[q] is v for q, v in old[k].items()))
        c.prove('the state vectors are kept', [c.eq(s.x, x), c.eq(s.u, u)])
        return
    st = {}

    def havoc(env, k):
        st['k'] = k

    def inv(env, k):
        if c.phase == 'assumed':
            b = e.bodies.values if False else None
            return [True]
        if c.phase != 'preserved':
            return [True]
        b = one['b']
        return conditions(b, st['k'], None)[:4] + [len(s.x.stores) == 0, len(s.u.stores) == 0]
    c.invariant(F, 1, inv, havoc, modifies=('body',))
    c.targets.add(F)
    c.call(s.copy_to_engine, e, mutates=(0,))


@contract('C18', bounded='one or two bodies')
def round_trip(c):
    """lemma: reading and writing back is the identity (bounded number of bodies end to end; every size by gather and scatter)"""
    N = c.choice('N', [1, 2])
    e, _ = engine(c, N)
    bs = list(e.bodies.values())
    old = [(dict(b.__dict__), b.r.copy(), b.q.copy(), b.v.copy(), b.w.copy()) for b in bs]
    s = c.fn(S[:-1])()
    s.x, s.u = c.fn(S + '_get_position_vector')(e), c.fn(S + '_get_velocity_vector')(e)
    c.call(s.copy_to_engine, e, mutates=(0,))
    for b, (d, r, q, v, w) in zip(bs, old):
        c.prove('the body is as before', [c.eq(b.r, r), c.eq(b.q, q), c.eq(b.v, v), c.eq(b.w, w), set(b.__dict__) == set(d)] + [b.__dict__[n] is x for n, x in d.items() if n not in 'rqvw'])


def world_inertia(c, q, I):
    M = c.quat_matrix(q)
    return [[sum(M[i][k] * I[k] * M[j][k] for k in range(3)) for j in range(3)] for i in range(3)]


def unit_state(c, s, k, tag=''):
    """orientations are unit (kept by position_update)"""
    if c.sym:
        c.requires(c.eq(sum(s.x[7 * k + 3 + j] * s.x[7 * k + 3 + j] for j in range(4)), 1))
    else:
        s.x[7 * k + 3: 7 * k + 7] = c.unit_quat('uq%s' % tag)


def of(s, k):
    g = lambda a, lo, n: [a[lo + j] for j in range(n)]
    return g(s.x, 7 * k, 3), g(s.x, 7 * k + 3, 4), g(s.u, 6 * k, 3), g(s.u, 6 * k + 3, 3)


@contract('C18', loops=True)
def external_forces(c):
    """any number of bodies and force fields: sum of the fields plus the gyroscopic torque; nothing for fixed bodies"""
    F = S + '_compute_total_external_forces'
    N, K = c.size('N', 0, 2), c.size('K', 0, 2)
    e, one = engine(c, N)
    s = state(c, N)
    calls = []

    class Field:
        def __init__(self, tag):
            self.f, self.t = c.vec('F' + tag), c.vec('T' + tag)

        def compute(self, *a):
            calls.append((self,) + a)
            return self.f.copy(), self.t.copy()

    def args_ok(call, b, k):
        r, q, v, w = of(s, k)
        return [call[1] is b, c.eq(call[2], c.array(r)), c.eq(call[3], c.array(q)), c.eq(call[4], c.array(v)), c.eq(call[5], c.array(w))]

    def gyro(b, k):
        r, q, v, w = of(s, k)
        I = world_inertia(c, q, b.inertia)
        w = c.array(w)
        return -c.cross(w, c.mv(I, w))
    if not c.unbounded_sizes:
        for k, b in enumerate(e.bodies.values()):
            b.forces = [Field('%d_%d' % (k, i)) for i in range(int(K))]
            unit_state(c, s, k, str(k))
        keep = c.snapshot(*e.bodies.values()), s.x.copy(), s.u.copy()
        f = c.call(s._compute_total_external_forces, e, mutates=(0,))
        for k, b in enumerate(e.bodies.values()):
            if b.is_fixed:
                c.prove('no force on a fixed body', c.eq(c.array(f[6 * k:6 * k + 6]), c.array([0] * 6)))
                continue
            c.prove('total force', c.close(c.array(f[6 * k:6 * k + 3]), sum([x.f for x in b.forces], 0 * b.r), 1e-9))
            c.prove('total torque', c.close(c.array(f[6 * k + 3:6 * k + 6]), sum([x.t for x in b.forces], 0 * b.r) + gyro(b, k), 1e-7))
            mine = [x for x in calls if x[1] is b]
            c.prove('each field once, with the state of the body', [len(mine) == K] + sum([args_ok(x, b, k) for x in mine], []))
        c.prove('nothing is changed', [c.unchanged(keep[0]), c.eq(s.x, keep[1]), c.eq(s.u, keep[2])])
        return
    st = {}
    old = e.bodies.other

    def mk(k):
        b = old(k)
        if not b.is_fixed:
            unit_state(c, s, k)
        b.forces = c.sequence(K, lambda i: st.setdefault('field', Field('')))
        return b
    e.bodies.other = mk

    def havoc(env, k):
        st['f'] = env.f_ext
        st['f'].assign(c.table('f', 6 * N))
        st['k'] = k

    def inv(env, k):
        f = env.f_ext
        i = c.fresh_int('i')
        if c.phase == 'entry':
            return [c.eq(f.N, 6 * N), c.eq(f.at(i)[0], 0)]
        if c.phase != 'preserved':
            return [True]
        b, k = one['b'], st['k']
        if b.is_fixed:
            return [len(f.stores) == 0, not calls]
        return within(c, f.stores, 6 * k, 6) + [c.eq(f[6 * k + j], x) for j, x in enumerate(list(st['F']) + list(st['T']))]

    def havoc_inner(env, k):
        calls.clear()
        st['F'], st['T'] = c.vec('sumF'), c.vec('sumT')
        return {'F': st['F'].copy(), 'T': st['T'].copy()}

    def inv_inner(env, k):
        if c.phase == 'entry':
            return [c.eq(env.F, 0 * st['zero'] if 'zero' in st else c.array([0, 0, 0])), c.eq(env.T, gyro(one['b'], st['k']))]
        if c.phase != 'preserved':
            return [True]
        x = st['field']
        return [len(calls) == 1 and calls[0][0] is x] + (args_ok(calls[0], one['b'], st['k']) if calls else []) + [c.eq(env.F, st['F'] + x.f), c.eq(env.T, st['T'] + x.t)]
    c.invariant(F, 1, inv, havoc, modifies=('f_ext', 'body'))
    c.invariant(F, 2, inv_inner, havoc_inner, modifies=('F', 'T', 'Fi', 'Ti'))
    c.targets.add(F)
    f = c.call(s._compute_total_external_forces, e, mutates=(0,))
    c.prove('returns the vector; the state is not changed', [f is st['f'], not s.x.stores, not s.u.stores])


@contract('C18')
def fields(c):
    """gravity and damping"""
    b = body(c, '', False)
    r, q, v, w = c.vec('r'), c.unit_quat('q'), c.vec('v'), c.vec('w')
    g = c.fn(T + 'Gravity')('g')
    g.g, g.up = c.real('g'), c.unit_vec('up')
    keep = c.snapshot(b, g)
    F, M = c.call(g.compute, b, r, q, v, w)
    c.prove('gravity is mass times acceleration downwards', c.eq(F, -(b.mass * g.g) * g.up))
    c.prove('gravity has no torque about the centre of mass', c.eq(M, c.array([0, 0, 0])))
    d = c.fn(T + 'Damping')('d')
    d.alpha, d.beta = c.real('alpha'), c.real('beta')
    F, M = c.call(d.compute, b, r, q, v, w)
    c.prove('damping opposes the velocities in proportion', [c.eq(F, -d.alpha * v), c.eq(M, -d.beta * w)])
    F[0] = F[0] + 1
    M[0] = M[0] + 1
    c.prove('the body and the field are unchanged', c.unchanged(keep))
    c.targets.update({T + 'Gravity.compute', T + 'Damping.compute'})


@contract('C18', loops=True)
def inverse_mass(c):
    """any number of bodies: two blocks per body, zero for fixed bodies, 1/m and R I^-1 R^T otherwise"""
    F = S + '_compute_inverse_mass_matrix'
    N = c.size('N', 1, 2)
    e, one = engine(c, N)
    s = state(c, N)

    def want(b, k):
        Z = [[0] * 3 for _ in range(3)]
        if b.is_fixed:
            return Z, Z
        q = of(s, k)[1]
        return [[1 / b.mass if i == j else 0 for j in range(3)] for i in range(3)], world_inertia(c, q, [1 / x for x in b.inertia])
    if not c.unbounded_sizes:
        for k, b in enumerate(e.bodies.values()):
            unit_state(c, s, k, str(k))
        keep = c.snapshot(*e.bodies.values())
        W = c.call(s._compute_inverse_mass_matrix, e, mutates=(0,)).toarray()
        c.prove('shape', W.shape == (6 * N, 6 * N))
        for k, b in enumerate(e.bodies.values()):
            for h, B in enumerate(want(b, k)):
                o = 6 * k + 3 * h
                c.prove('block', c.eq(c.array(W[o:o + 3, o:o + 3]), c.array(B)))
                W[o:o + 3, o:o + 3] = 0
                c.prove('the block is symmetric', c.eq(c.array(B), c.transpose(c.array(B))))
        c.prove('nothing outside the blocks', c.eq(c.array(W), 0 * c.array(W)))
        c.prove('bodies unchanged', c.unchanged(keep))
        return
    st = {}
    old = e.bodies.other

    def mk(k):
        b = old(k)
        if not b.is_fixed:
            unit_state(c, s, k)
        return b
    e.bodies.other = mk
    Z = c.array([[0] * 3 for _ in range(3)])

    def havoc(env, k):
        st['b'] = env.blocks
        st['k'] = k
        st['b'].forget(lambda i: Z.copy() if st.get('k') is not None else None)

    def inv(env, k):
        B = env.blocks
        if c.phase == 'entry':
            return [c.eq(B.count(), 2 * N), c.eq(B.item(c.fresh_int('i')), Z)]
        if c.phase != 'preserved':
            return [True]
        b, k = one['b'], st['k']
        W0, W1 = want(b, k)
        # the blocks of body k have not been written before (they are written in iteration k only)
        return [c.or_(c.eq(i, 2 * k), c.eq(i, 2 * k + 1)) for i, _ in B.sets] + \
               [c.eq(B.item(2 * k), c.array(W0)), c.eq(B.item(2 * k + 1), c.array(W1)), c.eq(c.array(W1), c.transpose(c.array(W1)))]
    c.invariant(F, 1, inv, havoc, modifies=('blocks', 'body'))

    class Mat:
        def tobsr(self, *a, **k):
            return self
        tocsr = tocsc = tobsr
    M = Mat()

    def diag(blocks):
        c.prove('made of the blocks', [blocks is st['b']])
        return M
    c.stubs['block_diag'] = diag
    c.targets.add(F)
    c.prove('block diagonal', c.call(s._compute_inverse_mass_matrix, e, mutates=(0,)) is M)
    c.prove('the state is not changed', [not s.x.stores, not s.u.stores])


@contract('C18', loops=True)
def massless(c):
    """a moving body without mass is rejected"""
    e, _ = engine(c, c.const(1) if False else 1, False) if not c.unbounded_sizes else (None, None)
    if e is None:
        e = c.fn(T + 'Engine')()
        e.bodies = {'a': body(c, '', False)}
    b = list(e.bodies.values())[0]
    b.mass = 0
    s = c.fn(S[:-1])()
    s.x, s.u = c.array([0] * 3 + list(c.unit_quat('q'))), c.array([0] * 6)
    c.expect_raise('rejected', s._compute_inverse_mass_matrix, e, exc=ValueError)


@contract('C18', loops=True)
def energies(c):
    """any number of bodies: sum of kinetic and gravitational energies of the moving bodies (gravity: any set of three force fields)"""
    F = S + 'compute_total_energy'
    N = c.size('N', 0, 2)
    e, one = engine(c, N)
    s = state(c, N)
    kinds = c.choice('fields', ['', 'g', 'd', 'gd', 'gg', 'dgg'])
    gs = []
    for i, x in enumerate(kinds):
        f = e.forces['f%d' % i] = c.fn(T + ('Gravity' if x == 'g' else 'Damping'))('f%d' % i)
        if x == 'g':
            f.g, f.up = c.real('g%d' % i), c.unit_vec('up%d' % i)
            gs.append(f)
    G = sum([f.g * f.up for f in gs], c.array([0, 0, 0]) * c.const(1) if c.sym else c.array([0.0, 0, 0]))
    if gs and c.sym:
        c.requires(c.norm(G) > c.const('1e-10') if False else c.norm(G) > 0)

    def want(b, k):
        if b.is_fixed:
            return 0, 0
        r, q, v, w = of(s, k)
        I = world_inertia(c, q, b.inertia)
        w = c.array(w)
        return (b.mass * sum(a * a for a in v) + c.dot(w, c.mv(I, w))) / 2, b.mass * c.dot(G, c.array(r))
    if not c.unbounded_sizes:
        for k, b in enumerate(e.bodies.values()):
            unit_state(c, s, k, str(k))
        keep = c.snapshot(*e.bodies.values(), e.forces), s.x.copy(), s.u.copy()
        K, P = c.call(s.compute_total_energy, e, mutates=(0,))
        ws = [want(b, k) for k, b in enumerate(e.bodies.values())]
        c.prove('kinetic energy', c.close(K, sum([a for a, _ in ws], 0), 1e-7))
        c.prove('gravitational energy', c.close(P, sum([b for _, b in ws], 0), 1e-7))
        c.prove('nothing is changed', [c.unchanged(keep[0]), c.eq(s.x, keep[1]), c.eq(s.u, keep[2])])
        return
    st = {}
    old = e.bodies.other

    def mk(k):
        b = old(k)
        if not b.is_fixed:
            unit_state(c, s, k)
        return b
    e.bodies.other = mk

    def havoc(env, k):
        st['k'] = k
        st['K'], st['P'] = c.real('K'), c.real('P')
        return {'kinetic': st['K'], 'potential': st['P']}

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.kinetic, 0), c.eq(env.potential, 0)]
        if c.phase != 'preserved':
            return [True]
        K, P = want(one['b'], st['k'])
        return [c.eq(env.kinetic, st['K'] + K), c.eq(env.potential, st['P'] + P)]
    c.invariant(F, 1, inv, havoc, modifies=('body', 'gravity_force'))
    c.targets.add(F)
    K, P = c.call(s.compute_total_energy, e, mutates=(0,))
    c.prove('kinetic first, then potential; nothing is changed', [c.eq(K, st['K']), c.eq(P, st['P']), not s.x.stores, not s.u.stores])


@contract('C18', loops=True)
def velocity_update(c):
    """adds the change to every entry"""
    N = c.size('N', 0, 3)
    s, d = state(c, N), c.table('d', 6 * N)
    u0, d0, u = s.u.copy(), d.copy(), s.u
    if not c.unbounded_sizes and N == 0:
        return
    i = c.index('i', 6 * N)
    x = s.x
    c.targets.add(S + 'velocity_update')
    c.call(s.velocity_update, d, mutates=(0,))
    c.prove('adds the change', c.eq(s.u[i], u0[i] + d0[i]))
    c.prove('the change and the positions are kept', [c.eq(d[i], d0[i]), s.x is x])
    s.u = None
    c.expect_raise('no velocities', s.velocity_update, d, exc=ValueError)


@contract('C18', loops=True, budget=120)
def position_update(c):
    """any number of bodies: r + dt v and the normalised q + dt/2 (0,w) q; fixed bodies and velocities are untouched"""
    F = S + 'position_update'
    N = c.size('N', 0, 2)
    e, one = engine(c, N)
    s = state(c, N)
    given = c.boolean('given velocities')
    u = c.table('given', 6 * N) if given else None
    dt = c.positive('dt')
    vel = u if given else s.u
    args = (dt, e) + ((u,) if given else ())
    x0 = s.x.copy()

    def check(b, k, x, old):
        r, q = [old[7 * k + j] for j in range(3)], [old[7 * k + 3 + j] for j in range(4)]
        v, w = [vel[6 * k + j] for j in range(3)], [vel[6 * k + 3 + j] for j in range(3)]
        if b.is_fixed:
            return [c.eq(x[7 * k + j], old[7 * k + j]) for j in range(7)]
        p = c.hamilton(c.array([0] + w), c.array(q))
        z = [q[j] + dt / 2 * p[j] for j in range(4)]
        n2 = sum(a * a for a in z)
        now = [x[7 * k + 3 + j] for j in range(4)]
        # z = |z| now
        n = c.sqrt(n2)
        return [c.eq(x[7 * k + j], r[j] + dt * v[j]) for j in range(3)] + [c.eq(now[j] * n, z[j]) for j in range(4)]
    if not c.unbounded_sizes:
        for k, b in enumerate(e.bodies.values()):
            unit_state(c, s, k, str(k))
        x0, u0, x = s.x.copy(), vel.copy(), s.x
        keep = c.snapshot(*e.bodies.values())
        c.call(s.position_update, *args, mutates=(1,))
        for k, b in enumerate(e.bodies.values()):
            c.prove('explicit step', check(b, k, s.x, x0))
            if not b.is_fixed:
                c.prove('unit orientation', c.close(sum(s.x[7 * k + 3 + j] ** 2 for j in range(4)), 1, 1e-9))
        c.prove('bodies and velocities are kept', [c.unchanged(keep), c.eq(vel, u0)])
        s.x = None
        c.expect_raise('no positions', s.position_update, *args, exc=ValueError)
        return
    st = {}
    old = e.bodies.other

    def mk(k):
        b = old(k)
        if not b.is_fixed:
            unit_state(c, s, k)
        return b
    e.bodies.other = mk
    x1 = c.table('x1', 7 * N)

    def havoc(env, k):
        st['k'] = k
        s.x.assign(x1)

    def inv(env, k):
        if c.phase != 'preserved':
            return [True]
        b, k = one['b'], st['k']
        if b.is_fixed:
            return [len(s.x.stores) == 0]
        return within(c, s.x.stores, 7 * k, 7) + check(b, k, s.x, x1) + [c.eq(sum(s.x[7 * k + 3 + j] * s.x[7 * k + 3 + j] for j in range(4)), 1)]
    c.invariant(F, 1, inv, havoc, modifies=('self', 'r', 'q', 'body'))
    c.targets.add(F)
    arr = s.x, s.u
    c.call(s.position_update, *args, mutates=(1,))
    c.prove('in place; velocities are kept', [s.x is arr[0], s.u is arr[1], not s.u.stores, not (given and u.stores)])


@contract('C18')
def orientation_rate(c):
    """lemma: the quaternion step turns the body by the angular velocity: d/dt of rotated vectors is w x (R a)"""
    q, w, a = c.unit_quat('q'), c.vec('w'), c.vec('a')
    p = c.hamilton(c.array([0] + list(w)), q)
    conj = lambda z: c.array([z[0], -z[1], -z[2], -z[3]])
    A = c.array([0] + list(a))
    half = c.const('0.5') if c.sym else 0.5
    rate = c.hamilton(c.hamilton(half * c.array(list(p)), A), conj(q))
    rate2 = c.hamilton(c.hamilton(q, A), conj(half * c.array(list(p))))
    got = c.array([rate[j] + rate2[j] for j in range(4)])
    want = c.cross(w, c.mv(c.quat_matrix(q), a))
    c.prove('rate of rotated vectors', [c.eq(got[0], 0), c.eq(c.array(list(got)[1:]), want)])


@contract('C18', loops=True)
def copy_from_engine(c):
    """all parts of the state come from the engine; the acceleration is W f"""
    s = c.fn(S[:-1])()
    if not c.unbounded_sizes:
        N = c.choice('N', [1, 2])
        e, _ = engine(c, N)
        keep = c.snapshot(*e.bodies.values())
        c.call(s.copy_from_engine, e, mutates=(0,))
        t = c.fn(S[:-1])()
        t.x, t.u = c.fn(S + '_get_position_vector')(e), c.fn(S + '_get_velocity_vector')(e)
        f, W = t._compute_total_external_forces(e), t._compute_inverse_mass_matrix(e).toarray()
        c.prove('state', [c.eq(s.x, t.x), c.eq(s.u, t.u), c.eq(s.f_ext, f), c.eq(c.array(s.W.toarray()), c.array(W))])
        c.prove('acceleration', c.close(c.array(s.delta_u_ext), c.mv(c.array(W), c.array(f)), 1e-9))
        c.prove('the engine is not changed', c.unchanged(keep))
        return
    e = object()
    x, u, f = object(), object(), object()

    class W:
        def dot(self, y):
            return ('W', y)
        __matmul__ = dot
    W = W()

    def part(v, need):
        def g(*a):
            c.prove('from the engine', [a[-1] is e] + [getattr(s, n) is y for n, y in need])
            return v
        return g
    c.replace(S + '_get_position_vector', staticmethod(part(x, ())))
    c.replace(S + '_get_velocity_vector', staticmethod(part(u, ())))
    c.replace(S + '_compute_total_external_forces', part(f, (('x', x), ('u', u))))
    c.replace(S + '_compute_inverse_mass_matrix', part(W, (('x', x),)))
    c.targets.add(S + 'copy_from_engine')
    s.copy_from_engine(e)
    c.prove('state and acceleration', [s.x is x, s.u is u, s.f_ext is f, s.W is W, s.delta_u_ext == ('W', f)])


class Clock:
    def __init__(self, *a):
        self.running, self.elapsed = False, None

    def start(self):
        self.running = True

    def end(self):
        self.running, self.elapsed = False, 'time'


@contract('C18')
def step(c):
    """the order of one step: gather, detect, solve, add the velocity changes, advance positions, stabilise, write back"""
    F = R + 'steppers.SemiImplicitStepper.step'
    G = c.fn(F).__globals__
    prof = c.boolean('profiling')
    contacts, hinges, post = c.boolean('contacts'), c.boolean('hinges'), c.boolean('post stabilisation')
    gap = c.boolean('gap') if contacts and post else False
    dt = c.positive('dt')
    log = []
    e = Obj()
    e.contact_points, e.hinges, e.params = [], {'h': 1} if hinges else {}, Obj()
    e.params.use_post_stabilization = post
    W = [[c.real('W%d%d' % (i, j)) for j in range(2)] for i in range(2)]
    uC, uH, dr, acc = c.vec('uC', 2), c.vec('uH', 2), c.vec('dr', 2), c.vec('acc', 2)
    u0 = c.vec('u', 2)

    class State:
        def copy_from_engine(self, en):
            log.append('gather')
            assert en is e
            self.u, self.delta_u_ext = u0.copy(), acc.copy()

        def velocity_update(self, d):
            log.append('velocity')
            self.u += d
            self.d = d

        def position_update(self, dt, engine, u=None):
            assert engine is e
            log.append(('position', dt, (self.u if u is None else u).copy()))

        def copy_to_engine(self, en):
            assert en is e
            log.append(('write', self.u.copy()))

        def compute_total_energy(self, en):
            log.append('energy')
            return 'K', 'P'

    def detect(en, data, p):
        log.append('detect')
        assert en is e
        if contacts:
            e.contact_points = ['c']

    def problem(kind, value):
        class Prob:
            made = []

            def __init__(self, *a, **k):
                self.kind = kind
                self.args = list(a) + list(k.values())
                Prob.made.append(self)
                self.g = c.np.array([0.5 if gap else 0.0])

            def initialize(self, dt, state, engine):
                log.append(('init', kind, dt, isinstance(state, State), engine is e))

            def finalize_solution(self):
                log.append(('final', kind))
                return value.copy()

            @staticmethod
            def get_largest_penetration(en):
                return 'pen'
        return Prob
    C, H, P = problem('contacts', uC), problem('hinges', uH), problem('post', dr)

    class Storage:
        StateStorage = State

    class Problems:
        Contacts, Hinges, PostStabilization, Problem = C, H, P, object

    class CD:
        run_collision_detection = staticmethod(detect)

    class Solver:
        @staticmethod
        def solve(en, problems, data, p, prefix=''):
            log.append(('solve', [q.kind for q in problems], prefix))
            assert en is e and p is prof
    old = {k: G[k] for k in ('STORAGE', 'PROBLEMS', 'CD', 'SOLVER', 'Timer')}
    G.update(STORAGE=Storage, PROBLEMS=Problems, CD=CD, SOLVER=Solver, Timer=Clock)
    st = c.fn(R + 'steppers.SemiImplicitStepper')()
    try:
        c.call(st.step, dt, e, prof, mutates=(1,))
    finally:
        G.update(old)
    c.targets.update({F, R + 'steppers._apply_post_stabilization'})
    kinds = ['contacts'] * contacts + ['hinges'] * hinges
    u1 = u0 + dt * acc + (uC if contacts else 0 * uC) + (uH if hinges else 0 * uH)
    names = [x if isinstance(x, str) else x[0] for x in log]
    want = ['gather', 'detect'] + ['init'] * len(kinds) + ['solve'] * bool(kinds) + ['final'] * len(kinds) + ['velocity', 'position']
    ps = contacts and post
    want += ['init'] * ps + ['solve', 'final', 'position'] * (ps and gap) + ['write']
    c.prove('the phases of the step', [sorted(names) == sorted(want + ['energy'] * prof)])
    at = lambda n: [i for i, x in enumerate(names) if x == n]
    c.prove('order', [at('gather')[0] < at('detect')[0], at('detect')[0] < at('velocity')[0], at('velocity')[0] < at('position')[0], at('write')[0] > at('position')[-1]])
    if kinds:
        so = log[at('solve')[0]]
        c.prove('the problems are solved together', [sorted(so[1]) == sorted(kinds), so[2] == '', at('init')[len(kinds) - 1] < at('solve')[0], at('solve')[0] < at('final')[0],
                at('final')[len(kinds) - 1] < at('velocity')[0], at('detect')[0] < at('init')[0]])
        ini = [log[i] for i in at('init')[:len(kinds)]]
        c.prove('each problem is initialised with the step', [sorted(x[1] for x in ini) == sorted(kinds)] + [c.eq(x[2], dt) for x in ini] + [x[3] and x[4] for x in ini])
        c.prove('each solution is used once', sorted(x[1] for x in log if x[0] == 'final')[:] == sorted(kinds + ['post'] * (ps and gap)))
    pos = [log[i] for i in at('position')]
    c.prove('positions advance with the new velocities', [c.eq(pos[0][1], dt), c.eq(pos[0][2], u1)])
    c.prove('the new velocities are written back', c.eq(log[at('write')[0]][1], u1))
    if ps:
        x = log[at('init')[-1]]
        c.prove('stabilisation works on the contact problem with unit step', [x[1] == 'post', c.eq(x[2], 1), len(P.made) == 1 and len(P.made[0].args) == 1 and P.made[0].args[0] is C.made[0],
                at('init')[-1] > at('position')[0]])
        if gap:
            c.prove('stabilisation moves positions only', [c.eq(pos[1][1], 1), c.eq(pos[1][2], dr), log[at('solve')[-1]][1:] == (['post'], 'post_stabilization_')])
    c.prove('log', [len(st.log) == int(prof)])
    if prof:
        d = st.log[0]
        c.prove('reported statistics', [c.eq(d['dt'], dt), d['contact_points'] == int(contacts), d['kinetic_energy'] == 'K', d['potential_energy'] == 'P', d['max_penetration'] == 'pen', d['stepper_time'] == 'time'])


@contract('C18', loops=True)
def fixed_bodies(c):
    """any number of bodies and constraints: the velocity change of a fixed body is exactly zero, W f and W J^T x have zero rows there"""
    if not c.unbounded_sizes:
        return None if c.sym else small_fixed_bodies(c)
    N, K = c.size('N', 2, 3), c.size('K', 1, 2)
    R5 = 5 * K
    J, W = FO.constraint_system(c, R5, N)
    f, u, x, i = c.table('f', 6 * N), c.table('u', 6 * N), c.table('x', 7 * N), c.index('i', R5)
    side = c.choice('fixed body', [0, 1])
    first = J.cols(i)[6 * side]
    # contract of _compute_inverse_mass_matrix (inverse_mass): a fixed body has a zero block
    c.requires(c.and_(*[c.eq(W.at(first, p, q), 0) for p in range(6) for q in range(6)]))
    s, e = c.fn(S[:-1])(), c.fn(T + 'Engine')()
    e.hinges = c.mapping({}, K)
    for n, v in (('_get_position_vector', x), ('_get_velocity_vector', u), ('_compute_total_external_forces', f), ('_compute_inverse_mass_matrix', W)):
        c.replace(S + n, staticmethod(lambda *a, v=v: v) if 'vector' in n else lambda *a, v=v: v)
    s.copy_from_engine(e)
    c.targets.add(S + 'copy_from_engine')
    c.prove('no acceleration of a fixed body', [c.eq(s.delta_u_ext[first + p], 0) for p in range(6)])
    H = R + 'constraints.hinges.Hinges.'
    p = c.fn(H[:-1])()
    cls = type(p)
    old = cls.__dict__['_compute_jacobian_matrix'], cls.__dict__['_compute_error_vector']
    try:
        cls._compute_jacobian_matrix, cls._compute_error_vector = staticmethod(lambda en: J), staticmethod(lambda d, en: c.table('g', R5))
        c.call(p.initialize, c.positive('dt'), s, e)
    finally:
        cls._compute_jacobian_matrix, cls._compute_error_vector = old
    v = p.WJT.M.vals(i)
    c.prove('no constraint moves a fixed body', [c.eq(v[6 * side + q], 0) for q in range(6)])


def small_fixed_bodies(c):
    e, _ = engine(c, 2)
    s = c.fn(S[:-1])()
    s.copy_from_engine(e)
    J = c.array([[c.real('J%d_%d' % (i, j)) for j in range(12)] for i in range(4)])
    x = c.vec('x', 4)
    W = c.array(s.W.toarray())
    d = c.mv(W, c.mv(c.transpose(J), x))
    for k, b in enumerate(e.bodies.values()):
        if b.is_fixed:
            c.prove('no change', [c.eq(c.array(list(d)[6 * k:6 * k + 6]), c.array([0] * 6)), c.eq(c.array(list(s.delta_u_ext)[6 * k:6 * k + 6]), c.array([0] * 6))])
        else:
            c.prove('setup', True)
