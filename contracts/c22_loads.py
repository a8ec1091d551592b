"""C22: soft body mass, damping and loads (prox_soft_bodies/solver.py)"""
from pv.check import contract
from contracts._soft import *
EA = SOLVER + 'ElementArrayUtil.'
MOD = SOLVER[:-1]


def block(c, lumped, i, j):
    return (c.const('1/4') if i == j else 0) if lumped else (c.const('1/10') if i == j else c.const('1/20'))


@contract('C22', loops=True)
def element_matrices(c):
    """any mesh: mass and damping blocks of an arbitrary element; symmetric, in total density (coefficient) times volume"""
    what = c.choice('what', ['mass', 'damping'])
    F = NAT + 'compute_%s_element_array' % what
    name = 'M_array' if what == 'mass' else 'C_array'
    n = c.size('n', 0, 3)
    T, v, rho, lumped = elements(c, n, 5), c.table('vol', n), c.real('rho'), c.boolean('lumped')

    def want(vol):
        return [[[[block(c, lumped, i, j) * rho * vol if p == q else 0 for q in range(3)] for p in range(3)] for j in range(4)] for i in range(4)]

    def check(A, vol):
        W = want(vol)
        out = [c.close(A[i][j][p][q], W[i][j][p][q], 1e-12) for i in range(4) for j in range(4) for p in range(3) for q in range(3)]
        out += [c.close(A[i][j][p][q], A[j][i][q][p], 1e-12) for i in range(4) for j in range(4) for p in range(3) for q in range(3)]
        tot = [[sum(A[i][j][p][q] for i in range(4) for j in range(4)) for q in range(3)] for p in range(3)]
        return out + [c.close(tot[p][q], rho * vol if p == q else 0, 1e-12) for p in range(3) for q in range(3)]
    if not c.unbounded_sizes:
        A = c.call(F, rho, v, T, lumped)
        c.prove('one per element', A.shape == (n, 4, 4, 3, 3))
        for e in range(n):
            c.prove('element matrix', check(A[e], v[e]))
        return
    st = {}

    def havoc(env, k):
        st['A'], st['k'] = getattr(env, name), k
        st['A'].assign(c.table('A', n, (4, 4, 3, 3)))

    def inv(env, k):
        A = getattr(env, name)
        if c.phase == 'entry':
            return [c.eq(A.N, n)]
        if c.phase != 'preserved':
            return [True]
        return [c.eq(i, st['k']) for i, _ in A.stores] + check(A.at(st['k'])[0], v[st['k']])
    c.invariant(F, 3, inv, havoc, modifies=(name,))
    c.prove('returned', c.call(F, rho, v, T, lumped) is st['A'])


def product(c, A, t, x):
    return [sum((c.mv(A[i][j], x[t[j]]) for j in range(1, 4)), c.mv(A[i][0], x[t[0]])) for i in range(4)]


@contract('C22', loops=True)
def matrix_free_product(c):
    """any mesh and vector, in either layout: an arbitrary element adds sum_j A_ij x_j to its node i and nothing else"""
    F = EA + 'prod_mat_vec'
    flat = c.choice('layout', [False, True])
    n, N = c.size('n', 0, 3), c.size('N', 5, 5)
    T, A = elements(c, n, N), c.table('A', n, (4, 4, 3, 3))
    x = c.table('x', 3 * N) if flat else c.table('x', N, 3)
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        y = c.call(F, T, A, x)
        import numpy
        X, want = x.reshape((-1, 3)), numpy.zeros((5, 3))
        for e in range(n):
            for i in range(4):
                want[T[e][i]] += sum(A[e][i][j] @ X[T[e][j]] for j in range(4))
        c.prove('sum of the element products', [y.shape == x.shape, c.close(y.reshape((-1, 3)), want, 1e-9)])
        row, col, data = c.call(EA + 'assembly_coo', T, A)
        M = numpy.zeros((15, 15))
        for r, q, d in zip(row, col, data):
            M[r, q] += d
        c.prove('the assembled matrix gives the same product', c.close(M @ X.reshape(-1), want.reshape(-1), 1e-9))
        B = c.call(EA + 'assembly_csr', 5, T, A)
        c.prove('so does the sparse matrix', [B.shape == (15, 15), c.close(B.toarray(), M, 1e-9)])
        return
    at = (lambda v, i: c.array([v.at(3 * i + q)[0] for q in range(3)])) if flat else (lambda v, i: v.at(i)[0])
    st = {}

    def havoc(env, k):
        st['old'] = c.table('y', 3 * N) if flat else c.table('y', N, 3)
        env.y.assign(st['old'])
        st['k'], st['y'] = k, env.y
        different(c, T.at(k)[0])

    def inv(env, k):
        y = env.y
        if c.phase == 'entry':
            i = c.fresh_int('i')
            return [c.eq(y.N, x.N), c.eq(y.at(i)[0], 0 if flat else c.array([0, 0, 0])), y is not x]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        t = T.at(k)[0]
        add = product(c, A.at(k)[0], range(4), [at(x, t[j]) for j in range(4)])
        own = [3 * i + q for i in t for q in range(3)] if flat else list(t)
        return [c.or_(*[c.eq(i, j) for j in own]) for i, _ in y.stores] + [c.eq(at(y, t[i]), at(st['old'], t[i]) + add[i]) for i in range(4)]
    c.invariant(F, 1 if flat else 4, inv, havoc, modifies=('y',))
    c.prove('returned', c.call(F, T, A, x) is st['y'])


class Blocks:
    """a dictionary from pairs of nodes to 3x3 blocks in the middle of the loop: one pair is followed, the other pairs of the
    element are all present or all absent"""

    def __init__(self, c, key):
        self.c, self.key = c, key
        self.others = c.choice('other pairs', [True, False])
        self.inside = c.choice('pair present', [True, False])
        self.value = c.mat('B') if self.inside else None
        self.old = self.value + 0 if self.inside else None
        self.sets = 0

    def follows(self, key):
        return self.c.identical(key[0], self.key[0]) and self.c.identical(key[1], self.key[1])

    def __contains__(self, key):
        return self.value is not None if self.follows(key) else self.others

    __pv_contains__ = __contains__

    def __getitem__(self, key):
        if not self.follows(key):
            return self.c.array([[0] * 3] * 3)
        self.c.prove('only existing entries are read', self.value is not None)
        return self.value + 0

    def __setitem__(self, key, v):
        if self.follows(key):
            self.sets += 1
            self.value = v

    def __pv_state__(self):
        return self.sets


@contract('C22', loops=True, budget=150)
def assembly(c):
    """any mesh: an arbitrary element adds each of its blocks to the entry of its pair of nodes and nothing else;
    then every entry of the table of pairs becomes nine triplets"""
    F = EA + 'assembly_coo'
    n, N, L = c.size('n', 0, 2), c.size('N', 5, 5), c.size('pairs', 0, 3)
    if not c.unbounded_sizes:
        return c.requires(False) if c.sym else None
    T, A = elements(c, n, N), c.table('A', n, (4, 4, 3, 3))
    st = {}
    i0, j0 = c.choice('i', range(4)), c.choice('j', range(4))

    def havoc(env, k):
        if c.identical(k, n):
            return {'lut': Table()}
        t = T.at(k)[0]
        st['k'], st['lut'] = k, Blocks(c, (t[i0], t[j0]))
        different(c, t)
        return {'lut': st['lut']}

    class Table:
        """the completed table"""
        def __pv_len__(self):
            return L

        def items(self):
            keys, vals = c.table('key', L, 2, integer=True), c.table('value', L, (3, 3))
            st['keys'], st['vals'] = keys, vals
            return c.sequence(L, lambda i: ((keys[i][0], keys[i][1]), vals[i]))

    def inv(env, k):
        if c.phase == 'entry':
            return [len(env.lut) == 0]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        B = st['lut']
        return [env.lut is B, B.sets == 1, c.eq(B.value, (B.old if B.inside else 0) + c.array(A.at(k)[0][i0, j0]))]
    c.invariant(F, 1, inv, havoc, modifies=('lut',))
    st2 = {}

    def havoc2(env, s):
        for a, nm in ((env.row, 'row'), (env.col, 'col')):
            a.assign(c.table(nm, 9 * L, integer=True))
        env.data.assign(c.table('data', 9 * L))
        st2.update(k=s, row=env.row, col=env.col, data=env.data)
        return {'s': 9 * s}

    def inv2(env, k):
        if c.phase == 'entry':
            return [c.eq(env.s, 0), c.eq(env.row.N, 9 * L), c.eq(env.col.N, 9 * L), c.eq(env.data.N, 9 * L)]
        if c.phase != 'preserved':
            return [c.eq(env.s, 9 * k)]
        k0 = st2['k']
        K, V = st['keys'][k0], st['vals'][k0]
        out = [c.eq(env.s, 9 * (k0 + 1))]
        for a in (env.row, env.col, env.data):
            out += [len(a.stores) == 9] + [c.and_(c.le(9 * k0, i), i < 9 * k0 + 9) for i, _ in a.stores]
        seen = []
        for q in range(9):
            r, l, d = (a.at(9 * k0 + q)[0] for a in (env.row, env.col, env.data))
            hit = [(i, j) for i in range(3) for j in range(3) if c.identical(r, 3 * K[0] + i) and c.identical(l, 3 * K[1] + j)]
            out.append(len(hit) == 1)
            if hit:
                seen.append(hit[0])
                out.append(c.eq(d, V[hit[0][0]][hit[0][1]]))
        return out + [len(set(seen)) == 9]
    c.invariant(F, 4, inv2, havoc2, modifies=('row', 'col', 'data', 's'))
    r = c.call(F, T, A)
    c.prove('the triplets are returned', [r[0] is st2['row'], r[1] is st2['col'], r[2] is st2['data']])


@contract('C22', loops=True)
def gravity(c):
    """any mesh: an arbitrary element adds a quarter of its weight to each of its nodes and nothing else"""
    F = NAT + 'compute_gravity_forces'
    n, N = c.size('n', 0, 3), c.size('N', 5, 5)
    T, v, rho, g = elements(c, n, N), c.table('v', n), c.real('rho', 0, 3), c.vec('g')
    if not c.unbounded_sizes:
        f = c.call(F, int(N), T, v, rho, g)
        c.prove('shape', f.shape == (int(N), 3))
        w = [rho * v[e] / 4 * g for e in range(n)]
        c.prove('weights', [c.close(f[i], sum((w[e] for e in range(n) if i in list(T[e])), 0 * g), 1e-9) for i in range(5)])
        return
    st = {}

    def havoc(env, k):
        st['old'] = c.table('f', N, 3)
        env.Fg.assign(st['old'])
        st['k'], st['f'] = k, env.Fg
        different(c, T.at(k)[0])

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.Fg.N, N), c.eq(env.Fg.at(c.fresh_int('i'))[0], c.array([0, 0, 0]))]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        t = T.at(k)[0]
        return [c.or_(*[c.eq(i, j) for j in t]) for i, _ in env.Fg.stores] + \
            [c.eq(env.Fg.at(t[s])[0], st['old'].at(t[s])[0] + rho * v[k] / 4 * g) for s in range(4)]
    c.invariant(F, 1, inv, havoc, modifies=('Fg',))
    c.prove('returned', c.call(F, N, T, v, rho, g) is st['f'])


@contract('C22', loops=True)
def traction(c):
    """any number of conditions: an arbitrary one adds a third of (load times current area) to each node of its triangle, nothing else"""
    F = NAT + 'compute_traction_forces'
    n, N = c.size('n', 0, 3), c.size('N', 5, 5)
    x = c.table('x', N, 3)
    TC = c.fn(TYPES + 'TractionCondition')
    st = {}

    def third(t, load):
        X = [x[i] for i in t]
        return c.norm(c.cross(X[1] - X[0], X[2] - X[0])) / 6 * load
    if not c.unbounded_sizes:
        conds = [(c.choice('t%d' % i, [(0, 1, 2), (2, 3, 1), (4, 0, 2)]), c.vec('l%d' % i)) for i in range(int(n))]
        f = c.call(F, x, [TC(*t, l) for t, l in conds])
        c.prove('shape', f.shape == (int(N), 3))
        c.prove('loads', [c.close(f[i], sum((third(t, l) for t, l in conds if i in t), 0 * x[0]), 1e-9) for i in range(5)])
        return
    P, L = c.table('P', n, 3, integer=True, within=(0, N)), c.table('load', n, 3)
    mk = lambda k: TC(P[k][0], P[k][1], P[k][2], L.at(k)[0])

    def havoc(env, k):
        st['old'] = c.table('f', N, 3)
        env.Ft.assign(st['old'])
        st['k'], st['f'] = k, env.Ft
        t = P.at(k)[0]
        c.requires([c.not_(c.eq(t[a], t[b])) for a in range(3) for b in range(a)])

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.Ft.N, N), c.eq(env.Ft.at(c.fresh_int('i'))[0], c.array([0, 0, 0]))]
        if c.phase != 'preserved':
            return [True]
        k = st['k']
        t = P.at(k)[0]
        return [c.or_(*[c.eq(i, j) for j in t]) for i, _ in env.Ft.stores] + \
            [c.eq(env.Ft.at(t[s])[0], st['old'].at(t[s])[0] + third(t, L.at(k)[0])) for s in range(3)]
    c.invariant(F, 1, inv, havoc, modifies=('Ft',))
    c.prove('returned', c.call(F, x, c.sequence(n, mk)) is st['f'])


@contract('C22', loops=True)
def damping(c):
    """minus the matrix-free product (contract matrix_free_product)"""
    F = NAT + 'compute_damping_forces'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        T = numpy.array(PERMS[:c.choice('n', [1, 2, 3])])
        u, d = numpy.array([c.vec('u%d' % i) for i in range(5)]), c.positive('c')
        v = numpy.array([c.positive('v%d' % i) for i in range(len(T))])
        A = c.fn(NAT + 'compute_damping_element_array')(d, v, T, c.boolean('lumped'))
        f = c.fn(F)(T, A, u)
        c.prove('minus C u', c.close(f, -c.fn(EA + 'prod_mat_vec')(T, A, u), 1e-9))
        c.prove('damping takes energy', (f * u).sum() <= 1e-12)
        return
    T, A, u, y = object(), object(), object(), c.mat('y', 2, 3)

    def prod(a, b, x):
        c.prove('of the element matrices and the velocities', [a is T, b is A, x is u])
        return y + 0
    c.replace(EA + 'prod_mat_vec', prod)
    c.targets.add(F)
    c.prove('minus the product', c.eq(c.fn(F)(T, A, u), -y))


@contract('C22')
def dissipation(c):
    """lemma: an element damping matrix c vol (1 + delta_ij)/20 (or delta_ij/4) takes energy from any velocities"""
    u, d, v = [c.vec('u%d' % i) for i in range(4)], c.positive('c'), c.positive('v')
    lumped = c.boolean('lumped')
    f = [sum((block(c, lumped, i, j) * d * v * u[j] for j in range(1, 4)), block(c, lumped, i, 0) * d * v * u[0]) for i in range(4)]
    power = sum(c.dot(u[i], f[i]) for i in range(4))
    s = u[0] + u[1] + u[2] + u[3]
    sq = sum(c.dot(x, x) for x in u)
    c.prove('as a sum of squares', c.close(power, d * v * (sq / 4 if lumped else (sq + c.dot(s, s)) / 20), 1e-9))
    c.prove('never adds energy', power >= 0)


# ---- the engine: any number of bodies --------------------------------------------------------------
def per_body(c, F, call, body_check, attr, natives):
    """the forces of every body at its own range of nodes, and stored in the body"""
    W = World(c, lambda k: bare_body(c, W.number_of_nodes))
    st = {}

    def zeros(shape, dtype=None):
        st['out'] = Global(shape[0])
        c.prove('a row of three per node', [c.eq(shape[0], W.number_of_nodes), shape[1] == 3])
        return st['out']
    numpy_with(c, MOD, zeros=zeros)
    for name, f in natives(W).items():
        c.replace(name, f)

    def havoc(env, k):
        st['out'].sets.clear()

    def inv(env, k):
        o = st['out']
        if c.phase == 'entry':
            return [env.forces is o, not o.sets]
        if c.phase != 'preserved':
            return [True]
        b = W.one['b']
        return o.only_set(c, b) + [o.sets[0][2] is getattr(b, attr)] + body_check(W, b)
    c.invariant(F, 1, inv, havoc, modifies=('forces', 'engine', 'body'))
    r = call(W)
    c.prove('returned', r is st['out'])


def concrete_forces(c, F, args, want, attr):
    """a few bodies; the bodies end up with their parts"""
    import numpy
    e = real_world(c)
    x = numpy.concatenate([b.x for b in e.bodies.values()])
    u = numpy.concatenate([b.u for b in e.bodies.values()])
    keep = c.snapshot(x, u, *[getattr(b, n) for b in e.bodies.values() for n in ('x', 'u', 'x0', 'T')])
    debug, stats = c.boolean('debug'), {}
    f = c.call(F, *args(x, u, e), stats, debug, mutates=tuple(range(9)))
    c.prove('shape', f.shape == (e.number_of_nodes, 3))
    for b in e.bodies.values():
        c.prove('the forces of each body at its nodes', c.close(f[b.offset:b.offset + len(b.x)], want(b), 1e-8))
        c.prove('kept in the body', c.close(getattr(b, attr), want(b), 1e-8))
    c.prove('state is not changed', c.unchanged(keep))


@contract('C22', loops=True)
def engine_elastic_forces(c):
    F = MOD + '.compute_elastic_forces'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)

        def want(b):
            m = b.material_description
            la, mu = m.E * m.nu / ((1 + m.nu) * (1 - 2 * m.nu)), m.E / (2 * (1 + m.nu))
            G = c.fn(NAT + 'compute_deformation_gradient')(b.x, b.T, b.invD0)
            return c.fn(NAT + 'compute_elastic_forces')(b.x, b.T, b.gradN0, G, la, mu, m.constitutive_model.pk1_stress)
        return concrete_forces(c, F, lambda x, u, e: (x, e), want, 'Fe')
    st = {}

    def natives(W):
        x = st['x'] = Global(W.number_of_nodes)

        def gradient(p, T, A):
            b = W.one['b']
            st['F'] = Rows(0)
            c.prove('gradients of the body', [x.is_part(c, p, b), T is b.T, A is b.invD0])
            return st['F']

        def forces(p, T, G, D, la, mu, pk1):
            b = W.one['b']
            c.prove('forces of the body', [x.is_part(c, p, b), T is b.T, G is b.gradN0, D is st['F'], la is st['la'], mu is st['mu'],
                                           pk1 is b.material_description.constitutive_model.pk1_stress])
            st['f'] = Rows(b.n)
            return st['f']

        def lame(name):
            def f(E, nu):
                m = W.one['b'].material_description
                c.prove('of the material of the body', [E is m.E, nu is m.nu])
                st[name] = Rows(0)
                return st[name]
            return f
        return {NAT + 'compute_deformation_gradient': gradient, NAT + 'compute_elastic_forces': forces,
                MECH + 'first_lame': lame('la'), MECH + 'second_lame': lame('mu')}
    per_body(c, F, lambda W: c.call(F, st['x'], W, {}, False, mutates=(1,)), lambda W, b: [b.Fe is st['f']], 'Fe', natives)


@contract('C22', loops=True)
def engine_traction_forces(c):
    F = MOD + '.compute_traction_forces'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_forces(c, F, lambda x, u, e: (x, e), lambda b: c.fn(NAT + 'compute_traction_forces')(b.x, b.traction_conditions), 'Ft')
    st = {}

    def natives(W):
        x = st['x'] = Global(W.number_of_nodes)

        def forces(p, conds):
            b = W.one['b']
            c.prove('forces of the body', [x.is_part(c, p, b), conds is b.traction_conditions])
            st['f'] = Rows(b.n)
            return st['f']
        return {NAT + 'compute_traction_forces': forces}
    per_body(c, F, lambda W: c.call(F, st['x'], W, {}, False, mutates=(1,)), lambda W, b: [b.Ft is st['f']], 'Ft', natives)


@contract('C22', loops=True)
def engine_damping_forces(c):
    F = MOD + '.compute_damping_forces'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_forces(c, F, lambda x, u, e: (u, e), lambda b: c.fn(NAT + 'compute_damping_forces')(b.T, b.C_array, b.u), 'Fd')
    st = {}

    def natives(W):
        u = st['u'] = Global(W.number_of_nodes)

        def forces(T, C, p):
            b = W.one['b']
            c.prove('forces of the body', [u.is_part(c, p, b), T is b.T, C is b.C_array])
            st['f'] = Rows(b.n)
            return st['f']
        return {NAT + 'compute_damping_forces': forces}
    per_body(c, F, lambda W: c.call(F, st['u'], W, {}, False, mutates=(1,)), lambda W, b: [b.Fd is st['f']], 'Fd', natives)


@contract('C22', loops=True)
def engine_external_forces(c):
    F = MOD + '.compute_external_forces'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)

        def want(b):
            import numpy
            f = numpy.zeros(b.x.shape)
            for t, v in zip(b.T, b.vol0):
                f[t] += b.material_description.rho * v / 4 * b.gravity
            return f
        return concrete_forces(c, F, lambda x, u, e: (e,), want, 'Fext')
    st = {}

    def natives(W):
        def forces(n, T, v, rho, g):
            b = W.one['b']
            c.prove('forces of the body', [c.eq(n, b.n), T is b.T, v is b.vol0, rho is b.material_description.rho, g is b.gravity])
            st['f'] = Rows(b.n)
            return st['f']
        return {NAT + 'compute_gravity_forces': forces}
    per_body(c, F, lambda W: c.call(F, W, {}, False, mutates=(0,)), lambda W, b: [b.Fext is st['f']], 'Fext', natives)


@contract('C22', loops=True)
def mass_matrix(c):
    """any number of bodies: entry i of the assembled element matrices of a body goes to the same entry moved to the range of the body"""
    F = MOD + '.compute_mass_matrix'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_mass(c, F)
    W = World(c, lambda k: bare_body(c, W.number_of_nodes))
    B = W.B
    m, S = c.table('m', B, integer=True), c.table('S', B + 1, integer=True)
    st = {}
    c.requires(c.eq(S.at(0)[0], 0))

    def prefix(k):
        c.requires([m.at(k)[0] >= 0, c.eq(S.at(k + 1)[0], S.at(k)[0] + m.at(k)[0]), S.at(k)[0] >= 0, c.le(S.at(k + 1)[0], S.at(B)[0])])

    def assemble(T, A):
        b = W.one['b']
        c.prove('element matrices of the body', [T is b.T, A is b.M_array])
        n = m.at(W.one['k'])[0]
        t = st['triple'] = c.table('r', n, integer=True), c.table('c', n, integer=True), c.table('d', n)
        return t
    c.replace(EA + 'assembly_coo', assemble)

    class Kept:
        def __init__(self):
            self.sets = []

        def __setitem__(self, b, t):
            self.sets.append((b, t))

        def __getitem__(self, b):
            c.prove('entries of the body', b is W.one['b'])
            n = m.at(W.one['k'])[0]
            st['now'] = c.table('r', n, integer=True), c.table('c', n, integer=True), c.table('d', n)
            return st['now']

    def havoc1(env, k):
        if not c.identical(k, B):
            prefix(k)
        st['kept'] = Kept()
        return {'size': S.at(k)[0], 'COO': st['kept']}

    def inv1(env, k):
        if c.phase != 'preserved':
            return [c.eq(env.size, S.at(k)[0])]
        K = st['kept']
        return [c.eq(env.size, S.at(k)[0]), env.COO is K, len(K.sets) == 1, K.sets[0][0] is W.one['b']] + [p is q for p, q in zip(K.sets[0][1], st['triple'])]
    c.invariant(F, 1, inv1, havoc1, modifies=('COO', 'size', 'body', 'engine'))

    def fill(env):
        for a, nm in (('row', 'row'), ('col', 'col')):
            getattr(env, a).assign(c.table(nm, S.at(B)[0], integer=True))
        env.data.assign(c.table('data', S.at(B)[0]))
        st.update(row=env.row, col=env.col, data=env.data)

    def havoc2(env, k):
        if not c.identical(k, B):
            prefix(k)
        fill(env)
        st['k'] = k
        return {'s': S.at(k)[0]}

    def inv2(env, k):
        if c.phase == 'entry':
            return [c.eq(env.s, S.at(k)[0])] + [c.eq(a.N, S.at(B)[0]) for a in (env.row, env.col, env.data)]
        return [c.eq(env.s, S.at(k)[0])]
    c.invariant(F, 2, inv2, havoc2, modifies=('row', 'col', 'data', 's', 'body', 'engine'))

    def havoc3(env, i):
        fill(env)
        st['i'] = i
        return {'s': S.at(st['k'])[0] + i}

    def inv3(env, i):
        s0 = S.at(st['k'])[0]
        if c.phase != 'preserved':
            return [c.eq(env.s, s0 + i)]
        b, j = W.one['b'], st['i']
        o = 3 * b.offset
        r, q, d = st['now']
        out = [c.eq(env.s, s0 + i)]
        for a, v in ((env.row, r.at(j)[0] + o), (env.col, q.at(j)[0] + o), (env.data, d.at(j)[0])):
            out += [len(a.stores) == 1] + [c.eq(x, s0 + j) for x, _ in a.stores] + [c.eq(a.at(s0 + j)[0], v)]
        return out
    c.invariant(F, 3, inv3, havoc3, modifies=('row', 'col', 'data', 's'))
    M = object()

    def coo(d, r, q, shape):
        c.prove('all entries', [d is st['data'], r is st['row'], q is st['col']])
        c.prove('three rows and columns per node', [c.eq(shape[0], 3 * W.number_of_nodes), c.eq(shape[1], 3 * W.number_of_nodes)])
        return M
    c.stubs['coo'] = coo
    c.prove('returned', c.call(F, W, {}, False, mutates=(0,)) is M)


def concrete_mass(c, F):
    """against the sums of the element matrices; the inverse is its inverse"""
    import numpy
    e = real_world(c)
    N = e.number_of_nodes
    M = c.call(F, e, {}, c.boolean('debug'), mutates=(0,)).toarray()
    want = numpy.zeros((N, 3, N, 3))
    for b in e.bodies.values():
        for t, A in zip(b.T, b.M_array):
            for i in range(4):
                for j in range(4):
                    want[b.offset + t[i], :, b.offset + t[j], :] += A[i, j]
    want = want.reshape(3 * N, 3 * N)
    c.prove('mass matrix', c.close(M, want, 1e-9))
    total = sum(b.material_description.rho * v for b in e.bodies.values() for v in b.vol0)
    o = numpy.tile(numpy.eye(3), (N, 1))
    c.prove('total mass', c.close(o.T @ M @ o, total * numpy.eye(3), 1e-9))
    c.requires(all(len(set(b.T.reshape(-1))) == len(b.x) for b in e.bodies.values()))
    W = c.call(MOD + '.compute_inverse_mass_matrix', e, {}, c.boolean('debug'), mutates=(0,)).toarray()
    c.prove('the inverse', c.close(W @ M, numpy.eye(3 * N), 1e-6))


@contract('C22')
def inverse_mass_matrix(c):
    """the inverse (scipy, assumed) of the mass matrix of contract mass_matrix"""
    F = MOD + '.compute_inverse_mass_matrix'
    if not c.sym:
        return concrete_mass(c, MOD + '.compute_mass_matrix')
    c.targets.add(F)
    e, M, W = object(), object(), object()

    def mass(a, s, d):
        c.prove('of the engine', a is e)
        return M
    c.replace(MOD + '.compute_mass_matrix', mass)

    class Sparse:
        class linalg:
            @staticmethod
            def inv(A):
                c.prove('the mass matrix is inverted', A is M)
                return W
    c.mod(MOD).sparse = Sparse
    c.prove('returned', c.fn(F)(e, {}, False) is W)


@contract('C22', loops=True)
def motion_energy(c):
    """any number of bodies and elements: each element of a moving body adds rho vol |mean v|^2 / 2, or minus rho vol g.(mean x);
    fixed bodies add nothing"""
    what = c.choice('what', ['kinetic', 'potential'])
    F = MOD + '.compute_%s_energy' % what

    def one(b, X, v):
        mean = (X[0] + X[1] + X[2] + X[3]) / 4
        m = b.material_description.rho * v
        return m * c.dot(mean, mean) / 2 if what == 'kinetic' else -m * c.dot(b.gravity, mean)
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        e = real_world(c)
        E = sum(one(b, (b.u if what == 'kinetic' else b.x)[t], v) for b in e.bodies.values() if not b.is_fixed for t, v in zip(b.T, b.vol0))
        c.prove('the sum over the elements', c.close(c.call(F, e, {}, c.boolean('debug'), mutates=(0,)), E, 1e-9))
        return
    st = {}

    def mk(k):
        b = bare_body(c, W.number_of_nodes)
        n = c.integer('elements', 0, 3, bounded=False)
        c.requires(n >= 0)
        b.T, b.vol0 = c.table('T', n, 4, integer=True, within=(0, b.n)), c.table('vol', n)
        b.x, b.u, b.gravity = c.table('x', b.n, 3), c.table('u', b.n, 3), c.vec('g')
        b.material_description.rho = c.real('rho')
        return b
    W = World(c, mk)

    def havoc1(env, k):
        st['E0'] = c.fresh('E')
        return {what: st['E0']}

    def inv1(env, k):
        if c.phase == 'entry':
            return [c.eq(getattr(env, what), 0)]
        if c.phase != 'preserved':
            return [True]
        # a fixed body was skipped; otherwise the elements were added (inner loop)
        return [c.identical(getattr(env, what), st['E0'] if W.one['b'].is_fixed else st['E1'])]
    c.invariant(F, 1, inv1, havoc1, modifies=('body', 'engine'))

    def havoc2(env, e):
        st['E1'], st['e'] = c.fresh('E'), e
        return {what: st['E1']}

    def inv2(env, e):
        if c.phase == 'entry':
            return [c.identical(getattr(env, what), st['E0']), not W.one['b'].is_fixed]
        if c.phase != 'preserved':
            return [True]
        b, k = W.one['b'], st['e']
        X = b.u if what == 'kinetic' else b.x
        return [c.eq(getattr(env, what), st['E1'] + one(b, [X.at(i)[0] for i in b.T.at(k)[0]], b.vol0.at(k)[0]))]
    c.invariant(F, 2, inv2, havoc2)
    r = c.call(F, W, {}, False, mutates=(0,))
    c.prove('returned', c.identical(r, st['E0']))


@contract('C22', loops=True)
def strain_energy(c):
    """any number of bodies: the elastic energies of the bodies that can move, of their own elements and material"""
    F = MOD + '.compute_elastic_energy'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        e = real_world(c)
        E = 0
        for b in e.bodies.values():
            m = b.material_description
            la, mu = m.E * m.nu / ((1 + m.nu) * (1 - 2 * m.nu)), m.E / (2 * (1 + m.nu))
            if not b.is_fixed:
                for G, v in zip(c.fn(NAT + 'compute_deformation_gradient')(b.x, b.T, b.invD0), b.vol0):
                    E += m.constitutive_model.energy_density(G, la, mu) * v
        c.prove('the sum over the elements', c.close(c.call(F, e, {}, c.boolean('debug'), mutates=(0,)), E, 1e-8))
        return
    W = World(c, lambda k: bare_body(c, W.number_of_nodes))
    st = {}

    def gradient(p, T, A):
        b = W.one['b']
        c.prove('gradients of the body', [p is b.x, T is b.T, A is b.invD0])
        st['F'] = Rows(0)
        return st['F']

    def energy(v, D, la, mu, psi):
        b = W.one['b']
        c.prove('energy of the body', [v is b.vol0, D is st['F'], la is st['la'], mu is st['mu'], psi is b.material_description.constitutive_model.energy_density])
        st['psi'] = c.fresh('psi')
        return st['psi']

    def lame(name):
        def f(E, nu):
            m = W.one['b'].material_description
            c.prove('of the material of the body', [E is m.E, nu is m.nu])
            st[name] = Rows(0)
            return st[name]
        return f
    for name, f in {NAT + 'compute_deformation_gradient': gradient, NAT + 'compute_elastic_energy': energy,
                    MECH + 'first_lame': lame('la'), MECH + 'second_lame': lame('mu')}.items():
        c.replace(name, f)

    def havoc(env, k):
        st['E'], st['psi'] = c.fresh('E'), 0
        return {'elastic': st['E']}

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.elastic, 0)]
        if c.phase != 'preserved':
            return [True]
        return [c.eq(env.elastic, st['E'] + (0 if W.one['b'].is_fixed else st['psi']))]
    c.invariant(F, 1, inv, havoc, modifies=('body', 'engine'))
    r = c.call(F, W, {}, False, mutates=(0,))
    c.prove('returned', c.identical(r, st['E']))


@contract('C22')
def assembled_matrix(c):
    """the assembled matrix sums the triplets of the table, over all coordinates of all nodes"""
    import numpy
    N = c.choice('N', [5, 7])
    if not c.sym:
        T = c.np.array([[0, 1, 2, 3], [1, 4, 2, 3]])
        A = c.np.array([[[[[c.real('a%d%d%d%d%d' % (e, i, j, p, q)) for q in range(3)] for p in range(3)] for j in range(4)] for i in range(4)] for e in range(2)])
        M = c.fn(EA + 'assembly_csr')(N, T, A)
        want = c.np.zeros((3 * N, 3 * N))
        for e in range(2):
            for i in range(4):
                for j in range(4):
                    want[3 * T[e][i]:3 * T[e][i] + 3, 3 * T[e][j]:3 * T[e][j] + 3] += A[e][i][j]
        c.prove('shape', M.shape == (3 * N, 3 * N))
        return c.prove('every block is added at its pair of nodes', c.eq(M.toarray(), want))
    k = 4
    row = [c.choice('r%d' % i, [0, 3 * N - 1]) for i in range(k)]
    col = [c.choice('c%d' % i, [0, 3 * N - 1]) for i in range(2)] * 2
    data = [c.real('d%d' % i) for i in range(k)]
    T, A, got = object(), object(), []

    def coo(t, a):
        got.append((t, a))
        return numpy.array(row), numpy.array(col), c.array(data)
    c.replace(EA + 'assembly_coo', coo)
    M = c.fn(EA + 'assembly_csr')(N, T, A)
    c.targets.add(EA + 'assembly_csr')
    D = M.toarray()
    want = [[sum([data[q] for q in range(k) if row[q] == i and col[q] == j]) for j in (0, 3 * N - 1)] for i in (0, 3 * N - 1)]
    c.prove('of these elements', [len(got) == 1 and got[0][0] is T and got[0][1] is A])
    c.prove('shape', [D.shape == (3 * N, 3 * N)])
    c.prove('sums of the triplets', [c.eq(D[i][j], want[p][q]) for p, i in enumerate((0, 3 * N - 1)) for q, j in enumerate((0, 3 * N - 1))])
    c.prove('nothing else', [c.eq(D[i][j], 0) for i in range(3 * N) for j in range(3 * N) if i not in (0, 3 * N - 1) or j not in (0, 3 * N - 1)])
