"""C16: friction projections and solver sweeps (prox_operators.py, constraints/contacts.py, proximal_contact/*)"""
from pv.check import contract
from contracts import _formal as FO
R = 'rainbow.simulators.prox_rigid_bodies.'
X = 'rainbow.simulators.proximal_contact.'
GS = X + 'gauss_seidel_solver.'
JA = X + 'jacobi_solver.'
RIGID, GENERAL = R + 'prox_operators.prox_sphere', X + 'proximal_operators.prox_sphere'


def sphere(c, F):
    z = [c.real(k) for k in ('z_s', 'z_t', 'z_tau')]
    mu, xn = c.real('mu', 0, 2), c.real('x_n', -1, 2)
    c.requires(mu >= 0)
    p = c.call(F, *z, mu, xn)
    c.prove('three components', len(p) == 3)
    if xn <= 0:
        c.prove('no friction without normal impulse', [c.eq(v, 0) for v in p])
        return
    r = mu * xn
    zz = sum(v * v for v in z)
    inside = zz <= r * r
    if inside:
        c.prove('points inside are unchanged', [c.eq(a, b) for a, b in zip(p, z)])
        return
    L = c.sqrt(zz)
    c.lemma('outside', L > 0)
    c.lemma('norm of the point', c.eq(L * L, zz))
    s = r / L
    c.prove('radial projection', [c.eq(a, s * b) for a, b in zip(p, z)])
    pp = sum(v * v for v in p)
    c.prove('on the boundary of the disc', c.eq(pp, r * r))
    # closest point: (z - p).(y - p) <= 0 for every y of the disc; L (z-p).(y-p) = (L - r) (z.y - r L)
    y = [c.real('y%d' % i) for i in range(3)]
    yy = sum(v * v for v in y)
    if c.sym:
        c.requires(yy <= r * r)
    else:
        n = c.sqrt(yy)
        if n > r:
            y = [v * r / n for v in y]
            yy = r * r
    zy = sum(a * b for a, b in zip(z, y))
    gap = sum((a - b) * (d - b) for a, b, d in zip(z, p, y))
    if c.sym:
        cr = [z[1] * y[2] - z[2] * y[1], z[2] * y[0] - z[0] * y[2], z[0] * y[1] - z[1] * y[0]]
        c.lemma('Cauchy-Schwarz (Lagrange identity)', c.eq(zz * yy - zy * zy, sum(v * v for v in cr)))
        c.lemma('variational form', c.eq(L * gap, (L - r) * (zy - r * L)))
        c.lemma('longer than the radius', r < L)
        D, N = c.define('D', zy * zy), c.define('N', zz * yy)
        c.lemma('product of the norms', [c.le(0, zz), c.le(0, zz * (r * r - yy)), c.eq((r * L) * (r * L), zz * (r * r))])
        c.lemma('Cauchy-Schwarz', c.le(D, N))
        c.lemma('bounded norms', c.le(N, (r * L) * (r * L)))
        c.lemma('aligned at most fully', c.le(zy * zy, (r * L) * (r * L)))
        c.lemma('so below the product of the norms', c.le(zy, r * L))
        c.prove('closest point of the disc', c.le((L - r) * (zy - r * L), 0))
        return
    c.prove('closest point of the disc', c.le(gap, 1e-9))


@contract('C16')
def prox_sphere_rigid(c):
    sphere(c, RIGID)


@contract('C16')
def prox_sphere_general(c):
    sphere(c, GENERAL)


@contract('C16')
def prox_origin(c):
    p = c.call(X + 'proximal_operators.prox_origin', *[c.real(k) for k in ('zs', 'zt', 'zq', 'mu', 'xn')])
    c.prove('always zero', [len(p) == 3] + [c.eq(v, 0) for v in p])


class Params:
    pass


@contract('C16', loops=True, budget=250)
def prox_ellipsoid(c):
    """limit cases, and: outside points move towards the origin with every component keeping its sign"""
    F = X + 'proximal_operators.prox_ellipsoid'
    z = [c.real(k) for k in ('z_s', 'z_t', 'z_tau')]
    xn = c.real('x_n', -1, 2)
    kind = c.choice('kind', ['none', 'same', 'all'])
    if kind == 'none':
        mu = [c.const('0') if c.sym else 0.0] * 3
    else:
        a, b, d = c.positive('mu_s', 0.2, 2), c.positive('mu_t', 0.2, 2), c.positive('mu_tau', 0.2, 2)
        mu = {'same': [a, a, a], 'all': [a, b, d]}[kind]
    e = Params()
    e.params = Params()
    e.params.ellipsoid_tolerance, e.params.ellipsoid_expansion = c.positive('tol', 1e-9, 1e-6), c.real('expansion', 1.2, 3)
    c.requires(e.params.ellipsoid_expansion > 1)
    e.params.ellipsoid_max_iterations = c.size('iterations', 0, 50)
    if not c.sym and c.choice('enough', [0, 1, 2]):
        e.params.ellipsoid_max_iterations = 60
    if kind == 'same' and c.sym:
        P = [c.function('sphere%d' % i, 5) for i in range(3)]
        c.replace(GENERAL, lambda *a: tuple(p(*a) for p in P))

    def level(env, t):
        """the bisection finds the root of this decreasing function"""
        return sum(q * v / ((q + t) * (q + t)) for q, v in ((env.saa, env.sxx), (env.sbb, env.syy), (env.scc, env.szz))) - 1

    def havoc_grow(env, k):
        t1 = c.fresh('t1')
        return {'t1': t1, 'g1': level(env, t1)}     # what the invariant says about g1

    def inv_grow(env, k):
        return [c.le(0, env.t1), c.eq(env.t0, 0)] + ([c.eq(env.g1, level(env, env.t1))] if c.phase in ('entry', 'preserved') else [])

    def inv_halve(env, k):
        out = [c.le(0, env.t0), c.le(env.t0, env.tk), c.le(env.tk, env.t1)]
        if c.phase in ('entry', 'preserved'):       # assumed for the ends of the bracket at the start of the iteration
            if c.phase == 'entry' or env.t0 is not bracket[0]:
                out.append(c.le(0, level(env, env.t0)))
            if c.phase == 'entry' or env.t1 is not bracket[1]:
                out.append(c.le(level(env, env.t1), 0))
        else:
            bracket[:] = [env.t0, env.t1]
        return out
    bracket = [None, None]
    if c.unbounded_sizes and kind == 'all':
        c.invariant(F, 1, inv_grow, havoc_grow, modifies=('t1', 'g1'))
        c.invariant(F, 2, inv_halve, modifies=('t0', 't1', 'tk', 'gk'))
    g = c.fn(F).__globals__
    had = {k: g[k] for k in ('max', 'abs') if k in g}

    def largest(*a):
        m = c.fresh('max')
        for v in a:
            c.assume(c.le(v, m))
        return m

    def magnitude(v):
        m = c.fresh('abs')
        c.assume([c.le(v, m), c.le(-v, m)])
        return m
    try:
        if c.sym:                               # weak contracts of the builtins (all that the argument needs)
            g['max'], g['abs'] = largest, magnitude
        p = c.call(F, e, *z, *mu, xn)
    finally:
        for k in ('max', 'abs'):
            g.pop(k, None)
        g.update(had)
    c.prove('three components', len(p) == 3)
    if xn <= 0:
        c.prove('no friction without normal impulse', [c.eq(v, 0) for v in p])
        return
    if kind == 'none':
        c.prove('no friction without coefficients', [c.eq(v, 0) for v in p])
        return
    if kind == 'same':
        want = [f(*z, mu[0], xn) for f in P] if c.sym else c.fn(GENERAL)(*z, mu[0], xn)
        c.prove('equal coefficients give the sphere', [c.eq(a, b) for a, b in zip(p, want)])
        return
    f = sum((v / (m * xn)) ** 2 for v, m in zip(z, mu)) - 1
    if f < 0:
        c.prove('points inside are unchanged', [c.eq(a, b) for a, b in zip(p, z)])
        return
    if not c.sym and e.params.ellipsoid_max_iterations > 45 and xn > 0.2:
        c.prove('outside points end on the ellipsoid', abs(sum((v / (m * xn)) ** 2 for v, m in zip(p, mu)) - 1) < 0.05)
    for v, w in zip(p, z):
        c.prove('every component keeps its sign and never grows', c.or_(c.and_(c.le(0, v), c.le(v, w)), c.and_(c.le(w, v), c.le(v, 0))))


# ---- sweeps ---------------------------------------------------------------------------------------
def relax(c, z, mu, prox):
    """normal part first, then the friction projection with the new normal impulse"""
    xn = c.ite(z[0] > 0, z[0], c.const('0')) if c.sym else max(0.0, z[0])
    return [xn] + list(prox(z[1], z[2], z[3], mu, xn))


def reference(c, K, J, W, x, r, b, mu, prox):
    """block by block"""
    x = x.copy()
    for k in range(K):
        s = slice(4 * k, 4 * k + 4)
        z = x[s] - r[s] * (J @ (W @ x) + b)[s]
        x[s] = relax(c, z, mu[k] if mu is not None else None, prox)
    return x


def real_data(c, p, K, m, rhs, sparse=True):
    import numpy
    import scipy.sparse as sp
    n = 4 * K
    J = numpy.array([[c.real('J%d_%d' % (i, j)) for j in range(m)] for i in range(n)]).reshape(n, m)
    W = numpy.array([[c.real('W%d_%d' % (i, j)) for j in range(m)] for i in range(n)]).reshape(n, m).T
    p.J, p.WJT = sp.csr_matrix(J), sp.csr_matrix(W)
    p.x = numpy.array([c.real('x%d' % i) for i in range(n)])
    p.r = numpy.array([abs(c.real('r%d' % i)) + 0.01 for i in range(n)])
    setattr(p, rhs, numpy.array([c.real('b%d' % i) for i in range(n)]))
    p.mu = numpy.array([abs(c.real('mu%d' % i)) for i in range(K)])
    return J, W


def disc(c, x, K, mu):
    return [c.and_(x[4 * k] >= 0, x[4 * k + 1] ** 2 + x[4 * k + 2] ** 2 + x[4 * k + 3] ** 2 <= (mu[k] * x[4 * k]) ** 2 * (1 + 1e-9) + 1e-12) for k in range(K)]


def gs_sweep(c, F, p, rhs, prox, friction=True):
    K = c.size('K', 0, 3)
    p.K = K
    if not c.unbounded_sizes:
        if c.sym:
            return
        K = int(K)
        J, W = real_data(c, p, K, 12, rhs)
        want = reference(c, K, J, W, p.x, p.r, getattr(p, rhs), p.mu, prox)
        old = [p.r.copy(), getattr(p, rhs).copy(), p.mu.copy()]
        p.sweep()
        c.prove('each block is projected in turn', c.close(p.x, want, 1e-9))
        c.prove('normal impulses not negative, friction inside the disc', disc(c, p.x, K, p.mu if friction else 0 * p.mu))
        c.prove('only the impulses change', [c.eq(p.r, old[0]), c.eq(getattr(p, rhs), old[1]), c.eq(p.mu, old[2])])
        return
    L = FO.Formal(c)
    p.J, p.WJT = L.op('J'), L.op('WJT')
    p.x, p.r = c.table('x', 4 * K), c.table('r', 4 * K)
    b = c.table('b', 4 * K)
    setattr(p, rhs, b)
    p.mu = c.table('mu', K, lo=0, hi=2)
    x1 = c.table('x1', 4 * K)
    st, base = {}, L.opaque('WJT x')

    def havoc(env, k):
        p.x.assign(x1)
        st['k'] = k
        return {'w': base.copy()}

    def inv(env, k):
        if c.phase == 'entry':
            t = getattr(env.w, 'terms', None)
            return [t is not None and len(t) == 1 and t[0][0] == 'all' and t[0][1] == 'WJT' and FO.same_array(t[0][2], p.x)]
        if c.phase != 'preserved':
            return [True]
        k0 = st['k']
        idx = [4 * k0 + j for j in range(4)]
        z = [x1[i] - p.r[i] * (L.entry('J', base, i) + b[i]) for i in idx]
        want = relax(c, z, p.mu[k0], prox)
        return FO.check_sweep(c, L, base, env.w, p.x, x1, idx) + [c.eq(p.x[i], v) for i, v in zip(idx, want)]
    c.invariant(F, 1, inv, havoc, modifies=('self', 'w'))
    r, mu, x = p.r, p.mu, p.x
    c.call(p.sweep)
    c.targets.add(F)
    c.prove('only the impulses change', [p.x is x, p.r is r, getattr(p, rhs) is b, p.mu is mu, not r.stores, not b.stores, not mu.stores])


@contract('C16', loops=True)
def sweep_contacts(c):
    """rigid contacts: any number; every block gets the normal and friction projection of the current residual"""
    p = c.fn(R + 'constraints.contacts.Contacts')()
    if c.sym:
        P = [c.function('prox%d' % i, 5) for i in range(3)]
        prox = lambda *a: tuple(q(*a) for q in P)
        c.replace(RIGID, prox)
    else:
        prox = c.fn(RIGID)
    gs_sweep(c, R + 'constraints.contacts.Contacts.sweep', p, 'b', prox)


@contract('C16', loops=True)
def sweep_post_stabilisation(c):
    cls = c.fn(R + 'constraints.post_stabilization.PostStabilization')
    gs_sweep(c, R + 'constraints.post_stabilization.PostStabilization.sweep', cls.__new__(cls), 'g', lambda *a: (0, 0, 0), friction=False)


@contract('C16', loops=True)
def sweep_general(c):
    cls = c.fn(GS + 'GaussSeidelSolver')
    p = cls.__new__(cls)
    if c.sym:
        P = [c.function('prox%d' % i, 5) for i in range(3)]
        p.friction_solver = lambda *a: tuple(q(*a) for q in P)
    else:
        p.friction_solver = c.fn(GENERAL)
    gs_sweep(c, GS + 'GaussSeidelSolver.sweep', p, 'b', p.friction_solver)


class Table:
    """operator whose product with the expected argument is a table"""

    def __init__(self, c, name, out, expect):
        self.c, self.name, self.out, self.expect = c, name, out, expect

    def dot(self, v):
        self.c.prove(self.name + ' is applied to the right vector', self.expect(v))
        return self.out


@contract('C16', loops=True)
def sweep_jacobi(c):
    """plain: the friction disc belongs to the previous normal impulse; hybrid: to the new one; blocks are independent"""
    hybrid = c.choice('hybrid', [False, True])
    cls = c.fn(JA + ('ParallelJacobiHybridSolver' if hybrid else 'ParallelJacobiSolver'))
    p = cls.__new__(cls)
    K = p.K = c.size('K', 0, 3)
    if not c.unbounded_sizes:
        if c.sym:
            return
        K = int(K)
        J, W = real_data(c, p, K, 12, 'b')
        p.friction_solver = prox = c.fn(GENERAL)
        x0 = p.x.copy()
        z = x0 - p.r * (J @ (W @ x0) + p.b)
        p.sweep()
        for k in range(K):
            xn = max(0, z[4 * k])
            c.prove('each block is projected', c.close(p.x[4 * k:4 * k + 4], c.array([xn] + list(prox(*z[4 * k + 1:4 * k + 4], p.mu[k], xn if hybrid else x0[4 * k]))), 1e-9))
        if hybrid:
            c.prove('normal impulses not negative, friction inside the disc', disc(c, p.x, K, p.mu))
        c.prove('normal impulses not negative', [p.x[4 * k] >= 0 for k in range(K)])
        return
    P = [c.function('prox%d' % i, 5) for i in range(3)]
    p.friction_solver = prox = lambda *a: tuple(q(*a) for q in P)
    F = JA + 'sweep_worker'
    p.x, p.r, p.b, Jw = [c.table(s, 4 * K) for s in ('x', 'r', 'b', 'Jw')]
    x0, x1, x = p.x.copy(), c.table('x1', 4 * K), p.x
    p.mu = c.table('mu', K, lo=0, hi=2)
    w = c.array([c.real('w')])
    p.WJT = Table(c, 'W J^T', w, lambda v: FO.same_array(v, x0))
    p.J = Table(c, 'J', Jw, lambda v: v is w)
    st = {}

    def havoc(env, k):
        env.x.assign(x1)
        st['k'] = k

    def inv(env, k):
        if c.phase == 'entry':
            return [FO.same_array(env.x, x0)]
        if c.phase != 'preserved':
            return [True]
        k0 = st['k']
        idx = [4 * k0 + j for j in range(4)]
        z = [x0[i] - p.r[i] * (Jw[i] + p.b[i]) for i in idx]
        xn = c.ite(z[0] > 0, z[0], c.const('0'))
        want = [xn] + list(prox(z[1], z[2], z[3], p.mu[k0], xn if hybrid else x0[idx[0]]))
        return [c.or_(*[c.eq(i, j) for j in idx]) for i, _ in env.x.stores] + [c.eq(env.x[i], v) for i, v in zip(idx, want)]
    c.invariant(F, 1, inv, havoc, modifies=('x',))
    c.call(p.sweep)
    c.targets.update({F, JA + cls.__name__ + '.sweep'})
    c.prove('only the impulses change', [p.x is x, not p.r.stores, not p.b.stores, not p.mu.stores])


@contract('C16', loops=True)
def colour_worker(c):
    """the contacts of one colour, in any number and order: each reads only its own block, records its own velocity change"""
    F = GS + 'sweep_worker'
    if not c.unbounded_sizes:
        if c.sym:
            return
        import numpy
        K, m = 3, 12
        p = Params()
        J, W = real_data(c, p, K, m, 'b')
        group = c.choice('group', [[0], [2], [0, 2], [2, 1], [1, 0, 2]])
        prox = c.fn(GENERAL)
        w = W @ p.x
        x0 = p.x.copy()
        d = numpy.zeros((K, m))
        x, dw = c.call(F, numpy.array([(4 * k, 4 * k + 4) for k in group]), J, W, p.b, p.mu, p.r, p.x, w, d, prox, mutates=(6, 8))
        for k in range(K):
            s = slice(4 * k, 4 * k + 4)
            if k not in group:
                c.prove('other contacts keep their impulse', [c.eq(x[s], x0[s]), c.eq(dw[k], numpy.zeros(m))])
                continue
            z = x0[s] - p.r[s] * (J @ w + p.b)[s]
            c.prove('projected with the common velocity', c.close(x[s], c.array(relax(c, z, p.mu[k], prox)), 1e-9))
            c.prove('records its velocity change', c.close(dw[k], W[:, s] @ (x[s] - x0[s]), 1e-9))
        return
    K, n = c.size('K', 1, 3), c.size('n', 0, 3)
    L = FO.Formal(c)
    J, W = L.op('J'), L.op('WJT')
    x, r, b, x1 = [c.table(s, 4 * K) for s in ('x', 'r', 'b', 'x1')]
    mu = c.table('mu', K, lo=0, hi=2)
    P = [c.function('prox%d' % i, 5) for i in range(3)]
    prox = lambda *a: tuple(q(*a) for q in P)
    members = c.table('member', n, integer=True, lo=0, hi=2)

    class Group:
        __pv_iter__ = True

        def __pv_len__(self):
            return n

        def __getitem__(self, i):
            k = members[i]
            c.assume(c.and_(0 <= k, k < K)) if hasattr(c, 'assume') else None
            return 4 * k, 4 * k + 4

    class Changes:
        got = []

        def __setitem__(self, k, v):
            self.got.append((k, v))
    dws = Changes()
    dws.got = []
    base, st = L.opaque('w'), {}

    def havoc(env, k):
        env.x.assign(x1)
        dws.got = []
        st['k'] = k

    def inv(env, k):
        if c.phase != 'preserved':
            return [True]
        m = members[st['k']]
        idx = [4 * m + j for j in range(4)]
        z = [x1[i] - r[i] * (L.entry('J', base, i) + b[i]) for i in idx]
        want = relax(c, z, mu[m], prox)
        out = [c.or_(*[c.eq(i, j) for j in idx]) for i, _ in env.x.stores] + [c.eq(env.x[i], v) for i, v in zip(idx, want)]
        out.append(len(dws.got) == 1 and c.eq(dws.got[0][0], m))
        out += FO.check_sweep(c, L, L.opaque('none'), FO.Vec(L, L.opaque('none').terms + dws.got[0][1].terms) if len(dws.got) == 1 else None, env.x, x1, idx)
        return out
    c.invariant(F, 1, inv, havoc, modifies=('x', 'delta_ws'))
    terms = list(base.terms)
    q = c.call(F, Group(), J, W, b, mu, r, x, base, dws, prox, mutates=(6, 8))
    c.prove('the same arrays are returned', [q[0] is x, q[1] is dws])
    c.prove('the common velocity and the other data are not touched', [base.terms == terms, not r.stores, not b.stores, not mu.stores])


def solver_fields(p, K):
    """what the constructor sets besides the problem itself"""
    p.K, p.iteration, p.stats, p.debug_on, p.prefix, p.timer, p.last_merit = K, 0, {}, False, '', None, float('inf')
    p.sol, p.error = p.x.copy(), 0 * p.x


@contract('C16', loops=True)
def sweep_any_colours(c):
    """any number of contacts and colours, one arbitrary velocity component: the velocity given to a colour is w0 plus, for every contact
    k, WJT_k (x - x0)_k, hence WJT x; sweep_worker under its contract (parallel sweep) and a colour for every contact (C25)"""
    if not c.unbounded_sizes:
        return None if c.sym else few_colours(c)
    cls = c.fn(GS + 'ParallelGaussSeidelSolver')
    F = GS + 'ParallelGaussSeidelSolver.sweep'
    p = cls.__new__(cls)
    K, Q = c.size('K', 1, 3), c.size('Q', 1, 3)
    k, mine = c.index('k', K), c.index('colour of k', Q)
    W, x0 = c.table('WJT', K, 4), c.table('x0', 4 * K)
    w0, dense = c.array([c.real('w0')]), [c.table('Jd', K, 4), c.table('Wd', K, 4)]
    p.engine = Params()
    p.engine.contact_points, p.engine.simulator_type = object(), object()
    p.b, p.mu, p.r, p.friction_solver = object(), object(), object(), object()
    st = {'worker': 0}

    class Mat:
        def __init__(self, d):
            self.d, self.shape = d, (1, 4 * K)

        def __getattr__(self, n):
            from pv.terms import Unsupported
            raise Unsupported('operation %s on a matrix of symbolic size' % n)

        def toarray(self):
            return self.d

        def dot(self, x):
            if FO.same_array(x, x0):
                return w0.copy()
            from pv import loops, shim
            x = x.copy()
            return w0 + loops.formal_sum(loops.LArr(K, lambda i: shim.array([[sum(W[i][j] * (x[4 * i + j] - x0[4 * i + j]) for j in range(4))]]), 0, (1, 1)))
        __matmul__ = dot
    p.J, p.WJT, p.x = Mat(dense[0]), Mat(dense[1]), x0.copy()
    solver_fields(p, K)
    graph = object()
    sizes = c.table('group size', Q, integer=True, within=(1, K + 1))
    groups = c.sequence(Q, lambda q: c.table('group', sizes[q], 2, integer=True))

    class Colours:
        def values(self):
            return groups

        def items(self):
            return c.sequence(Q, lambda q: (q, groups[q]))

    def build(cps, kind):
        c.prove('graph of the contacts of this engine', [cps is p.engine.contact_points, kind is p.engine.simulator_type])
        return graph

    def colours(g):
        c.prove('colours of that graph', g is graph)
        return Colours()
    at = lambda x: [x[4 * k + j] for j in range(4)]
    change = lambda x: sum(W[k][j] * (a - b) for j, (a, b) in enumerate(zip(at(x), at(x0))))

    def worker(group, Jd, Wd, b, mu, r, x, w, dws, f):
        q = st['q']
        g = c.fresh_int('g')
        c.requires(c.and_(0 <= g, g < sizes[q]))
        c.prove('the next colour', [c.eq(group.shape[0], sizes[q]), c.eq(group[g], groups[q][g])])
        c.prove('the problem data', [Jd is dense[0], Wd is dense[1], b is p.b, mu is p.mu, r is p.r, f is p.friction_solver, x is p.x])
        got = c.summand(w[0] - w0[0], k, K)
        c.prove('the velocity change includes every impulse update so far', c.eq(got, change(x)) if got is not None else False)
        n, d = c.table('x after', 4 * K), c.table('dw after', K, 1)
        if c.eq(q, mine):
            c.requires(c.eq(d[k][0], sum(W[k][j] * (a - b) for j, (a, b) in enumerate(zip(at(n), at(x))))))
        else:
            c.requires(c.and_(c.eq(d[k][0], dws[k][0]), *[c.eq(a, b) for a, b in zip(at(n), at(x))]))
        st['x'] = n
        st['worker'] += 1
        return n, d

    def havoc(env, q):
        st['q'] = q
        p.x = c.table('x!%d' % (q.n.id if hasattr(q, 'n') else 0), 4 * K)
        return {'delta_ws': c.table('dw!%d' % (q.n.id if hasattr(q, 'n') else 0), K, 1)}

    def inv(env, q):
        D = env.delta_ws[k][0]
        if q > mine:
            return [c.eq(D, change(p.x))]
        return [c.eq(D, 0)] + [c.eq(a, b) for a, b in zip(at(p.x), at(x0))]
    c.invariant(F, 1, inv, havoc, modifies=('self', 'delta_ws', 'w'))
    g = cls.sweep.__globals__
    B = g['BLOCKING']
    keep = [(B, 'build_contact_graph', B.build_contact_graph), (B, 'greedy_graph_coloring', B.greedy_graph_coloring), (g['nb'], 'set_num_threads', g['nb'].set_num_threads)]
    old, g['sweep_worker'] = g['sweep_worker'], worker
    try:
        B.build_contact_graph, B.greedy_graph_coloring = build, colours
        g['nb'].set_num_threads = lambda n: None
        c.call(p.sweep)
    finally:
        g['sweep_worker'] = old
        for o, n, v in keep:
            setattr(o, n, v)
    c.targets.add(F)
    c.prove('every colour has had its turn', True)


@contract('C16', bounded='three contacts, three velocity components, every grouping')
def sweep_colours(c):
    few_colours(c)


def few_colours(c):
    """each colour is solved with the velocity change of everything updated before it"""
    cls = c.fn(GS + 'ParallelGaussSeidelSolver')
    p = cls.__new__(cls)
    K, m = 3, 3
    p.engine = Params()
    p.engine.contact_points, p.engine.simulator_type = object(), object()
    groups = c.choice('groups', [[[0], [1], [2]], [[0, 2], [1]], [[0, 1], [2]], [[0], [1, 2]], [[0, 1, 2]]])
    J = c.array([[c.real('J%d_%d' % (i, j)) for j in range(m)] for i in range(4 * K)])
    W = c.array([[c.real('W%d_%d' % (i, j)) for j in range(4 * K)] for i in range(m)])
    sp = c.fn(R + 'constraints.contacts.Contacts.initialize').__globals__['sparse']
    p.J, p.WJT = sp.csr_matrix(J), sp.csr_matrix(W)
    p.x, p.b, p.mu, p.r, p.friction_solver = c.array([c.real('x%d' % i) for i in range(4 * K)]), object(), object(), object(), object()
    solver_fields(p, K)
    steps = []

    class G(dict):
        pass
    graph = G()
    from collections import defaultdict

    def build(cps, kind):
        c.prove('graph of the contacts of this engine', [cps is p.engine.contact_points, kind is p.engine.simulator_type])
        return graph

    def colours(g):
        c.prove('colours of that graph', g is graph)
        d = defaultdict(list)
        for q, ks in enumerate(groups):
            d[q] = [(4 * k, 4 * k + 4) for k in ks]
        return d

    def worker(group, Jd, Wd, b, mu, r, x, w, dws, f):
        ks = groups[len(steps)]
        c.prove('the next colour', [len(group) == len(ks)] + [int(group[i][0]) == 4 * k and int(group[i][1]) == 4 * k + 4 for i, k in enumerate(ks)])
        c.prove('the problem data', [c.eq(Jd, J), c.eq(Wd, W), b is p.b, mu is p.mu, r is p.r, f is p.friction_solver])
        c.prove('the velocity change includes every impulse update so far', (c.eq if c.sym else c.close)(w, c.mv(W, x)))
        for k in ks:
            old = [x[4 * k + j] for j in range(4)]
            for j in range(4):
                x[4 * k + j] = c.real('new%d_%d' % (k, j))
            for i in range(m):
                dws[k][i] = sum(W[i][4 * k + j] * (x[4 * k + j] - old[j]) for j in range(4))
        steps.append(x)
        return x, dws
    g = cls.sweep.__globals__
    B = g['BLOCKING']
    keep = [(B, 'build_contact_graph', B.build_contact_graph), (B, 'greedy_graph_coloring', B.greedy_graph_coloring), (g['nb'], 'set_num_threads', g['nb'].set_num_threads)]
    try:
        B.build_contact_graph, B.greedy_graph_coloring = build, colours
        g['nb'].set_num_threads = lambda n: None
        old, g['sweep_worker'] = g['sweep_worker'], worker
        c.call(p.sweep)
    finally:
        g['sweep_worker'] = old
        for o, n, v in keep:
            setattr(o, n, v)
    c.targets.add(GS + 'ParallelGaussSeidelSolver.sweep') if c.sym else None
    c.prove('every colour once', len(steps) == len(groups))
    c.prove('the new impulses are kept', [c.eq(p.x[4 * k + j], c.real('new%d_%d' % (k, j))) for k in range(K) for j in range(4)])


@contract('C16')
def schemes(c):
    """each scheme name runs its own solver on the given data; anything else is rejected"""
    S = X + 'prox_solvers.'
    F = S + 'solve'
    g = c.fn(F).__globals__
    names = {'gauss_seidel': 'GaussSeidelSolver', 'parallel_gauss_seidel': 'ParallelGaussSeidelSolver', 'parallel_jacobi': 'ParallelJacobiSolver', 'parallel_jacboi_hybrid': 'ParallelJacobiHybridSolver'}
    scheme, prefix = c.choice('scheme', list(names) + ['unknown', 'Gauss_Seidel']), c.choice('prefix', ['', 'p_'])
    a = [object() for _ in range(8)]
    made = []
    old = {n: g[n] for n in names.values()}

    def fake(n):
        class Fake:
            def __init__(self, *args):
                made.append((n, args))

            def solve(self):
                return made[-1]
        return Fake
    try:
        for n in old:
            g[n] = fake(n)
        args = a + [prefix] + [scheme]
        if scheme not in names:
            c.expect_raise('unknown scheme', c.fn(F), *args, exc=NotImplementedError)
            c.prove('nothing was solved', not made)
            return
        r = c.call(F, *args)
    finally:
        g.update(old)
    c.prove('its own solver, once', [len(made) == 1, r is made[0], made[0][0] == names[scheme]])
    c.prove('on the given data', [len(made[0][1]) == 9] + [x is y for x, y in zip(made[0][1], a)] + [made[0][1][8] == (prefix or scheme + '_')])
