"""C23: soft body state, constraints, stepping and model building (prox_soft_bodies/solver.py, types.py, api.py)"""
from pv.check import contract
from contracts._soft import *
from contracts import _formal as FO
from contracts.c13_rigid_api import count, others
MOD = SOLVER[:-1]
V3 = 'rainbow.math.vector3.'


# ---- gathering and scattering ----------------------------------------------------------------------
@contract('C23', loops=True)
def gather(c):
    """any number of bodies: the global vector has the state of each body in its own range and the bodies are not changed"""
    what = c.choice('what', ['position', 'velocity'])
    F, name = MOD + '.get_%s_vector' % what, 'x' if what == 'position' else 'u'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        e = real_world(c)
        keep = c.snapshot(*e.bodies.values())
        v = c.call(F, e, mutates=(0,))
        c.prove('shape', v.shape == (e.number_of_nodes, 3))
        for b in e.bodies.values():
            c.prove('own range', c.eq(v[b.offset:b.offset + len(b.x)], getattr(b, name)))
        v += 1
        c.prove('bodies are not changed', c.unchanged(keep))
        return
    W = World(c, lambda k: bare_body(c, W.number_of_nodes))
    st = {}

    def zeros(shape, dtype=None):
        st['out'] = Global(shape[0])
        c.prove('a row of three per node', [c.eq(shape[0], W.number_of_nodes), shape[1] == 3])
        return st['out']
    numpy_with(c, MOD, zeros=zeros)

    def inv(env, k):
        if c.phase == 'entry':
            return [getattr(env, name) is st['out'], not st['out'].sets]
        if c.phase != 'preserved':
            return [True]
        b = W.one['b']
        return st['out'].only_set(c, b) + [st['out'].sets[0][2] is st['was']]

    def havoc(env, k):
        st['out'].sets.clear()
    W2 = W.bodies.other

    def mk(k):
        b = W2(k)
        st['was'] = getattr(b, name)
        return b
    W.bodies.other = mk
    c.invariant(F, 1, inv, havoc, modifies=(name, 'body'))
    c.prove('returned', c.call(F, W, mutates=(0,)) is st['out'])


@contract('C23', loops=True)
def scatter(c):
    """any number of bodies: each body gets exactly its own range"""
    what = c.choice('what', ['position', 'velocity'])
    F, name = MOD + '.set_%s_vector' % what, 'x' if what == 'position' else 'u'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        e = real_world(c)
        v = numpy.array([c.vec('v%d' % i) for i in range(e.number_of_nodes)])
        old = {n: (b.x.copy(), b.u.copy()) for n, b in e.bodies.items()}
        c.call(F, v, e, mutates=(1,))
        for n, b in e.bodies.items():
            c.prove('own range', c.eq(getattr(b, name), v[b.offset:b.offset + len(b.x)]))
            c.prove('nothing else', c.eq(*((b.u, old[n][1]) if name == 'x' else (b.x, old[n][0]))))
        c.prove('gathered again', c.eq(c.fn(MOD + '.get_%s_vector' % what)(e), v))
        return
    W = World(c, lambda k: bare_body(c, W.number_of_nodes))
    v, st = Global(W.number_of_nodes), {}
    W2 = W.bodies.other

    def mk(k):
        st['b'] = b = W2(k)
        st['before'] = dict(b.__dict__)
        return b
    W.bodies.other = mk

    def inv(env, k):
        if c.phase != 'preserved':
            return [not v.sets]
        b, before = st['b'], st['before']
        return [v.is_part(c, getattr(b, name), b), not v.sets] + [b.__dict__[q] is before[q] for q in before if q != name]
    c.invariant(F, 1, inv, modifies=('body', 'engine'))
    c.call(F, v, W, mutates=(1,))


# ---- boundary conditions ---------------------------------------------------------------------------
class Column:
    """an array made of one attribute of every Dirichlet condition"""

    def __init__(self, seq, shift=0):
        self.seq, self.shift = seq, shift

    def __add__(self, o):
        return Column(self.seq, self.shift + o)

    __radd__ = __add__


def boundary(c, what):
    """any number of bodies and conditions: fixed bodies keep their positions / have no velocity, prescribed nodes have their value /
    no velocity, all other entries of the vector are as before"""
    F = MOD + '.apply_boundary_conditions_on_' + what
    name = 'x' if what == 'positions' else 'u'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        import numpy
        e = real_world(c)
        v = numpy.array([c.vec('v%d' % i) for i in range(e.number_of_nodes)])
        want = v.copy()
        DC = c.fn(TYPES + 'DirichletCondition')
        for b in e.bodies.values():
            if b.is_fixed:
                want[b.offset:b.offset + len(b.x)] = b.x if name == 'x' else 0
            for j in range(c.choice('conditions ' + b.name, [0, 1, 3])):
                b.dirichlet_conditions.append(DC(j, b.x[j] if b.is_fixed else c.vec('value%d' % j)))
                want[b.offset + j] = b.dirichlet_conditions[-1].value if name == 'x' else 0
        keep = c.snapshot(*e.bodies.values())
        c.call(F, v, e, mutates=(0, 1))
        c.prove('boundary conditions hold', c.eq(v, want))
        c.prove('bodies are not changed', c.unchanged(keep))
        return
    DC = c.fn(TYPES + 'DirichletCondition')

    def mk(k):
        b = bare_body(c, W.number_of_nodes)
        n = c.integer('conditions', 0, 3, bounded=False)
        c.requires(n >= 0)
        idx, val = c.table('idx', n, integer=True, within=(0, b.n)), c.table('value', n, 3)
        b.dirichlet_conditions = c.sequence(n, lambda j: DC(idx.at(j)[0], val.at(j)[0]))
        st['n'], st['idx'], st['val'] = n, idx, val
        return b
    W, st = World(c, mk), {}
    v = Global(W.number_of_nodes)

    class Writes(Global):
        def __setitem__(self, s, val):
            self.sets.append((s, val))
    v = Writes(W.number_of_nodes)
    numpy_with(c, MOD, array=lambda s, **k: Column(s))

    def inv(env, k):
        if c.phase == 'entry':
            return [not v.sets]
        if c.phase != 'preserved':
            return [True]
        b, out, sets = W.one['b'], [], list(v.sets)
        if b.is_fixed:
            ok = bool(sets) and isinstance(sets[0][0], slice)
            out.append(ok)
            if ok:
                s, val = sets.pop(0)
                out += [c.eq(s.start, b.offset), c.eq(s.stop, b.offset + b.n), s.step is None, val is b.x if name == 'x' else val == 0]
        if st['n'] > 0:
            ok = len(sets) == 1 and isinstance(sets[0][0], Column)
            out.append(ok)
            if ok:
                s, val = sets[0]
                j = c.fresh_int('j')
                c.requires([0 <= j, j < st['n']])
                out += [c.eq(s.seq.N, st['n']), c.eq(s.seq.item(j) + s.shift, st['idx'].at(j)[0] + b.offset)]
                if name == 'x':
                    ok = isinstance(val, Column)
                    out.append(ok)
                    out += [val.shift == 0, c.eq(val.seq.N, st['n']), c.eq(val.seq.item(j), st['val'].at(j)[0])] if ok else []
                else:
                    out.append(val == 0)
        else:
            out.append(not sets)
        return out

    def havoc(env, k):
        v.sets.clear()
    c.invariant(F, 1, inv, havoc, modifies=(name, 'body', 'indices', 'values', 'engine'))
    c.call(F, v, W, mutates=(0, 1))


@contract('C23', loops=True)
def boundary_positions(c):
    boundary(c, 'positions')


@contract('C23', loops=True)
def boundary_velocities(c):
    boundary(c, 'velocities')


# ---- the step as a formal sum ----------------------------------------------------------------------
PRE = ('prescribed',)


def project(a):
    return None if a == PRE else a if a[0] == 'P' else ('P', a)


class Lin:
    """a linear combination of opaque vectors; operators are applied formally"""
    __array_ufunc__ = None
    shape = ('all degrees of freedom',)

    def __init__(self, c, terms):
        self.c, self.terms = c, dict(terms)

    def copy(self):
        return Lin(self.c, self.terms)

    def __pv_state__(self):
        return tuple((k, id(v)) for k, v in self.terms.items())

    def __add__(self, o):
        r = self.copy()
        r += o
        return r

    __radd__ = __add__

    def __iadd__(self, o):
        for a, k in o.terms.items():
            self.terms[a] = self.terms[a] + k if a in self.terms else k
        return self

    def __mul__(self, k):
        return Lin(self.c, {a: k * v for a, v in self.terms.items()})

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + o * -1

    def reshape(self, *a):
        return self

    def constrain(self, prescribed):
        """(in place) the constrained entries are prescribed, the others unchanged"""
        new = {PRE: 1} if prescribed else {}
        for a, k in self.terms.items():
            b = project(a)
            if b is not None:
                new[b] = new[b] + k if b in new else k
        self.terms = new

    def is_(self, want):
        c = self.c
        w = {}
        for a, k in want:
            w[a] = w[a] + k if a in w else k
        return [c.eq(self.terms.get(a, 0), w.get(a, 0)) for a in set(self.terms) | set(w)]


class LinOp:
    def __init__(self, c, name):
        self.c, self.name = c, name

    def __pv_state__(self):
        return self.name

    @property
    def T(self):
        return LinOp(self.c, self.name + '^T')

    def dot(self, v):
        if isinstance(v, LinOp):
            return LinOp(self.c, self.name + ' ' + v.name)
        return Lin(self.c, {(self.name, a): k for a, k in v.terms.items()})

    __matmul__ = dot


def stubs(c, st, zeros=True):
    """contracts of the parts of a step (each decided on its own); st records what they were given"""
    log = st['log'] = []
    lin = lambda *a: Lin(c, {(n,): 1 for n in a})

    def replace(name, f):
        c.replace(MOD + '.' + name, f)

    def get(what):
        def f(e):
            c.prove('state of the engine', e is st['engine'])
            return st[what].copy()
        return f

    def put(what):
        def f(v, e):
            c.prove('state is stored in the engine', e is st['engine'])
            st[what] = v.copy()
            log.append('set ' + what)
        return f
    replace('get_position_vector', get('x'))
    replace('get_velocity_vector', get('u'))
    replace('set_position_vector', put('x'))
    replace('set_velocity_vector', put('u'))

    def bc(prescribed):
        def f(v, e):
            c.prove('boundary conditions of the engine', e is st['engine'])
            v.constrain(prescribed)
        return f
    replace('apply_boundary_conditions_on_positions', bc(True))
    replace('apply_boundary_conditions_on_velocities', bc(False))
    c.mod(MOD)
    numpy_with(c, MOD, reshape=lambda v, s: v, **(dict(zeros=lambda s, dtype=None: Lin(c, {})) if zeros else {}))
    return lin, replace, log


@contract('C23')
def step(c):
    """a step of a world of any size: u+ = P(u + dt W (Fe + Ft + Fd + Fext) + W J^T lambda), x+ = P(x + dt u+) + prescribed, with P
    the projection to the free nodes; contact forces from the current contacts and frictions; stabilisation afterwards if wanted"""
    F = SOLVER + 'SemiImplicitStepper'
    if not c.sym:
        return concrete_step(c)
    c.targets.add(F + '.step')
    c.targets.add(F + '.__init__')
    st = {}
    lin, replace, log = stubs(c, st)
    st['x'], st['u'] = lin('x'), lin('u')
    e = st['engine'] = Box()
    e.params = Box()
    p = e.params
    p.use_pre_stabilization, p.use_post_stabilization = False, c.boolean('post')
    p.proximal_solver, p.time_stamp = 'scheme', c.integer('stamp', 0, 5, bounded=False)
    stamp = p.time_stamp
    e.contact_points = ['old contact'] if c.boolean('old contacts') else []
    dt = c.positive('dt')
    W, J = LinOp(c, 'W'), LinOp(c, 'J')

    def inverse(en, stats, d):
        c.prove('inverse mass matrix of the engine', en is e)
        return W
    replace('compute_inverse_mass_matrix', inverse)

    def force(name, arg, want):
        def f(*a):
            if arg:
                c.prove('force at the current state', a[0].is_(want))
            c.prove('force of the engine', a[1 if arg else 0] is e)
            return lin(name)
        return f
    now_x, now_u = [(('P', ('x',)), 1), (PRE, 1)], [(('P', ('u',)), 1)]
    replace('compute_elastic_forces', force('Fe', 1, now_x))
    replace('compute_traction_forces', force('Ft', 1, now_x))
    replace('compute_damping_forces', force('Fd', 1, now_u))
    replace('compute_external_forces', force('Fext', 0, None))

    def detect(en, stats, d):
        c.prove('contacts of the engine', en is e)
        e.contact_points = ['contact'] if c.boolean('contacts') else []
        log.append('contacts')
        return stats
    c.replace(CD + 'run_collision_detection', detect)

    def jacobian(en, stats, d):
        c.prove('Jacobian of the current contacts', [en is e, log == ['contacts']])
        return J
    replace('compute_jacobian_matrix', jacobian)
    mu, lam = object(), lin('lambda')

    def friction(en):
        c.prove('friction of the current contacts', [en is e, log == ['contacts']])
        return mu
    replace('get_friction_coefficient_vector', friction)
    S = c.mod(MOD).CONTACT_SOLVERS
    prox = S.prox_sphere
    free = [(('P', ('u',)), 1)] + [(('W', (f,)), dt) for f in ('Fe', 'Ft', 'Fd', 'Fext')]

    def solve(j, wjt, b, m, f, en, stats, d, prefix='', scheme='gauss_seidel'):
        c.prove('the contact problem', [j is J, isinstance(wjt, LinOp) and wjt.name == 'W J^T', m is mu, f is prox, en is e, scheme == 'scheme'])
        c.prove('velocities without contact forces', b.is_([(('J', a), k) for a, k in free]))
        st['solved'] = True
        return lam, stats
    c.mod(MOD).CONTACT_SOLVERS = type('S', (), dict(solve=staticmethod(solve), prox_sphere=prox, prox_origin=S.prox_origin))

    def post(j, wjt, en, stats, d):
        c.prove('stabilisation with the matrices of the step', [j is J, isinstance(wjt, LinOp) and wjt.name == 'W J^T', en is e])
        log.append('post')
        return stats
    replace('apply_post_stabilization', post)
    s = c.fn(F)(e, False)
    s.step(dt, e, False)
    some = bool(e.contact_points)
    c.prove('contact forces exactly if there are contacts', st.get('solved', False) is some)
    P = lambda a: a if a[0] == 'P' else ('P', a)
    new = [(P(a), k) for a, k in free] + ([(('P', ('W J^T', ('lambda',))), 1)] if some else [])
    c.prove('velocities', st['u'].is_(new))
    c.prove('positions', st['x'].is_(now_x + [(a, dt * k) for a, k in new]))
    want = ['post'] if some and p.use_post_stabilization else []
    c.prove('stabilisation last and only if wanted', [log[0] == 'contacts', sorted(log[1:3]) == ['set u', 'set x'], log[3:] == want])
    c.prove('one step', c.eq(p.time_stamp, stamp + 1))


def constrained(e):
    """(concrete) the constrained nodes of the world and their positions"""
    import numpy
    out = {}
    for b in e.bodies.values():
        if b.is_fixed:
            out.update({b.offset + i: b.x[i].copy() for i in range(len(b.x))})
        out.update({b.offset + d.idx: d.value.copy() for d in b.dirichlet_conditions})
    return out


def concrete_step(c):
    """a few steps of touching boxes: constraints hold, free nodes move by dt times their velocity, and without contacts the velocities
    are those of the forces"""
    import numpy
    e = boxes(c)
    keep = constrained(e)
    bodies = list(e.bodies.values())
    glue = lambda n: numpy.concatenate([getattr(b, n) for b in bodies])
    stepper = c.fn(SOLVER + 'SemiImplicitStepper')(e, False)
    debug = c.boolean('debug')
    for s in range(2):
        x, u = glue('x'), glue('u')
        for i in keep:
            x[i], u[i] = keep[i], 0
        mass = [b.M_array for b in bodies]
        stepper.step(0.004, e, debug)
        X, U = glue('x'), glue('u')
        F = glue('Fe') + glue('Ft') + glue('Fd') + glue('Fext')
        c.requires(numpy.isfinite(X).all() and abs(X).max() < 10)
        c.prove('one step is counted', e.params.time_stamp == s + 1)
        c.prove('prescribed nodes are where they should be', [c.close(X[i], v, 1e-12) for i, v in keep.items()])
        c.prove('prescribed nodes do not move', [c.eq(U[i], 0 * U[i]) for i in keep])
        if not (e.contact_points and e.params.use_post_stabilization):
            c.prove('free nodes move with their velocity', c.close(X, x + 0.004 * U, 1e-9))
        free = [i for i in range(len(X)) if i not in keep]
        if not e.contact_points:
            M = c.fn(MOD + '.compute_mass_matrix')(e, {}, False).toarray()
            a = numpy.linalg.solve(M, F.reshape(-1)).reshape((-1, 3))
            c.prove('velocities change with the forces', c.close((U - u)[free], 0.004 * a[free], 1e-7))
        for b in bodies:
            c.prove('ranges', [b.x.shape == b.x0.shape, b.u.shape == b.x0.shape])
    c.requires(len(e.contact_points) > 0 or len(bodies) == 1)


def concrete_stabilisation(c):
    """penetrating boxes: constraints hold afterwards, free nodes move by W J^T times normal impulses that do not pull"""
    import numpy
    from types import SimpleNamespace
    e = boxes(c, 2)
    c.fn(CD + 'run_collision_detection')(e, {}, False)
    c.requires(len(e.contact_points) > 0)
    K, N = len(e.contact_points), e.number_of_nodes
    for cp in e.contact_points:
        cp.g = min(cp.g, 0) - (0.05 if c.boolean('deep') else 0)
    keep = constrained(e)
    J = c.fn(MOD + '.compute_jacobian_matrix')(e, {}, False)
    W = c.fn(MOD + '.compute_inverse_mass_matrix')(e, {}, False)
    WJT = W.dot(J.T)
    glue = lambda n: numpy.concatenate([getattr(b, n) for b in e.bodies.values()])
    x, u = glue('x'), glue('u')
    for i in keep:
        x[i] = keep[i]
    c.call(MOD + '.apply_post_stabilization', J, WJT, e, {}, c.boolean('debug'), mutates=(2, 3))
    X = glue('x')
    c.prove('velocities are kept', c.eq(glue('u'), u))
    deep = [cp.g < -e.params.min_gap_value for cp in e.contact_points]
    if not any(deep):
        return c.prove('nothing to correct', c.close(X, x, 1e-12))
    c.prove('prescribed nodes are where they should be', [c.close(X[i], v, 1e-12) for i, v in keep.items()])
    b = numpy.zeros(4 * K)
    b[::4] = [cp.g if d else 0 for cp, d in zip(e.contact_points, deep)]
    S = c.mod(MOD).CONTACT_SOLVERS
    sol = S.solve(J, WJT, b, numpy.zeros(K), S.prox_origin, e, {}, False, prefix='p', scheme=e.params.proximal_solver)[0]
    want = x + WJT.dot(sol).reshape((-1, 3))
    for i in keep:
        want[i] = keep[i]
    c.prove('displacements', c.close(X, want, 1e-9))
    c.prove('no pulling, no friction', [sol[::4].min() >= 0] + [abs(sol[q::4]).max() <= 1e-12 for q in (1, 2, 3)])


@contract('C23')
def projection_keeps(c):
    """lemma: entries outside P of a velocity are zero and of a position are prescribed, whatever is added before"""
    v = Lin(c, {('a',): c.real('k'), PRE: 1, ('P', ('b',)): c.real('m')}) if c.sym else None
    if v is None:
        return c.prove('-', True)
    v.constrain(True)
    c.prove('only projected parts and the prescribed values', [a == PRE or a[0] == 'P' for a in v.terms] + [c.eq(v.terms[PRE], 1)])


@contract('C23', loops=True)
def stabilisation(c):
    """any number of contacts: penetrations beyond the tolerance in the normal rows, no friction, boundary conditions kept"""
    F = MOD + '.apply_post_stabilization'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_stabilisation(c)
    st = {}
    lin, replace, log = stubs(c, st, zeros=False)
    st['x'], st['u'] = lin('x'), lin('u')
    e = st['engine'] = Box()
    e.params = Box()
    e.params.min_gap_value, e.params.proximal_solver = c.positive('min_gap'), 'scheme'
    K = c.size('K', 0, 3)
    one = {}

    def mk(i):
        one['cp'] = Box()
        one['cp'].g = c.real('g', -1, 1)
        return one['cp']
    e.contact_points = c.sequence(K, mk)
    J, WJT = LinOp(c, 'J'), LinOp(c, 'W J^T')

    def havoc(env, k):
        env.g.assign(c.table('gap', 4 * K))
        st['g'], st['k'] = env.g, k

    def inv(env, k):
        if c.phase == 'entry':
            return [c.eq(env.g.N, 4 * K), c.eq(env.g.at(c.fresh_int('i'))[0], 0)]
        if c.phase != 'preserved':
            return [True]
        k, g = st['k'], one['cp'].g
        deep = g < -e.params.min_gap_value
        out = [c.eq(i, 4 * k) for i, _ in env.g.stores] + [len(env.g.stores) <= 1]
        return out + [c.iff(deep, len(env.g.stores) == 1)] + [c.eq(v[0], g) for _, v in env.g.stores]
    c.invariant(F, 1, inv, havoc, modifies=('g',))
    S = c.mod(MOD).CONTACT_SOLVERS

    def solve(j, wjt, b, m, f, en, stats, d, prefix='', scheme='gauss_seidel'):
        c.prove('the stabilisation problem', [j is J, wjt is WJT, b is st['g'], c.eq(m.N, K), c.eq(m.at(c.fresh_int('i'))[0], 0), f is S.prox_origin,
                                              en is e, scheme == 'scheme'])
        st['solved'] = True
        return lin('lambda'), stats
    c.mod(MOD).CONTACT_SOLVERS = type('S', (), dict(solve=staticmethod(solve), prox_sphere=S.prox_sphere, prox_origin=S.prox_origin))
    c.call(F, J, WJT, e, {}, False, mutates=(2, 3))
    if st.get('solved'):
        c.prove('positions', st['x'].is_([(('P', ('x',)), 1), (('P', ('W J^T', ('lambda',))), 1), (PRE, 1)]))
        c.prove('velocities are kept', [log == ['set x']])
    else:
        c.prove('nothing to correct', [log == []])


@contract('C23', loops=True)
def penetration(c):
    """any number of contacts: minus the smallest gap, or zero"""
    F = MOD + '.get_largest_penetration_error'
    K = c.size('K', 0, 3)
    g = c.table('g', K, lo=-1, hi=1)
    e = Box()

    def cp(i):
        b = Box()
        b.g = g[i]
        return b
    e.contact_points = c.sequence(K, cp)
    if not c.unbounded_sizes:
        r = c.call(F, e)
        return c.prove('largest penetration', c.eq(r, max([0] + [-x for x in g]) if not c.sym else r))
    st, j = {}, c.index('j', K) if c.choice('some', [False, True]) else None

    def havoc(env, k):
        st['p'] = c.real('p')
        return {'penetration': st['p']}

    def inv(env, k):
        p = env.penetration
        out = [c.le(p, 0), c.or_(c.eq(p, 0), c.exists(lambda w: c.and_(w < k, c.eq(p, g.at(w)[0])), K))]
        return out + ([c.implies(j < k, c.le(p, g.at(j)[0]))] if j is not None else [])
    c.invariant(F, 1, inv, havoc)
    r = c.call(F, e)
    c.prove('not negative', r >= 0)
    c.prove('zero or the penetration of a contact', c.or_(c.eq(r, 0), c.exists(lambda w: c.eq(r, -g.at(w)[0]), K)))
    if j is not None:
        c.prove('no contact penetrates more', c.le(-g.at(j)[0], r))
