"""C17: adaptive solver loops (prox_rigid_bodies/gauss_seidel_solver.py, constraints/problem.py, proximal_contact/solver_interface.py)"""
from pv.check import contract
from contracts import _formal as FO
R = 'rainbow.simulators.prox_rigid_bodies.'
X = 'rainbow.simulators.proximal_contact.'
P = R + 'constraints.problem.Problem.'
INF = float('inf')


class Obj:
    pass


def base(c, extra=None):
    """a problem type with the methods of the base class"""
    B = c.fn(P[:-1])

    class Prob(B):
        def initialize(self, dt, state, engine):
            raise AssertionError

        finalize_solution = sweep = initialize
    for k, f in (extra or {}).items():
        setattr(Prob, k, f)
    Prob.__abstractmethods__ = frozenset()
    return Prob('p')


def same(c, a, b, i):
    return c.eq(a[i], b[i])


@contract('C17', loops=True)
def iterates(c):
    """accepting, rolling back, the merit and the step-factor change; vectors of any length"""
    n = c.size('n', 1, 4)
    p = base(c)
    p.x, p.sol, p.error, p.r = [c.table(k, n) for k in ('x', 'sol', 'err', 'r')]
    x0, s0, r0 = p.x.copy(), p.sol.copy(), p.r.copy()
    arrays = [p.x, p.sol, p.r]
    i = c.index('i', n)
    what = c.choice('method', ['rollback', 'accept', 'merit', 'rate'])
    if what == 'rollback':
        c.call(p.rollback_iterate)
        c.prove('the iterate is the last accepted one again', [same(c, p.x, s0, i), same(c, p.sol, s0, i)])
    if what == 'accept':
        c.call(p.accept_iterate)
        c.prove('the iterate is the accepted one', [same(c, p.sol, x0, i), same(c, p.x, x0, i)])
    if what in ('rollback', 'accept'):
        kept = p.sol[i]
        p.x[i] = p.x[i] + 1
        c.prove('a later change of the iterate leaves the accepted one', c.eq(p.sol[i], kept))
    else:
        c.prove('setup', True)
    if what == 'merit':
        m = c.call(p.compute_merit_value)
        if c.unbounded_sizes:
            c.instantiate(i)
        c.prove('largest change of any entry', c.le(c.abs(x0[i] - s0[i]), m))
        c.prove('attained by some entry', c.exists(lambda j: c.eq(c.abs(x0[j] - s0[j]), m), n))
        c.prove('not negative', c.le(0, m))
        c.prove('iterates unchanged', [same(c, p.x, x0, i), same(c, p.sol, s0, i)])
    if what == 'rate':
        nu = c.positive('nu')
        c.call(p.change_r_factors, nu)
        c.prove('every step factor is scaled', c.eq(p.r[i], nu * r0[i]))
        c.prove('iterates unchanged', [same(c, p.x, x0, i), same(c, p.sol, s0, i)])
        c.prove('positive factors stay positive', c.implies(r0[i] > 0, p.r[i] > 0))
    else:
        c.prove('step factors unchanged', same(c, p.r, r0, i))
    c.targets.update(P + k for k in ('rollback_iterate', 'accept_iterate', 'compute_merit_value', 'change_r_factors'))
    c.prove('the accepted iterate has its own storage', [p.x is not p.sol, p.r is not p.x, p.r is not p.sol])


def parameters(c):
    e = Obj()
    q = e.params = Obj()
    q.nu_reduce, q.nu_increase, q.too_small_merit_change = c.real('nu_reduce', 0.1, 0.9), c.real('nu_increase', 1.05, 2), c.real('small', 0, 0.5)
    q.absolute_tolerance, q.relative_tolerance = c.real('abs', 0, 0.5), c.real('rel', 0, 0.3)
    c.requires([q.nu_reduce > 0, q.nu_reduce < 1, q.nu_increase > 1, c.le(0, q.too_small_merit_change), c.le(0, q.absolute_tolerance), c.le(0, q.relative_tolerance)])
    q.max_iterations = c.size('iterations', 0, 5)
    return e, q


class Clock:
    """stands for the timer"""

    def __init__(self, *a):
        self.running, self.ends, self.elapsed = False, 0, None

    def start(self):
        self.running = True

    def end(self):
        self.running, self.ends, self.elapsed = False, self.ends + 1, 'time'


def scaled(c, r, q, rejected, slow):
    if rejected:
        return r * q.nu_reduce
    return r * q.nu_increase if slow else r


def relative(c, gm, last, q):
    """the relative test; with no previous value it cannot hold"""
    return False if last == INF and not hasattr(last, 'n') else c.abs(gm - last) < q.relative_tolerance * last


@contract('C17', loops=True, paths=2000)
def rigid_solve(c):
    """any number of problems and iterations and any merit history"""
    F = R + 'gauss_seidel_solver.solve'
    e, q = parameters(c)
    prof = c.boolean('profiling')
    data, pre = {}, 'pre_'
    g = c.fn(F).__globals__
    n = c.size('problems', 0, 3)
    log = []

    def make(i, j=''):
        def sweep(s):
            log.append((s, 'sweep'))
            s.new = c.array([c.fresh('x') if c.sym else c.real('x%s_%d' % (j, len(log)))])
            s.x[:] = s.new

        def merit(s):
            log.append((s, 'merit'))
            s.merit = c.fresh('merit') if c.sym else abs(c.real('m%s_%d' % (j, len(log))))
            if c.sym:
                c.assume(c.le(0, s.merit))
            return s.merit
        p = base(c, dict(sweep=sweep, compute_merit_value=merit))
        p.x, p.sol, p.r = [c.array([c.real(k + j)]) for k in ('x', 'sol', 'r')]
        p.r[0] = c.abs(p.r[0]) + 1
        return p
    if not c.unbounded_sizes:
        if c.sym:
            return
        from math import inf
        ps = [make(i, str(i)) for i in range(int(n))]
        want = [dict(x=p.x.copy(), sol=p.sol.copy(), r=p.r.copy(), last=INF) for p in ps]
        old, g['Timer'] = g['Timer'], Clock
        try:
            c.call(F, e, ps, data, prof, pre, mutates=(1, 2))
        finally:
            g['Timer'] = old
        res, k, code, glast = [], 0, 0, INF
        it = iter([])
        # replay the recorded sweeps and merits
        swept = [s for s, w in log if w == 'sweep']
        c.prove('sweep and merit alternate', [log[i][0] is log[i + 1][0] and log[i][1] == 'sweep' and log[i + 1][1] == 'merit' for i in range(0, len(log), 2)])
        c.prove('every problem in turn', [s is ps[i % len(ps)] for i, s in enumerate(swept)])
        if not ps:
            return
        sweeps = len(swept) // len(ps)
        c.prove('never more iterations than allowed', sweeps <= q.max_iterations)
        c.used.setdefault('_', None) if False else None
        pos = 0
        for k in range(sweeps):
            gm = 0
            for i, w in enumerate(want):
                x, m = c.real('x%d_%d' % (i, pos + 1)), abs(c.real('m%d_%d' % (i, pos + 2)))
                pos += 2
                if m > w['last']:
                    w['r'] = w['r'] * q.nu_reduce
                    w['x'] = w['sol'].copy()
                else:
                    w['sol'] = w['x'] = c.array([x])
                    if w['last'] - m < q.too_small_merit_change:
                        w['r'] = w['r'] * q.nu_increase
                    w['last'] = m
                gm = max(gm, w['last'])
            res.append(gm)
            done = 1 if gm < q.absolute_tolerance else 2 if abs(gm - glast) < q.relative_tolerance * glast else 0
            glast = gm
            if done:
                code = done
                break
        c.prove('stops at the first iterate within tolerance', len(res) == sweeps and (bool(code) or sweeps == q.max_iterations))
        for p, w in zip(ps, want):
            c.prove('accepted iterate, current iterate and step factors', [c.close(p.sol, w['sol'], 1e-12), c.close(p.x, w['x'], 1e-12), c.close(p.r, w['r'], 1e-9), p.r[0] > 0])
        if prof:
            c.prove('statistics', [data[pre + 'exitcode'] == code, data[pre + 'iterations'] == (sweeps - 1 if code else q.max_iterations), len(data[pre + 'residuals']) == q.max_iterations])
            c.prove('residuals', [c.eq(data[pre + 'residuals'][i], v) for i, v in enumerate(res)] + [data[pre + 'residuals'][i] == INF for i in range(len(res), int(q.max_iterations))])
        else:
            c.prove('no statistics without profiling', not data)
        return
    ps = c.sequence(n, lambda i: make(i, ''))
    st = {'sets': []}

    def some(i):
        """the merit value of an accepted iterate: infinite (nothing accepted yet) or a number"""
        if c.choice('first', [False, True]):
            return INF
        v = c.fresh('last')
        c.assume(c.le(0, v))
        return v

    def fresh_last(env, k):
        st['last'] = env.last_merit_values
        st['last'].forget(some)
        log.clear()
        return {}

    class Residuals:
        def __init__(self):
            self.sets = []

        def __setitem__(self, i, v):
            self.sets.append((i, v))

    def havoc_outer(env, k):
        out = fresh_last(env, k)
        out['global_last_merit'] = gl = INF if c.choice('no previous iteration', [False, True]) else c.fresh('glast')
        if gl is not INF:
            c.assume(c.le(0, gl))
        st['glast'], st['k'] = gl, k
        if prof:
            c.prove('residuals start infinite', True)
            st['res'] = data[pre + 'residuals'] = Residuals()
        return out

    def inv_outer(env, k):
        st['phase'] = c.phase
        if c.phase == 'entry':
            i = c.fresh_int('i')
            v = env.last_merit_values
            return [env.global_last_merit == INF, v.item(i) == INF, c.eq(v.count(), n), not prof or list(data) == [pre + 'residuals'] and c.eq(data[pre + 'residuals'].N, q.max_iterations)]
        if c.phase != 'preserved':
            return [c.le(0, k)]
        gm = env.global_last_merit
        out = [c.not_(gm < q.absolute_tolerance)]
        if st['glast'] is not INF:
            out.append(c.not_(c.abs(gm - st['glast']) < q.relative_tolerance * st['glast']))
        out.append(gm is st['gm'] or c.eq(gm, st['gm']))
        if prof:
            out += [len(st['res'].sets) == 1 and c.eq(st['res'].sets[0][0], st['k']) and c.eq(st['res'].sets[0][1], gm)]
            out += [list(data) == [pre + 'residuals']]
        return out

    def inv_inner(env, k):
        if c.phase == 'entry':
            return [c.eq(env.global_merit, 0)]
        if c.phase in ('assumed', 'exit'):
            st['gm'] = env.global_merit
            if c.phase == 'assumed':
                st['was'] = st['last'].item(k)
            return [c.le(0, env.global_merit)]
        p = ps.item(k - 1)
        if [w for _, w in log] != ['sweep', 'merit'] or any(s is not p for s, _ in log):
            return [False]
        last = st['was']
        m, s0 = p.merit, st['before']
        rejected = m > last
        sets = st['last'].sets
        if rejected:
            now, out = last, [len(sets) == 0, c.eq(p.x[0], c.real('sol')), c.eq(p.sol[0], c.real('sol')), c.eq(p.r[0], s0 * q.nu_reduce)]
        else:
            slow = last is not INF and last - m < q.too_small_merit_change
            now, out = m, [len(sets) == 1 and c.eq(sets[0][0], k - 1) and c.eq(sets[0][1], m), c.eq(p.x[0], p.new[0]), c.eq(p.sol[0], p.new[0]),
                           c.eq(p.r[0], s0 * q.nu_increase if slow else s0)]
        gm0 = st['gm']
        out += [p.r[0] > 0, True if last is INF else c.le(now, last), c.le(0, env.global_merit)]
        out += [c.le(gm0, env.global_merit), c.le(now, env.global_merit), c.or_(c.eq(env.global_merit, gm0), c.eq(env.global_merit, now))]
        return out
    st['before'] = c.abs(c.real('r')) + 1
    c.invariant(F, 1, inv_outer, havoc_outer, modifies=('last_merit_values', 'global_last_merit', 'performance_data', 'Problems', 'problem'))
    c.invariant(F, 2, inv_inner, fresh_last, modifies=('last_merit_values', 'global_merit', 'Problems', 'problem'))
    c.replace('rainbow.util.timer.Timer', Clock)
    c.call(F, e, ps, data, prof, pre, mutates=(1, 2))
    if st['phase'] != 'exit':
        gm, gl = st['gm'], st['glast']
        ab = gm < q.absolute_tolerance
        c.prove('stops only within tolerance', True if ab else gl is not INF and c.abs(gm - gl) < q.relative_tolerance * gl)
        want, code = st['k'], 1 if ab else 2
        c.prove('within the allowed iterations', c.and_(c.le(0, want), want < q.max_iterations))
        if prof:
            c.prove('the last residual is recorded', [len(st['res'].sets) == 1, c.eq(st['res'].sets[0][0], want), c.eq(st['res'].sets[0][1], gm)])
    else:
        want, code = q.max_iterations, 0
    if prof:
        c.prove('statistics', [c.eq(data[pre + 'iterations'], want), data[pre + 'exitcode'] == code, data[pre + 'solver_time'] == 'time', len(data) == 4])
    else:
        c.prove('no statistics without profiling', not data)


# ---- proximal_contact -----------------------------------------------------------------------------
S = X + 'solver_interface.SolverInterface'


def solver(c, e, extra=None):
    B = c.fn(S)
    cls = type('Solver', (B,), dict(extra or {}))
    cls.__abstractmethods__ = frozenset()
    return cls.__new__(cls)


@contract('C17', loops=True, paths=2000)
def interface_solve(c):
    """the template method of the general solvers: any vector length, iteration count and merit history"""
    F = S + '.solve'
    e, q = parameters(c)
    dbg = c.boolean('debug')
    n = c.size('n', 1, 4)
    stats, st, pre = {}, {}, 'pre_'
    scale = 1 if c.sym else c.choice('scale', [1, 1e-4])
    if scale != 1:
        q.absolute_tolerance, q.too_small_merit_change = 1e-6, 1e-4 * q.too_small_merit_change

    class Rec:
        def __init__(self):
            self.sets = []

        def __setitem__(self, i, v):
            self.sets.append((i, v.copy() if hasattr(v, 'copy') else v))

    def init_stats(s, timer):
        s.timer = Clock()
        s.timer.start()
        stats.update({pre + 'residuals': Rec(), pre + 'lambda': Rec(), pre + 'reject': Rec(), pre + 'exitcode': 0, pre + 'iterations': q.max_iterations})

    def init_r(s):
        s.r = st['r0'] = c.table('r', n, lo=0.1, hi=1)
        st['r1'] = s.r.copy()

    def sweep(s):
        if c.unbounded_sizes:
            st['x1'] = c.table('x1', n)
            s.x.assign(st['x1'])
        else:
            k = st.setdefault('count', 0)
            st['count'] = k + 1
            s.x[:] = c.array([scale * c.real('x%d_%d' % (k, i)) for i in range(int(n))])
    p = solver(c, e, dict(initialize_stats=init_stats, compute_initial_r_factor=init_r, sweep=sweep))
    p.engine, p.stats, p.debug_on, p.prefix, p.iteration, p.last_merit = e, stats, dbg, pre, 0, INF
    p.b = c.table('b', n)
    p.x, p.sol, p.error = [c.table(k, n, lo=0, hi=0) if not c.unbounded_sizes else p.b * 0 for k in 'xse']
    if not c.unbounded_sizes:
        if c.sym:
            return
        import numpy
        p.r = None
        got = p.solve()
        sol, last, r, code, it = numpy.zeros(int(n)), INF, st['r1'].copy(), 0, int(q.max_iterations)
        merits, rej = [], []
        for k in range(int(q.max_iterations)):
            x1 = numpy.array([scale * c.real('x%d_%d' % (k, i)) for i in range(int(n))])
            m = max(abs(x1 - sol))
            merits.append(m)
            if m < q.absolute_tolerance:
                code, it = 1, k
                break
            if abs(m - last) < q.relative_tolerance * last:
                code, it = 2, k
                break
            if m > last:
                rej.append(k)
                r = r * q.nu_reduce
            else:
                if last - m < q.too_small_merit_change:
                    r = r * q.nu_increase
                last, sol = m, x1
        c.prove('returns the last accepted iterate', [c.eq(got[0], sol), got[1] is stats])
        c.prove('step factors', c.close(p.r, r, 1e-9))
        c.prove('number of sweeps', st.get('count', 0) == len(merits))
        if dbg:
            c.prove('statistics', [stats[pre + 'exitcode'] == code, stats[pre + 'iterations'] == it, [k for k, v in stats[pre + 'reject'].sets] == rej,
                                   [k for k, v in stats[pre + 'residuals'].sets] == list(range(len(merits))), c.eq(c.array([v for k, v in stats[pre + 'residuals'].sets]), c.array(merits))])
        else:
            c.prove('no statistics without debugging', not stats)
        return
    arrays = [p.x, p.sol]

    def havoc(env, k):
        s0, x0 = c.table('s0', n), c.table('x0', n)
        p.x.assign(x0)
        p.sol.assign(s0)
        p.error.assign(c.table('e0', n))
        p.r = c.table('rk', n)
        i = st['i'] = c.index('i', n)
        st['s0'], st['rk'], st['k'] = s0, p.r.copy(), k
        c.assume(p.r[i] > 0)
        p.last_merit = st['last'] = INF if c.choice('nothing accepted', [False, True]) else c.fresh('last')
        if st['last'] is not INF:
            c.assume(c.le(0, st['last']))
        p.merit = c.fresh('old merit')
        p.iteration = k - 1
        if dbg:
            for s in ('residuals', 'lambda', 'reject'):
                stats[pre + s] = Rec()

    def recorded(m, converged):
        k = st['k']
        one = lambda r: len(r.sets) == 1 and c.eq(r.sets[0][0], k)
        res, lam, rej = [stats[pre + s] for s in ('residuals', 'lambda', 'reject')]
        return [one(res) and c.eq(res.sets[0][1], m), one(lam) and c.eq(lam.sets[0][1][st['i']], st['x1'][st['i']])]

    def merit_is(m, i):
        c.instantiate(i)
        return [c.le(c.abs(st['x1'][i] - st['s0'][i]), m), c.exists(lambda j: c.eq(c.abs(st['x1'][j] - st['s0'][j]), m), n)]

    def inv(env, k):
        st['phase'] = c.phase
        if c.phase == 'entry':
            i = c.fresh_int('i')
            return [p.last_merit == INF, c.eq(p.x.at(i)[0], 0), c.eq(p.sol.at(i)[0], 0), p.x is arrays[0], p.sol is arrays[1], p.r is st['r0']]
        if c.phase != 'preserved':
            return [True]
        i, last, m = st['i'], st['last'], p.merit
        out = merit_is(m, i)
        out.append(c.not_(m < q.absolute_tolerance))
        if last is not INF:
            out.append(c.not_(c.abs(m - last) < q.relative_tolerance * last))
        if m > last:
            out += [same(c, p.x, st['s0'], i), same(c, p.sol, st['s0'], i), c.eq(p.r[i], q.nu_reduce * st['rk'][i]), p.last_merit is last]
        else:
            slow = last is not INF and last - m < q.too_small_merit_change
            out += [same(c, p.x, st['x1'], i), same(c, p.sol, st['x1'], i), c.eq(p.r[i], q.nu_increase * st['rk'][i] if slow else st['rk'][i]), c.eq(p.last_merit, m), True if last is INF else c.le(m, last)]
        out += [p.r[i] > 0, p.x is arrays[0], p.sol is arrays[1], p.x is not p.sol]
        if dbg:
            out += recorded(m, False)
            rej = stats[pre + 'reject'].sets
            out.append(len(rej) == 1 and c.eq(rej[0][0], st['k']) and rej[0][1] is True if m > last else len(rej) == 0)
            out += [stats[pre + 'exitcode'] == 0, stats[pre + 'iterations'] is q.max_iterations]
        return out
    c.invariant(F, 1, inv, havoc, modifies=('self',))
    got = c.call(p.solve)
    c.targets.update({F, S + '.check_convergence', S + '.update_r_factor_and_handle_sol_state'})
    c.prove('returns the accepted iterate and the statistics', [got[0] is arrays[1], got[1] is stats])
    code, want = 0, q.max_iterations
    if st['phase'] != 'exit':
        m, last, i = p.merit, st['last'], st['i']
        ab = m < q.absolute_tolerance
        code, want = 1 if ab else 2, st['k']
        c.prove('stops only within tolerance', True if ab else last is not INF and c.abs(m - last) < q.relative_tolerance * last)
        c.prove('merit of the last iterate', merit_is(m, i))
        c.prove('the accepted iterate is not touched by the last one', same(c, p.sol, st['s0'], i))
        c.prove('within the allowed iterations', c.and_(c.le(0, want), want < q.max_iterations))
        if dbg:
            c.prove('the last residual is recorded', recorded(m, True))
    if dbg:
        c.prove('statistics', [stats[pre + 'exitcode'] == code, c.eq(stats[pre + 'iterations'], want), stats[pre + 'solver_time'] == 'time', p.timer.ends == 1])
    else:
        c.prove('no statistics without debugging', not stats)


@contract('C17', loops=True)
def interface_setup(c):
    """any number of contacts and bodies: construction, initial step factors and statistics"""
    if not c.unbounded_sizes:
        return None if c.sym else small_interface_setup(c)
    K, N = c.size('K', 0, 2), c.size('N', 2, 3)
    R = 4 * K
    J, W = FO.constraint_system(c, R, N)
    WJT = W.dot(J.T)
    cls = type('Solver', (c.fn(S),), dict(sweep=lambda s: None))
    cls.__abstractmethods__ = frozenset()
    e, q = Obj(), Obj()
    e.params, e.contact_points = q, c.sequence(K, lambda k: None)
    q.max_iterations = c.choice('iterations', [0, 1, 3])
    b, mu, f, stats = c.table('b', R), c.table('mu', K), object(), {'kept': 1}
    p = cls(J, WJT, b, mu, f, e, stats, True, 'pre_')
    i = c.index('i', R)
    c.prove('stores the problem', [p.J is J, p.WJT is WJT, p.b is b, p.mu is mu, p.friction_solver is f, p.engine is e, p.stats is stats, c.eq(p.K, K), p.prefix == 'pre_', p.debug_on is True])
    c.call(p.compute_initial_r_factor)
    FO.check_system(c, p, J, W, i, None, c.const('0.1'))
    c.prove('no merit value yet', p.last_merit == INF)
    t = Clock()
    c.call(p.initialize_stats, t)
    c.targets.update({S + '.__init__', S + '.compute_initial_r_factor', S + '.initialize_stats'})
    n = q.max_iterations
    c.prove('a record for every iteration', [len(stats['pre_residuals']) == n, len(stats['pre_reject']) == n, stats['pre_lambda'].shape[0] == n, c.eq(stats['pre_lambda'].shape[1], R)])
    c.prove('nothing recorded yet', [not any(stats['pre_reject']), stats['pre_exitcode'] == 0, stats['pre_iterations'] == n, stats['kept'] == 1] + [v == INF for v in stats['pre_residuals']])
    c.prove('the timer runs', [p.timer is t, t.running])


def small_interface_setup(c):
    sp = c.fn(R + 'constraints.contacts.Contacts.initialize').__globals__['sparse']
    J = c.array([[c.real('J%d_%d' % (i, j), -1, 1) for j in range(6)] for i in range(4)])
    zero = c.boolean('zero row')
    if zero:
        J[2] = 0 * J[2]
    w = [c.positive('w%d' % i) for i in range(6)]
    if not c.sym:
        light = c.choice('inverse mass', [1, 1, 1e-3, 1e-6])
        w = [v * light for v in w]
    W = c.array([[w[i] if i == j else 0 for j in range(6)] for i in range(6)])
    WJT = c.mm(W, c.transpose(J))
    cls = type('Solver', (c.fn(S),), dict(sweep=lambda s: None))
    cls.__abstractmethods__ = frozenset()
    e, q = Obj(), Obj()
    e.params, e.contact_points = q, [None]
    q.max_iterations = c.choice('iterations', [0, 1, 3])
    b, mu, f, stats = c.vec('b', 4), c.array([c.real('mu')]), object(), {'kept': 1}
    Jm, Wm = sp.csr_matrix(J), sp.csr_matrix(WJT)
    p = cls(Jm, Wm, b, mu, f, e, stats, True, 'pre_')
    c.prove('stores the problem', [p.J is Jm, p.WJT is Wm, p.b is b, p.mu is mu, p.friction_solver is f, p.engine is e, p.stats is stats, p.K == 1, p.prefix == 'pre_', p.debug_on is True])
    c.prove('starts from zero', [c.eq(p.x, 0 * b), c.eq(p.sol, 0 * b), p.x is not p.sol, p.last_merit == INF])
    c.call(p.compute_initial_r_factor)
    A = c.mm(J, WJT)
    for i in range(4):
        d = A[i][i]
        if zero and i == 2:
            c.prove('rows without effect get a positive factor', c.eq(p.r[i], c.const('0.1') if c.sym else 0.1))
            continue
        c.prove('a tenth of the inverse diagonal', c.or_(c.and_(c.eq(d, 0), p.r[i] > 0), c.eq(p.r[i] * d * 10, 1)))
        c.prove('factors are positive', c.or_(c.le(d, 0), p.r[i] > 0))
    t = Clock()
    c.call(p.initialize_stats, t)
    c.targets.update({S + '.__init__', S + '.compute_initial_r_factor', S + '.initialize_stats'}) if c.sym else None
    N = q.max_iterations
    c.prove('a record for every iteration', [len(stats['pre_residuals']) == N, stats['pre_lambda'].shape == (N, 4), len(stats['pre_reject']) == N])
    c.prove('nothing recorded yet', [not any(stats['pre_reject']), stats['pre_exitcode'] == 0, stats['pre_iterations'] == N, stats['kept'] == 1] + [v == INF for v in stats['pre_residuals']])
    c.prove('the timer runs', [p.timer is t, t.running])
