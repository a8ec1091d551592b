"""C19: simulated time is covered by bounded steps (prox_rigid_bodies/api.py, prox_soft_bodies/api.py: simulate)"""
from pv.check import contract
RIGID, SOFT = 'rainbow.simulators.prox_rigid_bodies.', 'rainbow.simulators.prox_soft_bodies.'


class Obj:
    pass


def setup(c, kind):
    F = (RIGID if kind == 'rigid' else SOFT) + 'api.simulate'
    e = Obj()
    e.params, e.log = Obj(), []
    e.params.time_step = h = c.positive('h', 0.1, 1)
    flag = c.choice('flag', [None, False, True])

    class Stepper:
        def __init__(self, *a):
            self.made = a

        def step(self, dt, en, f):
            if len(e.log) > 300:
                raise RuntimeError('the run does not end')
            e.log.append((self, dt, en, f))
    return F, e, h, flag, Stepper


def simulate(c, kind):
    """any duration and step size: positive steps, at most the configured one, that add up to the duration"""
    F, e, h, flag, Stepper = setup(c, kind)
    T = c.positive('T', 0.01, 5)
    st = {}
    made = kind == 'soft' and c.boolean('no stepper')
    own = e.stepper = None if made else Stepper()
    g = c.fn(F).__globals__
    old = g.get('SOLVER')
    if kind == 'soft':
        class Solver:
            SemiImplicitStepper = Stepper
        g['SOLVER'] = Solver
    args = (e, T) + (() if flag is None else (flag,))

    def good(x):
        s, dt, en, f = x
        return [s is e.stepper and (made or s is own), en is e, f is bool(flag), dt > 0, c.le(dt, h)]
    try:
        if c.unbounded_sizes:
            def havoc(env, k):
                e.log.clear()
                st['left'] = c.real('left')
                return {'T_left': st['left']}

            def inv(env, k):
                if c.phase == 'entry':
                    return [c.eq(env.T_left, T), not e.log]
                if c.phase != 'preserved':
                    return [c.le(0, env.T_left), c.le(env.T_left, T)]
                left = env.T_left
                one = len(e.log) == 1
                out = [one] + (good(e.log[0]) if one else [])
                # time taken + time left is constant; each step ends the run or takes a whole configured step (so the loop ends)
                return out + [c.le(0, left), one and c.eq(e.log[0][1] + left, st['left']), c.or_(c.eq(left, 0), one and c.eq(e.log[0][1], h))]
            c.invariant(F, 1, inv, havoc, modifies=('engine', 'T_left', 'dt'))
            c.call(F, *args, mutates=(0,))
            c.prove('ends when no time is left', [c.eq(st['left'], 0), not e.log])
        else:
            if c.sym:
                c.requires(T <= 3 * h)
            c.call(F, *args, mutates=(0,))
            c.prove('steps are positive and bounded', [y for x in e.log for y in good(x)])
            c.prove('they add up to the duration', c.close(sum([x[1] for x in e.log]), T, 1e-9))
            c.prove('whole steps except the last', [c.eq(x[1], h) for x in e.log[:-1]])
    finally:
        if kind == 'soft':
            g['SOLVER'] = old
    c.prove('the stepper', [isinstance(e.stepper, Stepper), made or e.stepper is own, not made or (len(e.stepper.made) >= 1 and e.stepper.made[0] is e)])


@contract('C19', loops=True)
def rigid(c):
    """rigid bodies: any duration and step size"""
    simulate(c, 'rigid')


@contract('C19', loops=True)
def soft(c):
    """soft bodies: any duration and step size, with a given or a new stepper"""
    simulate(c, 'soft')


@contract('C19')
def rejections(c):
    """durations that are not positive, and (rigid) a missing stepper"""
    kind = c.choice('kind', ['rigid', 'soft'])
    F, e, h, flag, Stepper = setup(c, kind)
    s = e.stepper = Stepper() if kind == 'rigid' else None
    T = -c.abs(c.real('T'))
    keep = dict(e.__dict__)
    f = c.fn(F)
    c.targets.add(F)
    for t, what in ((T, 'negative or zero'), (0, 'zero')):
        c.expect_raise('duration ' + what, f, e, t, exc=ValueError)
    if kind == 'rigid':
        e.stepper = None
        c.expect_raise('no stepper', f, e, h, exc=ValueError)
        e.stepper = s
    c.prove('nothing changes', [not e.log, keep == e.__dict__, c.eq(e.params.time_step, h)])


@contract('C19')
def log(c):
    """the log of the stepper is returned"""
    kind = c.choice('kind', [RIGID, SOFT])
    e = Obj()
    e.stepper = Obj()
    e.stepper.log = [1]
    c.prove('log', c.call(kind + 'api.get_log', e) is e.stepper.log)
