"""C31: scene builders (rainbow/simulators/prox_rigid_bodies/scenes/create_*.py)"""
import numpy as onp
from pv.check import contract
S = 'rainbow.simulators.prox_rigid_bodies.scenes.'
A = 'rainbow.simulators.prox_rigid_bodies.api.'
T = 'rainbow.simulators.prox_rigid_bodies.types.'
Q = 'rainbow.math.quaternion.'
M = 'rainbow.geometry.surface_mesh.'
SIZES = 'at most three layers, segments, stones, rows, columns or cells per direction; every real parameter'


class B:
    """one body of a finished scene: pose of the model frame, model space vertices, and what was asked of it"""


class Scene:
    """in symbolic runs the model building interface (contracts of C13, C14) is replaced by one that records what is asked;
    in concrete runs this reads a real engine"""

    def __init__(self, c, e=None):
        self.c, self.bodies, self.shapes, self.hinges, self.n = c, {}, {}, {}, 0
        if not c.sym:
            self.e = e or c.fn(T + 'Engine')()
            self.e.params.resolution = 3
            c.fn(A + 'create_surfaces_interaction')(self.e, 'stone', 'stone', 0.0, onp.ones(3)) if not self.e.surfaces_interactions.exist_material('stone') else None
            return
        self.e = object()
        mesh = c.fn(M + 'Mesh')

        def unique(name):
            self.n += 1
            return '%s#%d' % (name, self.n)

        def known(n):
            c.prove('bodies are made before they are used', n in self.bodies)
            return self.bodies[n]

        def body(e, n):
            c.prove('every body is made once', [e is self.e, n not in self.bodies])
            b = self.bodies[n] = B()
            b.shape = b.r = b.q = b.type = b.material = b.density = None

        def shape(e, n, m, transform_to_body_frame=True):
            c.prove('every shape is made once, from its final geometry', [n not in self.shapes, transform_to_body_frame])
            self.shapes[n] = m.V

        def connect(e, n, s):
            c.prove('shapes are made before they are used', s in self.shapes)
            known(n).shape = s

        def pos(e, n, r, use_model_frame=False):
            b = known(n)
            c.prove('bodies are placed after getting a shape', b.shape is not None)
            b.r, b.model_r = r + 0, use_model_frame

        def rot(e, n, q, use_model_frame=False):
            b = known(n)
            c.prove('bodies are turned after getting a shape', b.shape is not None)
            b.q, b.model_q = q + 0, use_model_frame

        def kind(e, n, t):
            known(n).type = t

        def material(e, n, t):
            known(n).material = t

        def mass(e, n, rho):
            c.prove('mass is set after the shape', known(n).shape is not None)
            known(n).density = rho

        def mk(e, n):
            c.prove('every hinge is made once', n not in self.hinges)
            self.hinges[n] = None

        def hinge(engine=None, hinge_name=None, parent_name=None, child_name=None, origin=None, axis=None, mode='world'):
            c.prove('hinges are set in world coordinates', [hinge_name in self.hinges, mode == 'world', parent_name in self.bodies, child_name in self.bodies])
            self.hinges[hinge_name] = (parent_name, child_name, origin, axis)
        for k, f in dict(generate_unique_name=unique, create_mesh=lambda V, F: mesh(V, F), create_rigid_body=body, create_shape=shape, connect_shape=connect,
                         set_position=pos, set_orientation=rot, set_body_type=kind, set_body_material=material, set_mass_properties=mass,
                         create_hinge=mk, set_hinge=hinge, get_position=lambda e, n: known(n).r + 0).items():
            c.replace(A + k, f)

    def build(self, f, *args, **kw):
        """calls the builder; the new bodies, in the order of the names returned"""
        c = self.c
        before = set(self.bodies) if c.sym else set(self.e.bodies)
        names = c.fn(S + f + '.' + f)(self.e, *args, **kw)
        c.targets.add(S + f + '.' + f)
        if not c.sym:
            self.read()
        made = [n for n in self.bodies if n not in before]
        if f == 'create_ground':
            names = made
        c.prove('the names of exactly the bodies made are returned', [type(names) is list, all(isinstance(n, str) for n in names)] +
                ([len(names) == len(made), set(names) == set(made)] if all(isinstance(n, str) for n in names) else []))
        return [self.bodies[n] for n in names if isinstance(n, str)], names

    def read(self):
        c = self.c
        prod, conj = c.fn(Q + 'prod'), c.fn(Q + 'conjugate')
        rotate = c.fn(Q + 'rotate')
        self.bodies, self.hinges, self.shapes = {}, {}, {}
        for n, s in self.e.shapes.items():
            self.shapes[n] = onp.array([rotate(s.q, v) + s.r for v in s.mesh.V])
        for n, b in self.e.bodies.items():
            o = self.bodies[n] = B()
            s = b.shape
            o.shape = s.name if s is not None else None
            o.q = prod(b.q, conj(s.q))
            o.r = b.r - rotate(o.q, s.r)
            o.model_r = o.model_q = True
            o.com, o.quat = b.r, b.q
            o.type, o.material = 'fixed' if b.is_fixed else 'free', b.material
            o.density = b.mass / s.mass
        for n, h in self.e.hinges.items():
            o = rotate(h.parent.q, h.arm_p) + h.parent.r
            self.hinges[n] = (h.parent.name, h.child.name, o, rotate(h.parent.q, h.axis_p))

    def vertices(self, b):
        c = self.c
        return [c.mv(c.quat_matrix(b.q), v) + b.r for v in self.shapes[b.shape]]


def near(c, x, y, tol=1e-6):
    return c.eq(x, y) if c.sym else bool(onp.abs(onp.asarray(x, float) - onp.asarray(y, float)).max() <= tol)


def asked(c, sc, bodies, density, material, fixed=()):
    for i, b in enumerate(bodies):
        c.prove('every body has a shape, a pose, and the material and density asked for',
                [b.shape is not None, b.r is not None, b.q is not None, b.material == material] + ([near(c, b.density, density)] if b.density is not None else [False]))
        c.prove('free, unless the scene pins it', b.type == ('fixed' if i in fixed else 'free'))


def heights(c, sc, bodies, n, tops, base=0):
    """the bodies 0..n-1 rest on each other: stone i fills tops[i-1]..tops[i]"""
    for i, b in enumerate(bodies[:n]):
        lo, hi = (base if i == 0 else tops[i - 1]), tops[i]
        y = [v[1] for v in sc.vertices(b)]
        if c.sym:
            c.prove('stones rest on each other', [c.or_(c.eq(v, lo), c.eq(v, hi)) for v in y] + [c.or_(*[c.eq(v, lo) for v in y]), c.or_(*[c.eq(v, hi) for v in y])])
        else:
            c.prove('stones rest on each other', [near(c, min(y), lo), near(c, max(y), hi)])


@contract('C31', bounded=SIZES, concrete=8)
def box_stack(c):
    w, h, d, rho = c.positive('w'), c.positive('h'), c.positive('d'), c.positive('rho')
    n = c.choice('n', [0, 1, 2, 3])
    sc = Scene(c)
    bodies, names = sc.build('create_box_stack', w, h, d, n, rho, 'stone')
    c.prove('as many boxes as asked', len(bodies) == n)
    asked(c, sc, bodies, rho, 'stone')
    heights(c, sc, bodies, n, [(k + 1) * h for k in range(n)])
    for b in bodies:
        V = sc.vertices(b)
        c.prove('boxes stand on the axis of the stack', near(c, c.array([sum(v[k] for v in V) for k in (0, 2)]), c.array([0, 0])))
        U = sc.shapes[b.shape]
        for k, e in enumerate((w, h, d)):
            X = [u[k] for u in U]
            c.prove('boxes have the size asked for', [c.or_(near(c, x * 2, e), near(c, x * 2, -e)) for x in X] + [c.or_(*[near(c, x * 2, s * e) for x in X]) for s in (1, -1)])


@contract('C31', bounded=SIZES, concrete=8)
def hinge_chain(c):
    """cubes in a row, each hinged to the next on their common edge line"""
    a, rho = c.positive('a'), c.positive('rho')
    n = c.choice('n', [1, 2, 3, 4])
    sc = Scene(c)
    bodies, names = sc.build('create_cube_hinge_chain', a, n, rho, 'stone')
    asked(c, sc, bodies, rho, 'stone', fixed=(0,))
    c.prove('as many cubes as asked, one hinge between neighbours', [len(bodies) == n, len(sc.hinges) == n - 1])
    for i in range(n - 1):
        h = [x for x in sc.hinges.values() if x is not None and set(x[:2]) == {names[i], names[i + 1]}]
        c.prove('neighbours share one hinge', len(h) == 1)
        for p, q, o, s in h[:1]:
            c.prove('the hinge lies half way and turns about z', [near(c, o * 2, bodies[i].r + bodies[i + 1].r), near(c, s, c.array([0, 0, 1]))])
            c.prove('neighbours do not touch', (bodies[i + 1].r - bodies[i].r)[0] > c.sqrt(2) * a)
    if n:
        c.prove('centred', near(c, bodies[0].r + bodies[-1].r, c.array([0, 0, 0])))


PLACED = {
    'create_ground': lambda c, k: (),
    'create_arch': lambda c, k: (k['w'], k['w'] / 2 + k['h'], k['d'], c.choice('piers', [1, 2]), c.choice('stones', [3, 5])),
    'create_pillar': lambda c, k: (k['w'], k['h'], k['d'], c.choice('stones', [1, 2])),
    'create_dome': lambda c, k: (k['w'] + k['d'], k['w'], c.choice('layers', [1, 2]), c.choice('segments', [3, 4])),
    'create_tower': lambda c, k: (k['w'] + k['d'], k['w'], k['h'], c.choice('layers', [1, 2]), c.choice('segments', [3, 4]), c.boolean('cubes')),
    'create_pantheon': lambda c, k: (k['w'] + k['d'], k['w'], k['w'] + k['d'] + k['h'], 1, 3),
    'create_colosseum': lambda c, k: (k['w'] + k['d'], k['w'], 20 * k['h'] + 9 * k['w'], 1, 3),
    'create_lattice': None,
}


def args_of(c, f, sc, k):
    if f == 'create_lattice':
        P, F = c.fn(M + 'create_box')(1, 1, 1)
        c.fn(A + 'create_shape')(sc.e, 'cell', c.fn(A + 'create_mesh')(P, F)) if 'cell' not in (sc.shapes if c.sym else sc.e.shapes) else None
        return (['cell'], k['w'], k['h'], k['d'], c.choice('I', [1, 2]), 1, c.choice('K', [1, 2]))
    return PLACED[f](c, k)


def moved(f):
    def check(c):
        """the scene built at a placement is the scene built at the origin, carried by the placement"""
        if not c.sym:
            sizes = dict(w=c.real('w', 0.5, 3, special=False), h=c.real('h', 0.5, 3, special=False), d=c.real('d', 0.5, 3, special=False))
            c.requires(all(v > 0.2 for v in sizes.values()))
        else:
            sizes = {n: c.positive(n) for n in 'whd'}
        rho = c.positive('rho')
        r, q = c.vec('r'), c.unit_quat('q')
        sc = Scene(c)
        a = args_of(c, f, sc, sizes)
        extra = dict(use_random_orientation=False) if f == 'create_lattice' else {}
        ref, _ = sc.build(f, c.array([0, 0, 0]), c.array([1, 0, 0, 0]), *a, rho, 'stone', **extra)
        at = {id(b): (b.r, b.q, [v for v in sc.shapes[b.shape]]) for b in ref}
        got, _ = sc.build(f, r, q, *a, rho, 'stone', **extra)
        c.prove('as many bodies', len(got) == len(ref))
        asked(c, sc, got, rho, 'stone', fixed=(0,) if f == 'create_ground' else ())
        for b, o in zip(got, ref):
            r0, q0, V0 = at[id(o)]
            c.prove('carried by the placement', near(c, b.r, c.mv(c.quat_matrix(q), r0) + r))
            R, W = c.quat_matrix(b.q), c.mm(c.quat_matrix(q), c.quat_matrix(q0))
            c.prove('turned by the placement', near(c, R, W))
            V = sc.shapes[b.shape]
            if not c.sym:
                c.prove('same geometry', [len(V) == len(V0), near(c, onp.array(sorted(map(tuple, onp.round(V, 6)))), onp.array(sorted(map(tuple, onp.round(onp.array(V0), 6)))), 1e-5)])
            elif V is not sc.shapes[o.shape]:
                c.prove('same geometry', [len(V) == len(V0)] + [near(c, x, y) for x, y in zip(V, V0)])
    check.__name__ = 'placement_' + f[7:]
    return contract('C31', bounded=SIZES, concrete=3, paths=64)(check)


for f in PLACED:
    globals()['placement_' + f[7:]] = moved(f)


@contract('C31', bounded=SIZES, concrete=6)
def masonry(c):
    """tower layers and piers, and the stones of pillars, rest on each other and fill the height asked for"""
    w, h, d, rho = (c.real(n, 0.5, 3, special=False) if not c.sym else c.positive(n) for n in ('w', 'h', 'd', 'rho'))
    if not c.sym:
        c.requires(min(w, h, d, rho) > 0.2)
    what = c.choice('what', ['tower', 'arch', 'pillar'])
    n = c.choice('n', [1, 2, 3])
    r0, q0 = c.array([0, 0, 0]), c.array([1, 0, 0, 0])
    sc = Scene(c)
    if what == 'tower':
        m = c.choice('m', [3, 4])
        bodies, _ = sc.build('create_tower', r0, q0, w + d, w, h, n, m, c.boolean('cubes'), rho, 'stone')
        c.prove('as many bricks as asked', len(bodies) == n * m)
        for k in range(m):
            heights(c, sc, bodies[k::m], n, [(i + 1) * h / n for i in range(n)])
        for i, b in enumerate([] if c.sym else bodies):
            V = onp.array(sc.vertices(b))
            mid = V.mean(axis=0) * [1, 0, 1]
            e = mid / onp.linalg.norm(mid)
            u, t = V @ e, V @ onp.cross(e, [0, 1, 0])
            c.prove('bricks lie between the two radii, within their sector', [near(c, u.min(), w), near(c, u.max(), w + d), bool((onp.abs(t) < onp.tan(onp.pi / m) * u).all())])
            turn = (onp.arctan2(-e[2], e[0]) - onp.pi / 2) / (2 * onp.pi / m) - (0.5 if i // m % 2 == 0 else 0) - i % m
            c.prove('layers are staggered by half a brick', near(c, turn - m * onp.round(turn / m), 0))
    elif what == 'arch':
        H = h + w / 2
        bodies, names = sc.build('create_arch', r0, q0, w, H, d, n, 3, rho, 'stone')
        c.prove('as many stones as asked', len(bodies) == 2 * n + 3)
        tops = [(i + 1) * h / n for i in range(n)]
        left = [b for b, s in zip(bodies, names) if s.startswith('left')]
        right = [b for b, s in zip(bodies, names) if s.startswith('right')]
        c.prove('as many stones on either side', [len(left) == n, len(right) == n])
        heights(c, sc, left, n, tops)
        heights(c, sc, right, n, tops)
        for side, X in ((left, (-w / 2, -w / 2 + w / 5)), (right, (w / 2 - w / 5, w / 2))):
            for b in side:
                x = [v[0] for v in sc.vertices(b)]
                c.prove('piers stand at the ends of the arch', [c.or_(near(c, v, X[0]), near(c, v, X[1])) for v in x])
        if not c.sym:
            meet(c, sc, bodies[2 * n:], h)
    else:
        bodies, names = sc.build('create_pillar', r0, q0, w, h, d, n, rho, 'stone')
        c.prove('as many stones as asked', len(bodies) == n + 4)
        part = lambda s: [b for b, x in zip(bodies, names) if x.startswith(s)]
        order = part('socle') + part('base') + part('shaft') + part('echinus') + part('abacus')
        base, top = h / 15, h / 20
        cap, cup = base * 0.9, base * 0.7
        start, end = base + cap, h - top - cup
        heights(c, sc, order, n + 4, [base, start] + [start + (i + 1) * (end - start) / n for i in range(n)] + [h - top, h])


def meet(c, sc, stones, base):
    """the upper face of each arch stone is the lower face of the next; the outer two stand on the piers"""
    key = lambda V: sorted(tuple(onp.round(v, 5) + 0.0) for v in V)
    sets = [sc.vertices(b) for b in stones]
    for U, V in zip(sets, sets[1:]):
        common = [u for u in U if min(onp.abs(u - v).max() for v in V) < 1e-6]
        c.prove('neighbouring stones share a face', len(common) == 4)
    for V in (sets[0], sets[-1]):
        c.prove('the arch stands on its piers', [sum(abs(v[1] - base) < 1e-6 for v in V) == 4, min(v[1] for v in V) > base - 1e-6])


@contract('C31', concrete_only=True, bounded='sampled sizes', concrete=6)
def dome_stones(c):
    """bricks fill their wedge: neighbours in a layer share a face, layers share edges, radii are those asked for"""
    ri = c.real('ri', 0.5, 3, special=False)
    t = c.real('t', 0.2, 1, special=False)
    c.requires(ri > 0.3 and t > 0.1)
    L, m = c.choice('L', [1, 2, 3]), c.choice('m', [3, 5])
    sc = Scene(c)
    bodies, _ = sc.build('create_dome', onp.zeros(3), onp.array([1.0, 0, 0, 0]), ri + t, ri, L, m, 1.0, 'stone')
    c.prove('as many bricks as asked', len(bodies) == L * m)
    sets = [onp.array(sc.vertices(b)) for b in bodies]
    for V in sets:
        R = onp.linalg.norm(V, axis=1)
        c.prove('between the two radii', [sum(abs(R - ri) < 1e-6) == 4, sum(abs(R - ri - t) < 1e-6) == 4])
    shared = lambda U, V: sum(onp.abs(u - V).max(axis=1).min() < 1e-6 for u in U)
    for l in range(L):
        for k in range(m):
            c.prove('neighbours share a face', shared(sets[l * m + k], sets[l * m + (k + 1) % m]) == 4)
            if l:
                c.prove('layers rest on each other', shared(sets[(l - 1) * m + k], sets[l * m + k]) == 4)
    c.prove('the lowest layer stands on the ground', abs(min(V[:, 1].min() for V in sets)) < 1e-6)


@contract('C31', bounded=SIZES, concrete=6)
def lattice(c):
    """bodies at the centres of the cells; shapes in turn; the orientation asked for"""
    w, h, d, rho = (c.positive(n) for n in ('w', 'h', 'd', 'rho'))
    I, J, K = c.choice('I', [1, 2, 3]), c.choice('J', [1, 2]), c.choice('K', [1, 2])
    r, q = c.vec('r'), c.unit_quat('q')
    qb = c.unit_quat('qb') if c.boolean('orientation given') else None
    sc = Scene(c)
    P, F = c.fn(M + 'create_box')(1, 1, 1)
    for s in ('s0', 's1'):
        c.fn(A + 'create_shape')(sc.e, s, c.fn(A + 'create_mesh')(P + c.array([0.5, 0.25, 0.75]), F))
    bodies, _ = sc.build('create_lattice', r, q, ['s0', 's1'], w, h, d, I, J, K, rho, 'stone', False, qb)
    asked(c, sc, bodies, rho, 'stone')
    c.prove('one body per cell', len(bodies) == I * J * K)
    cells = [(i, j, k) for i in range(I) for j in range(J) for k in range(K)]
    for b, (i, j, k) in zip(bodies, cells):
        x = c.array([(i + 0.5) * w / I, (j + 0.5) * h / J, (k + 0.5) * d / K])
        pos, quat = (b.r, b.q) if c.sym else (b.com, b.quat)
        c.prove('at the centre of the cell', near(c, pos, c.mv(c.quat_matrix(q), x) + r))
        if c.sym:
            c.prove('the centre of mass is at the centre of the cell', not b.model_r)
        R = c.quat_matrix(q) if qb is None else c.mm(c.quat_matrix(q), c.quat_matrix(qb))
        c.prove('orientation as given', near(c, c.quat_matrix(quat), R))
        c.prove('shapes in turn', b.shape == 's%d' % ((i + j + k) % 2))


@contract('C31', bounded=SIZES, concrete=6)
def chainmail(c):
    """rings on the nodes of a square net, linking rings on its edges, pinned exactly at the four corners"""
    R, r = c.real('R', 1, 3, special=False), c.real('r', 0.1, 0.3, special=False)
    c.requires([R > 2 * r, r > 0] if c.sym else R > 3 * r and r > 0.05)
    n, m = c.choice('columns', [1, 2]), c.choice('rows', [1, 2])
    s, rho, pinned = c.real('s', 0, 1), c.positive('rho'), c.boolean('pinned')
    c.requires([s >= 0, s <= 1] if c.sym else 0 <= s <= 1)
    sc = Scene(c)
    if c.sym:
        c.replace(M + 'create_torus', lambda R, r, **k: (c.array([[R, r, 0]]), 'F'))
    bodies, _ = sc.build('create_chainmail', R, r, n, m, s, rho, 'stone', pinned)
    nodes = (n + 1) * (m + 1)
    c.prove('a ring per node and per edge', len(bodies) == nodes + n * (m + 1) + (n + 1) * m)
    delta = 2 * R + (2 * R - 4 * r) * s
    corner = []
    for i, b in enumerate(bodies):
        x, y, z = b.r
        atc = c.and_(*[near(c, abs(v) if not c.sym else v * v, e if not c.sym else e * e) for v, e in ((x, n * delta / 2), (z, m * delta / 2))], i < nodes)
        corner.append(atc)
        c.prove('the net is flat', near(c, y, 0))
        c.prove('pinned exactly at the corners', c.iff(b.type == 'fixed', c.and_(atc, pinned)))
        c.prove('material and density as asked for', [b.material == 'stone', near(c, b.density, rho)])
    for i in range(n * (m + 1)):
        j, k = divmod(i, n)
        a, b2, l = bodies[j * (n + 1) + k], bodies[j * (n + 1) + k + 1], bodies[nodes + i]
        c.prove('links half way between their rings', near(c, l.r * 2, a.r + b2.r))
        c.prove('rings at the distance asked for', near(c, c.dot(a.r - b2.r, a.r - b2.r), delta * delta))
    for i in range((n + 1) * m):
        a, b2, l = bodies[i], bodies[i + n + 1], bodies[nodes + n * (m + 1) + i]
        c.prove('links half way between their rings', near(c, l.r * 2, a.r + b2.r))
        c.prove('rings at the distance asked for', near(c, c.dot(a.r - b2.r, a.r - b2.r), delta * delta))


# ---------------------------------------------------------------------------------------------- gears
G = S + 'create_gear_train.GearFactory.'


@contract('C31')
def gears_mesh(c):
    """pitch circles touch in the direction asked for and the teeth of one gear meet the gaps of the other there"""
    m, Z1, Z2 = c.positive('m'), c.positive('Z1', 3, 40), c.positive('Z2', 3, 40)
    cx, cy, theta, omega = c.real('cx'), c.real('cy'), c.angle('theta'), c.angle('omega')
    spec = lambda Z: {'pitch radius': m * Z / 2, 'module': m, 'pressure angle': 20, 'number of teeth': Z}
    x, y, phi = c.call(G + 'make_gears_assembly', spec(Z1), spec(Z2), cx, cy, theta, omega)
    D = m * (Z1 + Z2) / 2
    c.prove('pitch circles touch', near(c, c.array([x - cx, y - cy]), c.array([c.cos(omega) * D, c.sin(omega) * D])))
    # arc lengths along the pitch circles from the point of contact to the start of a tooth
    c.prove('teeth meet gaps', near(c, Z1 * (theta - omega) + Z2 * (phi - omega - c.pi), 0, 1e-6))
    s = spec(Z2)
    s[c.choice('mismatch', ['module', 'pressure angle'])] = 7
    c.requires(c.not_(c.eq(m, 7)))
    c.expect_raise('gears of different make do not mesh', c.fn(G + 'make_gears_assembly'), spec(Z1), s, cx, cy, theta, omega, exc=ValueError)


@contract('C31', concrete_only=True, bounded='12 points per flank (sampled sizes)')
def gear_profile(c):
    """involute flanks between the base and tip circle; closed, outward mesh of the face width asked for"""
    Z = c.choice('Z', [7, 8, 12, 15, 20, 28])
    m, alpha, fw = c.choice('m', [1.0, 0.5, 2.0]), c.choice('alpha', [20.0, 14.5]), c.real('fw', 0.5, 4, special=False)
    c.requires(fw > 0.2)
    g = c.call(G + 'make_gear_specs', m, Z, alpha)
    c.prove('dimensions', [near(c, g['pitch radius'], m * Z / 2), near(c, g['top radius'], m * Z / 2 + m), near(c, g['root radius'], m * Z / 2 - 1.25 * m),
                           near(c, g['base radius'], m * Z / 2 * onp.cos(onp.radians(alpha))), near(c, g['tooth thickness'] * 2 * Z, 2 * onp.pi * g['pitch radius'])])
    R = onp.hypot(g['x'], g['y'])
    c.prove('between root and tip circle', [R.max() < g['top radius'] + 1e-9, R.min() > g['root radius'] - 1e-9])
    P = onp.stack([g['x'], g['y']])
    rot = onp.array([[onp.cos(2 * onp.pi / Z), -onp.sin(2 * onp.pi / Z)], [onp.sin(2 * onp.pi / Z), onp.cos(2 * onp.pi / Z)]])
    c.prove('every tooth is the same', near(c, rot @ P[:, :-len(R) // Z], P[:, len(R) // Z:]))
    # thickness at the pitch circle: flank starting at angle 0, other flank at pi/Z
    tooth = P[:, :len(R) // Z]
    ang = lambda k: onp.interp(g['pitch radius'], *zip(*sorted(zip(onp.hypot(*tooth[:, k]), onp.arctan2(*tooth[::-1, k])))))
    c.prove('teeth are as wide as gaps at the pitch circle', [abs(ang(slice(0, 12))) < 0.01, abs(ang(slice(16, 28)) - onp.pi / Z) < 0.01])
    V, F = c.call(G + 'make_gear_mesh', g, fw)
    E = {}
    for t in F:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            E[a, b] = E.get((a, b), 0) + 1
    c.prove('closed and consistently oriented', all(n == 1 and E.get((b, a)) == 1 for (a, b), n in E.items()))
    vol = onp.einsum('ij,ij->i', V[F[:, 0]], onp.cross(V[F[:, 1]], V[F[:, 2]])).sum() / 6
    x, y = g['x'], g['y']
    area = (x * onp.roll(y, -1) - y * onp.roll(x, -1)).sum() / 2
    c.prove('outward, of the face width asked for', [vol > 0, near(c, vol, area * fw), near(c, V[:, 2].max(), fw / 2), near(c, V[:, 2].min(), -fw / 2)])


@contract('C31', bounded='at most three gears', concrete=3)
def gear_train(c):
    """neighbouring gears mesh and every gear turns about its own axis on the ground"""
    n = c.choice('n', [1, 2, 3])
    rho = c.positive('rho')
    sc = Scene(c)
    if c.sym:
        Zs = c.choice('Z', [[7, 28, 12], [15, 15, 7]])[:n]
        c.stubs['random.choice'] = lambda numbers, size=None: Zs
        c.stubs['random.uniform'] = lambda a, b: c.fresh('omega')
        last = [(0, 0, 0)]

        def assembly(a, b, x, y, theta, omega):
            # contract gears_mesh: the driven gear ends up a pitch radius away, in the direction asked for
            c.prove('gears mesh with the gear placed before', [near(c, u, v) for u, v in zip((x, y, theta), last[-1])] + [b is specs[len(last)], a is specs[len(last) - 1]])
            w, phi = c.angle('om%d' % len(last)), c.angle('phi%d' % len(last))
            D = a['pitch radius'] + b['pitch radius']
            last.append((x + c.cos(w) * D, y + c.sin(w) * D, phi))
            return last[-1]
        c.replace(G + 'make_gears_assembly', assembly)
        specs = []
        c.replace(G + 'make_gear_specs', lambda m=1, Z=12, alpha=20: (specs.append({'pitch radius': m * Z / 2, 'module': m, 'pressure angle': alpha, 'number of teeth': Z}), specs[-1])[1])
        c.replace(G + 'make_gear_mesh', lambda g, face_width=1: (c.array([[g['pitch radius'], 0, 0]]), 'F'))
        radius = lambda b: sc.shapes[b.shape][0][0]
    else:
        onp.random.seed(c.choice('seed', range(50)))
        rad = {}
        for Z in (7, 12, 15, 28):
            g = c.fn(G + 'make_gear_specs')(m=1.0, Z=Z, alpha=20)
            rad[round(float(onp.hypot(g['x'], g['y']).max()), 3)] = Z / 2
        radius = lambda b: rad[round(float(onp.linalg.norm(sc.shapes[b.shape][:, :2], axis=1).max()), 3)]
    bodies, names = sc.build('create_gear_train', n, rho, 'stone')
    if c.sym:
        for (x, y, phi), b in zip(last, bodies):
            c.prove('gears are turned as they mesh', [near(c, b.r[0], x), near(c, b.r[2], -y), near(c, c.mv(c.quat_matrix(b.q), c.array([1, 0, 0])), c.array([c.cos(phi), 0, -c.sin(phi)]))])
    c.prove('all gears and the ground', len(bodies) == n + 1)
    asked(c, sc, bodies, rho, 'stone', fixed=(n,))
    axis = lambda b: c.mv(c.quat_matrix(b.q), c.array([0, 0, 1]))
    for a, b in zip(bodies[:n], bodies[1:n]):
        D, x = b.r - a.r, axis(a)
        c.prove('parallel axes', near(c, axis(b), x))
        across = D - x * c.dot(D, x)
        if not c.sym:
            # (x, -z) are the coordinates in the plane of the gears
            angle = lambda v: onp.arctan2(-v[2], v[0])
            face = lambda g: angle(c.mv(c.quat_matrix(g.q), c.array([1, 0, 0])))
            om = angle(D)
            k = (2 * radius(a) * (face(a) - om) + 2 * radius(b) * (face(b) - om - onp.pi)) / (2 * onp.pi)
            c.prove('teeth meet gaps', abs(k - round(k)) < 1e-4)
        c.prove('pitch circles touch', near(c, c.dot(across, across), (radius(a) + radius(b)) ** 2, 1e-4))
    for k in range(n):
        h = [x for x in sc.hinges.values() if x is not None and names[k] in x[:2]]
        c.prove('one hinge per gear, to the ground', [len(h) == 1] + [set(x[:2]) == {names[k], names[n]} for x in h])
        for p, q, o, s in h[:1]:
            b = bodies[k]
            D = o - b.r
            c.prove('gears turn about their own axis', [near(c, c.cross(s, axis(b)), c.array([0, 0, 0])), near(c, c.cross(D, axis(b)), c.array([0, 0, 0]), 1e-2)])


# ---------------------------------------------------------------------------------------------- mixed scenes

def names_of(f):
    def check(c):
        """every body is named, has a shape, a pose, and the material and density asked for"""
        rho = c.positive('rho')
        w, h, d = (c.positive(n) if c.sym else 1.0 + c.choice(n, [0.0, 0.5, 2.0]) for n in 'whd')
        sc = Scene(c)
        I, J, K = c.choice('I', [1, 2]), 1, c.choice('K', [1, 2])
        if c.sym:
            box = c.array([[0, 0, 0], [2, 1, 3]])
            c.stubs['igl.read_triangle_mesh'] = lambda *a, **k: (box + 0, 'F')
            c.replace(M + 'create_convex_hull', lambda pts: (box + 0, 'F'))
            c.replace(M + 'create_cylinder', lambda r, h, *a: (box + 0, 'F'))
            c.replace('rainbow.math.vector3.rand', lambda lo, hi: c.array([lo, hi, lo]))
            c.replace(Q + 'rand', lambda: c.array([0.6, 0.8, 0, 0]))
        args = {'create_sandbox': (w, h, d, I, J, K, rho, 'stone'), 'create_poles': (h, w / 10, I, K, w, h, d, I, J, K, rho, 'stone'),
                'create_funnel': (h, w, w, h, d, I, J, K, rho, 'stone'), 'create_glasses': (h, w, w, h, d, I, J, K, rho, 'stone'),
                'create_jack_lattice': (c.array([0, 0, 0]), c.array([1, 0, 0, 0]), w, h, d, I, J, K, rho, 'stone'),
                'create_rock_slide': (w, h, d, I, J, K, rho, 'stone'),
                'create_temple': (3 + I, 4, w, h, d, 1, rho, 'stone')}[f]
        if c.sym:
            bodies, names = sc.build(f, *args)
        else:
            # stands in for the data files the scenes read
            import igl
            real, mesh = igl.read_triangle_mesh, c.fn(M + 'create_box')(1.0, 2.0, 1.5)
            igl.read_triangle_mesh = lambda *a, **k: mesh
            try:
                bodies, names = sc.build(f, *args)
            finally:
                igl.read_triangle_mesh = real
        for b in bodies:
            c.prove('every body has a shape, a pose, and the material and density asked for',
                    [b.shape is not None, b.r is not None, b.q is not None, b.material == 'stone', near(c, b.density, rho)])
        fixed = sum(b.type == 'fixed' for b in bodies)
        want = {'create_sandbox': 5, 'create_poles': I * K, 'create_funnel': 1, 'create_glasses': 1, 'create_jack_lattice': 0, 'create_rock_slide': 1}.get(f, fixed)
        c.prove('exactly the containers and obstacles are fixed', [fixed == want] + [b.type in ('fixed', 'free') for b in bodies])
        loose = {'create_rock_slide': 20 + I * J * K}.get(f, I * J * K)
        if f != 'create_temple':
            c.prove('one loose body per cell', len(bodies) - fixed == loose)
    check.__name__ = 'names_' + f[7:]
    return contract('C31', bounded=SIZES, concrete=1, paths=64, concrete_budget=60)(check)


for f in ('create_sandbox', 'create_poles', 'create_funnel', 'create_glasses', 'create_jack_lattice', 'create_rock_slide', 'create_temple'):
    globals()['names_' + f[7:]] = names_of(f)


# ---------------------------------------------------------------------------------------------- any number of bodies

class Growing:
    """an arbitrary iteration of loops that make bodies and append their names: one scene record per iteration"""

    def __init__(self, c, f):
        self.c, self.f, self.sc = c, S + f + '.' + f, Scene(c)
        self.at, self.list, self.number = {}, None, {}
        c.targets.add(self.f)

    def names(self, N):
        L = self.c.sequence(N, self.earlier)
        self.added = []
        added = self.added
        L.append = lambda x: added.append(x)
        self.list, self.N = L, N
        return L

    def earlier(self, k):
        """the body made by an earlier iteration"""
        name = 'earlier#%d' % len(self.sc.bodies)
        self.number[name] = k
        b = self.sc.bodies[name] = B()
        b.shape, b.r, b.q, b.type, b.material, b.density, b.model_r, b.model_q = 'earlier', self.c.vec('r'), None, None, None, None, True, True
        return name

    def making(self, ordinal, key, made, per, base, modifies=()):
        """loop `ordinal` makes `per` bodies per iteration, base(k) names are in the list before iteration k; made(*bodies) states what they are"""
        c, sc = self.c, self.sc

        def havoc(e, k):
            self.at[key] = k
            sc.bodies = {}
            return {'body_names': self.names(base(k))}

        def inv(e, k):
            if c.phase == 'entry':
                L = e.body_names
                return [c.eq(L.N if hasattr(L, 'N') else len(L), base(k))]
            if c.phase == 'preserved' and made is not None:
                bodies = [b for n, b in sc.bodies.items() if not n.startswith('earlier')]
                c.prove('every iteration makes its bodies and lists their names', [len(bodies) == per, self.added == [n for n in sc.bodies if not n.startswith('earlier')], e.body_names is self.list])
                made(*bodies)
            return [True]
        c.invariant(self.f, ordinal, inv, havoc, modifies=('body_names',) + modifies)

    def finishing(self, ordinal, rho, modifies=()):
        """loop `ordinal` visits every name and makes the body free, of the material and density"""
        c, sc = self.c, self.sc

        def havoc(e, k):
            sc.bodies = {}
            e.body_names.cache = {}
            return None

        def inv(e, k):
            if c.phase == 'preserved':
                c.prove('every body gets what was asked for', [len(sc.bodies) == 1] + [x for b in sc.bodies.values() for x in
                        (b.type == 'free', b.material == 'stone', b.density is not None and near(c, b.density, rho))])
            return [True]
        c.invariant(self.f, ordinal, inv, havoc, modifies=('body_names',) + modifies)

    def call(self, *args, **kw):
        return self.c.fn(self.f)(self.sc.e, *args, **kw)


@contract('C31', loops=True, concrete=4)
def box_stack_any(c):
    """any number of boxes: box k stands centred on the axis, from k to k + 1 box heights"""
    if not c.unbounded_sizes:
        return box_stack(c)
    w, h, d, rho = c.positive('w'), c.positive('h'), c.positive('d'), c.positive('rho')
    n = c.size('n', 0, 3)
    g = Growing(c, 'create_box_stack')

    def made(b):
        k = g.at['k']
        asked(c, g.sc, [b], rho, 'stone')
        c.prove('box k stands on box k - 1', [near(c, b.r, c.array([0, h / 2 + k * h, 0])), b.model_r, b.model_q])
        R = c.quat_matrix(b.q)
        c.prove('upright', near(c, [R[1][0], R[1][1], R[1][2]], [0, 1, 0]))
    g.making(1, 'k', made, 1, lambda k: k)
    names = g.call(w, h, d, n, rho, 'stone')
    c.prove('the names of all of them', [names is g.list, c.eq(names.N, n), len(g.added) == 0])


def turn(c, axis, half):
    """rotation matrix about a coordinate axis by twice the angle"""
    C, Z = c.cos(half), c.sin(half)
    q = [C, 0, 0, 0]
    q['xyz'.index(axis) + 1] = Z
    return c.quat_matrix(c.array(q))


def stands(c, b, r, q, R, p):
    """body at the local pose (R, p), carried by the placement (r, q)"""
    W = c.quat_matrix(q)
    c.prove('in its place', [near(c, b.r, c.mv(W, p) + r), b.model_r, b.model_q])
    c.prove('turned as needed', near(c, c.quat_matrix(b.q), c.mm(W, R)))


@contract('C31', loops=True, concrete=4)
def tower_any(c):
    """any number of layers and segments: brick (l, s) of layer l at angle s (layers staggered by half a brick)"""
    if not c.unbounded_sizes:
        return placement_tower(c)
    ro, ri, h, rho = c.positive('ro'), c.positive('ri'), c.positive('h'), c.positive('rho')
    r, q = c.vec('r'), c.unit_quat('q')
    n, m = c.size('n', 1, 3), c.size('m', 3, 5)
    c.requires([n >= 1, m >= 3])
    cubes = c.boolean('cubes')
    g = Growing(c, 'create_tower')

    def made(b):
        l, s = g.at['l'], g.at['s']
        phi = 2 * c.pi / m * s
        if c.eq(l % 2, 0):
            phi = phi + 2 * c.pi / m / 2
        R = turn(c, 'y', phi / 2)
        stands(c, b, r, q, R, c.mv(R, c.array([0, h / n / 2 + l * (h / n), -(ro + ri) / 2])))
        c.prove('the brick', b.shape in g.sc.shapes)
    g.making(1, 'l', None, 1, lambda l: l * m)
    g.making(2, 's', made, 1, lambda s: g.at['l'] * m + s)
    g.finishing(3, rho)
    names = g.call(r, q, ro, ri, h, n, m, cubes, rho, 'stone')
    c.prove('the names of all of them', [names is g.list, c.eq(names.N, n * m)])


@contract('C31', loops=True, concrete=4)
def lattice_any(c):
    """any number of cells"""
    if not c.unbounded_sizes:
        return lattice(c)
    w, h, d, rho = (c.positive(n) for n in ('w', 'h', 'd', 'rho'))
    I, J, K = c.size('I', 1, 3), c.size('J', 1, 3), c.size('K', 1, 3)
    c.requires([I >= 1, J >= 1, K >= 1])
    r, q = c.vec('r'), c.unit_quat('q')
    qb = c.unit_quat('qb') if c.boolean('orientation given') else None
    g = Growing(c, 'create_lattice')
    g.sc.shapes['s0'] = g.sc.shapes['s1'] = object()

    def made(b):
        i, j, k = (g.at[x] for x in 'ijk')
        x = c.array([i * (w / I) + w / I / 2, j * (h / J) + h / J / 2, k * (d / K) + d / K / 2])
        W = c.quat_matrix(q)
        c.prove('the centre of mass is at the centre of the cell', [near(c, b.r, c.mv(W, x) + r), not b.model_r, not b.model_q])
        c.prove('orientation as given', near(c, c.quat_matrix(b.q), W if qb is None else c.mm(W, c.quat_matrix(qb))))
        c.prove('shapes in turn', c.eq((i + j + k) % 2, {'s0': 0, 's1': 1}[b.shape]))
    g.making(1, 'i', None, 1, lambda i: i * J * K)
    g.making(2, 'j', None, 1, lambda j: g.at['i'] * J * K + j * K)
    g.making(3, 'k', made, 1, lambda k: g.at['i'] * J * K + g.at['j'] * K + k)
    g.finishing(4, rho)
    names = g.call(r, q, ['s0', 's1'], w, h, d, I, J, K, rho, 'stone', False, qb)
    c.prove('the names of all of them', [names is g.list, c.eq(names.N, I * J * K)])


@contract('C31', loops=True, concrete=4)
def dome_any(c):
    """any number of layers and segments: the bricks of a layer are one wedge turned about the axis"""
    if not c.unbounded_sizes:
        return placement_dome(c)
    ro, ri, rho = c.positive('ro'), c.positive('ri'), c.positive('rho')
    r, q = c.vec('r'), c.unit_quat('q')
    n, m = c.size('n', 1, 3), c.size('m', 3, 5)
    c.requires([n >= 1, m >= 3])
    g = Growing(c, 'create_dome')
    corners = []
    c.replace(M + 'create_cuboid', lambda *p: corners.append(p) or (c.array([list(x) for x in p]), 'F'))

    def made(b):
        l, s = g.at['l'], g.at['s']
        stands(c, b, r, q, turn(c, 'y', 2 * c.pi / m * s / 2), c.array([0, 0, 0]))
        dt, dp = 2 * c.pi / m, c.pi / 2 / (n + 1)
        V = g.sc.shapes[b.shape]
        phi = dp * l
        R0 = c.mm(turn(c, 'y', 0 * dt), turn(c, 'z', phi / 2)), c.mm(turn(c, 'y', dt / 2), turn(c, 'z', phi / 2))
        R1 = c.mm(turn(c, 'y', 0 * dt), turn(c, 'z', (phi + dp) / 2)), c.mm(turn(c, 'y', dt / 2), turn(c, 'z', (phi + dp) / 2))
        want = [(R0[0], ro), (R0[1], ro), (R1[1], ro), (R1[0], ro), (R0[0], ri), (R0[1], ri), (R1[1], ri), (R1[0], ri)]
        c.prove('the wedge of its layer', [len(V) == 8] + [near(c, v, c.mv(W, c.array([x, 0, 0]))) for v, (W, x) in zip(V, want)])

    g.making(1, 'l', None, 1, lambda l: l * m)
    g.making(2, 's', made, 1, lambda s: g.at['l'] * m + s, modifies=('mesh',))
    g.finishing(3, rho)
    names = g.call(r, q, ro, ri, n, m, rho, 'stone')
    c.prove('the names of all of them', [names is g.list, c.eq(names.N, n * m)])


@contract('C31', loops=True, concrete=4)
def arch_any(c):
    """any number of stones: piers on either side, then the stones of the half circle on them"""
    if not c.unbounded_sizes:
        return placement_arch(c)
    w, h, d, rho = (c.positive(n) for n in ('w', 'h', 'd', 'rho'))
    r, q = c.vec('r'), c.unit_quat('q')
    n, m = c.size('n', 1, 3), c.size('m', 3, 5)
    c.requires([n >= 1, m >= 3, c.eq(m % 2, 1)])
    g = Growing(c, 'create_arch')
    one = c.quat_matrix(c.array([1, 0, 0, 0]))

    def piers(a, b):
        k = g.at['p']
        y = h / n / 2 + k * (h / n)
        for x, s in ((a, -1), (b, 1)):
            stands(c, x, r, q, one, c.array([s * (w / 2 - w / 10), y, 0]))

    def stone(b):
        R = turn(c, 'z', (c.pi / m / 2 + g.at['s'] * (c.pi / m)) / 2)
        p = c.mv(R, c.array([w / 2 - w / 10, 0, d / 2]))
        stands(c, b, r, q, R, p + c.array([0, h, 0]))
    g.making(1, 'p', piers, 2, lambda k: 2 * k)
    g.making(2, 's', stone, 1, lambda k: 2 * n + k)
    g.finishing(3, rho)
    names = g.call(r, q, w, h + w / 2, d, n, m, rho, 'stone')
    c.prove('the names of all of them', [names is g.list, c.eq(names.N, 2 * n + m)])


@contract('C31', loops=True, concrete=4)
def pillar_any(c):
    """any number of stones: the shaft is cut into equal layers between the lower and the upper cap"""
    if not c.unbounded_sizes:
        return placement_pillar(c)
    w, h, d, rho = (c.positive(n) for n in ('w', 'h', 'd', 'rho'))
    r, q = c.vec('r'), c.unit_quat('q')
    n = c.size('n', 1, 3)
    c.requires(n >= 1)
    g = Growing(c, 'create_pillar')
    cone = []
    c.replace(M + 'create_conical', lambda a, b, e: cone.append((a, b, e)) or (c.array([[a, b, e]]), 'F'))
    one = c.quat_matrix(c.array([1, 0, 0, 0]))
    low, high = h / 15 * (1 + c.const('0.9')), h - h / 20 - h / 15 * c.const('0.7')
    wide = w / 2 * c.const('0.9')
    step = (high - low) / n

    def stone(b):
        k = g.at['k']
        stands(c, b, r, q, one, c.array([0, low + k * step, 0]))
        at = lambda x: wide * c.const('0.7') + (wide * c.const('0.5') - wide * c.const('0.7')) * x / n
        c.prove('a slice of the tapering shaft', [near(c, x, y) for x, y in zip(g.sc.shapes[b.shape][0], (at(k), at(k + 1), step))])
    g.making(1, 'k', stone, 1, lambda k: 4 + k, modifies=('mesh',))
    g.finishing(2, rho)
    names = g.call(r, q, w, h, d, n, rho, 'stone')
    c.prove('the names of all of them', [names is g.list, c.eq(names.N, n + 4)])


@contract('C31', loops=True, concrete=4)
def chainmail_any(c):
    """any number of rows and columns"""
    if not c.unbounded_sizes:
        return chainmail(c)
    R, r, s, rho, pinned = c.positive('R'), c.positive('r'), c.real('s', 0, 1), c.positive('rho'), c.boolean('pinned')
    n, m = c.size('columns', 1, 3), c.size('rows', 1, 3)
    c.requires([R > 2 * r, s >= 0, s <= 1, n >= 1, m >= 1])
    g = Growing(c, 'create_chainmail')
    c.replace(M + 'create_torus', lambda R, r, **k: (c.array([[R, r, 0]]), 'F'))
    D = 2 * R + (2 * R - 4 * r) * s
    def ring(what, x, y):
        def made(b):
            i, j = g.at[what + 'i'] + x, g.at[what + 'j'] + y
            c.prove('on its place in the flat net', near(c, b.r, c.array([i * D - n * D / 2, 0, m * D / 2 - j * D])))
        return made
    nodes, across = (n + 1) * (m + 1), n * (m + 1)
    half = c.const('0.5')
    for q, (what, x, y, base, wide) in enumerate((('a', 0, 0, 0, n + 1), ('b', half, 0, nodes, n), ('c', 0, half, nodes + across, n + 1))):
        g.making(2 * q + 1, what + 'j', None, 1, lambda j, base=base, wide=wide: base + j * wide, modifies=('mesh',))
        g.making(2 * q + 2, what + 'i', ring(what, x, y), 1, lambda i, base=base, wide=wide, what=what: base + g.at[what + 'j'] * wide + i, modifies=('mesh',))
    g.finishing(7, rho, modifies=('mesh',))
    names = g.call(R, r, n, m, s, rho, 'stone', pinned)
    c.prove('the names of all of them', [names is g.list, c.eq(names.N, nodes + across + (n + 1) * m)])
    fixed = [g.number[x] for x, b in g.sc.bodies.items() if b.type == 'fixed']
    corners = [0, n, m * (n + 1), m * (n + 1) + n]
    if pinned:
        c.prove('the four corners are pinned', [len(fixed) == 4] + [c.or_(*[c.eq(x, y) for y in corners]) for x in fixed] + [c.or_(*[c.eq(x, y) for x in fixed]) for y in corners])
    else:
        c.prove('nothing is pinned', len(fixed) == 0)


@contract('C31', loops=True, concrete=4)
def hinge_chain_any(c):
    """any number of cubes: evenly spaced and centred, the first one fixed, a hinge half way between neighbours"""
    if not c.unbounded_sizes:
        return hinge_chain(c)
    a, rho = c.positive('a'), c.positive('rho')
    n = c.size('n', 1, 4)
    c.requires(n >= 1)
    g = Growing(c, 'create_cube_hinge_chain')
    sc, f = g.sc, g.f
    D = c.sqrt(2 * a * a) * (1 + c.const('0.05'))

    def made(b):
        k = g.at['k']
        asked(c, sc, [b], rho, 'stone')
        c.prove('spaced', near(c, b.r, c.array([(k - (n - 1) / c.const('2')) * D, 0, 0])))
        c.prove('on edge', near(c, c.quat_matrix(b.q), turn(c, 'z', c.pi / 8)))
    g.making(1, 'k', made, 1, lambda k: k)
    st = {}

    def havoc(e, k):
        st['k'], st['fixed'] = k, [g.number[x] for x, b in sc.bodies.items() if b.type == 'fixed']
        sc.hinges = {}

    def inv(e, k):
        if c.phase == 'preserved':
            j = st['k']
            c.prove('one hinge between neighbours', len(sc.hinges) == 1)
            for p, q, o, s in sc.hinges.values():
                x, y = sc.bodies[p], sc.bodies[q]
                c.prove('of neighbours', [c.eq(g.number[p], j), c.eq(g.number[q], j + 1)])
                c.prove('half way, about z', [near(c, o * 2, x.r + y.r), near(c, s, c.array([0, 0, 1]))])
        return [True]
    c.invariant(f, 2, inv, havoc, modifies=('body_names',))
    names = g.call(a, n, rho, 'stone')
    c.prove('the names of all of them, the first one fixed', [names is g.list, c.eq(names.N, n), len(st['fixed']) == 1] + [c.eq(x, 0) for x in st['fixed']])
