"""C30: importing robots (rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py)"""
import os
import shutil
import tempfile
import numpy as onp
from pv.check import contract
U = 'rainbow.simulators.prox_rigid_bodies.scenes.read_urdf.'
X = 'rainbow.math.coordsys.'
A = 'rainbow.simulators.prox_rigid_bodies.api.'
T = 'rainbow.simulators.prox_rigid_bodies.types.'


# ---------------------------------------------------------------------------------------------- frames and numbers
def text(x):
    return ' '.join(repr(float(v)) for v in x)


@contract('C30')
def convert_frame(c):
    """roll about x, then pitch about y, then yaw about z (fixed axes), and the translation as written"""
    rpy, xyz = [c.angle('roll'), c.angle('pitch'), c.angle('yaw')], c.vec('xyz')
    has = (c.boolean('rpy given'), c.boolean('xyz given'))
    words = {'rpy': rpy, 'xyz': list(xyz)}
    if c.sym:
        c.replace(U + 'URDF._read_numbers_from_string', lambda s: words[s])
        frame = {k: k for k, h in zip(('rpy', 'xyz'), has) if h}
    else:
        frame = {k: text(words[k]) for k, h in zip(('rpy', 'xyz'), has) if h}
    t, q = c.call(U + 'URDF._convert_frame', frame)
    if not has[0]:
        rpy = [0, 0, 0]
    s, k = [c.sin(a) for a in rpy], [c.cos(a) for a in rpy]
    Rx = c.array([[1, 0, 0], [0, k[0], -s[0]], [0, s[0], k[0]]])
    Ry = c.array([[k[1], 0, s[1]], [0, 1, 0], [-s[1], 0, k[1]]])
    Rz = c.array([[k[2], -s[2], 0], [s[2], k[2], 0], [0, 0, 1]])
    c.prove('translation', c.eq(t, c.array(list(xyz) if has[1] else [0, 0, 0])))
    c.prove('unit quaternion', c.eq(c.dot(q, q), 1))
    c.prove('yaw after pitch after roll', c.eq(c.quat_matrix(q), c.mm(Rz, c.mm(Ry, Rx))))


@contract('C30')
def numbers(c):
    """mass and inertia entries, each defaulting to zero"""
    names = ['ixx', 'iyy', 'izz', 'ixy', 'ixz', 'iyz']
    v = [c.real('v%d' % i, -3, 3) for i in range(6)]
    missing = c.choice('missing', [None] + names)
    m = c.real('m', 0, 9)
    given = c.boolean('mass given')
    if c.sym:
        c.mod(U[:-1]).float = lambda s: s
        c.prove('mass', c.eq(c.call(U + 'URDF._convert_mass', {'value': m} if given else {}), m if given else 0))
        out = c.call(U + 'URDF._convert_inertia_tensor', {k: x for k, x in zip(names, v) if k != missing})
    else:
        c.prove('mass', c.eq(c.call(U + 'URDF._convert_mass', {'value': repr(m)} if given else {}), m if given else 0))
        out = c.call(U + 'URDF._convert_inertia_tensor', {k: repr(x) for k, x in zip(names, v) if k != missing})
    c.prove('moments first, then products', [len(out) == 6] + [c.eq(o, 0 if k == missing else x) for o, k, x in zip(out, names, v)])


@contract('C30', concrete_only=True, bounded='sampled numbers and separators')
def number_text(c):
    n = c.choice('n', range(5))
    x = [c.real('x%d' % i, -1e3, 1e3) for i in range(n)]
    sep = c.choice('sep', [' ', '   ', '\t', '\n '])
    c.prove('every number, in order', list(c.call(U + 'URDF._read_numbers_from_string', sep + sep.join(repr(v) for v in x) + sep)) == x)


# ---------------------------------------------------------------------------------------------- one link
def link(c, n, V, F, scale, collision, inertial, mass, moments):
    return {'name': n, 'visual': None, 'inertial': {'origin': inertial, 'mass': mass, 'inertia': list(moments) + [0.0, 0.0, 0.0]},
            'collision': None if collision is None else {'shape': 'mesh', 'origin': collision, 'filename': 'f', 'scale': scale, 'vertices': V, 'faces': F}}


def joint(n, parent, child, origin, axis, kind='revolute'):
    return {'name': n, 'type': kind, 'parent': parent, 'child': child, 'origin': origin, 'axis': axis, 'limit': {}}


class Rec:
    """stands for the model building interface (its contracts are those of C13, C14): records what is asked"""

    def __init__(self, c):
        self.shapes, self.bodies, self.pos, self.rot, self.hinge, self.made, self.conn = {}, {}, {}, {}, {}, [], {}
        self.log = []

        class Body:
            pass

        def body(e, n):
            c.prove('every body is made once', n not in self.bodies)
            self.bodies[n] = e.bodies[n] = Body()

        def shape(e, n, mesh, transform_to_body_frame=True):
            c.prove('the body frame is the one of the file', [transform_to_body_frame is False, n not in self.shapes])
            self.shapes[n] = mesh

        def connect(e, b, s):
            c.prove('shape and body exist', [b in self.bodies, s in self.shapes, b not in self.conn])
            self.conn[b] = s

        def pos(e, n, r, use_model_frame=False):
            c.prove('placed in the world', [n in self.bodies, use_model_frame is False])
            self.pos[n] = r

        def rot(e, n, q, use_model_frame=False):
            c.prove('oriented in the world', [n in self.bodies, use_model_frame is False])
            self.rot[n] = q

        def mk(e, n):
            c.prove('every hinge is made once', n not in self.made)
            self.made.append(n)

        def hinge(e, n, p, b, o, s, mode='world'):
            c.prove('hinges are set once, in world coordinates, after placing both bodies',
                    [n in self.made, n not in self.hinge, mode == 'world'] + [x in d for x in (p, b) for d in (self.pos, self.rot)])
            self.hinge[n] = (p, b, o, s)
        for k, f in dict(create_rigid_body=body, create_shape=shape, connect_shape=connect, set_position=pos, set_orientation=rot,
                         create_hinge=mk, set_hinge=hinge, create_mesh=lambda V, F: (V, F)).items():
            c.replace(A + k, f)


class Fake:
    def __init__(self):
        self.bodies = {}


def inverse_map(c, r, q, x):
    return c.mv(c.transpose(c.quat_matrix(q)), x - r)


@contract('C30', loops=True)
def link_geometry(c):
    """any mesh: its vertices, scaled and placed by the collision frame, in the inertial frame of the link"""
    if c.sym and not c.unbounded_sizes:
        return c.requires(False)
    rc, qc, ri, qi = c.vec('rc'), c.unit_quat('qc'), c.vec('ri'), c.unit_quat('qi')
    if c.boolean('frames coincide'):
        ri, qi = rc + 0, qc + 0
    scale = [c.positive('sx'), c.positive('sy'), c.positive('sz')]
    m, I = c.positive('m'), c.vec('I', lo=0.1)
    if c.sym:
        N = c.size('N', 1, 3)
        V = c.table('V', N, 3)
        F = object()
        V0 = c.table('V', N, 3)
        rec = Rec(c)
        e = Fake()
        q = U + 'read_urdf'

        def want(v):
            s = c.array([v[k] * scale[k] for k in range(3)])
            return inverse_map(c, ri, qi, rc + c.mv(c.quat_matrix(qc), s)), s
        i = c.index('i', N)
        placed, scaled = want(V0[i])

        def havoc(env, k):
            env.V.assign(c.table('W', N, 3))

        def inv(env, k):
            return c.eq(env.V[i], placed) if i < k else c.eq(env.V[i], scaled)
        c.invariant(q, 2, inv, havoc, modifies=('V', 'v'))
        c.replace(U + 'URDF.parse_urdf_file', lambda package_folder, urdf_file_path: ('r', [link(c, 'a', V, F, scale, (rc, qc), (ri, qi), m, I)], []))
        c.call(q, e, 'folder', 'file', mutates=(0,))
        c.prove('one body with one shape', [set(e.bodies) == {'a'}, set(rec.conn) == {'a'}, len(rec.shapes) == 1])
        W, T_ = rec.shapes[rec.conn['a']]
        c.prove('faces as in the file', T_ is F)
        c.prove('vertices scaled and placed in the inertial frame', c.eq(W[i], placed))
        c.prove('the mesh of the file is kept', c.eq(V[i], V0[i]))
        c.prove('mass and moments of the file', [c.eq(e.bodies['a'].mass, m), c.eq(e.bodies['a'].inertia, I)])
        c.prove('the root stands at its inertial frame', [c.eq(rec.pos['a'], ri), c.eq(rec.rot['a'], qi)])
        return
    end_to_end(c)


# ---------------------------------------------------------------------------------------------- the mechanism
class Word:
    """a rigid frame as a reduced word over the frames given (the group laws of frames are those of C03)"""

    def __init__(self, g, letters):
        self.g = g
        out = []
        for a in letters:
            if out and out[-1][0] is a[0] and out[-1][1] == -a[1]:
                out.pop()
            else:
                out.append(a)
        self.letters = tuple(out)

    def key(self):
        return tuple((id(a), s) for a, s in self.letters)

    @property
    def r(self):
        return self.g.value('r', self.key(), 3)

    @property
    def q(self):
        return self.g.value('q', self.key(), 4)


class Frames:
    def __init__(self, c):
        self.c, self.values, self.known, self.keep = c, {}, {}, []
        for k, f in dict(make=self.make, concat=self.concat, make_coordsys_from_to=self.between, inverse=self.inverse, CoordSys=self.make,
                         xform_point=lambda F, x: self.mapped('p', F, x), xform_vector=lambda F, x: self.mapped('v', F, x)).items():
            c.replace(X + k, f)

    def value(self, kind, key, n):
        if not key:
            return self.c.array([0, 0, 0] if n == 3 else [1, 0, 0, 0])
        if (kind, key) not in self.values:
            self.values[kind, key] = self.c.vec('%s%d' % (kind, len(self.values)), n)
        return self.values[kind, key] + 0

    def letter(self, name):
        r, q = self.c.vec('r' + name), self.c.vec('q' + name, 4)
        w = Word(self, [(r, 1)])
        self.values['r', w.key()], self.values['q', w.key()] = r, q
        self.known[id(r)] = (r, q, w)
        return r, q

    def make(self, r=None, q=None):
        if r is None:
            return Word(self, [])
        self.c.prove('frames of the file are used as given', [id(r) in self.known, self.known.get(id(r), (0, 0))[1] is q])
        return self.known[id(r)][2]

    def concat(self, A, B):
        return Word(self, A.letters + B.letters)

    def inverse(self, A):
        return Word(self, [(a, -s) for a, s in reversed(A.letters)])

    def between(self, A, B):
        return self.concat(self.inverse(B), A)

    def mapped(self, kind, F, x):
        x = list(x)
        if all(str(v) in ('0', '0.0') for v in x):
            return F.r if kind == 'p' else self.c.array([0, 0, 0])
        return self.value(kind, F.key() + tuple(str(v) for v in x), 3)


def trees(n):
    """every order in which parents can be listed: parent of link k (in the order of the joints) among those before or after it"""
    import itertools
    out = []
    for p in itertools.product(range(n), repeat=n - 1):      # p[k-1]: parent of link k (link 0 is the root)
        ok = True
        for k in range(1, n):
            seen, a = set(), k
            while a and a not in seen:
                seen.add(a)
                a = p[a - 1]
            ok = ok and a == 0 and 0 not in seen
        if ok:
            out.append((0,) + p)
    return out


@contract('C30', bounded='robots of at most five links, every tree and every order of links', paths=700)
def mechanism(c):
    """any frames: bodies are placed along the joints, hinges are set in the frame of their joint"""
    if not c.sym:
        return end_to_end(c)
    n = c.choice('links', [1, 2, 3, 4, 5])
    parent = c.choice('tree', trees(n))
    first = c.choice('root listed', sorted({0, n // 2, n - 1}))                 # the root may be listed anywhere
    g = Frames(c)
    rec = Rec(c)
    frame = [g.letter('I%d' % k) for k in range(n)]
    origin = [None] + [g.letter('J%d' % k) for k in range(1, n)]
    axis = [None] + [c.vec('s%d' % k) for k in range(1, n)]
    V, F = c.mat('V', 1, 3), c.array([[0, 0, 0]])
    links = [link(c, 'L%d' % k, V, F, [1, 1, 1], frame[k], frame[k], 1, [1, 1, 1]) for k in range(n)]
    virtual = link(c, 'v', None, None, None, None, frame[0], 0, [0, 0, 0])
    order = links[1:1 + first] + [links[0]] + links[1 + first:] + [virtual]
    joints = [joint('j%d' % k, 'L%d' % parent[k], 'L%d' % k, origin[k], axis[k]) for k in range(1, n)]
    joints.insert(min(1, n - 1), joint('f', 'L0', 'v', frame[0], frame[0][0], kind='fixed'))
    c.replace(U + 'URDF.parse_urdf_file', lambda package_folder, urdf_file_path: ('r', order, joints))
    e = Fake()
    c.call(U + 'read_urdf', e, 'folder', 'file', mutates=(0,))
    names = {'L%d' % k for k in range(n)}
    c.prove('a body for every link with geometry', [set(e.bodies) == names, set(rec.conn) == names, set(rec.pos) == names, set(rec.rot) == names])
    c.prove('a hinge for every revolute joint', [set(rec.hinge) == {'j%d' % k for k in range(1, n)}, set(rec.made) == set(rec.hinge)])

    def world(k):
        return Word(g, []) if k == 0 else g.concat(world(parent[k]), g.known[id(origin[k][0])][2])
    for k in range(n):
        w = g.concat(world(k), g.known[id(frame[k][0])][2])
        c.prove('pose of every body', [c.eq(rec.pos['L%d' % k], w.r), c.eq(rec.rot['L%d' % k], w.q)])
        if k:
            p, b, o, s = rec.hinge['j%d' % k]
            c.prove('hinges join parent and child', [p == 'L%d' % parent[k], b == 'L%d' % k])
            c.prove('hinge point and axis', [c.eq(o, world(k).r), c.eq(s, g.mapped('v', world(k), axis[k]))])


# ---------------------------------------------------------------------------------------------- files
BOX = [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]]
FACES = [[0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4], [2, 3, 7], [2, 7, 6], [1, 2, 6], [1, 6, 5], [3, 0, 4], [3, 4, 7]]


def rot(rpy):
    (a, b, g), s, k = rpy, onp.sin(rpy), onp.cos(rpy)
    Rx = onp.array([[1, 0, 0], [0, k[0], -s[0]], [0, s[0], k[0]]])
    Ry = onp.array([[k[1], 0, s[1]], [0, 1, 0], [-s[1], 0, k[1]]])
    Rz = onp.array([[k[2], -s[2], 0], [s[2], k[2], 0], [0, 0, 1]])
    return Rz @ Ry @ Rx


def hom(rpy, xyz):
    M = onp.eye(4)
    M[:3, :3], M[:3, 3] = rot(rpy), xyz
    return M


def end_to_end(c):
    """robots written to files and imported into a real engine"""
    n = c.choice('links', [1, 2, 3, 4, 5, 6, 7])
    parent = [0] + [c.choice('parent %d' % k, range(k)) for k in range(1, n)]
    flip = c.boolean('listed backwards')

    def frame(name):
        kind = c.choice(name + ' kind', ['both', 'rpy', 'xyz', 'none'])
        rpy = onp.array([c.real(name + 'abc'[i], -3, 3) for i in range(3)]) if kind in ('both', 'rpy') else onp.zeros(3)
        xyz = onp.array([c.real(name + 'xyz'[i], -2, 2) for i in range(3)]) if kind in ('both', 'xyz') else onp.zeros(3)
        tag = {'both': '<origin rpy="%s" xyz="%s"/>' % (text(rpy), text(xyz)), 'rpy': '<origin rpy="%s"/>' % text(rpy),
               'xyz': '<origin xyz="%s"/>' % text(xyz), 'none': ''}[kind]
        return hom(rpy, xyz), tag
    folder = tempfile.mkdtemp(prefix='pv_urdf_')
    try:
        P = onp.array(BOX, float) * [0.5, 0.75, 1.0] + [0.125, 0.0, -0.25]
        with open(os.path.join(folder, 'box.obj'), 'w') as f:
            f.write(''.join('v %s\n' % text(v) for v in P) + ''.join('f %d %d %d\n' % tuple(i + 1 for i in t) for t in FACES))
        links, joints, I, G, J, ax, sc, mass, mom = [], [], [], [], [None], [None], [], [], []
        for k in range(n):
            Mi, ti = frame('I%d' % k)
            Mg, tg = frame('G%d' % k)
            if c.boolean('same %d' % k):
                Mg, tg = Mi, ti
            s = onp.array([c.choice('s%d%d' % (k, i), [1.0, 0.5, 2.0]) for i in range(3)])
            m, d = c.real('m%d' % k, 0.5, 4), [c.real('d%d%d' % (k, i), 0.5, 4) for i in range(3)]
            path = c.choice('path %d' % k, ['package://box.obj', os.path.join(folder, 'box.obj')])
            st = '' if onp.all(s == 1) and c.boolean('no scale %d' % k) else ' scale="%s"' % text(s)
            links.append('<link name="L%d"><visual><geometry><box size="1 1 1"/></geometry></visual><inertial>%s<mass value="%r"/><inertia ixx="%r" iyy="%r" izz="%r"/></inertial>'
                         '<collision>%s<geometry><mesh filename="%s"%s/></geometry></collision></link>' % (k, ti, m, d[0], d[1], d[2], tg, path, st))
            I.append(Mi), G.append(Mg), sc.append(s), mass.append(m), mom.append(d)
            if k:
                Mj, tj = frame('J%d' % k)
                a = onp.array([c.real('a%d%d' % (k, i), -1, 1) for i in range(3)])
                c.requires(bool(onp.linalg.norm(a) > 0.2))
                at = '<axis xyz="%s"/>' % text(a)
                if c.boolean('default axis %d' % k):
                    a, at = onp.array([1.0, 0, 0]), ''
                joints.append('<joint name="j%d" type="revolute"><parent link="L%d"/><child link="L%d"/>%s%s</joint>' % (k, parent[k], k, tj, at))
                J.append(Mj), ax.append(a / onp.linalg.norm(a))
        links.append('<link name="virtual"/>')
        links.append('<link name="ball"><collision><geometry><sphere radius="1"/></geometry></collision></link>')
        joints.append('<joint name="fix" type="fixed"><parent link="L0"/><child link="virtual"/></joint>')
        if flip:
            links.reverse(), joints.reverse()
        with open(os.path.join(folder, 'r.urdf'), 'w') as f:
            f.write('<robot name="r">' + ''.join(links) + ''.join(joints) + '</robot>')
        e = c.fn(T + 'Engine')()
        e.params.resolution = 4
        c.fn(U + 'read_urdf')(e, folder, c.choice('url', ['r.urdf', '/r.urdf']))
        c.targets.add(U + 'read_urdf')
        for f in ('parse_urdf_file', '_parse_geometry_tag', '_parse_inertial_tag', '_convert_frame'):
            c.targets.add(U + 'URDF.' + f)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    c.prove('a body for every link with geometry', set(e.bodies) == {'L%d' % k for k in range(n)})
    c.prove('a hinge for every revolute joint', set(e.hinges) == {'j%d' % k for k in range(1, n)})
    world = [onp.eye(4)]
    for k in range(1, n):
        world.append(world[parent[k]] @ J[k])
    qm = c.fn('rainbow.math.quaternion.to_matrix')
    near = lambda a, b: bool(onp.abs(onp.asarray(a) - onp.asarray(b)).max() < 1e-6)
    for k in range(n):
        b, B = e.bodies['L%d' % k], world[k] @ I[k]
        c.prove('pose of every body', [near(b.r, B[:3, 3]), near(qm(b.q), B[:3, :3])])
        c.prove('mass and moments', [near(b.mass, mass[k]), near(b.inertia, mom[k])])
        W = (world[k] @ G[k] @ onp.hstack([P * sc[k], onp.ones((8, 1))]).T)[:3].T
        S = b.shape.mesh.V @ B[:3, :3].T + B[:3, 3]
        D = onp.abs(W[:, None] - S[None]).max(axis=2)
        to = D.argmin(axis=1)
        c.prove('the geometry of the body lies where the file puts it', [len(S) == 8, len(set(to)) == 8, bool(D.min(axis=1).max() < 1e-6)])
        cyc = lambda F: sorted(min(tuple(t[i:]) + tuple(t[:i]) for i in range(3)) for t in map(list, F))
        c.prove('faces as in the file', cyc(b.shape.mesh.T) == cyc(to[onp.array(FACES)]))
        if k:
            h, Pb = e.hinges['j%d' % k], e.bodies['L%d' % parent[k]]
            o, s = world[k][:3, 3], world[k][:3, :3] @ ax[k]
            for d, arm, axis in ((Pb, h.arm_p, h.axis_p), (b, h.arm_c, h.axis_c)):
                c.prove('hinge point', near(qm(d.q) @ arm + d.r, o))
                c.prove('hinge axis', near(qm(d.q) @ axis, s))
