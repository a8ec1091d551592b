"""C20: forward kinematics, chains, joint angles and derivatives (rainbow/simulators/inverse_kinematics)"""
from pv.check import contract
A = 'rainbow.simulators.inverse_kinematics.api.'
T = 'rainbow.simulators.inverse_kinematics.types.'
CODES = ['XZX', 'XYX', 'YXY', 'YZY', 'ZYZ', 'ZXZ', 'XZY', 'XYZ', 'YXZ', 'YZX', 'ZYX', 'ZXY']
AXIS = {'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1)}


class Obj:
    pass


def about(c, code, angle):
    """oracle: unit quaternion of the rotation about a coordinate axis"""
    s = c.sin(angle / 2)
    return c.array([c.cos(angle / 2)] + [x * s for x in AXIS[code]])


def joint(c, b):
    q = [about(c, b.euler_code[i], x) for i, x in enumerate((b.alpha, b.beta, b.gamma))]
    return c.hamilton(q[0], c.hamilton(q[1], q[2]))


def rot(c, q, v):
    return c.mv(c.quat_matrix(q), v)


def new_bone(c, i, code=None):
    b = c.fn(T + 'Bone')()
    b.idx = i
    b.alpha, b.beta, b.gamma = c.real('alpha%s' % i, -4, 4), c.real('beta%s' % i, -4, 4), c.real('gamma%s' % i, -4, 4)
    b.euler_code = c.choice('code%s' % i, CODES) if code is None else code
    b.t = c.vec('t%s' % i, lo=-2, hi=2)
    return b


def tree(c, n, codes=True):
    """a skeleton with n bones: any tree, any conventions, any offsets and angles; the world poses stale"""
    s = c.fn(T + 'Skeleton')()
    for i in range(n):
        b = new_bone(c, i, None if codes else 'ZYZ')
        if i:
            b.parent = c.choice('parent%d' % i, range(i))
            s.bones[b.parent].children.append(i)
        b.t_wcs, b.q_wcs = c.vec('stale%d' % i), c.unit_quat('sq%d' % i)
        s.bones.append(b)
    return s


def poses(c, s):
    """oracle: world poses of the bones"""
    P = []
    for b in s.bones:
        tp, qp = P[b.parent] if b.parent >= 0 else (c.array([0, 0, 0]), c.array([1, 0, 0, 0]))
        P.append((tp + rot(c, qp, b.t), c.hamilton(qp, joint(c, b))))
    return P


def path(s, i):
    out = [i]
    while s.bones[out[0]].parent != -1:
        out.insert(0, s.bones[out[0]].parent)
    return out


def fields(b, *but):
    return {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in b.__dict__.items() if k not in but}


def agree(c, now, old):
    return [set(now) == set(old)] + [c.eq(now[k], v) if hasattr(v, 'shape') else now[k] == v if isinstance(v, (str, list)) or v is None else c.eq(now[k], v) for k, v in old.items() if k in now]


def same_pose(c, b, P):
    return [c.eq(b.t_wcs, P[0]), c.eq(c.quat_matrix(b.q_wcs), c.quat_matrix(P[1]))]


# ---- forward kinematics ------------------------------------------------------------------------------------
def whole_update(c):
    s = tree(c, c.choice('n', [1, 2, 3, 5]))
    old = [fields(b, 't_wcs', 'q_wcs') for b in s.bones]
    c.call(A + 'update_skeleton', s, mutates=(0,))
    for b, P, o in zip(s.bones, poses(c, s), old):
        c.prove('the pose is the composition of the parent frame with the offset and the joint rotation', same_pose(c, b, P))
        c.prove('nothing but the pose changes', agree(c, fields(b, 't_wcs', 'q_wcs'), o))


@contract('C20', loops=True, budget=120)
def update_bone(c):
    """one bone of any skeleton: world frame = frame of the parent (already updated) composed with offset and joint rotation;
    then every child is updated once, after its parent (recursion against this contract)"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_update(c)
    q = A + '__update_bone'
    f = c.fn(q)
    N = c.size('N', 0)
    b = new_bone(c, '')
    b.idx = c.fresh_int('idx')
    root = c.boolean('root')
    p = c.fn(T + 'Bone')()
    p.t_wcs, p.q_wcs = c.vec('tp'), c.unit_quat('qp')
    b.parent = -1 if root else c.fresh_int('parent')
    if not root:
        c.requires(b.parent >= 0)
    kids = c.function('kid', 1)
    b.children = c.sequence(N, kids)
    s = Obj()
    log = {'n': 0, 'bad': []}

    class Bones:
        def __getitem__(self, i):
            if not root and i is b.parent:
                return p
            d = Obj()
            d.index = i
            return d
    s.bones = Bones()
    pose = (p.t_wcs + rot(c, p.q_wcs, b.t), c.hamilton(p.q_wcs, joint(c, b))) if not root else (b.t, joint(c, b))
    old, oldp = fields(b, 't_wcs', 'q_wcs', 'children'), fields(p)

    def child(d, sk):
        # the pose of this bone is there when a child is visited
        log['bad'] += [sk is s] + same_pose(c, b, pose)
        log['n'] = log['n'] + 1
        log['last'] = d
    c.replace(q, child)

    def h(e, k):
        log['n'] = k
        log['bad'] = []
        log.pop('last', None)

    def inv(e, k):
        out = [c.eq(log['n'], k)]
        if c.phase == 'preserved':
            out += log['bad'] + [isinstance(log.get('last'), Obj) and c.eq(log['last'].index, kids(k - 1))]
        return out
    c.invariant(q, 1, inv, h)
    c.targets.add(q)
    f(b, s)
    c.prove('the pose is the composition of the parent frame with the offset and the joint rotation', same_pose(c, b, pose))
    c.prove('every child is updated once', c.eq(log['n'], N))
    c.prove('nothing but the pose changes', agree(c, fields(b, 't_wcs', 'q_wcs', 'children'), old) + agree(c, fields(p), oldp) + [b.children.__class__.__name__ == 'SymList'])


@contract('C20', loops=True)
def update_starts_at_root(c):
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_update(c)
    s = Obj()
    root = Obj()
    s.bones = c.sequence(c.size('N', 1), lambda k: root if c.eq(k, 0) is True or k == 0 else Obj())
    got = []
    c.replace(A + '__update_bone', lambda *a: got.append(a))
    c.call(A + 'update_skeleton', s, mutates=(0,))
    c.prove('the update starts at the root bone', len(got) == 1 and got[0][0] is root and got[0][1] is s)


@contract('C20')
def axes(c):
    """every convention: the axes and rotations of a bone are those its code names"""
    b = new_bone(c, 0)
    for i, (ang, ax, ro) in enumerate([(b.alpha, b.get_axis_alpha, b.get_rotation_alpha), (b.beta, b.get_axis_beta, b.get_rotation_beta), (b.gamma, b.get_axis_gamma, b.get_rotation_gamma)]):
        want = about(c, b.euler_code[i], ang)
        c.prove('axis', [c.eq(ax(), c.array(AXIS[b.euler_code[i]])), c.eq(b.get_axis(i), c.array(AXIS[b.euler_code[i]]))])
        th = c.real('th%d' % i, -7, 7)
        c.prove('rotation', [c.eq(c.quat_matrix(ro()), c.quat_matrix(want)), c.eq(c.quat_matrix(b.get_rotation(i, th)), c.quat_matrix(about(c, b.euler_code[i], th)))])
    for n in ('get_axis', 'get_rotation', 'get_axis_alpha', 'get_axis_beta', 'get_axis_gamma', 'get_rotation_alpha', 'get_rotation_beta', 'get_rotation_gamma'):
        c.targets.add(T + 'Bone.' + n)


# ---- building, chains, angles ------------------------------------------------------------------------------
class Many:
    """the bones of a skeleton of any size"""
    def __init__(self, c, N, p, parent):
        self.c, self.N, self.p, self.parent, self.added, self.bad = c, N, p, parent, [], []

    def __pv_len__(self):
        return self.N

    def __len__(self):
        return 1 if self.N > 0 else 0

    def append(self, b):
        self.added.append(b)
        self.N = self.N + 1

    def __getitem__(self, i):
        if i is self.p or i == self.p:
            return self.parent
        c = self.c
        if len(self.added) == 1 and c.or_(c.eq(i, -1), c.eq(i, self.N - 1)):
            return self.added[0]
        self.bad.append(i)
        return self.c.fn(T + 'Bone')()


class Kids:
    def __init__(self):
        self.added = []

    def append(self, i):
        self.added.append(i)


def build_any(c):
    n = c.size('N', 0)
    s = c.fn(T + 'Skeleton')()
    p = c.fresh_int('p')
    parent = new_bone(c, 'P', 'ZYZ')
    parent.children = Kids()
    s.bones = B = Many(c, n, p, parent)
    code = c.choice('code', CODES + ['XXY', 'xyz', 'ZYY', 'Z', 'ABC', ''])
    v = [c.real(x, -3, 3) for x in ('alpha', 'beta', 'gamma', 'tx', 'ty', 'tz')]
    as_root = c.boolean('as_root')
    old = fields(parent, 'children')
    valid = c.eq(n, 0) if as_root else c.and_(p >= 0, p < n)
    f, a = (c.fn(A + 'create_root'), (s,)) if as_root else (c.fn(A + 'add_bone'), (s, p))
    kw = {} if code == 'ZYZ' and c.boolean('default') else {'euler_code': code}
    if code not in CODES or not valid:
        c.expect_raise('a second root, a missing parent or an invalid convention is refused', f, *a, *v, code, exc=RuntimeError)
        c.prove('a refused bone changes nothing', [s.bones is B, not B.added, not parent.children.added] + agree(c, fields(parent, 'children'), old))
        return
    b = f(*a, *v, **kw)
    c.prove('the bone is added last', [s.bones is B, len(B.added) == 1 and B.added[0] is b, c.eq(b.idx, n), b.children == [], b.parent == -1 if as_root else c.eq(b.parent, p)])
    c.prove('the bone has the given data', [c.eq(b.alpha, v[0]), c.eq(b.beta, v[1]), c.eq(b.gamma, v[2]), c.eq(b.t, c.array(v[3:])), b.euler_code == code])
    k = parent.children.added
    c.prove('only the parent learns of it', agree(c, fields(parent, 'children'), old) + [not B.bad, not k if as_root else len(k) == 1 and c.eq(k[0], n)])


@contract('C20', loops=True, paths=400)
def building(c):
    """any skeleton: a bone is stored with the given data, under the given parent; refused requests change nothing"""
    c.targets |= {A + 'create_root', A + 'add_bone', A + '__is_valid_euler_code', T + 'Skeleton.has_root', T + 'Skeleton.has_bone'}
    if c.unbounded_sizes:
        return build_any(c)
    if c.sym:
        c.requires(False)
    n = c.choice('n', [0, 1, 2, 4])
    s = tree(c, n, codes=False)
    code = c.choice('code', CODES + ['XXY', 'xyz', 'ZYY', 'Z', 'ABC', ''])
    v = [c.real(x, -3, 3) for x in ('alpha', 'beta', 'gamma', 'tx', 'ty', 'tz')]
    as_root = c.boolean('as_root')
    p = c.choice('p', [-2, -1, 0, 1, 3, 4, 9])
    before, old, bones = list(s.bones), [fields(b) for b in s.bones], s.bones
    bad = code not in CODES or (n > 0 if as_root else not 0 <= p < n)
    f, a = (c.fn(A + 'create_root'), (s,)) if as_root else (c.fn(A + 'add_bone'), (s, p))
    kw = {} if code == 'ZYZ' and c.boolean('default') else {'euler_code': code}
    if bad:
        c.expect_raise('a second root, a missing parent or an invalid convention is refused', f, *a, *v, code, exc=RuntimeError)
        c.prove('a refused bone changes nothing', [len(s.bones) == n] + [x is y for x, y in zip(s.bones, before)] + [q for b, o in zip(s.bones, old) for q in agree(c, fields(b), o)])
        return
    b = f(*a, *v, **kw)
    c.prove('the bone is added last', [len(s.bones) == n + 1, s.bones[-1] is b, b.idx == n, b.children == [], b.parent == (-1 if as_root else p)] + [x is y for x, y in zip(s.bones, before)])
    c.prove('the bone has the given data', [c.eq(b.alpha, v[0]), c.eq(b.beta, v[1]), c.eq(b.gamma, v[2]), c.eq(b.t, c.array(v[3:])), b.euler_code == code])
    for i, (x, o) in enumerate(zip(before, old)):
        if not as_root and i == p:
            o = dict(o, children=o['children'] + [n])
        c.prove('only the parent learns of it', agree(c, fields(x), o))


def whole_chains(c):
    s = tree(c, c.choice('n', [1, 2, 3, 4, 6, 8]), codes=False)
    old = [fields(b) for b in s.bones]
    chains = c.call(A + 'make_chains', s, mutates=(0,))
    leaves = [b.idx for b in s.bones if not b.children]
    c.prove('one chain per end effector', len(chains) == len(leaves))
    for ch, i in zip(chains, leaves):
        c.prove('the chain is the path from the root to the end effector', [list(ch.bones) == path(s, i), ch.skeleton is s, c.eq(ch.tool, c.array([0, 0, 0]))])
    c.prove('the skeleton is not changed', [q for b, o in zip(s.bones, old) for q in agree(c, fields(b), o)])


@contract('C20', loops=True)
def make_chain(c):
    """any skeleton: the chain of a bone starts at the root, ends at the bone, and each entry is the parent of the next"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_chains(c)
    q = A + '__make_chain'
    M = c.size('M', 1)
    pt = c.table('parent', M, (), -1, 5, integer=True)
    par = lambda i: pt[i]

    def bone(i):
        b = c.fn(T + 'Bone')()
        b.idx = i
        b.parent = par(i)
        # parents come before their children
        c.requires([b.parent < i, b.parent >= -1, c.implies(c.eq(b.parent, -1), c.eq(i, 0)), c.implies(c.eq(i, 0), c.eq(b.parent, -1))])
        return b
    s = Obj()

    class Bones:
        def __getitem__(self, i):
            c.prove('the parent exists', [i >= 0, i < M])
            return bone(i)
    s.bones = Bones()
    start = c.index('start', M)
    eff = bone(start)
    st = {}

    class Path:
        """the list of the chain: first, last and number of entries; consecutive ones are checked on the way"""
        def __init__(self):
            self.n, self.first, self.last, self.ok, self.back, self.new = 0, None, None, [], False, 0

        def append(self, i):
            self.ok.append(not self.back)
            self.ok.append(c.eq(i, start) if self.last is None else c.eq(i, par(self.last)))
            if self.first is None:
                self.first = i
            self.last = i
            self.new += 1

        def reverse(self):
            self.back = not self.back

        def __pv_state__(self):
            return (self.new, self.back)
    Chain = c.fn(T + 'Chain')

    def mk():
        ch = Chain()
        ch.bones = Path()
        st['ch'] = ch
        return ch
    c.replace(A + 'Chain', mk)

    def h(e, k):
        P = e.chain.bones
        P.ok, P.new = [], 0
        st['visited'] = None
        if c.boolean('some bones are in the chain'):
            P.first, P.last = start, c.fresh_int('last')
            c.requires([P.last >= 0, P.last < M])
            i = par(P.last)
            c.requires([i >= 0, i < P.last])
        else:
            P.first = P.last = None
            i = start
        return {'bone': bone(i)}

    def inv(e, k):
        P = e.chain.bones
        out = list(P.ok) + [not P.back, e.bone.idx >= 0, e.bone.idx < M]
        if P.last is None:
            return out + [c.eq(e.bone.idx, start)]
        return out + [P.last >= 0, P.last < M, c.eq(e.bone.idx, par(P.last)), c.eq(P.first, start)]
    c.invariant(q, 1, inv, h, modifies=('chain',), variant=lambda e: e.bone.idx)
    r = c.call(q, eff, s, mutates=(0, 1))
    P = r.bones
    c.prove('the chain runs from the root to the end effector along parents', P.ok + [P.back, c.eq(P.first, start), c.eq(P.last, 0)])
    c.prove('the chain knows its skeleton', [r.skeleton is s, r is st['ch']])


@contract('C20', loops=True)
def one_chain_per_leaf(c):
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_chains(c)
    N = c.size('N', 1)
    m = c.index('m', N)
    leaf = c.table('leaf', N, (), 0, 1, integer=True, within=(0, 2))
    # S(k): number of end effectors among the first k bones (definition by recursion)
    S = c.table('S', N + 1, (), 0, 9, integer=True)
    at = {}

    def mk(k):
        b = c.fn(T + 'Bone')()
        b.idx = k
        b.children = [] if c.eq(leaf[k], 1) else [1]
        return b
    s = Obj()
    s.bones = c.sequence(N, mk)
    ok = []

    def chain(b, sk):
        ok.append(sk is s)
        return b.idx
    c.replace(A + '__make_chain', chain)

    def h(e, k):
        ok.clear()
        at['k'] = k
        return {'chains': c.growing('chains', S[k])}

    def inv(e, k):
        L = e.chains
        c.axiom('count of end effectors', [c.eq(S[0], 0)])
        if c.phase == 'preserved':
            c.axiom('count of end effectors', [c.eq(S[k], S[at['k']] + leaf[at['k']])])
        n = len(L) if isinstance(L, list) else L.N
        out = list(ok) + [c.eq(n, S[k])]
        if c.and_(m < k, c.eq(leaf[m], 1)):
            out += [S[m] < n, S[m] >= 0, c.eq(L.at(S[m])[0], m) if not isinstance(L, list) else False]
        return out + [S[k] >= 0]
    c.invariant(A + 'make_chains', 1, inv, h)
    L = c.call(A + 'make_chains', s, mutates=(0,))
    c.prove('as many chains as end effectors', c.eq(L.N, S[N]))
    if c.eq(leaf[m], 1):
        c.prove('every end effector has its chain, in order', c.eq(L.at(S[m])[0], m))


NAMES = ['alpha', 'beta', 'gamma']


def whole_angles(c):
    n = c.choice('n', [1, 2, 3, 5])
    s = tree(c, n)
    old = [fields(b) for b in s.bones]
    a = c.call(A + 'get_joint_angles', s, mutates=(0,))
    c.prove('the angles of bone k are at 3k', [len(a) == 3 * n] + [c.eq(a[3 * b.idx + q], getattr(b, x)) for b in s.bones for q, x in enumerate(NAMES)])
    c.prove('reading changes nothing', [q for b, o in zip(s.bones, old) for q in agree(c, fields(b), o)])
    v = c.vec('v', 3 * n)
    c.call(A + 'set_joint_angles', s, v, mutates=(0,))
    c.prove('bone k receives its angles', [c.eq(getattr(b, x), v[3 * b.idx + q]) for b in s.bones for q, x in enumerate(NAMES)])
    c.prove('nothing else changes', [q for b, o in zip(s.bones, old) for q in agree(c, fields(b, *NAMES), {k: w for k, w in o.items() if k not in NAMES})])
    c.prove('setting and reading back is the identity', c.eq(c.call(A + 'get_joint_angles', s, mutates=(0,)), v))
    i = c.choice('i', range(3 * n))
    x = c.real('x')
    c.call(A + 'set_angle', i, x, s, mutates=(2,))
    c.prove('one angle is set', [c.eq(c.call(A + 'get_angle', j, s), x if i == j else v[j]) for j in range(3 * n)])


@contract('C20', loops=True)
def read_angles(c):
    """any skeleton: alpha, beta, gamma of bone k are entries 3k, 3k+1, 3k+2; nothing changes"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_angles(c)
    F = A + 'get_joint_angles'
    N = c.size('N', 0)
    st = {}
    s = Obj()

    def mk(k):
        st['b'], st['k'] = new_bone(c, '', 'ZYZ'), k
        st['b'].idx = k
        st['old'] = fields(st['b'])
        return st['b']
    s.bones = c.sequence(N, mk)

    def havoc(env, k):
        st['x'] = env.angles
        st['x'].assign(c.table('angles', 3 * N))

    def inv(env, k):
        x = env.angles
        if c.phase == 'entry':
            return [c.eq(x.N, 3 * N)]
        if c.phase != 'preserved':
            return [True]
        k, b = st['k'], st['b']
        return [c.and_(c.le(3 * k, i), i < 3 * k + 3) for i, _ in x.stores] + [c.eq(x[3 * k + q], getattr(b, n)) for q, n in enumerate(NAMES)] + agree(c, fields(b), st['old'])
    c.invariant(F, 1, inv, havoc, modifies=('angles',))
    c.prove('the angles are returned', c.call(F, s, mutates=(0,)) is st['x'])


@contract('C20', loops=True)
def write_angles(c):
    """any skeleton: bone k receives entries 3k, 3k+1, 3k+2 and nothing else changes"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_angles(c)
    F = A + 'set_joint_angles'
    N = c.size('N', 0)
    st = {}
    s = Obj()
    v = c.table('v', 3 * N)

    def mk(k):
        st['b'], st['k'] = new_bone(c, '', 'ZYZ'), k
        st['b'].idx = k
        st['old'] = fields(st['b'], *NAMES)
        return st['b']
    s.bones = c.sequence(N, mk)

    def inv(env, k):
        if c.phase != 'preserved':
            return [True]
        k, b = st['k'], st['b']
        return [c.eq(getattr(b, n), v[3 * k + q]) for q, n in enumerate(NAMES)] + agree(c, fields(b, *NAMES), st['old']) + [len(v.stores) == 0]
    c.invariant(F, 1, inv, lambda e, k: None, modifies=('bone',))
    c.call(F, s, v, mutates=(0,))


@contract('C20')
def one_angle(c):
    """any skeleton and index: angle 3k+q is angle q of bone k; set and get agree, nothing else changes"""
    if not c.sym:
        return whole_angles(c)
    k, q = c.fresh_int('k'), c.choice('q', [0, 1, 2])
    c.requires(k >= 0)
    b = new_bone(c, '', 'ZYZ')
    wrong = []
    s = Obj()

    class Bones:
        def __getitem__(self, i):
            if c.eq(i, k):
                return b
            wrong.append(i)
            return c.fn(T + 'Bone')()
    s.bones = Bones()
    x = c.real('x')
    old = fields(b, NAMES[q])
    c.prove('the angle is read', c.eq(c.call(A + 'get_angle', 3 * k + q, s, mutates=(1,)), getattr(b, NAMES[q])))
    c.call(A + 'set_angle', 3 * k + q, x, s, mutates=(2,))
    c.prove('the angle is set', c.eq(getattr(b, NAMES[q]), x))
    c.prove('nothing else changes', agree(c, fields(b, NAMES[q]), old) + [not wrong])


@contract('C20')
def end_effector(c):
    """any chain: the tool vector of the last bone in world coordinates"""
    s, ch = Obj(), c.fn(T + 'Chain')()
    b = c.fn(T + 'Bone')()
    b.t_wcs, b.q_wcs = c.vec('t'), c.unit_quat('q')
    ch.tool = c.vec('tool')
    n = c.choice('n', [1, 2, 4])
    ch.bones = list(range(n))
    s.bones = [c.fn(T + 'Bone')() for _ in range(n - 1)] + [b]
    c.prove('end effector', c.eq(c.call(A + 'get_end_effector', ch, s), b.t_wcs + rot(c, b.q_wcs, ch.tool)))


# ---- derivatives -------------------------------------------------------------------------------------------
def problem(c):
    """a skeleton in its current pose with the default chains, arbitrary goals and tools"""
    s = tree(c, c.choice('n', [1, 2, 3, 4]))
    c.fn(A + 'update_skeleton')(s)
    chains = c.fn(A + 'make_chains')(s)
    for i, ch in enumerate(chains):
        ch.goal, ch.tool = c.vec('goal%d' % i), c.vec('tool%d' % i, lo=-2, hi=2)
    return s, chains


def effectors(c, s, chains):
    P = poses(c, s)
    return c.np.concatenate([P[ch.bones[-1]][0] + rot(c, P[ch.bones[-1]][1], ch.tool) for ch in chains])


def objective(c, s, chains):
    r = c.np.concatenate([ch.goal for ch in chains]) - effectors(c, s, chains)
    return 0.5 * float((r * r).sum())


def vary(s, j, h):
    b, n = s.bones[j // 3], NAMES[j % 3]
    setattr(b, n, getattr(b, n) + h)


def partial(s, j, f):
    """fourth-order central difference of f with respect to joint angle j"""
    h, v = 1e-3, []
    for k, m in ((2, -1), (1, 8), (-1, -8), (-2, 1)):
        vary(s, j, k * h)
        v.append(m * f())
        vary(s, j, -k * h)
    return sum(v) / (12 * h)


def near(a, b, tol=1e-6):
    return a.shape == b.shape and bool((abs(a - b) < tol * (1 + abs(b).max())).all())


def whole_derivatives(c, what):
    s, chains = problem(c)
    n = 3 * len(s.bones)
    old = [fields(b) for b in s.bones]
    J = c.fn(A + 'compute_jacobian')(chains, s)
    if what == 'jacobian':
        J = c.call(A + 'compute_jacobian', chains, s)
        c.prove('the Jacobian is the derivative of the end effectors', near(J, c.np.array([partial(s, j, lambda: effectors(c, s, chains)) for j in range(n)]).T))
    if what == 'gradient':
        g = c.call(A + 'compute_gradient', chains, s, J)
        c.prove('the gradient is the derivative of the objective', near(g, c.np.array([partial(s, j, lambda: objective(c, s, chains)) for j in range(n)])))
    if what == 'objective':
        c.prove('the objective is half the sum of squared distances to the goals', c.eq(c.call(A + 'compute_objective', chains, s), objective(c, s, chains)))

    def grad():
        c.fn(A + 'update_skeleton')(s)
        return c.fn(A + 'compute_gradient')(chains, s, c.fn(A + 'compute_jacobian')(chains, s))
    if what == 'hessian':
        H = c.call(A + 'compute_hessian', chains, s, J)
        Hw = c.np.array([partial(s, j, grad) for j in range(n)])
        c.fn(A + 'update_skeleton')(s)
        c.prove('the Hessian is the derivative of the gradient', near(H, Hw))
    if what == 'differences':
        g, H = grad(), c.fn(A + 'compute_hessian')(chains, s, J)
        Fg, Fh = c.call(A + 'compute_finite_difference_gradient', chains, s, 1e-4, mutates=(1,)), c.call(A + 'compute_finite_difference_hessian', chains, s, 1e-3, mutates=(1,))
        scale = 1 + abs(H).max() + objective(c, s, chains)
        c.prove('the finite differences approximate the derivatives', bool((abs(Fg - g) < 1e-3 * scale).all()) and bool((abs(Fh - H) < 1e-2 * scale).all()))
        c.fn(A + 'update_skeleton')(s)
    c.prove('joint angles and structure are as before', [q for b, o in zip(s.bones, old) for q in agree(c, fields(b), o)])


@contract('C20')
def joint_derivatives(c):
    """every axis: a vector carried by joint rotation R, d = R y, has the derivative axis x d; below a frame Q (lemma
    frames_compose: linear, keeps cross products) Q d has the derivative (Q axis) x (Q d): the columns of the Jacobian"""
    b = new_bone(c, '')
    i = c.choice('i', [0, 1, 2])
    y, th = c.vec('y'), c.real('th', -7, 7)
    f = lambda th: rot(c, b.get_rotation(i, th), y)
    d, ax = f(th), b.get_axis(i)
    c.targets |= {T + 'Bone.get_rotation', T + 'Bone.get_axis'}
    if c.sym:
        c.prove('derivative of what the joint carries', c.eq(c.array([c.diff(d[k], th) for k in range(3)]), c.cross(ax, d)))
    else:
        h = 1e-4
        c.prove('derivative of what the joint carries', bool((abs((f(th + h) - f(th - h)) / (2 * h) - c.cross(ax, d)) < 1e-6).all()))


@contract('C20', budget=60)
def frames_compose(c):
    """lemma: rotations of unit quaternions compose, are linear and keep cross products, so axis j x (e - origin) of a later joint
    is itself carried by joint i and its derivative is axis i x (axis j x (e - origin)), the entry of the Hessian"""
    p, q, y, z, s = c.unit_quat('p'), c.unit_quat('q'), c.vec('y'), c.vec('z'), c.real('s')
    f, pr = c.fn('rainbow.math.quaternion.rotate'), c.fn('rainbow.math.quaternion.prod')
    c.prove('rotations compose', c.eq(f(p, f(q, y)), f(pr(p, q), y)))
    c.prove('rotations are linear', c.eq(f(q, y + s * z), f(q, y) + s * f(q, z)))
    c.prove('cross products are carried', c.eq(c.cross(f(q, z), f(q, y)), f(q, c.cross(z, y))))
    c.prove('the rotation is that of the matrix', c.eq(f(q, y), rot(c, q, y)))


@contract('C20', budget=60)
def carried(c):
    """lemma: what hangs below a bone moves rigidly with it: if the pose of a descendant is pose(b) o (X, Y), the pose of its
    child is pose(b) o (X + Y t, Y q)"""
    tb, qb, X, Y, t, q, tool = c.vec('tb'), c.unit_quat('qb'), c.vec('X'), c.unit_quat('Y'), c.vec('t'), c.unit_quat('q'), c.vec('tool')
    f, pr = c.fn('rainbow.math.quaternion.rotate'), c.fn('rainbow.math.quaternion.prod')
    td, qd = tb + f(qb, X), pr(qb, Y)
    c.prove('the child', [c.eq(td + f(qd, t), tb + f(qb, X + f(Y, t))), c.eq(pr(qd, q), pr(qb, pr(Y, q))), c.eq(td + f(qd, tool), tb + f(qb, X + f(Y, tool)))])


class Scene:
    """any number of chains over any number of bones"""
    def __init__(self, c):
        self.c = c
        self.C, self.M = c.size('chains', 1), c.size('bones', 1)
        C, M = self.C, self.M
        self.len, self.bone = c.function('chain_length', 1), c.function('chain_bone', 2)
        self.goal, self.eff = c.table('goal', C, 3), c.table('eff', C, 3)
        self.tw, self.qw = c.table('t_wcs', M, 3), c.table('q_wcs', M, 4)
        self.ax = [c.table('axis%d' % q, M, 3) for q in range(3)]
        self.ro = [c.table('rotation%d' % q, M, 4) for q in range(3)]
        self.par = c.table('parent', M, (), -1, 5, integer=True)
        self.cache = {}
        me = self

        class Bones:
            def __getitem__(s, i):
                return me.get(i)

            def __pv_len__(s):
                return M
        self.skeleton = Obj()
        self.skeleton.bones = Bones()
        self.chains = c.sequence(C, self.chain)
        c.replace(A + 'get_end_effector', self.end)

    def end(self, ch, s):
        assert s is self.skeleton
        return self.eff[ch.number]

    def chain(self, k):
        ch = self.c.fn(T + 'Chain')()
        ch.number = k
        ch.goal = self.goal[k]
        n = self.c.fresh_int('len')
        self.c.requires(n >= 1)
        ch.bones = self.c.sequence(n, lambda i: self.entry(k, i))
        ch.length = n
        return ch

    def entry(self, k, i):
        c = self.c
        x = c.fresh_int('bone')
        c.requires([c.eq(x, self.bone(k, i)), x >= 0, x < self.M])
        return x

    def get(self, i):
        c = self.c
        key = getattr(i, 'n', i)
        key = getattr(key, 'id', key)
        if key in self.cache:
            return self.cache[key]
        me = self

        class B(c.fn(T + 'Bone')):
            def get_axis(s, q):
                return me.ax[q][i]

            def get_rotation(s, q, a):
                if not (a is s.alpha and q == 0 or a is s.beta and q == 1 or a is s.gamma and q == 2):
                    from pv.terms import Unsupported
                    raise Unsupported('rotation by another angle')
                return me.ro[q][i]
        b = B()
        b.idx, b.parent = i, self.par[i]
        b.alpha, b.beta, b.gamma = [c.fresh(n) for n in NAMES]
        b.t_wcs, b.q_wcs = self.tw[i], self.qw[i]
        b.children = None
        for v in [self.ro[q][i] for q in range(3)] + [self.qw[i]] + ([self.qw[b.parent]] if not c.eq(b.parent, -1) else []):
            c.requires(c.eq(sum(x * x for x in v), 1))
        self.cache[key] = b
        return b

    def frame(self, b):
        """oracle: joint axes of bone b in the world (f is the rotation, C01)"""
        c = self.c
        f, pr = c.fn('rainbow.math.quaternion.rotate'), c.fn('rainbow.math.quaternion.prod')
        qp = self.qw[self.par[b]] if not c.eq(self.par[b], -1) else c.array([1, 0, 0, 0])
        ra, rb = self.ro[0][b], self.ro[1][b]
        return [f(qp, self.ax[0][b]), f(qp, f(ra, self.ax[1][b])), f(qp, f(pr(ra, rb), self.ax[2][b]))]

    def columns(self, k, b):
        d = self.eff[k] - self.tw[b]
        return [self.c.cross(a, d) for a in self.frame(b)]


class Action:
    """rotations by their contract (lemma frames_compose, C01): products act by composition; nothing else is known of them"""
    def __init__(self, c):
        self.c, self.word, self.image, self.of = c, {}, {}, {}
        one = c.array([1, 0, 0, 0])
        self.word[self.key(one)] = ()
        Q = 'rainbow.math.quaternion.'
        c.replace(Q + 'rotate', self.rotate)
        c.replace(Q + 'prod', self.prod)

    def key(self, x):
        from pv import terms as T
        return tuple(T.node_of(y).id for y in x)

    def letters(self, q):
        k = self.key(q)
        return self.word.setdefault(k, (k,))

    def prod(self, p, q):
        w = self.letters(p) + self.letters(q)
        if not self.letters(p) or not self.letters(q):
            return (q if not self.letters(p) else p).copy()
        for x, v in self.word.items():
            if v == w and x in self.of:
                return self.of[x].copy()
        r = self.c.array([self.c.fresh('pq') for _ in range(4)])
        k = self.key(r)
        self.word[k], self.of[k] = w, r
        return r.copy()

    def rotate(self, q, v):
        w, base = self.image.get(self.key(v), ((), self.key(v)))
        w = self.letters(q) + w
        if not w:
            return v.copy()
        for x, y in self.image.items():
            if y == (w, base):
                return self.of[x].copy()
        r = self.c.array([self.c.fresh('Rv') for _ in range(3)])
        k = self.key(r)
        self.image[k], self.of[k] = (w, base), r
        return r.copy()


class Block:
    """a matrix seen through one block of 3 x 3 entries"""
    def __init__(self, c, r, q, start):
        self.c, self.r, self.q, self.start = c, r, q, start
        self.v = None
        self.moved = 0

    def __pv_state__(self):
        return self.moved

    def rows(self, s):
        return s.start, s.stop

    def __getitem__(self, key):
        return self.start(key)

    def __setitem__(self, key, v):
        c = self.c
        a, b = key
        self.moved += 1
        if c.eq(a.start, self.r) and c.eq(a.stop, a.start + 3):
            if isinstance(b, slice):
                if c.eq(b.start, self.q) and c.eq(b.stop, b.start + 3):
                    self.v = [v[:, j] for j in range(3)]
                return
            for j in range(3):
                if c.eq(b, self.q + j):
                    self.v = list(self.v)
                    self.v[j] = v
        elif not c.and_(c.eq(a.stop, a.start + 3), c.or_(c.le(a.start + 3, self.r), c.le(self.r + 3, a.start))):
            # a write that straddles the block
            self.v = [c.vec('unknown%d' % c.fresh_int().n.id) for _ in range(3)]


@contract('C20', loops=True, budget=150)
def jacobian(c):
    """any chains and bones: rows of chain m and columns of bone x hold axis x (end effector - joint origin) if the chain has the
    bone and zero otherwise"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_derivatives(c, 'jacobian')
    q = A + 'compute_jacobian'
    S = Scene(c)
    m, x = c.index('m', S.C), c.index('x', S.M)
    has, pos = c.boolean('the chain has the bone'), c.fresh_int('pos')
    zero = [c.array([0, 0, 0])] * 3
    want = S.columns(m, x) if has else zero
    J = Block(c, 3 * m, 3 * x, None)
    J.v = zero
    shape = []
    np = c.mod(A[:-1]).np

    class NP:
        def __getattr__(s, n):
            return getattr(np, n)

        def zeros(s, sh, **k):
            shape.append(sh)
            return J
    c.mod(A[:-1]).np = NP()
    at = {}

    def value(done):
        return [c.eq(c.array(J.v[j]), c.array((want if done else zero)[j])) for j in range(3)]

    def outer(e, k):
        return [c.eq(e.row_offset, 3 * k)] + value(bool(m < k))

    def reset():
        J.v = [c.array([c.fresh('J') for _ in range(3)]) for _ in range(3)]
        J.moved = 0

    def h1(e, k):
        reset()
        at['k'] = k
        return {'row_offset': 3 * k}

    def here(k, i, b):
        """bone x is in chain m exactly at pos"""
        if c.eq(k, m):
            if has:
                c.requires(c.iff(c.eq(b, x), c.eq(i, pos)))
            else:
                c.requires(c.not_(c.eq(b, x)))

    def h2(e, i):
        reset()
        at['i'] = i
        if has and c.eq(at['k'], m):
            c.requires([pos >= 0, pos < e.chain.length])

    def inner(e, i):
        if c.phase == 'exit':
            at.pop('i', None)
            if has and c.eq(at['k'], m):
                c.requires([pos >= 0, pos < e.chain.length])
        return [c.eq(e.row_offset, 3 * at['k'])] + value(bool(c.or_(m < at['k'], c.and_(c.eq(m, at['k']), pos < i))) if has else False)
    ent = S.entry

    def entry(k, i):
        b = ent(k, i)
        here(k, i, b)
        return b
    S.entry = entry
    c.requires(pos >= 0)
    c.invariant(q, 1, outer, h1, modifies=('J',))
    c.invariant(q, 2, inner, h2, modifies=('J', 'row_offset'))
    r = c.call(q, S.chains, S.skeleton, mutates=(0, 1))
    c.prove('size', [len(shape) == 1, c.eq(shape[0][0], 3 * S.C), c.eq(shape[0][1], 3 * S.M)])
    c.prove('the block of the chain and the bone', [r is J] + value(True))


class Product:
    """a matrix product that is not expanded: -(J^T r)"""
    def __init__(self, s, a, b):
        self.s, self.a, self.b = s, a, b

    def __neg__(self):
        return Product(-self.s, self.a, self.b)

    def __mul__(self, k):
        return Product(self.s * k, self.a, self.b)

    __rmul__ = __mul__


class Matrix:
    """the Jacobian as an opaque matrix"""
    def __init__(self, t=False, of=None):
        self.t, self.of = t, of or self

    @property
    def T(self):
        return Matrix(not self.t, self.of)

    transpose = lambda self: self.T

    def dot(self, x):
        return Product(1, self, x)

    __matmul__ = dot


@contract('C20', loops=True, budget=60)
def gradient(c):
    """any chains: minus J^T r with r the stacked goals minus end effectors"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_derivatives(c, 'gradient')
    q = A + 'compute_gradient'
    S = Scene(c)
    st = {}
    np = c.mod(A[:-1]).np

    class NP:
        def __getattr__(s, n):
            return getattr(np, n)

        def dot(s, a, b):
            return a.dot(b) if isinstance(a, Matrix) else np.dot(a, b)

        def transpose(s, a):
            return a.T if isinstance(a, Matrix) else np.transpose(a)
    c.mod(A[:-1]).np = NP()

    def h(e, k):
        st['r'] = e.r
        e.r.assign(c.table('r', 3 * S.C))
        st['k'] = k
        return {'row_offset': 3 * k}

    def inv(e, k):
        r = e.r
        out = [c.eq(e.row_offset, 3 * k)]
        if c.phase == 'entry':
            return out + [c.eq(r.N, 3 * S.C)]
        if c.phase != 'preserved':
            return out
        k = st['k']
        return out + [c.and_(c.le(3 * k, i), i < 3 * k + 3) for i, _ in r.stores] + [c.eq(r[3 * k + j], S.goal[k][j] - S.eff[k][j]) for j in range(3)]
    c.invariant(q, 1, inv, h, modifies=('r',))
    J = Matrix()
    g = c.call(q, S.chains, S.skeleton, J, mutates=(0, 1, 2))
    c.prove('minus the transposed Jacobian times the residuals', isinstance(g, Product) and g.a.of is J and g.a.t and (g.b is st['r'] and g.s == -1))


@contract('C20', loops=True)
def objective_value(c):
    """any chains: half the sum of squared distances between goals and end effectors"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_derivatives(c, 'objective')
    q = A + 'compute_objective'
    S = Scene(c)
    part = c.table('partial sum', S.C + 1)
    st = {}

    def h(e, k):
        st['k'] = k
        return {'f': part[k]}

    def inv(e, k):
        c.requires(c.eq(part[0], 0))
        if c.phase == 'preserved':
            k0 = st['k']
            c.requires(c.eq(part[k0 + 1], part[k0] + sum((S.goal[k0][j] - S.eff[k0][j]) ** 2 for j in range(3))))
        return [c.eq(e.f, part[k])]
    c.invariant(q, 1, inv, h)
    c.prove('half of the sum', c.eq(2 * c.call(q, S.chains, S.skeleton, mutates=(0, 1)), part[S.C]))


def hessian(c, same, lower):
    """any chains and bones: J^T J minus, for every chain with both bones, the residual times the second derivatives of its end
    effector (axis of the earlier joint x Jacobian column of the later one), in both blocks of the pair"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole_derivatives(c, 'hessian')
    q = A + 'compute_hessian'
    Action(c)
    S = Scene(c)
    # a comes before b (or is b): the block looked at is (a, b), below the diagonal (b, a)
    b = c.index('b', S.M)
    a = b if same else c.index('a', S.M)
    if not same:
        c.requires(a < b)
    row, col = (b, a) if lower else (a, b)
    first = [[c.fresh('JTJ') for _ in range(3)] for _ in range(3)]
    H = Block(c, 3 * row, 3 * col, None)
    other = c.array([[c.fresh('H') for _ in range(3)] for _ in range(3)])

    def start(key):
        ks, ls = key
        ok = c.and_(c.eq(ks.stop, ks.start + 3), c.eq(ls.stop, ls.start + 3))
        hit = c.and_(c.eq(ks.start, 3 * row), c.eq(ls.start, 3 * col))
        if not ok:
            from pv.terms import Unsupported
            raise Unsupported('another shape of block')
        return c.array([[H.v[j][i] for j in range(3)] for i in range(3)]) if hit else other.copy()
    H.start = start
    H.v = [[first[i][j] for i in range(3)] for j in range(3)]
    Jt = [c.table('J%d' % j, S.C, 3) for j in range(3)]
    Jb = {}

    class Jac(Matrix):
        def __getitem__(s, key):
            ks, x = key
            k = at['k']
            if not (c.eq(ks.start, 3 * k) and c.eq(ks.stop, 3 * k + 3)):
                from pv.terms import Unsupported
                raise Unsupported('other rows of the Jacobian')
            for j in range(3):
                if c.eq(x, 3 * b + j):
                    return Jt[j][k]
            return c.array([c.fresh('Jx') for _ in range(3)])
    J = Jac()
    at = {}
    np = c.mod(A[:-1]).np

    class NP:
        def __getattr__(s, n):
            return getattr(np, n)

        def dot(s, x, y):
            if isinstance(x, Matrix):
                c.prove('the first term is J^T J', x.of is J and x.t and y is J)
                return H
            return np.dot(x, y)

        def transpose(s, x):
            return x.T if isinstance(x, Matrix) else np.transpose(x)
    c.mod(A[:-1]).np = NP()
    has = {'a': c.function('chain_has_a', 1), 'b': c.function('chain_has_b', 1)}
    places = {n: c.table('pos_' + n, S.C, (), 0, 5, integer=True) for n in 'ab'}
    pos = {'a': lambda k: places['a'][k], 'b': lambda k: places['b'][k]}
    if same:
        has['a'], pos['a'] = has['b'], pos['b']
    S0 = [[c.table('sum%d%d' % (i, j), S.C + 1) for j in range(3)] for i in range(3)]

    def term(k):
        fr = S.frame(a)
        r = S.goal[k] - S.eff[k]
        # axis i of a x column j of b; on the diagonal the earlier angle of the joint is the axis
        t = [[c.dot(c.cross(fr[i], Jt[j][k]), r) for j in range(3)] for i in range(3)]
        if same:
            t = [[t[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]
        return [[t[j][i] for j in range(3)] for i in range(3)] if lower else t

    def both(k):
        return bool(c.and_(has['a'](k) > 0, has['b'](k) > 0))

    def value(k, done):
        t = term(k) if done else None
        return [c.eq(H.v[j][i], S0[i][j][k] - (t[i][j] if done else 0)) for i in range(3) for j in range(3)]

    def reset():
        H.v = [[c.fresh('H') for _ in range(3)] for _ in range(3)]
        H.moved = 0

    def h1(e, k):
        reset()
        at['k'] = k
        return {'row_offset': 3 * k}

    def outer(e, k):
        for i in range(3):
            for j in range(3):
                c.requires(c.eq(S0[i][j][0], first[i][j]))
        if c.phase == 'preserved':
            k0 = at['k']
            t = term(k0) if both(k0) else None
            for i in range(3):
                for j in range(3):
                    c.requires(c.eq(S0[i][j][k0 + 1], S0[i][j][k0] - (t[i][j] if t else 0)))
        return [c.eq(e.row_offset, 3 * k)] + value(k, False)

    def ranges(e):
        k = at['k']
        for n in 'ab':
            if has[n](k) > 0:
                c.requires([pos[n](k) >= 0, pos[n](k) < e.chain.length])
        if not same and both(k):
            # one place holds one bone
            c.requires(c.not_(c.eq(pos['a'](k), pos['b'](k))))

    def h2(e, i):
        reset()
        at['i'] = i
        ranges(e)

    def h3(e, i):
        reset()
        at['j'] = i
        ranges(e)

    def second(e, i):
        k = at['k']
        if c.phase == 'exit':
            ranges(e)
        return [c.eq(e.row_offset, 3 * k)] + value(k, both(k) and bool(pos['b'](k) < i))

    def third(e, j):
        k, i = at['k'], at['i']
        if c.phase == 'exit':
            ranges(e)
        done = both(k) and bool(c.or_(pos['b'](k) < i, c.and_(c.eq(pos['b'](k), i), pos['a'](k) < j)))
        return [c.eq(e.row_offset, 3 * k)] + value(k, done)
    ent = S.entry

    def entry(k, i):
        x = ent(k, i)
        for n, y in (('b', b),) if same else (('a', a), ('b', b)):
            if c.and_(has[n](k) > 0, c.eq(i, pos[n](k))):
                c.requires(c.eq(x, y))
                return y
            c.requires(c.not_(c.eq(x, y)))
        return x
    S.entry = entry
    c.invariant(q, 1, outer, h1, modifies=('H',))
    c.invariant(q, 2, second, h2, modifies=('H', 'row_offset'))
    c.invariant(q, 3, third, h3, modifies=('H', 'row_offset'))
    r = c.call(q, S.chains, S.skeleton, J, mutates=(0, 1, 2))
    c.prove('the block of the pair', [r is H] + value(S.C, False))


@contract('C20', loops=True, budget=240, paths=600)
def hessian_diagonal(c):
    """any chains and bones: block on the diagonal"""
    hessian(c, True, False)


@contract('C20', loops=True, budget=240, paths=600)
def hessian_above(c):
    """any chains and bones: block above the diagonal"""
    hessian(c, False, False)


@contract('C20', loops=True, budget=240, paths=600)
def hessian_below(c):
    """any chains and bones: block below the diagonal"""
    hessian(c, False, True)


class Angles:
    """the joint angles of any skeleton, seen at the joints i and j: contracts of get_angle, set_angle, update_skeleton and
    compute_objective (an unknown function of the angles of the last update)"""
    def __init__(self, c, i, j):
        self.c, self.i, self.j = c, i, j
        self.now = [c.real('theta_i'), c.real('theta_j')]
        self.old = list(self.now)
        self.posed = None
        self.wrong = []
        self.F = c.function('objective', 2)
        self.chains, self.skeleton = Obj(), Obj()
        c.replace(A + 'get_angle', self.get)
        c.replace(A + 'set_angle', self.set)
        c.replace(A + 'update_skeleton', self.update)
        c.replace(A + 'compute_objective', self.objective)

    def which(self, k):
        if self.c.eq(k, self.i):
            return 0
        if self.c.eq(k, self.j):
            return 1
        self.wrong.append(k)
        return 0

    def get(self, k, s):
        return self.now[self.which(k)]

    def set(self, k, v, s):
        self.now[self.which(k)] = v
        self.wrong += [s] if s is not self.skeleton else []

    def update(self, s):
        self.posed = list(self.now)

    def objective(self, chains, s):
        if chains is not self.chains or s is not self.skeleton or self.posed is None:
            self.wrong.append(s)
            return self.c.fresh()
        self.c.prove('the objective is evaluated in the pose of the current angles', [self.c.eq(a, b) for a, b in zip(self.posed, self.now)])
        return self.F(*self.posed)

    def restored(self):
        self.c.prove('the angles are restored', [self.c.eq(a, b) for a, b in zip(self.now, self.old)] + [not self.wrong])


@contract('C20', loops=True)
def first_difference(c):
    """any skeleton and joint: the central difference of the objective; the joint angles are restored"""
    if not c.unbounded_sizes:
        return whole_derivatives(c, 'differences')
    i, h = c.index('i', c.size('n', 1)), c.positive('h', 0.01, 1)
    a = Angles(c, i, i)
    x, y = a.now
    r = c.call(A + '__numerical_differentiation_first_derivative', a.chains, a.skeleton, i, h)
    a.restored()
    c.prove('central difference', c.eq(r * 2 * h, a.F(x + h, y) - a.F(x - h, y)))


@contract('C20', loops=True)
def second_difference(c):
    """any skeleton and two joints, the same or different ones"""
    if not c.unbounded_sizes:
        return whole_derivatives(c, 'differences')
    n = c.size('n', 1)
    i, h = c.index('i', n), c.positive('h', 0.01, 1)
    j = i if c.boolean('same') else c.index('j', n)
    if j is not i:
        c.requires(c.not_(c.eq(i, j)))
    a = Angles(c, i, j)
    x, y = a.now
    r = c.call(A + '__numerical_differentiation_second_derivative', a.chains, a.skeleton, i, j, h)
    a.restored()
    if j is i:
        c.prove('second difference', c.eq(r * h * h, a.F(x + h, y) - 2 * a.F(x, y) + a.F(x - h, y)))
    else:
        c.prove('mixed difference', c.eq(r * 4 * h * h, a.F(x + h, y + h) - a.F(x + h, y - h) - a.F(x - h, y + h) + a.F(x - h, y - h)))


class Entry:
    """a matrix of any size, seen at one entry"""
    def __init__(self, c, shape, at):
        self.c, self.shape, self.pos, self.v = c, shape, at, 0.0

    def hit(self, k):
        k = k if isinstance(k, tuple) else (k,)
        return len(k) == len(self.pos) and all(bool(self.c.eq(a, b)) for a, b in zip(k, self.pos))

    def __setitem__(self, k, v):
        for a, n in zip(k if isinstance(k, tuple) else (k,), self.shape):
            self.c.prove('inside the matrix', [0 <= a, a < n])
        if self.hit(k):
            self.v = v

    def __getitem__(self, k):
        return self.v if self.hit(k) else self.c.fresh()

    def __pv_state__(self):
        return self.v


@contract('C20', loops=True)
def difference_matrices(c):
    """any skeleton: entry i (i, j) of the result is the difference quotient of joint i (of joints i and j)"""
    if not c.unbounded_sizes:
        return whole_derivatives(c, 'differences')
    n = c.size('n', 1)
    s, chains = Obj(), Obj()
    s.bones = c.sequence(n, lambda k: Obj())
    two = c.boolean('hessian')
    p = (c.index('i', 3 * n), c.index('j', 3 * n)) if two else (c.index('i', 3 * n),)
    h = c.positive('h', 0.01, 1)
    d = c.function('difference', 2)
    wrong, made = [], []

    def sym(i, j):
        """second derivatives are symmetric"""
        return d(i, j) if bool(i < j) else d(j, i)

    def first(chains_, skeleton, i, step):
        wrong.extend([1] if chains_ is not chains or skeleton is not s or not c.eq(step, h) else [])
        return d(i, i)

    def second(chains_, skeleton, i, j, step):
        wrong.extend([1] if chains_ is not chains or skeleton is not s or not c.eq(step, h) else [])
        return sym(i, j)
    c.replace(A + '__numerical_differentiation_second_derivative', lambda chains, skeleton, i, j, h: second(chains, skeleton, i, j, h))
    c.replace(A + '__numerical_differentiation_first_derivative', lambda chains, skeleton, i, h: first(chains, skeleton, i, h))
    np = c.np
    zeros = lambda shape, **k: made.append(Entry(c, shape, p)) or made[-1]
    c.mod(A[:-1]).np = type('np', (), {'zeros': staticmethod(zeros), '__getattr__': lambda self, k: getattr(np, k)})()
    F = A + 'compute_finite_difference_' + ('hessian' if two else 'gradient')
    want = sym(p[0], p[-1])
    st = {}

    def havoc(which):
        def f(e, k):
            st[which] = k
            made[0].v = c.fresh()
        return f
    if two:
        c.invariant(F, 1, lambda e, k: [c.eq(made[0].v, want if p[0] < k else 0)], havoc('i'), modifies=('H',))
        c.invariant(F, 2, lambda e, k: [c.eq(made[0].v, want if c.or_(p[0] < st['i'], c.and_(c.eq(p[0], st['i']), p[1] < k)) else 0)], havoc('j'), modifies=('H',))
    else:
        c.invariant(F, 1, lambda e, k: [c.eq(made[0].v, want if p[0] < k else 0)], havoc('i'), modifies=('g',))
    r = c.call(F, chains, s, h)
    c.prove('the difference quotients', [r is made[0], c.eq(made[0].v, want), not wrong] + [c.eq(x, 3 * n) for x in made[0].shape])


@contract('C20', concrete_only=True, bounded='random skeletons of up to four bones')
def finite_differences(c):
    """the finite difference versions approximate the derivatives and restore the joint angles"""
    whole_derivatives(c, 'differences')
