"""C29: recording scenes (rainbow/util/USD.py); the store behind it (pxr) is an assumed contract: attributes keep the value set per time"""
import os
import shutil
import tempfile
import numpy as onp
from pv.check import contract
U = 'rainbow.util.USD.'


class Attr:
    """an attribute with any recorded history: the value at a time is the one set last for that time"""

    def __init__(self, st, name):
        self.st, self.name, self.default, self.sets = st, name, None, []

    def Set(self, value, time=None):
        if time is None:
            self.default = value
        else:
            self.sets.append((time, value))
        return True

    def Get(self, time=None):
        if time is None:
            return self.default
        for t, v in reversed(self.sets):
            if self.st.c.eq(t, time):
                return v
        return ('earlier', self.name, time)


class Op(Attr):
    def __init__(self, st, name, kind):
        super().__init__(st, name)
        self.kind = kind

    def GetOpType(self):
        return self.kind


class Prim:
    def __init__(self, st, path):
        self.st, self.path, self.attrs, self.ops = st, path, {}, []
        for a in ('Points', 'FaceVertexCounts', 'FaceVertexIndices'):
            self.attrs[a] = Attr(st, path + '.' + a)
            setattr(self, 'Get%sAttr' % a, lambda a=a: self.attrs[a])
            setattr(self, 'Create%sAttr' % a, lambda v=None, a=a: (self.attrs[a].Set(v), self.attrs[a])[1])

    def GetOrderedXformOps(self):
        return list(self.ops)

    def AddXformOp(self, kind):
        if any(o.kind == kind for o in self.ops):
            raise RuntimeError('the operation exists')
        self.ops.append(Op(self.st, self.path + '.' + kind, kind))
        return self.ops[-1]

    def AddTranslateOp(self):
        return self.AddXformOp('translate')

    def AddOrientOp(self):
        return self.AddXformOp('orient')


class Stage:
    def __init__(self, c):
        self.c, self.prims, self.times = c, {}, {}

    def define(self, stage, path):
        self.c.prove('prims belong to the stage of the recording', stage is self)
        if path not in self.prims:
            self.prims[path] = Prim(self, path)
        return self.prims[path]

    def SetStartTimeCode(self, t):
        self.times['start'] = t

    def SetEndTimeCode(self, t):
        self.times['end'] = t

    def SetFramesPerSecond(self, t):
        self.times['fps'] = t

    def GetRootLayer(self):
        return self

    def Export(self, path):
        self.times['file'] = path
        return True


class Flat:
    def __init__(self, rows):
        self.rows = rows


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class Wrapped:
    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def install(c):
    st = Stage(c)
    c.stubs['pxr: attributes keep the value set last for a time, transform operations are applied from last to first'] = True
    m = c.mod(U[:-1])
    m.Usd = NS(Stage=NS(CreateInMemory=lambda path: st))
    m.UsdGeom = NS(Xform=NS(Define=st.define), Mesh=NS(Define=st.define), Xformable=lambda p: p, XformOp=NS(TypeTranslate='translate', TypeOrient='orient'))
    m.Gf = NS(Vec3d=lambda *a: Wrapped('v', a), Quatd=lambda *a: Wrapped('q', a))
    m.Vt = NS(Vec3fArray=lambda v: v)
    np = c.mod(U[:-1]).np

    class Proxy:
        def __getattr__(self, k):
            if k == 'concatenate':
                return lambda x, *a, **kw: Flat(x) if hasattr(x, 'at') else np.concatenate(x, *a, **kw)
            return getattr(np, k)
    m.np = Proxy()
    return st


def geometry(c, prim, V, T, N, K):
    i, k = c.index('i', N), c.index('k', K)
    p, f, n = (prim.attrs[a].default for a in ('Points', 'FaceVertexIndices', 'FaceVertexCounts'))
    f = f.rows if isinstance(f, Flat) else f
    c.prove('vertices as given', [c.eq(p.shape[0], N), c.eq(p[i], V[i])])
    c.prove('triangles as given', [c.eq(f.shape[0], K), c.eq(f[k], T[k]), c.eq(n.count() if hasattr(n, 'count') and not isinstance(n, list) else len(n), K), c.eq(n[k], 3)])


def mesh_of(c, n, lo=1):
    N, K = c.size('N' + n, lo, 3), c.size('K' + n, lo, 3)
    return N, K, c.table('V' + n, N, 3), c.table('T' + n, K, 3, integer=True)


@contract('C29', loops=True)
def adding(c):
    """any mesh is stored under its name; a second body of that name is rejected"""
    if not c.sym or not c.unbounded_sizes:
        return c.requires(False) if c.sym else recording(c)
    st = install(c)
    u = c.fn(U + 'USD')('f')
    N, K, V, T = mesh_of(c, 'a')
    which = c.choice('kind', ['add_rigid_body', 'add_mesh'])
    c.call(U + 'USD.' + which, u, 'b', V, T, mutates=(0,))
    c.prove('one prim, of its name', [set(u.meshes) == {'b'}, {p for p in st.prims if p.endswith('/b')} == {'/scene/xform/b'}, len(st.prims) == 2])
    geometry(c, st.prims['/scene/xform/b'], V, T, N, K)
    if which == 'add_rigid_body':
        before = (dict(st.prims), dict(u.meshes), {k: dict(p.attrs) for k, p in st.prims.items()}, [a.default for p in st.prims.values() for a in p.attrs.values()])
        N2, K2, V2, T2 = mesh_of(c, 'b')
        c.expect_raise('a second body of the name is rejected', c.fn(U + 'USD.add_rigid_body'), u, 'b', V2, T2, exc=ValueError)
        c.prove('the first body is unchanged', [before[0] == st.prims, before[1] == u.meshes,
                                                  all(x is y for x, y in zip(before[3], [a.default for p in st.prims.values() for a in p.attrs.values()]))])


@contract('C29', loops=True)
def poses(c):
    """after any history: the pose at the recorded time is the one given, at every other time it is as before; other bodies keep theirs"""
    if not c.sym or not c.unbounded_sizes:
        return c.requires(False) if c.sym else recording(c)
    st = install(c)
    u = c.fn(U + 'USD')('f')
    for n in 'ab':
        N, K, V, T = mesh_of(c, n)
        u.add_rigid_body(n, V, T)
    N, K, V, T = mesh_of(c, 'm')
    u.add_mesh('m', V, T)
    r0, q0, t0 = c.vec('r0'), c.vec('q0', 4), c.real('t0')
    hist = c.boolean('recorded before')
    if hist:
        u.update_rigid_body('a', r0, q0, t0)
        u.update_rigid_body('b', r0, q0, t0)
    r, q, t, s = c.vec('r'), c.vec('q', 4), c.real('t'), c.real('s')
    a, b = st.prims['/scene/xform/a'], st.prims['/scene/xform/b']
    old = {}
    for p in (a, b):
        for o in p.ops:
            old[p, o.kind] = o.Get(s)
    nb = [len(o.sets) for o in b.ops]
    c.call(U + 'USD.update_rigid_body', u, 'a', r, q, t, mutates=(0,))
    kinds = [o.kind for o in a.ops]
    c.prove('the body is turned first, then moved', kinds == ['translate', 'orient'])
    at = {o.kind: o.Get(t) for o in a.ops}
    c.prove('position recorded', [at['translate'].kind == 'v', c.eq(c.array(list(at['translate'].v)), r)])
    c.prove('orientation recorded', [at['orient'].kind == 'q', c.eq(c.array(list(at['orient'].v)), q)])
    if hist and c.not_(c.eq(s, t)):
        c.prove('other times keep their pose', [o.Get(s) is old[a, o.kind] or o.Get(s) == old[a, o.kind] for o in a.ops])
    c.prove('other bodies are unchanged', [len(o.sets) for o in b.ops] == nb)
    c.expect_raise('an unknown body is rejected', c.fn(U + 'USD.update_rigid_body'), u, 'z', r, q, t, exc=ValueError)
    c.expect_raise('a mesh is rejected', c.fn(U + 'USD.update_rigid_body'), u, 'm', r, q, t, exc=TypeError)


@contract('C29', loops=True)
def deformations(c):
    """the vertices of a mesh at the recorded time are the ones given"""
    if not c.sym or not c.unbounded_sizes:
        return c.requires(False) if c.sym else recording(c)
    st = install(c)
    u = c.fn(U + 'USD')('f')
    for n in 'ab':
        N, K, V, T = mesh_of(c, n)
        u.add_mesh(n, V, T)
    N = c.size('n', 1, 3)
    i = c.index('i', N)
    W0, W = c.table('W0', N, 3), c.table('W', N, 3)
    W.tolist = lambda: W
    W0.tolist = lambda: W0
    t0, t = c.real('t0'), c.real('t')
    u.set_mesh_positions('a', W0, t0)
    c.call(U + 'USD.set_mesh_positions', u, 'a', W, t, mutates=(0,))
    P = {n: st.prims['/scene/xform/' + n].attrs['Points'] for n in 'ab'}
    c.prove('vertices recorded', c.eq(P['a'].Get(t)[i], W[i]))
    if c.not_(c.eq(t, t0)):
        c.prove('other times keep their vertices', c.eq(P['a'].Get(t0)[i], W0[i]))
    c.prove('other meshes are unchanged', P['b'].sets == [])
    c.expect_raise('an unknown mesh is rejected', c.fn(U + 'USD.set_mesh_positions'), u, 'z', W, t, exc=ValueError)
    c.expect_raise('an unknown mesh is rejected', c.fn(U + 'USD.get_mesh_positions'), u, 'z', t, exc=ValueError)


@contract('C29')
def time_range(c):
    T, f = c.positive('T'), c.positive('f')
    if not c.sym:
        return recording(c)
    st = install(c)
    u = c.fn(U + 'USD')('the file')
    c.mod(U[:-1]).print = lambda *a: None
    c.call(U + 'USD.set_animation_time', u, T, mutates=(0,))
    c.call(U + 'USD.set_frames_per_second', u, f, mutates=(0,))
    c.call(U + 'USD.save', u, mutates=(0,))
    c.prove('the whole duration is played', [c.eq(st.times['start'], 0), c.eq(st.times['end'], T), c.eq(st.times['fps'], f)])
    c.prove('saved to the file asked for', st.times['file'] == 'the file')


def recording(c):
    """a random history, saved and opened again by the library"""
    try:
        from pxr import Usd, UsdGeom
    except ImportError:
        return c.requires(False)
    import contextlib
    import io
    qm = c.fn('rainbow.math.quaternion.to_matrix')
    folder = tempfile.mkdtemp(prefix='pv_usd_')
    try:
        path = os.path.join(folder, 'a.usda')
        u = c.fn(U + 'USD')(path)
        for f in ('add_rigid_body', 'update_rigid_body', 'add_mesh', 'set_mesh_positions', 'get_mesh_positions', 'set_animation_time', 'set_frames_per_second', 'save'):
            c.targets.add(U + 'USD.' + f)
        V = onp.array([[c.real('V%d%d' % (i, j)) for j in range(3)] for i in range(5)])
        T = onp.array([[0, 1, 2], [0, 2, 3], [1, 4, 2]])
        n = c.choice('n', [1, 2])
        want, moved = {}, {}
        for k in range(n):
            u.add_rigid_body('b%d' % k, V + k, T[:2 + k % 2])
            u.add_mesh('m%d' % k, V - k, T[:3 - k % 2])
        c.expect_raise('a second body of the name is rejected', u.add_rigid_body, 'b0', V, T, exc=ValueError)
        for e in range(c.choice('events', [1, 3, 6, 9])):
            k, t = c.choice('k%d' % e, range(n)), c.choice('t%d' % e, [0.0, 1.0, 2.5, 4.0])
            if c.boolean('body %d' % e):
                r, q = c.vec('r%d' % e), c.unit_quat('q%d' % e)
                u.update_rigid_body('b%d' % k, r, q, t)
                want[k, t] = (onp.array(r), qm(q))
            else:
                W = V * (e + 2) + c.real('w%d' % e)
                u.set_mesh_positions('m%d' % k, W, t)
                moved[k, t] = W
        with contextlib.redirect_stdout(io.StringIO()):
            u.set_animation_time(4.0)
        u.set_frames_per_second(30.0)
        c.expect_raise('an unknown body is rejected', u.update_rigid_body, 'x', V[0], onp.array([1.0, 0, 0, 0]), 1.0, exc=ValueError)
        c.expect_raise('a mesh is rejected', u.update_rigid_body, 'm0', V[0], onp.array([1.0, 0, 0, 0]), 1.0, exc=TypeError)
        c.expect_raise('an unknown mesh is rejected', u.set_mesh_positions, 'x', V, 1.0, exc=ValueError)
        got = {key: u.get_mesh_positions('m%d' % key[0], key[1]) for key in moved}
        u.save()
        st = Usd.Stage.Open(path)
        near = lambda a, b, tol=1e-5: bool(onp.abs(onp.asarray(a, float) - onp.asarray(b, float)).max() <= tol)
        c.prove('the whole duration is played', [st.GetStartTimeCode() == 0, st.GetEndTimeCode() == 4, st.GetFramesPerSecond() == 30])
        for k in range(n):
            for name, X, F in (('b%d' % k, V + k, T[:2 + k % 2]), ('m%d' % k, V - k, T[:3 - k % 2])):
                m = UsdGeom.Mesh(st.GetPrimAtPath('/scene/xform/' + name))
                c.prove('vertices as given', near(m.GetPointsAttr().Get(), X))
                c.prove('triangles as given', [list(m.GetFaceVertexIndicesAttr().Get()) == [int(x) for x in F.reshape(-1)], list(m.GetFaceVertexCountsAttr().Get()) == [3] * len(F)])
        for (k, t), (r, R) in want.items():
            M = onp.array(UsdGeom.Xformable(st.GetPrimAtPath('/scene/xform/b%d' % k)).GetLocalTransformation(t)).T
            c.prove('pose recorded', [near(M[:3, 3], r, 1e-9), near(M[:3, :3], R, 1e-6)])
        for (k, t), W in moved.items():
            m = UsdGeom.Mesh(st.GetPrimAtPath('/scene/xform/m%d' % k))
            c.prove('vertices recorded', [near(m.GetPointsAttr().Get(t), W, 1e-4), near(got[k, t], W, 1e-4)])
    finally:
        shutil.rmtree(folder, ignore_errors=True)
