"""C11: tetrahedral meshes (rainbow/geometry/volume_mesh.py)"""
from pv.check import contract
import itertools
M = 'rainbow.geometry.volume_mesh.'
FACES = ((1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1))          # outward faces of a positively oriented tetrahedron, by opposite node


def vol6(c, a, b, d, e):
    return c.dot(e - a, c.cross(b - a, d - a))


def rot(t):
    """smallest cyclic rotation"""
    t = tuple(t)
    return min(t, t[1:] + t[:1], t[2:] + t[:2])


def det(a, b, d):
    return (a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0]))


def check_cell(c, tets):
    """five tetrahedra on the corners of the unit cell: positive, fill the cell -> diagonals of the six sides"""
    sub = lambda p, q: tuple(x - y for x, y in zip(p, q))
    vols = [det(sub(t[3], t[0]), sub(t[1], t[0]), sub(t[2], t[0])) for t in tets]
    c.prove('positive orientation', [v > 0 for v in vols])
    c.prove('the tetrahedra have the volume of the cell', sum(vols) == 6)
    faces = {}
    for t in tets:
        for f in FACES:
            faces.setdefault(rot([t[q] for q in f]), 0)
            faces[rot([t[q] for q in f])] += 1
    inner, sides = [], {}
    for f in faces:
        if rot((f[0], f[2], f[1])) in faces:
            inner.append(faces[f] == 1)
            continue
        for a in range(3):
            if f[0][a] == f[1][a] == f[2][a]:
                sides.setdefault((a, f[0][a]), set()).add(tuple(sorted(tuple(x[b] for b in range(3) if b != a) for x in f)))
                break
        else:
            inner.append(False)
    c.prove('inner faces are shared by two tetrahedra, all others lie on the sides', inner)
    c.prove('two triangles on each of the six sides', [len(sides.get((a, s), ())) == 2 for a in range(3) for s in (0, 1)])
    return sides


@contract('C11', loops=True, budget=120)
def cells(c):
    """an arbitrary cell of an arbitrary grid: what the loop body stores, and where"""
    I, J, K = c.size('I', 2, 4), c.size('J', 2, 4), c.size('K', 2, 4)
    F = M + 'create_tetrahedron_array_from_cube_mesh'
    if not c.unbounded_sizes:
        T = c.call(F, I, J, K)
        n = (I - 1) * (J - 1) * (K - 1)
        c.prove('five per cell', len(T) == 5 * n)
        seen = {}
        for q in range(n):
            i, j, k = q % (I - 1), (q // (I - 1)) % (J - 1), q // ((I - 1) * (J - 1))
            t = []
            for r in range(5):
                t.append([])
                for m in T[5 * q + r]:
                    m = int(m)
                    t[-1].append((m % I - i, (m // I) % J - j, m // (I * J) - k))
            c.prove('only corners of the cell', [x in (0, 1) for u in t for p in u for x in p])
            sides = check_cell(c, t)
            for a in range(3):
                for s in (0, 1):
                    pos = [i, j, k]
                    pos[a] += s
                    key = (a, tuple(pos))
                    if key in seen:
                        c.prove('neighbours split their common side alike', seen[key] == sides[(a, s)])
                    seen[key] = sides[(a, s)]
        return
    st = {}

    def slot(i, j, k):
        return 5 * ((k * (J - 1) + j) * (I - 1) + i)

    def clear(e):
        e.T.assign(c.table('T', 5 * (I - 1) * (J - 1) * (K - 1), 4, integer=True))

    def h1(e, k):
        clear(e)
        st['k'] = k

    def h2(e, j):
        clear(e)
        st['j'] = j

    def h3(e, i):
        clear(e)
        st['i'] = i
        st['T'] = e.T
    c.invariant(F, 1, lambda e, k: c.eq(e.n, slot(0, 0, k)), h1, modifies=('T',))
    c.invariant(F, 2, lambda e, j: c.eq(e.n, slot(0, j, st.get('k', 0))), h2, modifies=('T',))

    def inv(e, i):
        out = [c.eq(e.n, slot(i, st['j'], st['k']))]
        if 'i' in st and st.get('T') is e.T and e.T.stores:
            check(e, st['i'], st['j'], st['k'])
        return out
    found = {}

    def check(e, i, j, k):
        corner = {}
        for x, y, z in itertools.product((0, 1), repeat=3):
            corner[(x, y, z)] = (i + x) + (j + y) * I + (k + z) * I * J
        stores = e.T.stores
        c.prove('five tetrahedra per cell', len(stores) == 5)
        base = slot(i, j, k)
        tets = []
        for q, (ix, rep) in enumerate(stores):
            c.prove('stored at the slots of the cell, one after the other', c.eq(ix, base + q))
            t = []
            for m in rep.reshape(-1):
                hit = [p for p, x in corner.items() if c.identical(m, x)]
                t.append(hit[0] if hit else None)
            tets.append(t)
        ok = all(p is not None for t in tets for p in t)
        c.prove('only corners of the cell', ok)
        if ok:
            odd = c.eq((i + j + k) % 2, 1)
            sides = check_cell(c, tets)
            p = bool(odd)
            # the split of each side as a function of the parity of the cell (compared across paths below)
            want = SIDES[p]
            c.prove('the split of the sides depends on the parity of the cell alone, so that neighbours agree', sides == want)
    SIDES = {}
    for p in (False, True):
        d = {}
        for a in range(3):
            for s in (0, 1):
                # the diagonal joins the corners whose parity differs from / equals that of the cell
                par = [q for q in itertools.product((0, 1), repeat=3) if q[a] == s]
                ends = [q for q in par if sum(q) % 2 == (1 if p else 0)]
                rest = [q for q in par if q not in ends]
                d[(a, s)] = {tuple(sorted(tuple(x[b] for b in range(3) if b != a) for x in ends + [r])) for r in rest}
        SIDES[p] = d
    for a in range(3):
        c.prove('lemma: splits of neighbours (of opposite parity) match', [SIDES[p][(a, 1)] == SIDES[not p][(a, 0)] for p in (False, True)])
    c.invariant(F, 3, inv, h3, modifies=('T',))
    T = c.call(F, I, J, K)
    c.prove('five per cell', c.eq(T.N, 5 * (I - 1) * (J - 1) * (K - 1)))


@contract('C11')
def slots_distinct(c):
    """different cells have different slots (so the tetrahedra of every cell are in the array)"""
    i, j, k, a, b, d = [c.integer(x, 0, 4, bounded=False) for x in 'ijkabd']
    I, J = c.integer('I', 1, 5, bounded=False), c.integer('J', 1, 5, bounded=False)
    c.requires(c.and_(0 <= i, i < I, 0 <= a, a < I, 0 <= j, j < J, 0 <= b, b < J, 0 <= k, 0 <= d))
    p, q = k * J + j, d * J + b
    c.lemma('row', c.implies(c.eq(p * I + i, q * I + a), c.eq(p, q)), using=[0 <= i, i < I, 0 <= a, a < I])
    c.lemma('layer', c.implies(c.eq(p, q), c.eq(k, d)), using=[0 <= j, j < J, 0 <= b, b < J])
    c.prove('same slot, same cell', c.implies(c.eq(p * I + i, q * I + a), c.and_(c.eq(k, d), c.implies(c.eq(k, d), c.and_(c.eq(j, b), c.eq(i, a))))))


@contract('C11', loops=True)
def beam(c):
    I, J, K = c.size('I', 2, 3), c.size('J', 2, 3), c.size('K', 2, 3)
    w, h, d = [c.positive(x, 0.1, 3) for x in 'whd']

    def pos(i, j, k):
        return [-w / 2 + w * i / (I - 1), -h / 2 + h * j / (J - 1), -d / 2 + d * k / (K - 1)]
    F = M + 'create_beam'
    if not c.unbounded_sizes:
        V, T = c.call(F, I, J, K, w, h, d)
        c.prove('number of vertices', len(V) == I * J * K)
        for i, j, k in itertools.product(range(I), range(J), range(K)):
            c.prove('node positions', c.eq(V[i + j * I + k * I * J], pos(i, j, k)))
        c.prove('tetrahedra of the grid', c.eq(T, c.fn(M + 'create_tetrahedron_array_from_cube_mesh')(I, J, K)))
        return
    st = {}
    tets = object()
    calls = []
    c.replace(M + 'create_tetrahedron_array_from_cube_mesh', lambda *a: calls.append(a) or tets)

    def h1(x):
        def f(e, k):
            e.V.assign(c.table('V', I * J * K, 3))
            st[x] = k
        return f
    full = lambda x, n: lambda e, k: [c.eq(st[x], n)] if c.phase == 'preserved' else [True]
    c.invariant(F, 1, full('j', J), h1('k'), modifies=('V',))
    c.invariant(F, 2, full('i', I), h1('j'), modifies=('V',))

    def inv(e, i):
        if c.phase != 'preserved':
            return [True]
        if len(e.V.stores) == 0:
            return [False]
        m = st['i'] + st['j'] * I + st['k'] * I * J
        return [c.eq(ix, m) for ix, r in e.V.stores] + [c.eq(e.V.at(m), c.array([pos(st['i'], st['j'], st['k'])]))]
    c.invariant(F, 3, inv, h1('i'), modifies=('V',))
    V, T = c.call(F, I, J, K, w, h, d)
    c.prove('every node', [c.eq(st['k'], K), c.eq(V.N, I * J * K)])
    c.prove('tetrahedra of the grid', [T is tets, len(calls) == 1] + [c.eq(x, y) for x, y in zip(calls[0], (I, J, K))])


@contract('C11', loops=True)
def of_any_grid(c):
    """the node table and the tetrahedra of the grid (under their own contracts) and a copy of the values"""
    if not c.unbounded_sizes:
        return small_grid(c)
    G = 'rainbow.geometry.grid3.'
    g = type('Grid', (), {})()
    g.I, g.J, g.K = c.size('I', 2), c.size('J', 2), c.size('K', 2)
    n = g.I * g.J * g.K
    P, T, g.values = c.table('nodes', n, 3), object(), c.table('values', n)
    i = c.integer('i', 0, 9, bounded=False)
    c.requires([0 <= i, i < n])
    got = []
    c.replace(G + 'get_nodes_array', lambda q: got.append(q is g) or P)
    c.replace(M + 'create_tetrahedron_array_from_cube_mesh', lambda a, b, d: got.extend([c.eq(a, g.I), c.eq(b, g.J), c.eq(d, g.K)]) or T)
    V, U, A = c.call(M + 'from_grid3d', g)
    c.prove('vertices are the grid nodes, tetrahedra of the grid', [c.eq(V[i], P[i]), U is T] + got + [len(got) == 4])
    v = g.values[i]
    c.prove('attributes are the grid values', c.eq(A[i], v))
    A[i] = v + 1
    c.prove('attributes are a copy', c.eq(g.values[i], v))


@contract('C11', bounded='grids of 2x3x2 to 3x2x4 nodes')
def of_grid(c):
    small_grid(c)


def small_grid(c):
    G = 'rainbow.geometry.grid3.'
    I, J, K = c.choice('IJK', [(2, 3, 2), (3, 2, 4)])
    l, e = c.vec('l'), [c.positive('e%d' % i, 0.2, 2) for i in range(3)]
    g = c.fn(G + 'Grid')(l, l + c.array(e), I, J, K)
    g.values = c.array([c.real('v%d' % q) for q in range(I * J * K)])
    V, T, A = c.call(M + 'from_grid3d', g)
    for i, j, k in itertools.product(range(I), range(J), range(K)):
        m = (k * J + j) * I + i
        c.prove('vertices are the grid nodes', c.eq(V[m], [l[0] + e[0] * i / (I - 1), l[1] + e[1] * j / (J - 1), l[2] + e[2] * k / (K - 1)]))
        c.prove('attributes are the grid values', c.eq(A[m], g.values[m]))
    c.prove('tetrahedra of the grid', c.eq(T, c.fn(M + 'create_tetrahedron_array_from_cube_mesh')(I, J, K)))
    A[0] = A[0] + 1
    c.prove('attributes are a copy', c.not_(c.eq(A[0], g.values[0])))


def same_faces(c, rows, t, name):
    """rows are the four outward faces of tetrahedron t, in some order and rotation"""
    out = []
    for f in FACES:
        alts = []
        for r in rows:
            for q in range(3):
                alts.append(c.and_(*[c.eq(r[p], t[f[(p + q) % 3]]) for p in range(3)]))
        out.append(c.or_(*alts))
    c.prove(name, out)


@contract('C11', loops=True)
def triangles_of_tetrahedra(c):
    n = c.size('n', 1, 3)
    T = c.table('T', n, 4, 0, 9, integer=True)
    e = c.index('e', n)
    if c.unbounded_sizes:
        def inv(x, i):
            if e < i:
                same = [c.or_(*[c.and_(*[c.eq(x.F[e * 4 + q][p], T[e][f[(p + s) % 3]]) for p in range(3)]) for q in range(4) for s in range(3)]) for f in FACES]
                return same
            return [True]
        c.invariant(M + 'to_triangles', 1, inv, lambda x, i: x.F.assign(c.table('F', n * 4, 3, integer=True)), modifies=('F',))
    F = c.call(M + 'to_triangles', T)
    same_faces(c, [F[e * 4 + q] for q in range(4)], T[e], 'the four outward faces of every tetrahedron')


@contract('C11', loops=True)
def exploded(c):
    n = c.size('n', 1, 2)
    nv = c.size('nv', 4, 5)
    X = c.table('X', nv, 3)
    T = c.table('T', n, 4, integer=True, within=(0, nv))
    s = c.real('s', 0.1, 1)
    e = c.index('e', n)

    def ok(V, F):
        x = [X[T[e][q]] for q in range(4)]
        m = (x[0] + x[1] + x[2] + x[3]) / 4
        out = [c.eq(V[e * 4 + q], m + (x[q] - m) * s) for q in range(4)]
        idx = [e * 4 + q for q in range(4)]
        for f in FACES:
            out.append(c.or_(*[c.and_(*[c.eq(F[e * 4 + q][p], idx[f[(p + r) % 3]]) for p in range(3)]) for q in range(4) for r in range(3)]))
        return out
    if c.unbounded_sizes:
        def havoc(x, i):
            x.F.assign(c.table('F', n * 4, 3, integer=True))
            x.Vout.assign(c.table('W', n * 4, 3))
        c.invariant(M + 'to_tetrahedrons', 1, lambda x, i: ok(x.Vout, x.F) if e < i else [True], havoc, modifies=('F', 'Vout'))
    V, F = c.call(M + 'to_tetrahedrons', X, T, s)
    c.prove('every tetrahedron shrunk about its centre, with its outward faces', ok(V, F))


@contract('C11', loops=True)
def volumes(c):
    n, nv = c.size('n', 1, 3), c.size('nv', 4, 5)
    X = c.table('X', nv, 3)
    T = c.table('T', n, 4, integer=True, within=(0, nv))
    e = c.index('e', n)

    def ok(v):
        return c.eq(v[e] * 6, vol6(c, *[X[T[e][q]] for q in range(4)]))
    if c.unbounded_sizes:
        c.invariant(M + 'compute_volumes', 1, lambda x, i: ok(x.vol) if e < i else True, lambda x, i: x.vol.assign(c.table('vol', n)), modifies=('vol',))
    v = c.call(M + 'compute_volumes', X, T)
    c.prove('a sixth of the triple product', ok(v))


def check_mesh(c, V, T, total6):
    T = [tuple(int(i) for i in t) for t in T]
    c.prove('valid indices', all(0 <= i < len(V) for t in T for i in t))
    c.prove('positive orientation', [vol6(c, *[V[i] for i in t]) > 0 for t in T])
    c.prove('same total volume', c.eq(sum(vol6(c, *[V[i] for i in t]) for t in T), total6))
    faces = {}
    for t in T:
        for f in FACES:
            k = rot([t[q] for q in f])
            faces[k] = faces.get(k, 0) + 1
    c.prove('no face twice on the same side', [v == 1 for v in faces.values()])
    return faces


@contract('C11', bounded='meshes of one or two tetrahedra')
def subdivision(c):
    two = c.boolean('two')
    o, a, b, d = [c.vec(x) for x in 'oabd']
    D = c.dot(d, c.cross(a, b))
    c.requires(D > c.const('0.01'))
    X = [o, o + a, o + b, o + d]
    T = [[0, 1, 2, 3]]
    total = D
    if two:
        s, t = c.real('s', 0.1, 0.4), c.real('t', 0.1, 0.4)
        z = c.positive('z', 0.1, 1)
        # across the face 1 2 3: a point beyond it
        X = X + [o + a * (1 - s - t) + b * s + d * t + (a + b + d) * z]
        T = [[0, 1, 2, 3], [4, 2, 1, 3]]
        total = total + 3 * z * D
    V, U = c.call(M + 'create_loop_subdivision', c.array([list(x) for x in X]), c.np.array(T, dtype=int))
    c.prove('eight for one', len(U) == 8 * len(T))
    faces = check_mesh(c, V, U, total)
    outer = [f for f in faces if rot((f[0], f[2], f[1])) not in faces]
    c.prove('the boundary is the boundary with every triangle split in four', len(outer) == (24 if two else 16))
    c.prove('old vertices are kept', [c.eq(V[i], X[i]) for i in range(len(X))])
    c.prove('one vertex per edge', len(V) == len(X) + (9 if two else 6))
    c.prove('new vertices are midpoints of edges', [c.or_(*[c.eq(V[m] * 2, X[t[p]] + X[t[q]]) for t in T for p in range(4) for q in range(p)]) for m in range(len(X), len(V))])


# ---- topology ---------------------------------------------------------------------------------------------
def some_mesh(c, maxcells=3):
    """a random part of a conforming mesh with randomly renumbered vertices and tetrahedra"""
    import numpy
    I, J, K = [c.choice(x, range(2, 2 + q)) for x, q in zip('IJK', (3, 2, 2))]
    T = c.fn(M + 'create_tetrahedron_array_from_cube_mesh')(I, J, K)
    n = c.choice('keep', range(1, len(T) + 1))
    r = numpy.random.default_rng(c.choice('seed', range(1000)))
    T = T[r.permutation(len(T))[:n]]
    p = r.permutation(I * J * K)
    T = p[T]
    # even permutations of the corners keep the orientation
    for t in range(len(T)):
        if r.integers(2):
            T[t] = T[t][[1, 2, 0, 3]]
        if r.integers(2):
            T[t] = T[t][[1, 0, 3, 2]]
    return I * J * K, T.astype(numpy.int32)


@contract('C11', bounded='random parts of meshes with at most 60 tetrahedra', concrete=80, concrete_only=True)
def topology(c):
    concrete_topology(c)


def concrete_topology(c):
    import numpy
    nv, T = some_mesh(c)
    N = c.fn(M + 'compute_neighbors')(T)
    faces = {}
    for e, t in enumerate(T):
        for v in range(4):
            faces.setdefault(frozenset(int(t[q]) for q in range(4) if q != v), []).append((e, v))
    good = True
    for e in range(len(T)):
        for v in range(4):
            o = [x for x in faces[frozenset(int(T[e][q]) for q in range(4) if q != v)] if x[0] != e]
            good &= int(N[e, v]) == (o[0][0] if o else -1)
    c.prove('the neighbour across a face is the other tetrahedron with that face, -1 if there is none', good)
    S, O = c.fn(M + 'compute_surface')(T, N)
    want = {}
    for e, t in enumerate(T):
        for v, f in enumerate(FACES):
            if len(faces[frozenset(int(t[q]) for q in range(4) if q != v)]) == 1:
                want[rot([int(t[q]) for q in f])] = (e, v)
    got = {rot([int(x) for x in s]): (int(o[0]), int(o[1])) for s, o in zip(S, O)}
    c.prove('the surface consists of the outward faces owned by one tetrahedron, with their owners', got == want and len(S) == len(want))
    X = numpy.zeros((nv, 3))
    C = c.fn(M + 'VertexTetrahedronCirculator')(X, T)
    used = sorted({int(i) for t in T for i in t})
    c.prove('the tetrahedra around every vertex', all(sorted(int(e) for e in C.tetrahedra(v)) == [e for e in range(len(T)) if v in T[e]] for v in used))


@contract('C11', loops=True)
def surface_faces(c):
    """an arbitrary tetrahedron of any mesh with any neighbour table: its outer faces are appended, outward, with their owner"""
    F = M + 'compute_surface'
    n = c.size('n', 1, 2)
    T, N = c.table('T', n, 4, 0, 9, integer=True), c.table('N', n, 4, integer=True, within=(-1, n))

    def is_face(S, O, r, e, v):
        return c.and_(c.eq(O[r][0], e), c.eq(O[r][1], v), c.or_(*[c.and_(*[c.eq(S[r][p], T[e][FACES[v][(p + q) % 3]]) for p in range(3)]) for q in range(3)]))
    if not c.unbounded_sizes:
        S, O = c.call(F, T, N)
        want = [(e, v) for e in range(n) for v in range(4) if N[e][v] == -1]
        c.prove('one triangle per outer face', [len(S) == len(want), len(O) == len(want)])
        for e, v in want:
            c.prove('outward face with its owner', c.or_(*[is_face(S, O, r, e, v) for r in range(len(S))]))
        return
    st = {}

    def havoc(x, e):
        x.S.assign(c.table('S', x.S.N, 3, integer=True))
        x.O.assign(c.table('O', x.S.N, 2, integer=True))
        st['e'] = e

    def inv(x, e):
        if 's' not in st:
            if 'e' in st:
                st['s'] = x.s
            return [True]
        s0, e = st['s'], st['e']
        outer = [v for v in range(4) if c.eq(N[e][v], -1)]
        return [c.eq(x.s, s0 + len(outer)), len(x.S.stores) == len(outer), len(x.O.stores) == len(outer)] + \
            [c.or_(*[is_face(x.S, x.O, s0 + r, e, v) for r in range(len(outer))]) for v in outer]
    c.invariant(F, 1, inv, havoc, modifies=('S', 'O'))
    c.call(F, T, N)


class Order:
    """contract of numpy.lexsort: a permutation of 0..n-1 that brings the rows into lexicographic order (last key first)"""
    def __init__(self, c, n, keys):
        self.c, self.n, self.keys = c, n, [k.copy() for k in keys]
        self.p = c.table('perm', n, (), integer=True, within=(0, n))
        self.q = c.table('place', n, (), integer=True, within=(0, n))

    def __call__(self, i):
        """the index of the i-th row of the sorted table"""
        c = self.c
        r = self.p.at(i)[0]
        c.requires(c.implies(c.and_(0 <= i, i < self.n), c.eq(self.q.at(r)[0], i)))
        return r

    def place(self, r):
        """where row r ended up"""
        c = self.c
        i = self.q.at(r)[0]
        c.requires(c.implies(c.and_(0 <= r, r < self.n), c.eq(self.p.at(i)[0], r)))
        return i

    def key(self, i):
        r = self.p.at(i)[0]
        return [k.at(r)[0] for k in reversed(self.keys)]

    def sorted(self, i, j):
        """instance of: the keys increase"""
        c = self.c
        a, b = self.key(i), self.key(j)
        r = True
        for x, y in reversed(list(zip(a, b))):
            r = c.or_(x < y, c.and_(c.eq(x, y), r))
        c.requires(c.implies(c.and_(0 <= i, i <= j, j < self.n), r))


def lexsort(c, n):
    out = []

    def f(keys, axis=-1):
        if len(out):
            return out[0].p
        out.append(Order(c, n, keys))
        return out[0].p
    c.stubs['lexsort'] = f
    return out


def ordered(c, t):
    """three different numbers in increasing order"""
    a, b, d = t
    lo = c.ite(c.and_(a < b, a < d), a, c.ite(b < d, b, d))
    hi = c.ite(c.and_(a > b, a > d), a, c.ite(b > d, b, d))
    return [lo, a + b + d - lo - hi, hi]


def neighbours(c, shared):
    """any mesh: the face opposite corner v of tetrahedron e. The sorted table of faces is described by its own invariant; a face
    belongs to one tetrahedron or to two (precondition)"""
    F = M + 'compute_neighbors'
    n = c.size('n', 1)
    T = c.table('T', n, 4, integer=True, within=(0, 1000))
    rows = c.table('rows', 4 * n, 5, integer=True)
    e, v = c.index('e', n), c.choice('v', range(4))
    t = T[e]
    c.requires([c.not_(c.eq(t[a], t[b])) for a in range(4) for b in range(a)])
    f, w = c.index('f', n), c.choice('w', range(4)) if shared else 0
    A, B = 4 * e + v, 4 * f + w
    key = lambda r: [rows[r][q] for q in range(3)]
    same = lambda a, b: c.and_(*[c.eq(x, y) for x, y in zip(key(a), key(b))])
    if shared:
        c.requires([same(A, B), c.not_(c.eq(A, B))])
    orders = lexsort(c, 4 * n)
    c.mod(M[:-1]).sorted = lambda xs, **k: ordered(c, xs) if len(xs) == 3 and not k else sorted(xs, **k)

    def well_formed(r):
        """the row of face r (instance of the first invariant, which is shown for an arbitrary tetrahedron)"""
        c.requires([c.eq(rows[r][3] * 4 + rows[r][4], r), rows[r][4] >= 0, rows[r][4] < 4, rows[r][3] >= 0, rows[r][3] < n])

    def others(r):
        """no third tetrahedron has the face"""
        c.requires(c.implies(same(r, A), c.or_(c.eq(r, A), c.eq(r, B)) if shared else c.eq(r, A)))
    st = {}

    def inv1(x, k):
        if shared or not (e < k):
            return [True]                                       # (shown once, in neighbours_none)
        out = []
        for q in range(4):
            r = x.face_info[4 * e + q]
            out += [c.eq(a, b) for a, b in zip(r, ordered(c, [t[z] for z in range(4) if z != q]) + [e, q])]
        return out
    c.invariant(F, 1, inv1, lambda x, k: x.face_info.assign(rows), modifies=('face_info',))

    pos = {}

    def places():
        o = orders[0]
        if not pos:
            pos['a'] = o.place(A)
            if shared:
                pos['b'] = o.place(B)
        return pos['a'], pos.get('b')

    def h2(x, i):
        x.N.assign(c.table('N', n, 4, integer=True))
        o = orders[0]
        a, b = places()
        well_formed(A)
        if shared:
            well_formed(B)
        if not (i < 4 * n - 1):
            i = None
        for r in [] if i is None else [o(i), o(i + 1)]:
            well_formed(r)
            others(r)
        if shared:
            # the rows of the two faces are neighbours in the sorted table
            for lo, hi in ((a, b), (b, a)):
                if bool(lo + 1 < hi):
                    m = o(lo + 1)
                    o.sorted(lo, lo + 1)
                    o.sorted(lo + 1, hi)
                    others(m)

    def inv2(x, i):
        a, b = places()
        if shared:
            first = c.ite(a < b, a, b)
            return [c.or_(c.eq(a + 1, b), c.eq(b + 1, a)) if c.phase != 'entry' else True, c.eq(x.N[e][v], c.ite(first < i, f, -1))]
        return [c.eq(x.N[e][v], -1)]
    c.invariant(F, 2, inv2, h2, modifies=('N',))
    N = c.call(F, T)
    c.prove('the table of neighbours', c.eq(N[e][v], f if shared else -1))


@contract('C11', loops=True, budget=400, paths=2000)
def neighbours_across(c):
    if not c.unbounded_sizes:
        return concrete_topology(c)
    neighbours(c, True)


@contract('C11', loops=True, budget=120, paths=2000)
def neighbours_none(c):
    if not c.unbounded_sizes:
        return concrete_topology(c)
    neighbours(c, False)


def circulator(c):
    """any mesh: the rows (corner, tetrahedron) in the order of the corners; the rows of corner w are start[w] .. end[w]"""
    n, nv = c.size('n', 1), c.size('nv', 4)
    T = c.table('T', n, 4, integer=True, within=(0, nv))
    V = c.table('V', nv, 3)
    F = M + 'VertexTetrahedronCirculator.__init__'
    m = 4 * n
    rows, S = c.table('rows', m, 2, integer=True, within=(0, nv)), {}
    w, e = c.index('w', nv), c.index('e', n)
    a, x = c.index('a', m), c.index('x', m)             # any row of the sorted table that belongs to w, and any row
    orders = lexsort(c, m)
    at = lambda i: rows.at(orders[0](i))[0][0]
    C = c.fn(M + 'VertexTetrahedronCirculator')
    self = C.__new__(C)

    def inv1(y, k):
        if not (e < k):
            return [True]
        return [c.eq(y.self.V2T[4 * e + q], [T[e][q], e]) for q in range(4)]
    c.invariant(F, 1, inv1, lambda y, k: y.self.V2T.assign(rows), modifies=('self',))

    def h2(y, k):
        y.self.vertex_start.assign(c.table('start', nv, (), integer=True))
        y.self.vertex_end.assign(c.table('end', nv, (), integer=True))
        o = orders[0]
        i, j = y.self.vertex_start[w], y.self.vertex_end[w]
        S['s'], S['t'] = i, j
        o.sorted(a, k - 1)
        o.sorted(k - 1, k)
        o.sorted(i, x)
        o.sorted(x, j - 1)
        if k < m:
            o(k)

    def inv2(y, k):
        s, t = y.self.vertex_start[w], y.self.vertex_end[w]
        mine = c.and_(a < k, c.eq(at(a), w))
        return [c.or_(c.eq(s, -1), c.and_(s >= 0, s < k, c.eq(at(s), w))),
                c.or_(c.eq(t, -1), c.and_(t >= 1, t <= k, c.eq(at(t - 1), w))),
                c.implies(c.and_(k > 0, c.eq(at(k - 1), w)), c.and_(s >= 0, s < k)),
                c.implies(c.eq(s, -1), c.eq(t, -1)), c.implies(mine, c.and_(s >= 0, s <= a)),
                c.implies(mine, c.or_(t > a, c.and_(k < m, c.eq(at(k), w))))]
    c.invariant(F, 2, inv2, h2, modifies=('self',))
    c.call(F, self, V, T, mutates=(0,))
    s, t = self.vertex_start[w], self.vertex_end[w]
    c.prove('the rows of the corner are in the range', c.implies(c.eq(at(a), w), c.and_(s <= a, a < t)))
    c.prove('all rows in the range are of the corner', c.implies(c.and_(s <= x, x < t), c.eq(at(x), w)))


@contract('C11', loops=True, budget=120, paths=1000)
def tetrahedra_of_vertex(c):
    if not c.unbounded_sizes:
        return concrete_topology(c)
    circulator(c)


@contract('C11')
def tetrahedra_in_range(c):
    C = c.fn(M + 'VertexTetrahedronCirculator')
    q = C.__new__(C)
    s, n = c.choice('s', range(4)), c.choice('n', range(4))
    tab = [c.integer('t%d' % i, 0, 9) for i in range(7)] if not c.sym else [9 - i for i in range(7)]
    q.V2T = c.np.array([[0, i] for i in tab])
    q.vertex_start, q.vertex_end = c.np.array([-1, s]), c.np.array([-1, s + n])
    r = C.tetrahedra(q, 1)
    c.targets.add(M + 'VertexTetrahedronCirculator.tetrahedra')
    c.prove('the tetrahedra of the range of the vertex', [int(i) for i in r] == tab[s:s + n])
    c.prove('none around a vertex without tetrahedra', len(C.tetrahedra(q, 0)) == 0)
