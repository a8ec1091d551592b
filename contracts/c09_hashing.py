"""C09: spatial hashing (rainbow/geometry/spatial_hashing.py and its use in the soft body narrow phase)"""
from pv.check import contract
S = 'rainbow.geometry.spatial_hashing.'
N = 'rainbow.simulators.prox_soft_bodies.collision_detection.'


class Offsets:
    """the offset table of random numbers: an arbitrary function of the three offsets"""
    def __init__(self, c):
        self.c = c

    def __getitem__(self, k):
        i, j, l = k
        if self.c.sym:
            return self.c.function('Phi', 3)(i, j, l)
        return (7 * int(i) + 13 * int(j) + 29 * int(l)) % 101


def make_grid(c):
    """a hash grid (the 8 GB table of random offsets is replaced by an arbitrary function)"""
    if c.sym:
        c.stubs['random.randint'] = lambda *a, **k: Offsets(c)
        return c.fn(S + 'HashGird')()
    import numpy
    old = numpy.random.randint
    numpy.random.randint = lambda *a, **k: Offsets(c)
    try:
        return c.fn(S + 'HashGird')()
    finally:
        numpy.random.randint = old


@contract('C09')
def hash_value(c):
    g = make_grid(c)
    i, j, k = [c.integer(x, -9, 9, bounded=False) for x in 'ijk']
    h = c.call(g.get_prefect_hash_value, i, j, k)
    c.prove('a cell always has the same bucket', c.eq(h, g.get_prefect_hash_value(i, j, k)))


def bucket(c, cell, n, old, t):
    """a bucket that received n objects at step `old`, in any history"""
    cell.time_stamp = old
    cell.object_list = [('tri%d' % i, i, None) for i in range(n)]
    cell.size = n


@contract('C09')
def cell_add(c):
    """invariant of a bucket: its list is what was added since the step its time stamp names"""
    n = c.choice('n', [0, 1, 2, 3])
    old, t = c.integer('old', 0, 4, bounded=False), c.integer('t', 0, 4, bounded=False)
    c.requires(old <= t)
    cell = c.fn(S + 'HashCell')()
    bucket(c, cell, n, old, t)
    before = list(cell.object_list)
    x = ('new', 9, None)
    c.call(cell.add, x, t)
    c.targets.add(S + 'HashCell.add') if c.sym else None
    want = (before if old == t else []) + [x]
    c.prove('holds exactly the objects of the current step', [len(cell.object_list) == len(want)] + [a is b for a, b in zip(cell.object_list, want)])
    c.prove('size is the number of objects', c.eq(cell.size, len(want)))
    c.prove('time stamp is the current step', c.eq(cell.time_stamp, t))


@contract('C09')
def insert(c):
    g = make_grid(c)
    n = c.choice('n', [-1, 0, 1, 2, 3])
    old, t = c.integer('old', 0, 4, bounded=False), c.integer('t', 0, 4, bounded=False)
    c.requires(c.and_(0 <= old, old <= t))
    h = 17
    g.get_prefect_hash_value = lambda i, j, k: h
    # a bucket in the state any earlier insertions can leave it in
    before = []
    if n >= 0:
        for q in range(max(n, 1)):
            c.call(g.insert, 1, 2, 3, q, 0, None, old)
        n = max(n, 1)
        before = [(q, 0, None) for q in range(n)]
    r = c.call(g.insert, 1, 2, 3, 7, 1, None, t)
    c.targets.add(S + 'HashGird.insert') if c.sym else None
    want = before if (n >= 0 and old == t) else []
    c.prove('reports exactly the objects inserted earlier in this step', [len(r) == len(want)] + [tuple(a) == tuple(b) for a, b in zip(r, want)])
    s = c.call(g.insert, 1, 2, 3, 8, 1, None, t)
    c.prove('what was inserted is reported to later insertions', [len(s) == len(want) + 1, tuple(s[-1]) == (7, 1, None)])
    c.prove('reports do not change afterwards', len(r) == len(want))


@contract('C09', bounded='histories of at most 12 insertions over several steps', concrete=200, concrete_only=True)
def history(c):
    g = make_grid(c)
    n = c.choice('n', range(1, 13))
    t, log = 0, []
    for q in range(n):
        t += c.choice('dt%d' % q, [0, 0, 0, 1, 2])
        cell = tuple(c.choice('c%d%s' % (q, a), [-1, 0, 1]) for a in 'ijk')
        r = g.insert(*cell, q, 0, None, t)
        now = {x[0] for x in r}
        must = {p for p, s, d in log if s == t and d == cell}
        may = {p for p, s, d in log if s == t}
        c.prove('every earlier object of the cell in this step is reported', must <= now)
        c.prove('no object of an earlier step is reported', now <= may)
        log.append((q, t, cell))


@contract('C09')
def optimal_cell_size(c):
    V = [c.vec('v%d' % i) for i in range(4)]
    T = [[0, 1, 2], [0, 2, 3]]
    X = c.array([list(v) for v in V])
    s = c.call(c.fn(S + 'HashGird').compute_optial_cell_size, X, T)
    E = [c.norm(V[b] - V[a]) for t in T for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))]
    c.prove('2.2 times the mean edge length', c.eq(s * 6, c.const('2.2') * sum(E)))


# ---- the narrow phase ---------------------------------------------------------------------------------------
class Body:
    def __init__(self, c, name, idx, x, surface):
        self.name, self.idx, self.x, self.surface = name, idx, x, surface

    def __hash__(self):
        return hash(self.name)


class Record(list):
    """a set of symbolic pairs"""
    add = list.append

    def __hash__(self):
        return id(self)


def trunc(c, x):
    return c.ite(0 <= x, x // 1, -((-x) // 1))


@contract('C09', loops=True, ite=True)
def cells_of_triangles(c):
    """each triangle is inserted into every cell its box touches, and candidates with overlapping boxes are reported"""
    m, nv = c.size('m', 1, 2), c.size('nv', 3, 3)
    x = c.table('x', nv, 3, -5, 5)
    surf = c.table('surf', m, 3, integer=True, rng=range(3))
    q = c.index('q', m)
    h = c.positive('h', 0.5, 2)
    log, inserted = [], []
    g = {}

    class Grid:
        cell_size = h

        def insert(self, i, j, k, tri, body, box, t):
            inserted.append((i, j, k, tri, body, box, t))
            return g.get('found', [])

    class E:
        pass
    eng = E()
    eng.params, eng.hash_grid, eng.bodies = E(), Grid(), {'a': Body(c, 'a', 0, x, surf)}
    eng.params.time_stamp = c.integer('t', 0, 5)
    cell = [c.integer('cell%d' % a, -3, 3, bounded=False) for a in range(3)]
    one = dict(body=None)

    def verts(i):
        return [x[surf[i][v]] for v in range(3)]

    def lohi(i, a):
        v = c.array([y[a] for y in verts(i)])
        return c.np.min(v), c.np.max(v)
    if not c.unbounded_sizes:
        if c.sym:
            for i in range(nv):
                for a in range(3):
                    c.requires(c.and_(x[i][a] < h, x[i][a] > -h))
        c.call(N + '_spatial_hashing_narrow_phase', eng, {}, False)
        cells = {}
        for i, j, k, tri, body, box, t in inserted:
            cells.setdefault(int(tri), set()).add((int(i), int(j), int(k)))
        c.prove('every triangle is inserted somewhere', len(cells) == m)
        p, r = q, c.index('r', m)
        over = c.and_(*[c.and_(c.xle(lohi(p, a)[0], lohi(r, a)[1]), c.xle(lohi(r, a)[0], lohi(p, a)[1])) for a in range(3)])
        c.prove('overlapping boxes share a cell', c.or_(c.not_(over), bool(cells[p] & cells[r])))
        c.prove('in the current step', [c.eq(z[6], eng.params.time_stamp) for z in inserted])
        return

    # candidate the grid may report: any triangle of either body with any box
    B = c.fn('rainbow.geometry.aabb.AABB')
    other = c.choice('candidate', ['none', 'own body', 'other body'])
    bx = c.table('x', nv, 3, -5, 5)
    if other == 'other body':
        eng.bodies = {'b': Body(c, 'b', 0, bx, []), 'a': eng.bodies['a']}
        eng.bodies['a'].idx = 1
        one['skip'] = True
    w = c.index('w', m)
    c.requires(c.and_(*[c.and_(0 <= surf[w][v], surf[w][v] < nv) for v in range(3)]))
    clo, chi = c.vec('clo'), c.vec('chi')
    selfhit = c.real('selfhit') > 0
    me = eng.bodies['a']
    if other != 'none':
        g['found'] = [(w, 0, B(clo, chi))]
    calls = []

    def self_collision(t1, t2, b1, b2):
        calls.append((t1, t2, b1, b2))
        return selfhit
    c.replace(N + '_is_self_collision', self_collision)

    def product(*ranges):
        log.append(ranges)
        return [tuple(cell)]
    c.mod(N[:-1]).product = product

    def havoc(e, k):
        g['k'] = k
        for v in range(3):
            c.requires(c.and_(0 <= surf[k][v], surf[k][v] < nv))
        log.clear()
        inserted.clear()
        calls.clear()
        e.results.clear()
        e.results.default_factory = Record

    def inv(e, k):
        if not log:
            return [True]
        (rs,) = log
        out = [len(rs) == 3, len(inserted) == 1]
        for a in range(3):
            lo, hi = lohi(g['k'], a)
            out += [c.eq(rs[a].start, trunc(c, lo / h)), c.eq(rs[a].stop, trunc(c, hi / h) + 1)]
            out += [c.eq(inserted[0][a], cell[a]), c.eq(inserted[0][5].min_point[a], lo), c.eq(inserted[0][5].max_point[a], hi)]
        out += [c.eq(inserted[0][3], g['k']), c.eq(inserted[0][4], me.idx), c.eq(inserted[0][6], eng.params.time_stamp)]
        rep = [p for v in e.results.values() for p in v]
        if other == 'none':
            return out + [not rep]
        if other == 'other body':
            over = c.and_(*[c.and_(lohi(g['k'], a)[0] <= chi[a], clo[a] <= lohi(g['k'], a)[1]) for a in range(3)])
        else:
            over = selfhit
        if not rep:
            return out + [c.not_(over)]
        out += [over, len(rep) == 1, c.eq(rep[0][0], g['k']), c.eq(rep[0][1], w)]
        ob = eng.bodies['b'] if other == 'other body' else me
        return out + [k_[0] is me and k_[1] is ob for k_, v in e.results.items() if v]
    c.invariant(N + '_spatial_hashing_narrow_phase', 2, inv, havoc, modifies=('results',))
    c.call(N + '_spatial_hashing_narrow_phase', eng, {}, False)


@contract('C09', bounded='two or three bodies of at most 4 triangles, at most 3 steps', concrete=30, concrete_only=True)
def narrow_phase_pairs(c):
    """the whole narrow phase: exactly the pairs of triangles of different bodies whose boxes overlap"""
    g = make_grid(c)
    nb = c.choice('bodies', [2, 3])

    class E:
        pass
    eng = E()
    eng.params, eng.hash_grid, eng.bodies = E(), g, {}
    g.cell_size = c.choice('cell', [0.3, 0.7, 1.0, 2.5])
    t = 0
    for step in range(c.choice('steps', [1, 2, 3])):
        t += 1
        eng.params.time_stamp = t
        for b in range(nb):
            m = c.choice('m%d%d' % (step, b), [1, 2, 4])
            x = c.np.array([list(c.vec('x%d_%d_%d' % (step, b, v), 3, -1.5, 1.5)) for v in range(m + 2)])
            eng.bodies['b%d' % b] = Body(c, 'b%d' % b, b, x, c.np.array([[v, v + 1, v + 2] for v in range(m)]))
        r, s = c.fn(N + '_spatial_hashing_narrow_phase')(eng, {}, False)
        got = {}
        for (p, q), prs in r.items():
            for i, j in prs:
                got[frozenset([(p.name, int(i)), (q.name, int(j))])] = True
        bodies = list(eng.bodies.values())
        for p in bodies:
            for q in bodies:
                if p is q:
                    continue
                for i in range(len(p.surface)):
                    for j in range(len(q.surface)):
                        a, b = p.x[p.surface[i]], q.x[q.surface[j]]
                        d = max(max(a[:, k].min() - b[:, k].max(), b[:, k].min() - a[:, k].max()) for k in range(3))
                        key = frozenset([(p.name, i), (q.name, j)])
                        if abs(d) < 1e-9:
                            continue
                        c.prove('reported when the boxes overlap' if d < 0 else 'not reported when the boxes do not overlap', (key in got) == (d < 0))


@contract('C09')
def settings(c):
    """the settings change nothing else (the next insertions use them)"""
    g = make_grid(c)
    n, m, s = c.integer('n', 1, 9, bounded=False), c.integer('m', 0, 9, bounded=False), c.positive('s', 0.1, 3)
    rest = {k: v for k, v in g.__dict__.items() if k not in ('hash_table_size', 'cell_size')}
    c.call(g.set_hash_table_size, n)
    c.prove('size', c.eq(g.hash_table_size, n))
    c.call(g.increment_hash_table_size, m)
    c.prove('grown', c.eq(g.hash_table_size, n + m))
    c.call(g.set_cell_size, s)
    c.prove('cell size', [c.eq(g.cell_size, s), c.eq(g.hash_table_size, n + m)])
    c.prove('nothing else changes', [g.__dict__[k] is v for k, v in rest.items()])
    if c.sym:
        for k in ('set_hash_table_size', 'increment_hash_table_size', 'set_cell_size'):
            c.targets.add(S + 'HashGird.' + k)
