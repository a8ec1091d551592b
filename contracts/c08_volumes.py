"""C08: bounding volumes and hierarchies (rainbow/geometry/aabb.py, kdop.py, kdop_bvh.py)"""
from pv.check import contract
A = 'rainbow.geometry.aabb.'
K = 'rainbow.geometry.kdop.'
B = 'rainbow.geometry.kdop_bvh.'


# ---- boxes ---------------------------------------------------------------------------------------------
@contract('C08', loops=True)
def box_of_vertices(c):
    N = c.size('N', 1, 4)
    V = c.table('V', N, 3)
    i = c.index('i', N)
    b = c.call(c.fn(A + 'AABB').create_from_vertices, V)
    c.targets.add(A + 'AABB.create_from_vertices') if c.sym else None
    c.instantiate(i)
    for a in range(3):
        c.prove('contains every vertex (%d)' % a, [c.le(b.min_point[a], V[i][a]), c.le(V[i][a], b.max_point[a])])
        c.prove('tight (%d)' % a, [c.exists(lambda w: c.eq(V[w][a], b.min_point[a]), N), c.exists(lambda w: c.eq(V[w][a], b.max_point[a]), N)])


def two_boxes(c):
    out = []
    for n in 'ab':
        lo, d = c.vec(n + 'lo', 3, -2, 2), c.vec(n + 'd', 3, 0, 2)
        c.requires(c.and_(*[0 <= d[i] for i in range(3)]))
        out.append(c.fn(A + 'AABB')(lo, lo + d))
    return out


@contract('C08')
def box_overlap(c):
    """true exactly when the boxes, each enlarged by the boundary, share a point"""
    a, b = two_boxes(c)
    e = c.real('e', 0, 1)
    c.requires(e >= 0)
    before = [x.copy() for x in (a.min_point, a.max_point, b.min_point, b.max_point)]
    r = c.call(c.fn(A + 'AABB').is_overlap, a, b, e)
    s = c.call(c.fn(A + 'AABB').is_overlap, b, a, e)
    spec = c.and_(*[c.and_(c.xle(a.min_point[i] - e, b.max_point[i] + e), c.xle(b.min_point[i] - e, a.max_point[i] + e)) for i in range(3)])
    if not c.sym and any(abs(abs(x) - 2 * e) < 1e-9 for i in range(3) for x in (a.min_point[i] - b.max_point[i], b.min_point[i] - a.max_point[i])):
        return
    c.prove('overlap exactly when the enlarged boxes share a point', c.iff(r, spec))
    c.prove('symmetric', c.iff(r, s))
    c.prove('boxes unchanged', [c.identical(x, y) for x, y in zip(before, (a.min_point, a.max_point, b.min_point, b.max_point))])


# ---- k-DOPs ---------------------------------------------------------------------------------------------
def intervals(c, n, k):
    """an arbitrary non-empty volume with k slabs"""
    lo, d = c.table(n + 'lo', k), c.table(n + 'd', k, (), 0, 2)
    v = c.fn(K + 'KDOP')(k)

    def mk(i):
        s = c.fn(K + 'Interval')()
        c.requires(d[i] >= 0)
        s.lower, s.upper = lo[i], lo[i] + d[i]
        return s
    v.slabs = c.sequence(k, mk)
    return v


@contract('C08', loops=True)
def dop_overlap(c):
    k = c.size('K', 1, 4)
    a, b = intervals(c, 'a', k), intervals(c, 'b', k)
    m = c.index('m', k)
    meets = lambda i: c.and_(c.xle(a.slabs[i].lower, b.slabs[i].upper), c.xle(b.slabs[i].lower, a.slabs[i].upper))
    c.invariant(K + 'overlap', 1, lambda e, t: c.or_(m >= t, meets(m)))
    r = c.call(K + 'overlap', a, b)
    c.prove('true only if the volumes meet along every axis', c.implies(r, meets(m)))
    c.prove('false only if some axis separates them', c.or_(r, c.exists(lambda w: c.not_(meets(w)), k)))


@contract('C08', loops=True)
def dop_union(c):
    k = c.size('K', 1, 4)
    a, b = intervals(c, 'a', k), intervals(c, 'b', k)
    m = c.index('m', k)
    mn, mx = lambda x, y: c.ite(x < y, x, y), lambda x, y: c.ite(x < y, y, x)
    ok = lambda u: c.and_(c.eq(u.slabs[m].lower, mn(a.slabs[m].lower, b.slabs[m].lower)), c.eq(u.slabs[m].upper, mx(a.slabs[m].upper, b.slabs[m].upper)))

    def havoc(e, t):
        lo, hi = c.table('ulo', k), c.table('uhi', k)

        def mk(i):
            s = c.fn(K + 'Interval')()
            s.lower, s.upper = lo[i], hi[i]
            return s
        e.kdop.slabs.forget(mk)
    c.invariant(K + 'union', 1, lambda e, t: c.or_(m >= t, ok(e.kdop)), havoc, modifies=('kdop',))
    u = c.call(K + 'union', a, b)
    c.prove('as many axes', c.eq(u.K, k))
    c.prove('smallest volume that contains both', ok(u))


@contract('C08')
def dop_rejects(c):
    a, b = intervals(c, 'a', 3), intervals(c, 'b', 4)
    c.expect_raise('overlap of different kinds', lambda: c.call(K + 'overlap', a, b), exc=RuntimeError)
    c.expect_raise('union of different kinds', lambda: c.call(K + 'union', a, b), exc=RuntimeError)


def dop_make(k):
    def f(c):
        N = c.size('N', 1, 5)
        V = c.table('V', N, 3)
        env = c.real('env', 0, 1)
        D = [[1, 0, 0], [0, 1, 0], [0, 0, 1]] if k == 3 else [[1, 1, 1], [1, 1, -1], [1, -1, 1], [1, -1, -1]]
        P = lambda q, i: D[q][0] * V[i][0] + D[q][1] * V[i][1] + D[q][2] * V[i][2]
        m = c.index('m', N)
        g = {}

        def havoc(e, t):
            s = e.kdop.slabs[e.k]
            s.lower, s.upper = c.fn(K + 'Interval')().lower, c.fn(K + 'Interval')().upper
            if c.boolean('some vertex was visited %d' % e.k):
                w, x = c.fresh_int('w'), c.fresh_int('w')
                c.requires(c.and_(w >= 0, w < t, x >= 0, x < t))
                c.witnesses += [w, x]
                s.lower, s.upper = P(e.k, w), P(e.k, x)

        def inv(e, t):
            s = e.kdop.slabs[e.k]
            inf = isinstance(s.lower, float)
            return [c.eq(t, 0) if inf else c.exists(lambda w: c.and_(w < t, c.eq(P(e.k, w), s.lower)), N),
                    c.eq(t, 0) if inf else c.exists(lambda w: c.and_(w < t, c.eq(P(e.k, w), s.upper)), N),
                    c.or_(m >= t, False if inf else c.and_(s.lower <= P(e.k, m), P(e.k, m) <= s.upper))]
        c.invariant(K + 'make', 2, inv, havoc, modifies=('kdop',))
        v = c.call(K + 'make', k, V, env)
        c.instantiate(m)
        c.prove('number of axes', c.eq(v.K, k))
        for q in range(k):
            s = v.slabs[q]
            c.prove('contains every vertex enlarged by the envelope (axis %d)' % q, [c.le(s.lower, P(q, m) - env), c.le(P(q, m) + env, s.upper)])
            c.prove('tight (axis %d)' % q, [c.exists(lambda w: c.eq(P(q, w) - env, s.lower), N), c.exists(lambda w: c.eq(P(q, w) + env, s.upper), N)])
    return f


for _k in (3, 4):
    contract('C08', name='dop_make_%d' % _k, loops=True, budget=200)(dop_make(_k))


# ---- hierarchies -------------------------------------------------------------------------------------------
def fresh_nodes(c, n):
    """the nodes of a new sub tree of any size"""
    t = c.fn(B + 'SubTree')(1)
    t.nodes = c.sequence(n, lambda i: c.fn(B + 'Node')())
    return t


def leaves_below(c, nodes, i, e, depth=0):
    """how many leaves below node i hold element e (bounded and concrete runs)"""
    n = nodes[i]
    if n.start == n.end:
        return 1 if n.start == e else 0
    return leaves_below(c, nodes, n.start, e) + leaves_below(c, nodes, n.end, e)


@contract('C08', loops=True)
def split(c):
    """by induction on the number of elements: every element of the range is in exactly one leaf below the node, the free
    nodes are used consecutively, children come after their parent"""
    if c.unbounded_sizes:
        p, f, first, n = [c.integer(x, 0, 5, bounded=False) for x in ('p', 'f', 'first', 'n')]
        c.requires(c.and_(0 <= p, p < f, n >= 1, first >= 0))
        last, size = first + n - 1, f + 2 * (n - 1)
        e = c.index('e', first + n)
        c.requires(first <= e)
    else:
        p, f, first, n = 0, 1, c.integer('first', 0, 5), c.size('n', 1, 6)
        first = first if not c.sym else c.choice('first#', [0, 2])
        last, size = first + n - 1, 2 * n - 1
        e = first + c.index('e', n)
    t = fresh_nodes(c, size if not c.unbounded_sizes else c.ite(size > p + 1, size, p + 1))
    calls = []

    def rec(q, g, a, b, tree):
        """the contract of the function, used for its recursive calls"""
        m = b - a + 1
        c.prove('recursive call: non-empty range', m >= 1)
        c.prove('recursive call: smaller range', m < n)
        c.prove('recursive call: free nodes come after the node', c.and_(q < g, 0 <= q))
        c.prove('recursive call: enough nodes', g + 2 * (m - 1) <= size)
        h = c.fresh_int('height')
        c.requires(h >= 0)
        calls.append((q, a, b, g, g + 2 * (m - 1)))
        # modifies start/end of node q and the nodes g .. g+2(m-1)-1 only
        return h, g + 2 * (m - 1)
    real = c.fn(B + '_make_sub_tree')
    if c.unbounded_sizes:
        c.replace(B + '_make_sub_tree', rec)
        c.targets.add(B + '_make_sub_tree')
    h, free = real(p, f, first, last, t)
    c.prove('nodes used', c.eq(free, f + 2 * (n - 1)))
    if not c.unbounded_sizes:
        c.prove('every element in exactly one leaf', c.eq(leaves_below(c, t.nodes, p, e), 1))
        c.prove('children after parents', [c.lt(i, x) for i in range(size) for x in (t.nodes[i].start, t.nodes[i].end)
                                           if t.nodes[i].start != t.nodes[i].end])
        return
    node = t.nodes[p]
    if not calls:
        c.prove('one element: a leaf that holds it', c.and_(c.eq(n, 1), c.eq(node.start, first), c.eq(node.end, first), c.eq(e, node.start)))
        return
    c.prove('two recursive calls', len(calls) == 2)
    (q1, a1, b1, g1, u1), (q2, a2, b2, g2, u2) = calls
    c.prove('children are the nodes that were split', c.and_(c.eq(node.start, q1), c.eq(node.end, q2)))
    c.prove('children after the parent', c.and_(node.start > p, node.end > p))
    c.prove('internal nodes do not look like leaves', c.not_(c.eq(node.start, node.end)))
    c.prove('children know their parent', c.and_(c.eq(t.nodes[q1].parent, p), c.eq(t.nodes[q2].parent, p)))
    c.prove('sub trees use disjoint nodes', c.and_(q2 < g1, q2 < g2, u1 <= g2, c.not_(c.eq(q1, q2))))
    in1, in2 = c.and_(a1 <= e, e <= b1), c.and_(a2 <= e, e <= b2)
    c.prove('every element of the range goes to exactly one half', c.and_(c.or_(in1, in2), c.not_(c.and_(in1, in2))))
    c.prove('no element from outside the range', c.and_(a1 >= first, b1 <= last, a2 >= first, b2 <= last))


@contract('C08', loops=True)
def chunks(c):
    """every element goes to exactly one chunk, chunks are never empty and fit the node capacity"""
    M, N = c.size('M', 1, 7), c.size('N', 1, 6)
    e = c.index('e', M)
    if not c.unbounded_sizes:
        X = c.array([[c.real('X%d_%d' % (i, a)) for a in range(3)] for i in range(4)])
        T_ = c.np.array([[i % 4, (i + 1) % 4, (i + 2) % 4] for i in range(M)])
        tree = c.call(B + 'make_bvh', X, T_, 3, N)
        c.prove('every element in exactly one leaf', sum(leaves_below(c, s.nodes, 0, e) for s in tree.chunks) == 1)
        c.prove('no element is made up', [0 <= x.start < M for s in tree.chunks for x in s.nodes if x.start == x.end and x.start != -1])
        c.prove('every node bounds the elements below it', [c.xle(s.nodes[0].volume.slabs[a].lower, X[v][a]) for s in tree.chunks for i in range(M)
                                                             if leaves_below(c, s.nodes, 0, i) for v in T_[i] for a in range(3)])
        return
    log, refits = [], []

    def sub(p, f, a, b, tree):
        log.append((p, f, a, b, tree))
        return 0, f + 2 * (b - a)
    c.replace(B + '_make_sub_tree', sub)
    c.replace(B + 'refit_bvh', lambda *a, **k: refits.append(a))
    st = c.fn(B + 'SubTree')
    sizes = []

    def mksub(n):
        s = st(1)
        sizes.append(n)
        return s
    c.replace(B + 'SubTree', mksub)
    g = dict(t=0)

    def rng(t):
        """the specified range of chunk t"""
        L = (N + 1) // 2
        lo = t * L
        return lo, c.ite(lo + L < M, lo + L, M) - 1

    def havoc(env, t):
        # ghost: the chunks before t have been made as specified
        env.tree.chunks = [None] * 0
        log.clear()
        sizes.clear()
        g['t'] = t

    def inv(env, t):
        """the call made by the iteration that just ended"""
        out = []
        for p, f, a, b, tree in log:
            lo, hi = rng(g['t'])
            out += [c.eq(a, lo), c.eq(b, hi), c.eq(p, 0), c.eq(f, 1), b >= a, 2 * (b - a) + 1 <= N, len(sizes) == 1, c.eq(sizes[0], N),
                    len(env.tree.chunks) == 1 and env.tree.chunks[0] is tree]
        return out if log else [True]
    c.invariant(B + 'make_bvh', 1, inv, havoc, modifies=('tree',), keep=())
    T_ = c.sequence(M, lambda i: i)
    X = c.vec('X')
    tree = c.call(B + 'make_bvh', X, T_, 3, N)
    c.prove('refitted once at the end', len(refits) == 1)
    if log:
        return
    # the specified ranges partition the elements
    L, C = c.define('L', (N + 1) // 2), c.define('C', g['t'])
    c.lemma('leaves per chunk', c.and_(L >= 1, c.or_(c.eq(2 * L, N), c.eq(2 * L, N + 1))))
    c.lemma('number of chunks', c.and_(C * L >= M, C * L < M + L))
    q, r = c.define('q', e // L), c.index('r', C)
    c.lemma('chunk of an element', c.and_(q * L <= e, e < q * L + L))
    c.lemma('is one of the chunks', c.and_(q >= 0, q < C), using=[q * L <= e, e < q * L + L, e < M, e >= 0, C * L >= M, L >= 1])
    c.lemma('other chunks are before or after', c.or_(c.eq(q, r), r * L + L <= e, r * L > e),
            using=[q * L <= e, e < q * L + L, L >= 1])


@contract('C08', loops=True)
def refit(c):
    """after refitting, every leaf volume bounds the current vertices of its element, every internal volume is the union of the
    (final) volumes of its children"""
    n = c.size('n', 1, 7)
    m = c.index('m', n)
    if not c.unbounded_sizes:
        t = fresh_nodes(c, n)
        k = (n + 1) // 2
        c.fn(B + '_make_sub_tree')(0, 1, 0, k - 1, t)
        V = c.table('V', 5, 3)
        T_ = c.np.array([[(3 * i + q) % 5 for q in range(3)] for i in range(k)])
        c.call(B + '_refit_sub_tree', V, T_, t, 3, c.const('0.25'), mutates=(2,))
        for x in t.nodes:
            if x.start == -1:
                continue
            want = c.fn(K + 'make')(3, V[T_[x.start]], c.const('0.25')) if x.start == x.end else \
                c.fn(K + 'union')(t.nodes[x.start].volume, t.nodes[x.end].volume)
            c.prove('node m is consistent with its element or its children',
                    [c.and_(c.eq(p.lower, q.lower), c.eq(p.upper, q.upper)) for p, q in zip(want.slabs, x.volume.slabs)])
        return
    start, end, parent = [c.table(x, n, (), -1, 6, integer=True) for x in ('start', 'end', 'parent')]
    vols = [c.table('vol', n)]
    node = c.fn(B + 'Node')

    def mk(i):
        x = node()
        x.start, x.end, x.parent, x.volume = start[i], end[i], parent[i], vols[-1][i]
        # established by _make_sub_tree: undefined, leaf, or two children after it
        c.requires(c.or_(c.and_(c.eq(start[i], -1), c.eq(end[i], -1), c.eq(parent[i], -1)), c.and_(c.eq(start[i], end[i]), start[i] >= 0),
                         c.and_(start[i] > i, end[i] > i, start[i] < n, end[i] < n, c.not_(c.eq(start[i], end[i])))))
        return x
    t = c.fn(B + 'SubTree')(1)
    t.nodes = c.sequence(n, mk)
    make, union = c.function('make', 1), c.function('union', 2)

    class Verts:
        def __getitem__(self, k):
            return k
    c.replace(K + 'make', lambda k, v, e: make(v))
    c.replace(K + 'union', lambda a, b: union(a, b))

    def ok(i):
        x = t.nodes[i]
        und = c.and_(c.eq(x.start, -1), c.eq(x.end, -1), c.eq(x.parent, -1))
        if und:
            return True
        if c.eq(x.start, x.end):
            return c.eq(x.volume, make(x.start))
        return c.eq(x.volume, union(t.nodes[x.start].volume, t.nodes[x.end].volume))

    def havoc(e, k):
        vols.append(c.table('vol!%d' % c.fresh_int().n.id, n))
        t.nodes.forget(mk)
    c.invariant(B + '_refit_sub_tree', 1, lambda e, k: True if m < n - k else ok(m), havoc, modifies=('sub_tree', 'node'))
    c.call(B + '_refit_sub_tree', Verts(), Verts(), t, 3, 0)
    c.prove('node m is consistent with its element or its children', ok(m))


@contract('C08', loops=True)
def refit_root(c):
    """refitting a tree refits every chunk exactly once, and the root volume is the union of the volumes of all chunks"""
    n = c.size('n', 0, 6)
    m = c.index('m', n)
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        k = c.choice('k', [3, 4])
        X, cap = c.table('X', 3 * 6, 3, -4, 4), c.choice('cap', [1, 2, 3, 4, 5])
        T_ = c.np.array([[3 * i, 3 * i + 1, 3 * i + 2] for i in range(n)]).reshape(n, 3)
        t = c.fn(B + 'make_bvh')(X, T_, k, cap)
        if c.choice('again', [0, 1]):
            X = X * 2 + c.vec('shift', 3, -4, 4)
            c.call(B + 'refit_bvh', X, T_, t, k, mutates=(2,))
        every = [c.fn(K + 'make')(k, X[T_[i]]) for i in range(n)]
        for a in range(k):
            c.prove('the root is the union of the volumes of the chunks',
                    [c.eq(t.root.slabs[a].lower, min([v.slabs[a].lower for v in every])), c.eq(t.root.slabs[a].upper, max([v.slabs[a].upper for v in every]))])
        return

    class Vol:
        """a volume, seen from chunk m: does it contain the volume of m, is it a union of volumes of chunks only"""
        def __init__(self, holds, pure):
            self.holds, self.pure = holds, pure
    count = {'n': 0}

    def mk(i):
        x = c.fn(B + 'SubTree')(1)
        x.number = i
        x.nodes[0].volume = Vol(c.eq(i, m), True)
        return x
    t = c.fn(B + 'Tree')()
    t.chunks = c.sequence(n, mk)
    V, T_, env = c.vec('V'), c.vec('T'), c.real('envelope')
    good = []

    def sub(v, e, x, k, envelope=0.0):
        good.append(c.and_(v is V, e is T_, k == 3, c.eq(envelope, env)))
        count['n'] = count['n'] + c.ite(c.eq(x.number, m), 1, 0)
    c.replace(B + '_refit_sub_tree', sub)
    c.replace(K + 'KDOP', lambda k: Vol(False, True) if k == 3 else None)
    c.replace(K + 'union', lambda a, b: Vol(c.or_(a.holds, b.holds), c.and_(a.pure, b.pure)))

    def h1(e, k):
        count['n'] = c.fresh_int('n')
        good.clear()

    def h2(e, k):
        e.tree.root = Vol(c.fresh('holds') > 0, c.fresh('pure') > 0)
    c.invariant(B + 'refit_bvh', 1, lambda e, k: [c.eq(count['n'], c.ite(m < k, 1, 0))] + good, h1, modifies=('tree',))
    c.invariant(B + 'refit_bvh', 2, lambda e, k: [c.iff(e.tree.root.holds, m < k), e.tree.root.pure], h2, modifies=('tree',))
    c.call(B + 'refit_bvh', V, T_, t, 3, env, mutates=(2,))
    c.prove('every chunk is refitted exactly once', c.eq(count['n'], 1))
    c.prove('the root is the union of the volumes of the chunks', [t.root.holds, t.root.pure])


def random_tree(c, name, n, cap, k, X):
    T_ = c.np.array([[(i + q) % len(X) for q in range(3)] for i in range(n)])
    return c.fn(B + 'make_bvh')(X, T_, k, cap), T_


@contract('C08', loops=True, budget=120)
def tandem(c):
    """partial correctness by a counting invariant: for a pair (a, b) of elements whose chains of volumes overlap,
    the number of reports so far plus the number of queued node pairs that are above (a, b) is one"""
    if not c.unbounded_sizes:
        return tandem_small(c)
    na, nb = c.size('na', 1), c.size('nb', 1)
    a, b = c.integer('a', 0, 5, bounded=False), c.integer('b', 0, 5, bounded=False)
    def tree(nm, n, elem):
        start, end = [c.table(nm + x, n, (), -1, 6, integer=True) for x in ('start', 'end')]
        above = c.table(nm + 'above', n, (), 0, 1, integer=True)     # is the node above the leaf that holds the element
        vol = c.table(nm + 'vol', n)

        class LazyNode:
            """contract of the construction: leaf or two adjacent children; exactly one leaf below the root holds the element"""
            def __init__(self, i):
                self.i, self.above, self.volume, self.known = i, above[i], vol[i], False
                c.requires(c.and_(self.above >= 0, self.above <= 1))

            def decide(self):
                if self.known:
                    return
                self.known = True
                i = self.i
                if c.boolean('%s node %s is a leaf' % (nm, getattr(getattr(i, 'n', None), 'id', i))):
                    self.s = self.e = start[i]
                    c.requires(self.s >= 0)
                    c.requires(c.iff(c.eq(above[i], 1), c.eq(self.s, elem)))
                else:
                    self.s = start[i]
                    self.e = self.s + 1
                    l, r = above[self.s], above[self.e]
                    c.requires(c.and_(self.s > 0, self.e < n, l >= 0, l <= 1, r >= 0, r <= 1))
                    c.requires(c.eq(above[i], l + r))

            @property
            def start(self):
                self.decide()
                return self.s

            @property
            def end(self):
                self.decide()
                return self.e
        mk = LazyNode
        t = c.fn(B + 'SubTree')(1)
        t.nodes = c.sequence(n, mk)
        t.above = above
        return t
    ta, tb = tree('A', na, a), tree('B', nb, b)
    c.requires(c.and_(c.eq(ta.above[0], 1), c.eq(tb.above[0], 1)))
    meets = c.function('meets', 2)

    def overlap(u, v):
        return meets(u, v) > 0
    overlap_calls = []

    def ov(u, v):
        return overlap(u, v)
    c.replace(K + 'overlap', ov)

    class Queue:
        """the queue: `total` = number of queued pairs above (a, b), other contents arbitrary"""
        def __init__(self, items=()):
            self.pending, self.total, self.half, self.some = None, 0, None, None

        def append(self, x):
            if self.pending is None:
                self.pending = x
            else:
                self.total = self.total + self.pending.above * x.above
                self.pending = None

        def popleft(self):
            if self.half is None:
                i, j = c.index('i!%d' % c.fresh_int().n.id, na), c.index('j!%d' % c.fresh_int().n.id, nb)
                x, y = ta.nodes[i], tb.nodes[j]
                self.half = y
                # the popped pair is one of the queued ones
                w = x.above * y.above
                c.requires(w <= self.total)
                self.total = self.total - w
                # the volumes on the way to a and b overlap (they contain the elements' volumes)
                c.requires(c.or_(c.eq(x.above, 0), c.eq(y.above, 0), meets(x.volume, y.volume) > 0))
                return x
            y, self.half = self.half, None
            return y

        def __bool__(self):
            return bool(self.some) if self.some is not None else True

        def __len__(self):
            return 1 if bool(self) else 0
    c.mod(B[:-1]).deque = Queue
    g = dict(n=0)

    class Results(list):
        def append(self, r):
            g['n'] = g['n'] + c.ite(c.and_(c.eq(r[0], a), c.eq(r[1], b)), 1, 0)

        def __getitem__(self, k):
            return None
    res = Results()

    def havoc(e, k):
        q = e.Q
        q.pending, q.half = None, None
        q.total, g['n'] = c.fresh_int('total'), c.fresh_int('reports')
        q.some = c.fresh('more') > 0
        c.requires(q.total >= 0)
        c.requires(c.or_(q.some, c.eq(q.total, 0)))

    def inv(e, k):
        return [c.eq(g['n'] + e.Q.total, 1), e.Q.pending is None]
    c.invariant(B + '_iterative_sub_tree_traversal', 1, inv, havoc, modifies=('Q', 'results'))
    c.call(B + '_iterative_sub_tree_traversal', ta, tb, res)
    c.prove('the pair is reported exactly once', c.eq(g['n'], 1))


def tandem_small(c):
    """all of construction, refit and traversal against the definition (sizes up to 6 elements)"""
    if c.sym:
        c.requires(False)
    k = c.choice('k', [3, 4])
    X = [c.array([[c.real('%s%d_%d' % (n, i, a)) for a in range(3)] for i in range(8)]) for n in "XY"]
    n = [c.size('na', 1, 6), c.size('nb', 1, 6)]
    (ta, Ta), (tb, Tb) = [random_tree(c, m, n[i], c.choice('cap%d' % i, [1, 2, 3, 4, 5, 6]), k, X[i]) for i, m in enumerate('ab')]
    if c.choice('refit', [0, 1]):
        X[0] = X[0] + c.vec('shift', 3, -4, 4)
        c.fn(B + 'refit_bvh')(X[0], Ta, ta, k)
    r = c.call(B + 'traversal', ta, tb)
    make, over = c.fn(K + 'make'), c.fn(K + 'overlap')
    want = sorted((i, j) for i in range(n[0]) for j in range(n[1]) if over(make(k, X[0][Ta[i]]), make(k, X[1][Tb[j]])))
    c.prove('the pair is reported exactly once', sorted((int(a), int(b)) for a, b in r) == want)


@contract('C08', loops=True)
def all_chunk_pairs(c):
    """every pair of chunks is traversed exactly once unless the roots do not overlap"""
    na, nb = c.size('na', 0, 3), c.size('nb', 0, 3)
    if not c.unbounded_sizes:
        if not c.sym:
            return tandem_small(c)
    i, j = c.index('i', na), c.index('j', nb)
    g = dict(n=0)
    c.replace(K + 'overlap', lambda a, b: c.function('meets', 2)(a, b) > 0)

    def sub(x, y, results):
        g['n'] = g['n'] + c.ite(c.and_(c.eq(x, i), c.eq(y, j)), 1, 0)
    c.replace(B + '_iterative_sub_tree_traversal', sub)
    ta, tb = c.fn(B + 'Tree')(), c.fn(B + 'Tree')()
    ta.root, tb.root = c.real('ra'), c.real('rb')
    ta.chunks, tb.chunks = c.sequence(na, lambda k: k), c.sequence(nb, lambda k: k)
    outer = {}

    def h1(e, k):
        g['n'] = c.fresh_int('n')
        outer['k'] = k

    def h2(e, k):
        g['n'] = c.fresh_int('n')
    before = lambda k: c.ite(i < k, 1, 0)
    c.invariant(B + 'traversal', 1, lambda e, k: c.eq(g['n'], before(k)), h1)
    c.invariant(B + 'traversal', 2, lambda e, k: c.eq(g['n'], before(outer['k']) + c.ite(c.and_(c.eq(i, outer['k']), j < k), 1, 0)), h2)
    c.call(B + 'traversal', ta, tb)
    meets = c.function('meets', 2)(ta.root, tb.root) > 0
    c.prove('pair of chunks', c.eq(g['n'], c.ite(meets, 1, 0)))
