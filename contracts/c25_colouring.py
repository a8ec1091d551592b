"""C25: grouping contacts into independent blocks (rainbow/simulators/proximal_contact/blocking.py)"""
from pv.check import contract
B = 'rainbow.simulators.proximal_contact.blocking.'


# most pairs share one node, in every pair of positions
TETS = [[0, 1, 2, 3], [0, 4, 5, 6], [7, 0, 8, 9], [10, 11, 0, 12], [13, 14, 15, 0], [1, 4, 10, 13], [2, 7, 11, 14], [6, 3, 9, 15], [5, 8, 12, 13]]


class Obj:
    pass


class Graph:
    """recorder for networkx.Graph, seen from one pair of contacts: is the edge there"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.edge, self.nodes, self.more = c, a, b, False, None, 0

    def add_nodes_from(self, x):
        self.nodes = x

    def add_edge(self, u, v):
        c = self.c
        self.more += 1
        hit = c.or_(c.and_(c.eq(u, self.a), c.eq(v, self.b)), c.and_(c.eq(u, self.b), c.eq(v, self.a)))
        self.edge = c.or_(self.edge, hit)

    def __pv_state__(self):
        return self.more


class Set:
    """a set of symbolic numbers"""
    def __init__(self, c, xs):
        self.c, self.xs = c, list(xs)

    def meets(self, o):
        return self.c.or_(*[self.c.eq(x, y) for x in self.xs for y in o.xs])

    def intersection(self, o):
        return Common(self.meets(o))

    __and__ = intersection

    def isdisjoint(self, o):
        return not self.meets(o)


class Common:
    def __init__(self, some):
        self.some = some

    def __len__(self):
        return 1 if self.some else 0

    def __bool__(self):
        return bool(self.some)


def graph(c, kind):
    """any number of contacts: an edge between two contacts if they share a movable body (node), and only if they share a body"""
    q = B + 'build_contact_graph'
    K = c.size('K', 2)
    a, b = c.index('a', K), c.index('b', K)
    c.requires(a < b)
    tabs = {x: c.table(x, K, (), 0, 5, integer=True) for x in ('A', 'B')}
    fixed = c.function('fixed', 1)
    rest = {x: c.table(x, K, 4, 0, 9, integer=True) for x in ('TA', 'TB')} if kind == 'soft_body' else {}
    off = c.function('off', 1)

    def mk(i):
        p = Obj()
        for x in 'AB':
            d = Obj()
            d.idx = tabs[x][i]
            if kind == 'soft_body':
                t = rest['T' + x][i]
                d.T = {('tet', x): t}
                d.T = type('Tets', (), {'__getitem__': lambda s, k, t=t, x=x: t if k == 'tet' + x else None})()
                d.offset = off(d.idx)
                setattr(p, 'idx_tet' + x, 'tet' + x)
            setattr(p, 'body' + x, d)
        return p
    pts = c.sequence(K, mk)
    g = []

    def new():
        g.append(Graph(c, a, b))
        return g[-1]
    nx = Obj()
    nx.Graph = new
    c.mod(B[:-1]).nx = nx
    c.mod(B[:-1]).set = lambda xs=(): Set(c, xs)

    def nodes(i):
        if kind == 'rigid_body':
            return [tabs['A'][i], tabs['B'][i]]
        return [rest['T' + x][i][q] + off(tabs[x][i]) for x in 'AB' for q in range(4)]
    na, nb = nodes(a), nodes(b)
    share = c.or_(*[c.eq(x, y) for x in na for y in nb])
    if kind == 'rigid_body':
        movable = c.or_(*[c.and_(c.eq(x, y), c.eq(fixed(x), 0)) for x in na for y in nb])
    else:
        movable = share
    outer = {}

    def done(before):
        e = g[0].edge
        if before:
            return [c.implies(movable, e), c.implies(e, share)]
        return [c.not_(e)]

    def h(e, k):
        g[0].edge = c.fresh('edge') > 0
        g[0].more = 0

    def h1(e, k):
        outer['k'] = k
        h(e, k)
    c.invariant(q, 1, lambda e, k: done(bool(a < k)), h1, modifies=('G',))
    inner = lambda e, i: done(bool(c.or_(a < outer['k'], c.and_(c.eq(a, outer['k']), b < outer['k'] + 1 + i))))
    c.invariant(q, 2 if kind == 'rigid_body' else 3, inner, h, modifies=('G',))
    G = c.call(q, pts, *([] if kind == 'rigid_body' and c.boolean('default') else [kind]))
    ns = G.nodes
    c.prove('every contact is a vertex', [c.eq(ns.shape[0], K), c.eq(ns[a], a)])
    c.prove('an edge if they share a movable body, and only if they share a body', done(True) + [G is g[0]])


def scene(c, kind):
    """concrete: contacts between random bodies"""
    K, n = c.choice('K', [1, 2, 3, 6, 10, 14]), c.choice('n', [2, 3, 5, 9])
    bodies = []
    for i in range(n):
        d = Obj()
        d.idx, d.is_fixed = i, False
        d.offset = 16 * i
        d.T = c.np.array(TETS)
        bodies.append(d)
    pts = []
    for k in range(K):
        p = Obj()
        i = c.choice('i%d' % k, range(n))
        j = (i + 1 + c.choice('j%d' % k, range(n - 1))) % n
        p.bodyA, p.bodyB = bodies[i], bodies[j]
        p.idx_tetA, p.idx_tetB = c.choice('tA%d' % k, range(len(TETS))), c.choice('tB%d' % k, range(len(TETS)))
        p.idx = k
        pts.append(p)
    if kind == 'rigid_body':
        touch = [{p.bodyA.idx, p.bodyB.idx} for p in pts]
    else:
        touch = [{int(x) + b.offset for b, t in ((p.bodyA, p.idx_tetA), (p.bodyB, p.idx_tetB)) for x in b.T[t]} for p in pts]
    return pts, touch


def blocks_of(groups):
    return {col: [(int(s), int(e)) for s, e in v] for col, v in groups.items()}


def whole(c, kind):
    pts, touch = scene(c, kind)
    K = len(pts)
    G = c.call(B + 'build_contact_graph', pts, kind)
    c.prove('every contact is a vertex', sorted(int(x) for x in G.nodes()) == list(range(K)))
    edges = {tuple(sorted((int(a), int(b)))) for a, b in G.edges()}
    want = {(a, b) for a in range(K) for b in range(a + 1, K) if touch[a] & touch[b]}
    c.prove('an edge if they share a movable body, and only if they share a body', edges == want)
    g = blocks_of(c.call(B + 'greedy_graph_coloring', G))
    every = sorted(x for v in g.values() for x in v)
    c.prove('every contact is in exactly one block of four rows', every == [(4 * k, 4 * k + 4) for k in range(K)])
    c.prove('contacts in a group share no body', all(not (touch[a[0] // 4] & touch[b[0] // 4]) for v in g.values() for a in v for b in v if a < b))
    deg = max([sum(1 for e in want if k in e) for k in range(K)] + [0])
    c.prove('no more groups than a greedy colouring needs', len(g) <= deg + 1)
    r = c.call(B + 'random_graph_coloring', G, 5)
    c.prove('random colouring: every contact in exactly one group', sorted(int(x) for v in r.values() for x in v) == list(range(K)))
    c.prove('random colouring: contacts in a group share no body', all(not (touch[a] & touch[b]) for v in r.values() for a in v for b in v if a < b))
    c.expect_raise('unknown kind of body', c.fn(B + 'build_contact_graph'), pts, 'cloth', exc=ValueError)


@contract('C25', loops=True)
def rigid_graph(c):
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole(c, 'rigid_body')
    graph(c, 'rigid_body')


@contract('C25', loops=True, budget=200)
def soft_graph(c):
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole(c, 'soft_body')
    graph(c, 'soft_body')


@contract('C25', loops=True)
def groups(c):
    """any number of contacts and any colouring: contact m is in the group of its colour exactly once, as the rows 4m .. 4m+3,
    and nowhere else (networkx's greedy_color is trusted to give every vertex a colour different from its neighbours')"""
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        return whole(c, 'rigid_body')
    q = B + 'greedy_graph_coloring'
    K = c.size('K', 1)
    m = c.index('m', K)
    col = c.table('colour', K, (), 0, 5, integer=True)
    g = {'n': 0, 'bad': []}
    from pv.loops import SymList

    class Colours:
        """the dictionary contact -> colour"""
        def items(self):
            return SymList(K, lambda k: (k, col[k]))

        def keys(self):
            return SymList(K, lambda k: k)

        def __getitem__(self, k):
            return col[k]

    class Groups:
        def __getitem__(self, colour):
            class L:
                def append(s, r):
                    mine = c.and_(c.eq(r[0], 4 * m), c.eq(r[1], 4 * m + 4))
                    g['n'] = g['n'] + c.ite(mine, 1, 0)
                    g['bad'].append(c.implies(mine, c.eq(colour, col[m])))
                    # an entry stands for the four rows of one contact
                    g['bad'].append(c.eq(r[1], r[0] + 4))
                    g['rows'] = r
            return L()

        def __pv_state__(self):
            return None
    asked = []
    nx = Obj()
    nx.coloring = Obj()
    nx.coloring.greedy_color = lambda G, *a, **k: asked.append(G) or Colours()
    M = c.mod(B[:-1])
    M.nx, M.defaultdict, M.sorted, M.dict = nx, lambda t=None: Groups(), lambda x: x, lambda x: type('D', (), {'items': lambda s: x})()

    def h(e, k):
        g['n'] = c.fresh_int('n')
        g['bad'].clear()
        g.pop('rows', None)

    def inv(e, k):
        out = [c.eq(g['n'], c.ite(m < k, 1, 0))]
        if c.phase == 'preserved':
            r = g.get('rows')
            out += g['bad'] + [r is not None and c.eq(r[0], 4 * (k - 1))]
        return out
    c.invariant(q, 1, inv, h, modifies=('color_groups',))
    G = Obj()
    r = c.call(q, G)
    c.prove('the contact is in the group of its colour exactly once', [c.eq(g['n'], 1), isinstance(r, Groups), asked == [G]])
