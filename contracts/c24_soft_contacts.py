"""C24: contact generation of the soft bodies (prox_soft_bodies/collision_detection.py)"""
from pv.check import contract
from contracts.c24_collisions import Obj, Recorder, Field, Hull, any_argmin, unit_stub, same, on_triangle, CDS, G, numpy_unique
BC = 'rainbow.geometry.barycentric.'
T = 'rainbow.simulators.prox_soft_bodies.types.'


def near(c, x, y, tol):
    return c.eq(x, y) if c.sym else c.close(x, y, tol)


def triangle(c, n=''):
    return c.array([list(c.vec('v%d%s' % (i, n))) for i in range(3)])


@contract('C24')
def edge_sound(c):
    """True: there is a point on the edge that is a convex combination of the corners"""
    p, d, tri = c.vec('p'), c.vec('d'), triangle(c)
    v1, v2, v3 = tri
    n = c.cross(v2 - v1, v3 - v1)
    r = c.call(CDS + '_is_edge_crossing', p, p + d, tri)
    a = c.dot(d, n)
    if r:
        s = c.dot(v1 - p, n) / a
        x = p + s * d
        nn = c.dot(n, n)
        w = [c.dot(c.cross(v3 - v2, x - v2), n), c.dot(c.cross(v1 - v3, x - v3), n), c.dot(c.cross(v2 - v1, x - v1), n)]
        c.prove('on the edge', [c.xle(0, s), c.xle(s, 1)])
        c.prove('weights are not negative', [c.xle(0, e) for e in w])
        c.prove('the weights give the point', near(c, w[0] * v1 + w[1] * v2 + w[2] * v3, nn * x, 1e-6))
        c.prove('and sum to one', near(c, sum(w), nn, 1e-6))


@contract('C24')
def edge_complete(c):
    """an edge that is not parallel to the triangle and shares a point with it crosses it"""
    v1, b1, b2, d = [c.vec(q) for q in ('v', 'b1', 'b2', 'd')]
    v2, v3 = v1 + b1, v1 + b2
    tri = c.array([list(v1), list(v2), list(v3)])
    n = c.cross(b1, b2)
    w2, w3, s = [c.real(q, 0.05, 0.45) if c.sym else c.real(q, 0, 1) for q in ('w2', 'w3', 's')]
    margin = 0 if c.sym else 1e-6
    c.requires(c.and_(w2 >= margin, w3 >= margin, w2 + w3 <= 1 - margin, margin <= s, s <= 1 - margin))
    a = c.dot(d, n)
    c.requires(a >= c.const('0.001') if c.boolean('from above') else a <= -c.const('0.001'))
    x = v1 + w2 * b1 + w3 * b2
    p = x - s * d
    nn = c.define('nn', c.dot(n, n))
    for i, w in enumerate((w2, w3, 1 - w2 - w3)):
        c.lemma('weights times the normal', nn * w >= 0, using=[nn >= 0, w >= 0])
        c.lemma('weights times the normal', c.dot(n, n) * w >= 0)
    c.prove('crossing', c.call(CDS + '_is_edge_crossing', p, p + d, tri))


@contract('C24', loops=True)
def triangles_intersect(c):
    """two triangles intersect if any of the six edges crosses the other triangle"""
    X, Y = triangle(c, 'a'), triangle(c, 'b')
    asked = []
    real, real2 = c.fn(CDS + '_is_edge_crossing'), c.fn(CDS + '_triangle_intersection')
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        r = real2(X, Y)
        hit = any(real(A[i], A[j], B) for A, B in ((X, Y), (Y, X)) for i in range(3) for j in range(i))
        c.prove('exactly if an edge crosses', r == hit)
        return

    def crossing(p, q, tri):
        asked.append((p, q, tri, c.boolean('crossing%d' % len(asked))))
        return asked[-1][3]
    c.replace(CDS + '_is_edge_crossing', crossing)
    keep = c.snapshot(X, Y)
    r = c.fn(CDS + '_triangle_intersection')(X, Y)
    c.targets.add(CDS + '_triangle_intersection')
    c.prove('arguments are unchanged', c.unchanged(keep))
    edges = lambda A: [(A[i], A[j]) for i in range(3) for j in range(i)]
    c.prove('exactly if an edge crosses', bool(r) == any(a[3] for a in asked))
    if r:
        c.prove('an edge of one and the other triangle', [any(same(c, list(a[2].ravel()), list(B.ravel())) and any((same(c, a[0], p) and same(c, a[1], q)) or (same(c, a[0], q) and same(c, a[1], p)) for p, q in edges(A)) for A, B in ((X, Y), (Y, X))) for a in asked if a[3]])
    else:
        c.prove('all edges were tested', [any(same(c, list(a[2].ravel()), list(B.ravel())) and ((same(c, a[0], p) and same(c, a[1], q)) or (same(c, a[0], q) and same(c, a[1], p))) for a in asked) for A, B in ((X, Y), (Y, X)) for p, q in edges(A)])


@contract('C24')
def self_collision(c):
    """triangles of one body collide if they have no vertex in common, their boxes overlap and they intersect"""
    X, Y = triangle(c, 'a'), triangle(c, 'b')
    AB = c.fn('rainbow.geometry.aabb.AABB')
    if c.sym:
        box, meets = c.boolean('boxes'), c.boolean('meets')
        c.replace('rainbow.geometry.aabb.AABB.is_overlap', lambda a, b, boundary=0.0: c.prove('the boxes of the triangles', {id(a), id(b)} == {1, 2} or (a, b) in (('A', 'B'), ('B', 'A'))) or box)
        c.replace(CDS + '_triangle_intersection', lambda a, b: c.prove('the triangles', (a is X and b is Y) or (a is Y and b is X)) or meets)
        share = c.boolean('share')
        c.replace(CDS + '_is_share_vertex', lambda a, b: c.prove('the triangles', (a is X and b is Y) or (a is Y and b is X)) or share)
        r = c.call(CDS + '_is_self_collision', X, Y, 'A', 'B')
        c.prove('self collision', bool(r) == (not share and box and meets))
        return
    if c.boolean('shared'):
        Y[c.choice('i', range(3))] = X[c.choice('j', range(3))]
        share = True
    else:
        share = False
    mk = AB.create_from_vertices
    r = c.call(CDS + '_is_self_collision', X, Y, mk(X), mk(Y))
    meets = c.fn(CDS + '_triangle_intersection')(X, Y)
    c.prove('self collision', bool(r) == (not share and bool(meets)))


@contract('C24')
def shared_vertex(c):
    X, Y = triangle(c, 'a'), triangle(c, 'b')
    if not c.sym:
        for i in range(3):
            if c.boolean('same%d' % i):
                Y[i] = X[c.choice('of%d' % i, range(3))]
            if c.boolean('nearly%d' % i):
                Y[i, c.choice('axis%d' % i, range(3))] += 1e-9
    if c.sym:
        from contracts._soft import numpy_with
        numpy_with(c, CDS[:-1], array_equal=lambda a, b: c.and_(*[c.xeq(x, y) for x, y in zip(a, b)]))
    r = c.call(CDS + '_is_share_vertex', X, Y)
    c.prove('exactly if two corners are equal', c.iff(bool(r) if not c.sym else r, c.or_(*[c.and_(*[c.xeq(x[k], y[k]) for k in range(3)]) for x in X for y in Y])))


def tetrahedron_stub(c):
    """contract of compute_barycentric_tetrahedron (C07): the weights sum to one and give the point"""
    n = []

    def weights(x1, x2, x3, x4, p):
        n.append(1)
        w = c.array([c.real('w%d %d' % (len(n), i)) for i in range(4)])
        c.requires([c.eq(sum(w), 1), c.eq(w[0] * x1 + w[1] * x2 + w[2] * x3 + w[3] * x4, p)])
        return tuple(w)
    c.replace(BC + 'compute_barycentric_tetrahedron', weights)


def det(c, X):
    return c.dot(X[0] - X[3], c.cross(X[1] - X[3], X[2] - X[3]))


@contract('C24')
def triangle_to_material(c):
    """the affine map that takes the tetrahedron to its material shape takes the triangle along"""
    X = c.array([list(c.vec('X%d' % i)) for i in range(4)])
    M, t, P = c.mat('M'), c.vec('t'), triangle(c)
    v = det(c, X)
    c.requires(c.or_(v > c.const('0.01'), v < -c.const('0.01')))
    f = lambda x: c.mv(M, x) + t
    X0 = c.array([list(f(x)) for x in X])
    if c.sym:
        n, args = [], []

        def weights(x1, x2, x3, x4, p):
            """contract of compute_barycentric_tetrahedron (C07), for the tetrahedron X: p is given by weights that sum to one"""
            u = n.pop(0)
            c.prove('the weights of a corner in the world', [c.eq(a, b) for a, b in zip((x1, x2, x3, x4), X)] + [c.eq(p, P[len(args)])])
            args.append(u)
            return tuple(u)
        n += [list(c.vec('w%d' % i)) for i in range(3)]
        n = [u + [1 - u[0] - u[1] - u[2]] for u in n]
        P = c.array([list(sum(a * x for a, x in zip(u, X))) for u in n])
        c.replace(BC + 'compute_barycentric_tetrahedron', weights)
    keep = c.snapshot(P, X, X0)
    P0 = c.fn(CDS + '_xform_triangle_to_model_space')(P, X, X0)
    c.targets.add(CDS + '_xform_triangle_to_model_space')
    c.prove('arguments are unchanged', c.unchanged(keep))
    c.prove('corners', [near(c, P0[i], f(P[i]), 1e-6) for i in range(3)])


@contract('C24')
def contact_to_world(c):
    """the affine map from the material shape to the world takes the contact point along; the weights of both bodies give the
    point; the normal is the gradient of the field carried along"""
    XA = c.array([list(c.vec('XA%d' % i)) for i in range(4)])
    X0 = c.array([list(c.vec('X%d' % i)) for i in range(4)])
    M, t, n0 = c.mat('M'), c.vec('t'), c.vec('n')
    big = lambda v: c.or_(v > c.const('0.05'), v < -c.const('0.05'))
    c.requires([big(det(c, XA)), big(det(c, X0)), big(c.det3(M))])
    f = lambda x: c.mv(M, x) + t
    XB = c.array([list(f(x)) for x in X0])
    if c.sym:
        u = list(c.vec('u'))
        u = u + [1 - u[0] - u[1] - u[2]]
        p0 = sum(a * x for a, x in zip(u, X0))
        n, wa = [], list(c.vec('w'))
        wa = wa + [1 - wa[0] - wa[1] - wa[2]]

        def weights(x1, x2, x3, x4, p):
            n.append(1)
            S, w = (X0, u) if len(n) == 1 else (XA, wa)
            c.prove('the weights of the tetrahedron', [c.eq(a, b) for a, b in zip((x1, x2, x3, x4), S)])
            if len(n) == 1:
                c.prove('of the point in material space', c.eq(p, p0))
            else:
                c.requires(c.eq(sum(a * x for a, x in zip(wa, XA)), p))
            return tuple(w)
        c.replace(BC + 'compute_barycentric_tetrahedron', weights)
        got = {}

        def solve(D, r):
            got['D'], got['r'] = D, r
            x = got['x'] = c.vec('solution')
            c.requires(c.eq(c.mv(D, x), r))
            return x
        c.stubs['solve'] = solve
    else:
        p0 = c.vec('p')
    keep = c.snapshot(p0, n0, XA, XB, X0)
    p, n, wA, wB = c.fn(CDS + '_xform_contact_to_world')(p0, n0, XA, XB, X0)
    c.targets.add(CDS + '_xform_contact_to_world')
    c.prove('arguments are unchanged', c.unchanged(keep))
    c.prove('the point is carried along', near(c, p, f(p0), 1e-6))
    c.prove('the weights of both bodies give it', [near(c, sum(a * x for a, x in zip(wA, XA)), p, 1e-6), near(c, sum(a * x for a, x in zip(wB, XB)), p, 1e-6)])
    c.prove('they sum to one', [near(c, sum(wA), 1, 1e-7), near(c, sum(wB), 1, 1e-7)])
    D0 = [X0[i] - X0[3] for i in range(3)]
    e = c.mv(c.transpose(M), n) - n0
    if c.sym:
        rows = [c.dot(d, e) for d in D0]
        c.lemma('along the edges', [c.eq(r, 0) for r in rows])
        adj = [c.cross(D0[1], D0[2]), c.cross(D0[2], D0[0]), c.cross(D0[0], D0[1])]
        c.lemma('Cramer', c.eq(det(c, X0) * e, sum(r * a for r, a in zip(rows, adj))))
        d = c.define('det', det(c, X0))
        for k in range(3):
            g = c.define('e%d' % k, e[k])
            c.lemma('the edges span the space', c.eq(d * g, 0))
            c.lemma('no change', c.eq(g, 0), using=[c.eq(d * g, 0), c.not_(c.eq(d, 0))])
    c.prove('a change of the field along any direction is the same in both spaces', near(c, e, c.np.zeros(3), 1e-6))


def concrete_contacts(c):
    """contacts of one body pair: exactly where the search on a triangle ends within the envelope"""
    import numpy
    from contracts._soft import boxes
    from contracts.c24_collisions import proxy
    e = boxes(c, 2, hashing=False)
    p = e.params
    p.contact_optimization_max_iterations, p.contact_optimization_tolerance = c.choice('iterations', [8, 1, 3]), c.choice('tolerance', [0, 0.5])
    a, b = e.bodies.values()
    for i, x in enumerate((a, b)):
        x.x = x.x + 0.02 * numpy.array([c.vec('d%d %d' % (i, j), 3, -1, 1) for j in range(len(x.x))])
    if c.boolean('swap'):
        a, b = b, a
    asked = []
    base = proxy(c, CDS[:-1], 'GRID', is_inside=lambda g, x, boundary=0.5: asked.append((g, x.copy())) or base.is_inside(g, x, boundary))
    pairs = [(c.choice('tA%d' % i, range(len(a.surface))), c.choice('tB%d' % i, range(len(b.surface)))) for i in range(c.choice('pairs', [12, 0, 1]))]
    had = e.contact_points = [object()]
    debug = c.boolean('debug')
    keep = c.snapshot(*[x for q in (a, b) for x in (q.x, q.x0, q.T, q.surface, q.owners, q.grid.values)])
    c.call(CDS + '_compute_contacts', e, {}, a, b, numpy.array(pairs, dtype=int).reshape(-1, 2), debug, mutates=(0, 1))
    c.prove('bodies are not changed', c.unchanged(keep))
    new = [x for x in e.contact_points if x is not had[0]]
    c.prove('earlier contacts are kept', e.contact_points[0] is had[0])
    c.prove('one search per pair', [len(asked) == len(pairs)] + [g is b.grid for g, _ in asked])
    for (g, x0), (s, t) in zip(asked, pairs):
        # the tetrahedra behind the triangles
        own = lambda body, f: [q for q in range(len(body.T)) if set(body.surface[f]) <= set(body.T[q])]
        ta, tb = own(a, s)[0], own(b, t)[0]
        XA, XB, X0 = a.x[a.T[ta]], b.x[b.T[tb]], b.x0[b.T[tb]]
        up = numpy.linalg.solve(X0[:3] - X0[3], XB[:3] - XB[3]).T
        w = up @ (x0 - X0[3]) + XB[3]
        c.prove('the point is on the triangle', on_triangle(c, w, a.x[a.surface[s]]))
        phi, n = base.get_value(b.grid, x0), base.get_gradient(b.grid, x0)
        if base.is_inside(b.grid, x0, 0) and phi <= p.envelope and numpy.linalg.norm(n) > 0:
            c.prove('a contact is made', len(new) > 0)
            if not new:
                return
            cp = new.pop(0)
            n = numpy.linalg.inv(up).T @ n
            c.prove('from the body with the field to the body with the triangle', [cp.bodyA is b, cp.bodyB is a, cp.idx_tetA == tb, cp.idx_tetB == ta])
            c.prove('contact', [c.close(cp.p, w, 1e-7), c.close(cp.g, phi, 1e-9), c.close(cp.n, n / numpy.linalg.norm(n), 1e-7)])
            c.prove('weights', [c.close(XB.T @ cp.omegaA, w, 1e-7), c.close(XA.T @ cp.omegaB, w, 1e-7), c.close(sum(cp.omegaA), 1, 1e-8), c.close(sum(cp.omegaB), 1, 1e-8)])
    c.prove('no other contacts', new == [])


@contract('C24', loops=True, paths=4000)
def soft_contacts(c):
    """any number of triangle pairs and optimisation steps: the search stays on the triangle; a contact is made exactly for a point
    within the envelope, with what the transformation to the world gives, and the unit normal"""
    F = CDS + '_compute_contacts'
    if not c.unbounded_sizes:
        if c.sym:
            return c.requires(False)
        return concrete_contacts(c)
    a, b, e = Obj(), Obj(), Obj()
    K = c.size('K', 0, 3)
    for s in (a, b):
        n = 'a' if s is a else 'b'
        N, M, F_ = c.size('N' + n, 4, 5), c.size('M' + n, 1, 3), c.size('F' + n, 1, 4)
        s.x, s.x0 = c.table('x' + n, N, 3), c.table('x0' + n, N, 3)
        s.T = c.table('T' + n, M, 4, integer=True, within=(0, N))
        s.surface, s.owners = c.table('S' + n, F_, 3, integer=True, within=(0, N)), c.table('O' + n, F_, 2, integer=True, within=(0, M))
        s.F = F_
    b.grid = object()
    field = Field(c)
    field.install(c, b.grid)
    hull = Hull(c, c.vec('h'))
    any_argmin(c, CDS[:-1])
    unit_stub(c)
    results = c.table('results', K, 2, integer=True, rng=range(1))
    cur = {}
    nodes = lambda X, t, n: c.array([list(X.at(t[i])[0]) for i in range(n)])

    def ids(k):
        s, t = results.at(k)[0][0], results.at(k)[0][1]
        return s, t, a.owners.at(s)[0][0], b.owners.at(t)[0][0]

    def down(P, X, X0):
        """contract of _xform_triangle_to_model_space: the corners in material space are called P0"""
        s, t, ta, tb = ids(cur['k'])
        c.prove('the triangle and the tetrahedra of the pair', [c.eq(P, nodes(a.x, a.surface.at(s)[0], 3)), c.eq(X, nodes(b.x, b.T.at(tb)[0], 4)), c.eq(X0, nodes(b.x0, b.T.at(tb)[0], 4))])
        return cur['P0'] + 0

    def up(p, n, XA, XB, X0):
        """contract of _xform_contact_to_world: a regular map, so the gradient does not vanish"""
        s, t, ta, tb = ids(cur['k'])
        c.prove('the tetrahedra of the pair', [c.eq(XA, nodes(a.x, a.T.at(ta)[0], 4)), c.eq(XB, nodes(b.x, b.T.at(tb)[0], 4)), c.eq(X0, nodes(b.x0, b.T.at(tb)[0], 4))])
        g = field.gradient(p)
        c.prove('the gradient at the point', [c.eq(n, g)])
        cur['up'] = [p + 0, c.vec('world'), c.vec('normal'), c.vec('wA', 4), c.vec('wB', 4)]
        c.requires(c.dot(cur['up'][2], cur['up'][2]) > 0)
        return tuple(q + 0 for q in cur['up'][1:])
    c.replace(CDS + '_xform_triangle_to_model_space', down)
    c.replace(CDS + '_xform_contact_to_world', up)
    e.params = Obj()
    e.params.contact_optimization_max_iterations = c.size('steps', 0, 3)
    e.params.contact_optimization_tolerance, e.params.envelope = c.real('tol', -1, 1), c.real('envelope', 0, 1)
    rec = e.contact_points = Recorder()

    def outer_havoc(env, k):
        rec.new.clear()
        field.forget()
        cur.clear()
        cur['k'], cur['P0'] = k, triangle(c)
        if not c.identical(k, K):
            s, t = results.at(k)[0][0], results.at(k)[0][1]
            c.requires([0 <= s, s < a.F, 0 <= t, t < b.F])
            hull.around(cur['P0'])

    def outer(env, k):
        if c.phase == 'entry':
            return [rec.new == [], e.contact_points is rec]
        if c.phase != 'preserved':
            return [True]
        out = [len(field.asked) == 1]
        if len(field.asked) != 1:
            return out
        x, inside = field.asked[0]
        x = c.array(x)
        phi, g = field.value(x), field.gradient(x)
        want = c.and_(inside, c.le(phi, e.params.envelope), c.dot(g, g) > 0)
        out += [c.iff(want, len(rec.new) == 1), len(rec.new) <= 1, e.contact_points is rec, hull.holds(x)]
        s, t, ta, tb = ids(cur['k'])
        for cp in rec.new:
            p0, p, n, wA, wB = cur['up']
            ln = c.fn('rainbow.math.vector3.norm')(n)
            out += [cp.bodyA is b, cp.bodyB is a, c.eq(cp.idx_tetA, tb), c.eq(cp.idx_tetB, ta), c.eq(p0, x), c.eq(cp.p, p), c.eq(cp.g, phi),
                    c.eq(cp.omegaA, wB), c.eq(cp.omegaB, wA), c.eq(c.dot(cp.n, cp.n), 1), c.eq(ln * cp.n, n), ln > 0]
        return out

    def inner_havoc(env, k):
        field.forget()
        return {'x_i': c.vec('x')}
    c.invariant(F, 1, outer, outer_havoc, modifies=('engine', 'stats'))
    c.invariant(F, 2, lambda env, k: [hull.holds(env.x_i)], inner_havoc, modifies=('engine', 'stats'))
    c.call(F, e, {}, a, b, results, False, mutates=(0, 1))
    c.prove('nothing else', [rec.new == [], e.contact_points is rec])
