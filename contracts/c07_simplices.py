"""C07: barycentric coordinates and tetrahedra (rainbow/geometry/barycentric.py, tetrahedron.py)"""
from pv.check import contract
B = 'rainbow.geometry.barycentric.'
T = 'rainbow.geometry.tetrahedron.'


def vol6(c, a, b, d, e):
    return c.dot(e - a, c.cross(b - a, d - a))


@contract('C07')
def edge(c):
    """every point is a + t u + u x m (the last part orthogonal to the edge u)"""
    a, u, t, m = c.vec('a'), c.vec('u'), c.real('t', -2, 2), c.vec('m')
    c.requires(c.dot(u, u) > c.const('0.01'))
    w1, w2 = c.call(B + 'compute_barycentric_edge', a, a + u, a + u * t + c.cross(u, m))
    c.prove('coordinates of the orthogonal projection onto the line', [c.eq(w1, 1 - t), c.eq(w2, t)])
    c.prove('sum to one', c.eq(w1 + w2, 1))


@contract('C07')
def triangle(c):
    """every point is a + s u + t v + h (u x v)"""
    a, u, v = c.vec('a'), c.vec('u'), c.vec('v')
    s, t, h = c.real('s', -2, 2), c.real('t', -2, 2), c.real('h', -2, 2)
    n = c.cross(u, v)
    c.requires(c.and_(c.dot(n, n) > c.const('0.01'), c.dot(u, u) > 0, c.dot(v, v) > 0))
    w = c.call(B + 'compute_barycentric_triangle', a, a + u, a + v, a + u * s + v * t + n * h)
    c.prove('coordinates of the orthogonal projection onto the plane', [c.eq(w[0], 1 - s - t), c.eq(w[1], s), c.eq(w[2], t)])
    c.prove('sum to one', c.eq(w[0] + w[1] + w[2], 1))


@contract('C07')
def tetrahedron(c):
    """both orientations"""
    x = [c.vec('x%d' % i) for i in range(4)]
    p = c.vec('p')
    v = vol6(c, *x)
    c.requires(c.or_(v > c.const('0.01'), v < -c.const('0.01')))
    w = c.call(B + 'compute_barycentric_tetrahedron', *x, p)
    c.prove('sum to one', c.eq(w[0] + w[1] + w[2] + w[3], 1))
    c.prove('reproduces the point', c.eq(x[0] * w[0] + x[1] * w[1] + x[2] * w[2] + x[3] * w[3], p))


@contract('C07')
def tetrahedron_reproduces(c):
    x = [c.vec('x%d' % i) for i in range(4)]
    u = [c.real('u%d' % i, -1, 1) for i in range(3)]
    v = vol6(c, *x)
    c.requires(c.or_(v > c.const('0.01'), v < -c.const('0.01')))
    u = u + [1 - u[0] - u[1] - u[2]]
    w = c.call(B + 'compute_barycentric_tetrahedron', *x, x[0] * u[0] + x[1] * u[1] + x[2] * u[2] + x[3] * u[3])
    for i in range(4):
        c.prove('coordinate %d' % i, c.eq(w[i], u[i]))


@contract('C07')
def gradients(c):
    """the coordinates are affine, so each gradient g is right iff g.(p-q) is the change of the coordinate: checked on the corners"""
    x = [c.vec('x%d' % i) for i in range(4)]
    c.requires(vol6(c, *x) > c.const('0.01'))
    g = c.call(B + 'compute_barycentric_derivatives_tetrahedron', *x)
    for i in range(4):
        for j in range(4):
            for k in range(j):
                c.prove('change of coordinate %d' % i, c.eq(c.dot(g[i], x[j] - x[k]), (1 if i == j else 0) - (1 if i == k else 0)))


@contract('C07')
def gradients_reject(c):
    x = [c.vec('x%d' % i) for i in range(4)]
    c.requires(vol6(c, *x) < -c.const('0.01'))
    c.expect_raise('inverted tetrahedra are rejected', lambda: c.call(B + 'compute_barycentric_derivatives_tetrahedron', *x), exc=AssertionError)


def inside(n, fname):
    def f(c):
        w = c.vec('w', n, -0.5, 1.5)
        last = 1 - sum(w[i] for i in range(n - 1))
        u = [w[i] for i in range(n - 1)] + [last]
        r = c.call(B + fname, *u)
        if not c.sym and abs(sum(u) - 1) > 0:
            return
        c.prove('inside exactly when no coordinate is negative', c.iff(r, c.and_(*[c.xle(0, x) for x in u])))
    return f


for _n, _f in ((2, 'edge'), (3, 'triangle'), (4, 'tetrahedron')):
    contract('C07', name='inside_' + _f)(inside(_n, 'is_inside_' + _f))


@contract('C07')
def inside_rejects_wrong_sum(c):
    w = c.vec('w', 4, -0.5, 1.5)
    c.requires(w[0] + w[1] + w[2] + w[3] > 1)
    c.prove('weights above one in total', c.not_(c.call(B + 'is_inside_tetrahedron', *w)))


@contract('C07')
def volume(c):
    x = [c.vec('x%d' % i) for i in range(4)]
    v = c.call(T + 'compute_signed_volume', *x)
    c.prove('one sixth of the triple product', c.eq(v * 6, vol6(c, *x)))
    c.prove('swapping two corners flips the sign', c.eq(c.call(T + 'compute_signed_volume', x[1], x[0], x[2], x[3]), -v))
    t = c.vec('t')
    c.prove('translation invariant', c.eq(c.call(T + 'compute_signed_volume', *[y + t for y in x]), v))
    if c.sym or abs(v) > 1e-9:
        c.prove('left orientation means negative volume', c.iff(c.call(T + 'is_left_orientation', *x), v < 0))


@contract('C07')
def circumscribed(c):
    x = [c.vec('x%d' % i) for i in range(4)]
    v = vol6(c, *x)
    c.requires(c.or_(v > c.const('0.1'), v < -c.const('0.1')))
    c.solves('lstsq')
    o, r = c.call(T + 'compute_circumscribed_sphere', *x)
    c.prove('radius is not negative', c.le(0, r))
    for i in range(4):
        c.prove('passes through corner %d' % i, c.eq(c.dot(x[i] - o, x[i] - o), r * r))


@contract('C07')
def inscribed(c):
    x = [c.vec('x%d' % i) for i in range(4)]
    v = vol6(c, *x)
    c.requires(v > c.const('0.1'))
    c.solves('lstsq')
    o, r = c.call(T + 'compute_inscribed_sphere', *x)
    for i in range(4):
        f = [x[j] for j in range(4) if j != i]
        n = c.cross(f[1] - f[0], f[2] - f[0])
        # inward: towards the corner left out; the sign of that side is the sign of the volume
        s = c.dot(n, x[i] - f[0])
        sg = 1 if i in (3, 1) else -1
        c.prove('inward normal of face %d' % i, c.eq(s * sg, v))
        c.prove('touches face %d from inside' % i, c.eq(c.dot(n, o - f[0]) * sg, r * c.sqrt(c.dot(n, n))))


@contract('C07', loops=True)
def samples_of_any_order(c):
    """any number of layers: iteration (m, k, j) adds the weights (N-1-j-k-m, j, k, m)/(N-1) and nothing else; how many there are; all are weights"""
    q = T + 'generate_sample_points'
    if not c.unbounded_sizes:
        return None if c.sym else samples_up_to(c, c.choice('N', [2, 3, 4, 5, 6, 9, 27]))
    N, t = c.size('N', 2, 6), c.fresh_int('t')
    c.requires(t >= 0)
    g = {}
    layers = lambda n: n * (n + 1) * (n + 2)
    plane = lambda n: 3 * n * (n + 1)

    def inv(L, places, last=None):
        if not hasattr(L, 'N'):
            return [len(L) == 0, c.eq(places, 0)]
        out = [c.eq(6 * L.N, places)]
        if t < L.N:
            r = L.at(t)[0]
            out += [c.eq(r[0] + r[1] + r[2] + r[3], 1)] + [c.le(0, r[a]) for a in range(4)]
        if last is not None:
            r = L.at(L.N - 1)[0]
            out += [c.eq(r[a] * (N - 1), last[a]) for a in range(4)]
        return out

    def grow(places):
        m = c.fresh_int('m')
        c.requires(c.and_(c.eq(6 * m, places), m >= 0))
        return {'S': c.growing('S', m, (4,))}
    p1 = lambda m: layers(N) - layers(N - m)
    p2 = lambda m, k: p1(m) + plane(N - m) - plane(N - m - k)

    def h1(e, k):
        g['m'] = k
        return grow(p1(k))

    def h2(e, k):
        g['k'] = k
        return grow(p2(g['m'], k))

    def h3(e, k):
        g['j'] = k
        return grow(p2(g['m'], g['k']) + 6 * k)

    def inv3(e, k):
        last = None
        if c.phase == 'preserved':
            m, kk, j = g['m'], g['k'], k - 1
            last = [N - 1 - j - kk - m, j, kk, m]
        return inv(e.S, p2(g['m'], g['k']) + 6 * k, last)
    c.invariant(q, 1, lambda e, k: inv(e.S, p1(k)), h1)
    c.invariant(q, 2, lambda e, k: inv(e.S, p2(g['m'], k)), h2)
    c.invariant(q, 3, inv3, h3)
    S = c.call(q, N)
    n = S.shape[0]
    c.prove('number of samples', [c.eq(6 * n, layers(N)), S.shape[1] == 4])
    c.requires(t < n)
    w = S[t]
    c.prove('weights', [c.eq(w[0] + w[1] + w[2] + w[3], 1)] + [c.le(0, w[a]) for a in range(4)])


@contract('C07', loops=True)
def interior_samples(c):
    """any number of layers: kept are exactly the samples with four positive weights"""
    if not c.unbounded_sizes:
        return None if c.sym else samples_up_to(c, c.choice('N', [2, 3, 4, 5, 6, 9, 27]))
    N = c.size('N', 2, 6)
    M = c.size('M', 4, 9)
    S = c.table('S', M, 4)

    def points(n):
        c.prove('of the samples of this order', n is N)
        return S
    c.replace(T + 'generate_sample_points', points)
    R = c.call(T + 'generate_interior_sample_points', N)
    if not hasattr(R, 'source'):
        from pv import terms
        raise terms.Unsupported('samples kept in another way')
    i, s = c.index('i', M), c.fresh_int('r')
    c.requires(c.and_(0 <= s, s < R.shape[0]))
    c.requires(c.and_(*[c.le(0, S[i][a]) for a in range(4)]))           # samples_of_any_order
    w = R[s]
    at = R.source(s)
    c.requires(c.and_(*[c.le(0, S[at][a]) for a in range(4)]))
    c.prove('interior', [x > 0 for x in w])
    c.prove('samples', [c.eq(w[a], S[at][a]) for a in range(4)])
    inside = c.and_(*[S[i][a] > 0 for a in range(4)])
    c.prove('kept if and only if interior', c.and_(c.implies(inside, R.mask.at(i)[0]), c.implies(R.mask.at(i)[0], inside)))


@contract('C07', bounded='2..6 layers')
def samples(c):
    samples_up_to(c, c.choice('N', [2, 3, 4, 5, 6]))


def samples_up_to(c, N):
    S = c.call(T + 'generate_sample_points', N)
    rows = [[S[i][j] for j in range(4)] for i in range(c.shape(S)[0])]
    c.prove('number of samples', c.eq(len(rows), N * (N + 1) * (N + 2) // 6))
    c.prove('all different', len({tuple(round(float(x) * (N - 1)) for x in w) for w in rows}) == len(rows))
    for w in rows:
        c.prove('weights', [c.eq(w[0] + w[1] + w[2] + w[3], 1)] + [c.le(0, x) for x in w])
    R = c.call(T + 'generate_interior_sample_points', N)
    inner = [[R[i][j] for j in range(4)] for i in range(c.shape(R)[0])]
    for w in inner:
        c.prove('interior weights', [c.eq(w[0] + w[1] + w[2] + w[3], 1)] + [x > 0 for x in w])
    keep = [w for w in rows if all(float(x) > 0 for x in w)]
    c.prove('every strictly interior sample is kept', c.eq(len(inner), len(keep)))


@contract('C07')
def samples_reject(c):
    c.expect_raise('fewer than two layers', lambda: c.call(T + 'generate_sample_points', 1), exc=ValueError)
