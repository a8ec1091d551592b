"""C26: multivariate polynomials (rainbow/math/polynomial.py)"""
from pv.check import contract
P = 'rainbow.math.polynomial.'


@contract('C26', loops=True)
def monomials(c):
    """for every order: the powers i + j <= order are listed each exactly once, by degree and then by the power of y
    (the place p(p+1)/2 + j with p = i + j is a bijection between the powers and the places)"""
    F = c.fn(P + 'Helpers').poly2_make_monomial_powers
    q = P + 'Helpers.poly2_make_monomial_powers'
    c.targets.add(q)
    n = c.size('order', 0, 7)
    if not c.unbounded_sizes:
        if c.sym:
            c.requires(False)
        r = c.call(F, n)
        want = [(p - j, j) for p in range(n + 1) for j in range(p + 1)]
        c.prove('powers', [tuple(int(x) for x in y) for y in r] == want)
        c.prove('number of terms', [c.call(c.fn(P + 'Helpers').number_of_monomial_terms, 2, n) == len(want), len(r) == len(want)])
        return
    i, j = c.fresh_int('i'), c.fresh_int('j')
    c.requires(c.and_(i >= 0, j >= 0, i + j <= n))
    t, s = c.fresh_int('t'), c.define('s', i + j)
    c.requires(c.eq(2 * t, s * (s + 1) + 2 * j))           # p(p+1) is even
    g = {}

    def lower(p):
        """the powers of a lower degree have lower places"""
        if s < p:
            d = p - s - 1
            c.lemma('product', d * (d + 2 * s + 3) >= 0, using=[d >= 0, s >= 0])
            c.lemma('lower degree', p * (p + 1) >= (s + 1) * (s + 2), using=[d * (d + 2 * s + 3) >= 0])
            c.lemma('places', 2 * t < p * (p + 1), using=[p * (p + 1) >= (s + 1) * (s + 2), j <= s, c.eq(2 * t, s * (s + 1) + 2 * j)])

    c.lemma('parts', c.and_(c.eq(s, i + j), j <= s, s >= 0, s <= n))

    def inner(p, jj):
        """the list holds all powers of degree < p and those of degree p with the power of y below jj"""
        def inv(L):
            if not hasattr(L, 'N'):
                return [len(L) == 0, c.eq(p, 0), c.eq(jj, 0)]
            out = [c.eq(2 * L.N, p * (p + 1) + 2 * jj)]
            if s < p:
                lower(p)
            if c.or_(s < p, c.and_(c.eq(s, p), j < jj)):
                r = L.at(t)[0]
                out += [c.eq(r[0], i), c.eq(r[1], j)]
            return out
        return inv

    def h1(e, k):
        g['p'] = k
        g['m1'] = c.fresh_int('m')
        c.requires(c.eq(2 * g['m1'], k * (k + 1)))
        lower(k)
        return {'patterns': c.growing('patterns', g['m1'], (2,))}

    def h2(e, k):
        m = c.fresh_int('m')
        c.requires(c.eq(2 * m, g['p'] * (g['p'] + 1) + 2 * k))
        lower(g['p'])
        return {'patterns': c.growing('patterns', m, (2,))}
    c.invariant(q, 1, lambda e, k: inner(k, 0)(e.patterns), h1)
    c.invariant(q, 2, lambda e, k: inner(g['p'], k)(e.patterns), h2)
    r = c.call(F, n)
    N = r.shape[0]
    c.prove('number of terms', [c.eq(2 * N, (n + 1) * (n + 2)), c.eq(c.call(c.fn(P + 'Helpers').number_of_monomial_terms, 2, n), N)])
    x = r.at(t)[0]
    c.prove('the power is at its place', [t >= 0, t < N, c.eq(x[0], i), c.eq(x[1], j)])


def poly(c, n, name='a'):
    """a polynomial of dimension 2 with arbitrary coefficients"""
    p = c.fn(P + 'Poly')(2, n)
    p.coefficients = c.vec(name, len(p.powers))
    return p


def value(c, p, x):
    """the documented meaning of the coefficients and powers"""
    t = 0
    for a, (i, j) in zip(p.coefficients, p.powers):
        t = t + a * x[0] ** int(i) * x[1] ** int(j)
    return t


class Table:
    """a polynomial with any number of terms"""
    def __init__(self, c, name, N):
        self.dimension, self.order = 2, None
        self.powers, self.coefficients = c.table(name + 'p', N, 2, 0, 4, integer=True), c.table(name + 'a', N)
        self.terms = N


@contract('C26', loops=True)
def evaluate(c):
    """any number of terms and any coefficients, powers and point: the sum of coefficient times powers"""
    x = c.vec('x', 2)
    if not c.unbounded_sizes:
        n = c.choice('order', [0, 1, 2, 3, 5])
        p = poly(c, n)
        want = value(c, p, x)
        c.prove('value', [c.eq(c.call(P + 'evaluate', p, x), want), c.eq(p(x), want)])
        return
    N = c.size('N', 1)
    p = Table(c, 'P', N)
    k = c.index('k', N)
    r = c.call(P + 'evaluate', p, x)
    got = c.summand(r, k, N)
    w = p.powers[k]
    c.prove('the value is the sum of coefficient times powers', [got is not None, c.eq(got, p.coefficients[k] * x[0] ** w[0] * x[1] ** w[1])])
    q = c.fn(P + 'Poly').__call__
    c.targets.add(P + 'Poly.__call__')
    got = c.summand(c.call(q, p, x), k, N)
    c.prove('calling evaluates', [got is not None, c.eq(got, p.coefficients[k] * x[0] ** w[0] * x[1] ** w[1])])


@contract('C26', loops=True)
def derivative(c):
    """any number of terms: term k of the derivative in direction d is the derivative of term k"""
    if not c.unbounded_sizes:
        n = c.choice('order', [0, 1, 2, 3, 4])
        p, x = poly(c, n), c.vec('x', 2)
        ds = c.call(P + 'derivative', p)
        c.prove('one for each direction', len(ds) == 2)
        for d, q in enumerate(ds):
            want = 0
            for a, w in zip(p.coefficients, p.powers):
                i, j = int(w[0]), int(w[1])
                if (i, j)[d]:
                    want = want + (a * i * x[0] ** (i - 1) * x[1] ** j if d == 0 else a * j * x[0] ** i * x[1] ** (j - 1))
            c.prove('partial derivative %d' % d, c.eq(c.fn(P + 'evaluate')(q, x), want))
            # derivatives of derivatives
            h = 0
            for a, w in zip(p.coefficients, p.powers):
                i, j = int(w[0]), int(w[1])
                if i and j:
                    h = h + a * i * j * x[0] ** (i - 1) * x[1] ** (j - 1)
            c.prove('mixed second derivative', c.eq(c.fn(P + 'evaluate')(c.fn(P + 'derivative')(q)[1 - d], x), h))
        return
    N = c.size('N', 1)
    p = Table(c, 'P', N)
    made = []

    def Poly(dimension, order):
        c.prove('as many variables', dimension == 2)
        made.append(Table(c, 'Q%d' % len(made), N))
        return made[-1]
    c.replace(P + 'Poly', Poly)
    m = c.index('m', N)
    w, a = p.powers[m], p.coefficients[m]
    c.requires(c.and_(w[0] >= 0, w[1] >= 0))

    def row(q, d):
        v = q.powers.at(m)[0]
        b = q.coefficients.at(m)[0]
        lower = c.ite(c.eq(w[d], 0), w[d], w[d] - 1)
        return [c.eq(v[1 - d], w[1 - d]), c.eq(b, w[d] * a), c.eq(v[d], lower)]
    st = {}

    def havoc(e, k):
        d = e.d
        st['d'] = d
        made[d].powers.assign(c.table('hp%d' % d, N, 2, integer=True))
        made[d].coefficients.assign(c.table('hc%d' % d, N))

    def inv(e, k):
        d = e.d
        if m < k:
            return row(made[d], d)
        return True
    c.invariant(P + 'derivative', 2, inv, havoc, modifies=('dPs', 'dP'))
    ds = c.call(P + 'derivative', p)
    c.prove('one for each direction', [len(ds) == 2, ds[0] is made[0], ds[1] is made[1]])
    for d in (0, 1):
        c.prove('the term with its power lowered and multiplied (%d)' % d, row(ds[d], d))


@contract('C26', paths=60)
def construct(c):
    """a new polynomial has coefficients one and the powers of its order; unsupported dimensions are refused"""
    n = c.choice('order', [0, 1, 2, 3, 4])
    p = c.call(P + 'Poly', 2, n)
    c.prove('fields', [p.dimension == 2, p.order == n, p.terms == len(p.powers) == len(p.coefficients) == (n + 1) * (n + 2) // 2] +
            [c.eq(a, 1) for a in p.coefficients])
    for d in (0, 1, 3, 4, -1):
        c.expect_raise('dimension %d' % d, c.fn(P + 'Poly'), d, n, exc=ValueError)
    H = c.fn(P + 'Helpers')
    for bad in ((2, -1), (0, 1), (4, 1)):
        c.expect_raise('terms %d %d' % bad, H.number_of_monomial_terms, *bad, exc=ValueError)
    c.prove('terms in one and three dimensions', [H.number_of_monomial_terms(1, n) == n + 1, H.number_of_monomial_terms(3, n) == (n + 1) * (n + 2) * (n + 3) // 6])
    c.expect_raise('negative order', H.poly2_make_monomial_powers, -1, exc=ValueError)
    c.expect_raise('point of another dimension', c.fn(P + 'evaluate'), p, c.vec('y', 3), exc=ValueError)


@contract('C26', bounded='orders 1 to 3; every set of points and values', tol=1e-5)
def interpolate(c):
    """the polynomial takes the given values at the given points (the linear solver is trusted to solve V a = b)"""
    n = c.choice('order', [1, 2, 3])
    K = (n + 1) * (n + 2) // 2
    extra = c.choice('extra', [0, 1])
    cols = c.choice('columns', [0, 1, 2])
    if c.sym:
        X = c.array([[c.real('x%d%d' % (i, d)) for d in range(2)] for i in range(K + extra)])
    else:
        pts = [(i, p - i) for p in range(n + 1) for i in range(p + 1)] + [(7, 5)] * extra
        A = c.mat('A', 2, 2)
        if abs(A[0][0] * A[1][1] - A[0][1] * A[1][0]) < 0.5 or max(abs(float(q)) for q in A.reshape(-1)) > 5:
            return
        X = c.np.array([[float(A[0][0] * i + A[0][1] * j), float(A[1][0] * i + A[1][1] * j)] for i, j in pts])
    B = c.array([[c.real('v%d%d' % (i, q)) for q in range(max(cols, 1))] for i in range(K + extra)])
    v = B if cols else B[:, 0]
    seen = []
    if c.sym:
        def solve(V, b):
            A = c.array([[c.fresh('a%d%d' % (i, q)) for q in range(max(cols, 1))] for i in range(K)])
            A = A if cols else A[:, 0]
            seen.append((V, b, A))
            return A
        c.mod(P[:-1]).linalg = type('L', (), {'solve': staticmethod(solve)})
    Ps = c.call(P + 'interpolate', n, X, v)
    c.prove('one polynomial for each column', [len(Ps) == max(cols, 1)] + [p.dimension == 2 and p.order == n for p in Ps])
    if c.sym:
        (V, b, A), = seen
        c.prove('shapes', [tuple(V.shape) == (K, K), len(b) == K])
        for q, p in enumerate(Ps):
            for i in range(K):
                row = sum([V[i][t] * (A[t][q] if cols else A[t]) for t in range(K)])
                c.prove('the equation of point i is: the polynomial has the given value there',
                        [c.eq(c.fn(P + 'evaluate')(p, X[i]), row), c.eq(b[i][q] if cols else b[i], B[i][q])])
    else:
        for q, p in enumerate(Ps):
            for i in range(K):
                c.prove('value at the point', abs(float(p(X[i]) - B[i][q])) < 1e-4 * (1 + max(abs(float(t)) for t in p.coefficients)))
    c.expect_raise('order', c.fn(P + 'interpolate'), 0, X, v, exc=ValueError)
    c.expect_raise('too few points', c.fn(P + 'interpolate'), n, X[:K - 1], v, exc=ValueError)
    c.expect_raise('too few values', c.fn(P + 'interpolate'), n, X, v[:K - 1], exc=ValueError)


@contract('C26', bounded='orders up to 3', concrete=120)
def text(c):
    """the text of a polynomial, read as a formula, has the value of the polynomial"""
    if c.sym:
        c.requires(False)
    import re
    n = c.choice('order', [0, 1, 2, 3])
    p = c.fn(P + 'Poly')(2, n)
    p.coefficients = c.np.array([c.choice('a%d' % i, [0.0, 1.0, -1.0, 2.0, -0.5, 3.25, -4.0]) for i in range(len(p.powers))])
    x, y = 1.5, -0.75
    s = c.call(P + 'to_str', p)
    c.prove('str()', str(p) == s)
    if not s:
        c.prove('nothing is written only for zero', not any(p.coefficients))
        return
    # the sign of the first term is not written for a positive one
    s2 = re.sub(r'(?<=[0-9xy]) (?=[xy])', '*', s).replace('^', '**')
    first = [a for a in p.coefficients if a != 0][0]
    got = eval(s2, {'x': x, 'y': y})
    c.prove('value of the text', abs(got - float(value(c, p, (x, y)))) < 1e-9)
