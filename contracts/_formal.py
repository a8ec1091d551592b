"""formal linear algebra for solver loops of any size: an operator applied to a vector is an uninterpreted vector, sums are kept as sums"""


class Vec:
    """sum of opaque vectors and of (operator, columns, coefficients) terms"""
    __array_ufunc__ = None

    def __init__(self, F, terms):
        self.F, self.terms = F, list(terms)

    def __add__(self, o):
        return Vec(self.F, self.terms + o.terms)

    __radd__ = __add__

    def __iadd__(self, o):
        self.terms = self.terms + list(o.terms)
        return self

    def copy(self):
        return Vec(self.F, self.terms)

    def __pv_state__(self):
        return self.key()

    def key(self):
        return tuple(id(t) for t in self.terms)


class Prod:
    """operator times formal vector: the entries are unknown numbers"""

    def __init__(self, F, op, v, rows=None):
        self.F, self.op, self.v, self.rows = F, op, v.copy(), rows

    def __getitem__(self, rows):
        if self.rows is not None:
            rows = [self.rows[i] for i in rows] if not isinstance(rows, slice) else self.rows[rows]
        if isinstance(rows, (list, tuple, range)) or getattr(rows, 'ndim', 0):
            return self.F.c.array([self.F.entry(self.op, self.v, i) for i in rows])
        return self.F.entry(self.op, self.v, rows)

    def __array__(self, *a, **k):
        import numpy
        return numpy.asarray(self[slice(None)], dtype=object)


class Op:
    def __init__(self, F, name, cols=None, rows=None):
        self.F, self.name, self.cols, self.rows = F, name, cols, rows

    def __pv_state__(self):
        return self.name, id(self.cols), id(self.rows)

    def tocsr(self):
        return self

    tocsc = tobsr = tocsr

    @property
    def T(self):
        return Op(self.F, self.name + '^T')

    def __getitem__(self, k):
        if isinstance(k, tuple):
            a, b = k
            assert a == slice(None)
            return Op(self.F, self.name, cols=b)
        return Op(self.F, self.name, rows=list(k))

    def dot(self, v):
        if isinstance(v, Vec):
            p = Prod(self.F, self.name, v)
            return p[self.rows] if self.rows is not None else p
        if self.cols is not None:
            return Vec(self.F, [('cols', self.name, list(self.cols), [v[i] for i in range(len(self.cols))])])
        return Vec(self.F, [('all', self.name, v.copy())])

    __matmul__ = dot


class Formal:
    def __init__(self, c):
        self.c, self.cache, self.keep = c, [], []

    def __pv_state__(self):
        return None

    def op(self, name):
        return Op(self, name)

    def opaque(self, name):
        return Vec(self, [('opaque', name)])

    def entry(self, op, v, i):
        """entry i of op v (equal arguments give equal entries)"""
        self.keep.append(v)
        for o, k, j, x in self.cache:
            if o == op and k == v.key() and self.c.normal_const(_node(i), _node(j)) == 0:
                return x
        x = self.c.fresh('%s_w' % op)
        self.cache.append((op, v.key(), i, x))
        return x


def _node(i):
    from pv import terms as T
    return T.node_of(i)


def check_sweep(c, F, base, w, x, x0, idx, op='WJT'):
    """conditions: x differs from x0 at the indices only, and w = base + op[:, idx] (x - x0)[idx]"""
    same = lambda i, j: c.normal_const(_node(i), _node(j)) == 0
    out = [c.or_(*[c.eq(i, j) for j in idx]) for i, _ in x.stores]
    if not (isinstance(w, Vec) and w.terms[:len(base.terms)] == base.terms):
        return out + [False]
    total = [0] * len(idx)
    for t in w.terms[len(base.terms):]:
        if t[0] != 'cols' or t[1] != op:
            return out + [False]
        for i, d in zip(t[2], t[3]):
            hit = [q for q, j in enumerate(idx) if same(i, j)]
            if not hit:
                return out + [False]
            total[hit[0]] = total[hit[0]] + d
    return out + [c.eq(t, x[i] - x0[i]) for t, i in zip(total, idx)]


def entries(c, arrays, first, n):
    """the entries (row, column, value) stored for first <= index < first + n, and whether nothing else was stored"""
    data, row, col = arrays
    got = {}
    for a, A in enumerate(arrays):
        for i, v in A.stores:
            d = c.normal_const(_node(i), _node(first))
            if d is None or not 0 <= d < n or int(d) != d:
                return None
            got.setdefault(int(d), [None] * 3)[a] = v[0] if getattr(v, 'ndim', 0) else v
    if sorted(got) != list(range(n)) or any(x is None for g in got.values() for x in g):
        return None
    return [(g[1], g[2], g[0]) for g in got.values()]


def block(c, es, r0, nr, bases, width=6):
    """dense rows r0.. of the entries, columns base + 0..width-1 for each base -> {(i, b, j): value} or None if an entry lies elsewhere"""
    out = {}
    for r, k, v in es:
        i = c.normal_const(_node(r), _node(r0))
        hits = [(b, c.normal_const(_node(k), _node(base))) for b, base in enumerate(bases)]
        hits = [(b, int(j)) for b, j in hits if j is not None and 0 <= j < width]
        if i is None or not 0 <= i < nr or len(hits) != 1:
            return None
        key = (int(i), hits[0][0], hits[0][1])
        out[key] = out[key] + v if key in out else v
    return out


def same_array(a, b):
    return a.fn is b.fn and len(a.stores) == len(b.stores) and all(x is y for x, y in zip(a.stores, b.stores))


class RowSparse:
    """matrix with any number R of rows of which row i is nonzero in the columns cols(i) only, with the values vals(i)"""
    __array_ufunc__ = None

    def __init__(self, R, cols, vals):
        self.R, self.cols, self.vals = R, cols, vals

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        from pv.terms import Unsupported
        raise Unsupported('operation %s on a matrix of symbolic size' % k)

    def _vector(self, f):
        from pv import loops, shim
        return loops.LArr(self.R, lambda i: shim.array([f(i)]), 0, (1,))

    def dot(self, x):
        from pv import terms
        if isinstance(x, Transposed) and x.M.cols is self.cols:
            return Delassus(self.multiply(x.T))
        if not getattr(x, '__pv_larr__', False) or x.ndim != 1:
            raise terms.Unsupported('product of a matrix of symbolic size')
        x = x.copy()
        return self._vector(lambda i: sum(v * x.at(j)[0] for j, v in zip(self.cols(i), self.vals(i))))

    __matmul__ = dot

    def multiply(self, o):
        from pv import terms
        if not isinstance(o, RowSparse) or o.cols is not self.cols:
            raise terms.Unsupported('product of matrices of symbolic size')
        return RowSparse(self.R, self.cols, lambda i: [a * b for a, b in zip(self.vals(i), o.vals(i))])

    def sum(self, axis=None):
        from pv import terms
        if axis not in (1, -1):
            raise terms.Unsupported('sum of a matrix of symbolic size')
        return Column(self._vector(lambda i: sum(self.vals(i))))

    __pv_sum__ = sum

    @property
    def T(self):
        return Transposed(self)

    transpose = lambda self: Transposed(self)

    def tocsr(self):
        return self

    tocsc = tobsr = copy = tocsr


class Column:
    def __init__(self, a):
        self.A1 = a

    def __getattr__(self, k):
        from pv.terms import Unsupported
        raise Unsupported('operation %s on a matrix of symbolic size' % k)


class Delassus:
    """J W J^T: only its diagonal is looked at"""

    def __init__(self, P):
        self.P = P

    def __getattr__(self, k):
        from pv.terms import Unsupported
        raise Unsupported('operation %s on a matrix of symbolic size' % k)

    def diagonal(self):
        return self.P.sum(axis=1).A1


class Applied:
    """operator applied to a vector of symbolic size, kept as such"""
    __array_ufunc__ = None

    def __init__(self, M, x):
        self.M, self.x = M, x.copy()


class Transposed:
    __array_ufunc__ = None

    def __init__(self, M):
        self.M = M

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        from pv.terms import Unsupported
        raise Unsupported('operation %s on a matrix of symbolic size' % k)

    @property
    def T(self):
        return self.M

    transpose = lambda self: self.M

    def dot(self, x):
        return Applied(self, x)

    __matmul__ = dot

    def tocsr(self):
        return self

    tocsc = tobsr = copy = tocsr


class BlockDiagonal:
    """block-diagonal matrix of any number of 6x6 blocks"""
    __array_ufunc__ = None

    def __init__(self, at):
        self.at = at

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        from pv.terms import Unsupported
        raise Unsupported('operation %s on a matrix of symbolic size' % k)

    def dot(self, X):
        from pv import loops, shim, terms
        if getattr(X, '__pv_larr__', False) and X.ndim == 1:
            X = X.copy()

            def row(i):
                k, p = loops.residue(i, 6)
                return shim.array([sum(self.at(6 * k, p, q) * X.at(6 * k + q)[0] for q in range(6))])
            return loops.LArr(X.N, row, 0, (1,))
        if not isinstance(X, Transposed):
            raise terms.Unsupported('product of a matrix of symbolic size')
        J = X.M

        def vals(i):
            v, first, out = J.vals(i), J.cols(i)[::6], []
            for b, f in enumerate(first):
                for p in range(6):
                    out.append(sum(self.at(f, p, q) * v[6 * b + q] for q in range(6)))
            return out
        return Transposed(RowSparse(J.R, J.cols, vals))

    __matmul__ = dot

    def tocsr(self):
        return self

    tocsc = tobsr = copy = tocsr


def constraint_system(c, R, N):
    """any Jacobian with R rows over N bodies of which each row acts on two different bodies, and any block-diagonal inverse mass matrix"""
    A, B = [c.table(n, R, integer=True, within=(0, N)) for n in ('first body', 'second body')]
    J, W = c.table('J', R, 12), c.table('W', N, 36)

    def cols(i):
        a, b = A.at(i)[0], B.at(i)[0]
        c.requires(c.not_(c.eq(a, b)))
        return [6 * a + q for q in range(6)] + [6 * b + q for q in range(6)]

    def block(first, p, q):
        return W.at(first // 6)[0][6 * p + q]
    return RowSparse(R, cols, lambda i: list(J.at(i)[0])), BlockDiagonal(block)


def check_system(c, p, J, W, i, b, factor=1):
    """row i of what `initialize` computes (b: the expected right-hand side there or None)"""
    ws = W.dot(J.T).M.vals(i)
    if b is not None:
        c.prove('right-hand side', c.eq(p.b[i], b))
    d = sum(x * y for x, y in zip(J.vals(i), ws))
    zero = c.eq(d, 0)
    c.prove('step factor is the inverse diagonal of J W J^T (one for empty rows)', [c.implies(c.not_(zero), c.eq(p.r[i] * d, factor)), c.implies(zero, c.eq(p.r[i], factor))])
    c.prove('starts from zero', [c.eq(p.x[i], 0), c.eq(p.sol[i], 0), p.x is not p.sol, p.error is not p.x, p.error is not p.sol])
    if isinstance(p.WJT, Transposed):
        c.prove('WJT is the inverse mass matrix times the transposed Jacobian', [c.eq(x, y) for x, y in zip(p.WJT.M.vals(i), ws)] + [c.eq(x, y) for x, y in zip(p.WJT.M.cols(i), J.cols(i))])
    else:
        c.prove('WJT is a matrix product', False)
