"""Symbolic and concrete execution contexts for contracts.

A contract is written once against a context `c`: it declares inputs, states preconditions (c.requires), calls the real
function (c.call, which also checks the frame: arguments not listed in `mutates` are unchanged) and states postconditions
(c.prove).  Under SymCtx the inputs are symbolic and every c.prove is a proof obligation; under ConcreteCtx the same text
runs on the real modules with concrete inputs (replay of counterexamples, cross-check of the verifier, bounded search)."""
import time, types, copy, traceback, sys, os, importlib
from fractions import Fraction
import numpy as np
from . import terms as T
from . import poly as P
from . import smt, shim, gen
from .numeval import Samples
from .terms import Sym, SymBool, Unsupported, node_of, CTX, mkbool, lift
from .loader import Loader

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
K_SAMPLES = 600


class PathDead(BaseException):
    pass


class Reject(BaseException):
    pass


class Budget(BaseException):
    pass


class Failed(Exception):
    """a clause failed in a concrete run"""


def flat_bools(x, sym=True):
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out += flat_bools(e)
        return out
    if isinstance(x, np.ndarray):
        out = []
        for e in x.reshape(-1):
            out += flat_bools(e)
        return out
    return [x]


class Base:
    # ---- helpers common to both modes ----------------------------------------------------
    def vec(self, name, n=3, lo=-3.0, hi=3.0, special=True):
        return self.array([self.real('%s%d' % (name, i), lo, hi, special=special) for i in range(n)])

    def mat(self, name, n=3, m=3, lo=-3.0, hi=3.0):
        return self.array([[self.real('%s%d%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)])

    def unit_vec(self, name, n=3):
        return self.array(self.unit_group(name, n))

    def unit_quat(self, name):
        return self.array(self.unit_group(name, 4))

    def quat_matrix(self, q):
        """the rotation matrix of a unit quaternion (s, x, y, z): specification function"""
        s, x, y, z = q
        return self.array([[1 - 2 * (y * y + z * z), 2 * (x * y - s * z), 2 * (x * z + s * y)],
                           [2 * (x * y + s * z), 1 - 2 * (x * x + z * z), 2 * (y * z - s * x)],
                           [2 * (x * z - s * y), 2 * (y * z + s * x), 1 - 2 * (x * x + y * y)]])

    def hamilton(self, a, b):
        s, x, y, z = a
        S, X, Y, Z = b
        return self.array([s * S - x * X - y * Y - z * Z, s * X + x * S + y * Z - z * Y,
                           s * Y - x * Z + y * S + z * X, s * Z + x * Y - y * X + z * S])

    def cross(self, a, b):
        return self.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def dot(self, a, b):
        s = a[0] * b[0]
        for i in range(1, len(a)):
            s = s + a[i] * b[i]
        return s

    def mv(self, M, v):
        return self.array([self.dot(M[i], v) for i in range(len(M))])

    def mm(self, A, B):
        return self.array([[self.dot(A[i], [B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))])

    def transpose(self, A):
        return self.array([[A[i][j] for i in range(len(A))] for j in range(len(A[0]))])

    def det3(self, A):
        return self.dot(A[0], self.cross(A[1], A[2]))

    def identity(self, n):
        return self.array([[1 if i == j else 0 for j in range(n)] for i in range(n)])

    def fn(self, qual):
        mod, _, name = qual.rpartition('.')
        try:
            return getattr(self.mod(mod), name)
        except (ImportError, ModuleNotFoundError):
            m2, _, cls = mod.rpartition('.')
            return getattr(getattr(self.mod(m2), cls), name)

    def call(self, f, *args, mutates=(), fresh=True, **kw):
        if isinstance(f, str):
            self.targets.add(f)
            f = self.fn(f)
        label = getattr(f, '__name__', 'call')
        snaps = [(i, a, self._snap(a)) for i, a in list(enumerate(args)) + list(kw.items())
                 if i not in mutates]
        self.depth += 1
        try:
            r = f(*args, **kw)
        finally:
            self.depth -= 1
        for i, a, s in snaps:
            if s is not None:
                self.prove('%s leaves argument %s unchanged' % (label, i), self._same(a, s))
        self.observe(label, r)
        return r

    def _snap(self, a):
        if isinstance(a, np.ndarray) or hasattr(a, '__pv_row__'):
            return a.copy()
        if isinstance(a, list):
            return [(x, self._snap(x)) for x in a]
        return None

    def snapshot(self, *objs):
        """structural snapshot (containers, attributes and arrays reachable from the objects)"""
        from . import loops
        return [loops.snap(o, -3) for o in objs]

    def unchanged(self, tokens):
        from . import loops
        return all(loops.same(t) for t in tokens)

    def _same(self, a, s):
        if isinstance(a, np.ndarray):
            return self.identical(a, s)
        if hasattr(a, '__pv_row__'):
            return self.identical(a.rep, s.rep)
        if len(a) != len(s):
            return False
        out = []
        for x, (y, sn) in zip(a, s):
            if x is not y:
                return False
            if sn is not None:
                out.append(self._same(x, sn))
        return self.all(out)

    def shape(self, x):
        return x.shape if hasattr(x, 'shape') else tuple(np.shape(x))

    def xlt(self, a, b):
        """exact comparison (no rounding tolerance in the concrete run)"""
        return self.lt(a, b) if self.sym else bool(a < b)

    def xeq(self, a, b):
        return self.eq(a, b) if self.sym else bool(np.all(np.asarray(a) == np.asarray(b)))

    def solves(self, *names):
        """use the contract of the linear solver (a fresh x with A x = b) instead of the cofactor formula; numpy.linalg.lstsq
        likewise, for square regular systems"""
        if not self.sym:
            return

        def contract(a, b, **k):
            a, b = np.asarray(a), np.asarray(b)
            x = self.array([self.fresh('x') for _ in range(a.shape[1])])
            try:
                An = np.array([[self.samples.eval(T.node_of(v)) for v in row] for row in a]).transpose(2, 0, 1)
                bn = np.array([self.samples.eval(T.node_of(v)) for v in b]).T
                for k in range(An.shape[0]):
                    try:
                        xn = np.linalg.solve(An[k], bn[k])
                    except Exception:
                        xn = np.full(a.shape[1], np.nan)
                    for j in range(a.shape[1]):
                        v = self.samples.vals.setdefault(x[j].n, np.full(An.shape[0], np.nan))
                        v[k] = xn[j]
            except Exception:
                pass
            for r in range(a.shape[0]):
                self.assume(self.eq(self.dot(a[r], x), b[r]))
            return x
        for n in names:
            self.stubs[n] = contract if n == 'solve' else (lambda a, b, **k: (contract(a, b), None, None, None))

    def axiom(self, text, cond):
        """a mathematical fact the back ends do not know (listed in the evidence as trusted)"""
        if self.sym:
            self.axioms = getattr(self, 'axioms', [])
            self.axioms.append(text)
            self.requires(cond)
        else:
            self.prove('axiom: ' + text, cond)

    def xle(self, a, b):
        return self.le(a, b) if self.sym else bool(a <= b)

    def iff(self, a, b):
        return self.and_(self.or_(self.not_(a), b), self.or_(a, self.not_(b)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def raises(self, f, *args, **kw):
        """the exception raised by f(*args) or None"""
        try:
            f(*args, **kw)
        except Exception as e:
            return e
        return None

    def expect_raise(self, name, f, *args, exc=Exception, **kw):
        e = self.raises(f, *args, **kw)
        self.prove(name, e is not None and isinstance(e, exc))
        return e


class SymCtx(Base):
    sym = True

    def __init__(self, loader, prefix, deadline, seed=SEED, timeout_ms=4000):
        self.loader = loader
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.pc = []
        self.assume_map = {}
        self.deadline = deadline
        self.seed = seed
        self.timeout_ms = timeout_ms
        self.stubs = {}
        self.loop_mode = False
        self.loop_specs = {}
        self.witnesses = []      # indices that may witness an existential claim
        self.sums = {}
        self.universals = []     # facts that hold at every index
        self.row_lengths = {}
        self.rows_mode = 'sym'
        self.samples = Samples(K_SAMPLES)
        self.mask = np.ones(K_SAMPLES, dtype=bool)
        self.prev = []
        self.inputs = {}       # name -> ('real'|'int'|'unit'|'choice', ...)
        self.choices = {}
        self.results = []      # obligations
        self.observed = []
        self.nfresh = 0
        self.targets = set()
        self.depth = 0
        self.np = shim.numpy
        self.math = shim.math
        self.pi = Sym(T.PI)
        self._ring = None
        self._solver = None
        self.defs_done = set()
        self.proved_defs = set()
        self.replaced = []
        self.modular = set()
        self.unbounded = False
        self.undefined = []

    # ---- modules ---------------------------------------------------------------------------
    def mod(self, name):
        return self.loader.load(name)

    def replace(self, qual, f):
        """use f (a contract) in place of the function at call sites"""
        mod, _, name = qual.rpartition('.')
        self.modular.add(qual)
        try:
            old = getattr(self.mod(mod), name)
        except (ImportError, ModuleNotFoundError):
            cls = self.fn(mod)
            self.replaced.append((cls, name, cls.__dict__[name]))
            setattr(cls, name, staticmethod(f) if isinstance(cls.__dict__[name], staticmethod) else f)
            return
        for m in list(self.loader.mods.values()):
            for k, v in list(m.__dict__.items()):
                if v is old:
                    self.replaced.append((m, k, v))
                    setattr(m, k, f)

    def finish(self):
        for m, k, v in reversed(self.replaced):
            setattr(m, k, v)
        self.replaced = []

    # ---- inputs ------------------------------------------------------------------------------
    def real(self, name, lo=-3.0, hi=3.0, special=True):
        n = T.var(name)
        if name not in self.inputs:
            self.inputs[name] = ('real', lo, hi)
            v = gen.real(gen.rng_for(self.seed, name), K_SAMPLES, lo, hi, self.prev[-12:], special)
            self.samples.set(n, v)
            self.prev.append(v)
        return Sym(n)

    def positive(self, name, lo=0.1, hi=3.0):
        x = self.real(name, lo, hi)
        self.requires(x > 0)
        return x

    def integer(self, name, lo, hi, bounded=True):
        n = T.var(name, T.I)
        if name not in self.inputs:
            self.inputs[name] = ('int', lo, hi)
            self.samples.set(n, gen.integer(gen.rng_for(self.seed, name), K_SAMPLES, lo, hi))
            if bounded:
                self.requires(SymBool(T.and_(T.le(T.const(lo), n), T.le(n, T.const(hi)))))
        return Sym(n)

    def unit_group(self, name, n):
        vs = [T.var('%s%d' % (name, i)) for i in range(n)]
        if name not in self.inputs:
            self.inputs[name] = ('unit', n)
            v = gen.unit(gen.rng_for(self.seed, name), K_SAMPLES, n)
            for i in range(n):
                self.samples.set(vs[i], v[i])
            s = T.const(0, T.R)
            for x in vs:
                s = T.add(s, T.mul(x, x))
            self.requires(SymBool(T.eq(s, T.const(1, T.R))))
        return [Sym(x) for x in vs]

    def angle(self, name, div=1, lo=-7.0, hi=7.0):
        h = self.real(name, lo / div, hi / div)
        return h * div

    def boolean(self, name):
        return bool(self.choice(name, [False, True]))

    # ---- loops and symbolic sizes -----------------------------------------------------------------
    def invariant(self, qual, ordinal, inv, havoc=None, modifies=(), variant=None, keep=()):
        """invariant of the ordinal-th loop (source order, from 1) of a function: inv(env, k) -> conditions, where env has
        the local variables and k is the number of completed iterations (None for while-loops)"""
        from . import loops
        if self.loop_mode:
            self.loop_specs[(qual, ordinal)] = loops.Spec(inv, havoc, modifies, '%s loop %d' % (qual.rsplit('.', 1)[1], ordinal), variant, keep)

    def size(self, name, lo=0, hi=3):
        """any size >= lo (in bounded and concrete runs: lo..hi)"""
        if self.loop_mode:
            n = self.integer('#' + name, lo, hi + 2, bounded=False)
            self.requires(n >= lo)
            return n
        return self.choice('#' + name, range(lo, hi + 1))

    def index(self, name, N):
        """an arbitrary index 0 <= i < N"""
        if self.loop_mode or isinstance(N, Sym):
            i = self.integer(name, 0, 4, bounded=False)
            self.requires(and_all(i >= 0, i < N))
            return i
        if N <= 0:
            raise Reject()
        return self.choice(name, range(int(N)))

    def table(self, name, N, k=(), lo=-3.0, hi=3.0, integer=False, rng=None, within=None):
        """an arbitrary array of N rows of the given width (or scalars); rng: the range of integer entries in bounded runs;
        within: (lo, hi) the assumed range lo <= entry < hi"""
        from . import loops
        if within is not None and rng is None and not isinstance(within[1], Sym):
            rng = range(int(within[0]), int(within[1]))
        k = (k,) if isinstance(k, int) else tuple(k)
        if self.loop_mode and isinstance(N, Sym):
            self.uses_function = True
            return loops.named(name, N, k, T.I if integer else T.R, within)
        o = np.empty((int(N),) + k, dtype=object)
        for q in np.ndindex(o.shape):
            nm = name + '@' + '_'.join(map(str, q))
            o[q] = self.choice(nm, rng) if integer and rng is not None else self.integer(nm, lo, hi) if integer else self.real(nm, lo, hi)
        if integer and rng is not None:
            return o.astype(int)
        return o.view(shim.SArr)

    def constant_rows(self, N, row):
        """array of N equal rows of integers"""
        from . import loops
        if self.loop_mode and isinstance(N, Sym):
            return loops.LArr(N, lambda i: np.array([row]), 0, (1, len(row)))
        return np.array([row] * int(N), dtype=int).reshape(int(N), len(row))

    def sequence(self, N, mk):
        """list of N elements mk(i)"""
        from . import loops
        if self.loop_mode and isinstance(N, Sym):
            return loops.SymList(N, mk)
        return [mk(i) for i in range(int(N))]

    def mapping(self, known, N, other=None):
        """a dictionary with the known entries and N others (under names no one else uses)"""
        from . import loops
        if self.loop_mode and isinstance(N, Sym):
            return loops.SymDict(known, N, other)
        return dict(known, **{'other %d' % i: other(i) if other else None for i in range(int(N))})

    def instantiate(self, *idx):
        """use the facts known for every index at the given indices"""
        for f in self.universals:
            for i in idx:
                f(i)

    def exists(self, pred, N):
        """some index 0 <= w < N satisfies the predicate (with a recorded witness if N is symbolic)"""
        if isinstance(N, Sym):
            return self.or_(False, *[self.and_(w >= 0, w < N, pred(w)) for w in self.witnesses])
        return self.or_(False, *[pred(w) for w in range(int(N))])

    @property
    def unbounded_sizes(self):
        return self.loop_mode

    def index_obligation(self, g):
        self._definedness('index', g, g)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if name in self.choices:
            return options[self.choices[name]]
        i = len(self.decisions)
        if i < len(self.prefix):
            k = self.prefix[i][1]
        else:
            k = 0
            for j in range(1, len(options)):
                self.pending.append(self.decisions + [('c', j)])
        self.decisions.append(('c', k))
        self.choices[name] = k
        return options[k]

    def rows(self, name, k=3, n='N', lo=-3.0, hi=3.0, unit=False):
        """array with any number of rows of k reals (arrays declared with the same n have the same number of rows)"""
        from .rows import RowArr

        def row(j):
            if unit:
                return self.unit_group('%s@%d_' % (name, j), k)
            return [self.real('%s@%d_%d' % (name, j, i), lo, hi) for i in range(k)]
        if self.rows_mode == 'sym':
            N = self.integer('#' + n, 0, 4, bounded=False)
            self.requires(N >= 0)
            self.row_lengths[N.n.id] = N
            r = row(0)
            return RowArr(N, shim.as_obj([r]) if k > 1 else shim.as_obj(r))
        N = self.choice('#' + n, [1, 2, 0, 3])
        if k == 1:
            return shim.as_obj([row(j)[0] for j in range(N)]) if N else shim.zeros((0,))
        return shim.as_obj([row(j) for j in range(N)]) if N else shim.zeros((0, k))

    def each_row(self, A):
        """row indices: one arbitrary index if the number of rows is symbolic"""
        from .rows import RowArr, FOCUS
        if isinstance(A, RowArr):
            if A.N > 0:
                yield FOCUS
            return
        for i in range(len(A)):
            yield i

    def fresh(self, name='v', sort=T.R):
        self.nfresh += 1
        return Sym(T.var('%s!%d' % (name, self.nfresh), sort))

    def fresh_int(self, name='n'):
        return self.fresh(name, T.I)

    def function(self, name, arity):
        self.uses_function = True
        return Function(name, arity)

    def array(self, x):
        return shim.as_obj(x)

    def const(self, s):
        return Sym(T.const(Fraction(s), T.R))

    # ---- path conditions -----------------------------------------------------------------------
    def requires(self, cond):
        for b in flat_bools(cond):
            n = T.bnode(b)
            self.add_pc(n)

    assume = requires

    def add_pc(self, n):
        if n is T.TRUE:
            return
        if n is T.FALSE:
            raise PathDead()
        if n.op == 'and':
            for a in n.args:
                self.add_pc(a)
            return
        if n.id in self.assume_map:
            if not self.assume_map[n.id]:
                raise PathDead()
            return
        self.pc.append(n)
        self.assume_map[n.id] = True
        self.assume_map[T.not_(n).id] = False
        v = self.samples.eval(n)
        self.mask &= (v == 1) | (np.isnan(v) & self._near(n))
        if n.op == 'eq':
            self._ring = None
        if n.op in ('lt', 'le'):
            self._ring = None
        if self._solver is not None:
            self._solver_add(n)

    def _near(self, n):
        """unknown by rounding only (keeps samples that satisfy an equality up to rounding)"""
        if n.op in ('eq', 'le', 'lt') and n.args[0].sort != T.B:
            a, b = self.samples.eval(n.args[0]), self.samples.eval(n.args[1])
            return ~np.isnan(a) & ~np.isnan(b)
        return np.zeros(K_SAMPLES, dtype=bool)

    def ring(self):
        if self._ring is None:
            lcd = {}
            for _ in range(10):
                try:
                    self._ring = P.make_ring([h for h in self.pc if h.size < 4000], [], dict(self.assume_map), lcd)
                    break
                except P.Restart:
                    continue
        return self._ring

    def growing(self, name, N, width=()):
        """a list of N entries (in the middle of a loop that appends to it)"""
        from . import loops
        return loops.Grown('%s!%d' % (name, self.fresh_int().n.id), N, width)

    def summand(self, x, i, N):
        """x is a sum over an axis of symbolic length N (or a combination of such sums): its value at index i (None if it is not)"""
        def lin(n):
            if n.id in self.sums:
                if self.normal_const(node_of(self.sums[n.id][1]), node_of(N)) != 0:
                    return None
                return node_of(self.sums[n.id][2](i))
            if n.op == 'add':
                a = [lin(y) for y in n.args]
                return None if any(y is None for y in a) else __import__('functools').reduce(T.add, a)
            if n.op == 'mul':
                a = [(y, lin(y)) for y in n.args]
                if sum(v is not None for _, v in a) != 1:
                    return None
                return __import__('functools').reduce(T.mul, [y if v is None else v for y, v in a])
            if n.op == 'div':
                v = lin(n.args[0])
                return None if v is None else T.div(v, n.args[1])
            if n.op == 'const' and n.val == 0:
                return n
            return None
        r = lin(node_of(x))
        if r is None:
            for v, _, _ in list(self.sums.values()):
                if self.normal_const(node_of(x), v.n) == 0:
                    r = lin(v.n)
                    break
        return None if r is None else Sym(r)

    def normal_const(self, a, b):
        """a - b as a rational constant, if its normal form is one"""
        if a.size + b.size > 1500:
            return None
        try:
            r = self.ring()
            if r is None:
                return None
            r.assume = self.assume_map
            f = r.fadd(r.conv(a), r.fneg(r.conv(b)))
            if not f.num:
                return Fraction(0)
            if not f.den and len(f.num) == 1 and 0 in f.num:
                return Fraction(f.num[0])
        except (P.NeedSplit, P.NotPoly, P.TooBig, P.Restart, RecursionError):
            return None
        return None

    def simplify(self, n):
        """an equivalent (under the path condition) condition over normal forms, if that is smaller"""
        if n.op in ('and', 'or', 'not') and n.size < 20000:
            args = [self.simplify(a) for a in n.args]
            if all(x is y for x, y in zip(args, n.args)):
                return n
            return T.not_(args[0]) if n.op == 'not' else T.and_(*args) if n.op == 'and' else T.or_(*args)
        if n.op not in ('lt', 'le', 'eq') or n.args[0].sort == T.B or n.size < 12 or n.size > 4000:
            return n
        r = self.ring()
        if r is None:
            return n
        memo = r.__dict__.setdefault('simp_memo', {})
        if n.id in memo:
            return memo[n.id]
        out = n
        try:
            r.assume = self.assume_map
            f = r.fadd(r.conv(n.args[0]), r.fneg(r.conv(n.args[1])))
            flip = False
            for k, (p, e) in f.den.items():
                if e % 2 and n.op != 'eq' and not r.evidently_positive(p):
                    s = r.signs.get(P._key(p))
                    if s is None:
                        raise P.NotPoly()
                    flip ^= s < 0
            if len(f.num) < 40:
                e = self._poly_node(r, f.num)
                z = T.const(0, T.R)
                new = T.eq(e, z) if n.op == 'eq' else (getattr(T, n.op)(z, e) if flip else getattr(T, n.op)(e, z))
                if new.size < 0.7 * n.size:
                    out = new
        except (P.NeedSplit, P.NotPoly, P.TooBig, P.Restart, RecursionError):
            pass
        memo[n.id] = out
        return out

    def _poly_node(self, r, p):
        tot = T.const(0, T.R)
        for m in sorted(p):
            t = T.const(Fraction(p[m]), T.R)
            for i, e in r.exps(m):
                d = r.atoms[i]
                if isinstance(d, T.Node):
                    a = d
                elif d[0] == 'sqrt':
                    a = node_of(Sym(self._poly_node(r, r.radicands[i])).sqrt())
                else:
                    raise P.NotPoly()
                for _ in range(e):
                    t = T.mul(t, a)
            tot = T.add(tot, t)
        return tot

    def quick(self, n):
        """decide a condition without the solver: True/False/None"""
        if n is T.TRUE:
            return True
        if n is T.FALSE:
            return False
        v = self.assume_map.get(n.id)
        if v is not None:
            return v
        if n.op in ('lt', 'le', 'eq') and n.args[0].sort != T.B:
            d = self.normal_const(n.args[0], n.args[1])
            if d is not None:
                return d < 0 if n.op == 'lt' else d <= 0 if n.op == 'le' else d == 0
            if n.op == 'eq':
                return None
        if n.op == 'not':
            q = self.quick(n.args[0])
            return None if q is None else not q
        if n.op == 'and':
            qs = [self.quick(a) for a in n.args]
            if False in qs:
                return False
            if all(q is True for q in qs):
                return True
        if n.op == 'or':
            qs = [self.quick(a) for a in n.args]
            if True in qs:
                return True
            if all(q is False for q in qs):
                return False
        return None

    def _solver_add(self, n):
        while True:
            try:
                e = self._zt.tr(n)
                break
            except P.Restart:
                self._new_solver(self._zt.ring.lcd)
                return
        self._flush_defs()
        self._solver.add(e)

    def _flush_defs(self):
        d = self._zt.defs
        for x in d[self._zt.ndefs_seen:]:
            self._solver.add(x)
        self._zt.ndefs_seen = len(d)

    def _new_solver(self, lcd=None):
        import z3
        self._zt = smt.Z3T(lcd if lcd is not None else {})
        self._solver = z3.Solver()
        self._solver.set('timeout', 400)
        for p in list(self.pc):
            self._solver_add(p)

    def feasible(self, n):
        """'sat' / 'unsat' / 'unknown' of pc and n"""
        import z3
        if self._solver is None:
            self._new_solver()
        try:
            while True:
                try:
                    e = self._zt.tr(n)
                    break
                except P.Restart:
                    self._new_solver(self._zt.ring.lcd)
            self._flush_defs()
        except Unsupported:
            return 'unknown'
        t0 = time.time()
        self._solver.push()
        self._solver.add(e)
        r = str(self._solver.check())
        self._solver.pop()
        smt.STATS['z3_calls'] += 1
        smt.STATS['z3_time'] += time.time() - t0
        return r

    def branch(self, n):
        q = self.quick(n)
        if q is not None:
            return q
        if time.time() > self.deadline:
            raise Budget()
        orig, n = n, self.simplify(n)
        if n is not orig:
            if n.op in ('true', 'false'):
                return n is T.TRUE
            r = self.branch(n)
            self.assume_map[orig.id] = r
            self.assume_map[T.not_(orig).id] = not r
            return r
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i][1]
            self.decisions.append(('b', v))
            self.add_pc(n if v else T.not_(n))
            return v
        sv = self.samples.eval(n)
        t_ok = bool((self.mask & (sv == 1)).any())
        f_ok = bool((self.mask & (sv == 0)).any())
        tf = t_ok or self.feasible(n) != 'unsat'
        ff = f_ok or self.feasible(T.not_(n)) != 'unsat'
        if tf and ff:
            self.pending.append(self.decisions + [('b', False)])
            self.decisions.append(('b', True))
            self.add_pc(n)
            return True
        if tf or ff:
            # implied by the path condition: recorded (to keep replays aligned), nothing is excluded
            self.decisions.append(('b', tf))
            self.add_pc(n if tf else T.not_(n))
            return tf
        raise PathDead()

    def concretize(self, n):
        """the concrete value of an integer term on this path (all feasible values are explored)"""
        if n.op == 'const':
            return int(n.val)
        d = self.normal_const(n, T.const(0))
        if d is not None:
            return int(d)
        for _ in range(80):
            v = None
            i = len(self.decisions)
            if i < len(self.prefix) and self.prefix[i][0] == 'v':
                v = self.prefix[i][1]
                cond = T.eq(n, T.const(v))
                took = self.prefix[i][2]
                self.decisions.append(('v', v, took))
                self.add_pc(cond if took else T.not_(cond))
                if took:
                    return v
                continue
            sv = self.samples.eval(n)
            ok = self.mask & ~np.isnan(sv)
            if ok.any():
                v = int(round(sv[np.argmax(ok)]))
            else:
                r, md, _ = smt.check(self.pc + [T.eq(T.var('val!', T.I), n)], 2000, model=True)
                if r == 'unsat':
                    raise PathDead()
                if r != 'sat':
                    raise Unsupported('cannot enumerate an index')
                v = md['val!']
            cond = T.eq(n, T.const(v))
            if self.feasible(T.not_(cond)) != 'unsat':
                self.pending.append(self.decisions + [('v', v, False)])
            self.decisions.append(('v', v, True))
            self.add_pc(cond)
            return v
        raise Unsupported('too many values for an index')

    # ---- definedness ---------------------------------------------------------------------------
    def need_nonzero(self, n):
        if n.op == 'const' or n.id in self.defs_done:
            return
        self.defs_done.add(n.id)
        if self.assume_map.get(T.eq(n, T.const(0)).id) is False:
            return
        self._definedness('division', T.not_(T.eq(n, T.const(0, T.R))), n)

    def need_nonneg(self, n):
        if n.op == 'const' and n.val >= 0:
            return
        k = ('s', n.id)
        if k in self.defs_done:
            return
        self.defs_done.add(k)
        if _sum_of_squares(n):
            return
        self._definedness('square root', T.le(T.const(0, T.R), n), n)

    def _definedness(self, what, g, n):
        f = sys._getframe(2)
        while f and ('/pv/' in f.f_code.co_filename or 'numpy' in f.f_code.co_filename):
            f = f.f_back
        where = '%s:%d' % (os.path.relpath(f.f_code.co_filename, self.loader.repo), f.f_lineno) if f else '?'
        if what == 'index' and where.startswith('..'):
            return                 # an index of the specification
        self.undefined.append((what, where, g))

    def check_definedness(self):
        """discharge the collected definedness obligations under the final path condition (every path gets its own run,
        so the union over paths covers every input)"""
        for what, where, g in self.undefined:
            t0 = time.time()
            st, be, info = 'unknown', '', None
            if what == 'index':
                x = y = None
            else:
                x = g.args[0].args[0] if g.op == 'not' else g.args[1]
                y = g.args[0].args[1] if g.op == 'not' else g.args[0]
            if x is None:
                pass
            elif g.op == 'not' and x.op == 'const':
                x = y
            if x is not None and self._evidently(x, g.op == 'not'):
                st, be = 'proved', 'poly'
            else:
                old, self.timeout_ms = self.timeout_ms, min(self.timeout_ms, 2500)
                st, be, info = self.discharge(g)
                self.timeout_ms = old
            r = dict(name='%s is defined (%s)' % (what, where), status=st, backend=be, conjuncts=1, definedness=True,
                     time=round(time.time() - t0, 3))
            if st != 'proved':
                r['goal'] = T.show(g, 4)[:300]
                r['why'] = info if isinstance(info, str) else ''
                if st == 'refuted':
                    r['model'] = self.complete_model(info if isinstance(info, dict) else None)
            self.results.append(r)
        self.undefined = []

    def _evidently(self, n, strict):
        if n.size > 1500:
            return False
        try:
            r = self.ring()
            if r is None:
                return False
            f = r.conv(n)
            p = f.num
            if not strict:
                return not p or (not f.den and r.evidently_positive(p))
            if not f.den and r.evidently_positive(p) and p.get(0, 0) > 0:
                return True
        except (P.NeedSplit, P.NotPoly, P.TooBig, P.Restart, RecursionError):
            return False
        return False

    # ---- spec combinators -------------------------------------------------------------------------
    def eq(self, a, b):
        if isinstance(a, (SymBool, bool, np.bool_)) or isinstance(b, (SymBool, bool, np.bool_)):
            return mkbool(T.eq(T.bnode(a), T.bnode(b)))
        if T._scalar(a) and T._scalar(b):
            if T._inf(a) or T._inf(b):
                return a == b
            return mkbool(T.eq(node_of(a), node_of(b)))
        a, b = _arr(a), _arr(b)
        if a.shape != b.shape:
            return False
        return mkbool(T.and_(*[T.bnode(self.eq(x, y)) for x, y in zip(a.reshape(-1), b.reshape(-1))]))

    identical = eq

    def close(self, a, b, tol=None):
        return self.eq(a, b)

    def le(self, a, b):
        if T._scalar(a) and T._scalar(b):
            if T._inf(a) or T._inf(b):
                return a <= b
            return mkbool(T.le(node_of(a), node_of(b)))
        a, b = np.broadcast_arrays(_arr(a), _arr(b))
        return mkbool(T.and_(*[T.bnode(self.le(x, y)) for x, y in zip(a.reshape(-1), b.reshape(-1))]))

    def lt(self, a, b):
        if T._scalar(a) and T._scalar(b):
            if T._inf(a) or T._inf(b):
                return a < b
            return mkbool(T.lt(node_of(a), node_of(b)))
        a, b = np.broadcast_arrays(_arr(a), _arr(b))
        return mkbool(T.and_(*[T.bnode(self.lt(x, y)) for x, y in zip(a.reshape(-1), b.reshape(-1))]))

    def and_(self, *xs):
        return mkbool(T.and_(*[T.bnode(x) for x in flat_bools(xs)]))

    all = and_

    def or_(self, *xs):
        return mkbool(T.or_(*[T.bnode(x) for x in flat_bools(xs)]))

    any = or_

    def not_(self, x):
        return mkbool(T.not_(T.bnode(x)))

    def ite(self, cnd, a, b):
        n = T.bnode(cnd)
        return Sym(T.ite(n, node_of(a), node_of(b)))

    def sqrt(self, x):
        return lift(x).sqrt()

    def sin(self, x):
        return lift(x).sin()

    def cos(self, x):
        return lift(x).cos()

    def acos(self, x):
        return lift(x).arccos()

    def abs(self, x):
        return abs(lift(x))

    def lemma(self, name, cond, using=None):
        """prove the condition (from the facts in `using` alone, if given), then use it"""
        n = len(self.results)
        if using is not None:
            fs = []
            for b in flat_bools(using):
                x = T.bnode(b)
                fs += list(x.args) if x.op == 'and' else [x]
            for f in fs:
                if self.assume_map.get(f.id) is not True and f is not T.TRUE:
                    if self.discharge(f)[0] != 'proved':
                        raise Unsupported('lemma uses a fact that is not established')
            t0, st = time.time(), 'proved'
            for b in flat_bools(cond):
                if smt.check(fs + [T.not_(T.bnode(b))], self.timeout_ms)[0] != 'unsat':
                    st = 'unknown'
            if st == 'proved':
                self.results.append(dict(name='lemma: ' + name, status='proved', backend='z3', conjuncts=1, time=round(time.time() - t0, 3)))
            else:
                self.prove('lemma: ' + name, cond)
        else:
            self.prove('lemma: ' + name, cond)
        if all(r['status'] == 'proved' for r in self.results[n:]):
            for b in flat_bools(cond):
                self.force_pc(T.bnode(b))

    def define(self, name, x):
        """a name for a value (ghost variable)"""
        v = T.var('ghost_' + name)
        n = node_of(x)
        self.samples.set(v, self.samples.eval(n))
        self.add_pc(T.eq(v, n))
        return Sym(v)

    def force_pc(self, n):
        if n.id not in self.assume_map and n not in (T.TRUE, T.FALSE):
            self.add_pc(n)

    def norm(self, v):
        return shim.norm(v)

    # ---- differentiation (specification side) --------------------------------------------------
    def diff(self, x, v):
        """partial derivative of the value x (scalar/array) with respect to the input v"""
        from .deriv import d
        if T._scalar(x):
            return Sym(d(node_of(x), node_of(v)))
        a = _arr(x)
        out = np.empty(a.shape, dtype=object)
        for i, e in enumerate(a.reshape(-1)):
            out.reshape(-1)[i] = Sym(d(node_of(e), node_of(v)))
        return out.view(shim.SArr)

    # ---- obligations -----------------------------------------------------------------------------
    def observe(self, name, value):
        if value is None:
            return
        if len(self.observed) < 6:
            try:
                ns = [node_of(e) for e in _arr(value).reshape(-1)]
            except (Exception, Unsupported):
                return
            if 0 < len(ns) <= 64:
                self.observed.append((name, ns))

    def prove(self, name, cond, hints=()):
        nodes = []
        for b in flat_bools(cond):
            n = T.bnode(b)
            nodes += list(n.args) if n.op == 'and' else [n]
        t0 = time.time()
        if not nodes:
            nodes = [T.TRUE]
        # a block of one clause is one obligation; it is discharged conjunct by conjunct
        status, backend, info = 'proved', set(), None
        bad = None
        for g in nodes:
            st, be, inf = self.discharge(g)
            backend.add(be)
            if st != 'proved':
                if status == 'proved' or (status == 'unknown' and st == 'refuted'):
                    status, info, bad = st, inf, g
                if st == 'refuted':
                    break
        r = dict(name=name, status=status, backend='+'.join(sorted(x for x in backend if x)), conjuncts=len(nodes),
                 time=round(time.time() - t0, 3))
        if status != 'proved':
            r['model'] = self.complete_model(info if isinstance(info, dict) else None)
            r['goal'] = T.show(bad, 5)[:400]
            r['why'] = info if isinstance(info, str) else ''
        self.results.append(r)
        # what has been proved may be used (cut rule)
        if status == 'proved' and hints != 'nouse':
            for g in nodes:
                if g.size < 300 and g.op in ('eq', 'le', 'lt') and g.id not in self.assume_map:
                    self.proved_facts = getattr(self, 'proved_facts', [])
                    if len(self.proved_facts) < 30:
                        self.proved_facts.append(g)

    def sample_violation(self, g, extra=()):
        m = self.mask.copy()
        for h in extra:
            v = self.samples.eval(h)
            m &= v == 1
        bad = self.samples.violates(g) & m
        self.weak = bad.sum() <= 0.02 * m.sum()        # may be a rounding artefact: try to prove before refuting
        if bad.any():
            return self.sample_model(int(np.argmax(bad)))
        return None

    def margin_sample(self):
        """a sample that satisfies the path condition with some distance from every branch boundary"""
        m = self.mask.copy()
        for h in self.pc:
            x = h.args[0] if h.op == 'not' else h
            if x.op in ('lt', 'le') or (x.op == 'eq' and h.op == 'not'):
                if x.args[0].sort != T.B:
                    a, b = self.samples.eval(x.args[0]), self.samples.eval(x.args[1])
                    m &= np.abs(a - b) > 1e-6
        idx = np.flatnonzero(m)
        return int(idx[0]) if len(idx) else None

    def sample_model(self, k):
        md = {}
        for n, v in self.samples.vals.items():
            if n is not T.PI and not np.isnan(v[k]):
                md[n.val] = float(v[k]) if n.sort != T.I else int(v[k])
        md['__choices__'] = dict(self.choices)
        return md

    def complete_model(self, md):
        base = None
        idx = np.flatnonzero(self.mask)
        if len(idx):
            base = self.sample_model(int(idx[0]))
        if md is None:
            if base is None:
                try:
                    r, m2, _ = smt.check(self.pc, 3000, model=True)
                    md = m2 if r == 'sat' else {}
                except (Exception, Unsupported):
                    md = {}
            else:
                md = {}
        out = dict(base or {})
        out.update({k: v for k, v in md.items() if v is not None})
        out['__choices__'] = dict(self.choices)
        return out

    def discharge(self, g, extra=(), depth=0):
        """-> (status, backend, info)"""
        if time.time() > self.deadline:
            return 'unknown', 'time', 'time budget of the contract used up'
        if g is T.TRUE:
            return 'proved', 'eval', None
        v = self.assume_map.get(g.id)
        if v is True:
            return 'proved', 'path', None
        if g.op == 'or':
            gs = list(g.args)
            # goal: the last (most complex) disjunct, under the negation of the others
            gs.sort(key=lambda x: (x.op == 'eq', x.size))
            goal = gs[-1]
            md = self.sample_violation(g, extra)
            if md is not None:
                return 'refuted', 'sample', md
            if depth < 3:
                for x in sorted(gs, key=lambda x: x.size):
                    if self.sample_violation(x, extra) is not None:
                        continue
                    old, self.timeout_ms = self.timeout_ms, min(self.timeout_ms, 1000)
                    st, be, inf = self.discharge(x, extra, depth + 3)
                    self.timeout_ms = old
                    if st == 'proved':
                        return st, be, inf
            ex = []
            for x in gs[:-1]:
                nx = T.not_(x)
                ex += list(nx.args) if nx.op == 'and' else [nx]
            return self.discharge(goal, tuple(extra) + tuple(ex), depth)
        if g.op == 'and':
            for x in g.args:
                st, be, inf = self.discharge(x, extra, depth)
                if st != 'proved':
                    return st, be, inf
            return 'proved', 'z3', None
        md = self.sample_violation(g, extra)
        weak = md is not None and self.weak
        if md is not None and not weak:
            return 'refuted', 'sample', md
        hyps = [h for h in self.pc] + list(extra)
        if weak:
            if g.op == 'eq' and g.args[0].sort != T.B and self.poly_prove(hyps, g.args[0], g.args[1], extra, depth) is True:
                return 'proved', 'poly', None
            try:
                if smt.check(hyps + [T.not_(g)], 1500)[0] == 'unsat':
                    return 'proved', 'z3', None
            except Unsupported:
                pass
            return 'refuted', 'sample', md
        if g.op == 'eq' and g.args[0].sort != T.B:
            st = self.poly_prove(hyps, g.args[0], g.args[1], extra, depth)
            if st is True:
                return 'proved', 'poly', None
            if isinstance(st, dict):
                return 'refuted', 'case', st
        if g.op == 'not' and g.args[0].op == 'eq' and g.args[0].args[0].sort != T.B:
            a = g.args[0]
            d = self.normal_const(a.args[0], a.args[1])
            if d is not None and d != 0:
                return 'proved', 'poly', None
        if g.op == 'le' and g.args[0].op == 'const' and g.args[0].val <= 0 and _sum_of_squares(g.args[1]):
            return 'proved', 'eval', None
        if g.op in ('le', 'lt') and not extra:
            d = self.normal_const(g.args[0], g.args[1])
            if d is not None:
                if (d < 0) or (d == 0 and g.op == 'le'):
                    return 'proved', 'poly', None
        facts = [f for f in getattr(self, 'proved_facts', [])]
        try:
            V = set(free_vars(g))
            rel = [h for h in hyps if set(free_vars(h)) <= V]
            if 0 < len(V) <= 40 and len(rel) < len(hyps):
                r, md, be = smt.check(rel + [T.not_(g)], 700)
                if r == 'unsat':
                    return 'proved', be, None
            gs = self.simplify(g)
            if gs is T.TRUE:
                return 'proved', 'poly', None
            if gs is not g and g.op != 'and':
                r, md, be = smt.check(hyps + [T.not_(gs)], self.timeout_ms, model=True)
                if r == 'unsat':
                    return 'proved', be, None
            r, md, be = smt.check(hyps + [T.not_(g)], self.timeout_ms, model=True, cvc5=True)
            if r == 'unknown' and facts:
                r, md, be = smt.check(hyps + facts + [T.not_(g)], self.timeout_ms, model=True)
        except Unsupported as e:
            return 'unknown', 'z3', str(e)
        if r == 'unsat':
            return 'proved', be, None
        if r == 'sat':
            return ('unknown' if be.endswith('~') else 'refuted'), be, md
        return 'unknown', be, 'solver gave up'

    def poly_prove(self, hyps, a, b, extra, depth):
        assume = dict(self.assume_map)
        for h in extra:
            assume[h.id] = True
            assume[T.not_(h).id] = False
        try:
            ok, info = P.identity([h for h in hyps if h.size < 6000], a, b, assume)
            if ok is True:
                return True
            if ok is False and getattr(self, 'proved_facts', None):
                fe = [f for f in self.proved_facts if f.op == 'eq']
                if fe:
                    ok, info = P.identity([h for h in hyps if h.size < 6000] + fe, a, b, assume)
                    return True if ok is True else None
            return None
        except P.NeedSplit as s:
            if depth > 7:
                return None
            for side in (s.cond, T.not_(s.cond)):
                parts = list(side.args) if side.op == 'and' else [side]
                if all(self.assume_map.get(p.id) is True for p in parts):
                    continue
                if any(self.assume_map.get(p.id) is False for p in parts):
                    continue
                try:
                    if smt.check(list(hyps) + parts, 400)[0] == 'unsat':
                        continue
                except Unsupported:
                    pass
                st, be, inf = self.discharge_eq_case(a, b, tuple(extra) + tuple(parts), depth + 1)
                if st == 'refuted' and isinstance(inf, dict):
                    return inf
                if st != 'proved':
                    return None
            return True
        except (P.TooBig, P.NotPoly, RecursionError):
            return None

    def discharge_eq_case(self, a, b, extra, depth):
        hyps = [h for h in self.pc] + list(extra)
        md = self.sample_violation(T.eq(a, b), extra)
        if md is not None:
            return 'refuted', 'sample', md
        st = self.poly_prove(hyps, a, b, extra, depth)
        if st is True:
            return 'proved', 'poly', None
        if isinstance(st, dict):
            return 'refuted', 'case', st
        try:
            r, md, be = smt.check(hyps + [T.not_(T.eq(a, b))], self.timeout_ms, model=True)
        except Unsupported:
            return 'unknown', 'z3', None
        if r == 'sat':
            return ('unknown' if be.endswith('~') else 'refuted'), be, md
        return ('proved', be, None) if r == 'unsat' else ('unknown', be, None)

    def note(self, s):
        pass


_fv = {}


def free_vars(n):
    """ids of the variables of a term"""
    r = _fv.get(n.id)
    if r is not None:
        return r
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            out.add(x.id)
        stack.extend(x.args)
    _fv[n.id] = out
    return out


class Function:
    """an arbitrary function; for one argument also an array of arbitrary length read by index"""
    __pv_table__ = True
    __array_ufunc__ = None

    def __init__(self, name, arity):
        self.name, self.arity = name, arity

    def __call__(self, *a):
        assert len(a) == self.arity
        return T.Sym(T.app(self.name, *[T.node_of(x) for x in a]))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if not isinstance(k, (T.Sym, int, np.integer)):
            raise Unsupported('index of a symbolic-size array')
        return self(k)

    def __setitem__(self, k, v):
        raise Unsupported('write to an arbitrary function')


def _sum_of_squares(n, depth=0):
    """syntactic non-negativity: sums of even products / quotients of those"""
    if depth > 60:
        return False
    if n.op == 'add':
        return all(_sum_of_squares(x, depth + 1) for x in n.args)
    if n.op in ('sqrt', 'abs'):
        return True
    if n.op == 'const':
        return n.val >= 0
    if n.op == 'ite':
        return _sum_of_squares(n.args[1], depth + 1) and _sum_of_squares(n.args[2], depth + 1)
    if n.op == 'div':
        a, b = n.args
        if _sum_of_squares(a, depth + 1) and _sum_of_squares(b, depth + 1):
            return True
    if n.op in ('mul', 'div'):
        odd, sign, st = {}, 1, [n]
        while st:
            x = st.pop()
            if x.op in ('mul', 'div'):
                st.extend(x.args)
            elif x.op == 'const':
                if x.val == 0:
                    return True
                sign = sign if x.val > 0 else -sign
            elif x.id in odd:
                del odd[x.id]
            else:
                odd[x.id] = x
        return sign > 0 and all(x.op == 'add' and _sum_of_squares(x, depth + 1) or x.op in ('sqrt', 'abs') for x in odd.values())
    if n.op == 'pow':
        return n.args[1].op == 'const' and n.args[1].val % 2 == 0
    return False


def _arr(x):
    if hasattr(x, '__pv_array__'):
        x = x.__pv_array__()
    return x if isinstance(x, np.ndarray) else np.array(x, dtype=object)


# --------------------------------------------------------------------------------------------------
def and_all(*xs):
    return mkbool(T.and_(*[T.bnode(x) for x in xs]))


class ConcreteCtx(Base):
    """same contract text, real modules, floating point"""
    sym = False
    loop_mode = False

    def __init__(self, model=None, rng_index=0, seed=SEED, tol=1e-6):
        self.model = model or {}
        self.seed = seed * 1000003 + rng_index
        self.tol = tol
        self.prev = []
        self.used = {}
        self.failures = []
        self.checked = 0
        self.targets = set()
        self.depth = 0
        self.np = np
        import math
        self.math = math
        self.pi = math.pi
        self.obs = []
        self.unbounded = False
        self.stubs = {}

    def mod(self, name):
        return importlib.import_module(name)

    def replace(self, qual, f):
        pass

    def _get(self, name, g):
        if name in self.used:
            return self.used[name]
        v = self.model.get(name)
        if v is None:
            v = g()
        self.used[name] = v
        return v

    def real(self, name, lo=-3.0, hi=3.0, special=True):
        v = self._get(name, lambda: float(gen.real(gen.rng_for(self.seed, name), 1, lo, hi, [np.array([p]) for p in self.prev[-12:]], special)[0]))
        self.prev.append(v)
        return float(v)

    def positive(self, name, lo=0.1, hi=3.0):
        x = self.real(name, lo, hi)
        self.requires(x > 0)
        return x

    def integer(self, name, lo, hi, bounded=True):
        v = int(self._get(name, lambda: int(gen.integer(gen.rng_for(self.seed, name), 1, lo, hi)[0])))
        if bounded:
            self.requires(lo <= v <= hi)
        return v

    def unit_group(self, name, n):
        if ('%s0' % name) in self.model:
            v = np.array([float(self.model.get('%s%d' % (name, i), 0.0)) for i in range(n)])
            nn = np.linalg.norm(v)
            if nn == 0:
                raise Reject()
            v = v / nn
        elif name in self.used:
            return list(self.used[name])
        else:
            v = gen.unit(gen.rng_for(self.seed, name), 1, n)[:, 0]
        self.used[name] = [float(x) for x in v]
        for i in range(n):
            self.used['%s%d' % (name, i)] = float(v[i])
        return [float(x) for x in v]

    def angle(self, name, div=1, lo=-7.0, hi=7.0):
        return self.real(name, lo / div, hi / div) * div

    def boolean(self, name):
        return bool(self.choice(name, [False, True]))

    unbounded_sizes = False

    def instantiate(self, *idx):
        pass

    def exists(self, pred, N):
        return self.or_(False, *[pred(w) for w in range(int(N))])

    def invariant(self, *a, **k):
        pass

    def size(self, name, lo=0, hi=3):
        return self.choice('#' + name, range(lo, hi + 1))

    def index(self, name, N):
        if N <= 0:
            raise Reject()
        return self.choice(name, range(int(N)))

    def table(self, name, N, k=(), lo=-3.0, hi=3.0, integer=False, rng=None, within=None):
        if within is not None and rng is None:
            rng = range(int(within[0]), int(within[1]))
        k = (k,) if isinstance(k, int) else tuple(k)
        o = np.zeros((int(N),) + k, dtype=int if integer else float)
        for q in np.ndindex(o.shape):
            nm = name + '@' + '_'.join(map(str, q))
            o[q] = self.choice(nm, rng) if integer and rng is not None else self.integer(nm, lo, hi) if integer else self.real(nm, lo, hi)
        return o

    def mapping(self, known, N, other=None):
        return dict(known, **{'other %d' % i: other(i) if other else None for i in range(int(N))})

    def constant_rows(self, N, row):
        return np.array([row] * int(N), dtype=int).reshape(int(N), len(row))

    def sequence(self, N, mk):
        return [mk(i) for i in range(int(N))]

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        ch = self.model.get('__choices__') or {}
        if name in ch:
            k = ch[name]
        elif ('?' + name) in self.used:
            k = self.used['?' + name]
        else:
            k = int(gen.rng_for(self.seed, '?' + name).integers(0, len(options)))
        self.used['?' + name] = k
        self.used.setdefault('__choices__', {})[name] = k
        return options[k % len(options)]

    def rows(self, name, k=3, n='N', lo=-3.0, hi=3.0, unit=False):
        if '%s@0_0' % name in self.model and '__choices__' in self.model and ('#' + n) not in self.model['__choices__']:
            N = 1
        else:
            N = self.choice('#' + n, [1, 2, 0, 3])

        def row(j):
            if unit:
                return self.unit_group('%s@%d_' % (name, j), k)
            return [self.real('%s@%d_%d' % (name, j, i), lo, hi) for i in range(k)]
        a = np.array([row(j) for j in range(N)], dtype=float).reshape((N, k))
        return a.reshape(-1) if k == 1 else a

    def each_row(self, A):
        for i in range(len(A)):
            yield i

    def fresh(self, name='v', sort=None):
        return 0.0

    def array(self, x):
        return np.array(x, dtype=np.float64)

    def const(self, s):
        return float(Fraction(s))

    def requires(self, cond):
        for b in flat_bools(cond):
            if not bool(b):
                raise Reject()

    assume = requires

    def eq(self, a, b):
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        if hasattr(a, 'toarray'):
            a = a.toarray()
        if hasattr(b, 'toarray'):
            b = b.toarray()
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        with np.errstate(all='ignore'):
            scale = 1 + max(float(np.max(np.abs(a))) if np.all(np.isfinite(a)) else 0, float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 0)
            return bool(np.all((a == b) | (np.abs(a - b) <= self.tol * scale)))

    def identical(self, a, b):
        return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == 'f')

    def close(self, a, b, tol=None):
        old = self.tol
        self.tol = tol or old
        try:
            return self.eq(a, b)
        finally:
            self.tol = old

    def le(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return bool(np.all(a <= b + self.tol * (1 + np.abs(a) + np.abs(b))))

    def lt(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return bool(np.all(a < b + self.tol * (1 + np.abs(a) + np.abs(b))))

    def and_(self, *xs):
        return all(bool(x) for x in flat_bools(xs))

    all = and_

    def or_(self, *xs):
        return any(bool(x) for x in flat_bools(xs))

    any = or_

    def not_(self, x):
        return not bool(x)

    def ite(self, cnd, a, b):
        return a if cnd else b

    def sqrt(self, x):
        return float(np.sqrt(x))

    def sin(self, x):
        return float(np.sin(x))

    def cos(self, x):
        return float(np.cos(x))

    def acos(self, x):
        return float(np.arccos(x))

    def lemma(self, name, cond, using=None):
        self.prove('lemma: ' + name, cond)

    def define(self, name, x):
        return x

    def abs(self, x):
        return abs(x)

    def norm(self, v):
        return float(np.linalg.norm(np.asarray(v, dtype=float)))

    def diff(self, x, v):
        return None

    def observe(self, name, value):
        if value is None:
            return
        if len(self.obs) < 6:
            try:
                if hasattr(value, 'toarray'):
                    value = value.toarray()
                a = np.asarray(value, dtype=float).reshape(-1)
            except Exception:
                return
            if 0 < a.size <= 64:
                self.obs.append((name, a.tolist()))

    def prove(self, name, cond, hints=()):
        self.checked += 1
        if not all(bool(b) for b in flat_bools(cond)):
            self.failures.append(name)

    def finish(self):
        pass

    def note(self, s):
        pass
