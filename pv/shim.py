"""Stand-ins for numpy / math / numba / scipy.sparse under which the real code runs on symbolic values.
Real numpy does the array work (dtype=object arrays: shapes, views, aliasing, broadcasting are numpy's own);
only creation, dtype conversion, elementary functions and dense linear algebra are replaced by exact versions."""
import types, math as _math, builtins
from fractions import Fraction
import numpy as np
from . import terms as T
from .terms import Sym, SymBool, S, lift, Unsupported, node_of, CTX


class SArr(np.ndarray):
    """object-dtype array of exact values"""

    def astype(self, dtype, *a, **k):
        return cast(self, dtype, copy=True)

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, arr, context=None):
        r = super().__array_wrap__(arr, context)
        if isinstance(r, np.ndarray) and r.ndim == 0:
            return r[()]
        return r

    def mean(self, axis=None, **k):
        if axis is None:
            return pdiv(self.sum(), self.size)
        return self.sum(axis=axis) / S(self.shape[axis])

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def min(self, axis=None, **k):
        return np_min(self, axis, **k) if CTX[0] is not None and getattr(CTX[0], 'ite_mode', False) else np.ndarray.min(self, axis, **k)

    def max(self, axis=None, **k):
        return np_max(self, axis, **k) if CTX[0] is not None and getattr(CTX[0], 'ite_mode', False) else np.ndarray.max(self, axis, **k)

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel()[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')


def is_float_dtype(d):
    if d is None:
        return False
    if d is float or d is F64 or isinstance(d, _FloatType):
        return True
    if d in ('float', 'float64', 'd', 'f8', 'double', 'float32'):
        return True
    try:
        return np.dtype(d).kind in 'f'
    except Exception:
        return False


def real_dtype(d):
    return d


def _lift_el(x):
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return S(int(x))
    if isinstance(x, (int, np.integer)):
        return Sym(T.const(int(x), T.R))
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float('inf'), float('-inf')):
            return float(x)
        return S(float(x))
    if isinstance(x, Fraction):
        return S(x)
    if x is None:
        return float('nan')
    if isinstance(x, str):
        return S(Fraction(x))
    raise Unsupported('array element %r' % (type(x),))


def toR(x):
    if isinstance(x, Sym) and x.n.op == 'const' and x.n.sort == T.I:
        return Sym(T.const(x.n.val, T.R))
    return x


def as_obj(x):
    if hasattr(x, '__pv_array__'):
        x = x.__pv_array__()
    a = np.array(x, dtype=object)
    out = np.empty(a.shape, dtype=object)
    fo, fa = out.reshape(-1), a.reshape(-1)
    for i in range(fa.size):
        fo[i] = toR(_lift_el(fa[i]))
    return out.view(SArr)


def _contains_num(x, depth=0):
    """does the (nested) sequence hold symbolic or float values?"""
    if isinstance(x, (Sym, float, Fraction, np.floating)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'fO' and (x.dtype.kind == 'f' or any(isinstance(e, (Sym, float, Fraction)) for e in x.reshape(-1)))
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_contains_num(e, depth + 1) for e in x)
    return False


def cast(a, dtype, copy=True):
    if is_float_dtype(dtype):
        return as_obj(a)
    try:
        kind = np.dtype(dtype).kind
    except Exception:
        kind = 'O'
    if kind in 'iu':
        arr = np.asarray(a)
        if arr.dtype == object:
            out = np.empty(arr.shape, dtype=object)
            fo, fa = out.reshape(-1), arr.reshape(-1)
            allc = True
            for i in range(fa.size):
                v = pint(fa[i])
                if isinstance(v, Sym):
                    if v.n.op == 'const':
                        v = int(v.n.val)
                    else:
                        allc = False
                fo[i] = v
            return out.astype(dtype) if allc else out.view(SArr)
        return np.array(arr, dtype=dtype)
    if kind == 'b':
        arr = np.asarray(a)
        return np.array([bool(v) for v in arr.reshape(-1)], dtype=bool).reshape(arr.shape)
    return np.array(a, dtype=dtype)


# --- scalars ---------------------------------------------------------------------------------
def pdiv(a, b):
    """a / b, exact"""
    if hasattr(a, '__pv_row__') or hasattr(b, '__pv_row__') or hasattr(a, '__pv_larr__') or hasattr(b, '__pv_larr__'):
        return a / b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, np.ndarray) and a.dtype.kind in 'iubf':
            a = as_obj(a)
        if isinstance(b, np.ndarray) and b.dtype.kind in 'iubf':
            b = as_obj(b)
        if not isinstance(a, np.ndarray):
            a = plift(a)
        if not isinstance(b, np.ndarray):
            b = plift(b)
        return a / b
    if isinstance(a, (int, float, Fraction, np.number, Sym)) and isinstance(b, (int, float, Fraction, np.number, Sym)):
        if isinstance(a, float) and T._inf(a):
            return a / float(lift(b))
        if T._inf(b):
            return S(0)
        return plift(a) / plift(b)
    return a / b


def pidiv(a, b):
    if isinstance(a, np.ndarray) and a.dtype == object:
        a /= (plift(b) if not isinstance(b, np.ndarray) else b)
        return a
    return pdiv(a, b)


def plift(x):
    if isinstance(x, (int, float, Fraction, np.number)) and not isinstance(x, bool) and not T._inf(float(x) if not isinstance(x, Fraction) else 0.0):
        return toR(lift(x if not isinstance(x, np.number) else x.item()))
    return x


def ppow(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float, Sym)) and not isinstance(a, bool):
        if isinstance(b, Sym):
            b = b.n.val if b.n.op == 'const' else b
            if isinstance(b, Sym):
                raise Unsupported('symbolic exponent')
        if isinstance(a, int) and (isinstance(b, int) or Fraction(b).denominator == 1) and b >= 0:
            return a ** int(b)
        return S(a) ** b
    if isinstance(a, np.ndarray) and isinstance(b, Sym) and b.n.op == 'const':
        if b.n.val.denominator == 1 and a.dtype == object:
            out = np.empty(a.shape, dtype=object)
            for i, v in enumerate(a.reshape(-1)):
                out.reshape(-1)[i] = lift(v) ** int(b.n.val)
            return out.view(SArr)
    return a ** b


def pint(x=0, *a):
    if isinstance(x, Sym):
        n = T.trunc_(x.n)
        if n.op == 'const':
            return int(n.val)
        return Sym(n)
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, Fraction):
        return int(x)
    return builtins.int(x, *a)


class _IntMeta(type):
    def __call__(cls, *a):
        return pint(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Sym) and x.n.sort == T.I)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class PInt(metaclass=_IntMeta):
    dtype = np.dtype(int)


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return toR(x)
        if isinstance(x, str):
            s = x.strip().lower()
            if 'inf' in s or 'nan' in s:
                return float(x)
            return S(Fraction(s))
        if isinstance(x, np.ndarray):
            return toR(lift(x.item()))
        if isinstance(x, SymBool):
            return S(int(bool(x)))
        if T._inf(x):
            return x
        return Sym(T.const(T.node_of(x).val, T.R))

    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.n.sort == T.R)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class PFloat(metaclass=_FloatMeta):
    dtype = np.dtype(float)


class _FloatType:
    """np.float64 as callable and dtype"""
    dtype = np.dtype(np.float64)

    def __call__(self, x=0.0):
        if isinstance(x, (list, tuple, np.ndarray)):
            return as_obj(x)
        return PFloat(x)

    def __getitem__(self, i):
        return np.float64

    def __repr__(self):
        return 'float64'


F64 = _FloatType()


def plen(x):
    if hasattr(x, '__pv_len__'):
        return x.__pv_len__()
    return builtins.len(x)


def prange(*a):
    c = CTX[0]
    if any(isinstance(v, Sym) and v.n.op != 'const' for v in a) and c is not None and c.loop_mode:
        from . import loops
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        d = c.normal_const(T.node_of(hi), T.node_of(lo))
        if d is None or st not in (1, -1):
            return loops.SymRange(*a)
        return [lo + i for i in builtins.range(0, int(d), int(st))]
    a = [v.__index__() if isinstance(v, Sym) else v for v in a]
    return builtins.range(*a)


def preversed(x):
    if hasattr(x, '__pv_reversed__'):
        return x.__pv_reversed__()
    return builtins.reversed(x)


def penumerate(x, start=0):
    if hasattr(x, '__pv_iter__'):
        from . import loops
        return loops.SymEnumerate(x, start)
    return builtins.enumerate(x, start)


def pzip(*xs):
    if any(hasattr(x, '__pv_iter__') for x in xs):
        from . import loops
        return loops.SymZip(xs)
    return builtins.zip(*xs)


def pisinstance(x, t):
    def norm(t):
        if isinstance(t, tuple):
            out = ()
            for u in t:
                v = norm(u)
                out += v if isinstance(v, tuple) else (v,)
            return out
        if t is float or t is F64:
            return PFloat
        if t is int:
            return PInt
        return t
    t = norm(t)
    ts = t if isinstance(t, tuple) else (t,)
    return any(isinstance(x, u) for u in ts)


def pabs(x):
    return builtins.abs(x)


def psum(x, start=0):
    if hasattr(x, '__pv_sum__'):
        return x.__pv_sum__(start)
    return builtins.sum(x, start)


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        return real(*a, **k)
    f.__name__ = name
    return f


pmin, pmax = _minmax('min'), _minmax('max')


def pround(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)




# --- elementwise ---------------------------------------------------------------------------------
def _elementwise(name, scalar):
    def f(x, *rest, **k):
        if isinstance(x, (list, tuple)):
            x = as_obj(x)
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                x = as_obj(x)
            if rest and not isinstance(rest[0], np.ndarray):
                out = np.empty(x.shape, dtype=object)
            out = np.empty(x.shape, dtype=object)
            fo, fx = out.reshape(-1), x.reshape(-1)
            for i in range(fx.size):
                r = [a.reshape(-1)[i] if isinstance(a, np.ndarray) else a for a in rest]
                fo[i] = scalar(lift(fx[i]), *r)
            if x.ndim == 0:
                return out.item()
            return out.view(SArr)
        if T._inf(x) and name in ('abs', 'absolute', 'fabs'):
            return abs(x)
        return scalar(lift(x), *rest)
    f.__name__ = name
    return f


def _fmod(a, b):
    a, b = lift(a), lift(b)
    q = a / b
    return a - b * Sym(T.trunc_(q.n))


E = {n: _elementwise(n, fn) for n, fn in dict(
    sqrt=lambda x: x.sqrt(), sin=lambda x: x.sin(), cos=lambda x: x.cos(), tan=lambda x: x.tan(),
    arccos=lambda x: x.arccos(), arcsin=lambda x: x.arcsin(), arctan=lambda x: x.arctan(),
    arctan2=lambda x, y: x.arctan2(y), exp=lambda x: x.exp(), log=lambda x: x.log(), log2=lambda x: x.log2(),
    log10=lambda x: x.log10(), abs=lambda x: abs(x), absolute=lambda x: abs(x), fabs=lambda x: abs(x),
    floor=lambda x: x.floor(), ceil=lambda x: x.ceil(), square=lambda x: x * x, radians=lambda x: x.radians(),
    degrees=lambda x: x.degrees(), deg2rad=lambda x: x.radians(), rad2deg=lambda x: x.degrees(),
    fmod=lambda x, y: _fmod(x, y), sign=lambda x: (S(1) if x > 0 else (S(-1) if x < 0 else S(0))),
    hypot=lambda x, y: (x * x + lift(y) * lift(y)).sqrt(), cbrt=lambda x: _unsup('cbrt'),
    tanh=lambda x: _unsup('tanh'),
).items()}


def _unsup(s):
    raise Unsupported(s)


# --- linear algebra (exact) -----------------------------------------------------------------------
def minor_det(a):
    n = a.shape[0]
    if n == 0:
        return S(1)
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    s = S(0)
    for j in range(n):
        if isinstance(a[0, j], Sym) and a[0, j].n.op == 'const' and a[0, j].n.val == 0:
            continue
        m = np.delete(np.delete(np.asarray(a), 0, 0), j, 1)
        t = a[0, j] * minor_det(m)
        s = s + t if j % 2 == 0 else s - t
    return s


def det(a):
    a = as_obj(a)
    if a.ndim == 2:
        return minor_det(a)
    return as_obj([det(x) for x in a])


def inv(a):
    a = as_obj(a)
    if a.ndim > 2:
        return np.array([inv(x) for x in a], dtype=object).reshape(a.shape).view(SArr)
    n = a.shape[0]
    if n > 5:
        raise Unsupported('inverse of a %dx%d matrix' % (n, n))
    d = minor_det(a)
    c = CTX[0]
    if c is not None:
        c.need_nonzero(lift(d).n)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(np.asarray(a), i, 0), j, 1)
            co = minor_det(m)
            out[j, i] = (co if (i + j) % 2 == 0 else -co) / d
    return out.view(SArr)


def solve(a, b):
    c = CTX[0]
    if c is not None and 'solve' in c.stubs:
        return c.stubs['solve'](a, b)
    return np.dot(inv(a), as_obj(b))


def norm(x, ord=None, axis=None, keepdims=False):
    if hasattr(x, '__pv_larr__') and axis is None and x.ndim == 1 and T._inf(ord):
        from . import loops
        return loops.extremum(abs(x), 'max')
    x = as_obj(x)
    if axis is None and (ord is None or (ord == 2 and x.ndim == 1) or ord == 'fro'):
        f = x.reshape(-1)
        s = S(0)
        for e in f:
            s = s + e * e
        return s.sqrt()
    if axis is None and x.ndim == 1 and T._inf(ord):
        return builtins.max(abs(e) for e in x)
    if axis is None and x.ndim == 1 and ord == 1:
        return builtins.sum((abs(e) for e in x), S(0))
    if axis is not None and ord in (None, 2):
        r = E['sqrt']((x * x).sum(axis=axis))
        return np.expand_dims(r, axis) if keepdims else r
    raise Unsupported('norm')


def _stubbed(name):
    def f(*a, **k):
        c = CTX[0]
        if c is not None and name in c.stubs:
            return c.stubs[name](*a, **k)
        raise Unsupported('numpy.linalg.' + name)
    f.__name__ = name
    return f


class NS(types.ModuleType):
    def __init__(self, name, real=None, **kw):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        r = self.__dict__['_real']
        if r is None:
            raise AttributeError(k)
        v = getattr(r, k)
        if isinstance(r, types.ModuleType) and r.__name__.startswith('numpy') and callable(v) and not isinstance(v, type) and k not in ('ufunc',):
            v = rowwise(k, v)
            self.__dict__[k] = v
        return v


class _RowWise:
    """calls f, or its row-parametric form when an argument has a symbolic number of rows"""

    def __init__(self, name, f):
        self.name, self.f = name, f
        self.__name__ = name

    def __call__(self, *a, **k):
        if self.name == 'lexsort' and CTX[0] is not None and 'lexsort' in CTX[0].stubs:
            return self.f(*a, **k)
        for x in a:
            if hasattr(x, '__pv_larr__') or (isinstance(x, (list, tuple)) and builtins.any(hasattr(e, '__pv_larr__') for e in x)):
                from . import loops
                return loops.dispatch(self.name, self.f, a, dict(k))
            if hasattr(x, '__pv_row__') or (isinstance(x, (list, tuple)) and builtins.any(hasattr(e, '__pv_row__') for e in x)):
                from . import rows
                return rows.dispatch(self.name, self.f, a, dict(k))
        return self.f(*a, **k)

    def __getattr__(self, k):
        return getattr(self.f, k)


def rowwise(name, f):
    return _RowWise(name, f)


def _filled(shape, v):
    if isinstance(shape, (int, Sym, np.integer)):
        shape = (shape,)
    shape = tuple(s.__index__() if isinstance(s, Sym) else int(s) for s in shape)
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a.view(SArr)


def _symshape(shape):
    c = CTX[0]
    if c is None or not (c.row_lengths or c.loop_mode):
        return False
    if c.loop_mode:
        sh = shape if isinstance(shape, (tuple, list)) else (shape,)
        return any(isinstance(s, Sym) and c.normal_const(s.n, T.const(0)) is None for s in sh)
    sh = shape if isinstance(shape, (tuple, list)) else (shape,)
    return any(isinstance(s, Sym) and s.n.id in c.row_lengths for s in sh)


def _rowfill(shape, mk):
    if CTX[0].loop_mode:
        from . import loops
        return loops.filled(shape, mk)
    from . import rows
    return rows.filled(shape, mk)


def einsum(sub, *ops, **k):
    return np.einsum(sub, *[o if isinstance(o, np.ndarray) and o.dtype == object else as_obj(o) for o in ops]).view(SArr)


def _intlike(dtype):
    if dtype is None:
        return False
    if dtype is PInt or dtype is int or dtype is bool:
        return True
    if is_float_dtype(dtype):
        return False
    return True


def _rd(dtype):
    return int if dtype is PInt else dtype


def zeros(shape, dtype=None, order='C', **k):
    if _symshape(shape):
        return _rowfill(shape, lambda d: zeros(d, dtype))
    if _intlike(dtype):
        return np.zeros(_shape(shape), dtype=_rd(dtype))
    return _filled(shape, Sym(T.const(0, T.R)))


def _shape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return int(shape)


def ones(shape, dtype=None, **k):
    if _symshape(shape):
        return _rowfill(shape, lambda d: ones(d, dtype))
    if _intlike(dtype):
        return np.ones(_shape(shape), dtype=_rd(dtype))
    return _filled(shape, Sym(T.const(1, T.R)))


def empty(shape, dtype=None, **k):
    if _symshape(shape):
        return _rowfill(shape, lambda d: empty(d, dtype))
    if _intlike(dtype):
        return np.zeros(_shape(shape), dtype=_rd(dtype))
    c = CTX[0]
    a = _filled(shape, S(0))
    if c is not None:
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = c.fresh('undef')
    return a


def full(shape, v, dtype=None, **k):
    if _symshape(shape):
        return _rowfill(shape, lambda d: full(d, v, dtype))
    if _intlike(dtype) or (dtype is None and isinstance(v, (int, bool)) and not isinstance(v, Sym)):
        return np.full(_shape(shape), v, dtype=_rd(dtype))
    return _filled(shape, v if T._inf(v) else toR(lift(v)))


def eye(n, M=None, k=0, dtype=None, **kw):
    if _intlike(dtype):
        return np.eye(n, M, k, dtype=_rd(dtype))
    return as_obj(np.eye(int(n), M, k, dtype=int))


def array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    if hasattr(x, '__pv_symbolic__'):
        return x.copy() if copy else x
    if isinstance(x, (list, tuple)) and any(hasattr(e, '__pv_symbolic__') for e in x):
        raise Unsupported('array of symbolic-size arrays')
    if is_float_dtype(dtype):
        if isinstance(x, SArr) and not copy:
            return x
        r = as_obj(x)
    elif dtype is None:
        if isinstance(x, SArr):
            r = x.copy() if copy else x
        elif isinstance(x, (Sym,)):
            r = as_obj(x)
        elif isinstance(x, np.ndarray) and x.dtype == object:
            r = np.array(x, dtype=object, copy=copy)
        elif _contains_num(x):
            r = as_obj(x)
        else:
            r = np.array(x)
            if r.dtype.kind == 'f':
                r = as_obj(r)
    elif dtype is object:
        r = np.array(x, dtype=object)
    else:
        r = cast(x, _rd(dtype))
    if r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    if isinstance(x, SArr) and is_float_dtype(dtype):
        return x
    return array(x, dtype=dtype, copy=False)


def zeros_like(a, dtype=None, **k):
    if hasattr(a, '__pv_symbolic__'):
        return a.like_zeros()
    a = np.asarray(a)
    if dtype is None and a.dtype.kind in 'iub':
        return np.zeros_like(a)
    return zeros(a.shape, dtype)


def ones_like(a, dtype=None, **k):
    a = np.asarray(a)
    if dtype is None and a.dtype.kind in 'iub':
        return np.ones_like(a)
    return ones(a.shape, dtype)


def full_like(a, v, dtype=None, **k):
    a = np.asarray(a)
    if dtype is None and a.dtype.kind in 'iub':
        return np.full_like(a, v)
    return full(a.shape, v, dtype)


def linspace(a, b, num=50, endpoint=True, **k):
    if isinstance(num, Sym) and num.n.op != 'const' and num.n.sort == T.I and not k:
        from . import loops
        a, b = plift(a), plift(b)
        n = num - 1 if endpoint else num
        return loops.LArr(num, lambda i: as_obj([a + (b - a) * (T.lift(i) if not isinstance(i, Sym) else i) / n]), 0, (1,))
    num = int(num)
    a, b = plift(a), plift(b)
    n = num - 1 if endpoint else num
    if n == 0:
        return as_obj([a])
    return as_obj([a + (b - a) * Fraction(i, n) for i in range(num)])


def arange(*a, dtype=None, **k):
    if any(isinstance(x, (Sym, float)) for x in a):
        vals = [lift(x) for x in a]
        if all(v.n.op == 'const' for v in vals):
            fr = [v.n.val for v in vals]
            if all(v.n.sort == T.I for v in vals):
                return np.arange(*[int(f) for f in fr], dtype=dtype)
            lo, hi, st = (Fraction(0), fr[0], Fraction(1)) if len(fr) == 1 else (fr[0], fr[1], fr[2] if len(fr) > 2 else Fraction(1))
            out = []
            while lo < hi:
                out.append(S(lo))
                lo += st
            return as_obj(out)
        c = CTX[0]
        if len(vals) == 2 and c is not None and c.loop_mode:
            d = c.normal_const(vals[1].n, vals[0].n)
            if d is not None and d == int(d):
                return as_obj([vals[0] + i for i in builtins.range(int(d))])
        if c is not None and c.loop_mode and len(vals) <= 2 and all(v.n.sort == T.I for v in vals):
            from . import loops
            lo, N = (0, vals[0]) if len(vals) == 1 else (vals[0], vals[1] - vals[0])
            if c.quick(T.le(T.const(0), T.node_of(N))) is True or bool(N >= 0):
                return loops.LArr(N, lambda i: as_obj([lo + i]), 0, (1,))
        vals = [v.__index__() for v in vals]
        return np.arange(*vals, dtype=dtype)
    if is_float_dtype(dtype):
        return as_obj(np.arange(*a))
    return np.arange(*a, dtype=_rd(dtype)) if dtype is not None else np.arange(*a)


def isfinite(x, *a, **k):
    x = np.asarray(x, dtype=object)
    r = np.array([not T._inf(e) for e in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return bool(r) if r.ndim == 0 else r


def isnan(x, *a, **k):
    x = np.asarray(x, dtype=object)
    r = np.array([isinstance(e, float) and e != e for e in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return bool(r) if r.ndim == 0 else r


def isinf(x, *a, **k):
    x = np.asarray(x, dtype=object)
    r = np.array([isinstance(e, float) and e in (float('inf'), float('-inf')) for e in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return bool(r) if r.ndim == 0 else r


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=object)
    for i, (x, y) in builtins.enumerate(builtins.zip(a.reshape(-1), b.reshape(-1))):
        out.reshape(-1)[i] = bool(abs(lift(x) - y) <= lift(atol) + lift(rtol) * abs(lift(y)))
    out = out.astype(bool)
    return bool(out) if out.ndim == 0 else out


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(np.all(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    for x, y in builtins.zip(a.reshape(-1), b.reshape(-1)):
        if not (x == y):
            return False
    return True


def clip(x, lo, hi, out=None, **k):
    def one(v, l, h):
        if l is not None and v < l:
            v = l
        if h is not None and v > h:
            v = h
        return v
    if isinstance(x, (list, tuple)):
        x = array(x)
    if isinstance(x, np.ndarray):
        ls = np.broadcast_to(np.asarray(lo, dtype=object), x.shape).reshape(-1)
        hs = np.broadcast_to(np.asarray(hi, dtype=object), x.shape).reshape(-1)
        r = np.empty(x.shape, dtype=object)
        for i, v in builtins.enumerate(x.reshape(-1)):
            r.reshape(-1)[i] = one(v, ls[i], hs[i])
        if x.dtype != object and not _contains_num(list(r.reshape(-1))):
            return r.astype(x.dtype)
        r = r.view(SArr)
        if out is not None:
            out[...] = r
            return out
        return r
    return one(x, lo, hi)


def np_sum(a, axis=None, **k):
    if hasattr(a, '__pv_sum__'):
        return a.__pv_sum__(axis)
    if hasattr(a, 'sum') and not isinstance(a, np.ndarray):
        return a.sum(axis=axis)
    if isinstance(a, (list, tuple)):
        a = array(a)
    return np.sum(a, axis=axis, **k)


def np_mean(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if a.dtype.kind in 'iub':
        a = as_obj(a)
    return np.asarray(a).view(SArr).mean(axis=axis)


def where(c, *xy):
    if not xy:
        return np.where(np.asarray([bool(v) for v in np.asarray(c).reshape(-1)]).reshape(np.asarray(c).shape))
    c = np.asarray(c)
    cb = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
    r = np.where(cb, *xy)
    if r.dtype == object:
        r = r.view(SArr)
    return r.item() if r.ndim == 0 else r


def tr_any(a, axis=None, **k):
    if hasattr(a, '__pv_symbolic__'):
        raise Unsupported('any over a symbolic-size array')
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array([bool(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return np.any(a, axis=axis)


def tr_all(a, axis=None, **k):
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array([bool(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return np.all(a, axis=axis)


def count_nonzero(a, axis=None, **k):
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array([bool(v != 0) if not isinstance(v, (bool, SymBool)) else bool(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return np.count_nonzero(a, axis=axis)


def concatenate(xs, axis=0, **k):
    xs = [array(x) if not isinstance(x, np.ndarray) else x for x in xs]
    if any(x.dtype == object for x in xs):
        xs = [x if x.dtype == object else as_obj(x) for x in xs]
        return np.concatenate(xs, axis=axis).view(SArr)
    return np.concatenate(xs, axis=axis)


def _stacker(name):
    real = getattr(np, name)

    def f(xs, *a, **k):
        xs = [array(x) if not isinstance(x, np.ndarray) else x for x in xs]
        if any(x.dtype == object for x in xs):
            xs = [x if x.dtype == object else as_obj(x) for x in xs]
            return real(xs, *a, **k).view(SArr)
        return real(xs, *a, **k)
    return f


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = np.asarray(a)
    if a.dtype != object:
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    if axis not in (None, 0) or return_inverse or return_counts:
        raise Unsupported('unique')
    import functools
    rows = list(a) if axis == 0 else [np.array([v], dtype=object) for v in a.reshape(-1)]

    def cmp(i, j):
        for x, y in builtins.zip(rows[i].reshape(-1), rows[j].reshape(-1)):
            if x < y:
                return -1
            if x > y:
                return 1
        return 0
    order = sorted(builtins.range(builtins.len(rows)), key=functools.cmp_to_key(cmp))
    keep = []
    for i in order:
        if not keep or cmp(keep[-1], i) != 0:
            keep.append(i)
    out = np.array([rows[i] for i in keep], dtype=object).view(SArr)
    if axis is None:
        out = out.reshape(-1)
    return (out, np.array(keep)) if return_index else out


def intersect1d(a, b, **k):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    if a.dtype != object and b.dtype != object:
        return np.intersect1d(a, b)
    ua = []
    for x in a:
        if not any(bool(x == y) for y in ua) and any(bool(x == y) for y in b):
            ua.append(x)
    return array(ua, dtype=object)


def np_copy(a, **k):
    if hasattr(a, '__pv_symbolic__'):
        return a.copy()
    if isinstance(a, np.ndarray):
        return a.copy()
    return array(a)


def np_norm_dispatch(f):
    return f


def _pick(cnd, y, x):
    """y if cnd else x; as a term instead of two paths when the contract asks for it (option ite)"""
    c = CTX[0]
    if c is not None and getattr(c, 'ite_mode', False) and isinstance(cnd, SymBool):
        t = T.bnode(cnd)
        if t is not T.TRUE and t is not T.FALSE:
            return Sym(T.ite(t, T.node_of(y), T.node_of(x)))
    return y if cnd else x


def maximum(a, b, **k):
    return _mm(a, b, lambda x, y: _pick(x < y, y, x))


def minimum(a, b, **k):
    return _mm(a, b, lambda x, y: _pick(y < x, y, x))


def _extreme(kind):
    f = minimum if kind == 'min' else maximum

    def g(a, axis=None, keepdims=False, **k):
        c = CTX[0]
        if c is None or not getattr(c, 'ite_mode', False) or k:
            return getattr(np, kind)(a, axis=axis, keepdims=keepdims, **k)
        a = np.asarray(a if isinstance(a, np.ndarray) else array(a))
        if axis is None:
            a, axis = a.reshape(-1), 0
            if keepdims:
                raise Unsupported(kind)
        r = np.take(a, 0, axis=axis)
        for i in builtins.range(1, a.shape[axis]):
            r = f(r, np.take(a, i, axis=axis))
        if isinstance(r, np.ndarray):
            return np.expand_dims(r, axis).view(SArr) if keepdims else r.view(SArr)
        return r
    g.__name__ = kind
    return g


np_min, np_max = _extreme('min'), _extreme('max')


def _mm(a, b, f):
    if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
        return f(a, b)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=object)
    for i, (x, y) in builtins.enumerate(builtins.zip(a.reshape(-1), b.reshape(-1))):
        out.reshape(-1)[i] = f(x, y)
    return out.view(SArr)


def cov(m, rowvar=True, bias=False, ddof=None, **k):
    m = as_obj(m)
    if not rowvar:
        m = m.T
    n = m.shape[1]
    mu = m.sum(axis=1) / S(n)
    d = m - mu[:, None]
    return np.dot(d, d.T) / S(n - 1 if not bias else n)


def fromstring(s, sep=' ', dtype=None, **k):
    return as_obj([S(Fraction(t)) for t in (s.replace(sep, ' ') if sep.strip() else s).split()])


def _multiply(name):
    real = getattr(np, name)

    def f(a, b, *rest, **k):
        for x in (a, b):
            if hasattr(x, '__pv_symbolic__'):
                import operator
                op = {'multiply': operator.mul, 'subtract': operator.sub, 'add': operator.add}[name]
                out = rest[0] if rest else k.get('out')
                if out is not None:
                    out = out[0] if isinstance(out, tuple) else out
                    out.assign(op(a, b))
                    return out
                return op(a, b)
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) and T._scalar(a) and T._scalar(b):
            import operator
            return {'multiply': operator.mul, 'subtract': operator.sub, 'add': operator.add}[name](a, b)
        return real(a, b, *rest, **k)
    return f


def copyto(dst, src, **k):
    if hasattr(dst, '__pv_larr__'):
        if k:
            raise Unsupported('copyto')
        dst.assign(src.copy() if hasattr(src, '__pv_larr__') else dst * 0 + src)
        return
    np.copyto(dst, src, **k)


def divide(a, b, *rest, **k):
    if not rest and not k:
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(b, (list, tuple)):
            b = array(b)
        return pdiv(a, b)
    return np.divide(a, b, *rest, **k)


def np_dot(a, b, out=None):
    if hasattr(a, '__pv_dot__'):
        return a.__pv_dot__(b)
    if hasattr(b, '__pv_rdot__'):
        return b.__pv_rdot__(a)
    r = np.dot(a if isinstance(a, np.ndarray) else array(a), b if isinstance(b, np.ndarray) else array(b))
    if isinstance(r, np.ndarray) and r.ndim == 0:
        r = r.item()
    return r


def np_random(name):
    def f(*a, **k):
        c = CTX[0]
        if c is not None and ('random.' + name) in c.stubs:
            return c.stubs['random.' + name](*a, **k)
        raise Unsupported('numpy.random.' + name)
    return f


def _lexsort(keys, axis=-1):
    c = CTX[0]
    if c is not None and 'lexsort' in c.stubs:
        return c.stubs['lexsort'](keys, axis)
    if any(not isinstance(k, (np.ndarray, list, tuple)) or np.asarray(k).dtype == object for k in keys):
        raise Unsupported('numpy.lexsort')
    return np.lexsort(keys, axis)


random_ns = NS('numpy.random', None, **{n: np_random(n) for n in
               ('uniform', 'random_sample', 'choice', 'shuffle', 'randint', 'rand', 'random', 'normal', 'permutation', 'seed')})

linalg_ns = NS('numpy.linalg', np.linalg, norm=norm, det=det, inv=inv, solve=solve,
               **{n: _stubbed(n) for n in ('eigh', 'eig', 'lstsq', 'svd', 'eigvals', 'eigvalsh', 'qr', 'cholesky', 'pinv')})

numpy = NS('numpy', np, ndarray=np.ndarray, float64=F64, float32=F64, double=F64, float_=F64, pi=Sym(T.PI), linalg=linalg_ns,
           random=random_ns, zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=lambda n, dtype=None: eye(n, dtype=dtype),
           array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, zeros_like=zeros_like, ones_like=ones_like, empty_like=zeros_like,
           full_like=full_like, linspace=linspace, arange=arange, isfinite=isfinite, isnan=isnan, isinf=isinf, isclose=isclose,
           allclose=allclose, array_equal=array_equal, clip=clip, sum=np_sum, mean=np_mean, average=np_mean, where=where, any=tr_any, all=tr_all,
           count_nonzero=count_nonzero, concatenate=concatenate, unique=unique, copy=np_copy, maximum=maximum, minimum=minimum, min=np_min, max=np_max, amin=np_min, amax=np_max,
           copyto=copyto, cov=cov, fromstring=fromstring, divide=divide, true_divide=divide, dot=np_dot, intersect1d=intersect1d,
           multiply=_multiply('multiply'), subtract=_multiply('subtract'), add=_multiply('add'), lexsort=_lexsort,
           array2string=lambda a, *r, **k: str(a), matmul=lambda a, b: np_dot(a, b) if not isinstance(a, np.ndarray) or a.ndim <= 2 else np.matmul(a, b),
           einsum=einsum, bool_=np.bool_, vstack=_stacker('vstack'), hstack=_stacker('hstack'), row_stack=_stacker('vstack'),
           column_stack=_stacker('column_stack'), stack=_stacker('stack'), **E)

def ppow_sym(b, k):
    """base ** array of exponents"""
    o = np.empty(np.shape(k), dtype=object)
    for q in np.ndindex(o.shape):
        o[q] = Sym(T.node_of(b)) ** k[q]
    return o.view(SArr)


def comb(n, k):
    """n choose k for symbolic n"""
    if not isinstance(n, Sym) or isinstance(k, Sym):
        return _math.comb(n, k)
    import math as m
    r = Sym(T.const(1))
    for i in range(int(k)):
        r = r * (n - i)
    return r // m.factorial(int(k))


math = NS('math', _math, comb=comb, pi=Sym(T.PI), acos=E['arccos'], asin=E['arcsin'], atan=E['arctan'], atan2=E['arctan2'],
          sqrt=E['sqrt'], sin=E['sin'], cos=E['cos'], tan=E['tan'], exp=E['exp'], log=E['log'], fabs=E['fabs'], fmod=E['fmod'],
          floor=lambda x: pint(Sym(T.floor_(lift(x).n))), ceil=lambda x: pint(-Sym(T.floor_(T.neg(lift(x).n)))),
          radians=E['radians'], degrees=E['degrees'], hypot=E['hypot'], isnan=isnan, isinf=isinf, isfinite=isfinite, log2=E['log2'],
          isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(lift(a) - b) <= pmax(lift(rel_tol) * pmax(abs(lift(a)), abs(lift(b))), lift(abs_tol)),
          pow=lambda a, b: ppow(a, b), trunc=pint)


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


numba = NS('numba', None, jit=_jit, njit=_jit, vectorize=_jit, guvectorize=_jit, prange=prange,
           float64=F64, int64=PInt, int32=PInt, boolean=bool, config=NS('numba.config', None, NUMBA_NUM_THREADS=8), set_num_threads=lambda n: None, types=NS('numba.types', None), typed=NS('numba.typed', None, List=list, Dict=dict))


# --- scipy.sparse -------------------------------------------------------------------------------
class MatResult(SArr):
    @property
    def A1(self):
        return np.asarray(self).reshape(-1).view(SArr)


class SpMat:
    """sparse matrix as a dense exact array (the sparse format carries no meaning)"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, arg=None, shape=None, dtype=None, blocksize=None, copy=False):
        if isinstance(arg, SpMat):
            self.a = arg.a.copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            row, col = [pint(r) for r in row], [pint(c) for c in col]
            if shape is None:
                shape = (max(int(r) for r in row) + 1, max(int(c) for c in col) + 1)
            self.a = zeros(shape)
            n, m = self.a.shape
            if len(row) != len(data) or len(col) != len(data):
                raise ValueError('row, column, and data array must all be the same size')
            for d, r, c in builtins.zip(data, row, col):
                r, c = int(r), int(c)
                if not (0 <= r < n):
                    raise ValueError('row index exceeds matrix dimensions')
                if not (0 <= c < m):
                    raise ValueError('column index exceeds matrix dimensions')
                self.a[r, c] = self.a[r, c] + d
        elif isinstance(arg, tuple):
            self.a = zeros(arg)
        else:
            self.a = as_obj(arg)
            if self.a.ndim == 1:
                self.a = self.a.reshape(1, -1)

    @property
    def shape(self):
        return self.a.shape

    @property
    def T(self):
        return SpMat(self.a.T)

    def transpose(self):
        return self.T

    def dot(self, o):
        if isinstance(o, SpMat):
            return SpMat(np.dot(self.a, o.a))
        return np.dot(self.a, o if isinstance(o, np.ndarray) else as_obj(o))

    __matmul__ = dot

    def __rmatmul__(self, o):
        return np.dot(o, self.a)

    def multiply(self, o):
        return SpMat(self.a * (o.a if isinstance(o, SpMat) else o))

    def __mul__(self, o):
        if isinstance(o, (SpMat, np.ndarray)):
            return self.dot(o)
        return SpMat(self.a * o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return np.dot(o, self.a)
        return SpMat(self.a * o)

    def __truediv__(self, o):
        return SpMat(pdiv(self.a, o))

    def __add__(self, o):
        return SpMat(self.a + (o.a if isinstance(o, SpMat) else o))

    __radd__ = __add__

    def __sub__(self, o):
        return SpMat(self.a - (o.a if isinstance(o, SpMat) else o))

    def __neg__(self):
        return SpMat(-self.a)

    def sum(self, axis=None):
        if axis is None:
            return self.a.sum()
        r = self.a.sum(axis=axis)
        return (r.reshape(-1, 1) if axis in (1, -1) else r.reshape(1, -1)).view(MatResult)

    def __pv_array__(self):
        return self.a

    def _idx(self, i):
        if isinstance(i, np.ndarray) and i.dtype == object:
            return np.array([int(v) for v in i])
        if isinstance(i, builtins.range):
            return list(i)
        return i

    def __getitem__(self, i):
        if isinstance(i, tuple):
            i = tuple(self._idx(x) for x in i)
            r = self.a[i]
            if isinstance(r, np.ndarray):
                if r.ndim == 1:
                    r = r.reshape(1, -1) if not isinstance(i[0], (slice, list)) else r.reshape(-1, 1)
                return SpMat(r)
            return r
        r = self.a[self._idx(i)]
        return SpMat(r)

    def __setitem__(self, i, v):
        self.a[i] = v.a if isinstance(v, SpMat) else v

    def toarray(self):
        return self.a.copy()

    def todense(self):
        return self.a.copy()

    @property
    def A(self):
        return self.a.copy()

    def _same(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = tobsr = tolil = todok = _same

    def copy(self):
        return SpMat(self)

    def diagonal(self):
        return np.diagonal(self.a).copy().view(SArr)

    def getrow(self, i):
        return SpMat(self.a[i:i + 1])

    def getcol(self, i):
        return SpMat(self.a[:, i:i + 1])

    @property
    def nnz(self):
        return builtins.sum(1 for e in self.a.reshape(-1) if not (isinstance(e, Sym) and e.n.op == 'const' and e.n.val == 0))

    def eliminate_zeros(self):
        pass


def block_diag(blocks, format=None, **k):
    if getattr(blocks, '__pv_iter__', False):
        c = CTX[0]
        if c is not None and 'block_diag' in c.stubs:
            return c.stubs['block_diag'](blocks)
        raise Unsupported('block matrix of symbolic size')
    bs = [b.a if isinstance(b, SpMat) else as_obj(b) for b in blocks]
    n, m = builtins.sum(b.shape[0] for b in bs), builtins.sum(b.shape[1] for b in bs)
    a = zeros((n, m))
    i = j = 0
    for b in bs:
        a[i:i + b.shape[0], j:j + b.shape[1]] = b
        i += b.shape[0]
        j += b.shape[1]
    return SpMat(a)


def sp_diags(d, offsets=0, **k):
    if offsets != 0:
        raise Unsupported('diags')
    d = list(d[0]) if isinstance(d, (list, tuple)) and isinstance(d[0], (list, np.ndarray)) else list(d)
    a = zeros((len(d), len(d)))
    for i, v in builtins.enumerate(d):
        a[i, i] = v
    return SpMat(a)


class _SpFactory:
    def __init__(self, name):
        self.name = name

    def __call__(self, arg=None, *a, **k):
        c = CTX[0]
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple) and any(getattr(x, '__pv_larr__', False) for x in (arg[0],) + tuple(arg[1])):
            # entries of symbolic number: the specification gives the meaning
            if c is not None and 'coo' in c.stubs:
                return c.stubs['coo'](arg[0], arg[1][0], arg[1][1], k.get('shape', a[0] if a else None))
            raise Unsupported('sparse matrix of symbolic size')
        return SpMat(arg, *a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, SpMat)


sparse = NS('scipy.sparse', None, **{n: _SpFactory(n) for n in
            ('csr_matrix', 'csc_matrix', 'coo_matrix', 'bsr_matrix', 'lil_matrix', 'dok_matrix', 'csr_array')})


sparse.__dict__.update(block_diag=block_diag, diags=sp_diags, eye=lambda n, **k: SpMat(eye(n)), identity=lambda n, **k: SpMat(eye(n)),
                       issparse=lambda x: isinstance(x, SpMat), spmatrix=SpMat,
                       vstack=lambda bs, **k: SpMat(np.vstack([b.a for b in bs])),
                       hstack=lambda bs, **k: SpMat(np.hstack([b.a for b in bs])),
                       linalg=NS('scipy.sparse.linalg', None, inv=lambda m: SpMat(inv(m.a)),
                                 spsolve=lambda A, b: solve(A.a, b)))

scipy_linalg = NS('scipy.linalg', None, **{n: _stubbed(n) for n in ('polar', 'svd', 'eigh', 'eig', 'lstsq', 'expm')}, solve=solve, inv=inv, det=det, norm=norm)
scipy = NS('scipy', None, sparse=sparse, linalg=scipy_linalg, spatial=NS('scipy.spatial', None, ConvexHull=_stubbed('ConvexHull')))


class _IGL:
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        def f(*a, **kw):
            c = CTX[0]
            if c is not None and ('igl.' + k) in c.stubs:
                return c.stubs['igl.' + k](*a, **kw)
            raise Unsupported('igl.' + k)
        return f


igl = NS('igl', _IGL())

for _ns in (numpy, linalg_ns):
    for _k, _v in list(_ns.__dict__.items()):
        if isinstance(_v, (types.FunctionType, types.BuiltinFunctionType)) and _k not in ('zeros', 'ones', 'empty', 'full', 'eye', 'identity') and not _k.startswith('_'):
            _ns.__dict__[_k] = rowwise(_k, _v)

MODULES = {'numpy': numpy, 'numpy.linalg': linalg_ns, 'numpy.random': random_ns, 'math': math, 'numba': numba, 'scipy': scipy,
           'scipy.sparse': sparse, 'scipy.sparse.linalg': sparse.linalg, 'scipy.linalg': scipy_linalg, 'scipy.spatial': scipy.spatial, 'igl': igl}

BUILTINS = dict(vars(builtins))
BUILTINS.update(int=PInt, float=PFloat, len=plen, range=prange, enumerate=penumerate, zip=pzip, reversed=preversed, isinstance=pisinstance, abs=pabs,
                sum=psum, min=pmin, max=pmax, round=pround, print=lambda *a, **k: None)
