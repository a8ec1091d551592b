"""Row-parametric arrays: arrays with a symbolic number N of rows.

A RowArr stands for an array of which one axis has symbolic length N; it is represented by its content at one arbitrary
row (the focus row i, 0 <= i < N) as a numpy object array whose row axis has length 1.  Only operations that compute row i
of the result from row i of the operands are admitted (elementwise operations, reductions and contractions over the other
axes, concatenation along other axes, gathers); everything else raises Unsupported.  A postcondition proved for the focus
row therefore holds for every row of arrays of every length."""
import numpy as np, operator, builtins
from . import terms as T
from .terms import Sym, SymBool, Unsupported, CTX, lift
from . import shim


class Focus:
    """the arbitrary row index"""

    def __repr__(self):
        return '<row i>'


FOCUS = Focus()


def is_row(x):
    return isinstance(x, RowArr)


def any_row(xs):
    for x in xs:
        if isinstance(x, RowArr):
            return True
        if isinstance(x, (list, tuple)) and any_row(x):
            return True
    return False


def same_n(a, b):
    return a is b or (isinstance(a, Sym) and isinstance(b, Sym) and a.n is b.n)


def _common(rs):
    N = rs[0].N
    for r in rs:
        if not same_n(r.N, N):
            raise Unsupported('arrays with different symbolic lengths')
    return N


def _elem(f, args):
    """f elementwise with broadcasting"""
    rs = [a for a in args if isinstance(a, RowArr)]
    N = _common(rs)
    back = rs[0].axis - rs[0].rep.ndim
    for r in rs:
        if r.axis - r.rep.ndim != back:
            raise Unsupported('broadcasting of a symbolic axis')
    vals = []
    for a in args:
        if isinstance(a, RowArr):
            vals.append(a.rep)
        else:
            if isinstance(a, (list, tuple)):
                a = shim.array(a)
            if isinstance(a, np.ndarray) and a.ndim >= -back and a.shape[back] != 1:
                raise Unsupported('broadcasting against a symbolic axis')
            vals.append(a)
    out = f(*vals)
    out = np.asarray(out)
    return RowArr(N, out, out.ndim + back)


def _bin(op, swap=False):
    def f(self, o):
        if hasattr(o, '__pv_table__'):
            return NotImplemented
        return _elem(op, (o, self) if swap else (self, o))
    return f


def _ibin(op):
    def f(self, o):
        r = _elem(op, (self, o))
        if r.rep.shape != self.rep.shape:
            raise Unsupported('in-place broadcasting')
        self.rep[...] = r.rep
        return self
    return f


def _div(a, b):
    return shim.pdiv(a if isinstance(a, np.ndarray) else a, b)


class RowArr:
    __array_ufunc__ = None
    __array_priority__ = 3000
    __pv_row__ = True

    def __init__(self, N, rep, axis=0):
        self.N = N
        rep = np.asarray(rep)
        self.rep = rep.view(shim.SArr) if rep.dtype == object else rep
        self.axis = axis
        if self.rep.shape[axis] != 1:
            raise Unsupported('row axis lost')

    # structure
    @property
    def ndim(self):
        return self.rep.ndim

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def shape(self):
        s = list(self.rep.shape)
        s[self.axis] = self.N
        return tuple(s)

    @property
    def size(self):
        return self.N * int(np.prod([d for i, d in enumerate(self.rep.shape) if i != self.axis]))

    def __pv_len__(self):
        return self.shape[0]

    def __len__(self):
        raise Unsupported('length of a symbolic-size array')

    def __iter__(self):
        if self.axis != 0:
            return iter([self[i] for i in range(self.rep.shape[0])])
        raise Unsupported('iteration over a symbolic-size array')

    def __bool__(self):
        raise Unsupported('truth of a symbolic-size array')

    def copy(self):
        return RowArr(self.N, self.rep.copy(), self.axis)

    def astype(self, dt, *a, **k):
        return RowArr(self.N, shim.cast(self.rep, dt), self.axis)

    @property
    def T(self):
        return RowArr(self.N, self.rep.T, self.rep.ndim - 1 - self.axis)

    def transpose(self, *ax):
        if not ax:
            return self.T
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        return RowArr(self.N, self.rep.transpose(ax), list(ax).index(self.axis))

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *sh, **k):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if self.axis != 0:
            raise Unsupported('reshape')
        rest = sh[1:]
        first = sh[0]
        per = int(np.prod(self.rep.shape))
        rest = [int(r) if not isinstance(r, Sym) else None for r in rest]
        if None in rest:
            raise Unsupported('reshape')
        if isinstance(first, Sym) and same_n(first, self.N):
            return RowArr(self.N, self.rep.reshape([1] + rest), 0)
        if not isinstance(first, Sym) and first == -1 and -1 not in rest and int(np.prod(rest)) == per:
            return RowArr(self.N, self.rep.reshape([1] + rest), 0)
        raise Unsupported('reshape across rows')

    def ravel(self, *a, **k):
        if self.ndim == 1:
            return self
        raise Unsupported('flatten across rows')

    flatten = ravel

    # indexing
    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        out, pos, rowkey, newaxis = [], 0, None, None
        for k in key:
            if k is None:
                out.append(None)
                continue
            if k is Ellipsis:
                m = self.ndim - n
                for _ in range(m):
                    out.append(slice(None))
                    pos += 1
                continue
            out.append(k)
            pos += 1
        while pos < self.ndim:
            out.append(slice(None))
            pos += 1
        pos, dst = 0, 0
        res = []
        mode = 'slice'
        for k in out:
            if k is None:
                res.append(None)
                dst += 1
                continue
            if pos == self.axis:
                if isinstance(k, slice) and k == slice(None):
                    res.append(k)
                    newaxis = dst
                elif k is FOCUS:
                    res.append(0)
                    mode = 'row'
                elif isinstance(k, RowArr) and k.rep.shape == (1,) and _boolish(k.rep):
                    mode = 'mask'
                    rowkey = k
                    res.append(slice(None))
                    newaxis = dst
                else:
                    raise Unsupported('index on a symbolic axis')
                pos += 1
                dst += 1
                continue
            if isinstance(k, Sym):
                k = k.__index__()
            if isinstance(k, (list, np.ndarray)):
                k = [int(v) for v in k]
            elif isinstance(k, RowArr):
                raise Unsupported('mixed fancy index')
            res.append(k)
            pos += 1
            if isinstance(k, (slice, list)):
                dst += 1
        # numpy puts a single fancy index in place, which is what dst counts
        return tuple(res), mode, rowkey, newaxis

    def __getitem__(self, key):
        if isinstance(key, RowArr) and key.rep.shape == self.rep.shape and _boolish(key.rep) and self.ndim > 1:
            raise Unsupported('mask selection')
        k, mode, rk, na = self._key(key)
        if mode == 'row':
            return self.rep[k]
        if mode == 'mask':
            raise Unsupported('mask selection')
        return RowArr(self.N, self.rep[k], na)

    def __setitem__(self, key, v):
        if isinstance(key, RowArr) and key.rep.shape == self.rep.shape and _boolish(key.rep):
            for idx in np.ndindex(self.rep.shape):
                if bool(key.rep[idx]):
                    self.rep[idx] = v.rep[idx] if isinstance(v, RowArr) else v
            return
        k, mode, rk, na = self._key(key)
        if mode == 'row':
            self.rep[k] = v
            return
        if mode == 'mask':
            if isinstance(v, RowArr):
                raise Unsupported('masked assignment of rows')
            if bool(rk.rep.reshape(-1)[0]):
                self.rep[k] = v
            return
        if isinstance(v, RowArr):
            tgt = self.rep[k]
            if (v.axis - v.ndim) != (na - tgt.ndim):
                raise Unsupported('broadcast in assignment')
            self.rep[k] = v.rep
        else:
            if isinstance(v, np.ndarray) and v.ndim and v.ndim >= self.rep[k].ndim - na and v.shape[na - self.rep[k].ndim] != 1:
                raise Unsupported('broadcast in assignment')
            self.rep[k] = v

    # arithmetic
    __add__, __radd__ = _bin(operator.add), _bin(operator.add, True)
    __sub__, __rsub__ = _bin(operator.sub), _bin(operator.sub, True)
    __mul__, __rmul__ = _bin(operator.mul), _bin(operator.mul, True)
    __truediv__, __rtruediv__ = _bin(_div), _bin(_div, True)
    __iadd__, __isub__, __imul__, __itruediv__ = _ibin(operator.add), _ibin(operator.sub), _ibin(operator.mul), _ibin(_div)
    __lt__, __le__, __gt__, __ge__ = _bin(operator.lt), _bin(operator.le), _bin(operator.gt), _bin(operator.ge)
    __eq__, __ne__ = _bin(operator.eq), _bin(operator.ne)
    __and__, __or__ = _bin(operator.and_), _bin(operator.or_)
    __hash__ = object.__hash__

    def __pow__(self, p):
        return RowArr(self.N, shim.ppow(self.rep, p if isinstance(p, Sym) else p), self.axis)

    def __rpow__(self, b):
        return _elem(lambda k: shim.ppow_sym(b, k), (self,))

    def __neg__(self):
        return RowArr(self.N, -self.rep, self.axis)

    def __abs__(self):
        return RowArr(self.N, shim.E['abs'](self.rep), self.axis)

    def __invert__(self):
        return RowArr(self.N, np.array([not bool(v) for v in self.rep.reshape(-1)], dtype=object).reshape(self.rep.shape), self.axis)

    # reductions
    def _red(self, f, axis, keepdims=False):
        if axis is None:
            raise Unsupported('reduction over a symbolic axis')
        ax = [a % self.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
        if self.axis in ax:
            raise Unsupported('reduction over a symbolic axis')
        r = np.asarray(f(self.rep, tuple(ax) if len(ax) > 1 else ax[0], keepdims))
        return RowArr(self.N, r, self.axis - (0 if keepdims else sum(1 for a in ax if a < self.axis)))

    def sum(self, axis=None, keepdims=False, **k):
        return self._red(lambda x, a, kd: x.sum(axis=a, keepdims=kd), axis, keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return self._red(lambda x, a, kd: x.min(axis=a, keepdims=kd), axis, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return self._red(lambda x, a, kd: x.max(axis=a, keepdims=kd), axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return self._red(lambda x, a, kd: x.sum(axis=a, keepdims=kd), axis, keepdims) / (
            self.rep.shape[axis % self.ndim] if not isinstance(axis, tuple) else 1)

    def dot(self, o):
        return dispatch('dot', shim.np_dot, (self, o), {})

    def __matmul__(self, o):
        return dispatch('matmul', np.matmul, (self, o), {})

    def __rmatmul__(self, o):
        return dispatch('matmul', np.matmul, (o, self), {})

    def tolist(self):
        raise Unsupported('tolist')


def _boolish(a):
    return a.dtype == bool or all(isinstance(e, (bool, np.bool_, SymBool)) for e in a.reshape(-1))


class Table:
    """array with a symbolic number of rows that is only read by (symbolic) row numbers"""
    __pv_table__ = True
    __array_ufunc__ = None
    __array_priority__ = 3001

    def __init__(self, N, mk, width, name='t'):
        self.N, self.mk, self.width, self.name = N, mk, width, name
        self.rows = {}
        self.order = []

    @property
    def shape(self):
        return (self.N,) + self.width

    @property
    def ndim(self):
        return 1 + len(self.width)

    @property
    def dtype(self):
        return np.dtype(float)

    def __pv_len__(self):
        return self.N

    def row(self, i):
        n = T.node_of(i)
        if n.id not in self.rows:
            self.rows[n.id] = self.mk(len(self.rows))
            self.order.append(n)
        return self.rows[n.id]

    def __getitem__(self, key):
        rest = ()
        if isinstance(key, tuple):
            key, rest = key[0], key[1:]
        if isinstance(key, RowArr):
            rep = key.rep
            out = np.empty(rep.shape + self.width, dtype=object)
            for idx in np.ndindex(rep.shape):
                out[idx] = self.row(rep[idx])
            r = RowArr(key.N, out.view(shim.SArr), key.axis)
            if rest and any(not (isinstance(x, slice) and x == slice(None)) for x in rest):
                return r[(slice(None),) * rep.ndim + tuple(rest)]
            return r
        if isinstance(key, (Sym, int, np.integer)):
            r = self.row(key)
            return r[rest] if rest else r
        if isinstance(key, (list, np.ndarray)):
            ks = np.asarray(key, dtype=object)
            out = np.empty(ks.shape + self.width, dtype=object)
            for idx in np.ndindex(ks.shape):
                out[idx] = self.row(ks[idx])
            return out.view(shim.SArr)
        raise Unsupported('index of a symbolic-size table')

    def __setitem__(self, k, v):
        raise Unsupported('write to a symbolic-size table')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic-size table')

    def __len__(self):
        raise Unsupported('length of a symbolic-size table')


ELEM = set('where maximum minimum clip multiply add subtract divide true_divide power isfinite isnan logical_and logical_or logical_not isclose less '
           'less_equal greater greater_equal equal not_equal negative'.split()) | set(shim.E)


def _real_elem(name, f):
    if name in ('power',):
        return shim.ppow
    return f


def dispatch(name, f, args, kw):
    if name in ELEM:
        if kw.get('out') is not None:
            raise Unsupported('out=')
        return _elem(lambda *a: f(*a, **kw), args)
    if name in ('copy', 'array', 'asarray', 'ascontiguousarray', 'asanyarray'):
        x = args[0]
        if isinstance(x, RowArr):
            return x.copy() if name in ('copy', 'array') and kw.get('copy', True) else x
        if isinstance(x, (list, tuple)):                # list of arrays of N: new leading axis
            return dispatch('stack', None, (list(x),), dict(axis=0))
    if name in ('zeros_like', 'empty_like'):
        return RowArr(args[0].N, shim.zeros(args[0].rep.shape), args[0].axis)
    if name == 'ones_like':
        return RowArr(args[0].N, shim.ones(args[0].rep.shape), args[0].axis)
    if name in ('sum', 'mean', 'min', 'max', 'amin', 'amax'):
        m = {'amin': 'min', 'amax': 'max'}.get(name, name)
        ax = args[1] if len(args) > 1 else kw.pop('axis', None)
        return getattr(args[0], m)(ax, **kw)
    if name in ('all', 'any'):
        ax = args[1] if len(args) > 1 else kw.get('axis')
        return args[0]._red(lambda x, a, kd: f(x, axis=a), ax)
    if name == 'norm':
        x = args[0]
        ax = kw.get('axis', args[2] if len(args) > 2 else None)
        kd = kw.get('keepdims', False)
        return x._red(lambda r, a, k: shim.norm(r, None, a, k), ax, kd)
    if name == 'transpose':
        return args[0].transpose(*(args[1:] or ([kw['axes']] if 'axes' in kw else [])))
    if name == 'reshape':
        return args[0].reshape(args[1])
    if name == 'expand_dims':
        x = args[0]
        ax = args[1] if len(args) > 1 else kw['axis']
        ax = ax % (x.ndim + 1)
        return RowArr(x.N, np.expand_dims(x.rep, ax), x.axis + (1 if ax <= x.axis else 0))
    if name in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'row_stack'):
        xs = list(args[0])
        ax = args[1] if len(args) > 1 else kw.get('axis', 0)
        rs = [x for x in xs if isinstance(x, RowArr)]
        N = _common(rs)
        if len(rs) != len(xs):
            raise Unsupported('concatenation with a fixed-size array')
        axis = rs[0].axis
        if any(r.axis != axis or r.ndim != rs[0].ndim for r in rs):
            raise Unsupported('concatenation of different axes')
        reps = [r.rep for r in rs]
        if name == 'stack':
            ax = ax % (rs[0].ndim + 1)
            return RowArr(N, np.stack(reps, ax), axis + (1 if ax <= axis else 0))
        if name == 'column_stack':
            if axis != 0:
                raise Unsupported('column_stack')
            return RowArr(N, np.concatenate([r.reshape(1, -1) for r in reps], 1), 0)
        if name in ('vstack', 'row_stack'):
            if rs[0].ndim == 1:
                return RowArr(N, np.stack(reps, 0), 1)
            ax = 0
        if name == 'hstack':
            ax = 1 if rs[0].ndim > 1 else 0
        ax = ax % rs[0].ndim
        if ax == axis:
            raise Unsupported('concatenation along a symbolic axis')
        return RowArr(N, np.concatenate(reps, ax), axis)
    if name == 'cross':
        a, b = args[:2]
        ax = kw.get('axis', kw.get('axisc', -1))
        def cr(x, y):
            return np.cross(x, y, axis=ax)
        rs = [x for x in (a, b) if isinstance(x, RowArr)]
        N = _common(rs)
        for r in rs:
            if r.axis == ax % r.ndim:
                raise Unsupported('cross along rows')
        if len(rs) == 2 and (a.axis - a.ndim) != (b.axis - b.ndim):
            raise Unsupported('cross broadcasting')
        for x in (a, b):
            if not isinstance(x, RowArr) and np.ndim(x) > 1:
                raise Unsupported('cross broadcasting')
        av = a.rep if isinstance(a, RowArr) else shim.as_obj(a)
        bv = b.rep if isinstance(b, RowArr) else shim.as_obj(b)
        out = cr(av, bv)
        return RowArr(N, out, rs[0].axis)
    if name == 'einsum':
        sub, ops = args[0], args[1:]
        sub = sub.replace(' ', '')
        ins, _, out = sub.partition('->')
        ins = ins.split(',')
        if not out:
            raise Unsupported('implicit einsum')
        N = _common([o for o in ops if isinstance(o, RowArr)])
        letters = {ins[i][o.axis] for i, o in enumerate(ops) if isinstance(o, RowArr)}
        if len(letters) != 1:
            raise Unsupported('einsum')
        l = letters.pop()
        if out.count(l) != 1 or any(ins[i].count(l) for i, o in enumerate(ops) if not isinstance(o, RowArr)):
            raise Unsupported('einsum over a symbolic axis')
        if any(s.count(l) != 1 for i, s in enumerate(ins) if isinstance(ops[i], RowArr)):
            raise Unsupported('einsum')
        r = shim.einsum(sub, *[o.rep if isinstance(o, RowArr) else o for o in ops])
        return RowArr(N, r, out.index(l))
    if name in ('dot', 'matmul', 'inner'):
        a, b = args
        if name == 'inner':
            raise Unsupported('inner')
        N = _common([x for x in args if isinstance(x, RowArr)])
        if isinstance(a, RowArr) and not isinstance(b, RowArr):
            if a.axis == a.ndim - 1 or np.ndim(b) > 2:
                raise Unsupported('dot over a symbolic axis')
            return RowArr(N, np.dot(a.rep, b), a.axis)
        if isinstance(b, RowArr) and not isinstance(a, RowArr):
            if np.ndim(a) == 2 and b.ndim == 2 and b.axis == 1:
                return RowArr(N, np.dot(a, b.rep), 1)
            if np.ndim(a) == 1 and b.ndim == 2 and b.axis == 1:
                return RowArr(N, np.dot(a, b.rep), 0)
            if name == 'matmul' and np.ndim(a) == 2 and b.ndim == 3 and b.axis == 0:
                return RowArr(N, np.matmul(a, b.rep), 0)
            raise Unsupported('dot')
        if name == 'matmul' and a.axis == b.axis == 0 and a.ndim == b.ndim == 3:
            return RowArr(N, np.matmul(a.rep, b.rep), 0)
        raise Unsupported('dot of symbolic-size arrays')
    if name in ('inv', 'det') and args[0].axis == 0 and args[0].ndim == 3:
        if name == 'det':
            return RowArr(args[0].N, shim.as_obj([shim.det(args[0].rep[0])]), 0)
        return RowArr(args[0].N, shim.as_obj([shim.inv(args[0].rep[0])]), 0)
    if name in ('shape',):
        return args[0].shape
    if name == 'ndim':
        return args[0].ndim
    raise Unsupported('%s on a symbolic-size array' % name)


def filled(shape, v):
    """zeros/ones with one symbolic dimension"""
    sh = shape if isinstance(shape, (tuple, list)) else (shape,)
    sym = [i for i, s in enumerate(sh) if isinstance(s, Sym) and s.n.op != 'const']
    if len(sym) != 1:
        raise Unsupported('several symbolic dimensions')
    dims = [1 if i == sym[0] else int(s) for i, s in enumerate(sh)]
    N = sh[sym[0]]
    return RowArr(N, v(dims), sym[0])
