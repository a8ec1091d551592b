"""Loops over symbolic ranges (loop invariants) and arrays of symbolic length read and written by index.

A contract registers an invariant for the k-th loop of a function (c.invariant).  For a loop with a registered invariant the
verifier proves the invariant on entry, then explores (a) one arbitrary iteration from an arbitrary state that satisfies the
invariant, proving the invariant again at its end and that nothing else reachable from the local variables was modified, and
(b) the code after the loop from an arbitrary state that satisfies the invariant and the exit condition."""
import numpy as np, sys, types, weakref
from . import terms as T
from . import shim
from .terms import Sym, SymBool, Unsupported, CTX
from .rows import RowArr


class PathDone(BaseException):
    """the arbitrary iteration has been verified"""


class Env:
    """the local variables of the loop's function"""

    def __init__(self, d):
        self.__dict__.update(d)

    def __getattr__(self, k):
        raise Unsupported('the loop has no variable %s' % k)


class Spec:
    def __init__(self, inv, havoc=None, modifies=(), name='', variant=None, keep=()):
        self.inv, self.havoc, self.modifies, self.name, self.variant, self.keep = inv, havoc, modifies, name, variant, keep


class Poison:
    def __init__(self, name):
        self._n = name

    def _f(self, *a, **k):
        raise Unsupported('value of %s after an arbitrary iteration' % object.__getattribute__(self, '_n'))
    __getattr__ = __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __iter__ = __len__ = __bool__ = __getitem__ = __call__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f
    __hash__ = object.__hash__


def is_int(v):
    return isinstance(v, (int, np.integer)) or (isinstance(v, Sym) and v.n.sort == T.I)


def fresh_like(c, name, v):
    if isinstance(v, (bool, np.bool_, SymBool)):
        return c.fresh(name) > 0
    if isinstance(v, Sym) or isinstance(v, (int, float, np.number)):
        return c.fresh(name, T.I if is_int(v) else T.R)
    if isinstance(v, np.ndarray):
        o = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            o[i] = c.fresh(name, T.I if is_int(v[i]) else T.R)
        return o.view(shim.SArr)
    return Poison(name)


def frame_of(depth):
    f = sys._getframe(depth)
    return f


def snap(x, depth=0, seen=None):
    """structural snapshot used for the frame check"""
    if isinstance(x, LArr):
        return ('L', x, len(x.stores))
    if isinstance(x, SymList):
        return ('S', x, len(x.sets))
    if isinstance(x, np.ndarray):
        return ('A', x, x.copy())
    if isinstance(x, RowArr):
        return ('A', x, x.rep.copy())
    seen = seen if seen is not None else set()
    if id(x) in seen or depth > 4:
        return None
    if isinstance(x, list):
        seen.add(id(x))
        return ('l', x, [(e, snap(e, depth + 1, seen)) for e in x] if len(x) < 200 else len(x))
    if isinstance(x, dict):
        seen.add(id(x))
        return ('d', x, {k: (e, snap(e, depth + 1, seen)) for k, e in dict.items(x)})
    if isinstance(x, (types.ModuleType, types.FunctionType, type)) or x.__class__.__module__.startswith(('pv', 'builtins', 'numpy')):
        return None
    if hasattr(type(x), '__pv_state__'):
        return ('s', x, x.__pv_state__())
    if hasattr(x, '__dict__'):
        seen.add(id(x))
        return ('o', x, {k: (e, snap(e, depth + 1, seen)) for k, e in x.__dict__.items()})
    return None


def same(s):
    if s is None:
        return True
    k, x, v = s
    if k == 'L':
        return len(x.stores) == v
    if k == 'S':
        return len(x.sets) == v
    if k == 's':
        return x.__pv_state__() == v
    if k == 'A':
        y = x.rep if isinstance(x, RowArr) else x
        if y.shape != v.shape:
            return False
        for a, b in zip(y.reshape(-1), v.reshape(-1)):
            if a is not b:
                if isinstance(a, (Sym, int, float, np.number)) and isinstance(b, (Sym, int, float, np.number)):
                    if T.node_of(a) is T.node_of(b):
                        continue
                return False
        return True
    if k == 'l':
        if isinstance(v, int):
            return len(x) == v
        return len(x) == len(v) and all(a is b and same(t) for a, (b, t) in zip(x, v))
    d = dict(dict.items(x)) if k == 'd' else x.__dict__
    return set(d) == set(v) and all(d[q] is v[q][0] and same(v[q][1]) for q in v)


class Hook:
    symbolic = True

    def __init__(self, it, spec, frame, where):
        self.it, self.spec, self.where = it, spec, where
        self.state = 'start'
        self.c = CTX[0]
        self.env0 = dict(frame.f_locals)
        if self.spec is None:
            raise Unsupported('loop without an invariant (%s)' % where)

    def name(self, s):
        return '%s: %s' % (self.spec.name or self.where, s)

    def conds(self, env, k):
        r = self.spec.inv(Env(env), k)
        return r if isinstance(r, (list, tuple)) else [r]

    def prove(self, env, k, what):
        self.c.phase = 'entry' if what.endswith('entry') else 'preserved'
        self.c.prove(self.name(what), list(self.conds(env, k)) or [True])

    def assume(self, env, k, exit=False):
        self.c.phase = 'exit' if exit else 'assumed'
        for x in self.conds(env, k):
            if not exit and (x is False or isinstance(x, SymBool) and x.n is T.FALSE):
                raise Unsupported('invariant is false by construction (%s)' % self.name(''))
            self.c.requires(x)

    def havoc(self, loc, names, k):
        new = dict(loc)
        out = {}
        given = getattr(self, 'given', None) or {}
        if self.spec.havoc and getattr(self, 'given', None) is None:
            given = self.spec.havoc(Env(loc), k) or {}
        for n in names:
            if n[0] == '+':
                out[n] = given[n[1:]] if n[1:] in given else loc.get(n[1:])
            elif n in given:
                out[n] = given[n]
            elif n in self.spec.keep:
                out[n] = loc.get(n)
            elif n in loc:
                out[n] = fresh_like(self.c, n, loc[n])
            else:
                out[n] = Poison(n)
        self.grown = {n[1:] for n in names if n[0] == '+' and n[1:] in given}
        new.update({n.lstrip('+'): v for n, v in out.items() if n[0] != '+' or n[1:] in loc})
        # what the iteration may not modify: everything reachable from the locals except what it assigns or declares
        return new, [out[n] for n in names]

    def protect(self, env, names):
        mod = set(names) | set(self.spec.modifies) | self.grown
        self.frame = {n: snap(v) for n, v in env.items() if n not in mod and not n.startswith('_pv_')}

    def check_frame(self):
        bad = [n for n, s in self.frame.items() if not same(s)]
        if bad:
            raise Unsupported('the loop modifies %s, which its contract does not declare' % bad)

    # for-loops
    def __iter__(self):
        return self

    def __next__(self):
        c = self.c
        if self.state == 'start':
            self.prove(self.env0, 0, 'invariant on entry')
            N = self.it.count()
            self.state = c.choice('loop %s #%d' % (self.where, c.nfresh), ['body', 'exit'])
            if self.state == 'exit':
                c.requires(N >= 0)
                self.k = N
                raise StopIteration
            self.k = c.fresh('k', T.I)
            c.witnesses.append(self.k)
            c.requires(SymBool(T.and_(T.le(T.const(0), T.node_of(self.k)), T.lt(T.node_of(self.k), T.node_of(N)))))
            # the state changes before the element is taken (the element may be part of the state)
            self.given = (self.spec.havoc(Env(dict(sys._getframe(1).f_locals)), self.k) or {}) if self.spec.havoc else {}
            return self.it.item(self.k)
        env = dict(sys._getframe(1).f_locals)
        self.prove(env, self.k + 1, 'invariant preserved')
        self.check_frame()
        raise PathDone()

    def head(self, loc, names):
        env, vals = self.havoc(loc, names, self.k)
        self.assume(env, self.k)
        self.protect(env, names)
        return tuple(vals)

    def after(self, loc, names):
        if self.state != 'exit':                  # left by break
            return tuple(loc.get(n.lstrip('+')) for n in names)
        env, vals = self.havoc(loc, names, self.k)
        self.assume(env, self.k, exit=True)
        return tuple(vals)

    # while-loops
    def enter(self, loc, names):
        self.prove(loc, None, 'invariant on entry')
        env, vals = self.havoc(loc, names, None)
        self.assume(env, None)
        self.protect(env, names)
        self.state = 'top'
        return tuple(vals)

    def step(self, loc):
        if self.state == 'top':
            self.state = 'body'
            if self.spec.variant:
                self.v0 = self.spec.variant(Env(loc))
            return True
        self.prove(loc, None, 'invariant preserved')
        if self.spec.variant:
            v = self.spec.variant(Env(loc))
            self.c.prove(self.name('variant decreases and is bounded'), [v < self.v0, self.v0 >= 0])
        self.check_frame()
        raise PathDone()


def find_spec(frame, ordinal):
    c = CTX[0]
    if c is None:
        return None, ''
    q = frame.f_globals.get('__name__', '') + '.' + frame.f_code.co_qualname
    return c.loop_specs.get((q, ordinal)), '%s loop %d' % (frame.f_code.co_name, ordinal)


class PlainWhile:
    symbolic = False


PLAIN_WHILE = PlainWhile()


def pv_while(ordinal):
    f = sys._getframe(1)
    spec, where = find_spec(f, ordinal)
    if spec is None:
        return PLAIN_WHILE
    return Hook(None, spec, f, where)


# ---- iterables of symbolic size --------------------------------------------------------------------
class SymIter:
    __pv_iter__ = True

    def __pv_loop__(self, ordinal):
        f = sys._getframe(2)
        spec, where = find_spec(f, ordinal)
        return Hook(self, spec, f, where)

    def __pv_len__(self):
        return self.count()

    def __len__(self):
        raise Unsupported('length of a collection of symbolic size')

    def __iter__(self):
        raise Unsupported('iteration over a collection of symbolic size')

    def __pv_comp__(self, f):
        s = self
        return SymList(self.count(), lambda k: f(s.item(k)))


class SymRange(SymIter):
    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if not isinstance(self.step, int) and not (isinstance(self.step, Sym) and self.step.n.op == 'const'):
            raise Unsupported('symbolic step')
        self.step = int(self.step)
        if self.step not in (1, -1):
            raise Unsupported('range step')

    def count(self):
        n = (self.stop - self.start) * self.step
        c = CTX[0]
        if c.quick(T.node_of(n) and T.le(T.const(0), T.node_of(n))) is True or bool(n >= 0):
            return n
        return 0

    def item(self, k):
        return self.start + k * self.step


class SymList(SymIter):
    """a list of symbolic length whose elements are given by their index (indices with equal values give the same element)"""

    def __init__(self, N, mk):
        self.N, self.mk, self.cache, self.sets = N, mk, {}, []

    def count(self):
        return self.N

    def __setitem__(self, k, v):
        if not isinstance(k, (Sym, int, np.integer)):
            raise Unsupported('slice of a list of symbolic length')
        if isinstance(k, (int, np.integer)) and k < 0:
            k = self.N + int(k)
        self.sets.append((k, v))

    def item(self, k):
        for j, v in reversed(self.sets):
            if index_eq(k, j):
                return v
        n = T.node_of(k)
        if n.id not in self.cache:
            for m, x in list(self.cache.values()):
                if index_eq(Sym(m), Sym(n)):
                    self.cache[n.id] = (n, x)
                    return x
            self.cache[n.id] = (n, self.mk(k))
        return self.cache[n.id][1]

    def forget(self, mk):
        """(specification side) arbitrary elements from now on"""
        self.mk, self.cache, self.sets = mk, {}, []

    def __pv_reversed__(self):
        return SymReversed(self)

    def __getitem__(self, k):
        if isinstance(k, (Sym, int, np.integer)):
            if isinstance(k, (int, np.integer)) and k < 0:
                k = self.N + int(k)
            return self.item(k)
        raise Unsupported('slice of a list of symbolic length')

    def __bool__(self):
        return bool(self.N > 0)


class SymDict(dict):
    """dictionary with known entries and an arbitrary number of others"""
    __pv_iter__ = True

    def __init__(self, known, N, other=None):
        dict.__init__(self, known)
        self.N, self.other = N, other

    def __pv_len__(self):
        return self.N + dict.__len__(self)

    def __len__(self):
        raise Unsupported('length of a collection of symbolic size')

    def __bool__(self):
        return bool(self.__pv_len__() > 0)

    def _all(self, what):
        if dict.__len__(self):
            raise Unsupported('iteration over a partly known dictionary')
        return SymList(self.N, what)

    def values(self):
        return self._all(self.other)

    def __iter__(self):
        raise Unsupported('iteration over a collection of symbolic size')


class SymReversed(SymIter):
    def __init__(self, x):
        self.x = x

    def count(self):
        return self.x.count()

    def item(self, k):
        return self.x[self.x.count() - 1 - k]


class SymEnumerate(SymIter):
    def __init__(self, x, start=0):
        self.x, self.start = x, start

    def count(self):
        return self.x.count()

    def item(self, k):
        return (self.start + k, self.x.item(k))


class SymZip(SymIter):
    def __init__(self, xs):
        self.xs = xs

    def count(self):
        ns = [shim.plen(x) for x in self.xs]
        for n in ns[1:]:
            if CTX[0].normal_const(T.node_of(n), T.node_of(ns[0])) != 0:
                raise Unsupported('zip of different symbolic lengths')
        return ns[0]

    def item(self, k):
        return tuple(x.item(k) if hasattr(x, 'item') and hasattr(x, '__pv_iter__') else x[k] for x in self.xs)


class Collector(list):
    """a result list of which only the elements appended in the arbitrary iteration are known"""


# ---- arrays of symbolic length read and written by index ----------------------------------------------
def index_eq(i, j):
    c = CTX[0]
    a, b = T.node_of(i), T.node_of(j)
    if a is b:
        return True
    d = c.normal_const(a, b)
    if d is not None:
        return d == 0
    return bool(SymBool(T.eq(a, b)))


class LArr:
    """array whose axis `axis` has symbolic length N; at(i) is the slice at index i (that axis kept with length one)"""
    __array_ufunc__ = None
    __array_priority__ = 3002
    __pv_larr__ = True
    __pv_iter__ = True
    __pv_symbolic__ = True

    def __init__(self, N, fn, axis, shape, checked=True):
        self.N, self.fn, self.axis, self.rshape = N, fn, axis, tuple(shape)
        self._stores = []
        self.views = []
        self.cache = {}
        self.checked = checked

    # slices share storage with the array: writes through a live slice reach the array and the other way round
    @property
    def stores(self):
        if self.views:
            self.sync()
        return self._stores

    @stores.setter
    def stores(self, v):
        self._stores, self.views = v, []

    def view(self, owner, idx):
        self.views.append((weakref.ref(owner), idx, owner.copy()))
        return owner.view(shim.SArr)

    def sync(self):
        live = []
        for v in self.views:
            owner = v[0]()
            if owner is None:
                continue
            live.append(v)
            if all(a is b for a, b in zip(owner.reshape(-1), v[2].reshape(-1))):
                continue
            for q, i in enumerate(v[1]):
                new, old = (np.take(x, [q], axis=self.axis) for x in (owner, v[2]))
                if any(a is not b for a, b in zip(new.reshape(-1), old.reshape(-1))):
                    self._stores.append((i, new.view(shim.SArr)))
            v[2][...] = owner
        self.views = live

    def store(self, i, rep):
        self.stores.append((i, rep))
        for ref, idx, snap in self.views:
            owner = ref()
            if owner is None:
                continue
            for q, j in enumerate(idx):
                if index_eq(i, j):
                    at = [slice(None)] * self.ndim
                    at[self.axis] = slice(q, q + 1)
                    owner[tuple(at)] = snap[tuple(at)] = rep

    @property
    def ndim(self):
        return len(self.rshape)

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def shape(self):
        s = list(self.rshape)
        s[self.axis] = self.N
        return tuple(s)

    @property
    def size(self):
        return self.N * int(np.prod([d for i, d in enumerate(self.rshape) if i != self.axis]))

    def __pv_len__(self):
        return self.shape[0]

    def __len__(self):
        raise Unsupported('length of an array of symbolic size')

    def __bool__(self):
        raise Unsupported('truth of an array of symbolic size')

    def __iter__(self):
        raise Unsupported('iteration over an array of symbolic size')

    def count(self):
        return self.N

    def item(self, k):
        return self[k]

    def __pv_loop__(self, ordinal):
        f = sys._getframe(2)
        spec, where = find_spec(f, ordinal)
        return Hook(self, spec, f, where)

    def __pv_comp__(self, f):
        s = self.copy()
        return SymList(self.N, lambda k: f(s[k]))

    def copy(self):
        r = LArr(self.N, self.fn, self.axis, self.rshape)
        r.stores = list(self.stores)
        return r

    def at(self, i):
        for j, rep in reversed(self.stores):
            if index_eq(i, j):
                return rep
        n = T.node_of(i)
        if n.id not in self.cache:
            self.cache[n.id] = (n, self.fn(i))
        return self.cache[n.id][1]

    def any(self):
        """either answer (nothing is concluded from it)"""
        return CTX[0].choice('some entry is nonzero', [True, False])

    def bounds(self, i):
        c = CTX[0]
        a = T.node_of(i)
        g = T.and_(T.le(T.const(0), a), T.lt(a, T.node_of(self.N)))
        if c is not None and g is not T.TRUE and ('ix', g.id) not in c.defs_done:
            c.defs_done.add(('ix', g.id))
            for x in (g.args if g.op == 'and' else [g]):
                c.index_obligation(x)

    def _split(self, key):
        """-> (row key, full key with the row axis at 0) or None when the row axis is taken whole"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if Ellipsis in [k for k in key if not isinstance(k, (np.ndarray, LArr, RowArr))]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            m = self.ndim - sum(1 for k in key if k is not None) + 1
            key[p:p + 1] = [slice(None)] * m
        pos = 0
        for p, k in enumerate(key):
            if k is None:
                continue
            if pos == self.axis:
                return p, k, key
            pos += 1
        return None, slice(None), key

    def _int(self, k):
        if isinstance(k, (int, np.integer)):
            k = int(k)
            if k < 0:
                k = self.N + k
        return k

    def __getitem__(self, key):
        p, k, full = self._split(key)
        if isinstance(k, (Sym, int, np.integer)) and not isinstance(k, bool):
            k = self._int(k)
            self.bounds(k)
            full[p] = 0
            full = tuple(x.__index__() if isinstance(x, Sym) else x for x in full)
            r = self.at(k)[full]
            if isinstance(r, np.ndarray) and r.dtype == object and all(isinstance(x, (int, slice, np.integer)) or x is None for x in full):
                return self.view(np.array(shim.as_obj(self.at(k)), dtype=object), [k])[full]
            return r.copy() if isinstance(r, np.ndarray) else r
        if isinstance(k, slice) and k == slice(None):
            return lift(lambda a: a[tuple(full)], [self])
        if isinstance(k, slice):
            idx = self._range(k)
            full[p] = slice(None)
            if idx and any(self.at(i).dtype != object for i in idx):
                return np.concatenate([self.at(i) for i in idx], self.axis).view(shim.SArr)[tuple(full)]
            return self.view(np.concatenate([np.asarray(self.at(i)) for i in idx], self.axis), idx)[tuple(full)] if idx else shim.zeros(
                [0 if q == self.axis else d for q, d in enumerate(self.rshape)])
        if isinstance(k, (list, np.ndarray)):
            ks = np.asarray(k, dtype=object)
            if ks.dtype == object and self.axis == 0 and all(isinstance(x, slice) and x == slice(None) for x in full[1:]) and not any(isinstance(e, (bool, SymBool)) for e in ks.reshape(-1)):
                out = np.empty(ks.shape + self.rshape[1:], dtype=object)
                for i in np.ndindex(ks.shape):
                    self.bounds(ks[i])
                    out[i] = self.at(self._int(ks[i]))[0]
                return out.view(shim.SArr)
        if isinstance(k, LArr) and k.ndim == 1 and self.axis == 0 and len(full) == 1 and isinstance(k.at(CTX[0].fresh('probe', T.I))[0], (bool, np.bool_, SymBool)):
            return Filtered(self, k)
        if isinstance(k, (LArr, RowArr)) and self.axis == 0 and all(isinstance(x, slice) and x == slice(None) for x in full[1:]):
            s = self.copy()
            if isinstance(k, LArr):
                def g(i):
                    ks = k.at(i)
                    out = np.empty(ks.shape + s.rshape[1:], dtype=object)
                    for q in np.ndindex(ks.shape):
                        out[q] = s.at(ks[q])[0]
                    return out.view(shim.SArr)
                return LArr(k.N, g, k.axis, k.rshape + s.rshape[1:])
        raise Unsupported('index of an array of symbolic size')

    def _range(self, k):
        if k.step not in (None, 1):
            raise Unsupported('strided slice of an array of symbolic size')
        a = 0 if k.start is None else self._int(k.start)
        b = self.N if k.stop is None else self._int(k.stop)
        d = CTX[0].normal_const(T.node_of(b), T.node_of(a))
        if d is None:
            raise Unsupported('slice of symbolic length')
        d = int(d)
        if d > 0:
            self.bounds(a)
            self.bounds(a + (d - 1))
        return [a + q for q in range(d)]

    def __setitem__(self, key, v):
        if len(self.stores) > 400:
            raise Unsupported('too many stores')
        p, k, full = self._split(key)
        if isinstance(k, (Sym, int, np.integer)):
            k = self._int(k)
            self.bounds(k)
            full[p] = 0
            r = self.at(k).copy()
            r = shim.as_obj(r) if r.dtype != object else r
            full = tuple(x.__index__() if isinstance(x, Sym) else x for x in full)
            r[full] = v
            self.store(k, r.view(shim.SArr))
            return
        if isinstance(k, slice) and k != slice(None):
            idx = self._range(k)
            full[p] = slice(None)
            block = np.concatenate([shim.as_obj(self.at(i)) for i in idx], self.axis) if idx else None
            if not idx:
                return
            block[tuple(full)] = v
            for q, i in enumerate(idx):
                self.store(i, np.take(block, [q], axis=self.axis).view(shim.SArr))
            return
        if isinstance(k, (list, np.ndarray)) and self.axis == 0 and all(isinstance(x, slice) and x == slice(None) for x in full[1:]) \
                and not any(isinstance(e, (bool, SymBool, np.bool_)) for e in np.asarray(k, dtype=object).reshape(-1)):
            ks = np.asarray(k, dtype=object).reshape(-1)
            w = v.reshape((len(ks),) + v.shape[1:]) if isinstance(v, np.ndarray) and v.ndim and v.size == len(ks) else v
            for q, i in enumerate(ks):
                self[i] = w[q] if isinstance(w, (np.ndarray, list, tuple)) and len(self.rshape) == np.ndim(np.asarray(w, dtype=object)) else w
            return
        if isinstance(k, slice):
            old = self.copy()
            if isinstance(v, LArr):
                vv = v.copy()

                def g(i):
                    a = RowArr(old.N, old.at(i).copy(), old.axis)
                    a[tuple(full)] = RowArr(vv.N, vv.at(i), vv.axis)
                    return a.rep
            else:
                def g(i):
                    a = RowArr(old.N, old.at(i).copy(), old.axis)
                    a[tuple(full)] = v
                    return a.rep
            self.fn, self.stores, self.cache = g, [], {}
            return
        if isinstance(k, LArr) and self.ndim == 1 and k.ndim == 1 and len(full) == 1 and not isinstance(v, (np.ndarray, list, tuple, LArr, RowArr)):
            old, m = self.copy(), k.copy()

            def g(i):
                b = m.at(i)[0]
                if not isinstance(b, (bool, np.bool_, SymBool)):
                    raise Unsupported('write to an array of symbolic size')
                return shim.array([v]) if bool(b) else old.at(i)
            self.fn, self.stores, self.cache = g, [], {}
            return
        raise Unsupported('write to an array of symbolic size')

    def assign(self, other):
        """(specification side) become the array `other`"""
        self.fn, self.stores, self.cache = other.fn, list(other.stores), {}

    # everything else: row by row
    def max(self, axis=None, **kw):
        return dispatch('max', shim.np_max, (self,), dict(kw, **({} if axis is None else {'axis': axis})))

    def sum(self, axis=None, **kw):
        return dispatch('sum', lambda x, *a, **k: x.sum(*a, **k), (self,), dict(kw, **({} if axis is None else {'axis': axis})))

    def mean(self, axis=None, **kw):
        return dispatch('mean', shim.np_mean, (self,), dict(kw, **({} if axis is None else {'axis': axis})))

    def min(self, axis=None, **kw):
        return dispatch('min', shim.np_min, (self,), dict(kw, **({} if axis is None else {'axis': axis})))

    def __getattr__(self, k):
        if k.startswith('__') or k not in ('T', 'transpose', 'swapaxes', 'min', 'max', 'mean', 'astype', 'reshape', 'dot'):
            raise AttributeError(k)
        if k == 'T':
            return lift(lambda a: a.T, [self])
        if k == 'reshape':
            return self._reshape
        return lambda *a, **kw: lift(lambda x, *y: getattr(x, k)(*y, **kw), [self] + list(a))

    def _reshape(self, *sh, **k):
        return reshape(self, sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh)

    def ravel(self, *a, **k):
        return reshape(self, (-1,))

    flatten = ravel

    def _bin(name):
        def f(self, o):
            import operator
            op = getattr(operator, name)
            return lift(lambda a, b: op(a, b), [self, o])
        return f

    def _rbin(name):
        def f(self, o):
            import operator
            op = getattr(operator, name)
            return lift(lambda a, b: op(b, a), [self, o])
        return f

    for _n in ('add', 'sub', 'mul', 'truediv', 'pow', 'matmul', 'floordiv', 'mod'):
        locals()['__%s__' % _n] = _bin(_n)
        locals()['__r%s__' % _n] = _rbin(_n)
    for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        locals()['__%s__' % _n] = _bin(_n)
    __hash__ = object.__hash__

    def _inplace(name):
        def f(self, o):
            self.assign(getattr(self, name)(o))
            return self
        return f
    __iadd__ = _inplace('__add__')
    __isub__ = _inplace('__sub__')
    __imul__ = _inplace('__mul__')
    __itruediv__ = _inplace('__truediv__')

    def __neg__(self):
        return lift(lambda a: -a, [self])

    def __abs__(self):
        return lift(lambda a: abs(a), [self])


def lift(f, args, kw=None):
    """f on row-parametric arrays, index by index"""
    ls = [a for a in args if isinstance(a, LArr)]
    N = ls[0].N
    c = CTX[0]
    for a in ls:
        if a.N is not N and not (T.node_of(a.N) is T.node_of(N)) and c.normal_const(T.node_of(a.N), T.node_of(N)) != 0:
            raise Unsupported('arrays of different symbolic lengths')
    sn = [a.copy() if isinstance(a, LArr) else a for a in args]

    def run(i):
        return f(*[RowArr(N, a.at(i), a.axis) if isinstance(a, LArr) else a for a in sn])
    r = run(c.fresh('probe', T.I))
    if not isinstance(r, RowArr):
        raise Unsupported('reduction over an axis of symbolic length')
    return LArr(N, lambda i: run(i).rep, r.axis, r.rep.shape)


def residue(i, m):
    """(quotient, remainder) of an index of the form m*q + r"""
    c = CTX[0]
    if isinstance(i, (int, np.integer)):
        return divmod(int(i), m)
    q, r = i // m, i % m
    for v in range(m):
        if c.normal_const(T.node_of(r), T.const(v)) == 0:
            return q, v
    return (q, r.__index__())


def reshape(a, sh):
    sh = list(sh)
    per = int(np.prod(a.rshape))
    if a.axis != 0:
        raise Unsupported('reshape')
    c = CTX[0]
    rest = sh[1:]
    if any(isinstance(x, Sym) and x.n.op != 'const' for x in rest) or any(x == -1 for x in rest):
        if len(sh) == 2 and sh[0] == 1:
            pass
        raise Unsupported('reshape')
    rest = [int(x) for x in rest]
    w = int(np.prod(rest)) if rest else 1
    s = a.copy()
    if w == per:
        return LArr(a.N, lambda i: s.at(i).reshape([1] + rest), 0, [1] + rest)
    if per % w == 0:                                            # rows are cut into pieces
        m = per // w

        def g(j):
            q, r = residue(j, m)
            return s.at(q).reshape(-1)[r * w:(r + 1) * w].reshape([1] + rest)
        return LArr(a.N * m, g, 0, [1] + rest)
    if w % per == 0:                                            # rows are joined
        m = w // per
        n = a.N // m
        if c.normal_const(T.node_of(n * m), T.node_of(a.N)) != 0:
            raise Unsupported('reshape of an array of symbolic size')
        return LArr(n, lambda i: np.concatenate([s.at(i * m + t).reshape(-1) for t in range(m)]).reshape([1] + rest), 0, [1] + rest)
    raise Unsupported('reshape')


def dispatch(name, f, args, kw):
    from . import rows
    a0 = args[0]
    if name in ('copyto', 'norm'):
        return f(*args, **kw)
    if name in ('multiply', 'subtract', 'add', 'divide', 'true_divide') and (len(args) > 2 or kw.get('out') is not None):
        out = args[2] if len(args) > 2 else kw['out']
        out = out[0] if isinstance(out, tuple) else out
        if not isinstance(out, LArr):
            raise Unsupported('output array')
        out.assign(dispatch(name, f, args[:2], {}))
        return out
    if name in ('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'copy'):
        if isinstance(a0, LArr):
            return a0.copy() if name in ('copy', 'array') and kw.get('copy', True) else a0
    if name in ('zeros_like', 'empty_like', 'ones_like') and isinstance(a0, LArr):
        v = 1 if name == 'ones_like' else 0
        return filled(a0.shape, lambda d: shim.full(d, v))
    if name == 'reshape' and isinstance(a0, LArr):
        return reshape(a0, args[1] if isinstance(args[1], (tuple, list)) else (args[1],))
    if name in ('ravel', 'flatten') and isinstance(a0, LArr):
        return a0.ravel()
    if name == 'sum' and isinstance(a0, LArr):
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if a0.ndim == 1 or ax is not None and not isinstance(ax, tuple) and int(ax) % a0.ndim == a0.axis and not kw.get('keepdims'):
            return formal_sum(a0)
    if name == 'mean' and isinstance(a0, LArr):
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if a0.ndim == 1 or ax is not None and not isinstance(ax, tuple) and int(ax) % a0.ndim == a0.axis and not kw.get('keepdims'):
            return formal_sum(a0) / a0.N
    if name == 'cov' and isinstance(a0, LArr):
        if 'cov' not in CTX[0].stubs or a0.ndim != 2 or len(args) > 1 or set(kw) - {'rowvar'}:
            raise Unsupported('covariance of an array of symbolic size')
        a0 = a0 if kw.get('rowvar', True) else a0.T
        if a0.axis != 1:
            raise Unsupported('covariance of an array of symbolic size')
        return CTX[0].stubs['cov'](a0)
    if name in ('min', 'max', 'amin', 'amax') and isinstance(a0, LArr):
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if ax is not None and int(ax) % a0.ndim == a0.axis and not kw.get('keepdims') or a0.ndim == 1:
            return extremum(a0, name[-3:])
    if name == 'count_nonzero' and isinstance(a0, LArr) and a0.ndim == 2 and a0.axis == 0 and set(kw) <= {'axis'} and (args[1] if len(args) > 1 else kw.get('axis')) in (1, -1):
        src = a0.copy()

        def nonzero(x):
            if isinstance(x, (bool, np.bool_)):
                return int(x)
            if isinstance(x, SymBool):
                return Sym(T.ite(T.bnode(x), T.const(1), T.const(0)))
            e = T.eq(T.node_of(x), T.const(0))
            return 0 if e is T.TRUE else 1 if e is T.FALSE else Sym(T.ite(e, T.const(0), T.const(1)))
        return LArr(a0.N, lambda i: shim.array([sum(nonzero(x) for x in src.at(i)[0])]), 0, (1,))
    if name == 'count_nonzero' and isinstance(a0, LArr) and len(args) == 1 and not kw:
        # some number of entries (nothing more is known)
        r = CTX[0].fresh('count', T.I)
        CTX[0].requires(r >= 0)
        CTX[0].requires(r <= a0.size)
        return r
    if isinstance(a0, (list, tuple)) and any(isinstance(x, LArr) for x in a0):
        xs = list(a0)
        return lift(lambda *rs: rows.dispatch(name, f, (list(rs),) + tuple(args[1:]), dict(kw)), xs)
    return lift(lambda *rs: rows.dispatch(name, f, tuple(rs), dict(kw)), list(args))


def formal_sum(a):
    """sum over the axis of symbolic length: an unknown number of which the summand at every index is recorded (c.summand)"""
    c = CTX[0]
    rest = [d for q, d in enumerate(a.rshape) if q != a.axis]
    snapc = a.copy()
    out = np.empty(rest, dtype=object)
    for q in np.ndindex(*rest):
        v = c.fresh('sum')
        c.sums[v.n.id] = (v, a.N, lambda i, q=q: pick(np.take(snapc.at(i), 0, axis=a.axis), q))
        out[q] = v
    return out.view(shim.SArr) if rest else out[()]


class Grown(LArr):
    """a list to which the loop appends"""

    def __init__(self, name, N, width=()):
        a = named(name, N, width)
        LArr.__init__(self, N, a.fn, 0, a.rshape)

    def append(self, v):
        self.store(self.N, shim.array([v]))
        self.N = self.N + 1

    def __pv_len__(self):
        return self.N


class Filtered(LArr):
    """a[mask]: row i is the row `source(i)` of a, where the mask holds; every row where the mask holds has a place"""

    def __init__(self, a, mask):
        c = CTX[0]
        self.a, self.mask = a.copy(), mask.copy()
        M = c.fresh('kept', T.I)
        c.requires(M >= 0)
        c.requires(M <= a.N)
        self.name = 'kept!%d' % M.n.id
        LArr.__init__(self, M, lambda i: self.a.at(self.source(i)), 0, a.rshape)

    def _f(self, what, i):
        return Sym(T.app('%s %s' % (self.name, what), T.node_of(i), sort=T.I))

    def source(self, i):
        c, s = CTX[0], self._f('source', i)
        c.requires(s >= 0)
        c.requires(s < self.a.N)
        c.requires(self.mask.at(s)[0])
        return s

    def place(self, s):
        """(specification side) the place of row s of a, which the mask keeps"""
        c, r = CTX[0], self._f('place', s)
        c.requires(r >= 0)
        c.requires(r < self.N)
        c.requires(c.eq(self._f('source', r), s))
        return r


def pick(r, q):
    return r[q] if q or isinstance(r, np.ndarray) else r


def extremum(a, kind):
    """numpy's min/max over the axis of symbolic length: attained at some index, a bound at every index (instantiate)"""
    c = CTX[0]
    rest = [d for q, d in enumerate(a.rshape) if q != a.axis]
    out = np.empty(rest, dtype=object)
    snapc = a.copy()
    for q in np.ndindex(*rest):
        w = c.fresh('argext', T.I)
        c.requires(w >= 0)
        c.requires(w < a.N)
        c.witnesses.append(w)
        v = c.fresh(kind)
        c.requires(c.eq(v, pick(np.take(snapc.at(w), 0, axis=a.axis), q)))
        out[q] = v
    out = out.view(shim.SArr) if rest else out[()]

    def inst(i):
        r = np.take(snapc.at(i), 0, axis=a.axis)
        for q in np.ndindex(*rest):
            x, y = (out[q] if rest else out), pick(r, q)
            c.requires(c.le(y, x) if kind == 'max' else c.le(x, y))
    c.universals.append(inst)
    return out


def filled(shape, v):
    sh = shape if isinstance(shape, (tuple, list)) else (shape,)
    sym = [i for i, s in enumerate(sh) if isinstance(s, Sym) and s.n.op != 'const']
    if len(sym) != 1:
        raise Unsupported('several symbolic dimensions')
    dims = [1 if i == sym[0] else int(s) for i, s in enumerate(sh)]
    return LArr(sh[sym[0]], lambda i: v(dims), sym[0], dims)


def named(name, N, width=(), sort=T.R, within=None):
    """an arbitrary array (N, *width): the entry at (i, j..) is the uninterpreted name_j(i)"""
    width = tuple(width)

    def g(i):
        o = np.empty((1,) + width, dtype=object)
        for q in np.ndindex(width):
            x = T.app(name + ''.join('_%d' % t for t in q) + ('#i' if sort == T.I else ''), T.node_of(i), sort=sort)
            o[(0,) + q] = Sym(x)
            if within is not None:
                CTX[0].requires(SymBool(T.and_(T.le(T.node_of(within[0]), x), T.lt(x, T.node_of(within[1])))))
        return o.view(shim.SArr)
    return LArr(N, g, 0, (1,) + width)
