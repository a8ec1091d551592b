"""Hash-consed terms over mathematical reals/integers/booleans, and the operator-overloading values
(Sym, SymBool) the real code is executed on."""
from fractions import Fraction
import math as _math

R, I, B, = 'R', 'I', 'B'


class Unsupported(BaseException):
    """The verifier cannot follow the code here (never a verdict about the code)."""


class Node:
    __slots__ = ('op', 'args', 'sort', 'id', 'val', 'size')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (_rebuild, (self.op, self.args, self.sort, self.val))


_table = {}
_count = [0]


def _rebuild(op, args, sort, val):
    return mk(op, args, sort, val)


def mk(op, args=(), sort=R, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.sort, n.val = op, tuple(args), sort, val
        n.id = _count[0]
        _count[0] += 1
        s = 1
        for a in args:
            s += a.size
        n.size = s if s < 10 ** 9 else 10 ** 9
        _table[key] = n
    return n


def reset():
    """Forget all terms but the shared constants (keeps ids fresh)."""
    keep = {k: v for k, v in _table.items() if v.op in ('true', 'false')}
    _table.clear()
    _table.update(keep)


TRUE = mk('true', sort=B)
FALSE = mk('false', sort=B)


def const(v, sort=None):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return mk('const', (), sort or I, Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant in arithmetic')
        v = Fraction(repr(v))
    return mk('const', (), sort or R, v)


def var(name, sort=R):
    return mk('var', (), sort, name)


def is_const(n):
    return n.op == 'const'


def _join(a, b):
    return I if a.sort == I and b.sort == I else R


def add(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.val + b.val, _join(a, b))
    if a.op == 'const' and a.val == 0 and (a.sort == I or b.sort == R):
        return b
    if b.op == 'const' and b.val == 0 and (b.sort == I or a.sort == R):
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), _join(a, b))


def mul(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.val * b.val, _join(a, b))
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if a.val == 0:
            return const(Fraction(0), _join(a, b))
        if a.val == 1 and (a.sort == I or b.sort == R):
            return b
        if b.op == 'mul' and b.args[0].op == 'const':
            return mul(const(a.val * b.args[0].val, _join(a, b.args[0])), b.args[1])
        return mk('mul', (a, b), _join(a, b))
    if a.op == 'mul' and a.args[0].op == 'const':
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == 'mul' and b.args[0].op == 'const':
        return mul(b.args[0], mul(a, b.args[1]))
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), _join(a, b))


MINUS1 = const(-1)


def neg(a):
    return mul(MINUS1, a)


def sub(a, b):
    if a is b:
        return const(Fraction(0), _join(a, b))
    return add(a, neg(b))


def div(a, b):
    if b.op == 'const':
        if b.val == 0:
            return mk('div', (a, b), R)
        return mul(const(1 / b.val, R), a)
    if a.op == 'const' and a.val == 0:
        # 0/b: keep definedness in the caller
        return const(Fraction(0), R)
    return mk('div', (a, b), R)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    return mk('ite', (c, a, b), I if a.sort == I and b.sort == I else R)


def _isqrt_frac(v):
    if v < 0:
        return None
    n, d = v.numerator, v.denominator
    rn, rd = _math.isqrt(n), _math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(a):
    if a.op == 'const':
        r = _isqrt_frac(a.val)
        if r is not None:
            return const(r, R)
    return mk('sqrt', (a,), R)


def fn(op, *args, sort=R):
    return mk(op, args, sort)


def app(name, *args, sort=R):
    return mk('app', args, sort, name)


# --- booleans ---------------------------------------------------------------------------------
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':
        return mk('lt', (a.args[1], a.args[0]), B)
    if a.op == 'lt':
        return mk('le', (a.args[1], a.args[0]), B)
    return mk('not', (a,), B)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    seen, u = set(), []
    for x in out:
        if x.id not in seen:
            seen.add(x.id)
            u.append(x)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return mk('and', tuple(u), B)


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    seen, u = set(), []
    for x in out:
        if x.id not in seen:
            seen.add(x.id)
            u.append(x)
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    return mk('or', tuple(u), B)


def implies(a, b):
    return or_(not_(a), b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val < b.val else FALSE
    return mk('lt', (a, b), B)


def le(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val <= b.val else FALSE
    return mk('le', (a, b), B)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == B:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val == b.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), B)


def show(n, depth=6):
    if n.op == 'const':
        return str(n.val)
    if n.op == 'var':
        return str(n.val)
    if n.op in ('true', 'false'):
        return n.op
    if depth == 0:
        return '...'
    a = [show(x, depth - 1) for x in n.args]
    sym = {'add': '+', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '==', 'and': 'and', 'or': 'or'}
    if n.op in sym:
        return '(' + (' %s ' % sym[n.op]).join(a) + ')'
    nm = n.val if n.op == 'app' else n.op
    return '%s(%s)' % (nm, ', '.join(a))


def free_vars(n, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            acc.add(x)
        stack.extend(x.args)
    return acc


def subst(n, mapping, memo=None):
    """Substitute nodes (mapping: node -> node)."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x in mapping:
            r = mapping[x]
        elif not x.args:
            r = x
        else:
            a = tuple(go(y) for y in x.args)
            r = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x, a)
        memo[x.id] = r
        return r
    return go(n)


def rebuild(x, a):
    op = x.op
    if op == 'add':
        return add(*a)
    if op == 'mul':
        return mul(*a)
    if op == 'div':
        return div(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'sqrt':
        return sqrt(*a)
    if op == 'not':
        return not_(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'le':
        return le(*a)
    if op == 'eq':
        return eq(*a)
    return mk(op, a, x.sort, x.val)


# ----------------------------------------------------------------------------------------------
# Values the code is run on
# ----------------------------------------------------------------------------------------------
CTX = [None]          # the current symbolic run

PI = var('__pi__')


def node_of(x):
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, SymBool):
        return ite(x.n, const(1), const(0))
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    t = type(x).__module__
    if t == 'numpy':
        if hasattr(x, 'ndim') and x.ndim == 0:
            return node_of(x.item())
    raise Unsupported('not a scalar: %r' % (type(x),))


def _scalar(x):
    if isinstance(x, (Sym, int, float, Fraction, SymBool)):
        return True
    t = type(x)
    return t.__module__ == 'numpy' and getattr(x, 'ndim', 1) == 0 and hasattr(x, 'item')


def _inf(x):
    try:
        return isinstance(x, float) and (x == float('inf') or x == float('-inf') or x != x)
    except Exception:
        return False


def lift(x):
    return x if isinstance(x, Sym) else Sym(node_of(x))


class SymBool:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        if self.n is TRUE:
            return True
        if self.n is FALSE:
            return False
        c = CTX[0]
        if c is None:
            raise Unsupported('symbolic branch outside a run')
        return c.branch(self.n)

    def __and__(self, o):
        return SymBool(and_(self.n, bnode(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(or_(self.n, bnode(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(not_(self.n))

    def __xor__(self, o):
        b = bnode(o)
        return SymBool(or_(and_(self.n, not_(b)), and_(not_(self.n), b)))

    def __eq__(self, o):
        return SymBool(eq(self.n, bnode(o)))

    def __ne__(self, o):
        return SymBool(not_(eq(self.n, bnode(o))))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % show(self.n)

    def _num(self):
        return Sym(ite(self.n, const(1), const(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def item(self):
        return self


def bnode(x):
    if isinstance(x, SymBool):
        return x.n
    if isinstance(x, Sym):
        return not_(eq(x.n, const(0)))
    return TRUE if x else FALSE


def mkbool(n):
    if n is TRUE:
        return True
    if n is FALSE:
        return False
    return SymBool(n)


class Sym:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    # arithmetic
    def _bin(self, o, f):
        if not _scalar(o):
            return NotImplemented
        return Sym(f(self.n, node_of(o)))

    def _rbin(self, o, f):
        if not _scalar(o):
            return NotImplemented
        return Sym(f(node_of(o), self.n))

    def __add__(self, o):
        if _inf(o):
            return o
        return self._bin(o, add)

    def __radd__(self, o):
        if _inf(o):
            return o
        return self._rbin(o, add)

    def __sub__(self, o):
        if _inf(o):
            return -o
        return self._bin(o, sub)

    def __rsub__(self, o):
        if _inf(o):
            return o
        return self._rbin(o, sub)

    def _times_inf(self, o):
        if bool(self > 0):
            return o
        return -o if bool(self < 0) else float('nan')

    def __mul__(self, o):
        if _inf(o):
            return self._times_inf(o)
        return self._bin(o, mul)

    def __rmul__(self, o):
        if _inf(o):
            return self._times_inf(o)
        if type(o) is list and len(o) == 1:
            from .loops import SymList
            return SymList(self, lambda k: o[0])
        return self._rbin(o, mul)

    def __truediv__(self, o):
        if _inf(o):
            return Sym(const(0))
        if not _scalar(o):
            return NotImplemented
        return sdiv(self.n, node_of(o))

    def __rtruediv__(self, o):
        if _inf(o):
            raise Unsupported('inf/x')
        if not _scalar(o):
            return NotImplemented
        return sdiv(node_of(o), self.n)

    def __floordiv__(self, o):
        if not _scalar(o):
            return NotImplemented
        return Sym(floor_(sdiv(self.n, node_of(o)).n))

    def __rfloordiv__(self, o):
        return Sym(floor_(sdiv(node_of(o), self.n).n))

    def __mod__(self, o):
        if not _scalar(o):
            return NotImplemented
        return self - lift(o) * (self // o)

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return Sym(neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(abs_(self.n))

    def __pow__(self, k):
        if not _scalar(k) or getattr(k, 'shape', ()) != ():
            return NotImplemented
        if isinstance(k, Sym):
            if k.n.op != 'const':
                if k.n.sort == I and CTX[0] is not None and getattr(CTX[0], 'loop_mode', False):
                    CTX[0].uses_function = True
                    return Sym(app('pow', self.n, k.n, sort=R))
                raise Unsupported('symbolic exponent')
            k = k.n.val
        if isinstance(k, float):
            k = Fraction(repr(k))
        k = Fraction(k) if not hasattr(k, 'item') else Fraction(k.item())
        if k.denominator == 2:
            base = self.sqrt()
            k = k.numerator
        elif k.denominator == 1:
            base = self
            k = k.numerator
        else:
            raise Unsupported('exponent %s' % k)
        if k < 0:
            return 1 / (base ** (-k))
        r = const(1)
        for _ in range(k):
            r = mul(r, base.n) if r is not const(1) else base.n
        return Sym(r)

    def __rpow__(self, o):
        if self.n.op == 'const':
            return lift(o) ** self
        raise Unsupported('symbolic exponent')

    # comparisons
    def _cmp(self, o, f, inf_res):
        if _inf(o):
            if o != o:
                return False
            return inf_res(o > 0)
        if not _scalar(o):
            return NotImplemented
        return mkbool(f(self.n, node_of(o)))

    def __lt__(self, o):
        return self._cmp(o, lt, lambda pos: pos)

    def __le__(self, o):
        return self._cmp(o, le, lambda pos: pos)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a), lambda pos: not pos)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a), lambda pos: not pos)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, eq, lambda pos: False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: not_(eq(a, b)), lambda pos: True)

    def __bool__(self):
        if self.n.op == 'const':
            return self.n.val != 0
        return bool(SymBool(not_(eq(self.n, const(0)))))

    def __hash__(self):
        if self.n.op == 'const':
            return hash(self.n.val)
        return hash(self.__int__())

    # conversions
    def __index__(self):
        if self.n.op == 'const':
            if self.n.val.denominator == 1 and self.n.sort == I:
                return int(self.n.val)
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.n.sort != I:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX[0].concretize(self.n)

    def __int__(self):
        n = self.n if self.n.sort == I else trunc_(self.n)
        if n.op == 'const':
            return int(n.val)
        return CTX[0].concretize(n)

    def __float__(self):
        if self.n.op == 'const':
            return float(self.n.val)
        raise Unsupported('float() of a symbolic value')

    def __floor__(self):
        return Sym(floor_(self.n))

    def __ceil__(self):
        return Sym(neg(floor_(neg(self.n))))

    def __trunc__(self):
        return Sym(trunc_(self.n))

    def __round__(self, nd=None):
        if self.n.op == 'const':
            v = round(self.n.val, nd) if nd is not None else round(self.n.val)
            return Sym(const(v, I if nd is None else R))
        if nd is None:
            # (ties are resolved upwards here; Python resolves them to even)
            return Sym(floor_(add(self.n, const(Fraction(1, 2)))))
        raise Unsupported('round(x, n) of a symbolic value')

    def __repr__(self):
        return 'Sym(%s)' % show(self.n)

    def __str__(self):
        return show(self.n)

    def __format__(self, spec):
        if self.n.op == 'const' and spec:
            try:
                return format(float(self.n.val), spec)
            except Exception:
                return str(self)
        return str(self)

    # numpy protocol on object arrays
    def sqrt(self):
        c = CTX[0]
        if c is not None:
            c.need_nonneg(self.n)
        return Sym(sqrt(self.n))

    def sin(self):
        return Sym(trig_const('sin', self.n))

    def cos(self):
        return Sym(trig_const('cos', self.n))

    def tan(self):
        return self.sin() / self.cos()

    def arccos(self):
        if self.n.op == 'const' and self.n.val in (1, 0, -1):
            return Sym({1: const(0, R), 0: div(PI, const(2)), -1: PI}[int(self.n.val)])
        return Sym(fn('acos', self.n))

    def arcsin(self):
        return Sym(fn('asin', self.n))

    def arctan(self):
        return Sym(fn('atan2', self.n, const(1)))

    def arctan2(self, x):
        return Sym(fn('atan2', self.n, node_of(x)))

    def exp(self):
        if self.n.op == 'const' and self.n.val == 0:
            return Sym(const(1, R))
        return Sym(fn('exp', self.n))

    def log(self):
        if self.n.op == 'const' and self.n.val == 1:
            return Sym(const(0, R))
        return Sym(fn('log', self.n))

    def log2(self):
        return Sym(div(fn('log', self.n), fn('log', const(2))))

    def log10(self):
        return Sym(div(fn('log', self.n), fn('log', const(10))))

    def floor(self):
        return Sym(mul(const(1, R), floor_(self.n)))

    def ceil(self):
        return self.__ceil__()

    def rint(self):
        return self.__round__()

    def fabs(self):
        return abs(self)

    def degrees(self):
        return self * 180 / Sym(PI)

    def radians(self):
        return self * Sym(PI) / 180

    deg2rad = radians
    rad2deg = degrees

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t, *a, **k):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(const(0))

    def is_integer(self):
        return self == Sym(floor_(self.n))


def trig_const(op, n):
    if n.op == 'const' and n.val == 0:
        return const(0 if op == 'sin' else 1, R)
    return fn(op, n)


def abs_(n):
    if n.op == 'const':
        return const(abs(n.val), n.sort)
    return ite(le(const(0), n), n, neg(n))


def _as_int(n):
    """the same value as an integer term, if that is evident"""
    if n.sort == I:
        return n
    if n.op == 'const':
        return const(n.val, I) if n.val.denominator == 1 else None
    if n.op in ('add', 'mul'):
        a = [_as_int(x) for x in n.args]
        return None if None in a else (add if n.op == 'add' else mul)(*a)
    return None


def floor_(n):
    k = _as_int(n)
    if k is not None:
        return k
    if n.op == 'const':
        return const(Fraction(_math.floor(n.val)), I)
    return mk('floor', (n,), I)


def trunc_(n):
    if n.sort == I:
        return n
    if n.op == 'const':
        return const(Fraction(_math.trunc(n.val)), I)
    return ite(le(const(0), n), floor_(n), neg(floor_(neg(n))))


def sdiv(a, b):
    c = CTX[0]
    if c is not None:
        c.need_nonzero(b)
    if b.op == 'const' and b.val == 0:
        raise ZeroDivisionError('division by zero')
    return Sym(div(a, b))


def S(x):
    """Exact constant as a symbolic value (used for literals)."""
    return Sym(const(x))
