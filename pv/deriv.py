"""Symbolic partial derivatives of terms (specification side: 'is the true derivative')."""
from . import terms as T

_memo = {}


def d(n, v):
    k = (n.id, v.id)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _d(n, v)
    return r


ZERO, ONE = T.const(0, T.R), T.const(1, T.R)


def _d(n, v):
    op = n.op
    if n is v:
        return ONE
    if op in ('const', 'var'):
        return ZERO
    a = n.args
    if op == 'add':
        return T.add(d(a[0], v), d(a[1], v))
    if op == 'mul':
        return T.add(T.mul(d(a[0], v), a[1]), T.mul(a[0], d(a[1], v)))
    if op == 'div':
        da, db = d(a[0], v), d(a[1], v)
        return T.sub(T.div(da, a[1]), T.div(T.mul(a[0], db), T.mul(a[1], a[1])))
    if op == 'sqrt':
        return T.div(d(a[0], v), T.mul(T.const(2), n))
    if op == 'sin':
        return T.mul(T.fn('cos', a[0]), d(a[0], v))
    if op == 'cos':
        return T.neg(T.mul(T.fn('sin', a[0]), d(a[0], v)))
    if op == 'exp':
        return T.mul(n, d(a[0], v))
    if op == 'log':
        return T.div(d(a[0], v), a[0])
    if op == 'ite':
        return T.ite(a[0], d(a[1], v), d(a[2], v))
    raise T.Unsupported('derivative of ' + op)
