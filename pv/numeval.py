"""Vectorised floating-point evaluation of terms on random sample assignments (used to find counterexamples and
feasible branches quickly; never to prove anything)."""
import numpy as np
from . import terms as T


class Samples:
    def __init__(self, K):
        self.K = K
        self.vals = {T.PI: np.full(K, np.pi)}
        self.memo = {}

    def set(self, node, arr):
        self.vals[node] = arr

    def eval(self, n):
        r = self.memo.get(n.id, 0)
        if not isinstance(r, int):
            return r
        stack = [n]
        with np.errstate(all='ignore'):
            while stack:
                x = stack[-1]
                if x.id in self.memo:
                    stack.pop()
                    continue
                pend = [k for k in x.args if k.id not in self.memo]
                if pend:
                    stack.extend(pend)
                    continue
                self.memo[x.id] = self.ev1(x)
                stack.pop()
        return self.memo[n.id]

    def ev1(self, x):
        op = x.op
        if op == 'const':
            return np.full(self.K, float(x.val))
        if op == 'var':
            v = self.vals.get(x)
            return v if v is not None else np.full(self.K, np.nan)
        if op == 'true':
            return np.ones(self.K)
        if op == 'false':
            return np.zeros(self.K)
        a = [self.memo[k.id] for k in x.args]
        if op == 'add':
            return a[0] + a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'div':
            return a[0] / a[1]
        if op == 'sqrt':
            return np.sqrt(np.where((a[0] < 0) & (a[0] > -1e-9), 0.0, a[0]))
        if op == 'sin':
            return np.sin(a[0])
        if op == 'cos':
            return np.cos(a[0])
        if op == 'acos':
            return np.arccos(np.clip(a[0], -1, 1))
        if op == 'asin':
            return np.arcsin(np.clip(a[0], -1, 1))
        if op == 'atan2':
            return np.arctan2(a[0], a[1])
        if op == 'exp':
            return np.exp(a[0])
        if op == 'log':
            return np.log(a[0])
        if op == 'floor':
            return np.floor(a[0])
        # booleans: 1, 0, nan = unknown
        if op == 'ite':
            r = np.where(a[0] == 1, a[1], a[2])
            return np.where(np.isnan(a[0]), np.nan, r)
        if op in ('lt', 'le', 'eq'):
            r = (a[0] < a[1]) if op == 'lt' else (a[0] <= a[1]) if op == 'le' else (a[0] == a[1])
            r = r.astype(float)
            # values closer than rounding noise are unknown unless exactly equal inputs
            if op != 'eq':
                close = np.abs(a[0] - a[1]) <= 1e-11 * (1 + np.abs(a[0]) + np.abs(a[1]))
                exact = x.args[0].size + x.args[1].size <= 8
                if not exact:
                    r = np.where(close, np.nan, r)
            else:
                if x.args[0].size + x.args[1].size > 8:
                    close = np.abs(a[0] - a[1]) <= 1e-9 * (1 + np.abs(a[0]) + np.abs(a[1]))
                    r = np.where(close, np.nan, r)
            return np.where(np.isnan(a[0]) | np.isnan(a[1]), np.nan, r)
        if op == 'not':
            return 1 - a[0]
        if op == 'and':
            r = np.ones(self.K)
            for v in a:
                r = np.where((r == 0) | (v == 0), 0.0, np.where(np.isnan(r) | np.isnan(v), np.nan, 1.0))
            return r
        if op == 'or':
            r = np.zeros(self.K)
            for v in a:
                r = np.where((r == 1) | (v == 1), 1.0, np.where(np.isnan(r) | np.isnan(v), np.nan, 0.0))
            return r
        if op == 'app' and a and x.sort != T.B:
            # an arbitrary but fixed smooth function
            import zlib
            h = (zlib.crc32(str(x.val).encode()) % 1000) / 500.0
            t = np.full(self.K, h)
            for i, v in enumerate(a):
                t = t + v * (1.37 + 0.61 * i + 0.13 * h)
            return 2.5 * np.sin(t) if x.sort == T.R else np.floor(4 * (1 + np.sin(t)))
        return np.full(self.K, np.nan)

    def violates(self, g):
        """mask of samples on which the goal is clearly false (with tolerance)"""
        with np.errstate(all='ignore'):
            if g.op == 'eq' and g.args[0].sort != T.B:
                a, b = self.eval(g.args[0]), self.eval(g.args[1])
                d = np.abs(a - b) > 1e-5 * (1 + np.abs(a) + np.abs(b))
                return d & ~np.isnan(a) & ~np.isnan(b)
            if g.op in ('le', 'lt'):
                a, b = self.eval(g.args[0]), self.eval(g.args[1])
                if g.args[0].size + g.args[1].size <= 8:
                    return ~((a < b) if g.op == 'lt' else (a <= b)) & ~np.isnan(a) & ~np.isnan(b)
                return (a > b + 1e-6 * (1 + np.abs(a) + np.abs(b))) & ~np.isnan(a) & ~np.isnan(b)
            if g.op == 'and':
                r = np.zeros(self.K, dtype=bool)
                for x in g.args:
                    r |= self.violates(x)
                return r
            if g.op == 'or':
                r = np.ones(self.K, dtype=bool)
                for x in g.args:
                    r &= self.violates(x)
                return r
            if g.op == 'false':
                return np.ones(self.K, dtype=bool)
            if g.op == 'not':
                x = g.args[0]
                if x.op == 'eq' and x.args[0].sort != T.B:
                    a, b = self.eval(x.args[0]), self.eval(x.args[1])
                    if x.args[0].size + x.args[1].size <= 8:
                        return a == b
                    return np.zeros(self.K, dtype=bool)
                v = self.eval(x)
                return v == 1
            v = self.eval(g)
            return v == 0
