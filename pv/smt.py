"""Translation of terms to z3 (and, through SMT-LIB text, to cvc5)."""
import subprocess, tempfile, os, time
from fractions import Fraction
import z3
from . import terms as T
from . import poly as P

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0}


def q(v):
    v = Fraction(v)
    return z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)


class Z3T:
    def __init__(self, lcd=None):
        self.memo = {}
        self.defs = []           # definitional constraints
        self.vars = {}           # node -> z3 const (inputs)
        self.ring = P.Ring({}, lcd if lcd is not None else {})
        self.ring.arg_of = {}
        self.ratoms = {}
        self.ndefs_seen = 0
        self.funcs = {}
        self.abstract = False    # some function is only constrained, not defined: models may be spurious

    def real(self, n):
        e = self.tr(n)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def tr(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            pend = [k for k in x.args if k.id not in self.memo]
            if pend and x.op not in ('sin', 'cos'):
                stack.extend(pend)
                continue
            self.memo[x.id] = self.tr1(x)
            stack.pop()
        return self.memo[n.id]

    def tr1(self, x):
        op = x.op
        m = self.memo
        if op == 'const':
            if x.sort == T.I:
                return z3.IntVal(int(x.val))
            return q(x.val)
        if op == 'var':
            if x is T.PI:
                v = z3.Real('__pi__')
                self.defs += [v > q(Fraction(314159, 100000)), v < q(Fraction(314160, 100000))]
                return v
            s = {T.R: z3.RealSort(), T.I: z3.IntSort(), T.B: z3.BoolSort()}[x.sort]
            v = z3.Const(x.val, s)
            self.vars[x] = v
            return v
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op in ('add', 'mul', 'div', 'lt', 'le', 'eq', 'ite'):
            a = [m[k.id] for k in x.args]
            if op == 'ite':
                c, p, qq = a
                if x.sort != T.I:
                    p, qq = self._r(p), self._r(qq)
                return z3.If(c, p, qq)
            if op == 'eq' and x.args[0].sort == T.B:
                return a[0] == a[1]
            if op == 'div' or not all(e.sort() == z3.IntSort() for e in a):
                a = [self._r(e) for e in a]
            if op == 'add':
                return a[0] + a[1]
            if op == 'mul':
                return a[0] * a[1]
            if op == 'div':
                return a[0] / a[1]
            if op == 'lt':
                return a[0] < a[1]
            if op == 'le':
                return a[0] <= a[1]
            return a[0] == a[1]
        if op == 'not':
            return z3.Not(m[x.args[0].id])
        if op == 'and':
            return z3.And(*[m[k.id] for k in x.args])
        if op == 'or':
            return z3.Or(*[m[k.id] for k in x.args])
        if op == 'floor':
            return z3.ToInt(self._r(m[x.args[0].id]))
        if op == 'sqrt':
            a = self._r(m[x.args[0].id])
            r = z3.Real('sqrt!%d' % x.id)
            self.defs += [r >= 0, z3.Implies(a >= 0, r * r == a)]
            return r
        if op in ('sin', 'cos'):
            return self.trig(x)
        if op in ('acos', 'asin', 'atan2', 'exp', 'log'):
            r = z3.Real('%s!%d' % (op, x.id))
            pi = self.tr(T.PI)
            self.abstract = True
            a = [self._r(m[k.id]) for k in x.args]
            I = z3.Implies
            if op == 'acos':
                y = a[0]
                self.defs += [r >= 0, r <= pi, (r == 0) == (y >= 1), (r == pi) == (y <= -1), (2 * r < pi) == (y > 0), (2 * r > pi) == (y < 0)]
            elif op == 'asin':
                y = a[0]
                self.defs += [2 * r >= -pi, 2 * r <= pi, (2 * r == pi) == (y >= 1), (2 * r == -pi) == (y <= -1), (r > 0) == (y > 0), (r < 0) == (y < 0)]
            elif op == 'atan2':
                y, w = a
                self.defs += [r > -pi, r <= pi, I(y > 0, z3.And(r > 0, r < pi)), I(y < 0, r < 0), I(z3.And(y == 0, w >= 0), r == 0),
                              I(z3.And(y == 0, w < 0), r == pi), I(w > 0, z3.And(2 * r < pi, 2 * r > -pi)),
                              I(z3.And(w == 0, y > 0), 2 * r == pi), I(z3.And(w == 0, y < 0), 2 * r == -pi),
                              I(z3.And(w < 0, y > 0), 2 * r > pi), I(z3.And(w < 0, y < 0), 2 * r < -pi)]
            elif op == 'exp':
                self.defs += [r > 0]
            return r
        if op == 'app':
            self.abstract = True
            srt = {T.R: z3.RealSort(), T.I: z3.IntSort(), T.B: z3.BoolSort()}
            if x.val not in self.funcs:
                self.funcs[x.val] = z3.Function(x.val, *[srt[k.sort] for k in x.args], srt[x.sort])
            return self.funcs[x.val](*[m[k.id] for k in x.args])
        raise T.Unsupported('z3: ' + op)

    def _r(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def trig(self, x):
        self.abstract = True
        try:
            for y in P._register_args([x]):
                self.ring.arg_of[self.ring.app_desc(y)] = y.args
            f = self.ring.trig(x.op, x.args[0])
            num = self.poly(f.num)
            for k, (p, e) in f.den.items():
                d = self.poly(p)
                for _ in range(e):
                    num = num / d
            return num
        except (P.NeedSplit, P.NotPoly, P.TooBig):
            s, c = z3.Real('sin!%d' % x.args[0].id), z3.Real('cos!%d' % x.args[0].id)
            self.defs.append(s * s + c * c == 1)
            return s if x.op == 'sin' else c

    def poly(self, p):
        terms = []
        for mono, c in p.items():
            t = q(c)
            for i, e in self.ring.exps(mono):
                a = self.ratom(i)
                for _ in range(e):
                    t = t * a
            terms.append(t)
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else q(0))

    def ratom(self, i):
        if i in self.ratoms:
            return self.ratoms[i]
        d = self.ring.atoms[i]
        if isinstance(d, T.Node):
            v = self._r(self.tr(d))
            self.ratoms[i] = v
            return v
        v = z3.Real('atom!%d' % i)
        self.ratoms[i] = v
        if d[0] == 'sqrt':
            r = self.poly(self.ring.radicands[i])
            self.defs += [v >= 0, z3.Implies(r >= 0, v * v == r)]
        elif d[0] in ('sin', 'cos'):
            js, jc = self.ring.atom(('sin',) + d[1:]), self.ring.atom(('cos',) + d[1:])
            other = self.ratom(jc if d[0] == 'sin' else js)
            self.defs += [v * v + other * other == 1]
        elif d[0] == 'sgn':
            self.defs += [v * v == 1]
        return v


def translate(nodes):
    lcd = {}
    for _ in range(12):
        t = Z3T(lcd)
        try:
            es = [t.tr(n) for n in nodes]
            return t, es
        except P.Restart:
            lcd = t.ring.lcd
    raise T.Unsupported('trig restart')


def check(nodes, timeout_ms, model=False, cvc5=False):
    """satisfiability of the conjunction: 'sat'/'unsat'/'unknown', model, backend"""
    t, es = translate(nodes)
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*t.defs)
    s.add(*es)
    t0 = time.time()
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    rs = str(r)
    if rs == 'unknown':
        # nonlinear real arithmetic tactic
        try:
            if not any(e for e in []):
                s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
                s2.set('timeout', int(timeout_ms))
                s2.add(*t.defs)
                s2.add(*es)
                t0 = time.time()
                r2 = s2.check()
                STATS['z3_calls'] += 1
                STATS['z3_time'] += time.time() - t0
                if str(r2) != 'unknown':
                    rs, s = str(r2), s2
        except z3.Z3Exception:
            pass
    if rs == 'unknown' and cvc5:
        r3 = run_cvc5(s.sexpr(), timeout_ms)
        if r3 == 'unsat':
            return 'unsat', None, 'cvc5'
    md = None
    if rs == 'sat' and model:
        mm = s.model()
        md = {}
        for n, v in t.vars.items():
            md[n.val] = _val(mm.eval(v, model_completion=True))
    return rs, md, 'z3~' if rs == 'sat' and t.abstract else 'z3'


def _val(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


def run_cvc5(text, timeout_ms):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + text + '\n(check-sat)\n')
        name = f.name
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--nl-cov', '--tlimit=%d' % timeout_ms, name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(name)
        STATS['cvc5_calls'] += 1
        STATS['cvc5_time'] += time.time() - t0
