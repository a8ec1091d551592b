"""Exact polynomial normal forms of terms, modulo algebraic rules, and the identity prover built on them.

A term is converted to num/den where num is a polynomial over *atoms* (variables, square roots, sines, cosines, ...)
and den a product of polynomial factors.  Rules:
   sqrt:            r^2      -> radicand
   sin/cos:         s^2      -> 1 - c^2
   hypotheses a==b: linear in an atom with constant coefficient -> substitution, or a pure square  x^2 -> ...
Reducing with these rules is sound (each is an equation that holds); a numerator that reduces to 0 proves the identity.
Monomials are packed into ints (10 bits per atom)."""
from fractions import Fraction
from . import terms as T

import os
DEBUG = bool(os.environ.get('PV_DEBUG'))
BITS = 10
MASK = (1 << BITS) - 1


class TooBig(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class NotPoly(Exception):
    pass


LIMIT = 60000


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def pscale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def pmul_raw(p, q):
    if len(p) * len(q) > 4000000:
        raise TooBig()
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m1 + m2
            s = r.get(m, 0) + c1 * c2
            r[m] = s
    return {m: c for m, c in r.items() if c != 0}


def norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _key(p):
    return frozenset(p.items())


def _isq(v):
    return T._isqrt_frac(Fraction(v))


class Frac:
    """num / prod(den factor ^ exp); den: dict key -> (poly, exp)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}


class Ring:
    def __init__(self, assume=None, trig_lcd=None):
        self.atoms = []            # index -> descriptor
        self.index = {}            # descriptor -> index
        self.rules2 = {}           # atom index -> poly   (atom^2 -> poly)
        self.rules1 = {}           # atom index -> poly   (atom -> poly)
        self.memo = {}
        self.assume = assume or {}   # bool node id -> bool
        self.lcd = trig_lcd or {}
        self.need_restart = False
        self.radicands = {}
        self.signs = {}            # polynomial key -> +1/-1 (known sign)

    # atoms -------------------------------------------------------------------------------
    def atom(self, desc):
        i = self.index.get(desc)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(desc)
            self.index[desc] = i
        return i

    def atom_poly(self, desc):
        return {1 << (BITS * self.atom(desc)): 1}

    def exps(self, m):
        i = 0
        while m:
            e = m & MASK
            if e:
                yield i, e
            m >>= BITS
            i += 1

    # reduction ---------------------------------------------------------------------------
    def reduce(self, p):
        rules1, rules2 = self.rules1, self.rules2
        if not rules1 and not rules2:
            return p
        out = {}
        work = p
        guard = 0
        while work:
            guard += 1
            if guard > 200:
                raise TooBig()
            nxt = {}
            for m, c in work.items():
                hit = None
                mm, i = m, 0
                while mm:
                    e = mm & MASK
                    if e:
                        if i in rules1:
                            hit = (i, 1, rules1[i])
                            break
                        if e >= 2 and i in rules2:
                            hit = (i, 2, rules2[i])
                            break
                    mm >>= BITS
                    i += 1
                if hit is None:
                    s = out.get(m, 0) + c
                    if s == 0:
                        out.pop(m, None)
                    else:
                        out[m] = s
                else:
                    i, k, rp = hit
                    # use the highest power at once
                    rest = m - (k << (BITS * i))
                    for m2, c2 in rp.items():
                        mn = rest + m2
                        s = nxt.get(mn, 0) + c * c2
                        if s == 0:
                            nxt.pop(mn, None)
                        else:
                            nxt[mn] = s
            if len(nxt) > LIMIT or len(out) > LIMIT:
                raise TooBig()
            work = nxt
        return out

    def pmul(self, p, q):
        if not p or not q:
            return {}
        r = pmul_raw(p, q)
        if len(r) > LIMIT:
            raise TooBig()
        return self.reduce(r)

    def ppow(self, p, k):
        r = {0: 1}
        for _ in range(k):
            r = self.pmul(r, p)
        return r

    # fractions -----------------------------------------------------------------------------
    def den_factors(self, p):
        """split polynomial p into (constant, {key:(poly,exp)})"""
        if len(p) == 1:
            (m, c), = p.items()
            d = {}
            for i, e in self.exps(m):
                q = {1 << (BITS * i): 1}
                d[_key(q)] = (q, e)
            return c, d
        # common monomial
        g = None
        for m in p:
            if g is None:
                g = dict(self.exps(m))
            else:
                ex = dict(self.exps(m))
                g = {i: min(e, ex[i]) for i, e in g.items() if i in ex}
            if not g:
                break
        d = {}
        if g:
            gm = sum(e << (BITS * i) for i, e in g.items())
            p = {m - gm: c for m, c in p.items()}
            for i, e in g.items():
                q = {1 << (BITS * i): 1}
                d[_key(q)] = (q, e)
        lead = p[max(p)]
        p = {m: norm_coef(Fraction(c) / lead) for m, c in p.items()}
        k = _key(p)
        d[k] = (p, 1)
        return lead, d

    def fadd(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den.keys() == b.den.keys() and all(a.den[k][1] == b.den[k][1] for k in a.den):
            return self.fnorm(Frac(padd(a.num, b.num), a.den))
        L = dict(a.den)
        for k, (p, e) in b.den.items():
            if k not in L or L[k][1] < e:
                L[k] = (p, e)
        na, nb = a.num, b.num
        for k, (p, e) in L.items():
            da = e - (a.den[k][1] if k in a.den else 0)
            db = e - (b.den[k][1] if k in b.den else 0)
            if da:
                na = self.pmul(na, self.ppow(p, da))
            if db:
                nb = self.pmul(nb, self.ppow(p, db))
        return self.fnorm(Frac(padd(na, nb), L))

    def fnorm(self, f):
        if not f.num:
            return Frac({}, {})
        if not f.den:
            return f
        den = dict(f.den)
        num = f.num
        changed = False
        for k, (p, e) in list(den.items()):
            if len(p) == 1:
                (m, _), = p.items()
                i = (m.bit_length() - 1) // BITS
                sh = BITS * i
                if self.rules2.get(i) == {0: 1}:          # 1/s = s for s^2 = 1
                    del den[k]
                    if e % 2:
                        num = self.pmul(num, p)
                    changed = True
                    continue
                mn = min((mm >> sh) & MASK for mm in num)
                c = min(mn, e)
                if c:
                    num = {mm - (c << sh): v for mm, v in num.items()}
                    changed = True
                    if e - c:
                        den[k] = (p, e - c)
                    else:
                        del den[k]
            elif len(num) >= len(p):
                # exact cancellation of an identical factor
                while e and len(num) == len(p):
                    lead = num[max(num)]
                    gm = max(num) - max(p)
                    if gm >= 0 and all(num.get(m + gm) == v * lead for m, v in p.items()):
                        num = {gm: lead}
                        e -= 1
                        changed = True
                    else:
                        break
                while e and len(p) < len(num) <= 120 and len(p) <= 12:
                    qt = self.exact_div(num, p)
                    if qt is None:
                        break
                    num = qt
                    e -= 1
                    changed = True
                if e:
                    den[k] = (p, e)
                else:
                    den.pop(k, None)
        return Frac(num, den) if changed else f

    def exact_div(self, num, p):
        h = max(p)
        hx, lc = dict(self.exps(h)), Fraction(p[h])
        rest, out = dict(num), {}
        for _ in range(len(num)):
            m = max(rest)
            a = dict(self.exps(m))
            if any(a.get(i, 0) < e for i, e in hx.items()):
                return None
            c = norm_coef(Fraction(rest[m]) / lc)
            out[m - h] = c
            for n, d in p.items():
                k = n + m - h
                v = rest.get(k, 0) - c * d
                if v:
                    rest[k] = norm_coef(v) if isinstance(v, Fraction) else v
                else:
                    rest.pop(k, None)
            if not rest:
                return out
        return None

    def fmul(self, a, b):
        if not a.num or not b.num:
            return Frac({}, {})
        den = dict(a.den)
        for k, (p, e) in b.den.items():
            den[k] = (p, e + (den[k][1] if k in den else 0))
        return self.reduce_den(Frac(self.pmul(a.num, b.num), den))

    def reduce_den(self, f):
        """replace (sqrt atom)^2 in the denominator by the radicand polynomial"""
        f = self.fnorm(f)
        again = False
        for k, (p, e) in list(f.den.items()):
            if len(p) == 1:
                (m, _), = p.items()
                i = (m.bit_length() - 1) // BITS
                if e >= 2 and i in self.rules2:
                    den = dict(f.den)
                    n = e // 2
                    if e % 2:
                        den[k] = (p, 1)
                    else:
                        del den[k]
                    num = f.num
                    c, d = self.den_factors(self.rules2[i]) if self.rules2[i] else (0, {})
                    if c == 0:
                        raise NotPoly('zero denominator')
                    num = pscale(num, norm_coef(Fraction(1) / (Fraction(c) ** n)))
                    for k2, (p2, e2) in d.items():
                        den[k2] = (p2, e2 * n + (den[k2][1] if k2 in den else 0))
                    f = self.fnorm(Frac(num, den))
                    again = True
                    break
        return self.reduce_den(f) if again else f

    def fdiv(self, a, b):
        if not b.num:
            raise NotPoly('division by a term that reduces to zero')
        c, d = self.den_factors(b.num)
        num = pscale(a.num, norm_coef(Fraction(1) / Fraction(c)))
        for k, (p, e) in b.den.items():
            num = self.pmul(num, self.ppow(p, e))
        den = dict(a.den)
        for k, (p, e) in d.items():
            den[k] = (p, e + (den[k][1] if k in den else 0))
        return self.reduce_den(Frac(num, den))

    # conversion ------------------------------------------------------------------------------
    def conv(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            kids = self._kids(x)
            pend = [k for k in kids if k.id not in self.memo]
            if pend:
                stack.extend(pend)
                continue
            f = self._conv1(x)
            if len(f.num) > LIMIT:
                raise TooBig()
            self.memo[x.id] = f
            stack.pop()
        return self.memo[n.id]

    def decide(self, c):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        v = self.assume.get(c.id)
        if v is not None:
            return v
        v = self.assume.get(T.not_(c).id)
        if v is not None:
            return not v
        return None

    def _kids(self, x):
        op = x.op
        if op == 'ite':
            c = self.decide(x.args[0])
            if c is None:
                raise NeedSplit(x.args[0])
            return [x.args[1] if c else x.args[2]]
        if op in ('add', 'mul', 'div', 'sqrt'):
            return x.args
        return ()

    def _conv1(self, x):
        op = x.op
        if op == 'const':
            v = norm_coef(x.val)
            return Frac({0: v} if v != 0 else {})
        if op == 'var':
            p = self.atom_poly(x)
            return Frac(self.reduce(p))
        if op == 'add':
            return self.fadd(self.memo[x.args[0].id], self.memo[x.args[1].id])
        if op == 'mul':
            return self.fmul(self.memo[x.args[0].id], self.memo[x.args[1].id])
        if op == 'div':
            return self.fdiv(self.memo[x.args[0].id], self.memo[x.args[1].id])
        if op == 'ite':
            c = self.decide(x.args[0])
            return self.memo[(x.args[1] if c else x.args[2]).id]
        if op == 'sqrt':
            return self.fsqrt(self.memo[x.args[0].id])
        if op in ('sin', 'cos'):
            return self.trig(op, x.args[0])
        if op == 'app':
            return Frac(self.reduce(self.atom_poly(self.app_desc(x))))
        return Frac(self.reduce(self.atom_poly(self.app_desc(x))))

    def show(self, p, lim=12):
        import sys
        def nm(a):
            if isinstance(a, tuple):
                return '(' + ' '.join(nm(x) if isinstance(x, (tuple, T.Node)) else str(x)[:40] for x in a)[:160] + ')'
            return T.show(a, 2) if isinstance(a, T.Node) else str(a)
        out = ['%s * %s' % (c, ' '.join('%s^%d' % (nm(self.atoms[i]), e) for i, e in self.exps(m))) for m, c in list(p.items())[:lim]]
        print('RESIDUAL (%d terms):\n    ' % len(p) + '\n    '.join(out), file=sys.stderr)

    def app_desc(self, x):
        """opaque function applications are identified when their arguments have equal normal forms"""
        try:
            ks = tuple(self.fkey(self.conv(a)) if a.sort != T.B else a.id for a in x.args)
        except (NotPoly, TooBig):
            return x
        return ('app', x.op, x.val, ks)

    def fkey(self, f):
        return (_key(f.num), frozenset((k, e) for k, (p, e) in f.den.items()))

    def evidently_positive(self, p):
        for m, c in p.items():
            if c < 0:
                return False
            for i, e in self.exps(m):
                if e % 2 and i not in self.radicands:
                    return False
        return True

    def abs_factor(self, p):
        """|p| = sigma_p * p with sigma_p^2 = 1 (sigma_p = 1 when p is known to be non-negative)"""
        if self.evidently_positive(p):
            return p
        k = _key(p)
        kn = _key(pscale(p, -1))
        sg = self.signs.get(k)
        if sg is not None:
            return p if sg > 0 else pscale(p, -1)
        if kn in self.signs:
            return p if self.signs[kn] < 0 else pscale(p, -1)
        kk = ('sgn', k)
        i = self.index.get(kk)
        if i is None:
            i = self.atom(kk)
            self.rules2[i] = {0: 1}
        return self.pmul({1 << (BITS * i): 1}, p)

    def fsqrt(self, f):
        # sqrt(n / prod p^e) = sqrt(n * prod_{e odd} p) / prod |p|^ceil(e/2)
        num, fac = f.num, []
        if not num:
            return Frac({})
        for k, (p, e) in f.den.items():
            if e % 2 == 1:
                num = self.pmul(num, p)
                e += 1
            fac.append((p, e // 2))
        # even powers of a common monomial
        g = None
        for m in num:
            ex = dict(self.exps(m))
            g = ex if g is None else {i: min(e, ex[i]) for i, e in g.items() if i in ex}
            if not g:
                break
        pre = {0: 1}
        if g:
            g = {i: e - e % 2 for i, e in g.items() if e >= 2}
            if g:
                gm = sum(e << (BITS * i) for i, e in g.items())
                num = {m - gm: c for m, c in num.items()}
                for i, e in g.items():
                    a = {1 << (BITS * i): 1}
                    b = self.abs_factor(a)
                    for _ in range(e // 2):
                        pre = self.pmul(pre, b)
        root = self.pmul(pre, self.psqrt(num))
        out = Frac(root)
        for p, e in fac:
            b = self.abs_factor(p)
            for _ in range(e):
                out = self.fdiv(out, Frac(b))
        return self.reduce_den(out)

    def psqrt(self, p):
        # extract the rational square content
        c0 = None
        lead = p[max(p)]
        # content
        from math import gcd
        nums, dens = 0, 1
        for c in p.values():
            c = Fraction(c)
            nums = gcd(nums, c.numerator)
            dens = dens * c.denominator // gcd(dens, c.denominator)
        content = Fraction(nums, dens)
        # largest square in content
        s, rest = _square_part(content)
        q = {m: norm_coef(Fraction(c) / (s * s)) for m, c in p.items()} if s != 1 else p
        if len(q) == 1 and 0 in q and _isq(q[0]) is not None:
            return {0: norm_coef(s * _isq(q[0]))}
        if 3 <= len(q) <= 60:
            r = self.square_root(q)
            if r is not None:
                return self.pmul({0: norm_coef(s)}, self.abs_factor(r))
        k = ('sqrt', _key(q))
        if k in self.index:
            i = self.index[k]
        else:
            i = self.atom(k)
            self.rules2[i] = q
            self.radicands[i] = q
        return self.reduce({1 << (BITS * i): norm_coef(s)})

    def square_root(self, p):
        """polynomial r with r*r == p, or None"""
        m0 = max(p)
        c0 = _isq(Fraction(p[m0])) if p[m0] > 0 else None
        if c0 is None:
            return None
        ex = list(self.exps(m0))
        if any(e % 2 for i, e in ex):
            return None
        h = sum((e // 2) << (BITS * i) for i, e in ex)
        r = {h: norm_coef(Fraction(c0))}
        rest = padd(p, pscale(raw_mul(r, r), -1))
        for _ in range(len(p)):
            if not rest:
                return r
            m = max(rest)
            a, b = dict(self.exps(m)), dict(self.exps(h))
            if any(a.get(i, 0) < e for i, e in b.items()):
                return None
            t = {m - h: norm_coef(Fraction(rest[m]) / (2 * Fraction(r[h])))}
            rest = padd(rest, pscale(padd(pscale(raw_mul(r, t), 2), raw_mul(t, t)), -1))
            r = padd(r, t)
        return None

    # trig --------------------------------------------------------------------------------------
    def linear_angle(self, n):
        """angle term -> ({monomial descriptor: coefficient}, pi coefficient)"""
        f = self.conv(n)
        out, pi = {}, Fraction(0)
        ipi = self.atom(T.PI)
        if f.den:
            # one opaque atom, with its rational content taken out (so t/2 and t relate)
            c = f.num[max(f.num)]
            g = Frac({m: norm_coef(Fraction(v) / c) for m, v in f.num.items()}, f.den)
            k = ('ang', self.fkey(g))
            out[k] = Fraction(c)
            self.ang_info = getattr(self, 'ang_info', {})
            self.ang_info[k] = g
            return out, pi
        for m, c in f.num.items():
            if m == 1 << (BITS * ipi):
                pi += Fraction(c)
            else:
                k = ('angm', tuple((self.atoms[i] if True else i, e) for i, e in self.exps(m)))
                out[k] = out.get(k, Fraction(0)) + Fraction(c)
        return out, pi

    def half_turns(self, k):
        if k[0] != 'angm' or len(k[1]) < 2:
            return False
        npi = 0
        for a, e in k[1]:
            if a is T.PI:
                npi += e
            elif not (isinstance(a, T.Node) and a.sort == T.I or isinstance(a, tuple) and (a[0] in ('sgn', 'parity') or a[0] == 'app' and a[1] == 'floor')):
                return False
        return npi == 1

    def trig(self, op, n):
        lin, pi = self.linear_angle(n)
        s, c = Frac({}), Frac({0: 1})
        for k in sorted(lin, key=str):
            co = lin[k]
            if co == 0:
                continue
            if co.denominator == 1 and self.half_turns(k):
                # an integer number of half turns: sin(a + k pi) = (-1)^k sin(a)
                if co % 2:
                    i = self.atom(('parity', k))
                    self.rules2[i] = {0: 1}
                    sg = Frac({1 << (BITS * i): 1})
                    s, c = self.fmul(s, sg), self.fmul(c, sg)
                continue
            sgf = None
            if k[0] == 'angm' and any(isinstance(a, tuple) and a[0] in ('sgn', 'parity') and e == 1 for a, e in k[1]):
                # sin(s a) = s sin(a), cos(s a) = cos(a) for s = +-1
                sgf = {0: 1}
                for a, e in k[1]:
                    if isinstance(a, tuple) and a[0] in ('sgn', 'parity'):
                        sgf = self.pmul(sgf, {1 << (BITS * self.atom(a)): 1})
                k = ('angm', tuple((a, e) for a, e in k[1] if not (isinstance(a, tuple) and a[0] in ('sgn', 'parity'))))
                if not k[1] or k == ('angm', ((T.PI, 1),)):
                    sp, cp = self.pi_angle(co) if k[1] else self.base_angle(('angc', co), 1)
                    sp = self.fmul(sp, Frac(sgf))
                    s, c = (self.fadd(self.fmul(s, cp), self.fmul(c, sp)), self.fadd(self.fmul(c, cp), self.fneg(self.fmul(s, sp))))
                    continue
            l = self.lcd.get(k, 1)
            if (co * l).denominator != 1:
                import math
                nl = l * (co * l).denominator
                self.lcd[k] = nl
                raise Restart()
            m = int(co * l)
            s1, c1 = self.base_angle(k, l)
            sm, cm = self.multiple(s1, c1, abs(m))
            if sgf is not None:
                sm = self.fmul(sm, Frac(sgf))
            if m < 0:
                sm = Frac(pscale(sm.num, -1), sm.den)
            s, c = (self.fadd(self.fmul(s, cm), self.fmul(c, sm)),
                    self.fadd(self.fmul(c, cm), self.fneg(self.fmul(s, sm))))
        if pi != 0:
            sp, cp = self.pi_angle(pi)
            s, c = (self.fadd(self.fmul(s, cp), self.fmul(c, sp)),
                    self.fadd(self.fmul(c, cp), self.fneg(self.fmul(s, sp))))
        return s if op == 'sin' else c

    def fneg(self, f):
        return Frac(pscale(f.num, -1), f.den)

    def multiple(self, s1, c1, m):
        s, c = Frac({}), Frac({0: 1})
        for _ in range(m):
            s, c = (self.fadd(self.fmul(s, c1), self.fmul(c, s1)),
                    self.fadd(self.fmul(c, c1), self.fneg(self.fmul(s, s1))))
        return s, c

    def pi_angle(self, p):
        p = p % 2
        q = p * 12
        if q.denominator != 1:
            if p.denominator > 64:
                return self.base_angle(('angpi', p), 1)
            if p.denominator == 8:
                # cos(pi/8)^2 = (1 + cos(pi/4))/2, tan(pi/8) = sqrt(2) - 1
                j = self.atom(('cospi8',))
                self.rules2[j] = padd({0: Fraction(1, 2)}, pscale(self.psqrt({0: 2}), Fraction(1, 4)))
                cj = {1 << (BITS * j): 1}
                s1, c1 = Frac(self.pmul(cj, padd(self.psqrt({0: 2}), {0: -1}))), Frac(cj)
            else:
                s1, c1 = self.base_angle(('angpi', Fraction(1, p.denominator)), 1)
            return self.multiple(s1, c1, p.numerator)
        q = int(q)
        r = {0: (0, 1)}
        h2 = pscale(self.psqrt({0: 2}), Fraction(1, 2))
        h3 = pscale(self.psqrt({0: 3}), Fraction(1, 2))
        half = {0: Fraction(1, 2)}
        tab = {0: ({}, {0: 1}), 2: (half, h3), 3: (h2, h2), 4: (h3, half), 6: ({0: 1}, {})}
        h23 = self.pmul(h2, h3)
        h2h = self.pmul(h2, half)
        tab[1] = (padd(h23, pscale(h2h, -1)), padd(h23, h2h))
        tab[5] = (tab[1][1], tab[1][0])
        quad, off = divmod(q, 6)
        s, c = tab[off]
        for _ in range(quad):
            s, c = c, pscale(s, -1)
        return Frac(dict(s)), Frac(dict(c))

    def base_angle(self, k, l):
        """sin and cos of angle-atom k divided by l"""
        node = None
        if k[0] == 'angm' and len(k[1]) == 1 and k[1][0][1] == 1:
            a = k[1][0][0]
            if isinstance(a, tuple) and a and a[0] == 'app' and a[1] in ('acos', 'asin', 'atan2'):
                node = a
        if node is not None and self.arg_of.get(node) is not None and l in (1, 2):
            x = self.arg_of[node]
            r = self.inverse_trig(node[1], x, l)
            if r is not None:
                return r
        ks, kc = ('sin', k, l), ('cos', k, l)
        i, j = self.atom(ks), self.atom(kc)
        if i not in self.rules2 and j not in self.rules1 and i not in self.rules1:
            self.rules2[i] = padd({0: 1}, {2 << (BITS * j): -1})
        return (Frac(self.reduce({1 << (BITS * i): 1})), Frac(self.reduce({1 << (BITS * j): 1})))

    arg_of = {}

    def inverse_trig(self, op, args, l):
        one = Frac({0: 1})
        fs = [self.conv(a) for a in args]
        if op == 'acos':
            x = fs[0]
            if l == 1:
                return self.fsqrt(self.fadd(one, self.fneg(self.fmul(x, x)))), x
            h = Frac({0: Fraction(1, 2)})
            return (self.fsqrt(self.fmul(h, self.fadd(one, self.fneg(x)))),
                    self.fsqrt(self.fmul(h, self.fadd(one, x))))
        if op == 'asin' and l == 1:
            x = fs[0]
            return x, self.fsqrt(self.fadd(one, self.fneg(self.fmul(x, x))))
        if op == 'atan2' and l == 1:
            y, x = fs
            r2 = self.fadd(self.fmul(x, x), self.fmul(y, y))
            if not r2.num:
                return None
            r = self.fsqrt(r2)
            return self.fdiv(y, r), self.fdiv(x, r)
        return None

    # hypotheses ----------------------------------------------------------------------------------
    def add_equation(self, a, b):
        f = self.fadd(self.conv(a), self.fneg(self.conv(b)))
        return self.add_zero(f.num)

    def add_zero(self, p):
        p = self.reduce(p)
        if not p:
            return True
        if len(p) == 1 and 0 in p:
            return False
        # linear atoms with constant coefficient not occurring elsewhere
        best = None
        cand = []
        for m, c in p.items():
            ex = list(self.exps(m))
            if len(ex) == 1 and ex[0][1] in (1, 2):
                cand.append((ex[0][1], ex[0][0], m, c))
        cand.sort(key=lambda t: (t[0], -t[1]))
        for e, i, m, c in cand:
            if any(m2 != m and ((m2 >> (BITS * i)) & MASK) for m2 in p):
                continue
            desc = self.atoms[i]
            if e == 1 and isinstance(desc, tuple) and desc[0] in ('sin', 'cos', 'sqrt') and i in self.rules2:
                pass
            rest = {m2: norm_coef(-Fraction(c2) / Fraction(c)) for m2, c2 in p.items() if m2 != m}
            if e == 2 and i in self.rules2:
                continue
            if e == 1:
                old2 = self.rules2.pop(i, None)
                self.rules1[i] = rest
            else:
                old2 = None
                self.rules2[i] = rest
            if not self._acyclic():
                if e == 1:
                    del self.rules1[i]
                    if old2 is not None:
                        self.rules2[i] = old2
                else:
                    del self.rules2[i]
                continue
            self.memo = {}
            # re-reduce right-hand sides
            for j in list(self.rules2):
                if j != i:
                    self.rules2[j] = self.reduce(self.rules2[j])
            for j in list(self.rules1):
                if j != i:
                    self.rules1[j] = self.reduce(self.rules1[j])
            if old2 is not None:
                # the square rule of the eliminated atom is now an equation between the others
                sq = self.reduce(pmul_raw(rest, rest))
                self.add_zero(padd(sq, pscale(old2, -1)))
            return True
        self.extra = getattr(self, 'extra', [])
        self.extra.append(p)
        return True

    def _acyclic(self):
        dep = {}
        for rules in (self.rules1, self.rules2):
            for i, p in rules.items():
                s = dep.setdefault(i, set())
                for m in p:
                    for j, _ in self.exps(m):
                        s.add(j)
        state = {}

        def visit(u):
            if u not in dep:
                return True
            if state.get(u) == 1:
                return False
            if state.get(u) == 2:
                return True
            state[u] = 1
            for v in dep[u]:
                if not visit(v):
                    return False
            state[u] = 2
            return True
        return all(visit(u) for u in list(dep))


class Restart(Exception):
    pass


def _square_part(c):
    """c = s^2 * rest (c > 0 rational); s rational"""
    def sq(n):
        s, d = 1, 2
        n0 = n
        while d * d <= n and d < 1000:
            while n % (d * d) == 0:
                n //= d * d
                s *= d
            d += 1
        import math
        r = math.isqrt(n)
        if r * r == n:
            s *= r
            n = 1
        return s
    c = Fraction(c)
    if c == 0:
        return Fraction(1), c
    s = Fraction(sq(c.numerator), sq(c.denominator))
    return s, c / (s * s)


def _register_args(nodes):
    """remember the arguments of inverse trigonometric atoms"""
    seen = set()
    out = []
    stack = list(nodes)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('acos', 'asin', 'atan2'):
            out.append(x)
        stack.extend(x.args)
    return out


def raw_mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            v = out.get(m + n, 0) + c * d
            if v:
                out[m + n] = v
            else:
                out.pop(m + n, None)
    return out


def make_ring(hyps, goal_nodes, assume, lcd):
    ring = Ring(assume, lcd)
    ring.arg_of = {}
    for x in _register_args(list(goal_nodes) + list(hyps)):
        try:
            ring.arg_of[ring.app_desc(x)] = x.args
        except (NeedSplit, NotPoly, TooBig):
            pass
    eqs = [h for h in hyps if h.op == 'eq']
    # repeat once, so that equations that become simpler through later ones are used
    for _ in range(2):
        ring.extra = []
        for h in eqs:
            try:
                ok = ring.add_equation(h.args[0], h.args[1])
            except (NotPoly, TooBig, NeedSplit):
                continue
            if ok is False:
                return None          # hypotheses contradictory
        if not ring.extra:
            break
    ring.memo = {}
    for x in _register_args(list(goal_nodes) + list(hyps)):
        try:
            ring.arg_of[ring.app_desc(x)] = x.args       # descriptors in normal form under the equations
        except (NeedSplit, NotPoly, TooBig):
            pass
    for h in hyps:
        if h.op in ('lt', 'le'):
            a, b = h.args
            try:
                f = ring.fadd(ring.conv(b), ring.fneg(ring.conv(a)))
            except (NotPoly, TooBig, NeedSplit):
                continue
            if f.den or not f.num:
                continue
            lead = f.num[max(f.num)]
            p = {m: norm_coef(Fraction(c) / abs(lead)) for m, c in f.num.items()}
            ring.signs[_key(p)] = 1
            q = {m: norm_coef(Fraction(c) / lead) for m, c in f.num.items()}
            ring.signs[_key(q)] = 1 if lead > 0 else -1
            if len(f.num) == 1:
                ring.signs[_key({m: 1 for m in f.num})] = 1 if lead > 0 else -1
    ring.memo = {}
    return ring


def identity(hyps, a, b, assume=None, max_restart=12):
    """Normal form of a - b under the equations among hyps.
    Returns (True|False, info): True = proved; False = not reduced to zero (numerator poly in info)."""
    lcd = {}
    for _ in range(max_restart):
        try:
            ring = make_ring(hyps, [a, b], assume or {}, lcd)
            if ring is None:
                return True, 'contradictory hypotheses'
            f = ring.fadd(ring.conv(a), ring.fneg(ring.conv(b)))
            num = ring.reduce(f.num)
            if not num:
                return True, 'normal form 0'
            if ideal_zero(ring, num):
                return True, 'ideal membership'
            if DEBUG:
                ring.show(num)
            return False, (ring, num)
        except Restart:
            continue
    return None, 'restart limit'


def ideal_zero(ring, num):
    """is num a combination of the equations that could not be oriented into rewrite rules, with monomial multipliers?"""
    ext = [p for p in (ring.reduce(p) for p in getattr(ring, 'extra', [])) if p and len(p) <= 400]
    if not ext or len(num) > 3000:
        return False
    piv = {}

    def red(p):
        p = dict(p)
        while p:
            m = max(p)
            done = True
            for m in sorted(p, reverse=True):
                r = piv.get(m)
                if r is not None:
                    c = p[m]
                    for k, v in r.items():
                        w = p.get(k, 0) - c * v
                        if w:
                            p[k] = w
                        else:
                            p.pop(k, None)
                    done = False
                    break
            if done:
                return p
        return p

    def insert(p):
        p = red(p)
        if p:
            m = max(p)
            c = Fraction(p[m])
            piv[m] = {k: Fraction(v) / c for k, v in p.items()}

    def divides(n, m):
        a = dict(ring.exps(m))
        return all(a.get(i, 0) >= e for i, e in ring.exps(n))

    seen = set()
    for q in ext:
        insert(q)
    target = num
    for rnd in range(3):
        if not red(target):
            return True
        mons = set(red(target))
        if len(mons) > 400:
            return False
        count = 0
        for k, q in enumerate(ext):
            mult = set()
            for n in q:
                for m in mons:
                    if divides(n, m):
                        mult.add(m - n)
            for d in sorted(mult):
                if d == 0 or (k, d) in seen:
                    continue
                seen.add((k, d))
                count += 1
                if count > 250 or len(piv) > 800:
                    return False
                insert(ring.reduce({m + d: c for m, c in q.items()}))
        if not count:
            return False
    return not red(target)
