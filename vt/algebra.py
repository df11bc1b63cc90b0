"""Exact algebra on sympy expressions over symbolic coefficients (python-flint back end).

A value is a fraction (num, den) of multivariate polynomials over QQ in one ring whose generators are
allocated on demand to coefficient parameters, polynomial variables and radicals.
"""
import sympy as sp
from flint import fmpq_mpoly_ctx, Ordering, fmpq, fmpz

MAXG = 72


class TooHard(Exception):
    """An algebraic step outside the decidable fragment that this back end handles (=> undecided)."""


class Contradiction(Exception):
    """The facts assumed on this path are contradictory."""


class Ring:
    def __init__(self, names=MAXG):
        self.ctx = fmpq_mpoly_ctx.get([f'g{i}' for i in range(names)], Ordering.degrevlex)
        self.gens = self.ctx.gens()
        self.index = {}          # sympy atom / radical key -> generator index
        self.atoms = []          # index -> description
        self.radicals = {}       # index -> (q, base fraction): gen**q == base
        self.kind = {}           # index -> 'param' | 'var' | 'rad' | 'opaque'
        self.one = self.ctx.constant(1)
        self.zero = self.ctx.constant(0)
        self.cache = {}
        self.denoms = []         # nonconstant denominators of evaluated parameter expressions

    def alloc(self, key, kind):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            if i >= MAXG:
                raise TooHard('too many generators')
            self.index[key] = i
            self.atoms.append(key)
            self.kind[i] = kind
        return i

    def const(self, r):
        return self.ctx.constant(fmpq(int(r.p), int(r.q)))

    # ---- fractions -------------------------------------------------------
    def norm(self, n, d):
        if n == 0:
            return self.zero, self.one
        if d.is_constant():
            if d == 1:
                return n, d
            return n / d.leading_coefficient(), self.one
        if len(n) * len(d) < 2000000:
            g = n.gcd(d)
            if not g.is_constant():
                n, d = n / g, d / g
                if d.is_constant():
                    return n / d.leading_coefficient(), self.one
        return n, d

    def add(self, x, y):
        (a, b), (c, d) = x, y
        if a == 0: return y
        if c == 0: return x
        if b == d:
            return self.norm(a + c, b)
        if b.is_constant() and d.is_constant():
            return self.norm(a * d + c * b, b * d)
        g = b.gcd(d)
        b1, d1 = b / g, d / g
        return self.norm(a * d1 + c * b1, b * d1)

    def mul(self, x, y):
        (a, b), (c, d) = x, y
        if a == 0 or c == 0:
            return self.zero, self.one
        return self.norm(a * c, b * d)

    def pow(self, x, e):
        if e == 0: return self.one, self.one
        n, d = x
        if e < 0:
            if n == 0:
                raise ZeroDivisionError('division by an identically zero expression')
            n, d = d, n
            e = -e
        return self.norm(n ** e, d ** e)

    # ---- conversion ------------------------------------------------------
    def conv(self, e):
        e = sp.sympify(e)
        r = self.cache.get(e)
        if r is None:
            r = self._conv(e)
            self.cache[e] = r
        return r

    def _conv(self, e):
        if isinstance(e, sp.Rational):
            return self.const(e), self.one
        if isinstance(e, sp.Float):
            return self.const(sp.Rational(e)), self.one
        if isinstance(e, sp.Symbol):
            kind = 'param' if getattr(e, '_sx_param', False) else 'var'
            return self.gens[self.alloc(e, kind)], self.one
        if isinstance(e, sp.Add):
            return self._sum([self.conv(a) for a in e.args])
        if isinstance(e, sp.Mul):
            r = (self.one, self.one)
            for a in e.args:
                r = self.mul(r, self.conv(a))
            return r
        if isinstance(e, sp.Pow):
            b, x = e.args
            if isinstance(x, sp.Integer):
                bb = self.conv(b)
                if x < 0 and not bb[0].is_constant():
                    self.denoms.append(bb[0])
                return self.pow(bb, int(x))
            if isinstance(x, sp.Rational):
                base = self.conv(b)
                g = self.radical(base, int(x.q))
                if x < 0 and not base[0].is_constant():
                    self.denoms.append(base[0])
                return self.pow((g, self.one), int(x.p))
        if isinstance(e, sp.Abs):
            base = self.mul(self.conv(e.args[0]), self.conv(e.args[0]))
            return self.radical(base, 2), self.one
        if e in (sp.nan, sp.zoo, sp.oo, -sp.oo):
            raise ZeroDivisionError(str(e))
        if isinstance(e, sp.Function) and not e.free_symbols - {s for s in e.free_symbols if getattr(s, '_sx_param', False)}:
            return self.gens[self.alloc(e, 'opaque')], self.one
        if hasattr(e, 'base_func'):   # CyclicSum / CyclicProduct
            return self.conv(e.doit())
        raise TooHard(f'cannot convert {type(e).__name__}')

    def _sum(self, fr):
        # balanced, grouping equal denominators first
        groups = {}
        order = []
        for n, d in fr:
            k = None
            for j, (dd, nn) in enumerate(order):
                if dd == d:
                    k = j
                    break
            if k is None:
                order.append([d, n])
            else:
                order[k][1] = order[k][1] + n
        r = (self.zero, self.one)
        for d, n in order:
            r = self.add(r, self.norm(n, d))
        return r

    def radical(self, base, q):
        n, d = base
        # square-root of rational numbers are kept as radicals of constants
        key = ('rad', q, tuple(sorted((str(k), str(v)) for k, v in n.to_dict().items())),
               tuple(sorted((str(k), str(v)) for k, v in d.to_dict().items())))
        i = self.index.get(key)
        if i is None:
            i = self.alloc(key, 'rad')
            self.radicals[i] = (q, base)
        return self.gens[i]

    # ---- polynomial utilities ----------------------------------------------
    def gens_of(self, p):
        return [i for i, d in enumerate(p.degrees()) if d > 0] if p != 0 else []

    def coeffs_in(self, p, i):
        """{exponent: coefficient polynomial} of p seen as univariate in generator i."""
        out = {}
        for m, c in p.to_dict().items():
            e = m[i]
            mm = list(m); mm[i] = 0
            out.setdefault(e, {})[tuple(mm)] = c
        return {e: self.ctx.from_dict(dd) for e, dd in out.items()}

    def subst_num(self, p, i, n, d):
        """numerator of p[gen_i := n/d] after multiplying by d**deg; returns (poly, deg)."""
        cs = self.coeffs_in(p, i)
        E = max(cs) if cs else 0
        if E == 0:
            return p, 0
        r = self.zero
        npow, dpow = [self.one], [self.one]
        for _ in range(E):
            npow.append(npow[-1] * n)
            dpow.append(dpow[-1] * d)
        for e, c in cs.items():
            r = r + c * npow[e] * dpow[E - e]
        return r, E

    def canon(self, p):
        """primitive representative with positive leading coefficient, and the sign that was removed."""
        if p == 0:
            return (), 0, p
        lc = p.leading_coefficient()
        s = 1 if lc > 0 else -1
        p = p / lc
        key = tuple(sorted((m, (int(c.p), int(c.q))) for m, c in p.to_dict().items()))
        return key, s, p

    def to_expr(self, p):
        r = []
        for m, c in p.to_dict().items():
            t = sp.Rational(int(c.p), int(c.q))
            for i, e in enumerate(m):
                if e:
                    t = t * self.gen_expr(i) ** int(e)
            r.append(t)
        return sp.Add(*r)

    def gen_expr(self, i):
        a = self.atoms[i]
        if isinstance(a, tuple):
            q, (n, d) = self.radicals[i]
            return (self.to_expr(n) / self.to_expr(d)) ** sp.Rational(1, q)
        return a


class Rules:
    """Equalities of a path: substitutions gen := n/d and algebraic rules lc*gen**e := tail."""
    def __init__(self, ring):
        self.R = ring
        self.subs = {}      # gen index -> (n, d)
        self.alg = {}       # gen index -> (e, lc, tail): lc*g**e + tail == 0, tail of lower degree in g
        self.version = 0
        self._bz = {}

    def zero_radicals(self, p):
        """radicals whose base vanishes on the path are zero"""
        R = self.R
        z = [i for i in R.gens_of(p) if i in R.radicals and self.base_zero(i)]
        if z:
            p = R.ctx.from_dict({m: c for m, c in p.to_dict().items() if not any(m[i] for i in z)})
        return p

    def base_zero(self, i):
        key = (i, len(self.subs), len(self.alg), self.version)
        if key not in self._bz:
            self._bz[key] = None       # recursion guard
            self._bz[key] = self.reduce(self.R.radicals[i][1][0]) == 0
        return bool(self._bz[key])

    def reduce(self, p):
        """A polynomial q with q == 0 on the path iff p == 0 (up to nonzero factors)."""
        R = self.R
        for _ in range(60):
            p = self.zero_radicals(p)
            if p == 0:
                return p
            changed = False
            for i in R.gens_of(p):
                if i in self.subs:
                    n, d = self.subs[i]
                    p, _e = R.subst_num(p, i, n, d)
                    changed = True
                    break
                if i in R.radicals and p.degrees()[i] >= R.radicals[i][0]:
                    q, (n, d) = R.radicals[i]
                    cs = R.coeffs_in(p, i)
                    E = max(cs) // q
                    g = R.gens[i]
                    r = R.zero
                    for e, c in cs.items():
                        r = r + c * g ** (e % q) * n ** (e // q) * d ** (E - e // q)
                    p = r
                    changed = True
                    break
                if i in self.alg and p.degrees()[i] >= self.alg[i][0]:
                    e0, lc, tail = self.alg[i]
                    g = R.gens[i]
                    while p != 0 and p.degrees()[i] >= e0:
                        cs = R.coeffs_in(p, i)
                        E = max(cs)
                        top = cs[E]
                        p = lc * (p - top * g ** E) - top * tail * g ** (E - e0)
                    changed = True
                    break
            if not changed:
                return p
        raise TooHard('reduction did not terminate')

    def reduce_sign(self, n):
        """Like reduce but keeps the sign: returns polynomial m and such that sign(m) == sign(n) on the path.
        Only substitutions with constant or squared denominators are applied."""
        R = self.R
        for _ in range(60):
            changed = False
            n = self.zero_radicals(n)
            if n == 0:
                return n
            for i in R.gens_of(n):
                if i in self.subs:
                    a, d = self.subs[i]
                    n, e = R.subst_num(n, i, a, d)
                    if e % 2:
                        n = n * d
                    changed = True
                    break
                if i in R.radicals and n.degrees()[i] >= R.radicals[i][0]:
                    q, (a, d) = R.radicals[i]
                    cs = R.coeffs_in(n, i)
                    E = max(cs) // q
                    g = R.gens[i]
                    r = R.zero
                    for e, c in cs.items():
                        r = r + c * g ** (e % q) * a ** (e // q) * d ** (E - e // q)
                    n = r * d if E % 2 else r
                    changed = True
                    break
            if not changed:
                return n
        raise TooHard('sign reduction did not terminate')

    def value(self, n, d):
        """(n', d') of the same value on the path, with the substitutions applied; None when nothing applies"""
        R = self.R
        hit = False
        for _ in range(60):
            todo = [i for i in self.subs if i in R.gens_of(n) or i in R.gens_of(d)]
            if not todo:
                return R.norm(n, d) if hit else None
            hit = True
            a, b = self.subs[todo[0]]
            n, e1 = R.subst_num(n, todo[0], a, b)
            d, e2 = R.subst_num(d, todo[0], a, b)
            n, d = n * b ** max(e2 - e1, 0), d * b ** max(e1 - e2, 0)
        raise TooHard('substitution did not terminate')

    def add_sub(self, i, n, d):
        R = self.R
        self.subs[i] = (n, d)
        self.version += 1
        for j in list(self.subs):
            if j == i: continue
            a, b = self.subs[j]
            if i in R.gens_of(a) or i in R.gens_of(b):
                a2, ea = R.subst_num(a, i, n, d)
                b2, eb = R.subst_num(b, i, n, d)
                if ea < eb: a2 = a2 * d ** (eb - ea)
                if eb < ea: b2 = b2 * d ** (ea - eb)
                if b2 == 0:
                    raise Contradiction
                self.subs[j] = R.norm(a2, b2)
