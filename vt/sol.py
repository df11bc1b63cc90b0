"""Shown forms: fractions, equations, dehomogenised certificates, text of polynomials and text read back."""
import importlib, itertools, random, sys
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup
from . import fncheck
from .fncheck import FnTask, params
from .linalg import patched, nonzero, positive
from .cyc import value, elements, F
from .tab import group, perms
from .oracles import oracle, rat_identity, Declined

SO = 'triples.utils.expression.solution'
FO = 'triples.utils.expression.form'
TP = 'triples.utils.text_process'
a, b, c, d = GENS = sp.symbols('a b c d')


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


def setup():
    fncheck.setup([SO, FO, TP, 'triples.utils.expression.coeff'])()


# ---------------------------------------------------------------- the notation, read here
class Reader:
    """value of a formula in the compact notation: products and powers may be implied, s(...) and p(...) are the sum and the product over the group"""
    def __init__(self, text, gens, P, names=()):
        self.t, self.i = text.replace(' ', ''), 0
        self.gens, self.P = gens, P
        self.names = sorted(names, key=lambda n: -len(str(n)))

    def at(self, s):
        return self.t.startswith(s, self.i)

    def take(self, s):
        if not self.at(s):
            raise ValueError(f'{s!r} expected at {self.i} of {self.t!r}')
        self.i += len(s)

    def read(self):
        v = self.expr()
        if self.i != len(self.t):
            raise ValueError(f'unexpected {self.t[self.i:]!r} in {self.t!r}')
        return v

    def expr(self):
        v, sign = sp.S(0), 1
        while True:
            while self.i < len(self.t) and self.t[self.i] in '+-':
                sign = -sign if self.t[self.i] == '-' else sign
                self.i += 1
            v += sign * self.term()
            if self.i == len(self.t) or self.t[self.i] not in '+-':
                return v
            sign = 1

    def term(self):
        v = self.factor()
        while self.i < len(self.t) and self.t[self.i] not in '+-)':
            if self.at('*') and not self.at('**'):
                self.i += 1
                v *= self.factor()
            elif self.at('/'):
                self.i += 1
                v /= self.factor()
            else:
                v *= self.factor()
        return v

    def digits(self):
        j = self.i
        while j < len(self.t) and self.t[j].isdigit():
            j += 1
        v = sp.Integer(self.t[self.i:j])
        self.i = j
        return v

    def factor(self):
        number = self.i < len(self.t) and self.t[self.i].isdigit()
        v = self.atom()
        if self.at('^') or self.at('**'):
            self.i += 2 if self.at('**') else 1
            v = v ** (self.digits() if self.i < len(self.t) and self.t[self.i].isdigit() else self.atom())
        elif not number and self.i < len(self.t) and self.t[self.i].isdigit():
            v = v ** self.digits()
        return v

    def paren(self):
        self.take('(')
        v = self.expr()
        self.take(')')
        return v

    def atom(self):
        if self.i == len(self.t):
            raise ValueError(f'formula ends early: {self.t!r}')
        if self.t[self.i].isdigit():
            return self.digits()
        if self.at('('):
            return self.paren()
        if self.at('sqrt('):
            self.i += 4
            return sp.sqrt(self.paren())
        for n in self.names:
            if self.at(str(n)):
                self.i += len(str(n))
                return n
        for k in 'sp':
            if self.at(k + '('):
                self.i += 1
                v = self.paren()
                vs = [permuted(v, self.gens, q) for q in self.P]
                return (sp.Add if k == 's' else sp.Mul)(*vs)
        for g in self.gens:
            if self.at(str(g)):
                self.i += len(str(g))
                return g
        raise ValueError(f'unknown letter {self.t[self.i]!r} in {self.t!r}')


def permuted(e, gens, q):
    return e.xreplace({gens[i]: gens[q[i]] for i in range(len(gens))})


def read(text, gens, P, names=()):
    return Reader(text, gens, P, names).read()


# ---------------------------------------------------------------- Solution
class NS:
    """sympy with some functions replaced"""
    def __init__(self, **kw):
        self.kw = kw

    def __getattr__(self, n):
        return self.kw[n] if n in self.kw else getattr(sp, n)


class Part:
    """an expression of which the content may be any nonzero number"""
    def __init__(self, run, v, add, log):
        self.run, self.v, self.add, self.log = run, v, add, log

    def as_content_primitive(self):
        t = self.run.fresh('content')
        nonzero(self.run, t)
        m = self.v / t
        if self.add:
            x, y = self.run.fresh('s'), self.run.fresh('s')
            m = sp.Add(x, y, m - x - y, evaluate=False)
        return t, m

    def __rmul__(self, o):
        return Part(self.run, o * self.v, self.add, self.log)
    __mul__ = __rmul__

    def __truediv__(self, o):
        return self.v / plainv(o)

    def __rtruediv__(self, o):
        return o / self.v


def plainv(v):
    return v.v if isinstance(v, Part) else v


class Opaque:
    """a solution of which together() may be any expression with the same value"""
    def __init__(self, v, log):
        self.v, self.log = v, log

    def together(self):
        self.log.append('together')
        return Opaque(self.v, self.log)


def fraction_task(together, inplace, add):
    def body(run):
        m = mod(SO)
        N, M = params(run, ['n', 'm'])
        nonzero(run, M)
        log = []
        s = m.SolutionSimple(problem=sp.S(1), solution=Opaque(N / M, log))
        with patched(m, sp=NS(fraction=lambda e: (Part(run, N, add, log), Part(run, M, add, log)))):
            num, den = s.as_fraction(together=together, inplace=inplace)
        num, den = plainv(num), plainv(den)
        obs = [('eq', 'numerator / denominator == solution', num * M, N * den), ('true', 'together as requested', bool(log) == together)]
        if inplace:
            obs.append(('eq', 'the solution in place', plainv(s.solution) * M, N))
        else:
            obs.append(('true', 'the solution is left as it was', isinstance(s.solution, Opaque)))
        return obs
    return FnTask(f'as_fraction[{"together" if together else "as is"}{", in place" if inplace else ""}{", sums" if add else ""}]', body, None, must_return=True, key=(SO, 'SolutionSimple.as_fraction'))


def equation_task(cancel, together, given, kind='numbers'):
    def body(run):
        m = mod(SO)
        N, M, P, L = params(run, ['n', 'm', 'p', 'l'])
        nonzero(run, M)
        nonzero(run, N)
        nonzero(run, P)
        if kind != 'numbers':     # the denominator, or everything, holds variables
            t = params(run, ['t0', 't1'])
            M = M * a + t[0] * b
            if kind == 'polynomials':
                N, P, L = N * a**2 + t[1] * b**2, P * a + b, L + a * b

        class Sol:
            def together(self):
                return N / M
        class Prob:
            def as_expr(self):
                return P
        s = m.SolutionSimple(problem=Prob(), solution=Sol() if together or cancel else N / M)

        def fraction(**kw):
            k = run.fresh('k')
            nonzero(run, k)
            return N * k, M * k
        s.as_fraction = fraction
        e = s.as_eq(lhs_expr=L if given else None, together=together, cancel=cancel)
        return [('eq', 'the equation says that the left side is the solution', e.lhs * N, e.rhs * M * (L if given else P)), ('true', 'an equation', isinstance(e, sp.Equality))]
    return FnTask(f'as_eq[{"cancel" if cancel else "with denominators"}{", together" if together else ""}{", given left side" if given else ""}, {kind}]', body, None, must_return=True, key=(SO, 'SolutionSimple.as_eq'))


SHAPES = [('linear', lambda k: (k[0] * a + k[1] * b, k[2] * a + k[3] * b)), ('square', lambda k: (k[0] * a**2 + k[1] * a * b, k[2] * (a + k[3] * b)**2)),
          ('fraction', lambda k: (k[0] * a**2 + k[1] * b**2, (k[2] * a**3 + k[3] * b**3) / (a + b))), ('two denominators', lambda k: (k[0] * a + k[1] * b, k[2] * a**2 / b + k[3] * b**2 / (a + b)))]


def equal_task(name, shape):
    def body(run):
        m = mod(SO)
        ks = params(run, ['k0', 'k1', 'k2', 'k3'])
        for k in ks[:3]:
            nonzero(run, k)
        P, S = shape(ks)
        s = m.SolutionSimple(problem=sp.Poly(P, a, b), solution=S)
        r = s.is_equal
        return [('eq', 'is_equal: the solution is the problem', P, S)] if r else [('true', 'an answer', r is False)]
    return FnTask(f'is_equal[{name}]', body, None, must_return=True, key=(SO, 'SolutionSimple.is_equal'))


def dehom_shapes():
    C = mod('triples.utils.expression.cyclic')
    G = lambda *gs: PermutationGroup([Permutation(list(g)) for g in gs])
    H = sp.Function('h')
    f4, f3 = F(a, b, c, d), F(a, b, d)
    out = [('group fixes the variable', lambda: C.CyclicSum(f4, (a, b, c, d), G((1, 2, 0, 3)))), ('all variables', lambda: C.CyclicSum(f4, (a, b, c, d), G((1, 2, 3, 0)))),
           ('variable first', lambda: C.CyclicSum(f4, (d, a, b, c), G((0, 2, 3, 1)))), ('variable first, moved', lambda: C.CyclicSum(f4, (d, a, b, c), G((1, 2, 3, 0)))), ('outside', lambda: C.CyclicSum(f3, (a, b, c), G((1, 2, 0)))),
           ('swaps', lambda: C.CyclicSum(f4, (a, b, c, d), G((1, 0, 2, 3)))), ('swaps with it', lambda: C.CyclicSum(f4, (a, b, c, d), G((0, 1, 3, 2)))), ('two cycles', lambda: C.CyclicProduct(f4, (a, b, c, d), G((1, 0, 3, 2)))),
           ('symmetric', lambda: C.CyclicSum(f4, (a, b, c, d), G((1, 2, 0, 3), (1, 0, 2, 3)))), ('product', lambda: C.CyclicProduct(f4, (a, b, c, d), G((1, 2, 0, 3)))),
           ('nested', lambda: C.CyclicSum(a * C.CyclicProduct(f4, (a, b, c, d), G((1, 2, 0, 3))) * H(b), (a, b, c, d), G((1, 2, 0, 3)))),
           ('fraction', lambda: C.CyclicSum(f4, (a, b, c, d), G((1, 2, 0, 3))) / (C.CyclicSum(H(a, d), (a, b, c), G((1, 2, 0))) + d**2)),
           ('sum of parts', lambda: C.CyclicSum(f4, (a, b, c, d), G((1, 2, 3, 0))) * d**3 + C.CyclicProduct(H(a, d) + d, (a, b, c, d), G((1, 2, 0, 3)))),
           ('trivial group', lambda: C.CyclicSum(f4, (a, b, c, d), G((0, 1, 2, 3)))), ('of the variable', lambda: C.CyclicSum(H(d) * a, (a, b, c, d), G((1, 2, 0, 3)))), ('plain', lambda: f4 / d + a)]
    return out


def dehom_task(name, build, hom):
    def body(run):
        m = mod(SO)
        e = build()
        k = params(run, ['k0', 'k1'])
        P = sp.Poly(k[0] * a**2 + k[1] * a * d + d**2, a, b, c, d) if hom else F(a, d) * d
        s = m.SolutionSimple(problem=P, solution=e)
        t = s.dehomogenize(d if hom else None)
        want = value(e)
        if hom:
            want = want.xreplace({d: sp.S(1)})
        pe = t.problem.as_expr()
        from .cyc import plain
        return [('eq', 'the solution at one', plain(value(t.solution)), plain(want)), ('eq', 'the problem at one', plain(pe), plain(P.as_expr().subs(d, 1) if hom else P)),
                ('true', 'the homogenizer is gone', not hom or d not in value(t.solution).free_symbols), ('true', 'the original is left as it was', s.solution == e and s.problem == P)]
    return FnTask(f'dehomogenize[{name}{"" if hom else ", no homogenizer"}]', body, None, must_return=True, key=(SO, 'SolutionSimple.dehomogenize'))


# ---------------------------------------------------------------- text of polynomials
def text_of(terms, gens):
    return sp.Add(*[v * sp.Mul(*[g**k for g, k in zip(gens, m)]) for m, v in terms.items()])


VALUES = [1, -1, 2, -3, sp.sqrt(2), sp.Rational(1, 2), 1 - sp.sqrt(3) / 2, sp.Rational(-5, 3), -sp.sqrt(5) / 2, 10]


def standard_task(n, kind, monoms, values, om, op, same, signs=(1,)):
    """values: None for symbolic coefficients; same: equal coefficients on orbits"""
    def body(run):
        m = mod(FO)
        gens = GENS[:n]
        G = group(n, kind)
        P = perms(n, kind) if G is not None else perms(n, 'cyc')
        ms = sorted({tuple(mm[i] for i in q) for mm in monoms for q in P}) if same else sorted(monoms)
        if values is None:
            ks = params(run, [f'k{i}' for i in range(len(monoms) if same else len(ms))])
            for k in ks:
                positive(run, k)
            ks = [s * k for s, k in zip(itertools.cycle(signs), ks)]
        else:
            ks = [sp.sympify(v) for v in values]
        if same:
            orb = {}
            for k, mm in zip(itertools.cycle(ks), monoms):
                for q in P:
                    orb.setdefault(tuple(mm[i] for i in q), k)
            terms = {mm: orb[mm] for mm in ms}
        else:
            terms = dict(zip(ms, itertools.cycle(ks)))
        e = text_of(terms, gens)
        p = sp.Poly(e, *gens, domain=sp.QQ.frac_field(*[x for k in ks for x in k.free_symbols])) if values is None else sp.Poly(e, *gens)
        t = m.poly_get_standard_form(p, G, om, op)
        return [('eq', 'the text denotes the polynomial', read(t, gens, P, sorted({x for k in ks for x in k.free_symbols}, key=str) if values is None else ()), e)]
    return FnTask(f'poly_get_standard_form[{n} variables, group {kind}, {monoms}{", on orbits" if same else ""}, {f"signs {signs}" if values is None else [str(v) for v in values]}, {om}/{op}]'.replace(' ', ''), body, None, must_return=True, key=(FO, 'poly_get_standard_form'))


class Fake:
    """a polynomial of which only the factors are known"""
    def __init__(self, coeff, factors, gens):
        self.coeff, self.factors, self.gens = coeff, factors, gens

    def factor_list(self):
        return self.coeff, list(self.factors)


def reduce_task(n, kind, base, signs, pw, order, extra):
    """the factors of an orbit, each with an arbitrary sign and power, in an arbitrary order"""
    def body(run):
        m = mod(FO)
        gens = GENS[:n]
        G = group(n, kind)
        P = perms(n, kind)
        k0 = params(run, ['k0'])[0]
        rng = random.Random(f'{signs}{pw}{order}')
        orb = []
        for q in P:
            f = sp.expand(permuted(base, gens, q))
            if all(sp.expand(f - g) != 0 and sp.expand(f + g) != 0 for g in orb):
                orb.append(f)
        fs = []
        for f in orb + list(extra):
            fs.append((sp.Poly(f * rng.choice(signs), *gens), rng.choice(pw)))
        rng.shuffle(fs)
        co, left, cy = m._reduce_factor_list(Fake(k0, fs, gens), G)
        want = k0 * sp.Mul(*[f.as_expr()**e for f, e in fs])
        got = co * sp.Mul(*[f.as_expr()**e for f, e in left]) * sp.Mul(*[permuted(f.as_expr(), gens, q)**e for f, e in cy for q in P])
        return [('eq', 'coefficient * factors * cyclic products == polynomial', got, want)]
    return FnTask(f'_reduce_factor_list[{n} variables, group {kind}, {base}, signs {signs}, powers {pw}, {order}{", more" if extra else ""}]'.replace(' ', ''), body, None, must_return=True, key=(FO, '_reduce_factor_list'))


def factor_text_task(n, kind, coeff, left, cyc, om, op):
    def body(run):
        m = mod(FO)
        gens = GENS[:n]
        G = group(n, kind)
        P = perms(n, kind) if G is not None else perms(n, 'cyc')
        k = params(run, ['k0'])[0] if coeff is None else sp.sympify(coeff)
        if coeff is None:
            nonzero(run, k)
        L = [(sp.Poly(f, *gens), e) for f, e in left]
        C = [(sp.Poly(f, *gens), e) for f, e in cyc]
        with patched(m, _reduce_factor_list=lambda poly, g: (k, list(L), list(C))):
            t = m.poly_get_factor_form(sp.Poly(a + 2, *gens), G, om, op)
        want = k * sp.Mul(*[f**e for f, e in left]) * sp.Mul(*[permuted(sp.sympify(f), gens, q)**e for f, e in cyc for q in P])
        return [('eq', 'the text denotes the product', read(t, gens, P, (k,) if coeff is None else ()), want)]
    return FnTask(f'poly_get_factor_form[{n} variables, group {kind}, {coeff}, {left}, {cyc}, {om}/{op}]'.replace(' ', ''), body, None, must_return=True, key=(FO, 'poly_get_factor_form'))


# ---------------------------------------------------------------- reading
def expansion_task(text, n, kind, symbol):
    def body(run):
        m = mod(TP)
        gens = GENS[:n]
        G = group(n, kind)
        P = perms(n, kind) if G is not None else perms(n, 'cyc')
        t = m.cycle_expansion(text, symbol, gens, G)
        v = read(text, gens, P)
        vs = [permuted(v, gens, q) for q in P]
        return [('eq', 'expansion', read(t, gens, P), (sp.Add if symbol == 's' else sp.Mul)(*vs))]
    return FnTask(f'cycle_expansion[{text}, {n} variables, group {kind}, {symbol}]', body, None, must_return=True, key=(TP, 'cycle_expansion'))


class Formula:
    """random formulas with their value, text, and degree (homogeneous ones)"""
    def __init__(self, rng, gens, P, latex=False, homogeneous=False, roots=True):
        self.r, self.gens, self.P, self.latex, self.hom, self.roots = rng, gens, P, latex, homogeneous, roots

    def number(self):
        k = self.r.randint(0, 5)
        if k < 3:
            v = self.r.randint(1, 12)
            return sp.Integer(v), str(v), 'num', 0
        if k == 3 and self.roots:
            v = self.r.choice([2, 3, 5])
            return sp.sqrt(v), (f'\\sqrt{{{v}}}' if self.latex else f'sqrt({v})'), 'fn', 0
        p, q = self.r.randint(1, 9), self.r.randint(2, 9)
        if self.latex:
            return sp.Rational(p, q), f'\\frac{{{p}}}{{{q}}}', 'fn', 0
        return sp.Rational(p, q), f'{p}/{q}', 'num', 0

    def make(self, n, deg=None):
        r = self.r
        if n <= 0:
            g = r.choice(self.gens)
            if deg is None:
                return (g, str(g), 'atom', 1) if r.random() < .65 else self.number()
            if deg == 0:
                return self.number()
            return (g, str(g), 'atom', 1) if deg == 1 else (g**deg, f'{g}' + r.choice(['', '^']) + str(deg), 'term', deg) if not self.latex else (g**deg, f'{g}^{{{deg}}}', 'term', deg)
        k = r.randint(0, 9)
        if k < 3:
            v, t = sp.S(0), ''
            for i in range(r.randint(2, 3)):
                x, s, kd, dg = self.make(n - 1, deg)
                sg = r.choice('+-') if i or r.random() < .2 else ''
                if kd == 'sum':
                    s = '(' + s + ')'
                t, v = t + sg + s, v - x if sg == '-' else v + x
            return v, t, 'sum', deg
        if k < 6:
            parts = r.randint(2, 3)
            if deg is None:
                ds = [None] * parts
            else:
                ds = [0] * parts
                for _ in range(deg):
                    ds[r.randrange(parts)] += 1
            v, t = sp.S(1), ''
            for dd in ds:
                x, s, kd, _ = self.make(n - 1, dd)
                if kd in ('sum', 'big'):
                    s = '(' + s + ')'
                if t and (s[0].isdigit() or r.random() < .2) and not s.startswith('\\'):
                    t += '*'
                t, v = t + s, v * x
            return v, t, 'term', deg
        if k < 8:
            e = r.randint(1, 3)
            if deg is not None:
                e = r.choice([q for q in range(1, 4) if deg % q == 0])
            x, s, kd, _ = self.make(n - 1, None if deg is None else deg // e)
            if kd != 'atom':
                s = '(' + s + ')'
            return x**e, s + (f'^{{{e}}}' if self.latex else r.choice(['', '^']) + str(e)), 'term', deg
        D = deg
        if k == 9 and deg is not None:
            if deg % len(self.P):
                return self.make(0, deg)
            D = deg // len(self.P)
        x, s, kd, _ = self.make(n - 1, D)
        vs = [permuted(sp.sympify(x), self.gens, q) for q in self.P]
        v = sp.Add(*vs) if k == 8 else sp.Mul(*vs)
        if self.latex:
            if kd == 'sum':
                s = '(' + s + ')'
            return v, ('\\sum ' if k == 8 else '\\prod ') + s, 'big', deg
        return v, ('s(' if k == 8 else 'p(') + s + ')', 'atom', deg


def kinds(n):
    return {2: ['none', 'cyc'], 3: ['none', 'cyc', 'sym', ((1, 0, 2),)], 4: ['none', 'cyc', ((1, 2, 0, 3),), ((1, 0, 3, 2),)]}[n]


def tonull(k):
    return None if k == 'none' else k


@oracle
def formula(seed, n, kind, latex, size):
    """a random formula reads as its value"""
    m = mod(TP)
    gens = GENS[:n]
    kind = tuple(tuple(q) for q in kind) if not isinstance(kind, str) else kind
    G = group(n, kind)
    P = perms(n, kind) if G is not None else perms(n, 'cyc')
    v, t, _, _ = Formula(random.Random(seed), gens, P, latex).make(size)
    if len(t) > 110:
        return None
    p = m.preprocess_text(t, gens=gens, perm=G)
    q = m.preprocess_text(t, gens=gens, perm=G, return_type='expr')
    call = f'preprocess_text({t!r}, {gens}, perm={kind})'
    if sp.expand(q - v) != 0:
        return {'call': call, 'returns': str(q)[:300], 'expected': str(v)[:300]}
    if p is None or sp.expand(p.as_expr() - v) != 0:
        return {'call': call, 'returns': str(p)[:300], 'expected': str(v)[:300]}


@oracle
def ratio(seed, n):
    """return_type='frac': numerator / denominator is the value"""
    m = mod(TP)
    gens = GENS[:n]
    P = perms(n, 'cyc')
    r = random.Random(seed)
    A = Formula(r, gens, P, roots=False)
    (v, t, _, _), (w, s, _, _) = A.make(2), A.make(2)
    if len(t + s) > 90 or sp.expand(w) == 0:
        return None
    txt = f'({t})/({s})'
    p, q = m.preprocess_text(txt, gens=gens, return_type='frac')
    if p is None or q.is_zero or sp.expand(p.as_expr() * w - v * q.as_expr()) != 0:
        return {'call': f"preprocess_text({txt!r}, return_type='frac')", 'returns': str((p, q))[:300]}


@oracle
def degree(seed, n, size, deg):
    """degree_of_zero of a homogeneous formula"""
    m = mod(TP)
    gens = GENS[:n]
    v, t, _, _ = Formula(random.Random(seed), gens, perms(n, 'cyc'), homogeneous=True, roots=False).make(size, deg)
    if len(t) > 110:
        return None
    z = sp.expand(v)
    r = m.degree_of_zero(t, gens=gens)
    if r != deg and not z.is_number:
        return {'call': f'degree_of_zero({t!r})', 'returns': r, 'expected': deg}


@oracle
def shown(seed, n, kind, factors):
    """the text of a polynomial denotes it and reads back"""
    m, tp = mod(FO), mod(TP)
    gens = GENS[:n]
    kind = tuple(tuple(q) for q in kind) if not isinstance(kind, str) else kind
    G = group(n, kind)
    P = perms(n, kind) if G is not None else perms(n, 'cyc')
    r = random.Random(seed)
    e = sp.Rational(r.choice([1, -1, 2, -3]), r.choice([1, 1, 2, 5]))
    if factors:
        for _ in range(r.randint(1, 2)):
            f = sp.Add(*[r.randint(-2, 2) * g for g in gens]) + r.choice([0, 0, 0, 1])
            if r.random() < .3:
                f = sp.Add(*[r.randint(-2, 2) * x * y for x, y in itertools.combinations_with_replacement(gens, 2)])
            f = f if f != 0 else gens[0]
            e *= sp.Mul(*[permuted(f, gens, q) for q in (P if len(P) < (6 if f.is_Add and sp.Poly(f, *gens).total_degree() < 2 else 4) else P[:1])]) * f**r.choice([0, 0, 1])
    else:
        f = sp.Add(*[sp.Rational(r.randint(-6, 6), r.choice([1, 1, 3])) * sp.Mul(*[g**r.randint(0, 3) for g in gens]) for _ in range(r.randint(1, 4))]) + r.choice([0, 0, sp.sqrt(2) * gens[0]])
        e *= sp.Add(*[permuted(f, gens, q) for q in P]) if r.random() < .6 else f
    p = sp.Poly(e, *gens, extension=True)
    om, op = r.random() < .5, r.random() < .5
    for fn in (m.poly_get_factor_form, m.poly_get_standard_form) if not e.has(sp.sqrt(2)) else (m.poly_get_standard_form,):
        t = fn(p, G, om, op)
        call = f'{fn.__name__}({p}, {kind}, {om}, {op})'
        if sp.expand(read(t, gens, P) - e) != 0:
            return {'call': call, 'returns': t, 'which is': str(sp.factor(read(t, gens, P)))[:200]}
        q = tp.preprocess_text(t, gens=gens, perm=G)
        if q is None or sp.expand(q.as_expr() - e) != 0:
            return {'call': f'preprocess_text({t!r}, {gens}, {kind})', 'returns': str(q)[:200], 'written by': call}


SUPER = str.maketrans('⁰¹²³⁴⁵⁶⁷⁸⁹', '0123456789')


def shown(text, parens):
    """the value of a side of a shown equation: implied products, superscripts, and Σ, ∏ over the rest of the term (parens: over the bracket that follows)"""
    import re
    text = re.sub('[⁰¹²³⁴⁵⁶⁷⁸⁹]+', lambda k: '^(' + k.group(0).translate(SUPER) + ')', text.replace(' ', ''))
    text = text.replace('f(a,b,c)', 'F').replace('sqrt', 'R').replace('**', '^')
    if parens:
        text = text.replace('s(', 'Σ(').replace('p(', '∏(')
    toks = re.findall(r'\d+|.', text)
    pos = [0]
    P = perms(3, 'cyc')
    gens = (a, b, c)

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else ''

    def take(x=None):
        t = peek()
        if x is not None and t != x:
            raise ValueError(f'{t} at {pos[0]} of {text}')
        pos[0] += 1
        return t

    def total():
        v = 0
        sign = 1
        while True:
            while peek() in ('+', '-') and peek():
                sign = -sign if take() == '-' else sign
            v += sign * term()
            sign = 1
            if peek() not in ('+', '-') or not peek():
                return v

    def term(stop=False):
        v = None
        while peek() and peek() not in '+-)=':
            if v is not None and stop and peek() == 'F':
                return v
            op = take() if peek() in '*/' else '*'
            x = factor()
            v = x if v is None else (v / x if op == '/' else v * x)
        if v is None:
            raise ValueError(f'nothing at {pos[0]} of {text}')
        return v

    def atom():
        t = take()
        if t.isdigit():
            return sp.Integer(t)
        if t == '(':
            v = total()
            take(')')
            return v
        if t == 'R':
            return sp.sqrt(atom())
        if t == '-':
            return -atom()
        if t in 'Σ∏':
            v = atom() if parens else term(True)
            vs = [permuted(v, gens, q) for q in P]
            return sp.Add(*vs) if t == 'Σ' else sp.Mul(*vs)
        if t.isalpha():
            return sp.Symbol(t)
        raise ValueError(f'{t} in {text}')

    def factor():
        v = atom()
        if peek() == '^':
            take()
            return v**atom()
        return v
    v = total()
    if pos[0] != len(toks):
        raise ValueError(f'{peek()} at {pos[0]} of {text}')
    return v


@oracle
def presented(seed, size):
    """equations and their text for random expressions with cyclic sums"""
    m = mod(SO)
    C = mod('triples.utils.expression.cyclic')
    tp = mod(TP)
    r = random.Random(seed)

    def rnd(n):
        if n == 0:
            return r.choice([a, b, c, a - b, sp.Rational(r.randint(1, 9), r.randint(1, 6)), -sp.Rational(r.randint(1, 9), r.randint(1, 6)), C.CyclicSum(a * b, (a, b, c)), C.CyclicProduct(a, (a, b, c)),
                             C.CyclicSum(a**2 / r.randint(2, 5), (a, b, c)), C.CyclicSum(a * (b - c)**2, (a, b, c)), C.CyclicProduct((a - b)**2, (a, b, c)), a / 2 + b / r.randint(2, 6), a**r.randint(10, 23), C.CyclicSum(b**r.randint(9, 20) * c, (a, b, c)), 3 + sp.sqrt(2)])
        k, x, y = r.randint(0, 4), rnd(n - 1), rnd(n - 1)
        return [x + y, x * y, x / y if y != 0 else x, x**2, x - y][k]
    e = rnd(size)
    v = value(e)
    try:
        if sp.cancel(v) == 0 or v.has(sp.zoo, sp.nan):
            return None
    except Exception:
        return None
    p = sp.Poly(a**2 + 2 * b * c - b**2 / 3, a, b, c)
    for q, eq in ((p, False), (sp.Poly(sp.expand(sp.cancel(v)), a, b, c), True)) if sp.cancel(v).is_polynomial(a, b, c) else ((p, False),):
        s = m.SolutionSimple(problem=q, solution=e)
        n_, d_ = s.as_fraction(together=r.random() < .5)
        if not rat_identity(value(n_) / value(d_), v):
            return {'call': f'as_fraction of {e}', 'returns': str((n_, d_))}
        if bool(s.copy().is_equal) != (eq or sp.cancel(v - q.as_expr()) == 0):
            return {'call': f'is_equal of {e} for {q.as_expr()}', 'returns': s.copy().is_equal}
        tg, cn = r.random() < .5, r.random() < .5
        E = s.as_eq(together=tg, cancel=cn)
        if not rat_identity(value(E.lhs) * v, value(E.rhs) * q.as_expr()):
            return {'call': f'as_eq of {e} for {q.as_expr()} (together={tg}, cancel={cn})', 'returns': str(E)}
        f = sp.Symbol('f')
        E = s.as_eq(lhs_expr=f, together=tg, cancel=cn)
        if not rat_identity(value(E.lhs) * v, value(E.rhs) * f):
            return {'call': f'as_eq of {e} with the left side f (together={tg}, cancel={cn})', 'returns': str(E)}
        t = s.to_string(mode='formatted', together=tg, cancel=cn)
        l, rr = (read(x, (a, b, c), perms(3, 'cyc')) for x in t.split('='))
        if not rat_identity(l * v, rr * q.as_expr()):
            return {'call': f'to_string of {e} for {q.as_expr()}', 'returns': t}
        F = sp.Symbol('F')
        for mode in ('txt', 'formatted', 'str_txt', 'str_formatted'):
            wh = f'{mode} text of {e} for {q.as_expr()}'
            if 'txt' in mode and any(x.is_Mul and x.could_extract_minus_sign() and x.atoms(C.CyclicSum, C.CyclicProduct) for x in sp.preorder_traversal(sp.Tuple(E.rhs, E.lhs, *s.as_fraction()))):
                continue  # the scope of Σ and ∏ in a negative product is not marked
            if mode in ('txt', 'formatted'):
                t = s.to_string(mode=mode, lhs_expr=F, together=tg, cancel=cn)
            else:
                t = getattr(s.copy(), mode)
                if ('≈' in t) != (not (eq or sp.cancel(v - q.as_expr()) == 0)):
                    return {'call': wh, 'returns': t}
            l, rr = (shown(x, mode.endswith('formatted')) for x in t.replace('≈', '=').split('='))
            if not rat_identity(l * v, rr * F):
                return {'call': wh, 'returns': t, 'which is': f'{l} = {sp.factor(rr)}'[:200]}


@oracle
def triangle(seed, n, deg):
    """coefficient_triangle lists the coefficients in the documented order"""
    m = mod(TP)
    r = random.Random(seed)
    gens = GENS[:n]
    ms = [q for q in itertools.product(range(deg, -1, -1), repeat=n) if sum(q) == deg]
    co = {q: sp.Rational(r.choice([0, 0, 1, -1, 2, -7, 12]), r.choice([1, 1, 3])) for q in ms}
    p = sp.Poly(text_of(co, gens), *gens)
    if p.is_zero:
        return None
    t = m.coefficient_triangle(p)
    want = [str(co[q]) for q in ms]
    if t != want:
        return {'call': f'coefficient_triangle({p})', 'returns': t, 'expected': want}


MON = {1: [(2,), (1,), (0,)], 2: [(2, 0), (1, 1), (1, 0), (0, 0)], 3: [(2, 1, 0), (1, 1, 1), (3, 0, 0), (0, 0, 0), (0, 1, 1)], 4: [(1, 1, 0, 0), (2, 0, 0, 1), (0, 0, 0, 2)]}


def tasks(th):
    ts = [fraction_task(t, i, s) for t in (True, False) for i in (True, False) for s in (True, False)]
    ts += [equation_task(x, t, g, k) for x in (True, False) for t in (True, False) for g in (True, False) for k in ('numbers', 'denominator', 'polynomials')]
    ts += [equal_task(n, s) for n, s in SHAPES]
    importlib.import_module('sympy')
    ts += [Lazy(i, h) for i in range(16) for h in (True, False)]
    flags = [(True, True), (True, False), (False, True), (False, False)]
    j = 0
    for n in (1, 2, 3, 4):
        ks = ['none', 'cyc', 'sym', ((1, 0, 2),), ((0, 2, 1),)] if n == 3 else ['none', 'cyc', ((1, 2, 0, 3),), ((1, 0, 3, 2),)] if n == 4 else ['none', 'cyc']
        for kind in ks:
            for size in (1, 2, 3):
                for mons in itertools.combinations(MON[n], size):
                    j += 1
                    if n >= 3 and size >= 2 and not th and j % 2:
                        continue
                    for same in (False, True):
                        for vals in (None, VALUES[j % 10:] + VALUES[:j % 10]):
                            ts.append(standard_task(n, kind, mons, vals, *flags[(j + same) % 4], same, ((1,), (-1,), (1, -1), (-1, 1))[(j // 4) % 4]))
    lin = [a - b, 2 * a - b, a, a + b, 2 * a - b - c, a + 2 * b - 3 * c, a**2 - b * c, a * b - b**2 - b * c + 2 * c**2]
    for n in (2, 3, 4):
        for kind in {2: ['cyc'], 3: ['cyc', 'sym', ((1, 0, 2),), ((0, 2, 1),)], 4: ['cyc', ((1, 2, 0, 3),), ((1, 0, 3, 2),)]}[n]:
            for base in lin:
                if base.free_symbols - set(GENS[:n]) or (kind == 'sym' and len(base.free_symbols) == 3 and not th):
                    continue
                for o in range(6 if th else 3):
                    ts.append(reduce_task(n, kind, base, (1, -1), ((1,), (2, 1), (3, 1))[o % 3], o, (a + 7 * b,) if o % 2 else ()))
    forms = [([], [(a - b, 1)]), ([(a, 2), (a - b, 1)], []), ([(a + b, 1)], [(a, 3)]), ([(a**2 + 3, 2)], [(2 * a - b, 2)]), ([(b, 1), (2 * a - b / 2, 3)], [(a, 1), (a + b, 1)])]
    for n, kind in ((2, 'cyc'), (3, 'none'), (3, 'cyc'), (3, 'sym'), (3, ((1, 0, 2),))):
        for i, (l, cy) in enumerate(forms):
            for q, co in enumerate((None, 1, -1, sp.Rational(-2, 3), 5)):
                ts.append(factor_text_task(n, kind, co, l, cy if kind != 'none' else cy, *flags[(i + q) % 4]))
    for text in ('a', '(a-b)', 'a^2*b', '(a^3*b+c)', '(a*(b-2)+1)'):
        for n, kind in ((3, 'none'), (3, 'cyc'), (3, 'sym'), (4, 'cyc'), (4, ((1, 2, 0, 3),)), (3, ((1, 0, 2),))):
            ts += [expansion_task(text, n, kind, s) for s in ('s', 'p') if s == 's' or text != '(a^3*b+c)']
    return ts


def Lazy(i, hom):
    """shapes need the package, which is imported only in the task"""
    names = ['group fixes the variable', 'all variables', 'variable first', 'variable first, moved', 'outside', 'swaps', 'swaps with it', 'two cycles', 'symmetric', 'product', 'nested', 'fraction', 'sum of parts', 'trivial group',
             'of the variable', 'plain']

    def build():
        return dict(dehom_shapes())[names[i]]()
    return dehom_task(names[i], build, hom)


def cases(seed, count):
    r = random.Random(seed)
    cs = []
    for i in range(count):
        n = r.choice([2, 3, 3, 3, 4])
        kind = r.choice(kinds(n))
        cs.append({'oracle': 'formula', 'args': [r.randint(0, 10**9), n, kind, i % 3 == 0, r.randint(1, 3)]})
        cs.append({'oracle': 'shown', 'args': [r.randint(0, 10**9), n, kind, bool(i % 2)]})
        if i % 2:
            cs.append({'oracle': 'presented', 'args': [r.randint(0, 10**9), r.randint(1, 3)]})
        if i % 4 == 0:
            cs.append({'oracle': 'ratio', 'args': [r.randint(0, 10**9), r.choice([2, 3])]})
            cs.append({'oracle': 'degree', 'args': [r.randint(0, 10**9), 3, r.randint(1, 3), r.randint(1, 6)]})
        if i % 8 == 0:
            cs.append({'oracle': 'triangle', 'args': [r.randint(0, 10**9), r.choice([3, 3, 4]), r.randint(1, 5)]})
    return cs


def e03(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 60, cases(seed, 200 if not th else 4000), 30,
                  ['SymPy together, fraction, as_content_primitive: replaced by arbitrary answers with the same value', 'SymPy factor_list: replaced by arbitrary coprime factors with arbitrary signs',
                   'reading a formula from text is compared on random formulas with their value (bounded); sympify'], path_limit=20, case_limit=15)
