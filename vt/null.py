"""Null spaces taken from the zeros of a polynomial lose no certificate."""
import importlib, itertools, random, sys
import sympy as sp
from . import fncheck, sos, engine
from .fncheck import FnTask, params
from .linalg import patched
from .tab import group, perms as elements, GENS
from .oracles import oracle, Declined

MF = 'triples.core.sdpsos.manifold'
RT = 'triples.utils.roots.roots'


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    importlib.import_module(n)
    return sys.modules[n]


def setup():
    fncheck.setup([MF, RT])()


def monos(n, d):
    """all exponents of degree d, in the order of the code under check"""
    M = mod('triples.utils.monomials')
    return list(M.MonomialManager(n, is_homogeneous=True).base().inv_monoms(d))


def at(e, gens, pt):
    return sp.sympify(e).xreplace(dict(zip(gens, pt)))


def vanishing(n, d, points):
    """a basis of the rational forms of degree d vanishing at the points"""
    ms = monos(n, d)
    rows = []
    for pt in points:
        rows += rational_rows([sp.prod([sp.sympify(v)**e for v, e in zip(pt, m)]) for m in ms])
    if not rows:
        return [sp.Matrix([int(i == j) for i in range(len(ms))]) for j in range(len(ms))]
    return sp.Matrix(rows).nullspace()


def orbit(perms, pt):
    return list(dict.fromkeys(tuple(pt[i] for i in p) for p in perms))


def certificate(case):
    """(gens, perms, constraints as expressions, equalities, forms allowed in the squares)"""
    n, D, G, root, ineq, eq = case
    gens = GENS[:n]
    env = {str(g): g for g in gens}
    I, E = [sp.sympify(s, env) for s in ineq], [sp.sympify(s, env) for s in eq]
    perms = elements(n, G)
    pt = tuple(sp.sympify(r) for r in root)
    return gens, perms, I, E, pt


def squares(case, rng, most, count=1):
    """per constraint: list of bases, one per square"""
    n, D = case[:2]
    gens, perms, I, E, pt = certificate(case)
    out = []
    for g in I:
        d = D - sp.Poly(g, *gens).total_degree()
        if d % 2:
            raise ValueError('degree')
        pts = [q for q in orbit(perms, pt) if sp.expand(at(g, gens, q)) != 0]
        B = vanishing(n, d // 2, pts)
        out.append([sorted(rng.sample(range(len(B)), min(most, len(B)))) for _ in range(count)] + [B])
    return out


def build(case, coeffs, lam):
    """coeffs[k][square] -> coefficient vector of the square of constraint k; lam[j] -> polynomial multiplier"""
    n, D = case[:2]
    gens, perms, I, E, pt = certificate(case)
    f = sp.S(0)
    for g, qs in zip(I, coeffs):
        d = (D - sp.Poly(g, *gens).total_degree()) // 2
        ms = monos(n, d)
        for q in qs:
            f += g * sp.expand(sum(v * sp.prod([x**e for x, e in zip(gens, m)]) for v, m in zip(q, ms)))**2
    for h, l in zip(E, lam):
        f += h * l
    f = sp.expand(f)
    return sp.expand(sum(f.xreplace(dict(zip(gens, [gens[i] for i in p]))) for p in perms))


def multipliers(case):
    n, D = case[:2]
    gens, perms, I, E, pt = certificate(case)
    out = []
    for h in E:
        d = D - sp.Poly(h, *gens).total_degree()
        out.append([sp.prod([x**e for x, e in zip(gens, m)]) for m in monos(n, d)])
    return out


def spaces(case, f):
    n, D, G = case[:3]
    gens, perms, I, E, pt = certificate(case)
    M, R = mod(MF), mod(RT)
    sym = mod('triples.utils.monomials').MonomialManager(n, group(n, G), is_homogeneous=True)
    with patched(M, _findroot_binary=lambda *a: [], findroot_resultant=lambda *a: []):
        S = M.RootSubspace(sp.Poly(f, *gens), sym)
    if S._degree != D:
        return None
    S.roots = [R.RootRational(pt) if all(v.is_Rational for v in pt) else R.RootAlgebraic(pt)]
    ip, ep = [sp.Poly(g, *gens) for g in I], [sp.Poly(h, *gens) for h in E]
    return [S.nullspace(g, ip, ep) for g in ip]


def null_task(case, most, count, seed=0):
    def body(run):
        rng = random.Random(f'{case},{seed}')
        sq = squares(case, rng, most, count)
        coeffs, names = [], []
        for k, item in enumerate(sq):
            B = item[-1]
            qs = []
            for j, sel in enumerate(item[:-1]):
                s = params(run, [f's{k}_{j}_{i}' for i in sel])
                qs.append(list(sum((v * B[i] for v, i in zip(s, sel)), sp.zeros(len(B[0]) if B else 0, 1))) if B else [])
            coeffs.append([q for q in qs if q])
        lam = []
        for j, ms in enumerate(multipliers(case)):
            pick = sorted(rng.sample(range(len(ms)), min(3, len(ms))))
            s = params(run, [f'l{j}_{i}' for i in pick])
            lam.append(sum(v * ms[i] for v, i in zip(s, pick)))
        run.oracle_args = [list(case), coeffs, lam]
        run.generic_poly = True     # a derivative that happens to vanish identically is differentiated further: more orders, never fewer
        f = build(case, coeffs, lam)
        NS = spaces(case, f)
        if NS is None:
            return [('true', 'nothing to lose', True)]
        obs = []
        for k, N in enumerate(NS):
            for j in range(N.shape[1] if N.shape[0] else 0):
                for q in coeffs[k]:
                    obs.append(('true', 'length of the vectors', N.shape[0] == len(q)))
                    obs.append(('eq', f'the square times {case[4][k]} is annihilated', sum(u * v for u, v in zip(q, N[:, j])), 0))
        return obs or [('true', 'no restriction', True)]
    return FnTask(f'nullspace[{case}, {count} squares]', body, 'lost', must_return=True, key=(MF, 'RootSubspace'))


@oracle
def lost(case, coeffs, lam):
    case = [case[0], case[1], *case[2:]]
    coeffs = [[[sp.sympify(v) for v in q] for q in qs] for qs in coeffs]
    f = build(case, coeffs, [sp.sympify(l) for l in lam])
    if f == 0:
        raise Declined('zero polynomial')
    for k, N in enumerate(spaces(case, f) or ()):
        for j in range(N.shape[1] if N.shape[0] else 0):
            for q in coeffs[k]:
                v = sum(u * w for u, w in zip(q, N[:, j]))
                if v != 0:
                    return {'polynomial': str(f), 'zero': str(case[3]), 'constraints': str(case[4]), 'equalities': str(case[5]), 'square': str(q), 'times': case[4][k], 'null vector': str(list(N[:, j])), 'product': str(v)}


CASES = [
    (2, 4, 'none', ('1', '0'), ['1', 'a*b'], []), (2, 4, 'none', ('1', '1'), ['1', 'a*b'], []), (2, 3, 'none', ('0', '1'), ['a', 'b'], []), (2, 5, 'none', ('0', '1'), ['a', 'b'], []),
    (2, 4, 'none', ('2', '1'), ['1', 'a*b'], []), (2, 4, 'none', ('sqrt(2)', '1'), ['1', 'a*b'], []), (2, 4, 'cyc', ('1', '0'), ['1', 'a*b'], []),
    (3, 3, 'none', ('0', '0', '1'), ['a', 'b', 'c'], []), (3, 3, 'none', ('0', '1', '1'), ['a', 'b', 'c'], []), (3, 3, 'none', ('0', '0', '1'), ['a', 'b-a'], []),
    (3, 4, 'none', ('1', '1', '0'), ['1', 'a*b', 'b*c', 'a*c'], []), (3, 4, 'none', ('0', '0', '1'), ['1', 'a*b', 'b*c', 'a*c'], []), (3, 4, 'none', ('1', '1', '1'), ['1'], []),
    (3, 4, 'cyc', ('1', '0', '0'), ['1', 'a*b'], []), (3, 4, 'sym', ('1', '1', '0'), ['1', 'a*b'], []), (3, 3, 'cyc', ('1', '0', '0'), ['a', 'b'], []), (3, 3, 'cyc', ('1', '2', '0'), ['a', 'b'], []),
    (3, 5, 'none', ('1', '1', '0'), ['a', 'b', 'c', 'a*b*c'], []), (3, 4, 'none', ('1', 'sqrt(2)', '0'), ['1', 'a*b'], []), (3, 4, 'cyc', ('1', 'sqrt(2)', '1'), ['1', 'a*b'], []),
    (3, 4, 'none', ('1', '1', '0'), ['1'], ['c']), (3, 4, 'none', ('1', '0', '0'), ['1', 'a*b'], ['a*c-b**2']), (3, 4, 'none', ('1', '0', '0'), ['1', '-a*b', 'a*b'], []),
    (3, 4, 'none', ('2', '1', '1'), ['1', '(a-b)*(b-c)', '(a-b)*(a-2*c)'], []), (3, 6, 'none', ('0', '0', '1'), ['a*b', 'c**2', 'a*b*c**2'], []), (4, 2, 'none', ('1', '1', '0', '0'), ['1', 'a*b', 'c*d', 'a*c'], []),
    (4, 3, 'none', ('1', '1', '0', '0'), ['a', 'b', 'c', 'd'], []), (4, 3, 'cyc', ('1', '1', '0', '0'), ['a'], []), (4, 3, 'sym', ('1', '0', '0', '0'), ['a'], []), (4, 4, 'cyc', ('1', '0', '1', '0'), ['1', 'a*b'], []),
    (4, 3, 'none', ('0', '0', '1', '0'), ['a', 'b-a', 'd'], []), (3, 3, 'none', ('0', '0', '1'), ['a', '-a', 'b'], []), (3, 4, 'none', ('0', '1', '1'), ['1', 'a**2', 'a*b', 'a*(b-c)'], []),
    (3, 5, 'none', ('0', '1', '1'), ['a', 'a**3', 'b', 'a*b*c'], []), (3, 4, 'cyc', ('1', '1', '1'), ['1', 'a*b'], []), (3, 4, 'none', ('0', '0', '1'), ['1', 'b*c'], ['a*b-c*b']),
    (3, 3, 'none', ('1', '1', '1'), ['a', 'b+c-a', 'a+b'], []), (3, 4, 'none', ('0', '2', '1'), ['1', 'a*b', 'a*c'], []),
]



# ---------------------------------------------------------------- vectors of monomials and their derivatives at a point
def derivative(m, gens, diff, pt):
    e = sp.prod([x**k for x, k in zip(gens, m)])
    for x, k in zip(gens, diff):
        if k:
            e = sp.diff(e, x, k)
    return sp.sympify(e).xreplace(dict(zip(gens, pt)))


def diffs(n, top):
    return [d for d in itertools.product(range(top + 1), repeat=n) if sum(d) <= top]


def vector_task(n, d, diff):
    """the vector of all monomials (or of their derivatives) at an arbitrary point"""
    def body(run):
        R = mod(RT)
        pt = params(run, ['x', 'y', 'z', 'w'][:n])
        r = object.__new__(R.RootRational)
        R.RootRational.__init__(r, tuple(pt)) if n != 3 else setattr(r, 'root', tuple(pt))
        sym = mod('triples.utils.monomials').MonomialManager(n, is_homogeneous=True).base()
        obs = []
        for got in (r.as_vec(d, diff, symmetry=sym), r.span(d, diff, symmetry=sym)):
            ms = monos(n, d)
            obs.append(('true', 'one entry for each monomial', got.shape == (len(ms), 1)))
            obs += [('eq', 'entry', got[i], derivative(m, GENS[:n], diff or (0,) * n, pt)) for i, m in enumerate(ms)]
        return obs
    return FnTask(f'as_vec[{n} variables, degree {d}, derivative {diff}]', body, None, must_return=True, key=(RT, 'Root'))


ALG = [('sqrt(2)', '1'), ('1', '1 + sqrt(5)', '0'), ('sqrt(2)', 'sqrt(2)', '1'), ('sqrt(2)', '2*sqrt(2) - 1', '3'), ('2**(1/3)', '1', '0'), ('2**(1/3)', '4**(1/3)', '1'), ('sqrt(2)', 'sqrt(3)', '1'),
       ('0', '1', '-sqrt(3)'), ('1', '2', 'sqrt(2) + sqrt(3)'), ('sqrt(2)', 'sqrt(3)', 'sqrt(6)', '1'), ('1/2', '-1', '3'), ('2', '0', '0', '1'), ('sqrt(2)/3', '1', '0', '2'), ('1', '1', 'sqrt(2) - 1', '0')]


def alg(text):
    return sp.sympify(text, rational=True)


def span_problem(root, d, diff):
    """the columns of span are rational and have the same span as the coordinates of the vector over Q"""
    R = mod(RT)
    pt = tuple(alg(t) for t in root)
    n = len(pt)
    sym = mod('triples.utils.monomials').MonomialManager(n, is_homogeneous=True).base()
    got = R.RootAlgebraic(pt).span(d, diff, symmetry=sym)
    ms = monos(n, d)
    want = sp.Matrix(rows_over_q([derivative(m, GENS[:n], diff or (0,) * n, pt) for m in ms])).T
    if got.shape[0] != len(ms) or not all(v.is_Rational for v in got):
        return {'root': str(root), 'degree': d, 'derivative': diff, 'span': str(got)}
    rk = lambda M: M.rank() if M.shape[1] else 0
    r = rk(want)
    if rk(got) != r or rk(sp.Matrix.hstack(got, want)) != r:
        return {'root': str(root), 'degree': d, 'derivative': diff, 'span': str(got.tolist()), 'rank': rk(got), 'expected rank': r}


def rows_over_q(values):
    vals = [sp.expand(v) for v in values]
    if all(v.is_Rational for v in vals):
        return [vals]
    K = sp.QQ.algebraic_field(*sorted({x for v in vals for x in v.atoms(sp.Pow) if not x.is_Rational}, key=str))
    reps = [K.from_sympy(v).to_list() for v in vals]
    n = len(K.mod.to_list()) - 1
    return [[sp.Rational(l[-1 - i].numerator, l[-1 - i].denominator) if len(l) > i else sp.S(0) for l in reps] for i in range(n)]


rational_rows = rows_over_q


@oracle
def spanned(root, d, diff):
    return span_problem(root, d, tuple(diff) if diff else None)


def span_task(root, d, diff):
    def body(run):
        run.oracle_args = [list(root), d, list(diff) if diff else None]
        return [('true', 'the span over the rationals', span_problem(root, d, diff) is None)]
    return FnTask(f'span[{root}, degree {d}, derivative {diff}]', body, 'spanned', must_return=True, key=(RT, 'RootAlgebraic'))


def subs_task(root):
    def body(run):
        R = mod(RT)
        pt = tuple(alg(t) for t in root)
        n = len(pt)
        gens = GENS[:n]
        p, q, r = params(run, ['p', 'q', 'r'])
        es = [p * gens[0]**2 + q * gens[-1]**2, r * gens[0] * gens[1] - q, p * sum(gens)**3 + gens[0]]
        obs = []
        for cls in (R.Root,) + ((R.RootRational,) if all(v.is_Rational for v in pt) else ()):
            r_ = cls(pt)
            for e in es:
                want = e.xreplace(dict(zip(gens, pt)))
                obs.append(('eq', 'value of an expression', r_.subs(e, gens), want))
                obs.append(('eq', 'value of a polynomial', r_.subs(sp.Poly(e, *gens), gens), want))
                obs.append(('eq', 'eval', r_.eval(sp.Poly(e, *gens)), want))
        if not all(v.is_Rational for v in pt):
            r_ = R.RootAlgebraic(pt)
            for e in (gens[0]**2 - 3 * gens[1] * gens[0] + gens[-1]**2, gens[0]**3 - 2 * gens[-1], 1 / (gens[0]**2 + gens[1]**2 + 1) + gens[0]):
                obs.append(('eq', 'value in the number field', r_.subs(e, gens), e.xreplace(dict(zip(gens, pt)))))
        return obs
    return FnTask(f'subs[{root}]', body, None, must_return=True, key=(RT, 'Root'))


def binary_task(n, G, terms):
    """the zeros with coordinates 0 and 1 are found, one of each orbit"""
    def body(run):
        P = elements(n, G)
        s = params(run, [f's{i}' for i in range(len(terms))])
        gens = GENS[:n]
        f = sp.expand(sum(v * sum(sp.prod([gens[p[i]]**k for i, k in enumerate(m)]) for p in P) for v, m in zip(s, terms)))
        run.generic_poly = True
        sym = mod('triples.utils.monomials').MonomialManager(n, group(n, G), is_homogeneous=True)
        got = mod(MF)._findroot_binary(sp.Poly(f, *gens), sym)
        obs = []
        for r in got:
            obs.append(('true', 'not the origin', any(r.root)))
            obs.append(('eq', 'a zero', f.xreplace(dict(zip(gens, map(sp.S, r.root)))), 0))
        found = {tuple(r.root) for r in got}
        for pt in itertools.product((0, 1), repeat=n):
            if any(pt) and not any(tuple(pt[i] for i in p) in found for p in P):
                obs.append(('sign', f'{pt} is no zero', f.xreplace(dict(zip(gens, map(sp.S, pt)))), {-1, 1}))
        return obs
    return FnTask(f'_findroot_binary[{n}, {G}, {terms}]', body, None, must_return=True, key=(MF, '_findroot_binary'))


def tasks(th):
    ts = [null_task(cs, 2 if cs[:3] == (4, 4, 'cyc') else 3, 1) for cs in CASES]
    for s in range(1, 8 if th else 2):
        ts += [null_task(cs, 2 if cs[:3] == (4, 4, 'cyc') else 3, 1, s) for cs in CASES]
    ts += [null_task(cs, 1 if cs[1] > 4 else 2, 2, 5) for cs in CASES[::1 if th else 3]]
    ts += [vector_task(n, d, df) for n, d in ((2, 3), (3, 2), (3, 4), (4, 2)) for df in [None] + diffs(n, 3 if th else 2)]
    ts += [span_task(r, d, None) for r in ALG for d in (1, 2, 3)] + [span_task(r, 3, df) for r in ALG for df in diffs(len(r), 2 if th else 1)[1:]]
    ts += [subs_task(r) for r in ALG]
    ts += [binary_task(n, G, tm) for n, G, tm in ((2, 'none', [(2, 0), (1, 1), (0, 2)]), (3, 'none', [(2, 0, 0), (0, 1, 1), (0, 0, 2)]), (3, 'cyc', [(3, 0, 0), (2, 1, 0), (1, 1, 1)]), (4, 'sym', [(2, 0, 0, 0), (1, 1, 0, 0)]),
                                                  (4, 'none', [(2, 0, 0, 0), (0, 0, 1, 1), (0, 1, 0, 1)]), (4, 'cyc', [(2, 1, 0, 0), (1, 1, 1, 0)]))]
    return ts


@oracle
def kept(text, ineq, eq, cert):
    """every certificate of the polynomial survives the restriction by the zeros found by the code itself; cert: squares of each constraint"""
    M = mod(MF)
    gens = GENS[:3]
    env = {str(g): g for g in gens}
    I, E = [sp.sympify(s, env) for s in ineq], [sp.sympify(s, env) for s in eq]
    f = sp.expand(sp.sympify(text, env))
    P = sp.Poly(f, *gens)
    if P.is_zero or not P.is_homogeneous:
        raise Declined('degenerate')
    sym = mod('triples.utils.monomials').MonomialManager(3, None, is_homogeneous=True)
    S = M.RootSubspace(P, sym)
    for r in S.roots:
        v = sp.N(P(*r.root), 40)
        if abs(v) > 1e-25:
            return {'polynomial': text, 'no zero': str(r.root), 'value': str(v)}
    ip, ep = [sp.Poly(g, *gens) for g in I], [sp.Poly(h, *gens) for h in E]
    for g, q in zip(ip, cert):
        d = (P.total_degree() - g.total_degree())
        if d % 2:
            continue
        N = S.nullspace(g, ip, ep)
        Q = sp.Poly(sp.sympify(q, env), *gens)
        vec = sp.Matrix([[Q.coeff_monomial(m) for m in monos(3, d // 2)]])
        if N.shape[0] and any(sp.expand(v) != 0 for v in vec * N):
            return {'polynomial': text, 'zeros': str([r.root for r in S.roots]), 'constraint': str(g.as_expr()), 'square': q, 'product': str(list(vec * N))}


def cases(seed, count):
    rng = random.Random(seed)
    a, b, c = GENS[:3]
    L = [a, b, c, a - b, b - c, a - c, a + b, a - 2 * b, a - b - c, a + b - c, 2 * a - c]
    Q2 = [a**2 - 2 * c**2, b**2 - 3 * c**2, a * b - c**2, a**2 - a * c - c**2, b**2 - a * c, a**2 + b**2 - c**2, a**2 - b * c, (a - b) * c, b**2 - 2 * a * c]
    IS = [['1', 'a*b', 'b*c', 'a*c'], ['1'], ['a', 'b', 'c'], ['a', 'b', 'c', 'a*b*c'], ['a', 'b-a', 'c'], ['1', 'a*b', '(a-c)*b'], ['a', 'b', 'c', 'b+c-a'], ['1', 'a*b', '-a*b']]
    form = lambda d: sp.S(1) if d == 0 else rng.choice(L) if d == 1 else rng.choice([rng.choice(L) * rng.choice(L), rng.choice(Q2)]) if d == 2 else sp.prod([rng.choice(L) for _ in range(d - 2)]) * rng.choice(Q2)
    out = []
    for _ in range(count):
        I = rng.choice(IS)
        gs = [sp.sympify(g) for g in I]
        D = rng.choice([3, 5]) if sp.Poly(gs[0], a, b, c).total_degree() == 1 else rng.choice([2, 4, 6])
        E = [rng.choice(['a*b-c**2', 'a-b', 'a+b-c'])] if rng.random() < .25 else []
        cert, f = [], sp.S(0)
        for g in gs:
            d = D - sp.Poly(g, a, b, c).total_degree()
            q = form(d // 2) if d >= 0 and d % 2 == 0 and rng.random() < .7 else sp.S(0)
            cert.append(q)
            f += g * q**2
        for h in E:
            f += sp.sympify(h) * form(D - sp.Poly(sp.sympify(h), a, b, c).total_degree()) * rng.choice([-1, 0, 1, 2]) if D >= sp.Poly(sp.sympify(h), a, b, c).total_degree() else 0
        out.append({'oracle': 'kept', 'args': [str(sp.expand(f)), I, E, [str(q) for q in cert]]})
    return out


def g04(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 60, cases(seed, 60 if not th else 3000), 30,
                  ['SymPy number fields, resultants, factorisation and numeric root finding: a zero reported by findroot_resultant is one (tested on every sampled polynomial, not proved)',
                   'squares of rational forms: a certificate with irrational coefficients of a rational polynomial is out of scope of the restriction by irrational zeros',
                   'the zero, the constraints and the supports of the squares are enumerated, their coefficients symbolic; a derivative that vanishes identically is treated as one of the same degree'], path_limit=30, case_limit=15)
