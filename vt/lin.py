"""LinearSOS: whatever the linear programme returns, the certificate built from it is exact and honest."""
import importlib, itertools, random, sys
import numpy as np
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup
from . import fncheck, sos, engine, cert
from .fncheck import FnTask, params
from .linalg import patched, nonzero
from .cyc import value
from .oracles import oracle, Declined

L = 'triples.core.linsos.'
a, b, c, d = sp.symbols('a b c d')


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


# (variables, polynomial, inequalities, equalities); the polynomial only fixes degree and symmetry
PROBLEMS = [
    ('abc', 'a**2+b**2+c**2-a*b-b*c-c*a', ['a', 'b', 'c'], []),
    ('abc', 'a**2+b**2+c**2-a*b-b*c-c*a', [], []),
    ('abc', 'a**3+b**3+c**3-3*a*b*c', ['a', 'b', 'c'], []),
    ('abc', 'a**4+b**4+c**4-a**2*b*c-b**2*c*a-c**2*a*b', [], []),
    ('abc', 'a**3*b+b**3*c+c**3*a-a**2*b*c-b**2*c*a-c**2*a*b', ['2*a', '3*b', '5*c'], []),
    ('abc', 'a**3*b+b**3*c+c**3*a-a**2*b*c-b**2*c*a-c**2*a*b', ['2*a', '2*b', '2*c'], []),
    ('abc', 'a**2+2*b**2+c**2-2*a*b', ['a', 'b'], []),
    ('abc', 'a**2+b**2+c**2-3', ['a', 'b', 'c'], ['a+b+c-3']),
    ('abc', 'a+b+c-3', ['a', 'b', 'c'], ['a*b*c-1']),
    ('abc', 'a**2+b**2-2*c**2', ['a', 'c'], ['a-c', 'b-c']),
    ('abc', 'a**2*(b+c-a)+b**2*(c+a-b)+c**2*(a+b-c)-3*a*b*c', ['b+c-a', 'c+a-b', 'a+b-c'], []),
    ('abc', 'a**3+b**3+c**3-3*a*b*c', ['b+c-a', 'c+a-b', 'a+b-c', 'a', 'b', 'c'], []),
    ('abc', 'a**4+b**4+c**4', ['a**2+b**2-c**2', 'b**2+c**2-a**2', 'c**2+a**2-b**2', 'a', 'b', 'c'], []),
    ('ab', 'a**2+b**2+1-a*b-a-b', ['a', 'b', 'a+b-1'], []),
    ('ab', 'a**3+b**3+1-3*a*b', ['-a', '1-b'], ['a*b-a']),
    ('ab', 'a**2*b-2*a*b+b', ['(a-1)**2*b', 'b', 'a*b-1'], ['-3*(a+b)*(a-1)']),
    ('abcd', 'a**2+b**2+c**2+d**2-a*b-b*c-c*d-d*a', ['a', 'b', 'c', 'd'], []),
    ('abcd', 'a*b+c*d', ['a-b', 'c-d', 'a', 'b', 'c', 'd'], ['a+b+c+d-4']),
    ('abc', '3-a-b-c', ['1-a', '1-b', '1-c'], ['a*b+b*c+c*a-3', 'a*b*c-1']),
    ('a', 'a**2-2*a+1', ['a'], []),
]
STYLES = ['symbols', 'functions', 'self']


def names_for(exprs, tag, style):
    out = {}
    for i, e in enumerate(exprs):
        out[e] = e if style == 'self' else sp.Symbol(f'{tag}{i}') if style == 'symbols' else sp.Function(f'{tag}{i}')(*sorted(e.free_symbols, key=str))
    return out


class Result:
    success = True

    def __init__(self, n):
        self.x = np.ones(n)


def sym_sum(e, gens, group):
    return sp.Add(*[e.xreplace(dict(zip(gens, g(list(gens))))) for g in group.elements])


def certificate_case(i, style, lift, seed, mk, picks=6):
    """-> (polynomial, value of the returned certificate, expected value, set of names, names -> constraints, names of equalities)"""
    LS = mod(L + 'linsos')
    from triples.core.sum_of_squares import sum_of_squares
    from triples.core.linsos.updegree import LinearBasisMultiplier
    vars_, poly, ineq, eq = PROBLEMS[i]
    gens = sp.symbols(' '.join(vars_), seq=True)
    env = {str(g): g for g in gens}
    ev = lambda s: sp.sympify(s, env)
    f = ev(poly)
    I, E = names_for([ev(s) for s in ineq], 'U', style), names_for([ev(s) for s in eq], 'W', style)
    rng = random.Random(f'{i},{style},{lift},{seed}')
    calls = [0]
    hold = {}

    def linprog(cost, A_eq=None, b_eq=None, **k):
        calls[0] += 1
        if calls[0] <= lift:
            return None
        return Result(len(cost))

    def correction(y, basis, num_multipliers=1, symmetry=None, **k):
        mults, rest = list(basis[len(basis) - num_multipliers:]), list(basis[:len(basis) - num_multipliers])
        M = rng.sample(mults, min(len(mults), rng.choice((1, 2, 3))))
        tail = [t for t in rest[-8:] if t is not None] if eq else []
        B = rng.sample(rest, min(len(rest), picks))
        B += [t for t in rng.sample(tail, min(2, len(tail))) if t not in B]
        ys = [mk(j) for j in range(len(B) + len(M))]
        hold.update(B=B, M=M, ys=ys, symmetry=symmetry)
        p = M[0].poly if False else None
        return list(ys), B + M, True

    with patched(LS, linprog=linprog, linear_correction=correction):
        r = sum_of_squares(sp.Poly(f, *gens), dict(I), dict(E), method_order=['LinearSOS'], configs={'LinearSOS': {'lift_degree_limit': lift, 'verbose': False}})
    if r is None or not hold:
        return None
    G = hold['symmetry'].perm_group
    # polynomials of the basis elements, in the generators of the prepared problem
    n = hold['B'][0].nvars() if hold['B'] else hold['M'][0].nvars()
    hom = sp.Symbol('_hom')
    pg = tuple(gens) + ((hom,) if n > len(gens) else ())
    num = sp.Add(*[y * sym_sum(t.as_poly(pg).as_expr(), pg, G) for y, t in zip(hold['ys'], hold['B'])])
    F = sp.Poly(f, *gens)
    if n > len(gens):
        F = F.homogenize(hom)
    den = 0
    for y, t in zip(hold['ys'][len(hold['B']):], hold['M']):
        q, rem = sp.div(-sp.Poly(t.as_poly(pg).as_expr(), *pg), F)
        assert rem.is_zero, 'the multiplier basis is not a multiple of the polynomial'
        den += y * sym_sum(q.as_expr(), pg, G)
    one = {hom: sp.S(1)}
    v = value(r.solution)
    back = {n_: e for e, n_ in list(I.items()) + list(E.items())}
    return f, v, (sp.expand(num).xreplace(one), sp.expand(den).xreplace(one)), I, E, back, hold['ys'], gens


def honest(v, I, E, ys):
    """the certificate is visibly nonnegative once equality names vanish"""
    v0 = v.xreplace({n: sp.S(0) for n in E.values()})
    pos = lambda t: t in ys or t in set(I.values())
    return any(cert.manifest(w, pos) for w in (v0, sp.factor_terms(v0))) or cert.manifest(sp.factor(v0), pos)


def certificate_task(i, style, lift, seed):
    def body(run):
        made = []

        def mk(j):
            p = params(run, [f'y{j}'])[0]
            nonzero(run, p)
            run.assume(engine.hook_cmp('ge', p, 0))
            made.append(p)
            return p
        run.oracle_args = [i, style, lift, seed]
        r = certificate_case(i, style, lift, seed, mk)
        if r is None:
            return [('true', 'nothing returned', True)]
        f, v, (num, den), I, E, back, ys, gens = r
        w = sp.together(v.xreplace(back))
        obs = [('eq', 'certificate == sum of the chosen terms / multiplier', w * den, num)]
        left = v.free_symbols - set(gens) - {s for n in back for s in n.free_symbols} - set(ys)
        obs.append(('true', f'no other symbols than given names {left or ""}', not left and not [x for x in v.atoms(sp.Function) if x not in back]))
        if style != 'self':
            obs.append(('true', 'visibly nonnegative for nonnegative names and weights', honest(v, I, E, ys)))
        return obs
    return FnTask(f'LinearSOS[problem {i}: {PROBLEMS[i][1]}, constraints {PROBLEMS[i][2]} {PROBLEMS[i][3]}, names {style}, degree lifted by {lift}, choice {seed}]', body, 'linear', must_return=True, key=(L + 'solution', '_collect_constraints'))


@oracle
def linear(i, style, lift, seed):
    rng = random.Random(seed + 77)
    call = f'LinearSOS on {PROBLEMS[i]} with names {style}, lifted by {lift}, terms chosen by {seed}'
    try:
        r = certificate_case(i, style, lift, seed, lambda j: sp.Rational(rng.randint(1, 30), rng.choice((1, 2, 3, 7))))
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    if r is None:
        raise Declined
    f, v, (num, den), I, E, back, ys, gens = r
    w = sp.together(v.xreplace(back))
    if sp.cancel(w * den - num) != 0:
        return {'call': call, 'certificate': str(v)[:300], 'expected': str(sp.factor(num / den))[:300]}
    left = v.free_symbols - set(gens) - {s for n in back for s in n.free_symbols}
    if left or [x for x in v.atoms(sp.Function) if x not in back]:
        return {'call': call, 'certificate': str(v)[:300], 'unknown names': str(left)}
    if style == 'self':
        return None
    v0 = v.xreplace({n: sp.S(0) for n in E.values()})
    for _ in range(60):
        pt = {x: sp.Rational(rng.randint(-9, 9), rng.choice((1, 2, 3))) for x in gens} | {n: sp.Rational(rng.randint(0, 12), rng.choice((1, 2))) for n in I.values()}
        x = v0.xreplace({k: pt[k] for k in I.values()}).xreplace(pt)
        if x.is_number and x.is_finite and x < 0:
            return {'call': call, 'certificate': str(v)[:300], 'negative at': str(pt)[:300]}


# ---------------------------------------------------------------- exact correction
class Vec:
    """a basis element given by its coefficient vector"""
    def __init__(self, v):
        self.v = v

    def as_array_sp(self, **k):
        return sp.Matrix(len(self.v), 1, self.v)


def correction_task(rows, cols, mults, zeros, first):
    def body(run):
        C = mod(L + 'correction')
        A = [params(run, [f'A{i}_{j}' for i in range(rows)]) for j in range(cols)]
        y0 = params(run, [f'y{j}' for j in range(cols)])
        z = params(run, [f'z{j}' for j in range(cols)])
        for p in y0:
            run.assume(engine.hook_cmp('ge', p, 0))
        basis = [Vec(v) for v in A]

        def rationalize(y, tol=None, reliable=True):
            return [sp.S(0) if j in zeros else y0[j] for j in range(cols)]

        def solve(M, t):
            # contract used: no solution of an inconsistent system; nothing else is assumed about the answer
            if any(t[k] == 1 and all(v == 0 for v in M[k, :]) for k in range(M.shape[0])):
                raise ValueError('inconsistent')
            return sp.Matrix(M.shape[1], 1, z[:M.shape[1]])

        def equal(M, x, t):
            if M.shape[1] != x.shape[0]:
                raise ValueError('shape')
            r = M * x
            return all(engine.RUN.query('eq', r[k], t[k]) for k in range(t.shape[0]))
        with patched(C, rationalize_array=rationalize, LUsolve=solve, _is_Ax_equal_to_b=equal):
            y, bs, ok = C.linear_correction([1.0] * cols, basis, num_multipliers=mults)
        if not ok:
            return []
        y = list(y)
        obs = [('true', 'as many weights as terms', len(y) == len(bs)), ('true', 'terms are given ones', all(any(t is u for u in basis) for t in bs))]
        obs += [('eq', 'weighted sum of the terms vanishes', sp.Add(*[w * t.v[k] for w, t in zip(y, bs)]), 0) for k in range(rows)]
        ms = [w for w, t in zip(y, bs) if any(t is u for u in basis[cols - mults:])]
        obs.append(('eq', 'weights of the multipliers sum to one', sp.Add(*ms), 1))
        obs += [('sign', 'weights >= 0', w, {0, 1}) for w in y]
        return obs
    return FnTask(f'linear_correction[{rows} coefficients, {cols} terms, {mults} multipliers, vanishing weights {sorted(zeros)}]', body, None, key=(L + 'correction', 'linear_correction'))


# ---------------------------------------------------------------- coefficient vectors of basis elements
def group(n, kind):
    return {'trivial': PermutationGroup(Permutation(list(range(n)))), 'cyclic': CyclicGroup(n), 'symmetric': SymmetricGroup(n),
            'swap': PermutationGroup(Permutation([1, 0] + list(range(2, n))))}[kind]


def arrays_task(n, deg, kind, tkind):
    """the vector of a basis element holds the coefficients of its sum over the group"""
    def body(run):
        B = mod(L + 'basis')
        M = mod('triples.utils.monomials').MonomialManager
        U = mod(L + 'updegree')
        ks = params(run, [f'k{j}' for j in range(3)])
        for k in ks:
            nonzero(run, k)
        gens = sp.symbols('a b c d')[:n]
        G = group(n, kind)
        mm = M(n, G)
        k0, k1, k2 = ks
        x = gens + gens
        tp = {'one': sp.S(1), 'linear': k0*x[0] + k1*x[1] - k2*x[n-1], 'square': (k0*x[0]**2 - k1*x[1]*x[2 % n])**2, 'product': (k0*x[0] - x[1])*(k1*x[0] + k2*x[1]) if n > 1 else k0*x[0]**2}[tkind]
        dom = sp.QQ.frac_field(*ks)
        P = sp.Poly(tp, *gens, domain=dom)
        td = P.total_degree()
        name = sp.Function('F')(*gens)
        obs = []
        rng = random.Random(f'{n}{deg}{kind}{tkind}')
        elems = []
        for cls in (B.LinearBasisTangent, B.LinearBasisTangentEven):
            got = cls.generate(name, gens, deg, tangent_p=P)
            elems += [(t, None) for t in rng.sample(got, min(4, len(got)))]
            obs.append(('true', 'terms have the requested degree', all(t.as_poly(gens).total_degree() == deg for t in got)))
            if cls is B.LinearBasisTangentEven:
                obs.append(('true', 'even powers', all(all(p % 2 == 0 for p in t.powers) for t in got)))
        elems += [(-t, None) for t, _ in elems[:2]]
        f = sp.Poly(k0*sp.Add(*[g**2 for g in gens]) + k1*sp.Add(*[g*h for g in gens for h in gens]), *gens, domain=dom)
        mul = U.LinearBasisMultiplier.from_expr(f, name, P)
        elems.append((mul, -f.as_expr() * tp))
        elems += [(t.to_even(tuple(sp.Symbol(f'V{j}') for j in range(n))), 'even', t) for t in [e[0] for e in elems if type(e[0]) is B.LinearBasisTangent][:3]]
        for el in elems:
            t = el[0]
            if len(el) == 3:
                e = t.as_expr(gens).xreplace({sp.Symbol(f'V{j}'): g for j, g in enumerate(gens)})
                obs.append(('eq', 'even version has the same value', e.xreplace({name: tp}), el[2].as_expr(gens).xreplace({name: tp})))
                obs.append(('true', 'variables keep even powers only', all(p % 2 == 0 for p in t.powers)))
                continue
            q = t.as_poly(gens)
            if el[1] is None:
                obs.append(('eq', 'expression and polynomial of a term agree', t.as_expr(gens).xreplace({name: tp}), q.as_expr()))
            else:
                obs.append(('eq', 'polynomial of a multiplier term', q.as_expr(), el[1]))
                obs.append(('eq', 'multiplier', t.multiplier.xreplace({name: tp}), tp))
            vec = t.as_array_sp(expand_cyc=True, symmetry=mm)
            tot = sp.Poly(sym_sum(q.as_expr(), gens, G), *gens, domain=dom)
            inv = mm.inv_monoms(q.total_degree())
            obs.append(('true', 'one entry per orbit of monomials', len(inv) == vec.shape[0] and orbits_cover(inv, n, q.total_degree(), G)))
            obs += [('eq', 'entry is the coefficient in the sum over the group', vec[j], tot.coeff_monomial(m)) for j, m in enumerate(inv)]
        return obs
    return FnTask(f'coefficient vectors[{n} variables, degree {deg}, {kind} group, tangent {tkind}]', body, None, must_return=True, key=(L + 'basis', 'LinearBasisTangent'))


def orbits_cover(inv, n, deg, G):
    seen = set()
    for m in inv:
        orb = {tuple(g(list(m))) for g in G.elements}
        if orb & seen:
            return False
        seen |= orb
    return len(seen) == sp.binomial(n + deg - 1, deg)


# ---------------------------------------------------------------- constraints to terms
def qmodule_task(n, cons, allpos, pre):
    """products of constraints: polynomial and name agree; signs of variables; multipliers"""
    def body(run):
        LS, U = mod(L + 'linsos'), mod(L + 'updegree')
        M = mod('triples.utils.monomials').MonomialManager
        gens = sp.symbols('a b c d')[:n]
        I = {sp.Poly(s, *gens): sp.Symbol(f'U{i}') for i, s in enumerate(cons)}
        sub = {v: k.as_expr() for k, v in I.items()}
        obs = []
        nn = set(I.values())
        P = sp.Poly(sum(g**5 for g in gens), *gens)
        for p, e in LS._get_qmodule_list(P, dict(I), all_nonnegative=allpos, preordering=pre):
            obs.append(('eq', 'product of constraints and its name agree', e.xreplace(sub), p.as_expr()))
            obs.append(('true', 'name is a product of given names', cert.manifest(e, lambda t: t in nn)))
            obs.append(('true', 'homogeneous', p.is_homogeneous))
        for kind in ('trivial', 'cyclic', 'symmetric'):
            for k in range(5):
                for p, e in U._get_multipliers(dict(I), gens, k, symmetry=M(n, group(n, kind))):
                    obs.append(('eq', 'multiplier and its name agree', e.xreplace(sub), p.as_expr()))
                    obs.append(('true', 'multiplier is a product of names and squares', cert.manifest(e, lambda t: t in nn)))
                    obs.append(('true', 'degree of the multiplier', p.total_degree() == k and p.is_homogeneous))
        for x, s in LS._get_signs_of_vars(I, gens).items():
            if s:
                obs.append(('true', 'sign of a variable is implied by a constraint', any(q.is_monomial and q.total_degree() == 1 and q.coeff_monomial(x) * s > 0 for q in I)))
        for p, e in LS._prepare_tangents(gens, [], None).items():
            obs.append(('eq', 'tangent', p.as_expr(), e))
            obs.append(('true', 'tangent is a square', cert.manifest(e, lambda t: False)))
        return obs
    return FnTask(f'products of constraints[{n} variables, {cons}, all positive {allpos}, {pre}]', body, None, must_return=True, key=(L + 'linsos', '_get_qmodule_list'))


# ---------------------------------------------------------------- bounded: exact equality and solution of systems with radicals
@oracle
def exact(A, x, bb):
    C = mod(L + 'correction')
    A, x, bb = [sp.Matrix(sp.sympify(t)) for t in (A, x, bb)]
    true = all(sp.simplify(sp.expand(sp.radsimp(v))) == 0 for v in (A * x - bb))
    got = C._is_Ax_equal_to_b(A, x, bb)
    call = f'_is_Ax_equal_to_b({A.tolist()}, {list(x)}, {list(bb)})'
    if got and not true:
        return {'call': call, 'returns': 'True', 'A*x - b': str([sp.N(v) for v in (A * x - bb)])}
    try:
        s = C.LUsolve(A, bb)
    except Exception:
        return None
    r = A * sp.Matrix(s) - bb
    if any(abs(sp.N(v, 30)) > 1e-20 for v in r):
        return {'call': f'LUsolve({A.tolist()}, {list(bb)})', 'returns': str(list(s))[:200], 'residual': str([sp.N(v) for v in r])}


FORMS = [('CYC(a**2-a*b)', 'abc', []), ('CYC(a**3-a*b*c)', 'abc', ['a', 'b', 'c']), ('CYC(a**2*(a-b)*(a-c))', 'abc', ['a', 'b', 'c']), ('CYC(a**4*b**2-a**3*b**2*c)', 'abc', []), ('CYC(a**3*b-a**2*b*c)', 'abc', ['2*a', '3*b', 'c/5']),
         ('CYC(a*(a-b)*(a-c))', 'abc', ['a', 'b', 'c']), ('CYC(a**2*(b+c-a))-3*a*b*c', 'abc', ['b+c-a', 'c+a-b', 'a+b-c']), ('CYC(3*a*b*c)-CYC(a**2*(b+c-a))', 'abc', ['b+c-a', 'c+a-b', 'a+b-c']), ('SYM(a**2-a*b)', 'abcd', []),
         ('a**2+b**2+1-a*b-a-b', 'ab', []), ('a**4+b**4+1-a**2*b-b**2-a', 'ab', []), ('CYC(a**2+1-2*a)', 'abc', ['a']), ('CYC(a**3+b*a-2*a**2)', 'abc', ['a', 'b', 'c']), ('a**3*b+a*b**3-2*a**2*b**2', 'ab', ['a*b']), ('(a-b)**2*c+c*b', 'abc', ['c', 'b*c'])]


def cases(seed, count):
    rng = random.Random(seed)
    cs = []
    for f, v, I in FORMS:
        cs.append(('named', [f, v, I, 'LinearSOS', []]))
    for f, v, I, E in [('a**2+b**2+c**2-3', 'abc', ['a', 'b', 'c'], ['a+b+c-3']), ('a**2+b**2-2*c**2', 'abc', ['c'], ['a-c', 'b-c']), ('a**2+b**2-2*c', 'abc', ['a', 'b'], ['a*b-c']), ('a+b-2', 'ab', ['a', 'b'], ['a*b-1'])]:
        cs.append(('named', [f, v, I, 'LinearSOS', E]))
    num = lambda: rng.choice(('0', '1', '2', '-3', '5/7', 'sqrt(2)', '1-sqrt(2)', '1/(1+sqrt(2))', 'sqrt(2)/2', '3'))
    for _ in range(count):
        n = rng.choice((1, 2, 2, 3))
        A = [[num() for _ in range(n)] for _ in range(n)]
        x = [num() for _ in range(n)]
        bb = [str(sum(sp.sympify(A[i][j]) * sp.sympify(x[j]) for j in range(n))) for i in range(n)]
        if rng.random() < .4:
            bb[rng.randrange(n)] = num()
        cs.append(('exact', [A, x, bb]))
    for _ in range(count):
        cs.append(('linear', [rng.randrange(len(PROBLEMS)), rng.choice(STYLES), rng.choice((0, 0, 1, 2)), rng.randrange(10**6)]))
    rng.shuffle(cs)
    return [{'oracle': o, 'args': k} for o, k in cs]


def setup():
    fncheck.setup([L + 'solution', L + 'correction', L + 'linsos', L + 'basis', L + 'updegree'])()


CONS = [(3, ['a', 'b', 'c']), (3, []), (3, ['2*a', '-b', 'a-c']), (3, ['a*b', 'b*c', 'c*a', 'a']), (2, ['a', 'a-b', 'a**2+b**2']), (4, ['a', 'b', 'c', 'd', 'a+b-c']), (3, ['a**2+b**2-c**2', 'a-b', 'b-c', 'c-a'])]


def tasks(thorough):
    ts = []
    for r, k, m in ((2, 3, 1), (1, 2, 1), (2, 3, 2), (2, 2, 2), (1, 3, 1), (3, 3, 1)):
        for zs in [z for q in range(k) for z in itertools.combinations(range(k), q)]:
            ts.append(correction_task(r, k, m, set(zs), True))
    for n in (1, 2, 3, 4):
        for deg in (2, 3, 4, 5, 6)[:5 if n < 4 else 3]:
            for kind in ('trivial', 'cyclic', 'symmetric', 'swap')[:4 if n > 2 else 2 if n == 2 else 1]:
                ts += [arrays_task(n, deg, kind, t) for t in ('one', 'linear', 'square', 'product') if t != 'square' or deg >= 4]
    ts += [qmodule_task(n, cs, p, pre) for n, cs in CONS for p in (False, True) for pre in ('linear', 'none')]
    ts += [certificate_task(i, s, l, k) for i in range(len(PROBLEMS)) for s in STYLES for l in ((0, 1, 2) if thorough or i < 12 else (0, 1)) for k in range(4 if thorough else 2)]
    return ts


def g01(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 55, cases(seed, 150 if not th else 6000), 25,
                  ['the linear programme (scipy): replaced by an arbitrary solver, its answer is not trusted', 'SymPy LU decomposition inside LUsolve: only the answers accepted by the equality test are used',
                   'equality test of algebraic numbers with radicals (_is_Ax_equal_to_b) and LUsolve are covered by the bounded cases, exact for rational data',
                   'the correction step is specified by its contract inside the facade runs: the weighted sum of the chosen terms vanishes, weights >= 0',
                   f'problem shapes: {len(PROBLEMS)} problems, names {STYLES}; the chosen terms are a sample of the basis, their weights are arbitrary'],
                  path_limit=20, case_limit=20)
