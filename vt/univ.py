"""Polynomials in one variable and forms in two: proofs on the line, on an interval, on a planar cone."""
import importlib, itertools, random, sys
import sympy as sp
from . import fncheck, sos, engine
from .fncheck import FnTask, params
from .linalg import patched, nonzero
from .oracles import oracle

UN = 'triples.core.structsos.pivoting.univariate'
BI = 'triples.core.structsos.pivoting.bivariate'
x = sp.Symbol('x')
a, b = sp.symbols('a b')


def mod(n):
    return importlib.import_module(n)


def upoly(cs, gen=x, extra=()):
    """Poly with exactly the given symbolic coefficients (leading first)"""
    d = len(cs) - 1
    e = sum(c * gen**(d - i) for i, c in enumerate(cs))
    fs = sorted({s for c in cs for s in sp.sympify(c).free_symbols} | set(extra), key=str)
    return sp.Poly(e, gen, domain=sp.QQ.frac_field(*fs) if fs else sp.QQ)


def eqpoly(label, p, q, gen=x):
    """coefficientwise identities of two polynomials in gen (expressions)"""
    f = sp.expand(sp.sympify(p) - sp.sympify(q))
    return [('eq', label, p, q)]


def raw_value(proof):
    return sum(m * sum(c * p.as_expr()**2 for c, p in zip(cs, ps)) for m, cs, ps in proof)


def raw_obs(proof, target, mults, label='proof == polynomial'):
    obs = [('true', 'multipliers', all(any(sp.expand(m - k) == 0 for k in mults) for m, _, _ in proof)),
           ('true', 'as many coefficients as squares', all(len(c) == len(p) for _, c, p in proof))]
    for m, cs, ps in proof:
        obs += [('sign', 'coefficients >= 0', c, {0, 1}) for c in cs]
    return obs + [('eq', label, raw_value(proof), target)]


# ---------------------------------------------------------------- leaves
def simple_task(d):
    def body(run):
        m = mod(UN)
        cs = params(run, [f'c{i}' for i in range(d + 1)])
        nonzero(run, cs[0])
        p = upoly(cs)
        run.oracle_args = [[c for c in cs]]
        r = m._prove_univariate_simple(p)
        if r is not None:
            return raw_obs(r, p.as_expr(), (1, x))
        if d == 0:
            return [('infeasible', 'None for a nonnegative constant', [(cs[0], {1})])]
        if d == 1:
            return [('infeasible', 'None although nonnegative on x >= 0', [(cs[0], {1}), (cs[1], {0, 1})])]
        A, B, C = cs
        return [('infeasible', 'None although positive', [(A, {1}), (B**2 - 4*A*C, {-1})]),
                ('infeasible', 'None although nonnegative on x >= 0', [(A, {1}), (B, {0, 1}), (C, {0, 1})])]
    return FnTask(f'_prove_univariate_simple[degree {d}]', body, 'uraw', must_return=True, key=(UN, '_prove_univariate_simple'))


def gram(M, gen=x):
    n = M.shape[0]
    v = sp.Matrix([gen**(n - 1 - i) for i in range(n)])
    return (v.T * M * v)[0, 0]


def antidiagonals(M):
    """coefficients of v^T M v, v = (x^(n-1), ..., 1), by descending power: Gram identities entry by entry"""
    n = M.shape[0]
    return [sp.Add(*[M[i, k - i] for i in range(max(0, k - n + 1), min(k, n - 1) + 1)]) for k in range(2*n - 1)]


def symmat(run, n, name):
    ps = iter(params(run, [f'{name}{i}{j}' for i in range(n) for j in range(i, n)]))
    M = sp.zeros(n, n)
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = next(ps)
    return M


def diag_task(n, positive):
    """positive 0: one matrix; otherwise the degree parity of the polynomial"""
    def body(run):
        m = mod(UN)
        if not positive:
            cs = params(run, [f'c{i}' for i in range(2*n - 1)])
            nonzero(run, cs[0])
            M = symmat(run, n, 'm')
            M0 = M.copy()
            run.oracle_args = [list(cs), M.tolist()]
            r = m._determine_diagonal_entries(M, upoly(cs))
            return [('true', 'symmetric', r.is_symmetric()), *[('eq', f'Gram identity, antidiagonal {k}', u, c) for k, (u, c) in enumerate(zip(antidiagonals(r), cs))]] + \
                   [('eq', 'free entries kept', r[i, j], M0[i, j]) for i in range(n) for j in range(n) if abs(i - j) >= 2]
        # x-part of size k: degree 2k-1;  1-part of size n: degree 2n-2
        k = n if positive == 1 else n - 1
        d = 2*k - 1 if positive == 1 else 2*n - 2
        cs = params(run, [f'c{i}' for i in range(d + 1)])
        nonzero(run, cs[0])
        M, N = symmat(run, n, 'm'), symmat(run, k, 'n')
        M0, N0 = M.copy(), N.copy()
        run.oracle_args = [list(cs), M.tolist(), N.tolist()]
        r = m._determine_diagonal_entries([M, N], upoly(cs))
        one, two = antidiagonals(r[0])[::-1], [0] + antidiagonals(r[1])[::-1]
        up = lambda l: l + [0] * (d + 1 - len(l))
        return [('true', 'symmetric', r[0].is_symmetric() and r[1].is_symmetric()), ('true', 'sizes', max(len(one), len(two)) <= d + 1)] + \
               [('eq', f'Gram identity, power {k}', u + v, c) for k, (u, v, c) in enumerate(zip(up(one), up(two), cs[::-1]))] + \
               [('eq', 'second matrix kept', u, v) for i, (u, v) in enumerate(zip(r[1], N0)) if i or positive == 2]
    return FnTask(f'_determine_diagonal_entries[{n}x{n}{["", ", odd degree", ", even degree on x >= 0"][positive]}]', body, 'udiag', must_return=True, key=(UN, '_determine_diagonal_entries'))


def from_us_task(n):
    def body(run):
        m = mod(UN)
        U = sp.Matrix(n, n, lambda i, j: params(run, [f'u{i}{j}'])[0] if j >= i else 0)
        S = params(run, [f's{i}' for i in range(n)])
        cs, ps = m._create_sos_from_US(U, sp.Matrix(S), x)
        return [('eq', 'x^T U^T S U x', raw_value([(1, cs, ps)]), gram(U.T * sp.diag(*S) * U))] + [('eq', 'coefficients kept', u, v) for u, v in zip(cs, S)]
    return FnTask(f'_create_sos_from_US[{n}]', body, None, must_return=True, key=(UN, '_create_sos_from_US'))


def total_congruence(M):
    """contract of congruence on a positive semidefinite matrix: it succeeds"""
    run = engine.RUN
    old = run.decide
    run.decide = lambda k, l=None: 0 if l == 'congruence' else old(k, l)
    try:
        U, S = sos.congruence_stub(M)
    finally:
        run.decide = old
    return sp.Matrix(U), sp.Matrix(S)


def reduce_task(degs):
    def body(run):
        m = mod(UN)
        cs, ps = [], []
        for k, d in enumerate(degs):
            c = params(run, [f'w{k}'])[0]
            run.assume(c >= 0)
            cs.append(c)
            q = params(run, [f'q{k}{i}' for i in range(d + 1)])
            nonzero(run, q[0])
            ps.append(upoly(q))
        target = raw_value([(1, cs, ps)])
        with patched(m, congruence=total_congruence):
            r = m._reduce_sos(list(cs), list(ps), x=x)
        return raw_obs([(1,) + tuple(r)], target, (1,))
    return FnTask(f'_reduce_sos[degrees {list(degs)}]', body, None, must_return=True, key=(UN, '_reduce_sos'))


def irreducible_task(d):
    def body(run):
        m = mod(UN)
        cs = params(run, [f'c{i}' for i in range(d + 1)])
        nonzero(run, cs[0])
        p = upoly(cs)
        run.oracle_args = [[c for c in cs]]
        hidden = []

        def roots(p, n=15):
            return ['roots']

        def classify(r):
            k = run.decide(2, 'real roots') if d % 2 == 0 else 1
            hidden.append(k)
            return [run.fresh('root')] if k else [], [('z', 'w')] * ((d - k) // 2)

        def matrices(real, cplx, leading_coeff=1, positive=False, early_stop=-1):
            f = lambda n, c=None: sp.Matrix(n, n, lambda i, j: run.fresh('g')) if True else None
            n1, n2 = d // 2 + 1, (d - 1) // 2 + 1
            def sym(n):
                M = f(n)
                for i in range(n):
                    for j in range(i):
                        M[i, j] = M[j, i]
                return M
            if not positive:
                return sym(n1)
            A, B = sym(n1), sym(n2)
            return [A, B]

        class Roots:
            nroots = staticmethod(roots)

            def __getattr__(self, k):
                return getattr(sp.polys, k)

        spx = sos.Proxy(m.sp, {'polys': Roots()})
        with patched(m, sp=spx, _classify_roots=classify, _construct_matrix_from_roots=matrices, _rationalize_matrix_simultaneously=lambda M, lcm=1, off_diagonal=True: [N.copy() for N in M] if isinstance(M, list) else M.copy()):
            r = m._prove_univariate_irreducible(p, n=2)
        return [] if r is None else raw_obs(r, p.as_expr(), (1, x))
    return FnTask(f'_prove_univariate_irreducible[degree {d}]', body, 'uraw', must_return=True, key=(UN, '_prove_univariate_irreducible'))


# ---------------------------------------------------------------- assembling the factors
class FakePoly:
    """what prove_univariate may use of its argument: generator, domain and factorisation"""
    def __init__(self, gen, lc, factors, algebraic, d=None):
        self.gen, self._f = gen, (lc, factors)
        self.domain = type('D', (), {'is_Algebraic': algebraic, 'is_Field': True})()

    def factor_list(self):
        return self._f
    sqf_list = factor_list


def fresh_proof(run, name, deg, both=True, gen=x):
    """an arbitrary proof: c*P^2 + x*d*Q^2 with c, d >= 0"""
    k = params(run, [f'{name}c', f'{name}d'])
    for t in k:
        run.assume(t >= 0)
    P = upoly(params(run, [f'{name}p{i}' for i in range(deg + 1)]), gen)
    Q = upoly(params(run, [f'{name}q{i}' for i in range(max(deg, 1))]), gen)
    r = [(sp.S(1), [k[0]], [P])]
    if both:
        r.append((gen, [k[1]], [Q]))
    return r


def assemble_task(mults, degs, raw, algebraic):
    def body(run):
        m = mod(UN)
        lc = params(run, ['lc'])[0]
        nonzero(run, lc)
        proofs, factors = {}, []
        target = lc
        for k, (mu, d) in enumerate(zip(mults, degs)):
            pr = fresh_proof(run, f'f{k}', d, both=k == 0 or mu == 3)
            F = sp.Poly(raw_value(pr), x) if mu % 2 else upoly(params(run, [f'e{k}{i}' for i in range(d + 2)]))
            proofs[F] = pr
            factors.append((F, mu))
            target = target * F.as_expr()**mu

        def prove(f, early_stop=-1, n=15):
            assert f in proofs
            return None if run.decide(2, 'factor') else [(mm, list(c), list(p)) for mm, c, p in proofs[f]]

        def reduce(c, p, x=None):
            # contract of _reduce_sos: the same weighted sum of squares, coefficients >= 0
            if not c:
                return [], []
            return list(c[::-1]), list(p[::-1])
        with patched(m, _standardize_poly=lambda p: p, _prove_univariate_irreducible=prove, _reduce_sos=reduce):
            r = m.prove_univariate(FakePoly(x, lc, factors, algebraic), return_raw=raw)
        if r is None:
            return []
        if raw:
            return [('true', 'two multipliers 1 and x', [t[0] for t in r] == [1, x])] + raw_obs(r, target, (1, x))
        return [('eq', 'proof == polynomial', r, target)]
    return FnTask(f'prove_univariate[multiplicities {list(mults)}, {"raw" if raw else "expression"}{", sqf_list" if algebraic else ""}]', body, None, must_return=True, key=(UN, 'prove_univariate'))


def assume_zero(run, e):
    n, d = run.ring.conv(sp.sympify(e))
    run.add_equality(n)


def contract_proof(run, f, gen, tmpl):
    """contract of a univariate prover on f: None, or a proof that is f.  `tmpl` is the expected shape of the proof (the input was
    built from it): used directly when f is a multiple of it, otherwise the equality is imposed on the coefficients."""
    if run.decide(2, 'prover'):
        return None
    e = raw_value(tmpl)
    F, E = sp.Poly(f.as_expr(), gen), sp.Poly(e, gen)
    m = E.degree()
    s = f.as_expr().coeff(gen, m) if False else F.coeff_monomial(gen**m) / E.coeff_monomial(gen**m)
    for t in (sp.S(1), s):
        n, d = run.ring.conv(F.as_expr() - t * e)
        if run.rules.reduce(n) == 0:
            return [(mu, [t * c for c in cs], list(ps)) for mu, cs, ps in tmpl]
    for c in sp.Poly(F.as_expr() - e, gen).all_coeffs():
        assume_zero(run, c)
    return [(mu, list(cs), list(ps)) for mu, cs, ps in tmpl]


def template(run, name, gen, d1, d2, extra=()):
    """[(1, [k0], [P]), (gen, [k1], [Q])] with k >= 0 and P, Q of exactly these degrees (-1: no square)"""
    out = []
    for mu, d, c in ((sp.S(1), d1, 'p'), (gen, d2, 'q')):
        if d < 0:
            out.append((mu, [], []))
            continue
        k = params(run, [f'{name}k{c}'])[0]
        run.assume(k > 0)
        q = params(run, [f'{name}{c}{i}' for i in range(d + 1)])
        nonzero(run, q[0])
        out.append((mu, [k], [upoly(q, gen, extra)]))
    return out


def interval_task(kind, n, raw, degs):
    def body(run):
        m = mod(UN)
        A, B = params(run, ['lo', 'hi'])
        lo = {'RR': -sp.oo, 'R+': A, 'R-': -sp.oo, 'ab': A, 'N': None}[kind]
        hi = {'RR': sp.oo, 'R+': sp.oo, 'R-': B, 'ab': B, 'N': None}[kind]
        if kind == 'ab':
            run.assume(A < B)
        tmpl = template(run, '', x, *degs, extra=(A, B))
        e = raw_value(tmpl)
        if kind == 'R+':
            e = e.xreplace({x: x - A})
        elif kind == 'R-':
            e = e.xreplace({x: B - x})
        elif kind == 'ab':
            e = sum(c * (x - A)**k * (B - x)**(n - k) for (k,), c in sp.Poly(e, x).terms()) / (B - A)**n
        fs = sorted(e.free_symbols - {x} | {A, B}, key=str)
        p = sp.Poly(e, x, domain=sp.QQ.frac_field(*fs))
        if p.degree() != n:
            raise engine.Prune
        nonzero(run, p.LC())

        def prove(f, return_raw=False, early_stop=-1, n=15):
            pr = contract_proof(run, f, x, tmpl)
            return pr if pr is None or return_raw else raw_value(pr)
        with patched(m, prove_univariate=prove):
            r = m.prove_univariate_interval(p, None if kind == 'N' else (lo, hi), return_raw=raw)
        if r is None:
            return []
        if not raw:
            return [('eq', 'proof == polynomial', r, p.as_expr())]
        mu = {'RR': (1,), 'N': (1,), 'R+': (1, x - A), 'R-': (1, B - x), 'ab': (1, (x - A)*(B - x)) if n % 2 == 0 else (x - A, B - x)}[kind]
        if kind in ('RR', 'N'):
            r = [t for t in r if t[1]]
        return raw_obs(r, p.as_expr(), mu)
    nm = {'RR': '(-oo,oo)', 'N': 'None', 'R+': '(a,oo)', 'R-': '(-oo,b)', 'ab': '(a,b)'}[kind]
    return FnTask(f'prove_univariate_interval[{nm}, degree {n}, squares of degree {degs}, {"raw" if raw else "expression"}]', body, None, must_return=True, key=(UN, 'prove_univariate_interval'))


# ---------------------------------------------------------------- forms in two variables
def manifest(e, allowed):
    """obligations under which e is visibly nonnegative: sums of products of nonnegative scalars, even powers and allowed symbols.
    None when the shape is not of that kind."""
    e = sp.sympify(e)
    if e.is_Rational or engine.is_sym(e):
        return [('sign', 'coefficients >= 0', e, {0, 1})]
    if e in allowed:
        return []
    if e.is_Pow and e.exp.is_Integer:
        return [] if e.exp % 2 == 0 else manifest(e.base, allowed)
    if e.is_Add:
        rs = [manifest(t, allowed) for t in e.args]
        return None if any(r is None for r in rs) else sum(rs, [])
    if e.is_Mul:
        sc = [t for t in e.args if t.is_Rational or engine.is_sym(t)]
        rest = [t for t in e.args if t not in sc]
        rs = [manifest(t, allowed) for t in rest]
        if any(r is None for r in rs):
            return None
        return sum(rs, []) + ([('sign', 'coefficients >= 0', sp.Mul(*sc), {0, 1})] if sc else [])
    return None


def nonneg_obs(e, allowed):
    r = manifest(e, allowed)
    if r is None:
        r = manifest(sp.factor_terms(e), allowed)
    if r is None:
        engine.RUN.notes.append('shape of the certificate not recognised: ' + str(e)[:200])
        return [('unknown', 'visibly nonnegative')]
    return r


def cone_task(count, d, degs):
    """_sos_struct_bivariate_linear_ineq with `count` linear constraints on a form of degree d"""
    def body(run):
        m = mod(BI)
        E = sp.symbols('E0:3')[:count]
        ns = [tuple(params(run, [f'u{i}', f'v{i}'])) for i in range(count)]
        for n in ns:
            run.assume(n[0]**2 + n[1]**2 > 0)
        lin = [u * a + v * b for u, v in ns]
        y = sp.Symbol('y')
        if count == 0:
            X, Y, gen = b, a, a
        elif count == 1:
            (u, v), = ns
            X, Y, gen = lin[0], u * b - v * a, y
        else:
            (u, v), (w, z) = ns
            c = u * z - v * w
            if c > 0 if run is None else run.query('gt', c, sp.S(0)):
                X, Y = lin
            elif run.query('lt', c, sp.S(0)):
                Y, X = lin
            else:
                X, Y = lin[0], u * b - v * a
            gen = y
        t = template(run, '', gen, *degs, extra=[p for n in ns for p in n])
        r = sp.Poly(raw_value(t), gen)
        dd = r.degree()
        form = sp.expand(sum(cc * Y**k * X**(d - k) for (k,), cc in r.terms()))
        fs = sorted(form.free_symbols - {a, b}, key=str)
        poly = sp.Poly(form, a, b, domain=sp.QQ.frac_field(*fs))
        ineqs = {sp.Poly(l, a, b, domain=sp.QQ.frac_field(*[q for n in ns for q in n])): e for l, e in zip(lin, E)}

        def prove(f, interval=None, return_raw=False, **k):
            g = f.gen
            tt = [(mu.xreplace({gen: g}), cs, [sp.Poly(p.as_expr().xreplace({gen: g}), g, domain=p.domain) for p in ps]) for mu, cs, ps in t]
            if interval == (-sp.oo, sp.oo) and degs[1] >= 0:
                return None
            assert interval in ((-sp.oo, sp.oo), (0, sp.oo)), interval
            pr = contract_proof(run, f, g, tt)
            return pr if pr is None or return_raw else raw_value(pr)
        with patched(m, prove_univariate_interval=prove):
            s = m._sos_struct_bivariate_linear_ineq(poly, ineqs, {})
        if s is None:
            return []
        sub = dict(zip(E, lin))
        return [('eq', 'certificate == form', sp.sympify(s).xreplace(sub), form)] + nonneg_obs(s, set(E))
    return FnTask(f'_sos_struct_bivariate_linear_ineq[{count} constraints, degree {d}, squares of degree {degs}]', body, None, must_return=True, key=(BI, '_sos_struct_bivariate_linear_ineq'))


def halfspace_task(count):
    def body(run):
        m = mod(BI)
        ns = [tuple(params(run, [f'u{i}', f'v{i}'])) for i in range(count)]
        hs = m.HalfspaceIntersection2D()
        for i, n in enumerate(ns):
            run.assume(n[0]**2 + n[1]**2 > 0)
            hs.add(n, f'E{i}')
        bd = list(hs.as_bounds())
        lab = {f'E{i}': n for i, n in enumerate(ns)}
        obs = [('true', 'each bound is a given constraint with its own label', all(lab.get(e) == n for n, e in bd)), ('true', 'at most two bounds', len(bd) <= 2),
               ('true', 'no bound is lost', len(bd) >= min(1, count))]
        if hs.degenerated:
            return obs
        cr = lambda p, q: p[0] * q[1] - p[1] * q[0]
        dt = lambda p, q: p[0] * q[0] + p[1] * q[1]
        if len(bd) == 2:
            obs += [('sign', 'the bounds are in counter-clockwise order', cr(bd[0][0], bd[1][0]), {0, 1})]
        if len(bd) == 1:
            for n in ns:
                obs += [('eq', 'all constraints are parallel to the only bound', cr(bd[0][0], n), 0), ('sign', 'same direction', dt(bd[0][0], n), {1})]
        return obs
    return FnTask(f'HalfspaceIntersection2D[{count} constraints]', body, None, must_return=True, key=(BI, 'HalfspaceIntersection2D'))


def factors_task(mults):
    def body(run):
        m = mod(BI)
        sg = params(run, ['sg'])[0]
        nonzero(run, sg)
        F = [sp.Poly(sum(q * g for q, g in zip(params(run, [f'{k}x', f'{k}y']), (a, b))), a, b) for k in 'fgh'[:len(mults)]]
        poly = type('P', (), {'factor_list': lambda self: (sg, list(zip(F, mults))), 'gens': (a, b)})()
        rec = {}

        def solver(p, i, e):
            if run.decide(2, 'solver'):
                return None
            s = sp.Symbol(f'S{len(rec)}')
            rec[s] = p.as_expr()
            return s
        with patched(m, _sos_struct_bivariate_linear_ineq=solver):
            r = m.structural_sos_2vars(poly, {}, {})
        if r is None:
            return []
        r = sp.sympify(r)
        return [('eq', 'product of the factors', r.xreplace(rec), sg * sp.Mul(*(f.as_expr()**k for f, k in zip(F, mults))))] + nonneg_obs(r, set(rec))
    return FnTask(f'structural_sos_2vars[multiplicities {list(mults)}]', body, None, must_return=True, key=(BI, 'structural_sos_2vars'))


def tasks(thorough):
    ts = [simple_task(d) for d in (0, 1, 2)]
    ts += [diag_task(n, 0) for n in range(1, 12)] + [diag_task(n, 1) for n in range(1, 10)] + [diag_task(n, 2) for n in range(2, 11)]
    ts += [from_us_task(n) for n in (1, 2, 3, 4)]
    ts += [reduce_task(d) for d in ((0,), (1,), (1, 1), (2,), (2, 1), (1, 2), (0, 2), (2, 2, 1), (3,))]
    ts += [irreducible_task(d) for d in (3, 4, 5, 6)]
    ts += [assemble_task(m, d, raw, alg) for m, d in (((1,), (1,)), ((2,), (1,)), ((3,), (1,)), ((4,), (1,)), ((1, 1), (1, 1)), ((1, 2), (1, 1)), ((3, 2), (1, 1)), ((2, 1), (1, 2)), ((2, 2), (1, 1)), ((), ()))
           for raw in (True, False) for alg in (False, True)]
    ts += [interval_task(k, n, raw, degs) for k in ('R+', 'R-', 'ab') for n, degs in ((1, (0, 0)), (2, (1, 0)), (2, (1, -1)), (2, (0, 0)), (3, (1, 1)), (3, (0, 1)), (3, (1, 0)), (4, (2, 1)), (4, (1, 1)), (4, (2, 0)), (5, (2, 2)), (6, (3, 2))) if k == 'ab' or n == max(2*degs[0], 2*degs[1]+1) for raw in (True, False)]
    ts += [interval_task(k, n, raw, (n // 2, d2)) for k in ('N', 'RR') for n in (2, 4) for raw in (True, False) for d2 in (-1, 0)]
    ts += [halfspace_task(n) for n in (0, 1, 2, 3)]
    ts += [factors_task(m) for m in ((1,), (2,), (3,), (1, 1), (1, 2), (3, 1), (2, 2), (1, 1, 1), (3, 2, 1))]
    ts += [cone_task(0, d, (d // 2, -1)) for d in (2, 4)] + [cone_task(1, d, (k, -1)) for d, k in ((1, 0), (2, 1), (2, 0), (3, 1), (3, 0), (4, 2), (4, 1), (5, 2))]
    ts += [cone_task(2, d, k) for d, k in ((1, (0, 0)), (2, (1, 0)), (2, (0, 0)), (2, (1, -1)), (3, (1, -1)), (3, (1, 1)), (3, (0, 1)), (3, (1, 0)), (4, (2, 1)), (4, (1, 1)))]
    return ts


# ---------------------------------------------------------------- concrete stand-ins
@oracle
def udiag(coeffs, *mats):
    """the real _determine_diagonal_entries on rational matrices"""
    m = mod(UN)
    S = lambda L: sp.Matrix([[sp.sympify(e) for e in row] for row in L])
    cs = [sp.sympify(c) for c in coeffs]
    p, Ms = sp.Poly(cs, x), [S(L) for L in mats]
    call = f'_determine_diagonal_entries({[M.tolist() for M in Ms]}, {p.as_expr()})'
    try:
        r = m._determine_diagonal_entries(Ms[0] if len(Ms) == 1 else Ms, p)
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    r = [r] if len(Ms) == 1 else r
    d = sp.expand(gram(r[0]) + (x * gram(r[1]) if len(r) > 1 else 0) - p.as_expr())
    if d != 0 or any(not M.is_symmetric() for M in r):
        return {'call': call, 'result': str(r)[:400], 'quadratic form - polynomial': str(d)[:200]}


@oracle
def uraw(coeffs):
    m = mod(UN)
    p = sp.Poly([sp.sympify(c) for c in coeffs], x)
    return uinterval(coeffs, '0', 'oo') or _uline(m, p)


def _uline(m, p):
    call = f'prove_univariate({p.as_expr()})'
    try:
        r = m.prove_univariate(p, return_raw=True)
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    return _judge(call, r, p, (sp.S(1), p.gen))


def _judge(call, r, p, mults):
    if r is None:
        return None
    v = raw_value(r)
    d = sp.expand(v - p.as_expr())
    if not sp.Poly(d, p.gen).is_zero and any(sp.simplify(c) != 0 for c in sp.Poly(d, p.gen).all_coeffs()):
        return {'call': call, 'result': str(r)[:400], 'result - polynomial': str(d)[:200]}
    if any(sp.N(c, 40) < -1e-30 for _, cs, _ in r for c in cs):
        return {'call': call, 'result': str(r)[:400], 'failure': 'negative coefficient'}
    if any(all(sp.expand(m - k) != 0 for k in mults) for m, c, _ in r if c):
        return {'call': call, 'result': str(r)[:400], 'failure': f'multiplier outside {mults}'}


@oracle
def uinterval(coeffs, lo, hi):
    m = mod(UN)
    p = sp.Poly([sp.sympify(c) for c in coeffs], x)
    if p.is_zero:
        return None
    lo, hi = sp.sympify(lo), sp.sympify(hi)
    call = f'prove_univariate_interval({p.as_expr()}, ({lo}, {hi}))'
    try:
        r = m.prove_univariate_interval(p, (lo, hi), return_raw=True)
        e = m.prove_univariate_interval(p, (lo, hi), return_raw=False)
    except Exception as ex:
        return {'call': call, 'raises': repr(ex)[:300]}
    if r is None:
        return None
    inf = [not lo.is_finite, not hi.is_finite]
    mu = (1,) if all(inf) else (1, x - lo) if inf[1] else (1, hi - x) if inf[0] else (1, sp.expand((x - lo)*(hi - x))) if p.degree() % 2 == 0 else (x - lo, hi - x)
    if e is not None and sp.simplify(sp.expand(e - raw_value(r))) != 0:
        return {'call': call, 'raw': str(r)[:300], 'expression': str(e)[:300], 'failure': 'different values'}
    return _judge(call, r, p, mu)


def cases(seed, count):
    rng = random.Random(seed)
    cs = []
    R = lambda: rng.randint(-9, 9)
    for k in range(1, 5):
        for c1 in (2, 5, 9, 14, 18, 23, 29):
            cs.append(('uraw', [['1', str(-2*k), str(c1), str(rng.choice((1, 2)))]]))
    for i in range(count):
        d = rng.randint(1, 5)
        def sq(g):
            return sum(rng.choice((0, 1, 1, 2)) * sp.Rational(1, rng.choice((1, 1, 2, 3))) * sum(R() * g**j for j in range(rng.randint(1, 3)))**2 for _ in range(rng.randint(1, 2)))
        k = i % 8
        if k == 0:
            e = sq(x) + x * sq(x)
            lo, hi = '0', 'oo'
        elif k == 1:
            e = sq(x) + (x - 2) * (5 - x) * sq(x)
            lo, hi = '2', '5'
        elif k == 2:
            e = (sq(x) + x * sq(x)) * (x**2 - R() * x + 20)**rng.randint(1, 3) * rng.choice((1, 7, sp.Rational(3, 5)))
            lo, hi = '0', 'oo'
        elif k == 3:
            e = sq(x) + sp.Rational(1, 10**rng.randint(0, 9))
            lo, hi = '-oo', 'oo'
        elif k == 4:
            e = sum(R() * x**j for j in range(d + 1)) + 5
            lo, hi = rng.choice((('-oo', '3'), ('-1/2', '2'), ('0', 'oo'), ('-3', '-1')))
        elif k == 5:
            e = (x - 1)**2 * (x + rng.randint(0, 5)) * (x**2 - R()*x + 30)
            lo, hi = rng.choice((('0', 'oo'), ('0', '7')))
        elif k == 6:
            e = (x**2 - 2*rng.randint(1, 4)*x + rng.randint(2, 30)) * (x + sp.Rational(rng.randint(0, 9), rng.choice((1, 5, 20)))) + rng.choice((0, 1))
            lo, hi = '0', 'oo'
        else:
            e = (rng.randint(1, 9) * 10**rng.randint(1, 18) + rng.randint(0, 9)) * x**3 - R() * x**2 + rng.randint(1, 90) * x + rng.randint(1, 90)
            lo, hi = '0', 'oo'
        p = sp.Poly(e, x)
        if p.is_zero:
            continue
        co = [str(c) for c in p.all_coeffs()]
        cs.append(('uraw', [co]) if i % 3 == 0 and (lo, hi) == ('0', 'oo') else ('uinterval', [co, lo, hi]))
    cons = [[], ['a'], ['a', 'b'], ['a-b', 'b'], ['2*a', 'b/3'], ['a', '-a'], ['a-b', 'b-a'], ['b', 'a', 'a+b'], ['2*a-b', 'a+3*b', '5*b-a'], ['a+2*b', '-a-2*b', 'b'], ['sqrt(2)*a-b', 'b'], ['a', 'a*b']]
    for i in range(count // 2):
        c = cons[i % len(cons)]
        lin = [k for k in c if '*b' not in k or k != 'a*b'] or ['1']
        f = lambda: rng.choice(lin + ['1', f'(a-({R()})*b)**2', f'({R()}*a+{R()}*b)**2'])
        e = '+'.join(f'{rng.choice((1, 2, 3))}*({f()})*(({R()})*a+({R()})*b)**2' for _ in range(2))
        if i % 3 == 0:
            e = f'({rng.choice(lin)})*(a**2-{rng.randint(0, 3)}*a*b+{rng.randint(1, 5)}*b**2)*(a-b)**{rng.choice((0, 2))}'
        cs.append(('named', [e, 'ab', [k for k in c if 'sqrt' not in k] if False else c]))
    rng.shuffle(cs)
    return [{'oracle': o, 'args': k} for o, k in cs]


def c06(rep, tier, seed):
    from . import soscheck
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), soscheck.setup, 60, cases(seed, 200 if not th else 6000), 25,
                  ['congruence returns None or a factorisation, and succeeds on positive semidefinite matrices (own check)',
                   'root finding, root classification and rounding (nroots, _classify_roots, _construct_matrix_from_roots, _rationalize_matrix_simultaneously) may return anything (matrices of the right sizes, symmetric)',
                   'Poly.factor_list/sqf_list/transform/shift of SymPy', 'degrees: quadratic leaves, Gram matrices up to 11x11, irreducible factors of degree 3-6, up to 3 factors, intervals up to degree 6, cones with up to 2 constraints and forms up to degree 5'],
                  path_limit=20, case_limit=12)
