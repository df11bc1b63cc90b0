"""SDPSOS: the certificate equals the polynomial whatever point the semidefinite programme returns."""
import importlib, itertools, random
import sympy as sp
from . import fncheck, sos, engine, cert, lin
from .fncheck import FnTask, params
from .linalg import patched, nonzero
from .cyc import value
from .lin import names_for, honest, STYLES, sym_sum
from .tab import group, orbits, monomials, poly_of, GENS
from .oracles import oracle, Declined

D = 'triples.core.sdpsos.'


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


PROBLEMS = lin.PROBLEMS + [
    ('abc', 'a**4+b**4+c**4+2*a**2*b**2+2*b**2*c**2+2*c**2*a**2-3*a**3*b-3*b**3*c-3*c**3*a', [], []),
    ('abc', 'a*b**2+b*c**2+c*a**2-3*a*b*c', ['a', 'b', 'c'], []),
    ('abc', 'a**3*b+b**3*c+c**3*a-a*b*c*(a+b+c)', ['a', 'b', 'c'], []),
    ('ab', 'a**4-2*a**2*b+b**2+a**2', [], []),
    ('abc', 'a**2+b**2+c**2-1', [], ['a+b+c-1', 'a-b']),
    ('abc', 'a*b+b*c+c*a', ['a', 'b', 'c'], ['a**2+b**2+c**2-3']),
    ('ab', 'a**3+b**3', ['a', 'b', '2-a-b'], []),
    ('abcd', 'a**4+b**4+c**4+d**4-4*a*b*c*d', [], []),
    ('a', 'a**4-a**3-a+1', [], []),
]


def split(M):
    """U, S with U.T*diag(S)*U == M for every symmetric M (S without sign condition)"""
    n = M.shape[0]
    rows, S = [], []
    for i in range(n):
        rows.append([int(k == i) for k in range(n)])
        S.append(M[i, i] - sp.Add(*[M[i, j] for j in range(n) if j != i]))
        for j in range(i + 1, n):
            if M[i, j] != 0:
                rows.append([int(k in (i, j)) for k in range(n)])
                S.append(M[i, j])
    return sp.Matrix(rows), sp.Matrix(S)


def certificate_case(i, style, skip, seed, mk, mode, most=9):
    """-> (polynomial, value of the certificate, ...) with an arbitrary point of the semidefinite programme"""
    from triples.core.sum_of_squares import sum_of_squares
    AB, DU = mod('triples.sdp.abstract'), mod('triples.sdp.dual')
    vars_, poly, ineq, eq = PROBLEMS[i]
    gens = sp.symbols(' '.join(vars_), seq=True)
    env = {str(g): g for g in gens}
    ev = lambda s: sp.sympify(s, env)
    f = ev(poly)
    I, E = names_for([ev(s) for s in ineq], 'U', style), names_for([ev(s) for s in eq], 'W', style)
    rng = random.Random(f'{i},{style},{skip},{seed},{mode}')
    hold = {'calls': 0, 'ys': [], 'asym': [], 'errors': []}

    def congruence(M, perturb=False):
        if M.shape[0] == 0 or M.shape[1] == 0:
            return sp.Matrix(), sp.Matrix()
        if mode == 'exact':
            if not M.is_square or any(sp.expand(M[r, s] - M[s, r]) != 0 for r in range(M.shape[0]) for s in range(r)):
                hold['asym'].append(str(M.tolist())[:200])
            return split(M)
        n = M.shape[0]
        r = rng.choice((1, min(2, n)))
        U = sp.Matrix(r, n, lambda p, q: rng.choice((0, 1, 1, -1, 2, sp.Rational(1, 3))))
        S = []
        for _ in range(r):
            if len(hold['ys']) < most:
                S.append(mk(len(hold['ys'])))
                hold['ys'].append(S[-1])
            else:
                S.append(rng.choice(hold['ys']))
        return U, sp.Matrix(S)

    def solve(self, *args, **kw):
        hold['calls'] += 1
        if hold['calls'] <= skip:
            return False
        try:
            child = self.get_last_child()
            n = child.dof
            free = set(rng.sample(range(n), min(n, most)))
            z = []
            for j in range(n):
                if j in free and mode == 'exact':
                    z.append(mk(len(hold['ys'])))
                    hold['ys'].append(z[-1])
                else:
                    z.append(sp.Rational(rng.randint(-4, 4), rng.choice((1, 1, 2, 3))))
            child.register_y(sp.Matrix(n, 1, z))
            hold['done'] = True
        except Exception as e:
            hold['errors'].append(repr(e)[:300])
            raise
        return True
    with patched(DU.SDPProblem, solve=solve), patched(AB, congruence_with_perturbation=congruence):
        r = sum_of_squares(sp.Poly(f, *gens), dict(I), dict(E), method_order=['SDPSOS'], configs={'SDPSOS': {'verbose': False}})
    if r is None:
        return None if not hold.get('done') or engine.RUN is not None and engine.RUN.dead else ('lost', hold)
    back = {n_: e for e, n_ in list(I.items()) + list(E.items())}
    return f, value(r.solution), I, E, back, hold, gens


def names_ok(v, gens, back, ys):
    left = v.free_symbols - set(gens) - {s for n in back for s in n.free_symbols} - set(ys)
    return not left and not [x for x in v.atoms(sp.Function) if x not in back]


def certificate_task(i, style, skip, seed, mode):
    def body(run):
        def mk(j):
            p = params(run, [f'y{j}'])[0]
            if mode != 'exact':
                run.assume(engine.hook_cmp('ge', p, 0))
            return p
        run.oracle_args = [i, style, skip, seed, mode]
        r = certificate_case(i, style, skip, seed, mk, mode)
        if r is None:
            return [('true', 'nothing returned', True)]
        if r[0] == 'lost':
            return [('true', f'a solution of the semidefinite programme becomes a certificate {r[1]["errors"]}', False)]
        f, v, I, E, back, hold, gens = r
        obs = [('true', f'symmetric matrices {hold["asym"][:1]}', not hold['asym']), ('true', 'only given names', names_ok(v, gens, back, hold['ys']))]
        if mode == 'exact':
            obs.append(('eq', 'certificate == polynomial', sp.together(v.xreplace(back)), f))
        elif style != 'self':
            obs.append(('true', 'visibly nonnegative for nonnegative names and weights', honest(v, I, E, hold['ys'])))
        return obs
    return FnTask(f'SDPSOS[problem {i}: {PROBLEMS[i][1]}, constraints {PROBLEMS[i][2]} {PROBLEMS[i][3]}, names {style}, programme {skip}, {mode} {seed}]', body, 'sdp', must_return=True, key=(D + 'sdpsos', 'SOSProblem.as_solution'))


@oracle
def sdp(i, style, skip, seed, mode):
    rng = random.Random(seed + 77)
    call = f'SDPSOS on {PROBLEMS[i]} with names {style}, programme {skip}, {mode} point {seed}'
    try:
        r = certificate_case(i, style, skip, seed, lambda j: sp.Rational(rng.randint(-30 if mode == 'exact' else 1, 30), rng.choice((1, 2, 3, 7))), mode)
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    if r is None:
        raise Declined
    if r[0] == 'lost':
        return {'call': call, 'raises': str(r[1]['errors'])[:300] or 'the solution is lost'}
    f, v, I, E, back, hold, gens = r
    if hold['asym']:
        return {'call': call, 'matrix that is not symmetric': hold['asym'][0]}
    if not names_ok(v, gens, back, hold['ys']):
        return {'call': call, 'certificate': str(v)[:300], 'problem': 'unknown names'}
    if mode == 'exact':
        w = sp.together(v.xreplace(back))
        if sp.cancel(w - f) != 0:
            return {'call': call, 'certificate': str(v)[:300], 'difference': str(sp.factor(w - f))[:300]}
    elif style != 'self':
        v0 = v.xreplace({n: sp.S(0) for n in E.values()})
        for _ in range(60):
            pt = {x: sp.Rational(rng.randint(-9, 9), rng.choice((1, 2, 3))) for x in gens}
            w = v0.xreplace({n: sp.Rational(rng.randint(0, 12), rng.choice((1, 2))) for n in I.values()}).xreplace(pt)
            if w.is_number and w.is_finite and w < 0:
                return {'call': call, 'certificate': str(v)[:300], 'negative at': str(pt)[:300]}


# ---------------------------------------------------------------- the programme for arbitrary coefficients
def programme_case(n, deg, kind, ineq, eq, mk, seed, mode='exact', most=8, coeff=None):
    S = mod(D + 'sdpsos')
    AB = mod('triples.sdp.abstract')
    gens = GENS[:n]
    env = {str(g): g for g in gens}
    rng = random.Random(f'{n}{deg}{kind}{ineq}{eq}{seed}')
    orbs = orbits(n, deg, kind, True)
    chosen = rng.sample(orbs, min(len(orbs), 6))
    ks = [coeff(j) for j in range(len(chosen))]
    e = sp.Add(*[k * poly_of({m: 1 for m in o}, n) for k, o in zip(ks, chosen)])
    params_ = [k for k in ks if k.free_symbols]
    dom = sp.QQ[tuple(params_)] if params_ else sp.QQ
    p = sp.Poly(e, *gens, domain=dom)
    I = [sp.sympify(s, env) for s in ineq]
    E = [sp.sympify(s, env) for s in eq]
    NI = {sp.Poly(x, *gens): sp.Function(f'U{j}')(*gens) for j, x in enumerate(I)}
    NE = {sp.Poly(x, *gens): sp.Function(f'W{j}')(*gens) for j, x in enumerate(E)}
    hold = {'asym': [], 'ys': []}

    def congruence(M, perturb=False):
        if M.shape[0] == 0 or M.shape[1] == 0:
            return sp.Matrix(), sp.Matrix()
        return split(M)
    with patched(AB, congruence_with_perturbation=congruence):
        so = S.SOSProblem(p, group(n, kind))
        try:
            so.construct(I, E, deparametrize=False)
        except (ValueError, ArithmeticError):
            return None
        dof = so.sdp.dof
        free = set(rng.sample(range(dof), min(dof, most)))
        z = sp.Matrix(dof, 1, [mk(j) if j in free else sp.Rational(rng.randint(-3, 3), rng.choice((1, 2))) for j in range(dof)])
        sol = so.as_solution(y=z, ineq_constraints=NI, eq_constraints=NE)
    if sol is None:
        return None
    back = {v: k.as_expr() for k, v in list(NI.items()) + list(NE.items())}
    # names are functions of the variables: permute them together with their arguments
    names = {v.func: (v.args, back[v]) for v in back}

    def put(t):
        return t.xreplace({x: names[x.func][1].xreplace(dict(zip(names[x.func][0], x.args))) for x in t.atoms(sp.Function) if x.func in names})
    v = value(sol.solution)
    return e, put(v), sol, so, gens


def programme_task(n, deg, kind, ineq, eq, seed):
    def body(run):
        cnt = itertools.count()

        def coeff(j):
            return nonzero(run, params(run, [f'k{j}'])[0])

        def mk(j):
            return params(run, [f'y{j}'])[0]
        run.oracle_args = None
        r = programme_case(n, deg, kind, ineq, eq, mk, seed, coeff=coeff)
        if r is None:
            return [('true', 'declined', True)]
        e, v, sol, so, gens = r
        return [('eq', 'certificate == polynomial', sp.together(v), e), ('true', 'no unknown names', not v.atoms(sp.Function))]
    return FnTask(f'SOSProblem[{n} variables, degree {deg}, group {kind}, constraints {ineq} {eq}, terms {seed}]', body, 'programme', must_return=False, key=(D + 'sdpsos', '_form_sdp'))


@oracle
def programme(n, deg, kind, ineq, eq, seed):
    rng = random.Random(seed + 5)
    kind = kind if isinstance(kind, str) else tuple(tuple(q) for q in kind)
    num = lambda j: sp.Rational(rng.choice((1, 2, 3, -1, -2, 5)), rng.choice((1, 1, 2, 7)))
    r = programme_case(n, deg, kind, ineq, eq, num, seed, coeff=num)
    if r is None:
        raise Declined
    e, v, sol, so, gens = r
    if sp.expand(v - e) != 0:
        return {'call': f'SOSProblem({e}, {kind}).construct({ineq}, {eq})', 'certificate': str(sol.solution)[:300], 'difference': str(sp.factor(v - e))[:300]}


CONS = [(2, ['1'], []), (2, ['1', 'a*b'], []), (2, ['a', 'b'], []), (2, ['1'], ['a-b']), (3, ['1'], []), (3, ['a', 'a*b*c'], []), (3, ['1', 'a*b'], []), (3, ['1'], ['a+b+c']), (3, ['1', 'a'], ['a**2+b*c', 'a-b']),
        (3, ['a-b', 'a*b*c', 'a'], []), (4, ['1'], []), (4, ['1', 'a*b'], ['a+b+c+d']), (3, ['a**2+b**2+c**2-a*b-b*c-c*a', '1'], [])]


def decomposition_task(n, deg, kind, keys, eqs, named, seed, irr=False):
    """from_decompositions with arbitrary U, S >= 0 and multipliers of equalities"""
    def body(run):
        SD = mod(D + 'solution')
        M = mod('triples.utils.monomials').MonomialManager
        gens = GENS[:n]
        env = {str(g): g for g in gens}
        rng = random.Random(f'{n}{deg}{kind}{keys}{eqs}{seed}')
        mm = M(n, group(n, kind))
        K = [sp.Poly(sp.sympify(s, env), *gens) for s in keys]
        EQ = [sp.Poly(sp.sympify(s, env), *gens) for s in eqs]
        NI = {k: sp.Function(f'U{j}')(*gens) for j, k in enumerate(K)} if named else None
        NE = {k: sp.Function(f'W{j}')(*gens) for j, k in enumerate(EQ)} if named else None
        dec, want, ys = {}, 0, []
        from .cyc import elements
        G = group(n, kind)
        P = elements(tuple(tuple(q.array_form) for q in G.generators)) if G is not None else [tuple(range(n))]
        for j, k in enumerate(K):
            inv = M(n, None).inv_monoms((deg - k.total_degree()) // 2)
            r = rng.choice((1, 2))
            S = params(run, [f's{j}{i}' for i in range(r)])
            for s in S:
                run.assume(engine.hook_cmp('ge', s, 0))
            ys += S
            U = sp.Matrix(r, len(inv), lambda p, q: sp.Rational(rng.choice((0, 1, -1, 2, 5)), rng.choice((1, 3))))
            if rng.random() < .5:
                U[0, rng.randrange(len(inv))] = params(run, [f'u{j}'])[0]
            dec[k] = (U, sp.Matrix(S) if rng.random() < .5 else list(S))
            for i in range(r):
                v = sp.Add(*[U[i, t] * sp.Mul(*[g**q for g, q in zip(gens, m)]) for t, m in enumerate(inv)])
                want += S[i] * k.as_expr() * v**2
        ev = {}
        for j, k in enumerate(EQ):
            inv = M(n, None).inv_monoms(deg - k.total_degree())
            x = sp.Matrix([params(run, [f'x{j}{t}'])[0] if t < 4 else sp.Integer(rng.randint(-2, 2)) for t in range(len(inv))])
            ev[k] = x
            want += k.as_expr() * sp.Add(*[x[t] * sp.Mul(*[g**q for g, q in zip(gens, m)]) for t, m in enumerate(inv)])
        want = sp.Add(*[want.xreplace({gens[i]: gens[q[i]] for i in range(n)}) for q in P])
        poly = sp.Poly(gens[0]**deg, *gens)
        sol = SD.SolutionSDP.from_decompositions(poly, dec, ev, mm, ineq_constraints=NI, eq_constraints=NE)
        v = value(sol.solution)
        src = {x.func: (x.args, k.as_expr()) for d in (NI or {}, NE or {}) for k, x in d.items()}
        put = lambda t: t.xreplace({x: src[x.func][1].xreplace(dict(zip(src[x.func][0], x.args))) for x in t.atoms(sp.Function) if x.func in src})
        obs = [('eq', 'value of the certificate', put(v), want), ('true', 'no unknown names', not put(v).atoms(sp.Function))]
        if named:
            v0 = v.xreplace({x: sp.S(0) for x in v.atoms(sp.Function) if x.func in {y.func for y in NE.values()}})
            ok = lambda t: t in ys or getattr(t, 'func', None) in {y.func for y in NI.values()}
            obs.append(('true', 'visibly nonnegative for nonnegative names and weights', cert.manifest(v0, ok) or cert.manifest(sp.factor_terms(v0), ok)))
        return obs
    return FnTask(f'from_decompositions[{n} variables, degree {deg}, group {kind}, constraints {keys} {eqs}, named {named}, {seed}]', body, None, must_return=True, key=(D + 'solution', 'SolutionSDP.from_decompositions'))


@oracle
def numeric(vals):
    """_is_numer_solution flags every decomposition with an entry that is not rational"""
    SD = mod(D + 'solution')
    vals = [sp.sympify(v) for v in vals]
    M = sp.Matrix(1, len(vals), vals)
    bad = any(not v.is_Rational for v in vals)
    one = sp.Matrix([[1]])
    for dec in ({0: (M, one)}, {0: (one, M)}, {0: (one, one), 1: (M, one)}):
        if bool(SD._is_numer_solution(dec)) != bad:
            return {'call': f'_is_numer_solution({dec})', 'got': SD._is_numer_solution(dec), 'expected': bad}


FACADE = [('CYC(a**2-a*b)', 'abc', [], []), ('CYC(a**2)-2*a*b', 'abc', [], []), ('(a**2+b**2+c**2)**2-3*(a**3*b+b**3*c+c**3*a)', 'abc', [], []), ('CYC(a**3-a*b*c)', 'abc', ['a', 'b', 'c'], []), ('a**2+b**2+c**2-3', 'abc', [], ['a+b+c-3']),
          ('a**2+2*b**2+c**2-2*a*b', 'abc', ['a', 'b'], []), ('a**4+b**4+1-a**2*b-b**2-a', 'ab', [], []), ('2-a-b', 'ab', ['1-a', '1-b'], []), ('a**2-2*a+1', 'a', [], []), ('CYC(a*(a-b)*(a-c))', 'abc', ['a', 'b', 'c'], []), ('a+b-2', 'ab', ['a', 'b'], ['a*b-1'])]


def cases(seed, count):
    rng = random.Random(seed)
    cs = [('named', [f, v, I, 'SDPSOS', E]) for f, v, I, E in FACADE]
    for _ in range(count):
        cs.append(('sdp', [rng.randrange(len(PROBLEMS)), rng.choice(STYLES), rng.choice((0, 0, 1, 2)), rng.randrange(10**6), rng.choice(('exact', 'exact', 'honest'))]))
        n, I, E = rng.choice(CONS)
        kind = rng.choice(('none', 'cyc', 'sym'))
        cs.append(('programme', [n, rng.choice((2, 3, 4) if n < 4 else (2,)), kind, I, E, rng.randrange(10**6)]))
        cs.append(('numeric', [[rng.choice(('1', '0', '2/3', '1.0', 'sqrt(2)', '-5', '0.5')) for _ in range(3)]]))
    rng.shuffle(cs)
    return [{'oracle': o, 'args': k} for o, k in cs]


def setup():
    fncheck.setup([D + 'solution', D + 'sdpsos', 'triples.sdp.transform', 'triples.sdp.dual', 'triples.sdp.abstract', 'triples.sdp.arithmetic', 'triples.sdp.utils'])()


def tasks(thorough):
    ts = []
    for n, I, E in CONS:
        for deg in (2, 3, 4):
            for kind in ('none', 'cyc', 'sym') if n > 2 else ('none', 'sym'):
                if n == 4 and deg > 2:
                    continue
                deg_ok = [s for s in I if (deg - sp.Poly(sp.sympify(s), *GENS[:n]).total_degree()) % 2 == 0 and sp.Poly(sp.sympify(s), *GENS[:n]).total_degree() <= deg]
                if not deg_ok:
                    continue
                E2 = [s for s in E if sp.Poly(sp.sympify(s), *GENS[:n]).total_degree() <= deg]
                ts += [programme_task(n, deg, kind, deg_ok, E2, s) for s in range(1 if not thorough else 4)]
                ts += [decomposition_task(n, deg, kind, deg_ok, E2, nm, s) for nm in (True, False) for s in range(2)]
    ts += [certificate_task(i, s, k, q, m) for i in range(len(PROBLEMS)) for s in STYLES for k in ((0, 1, 2) if PROBLEMS[i][2] else (0,)) for q in range(3 if thorough else 1) for m in ('exact', 'honest')]
    return ts


def g02(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 60, cases(seed, 60 if not th else 3000), 25,
                  ['the semidefinite solver and its rounding: replaced by an arbitrary point of the affine space', 'congruence decomposition by its contract (D01): U.T*diag(S)*U is the matrix',
                   'real roots and null spaces (RootSubspace) may be anything: they only restrict the affine space', f'problem shapes: {len(PROBLEMS)} problems, names {STYLES}; {len(CONS)} programmes with arbitrary coefficients'],
                  path_limit=20, case_limit=20)
