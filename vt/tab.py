"""Tables of coefficients: vectors of orbit coefficients, Coeff dictionaries and elementary symmetric forms represent the same polynomial."""
import importlib, itertools, random
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup, AlternatingGroup
from . import fncheck, engine
from .fncheck import FnTask, params
from .linalg import nonzero
from .oracles import oracle

MO = 'triples.utils.monomials'
CO = 'triples.utils.expression.coeff'
PQ = 'triples.utils.expression.pqr'
PT = 'triples.utils.polytools'
GENS = sp.symbols('a b c d e')


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


def group(n, kind):
    if kind == 'none':
        return None
    if kind in ('cyc', 'sym', 'alt'):
        return {'cyc': CyclicGroup, 'sym': SymmetricGroup, 'alt': AlternatingGroup}[kind](n)
    return PermutationGroup([Permutation(list(q)) for q in kind])


def perms(n, kind):
    """elements of the group, closed here"""
    from .cyc import elements
    G = group(n, kind)
    return [tuple(range(n))] if G is None else elements(tuple(tuple(p.array_form) for p in G.generators))


def monomials(n, deg, hom):
    for m in itertools.product(range(deg + 1), repeat=n):
        if sum(m) == deg or (not hom and sum(m) < deg):
            yield m


def act(p, m):
    """exponents after replacing gens[i] by gens[p[i]], or its inverse; groups contain both"""
    return tuple(m[i] for i in p)


def orbits(n, deg, kind, hom):
    P = perms(n, kind)
    seen, out = set(), []
    for m in monomials(n, deg, hom):
        if m not in seen:
            o = {act(p, m) for p in P}
            seen |= o
            out.append(o)
    return out


def poly_of(terms, n):
    return sp.Add(*[v * sp.Mul(*[g**k for g, k in zip(GENS, m)]) for m, v in terms.items()])


def coeffs_of(e, n, extra=()):
    """coefficients of an expression in the first n generators, computed here by expansion"""
    d = {}
    for t in sp.Add.make_args(sp.expand(e)):
        m = [0] * n
        c = sp.S(1)
        for f in sp.Mul.make_args(t):
            base, k = f.as_base_exp()
            if base in GENS[:n]:
                m[GENS.index(base)] += int(k)
            else:
                c *= f
        d[tuple(m)] = d.get(tuple(m), 0) + c
    return d


KINDS = {1: ['none'], 2: ['none', 'cyc', 'sym'], 3: ['none', 'cyc', 'sym', ((1, 0, 2),), ((0, 2, 1),)],
         4: ['none', 'cyc', 'sym', 'alt', ((1, 0, 3, 2), (2, 3, 0, 1)), ((1, 2, 0, 3),), ((1, 0, 2, 3),)], 5: ['cyc', 'sym', 'none']}


def options(kind, hom, style):
    o = {} if hom else {'hom': False}
    if style == 'manager':
        return dict(symmetry=mod(MO).MonomialManager(1, None)) if False else o | {'symmetry': kind}
    return o


def call_options(n, kind, hom):
    o = {'hom': hom}
    if kind == 'cyc':
        o['cyc'] = True
    elif kind == 'sym':
        o['sym'] = True
    elif kind != 'none':
        o['symmetry'] = group(n, kind)
    return o


def table_task(n, deg, kind, hom):
    """the table of monomials holds exactly one monomial of every orbit, and standard forms agree on an orbit"""
    def body(run):
        M = mod(MO)
        opt = call_options(n, kind, hom)
        d, inv = M.generate_monoms(n, deg, **opt)
        orbs = orbits(n, deg, kind, hom)
        obs = [('true', 'one monomial of every orbit', len(inv) == len(orbs) and all(sum(m in o for m in inv) == 1 for o in orbs)),
               ('true', 'indices and list agree', d == {m: i for i, m in enumerate(inv)})]
        mm = M.MonomialManager(n, group(n, kind), is_homogeneous=hom)
        for o in orbs:
            std = {mm.standard_monom(m) for m in o}
            obs.append(('true', 'standard form is constant on an orbit and in the table', len(std) == 1 and std <= set(inv) and std <= o))
            if hom:
                obs.append(('true', 'index', {mm.index(m) for m in o} == {d[std.copy().pop()]}))
        obs.append(('true', 'length and order', mm.length(deg) == len(orbs) and mm.order() == len(perms(n, kind))))
        base = mm.base()
        obs.append(('true', 'base forgets the group', base.is_trivial and set(base.inv_monoms(deg)) == set(monomials(n, deg, hom))))
        return obs
    return FnTask(f'monomial table[{n} variables, degree {deg}, group {kind}, homogeneous {hom}]', body, None, must_return=True, key=(MO, 'MonomialManager'))


def vector_task(n, deg, kind, hom, dense):
    def body(run):
        M = mod(MO)
        opt = call_options(n, kind, hom)
        rng = random.Random(f'{n}{deg}{kind}{hom}{dense}')
        orbs = orbits(n, deg, kind, hom)
        gens = GENS[:n]
        P = perms(n, kind)
        # an arbitrary polynomial
        ms = list(monomials(n, deg, hom))
        use = ms if dense else rng.sample(ms, min(len(ms), 4))
        if not any(sum(m) == deg for m in use):
            use[0] = rng.choice([m for m in ms if sum(m) == deg])
        ks = params(run, [f'k{i}' for i in range(len(use))])
        for k in ks:
            nonzero(run, k)
        e = poly_of(dict(zip(use, ks)), n)
        run.oracle_args = [n, deg, kind if isinstance(kind, str) else [list(q) for q in kind], hom, e]
        p = sp.Poly(e, *gens, domain=sp.QQ.frac_field(*ks))
        inv = M.generate_monoms(n, deg, **opt)[1]
        tot = {}
        for m, k in zip(use, ks):
            for q in P:
                m2 = act(q, m)
                tot[m2] = tot.get(m2, 0) + k
        obs = []
        v = M.arraylize_sp(p, expand_cyc=True, **opt)
        obs.append(('true', 'length of the vector', v.shape == (len(orbs), 1) and len(inv) == len(orbs)))
        obs += [('eq', 'entry is the coefficient in the sum over the group', v[i], tot.get(m, 0)) for i, m in enumerate(inv)]
        v = M.arraylize_sp(p, **opt)
        given = dict(zip(use, ks))
        obs += [('eq', 'entry is the coefficient', v[i], given.get(m, 0)) for i, m in enumerate(inv)]
        # back: coefficients constant on orbits
        ys = params(run, [f'y{i}' for i in range(len(inv))])
        q = M.invarraylize(sp.Matrix(ys), gens, deg, **opt)
        got = coeffs_of(q.as_expr(), n)
        obs.append(('true', 'generators', q.gens == tuple(gens)))
        for o in orbs:
            y = [ys[i] for i, m in enumerate(inv) if m in o]
            obs += [('eq', 'coefficient of an orbit', got.get(m, 0), y[0]) for m in o]
        for l in (list(ys), sp.Matrix([ys])):
            obs.append(('eq', 'lists and rows', M.invarraylize(l, gens, deg, **opt).as_expr(), q.as_expr()))
        # permuted copies of a vector in the full basis
        mm = M.MonomialManager(n, group(n, kind), is_homogeneous=hom)
        full = mm.base().arraylize_sp(p)
        cols = mm.permute_vec(full, deg)
        bm = mm.base().inv_monoms(deg)
        obs.append(('true', 'one column per element of the group', cols.shape == (len(bm), len(P))))
        want = sorted(tuple(str(given.get(act(q, m), sp.S(0))) for m in bm) for q in P)
        obs.append(('true', 'columns are the permuted polynomials', sorted(tuple(str(x) for x in cols[:, j]) for j in range(cols.shape[1])) == want))
        s = mm.cyclic_sum(e, gens)
        obs.append(('eq', 'sum over the group', s, sp.Add(*[e.xreplace({gens[i]: gens[q[i]] for i in range(n)}) for q in P])))
        return obs
    return FnTask(f'coefficient vectors[{n} variables, degree {deg}, group {kind}, homogeneous {hom}, {"all" if dense else "some"} terms]', body, 'vectors', must_return=True, key=(MO, 'arraylize_sp'))


@oracle
def vectors(n, deg, kind, hom, e):
    import numpy as np
    M = mod(MO)
    kind = kind if isinstance(kind, str) else tuple(tuple(q) for q in kind)
    opt = call_options(n, kind, hom)
    gens = GENS[:n]
    e = sp.sympify(e, {str(g): g for g in gens})
    call = f'arraylize/invarraylize({e}, {n} variables, degree {deg}, group {kind}, hom={hom})'
    p = sp.Poly(e, *gens)
    if p.is_zero or p.total_degree() != deg:
        return None
    P = perms(n, kind)
    given = coeffs_of(e, n)
    tot = {}
    for m, k in given.items():
        for q in P:
            tot[act(q, m)] = tot.get(act(q, m), 0) + k
    inv = M.generate_monoms(n, deg, **opt)[1]
    if len(inv) != len(orbits(n, deg, kind, hom)):
        return {'call': call, 'monomials': str(inv)}
    for src, flag in ((given, False), (tot, True)):
        v = M.arraylize_sp(p, expand_cyc=flag, **opt)
        w = M.arraylize_np(p, expand_cyc=flag, **opt)
        for i, m in enumerate(inv):
            x = src.get(m, 0)
            if v[i] != x or abs(float(x) - w[i]) > 1e-9 * (1 + abs(float(x))):
                return {'call': call, 'expand_cyc': flag, 'monomial': str(m), 'got': [str(v[i]), str(w[i])], 'expected': str(x)}
    s = sp.Poly(poly_of(tot, n), *gens)
    if not s.is_zero and s.total_degree() == deg:
        r = M.invarraylize(M.arraylize_sp(s, **opt), gens, deg, **opt)
        if sp.expand(r.as_expr() - s.as_expr()) != 0:
            return {'call': call, 'round trip of the symmetric sum': str(r.as_expr()), 'expected': str(s.as_expr())}


# ---------------------------------------------------------------- Coeff
def coeff_task(n, deg, hom, seed):
    def body(run):
        C = mod(CO).Coeff
        rng = random.Random(f'{n}{deg}{hom}{seed}')
        gens = GENS[:n]
        ms = list(monomials(n, deg, hom))
        A = rng.sample(ms, min(len(ms), 5))
        B = rng.sample(ms, min(len(ms), 4))
        ka, kb = params(run, [f'k{i}' for i in range(len(A))]), params(run, [f'h{i}' for i in range(len(B))])
        for k in ka + kb:
            nonzero(run, k)
        eA, eB = poly_of(dict(zip(A, ka)), n), poly_of(dict(zip(B, kb)), n)
        dom = sp.QQ.frac_field(*(ka + kb))
        run.oracle_args = [n, eA, eB]
        a, b = C(sp.Poly(eA, *gens, domain=dom)), C(sp.Poly(eB, *gens, domain=dom))
        obs = []
        for m in ms:
            obs.append(('eq', 'coefficient', a(*m), dict(zip(A, ka)).get(m, 0)))
            obs.append(('eq', 'coefficient by tuple', a(list(m)), dict(zip(A, ka)).get(m, 0)))
        ev = lambda co: poly_of(co.coeffs, n)
        obs += [('eq', 'sum', ev(a + b), eA + eB), ('eq', 'difference', ev(a - b), eA - eB), ('eq', 'polynomial', a.as_poly(*gens).as_expr(), eA), ('eq', 'polynomial, list of variables', a.as_poly(gens).as_expr(), eA),
                ('eq', 'value at ones', a.poly111(), sp.Add(*ka)), ('true', 'operands unchanged', a.coeffs == dict(a.coeffs) and len(a) == len(A))]
        obs.append(('true', 'no entry that vanishes', all(v != 0 for v in (a + b).coeffs.values())))
        obs.append(('true', 'degree', a.total_degree() == max(map(sum, A)) and a.is_homogeneous() == (len(set(map(sum, A))) == 1) and (not hom or a.degree() == deg)))
        t, r = a.cancel_abc()
        obs.append(('eq', 'common monomial', ev(r) * sp.Mul(*[g**i for g, i in zip(gens, t)]), eA))
        if hom:
            obs.append(('true', 'largest common monomial', all(t[i] == min(m[i] for m in A) for i in range(n))))
        import math
        kk, r = a.cancel_k()
        back = ev(r).xreplace({g: g**kk for g in gens}) if kk > 1 else ev(r)
        obs.append(('eq', 'common exponent', back, eA))
        obs.append(('true', 'largest common exponent', kk == math.gcd(*[i for m in A for i in m])))
        if n == 3:
            obs.append(('eq', 'reflection', ev(a.reflect()), eA.xreplace({gens[0]: gens[1], gens[1]: gens[0]})))
        z = a - a
        obs.append(('true', 'zero', z.is_zero and z.is_homogeneous() and z.degree() == 0))
        a.clear_zero()
        obs.append(('eq', 'clearing zeros', ev(a), eA))
        return obs
    return FnTask(f'Coeff[{n} variables, degree {deg}, homogeneous {hom}, terms {seed}]', body, 'coeff', must_return=True, key=(CO, 'Coeff'))


@oracle
def coeff(n, eA, eB):
    C = mod(CO).Coeff
    gens = GENS[:n]
    loc = {str(g): g for g in gens}
    eA, eB = sp.sympify(eA, loc), sp.sympify(eB, loc)
    call = f'Coeff({eA}), Coeff({eB})'
    pA, pB = sp.Poly(eA, *gens), sp.Poly(eB, *gens)
    if pA.is_zero or pB.is_zero:
        return None
    a, b = C(pA), C(pB)
    ev = lambda co: poly_of(co.coeffs, n)
    t, r = a.cancel_abc()
    k, r2 = a.cancel_k()
    for name, got, want in (('sum', ev(a + b), eA + eB), ('difference', ev(a - b), eA - eB), ('twice', ev(a + a), 2 * eA), ('polynomial', a.as_poly(*gens).as_expr(), eA), ('cancel_abc', ev(r) * sp.Mul(*[g**i for g, i in zip(gens, t)]), eA),
                            ('cancel_k', ev(r2).xreplace({g: g**k for g in gens}) if k > 1 else ev(r2), eA), ('poly111', a.poly111(), eA.xreplace({g: sp.S(1) for g in gens}))):
        if sp.expand(got - want) != 0:
            return {'call': call, 'operation': name, 'got': str(got), 'expected': str(want)}
    for m, v in coeffs_of(eA, n).items():
        if a(m) != v:
            return {'call': call, 'coefficient of': str(m), 'got': str(a(m)), 'expected': str(v)}
    if n == 3 and sp.expand(ev(a.reflect()) - eA.xreplace({gens[0]: gens[1], gens[1]: gens[0]})) != 0:
        return {'call': call, 'reflect': str(ev(a.reflect()))}
    for kind in KINDS[n]:
        inv = all(sp.expand(eA.xreplace({gens[i]: gens[q[i]] for i in range(n)}) - eA) == 0 for q in perms(n, kind))
        G = group(n, kind)
        if G is not None and bool(a.is_symmetric(G)) != inv:
            return {'call': call, 'is_symmetric under': str(kind), 'got': a.is_symmetric(G), 'expected': inv}
    G = mod(CO).identify_symmetry(pA)
    for q in G.elements:
        if sp.expand(eA.xreplace({gens[i]: gens[q(i)] for i in range(n)}) - eA) != 0:
            return {'call': f'identify_symmetry({eA})', 'permutation': str(q.array_form), 'problem': 'does not leave the polynomial invariant'}
    if n == 3:
        hom, cy = mod(PT).verify_hom_cyclic(pA)
        true = (pA.is_homogeneous, sp.expand(eA.xreplace(dict(zip(gens, gens[1:] + gens[:1]))) - eA) == 0)
        if (bool(hom), bool(hom and cy)) != (true[0], true[0] and true[1]):
            return {'call': f'verify_hom_cyclic({eA})', 'got': [bool(hom), bool(cy)], 'expected': list(true)}
        if true == (True, True):
            s = bool(mod(PT).verify_is_symmetric(pA))
            if s != (sp.expand(eA.xreplace({gens[0]: gens[1], gens[1]: gens[0]}) - eA) == 0):
                return {'call': f'verify_is_symmetric({eA})', 'got': s}


def symmetry_task(n, deg, kind, use, seed):
    """is_cyclic / is_symmetric hold exactly when the coefficients agree on orbits"""
    def body(run):
        C = mod(CO).Coeff
        rng = random.Random(f'{n}{deg}{kind}{use}{seed}')
        orbs = orbits(n, deg, kind, True)
        chosen = rng.sample(orbs, min(len(orbs), use))
        terms = {}
        for o in chosen:
            for m in sorted(o):
                terms[m] = None
        ms = sorted(terms)
        if len(ms) > 9:
            ms = ms[:9]
        ks = params(run, [f'k{i}' for i in range(len(ms))])
        for k in ks:
            nonzero(run, k)
        run.oracle_args = [n, poly_of(dict(zip(ms, ks)), n), GENS[0]]
        co = C(dict(zip(ms, ks)))
        G = group(n, kind)
        r = co.is_cyclic() if kind == 'cyc' else co.is_symmetric() if kind == 'sym' else co.is_cyclic(G)
        given = dict(zip(ms, ks))
        P = perms(n, kind)
        pairs = [(k, given.get(act(q, m), sp.S(0))) for m, k in given.items() for q in P]
        pairs = [(x, y) for x, y in pairs if x is not y]
        if r:
            return [('eq', 'answer True: invariant coefficients', x, y) for x, y in pairs]
        return [('infeasible', 'answer False: not all coefficients agree', [(x - y, {0}) for x, y in set(pairs)])]
    return FnTask(f'Coeff.is_symmetric[{n} variables, degree {deg}, group {kind}, {use} orbits {seed}]', body, 'coeff', must_return=True, key=(CO, 'Coeff.is_cyclic'))


def identify_task(n, deg, seed, homogenizer):
    def body(run):
        I = mod(CO).identify_symmetry
        rng = random.Random(f'{n}{deg}{seed}{homogenizer}')
        orbs = orbits(n, deg, rng.choice(KINDS[n]), True)
        ms = sorted(set().union(*rng.sample(orbs, min(len(orbs), 2))))[:6]
        ks = params(run, [f'k{i}' for i in range(len(ms))])
        for k in ks:
            nonzero(run, k)
        e = poly_of(dict(zip(ms, ks)), n)
        run.oracle_args = [n, e, GENS[0]]
        gens = GENS[:n]
        G = I(sp.Poly(e, *gens, domain=sp.QQ.frac_field(*ks)), homogenizer=gens[-1] if homogenizer else None)
        return [('true', 'degree of the group', G.degree == n)] + [('eq', 'polynomial is invariant under the group', e.xreplace({gens[i]: gens[q(i)] for i in range(n)}), e) for q in G.generators]
    return FnTask(f'identify_symmetry[{n} variables, degree {deg}, terms {seed}, homogenizer {homogenizer}]', body, 'coeff', must_return=True, key=(CO, 'identify_symmetry'))


# ---------------------------------------------------------------- elementary symmetric polynomials
def elementary(n):
    return [sp.Add(*[sp.Mul(*s) for s in itertools.combinations(GENS[:n], k)]) for k in range(1, n + 1)]


def pqr_task(n, deg, style, hom=True):
    def body(run):
        Q = mod(PQ)
        gens = GENS[:n]
        kind = 'sym' if style != 'cyc' else 'cyc'
        orbs = orbits(n, deg, kind, hom)
        ks = params(run, [f'k{i}' for i in range(len(orbs))])
        for k in ks:
            nonzero(run, k)
        e = sp.Add(*[k * poly_of({m: 1 for m in o}, n) for k, o in zip(ks, orbs)])
        run.oracle_args = [n, e, style]
        p = sp.Poly(e, *gens, domain=sp.QQ[tuple(ks)])
        syms = sp.symbols(f's1:{n + 1}') if style != 'default' else sp.symbols('p q r')
        back = dict(zip(syms, elementary(n)))
        if style == 'cyc':
            f, g = Q.pqr_cyc(p, syms)
            a, b, c = gens
            obs = [('eq', 'f + (a-b)(b-c)(c-a) g == polynomial', f.xreplace(back) + (a - b) * (b - c) * (c - a) * g.xreplace(back), e)]
            left = (f.free_symbols | g.free_symbols) - set(syms) - set(ks)
        else:
            f = Q.pqr_sym(p, None if style == 'default' else syms)
            obs = [('eq', 'f(elementary symmetric polynomials) == polynomial', f.xreplace(back), e)]
            left = f.free_symbols - set(syms) - set(ks)
        return obs + [('true', 'only the new symbols', not left)]
    return FnTask(f'pqr[{n} variables, degree {deg}, {style}, homogeneous {hom}]', body, 'pqr', must_return=True, key=(PQ, 'pqr_sym'))


@oracle
def pqr(n, e, style):
    Q = mod(PQ)
    gens = GENS[:n]
    e = sp.sympify(e, {str(g): g for g in gens})
    syms = sp.symbols(f's1:{n + 1}') if style != 'default' else sp.symbols('p q r')
    back = dict(zip(syms, elementary(n)))
    call = f'pqr_{"cyc" if style == "cyc" else "sym"}({e}, {gens})'
    p = sp.Poly(e, *gens)
    if p.is_zero:
        return None
    inv = all(sp.expand(e.xreplace({gens[i]: gens[q[i]] for i in range(n)}) - e) == 0 for q in perms(n, 'cyc' if style == 'cyc' else 'sym'))
    try:
        r = Q.pqr_cyc(p, syms) if style == 'cyc' else Q.pqr_sym(p, None if style == 'default' else syms)
    except Exception as x:
        return None if isinstance(x, ValueError) and not inv else {'call': call, 'raises': repr(x)}
    if not inv:
        return {'call': call, 'returns': str(r), 'problem': 'the polynomial has no such symmetry'}
    a, b, c = (gens + gens)[:3]
    got = r[0].xreplace(back) + (a - b) * (b - c) * (c - a) * r[1].xreplace(back) if style == 'cyc' else r.xreplace(back)
    if sp.expand(got - e) != 0:
        return {'call': call, 'returns': str(r), 'difference': str(sp.factor(got - e))}


def kernel_task():
    def body(run):
        p, q, r = sp.symbols('p q r')
        a, b, c = GENS[:3]
        k = mod(PQ).pqr_ker()
        return [('eq', 'kernel is ((a-b)(b-c)(c-a))**2', k.xreplace(dict(zip((p, q, r), elementary(3)))), ((a - b) * (b - c) * (c - a))**2)]
    return FnTask('pqr_ker', body, None, must_return=True, key=(PQ, 'pqr_ker'))


def cases(seed, count):
    rng = random.Random(seed)
    cs = []
    num = lambda: rng.choice((1, 1, 2, -1, -3, sp.Rational(5, 2), sp.Rational(-1, 7), 4))
    for _ in range(count):
        n = rng.choice((2, 3, 3, 3, 4))
        deg = rng.randint(1, 5 if n < 4 else 3)
        kind = rng.choice(KINDS[n])
        hom = rng.random() < .7
        orbs = orbits(n, deg, kind, hom)
        ms = sorted(monomials(n, deg, hom))

        def some():
            t = {}
            for o in rng.sample(orbs, min(len(orbs), rng.randint(1, 4))):
                k = num()
                for m in o:
                    t[m] = k
            if rng.random() < .5:
                for m in rng.sample(ms, min(len(ms), rng.choice((1, 2)))):
                    t[m] = t.get(m, 0) + num()
            return str(poly_of(t, n))
        cs.append(('coeff', [n, some(), some()]))
        cs.append(('vectors', [n, deg, kind if isinstance(kind, str) else [list(q) for q in kind], hom, some()]))
        if n == 3 or rng.random() < .5:
            so = orbits(n, deg, 'sym' if n != 3 or rng.random() < .5 else 'cyc', hom)
            e = str(poly_of({m: k for o in rng.sample(so, min(3, len(so))) for k in (num(),) for m in o}, n)) + rng.choice(('', '', '+a', '-a*b**2'))
            cs.append(('pqr', [n, e, rng.choice(('cyc', 'default', 'sym')) if n == 3 else 'sym']))
    return [{'oracle': o, 'args': k} for o, k in cs]


def setup():
    fncheck.setup([MO, CO, PQ])()


def tasks(thorough):
    ts = [kernel_task()]
    for n in (1, 2, 3, 4, 5):
        for deg in {1: (1, 3), 2: (1, 2, 5), 3: (1, 2, 3, 4, 6), 4: (1, 2, 3, 4), 5: (2, 3)}[n]:
            for kind in KINDS[n]:
                for hom in (True, False):
                    ts.append(table_task(n, deg, kind, hom))
                    if sp.binomial(n + deg, deg) <= 40:
                        ts += [vector_task(n, deg, kind, hom, dn) for dn in ((False, True) if sp.binomial(n + deg, deg) <= 20 else (False,))]
    for n, deg in ((1, 3), (2, 3), (2, 4), (3, 2), (3, 4), (4, 2), (4, 3)):
        ts += [coeff_task(n, deg, hom, s) for hom in (True, False) for s in range(3 if not thorough else 12)]
    for n, deg in ((2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3)):
        ts += [symmetry_task(n, deg, kind, u, s) for kind in KINDS[n] if kind != 'none' for u in (1, 2) for s in range(2 if not thorough else 6)]
    for n, deg in ((2, 3), (3, 2), (3, 3), (4, 2), (4, 1)):
        ts += [identify_task(n, deg, s, h) for s in range(4 if not thorough else 12) for h in (False, True)]
    for deg in range(1, 7 if not thorough else 9):
        ts += [pqr_task(3, deg, s) for s in ('default', 'sym', 'cyc')]
    ts += [pqr_task(3, deg, s, False) for deg in (2, 3, 4) for s in ('sym', 'cyc')]
    ts += [pqr_task(2, deg, 'sym') for deg in (1, 2, 4)] + [pqr_task(4, deg, 'sym') for deg in (1, 2, 3, 4)] + [pqr_task(4, 2, 'sym', False)]
    return ts


def e01(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 40, cases(seed, 150 if not th else 8000), 20,
                  ['SymPy Poly.terms, reorder, div, symmetrize (their results enter identities that are checked)', 'numpy vectors are compared with the exact ones on the bounded cases only',
                   'variables, degrees and groups are enumerated; coefficients are arbitrary (nonzero where the table only stores nonzero entries)'],
                  path_limit=20, case_limit=20)
