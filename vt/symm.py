"""SymmetricSOS: the change of variables is exact, the pivoting proof is a proof, the certificate is honest."""
import importlib, itertools, random, sys
import sympy as sp
from . import fncheck, sos, engine, cert, cyc
from .fncheck import FnTask, params
from .linalg import patched, nonzero
from .cyc import value
from .univ import template, raw_value, nonneg_obs, upoly
from .oracles import oracle, rat_identity

Y = 'triples.core.symsos.'
SY, BA, RE, SO = Y + 'symmetric', Y + 'basic', Y + 'representation', Y + 'symsos'
a, b, c, d = ABCD = sp.symbols('a b c d')
x, y, z, w = NEW = sp.symbols('x y z w')


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


def partitions(n, k):
    """exponent vectors (weakly decreasing) of the monomial symmetric functions of degree n in k variables"""
    def rec(n, k, top):
        if k == 0:
            if n == 0:
                yield ()
            return
        for i in range(min(n, top), -1, -1):
            for r in rec(n - i, k - 1, i):
                yield (i,) + r
    return list(rec(n, k, n))


def mono_sym(e, gens):
    return sp.Add(*[sp.prod([g**i for g, i in zip(gens, p)]) for p in sorted(set(itertools.permutations(e)))])


def poly_over(e, gens, ps):
    return sp.Poly(e, *gens, domain=sp.QQ.frac_field(*ps) if ps else sp.QQ)


def generic(run_params, n, k, family=None):
    """-> (expression, parameters): every symmetric form of degree n in k variables (or a subfamily through a factor)"""
    gens = ABCD[:k]
    if family is None:
        es = partitions(n, k)
        ps = run_params([f'c{i}' for i in range(len(es))])
        return sp.Add(*[q * mono_sym(e, gens) for q, e in zip(ps, es)]), ps
    fac, m = family
    es = partitions(n - m, k)
    ps = run_params([f'c{i}' for i in range(len(es))])
    return sp.expand(fac * sp.Add(*[q * mono_sym(e, gens) for q, e in zip(ps, es)])), ps


def sums(gens):
    s1 = sp.Add(*gens)
    w_ = sp.Add(*[(p - q)**2 for p, q in itertools.combinations(gens, 2)])
    return {'p': (s1, 1), 'w': (w_, 2), 'pw': (sp.expand(s1 * w_), 3), 'w2': (sp.expand(w_**2), 4), 'p2': (sp.expand(s1**2), 2),
            'r': (sp.prod(gens), len(gens)), 'disc': (sp.expand(sp.prod([(p - q)**2 for p, q in itertools.combinations(gens, 2)])), len(gens) * (len(gens) - 1))}


# ---- four variables: everything is a function of s = a+b+c+d, e1 = u^2+v^2+t^2, e2 = u^2v^2+v^2t^2+t^2u^2 and rho = uvt, where u = a+b-c-d, v = a+c-b-d, t = a+d-b-c
s_, u_, v_, t_, e1_, e2_, rho_ = sp.symbols('s u v t e1 e2 rho')
SUB4 = dict(zip(ABCD, [(s_ + u_ + v_ + t_)/4, (s_ + u_ - v_ - t_)/4, (s_ - u_ + v_ - t_)/4, (s_ - u_ - v_ + t_)/4]))


def in_invariants(e):
    """polynomial in u, v, t (other symbols are coefficients), symmetric and unchanged when two of them change sign -> polynomial in e1, e2, rho; None otherwise"""
    even, odd = [], []
    U, V, T = sq = sp.symbols('U V T')
    for m, k in sp.Poly(e, u_, v_, t_).terms():
        par = {i % 2 for i in m}
        if len(par) != 1:
            return None
        (odd if 1 in par else even).append(k * sp.prod([q**(i // 2) for q, i in zip(sq, m)]))
    out = 0
    for part, f in ((even, 1), (odd, rho_)):
        if part:
            sy, rest, names = sp.symmetrize(sp.Poly(sp.Add(*part), *sq).as_expr(), *sq, formal=True)
            if rest != 0:
                return None
            out += f * sy.xreplace(dict(zip([n for n, _ in names], (e1_, e2_, rho_**2))))
    return out


def reduce4(e):
    """product of powers of polynomials, altogether symmetric in a, b, c, d -> the same in s, e1, e2, rho"""
    out, rest = sp.S(1), {}
    for f in sp.Mul.make_args(sp.sympify(value(e))):
        bs, ex = f.as_base_exp()
        if not bs.has(*ABCD):
            out *= f
            continue
        if bs.is_Add and not bs.is_polynomial(*ABCD):
            out *= sp.Add(*[reduce4(q) for q in bs.args])**ex
            continue
        for part, sg in zip(sp.fraction(sp.together(bs.xreplace(SUB4))), (1, -1)):
            k, fs = sp.factor_list(part)
            out *= k**(sg*ex)
            for q, m in fs:
                if not q.has(u_, v_, t_):
                    out *= q**(sg*m*ex)
                else:
                    rest[q] = rest.get(q, 0) + sg*m*ex
    groups = {}
    for q, m in rest.items():
        r = in_invariants(q)
        if r is not None:
            out *= r**m
        else:
            groups[m] = groups.get(m, 1) * q
    for m, q in groups.items():
        r = in_invariants(sp.expand(q))
        if r is not None:
            out *= r**m
            continue
        r = in_invariants(sp.expand(q**2)) if m % 2 == 0 else None
        if r is None:
            raise engine.TooHard('not a function of the invariants')
        out *= r**(m//2)
    return out


def transform_task(method, n, k, fam, return_poly):
    def body(run):
        m = mod(RE)
        run.exact_support = k == 3 and n <= 3
        gens, new = ABCD[:k], NEW[:k]
        e, ps = generic(lambda q: params(run, q), n, k, sums(gens)[fam] if fam else None)
        if run.decide(2, 'zero'):
            nonzero(run, ps[0])
        p = poly_over(e, gens, ps)
        tr = m._get_transform_from_method(method, k)
        r = tr.transform(p, list(new), return_poly=return_poly)
        inv = {q: value(v) for q, v in tr.get_inv_dict(gens, new).items()}
        if return_poly:
            num, den = r
            r = num.as_expr() / value(den)
        else:
            r = value(r)
        if k == 4:
            nm, dn = (num.as_expr(), den) if return_poly else sp.fraction(r)
            r = nm / reduce4(dn)
            inv = {q: reduce4(v) for q, v in inv.items()}
            e = in_invariants(sp.expand(e.xreplace(SUB4)))
            return [('eq', 'transformed == polynomial', r.xreplace(inv), e)]
        return [('eq', 'transformed == polynomial', r.xreplace(inv), e)]
    return FnTask(f'transform[{method}, {k} variables, degree {n}{", multiples of " + fam if fam else ""}{"" if return_poly else ", expression"}]', body, None, must_return=True, key=(SY, method + str(k)))


# ---------------------------------------------------------------- the pieces
def constraints_task(method, k):
    """the constraints added by the change of variables are true: visibly nonnegative for real (positive) values of the variables"""
    def body(run):
        m = mod(RE)
        gens, new = ABCD[:k], NEW[:k]
        tr = m._get_transform_from_method(method, k)
        ineq, eq = tr.get_default_constraints(new)
        inv = tr.get_inv_dict(gens, new)
        ok = (lambda q: q in gens) if method == 'positive' else (lambda q: False)
        obs = [('true', 'no equality is added', not eq), ('true', 'every new variable is defined', set(inv) == set(new))]
        for p, e in ineq.items():
            obs.append(('true', 'constraint and its name agree', sp.expand(p.as_expr() - e) == 0))
            v = sp.sympify(value(p.as_expr().xreplace(inv)))
            obs.append(('true', f'added constraint {e} is nonnegative', any(cert.manifest(q, ok) for q in (v, value(e.xreplace(inv))))))
        return obs
    return FnTask(f'get_default_constraints[{method}, {k} variables]', body, None, must_return=True, key=(SY, 'constraints' + method + str(k)))


def factor_task(i, deg):
    def body(run):
        m = mod(BA)
        fac, pts = [(y**2 + z, [(3, 2, -4)]), ((y - 2*x)**2 + z, [(2, 1, -9)]), (x, [(0, 1, 2)]), (x + y, []), (z, [])][i]
        ms = sorted((q for q in itertools.product(range(3), repeat=3) if sum(q) <= 2), key=str)
        rng = random.Random(i * 7 + deg)
        ms = rng.sample(ms, 3)
        ps = params(run, [f'c{j}' for j in range(len(ms))])
        run.exact_support = True
        inner = sp.Add(*[q * sp.prod([g**e for g, e in zip((x, y, z), mm)]) for q, mm in zip(ps, ms)])
        e = sp.expand(inner * fac**deg)
        n, r = m.extract_factor(poly_over(e, (x, y, z), ps), sp.Poly(fac, x, y, z, domain=sp.QQ.frac_field(*ps)), pts)
        return [('eq', 'poly == factor**degree * remainder', fac**n * r.as_expr(), e), ('true', 'the degree is a natural number', isinstance(n, int) and n >= 0)]
    return FnTask(f'extract_factor[factor {i}, power {deg}]', body, None, must_return=True, key=(BA, 'extract_factor'))


def pivot_task(nv, seed):
    def body(run):
        m = mod(BA)
        rng = random.Random(f'{nv},{seed}')
        gens = (x, y, z)[:nv]
        top = {1: 4, 2: 3, 3: 2}[nv]
        ms = [q for q in itertools.product(range(top + 1), repeat=nv) if sum(q) <= 4]
        if seed % 4 == 0:
            ms = [q for q in ms if all(i % 2 == 0 for i in q)]
        elif seed % 4 == 1 and nv == 2:
            ms = [(i, 4 - i) for i in range(5)]
        ms = rng.sample(ms, min(len(ms), 5))
        ps = params(run, [f'c{j}' for j in range(len(ms))])
        run.exact_support = True
        nonneg = {g for g in gens if rng.random() < .5}
        e = sp.Add(*[q * sp.prod([g**i for g, i in zip(gens, mm)]) for q, mm in zip(ps, ms)])
        defs = {}
        bad = []

        def two(p, ineq_constraints=None, eq_constraints=None, *a, **k):
            """contract of structural_sos_2vars: None, or something nonnegative equal to the form, where its constraints are nonnegative"""
            names = {g for g in p.gens if str(g)[0] != '_'}
            if eq_constraints or not (len(p.gens) == 2 and engine.path_poly(p).is_homogeneous):
                bad.append(p)
            for q, v in dict(ineq_constraints or {}).items():
                if q.as_expr() != v or v not in nonneg:
                    bad.append((q, v))
            if run.decide(2, 'two variables'):
                return None
            f = sp.Function(f'N{len(defs)}')
            defs[f] = (p.gens, p.as_expr())
            return f(*p.gens)
        with patched(m, structural_sos_2vars=two):
            r = m.prove_by_pivoting(poly_over(e, gens, ps), set(nonneg))
        if r is None:
            return [('true', 'only true constraints are used', not bad)]
        r = sp.sympify(r)
        back = r.replace(lambda q: q.func in defs, lambda q: defs[q.func][1].xreplace(dict(zip(defs[q.func][0], q.args))))
        atoms = {q for q in r.atoms(sp.Function) if q.func in defs}
        return [('true', 'only true constraints are used', not bad), ('eq', 'proof == polynomial', back, e)] + nonneg_obs(r, nonneg | atoms)
    return FnTask(f'prove_by_pivoting[{nv} variables, {seed}]', body, None, must_return=True, key=(BA, 'prove_by_pivoting'))


CON = ['1', 'a+b+c', 'a*b+b*c+c*a', 'a*b*c', 'a', 'a-b', '2*(a+b+c)', 'a**2+b**2+c**2-a*b-b*c-c*a', '(a+b-c)*(b+c-a)*(c+a-b)', 'a**3+b**3+c**3-3*a*b*c', '(2*a-b-c)*(2*b-c-a)*(2*c-a-b)', 'a*b', 'a**2+b**2']


def problem_task(method, seed):
    def body(run):
        m = mod(RE)
        rng = random.Random(seed)
        ic, ec = rng.sample(CON, 4), rng.sample(CON, 2)
        gens, new = (a, b, c), (x, y, z)
        e, ps = generic(lambda q: params(run, q), 2, 3)
        nonzero(run, ps[0])
        P = lambda t: sp.Poly(sp.sympify(t), *gens)
        I, E = {P(t): sp.Symbol(f'U{i}') for i, t in enumerate(ic)}, {P(t): sp.Symbol(f'W{i}') for i, t in enumerate(ec)}
        num, i2, e2, den = m.sym_transform(poly_over(e, gens, ps), dict(I), dict(E), list(new), method=method)
        tr = m._get_transform_from_method(method, 3)
        inv = {q: value(v) for q, v in tr.get_inv_dict(gens, new).items()}
        obs = [('eq', 'transformed == polynomial', num.as_expr().xreplace(inv) / value(den), e)]
        mean = {v: p.as_expr() for D in (I, E) for p, v in D.items()}
        dflt = {p: v for p, v in tr.get_default_constraints(new)[0].items()}
        for D, old, what in ((i2, I, 'inequality'), (e2, E, 'equality')):
            for p, v in D.items():
                v = sp.sympify(value(v))
                if what == 'inequality' and p in dflt and sp.expand(v - dflt[p]) == 0:
                    continue
                obs.append(('true', f'{what} comes from an {what}', v.free_symbols & set(mean) <= set(old.values())))
                obs.append(('eq', f'the new {what} is the old one times a known factor', p.as_expr().xreplace(inv), v.xreplace(mean).xreplace(inv)))
        return obs
    return FnTask(f'sym_transform[{method}, {seed}]', body, None, must_return=True, key=(RE, 'sym_transform'))


# ---------------------------------------------------------------- whole method (bounded)
FACADE = [
    ('a*(a-b)*(a-c)+b*(b-a)*(b-c)+c*(c-a)*(c-b)', 'pos'), ('a**2*(a-b)*(a-c)+b**2*(b-a)*(b-c)+c**2*(c-a)*(c-b)', 'none'),
    ('a**3+b**3+c**3-3*a*b*c', 'pos'), ('a**2+b**2+c**2-a*b-b*c-c*a', 'none'), ('(a+b+c)**2*(a**2+b**2+c**2-a*b-b*c-c*a)', 'none'),
    ('a**4+b**4+c**4-a*b*c*(a+b+c)', 'none'), ('a**4*(a-b)*(a-c)+b**4*(b-a)*(b-c)+c**4*(c-a)*(c-b)', 'none'), ('(a-b)**2*(b-c)**2*(c-a)**2', 'none'),
    ('a**3*(a-b)*(a-c)+b**3*(b-a)*(b-c)+c**3*(c-a)*(c-b)', 'pos'), ('a*b*(a+b)+b*c*(b+c)+c*a*(c+a)-6*a*b*c', 'pos'), ('a**2*b**2+b**2*c**2+c**2*a**2-a*b*c*(a+b+c)', 'none'),
    ('(a+b)*(b+c)*(c+a)-8*a*b*c', 'pos'), ('(a+b+c)*(a*b+b*c+c*a)-9*a*b*c', 'pos'), ('a**5+b**5+c**5-a*b*c*(a**2+b**2+c**2)', 'pos'),
    ('2*(a**2+b**2+c**2)-2*(a*b+b*c+c*a)', 'half'), ('-(a**2+b**2+c**2)', 'none'), ('a*b*c', 'pos'), ('a+b+c', 'pos'), ('(a+b+c)**3-27*a*b*c', 'pos'), ('a*b*c', 'none')]
CONS = {'pos': (['a', 'b', 'c'],), 'none': ([],), 'half': (['a', 'b'],), 'scaled': (['2*a', '3*b', 'c/5', 'a+b+c'],), 'powers': (['a', 'b', 'c', 'a*b*c', 'a**3'],)}


def cases(seed, count):
    rng = random.Random(seed)
    out = [('named', [f, 'abc', CONS[k][0], 'SymmetricSOS', []]) for f, k in FACADE]
    out += [('named', [f, 'abc', CONS[rng.choice(['scaled', 'powers'])][0], 'SymmetricSOS', []]) for f, k in FACADE if k == 'pos']
    for _ in range(count):
        n = rng.choice((2, 3, 3, 4, 4, 5))
        f = '+'.join(f'({rng.randint(-4, 6)})*({mono_sym(e, (a, b, c))})' for e in partitions(n, 3))
        if rng.random() < .6:
            f = f'({f})*(a**2+b**2+c**2-a*b-b*c-c*a)' if rng.random() < .5 else f'({f})**2'
        out.append(('named', [f, 'abc', CONS[rng.choice(list(CONS))][0], 'SymmetricSOS', []]))
    return [{'oracle': o, 'args': k} for o, k in out]


def setup():
    fncheck.setup([SY, BA, RE])()


def tasks(thorough):
    ts = []
    for meth in ('real', 'positive'):
        ts += [transform_task(meth, n, 3, None, True) for n in range(0, 7)]
        ts += [transform_task(meth, n, 3, None, False) for n in (2, 3, 4)]
        ts += [transform_task(meth, n, 3, f, True) for f, n in (('w', 4), ('w', 5), ('w2', 6), ('p', 4), ('p2', 5), ('pw', 6), ('r', 5), ('disc', 6), ('disc', 7))]
        ts += [problem_task(meth, q) for q in range(40 if thorough else 6)]
        if thorough:
            ts += [transform_task(meth, n, 3, f, True) for f, n in ((None, 7), (None, 8), ('w2', 8), ('pw', 7), ('disc', 9))]
    ts += [transform_task('real', n, 4, None, True) for n in range(0, 6 + thorough)]
    ts += [transform_task('real', n, 4, f, True) for f, n in (('w', 4), ('p', 4), ('w', 5), ('pw', 5))]
    ts += [constraints_task('real', 3), constraints_task('real', 4), constraints_task('positive', 3)]
    ts += [factor_task(i, n) for i in range(5) for n in range(3)]
    ts += [pivot_task(nv, q) for nv in (1, 2, 3) for q in range(60 if thorough else 12 if nv < 3 else 7)]
    return ts


def g03(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 60, cases(seed, 8 if not th else 800), 30,
                  ['structural_sos_2vars by its contract (C06)', 'sympy.symmetrize', 'three variables to degree 6 and four to degree 5 with symbolic coefficients; the support of the transformed polynomial is split completely up to degree 3',
                   'the whole method is followed on listed and random symmetric forms only (bounded); its certificates are checked exactly'], path_limit=20, case_limit=20)
