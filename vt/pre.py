"""Preparation of the problem before a solver sees it, and translation of its answer back (sanitize_input and what it calls)."""
import importlib, itertools, random, sys
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup
from . import fncheck, sos, engine
from .fncheck import FnTask, params
from .linalg import patched, nonzero
from .univ import manifest
from .cert import value
from .oracles import oracle

SH = 'triples.core.shared'
UT = 'triples.core.structsos.utils'
a, b, c, d, t = sp.symbols('a b c d t')
V = (a, b, c, d)


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


# ---------------------------------------------------------------- square-free parts
def std_task(kind, mults):
    def body(run):
        m = mod(SH)
        k = params(run, ['k'])[0]
        nonzero(run, k)
        qs = []
        for i in range(len(mults)):
            x, y = params(run, [f'x{i}', f'y{i}'])
            nonzero(run, x)
            qs.append(x * a + y * b)
        dom = sp.QQ.frac_field(*run.inputs)
        P = [sp.Poly(q, a, b, domain=dom) for q in qs]
        p = sp.Poly(k, a, b, domain=dom)
        for q, mu in zip(P, mults):
            p = p * q**mu
        E = sp.Symbol('E')
        run.oracle_args = [kind, sp.Mul(k, *[q**mu for q, mu in zip(qs, mults)])]
        with patched(m, _sqf_list=lambda f: (k, list(zip(P, mults)))):
            r, e = getattr(m, f'_std_{kind}_constraints')(p, E)
        if kind == 'ineq':
            obs = [('eq', 'name and polynomial have the same value', e.xreplace({E: p.as_expr()}), r.as_expr())]
            nn = manifest(e, {E})
            obs += nn if nn is not None else [('true', 'name is a nonnegative multiple of the given name', False)]
            odd = sp.Mul(*[q for q, mu in zip(qs, mults) if mu % 2])
            obs += [('eq', 'square factors removed', r.as_expr()**2, odd**2)]
            return obs
        D = max((1,) + tuple(mults))
        return [('eq', 'name and polynomial have the same value (up to the root)', (e**D).xreplace({E: p.as_expr()}), r.as_expr()**D),
                ('eq', 'square-free part', r.as_expr()**2, sp.Mul(*qs)**2), ('true', 'vanishes with the given name', e.xreplace({E: sp.S(0)}) == 0)]
    return FnTask(f'_std_{kind}_constraints[multiplicities {list(mults)}]', body, 'std', must_return=True, key=(SH, f'_std_{kind}_constraints'))


# ---------------------------------------------------------------- the wrapper around a solver
# (variables, polynomial, inequality constraints, equality constraints); k0.. are arbitrary coefficients
PROBLEMS = [
    ('ab', 'k0*a**2+k1*a*b+k2*b**2', ['a', 'b'], []),
    ('ab', 'k0*a**2+k1*a+k2', ['a-1', 'k3*b'], ['a*b-1']),
    ('abc', 'k0*(a**2+b**2+c**2)+k1*(a*b+b*c+c*a)', ['a', 'b', 'c'], []),
    ('abc', 'k0*(a**2+b**2+c**2)+k1*(a*b+b*c+c*a)+k2', ['a', 'b', 'c'], ['a+b+c-3']),
    ('abc', 'k0*a*b*c-k1', ['a*b**2', 'b*c**2', 'c*a**2', 'a', 'b', 'c'], ['a*b*c-k2']),
    ('abc', 'k0*(a**2*b+b**2*c+c**2*a)+k1*(a*b+b*c+c*a)', ['2*a', '3*b', '5*c'], ['k2*a*b+k2*b*c+k2*c*a-k3']),
    ('abc', 'k0*a**2+k1*b*c', ['a+b', 'b+c', 'c+a', '(a-b)**2*c'], ['a-c']),
    ('abc', 'k0*a**4+k1', ['a*(b-1)**2', '(a+b)**3', '-c*(a-2)**2'], ['k2*a+b']),
    ('abcd', 'k0*(a**2+b**2+c**2+d**2)', ['a', 'b', 'c', 'd'], ['a+b+c+d-1']),
    ('abcd', 'k0*(a*b+c*d)+k1', ['a', 'b', 'c', 'd'], []),
    ('at', 'k0*a**2+k1*t+k2', ['a', 't'], []),
    ('a', 'k0*a**2+k1*a+k2', ['a', '2-a'], []),
    ('ab', 'k0', ['a', '2'], ['b']),
    ('abc', 'k0*(a-b)*(b-c)*(c-a)+k1*(a+b+c)**3', ['a-b', 'b-c'], []),
    ('ab', 'k0*(a**2+b**2+1)+k1*(a*b+a+b)', ['a', 'b'], []),
    ('ab', 'k0*(a**2+b**2+1)+k1*(a*b+a+b)', ['a+b', 'b+1', '1+a', 'a', 'b'], ['a*b*(a-b)**2', 'b*(b-1)**2', 'a*(a-1)**2']),
    ('abc', 'k0*(a**2+b**2)+k1*c**2', ['a', 'b', 'k0**2*c'], ['a**2*b**2*c']),
    ('abcd', 'k0*(a*b+c*d)+k1*(a*c+b*d)+k2*(a*d+b*c)', ['a-b', 'c-d', 'b-a', 'd-c'], ['a*b**2*c**3*d']),
    ('abc', 'k0*(a**2+b**2+c**2)+k1', ['a*b', 'b*c', 'c*a', 'a**2*b', 'b**2*c', 'c**2*a', '1'], ['(a+b)*(b+c)*(c+a)-k2']),
]
FLAGS = [dict(homogenize=h, infer_symmetry=s, wrap_constraints=w, ineq_constraint_sqf=q, eq_constraint_sqf=q) for h in (True, False) for s in (True, False) for w in (True, False) for q in (True, False) if s or not w or q]
NAMES = ['list', 'symbols', 'functions', 'mixed']


def named_constraints(exprs, tag, style):
    if style == 'list':
        return {e: e for e in exprs}, list(exprs)
    out = {}
    for i, e in enumerate(exprs):
        if style == 'symbols' or (style == 'mixed' and i % 2):
            v = sp.Symbol(f'{tag}{i}') if not (style == 'mixed' and i == 1) else sp.Symbol({'U': 't1', 'W': 't2'}[tag])
        elif style == 'mixed':
            v = e
        else:
            s = sorted([x for x in e.free_symbols if not getattr(x, '_sx_param', False)], key=str)
            v = sp.Function(f'{tag}{i}')(*s)
        out[e] = v
    return out, dict(out)


def max_mult(e, gens):
    return max([1] + [m for q, m in sp.Poly(e, *gens).factor_list()[1]])


def wrapper_case(run, prob, flags, style, mk, seen=None):
    """obligations for one problem and one setting; `mk(name)` makes a coefficient"""
    m = mod(SH)
    SolutionSimple = m.SolutionSimple
    from triples.utils.expression import CyclicSum
    names, poly, ineq, eq = prob
    gens = sp.symbols(' '.join(names), seq=True)
    env = {str(g): g for g in gens}
    for i in range(4):
        env[f'k{i}'] = mk(f'k{i}')
    ev = lambda s: sp.sympify(eval(s, {}, env))
    f = ev(poly)
    I, Iarg = named_constraints([ev(s) for s in ineq], 'U', style)
    E, Earg = named_constraints([ev(s) for s in eq], 'W', style)
    H = {}
    hold = {}

    def solver(p, ineqs, eqs, symmetry=None, _homogenizer=None):
        e = p.as_expr()
        hold['kinds'] = {}
        for n, (kind, cs) in enumerate((('I', ineqs), ('E', eqs))):
            for j, (q, v) in enumerate(cs.items()):
                w = sp.Symbol(f'_Q{kind}{j}')
                H[w] = (kind, q)
                e = e + w * (v - q.as_expr())
                if symmetry is not None and not symmetry.is_trivial and flags['wrap_constraints']:
                    h = sp.Function(f'_R{kind}{j}')(*p.gens)
                    e = e + CyclicSum(h * (v - q.as_expr()), p.gens, symmetry.perm_group)
        hold['poly'], hold['gens'], hold['hom'] = p, p.gens, _homogenizer
        return SolutionSimple(problem=p, solution=e)
    dec = m.sanitize_output()(m.sanitize_input(**flags)(solver))
    if style == 'list':
        r = dec(f if not f.is_Number and sp.sympify(f).free_symbols & set(gens) else sp.Poly(f, *gens), Iarg, Earg)
    else:
        r = dec(sp.Poly(f, *gens), Iarg, Earg)
    v = value(r.solution)
    back = {n: e for e, n in list(I.items()) + list(E.items())}
    hom = hold['hom']
    obs = []
    if flags['homogenize']:
        obs.append(('true', 'the solver gets a homogeneous problem', hold['poly'].is_homogeneous and all(q.is_homogeneous for _, q in H.values())))
    und = [x for x in v.atoms(sp.Function) if str(x.func).startswith('_G') or str(x.func).startswith('_H')]
    obs.append(('true', 'names introduced for the solver are gone', not und))
    allowed = set(gens) | set(H) | {s for n in back for s in n.free_symbols} | {s for k in range(4) for s in sp.sympify(env[f'k{k}']).free_symbols}
    obs.append(('true', 'no new symbol is left', v.free_symbols <= allowed))
    R = [x for x in v.atoms(sp.Function) if str(x.func).startswith('_R')]
    if flags['eq_constraint_sqf'] and any(max_mult(e, gens) > 1 for e in E):
        # the name of such a constraint is a root, equal to the polynomial up to its sign only: it has to vanish with the given name
        v = v.xreplace({x: sp.S(0) for x in R} | ({n: sp.S(0) for n in E.values()} if style in ('symbols', 'functions') else {w: sp.S(0) for w in H if H[w][0] == 'E'}))
        one = {} if hom is None else {hom: sp.S(1)}
        if style in ('symbols', 'functions'):
            v = v + sp.Add(*[w * q.as_expr().xreplace(one) for w, (kind, q) in H.items() if kind == 'E'])
    # the value does not depend on the solver's multipliers, once names have their values
    fin = v.xreplace({x: sp.Dummy('r', real=True) for x in R}).xreplace(back)
    obs.append(('eq', 'value of the certificate == polynomial', sp.together(fin), f))
    # honest names: the name handed to the solver is a nonnegative multiple of the given name
    for w, (kind, q) in H.items():
        if kind == 'I':
            co = v.xreplace({x: sp.S(0) for x in R}).diff(w)
            qd = q.as_expr().xreplace({hom: sp.S(1)}) if hom is not None else q.as_expr()
            nm = sp.factor(sp.together(co + qd))
            mf = manifest(nm, set(I.values()))
            for e in I:
                # a constraint that is its own name: up to a positive number and squares
                mf = manifest(sp.factor(sp.cancel(nm / e)), set()) if mf is None else mf
            obs += mf if mf is not None else [('true', 'name of an inequality is not a nonnegative multiple of a given name: ' + str(sp.factor(nm))[:100], False)]
    return obs


def wrapper_task(i, style):
    def body(run):
        import itertools
        run.hide_params = True
        obs = []
        ps = params(run, [f'k{j}' for j in range(4)])
        for p in ps:
            nonzero(run, p)
        for fl in FLAGS:
            run.oracle_args = [i, fl, style, ps]
            o = wrapper_case(run, PROBLEMS[i], fl, style, lambda n: ps[int(n[1])])
            obs += [(x[0], f'{x[1]} {({k: v for k, v in fl.items()})}') + x[2:] if x[0] in ('true', 'eq') else x for x in o]
        return obs
    return FnTask(f'sanitize_input[problem {i}: {PROBLEMS[i][1]}, constraints {PROBLEMS[i][2]} {PROBLEMS[i][3]}, names {style}]', body, 'wrapped', must_return=True, key=(SH, 'sanitize_input'))


# ---------------------------------------------------------------- homogenisation and removal of irrelevant symbols
def homogenize_task(text, names, which):
    def body(run):
        m = mod(SH)
        run.hide_params = True
        ks = params(run, [f'k{j}' for j in range(3)])
        for k in ks:
            nonzero(run, k)
        gens = sp.symbols(' '.join(names), seq=True)
        f = sp.sympify(eval(text, {}, dict({str(g): g for g in gens}, **{f'k{j}': k for j, k in enumerate(ks)})))
        p = sp.Poly(f, *gens) if which != 'expr' else f
        if which == 'poly':
            q, h = m.homogenize(p)
            obs = [('true', 'homogeneous', q.is_homogeneous), ('true', 'a new symbol', h is None or h not in gens and h not in f.free_symbols)]
            return obs + [('eq', 'value at 1', q.as_expr().xreplace({h: sp.S(1)}) if h is not None else q.as_expr(), f)]
        h = sp.Symbol('h')
        q = m.homogenize_expr_list([p], h)[0]
        z = sp.Symbol('z')
        u = q.as_expr()
        # homogeneous: scaling all variables multiplies the value by a fixed power of z
        num, den = sp.fraction(sp.together(u))
        dn = sp.Poly(num, *gens, h), sp.Poly(den, *gens, h)
        return [('true', 'homogeneous', dn[0].is_homogeneous and dn[1].is_homogeneous), ('eq', 'value at 1', u.xreplace({h: sp.S(1)}), f)]
    return FnTask(f'homogenize[{which}: {text}]', body, None, must_return=True, key=(SH, 'homogenize' if which == 'poly' else 'homogenize_expr_list'))


def clear_task(names, text, ineq, eq):
    def body(run):
        m = mod(UT)
        run.hide_params = True
        ks = params(run, [f'k{j}' for j in range(3)])
        for k in ks:
            nonzero(run, k)
        gens = sp.symbols(' '.join(names), seq=True)
        env = dict({str(g): g for g in gens}, **{f'k{j}': k for j, k in enumerate(ks)})
        P = lambda s: sp.Poly(sp.sympify(eval(s, {}, env)), *gens, domain=sp.QQ.frac_field(*ks))
        I = {P(s): sp.Symbol(f'U{i}') for i, s in enumerate(ineq)}
        E = {P(s): sp.Symbol(f'W{i}') for i, s in enumerate(eq)}
        p = P(text)
        q, I2, E2 = m.clear_free_symbols(p, dict(I), dict(E))
        obs = [('eq', 'the polynomial is unchanged', q.as_expr(), p.as_expr()), ('true', 'generators are among the given ones', set(q.gens) <= set(gens))]
        for old, new, what in ((I, I2, 'inequality'), (E, E2, 'equality')):
            byname = {v: k for k, v in old.items()}
            obs.append(('true', f'names of {what} constraints are given ones', set(new.values()) <= set(byname)))
            obs += [('eq', f'an {what} constraint keeps its name', k.as_expr(), byname[v].as_expr()) for k, v in new.items() if v in byname]
            obs.append(('true', f'{what} constraints on the generators that stay are kept', all(v in set(new.values()) for k, v in old.items() if k.has_only_gens(*q.gens) and not k.is_ground)))
        return obs
    return FnTask(f'clear_free_symbols[{text}; {ineq}; {eq}]', body, None, must_return=True, key=(UT, 'clear_free_symbols'))


CLEAR = [('abcd', 'k0*a**2+k1*a*b', ['a', 'b', 'c', 'd'], []), ('abcd', 'k0*a**2', ['a*b', 'b*c', 'd'], ['k1*d']), ('abcd', 'k0*b*c', ['a', 'a+d', 'b+d'], []), ('abcd', 'k0', ['a', 'b-a'], ['c']),
         ('abc', 'k0*c', ['k1*a+k2*b', 'b'], ['b-a']), ('abc', 'k0*c', ['a', 'b'], ['a*b-k1*b*c']), ('abcd', 'k0*a+k1*d', ['b*c', 'c*a', 'b'], ['k2*d*a']), ('ab', 'k0*a+b', [], ['a'])]


# ---------------------------------------------------------------- bounded oracles
@oracle
def symmetry(names, lists, hom):
    m = mod(SH)
    gens = sp.symbols(' '.join(names), seq=True)
    L = [[sp.Poly(sp.sympify(e, {str(g): g for g in gens}), *gens) for e in l] for l in lists]
    call = f'identify_symmetry_from_lists({lists}, {hom})'
    try:
        G = m.identify_symmetry_from_lists(L, has_homogenized=hom)
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    for g in G.generators:
        for l in L:
            S = {p.as_expr().expand() for p in l}
            T = {p.as_expr().xreplace({x: y for x, y in zip(gens, g(list(gens)))}).expand() for p in l}
            if S != T:
                return {'call': call, 'permutation': str(g), 'does not keep': str(l)}
    if G.degree != len(gens):
        return {'call': call, 'degree': G.degree}


@oracle
def std(kind, text):
    m = mod(SH)
    p = sp.Poly(sp.sympify(text), a, b)
    if p.is_zero:
        return None
    E = sp.Symbol('E')
    call = f'_std_{kind}_constraints({text}, E)'
    try:
        r, e = getattr(m, f'_std_{kind}_constraints')(p, E)
    except Exception as ex:
        return {'call': call, 'raises': repr(ex)[:300]}
    D = 1 if kind == 'ineq' else max([1] + [k for q, k in p.sqf_list()[1]])
    if sp.cancel((e**D).subs(E, p.as_expr()) - r.as_expr()**D) != 0:
        return {'call': call, 'result': str((r, e))[:300], 'failure': 'name and polynomial differ'}
    if kind == 'ineq':
        for x, y in itertools.product((-3, sp.Rational(-1, 3), 0, 1, sp.Rational(7, 2)), repeat=2):
            k = (e / E).subs({a: x, b: y})
            if k.is_finite and k < 0:
                return {'call': call, 'result': str((r, e))[:300], 'negative multiple at': f'{x}, {y}'}


@oracle
def wrapped(i, flags, style, ks):
    call = f'sanitize_input({flags}) around a solver, problem {PROBLEMS[i]}, names {style}, coefficients {ks}'
    try:
        obs = wrapper_case(None, PROBLEMS[i], flags, style, lambda n: sp.sympify(ks[int(n[1])]))
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    for ob in obs:
        if ob[0] == 'true' and not ob[2]:
            return {'call': call, 'failure': ob[1]}
        if ob[0] == 'eq' and sp.cancel(sp.together(ob[2] - ob[3])) != 0:
            return {'call': call, 'failure': ob[1], 'value': str(ob[2])[:300], 'expected': str(ob[3])[:200]}
        if ob[0] == 'sign' and ob[2].is_Rational and (0 if ob[2] == 0 else 1 if ob[2] > 0 else -1) not in ob[3]:
            return {'call': call, 'failure': ob[1], 'value': str(ob[2])}


# forms with a dehomogenised variable, equality constraints, repeated and redundant names
FACADE = [('a**2-2*a+1', 'a', [], []), ('a**3+2-3*a', 'a', ['a'], []), ('a**2+b**2+1-a*b-a-b', 'ab', [], []), ('a**2+b**2+1-a*b-a-b', 'ab', ['a', 'b'], []), ('a**3+b**3+1-3*a*b', 'ab', ['a', 'b'], []),
          ('a+b-2', 'ab', ['a', 'b'], ['a*b-1']), ('a**2+b**2+c**2-3', 'abc', ['a', 'b', 'c'], ['a+b+c-3']), ('a+b+c-3', 'abc', ['a', 'b', 'c'], ['a*b*c-1']), ('a**2*b+b**2*c+c**2*a+1', 'abc', ['a', 'b', 'c'], []),
          ('3-a-b-c', 'abc', ['1-a', '1-b', '1-c'], []), ('a*b*c', 'abc', ['a', 'b', 'c'], []), ('a*(b-1)**2+b', 'ab', ['2*a', '3*b'], []), ('a**2*b+b', 'ab', ['(a-1)**2*b', 'b'], []), ('a+b+1', 'ab', ['a+1', 'b'], []),
          ('t**2+a**2-2*a*t+t', 'at', ['t', 'a'], []), ('(a-b)**2+3*t', 'abt', ['t**3', 'a'], []), ('(5/3)-a*b-b*c-c*a', 'abc', ['a', 'b', 'c', '1-a', '1-b', '1-c'], ['a+b+c-1']), ('a**4+b**4+1-a**2*b-b**2-a', 'ab', [], []),
          ('a**2+b**2-2*c', 'abc', ['a', 'b'], ['a*b-c']), ('a**2+b**2-2*c**2', 'abc', ['c'], ['a-c', 'b-c']), ('(a-b)**2+c', 'abc', [], ['c']), ('(a-b)**2+c', 'abc', [], ['c**2']), ('(a-b)**2+5*c', 'abc', ['2'], ['-3*c*(a+1)**2'])]


def cases(seed, count):
    rng = random.Random(seed)
    cs = []
    for f, v, I, E in FACADE:
        for me in ('StructuralSOS', 'LinearSOS'):
            cs.append(('named', [f, v, I, me, E]))
    pool = {n: [s for s in ('a', 'b', 'c', 'd', 'a+b', 'b+c', 'c+d', 'd+a', 'a*b', 'c*d', 'b*c', 'a**2', 'b**2', 'c**2', 'd**2', 'a-b', 'b-c', 'a+b+c-3', 'a+b+c+d', '2*a+b', '2*b+c', '2*c+a', 'a*b+c*d', 'a*b*c', 'a*b*c*d', '(a-b)**2', '1', 'a-d', 'a+b-d', 'c-d')
                if not set(s) & set('abcd'[n:])] for n in (1, 2, 3, 4)}
    for _ in range(count):
        n = rng.choice((1, 2, 3, 3, 4, 4))
        L = []
        for _ in range(rng.randint(1, 3)):
            l = []
            for _ in range(rng.randint(0, 3)):
                e = rng.choice(pool[n])
                l.append(e)
                perm = {x: y for x, y in zip('abcd'[:n], rng.sample('abcd'[:n], n))} if rng.random() < .3 else {x: 'abcd'[(i + 1) % n] for i, x in enumerate('abcd'[:n])}
                for _ in range(rng.choice((0, n - 1, n))):
                    e = ''.join(perm.get(ch, ch) for ch in e)
                    l.append(e)
            L.append(l)
        if any(L):
            cs.append(('symmetry', ['abcd'[:n], L, rng.random() < .5]))
        fs = rng.sample(['a', 'b', 'a-b', 'a+2*b', 'a*b+1', '1-a', 'a**2+b', 'b**2+b+1'], rng.randint(0, 3))
        cs.append(('std', [rng.choice(('ineq', 'eq')), f'({rng.choice((1, -1, 2, -7, sp.Rational(-3, 5), sp.Rational(9, 4)))})' + ''.join(f'*({g})**{rng.randint(1, 4)}' for g in fs)]))
        ks = [rng.choice(('1', '1', '2', '-1', '1/3', '-5')) for _ in range(4)]
        cs.append(('wrapped', [rng.randrange(len(PROBLEMS)), rng.choice(FLAGS), rng.choice(NAMES), ks]))
    rng.shuffle(cs)
    return [{'oracle': o, 'args': k} for o, k in cs]


def setup():
    fncheck.setup([SH, UT])()


def tasks(thorough):
    mults = [()] + [(i,) for i in (1, 2, 3, 4, 5)] + [(i, j) for i in (1, 2, 3, 4) for j in (1, 2, 3)] + [(1, 2, 3), (2, 2, 1), (3, 1, 1)]
    ts = [std_task(k, m) for k in ('ineq', 'eq') for m in mults]
    ts += [wrapper_task(i, s) for i in range(len(PROBLEMS)) for s in NAMES]
    for t, n in (('k0*a+k1', 'a'), ('k0*a**2+k1*a*b', 'ab'), ('k0*a**3+k1*b+k2', 'ab'), ('k0*a*b*c+k1*a+k2', 'abc'), ('k0*a**4*t+k1', 'at'), ('k0+k1', 'a')):
        ts += [homogenize_task(t, n, w) for w in ('poly', 'expr', 'list')]
    ts += [homogenize_task(t, 'ab', 'expr') for t in ('k0*a/(b+1)', '(k0*a**2+k1*b)/(k2*a*b-1)', '(a-k0)**2*(b+1)', '(k0*a+k1*b)/(a+k2)+b')]
    ts += [clear_task(*x) for x in CLEAR]
    return ts


def f01(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 40, cases(seed, 250 if not th else 8000), 30,
                  ['Poly.sqf_list of SymPy (its factors are assumed to multiply to the polynomial)', 'SymPy Poly.homogenize, reorder, xreplace',
                   'the solver inside is an arbitrary one whose answer has the value of the prepared polynomial (uninterpreted multipliers of every constraint, alone and in a cyclic sum)',
                   'equality of coefficients in the symmetry search is decided for indeterminate coefficients; coincidences are covered by the bounded cases',
                   'a name of an even-multiplicity equality is a root, correct up to its sign',
                   f'problem shapes: {len(PROBLEMS)} shapes with arbitrary coefficients, all settings of the wrapper, {len(NAMES)} kinds of names'],
                  path_limit=20, case_limit=20)
