"""Certificates are nonnegative by the constraints alone: extraction of nonnegative symbols and their replacement by constraints."""
import functools, importlib, itertools, random
import sympy as sp
from sympy.core.function import AppliedUndef
from . import fncheck, cyc
from .fncheck import FnTask, params
from .oracles import oracle, rat_identity, Declined
from .cyc import value, plain, group

SOL = 'triples.core.structsos.solution'
T3 = 'triples.core.structsos.ternary.solver'
T4 = 'triples.core.structsos.quarternary.solver'
SS = 'triples.core.structsos.structsos'
a, b, c, d = sp.symbols('a b c d')


def manifest(e, ok):
    """nonnegative for all real values of the atoms, when ok(atom) means that the atom is nonnegative"""
    if e.is_number:
        return bool(e >= 0)
    if ok(e):
        return True
    if e.is_Add or e.is_Mul:
        if e.is_Mul:
            k, r = e.as_coeff_Mul()
            if k != 1 and k < 0:
                return False
            # equal odd parts pair up: x*x is even
            powers = {}
            for q in r.args if r.is_Mul else (r,):
                base, ex = q.as_base_exp()
                powers[base] = powers.get(base, 0) + ex
            return all(manifest(base ** ex, ok) if not (base ** ex).is_Mul and not (base ** ex).is_Add else manifest(base, ok) for base, ex in powers.items())
        return all(manifest(q, ok) for q in e.args)
    if e.is_Pow:
        if e.exp.is_Integer and e.exp % 2 == 0:
            return True
        if e.exp.is_Rational:
            return manifest(e.base, ok)
        return False
    return False


def nonneg_obligation(label, e, ok, run):
    """manifest, or for z3: atoms as fresh real parameters, the assumed ones nonnegative"""
    if manifest(e, ok):
        return ('true', label, True)
    rep, facts = {}, []
    q = {}

    def walk(t):
        if t.is_number or t.is_Symbol or isinstance(t, AppliedUndef):
            return t
        if t.is_Pow and t.exp.is_Rational and not t.exp.is_Integer:
            bse = t.base
            if bse.is_Symbol or isinstance(bse, AppliedUndef):
                q[bse] = sp.ilcm(q.get(bse, 1), t.exp.q)
        for s in t.args:
            walk(s)
    walk(e)
    for t in sorted(e.atoms(sp.Symbol, AppliedUndef) - {s for f in e.atoms(AppliedUndef) for s in f.args}, key=str):
        p, = params(run, ['n' + str(len(run.inputs))])
        rep[t] = p ** q.get(t, 1)
        if ok(t):
            facts.append((p, {0, 1}))
    e2 = sp.powdenest(e.xreplace(rep), force=True)
    if ok.__name__ == 'none':
        facts = []
    return ('infeasible', label, [(e2, {-1})] + facts)


# ---------------------------------------------------------------- SolutionStructural._extract_nonnegative_exprs
X = [sp.Function(f'X{i}') for i in (1, 2, 3)]
Y = [sp.Function(f'Y{i}') for i in (1, 2, 3)]
TO_Y = dict(zip(X, Y))
TO_X = dict(zip(Y, X))


def checker(t):
    """hypothesis of the induction: the extraction of the part X_i(..) is Y_i(..)"""
    if isinstance(t, AppliedUndef) and t.func in TO_Y:
        return TO_Y[t.func](*t.args)


def back(e, fname):
    e = e.replace(lambda t: isinstance(t, AppliedUndef) and t.func in TO_X, lambda t: TO_X[t.func](*t.args))
    return e.replace(lambda t: isinstance(t, AppliedUndef) and t.func.__name__ == fname, lambda t: t.args[0])


def approved(fname):
    return lambda t: isinstance(t, AppliedUndef) and (t.func in TO_X or t.func.__name__ == fname)


def extraction(node, fname='G'):
    """-> failure description or (identity ok, expression to be nonnegative)"""
    S = importlib.import_module(SOL).SolutionStructural
    R = S._extract_nonnegative_exprs(node, func_name=fname, extra_checker=checker)
    if R is None:
        return None
    R = value(R)
    same = equal_pow(back(R, fname), value(node))
    return R, same


def equal_pow(l, r):
    if l == r or sp.expand(l - r) == 0:
        return True
    # fractional powers of uninterpreted parts: part = z**q with z > 0
    l, r = plain(l), plain(r)
    q = {}
    for t in (l | r) if isinstance(l, set) else [*l.atoms(sp.Pow), *r.atoms(sp.Pow)]:
        if t.base.is_Symbol and t.exp.is_Rational:
            q[t.base] = sp.ilcm(q.get(t.base, 1), t.exp.q)
    z = {s: sp.Symbol('z' + str(s), positive=True) ** k for s, k in q.items() if k != 1}
    l, r = sp.powdenest(l.xreplace(z), force=True), sp.powdenest(r.xreplace(z), force=True)
    try:
        return rat_identity(l, r)
    except Exception:
        return sp.simplify(l - r) == 0


def C():
    m = importlib.import_module(cyc.CY)
    return m.CyclicSum, m.CyclicProduct


def leaves():
    return [f(a, b, c) for f in X]


CONSTS = ['0', '1', '-1', '2', '-2', '1/3', '-5/7', 'sqrt(2)', '-sqrt(2)', 'sqrt(2)-1', '1-sqrt(2)', 'sqrt(5)-sqrt(2)-sqrt(3)', '(1+sqrt(5))/2', 'pi-3', '3-pi', '2**(1/3)-1']


@functools.lru_cache(None)
def level1():
    x1, x2, x3 = leaves()
    out = [x1, a, a + b, a - b, a * b, x1 + x2, x1 + x2 + x3, x1 - x2, x1 * x2, x1 * x2 * x3, -x1, -x1 * x2, 2 * x1 + x2 / 3, x1 + 1, x1 - 1, a * x1 + b * x2, x1 / x2, 1 / x1, -1 / x1, x1 * (x2 - x3) ** 2, a ** 2 - a * b + b ** 2]
    for n in range(-7, 9):
        if n:
            out += [x1 ** n, a ** n, (a - b) ** n, (x1 + x2) ** n, (x1 - x2) ** n, x1 ** n * x2, -x1 ** n]
    for q in ('1/2', '-1/2', '3/2', '1/3', '2/3', '-2/3', '4/3', '5/2'):
        out += [x1 ** sp.Rational(q), a ** sp.Rational(q), (x1 + x2) ** sp.Rational(q)]
    for k in CONSTS:
        k = sp.sympify(k)
        out += [k, k * x1, k + x1, k * x1 ** 2, k * (a - b) ** 2 + x1]
        if k != 0:
            out += [x1 / k, x1 ** 2 / k]
    return out


@functools.lru_cache(None)
def level2():
    x1, x2, x3 = leaves()
    S, P = C()
    small = [x1, a, b, a * b, a - b, (a - b) ** 2, a ** 2 * b, a ** 3, x1 ** 2, -x1 ** 2, x1 ** 3, x1 + x2, x1 - x2, -x1, sp.Integer(2), sp.sqrt(2) - 1, 1 - sp.sqrt(2), x1 * (a - b) ** 2, x1 / x2, 1 / a, 1 / (a + b), 2 * x1, -a,
             a * b - c ** 2, a ** 2 * b ** 2, -a ** 2, x1 ** 2 * x2 ** 2, -2 * x1 ** 2 * x2 ** 2, x1 ** 2 * x2 ** 2 * x3, x1 ** -2, x1 ** -3, a ** 2 / b ** 2, (a - b) ** 2 * (b - c) ** 2 / 2, (1 - sp.sqrt(2)) * a ** 2, (sp.sqrt(2) - 1) * a ** 2, a ** 2 * b ** 4 * c]
    s3, t2 = ((1, 2, 0), (1, 0, 2)), ((1, 0, 2),)
    out = []
    for e in small:
        for n in (-3, -2, -1, 2, 3, 4):
            if e != 0:
                out.append(sp.Pow(e, n, evaluate=False) if e.is_number else e ** n)
        out.append(e ** sp.Rational(1, 2))
        for gens in (((1, 2, 0),), s3, t2):
            G = group(gens)
            for cls in (S, P):
                t = cls(e, (a, b, c), G)
                out += [t, -t, 2 * t, t - 1, t + a, t / a, t ** 2, t ** 3, 1 / t, x1 * t, a * t, t * (1 - sp.sqrt(2)), t + cls(a, (a, b, c), G)] if gens == ((1, 2, 0),) else [t, t * x1, -t]
        out += [S(a * S(e, (a, b, c)), (a, b, c), group(t2)), P(1 + S(e, (a, b, c)) ** 2, (a, b, c)), S(e * (b - c) ** 2, (a, b, c)) / P(a, (a, b, c)), S(e, (a, b)), S(e, (a, b, c)) + S(e, (a, b, c, d)) if not e.has(X[0]) else S(e, (a, b, c))]
    for e1, e2 in itertools.product(small, repeat=2):
        out += [e1 + e2, e1 * e2, S(e1 * e2, (a, b, c)), S(e1 + e2, (a, b, c)), P(e1 + e2, (a, b, c))]
    return out


def extraction_task(name, level, k, parts):
    def body(run):
        obs = []
        for node in level()[k::parts]:
            node = sp.sympify(node)
            if node.has(sp.zoo, sp.nan, sp.oo) or node.is_number and not node.is_real:
                continue
            run.oracle_args = [sp.srepr(node)]
            r = extraction(node)
            if r is None:
                obs.append(('true', 'declined', True))
                continue
            R, same = r
            o = [('true', f'the extraction changes the value of {node}', same), nonneg_obligation(f'{node} is certified by {R}', R, approved('G'), run)]
            bad = [q for q in o if q[0] == 'true' and not q[2]]
            if bad:
                return obs + bad
            if o[1][0] == 'infeasible':
                # the remaining nodes follow in the next tasks; the first undecided one ends this list
                from . import smt
                res = fncheck.entails(run, o[1][2])
                if res[0] == 'sat':
                    return obs + [o[0], ('true', o[1][1], False)]
                if res[0] != 'ok':
                    obs.append(o[1])
                    continue
                o[1] = ('true', 'nonnegative (z3)', True)
            obs += o
        return obs
    return FnTask(f'_extract_nonnegative_exprs[{name} {k}]', body, 'extract', key=(SOL, '_extract_nonnegative_exprs'), must_return=True)


@oracle
def extract(text):
    ns = {k: getattr(sp, k) for k in dir(sp)}
    ns.update(CyclicSum=C()[0], CyclicProduct=C()[1])
    from sympy.combinatorics import Permutation, PermutationGroup
    ns.update(Permutation=Permutation, PermutationGroup=PermutationGroup)
    node = eval(text, ns)
    r = extraction(node)
    if r is None:
        return None
    R, same = r
    if not same:
        return {'call': f'_extract_nonnegative_exprs({node})', 'result': str(R), 'failure': 'another value'}
    w = negative_point(R, approved('G'))
    if w:
        return {'call': f'_extract_nonnegative_exprs({node})', 'result': str(R), 'negative at': w}


def negative_point(e, ok, tries=400, seed=0):
    """a point (atoms independent, the approved ones nonnegative) where the expression is negative, exactly or with high precision"""
    if e.is_number:
        return 'everywhere' if e < 0 else None
    if manifest(e, ok):
        return None
    rng = random.Random(seed)
    bound = {s for f in e.atoms(AppliedUndef) for s in f.args}
    fs = sorted(e.atoms(AppliedUndef), key=str)
    rep = {f: sp.Dummy() for f in fs}
    e2 = e.xreplace(rep)
    atoms = [(s, f) for f, s in rep.items()] + [(s, s) for s in sorted(e2.free_symbols - set(rep.values()), key=str)]
    vals = [0, 0, 1, 2, sp.Rational(1, 2), 3, sp.Rational(1, 7), 10, 100]
    for _ in range(tries):
        pt = {}
        for s, f in atoms:
            v = rng.choice(vals)
            pt[s] = v if ok(f) else v * rng.choice((1, -1))
        try:
            v = e2.xreplace(pt)
            if v.has(sp.zoo, sp.nan, sp.I):
                continue
            if v.is_real and v < 0:
                return {str(f): str(pt[s]) for s, f in atoms}
        except (TypeError, ZeroDivisionError):
            continue
    return None


# ---------------------------------------------------------------- replacement of the extracted symbols by the given constraints
def conset(text, gens):
    """'x:U;2*y:V;..' with x, y, z the generators by position"""
    env = {n: g for n, g in zip('xyzw', gens)}
    out = {}
    for item in text.split(';'):
        if item:
            k, v = item.split(':')
            p = sp.Poly(sp.sympify(k, env), *gens)
            val = sp.sympify(v, {n: sp.Symbol(n) for n in 'UVWZ'})
            out[p] = val
    return out


CONS3 = ['', 'x:U', 'y:V', 'x:U;y:V', 'x:U;y:V;z:W', '2*x:U;y/3:V;z:W', '-x:U;y:V;z:W', 'x:U;-y:V;-z:W', 'x*y:U;z:W', 'x+y:U;x:V', 'x-y:U;y:V;z:W', 'x+y:U;y+z:V;z+x:W', 'x:0*U+1/2;y:V;z:W', 'x:x;y:y;z:z', 'x:y;y:x;z:z',
         'x:U+V;y:U*V;z:W', 'x*y*z:U', 'x:U;z:W', '-2*x:U', 'x**2-y:U;z:W']
CERTS3 = ['a*(b-c)**2', 'CS(a*(b-c)**2)', 'CS(a*b)', 'CP(a)', 'CS(a**2*b)', 'CS(a**3)/CS(a)', 'a*b*c+CS((a-b)**4)', 'CS(a**2)', 'CS(a)*CS(a*(a-b)**2)', 'CS(a*CS(a*b))', 'CP(a+b)', '(a-b)**2/(a**2+b)', 'CS(a*b*(a-b)**2,s3)', 'CS(b*c*(a-b)**2*(a-c)**2)/2',
          'CS((a-b)**2)/2', '-a*b', 'a**5', 'CS(a/(b+c))', 'a**2*b*c', 'c', 'CP((a-b)**2)', 'CS(a)**2', 'CP(a)**2', 'CP(a)**3', 'sqrt(2)*a*b', '(1-sqrt(2))*a**2', 'CS(a**2-a*b)']


def cert(text, syms):
    S, P = C()
    full = tuple(syms)
    n = len(full)
    from sympy.combinatorics import CyclicGroup, SymmetricGroup
    f = lambda cls: lambda e, k=None: cls(e, full, SymmetricGroup(n) if k == 's3' else CyclicGroup(n))
    env = {str(s): s for s in full}
    env.update(CS=f(S), CP=f(P), s3='s3')
    return sp.sympify(text, env) if 'C' not in text else eval(text, {**env, 'sqrt': sp.sqrt})


def constraint_glue(mod, fname, n, text, cons, names):
    """returns None or the failure: the value of the result must be the certificate's, and it must be nonnegative by the constraints"""
    m = importlib.import_module(mod)
    gens = sp.symbols(names, seq=True)
    std = sp.symbols(' '.join('abcd'[:n]), seq=True)
    given = cert(text, std)
    ineqs = conset(cons, gens)
    target = sp.expand(value(given).xreplace(dict(zip(std, gens))))
    poly = sp.Poly(sp.Add(*[g ** 4 for g in gens]) if n < 4 else sp.Add(*[g ** 4 for g in gens]), *gens)
    patch = {k: (lambda *a_, **k_: given) for k in dir(m) if k.startswith('_structural_sos_')}
    from .linalg import patched
    with patched(m, **patch):
        r = getattr(m, fname)(poly, dict(ineqs), {})
    what = f'{fname} on generators {gens}, certificate {given}, constraints {({str(k.as_expr()): v for k, v in ineqs.items()})}'
    if r is None:
        return None, what, None
    names_ = [v for v in ineqs.values() if v.is_Symbol and str(v) in 'UVWZ']
    val = value(r)
    sub = {v: k.as_expr() for k, v in ineqs.items() if v in names_}
    honest = all(v in names_ or k.as_expr() == v for k, v in ineqs.items())
    fail = None
    if honest and not equal_pow(sp.together(val.xreplace(sub)), sp.together(value(given).xreplace(dict(zip(std, gens))))):
        fail = {'call': what, 'result': str(r), 'failure': 'another value'}
    if fail is None:
        allowed = {t for v in ineqs.values() for t in v.free_symbols if str(t) in 'UVWZ'} | {v for v in ineqs.values() if v.is_Symbol}
        w = negative_point(val, lambda t: t in allowed)
        if w:
            fail = {'call': what, 'result': str(r), 'negative at': w}
    return fail, what, r


def glue_task(mod, fname, n, text, names, conss):
    def body(run):
        obs = []
        for cons in conss:
            fail, what, r = constraint_glue(mod, fname, n, text, cons, names)
            if fail:
                run.oracle_args = [mod, fname, n, text, cons, names]
                return obs + [('true', f'{what}: {fail}'[:500], False)]
            obs.append(('true', 'declined' if r is None else 'value and sign', True))
        return obs
    return FnTask(f'{fname}[certificate {text}, generators {names}]', body, 'glue', key=(mod, fname), must_return=True)


@oracle
def glue(mod, fname, n, text, cons, names):
    return constraint_glue(mod, fname, n, text, cons, names)[0]


@oracle
def monomial(coef, exps, cons, names):
    """_structural_sos of a single term: value, and nonnegative by the constraints"""
    m = importlib.import_module(SS)
    gens = sp.symbols(names, seq=True)
    ineqs = conset(cons, gens)
    target = sp.sympify(coef) * sp.Mul(*[g ** k for g, k in zip(gens, exps)])
    from .linalg import patched
    none = lambda *a_, **k_: None
    with patched(m, structural_sos_2vars=none, structural_sos_3vars=none, structural_sos_4vars=none, structural_sos_constrained=none, sos_struct_nvars_quartic_symmetric=none, sos_struct_quadratic=none):
        r = m._structural_sos(sp.Poly(target, *gens), dict(ineqs), {})
    if r is None:
        return None
    val = value(r)
    call = f'_structural_sos({target}, {({str(k.as_expr()): v for k, v in ineqs.items()})})'
    sub = {v: k.as_expr() for k, v in ineqs.items() if v.is_Symbol and str(v) in 'UVWZ'}
    if all(v in sub or v == k.as_expr() for k, v in ineqs.items()) and not equal_pow(val.xreplace(sub), target):
        return {'call': call, 'result': str(r), 'failure': 'another value'}
    allowed = {t for v in ineqs.values() for t in v.free_symbols if str(t) in 'UVWZ'} | {v for v in ineqs.values() if v.is_Symbol}
    w = negative_point(val, lambda t: t in allowed)
    if w:
        return {'call': call, 'result': str(r), 'negative at': w}


def monomial_task(names, coefs, exps):
    def body(run):
        obs = []
        for coef, ex, cons in itertools.product(coefs, exps, CONS3):
            r = monomial(coef, ex, cons, names)
            if r:
                run.oracle_args = [coef, list(ex), cons, names]
                return obs + [('true', str(r)[:500], False)]
            obs.append(('true', 'monomial', True))
        return obs
    return FnTask(f'_structural_sos[monomials {coefs} in {names}, {exps[0]}..]', body, 'monomial', key=(SS, '_structural_sos'), must_return=True)


# ---------------------------------------------------------------- facade with named constraints (bounded)
@oracle
def named(text, vars, cons, method='StructuralSOS', eqs=()):
    """sum_of_squares with named constraints: the certificate has the value of the polynomial, and is nonnegative for all real variables and
    nonnegative names (independent of each other)"""
    from triples.core.sum_of_squares import sum_of_squares
    from .oracles import parse_form
    gens = sp.symbols(' '.join(vars), seq=True)
    target = parse_form(text, gens)
    if target == 0:
        return None
    env = {str(g): g for g in gens}
    ineq = {sp.sympify(k, env): sp.Symbol(f'U{i}') for i, k in enumerate(cons)}
    eq = {sp.sympify(k, env): sp.Symbol(f'V{i}') for i, k in enumerate(eqs)}
    r = sum_of_squares(target, dict(ineq), dict(eq), method_order=[method])
    if r is None:
        raise Declined
    val = value(r.solution)
    call = f'sum_of_squares({target}, {ineq}, {eq}, {method})'
    sub = {v: k for k, v in list(ineq.items()) + list(eq.items())}
    if not equal_pow(sp.together(val.xreplace(sub)), target):
        return {'call': call, 'result': str(r.solution)[:400], 'failure': 'is not the polynomial'}
    names = set(ineq.values())
    left = val.free_symbols - set(gens) - names - set(eq.values())
    if left:
        return {'call': call, 'result': str(r.solution)[:400], 'unknown symbols': str(left)}
    w = negative_point(val.xreplace({v: sp.S(0) for v in eq.values()}), lambda t: t in names, tries=150)
    if w:
        return {'call': call, 'result': str(r.solution)[:400], 'negative at': w}


FORMS = [('CYC(a**2*(a-b)*(a-c))', 'abc'), ('CYC(a*(a-b)*(a-c))', 'abc'), ('CYC(a**3-2*a**2*b+a*b**2)', 'abc'), ('CYC(a*b*(a-b)**2)', 'abc'), ('CYC(a**3+a*b*c-2*a**2*b)+CYC(a*b**2)-2*a*b*c', 'abc'), ('CYC(a**4+a**2*b*c-2*a**3*b+a**2*b**2)', 'abc'),
         ('a**3+b**3+c**3-3*a*b*c', 'abc'), ('CYC(a**5-a**4*b)', 'abc'), ('CYC(a**2*b-a*b*c)', 'abc'), ('CYC(a**4*b**2-a**3*b**2*c)', 'abc'), ('a*b+a**2*c', 'abc'), ('a**2+b', 'ab'), ('a**2*b', 'ab'), ('(a+b)*(a-b)**2', 'ab'), ('a*b*c*d', 'abcd'),
         ('SYM(a*(b-c)**2)', 'abcd'), ('SYM(a**3-a**2*b)', 'abcd'), ('SYM(a**2-a*b)', 'abcde'), ('CYC(a**3*b-a**2*b*c)', 'abc'), ('CYC((a-1)**2*b)', 'abc'), ('CYC(a*b*(b-1)**2)+CYC(a*(b-c)**2)', 'abc'), ('a**3+b**3+1-3*a*b', 'ab'), ('CYC(a**3)-3*a*b*c+a', 'abc'),
         ('CYC(a**7-a**6*b)', 'abc'), ('SYM(a**4-a**3*b)', 'abcd'), ('CYC(a**2*b**3-a**2*b**2*c)', 'abc'), ('CYC(2*a*b-a**2)', 'abc'), ('CYC(a**2*(b+c-a))-2*a*b*c', 'abc')]


def named_cases(seed, count):
    rng = random.Random(seed)
    cs = []
    sets = {2: [[], ['a'], ['a', 'b'], ['a-b', 'b'], ['2*a', 'b/3'], ['a*b']], 3: [[], ['a'], ['a', 'b', 'c'], ['3*a', 'b', 'c/2'], ['-a', 'b', 'c'], ['a', 'b', 'c', 'a+b-c', 'b+c-a', 'c+a-b'], ['a', 'b', 'c', 'a**2+b**2-c**2', 'b**2+c**2-a**2', 'c**2+a**2-b**2'], ['a*b', 'b*c', 'c*a'], ['a**3', 'b', 'c'], ['a**2*b', 'b', 'c']],
            4: [[], ['a', 'b', 'c', 'd'], ['a', 'b', '2*c', 'd'], ['a']], 5: [[], ['a', 'b', 'c', 'd', 'e']]}
    perms = {'abc': ['abc', 'xyz', 'bca', 'cxa'], 'ab': ['ab', 'xy'], 'abcd': ['abcd', 'xyzt', 'dbca'], 'abcde': ['abcde']}
    for f, v in FORMS:
        for cons in sets[len(v)]:
            for names in perms[v]:
                tr = str.maketrans(dict(zip(v, names)))
                t = f if v == names else ''.join(ch.translate(tr) if ch in v else ch for ch in f)
                cs.append({'oracle': 'named', 'args': [t, names, [k.translate(tr) for k in cons]]})
    rng.shuffle(cs)
    return cs[:count]


def c08(rep, tier, seed):
    th = tier != 'quick'
    ts = []
    for nm, level, parts in (('one constructor', level1, 8), ('two constructors', level2, 120)):
        ts += [extraction_task(nm, level, k, parts) for k in range(parts)]
    for names in ('a b c', 'x y z', 'b c a', 'c x a'):
        ts += [glue_task(T3, 'structural_sos_3vars', 3, t, names, CONS3) for t in CERTS3]
    ex = list(itertools.product(range(5), repeat=3))
    ts += [monomial_task('x y z', [k], ex[i::5]) for k in ('1', '-1', '2/3', 'sqrt(2)', '1-sqrt(2)') for i in range(5)]
    CERTS4 = ['a*(b-c)**2', 'CS(a*(b-c)**2)', 'CS(a*b)', 'CP(a)', 'CS(a**2)', 'd*(a-b)**2', 'CS(a**3)/CS(a)', '-a*b', 'CS(a*b*(a-b)**2,s3)', 'CS(a*d)*c']
    CONS4 = ['', 'x:U', 'x:U;y:V;z:W;w:Z', '2*x:U;y/3:V;z:W;w:Z', 'x:U;-y:V;z:W;w:Z', 'x*y:U;z:W', 'x+y:U;x:V', 'w:U', 'x:x;y:y;z:z;w:w', '-w:U;x:V']
    for names in ('a b c d', 'x y z t', 'd c b a'):
        ts += [glue_task(T4, 'structural_sos_4vars', 4, t, names, CONS4) for t in CERTS4]
    fncheck.check(rep, tier, seed, ts, fncheck.setup([]), 60, named_cases(seed, 120 if not th else 10**6), 25,
                  ['certificates are built from sums, products, rational powers, numbers, symbols, CyclicSum and CyclicProduct (the grammar of the solvers)',
                   'structural induction: the extraction of a part X is an uninterpreted Y >= 0 equal to X; integer exponents -7..8 stand for their parity and sign class'], path_limit=60, case_limit=15)
