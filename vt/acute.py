"""Acute triangle constraints: certificates of the solvers (values of the constraint symbols) and their replacement by the given constraints."""
import importlib, itertools, random
import sympy as sp
from . import fncheck, cert
from .fncheck import FnTask
from .cert import value, equal_pow, negative_point, conset
from .cyc import group
from .oracles import oracle

AC = 'triples.core.structsos.constrained.acute'
a, b, c = sp.symbols('a b c')

CERTS = ['CS(F(a)*a)/CS(a)', 'CS(a*(b-c)**2)*F(b)', 'CP(F(a))', 'CS(F(a)*F(b)*(a-b)**2)', 'F(a)*a*b', 'CS(F(a)*a**2)+CP(a)', 'CS(F(a)*(a-b)**2)', '(CS(F(a)*a)+6*CP(a))/CS(a)', 'F(a)**2', 'F(a)**3*c', 'CS(F(b)*c)', '-F(a)', 'CS(F(a)*(a-b))', 'CP(F(a))*CS(a**2)/3',
         'CS(F(a)*F(b),s3)', 'CS(a*b*F(c))', 'F(c)', 'CS(a**2)', 'CS(2*a*F(a)*F(c)+b**2*F(b))', '(1-sqrt(2))*F(a)']
CONS = ['x:X;y:Y;z:Z', 'x:X', '', '2*x:X;y/3:Y;z:Z', '-x:X;y:Y;z:Z', 'x:x;y:y;z:z', 'x:y;y:z;z:x', 'x+y:X;y:Y;z:Z']


def acute_glue(text, cons, names, order):
    """constrained_acute with the solver replaced by one that returns the certificate; None or the failure"""
    m = importlib.import_module(AC)
    gens = sp.symbols(names, seq=True)
    S, P = cert.C()
    full = (a, b, c)
    given = {}

    def solver(coeff, F):
        from sympy.combinatorics import CyclicGroup, SymmetricGroup
        f = lambda cls: lambda e, k=None: cls(e, full, SymmetricGroup(3) if k == 's3' else CyclicGroup(3))
        env = {'a': a, 'b': b, 'c': c, 'CS': f(S), 'CP': f(P), 's3': 's3', 'F': F, 'sqrt': sp.sqrt}
        given['F'] = F
        given['e'] = eval(text, env)
        return given['e']
    x, y, z = gens
    acute = [y**2 + z**2 - x**2, z**2 + x**2 - y**2, x**2 + y**2 - z**2]
    names_ = [sp.Symbol(n) for n in ('UA', 'UB', 'UC')]
    items = [(sp.Poly(acute[k], *gens), names_[k]) for k in order]
    env = {n: g for n, g in zip('xyz', gens)}
    vals = dict(env, X=sp.Symbol('X'), Y=sp.Symbol('Y'), Z=sp.Symbol('Z'))
    for item in cons.split(';'):
        if item:
            k, v = item.split(':')
            items.append((sp.Poly(sp.sympify(k, env), *gens), sp.sympify(v, vals)))
    ineqs = dict(items)
    poly = sp.Poly(x**5 * y + y**5 * z + z**5 * x + x**6 + y**6 + z**6, *gens)
    what = f'constrained_acute on generators {gens}, certificate {text}, constraints {({str(k.as_expr()): v for k, v in ineqs.items()})}'
    from .linalg import patched
    r = None
    for sym in (True, False):
        p = sp.Poly(x**2 + y**2 + z**2, *gens) if sym else poly
        if not sym:
            p = sp.Poly(x**3 * y + y**3 * z + z**3 * x, *gens)
        with patched(m, **{k: solver for k in dir(m) if k.startswith('_constrained_acute_')}):
            r = m.constrained_acute(p, dict(ineqs), {})
        if r is None:
            continue
        val = value(r)
        tr = dict(zip(full, gens))
        F = given['F']
        fx = {a: acute[0], b: acute[1], c: acute[2]}
        want = value(given['e']).replace(F, lambda t: fx[t]).xreplace({s: g for s, g in tr.items()}) if False else None
        e = value(given['e'])
        rep = {F(s): sp.Dummy(str(s)) for s in full}
        e = e.xreplace(rep).xreplace(tr).xreplace({rep[F(s)]: q for s, q in zip(full, acute)})
        # a constraint v for k*s certifies s = v/k; the expression must be the certificate on the constraint surface
        honest = all(str(v) in ('X', 'Y', 'Z', 'UA', 'UB', 'UC') or k.as_expr() == v for k, v in ineqs.items())
        sub = {v: k.as_expr() for k, v in ineqs.items() if str(v) in ('X', 'Y', 'Z', 'UA', 'UB', 'UC')}
        if honest and not equal_pow(sp.together(val.xreplace(sub)), sp.together(e)):
            return {'call': what, 'result': str(r), 'failure': 'another value'}
        allowed = {t for v in ineqs.values() for t in v.free_symbols}
        allowed = {t for t in allowed if t not in gens or t in [v for v in ineqs.values()]}
        w = negative_point(val, lambda t: t in allowed)
        if w:
            return {'call': what, 'result': str(r), 'negative at': w}
    return None


@oracle
def acuteglue(text, cons, names, order):
    return acute_glue(text, cons, names, order)


def glue_tasks():
    def task(text, names):
        def body(run):
            obs = []
            for cons in CONS:
                for order in ((0, 1, 2), (2, 0, 1), (1, 0, 2), (0, 1), (2,)):
                    f = acute_glue(text, cons, names, order)
                    if f:
                        run.oracle_args = [text, cons, names, list(order)]
                        return obs + [('true', str(f)[:500], False)]
                    obs.append(('true', 'value and sign', True))
            return obs
        return FnTask(f'constrained_acute[certificate {text}, generators {names}]', body, 'acuteglue', key=(AC, 'constrained_acute'), must_return=True)
    return [task(t, n) for t in CERTS for n in ('a b c', 'x y z', 'b c a')]


EXAMPLES = ['CYC(2*a*b-a**2)', '(b+c-a)*(c+a-b)*(a+b-c)', 'CYC(-a**3+(9/7)*(a**2*b+a*b**2))-(32/7)*a*b*c', 'CYC(-a**3+(8*sqrt(2)-3)*Rational(1,7)*(a**2*b+a*b**2)-(4/3)*a*b*c)', 'CYC(-a**3+a**2*(b+c)-a*b*c+sqrt(2)/2*a*(b-c)**2)', '-CYC(31*a**3-33*a**2*b-33*a**2*c+32*a*b*c)']


def cases(seed, count):
    rng = random.Random(seed)
    A = ['b**2+c**2-a**2', 'c**2+a**2-b**2', 'a**2+b**2-c**2']
    sets = [['a', 'b', 'c'] + A, A + ['c', 'a', 'b'], ['2*a', 'b/3', 'c'] + A, A]
    cs = [{'oracle': 'named', 'args': [t, 'abc', s]} for t in EXAMPLES for s in sets[:2]]
    R = lambda lo=-12, hi=16: f'{rng.randint(lo, hi)}/{rng.choice((1, 2, 3, 5, 7))}'
    out = []
    for i in range(count):
        k = i % 9
        if k == 0:
            t = f'CYC(({R()})*a**2+({R()})*a*b)'
        elif k in (1, 2, 3):
            x = sp.Rational(rng.randint(80, 260), 100)
            y = sp.Rational(rng.randint(0, 120), 100)
            # around the region 3 <= 6x+y <= 6 of the cubic solver
            w = (3 if k == 1 else 4 if k == 2 else 5) + y - 6 * x
            t = f'CYC(-a**3+({x})*(a**2*b+a**2*c)+({w})/3*a*b*c)'
        elif k == 4:
            t = f'CYC(({R(-6, 8)})*a**3+({R(-4, 9)})*a**2*b+({R(-4, 9)})*a*b**2+({R()})*a*b*c)'
        elif k in (5, 6):
            # s((b^2+c^2-a^2) * quadratic) plus a square
            u, v = R(-4, 4), R(-4, 4)
            t = f'CYC((b**2+c**2-a**2)*(a*({u})+b*({v})+c*({R(-3, 3)}))**2*({R(0, 5)})+({R(0, 4)})*(b**2+c**2-a**2)*a*b)'
        elif k == 7:
            t = f'CYC(({R(-6, 8)})*a**4+({R()})*a**3*b+({R()})*a**2*b**2+({R()})*a*b**3+({R()})*a**2*b*c)'
        else:
            t = f'((a-b)*(b-c)*(c-a))**2*({R(0, 6)})+(b**2+c**2-a**2)*(c**2+a**2-b**2)*(a**2+b**2-c**2)*({R(0, 6)})+CYC(({R(0, 5)})*(a-b)**2*(b**2+c**2-a**2)*(a**2+c**2-b**2))+({R(0, 5)})*CYC((a-b)**2*(a-c)**2*a**2+a**2*(a-c)**2*(a-b)**2)'
        out.append({'oracle': 'named', 'args': [t, 'abc', rng.choice(sets[:3])]})
    rng.shuffle(out)
    return cs + out
