"""Helpers that turn numeric answers into exact ones, and rewriting helpers of the solvers."""
import importlib, itertools, random, sys
import sympy as sp
from . import fncheck, sos, engine
from .fncheck import FnTask, params
from .linalg import patched, nonzero, positive
from .sos import Proxy, is_sym
from .cyc import value, plain
from .oracles import oracle, rat_identity, Declined

SU = 'triples.core.structsos.utils'
TU = 'triples.core.structsos.ternary.utils'
RR = 'triples.utils.roots.rationalize'
SR = 'triples.sdp.rationalize'
UT = 'triples.sdp.utils'
AB = 'triples.sdp.abstract'
a, b, c = sp.symbols('a b c')
x = sp.Symbol('x')


def mod(n):
    importlib.import_module(n)
    return sys.modules[n]


def setup():
    fncheck.setup([SU, TU, RR, SR, UT, AB])()


# ---------------------------------------------------------------- rationalize_func
def rfunc_task(kind, direction, initial):
    """kind: 'poly' (numeric roots may be anything, rational ones are exact) or 'number'"""
    def body(run):
        m = mod(SU)
        asked = []

        def validation(t):
            r = run.decide(2, 'validation') == 0
            asked.append((t, r))
            return r
        vi = (lambda t: run.decide(2, 'rough') == 0) if initial else None
        exact = []

        def st_nroots(p, *args, **kw):
            out = []
            for i in range(2):
                if run.decide(2, 'rational root') == 0:
                    t = engine.mark_rational(run.fresh('r'))
                    run.assume(engine.hook_cmp('eq', p(t), 0)) if kw.get('method', args[0] if args else 'numpy') == 'factor' else None
                    exact.append(t)
                else:
                    t = engine.approx_param('r')
                out.append(t)
            return out

        def st_bound(v, direction=1, roundings=None, compulsory=True):
            for i in range(2):
                yield engine.mark_rational(run.fresh('q'))
        if kind == 'poly':
            u, v = params(run, ['u', 'v'])
            poly = sp.Poly(u * x + v, x, domain=sp.QQ.frac_field(u, v))
            nonzero(run, u)
        else:
            poly = engine.mark_rational(params(run, ['k'])[0])
        spx = Proxy(sp, {'sign': lambda e: e if is_sym(e) else sp.sign(e)})
        with patched(m, nroots=st_nroots, rationalize_bound=st_bound, sp=spx):
            args = (validation,) + ((vi,) if initial else ())
            t = m.rationalize_func(poly, *args, **({'direction': direction} if direction else {}))
        if t is None:
            return []
        obs = [('true', 'the number was accepted by the condition', any(e is t and r for e, r in asked)),
               ('true', 'the number is rational', t in getattr(run, 'rational_syms', ()))]
        if kind == 'poly' and direction:
            obs.append(('sign', 'the polynomial has the requested sign', poly.as_expr().subs(x, t) * direction, {0, 1}))
        return obs
    return FnTask(f'rationalize_func[{kind}, direction {direction}{", rough test" if initial else ""}]', body, None, must_return=True, key=(SU, 'rationalize_func'))


def bound_task(direction, compulsory, rational=False):
    def body(run):
        m = mod(RR)
        v = params(run, ['v'])[0]
        if rational:
            engine.mark_rational(v)
        else:
            run.approx = {v}
        fresh = lambda *args, **k: engine.mark_rational(run.fresh('q'))
        with patched(m, rationalize=fresh, sp=Proxy(sp, {'nsimplify': fresh})):
            g = m.rationalize_bound(v, direction=direction, compulsory=compulsory, **({'roundings': (.5, .1) if not compulsory else (.5,)} if not rational else {}))
            out = list(itertools.islice(g, 2))
        if rational:
            return [('true', 'a rational number is its own bound', out == [v])]
        obs = [('true', 'rational', all(q in run.rational_syms for q in out))]
        if direction:
            obs += [('sign', 'on the requested side', (q - v) * direction, {0, 1}) for q in out]
        return obs
    return FnTask(f'rationalize_bound[direction {direction}, compulsory {compulsory}{", rational" if rational else ""}]', body, None, must_return=True, key=(RR, 'rationalize_bound'))


def square_task(times):
    def body(run):
        m = mod(RR)
        p, q = params(run, ['p', 'q'])
        for s in (p, q):
            engine.mark_rational(s)
            positive(run, s)
        run.assume(engine.hook_cmp('ne', p, q))
        spx = Proxy(sp, {'Rational': lambda e: e if is_sym(e) else sp.Rational(e)})
        with patched(m, sp=spx):
            ts = list(m.square_perturbation(p, q, times=times))
        obs = []
        for t in ts:
            obs += [('sign', 't >= 0', t, {0, 1}), ('sign', 't <= a', p - t, {0, 1}), ('sign', 't <= b', q - t, {0, 1})]
            n, d = sp.fraction(sp.cancel((p - t) / (q - t)))
            k, fs = sp.factor_list(sp.expand(n * d))
            obs.append(('true', '(a - t)/(b - t) is the square of a rational number', all(e % 2 == 0 for f, e in fs) and sp.sqrt(k).is_Rational))
        return obs
    return FnTask(f'square_perturbation[{times} steps]', body, 'square', must_return=True, key=(RR, 'square_perturbation'))


@oracle
def square(p, q, times=4):
    p, q = sp.Rational(p), sp.Rational(q)
    for t in mod(RR).square_perturbation(p, q, times=times):
        r = (p - t) / (q - t) if q != t else sp.S(0)
        if not (0 <= t <= min(p, q)) or not sp.sqrt(r).is_Rational or not isinstance(t, sp.Rational):
            return {'call': f'square_perturbation({p},{q},{times})', 'result': str(t)}


def nroots_task(degs, real, nonneg):
    """rational roots listed with method='factor' are exact"""
    def body(run):
        m = mod(RR)
        parts = []
        for i, d in enumerate(degs):
            cs = params(run, [f'u{i}_{j}' for j in range(d + 1)])
            nonzero(run, cs[0])
            parts.append(sp.Poly(sum(cs[j] * x**(d - j) for j in range(d + 1)), x, domain=sp.QQ.frac_field(*cs)))

        class P:
            def factor_list(self):
                return sp.S(1), [(p, 1 + i) for i, p in enumerate(parts)]
        ap = []

        def st(p, *args, **k):
            ap.append(engine.approx_param('z'))
            return [ap[-1]]
        with patched(m, sp=Proxy(sp, {'polys': Proxy(sp.polys, {'nroots': st})})):
            r = m.nroots(P(), method='factor', real=real, nonnegative=nonneg)
        obs = []
        lin = [p for p in parts if p.degree() == 1]
        ex = [t for t in r if t not in ap]
        for t in ex:
            obs.append(('true', 'a rational root belongs to a linear factor', bool(lin)))
            if len(lin) == 1:
                obs.append(('eq', 'a rational root is exact', lin[0].as_expr().subs(x, t), 0))
            else:
                obs.append(('eq', 'a rational root is exact', sp.Mul(*[p.as_expr().subs(x, t) for p in lin]), 0))
        return obs
    return FnTask(f'nroots[factor, degrees {list(degs)}, real {real}, nonnegative {nonneg}]', body, None, must_return=True, key=(RR, 'nroots'))


@oracle
def approx(kind, *args):
    """exactness of numeric helpers on concrete numbers"""
    m = mod(RR)
    if kind == 'bound':
        v, d = sp.Float(args[0], 30) if '.' in args[0] else sp.sympify(args[0]), args[1]
        if v.is_Rational:
            if list(m.rationalize_bound(v, direction=d)) != [v]:
                return {'call': f'rationalize_bound({v},{d})'}
            return None
        for q in m.rationalize_bound(v, direction=d):
            if not isinstance(q, sp.Rational) or d * (q - v) < 0 or d and q == v:
                return {'call': f'rationalize_bound({v},{d})', 'result': str(q)}
    if kind == 'nroots':
        p = sp.Poly(args[0], x)
        for r in m.nroots(p, method='factor', real=True):
            if isinstance(r, sp.Rational) and p(r) != 0:
                return {'call': f'nroots({p},factor)', 'result': str(r)}
    if kind == 'intervals':
        p = [sp.Poly(t, x) for t in args[0]]
        for r in m.univariate_intervals(p):
            if not isinstance(r, sp.Rational):
                return {'call': f'univariate_intervals({p})', 'result': str(r)}
    if kind == 'rfunc':
        p, cond, d = sp.Poly(args[0], x), sp.Poly(args[1], x), args[2]
        t = mod(SU).rationalize_func(p, lambda t: cond(t) >= 0, direction=d)
        if t is not None and (not isinstance(t, sp.Rational) or cond(t) < 0 or d * p(t) < 0):
            return {'call': f'rationalize_func({p.as_expr()}, {cond.as_expr()} >= 0, direction={d})', 'result': str(t)}


# ---------------------------------------------------------------- weights and values
def weighting_task(formal, case):
    def body(run):
        m = mod(SU)
        c1, c2, c3 = cs = [s if k == 's' else sp.S(0) for s, k in zip(params(run, ['c1', 'c2', 'c3']), case)]
        run.oracle_args = [cs]
        with patched(m, radsimp=lambda e: e):
            r = m.quadratic_weighting(c1, c2, c3, formal=True) if formal == 'list' else \
                m.quadratic_weighting(c1, c2, c3, mapping=lambda u, v: (u * a - v * b)**2) if formal == 'map' else m.quadratic_weighting(c1, c2, c3, a**2 - b, c) if formal == 'basis' else m.quadratic_weighting(c1, c2, c3)
        if r is None:
            return [('infeasible', 'None although the form is nonnegative', [(4 * c1 * c3 - c2**2, {0, 1}), (c1, {0, 1}), (c3, {0, 1})])]
        u, v = {'map': (a, -b), 'basis': (a**2 - b, c)}.get(formal, (a, b))
        want = c1 * u**2 + c2 * u * v + c3 * v**2
        if formal == 'list':
            obs = [('sign', 'weights >= 0', w, {0, 1}) for w, xy in r]
            return obs + [('eq', 'sum of weighted squares', sum(w * (p * a + q * b)**2 for w, (p, q) in r), want)]
        return [('eq', 'sum of weighted squares', r, want)]
    return FnTask(f'quadratic_weighting[{formal}, {case}]', body, 'weighting', must_return=True, key=(SU, 'quadratic_weighting'))


def same_numerically(u, v):
    free = sorted(u.free_symbols | v.free_symbols, key=str)
    return all(abs(sp.N((u - v).subs({s: sp.Rational(k * j + 2, 7 + j) for k, s in enumerate(free, 1)}), 40)) < 1e-30 for j in (1, 2, 3))


@oracle
def weighting(cs):
    c1, c2, c3 = map(sp.sympify, cs)
    r = mod(SU).quadratic_weighting(c1, c2, c3, formal=True)
    call = f'quadratic_weighting({c1},{c2},{c3})'
    psd = bool(4 * c1 * c3 >= c2**2 and c1 >= 0 and c3 >= 0)
    if (r is not None) != psd:
        return {'call': call, 'result': str(r), 'positive semidefinite': psd}
    if r is None:
        return None
    for f, e in (('list', sum(w * (p * a + q * b)**2 for w, (p, q) in r)), ('expression', mod(SU).quadratic_weighting(c1, c2, c3, a, b))):
        want = c1 * a**2 + c2 * a * b + c3 * b**2
        if not rat_identity(e, want) and not same_numerically(e, want):
            return {'call': call, f: str(e)}
    if any(w < 0 for w, _ in r):
        return {'call': call, 'negative weight': str(r)}


def radsimp_task(name, build):
    def body(run):
        m = mod(SU)
        ps = params(run, ['p', 'q', 'r', 's'])
        e = build(*ps)
        run.oracle_args = [str(e)]
        got = m.radsimp(e)
        if isinstance(e, (list, sp.MatrixBase)):
            return [('true', 'one result per entry', len(got) == len(e))] + [('eq', 'value', u, v) for u, v in zip(got, e)]
        return [('eq', 'value', got, sp.sympify(e))]
    return FnTask(f'radsimp[{name}]', body, 'radsimp_value', must_return=True, key=(SU, 'radsimp'))


s2, s3, s5 = sp.sqrt(2), sp.sqrt(3), sp.sqrt(5)
RAD = [('number', lambda p, q, r, s: (1 + s2) / (s3 - s2)), ('linear', lambda p, q, r, s: (p + q * s2) / (r * s2 + 3)), ('three', lambda p, q, r, s: (p + q * s3) / (1 + s2 + s3)),
       ('polynomial', lambda p, q, r, s: (p * a + q * b)**2 / (1 - s2) + s * a), ('symbolic', lambda p, q, r, s: (p + s2) / (q + r * a)), ('int', lambda p, q, r, s: 3),
       ('list', lambda p, q, r, s: [p / s2, q / (1 + s3), sp.S(2)]), ('matrix', lambda p, q, r, s: sp.Matrix([[p / s2, q], [1 / (s3 + s2), s]])), ('nested', lambda p, q, r, s: p / (q + 1 / (s + s2)) + r / s5),
       ('power', lambda p, q, r, s: (p + s2)**-2 + q / 2**sp.Rational(1, 3)), ('fraction', lambda p, q, r, s: (p - q) / (6 * s2 * r) - s / 7)]


@oracle
def radsimp_value(text):
    e = sp.sympify(text)
    if isinstance(e, sp.MatrixBase):
        e = list(e)
    es = e if isinstance(e, list) else [e]
    r = mod(SU).radsimp(e)
    rs = r if isinstance(e, list) else [r]
    for u, v in zip(rs, es):
        if not rat_identity(u, v) and not same_numerically(u, v):
            return {'call': f'radsimp({v})', 'result': str(u)}


def CS(e, G=None, P=False):
    cyc = importlib.import_module('triples.utils.expression.cyclic')
    from sympy.combinatorics import CyclicGroup
    return (cyc.CyclicProduct if P else cyc.CyclicSum)(e, (a, b, c), G or CyclicGroup(3))


F = sp.Function('F')
EXPRS = [('squares', lambda: [(a - b)**2, (b - c)**2, a * b * c]), ('cyclic', lambda: [CS(a * (a - b)**2), CS(a**2), CS(a, P=True)]),
         ('opaque', lambda: [F(a, b, c), CS(F(a, b, c)), CS(F(b, c), P=True)]), ('fractions', lambda: [F(a) / (a + b), CS(a**2 * (b - c)**2) / CS(a), 1 / (a * b)]),
         ('numbers', lambda: [sp.S(1), s2 * a, CS(a**2 * s3 + b) / 2])]


def sumy_task(name, exprs, vals):
    def body(run):
        m = mod(SU)
        p, q, r = params(run, ['p', 'q', 'r'])
        ys = {'symbolic': [p, q, r], 'zeros': [p, sp.S(0), r], 'radicals': [p + q * s2, r / (1 + s3), sp.S(2)], 'ints': [2, 0, sp.Rational(3, 4)]}[vals]
        es = exprs()
        run.oracle_args = ['sum_y_exprs', name, list(ys)]
        with patched(m, radsimp=lambda e: e):
            got = m.sum_y_exprs(ys, es)
        return [same(got, sum(sp.sympify(y) * e for y, e in zip(ys, es)))]
    return FnTask(f'sum_y_exprs[{name}, {vals}]', body, 'rearranged', must_return=True, key=(SU, 'sum_y_exprs'))


# ---------------------------------------------------------------- substitutions of the ternary solvers
def swap(e):
    return e.xreplace({b: c, c: b})


def reflect_shapes():
    G = F
    yield 'symbol', lambda: b
    yield 'function', lambda: G(a, b, c)
    yield 'cyclic sum', lambda: CS(G(a, b, c))
    yield 'cyclic product', lambda: CS(G(a, b), P=True)
    yield 'product', lambda: G(b) * CS(a * b**2) * CS(a, P=True)
    yield 'sum', lambda: 3 * CS(a**2 * b) + G(c, b) + sp.Rational(1, 2) * CS(G(a, c))
    yield 'power', lambda: CS(a * (b - 2 * c)**2)**2 / CS(a)
    yield 'nested', lambda: CS(a * CS(a**2 * b) + b)
    yield 'number', lambda: sp.S(2)


def inverse_shapes():
    for i, j, k in itertools.product(range(4), repeat=3):
        if i + j + k <= 6:
            yield f'cyclic {i}{j}{k}', lambda i=i, j=j, k=k: CS(a**i * b**j * c**k * F(a, b, c)), 0
    for i, j, k in ((2, 1, 1), (1, 0, 0), (0, 2, 1)):
        yield f'plain {i}{j}{k}', lambda i=i, j=j, k=k: CS(a**i * b**j * c**k), 0
        yield f'squares {i}{j}{k}', lambda i=i, j=j, k=k: CS(a**i * b**j * c**k * (F(a) - F(b, c))**2), 1
    for i in (1, 2, 3):
        yield f'product {i}', lambda i=i: CS(a**i, P=True) * CS(a), 0
        yield f'power of a product {i}', lambda i=i: CS(a, P=True)**i + CS(F(a, b)), 2
    yield 'sum', lambda: 2 * CS(a * b * (a - b)**2) + sp.Rational(3, 2) * CS(a**2 * b * c), 2
    yield 'fraction', lambda: CS(a**2 * b) * CS(F(a)) / CS(a), 0
    yield 'number', lambda: sp.S(3) + CS(a), 1
    yield 'products of functions', lambda: CS(F(a), P=True) * CS(a**2 * b**2 * c**3 * F(b)), 1




def same(l, r):
    return ('eq', 'value', plain(value(sp.sympify(l))), plain(value(sp.sympify(r))))


def expr_task(fn, name, build, want, *args):
    def body(run):
        e = build()
        run.oracle_args = [fn, name, list(args)]
        return [same(getattr(mod(TU), fn)(e, *args), want(e))]
    return FnTask(f'{fn}[{name}{", factor " + str(args[0]) if args else ""}]', body, 'rearranged', must_return=True, key=(TU, fn))


@oracle
def rearranged(fn, name, args):
    if fn == 'sum_y_exprs':
        ys = [sp.sympify(y) for y in args]
        es = dict(EXPRS)[name]()
        got, want = mod(SU).sum_y_exprs(ys, es), value(sp.Add(*[y * e for y, e in zip(ys, es)]))
    elif fn == 'reflect_expression':
        e = dict(reflect_shapes())[name]()
        got, want = mod(TU).reflect_expression(e), swap(value(e))
    else:
        e = {n: f for n, f, _ in inverse_shapes()}[name]()
        got, want = mod(TU).inverse_substitution(e, *args), inverse_want(e, args[0] if args else 0)
    d = plain(value(sp.sympify(got))) - plain(want)
    d = d.replace(F, lambda *u: sum((k + 1) * v**(k + 1) for k, v in enumerate(u)) + 1)
    for pt in ((2, 3, 5), (sp.Rational(1, 2), 4, 7), (3, 1, sp.Rational(5, 3))):
        v = sp.expand(sp.radsimp(d.xreplace(dict(zip((a, b, c), map(sp.S, pt))))))
        if v != 0 and abs(sp.N(v, 30)) > 1e-15:
            return {'call': f'{fn}({name}: {args})', 'result': str(got)[:300], 'at': str(pt), 'difference': str(v)}


def inverse_want(e, k):
    return value(e).xreplace({a: b * c, b: c * a, c: a * b}) / (a * b * c)**k


def centre_task(d, missing):
    """the centring decorator around a solver that returns any certificate of the polynomial it is given"""
    def body(run):
        m = mod(TU)
        Coeff = importlib.import_module('triples.utils.expression.coeff').Coeff
        co = sos.generic_coeff(3, d, sos.CYC[3], name='x')
        run.inputs = run.inputs + sorted({v for v in co.values()}, key=str)
        run.input_syms = set(run.inputs)
        if missing:
            dd, dm = divmod(d, 3)
            drop = sos.orbit_rep((dd, dd + (dm >= 2), dd + (dm >= 1)), sos.CYC[3])
            co = {k: v for k, v in co.items() if sos.orbit_rep(k, sos.CYC[3]) != drop}
        seen = []
        run.oracle_args = [[[list(k), v] for k, v in co.items()]]

        def solver(p, *args, **kw):
            seen.append((p, args, kw))
            return None if run.decide(2, 'solver') == 1 else sp.Add(*[v * a**i * b**j * c**k for (i, j, k), v in p.coeffs.items()])
        co0 = dict(co)
        P = Coeff(dict(co))
        r = m.sos_struct_handle_uncentered(solver)(P, 'arg', real=False)
        e = sp.Add(*[v * a**i * b**j * c**k for (i, j, k), v in co0.items()])
        tot = sp.Add(*co0.values())
        obs = [('true', 'the argument is left as it was', P.coeffs == co0)]
        if not seen:
            return obs + [('true', 'no certificate without a solver', r is None), ('sign', 'refused only if the value at (1,1,1) is negative', tot, {-1})]
        q, args, kw = seen[0]
        obs += [('true', 'arguments are passed on', args == ('arg',) and kw == {'real': False}), ('eq', 'the inner polynomial vanishes at (1,1,1)', sp.Add(*q.coeffs.values()), 0)]
        obs += [('eq', 'the inner polynomial is cyclic', q.coeffs.get((i, j, k), 0), q.coeffs.get((j, k, i), 0)) for i, j, k in q.coeffs]
        if r is not None:
            obs.append(('eq', 'value', value(r), e))
            obs.append(('sign', 'the added term is nonnegative', tot, {0, 1}))
        return obs
    return FnTask(f'sos_struct_handle_uncentered[degree {d}{", centre missing" if missing else ""}]', body, 'centred', must_return=True, key=(TU, 'sos_struct_handle_uncentered'))


@oracle
def centred(items):
    Coeff = importlib.import_module('triples.utils.expression.coeff').Coeff
    co = {tuple(k): sp.sympify(v) for k, v in items}
    expr = lambda q: sp.Add(*[v * a**i * b**j * c**k for (i, j, k), v in q.items()])
    seen = []

    def solver(p, *args, **kw):
        seen.append(dict(p.coeffs))
        return expr(p.coeffs)
    P = Coeff(dict(co))
    r = mod(TU).sos_struct_handle_uncentered(solver)(P)
    tot = sum(co.values())
    d = {'coefficients': str(co), 'value at (1,1,1)': str(tot), 'passed to the solver': str(seen), 'result': str(r)}
    if P.coeffs != co or (not seen and r is not None) or (not seen and tot >= 0):
        return d
    if seen and (sum(seen[0].values()) != 0 or any(seen[0].get((j, k, i), 0) != v for (i, j, k), v in seen[0].items())):
        return d
    if r is not None and (tot < 0 or sp.expand(value(r) - expr(co)) != 0):
        return d


def perturb_task():
    """try_perturbations: poly = solution(poly - t*perturbation) + t*perturbation"""
    def body(run):
        m = mod(TU)
        co = sos.generic_coeff(3, 4, sos.CYC[3], name='x')
        run.inputs = run.inputs + sorted({v for v in co.values()}, key=str)
        run.input_syms = set(run.inputs)
        p, q = params(run, ['p', 'q'])
        e = sp.Add(*[v * a**i * b**j * c**k for (i, j, k), v in co.items()])
        poly = sp.Poly(e, a, b, c, domain=sp.QQ.frac_field(*run.inputs))
        pert = CS((a**2 - a * b + 2 * c**2)**2)
        ts = []

        def st_square(*args, **k):
            for i in range(2):
                t = engine.mark_rational(run.fresh('t'))
                run.facts[run.ring.canon(run.ring.conv(t)[0])[0]] = ({0, 1}, run.ring.conv(t)[0])
                ts.append(t)
                yield t
        got = []

        def solver(cf, *args, **kw):
            got.append(cf)
            return None if run.decide(2, 'solver') == 1 else sp.Add(*[v * a**i * b**j * c**k for (i, j, k), v in cf.coeffs.items()])
        fake = Proxy(sys.modules['triples.core.structsos'], {})
        SS = Proxy(sys, {'structsos': Proxy(sys, {'ternary': Proxy(sys, {'_structural_sos_3vars_cyclic': solver})})})
        with patched(m, square_perturbation=st_square, SS=SS):
            r = m.try_perturbations(poly, p, q, pert)
        if r is None:
            return []
        return [('eq', 'value', value(r), e)]
    return FnTask('try_perturbations', body, None, must_return=True, key=(TU, 'try_perturbations'))


# ---------------------------------------------------------------- rationalised matrices
def decompose_task(n_keys, proj, pretty, reg, matrix, perturb=False):
    def body(run):
        m = mod(SR)
        keys = ['A', 'B'][:n_keys]
        y0 = params(run, ['y0', 'y1'])
        W = {k: sp.Matrix(2, 2, lambda i, j: run.fresh('w')) for k in keys}
        V = {k: sp.Matrix(2, 2, lambda i, j: run.fresh('v')) for k in keys}

        def mats(y):
            return {k: W[k] + V[k] * y[0] + V[k].T * y[1] for k in keys}
        offered, made = [], []

        class Rz(m.Rationalizer):
            def __call__(self, y):
                for i in range(2):
                    v = sp.Matrix([run.fresh('z'), run.fresh('z')])
                    offered.append(v)
                    yield v
        g = params(run, ['g'])[0] if reg else 0
        if reg:
            nonzero(run, g)

        def st_cong(S, perturb=False):
            if run.decide(2, 'psd') == 1:
                return None
            U, d = sp.Matrix(2, 2, lambda i, j: run.fresh('u')), sp.Matrix([run.fresh('d'), run.fresh('d')])
            made.append((S, U, d, perturb))
            return U, d
        verd = {}

        def st_pretty(y, threshold=None):
            verd[id(y)] = run.decide(2, 'pretty') == 0
            return verd[id(y)]
        P = (lambda y: sp.Matrix([y[0] + 2 * y[1], y[1] - 3])) if proj else None
        with patched(m, congruence_with_perturbation=st_cong, verify_is_pretty=st_pretty):
            y = sp.Matrix(y0) if matrix else list(y0)
            r = m.rationalize_and_decompose(y, mats, projection=P, rationalizers=[Rz()], reg=g, check_pretty=pretty, **({'perturb': True} if perturb else {}))
        if r is None:
            return [('true', 'every offer was examined', len(offered) == 2 or matrix)]
        yy, D = r
        base = [sp.Matrix(y0)] if matrix else [v for v in offered if not pretty or verd.get(id(v))]
        obs = [('true', 'the vector is one that was offered (and projected)', any(yy == (P(v) if P else v) for v in base)), ('true', 'a decomposition for each matrix', set(D) == set(keys))]
        want = mats(yy)
        for k in D:
            S, U, d = D[k]
            obs += [('eq', 'the matrix belongs to the vector', S[i, j], want[k][i, j] + (g if i == j else 0)) for i in range(2) for j in range(2)]
            obs.append(('true', 'the decomposition belongs to the matrix', any(S is S1 or S == S1 for S1, U1, d1, p1 in made if U1 is U and d1 is d)))
            obs.append(('true', 'no perturbation unless requested', all(p1 == perturb for S1, U1, d1, p1 in made)))
        return obs
    return FnTask(f'rationalize_and_decompose[{n_keys} matrices{", projection" if proj else ""}{", pretty" if pretty else ""}{", reg" if reg else ""}{", exact vector" if matrix else ""}{", perturb" if perturb else ""}]',
                  body, None, must_return=True, key=(SR, 'rationalize_and_decompose'))


def perturbation_task(empty):
    def body(run):
        m = mod(UT)
        calls = []

        def st(M, signfunc=None):
            calls.append(M)
            return None if run.decide(2, 'psd') == 1 else ('U', 'S')
        M = sp.zeros(0, 0) if empty else sp.Matrix([[params(run, ['p'])[0], 1], [1, 2]])
        with patched(m, congruence=st):
            r = m.congruence_with_perturbation(M)
        if empty:
            return [('true', 'an empty matrix has an empty decomposition', len(r) == 2 and r[0].shape == (0, 0) and len(r[1]) == 0)]
        return [('true', 'without perturbation the matrix itself is decomposed', len(calls) == 1 and calls[0] == M), ('true', 'the answer is passed on', r is None or r == ('U', 'S'))]
    return FnTask(f'congruence_with_perturbation[{"empty" if empty else "no perturbation"}]', body, None, must_return=True, key=(UT, 'congruence_with_perturbation'))


@oracle
def rational_psd(y, mats, space, proj=False, reg='0'):
    """numpy vector -> exact decompositions of C + sum y_i B_i"""
    import numpy as np
    m = mod(SR)
    C = [sp.Matrix([[sp.Rational(v) for v in r] for r in M]) for M in mats]
    B = [[sp.Matrix([[sp.Rational(v) for v in r] for r in M]) for M in Ms] for Ms in space]
    f = lambda y: {str(k): C[k] + sum((y[i] * B[k][i] for i in range(len(y))), sp.zeros(*C[k].shape)) for k in range(len(C))}
    yv = np.array([float(sp.Rational(v)) for v in y]) + 1e-9
    g = sp.Rational(reg)
    kw = {'projection': lambda v: sp.Matrix([v[0]] + [2 * v[0] + 1 for _ in v[1:]])} if proj else {}
    r = m.rationalize_and_decompose(yv, f, **kw, reg=g, rationalizers=[m.RationalizeWithMask(), m.RationalizeSimultaneously([1, 1260, 1260**3])])
    if r is None:
        return None
    yy, D = r
    want = {k: M + g * sp.eye(M.shape[0]) for k, M in f(list(yy)).items()}
    bad = [k for k in D if sp.Matrix(D[k][0]) != want[k] or D[k][1].T * sp.diag(*D[k][2]) * D[k][1] != want[k] or any(v < 0 for v in D[k][2])]
    if bad or set(D) != set(want) or not all(v.is_Rational for v in yy) or len(yy) != len(y) or (proj and any(v != 2 * yy[0] + 1 for v in yy[1:])):
        return {'call': f'rationalize_and_decompose({list(yv)})', 'y': str(list(yy)), 'matrices': bad}


def sdp_node(m, run, mats, keys, dof, log):
    """an SDP problem of which the matrices are symbolic and the numerical solver and the rounding return anything"""
    class Node(m.SDPProblemBase):
        def keys(self, filter_none=False):
            return list(keys)

        @property
        def dof(self):
            return dof

        def S_from_y(self, y=None):
            return mats(y)

        def _get_defaulted_configs(self):
            return [[0, 0], [[], []], [0, 0]]

        def _solve_numerical_sdp(self, **kw):
            if run.decide(2, 'solved') == 1:
                return None
            v = sp.Matrix([run.fresh('n') for _ in range(dof)])
            log['numeric'].append(v)
            return v

        def propagate_to_parent(self, *a, **k):
            log['propagated'] += 1
    return Node()


class _Mean:
    """numpy's mean of the numerical solutions: any vector"""
    def __init__(self, run, dof):
        self.run, self.dof = run, dof

    def array(self, ys):
        return self

    def mean(self, axis=0):
        return sp.Matrix([self.run.fresh('n') for _ in range(self.dof)])


def solve_task(allow, n_keys, given, propagate):
    def body(run):
        m = mod(AB)
        keys, dof = ['A', 'B'][:n_keys], 2
        W = {k: sp.Matrix(2, 2, lambda i, j: run.fresh('w')) for k in keys}
        V = {k: sp.Matrix(2, 2, lambda i, j: run.fresh('v')) for k in keys}
        mats = lambda y: {k: W[k] + V[k] * y[0] + V[k].T * y[1] for k in keys}
        log = {'numeric': [], 'propagated': 0}
        made, exact = [], []

        def st_cong(S, perturb=False):
            if run.decide(2, 'psd') == 1:
                return None
            U, d = sp.Matrix(2, 2, lambda i, j: run.fresh('u')), sp.Matrix([run.fresh('d'), run.fresh('d')])
            made.append((S, U, d, perturb))
            return U, d

        def st_rational(y, mat_func=None, projection=None, perturb=False, **kw):
            if run.decide(2, 'rational') == 1:
                return None
            v = sp.Matrix([run.fresh('z') for _ in range(dof)])
            D = {}
            for k, S in mat_func(v).items():
                U, d = sp.Matrix(2, 2, lambda i, j: run.fresh('u')), sp.Matrix([run.fresh('d'), run.fresh('d')])
                made.append((S, U, d, perturb))
                D[k] = (S, U, d)
            exact.append(v)
            return v, D
        node = sdp_node(m, run, mats, keys, dof, log)
        cfg = dict(objective=[0, 0][:given], constraints=[[], []][:given], min_eigen=[0, 0][:given]) if given else {}
        with patched(m, congruence_with_perturbation=st_cong, rationalize_and_decompose=st_rational, np=_Mean(run, dof)):
            try:
                ok = node.solve(allow_numer=allow, propagate_to_parent=propagate, **cfg)
            except (m.SDPRationalizeError, ValueError):
                return [('true', 'an error is raised only when a numerical solution could not be made one of the programme', bool(log['numeric']) and not exact),
                        ('true', 'an error is raised only when a numerical solution is refused', allow in (0, 2, 3) and (allow != 0 or not made))]
        obs = [('true', 'each configuration is tried at most once', len(log['numeric']) <= (given or 2)), ('true', 'the answer says whether it was solved', ok is True or ok is False),
               ('true', 'the parent is informed as requested', log['propagated'] == int(propagate))]
        if not ok:
            return obs + [('true', 'nothing is registered without a solution', node.y is None and node.S is None and node.decompositions is None),
                          ('true', 'unsolved only when no solution was made', not exact)]
        y = node.y
        obs += [('true', 'the registered point was found', any(y is v for v in (exact if allow < 2 else exact + log['numeric']))), ('true', 'a matrix and a decomposition for each key', list(node.S) == keys and list(node.decompositions) == keys)]
        want = mats(y)
        for k in keys:
            obs += [('eq', f'matrix {k} belongs to the point', node.S[k][i, j], want[k][i, j]) for i in range(2) for j in range(2)]
            dec = node.decompositions[k]
            ok2 = len(dec) == 2
            obs.append(('true', f'decomposition {k} consists of a matrix and a diagonal', ok2))
            if ok2:
                mine = [t for t in made if t[1] is dec[0] and t[2] is dec[1]]
                obs.append(('true', f'decomposition {k} is one of the matrix {k}', len(mine) == 1 and mine[0][0] == node.S[k]))
                obs.append(('true', f'decomposition {k} is exact unless a numerical solution is accepted', bool(mine) and (allow >= 1 or not mine[0][3])))
        return obs
    return FnTask(f'SDPProblemBase.solve[allow_numer {allow}, {n_keys} matrices, {given or "default"} configurations{", to the parent" if propagate else ""}]', body, None, must_return=True, key=(AB, 'SDPProblemBase.solve'))


def register_task(project, given, perturb, propagate):
    def body(run):
        m = mod(AB)
        keys, dof = ['A', 'B'], 2
        W = {k: sp.Matrix(2, 2, lambda i, j: run.fresh('w')) for k in keys}
        mats = lambda y: {k: W[k] * y[0] + W[k].T * y[1] for k in keys}
        log, made, moved = {'numeric': [], 'propagated': 0}, [], []

        def st_cong(S, perturb=False):
            if run.decide(2, 'psd') == 1:
                return None
            U, d = sp.Matrix(2, 2, lambda i, j: run.fresh('u')), sp.Matrix([run.fresh('d'), run.fresh('d')])
            made.append((S, U, d, perturb))
            return U, d
        node = sdp_node(m, run, mats, keys, dof, log)

        def pr(y):
            if run.decide(2, 'feasible') == 0:
                return y
            moved.append(sp.Matrix([run.fresh('p') for _ in range(dof)]))
            return moved[-1]
        if project:
            node.project = pr
        y = sp.Matrix(params(run, ['y0', 'y1']))
        with patched(m, congruence_with_perturbation=st_cong):
            try:
                node.register_y(y, project=given, perturb=perturb, propagate_to_parent=propagate)
            except ValueError:
                return [('true', 'refused only when infeasible', (bool(moved) and not given) or len(made) < 2), ('true', 'nothing is registered', node.y is None and node.S is None and node.decompositions is None)]
        at = moved[-1] if moved else y
        want = mats(at)
        obs = [('true', 'the point is registered', node.y is at), ('true', 'a point moved by the projection is registered only on request', given or not moved), ('true', 'the parent is informed as requested', log['propagated'] == int(propagate)),
               ('true', 'a matrix and a decomposition for each key', list(node.S) == keys and list(node.decompositions) == keys)]
        for k in keys:
            obs += [('eq', f'matrix {k} belongs to the point', node.S[k][i, j], want[k][i, j]) for i in range(2) for j in range(2)]
            mine = [t for t in made if t[1] is node.decompositions[k][0] and t[2] is node.decompositions[k][1]]
            obs.append(('true', f'decomposition {k} is one of the matrix {k}', len(mine) == 1 and mine[0][0] == node.S[k] and mine[0][3] == perturb))
        return obs
    return FnTask(f'register_y[{"projection" if project else "no projection"}{", allowed" if given else ""}{", perturb" if perturb else ""}{", to the parent" if propagate else ""}]', body, None, must_return=True, key=(AB, 'SDPProblemBase.register_y'))


@oracle
def solved(mats, space, allow, given=False):
    """SDPProblem.solve on a small programme: what it registers"""
    sd = mod('triples.sdp')
    C = [sp.Matrix([[sp.Rational(v) for v in r] for r in M]) for M in mats]
    B = [[sp.Matrix([[sp.Rational(v) for v in r] for r in M]) for M in Ms] for Ms in space]
    vec = lambda M: sp.Matrix(list(M))
    xs = {f'S{k}': (vec(C[k]), sp.Matrix.hstack(*[vec(b) for b in B[k]])) for k in range(len(C))}
    node = sd.SDPProblem(xs)
    kw = {'objective': [0], 'constraints': [[]], 'min_eigen': [0]} if given else {}
    try:
        if not node.solve(allow_numer=allow, **kw):
            return None
    except Exception as e:
        if 'Rationalize' in type(e).__name__ or 'positive semidefinite' in str(e):
            return None
        return {'call': f'solve(allow_numer={allow})', 'raised': repr(e)[:200]}
    want = node.S_from_y(node.y)
    tol = 0 if allow == 0 else 1e-2
    bad = []
    for k in want:
        d = node.decompositions[k]
        if len(d) != 2:
            bad.append(f'{k}: not a pair')
            continue
        U, s = d
        W, R = sp.Matrix(want[k]), sp.Matrix(U).T * sp.diag(*list(s)) * sp.Matrix(U)
        if sp.Matrix(node.S[k]) != W or any(abs(v) > tol for v in (R - W)) or any(v < 0 for v in s):
            bad.append(k)
    if bad or set(want) != set(node.decompositions):
        return {'call': f'solve(allow_numer={allow})', 'point': str(list(node.y)), 'registered wrongly': bad}


def tasks(th):
    ts = [rfunc_task(k, d, i) for k in ('poly', 'number') for d in (0, 1, -1) for i in (False, True)]
    ts += [bound_task(d, comp) for d in (0, 1, -1) for comp in (True, False)] + [bound_task(d, True, True) for d in (0, 1, -1)]
    ts += [square_task(t) for t in ((1, 2) if not th else (1, 2, 3))]
    ts += [nroots_task(ds, r, n) for ds in ((1,), (1, 1), (2,), (1, 2), (3, 1)) for r, n in ((True, False), (False, False), (True, True))]
    ts += [weighting_task(f, cs) for f in ('list', 'expr', 'map', 'basis') for cs in ('sss', 'ss0', '0ss', 's0s', '0s0', '00s', 's00')]
    ts += [radsimp_task(n, f) for n, f in RAD]
    ts += [sumy_task(n, f, v) for n, f in EXPRS for v in ('symbolic', 'zeros', 'radicals', 'ints')]
    ts += [expr_task('reflect_expression', n, e, lambda e: swap(value(e))) for n, e in reflect_shapes()]
    ts += [expr_task('inverse_substitution', n, e, lambda e, k=k: inverse_want(e, k), *((k,) if k else ())) for n, e, k in inverse_shapes()]
    ts += [centre_task(d, ms) for d in range(2, 11 if th else 9) for ms in (False, True)]
    ts += [perturb_task()]
    ts += [decompose_task(n, p, pr, rg, mx) for n in (1, 2) for p in (False, True) for pr in (False, True) for rg, mx in ((False, False), (False, True), (True, False))]
    ts += [decompose_task(1, False, False, False, False, True), perturbation_task(True), perturbation_task(False)]
    ts += [solve_task(k, n, g, p) for k in (0, 1, 2, 3) for n, g, p in ((1, 0, True), (2, 0, False), (2, 2, True), (2, 1, False))]
    ts += [register_task(p, g, q, t) for p in (False, True) for g in (False, True) for q in (False, True) for t in (False, True)]
    return ts


def cases(seed, count):
    rng = random.Random(seed)
    Q = lambda k=6: f'{rng.randint(-9, 9)}/{rng.randint(1, k)}'
    cs = []
    for n in (2, 3, 4):
        for allow in (0, 1, 2, 3):      # semidefinite at y = sqrt(n) only
            cs.append({'oracle': 'solved', 'args': [[[['1', '0'], ['0', f'{n}']], [['0', f'{n}'], [f'{n}', '0']]], [[[['0', '1'], ['1', '0']]], [[['1', '0'], ['0', f'{n}']]]], allow, n == 3]})
    for i in range(count):
        cs.append({'oracle': 'square', 'args': [f'{rng.randint(1, 60)}/{rng.randint(1, 7)}', f'{rng.randint(61, 400)}/{rng.randint(1, 3)}'][::rng.choice((1, -1))]})
        cs.append({'oracle': 'approx', 'args': ['bound', rng.choice(['1.41421356', '0.0000312', '-2.5', '123456.789', '-0.7071067811', '3/7', '1e-9']), rng.choice((0, 1, -1))]})
        p = ' * '.join(rng.choice([f'(x - {Q()})', f'(x**2 - {rng.randint(2, 9)})', f'(x**2 + {rng.randint(1, 5)})', f'({rng.randint(2, 5)}*x + {Q()})', '(x**3 - x - 1)']) for _ in range(rng.randint(1, 3)))
        cs.append({'oracle': 'approx', 'args': ['nroots', p]})
        cs.append({'oracle': 'approx', 'args': ['rfunc', p, f'x**2 + {Q()}*x + {Q()}', rng.choice((0, 1, -1))]})
        cs.append({'oracle': 'weighting', 'args': [[rng.choice([Q(), '0', '2', '3 - sqrt(2)', '1 + sqrt(3)']) for _ in range(3)]]})
        n = rng.randint(1, 3)
        sym = lambda: (lambda A: (A * A.T if rng.random() < .7 else A + A.T))(sp.Matrix(n, n, lambda *_: sp.Rational(rng.randint(-3, 3), rng.choice((1, 1, 2)))))
        k = rng.randint(1, 2)
        st = lambda M: [[str(v) for v in r] for r in M.tolist()]
        if i % 2:
            cs.append({'oracle': 'rational_psd', 'args': [[Q(3) for _ in range(k)], [st(sym()) for _ in range(2)], [[st(sym()) for _ in range(k)] for _ in range(2)], i % 4 == 1, ('0', '0', '1/3')[i // 2 % 3]]})
        if i % 6 == 0:
            cs.append({'oracle': 'solved', 'args': [[st(sym()) for _ in range(2)], [[st(sym()) for _ in range(k)] for _ in range(2)], i // 6 % 4, i % 12 == 0]})
    return cs


def d04(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 30, cases(seed, 60 if not th else 3000), 20,
                  ['numeric root finding and rounding (numpy roots, SymPy nroots, nsimplify): replaced by arbitrary numbers', 'SymPy radsimp, together, factor_list', 'congruence by its contract (D01)',
                   'shapes of expressions are enumerated (parts are uninterpreted functions, coefficients symbolic); at most two candidate roots and two approximations of each'], path_limit=15, case_limit=15)
