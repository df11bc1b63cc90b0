"""Cyclic expressions: every operation has the value of the same operation on the expanded sum / product.

The summand is an uninterpreted function of the symbols, so each obligation holds for every summand; groups, rules and the shape of the
summand (where the code looks at it) are enumerated.
"""
import itertools, random, functools
import sympy as sp
from sympy.core.function import AppliedUndef
from sympy.combinatorics import Permutation, PermutationGroup, SymmetricGroup, CyclicGroup, AlternatingGroup, DihedralGroup
from . import fncheck
from .fncheck import FnTask
from .oracles import oracle, rat_identity

CY = 'triples.utils.expression.cyclic'
a, b, c, d, e, g = sp.symbols('a b c d e g')
x, y, u, v, w = sp.symbols('x y u v w')
S3 = [((1, 2, 0),), ((1, 0, 2),), ((0, 2, 1),), ((2, 1, 0),), ((1, 0, 2), (1, 2, 0))]
G4 = [((1, 2, 3, 0),), ((2, 3, 1, 0),), ((1, 2, 3, 0), (3, 2, 1, 0)), ((1, 0, 2, 3), (1, 2, 3, 0)), ((1, 2, 0, 3), (1, 0, 3, 2)), ((1, 0, 3, 2), (2, 3, 0, 1)), ((1, 0, 2, 3),),
      ((1, 0, 3, 2),), ((1, 2, 0, 3),), ((0, 2, 3, 1),), ((1, 2, 0, 3), (1, 0, 2, 3)), ((1, 0, 2, 3), (0, 1, 3, 2))]
G6 = [((1, 2, 0, 4, 5, 3),), ((1, 2, 0, 3, 4, 5), (0, 1, 2, 4, 5, 3)), ((1, 2, 0, 3, 4, 5), (0, 1, 2, 4, 5, 3), (1, 0, 2, 4, 3, 5)), ((3, 4, 5, 0, 1, 2), (1, 2, 0, 4, 5, 3)),
      ((1, 0, 2, 4, 3, 5), (1, 2, 0, 4, 5, 3)), ((1, 0, 2, 3, 4, 5), (0, 1, 3, 2, 4, 5)), ((1, 0, 3, 2, 4, 5), (0, 1, 2, 3, 5, 4))]
F, H = sp.Function('f'), sp.Function('h')


def group(gens):
    return PermutationGroup([Permutation(list(q)) for q in gens])


@functools.lru_cache(None)
def elements(gens):
    """closure of the generators, computed here"""
    n = len(gens[0])
    els = {tuple(range(n))}
    todo = list(els)
    while todo:
        p = todo.pop()
        for q in gens:
            r = tuple(q[i] for i in p)
            if r not in els:
                els.add(r)
                todo.append(r)
    return sorted(els)


def value(e):
    """the expanded expression, with the group sums written out by this module"""
    import importlib
    C = importlib.import_module(CY)
    if isinstance(e, C.CyclicExpr):
        s, gens = tuple(e.args[1]), tuple(tuple(p.array_form) for p in e.args[2].generators)
        t = value(e.args[0])
        ts = [t.xreplace({s[i]: s[q[i]] for i in range(len(s))}) for q in elements(gens)]
        return (sp.Add if isinstance(e, C.CyclicSum) else sp.Mul)(*ts)
    if not e.args or not e.has(C.CyclicExpr):
        return e
    return e.func(*[value(t) for t in e.args])


def expanded(kind, t, s, gens):
    ts = [t.xreplace({s[i]: s[q[i]] for i in range(len(s))}) for q in elements(gens)]
    return (sp.Add if kind == 'CyclicSum' else sp.Mul)(*ts)


def plain(e):
    """uninterpreted applications and fractional powers as symbols"""
    fs = sorted(e.atoms(AppliedUndef), key=str)
    return e.xreplace({t: sp.Symbol('_v' + str(t)) for t in fs})


def equal(l, r):
    if l == r:
        return True
    return rat_identity(plain(l), plain(r))


def arg_text(t):
    return str(t)


ENV = {str(t): t for t in (a, b, c, d, e, g, x, y, u, v, w)}
ENV.update(f=F, h=H)


def parse(t):
    return sp.sympify(t, dict(ENV, CyclicSum=_cls('CyclicSum'), CyclicProduct=_cls('CyclicProduct'), PG=lambda *q: group(q)))


def _cls(n):
    import importlib
    return getattr(importlib.import_module(CY), n)


@oracle
def cyclic(op, kind, text, syms, gens, *more):
    """one operation on one cyclic expression against its expansion"""
    s = sp.symbols(syms, seq=True)
    gens = tuple(tuple(q) for q in gens)
    t = parse(text) if isinstance(text, str) else text
    cls = _cls(kind)
    e = cls(t, s, group(gens))
    t0 = value(t)
    want = expanded(kind, t0, s, gens)
    name = f'{kind}({t}, {tuple(s)}, {gens})'
    if op == 'new':
        if not equal(value(e), want):
            return {'call': name, 'result': str(e), 'value': str(value(e))[:300], 'expected': str(want)[:300]}
        return None
    if op == 'doit':
        for dd in (True, False):
            r = e.doit(deep=dd)
            if not equal(value(r), want):
                return {'call': name + f'.doit(deep={dd})', 'result': str(r)[:300], 'expected': str(want)[:300]}
        r = sp.expand(e) if kind == 'CyclicSum' else e.doit()
        if not equal(value(r), want):
            return {'call': f'expand({name})', 'result': str(r)[:300]}
        return None
    if op == 'content':
        k, p = e.as_content_primitive()
        if not equal(k * value(p), want):
            return {'call': name + '.as_content_primitive()', 'result': str((k, p)), 'expected': str(want)[:300]}
        return None
    if op in ('xreplace', 'subs'):
        rule = {parse(k): parse(z) for k, z in more[0]}
        plainterms = [t0.xreplace({s[i]: s[q[i]] for i in range(len(s))}) for q in elements(gens)]
        want = (sp.Add if kind == 'CyclicSum' else sp.Mul)(*[q.xreplace(rule) for q in plainterms])
        r = e.xreplace(rule) if op == 'xreplace' else e.subs(rule, simultaneous=True)
        if not equal(value(r), want):
            return {'call': f'{name}.{op}({rule})', 'result': str(r)[:300], 'value': str(value(r))[:300], 'expected': str(want)[:300]}
        return None
    if op == 'rewrite':
        g2 = tuple(tuple(q) for q in more[0])
        import importlib
        fn = importlib.import_module(CY).rewrite_symmetry
        r = fn(e, s, group(g2))
        if not equal(value(r), want):
            return {'call': f'rewrite_symmetry({name}, {g2})', 'result': str(r)[:300], 'value': str(value(r))[:300], 'expected': str(want)[:300]}
        C = importlib.import_module(CY).CyclicExpr
        bad = [q for q in r.atoms(C) if q.args[2] != group(g2)] if hasattr(r, 'atoms') else []
        if bad:
            return {'call': f'rewrite_symmetry({name}, {g2})', 'left over': str(bad[:2])}
        return None
    if op == 'radsimp':
        import importlib
        r = importlib.import_module(CY).radsimp(e) if hasattr(importlib.import_module(CY), 'radsimp') else sp.radsimp(e)
        if not equal(value(r), want):
            return {'call': f'radsimp({name})', 'result': str(r)[:300]}


def chunked(name, cases, size):
    """tasks whose obligations are the oracle calls of a chunk of cases"""
    ts = []
    for k in range(0, len(cases), size):
        part = cases[k:k + size]

        def body(run, part=part):
            obs = []
            for cs in part:
                r = cyclic(*cs)
                if r:
                    run.oracle_args = list(cs)
                    return obs + [('true', f'{cs[0]}: {str(r)[:600]}', False)]
                obs.append(('true', cs[0], True))
            return obs
        ts.append(FnTask(f'{name}[{k}:{k + len(part)}]', body, 'cyclic', key=(CY, name), must_return=True))
    return ts


KINDS = ('CyclicSum', 'CyclicProduct')


def summands(n):
    """shapes of the summand the code distinguishes, with uninterpreted parts"""
    s = 'abcdeg'[:n]
    full = ','.join(s)
    f0, f1 = f'f({full})', f'h({full})'
    one = 'f(a)'
    base = [f0, f'f({full},x)', one, 'a', 'x', '2', 'f(x)', f'a*{f1}', f'2*{f0}', f'-{f0}', f'x*{f0}', f'x**2*{f0}', f'2*x*{one}*h(b)', f'{f0}**2', f'(2*{f0})**3', f'{f0}+{f1}', f'2*{f0}+4*x',
            f'{f0}/{f1}', f'{one}/(a+b)', f'x/{f0}', f'sqrt(2)*{f0}', f'({f0}-{f1})**2', f'a*b*{f0}', 'a-b', '(a-b)**2', 'a*(b-c)**2' if n > 2 else 'a*b**2', '1/(a+x)', 'a+b', f'6*a+4*b', '3*a*b/2', f'(x+2)*{f0}', f'x**3*{f0}']
    return base


def nested(n, gens):
    s = 'abcdeg'[:n]
    full = ','.join(s)
    G = 'PG(' + ','.join(map(str, gens)) + ')'
    C3 = 'PG(' + str(tuple(list(range(1, n)) + [0])) + ')'
    out = []
    for k in KINDS:
        out += [f'{k}(f({full}),({full}),{G})*h({full})', f'{k}(f({full}),({full}),{G})', f'{k}(a,({full}),{G})**2*h(a)*2', f'{k}(f({full}),({full}),{C3})*h({full})',
                f'h({full})+{k}(f({full}),({full}),{G})', f'{k}(f(x,y),(x,y))*h({full})', f'a*{k}(f(a,b,x),(a,b))', f'(1+{k}(f({full}),({full}),{G}))**2*a']
    return out


def basic_cases(th):
    cs = []
    for n, gs in ((2, [((1, 0),)]), (3, S3), (4, G4), (6, G6 if th else G6[:1] + G6[4:6])):
        s = ' '.join('abcdeg'[:n])
        perm = [s] if n > 3 else [' '.join(p) for p in itertools.permutations('abc'[:n])]
        for gs_ in gs:
            for text in summands(n) + nested(n, gs_):
                if n == 6 and not th and 'Cyclic' in text:
                    continue
                for kind in KINDS:
                    if len(elements(gs_)) > 8 and kind == 'CyclicProduct' and ('+' in text or '-' in text or 'Cyclic' in text):
                        continue            # the expanded product is too large to compare
                    for ss in perm:
                        cs.append(('new', kind, text, ss, gs_))
                    cs.append(('doit', kind, text, s, gs_))
                    cs.append(('content', kind, text, s, gs_))
    return cs


VALS = ['', 'a', 'b', 'c', 'x', 'y', 'u', 'a+b', 'b+c', 'c+a', 'a*b', 'b*c', 'c*a', 'x*a', 'h(b)', '2']


def rule_cases(th, seed):
    rng = random.Random(seed)
    cs = []
    for gs_ in S3:
        combos = list(itertools.product(VALS, repeat=3))
        sym = [q for q in combos if all(len(z) <= 1 for z in q)]
        rest = [q for q in combos if q not in set(sym)]
        struct = [('a+b', 'b+c', 'c+a'), ('b+c', 'c+a', 'a+b'), ('a*b', 'b*c', 'c*a'), ('x*a', 'x*b', 'x*c'), ('h(b)', 'h(c)', 'h(a)'), ('h(a)', 'h(b)', 'h(c)'), ('u', 'v', 'w'), ('x', 'x', 'y'), ('x', 'y', 'y')]
        for q in sym + struct + (rest if th else rng.sample(rest, 200)):
            rule = [(k, z) for k, z in zip('abc', q) if z]
            if not rule:
                continue
            for text in ('f(a,b,c,x)', 'f(a,x)*h(b,y)') if th or q in sym else ('f(a,b,c,x)',):
                for kind in KINDS[:1] if len(q[0]) > 1 else KINDS:
                    cs.append(('xreplace', kind, text, 'a b c', gs_, rule))
        extra = [[('x', 'a')], [('x', 'y')], [('x', 'y'), ('y', 'x')], [('x', 'x+1'), ('a', 'b'), ('b', 'c'), ('c', 'a')], [('x', 'u'), ('a', 'u')], [('y', 'u'), ('a', 'u'), ('b', 'v'), ('c', 'w')],
                 [('x', 'b'), ('a', 'u')], [('h(b,y)', 'u')], [('h(a,y)', 'u'), ('h(b,y)', 'v'), ('h(c,y)', 'w')], [('h(a,y)', 'f(a,x)'), ('h(b,y)', 'f(b,x)'), ('h(c,y)', 'f(c,x)')], [('h(a,y)', 'a'), ('h(b,y)', 'b'), ('h(c,y)', 'c')],
                 [('h(a,y)', 'u'), ('h(b,y)', 'u'), ('h(c,y)', 'u')], [('h(a,y)', 'b'), ('h(b,y)', 'c'), ('h(c,y)', 'a')], [('h(a,y)', 'u/2'), ('h(b,y)', '3*v')], [('f(a,x)', 'f(a,y)')],
                 [('a', 'x'), ('x', 'a')], [('a', 'x'), ('b', 'y'), ('c', 'u'), ('x', 'a')], [('a', 'x'), ('b', 'y'), ('c', 'u'), ('x', 'v'), ('y', 'w')], [('a', 'x'), ('b', 'y'), ('c', 'u'), ('y', 'x')]]
        for rule in extra:
            for text in ('f(a,b,c,x)', 'f(a,x)*h(b,y)', 'a*h(a,y)*f(b,x)', 'h(a,y)+x*f(a,x)', 'CyclicSum(h(a,y)*f(b,x),(a,b,c),PG((1,2,0)))*f(a,x)'):
                for kind in KINDS:
                    cs.append(('xreplace', kind, text, 'a b c', gs_, rule))
        for rule in [[('a', 'x')], [('a', 'b'), ('b', 'a')], [('a', '2'), ('b', '3'), ('c', '1')], [('x', 'a')], [('a', 'u+v'), ('b', 'v+w'), ('c', 'w+u')]]:
            cs += [('subs', kind, text, 'a b c', gs_, rule) for kind in KINDS for text in ('f(a,b,c,x)', '(a-x)*(b-c)**2', 'CyclicSum(a*x,(a,b,c),PG((1,2,0)))*f(a)')]
    for n, gs in ((4, G4), (6, G6)):
        s = 'abcdeg'[:n]
        full = ','.join(s)
        for gs_ in gs:
            if len(elements(gs_)) > 24 and not th:
                continue
            for k in range(1, n + 1):
                for sub in itertools.combinations(s, k):
                    if n == 6 and not th and rng.random() > .35:
                        continue
                    for vals in ([f'u{i}' for i in range(k)], [f'2*{t}' for t in sub], ['x'] * k, list(sub[1:]) + [sub[0]]):
                        rule = list(zip(sub, vals))
                        cs.append(('xreplace', 'CyclicSum', f'f({full},x)', ' '.join(s), gs_, rule))
    return cs


def rewrite_cases(th):
    cs = []
    for n, gs in ((3, S3), (4, G4)) + (((6, G6[:5]),) if th else ()):
        s = 'abcdeg'[:n]
        full = ','.join(s)
        for g1 in gs:
            for g2 in gs:
                if len(elements(g1)) * n > 160 and not th:
                    continue
                for text in (f'f({full},x)', f'f(a)*h({full})') + (('a*(b-c)**2', '(a-b)**2', 'a*b') if n < 6 else ()):
                    for kind in KINDS[:1] if len(elements(g1)) > 6 else KINDS:
                        cs.append(('rewrite', kind, text, ' '.join(s), g1, g2))
    return cs


def e02(rep, tier, seed):
    th = tier != 'quick'
    rng = random.Random(seed)
    parts = [('CyclicExpr.__new__/doit/as_content_primitive', basic_cases(th)), ('CyclicExpr._xreplace', rule_cases(th, seed)), ('rewrite_symmetry', rewrite_cases(th))]
    ts = []
    for n, cs in parts:
        rng.shuffle(cs)
        ts += chunked(n, cs, 25)
    fncheck.check(rep, tier, seed, ts, fncheck.setup([]), 70, (), 0,
                  ['the summand is an uninterpreted function of the symbols: each obligation holds for every summand of that shape',
                   'groups and substitution rules are enumerated as listed (all subgroups of S3, 12 groups on 4 symbols, 7 on 6); flint compares the expansions'], path_limit=60)
