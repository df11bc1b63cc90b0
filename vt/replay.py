"""Replay of a counterexample against the real, uninstrumented code of /repo.

usage: python -m vt.replay FILE.json      exit 1 and a report when the violation reproduces
Run without instrumentation in its own process.
"""
import sys, os, json, importlib, time, signal
REPO = os.environ.get('VT_REPO', '/repo')


def rational(s):
    """value of an SMT-LIB real term (rational ones only)"""
    import sympy as sp
    s = s.strip()
    toks = s.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != '(':
            return sp.Rational(t)
        op = toks[pos]
        pos += 1
        if op == 'root-obj':
            raise ValueError('algebraic number')
        args = []
        while toks[pos] != ')':
            args.append(parse())
        pos += 1
        if op == '-':
            return -args[0] if len(args) == 1 else args[0] - sum(args[1:])
        if op == '/':
            return args[0] / args[1]
        if op == '+':
            return sum(args)
        if op == '*':
            return sp.prod(args)
        raise ValueError(op)
    return parse()


class Timeout(Exception):
    pass



def limited(seconds, f, *a, **k):
    fired = []

    def alarm(*x):
        fired.append(1)
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        r = f(*a, **k)
        if fired:      # swallowed by a bare except of the code
            raise Timeout()
        return r
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def ill(e):
    import sympy as sp
    return e.has(sp.zoo, sp.nan, sp.oo, -sp.oo) or e in (sp.zoo, sp.nan)


def same(e, target, gens):
    """exact decision of e == target as rational functions (numbers may be algebraic)"""
    import sympy as sp
    import random
    d = e.doit() - target
    # exact evaluation at random rational points first
    bad = 0
    tried = 0
    for k in range(12):
        pt = {g: sp.Rational(random.Random(100 * k + i).randint(-9, 9) * 2 + 1, 2 + k % 3) for i, g in enumerate(gens)}
        v = d.subs(pt)
        if ill(v):
            continue
        tried += 1
        w = sp.nsimplify(v) if v.is_Rational else v
        if w == 0:
            continue
        x = sp.N(w, 60)
        scale = 1 + abs(sp.N(target.subs(pt), 30)) if hasattr(target, 'subs') else 1
        if w.is_Rational or abs(x) > scale * sp.Float('1e-25', 30):
            bad += 1
            return False, {str(g): str(x) for g, x in pt.items()}, str(w if w.is_Rational else x)[:80]
        if tried >= 4:
            break
    return True, None, None


def poly_of(coeffs, gens):
    import sympy as sp
    e = 0
    for m, v in coeffs.items():
        e += v * sp.prod([g ** k for g, k in zip(gens, m)])
    return sp.expand(e)


def acute(gens):
    import sympy as sp
    def F(s):
        return sp.Add(*[g ** 2 for g in gens if g != s]) - s ** 2
    return F


def sos_replay(d, seconds=60):
    """d: module, function, coeffs {monomial: number}, kwargs -> None | description of the violation"""
    import sympy as sp
    mod = importlib.import_module(d['module'])
    import triples.core.structsos
    from triples.utils.expression.coeff import Coeff
    fn = getattr(mod, d['function'])
    co = {tuple(m): sp.sympify(v) for m, v in d['coeffs']}
    n = len(next(iter(co)))
    gens = sp.symbols(' '.join('abcdefgh'[:n]), seq=True)
    target = poly_of(co, gens)
    c = Coeff({k: v for k, v in co.items() if v != 0} if d.get('drop_zero', True) else co)
    P = sp.Poly(target, *gens)
    if d.get('keys'):         # the caller lists one coefficient per orbit
        c = Coeff({tuple(m): co.get(tuple(m), sp.S(0)) for m in d['keys']})
    import inspect
    kw = dict(d.get('kw', {}))
    try:
        par = inspect.signature(fn).parameters
        kw = {k: v for k, v in kw.items() if k in par}
        sig = d.get('sig', 'coeff')
        args = {'coeff': (c if d.get('keys') else Coeff(P),), 'poly': (P,), 'poly,coeff': (P, Coeff(P)), 'coeff,F': (Coeff(P), acute(gens))}[sig]
        r = limited(seconds, fn, *args, **kw)
    except Timeout:
        LAST['outcome'] = 'timeout'
        return None
    except Exception as e:
        return None
    if r is None or not isinstance(r, sp.Expr):
        return None
    if ill(r):
        return None
    LAST['outcome'] = 'certificate'
    if r.atoms(sp.Float) and not any(sp.sympify(v).atoms(sp.Float) for v in co.values()):
        return {'function': d['function'], 'polynomial': str(target), 'result': str(r)[:600], 'floats in the certificate': str(sorted(r.atoms(sp.Float), key=str)[:5])}
    ok, pt, val = limited(seconds, same, r, target, gens)
    if ok:
        return None
    return {'function': d['function'], 'polynomial': str(target), 'result': str(r)[:600], 'point': pt, 'difference': val}


def case_outcome(d, seconds):
    """('certificate'|'declined'|'timeout'|'violation', detail)"""
    LAST.clear()
    try:
        r = sos_replay(d, seconds)
    except Timeout:
        return 'timeout', None
    if r:
        return 'violation', r
    return LAST.get('outcome', 'declined'), None


LAST = {}


def facade_replay(d, seconds=120):
    """the same polynomial through sum_of_squares (structural solver only)"""
    import sympy as sp
    from triples.core.sum_of_squares import sum_of_squares
    co = {tuple(m): sp.sympify(v) for m, v in d['coeffs']}
    n = len(next(iter(co)))
    gens = sp.symbols(' '.join('abcdefgh'[:n]), seq=True)
    target = poly_of(co, gens)
    sets = [[], list(gens)]
    if n == 3:
        a, b, c = gens
        sets.append([a, b, c, b**2 + c**2 - a**2, c**2 + a**2 - b**2, a**2 + b**2 - c**2])
    for ineq in sets:
        try:
            r = limited(seconds, sum_of_squares, sp.Poly(target, *gens), ineq, method_order=['StructuralSOS'])
        except Exception:
            continue
        if r is None:
            continue
        ok, pt, val = limited(seconds, same, r.solution, target, gens)
        if not ok:
            return {'function': 'sum_of_squares', 'constraints': [str(g) for g in ineq], 'polynomial': str(target),
                    'result': str(r.solution)[:600], 'point': pt, 'difference': val}
    return None


KINDS = {'sos': sos_replay, 'facade': facade_replay}


def main(path):
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)
    d = json.load(open(path))
    cases = d['cases'] if 'cases' in d else [d]
    out = []
    for c in cases:
        k = c.get('kind', 'sos')
        if k not in KINDS:
            m = importlib.import_module('vt.' + k.split(':')[0])
            r = getattr(m, 'replay')(c)
        else:
            r = KINDS[k](c)
        out.append(r)
    print(json.dumps(out))
    return 1 if any(out) else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
