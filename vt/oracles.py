"""Named oracles: one call of the real, uninstrumented code of /repo against its contract on concrete arguments.

Each returns None (contract kept, or the function declined) or a description of the failure.
Used for the bounded stand-ins and to replay what they find.
"""
import sys, os, json, time, resource, multiprocessing as mp, queue, signal, importlib
import sympy as sp

ORACLES = {}


def oracle(f):
    assert f.__name__ not in ORACLES or ORACLES[f.__name__].__module__ == f.__module__, f.__name__
    ORACLES[f.__name__] = f
    return f


def rat_identity(e, target):
    """exact: e == target as rational functions (flint), numbers rational; algebraic numbers as extra generators"""
    from .algebra import Ring, Rules
    R = Ring()
    n1, d1 = R.conv(sp.sympify(e).doit())
    n2, d2 = R.conv(sp.sympify(target))
    if d1 == 0 or d2 == 0:
        return False
    return Rules(R).reduce(n1 * d2 - n2 * d1) == 0


def differs(e, target, what):
    if rat_identity(e, target):
        return None
    return {'call': what, 'result': str(e)[:500], 'expected': str(target)[:500]}


abc = sp.symbols('a b c')


def coeff_expr(c):
    return sp.Add(*[v * sp.Mul(*[g ** k for g, k in zip(abc, m)]) for m, v in c.coeffs.items()])


def sparse():
    return importlib.import_module('triples.core.structsos.ternary.sparse')


@oracle
def pnrms(n, r, m, s, v='7/3'):
    P = sparse().Pnrms
    a, b, c = abc
    v = sp.Rational(v)
    def side(n, r):
        return a**n*(b**r-c**r) + b**n*(c**r-a**r) + c**n*(a**r-b**r)
    want = sp.expand(v * side(n, r) * side(m, s))
    return differs(P.as_expr(n, r, m, s, v), want, f'Pnrms.as_expr({n},{r},{m},{s},{v})') or \
        differs(coeff_expr(P.coeff(n, r, m, s, v)), want, f'Pnrms.coeff({n},{r},{m},{s},{v})')


@oracle
def hnmr(n, m, r, v='7/3'):
    H = sparse().Hnmr
    a, b, c = abc
    v = sp.Rational(v)
    def term(a, b, c):
        base = a**n if n >= 0 else b**(-n) * c**(-n)
        return base * (b**m + c**m) * (a**r - b**r) * (a**r - c**r)
    want = sp.expand(v * (term(a, b, c) + term(b, c, a) + term(c, a, b)))
    return differs(H.as_expr(n, m, r, v), want, f'Hnmr.as_expr({n},{m},{r},{v})') or \
        differs(coeff_expr(H.coeff(n, m, r, v)), want, f'Hnmr.coeff({n},{m},{r},{v})')


def cyc(f):
    a, b, c = abc
    return f(a, b, c) + f(b, c, a) + f(c, a, b)


@oracle
def common(kind, *args):
    C = importlib.import_module('triples.core.structsos.ternary.utils').CommonExpr
    args = [sp.Rational(x) if isinstance(x, str) else tuple(x) if isinstance(x, (list, tuple)) else x for x in args]
    r = getattr(C, kind)(*args)
    if r is None:
        return None
    if kind == 'schur':
        want = cyc(lambda a, b, c: a**(args[0]-2)*(a-b)*(a-c))
    elif kind == 'schurinv':
        k = (args[0]-2)//2
        want = cyc(lambda a, b, c: b**k*c**k*(a-b)*(a-c))
    elif kind == 'quadratic':
        want = cyc(lambda a, b, c: args[0]*a**2 + args[1]*a*b)
    elif kind == 'amgm':
        p, q = args
        want = cyc(lambda a, b, c: a**p[0]*b**p[1]*c**p[2] - a**q[0]*b**q[1]*c**q[2])
    return differs(r, want, f'CommonExpr.{kind}{tuple(args)}')


# ---------------------------------------------------------------- runner
class Timeout(BaseException):
    pass


FIRED = []     # a bare except in the code under test may swallow the exception


def _alarm(*a):
    FIRED.append(1)
    raise Timeout()


def run_one(case, limit):
    del FIRED[:]
    r = run_once(case, limit)
    return ('timeout', None) if FIRED else r


def run_once(case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = ORACLES[case['oracle']](*case['args'])
        return ('violation', r) if r else ('ok', None)
    except Timeout:
        return ('timeout', None)
    except RecursionError as e:
        return ('timeout', None)
    except Declined:
        return ('declined', None)
    except Exception as e:
        import traceback
        return ('raise:' + type(e).__name__, traceback.format_exc()[-500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def replay(case):
    load_all()
    k, r = run_one(case, 120)
    return r if k == 'violation' else None


def orbit_sum(e, gens, group):
    from sympy.combinatorics import Permutation
    return sp.Add(*[e.xreplace({g: gens[p[i]] for i, g in enumerate(gens)}) for p in group])


def parse_form(text, gens):
    import itertools
    n = len(gens)
    env = {str(g): g for g in gens}
    cyc_ = [tuple((i + k) % n for i in range(n)) for k in range(n)]
    env['CYC'] = lambda e: orbit_sum(e, gens, cyc_)
    env['SYM'] = lambda e: orbit_sum(e, gens, list(itertools.permutations(range(n))))
    env['PART'] = lambda e: orbit_sum(e, gens, [p + (n - 1,) for p in itertools.permutations(range(n - 1))])
    env['Rational'], env['sqrt'] = sp.Rational, sp.sqrt
    import re
    return sp.expand(eval(re.sub(r'\((-?\d+)/(\d+)\)', r'Rational(\1,\2)', text), env))


@oracle
def facade_random(text, vars):
    """sum_of_squares (structural solver): what it returns equals the polynomial, with and without positivity constraints"""
    from triples.core.sum_of_squares import sum_of_squares
    gens = sp.symbols(' '.join(vars), seq=True)
    target = parse_form(text, gens)
    if target == 0:
        return None
    P = sp.Poly(target, *gens)
    got = 0
    for ineq in ([], list(gens)):
        r = sum_of_squares(P, ineq, method_order=['StructuralSOS'])
        if r is None:
            continue
        got += 1
        d = differs(r.solution, target, f'sum_of_squares({target}, {ineq})')
        if d:
            return d
    if not got:
        raise Declined


class Declined(Exception):
    pass


MEM_LIMIT = 6 << 30     # per worker


def _worker(cases, qin, qout, limit, wid, began, holds):
    sys.setrecursionlimit(6000)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    while True:
        i = qin.get()
        if i is None:
            return
        for j in range(i[0], i[1]):
            holds[wid], began[wid] = i[1] - j, time.time()
            r = run_one(cases[j], limit)
            holds[wid], began[wid] = i[1] - j - 1, time.time()
            qout.put((j, *r))
        began[wid] = 0


def run_cases(cases, budget, limit=10, nproc=8, chunk=4):
    """-> (violations [(case, detail)], counts per oracle and outcome)"""
    import collections
    ctx = mp.get_context('fork')
    qin, qout = ctx.Queue(), ctx.Queue()
    began, holds = ctx.RawArray('d', nproc), ctx.RawArray('i', nproc)

    def start(k):
        began[k] = 0
        w = ctx.Process(target=_worker, args=(cases, qin, qout, limit, k, began, holds), daemon=True)
        w.start()
        return w
    ws = [start(k) for k in range(nproc)]
    t0 = time.time()
    nxt = active = last = 0
    viol, count, ex = [], collections.Counter(), {}
    while True:
        while active < nproc * 2 * chunk and nxt < len(cases) and time.time() - t0 < budget:
            e = min(nxt + chunk, len(cases))
            qin.put((nxt, e))
            active += e - nxt
            nxt = e
        if not active:
            break
        try:
            j, k, r = qout.get(timeout=1)
            last = time.time()
        except queue.Empty:
            now = time.time()
            if now - max(t0, last) > limit * chunk + 60:
                count['lost'] += active
                break
            for n, w in enumerate(ws):      # stuck in native code, or ended (out of memory)
                stuck = began[n] and now - began[n] > limit + 30
                if stuck or not w.is_alive():
                    if w.is_alive():
                        w.kill()
                    w.join(5)
                    if began[n]:
                        active -= holds[n]
                        count['lost'] += holds[n]
                    ws[n] = start(n)
            continue
        active -= 1
        count[cases[j]['oracle'] + ':' + k] += 1
        if k == 'violation':
            viol.append((cases[j], r))
        elif k.startswith('raise'):
            ex.setdefault(k, (cases[j], r))
    for w in ws:
        qin.put(None)
    for w in ws:
        w.join(timeout=0.3)
        if w.is_alive():
            w.terminate()
    if nxt < len(cases):
        count['not reached'] = len(cases) - nxt
    return viol, count, ex


def main(path):
    sys.dont_write_bytecode = True
    d = json.load(open(path))
    v, c, ex = run_cases(d['cases'], d['budget'], d['limit'])
    def plain(x):
        if isinstance(x, dict):
            return {str(k): plain(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(y) for y in x]
        return x
    print(json.dumps({'violations': plain(v), 'count': plain(c), 'ex': {str(k): str(x)[:600] for k, x in ex.items()}}, default=str))


def load_all():
    for m in ('linalg', 'cyc', 'cert', 'acute', 'univ', 'pre', 'lin', 'tab', 'sdp', 'sdpt', 'symm', 'num', 'null', 'sol', 'drive'):
        importlib.import_module('vt.' + m)


if __name__ == '__main__':
    sys.path.insert(0, os.environ.get('VT_REPO', '/repo'))
    from vt import oracles as me     # one module object
    me.load_all()
    me.main(sys.argv[1])
