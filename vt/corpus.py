"""Bounded stand-in: documented example polynomials of the solver functions (and seeded perturbations of them) run
through the real, uninstrumented code; every certificate that comes back is compared exactly with the input."""
import sys, os, json, time, random, multiprocessing as mp, queue, itertools
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = 'triples.core.structsos.'


def load():
    return json.load(open(os.path.join(HERE, 'corpus', 'examples.json')))


def function_cases(specs, examples):
    """examples that satisfy the precondition of the function documenting them"""
    import sympy as sp
    out = []
    names = {k[1]: (k, s) for k, s in specs.items() if s['nvars'] == 3}
    for ex in examples:
        co = [(tuple(m), v) for m, v in ex['coeffs']]
        k = names.get(ex['function'])
        if k and meets(k[1], co):
            out.append({'kind': 'sos', 'module': k[0][0], 'function': k[0][1], 'coeffs': co, 'sig': k[1]['sig'], 'text': ex['text'], 'degree': ex['degree']})
        cyc = is_inv(co, [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
        out.append({'kind': 'sos', 'module': PRE + 'ternary.solver', 'function': '_structural_sos_3vars_cyclic' if cyc else '_structural_sos_3vars_acyclic',
                    'coeffs': co, 'sig': 'coeff', 'text': ex['text'], 'degree': ex['degree']})
    return out


def is_inv(co, group):
    d = {m: v for m, v in co}
    return all(d.get(tuple(m[p[i]] for i in range(len(m)))) == v for m, v in co for p in group)


def meets(spec, co):
    import sympy as sp
    d = {m: v for m, v in co}
    if spec['degree'] is not None and any(sum(m) != spec['degree'] for m in d):
        return False
    if len(next(iter(d))) != spec['nvars'] or not is_inv(co, spec['group']):
        return False
    for m, v in co:
        if max(tuple(m[p[i]] for i in range(len(m))) for p in spec['group']) in spec['zeros'] and sp.sympify(v) != 0:
            return False
    for form in spec.get('pre') or ():
        if sp.simplify(sum(k * sp.sympify(d.get(m, 0)) for m, k in form.items())) != 0:
            return False
    return True


def perturb(case, group, rng, zeros=()):
    """seeded change of one or two coefficient orbits"""
    import sympy as sp
    d = {tuple(m): v for m, v in case['coeffs']}
    deg = case['degree']
    n = len(next(iter(d)))
    orbs = sorted({max(tuple(m[p[i]] for i in range(n)) for p in group) for m in d}, reverse=True)
    d = dict(d)
    for _ in range(rng.choice((1, 1, 2))):
        o = rng.choice(orbs)
        delta = sp.Rational(rng.randint(-12, 30), rng.choice((1, 1, 2, 3, 10)))
        for m in {tuple(o[p[i]] for i in range(n)) for p in group}:
            d[m] = str(sp.sympify(d.get(m, 0)) + delta)
    return dict(case, coeffs=[(m, v) for m, v in d.items() if sp.sympify(v) != 0], text=case['text'] + ' perturbed')


def _work(qin, qout):
    from . import replay
    sys.path.insert(0, replay.REPO)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    while True:
        it = qin.get()
        if it is None:
            return
        i, case, limit = it
        t = time.time()
        try:
            r = replay.case_outcome(case, limit)
        except BaseException as e:
            r = ('error', repr(e)[:200])
        qout.put((i, r, time.time() - t))


def run_cases(cases, deadline, limit=8, nproc=8):
    """-> (outcomes, violations): outcome per case 'certificate' | 'declined' | 'timeout' | 'violation'"""
    ctx = mp.get_context('fork')
    qin, qout = ctx.Queue(), ctx.Queue()
    ws = [ctx.Process(target=_work, args=(qin, qout), daemon=True) for _ in range(nproc)]
    for w in ws:
        w.start()
    res, active, nxt = {}, 0, 0
    while True:
        while active < nproc + 1 and nxt < len(cases) and time.time() < deadline:
            qin.put((nxt, cases[nxt], limit))
            nxt += 1
            active += 1
        if not active:
            break
        try:
            i, r, dt = qout.get(timeout=limit * 3 + 60)
        except queue.Empty:
            break
        active -= 1
        res[i] = (r, dt)
    for w in ws:
        w.terminate()
    return res


def main(path):
    d = json.load(open(path))
    cases = d['cases']
    for c in cases:
        c['coeffs'] = [(tuple(m), v) for m, v in c['coeffs']]
    r = run_cases(cases, time.time() + d['budget'], limit=d['limit'])
    count = {}
    viol = []
    for i, (o, dt) in sorted(r.items()):
        count[o[0]] = count.get(o[0], 0) + 1
        if o[0] == 'violation':
            viol.append((i, o[1]))
    print(json.dumps({'count': count, 'violations': viol}, default=str))


if __name__ == '__main__':
    main(sys.argv[1])
