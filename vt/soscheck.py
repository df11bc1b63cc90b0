"""Checks of solver families: symbolic verification of every function against its contract, plus the bounded corpus."""
import os, sys, json, re, subprocess, tempfile, time, ast, collections, random
from . import fingerprint

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable

TRUSTED = [
    'CPython and SymPy expression construction, Poly arithmetic and CyclicSum/CyclicProduct.doit (expression semantics: property of its own)',
    'python-flint rational-function arithmetic (identity back end) and z3 (QF_NRA back end)',
    'contracts assumed for numeric helpers: rationalize_func returns None or a rational t satisfying the predicate it was given; '
    'nroots / rationalize / rationalize_bound / univariate_intervals / common_region_of_conics return arbitrary numbers (nothing assumed); '
    'loops over such candidate lists are explored for zero and one element (the loop bodies carry no state from one candidate to the next)',
    'congruence returns None or a factorisation (verified by its own check); radsimp and together preserve the value',
    'a symbolic polynomial coefficient that is not known to vanish is treated as generic inside SymPy Poly division/gcd',
    'coefficients are exact real numbers (floating-point coefficients are out of scope)',
]


def setup():
    from . import sos, specs
    sos.setup()
    sos.install_contracts(specs.SPECS)


def weights(tasks):
    from . import specs
    names = {k[1] for k in specs.SPECS}
    fp = fingerprint.fingerprints([t.key for t in tasks], names)
    base = fingerprint.baseline()
    w = []
    for t in tasks:
        k = f'{t.key[0]}:{t.key[1]}'
        w.append(25.0 if base.get(k) not in (None, fp[k]) else 1.0)
    return w


def enough(rep):
    """enough violations with a failing input, or no time left for more replays of one run"""
    t0 = rep.__dict__.setdefault('triage_start', time.time())
    return sum(v['found'] for v in rep.violations) >= 6 or (rep.violations and time.time() - t0 > 150) or time.time() - t0 > 240


def replay(cases, timeout=150):
    """outcomes of the real code on the cases (own process)"""
    f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump({'cases': cases}, f)
    f.close()
    try:
        p = subprocess.run([PY, '-W', 'ignore', '-m', 'vt.replay', f.name], capture_output=True, text=True, cwd=HERE, timeout=timeout)
        return json.loads(p.stdout.strip().split('\n')[-1])
    except Exception as e:
        return [None] * len(cases)
    finally:
        os.unlink(f.name)


def sos_cases(task, coeffs):
    out = []
    for real in (True, False):
        out.append({'kind': 'sos', 'module': task.key[0], 'function': task.key[1], 'coeffs': coeffs, 'kw': {'real': real}, 'sig': task.spec['sig'],
                    'degree': task.spec['degree']})
        if task.keys:
            out[-1]['keys'] = sorted(list(m) for m in task.keys)
    if not task.keys:
        out.append({'kind': 'facade', 'coeffs': coeffs})
    return out


def triage(rep, task, fails, seed):
    """fails: failed obligations with models.  Replays them; returns number of unresolved imprecisions."""
    from . import replay as rp, corpus
    rng = random.Random(seed)
    spurious = 0
    if enough(rep):
        rep.cov['failed_functions_not_replayed'] = rep.cov.get('failed_functions_not_replayed', 0) + 1
        if not rep.violations:
            rep.violation(f'{task.name}: postcondition (certificate == input polynomial) not provable', None, {'failed obligation': fails[0], 'verifier': 'sat'}, found=False)
        return 0
    cand, nondet = [], False
    for f in fails:
        try:
            co = [(ast.literal_eval(m), str(rp.rational(v))) for m, v in f['inputs'].items()]
            co = [(m, v) for m, v in co if v != '0']
        except Exception:
            co = None
        nondet |= f['nondet']
        if co:
            cand += sos_cases(task, co)
        elif not f['nondet']:
            nondet = True          # an irrational model cannot be replayed exactly
    outs = replay(cand) if cand else []
    for c, o in zip(cand, outs):
        if o:
            rep.violation(f'{task.name}: postcondition (certificate == input polynomial) fails', c, {'model': fails[0], 'observed': o})
            return 0
    if not nondet:
        return len(fails)          # the exact models give correct results on the real code: engine imprecision
    # search near the models
    more = []
    for c in cand:
        if c['kind'] == 'sos':
            for _ in range(12):
                more.append(corpus.perturb(dict(c, text='', degree=sum(c['coeffs'][0][0])), task.spec['group'], rng))
    more = [c for c in more if c['coeffs'] and corpus.meets(task.spec, c['coeffs'])][:120]
    hit = run_corpus(more, 60, 6)
    for c, o in hit['violations']:
        rep.violation(f'{task.name}: postcondition (certificate == input polynomial) fails', c, {'model': fails[0], 'observed': o})
        return 0
    rep.violation(f'{task.name}: postcondition (certificate == input polynomial) not provable', None,
                  {'failed obligation': fails[0], 'verifier': 'sat: the path condition and residual != 0 are satisfiable'}, found=False)
    return 0


def run_corpus(cases, budget, limit):
    """run concrete cases through the uninstrumented code in a separate process"""
    if not cases:
        return {'violations': [], 'count': {}}
    f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump({'cases': cases, 'budget': budget, 'limit': limit}, f)
    f.close()
    try:
        p = subprocess.run([PY, '-W', 'ignore', '-m', 'vt.corpus', f.name], capture_output=True, text=True, cwd=HERE, timeout=budget + 120)
        d = json.loads(p.stdout.strip().split('\n')[-1])
    except Exception as e:
        d = {'violations': [], 'count': {'error': 1}, 'error': repr(e)}
    finally:
        os.unlink(f.name)
    return {'violations': [(cases[i], o) for i, o in d['violations']], 'count': d['count'], 'error': d.get('error')}


def run_oracles(cases, budget, limit=10):
    """bounded stand-in: named oracles on the unmodified code, in a separate process"""
    f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump({'cases': cases, 'budget': budget, 'limit': limit}, f)
    f.close()
    try:
        p = subprocess.run([PY, '-W', 'ignore', '-m', 'vt.oracles', f.name], capture_output=True, text=True, cwd=HERE, timeout=budget + 240)
        try:
            return json.loads(p.stdout.strip().split('\n')[-1])
        except Exception:
            return {'violations': [], 'count': {}, 'ex': {}, 'error': (p.stderr or p.stdout)[-800:]}
    except Exception as e:
        return {'violations': [], 'count': {}, 'ex': {}, 'error': repr(e)}
    finally:
        os.unlink(f.name)


def report_oracles(rep, out, name):
    """violations of an oracle run into the report; returns the evidence entry"""
    done = set()
    for c, r in out['violations']:
        if c['oracle'] in done and len(done) > 5:
            continue
        done.add(c['oracle'])
        rep.violation(f'{name}: contract of {c["oracle"]} fails on {json.dumps(c["args"])[:160]}', dict(c, kind='oracles'), {'observed': r})
    if out.get('error'):
        rep.errors.append(f'{name}: {out["error"]}')
    return {'outcomes': out['count'], 'exceptions': out['ex']}


def partial_tasks(pairs, have):
    from . import specs, tasks
    by = {k[1]: k for k in specs.SPECS if specs.SPECS[k]['nvars'] == 3}
    out = []
    for name, keys in sorted(pairs, key=lambda x: (x[0], sorted(x[1]))):
        if name not in by or (name, keys) in have:
            continue
        have.add((name, keys))
        k = by[name]
        if specs.SPECS[k]['degree'] is None:
            continue
        out.append(tasks.SosTask(k, specs.SPECS[k], keys=keys))
    return out


def summarise(rep, tasks, res, fam, seed):
    total = collections.Counter()
    funcs, spurious = [], 0
    for i, r in res.items():
        total.update(r['count'])
        ok = sum(v for k, v in r['count'].items() if k.startswith('ok:'))
        und = sum(v for k, v in r['count'].items() if k.startswith('undecided'))
        funcs.append({'function': r['name'], 'paths': r['paths'], 'all_paths_explored': r['complete'], 'certificates_proved': ok,
                      'undecided': und, 'declined': r['count'].get('none', 0), 'seconds': round(r['time'], 1), **({'workers_lost': r['lost'][:3]} if r['lost'] else {})})
        if r['fails'] and hasattr(tasks[i], 'body'):
            from . import fncheck
            fncheck.triage(rep, tasks[i], r['fails'])
        elif r['fails']:
            spurious += triage(rep, tasks[i], r['fails'], seed)
        for e in r['errors'][:1]:
            rep.errors.append(f'{r["name"]}: {e}')
    return total, funcs, spurious


def family(rep, tier, seed, pick, budget, corpus_pick=None, extra_tasks=(), corpus_budget=45, corpus_limit=8, rounds=1, oracle_cases=None):
    from . import sos, specs, tasks, corpus
    setup()
    ts = [tasks.SosTask(k, v) for k, v in specs.SPECS.items() if v['degree'] is not None and k in sos.ORIGFN and pick(k, v)]
    from .fncheck import FnTask
    ts += [t for t in extra_tasks if t.key in sos.ORIGFN or isinstance(t, FnTask)]
    have = set()
    known = {(a, frozenset(tuple(m) for m in b)) for a, b in json.load(open(os.path.join(HERE, 'corpus', 'partials.json')))} \
        if os.path.exists(os.path.join(HERE, 'corpus', 'partials.json')) else set()
    names = {t.key[1] for t in ts}
    ts += partial_tasks({(a, b) for a, b in known if a in names}, have)
    if not ts:
        rep.errors.append('no function of this family exists any more')
        return
    w = weights(ts)
    factor = {'quick': 1, 'thorough': 12}[tier]
    res, wall = tasks.run_tasks(ts, setup, budget=budget * factor, weights=w)
    new = set()
    for r in res.values():
        new |= {(a, b) for a, b in r['partial']}
    ts2 = partial_tasks(new - known, have)
    total, funcs, spurious = summarise(rep, ts, res, '', seed)
    if ts2 and not rep.violations:
        res2, w2 = tasks.run_tasks(ts2, setup, budget=max(10, budget * factor * 0.15))
        t2, f2, s2 = summarise(rep, ts2, res2, '', seed)
        total.update(t2)
        funcs += f2
        spurious += s2
    lines = set()
    smt = collections.Counter()
    for r in res.values():
        lines |= r['lines']
        smt.update({k: v for k, v in (r['smt'] or {}).items()})
    # bounded stand-in: the corpus
    cov = {}
    if corpus_pick:
        base = [c for c in corpus.function_cases(specs.SPECS, corpus.load()) if corpus_pick(c)]
        rng = random.Random(seed)
        cases = [dict(c, kw={'real': r}) for c in base for r in (False,)]
        by = {k[1]: v for k, v in specs.SPECS.items() if v['nvars'] == 3}
        for _ in range(rounds * factor):
            for c in base:
                q = corpus.perturb(c, by[c['function']]['group'], rng)
                if q['coeffs'] and corpus.meets(by[c['function']], q['coeffs']):
                    cases.append(dict(q, kw={'real': rng.random() < .5}))
        rng.shuffle(cases)
        out = run_corpus(cases, corpus_budget * factor, corpus_limit)
        for c, o in out['violations'][:10]:
            rep.violation(f'{c["function"]}: certificate differs from the input polynomial', c, {'observed': o})
        cov = {'cases_prepared': len(cases), 'outcomes': out['count'], 'label': 'bounded: documented examples and seeded coefficient changes'}
        if out.get('error'):
            rep.errors.append('corpus: ' + str(out['error']))
    if oracle_cases:
        oc = run_oracles(oracle_cases, 40 * factor)
        cov = dict(cov, closed_forms=dict(report_oracles(rep, oc, rep.prop), label='bounded: table entries and closed forms, every exponent up to the stated degree'))
    ok = sum(v for k, v in total.items() if k.startswith('ok:'))
    und = sum(v for k, v in total.items() if k.startswith('undecided'))
    fails = sum(v for k, v in total.items() if k.startswith('FAIL'))
    rep.cov.update({'obligations': ok + und + fails, 'discharged': ok,
                'checker_cmd': f'cd /verif && {PY} -W ignore run.py {rep.prop}',
                'trusted_base': TRUSTED,
                'paths': dict(total), 'functions': funcs,
                'functions_fully_explored': sum(f['all_paths_explored'] and not f['undecided'] for f in funcs), 'functions_total': len(funcs),
                'backends': {'rational-function identity (flint)': total.get('ok:identity', 0), 'z3': total.get('ok:smt', 0)},
                'smt': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in smt.items()},
                'undecided': und, 'engine_imprecision': spurious, 'bounded_stand_in': cov,
                'lines_executed': len(lines)})
    rep.assumptions = TRUSTED + ['functions listed with all_paths_explored false are covered only for the explored paths (bounded by time)',
                                 'a path whose certificate contains a division by an identically vanishing expression is rejected by the result wrapper (zoo/nan)']
    if ok == 0 and not rep.violations:
        rep.errors.append('no obligation was generated')
