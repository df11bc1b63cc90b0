"""Contracts of single functions: real code executed symbolically, obligations per path.

A task has a `body(run)` which builds symbolic arguments (with preconditions), calls the real (instrumented) function and
returns obligations:
   ('eq', label, lhs, rhs)      identity modulo the path equalities, else z3
   ('sign', label, e, signs)    e has one of the signs (subset of {-1,0,1}) on the path: z3
   ('infeasible', label, [(e, signs), ...])   the path condition together with these facts is unsatisfiable
   ('true', label, bool)
`args` (argument templates for a concrete oracle) are instantiated from the model when an obligation fails.
"""
import sys, json, time, collections, importlib
import sympy as sp
from . import engine, instrument, smt, sos, tasks
from .engine import make_param, TooHard

INSTR = None


def setup(mods, stubs=()):
    """instrument the listed modules (prefixes); stubs: {(module, name): function}"""
    def f():
        global INSTR
        if INSTR is None:
            sel = lambda name: any(name == m or (m.endswith('.') and name.startswith(m)) for m in mods)
            INSTR = instrument.install(engine.HOOKS, sel, sos.SKIPS)
            for m in mods:
                if not m.endswith('.'):
                    importlib.import_module(m)
            for (m, n), s in dict(stubs).items():
                setattr(sys.modules[m], n, s)
    return f


class FnTask(tasks.SosTask):
    def __init__(self, name, body, oracle=None, key=('', ''), must_return=False):
        self.name, self.body, self.oracle, self.key, self.must_return = name, body, oracle, key, must_return
        self.co = {}
        self.spec = {'nvars': 0}

    def setup(self):
        pass

    def run(self, run):
        run.inputs = []
        return self.body(run)

    def describe(self, res, text, model):
        d = tasks.SosTask.describe(self, res, text, model)
        run = res.run
        env = {}
        for p in getattr(run, 'inputs', ()):
            i = run.ring.index.get(p)
            env[str(p)] = (model or {}).get(i, '0') if i is not None else '0'
        d['inputs'] = env
        d['args'] = jsonable(getattr(run, 'oracle_args', None))
        d['oracle'] = self.oracle
        return d

    def check(self, res, out):
        run = res.run
        if res.kind == 'toohard':
            out['count']['undecided:' + type(res.error).__name__ + ':' + str(res.error)[:40]] += 1
            return
        if res.kind == 'raise':
            k = 'raise:' + type(res.error).__name__
            out['count'][k] += 1
            out['ex'].setdefault(k, (res.trace or '')[-1200:])
            if self.must_return:
                r, m = sos.path_feasible(run)[:2]
                if r == 'sat':
                    self.fail(res, out, 'FAIL:raise', f'{k}: {str(res.error)[:200]}', m)
            return
        if res.kind != 'return':
            out['count'][res.kind] += 1
            return
        obs, res.value = res.value, None
        for ob in obs or ():
            kind, label = ob[0], ob[1]
            try:
                if kind == 'true':
                    r = ('ok', 'structural') if ob[2] else ('sat', None)
                    if r[0] == 'sat':
                        f, m = sos.path_feasible(run)[:2]
                        r = ('sat', m) if f == 'sat' else ('ok', 'infeasible') if f == 'unsat' else ('unknown', None)
                elif kind == 'eq':
                    r = identity(run, ob[2], ob[3])
                elif kind == 'sign':
                    r = sign(run, ob[2], ob[3])
                elif kind == 'unknown':
                    r = ('unknown', str(run.notes)[-200:])
                elif kind == 'infeasible':
                    r = entails(run, ob[2])
            except ZeroDivisionError:
                r = ('unknown', 'zero division')
            except (TooHard, RecursionError) as e:
                r = ('unknown', str(e)[:40])
            if r[0] == 'ok':
                out['count']['ok:' + r[1]] += 1
            elif r[0] == 'sat':
                self.fail(res, out, 'FAIL:' + label, f'{label}: {str(ob[2:])[:500]}', r[1])
            else:
                out['count']['undecided:' + label] += 1
                out['ex'].setdefault('undecided:' + label, str(r[1])[:200] + ' ' + str(ob[2:])[:300])


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return {'expr': str(x)}


def instantiate(x, env):
    """argument templates with the model's rational values; raises ValueError when a value is irrational"""
    from . import replay
    if isinstance(x, dict):
        if set(x) == {'expr'}:
            e = sp.sympify(x['expr'], {str(k): sp.Symbol(str(k)) for k in env})
            v = e.xreplace({sp.Symbol(k): replay.rational(v) for k, v in env.items()})
            return str(v)
        return {k: instantiate(v, env) for k, v in x.items()}
    if isinstance(x, list):
        return [instantiate(v, env) for v in x]
    return x


def identity(run, lhs, rhs):
    ok, det = sos.check_identity(run, sp.sympify(lhs), sp.sympify(rhs), ())
    if ok:
        return 'ok', det
    if det == 'denominator vanishes identically on the path':
        return 'unknown', det
    return ('sat', det[1]) if det[0] == 'sat' else ('unknown', 'smt')


def entails(run, facts, timeout_ms=5000):
    cons, polys = smt.run_constraints(run)
    Rg = run.ring
    for e, signs in facts:
        n, d = Rg.conv(e)
        p = n if d.is_constant() else n * d
        if d.is_constant() and d.leading_coefficient() < 0:
            p = -p
        p = run.rules.reduce_sign(p) if p != 0 else p
        polys.append(p)
        cons.append(smt.sign_constraint(p, signs))
    extra, eps = [], []
    seen = set()
    todo = [i for i in smt.gens_used(polys) if i in Rg.radicals]
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        c, ps = smt.radical_def(Rg, i)
        extra += c
        eps += ps
        todo += [j for j in smt.gens_used(ps) if j in Rg.radicals and j not in seen]
    r, m = smt.solve(cons + extra, smt.gens_used(polys + eps), timeout_ms)
    return ('ok', 'smt') if r == 'unsat' else ('sat', m) if r == 'sat' else ('unknown', 'smt')


def sign(run, e, signs):
    e = sp.sympify(e)
    if e.is_Rational:
        s = 0 if e == 0 else 1 if e > 0 else -1
        return ('ok', 'structural') if s in signs else (('sat', None) if sos.path_feasible(run)[0] == 'sat' else ('ok', 'infeasible'))
    return entails(run, [(e, {-1, 0, 1} - set(signs))])


def params(run, names):
    ps = [make_param(n) for n in names]
    run.inputs = run.inputs + ps
    run.input_syms = set(run.inputs)
    return ps


ASSUME = ['CPython, SymPy expression/Poly/Matrix construction, flint (identity back end), z3 (sign obligations)',
          'machine arithmetic: exact rational coefficients (Python integers are unbounded)']


def check(rep, tier, seed, ts, setup_fn, budget, cases=(), case_budget=30, assumptions=(), weights=None, path_limit=20, case_limit=20):
    from . import soscheck
    factor = {'quick': 1, 'thorough': 10}[tier]
    total = collections.Counter()
    funcs = []
    lines = set()
    stats = collections.Counter()
    if ts:
        res, wall = tasks.run_tasks(ts, setup_fn, budget=budget * factor, path_limit=path_limit, weights=weights)
        for i, r in res.items():
            total.update(r['count'])
            lines |= r['lines']
            stats.update(r['smt'] or {})
            ok = sum(v for k, v in r['count'].items() if k.startswith('ok:'))
            und = sum(v for k, v in r['count'].items() if k.startswith('undecided'))
            funcs.append({'function': r['name'], 'paths': r['paths'], 'all_paths_explored': r['complete'], 'obligations_proved': ok, 'undecided': und,
                          'raised': sum(v for k, v in r['count'].items() if k.startswith('raise')), 'seconds': round(r['time'], 1), **({'workers_lost': r['lost'][:3]} if r['lost'] else {})})
            for e in r['errors'][:1]:
                rep.errors.append(f'{r["name"]}: {e}')
            triage(rep, ts[i], r['fails'])
    cov = None
    if cases:
        oc = soscheck.run_oracles(list(cases), case_budget * factor, case_limit)
        cov = dict(soscheck.report_oracles(rep, oc, rep.prop), cases=len(cases), label='bounded')
    ok = sum(v for k, v in total.items() if k.startswith('ok:'))
    und = sum(v for k, v in total.items() if k.startswith('undecided'))
    fails = sum(v for k, v in total.items() if k.startswith('FAIL'))
    rep.cov.update({'obligations': ok + und + fails, 'discharged': ok, 'checker_cmd': f'cd /verif && {sys.executable} -W ignore run.py {rep.prop}',
                    'trusted_base': ASSUME + list(assumptions), 'paths': dict(total), 'functions': funcs,
                    'functions_fully_explored': sum(f['all_paths_explored'] and not f['undecided'] for f in funcs), 'functions_total': len(funcs),
                    'backends': {k[3:]: v for k, v in total.items() if k.startswith('ok:')},
                    'smt': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()},
                    'undecided': und, 'bounded_stand_in': cov, 'lines_executed': len(lines)})
    rep.assumptions = ASSUME + list(assumptions)
    if ts and ok == 0 and not rep.violations:
        rep.errors.append('no obligation was generated')


def triage(rep, task, fails):
    from . import soscheck
    if not fails:
        return
    if soscheck.enough(rep):
        rep.cov['failed_functions_not_replayed'] = rep.cov.get('failed_functions_not_replayed', 0) + 1
        if not rep.violations:
            rep.violation(f'{task.name}: {fails[0]["kind"][5:]} not provable', None, {'failed obligation': fails[0], 'verifier': 'sat'}, found=False)
        return
    cand, labels = [], []
    irr = False
    for f in fails:
        if f['oracle'] and f['args'] is not None:
            try:
                cand.append({'kind': 'oracles', 'oracle': f['oracle'], 'args': instantiate(f['args'], f['inputs'])})
                labels.append(f)
            except Exception:
                irr = True
    outs = soscheck.replay(cand) if cand else []
    for c, o, f in zip(cand, outs, labels):
        if o:
            rep.violation(f'{task.name}: {f["kind"][5:]} fails', c, {'failed obligation': f, 'observed': o})
            return
    rest = [f for f in fails if f['nondet'] or not f['oracle'] or f['args'] is None] or (fails if irr else [])
    if rest or not cand:
        f = (rest or fails)[0]
        rep.violation(f'{task.name}: {f["kind"][5:]} not provable', None, {'failed obligation': f, 'verifier': 'sat'}, found=False)
        return
    rep.cov['engine_imprecision'] = rep.cov.get('engine_imprecision', 0) + len(fails)
