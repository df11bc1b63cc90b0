"""SMT back end (z3, QF_NRA through SMT-LIB text): feasibility of a path and final obligations."""
import subprocess, shutil, re

Z3 = shutil.which('z3-new') or shutil.which('z3')
STATS = {'calls': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}


def poly_smt(p):
    ts = []
    for m, c in p.to_dict().items():
        num, den = int(c.p), int(c.q)
        s = str(abs(num)) if den == 1 else f'(/ {abs(num)} {den})'
        if num < 0:
            s = f'(- {s})'
        fs = [s]
        for i, e in enumerate(m):
            fs += [f'g{i}'] * int(e)
        ts.append('(* %s)' % ' '.join(fs) if len(fs) > 1 else s)
    if not ts:
        return '0'
    return '(+ %s)' % ' '.join(ts) if len(ts) > 1 else ts[0]


def sign_constraint(p, signs):
    s = poly_smt(p)
    signs = set(signs)
    if signs == {0}: return f'(= {s} 0)'
    if signs == {1}: return f'(> {s} 0)'
    if signs == {-1}: return f'(< {s} 0)'
    if signs == {0, 1}: return f'(>= {s} 0)'
    if signs == {0, -1}: return f'(<= {s} 0)'
    if signs == {1, -1}: return f'(not (= {s} 0))'
    if not signs: return 'false'
    return 'true'


def gens_used(polys):
    u = set()
    for p in polys:
        if p != 0:
            u |= {i for i, d in enumerate(p.degrees()) if d > 0}
    return u


def solve(constraints, gens, timeout_ms=3000, model=True):
    """constraints: list of SMT strings.  -> ('unsat'|'sat'|'unknown', model dict or None)"""
    import time
    t0 = time.time()
    txt = ['(set-logic QF_NRA)'] + [f'(declare-const g{i} Real)' for i in sorted(gens)]
    txt += [f'(assert {c})' for c in constraints]
    txt.append('(check-sat)')
    if model:
        txt.append('(get-model)')
    STATS['calls'] += 1
    try:
        r = subprocess.run([Z3, '-in', f'-T:{max(1, (timeout_ms + 999) // 1000)}'], input='\n'.join(txt), capture_output=True,
                           text=True, timeout=timeout_ms / 1000 + 5)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = 'unknown'
    STATS['time'] += time.time() - t0
    first = out.strip().split('\n', 1)[0].strip() if out.strip() else 'unknown'
    if first not in ('sat', 'unsat'):
        first = 'unknown'
    STATS[first] += 1
    mod = None
    if first == 'sat' and model:
        mod = {}
        for mm in re.finditer(r'\(define-fun g(\d+) \(\) Real\s+([\s\S]*?)\)\s*(?=\(define-fun|\)\s*$)', out):
            mod[int(mm.group(1))] = mm.group(2).strip()
    return first, mod


def run_constraints(run):
    """All facts of a path (including radical definitions) as SMT constraints."""
    polys, cons = [], []
    for key, (al, p) in run.facts.items():
        polys.append(p)
        cons.append(sign_constraint(p, al))
    R = run.ring
    for h in run.hard:
        polys.append(h)
        cons.append(sign_constraint(h, {0}))
    for i, (n, d) in run.rules.subs.items():
        q = R.gens[i] * d - n
        polys.append(q)
        cons.append(sign_constraint(q, {0}))
    for i, (e, lc, tail) in run.rules.alg.items():
        q = lc * R.gens[i] ** e + tail
        polys.append(q)
        cons.append(sign_constraint(q, {0}))
    for n in R.denoms[:40]:
        if all(R.kind.get(i) != 'var' for i in R.gens_of(n)) and len(n) < 200:
            polys.append(n)
            cons.append(sign_constraint(n, {-1, 1}))
    used = gens_used(polys)
    todo = [i for i in used if i in R.radicals]
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        c, ps = radical_def(R, i)
        cons += c
        polys += ps
        todo += [j for j in gens_used(ps) if j in R.radicals and j not in seen]
    return cons, polys


def radical_def(R, i):
    q, (n, d) = R.radicals[i]
    p = d * R.gens[i] ** q - n
    return [sign_constraint(p, {0}), f'(>= g{i} 0)', sign_constraint(d, {-1, 1})], [p, R.gens[i]]
