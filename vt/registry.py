"""Property id -> check."""
from . import soscheck, linalg, cyc, cert, acute, univ, pre, lin, tab, sdp, sdpt, symm, num, null, sol, drive, fncheck


def _mods(*names):
    return lambda k, v: k[0].rsplit('.', 1)[-1] in names


def c01(rep, tier, seed):
    soscheck.family(rep, tier, seed, _mods('quadratic', 'cubic', 'quartic'), 50, lambda c: c['degree'] <= 4, corpus_budget=20, rounds=3)


def c02(rep, tier, seed):
    soscheck.family(rep, tier, seed, _mods('quintic', 'quintic_symmetric', 'sextic', 'sextic_symmetric'), 90,
                    lambda c: c['degree'] in (5, 6), corpus_budget=30, rounds=2)


def c03(rep, tier, seed):
    soscheck.family(rep, tier, seed, _mods('septic', 'septic_symmetric', 'octic', 'octic_symmetric', 'nonic'), 75,
                    lambda c: c['degree'] in (7, 8, 9), corpus_budget=25, rounds=2)


def c04(rep, tier, seed):
    import itertools
    from . import sos, specs, tasks
    soscheck.setup()
    by = {k[1]: k for k in specs.SPECS if specs.SPECS[k]["nvars"] == 3}
    def T(fn, d, **k):
        return tasks.SosTask(by[fn], specs.SPECS[by[fn]], degree=d, **k)
    thorough = tier != 'quick'
    ts = [T('_structural_sos_3vars_cyclic', d) for d in range(1, 11)] + [T('_structural_sos_3vars_acyclic', d) for d in range(1, 6)]
    ts += [T(f, d) for f in ('sos_struct_liftfree_for_six', '_sos_struct_lift_for_six', '_sos_struct_liftfree_for_six_ord4', '_sos_struct_dense_symmetric',
                             'sos_struct_dense_symmetric', '_sos_struct_trivial_additive') for d in range(6, 13 if thorough else 10)]
    ts += [T('sos_struct_heuristic', d) for d in range(7, 11)]
    for d in range(1, 13 if thorough else 9):
        orbs = sorted({sos.orbit_rep(m, sos.CYC[3]) for m in sos.monoms(3, d)}, reverse=True)
        ts += [T('_sos_struct_sparse_amgm', d, support=frozenset({o})) for o in orbs]
        ts += [T('_sos_struct_sparse_amgm', d, support=frozenset(p)) for p in itertools.combinations(orbs, 2)]
        if d in (5, 6, 7, 8) or thorough:
            ts += [T('_structural_sos_3vars_cyclic', d, support=frozenset(p)) for p in itertools.combinations(orbs, 2)]
        if d in (7, 8):
            hx = [o for o in orbs if max(o) <= d - 2]
            ts += [T('sos_struct_heuristic', d, support=frozenset(p)) for p in itertools.combinations(hx, 3)]
    soscheck.family(rep, tier, seed, lambda k, v: False, 75, lambda c: c['function'] in names, extra_tasks=ts, corpus_budget=20, rounds=1,
                    oracle_cases=closed_forms(14 if not thorough else 20))


names = {'sos_struct_liftfree_for_six', '_sos_struct_lift_for_six', '_sos_struct_liftfree_for_six_ord4', '_sos_struct_dense_symmetric',
         'sos_struct_dense_symmetric', '_sos_struct_trivial_additive', 'sos_struct_heuristic', 'sos_struct_sparse', '_sos_struct_sparse_amgm'}


def closed_forms(top):
    import itertools
    P = itertools.product
    cs = [('pnrms', [n, r, m, s]) for n, r, m, s in P(range(0, 9), range(1, 8), range(0, 9), range(1, 8)) if n + r + m + s <= top - 2 and (n, r) <= (m, s)]
    cs += [('pnrms', [n, r, m, s]) for n, r in P(range(0, 9), range(0, 8)) for m, s in ((2, 1), (3, 2)) if n + r <= 12]
    cs += [('hnmr', [n, m, r]) for n, m, r in P(range(-6, 13), range(0, 9), range(0, 6)) if abs(n) + m + 2 * r <= top]
    cs += [('common', ['schur', n]) for n in range(0, 10)] + [('common', ['schurinv', n]) for n in (2, 4, 6, 8)]
    cs += [('common', ['quadratic', x, y]) for x in ('0', '1/2', '1', '3') for y in ('-3', '-1', '-1/2', '0', '1', '2', '7')]
    for d in range(2, 9):
        tri = [(i, j, d - i - j) for i in range(d + 1) for j in range(d + 1 - i)]
        tri = sorted({max(t, (t[1], t[2], t[0]), (t[2], t[0], t[1])) for t in tri})
        cs += [('common', ['amgm', list(p), list(q)]) for p in tri for q in tri]
    return [{'oracle': o, 'args': a} for o, a in cs]


def c05(rep, tier, seed):
    from . import sos, specs, tasks
    soscheck.setup()
    by = {k[1]: k for k in specs.SPECS if '.ternary.' not in k[0]}
    def T(fn, d, **k):
        return tasks.SosTask(by[fn], specs.SPECS[by[fn]], degree=d, **k)
    thorough = tier != 'quick'
    ts = [tasks.SosTask(k, v) for k, v in specs.SPECS.items() if v['nvars'] == 4 and v['degree']]
    ts += [T(f, d) for f in ('_structural_sos_4vars_symmetric', '_structural_sos_4vars_cyclic', '_structural_sos_4vars_partial_symmetric') for d in (1, 2, 3, 4)]
    ts += [T('_sos_struct_nvars_quartic_symmetric_sdp', 4, nvars=n, group=sos.SYM[n]) for n in (4, 5)]
    for n in range(1, 6 if thorough else 5):
        ts += [T('sos_struct_quadratic', 2, nvars=n, group=sos.TRIV[n], upto=u) for u in (False, True) if n < 4 or not u]
        ts += [T('sos_struct_linear', 1, nvars=n, group=sos.TRIV[n], upto=u) for u in (False, True)]
    soscheck.family(rep, tier, seed, lambda k, v: False, 60, None, extra_tasks=ts, rounds=1, oracle_cases=more_vars(seed, 160 if not thorough else 1500))


def c07(rep, tier, seed):
    from . import specs, tasks
    soscheck.setup()
    th = tier != 'quick'
    ts = []
    for k, v in specs.SPECS.items():
        if k[0].endswith('.acute'):
            ts += [tasks.SosTask(k, v)] if v['degree'] else [tasks.SosTask(k, v, degree=d) for d in range(2, 13 if th else 10)]
    soscheck.family(rep, tier, seed, lambda k, v: False, 35, None, extra_tasks=ts + acute.glue_tasks(), rounds=1, oracle_cases=acute.cases(seed, 60 if not th else 3000))


def more_vars(seed, count):
    """concrete forms in 2-6 variables through the facade"""
    import random
    rng = random.Random(seed)
    R = lambda: f'{rng.randint(-9, 14)}/{rng.choice((1, 1, 2, 3))}'
    cs = []
    for i in range(count):
        n = rng.choice((2, 3, 4, 4, 4, 5, 6))
        x = 'abcdef'[:n]
        k = i % 5
        sym = lambda t: 'SYM(' + t + ')'
        if k == 0:
            sq = [f'({R()})**2*(' + '+'.join(f'({rng.randint(-4, 5)})*{v}' for v in x) + ('+1' if i % 2 else '') + ')**2' for _ in range(n + 1)]
            e = '+'.join(sq) + (f'+({R()})*a*b' if i % 3 == 0 else '')
        elif k == 1:
            n, x = 4, 'abcd'
            e = f'CYC(({R()})*a**4+({R()})*a**2*b**2+({R()})*a**2*b*c+({R()})*a**2*c**2+({R()})*a**3*b+({R()})*a*b**3+({R()})*a*b*c*d)'
        elif k == 2:
            n = max(n, 3)
            x = 'abcdef'[:n]
            e = f'SYM(({R()})*(a-b)**2*(a+b-c*({R()}))**2+({R()})*a**2*(b-c)**2+(a-b)**4*({R()}))'
        elif k == 3:
            n, x = 4, 'abcd'
            u = R()
            e = f'SYM(({u})*(a**3+2*a*b*c-2*a**2*b)+({R()})*a*(b-c)**2+({R()})*a*b*c)'
        else:
            n, x = 4, 'abcd'
            e = f'PART(a**3*({R()})+a**2*b*({R()})+a*b**2*({R()})+a*b*c*({R()})+d*(({R()})*a*b+({R()})*a**2)+d**2*({R()})*a+d**3*({R()}))'
        cs.append({'oracle': 'facade_random', 'args': [e, x]})
    return cs


CHECKS = {
    'C01': {'level': 'proof', 'run': c01},
    'C02': {'level': 'proof', 'run': c02},
    'C03': {'level': 'proof', 'run': c03},
    'C04': {'level': 'proof', 'run': c04},
    'C05': {'level': 'proof', 'run': c05},
    'C06': {'level': 'proof', 'run': univ.c06},
    'C07': {'level': 'proof', 'run': c07},
    'C08': {'level': 'proof', 'run': cert.c08},
    'D01': {'level': 'proof', 'run': linalg.d01},
    'D02': {'level': 'proof', 'run': linalg.d02},
    'E02': {'level': 'proof', 'run': cyc.e02},
    'F01': {'level': 'proof', 'run': pre.f01},
    'E01': {'level': 'proof', 'run': tab.e01},
    'G01': {'level': 'proof', 'run': lin.g01},
    'G02': {'level': 'proof', 'run': sdp.g02},
    'G03': {'level': 'proof', 'run': symm.g03},
    'D04': {'level': 'proof', 'run': num.d04},
    'G04': {'level': 'proof', 'run': null.g04},
    'E03': {'level': 'proof', 'run': sol.e03},
    'D05': {'level': 'proof', 'run': drive.d05},
    'D03': {'level': 'proof', 'run': sdpt.d03},
}
