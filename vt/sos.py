"""Verification of the structural-SOS solvers: contracts and harness.

Contract of a solver function F(coeff, ...):   for all real coefficients,
    F raises, or returns None, or returns E with  E == poly(coeff)  as a rational function of the variables.
"""
import sys, time, types, itertools, importlib, random, collections
import sympy as sp
from . import engine, instrument, smt
from .engine import Prune, TooHard, make_param, is_sym, mark_rational, approx_param, hook_truth

SOS = 'triples.core.structsos'


def select(name):
    return name.startswith(SOS) or name in ('triples.utils.expression.coeff', 'triples.sdp.utils')


SKIPS = {'triples.utils.expression.coeff': ('__operator__', 'clear_zero', 'cancel_abc', 'cancel_k', '__init__', '__new__'),
         }


class Proxy(types.ModuleType):
    def __init__(self, base, over):
        super().__init__(base.__name__)
        self.__dict__['_base'] = base
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__['_base'], k)


MODS = {}


def sympoly(e):
    """does the Poly have symbolic coefficients?"""
    return isinstance(e, sp.Poly) and any(getattr(s, '_sx_param', False) for s in (e.free_symbols | e.free_symbols_in_domain))


def R():
    return engine.RUN


# ---------------------------------------------------------------- contracts of callees (assumed here, see P*)
def st_rationalize_func(poly, validation, validation_initial=None, direction=0):
    """contract: returns None, or a rational t with validation(t) and poly(t)*direction >= 0 (checked by D04)."""
    if R() is None:
        return ORIG['rationalize_func'](poly, validation, validation_initial, direction)
    if R().decide(2, 'rationalize_func found') == 1:
        return None
    t = mark_rational(R().fresh('rf'))
    if not hook_truth(validation(t)):
        raise Prune
    if isinstance(poly, sp.Poly) and direction != 0 and len(poly.gens) == 1:
        if not hook_truth(engine.hook_cmp('ge', poly(t) * direction, 0)):
            raise Prune
    return t


def st_radsimp(x):
    if R() is None:
        return ORIG['radsimp'](x)
    if isinstance(x, (list, tuple, sp.MatrixBase)):
        return [st_radsimp(e) for e in x]
    return sp.sympify(x)


def st_sum_y_exprs(y, exprs):
    if R() is None:
        return ORIG['sum_y_exprs'](y, exprs)
    return sp.Add(*[yi * e for yi, e in zip(y, exprs)])


def _roots(hint, n=1, **k):
    """arbitrary list of real numbers; the loops over it are cut at one element (see loop frame check)"""
    c = R().decide(3, hint)
    if c == 0:
        return []
    if c == 1:
        return [mark_rational(R().fresh('r'))]
    return [approx_param('a')]


def st_nroots(poly, *a, **k):
    if R() is None:
        return ORIG['nroots'](poly, *a, **k)
    return _roots('nroots')


def st_list_rational(hint):
    def f(*a, **k):
        if R() is None:
            return ORIG[hint](*a, **k)
        if R().decide(2, hint) == 0:
            return []
        return [mark_rational(R().fresh('q'))]
    return f


def st_rationalize(x, *a, **k):
    if R() is None or not is_sym(x):
        return ORIG['rationalize'](x, *a, **k)
    return mark_rational(R().fresh('q'))


def st_cancel_denominator(nums):
    """contract: returns r != 0 (positive rational) -- see numbers contract"""
    if R() is None or not any(is_sym(x) for x in nums):
        return ORIG['cancel_denominator'](nums)
    t = mark_rational(R().fresh('cd'))
    R().facts[R().ring.canon(R().ring.conv(t)[0])[0]] = ({1}, R().ring.conv(t)[0])
    return t


def st_common_region(*a, **k):
    if R() is None:
        return ORIG['common_region_of_conics'](*a, **k)
    if R().decide(2, 'common_region') == 1:
        return None
    return (mark_rational(R().fresh('cx')), mark_rational(R().fresh('cy')))


def st_gcd(*a, **k):
    polys = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    if R() is None or not any(sympoly(p) or is_sym(p) for p in polys):
        return sp.gcd(*a, **k)
    if all(isinstance(p, sp.Poly) for p in polys):
        g = polys[0].gens
        c = R().decide(3, 'gcd degree')
        if c == 0:
            return sp.Poly(1, *g)
        cs = [R().fresh('g') for _ in range(c + 1)]
        for s in cs:
            mark_rational(s) if False else None
        R()._assume_nonzero(R().ring.conv(cs[0])[0])
        if c == 1:     # monic up to a factor: common root
            root = -cs[1] / cs[0]
            for p in polys:
                R().add_equality(R().ring.conv(p.as_expr().subs(g[0], root))[0])
        return sp.Poly(cs, *g)
    return R().fresh('gcd')


def st_poly_roots(p, *a, **k):
    if R() is None or not sympoly(p):
        return sp.polys.roots(p, *a, **k)
    c = R().decide(3, 'roots')
    if c == 0:
        return {}
    t = R().fresh('rt')
    if c == 1:
        mark_rational(t)
    pe = p.as_expr().subs(p.gens[0], t)
    R().add_equality(R().ring.conv(pe)[0])
    return {t: 1 + R().decide(2, 'mult')}


def st_poly_nroots(p, *a, **k):
    if R() is None or not sympoly(p):
        return sp.polys.nroots(p, *a, **k)
    return [] if R().decide(2, 'nroots') else [approx_param('a')]


def st_count_roots(p, *a, **k):
    if R() is None or not sympoly(p):
        return sp.polys.count_roots(p, *a, **k)
    return R().decide(2, 'count_roots')


def st_nsimplify(x, *a, **k):
    if R() is None or not is_sym(x):
        return sp.nsimplify(x, *a, **k)
    return mark_rational(R().fresh('ns'))


def st_sqrtdenest(x):
    return x


def st_resultant(p, q, *g):
    if R() is None or not (sympoly(p) or sympoly(q)):
        return sp.polys.resultant(p, q, *g)
    raise TooHard('resultant')


ORIG = {}


def congruence_stub(M, *a, **k):
    """contract: None, or (U, S) with U upper triangular, S >= 0, U.T*diag(S)*U == M (verified separately)"""
    if R() is None or not any(is_sym(x) for x in M):
        return ORIG['_congruence' if a or k else 'congruence'](M, *a, **k)
    n = M.shape[0]
    if R().decide(2, 'congruence') == 1:
        return None
    U = sp.zeros(n, n)
    S = sp.Matrix(n, 1, [R().fresh('S') for _ in range(n)])
    for i in range(n):
        for j in range(i, n):
            U[i, j] = R().fresh('U')
    run = R()
    # defining equalities, as rewriting rules  S_i*U_ii*U_ij -> M_ij - sum_{k<i} S_k U_ki U_kj
    for i in range(n):
        for j in range(i, n):
            lhs = run.ring.conv(S[i] * U[i, i] * U[i, j])[0]
            rhs = run.ring.conv(M[i, j] - sum(S[k] * U[k, i] * U[k, j] for k in range(i)))
            run.rewrites.append((next(iter(lhs.to_dict())), rhs))
    for s in S:
        p = run.ring.conv(s)[0]
        run.facts[run.ring.canon(p)[0]] = ({0, 1}, p)
    return U, S


def setup():
    """Import the instrumented modules and install the callee contracts."""
    if MODS:
        return
    f = instrument.install(engine.HOOKS, select, SKIPS)
    importlib.import_module(SOS)
    u = importlib.import_module(SOS + '.utils')
    u = sys.modules[SOS + '.utils']
    importlib.import_module('triples.utils.roots.rationalize')
    ur = sys.modules['triples.utils.roots.rationalize']
    import triples.core.structsos.ternary.solver, triples.core.structsos.quarternary.solver
    import triples.core.structsos.constrained, triples.core.structsos.pivoting
    for n in ('rationalize_func', 'radsimp', 'sum_y_exprs', 'congruence'):
        ORIG[n] = getattr(u, n)
    for n in ('nroots', 'rationalize', 'rationalize_bound', 'univariate_intervals', 'square_perturbation',
              'cancel_denominator', 'common_region_of_conics'):
        ORIG[n] = getattr(ur, n)
    ORIG['intervals'] = u.intervals
    ORIG['_congruence'] = sys.modules['triples.sdp.utils'].congruence
    stubs = {'rationalize_func': st_rationalize_func, 'radsimp': st_radsimp, 'sum_y_exprs': st_sum_y_exprs,
             'congruence': congruence_stub, 'nroots': st_nroots, 'rationalize': st_rationalize,
             'rationalize_bound': st_list_rational('rationalize_bound'),
             'univariate_intervals': st_list_rational('univariate_intervals'),
             'square_perturbation': st_list_rational('square_perturbation'),
             'intervals': st_list_rational('intervals'),
             'cancel_denominator': st_cancel_denominator,
             'common_region_of_conics': st_common_region}
    stubs['_congruence'] = congruence_stub
    byid = {id(ORIG[n]): s for n, s in stubs.items()}
    polys = Proxy(sp.polys, {'roots': st_poly_roots, 'nroots': st_poly_nroots, 'count_roots': st_count_roots,
                             'resultant': st_resultant, 'gcd': st_gcd})
    def path(f):
        return lambda *a, **k: f(*[engine.path_poly(x) if R() is not None and isinstance(x, sp.Poly) else x for x in a], **k)
    spx = Proxy(sp, {'gcd': st_gcd, 'div': path(sp.div), 'rem': path(sp.rem), 'quo': path(sp.quo), 'degree': path(sp.degree), 'LC': path(sp.LC), 'nsimplify': st_nsimplify, 'sqrtdenest': st_sqrtdenest, 'polys': polys,
                     'count_roots': st_count_roots, 'roots': st_poly_roots, 'nroots': st_poly_nroots,
                     'radsimp': lambda x, **k: x if R() is not None else sp.radsimp(x, **k)})
    for name in list(f.loaded):
        m = sys.modules.get(name)
        if m is None: continue
        MODS[name] = m
        if not name.startswith(SOS):
            continue
        for k, v in list(m.__dict__.items()):
            if id(v) in byid:
                m.__dict__[k] = byid[id(v)]
            elif v is sp:
                m.__dict__[k] = spx
    # Coeff.is_rational is a declared attribute: make it a decision on symbolic data
    from triples.utils.expression.coeff import Coeff

    def get(self):
        if R() is not None and any(is_sym(v) for v in self.coeffs.values()):
            return all(engine.RUN_is_rational(v) for v in self.coeffs.values() if is_sym(v))
        return self.__dict__.get('_is_rat', True)
    Coeff.is_rational = property(get, lambda self, v: self.__dict__.__setitem__('_is_rat', v))
    return f


# ---------------------------------------------------------------- harness
GENS = {n: sp.symbols(f'a:{chr(96 + n)}') for n in (1, 2, 3, 4, 5, 6)}


def monoms(nvars, d):
    return [m for m in itertools.product(range(d + 1), repeat=nvars) if sum(m) == d]


def orbit_rep(m, perms):
    return max(tuple(m[p[i]] for i in range(len(m))) for p in perms)


CYC = {3: [(0, 1, 2), (1, 2, 0), (2, 0, 1)], 4: [(0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2)]}
SYM = {n: list(itertools.permutations(range(n))) for n in (1, 2, 3, 4, 5, 6)}
PART = {4: [(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3)]}
TRIV = {n: [tuple(range(n))] for n in (1, 2, 3, 4, 5, 6)}


def generic_coeff(nvars, d, group, zero=(), name='x'):
    """dict monomial -> Param, invariant under the group, for every real coefficient vector."""
    co = {}
    for m in sorted(monoms(nvars, d), reverse=True):
        rep = orbit_rep(m, group)
        if rep in zero:
            continue
        co[m] = make_param(name + ''.join(map(str, rep)))
    return co


def coeff_obj(co):
    from triples.utils.expression.coeff import Coeff
    return Coeff(dict(co))


def acute(s):
    """the value of the constraint symbol F(s) of the acute triangle solvers"""
    a, b, c = GENS[3]
    return {a: b**2 + c**2 - a**2, b: c**2 + a**2 - b**2, c: a**2 + b**2 - c**2}[s]


def poly_expr(co, gens):
    return sp.Add(*[v * sp.Mul(*[g ** e for g, e in zip(gens, m)]) for m, v in co.items()])


def opaque_cert(run, target_expr, gens):
    k = len(run.opaque)
    F = sp.Function(f'Cert{k}')
    run.opaque[F] = (target_expr, gens)
    return F(*gens)


def subst_opaque(run, e):
    if not run.opaque:
        return e
    e = e.doit() if hasattr(e, 'doit') else e
    for F, (t, gens) in run.opaque.items():
        e = e.replace(F, lambda *args: t.xreplace(dict(zip(gens, args))) if True else None)
    return e


def check_identity(run, value, target, gens):
    """Decide value == target modulo the path equalities.  Returns (ok, detail)."""
    Rg = run.ring
    v = subst_opaque(run, sp.sympify(value))
    v = v.doit()
    n1, d1 = Rg.conv(v)
    for q in Rg.denoms:
        if len(q) < 300 and all(Rg.kind.get(i) != 'var' for i in Rg.gens_of(q)) and run.rules.reduce(q) == 0:
            raise ZeroDivisionError
    n2, d2 = Rg.conv(target)
    p = n1 * d2 - n2 * d1
    p = run.rules.reduce(p)
    if p != 0 and run.rewrites:
        p = rewrite(run, p)
    if p == 0:
        dd = run.rules.reduce(d1)
        return (dd != 0), ('identity' if dd != 0 else 'denominator vanishes identically on the path')
    # remaining obligation: every coefficient in the polynomial variables vanishes on the path (SMT)
    return smt_identity(run, p)


def var_coeffs(R, p):
    """coefficients of p as a polynomial in the problem variables"""
    iv = [i for i, k in R.kind.items() if k == 'var']
    out = {}
    for m, c in p.to_dict().items():
        k = tuple(m[i] for i in iv)
        mm = list(m)
        for i in iv:
            mm[i] = 0
        out.setdefault(k, {})[tuple(mm)] = c
    return {k: R.ctx.from_dict(d) for k, d in out.items()}


def smt_identity(run, p, timeout_ms=4000):
    cons, polys = smt.run_constraints(run)
    cs = list(var_coeffs(run.ring, p).values())
    R_ = run.ring
    seen = set()
    extra, eps = [], []
    todo = [i for i in smt.gens_used(cs) if i in R_.radicals]
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        c, ps = smt.radical_def(R_, i)
        extra += c
        eps += ps
        todo += [j for j in smt.gens_used(ps) if j in R_.radicals and j not in seen]
    for mono, (rn, rd) in run.rewrites:      # contract equalities as hypotheses
        q = run.rules.reduce(R_.ctx.from_dict({mono: 1}) * rd - rn)
        if q != 0 and len(q) < 60:
            extra.append(smt.sign_constraint(q, {0}))
            eps.append(q)
    goal = '(or %s)' % ' '.join(smt.sign_constraint(c, {-1, 1}) for c in cs)
    gens = smt.gens_used(polys + cs + eps)
    r, model = smt.solve(cons + extra + [goal], gens, timeout_ms)
    if r == 'unsat':
        return True, 'smt'
    return False, (r, model, p)


def rewrite(run, p):
    Rg = run.ring
    rules = run.rewrites
    for _ in range(400):
        if p == 0:
            return p
        hit = None
        dct = p.to_dict()
        for mono, rhs in rules:
            idx = [(i, e) for i, e in enumerate(mono) if e]
            ms = {m: c for m, c in dct.items() if all(m[i] >= e for i, e in idx)}
            if ms:
                hit = (mono, rhs, ms)
                break
        if hit is None:
            return p
        mono, (rn, rd), ms = hit
        rest = Rg.ctx.from_dict({m: c for m, c in dct.items() if m not in ms})
        quo = Rg.ctx.from_dict({tuple(a - b for a, b in zip(m, mono)): c for m, c in ms.items()})
        p = run.rules.reduce(rest * rd + quo * rn)
    raise TooHard('rewriting did not terminate')


# ---------------------------------------------------------------- modular contracts between solver functions
# A registered solver F(coeff, ...) carries the contract
#   requires  coeff is the coefficient function of a form of degree d with the group invariance and vanishing
#             coefficients listed in SPECS[F]
#   ensures   result is None  or  result == sum of coeff(m) * x^m  identically in the variables
# A call with symbolic coefficients is checked against `requires` and replaced by `ensures`.
ORIGFN = {}
USED = collections.defaultdict(int)


class Track:
    """reads clause of the function under verification: which monomials it looks up, whether it iterates."""
    def __init__(self):
        self.reads = set()
        self.iter = False
        self.callees = set()


def sym_coeff(c):
    co = getattr(c, 'coeffs', None)
    return isinstance(co, dict) and any(is_sym(v) for v in co.values())


def rotations(m, group):
    return {tuple(m[p[i]] for i in range(len(m))) for p in group}


def complete_dict(co, group):
    """group completion of a dictionary that lists orbit representatives only; None if it is inconsistent.
    Second result: was the dictionary already closed?"""
    out = dict(co)
    closed = True
    for m, v in co.items():
        for r in rotations(m, group):
            if r not in out:
                out[r] = v
                closed = False
    return out, closed


def path_feasible(run, timeout_ms=4000):
    cons, polys = smt.run_constraints(run)
    for mono, (rn, rd) in run.rewrites:
        q = run.rules.reduce(run.ring.ctx.from_dict({mono: 1}) * rd - rn)
        if q != 0 and len(q) < 60:
            cons, polys = cons + [smt.sign_constraint(q, {0})], polys + [q]
    return smt.solve(cons, smt.gens_used(polys), timeout_ms)


def as_dict(x):
    """coefficient dictionary of a Coeff / Poly / dict argument with symbolic values (else None)"""
    if isinstance(x, sp.Poly):
        return dict(x.as_dict()) if sympoly(x) else None
    if isinstance(x, dict):
        return dict(x) if any(is_sym(v) for v in x.values()) else None
    if sym_coeff(x):
        return dict(x.coeffs)
    return None


def requires(run, co, key, spec, coeff=None):
    """The precondition of `key` on the coefficient dictionary `co`; returns the completed dictionary or None."""
    nv = len(next(iter(co)))
    if nv != spec['nvars']:
        return None
    deg = {sum(m) for m in co}
    g0 = CYC[3] if (nv == 3 and spec['base'] == 'cyc') else [tuple(range(nv))] if spec['base'] == 'none' else spec['group']
    full, closed = complete_dict(co, g0) if spec['degree'] is not None else (co, True)
    if not closed:
        if run.rewrites and path_feasible(run)[0] == 'unsat':
            raise engine.Prune
        run.partial.add((key[1], frozenset(co)))
    elif coeff is not None and run.input_obj is not None and getattr(coeff, 'coeffs', None) is getattr(run.input_obj, 'coeffs', 0):
        run.track_callees.add(key[1])
    if (spec['degree'] is not None and deg - {spec['degree']}) or len(deg) != 1:
        return None
    for m in sorted(full):
        if orbit_rep(m, spec['group']) in spec['zeros']:
            if not hook_truth(engine.hook_cmp('eq', full[m], 0)):
                return None
    for m in sorted(full):
        rep = orbit_rep(m, spec['group'])
        if rep != m and (rep in full or closed):
            if not hook_truth(engine.hook_cmp('eq', full[m], full.get(rep, sp.S(0)))):
                return None
    for form in spec.get('pre') or ():
        if not hook_truth(engine.hook_cmp('eq', sum(k * full.get(m, sp.S(0)) for m, k in form.items()), 0)):
            return None
    return full


def make_contract(fn, key, spec):
    """The call is replaced by the contract where its precondition holds; on the branch where the precondition
    fails, the real body of the callee is executed instead (so no assumption is made there)."""
    import functools

    def stub(coeff, *a, **k):
        run = R()
        if run is None or key in run.inline:
            return fn(coeff, *a, **k)
        co = as_dict(coeff)
        if not co:
            return fn(coeff, *a, **k)
        full = requires(run, co, key, spec, coeff)
        if full is None:
            run.notes.add('inlined ' + key[1])
            return fn(coeff, *a, **k)
        nv = spec['nvars']
        USED[key[1]] += 1
        if run.decide(2, key[1]) == 1:
            return None
        gens = GENS[nv]
        return opaque_cert(run, poly_expr(full, gens), gens)
    try:
        functools.update_wrapper(stub, fn)
    except Exception:
        pass
    stub._sx_orig = fn
    return stub


def install_contracts(specs):
    """specs: {(module, function): spec}"""
    if ORIGFN:
        return
    sub = {}
    for key, spec in specs.items():
        m = MODS.get(key[0])
        v = getattr(m, key[1], None) if m is not None else None
        if v is None or not callable(v):
            continue
        ORIGFN[key] = v
        sub[id(v)] = make_contract(v, key, spec)
    def registry(d):
        for k, v in list(d.items()):
            if isinstance(v, dict):
                registry(v)
            elif id(v) in sub:
                d[k] = sub[id(v)]
    registry(sys.modules['triples.core.shared'].SS._dict)
    for name, m in MODS.items():
        for k, v in list(m.__dict__.items()):
            if id(v) in sub:
                m.__dict__[k] = sub[id(v)]
            elif isinstance(v, dict) and k.startswith('SOLVERS'):
                for kk, vv in list(v.items()):
                    if id(vv) in sub:
                        v[kk] = sub[id(vv)]


class Proxy2:
    def __init__(self, **kw):
        self.__dict__.update(kw)
