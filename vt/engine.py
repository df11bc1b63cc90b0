"""Symbolic path exploration of real Python functions (re-execution based).

A *run* executes the real (instrumented) function under CPython on symbolic values.  Each decision on a
symbolic value asks `Run.query`, which answers from the path facts or forks.  `explore` enumerates every
decision sequence depth first; when it finishes without hitting its limit, every execution of the function on
every concrete instantiation of the symbolic inputs follows one of the explored paths.
"""
import sys, time, threading, traceback, signal
import sympy as sp
from sympy.core.relational import Relational
from .algebra import Ring, Rules, TooHard, Contradiction


class Prune(Exception):
    """The path is infeasible (or excluded by a contract)."""
    def __init__(self, *a):
        super().__init__(*a)
        if RUN is not None:
            RUN.dead = True       # stays pruned when the code under test swallows the exception


class Limit(Exception):
    pass


class PathTimeout(BaseException):
    """A single path used more time than it is allowed (=> undecided)."""


FIRED = []     # a bare except in the code under test may swallow the exception


def _alarm(*a):
    FIRED.append(1)
    raise PathTimeout()


class Param(sp.Symbol):
    """A symbolic real coefficient."""
    _sx_param = True
    __slots__ = ()


def make_param(name):
    return Param(name, real=True)


_SIGNS = {'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}, 'eq': {0}, 'ne': {-1, 1}}
_NAT = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b,
        'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}

RUN = None   # current run


def is_sym(x):
    """sympy expression over parameters only (at least one), no polynomial variables."""
    if not isinstance(x, sp.Expr):
        return False
    fs = x.free_symbols
    return bool(fs) and all(getattr(s, '_sx_param', False) for s in fs)


class Run:
    def __init__(self, prefix, limits):
        self.prefix = prefix
        self.dead = False
        self.trail = []          # (choice, number of options, label)
        self.ring = Ring()
        self.rules = Rules(self.ring)
        self.facts = {}          # canonical key -> (allowed signs, polynomial)
        self.hard = []           # equalities that could not be turned into rules
        self.log = []            # human-readable path condition
        self.n_fresh = 0
        self.opaque = {}         # Function class -> (poly expr, gens)
        self.choices = {}        # memoised non-arithmetic decisions
        self.limits = limits
        self.rewrites = []       # contract equalities: list of polynomials == 0 handled by ideal reduction
        self.obligations = []    # (name, thunk-result) recorded during the run
        self.notes = set()
        self.deadline = None
        self.inline = frozenset()
        self.input_obj = None
        self.input_syms = set()
        self.partial = set()
        self.track_callees = set()
        self.nondet = False

    # ---- decisions ---------------------------------------------------------
    def decide(self, k, label):
        if self.deadline and time.time() > self.deadline:
            raise Limit('time')
        pos = len(self.trail)
        if pos >= self.limits.get('depth', 400):
            raise Limit('depth')
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trail.append((c, k, label))
        if label not in (None, 'factor', 'lc', 'real'):
            self.nondet = True      # a choice made by a contract, not by the inputs
        return c

    def choose(self, key, k=2, label=None):
        """memoised decision that is a function of `key`"""
        if key not in self.choices:
            self.choices[key] = self.decide(k, label or str(key))
            self.log.append(f'{label or key} = {self.choices[key]}')
        return self.choices[key]

    def fresh(self, hint='t'):
        self.n_fresh += 1
        return make_param(f'_{hint}{self.n_fresh}')

    # ---- arithmetic --------------------------------------------------------
    def query(self, op, l, r):
        R = self.ring
        nd = len(R.denoms)
        try:
            n, d = R.add(R.conv(l), R.mul((R.ctx.constant(-1), R.one), R.conv(r)))
            for q in R.denoms[nd:]:
                if len(q) < 300 and self.rules.reduce(q) == 0:
                    raise ZeroDivisionError
        except ZeroDivisionError:
            # the concrete value is zoo / nan: unequal to every number, not comparable
            del R.denoms[nd:]
            if op in ('eq', 'ne'):
                return op == 'ne'
            raise TypeError('Invalid comparison of non-real zoo')
        if op in ('eq', 'ne'):
            p = self.rules.reduce(n)
        else:
            p = n if d.is_constant() else n * d
            p = self.rules.reduce_sign(p)
        if p != 0 and p.is_constant():
            s = 1 if p.leading_coefficient() > 0 else -1
            return s in _SIGNS[op] if op not in ('eq', 'ne') else (op == 'ne')
        if p == 0:
            return 0 in _SIGNS[op]
        key, sg, q = R.canon(p)
        allowed = self.facts.get(key, ({-1, 0, 1}, q))[0]
        if allowed == {-1, 0, 1} and self._posdef(q):
            allowed = {0, 1} if q_no_const(q) else {1}
        sat = {s * sg for s in _SIGNS[op]}
        t, f = allowed & sat, allowed - sat
        if not f:
            return True
        if not t:
            return False
        c = self.decide(2, None)
        res = (c == 0)
        new = t if res else f
        self.trail[-1] = (self.trail[-1][0], 2, None)
        self.log.append((q, new))
        self.facts[key] = (new, q)
        if new == {0}:
            self.add_equality(q)
        return res

    def _posdef(self, q):
        for m, c in q.to_dict().items():
            if c < 0 or any(e % 2 and self.ring.kind.get(i) != 'rad' for i, e in enumerate(m)):
                return False
        return True

    def add_equality(self, p):
        """assume p == 0"""
        R = self.ring
        p = self.rules.reduce(p)
        if p == 0:
            return
        if p.is_constant():
            raise Prune
        if len(p) < 400:
            _, fac = p.factor()
            fac = [f for f, _e in fac if not f.is_constant()]
        else:
            fac = [p]
        if len(fac) > 1:
            c = self.decide(len(fac), 'factor')
            self.log.append((fac[c], {0}))
            f = fac[c]
        else:
            f = fac[0]
        key, sg, q = R.canon(f)
        old = self.facts.get(key)
        if old is not None and 0 not in old[0]:
            raise Prune
        self.facts[key] = ({0}, q)
        self._solve(f)
        # older facts may now be decided
        for k, (al, poly) in list(self.facts.items()):
            try:
                z = self.rules.reduce_sign(poly)
            except TooHard:
                continue
            if z.is_constant() or z == 0:
                s = 0 if z == 0 else (1 if z.leading_coefficient() > 0 else -1)
                if s not in al:
                    raise Prune

    def _solve(self, f):
        R = self.ring
        best = None
        degs = f.degrees()
        for i in R.gens_of(f):
            if R.kind[i] not in ('param',):
                continue
            under = any(i in R.gens_of(b[0]) or i in R.gens_of(b[1]) for j, (q, b) in R.radicals.items())
            if degs[i] == 1:
                cs = R.coeffs_in(f, i)
                c = cs[1]
                fresh = 0 if str(R.atoms[i]).startswith('_') else 1
                score = (0 if c.is_constant() else 1, 1 if under else 0, fresh, len(c), len(f))
                if best is None or score < best[0]:
                    best = (score, i, c, cs.get(0, R.zero))
        if best is not None:
            _, i, c, rest = best
            if not c.is_constant():
                if self._known_nonzero(c) or self.decide(2, 'lc') == 0:
                    self._assume_nonzero(c)
                else:
                    self.add_equality(c)
                    self.add_equality(rest)
                    return
            n, d = R.norm(-rest, c)
            self.rules.add_sub(i, n, d)
            return
        # algebraic rule
        cand = []
        for i in R.gens_of(f):
            if R.kind[i] == 'rad':
                continue
            if any(i in R.gens_of(b[0]) or i in R.gens_of(b[1]) for j, (q, b) in R.radicals.items()):
                continue
            e = degs[i]
            cs = R.coeffs_in(f, i)
            cand.append((0 if cs[e].is_constant() else 1, 0 if str(R.atoms[i]).startswith('_') else 1, e, i))
        if not cand:
            self.hard.append(f)
            return
        cand.sort()
        ncst, _, e, i = cand[0]
        cs = R.coeffs_in(f, i)
        lc = cs[e]
        if i in self.rules.alg:
            self.hard.append(f)
            return
        if ncst and not self._known_nonzero(lc):
            if self.decide(2, 'lc') == 0:
                self._assume_nonzero(lc)
            else:
                self.add_equality(lc)
                self.add_equality(f - lc * R.gens[i] ** e)
                return
        self.rules.version += 1
        self.rules.alg[i] = (e, lc, f - lc * R.gens[i] ** e)

    def _known_nonzero(self, c):
        key, sg, q = self.ring.canon(c)
        o = self.facts.get(key)
        if o is not None and 0 not in o[0]:
            return True
        if self._posdef(q) and not q_no_const(q):
            return True
        return False

    def _assume_nonzero(self, c):
        key, sg, q = self.ring.canon(c)
        al, _ = self.facts.get(key, ({-1, 0, 1}, q))
        al = al - {0}
        if not al:
            raise Prune
        self.facts[key] = (al, q)
        self.log.append((q, al))

    def assume(self, cond):
        """assume a truth value produced by instrumented code"""
        if not hook_truth(cond):
            raise Prune


def q_no_const(q):
    return all(any(m) for m in q.to_dict())


# ---- hooks ------------------------------------------------------------------
def hook_cmp(op, l, r):
    if RUN is None:
        return _NAT[op](l, r)
    ls, rs = is_sym(l), is_sym(r)
    if (ls and (rs or isinstance(r, (int, float, sp.Number)))) or (rs and isinstance(l, (int, float, sp.Number))):
        if r in (sp.oo, sp.zoo, sp.nan, -sp.oo) or l in (sp.oo, sp.zoo, sp.nan, -sp.oo):
            return _NAT[op](l, r) if op in ('eq', 'ne') else _inf_cmp(op, l, r)
        return RUN.query(op, l, r)
    if isinstance(l, sp.Expr) and isinstance(r, (int, float, sp.Expr)) and op not in ('eq', 'ne'):
        return hook_truth(_NAT[op](l, r))
    if ls or rs:
        return _NAT[op](l, r)
    return _NAT[op](l, r)


def _inf_cmp(op, l, r):
    if r == sp.oo: return op in ('lt', 'le')
    if r == -sp.oo: return op in ('gt', 'ge')
    if l == sp.oo: return op in ('gt', 'ge')
    if l == -sp.oo: return op in ('lt', 'le')
    raise TypeError('Invalid comparison of non-real zoo')


def hook_chain(ops, *thunks):
    left = thunks[0]()
    for o, t in zip(ops, thunks[1:]):
        right = t()
        res = hook_cmp(o, left, right)
        if not hook_truth(res):
            return res
        left = right
    return res


def hook_truth(x):
    if RUN is None:
        return x
    if isinstance(x, Relational):
        return rel_bool(x)
    if is_sym(x):
        return RUN.query('ne', x, 0)
    return bool(x)


_REL = {'StrictLessThan': 'lt', 'LessThan': 'le', 'StrictGreaterThan': 'gt', 'GreaterThan': 'ge',
        'Equality': 'eq', 'Unequality': 'ne'}


def rel_bool(x):
    op = _REL[type(x).__name__]
    l, r = x.args
    if RUN is not None and (is_sym(l) or is_sym(r)):
        return RUN.query(op, l, r)
    raise TypeError('cannot determine truth value of Relational: %s' % x)


def hook_and(*th):
    v = True
    for t in th:
        v = t()
        if not hook_truth(v):
            return v
    return v


def hook_or(*th):
    v = False
    for t in th:
        v = t()
        if hook_truth(v):
            return v
    return v


def hook_isinstance(x, T):
    if RUN is None or not is_sym(x) or isinstance(x, Param) and T is sp.Symbol:
        return isinstance(x, T)
    Ts = T if isinstance(T, tuple) else (T,)
    if any(t in (sp.Rational, sp.Integer, sp.Float, int, float, sp.Number) for t in Ts):
        if sp.Expr in Ts or sp.Basic in Ts:
            return True
        names = '/'.join(sorted(t.__name__ for t in Ts))
        if sp.Rational in Ts or sp.Number in Ts:
            return RUN_is_rational(x)
        return RUN.choose(('isinstance', x, names), 2, f'isinstance({x},{names})') == 0
    return isinstance(x, T)


def RUN_is_rational(x):
    approx = getattr(RUN, 'approx', ())
    if any(s in approx for s in x.free_symbols):
        return False
    if any(isinstance(a, sp.Rational) and not isinstance(a, sp.Integer) for p in x.atoms(sp.Pow) for a in [p.exp]) or x.has(sp.Abs):
        return RUN.choose(('rational', x), 2, f'rational({x})') == 0
    fs = {s for s in x.free_symbols}
    rat = getattr(RUN, 'rational_syms', set())
    rest = fs - rat
    if not rest:
        return True
    inputs = getattr(RUN, 'input_syms', set())
    if rest <= inputs:
        return RUN.choose('inputs rational', 2) == 0
    return RUN.choose(('rational', x), 2, f'rational({x})') == 0


def hook_attr(x, name):
    if RUN is None:
        return getattr(x, name)
    if isinstance(x, sp.Poly) and name in POLY_ATTRS:
        return getattr(path_poly(x), name)
    if name in METHODS:
        return getattr(x, name)
    if name == 'free_symbols':
        if not getattr(RUN, 'hide_params', False):
            return getattr(x, name)
        return {s for s in x.free_symbols if not getattr(s, '_sx_param', False)}      # coefficients are numbers, not symbols
    if name == 'is_Numerical' and getattr(x, 'is_Composite', False) and all(getattr(s, '_sx_param', False) for s in x.symbols):
        return True           # concrete coefficients: the domain is a numerical one
    if not is_sym(x):
        return getattr(x, name)
    if name in ('is_Rational', 'is_rational'):
        return RUN_is_rational(x)
    if name in ('is_real', 'is_finite', 'is_number'):
        return True
    if name in ('numerator', 'denominator'):
        return x            # only handed to gcd, whose contract is 'a nonzero number'
    if name == 'is_zero':
        return RUN.query('eq', x, 0)
    if name == 'is_positive':
        return RUN.query('gt', x, 0)
    if name == 'is_negative':
        return RUN.query('lt', x, 0)
    if name == 'is_nonnegative':
        return RUN.query('ge', x, 0)
    if name == 'is_nonpositive':
        return RUN.query('le', x, 0)
    return RUN.choose((name, x), 2, f'{x}.{name}') == 0


METHODS = {'as_poly', 'homogenize', 'coeff_monomial', 'is_homogeneous'}
POLY_ATTRS = {'degree', 'LC', 'LM', 'total_degree', 'is_zero', 'div', 'quo', 'rem', 'terms', 'monoms', 'all_coeffs', 'is_monomial',
              'exquo', 'pdiv', 'as_dict', 'rep', 'coeffs', 'homogenize', 'as_poly', 'is_homogeneous', 'coeff_monomial'}


def contract_value(n, d):
    """n/d modulo the equalities of callee contracts, as (n', d')"""
    R = RUN.ring
    n0, d0 = n, d
    for _ in range(60):
        for mono, (rn, rd) in RUN.rewrites:
            idx = [(i, e) for i, e in enumerate(mono) if e]
            dct = n.to_dict() if n != 0 else {}
            ms = {m: c for m, c in dct.items() if all(m[i] >= e for i, e in idx)}
            if ms:
                rest = R.ctx.from_dict({m: c for m, c in dct.items() if m not in ms})
                quo = R.ctx.from_dict({tuple(a - b for a, b in zip(m, mono)): c for m, c in ms.items()})
                n, d = rest * rd + quo * rn, d * rd
                v = RUN.rules.value(n, d)
                n, d = v if v is not None else R.norm(n, d)
                break
        else:
            return n, d
        if n == 0:
            return n, d
        if len(n) > 200:
            break
    return n0, d0


def path_poly(p):
    """the polynomial as it is on this path: leading terms whose coefficient is zero are dropped"""
    if not p.domain.is_Composite and not p.domain.is_EX or p.domain.is_Algebraic:
        return p
    if not any(getattr(s, '_sx_param', False) for s in p.free_symbols_in_domain):
        return p
    if getattr(RUN, 'generic_poly', False):
        return p
    R = RUN.ring
    ts0 = p.terms()
    ts = [(m, c) for m, c in ts0 if not (is_sym(c) and RUN.rules.reduce(R.conv(c)[0]) == 0)]
    i = 0
    while i < len(ts) and is_sym(ts[i][1]) and RUN.query('eq', ts[i][1], 0):
        i += 1
    ts = ts[i:]
    if i:      # the equalities just learned may make further coefficients zero
        ts = [(m, c) for m, c in ts if not (is_sym(c) and RUN.rules.reduce(R.conv(c)[0]) == 0)]
    if getattr(RUN, 'exact_support', False):
        ts = [(m, c) for m, c in ts if not (is_sym(c) and RUN.query('eq', c, 0))]
    changed = len(ts) != len(ts0)
    # the remaining coefficients are written modulo the equalities of the path
    for j, (m, c) in enumerate(ts):
        if is_sym(c) and (RUN.rules.subs or RUN.rewrites):
            v = RUN.rules.value(*R.conv(c))
            if v is None and RUN.rewrites:
                v = R.conv(c)
            if v is not None and len(v[0]) < 60 and len(v[1]) < 20:
                if RUN.rewrites:
                    v = contract_value(*v)
                ts[j] = (m, R.to_expr(v[0]) / R.to_expr(v[1]))
                changed = True
    if RUN.rewrites:
        ts = [(m, c) for m, c in ts if c != 0]
        changed |= len(ts) != len(ts0)
    if not changed:
        return p
    return sp.Poly(dict(ts) or {(0,) * len(p.gens): 0}, *p.gens)


def hook_floordiv(x, y):
    if RUN is None or not (is_sym(x) or is_sym(y)):
        return x // y
    # integer quotient: the value is case-split over a finite range (both tails keep one representative)
    pos = RUN.query('gt', y, 0)
    k = RUN.decide(16, 'floor') - 2
    lo, hi = k * y - x, (k + 1) * y - x      # y > 0:  lo <= 0 < hi
    if k > -2:
        if not RUN.query('le' if pos else 'ge', lo, 0):
            raise Prune
    if k < 13:
        if not RUN.query('gt' if pos else 'lt', hi, 0):
            raise Prune
    return sp.Integer(k)


def hook_float(x, *a):
    if RUN is not None and is_sym(x):
        return approx_param('f')
    return float(x, *a) if not isinstance(x, complex) else x


def approx_param(h='f'):
    t = RUN.fresh(h)
    if not hasattr(RUN, 'approx'):
        RUN.approx = set()
    RUN.approx.add(t)
    return t


def hook_int(x, *a):
    if RUN is not None and is_sym(x):
        if x in getattr(RUN, 'integer_syms', ()):
            return x
        t = RUN.fresh('i')
        mark_rational(t)
        return t
    return int(x, *a)


def hook_round(x, *a):
    if RUN is not None and is_sym(x):
        return hook_int(x)
    return round(x, *a)


def mark_rational(t):
    if not hasattr(RUN, 'rational_syms'):
        RUN.rational_syms = set()
    RUN.rational_syms.add(t)
    return t


def hook_any(it):
    for x in it:
        if hook_truth(x):
            return True
    return False


def hook_all(it):
    for x in it:
        if not hook_truth(x):
            return False
    return True


def hook_filter(f, it):
    if RUN is None:
        return filter(f, it)
    return (x for x in it if hook_truth(x if f is None else f(x)))


def _minmax(op, native):
    def f(*args, **kw):
        if RUN is None:
            return native(*args, **kw)
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            return native(*args, **kw)
        key = kw.get('key') or (lambda x: x)
        best = items[0]
        kb = key(best)
        for x in items[1:]:
            kx = key(x)
            if hook_truth(hook_cmp(op, kx, kb)):
                best, kb = x, kx
        return best
    return f


hook_max, hook_min = _minmax('gt', max), _minmax('lt', min)

HOOKS = {'_sx_floordiv': hook_floordiv, '_sx_any': hook_any, '_sx_all': hook_all, '_sx_filter': hook_filter, '_sx_max': hook_max, '_sx_min': hook_min,
         '_sx_cmp': hook_cmp, '_sx_chain': hook_chain, '_sx_truth': hook_truth, '_sx_and': hook_and,
         '_sx_or': hook_or, '_sx_isinstance': hook_isinstance, '_sx_attr': hook_attr,
         '_sx_float': hook_float, '_sx_int': hook_int, '_sx_round': hook_round}

# all/any/min/max/sorted over relationals end in Relational.__bool__
_orig_bool = Relational.__bool__


def _patched(self):
    if RUN is None:
        return _orig_bool(self)
    return rel_bool(self)


Relational.__bool__ = _patched


class PathResult:
    __slots__ = ('run', 'value', 'error', 'kind', 'trace')

    def __init__(self, run, kind, value=None, error=None, trace=None):
        self.run, self.kind, self.value, self.error, self.trace = run, kind, value, error, trace


def explore(fn, max_paths=10**9, time_limit=120, depth=400, on_path=None, path_limit=20, root=()):
    """fn(run) executes the target.  Yields PathResult for each complete path."""
    global RUN
    prefix = list(root)
    frontier = []
    nroot = len(root)
    t0 = time.time()
    n = 0
    complete = True
    reason = None
    results = []
    while True:
        run = Run(prefix, {'depth': depth})
        RUN = run
        res = None
        del FIRED[:]
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, path_limit)
        try:
            v = fn(run)
            res = PathResult(run, 'pruned' if run.dead else 'return', v)
        except (Prune, Contradiction):
            res = PathResult(run, 'pruned')
        except Limit as e:
            complete = False
            reason = f'limit: {e}'
            res = PathResult(run, 'limit')
        except TooHard as e:
            res = PathResult(run, 'toohard', error=e, trace=traceback.format_exc())
        except PathTimeout as e:
            res = PathResult(run, 'toohard', error=e)
        except RecursionError as e:
            res = PathResult(run, 'toohard', error=e)
        except Exception as e:
            res = PathResult(run, 'raise', error=e, trace=traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if FIRED and res is not None and res.kind in ('return', 'raise'):
            res = PathResult(run, 'toohard', error=PathTimeout('swallowed by the code'))
        try:
            # callbacks may themselves need decisions (case splits): they run inside the same run
            if on_path is not None:
                try:
                    signal.setitimer(signal.ITIMER_REAL, path_limit)
                    on_path(res)
                except PathTimeout:
                    res.kind = 'toohard'
                    res.error = 'check timed out'
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    on_path(res)
                except (Prune, Contradiction):
                    pass
                except Limit as e:
                    complete = False
                    reason = f'limit: {e}'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            RUN = None
        n += 1
        if reason and 'time' in reason:
            break
        trail = run.trail
        # open siblings below the root
        while len(trail) > nroot and trail[-1][0] + 1 >= trail[-1][1]:
            trail.pop()
        if len(trail) <= nroot:
            break
        if n >= max_paths or time.time() - t0 > time_limit:
            cs = [c for c, _, _ in trail]
            for pos in range(nroot, len(trail)):
                for c in range(trail[pos][0] + 1, trail[pos][1]):
                    frontier.append(tuple(cs[:pos]) + (c,))
            complete = False
            break
        prefix = [c for c, _, _ in trail[:-1]] + [trail[-1][0] + 1]
    return {'paths': n, 'complete': complete, 'frontier': frontier, 'reason': reason, 'time': time.time() - t0}
