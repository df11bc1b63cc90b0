"""Exact linear algebra: congruence, triangular/undetermined systems, vectorisation of symmetric matrices."""
import importlib, itertools, random, sys
import sympy as sp
from . import fncheck, sos
from .fncheck import FnTask, params
from .oracles import oracle

SU = 'triples.sdp.utils'
STU = 'triples.core.structsos.utils'


def symm(run, n, name='m'):
    ps = iter(params(run, [f'{name}{i}{j}' for i in range(n) for j in range(i, n)]))
    M = sp.zeros(n, n)
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = next(ps)
    return M


def minors(M):
    n = M.shape[0]
    for k in range(1, n + 1):
        for c in itertools.combinations(range(n), k):
            yield M.extract(list(c), list(c)).det(method='berkowitz')


def congruence_task(mod, n, zeros=()):
    def body(run):
        fn = getattr(importlib.import_module(mod), 'congruence')
        M = symm(run, n)
        for i, j in zeros:
            M[i, j] = M[j, i] = sp.S(0)
        run.oracle_args = [mod, M.tolist()]
        M0 = M.copy()
        r = fn(M)
        obs = [('true', 'the argument is left as it was', M == M0)]
        if r is None:
            return obs + [('infeasible', 'None although positive semidefinite', [(d, {0, 1}) for d in minors(M0)])]
        U, S = r
        obs += [('true', 'shapes', U.shape == (n, n) and len(S) == n),
                ('true', 'U is upper triangular', all(U[i, j] == 0 for i in range(n) for j in range(i)))]
        P = U.T * sp.diag(*S) * U
        obs += [('eq', 'U.T*S*U == M', P[i, j], M0[i, j]) for i in range(n) for j in range(n)]
        obs += [('sign', 'S >= 0', s, {0, 1}) for s in S]
        return obs
    tag = mod.split('.')[1]
    return FnTask(f'{tag}.congruence[{n}x{n}' + (', zeros ' + ' '.join(f'{i}{j}' for i, j in zeros) if zeros else '') + ']', body, 'congruence', must_return=True, key=(mod, 'congruence'))


@oracle
def congruence(mod, rows):
    fn = getattr(importlib.import_module(mod), 'congruence')
    M = sp.Matrix([[sp.sympify(x) for x in r] for r in rows])
    n = M.shape[0]
    simp = lambda x: sp.radsimp(sp.nsimplify(sp.expand(x)) if x.is_Rational else sp.sqrtdenest(sp.expand(x)))
    M0 = M.copy()
    try:
        r = fn(M)
    except Exception as e:
        return {'call': f'{mod}.congruence({M0.tolist()})', 'raises': repr(e)[:300]}
    if M != M0:
        return {'call': f'{mod}.congruence({M0.tolist()})', 'changed its argument': str(M.tolist())}
    psd = all(sp.N(d, 60) > -sp.Float('1e-40') for d in minors(M0))
    if r is None:
        return {'call': f'{mod}.congruence({M0.tolist()})', 'result': 'None for a positive semidefinite matrix'} if psd else None
    U, S = r
    D = U.T * sp.diag(*S) * U - M0
    bad = [str(x) for x in D if not is_zero(x)]
    if bad or any(sp.N(s, 60) < -sp.Float('1e-40') for s in S) or any(U[i, j] != 0 for i in range(n) for j in range(i)):
        return {'call': f'{mod}.congruence({M0.tolist()})', 'U': str(U.tolist()), 'S': str(list(S)), 'U.T*S*U - M': bad[:4]}


def is_zero(x):
    x = sp.sympify(x)
    if x.is_Rational:
        return x == 0
    if abs(sp.N(x, 60)) > sp.Float('1e-40'):
        return False
    return True


def stepwise_task(mod, n, pivots, last=None):
    """every symmetric matrix is sum_k d_k u_k u_k^T over the leading pivots plus a trailing block; `pivots` says which d_k are positive ('+') and which
    are zero with a zero row ('0'), `last` what stops the elimination there: '-' a negative pivot, j a zero pivot with a nonzero entry in column j.
    The answer is then known for all values: None iff something stops the elimination."""
    def body(run):
        fn = getattr(importlib.import_module(mod), 'congruence')
        M = sp.zeros(n, n)
        k = len(pivots)
        for i, c in enumerate(pivots):
            if c == '+':
                d, *u = params(run, [f'd{i}'] + [f'u{i}{j}' for j in range(i + 1, n)])
                positive(run, d)
                row = sp.Matrix(1, n, [0] * i + [sp.S(1)] + u)
                M += (row.T * row) * d
        if last is not None:
            T = sp.zeros(n, n)
            for i in range(k, n):
                for j in range(i, n):
                    T[i, j] = T[j, i] = params(run, [f't{i}{j}'])[0]
            if last == '-':
                positive(run, T[k, k])
                T[k, k] = -T[k, k]
            else:
                for j in range(k, last):
                    T[k, j] = T[j, k] = sp.S(0)
                nonzero(run, T[k, last])
            M += T
        M = M.applyfunc(sp.expand)
        run.oracle_args = [mod, M.tolist()]
        M0 = M.copy()
        r = fn(M)
        obs = [('true', 'the argument is left as it was', M == M0), ('true', 'None iff not positive semidefinite', (r is None) == (last is not None))]
        if r is None or last is not None:
            return obs
        U, S = r
        obs += [('true', 'shapes', U.shape == (n, n) and len(S) == n),
                ('true', 'U is upper triangular', all(U[i, j] == 0 for i in range(n) for j in range(i)))]
        P = U.T * sp.diag(*S) * U
        obs += [('eq', 'U.T*S*U == M', P[i, j], M0[i, j]) for i in range(n) for j in range(i, n)]
        obs += [('sign', 'S >= 0', s, {0, 1}) for s in S]
        return obs
    tag = mod.split('.')[1]
    stop = '' if last is None else ', negative pivot' if last == '-' else f', zero pivot with entry {last}'
    return FnTask(f'{tag}.congruence[{n}x{n}, pivots {pivots or "none"}{stop}]', body, 'congruence', must_return=True, key=(mod, 'congruence'))


def stepwise_tasks(n):
    ts = []
    for mod in (SU, STU):
        for k in range(n + 1):
            for c in itertools.product('+0', repeat=k):
                if k == n:
                    ts.append(stepwise_task(mod, n, ''.join(c)))
                else:
                    ts += [stepwise_task(mod, n, ''.join(c), x) for x in ['-'] + list(range(k + 1, n))]
    return ts


def congruence_tasks(thorough):
    ts = [t for n in range(4, 8 if not thorough else 10) for t in stepwise_tasks(n)]
    ts += [congruence_task(m, n) for m in (SU, STU) for n in (1, 2, 3)]
    ts += [congruence_task(m, 4, z) for m in (SU, STU) for z in (((0, 1),), ((0, 2), (1, 3)), ((0, 1), (0, 2), (0, 3)), ((0, 3), (1, 2), (1, 3)))]
    if thorough:
        ts += [congruence_task(SU, 4), congruence_task(STU, 4), congruence_task(SU, 5, ((0, 1), (0, 2), (1, 3), (2, 4), (0, 4)))]
    return ts


def congruence_cases(seed, count):
    rng = random.Random(seed)
    cs = []
    rad = ['0', '1', '-1', '2', '1/2', 'sqrt(2)', '1-sqrt(2)', 'sqrt(3)-1', '3/2', '-2/3', 'sqrt(3-2*sqrt(2))']
    for i in range(count):
        n = rng.randint(1, 3 if i % 4 == 0 else 6) if i % 25 else rng.randint(9, 12)
        k = rng.randint(0, n)
        ent = (lambda: sp.sympify(rng.choice(rad))) if i % 4 == 0 else (lambda: sp.Rational(rng.randint(-5, 5), rng.choice((1, 1, 2, 3))))
        A = sp.Matrix(n, k, lambda *_: ent()) if k else sp.zeros(n, 1)
        if i % 3 == 0 and k:
            for c in range(k):
                A[rng.randrange(n), c] = 0
                A[0, c] = 0
        M = A * A.T
        if i % 5 == 0:
            j = rng.randrange(n)
            M[j, j] += sp.Rational(rng.choice((-1, 1)), rng.choice((1, 7, 10**9)))
        if i % 7 == 0 and n > 1:
            M[0, n - 1] = M[n - 1, 0] = M[0, n - 1] + 1
        M = M.applyfunc(sp.expand)
        for mod in (SU, STU):
            if i % 4 == 0 and mod == SU:
                continue         # nested radicals need the sign function of the wrapper
            cs.append({'oracle': 'congruence', 'args': [mod, [[str(x) for x in r] for r in M.tolist()]]})
    return cs


def d01(rep, tier, seed):
    setup = fncheck.setup([SU, STU], {(STU, 'radsimp'): sos.st_radsimp})
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, congruence_tasks(th), setup, 40, congruence_cases(seed, 250 if not th else 2500), 20,
                  ['radsimp preserves the value of its argument (own check)', 'matrix sizes 1 to 7 are proved for all real entries (thorough: 9); larger ones (to 12x12) are bounded samples'])


# ---------------------------------------------------------------- exact solution of linear systems
AR = 'triples.sdp.arithmetic'


class patched:
    """module globals replaced by contract stubs while a body runs"""
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def positive(run, p):
    q = run.ring.conv(p)[0]
    key, sg, q = run.ring.canon(q)
    run.facts[key] = ({sg}, q)
    run.log.append((q, {sg}))
    return p


def nonzero(run, p):
    q = run.ring.conv(p)[0]
    run._assume_nonzero(q)
    return p


def kernel_of_rref(R, piv):
    n = R.shape[1]
    free = [c for c in range(n) if c not in piv]
    K = sp.zeros(n, len(free))
    for j, f in enumerate(free):
        K[f, j] = 1
        for i, p in enumerate(piv):
            K[p, j] = -R[i, f]
    return K


def row_reduce_task(m, n, opts, zeros=()):
    def body(run):
        ar = importlib.import_module(AR)
        ps = params(run, [f'x{i}{j}' for i in range(m) for j in range(n) if (i, j) not in zeros])
        it = iter(ps)
        M = sp.Matrix(m, n, lambda i, j: sp.S(0) if (i, j) in zeros else next(it))
        d = {i: {j: M[i, j] for j in range(n) if (i, j) not in zeros} for i in range(m)}
        for row in d.values():            # the dictionary has no explicit zeros
            for v in row.values():
                nonzero(run, v)
        d = {i: r for i, r in d.items() if r}
        run.oracle_args = [[list(r) for r in M.tolist()], opts]
        g = lambda *a: sp.S(1) if any(x == 1 for x in a) else nonzero(run, run.fresh('gcd'))
        with patched(ar, gcd=g, MPQ=lambda x, y: x, QQ=sos.Proxy2(one=sp.S(1), zero=sp.S(0))):
            mat, piv, swaps = ar._row_reduce_dict(d, m, n, **opts)
        R = sp.Matrix(m, n, lambda i, j: mat.get(i, {}).get(j, sp.S(0)))
        r = len(piv)
        obs = [('true', 'pivots increase', list(piv) == sorted(set(piv)) and all(0 <= p < n for p in piv))]
        for i, p in enumerate(piv):
            obs += [('eq', 'leading zeros', R[i, j], 0) for j in range(p)]
            obs += [('eq', 'pivot is one', R[i, p], 1)]
            obs += [('eq', 'zero above and below the pivot', R[k, p], 0) for k in range(m) if k != i]
        obs += [('eq', 'rows below the rank vanish', R[i, j], 0) for i in range(r, m) for j in range(n)]
        K = kernel_of_rref(R, piv)
        obs += [('eq', 'M * kernel == 0', x, 0) for x in M * K]
        mins = [M.extract(list(rows), list(piv)).det(method='berkowitz') for rows in itertools.combinations(range(m), r)] if r else []
        if r:
            obs.append(('infeasible', 'rank of the pivot columns', [(x, {0}) for x in mins]))
        return obs
    z = ''.join(f' {i}{j}' for i, j in zeros)
    return FnTask(f'_row_reduce_dict[{m}x{n}{", " + ",".join(f"{k}={v}" for k, v in opts.items()) if opts else ""}{", zeros" + z if z else ""}]', body, 'rref', must_return=True, key=(AR, '_row_reduce_dict'))


@oracle
def rref(rows, opts):
    ar = importlib.import_module(AR)
    M = sp.Matrix([[sp.Rational(x) for x in r] for r in rows])
    M0 = M.copy()
    mat, piv, sw = ar._row_reduce(M, **opts)
    want, wp = M0.rref()
    if mat != want or tuple(piv) != tuple(wp) or M != M0:
        return {'call': f'_row_reduce({M0.tolist()}, {opts})', 'result': str((mat.tolist(), piv)), 'expected': str((want.tolist(), wp))}


def undetermined_task(m, n, cols, piv):
    """solve_undetermined_linear against the contract of _rref: aug = T*R, T invertible, R reduced with these pivots"""
    def body(run):
        ar = importlib.import_module(AR)
        N = n + cols
        names = [f'r{i}{j}' for i, p in enumerate(piv) for j in range(p + 1, N) if j not in piv]
        it = iter(params(run, names))
        R = sp.zeros(m, N)
        for i, p in enumerate(piv):
            R[i, p] = 1
            for j in range(p + 1, N):
                if j not in piv:
                    R[i, j] = next(it)
        T = sp.Matrix(m, m, params(run, [f't{i}{j}' for i in range(m) for j in range(m)]))
        aug = T * R
        run.oracle_args = [aug[:, :n].tolist(), aug[:, n:].tolist()]
        seen = []

        def st_rref(A, pivots=True, normalize_last=True):
            seen.append(A == aug)
            return (R.copy(), tuple(piv)) if pivots else R.copy()
        M, B = aug[:, :n], aug[:, n:]
        solvable = all(p < n for p in piv)
        with patched(ar, _rref=st_rref):
            try:
                x0, S = ar.solve_undetermined_linear(M, B)
            except ValueError:
                return [('true', 'a solvable system is refused', not solvable), ('true', 'the augmented matrix is reduced', seen == [True])]
        rank = sum(p < n for p in piv)
        obs = [('true', 'the augmented matrix is reduced', seen == [True]), ('true', 'an unsolvable system is accepted', solvable),
               ('true', 'shapes', x0.shape == (n, cols) and S.shape == (n, n - rank))]
        if not solvable:
            return obs
        obs += [('eq', 'M*x0 == B', x, 0) for x in M * x0 - B]
        obs += [('eq', 'M*space == 0', x, 0) for x in M * S]
        free = [c for c in range(n) if c not in piv]
        sub = S.extract(free, list(range(S.shape[1]))) if free else sp.eye(0)
        obs.append(('true', 'all solutions are parametrised', not free or sub.is_diagonal() and all(abs(sub[i, i]) == 1 for i in range(len(free)))))
        return obs
    return FnTask(f'solve_undetermined_linear[{m}x{n}, {cols} rhs, pivots {list(piv)}]', body, 'linsys', must_return=True, key=(AR, 'solve_undetermined_linear'))


def same_solutions(A, b, groups, x0, S):
    """is {x0 + S y} the solution set of A x = b with equal entries in the groups?"""
    n = A.shape[1]
    if not all(x.is_Rational for x in list(A) + list(b)):
        return same_solutions_algebraic(A, b, x0, S)
    rows, rhs = [A], [b]
    for g in groups:
        for k in g[1:]:
            e = sp.zeros(1, n)
            e[g[0]] += 1
            e[k] -= 1
            rows.append(e)
            rhs.append(sp.zeros(1, b.shape[1]))
    E, r = sp.Matrix.vstack(*rows), sp.Matrix.vstack(*rhs)
    solvable = E.rank() == sp.Matrix.hstack(E, r).rank()
    if x0 is None:
        return 'a solvable system is refused' if solvable else None
    if not solvable:
        return 'an unsolvable system is accepted'
    if E * x0 != r:
        return 'x0 is not a solution'
    if S.shape[1] and not (E * S).is_zero_matrix:
        return 'space is not in the kernel'
    if (S.rank() if S.shape[1] else 0) != n - E.rank():
        return 'solutions are missing'


def same_solutions_algebraic(A, b, x0, S):
    z = lambda M: all(sp.radsimp(sp.expand(x)) == 0 for x in M)
    rk = lambda M: M.applyfunc(sp.sympify).rank(iszerofunc=lambda x: sp.radsimp(sp.expand(x)) == 0)
    solvable = rk(A) == rk(sp.Matrix.hstack(A, b))
    if x0 is None:
        return 'a solvable system is refused' if solvable else None
    if not solvable:
        return 'an unsolvable system is accepted'
    if not z(A * x0 - b):
        return 'x0 is not a solution'
    if S.shape[1] and not z(A * S):
        return 'space is not in the kernel'
    if (rk(S) if S.shape[1] else 0) != A.shape[1] - rk(A):
        return 'solutions are missing'


@oracle
def linsys(rows, rhs, groups=()):
    ar = importlib.import_module(AR)
    A = sp.Matrix([[sp.sympify(x) for x in r] for r in rows])
    b = sp.Matrix([[sp.sympify(x) for x in r] for r in rhs])
    fs = [('solve_csr_linear', (A, b, [list(g) for g in groups]))] + ([] if groups else [('solve_undetermined_linear', (A, b))])
    for name, args in fs:
        try:
            x0, S = getattr(ar, name)(*args)
        except ValueError:
            x0 = S = None
        w = same_solutions(A, b, groups, x0, S)
        if w:
            return {'call': f'{name}({A.tolist()}, {b.tolist()}, {list(groups)})', 'result': str((x0, S))[:300], 'failure': w}
    if not groups and all(x.is_Rational for x in A):
        K = ar.solve_nullspace(A.T)
        if K.shape != (A.shape[1], A.shape[1] - A.rank()) or K.shape[1] and (not (A * K).is_zero_matrix or K.rank() != K.shape[1]):
            return {'call': f'solve_nullspace({A.T.tolist()})', 'result': str(K.tolist())[:300]}


def csr_task(pattern, n, groups, brows):
    """pattern: tuple of rows, each a tuple of columns with an entry"""
    m = len(pattern)

    def body(run):
        ar = importlib.import_module(AR)
        A = sp.zeros(m, n)
        share = {}
        for i, row in enumerate(pattern):
            for j in row:
                p, = params(run, [f'x{i}{j}'])
                nonzero(run, p)
                A[i, j] = p
        # equal coefficients inside a group are a case of its own
        for g in groups:
            ent = [(i, j) for j in g for i in range(m) if A[i, j] != 0]
            if len(ent) == len(g) > 1 and len({i for i, j in ent}) == 1 and run.decide(2, 'real') == 0:
                for i, j in ent[1:]:
                    A[i, j] = A[ent[0]]
        b = sp.Matrix(m, 1, [params(run, [f'b{i}'])[0] if i in brows else sp.S(0) for i in range(m)])
        for i in brows:
            nonzero(run, b[i])
        b0 = b
        run.oracle_args = [A.tolist(), b.tolist(), [list(g) for g in groups]]
        cap = []

        def st_solve(A2, B):
            if run.decide(2, 'solvable') == 1:
                raise ValueError('contract')
            k = A2.shape[1]
            x = sp.Matrix(k, 1, [run.fresh('y') for _ in range(k)])
            S = sp.Matrix(k, 2, [run.fresh('z') for _ in range(2 * k)])
            cap.append((A2, B, x, S))
            return x, S
        with patched(ar, solve_undetermined_linear=st_solve):
            try:
                x0, S = ar.solve_csr_linear(A, b, [list(g) for g in groups])
            except ValueError as e:
                if str(e) == 'contract':
                    return []
                return [('infeasible', 'a solvable system is refused', [(b[i], {0}) for i in range(m) if not pattern[i]])]
        obs = [('true', 'shapes', x0.shape == (n, 1) and S.shape[0] == n)]
        for g in groups:
            for k in g[1:]:
                obs += [('eq', 'equal entries of x0', x0[g[0], 0], x0[k, 0])]
                obs += [('eq', 'equal entries of space', S[g[0], c], S[k, c]) for c in range(S.shape[1])]
        heads = n - sum(len(g) - 1 for g in groups)
        if cap:
            A2, B, x, Z = cap[0]
            obs += [('true', 'right-hand side is passed on', B == b)]
            obs += [('eq', 'A*x0 == A2*x', u, 0) for u in A * x0 - A2 * x]
            obs += [('eq', 'A*space == A2*space2', u, 0) for u in A * S - A2 * Z]
            used = [u for u in set(x0) if u != 0]
            obs += [('true', 'every class of variables is kept', len(used) == heads)]
        else:
            obs += [('eq', 'A*x0 == b', u, 0) for u in A * x0 - b]
            obs += [('eq', 'A*space == 0', u, 0) for u in A * S]
            obs += [('infeasible', 'an unsolvable system is accepted', [(b[i], {-1, 1})]) for i in range(m) if not pattern[i] and b[i] != 0]
            rank = sum(bool(r) for r in pattern)
            num = S.xreplace({p: sp.Integer(k * k + 2) for k, p in enumerate(sorted(S.free_symbols, key=str))})
            obs += [('true', 'all solutions are parametrised', (num.rank() if num.shape[1] else 0) == heads - rank)]
        return obs
    return FnTask(f'solve_csr_linear[{"|".join("".join(map(str, r)) for r in pattern)}; n={n}; groups {list(map(list, groups))}; b {list(brows)}]', body, 'linsys', must_return=True, key=(AR, 'solve_csr_linear'))


def csr_tasks(thorough):
    ts = []
    for n, rows in ((2, 2), (3, 2)) if not thorough else ((2, 2), (3, 2), (3, 3), (4, 2)):
        subsets = [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]
        gs = {2: [(), ((0, 1),), ((1, 0),)], 3: [(), ((0, 1),), ((2, 0),), ((0, 1, 2),), ((2, 1, 0),)], 4: [(), ((0, 1), (2, 3)), ((3, 1),), ((0, 2, 3),)]}[n]
        for pat in itertools.product(subsets, repeat=rows):
            for g in gs:
                for br in ((0,), tuple(range(rows))) if n == 2 or thorough else (tuple(range(rows)),):
                    ts.append(csr_task(pat, n, g, br))
    return ts


class SymArr:
    """an int64 array with symbolic entries: exact as long as nothing leaves the int64 range (recorded obligations)"""
    def __init__(self, a, bound, run):
        self.a, self.bound, self.run, self.shape = a, bound, run, a.shape

    def __abs__(self):
        return SymArr(self.a, self.bound, self.run)

    def max(self):
        return self.bound

    def reshape(self, *s):
        return SymArr(self.a.reshape(*s), self.bound, self.run)

    @property
    def T(self):
        return SymArr(self.a.T, self.bound, self.run)

    def __matmul__(self, o):
        k = self.a.shape[-1]
        b = k * self.bound * o.bound
        self.run.int64.append(b)
        return SymArr(self.a @ o.a, b, self.run)

    def flatten(self):
        return SymArr(self.a.flatten(), self.bound, self.run)

    def tolist(self):
        return self.a.tolist()


def product_task(fname, n, m, N):
    def body(run):
        import numpy as np
        from . import engine
        ar = importlib.import_module(AR)
        run.int64 = []
        run.integer_syms = set(params(run, ['maxA', 'maxB']))
        contents = iter(params(run, ['cA', 'cB']))
        shapes = {'matmul': ((N, n), (n, m)), 'matmul_multiple': ((N, n * n), (n, m)), 'symmetric_bilinear_multiple': ((n, m), (N, n * n))}[fname]
        prim = [sp.Matrix(r, c, params(run, [f'{t}{i}_{j}' for i in range(r) for j in range(c)])) for t, (r, c) in zip('AB', shapes)]
        cs = [next(contents), next(contents)]
        X = [p * c for p, c in zip(prim, cs)]
        ids = {}

        class Rep:                       # what primitive() is given
            def __init__(self, k): self.k = k

        class Fake(sp.MutableDenseMatrix):
            pass

        def primitive(rep):
            k = [i for i in (0, 1) if rep is reps[i]][0]
            return cs[k], k

        def cast(k, dtype='int64'):
            if run.decide(2, 'fits int64') == 1:
                raise OverflowError
            top = ['maxA', 'maxB'][k]
            b = next(p for p in run.inputs if str(p) == top)
            # contract: entries are int64 numbers, bound is the largest absolute value, at most 2**63 - 1
            p = run.ring.conv(b)[0]
            run.facts[run.ring.canon(p)[0]] = ({0, 1}, p)
            return SymArr(np.array(prim[k].tolist(), dtype=object), b, run)
        reps = [X[0]._rep, X[1]._rep]
        stubs = {} if fname == 'matmul' else {'matmul': lambda A, B, return_shape=None: (A * B).reshape(*(return_shape or (A.shape[0], B.shape[1])))}
        with patched(ar, **stubs, is_zz_qq_mat=lambda M: True, primitive=primitive, _cast_sympy_matrix_to_numpy=cast, isnan=lambda x: False,
                     _cast_list_to_sympy_matrix=lambda r, c, l: sp.Matrix(r, c, l)):
            R = getattr(ar, fname)(*X)
        A, B = X
        if fname == 'matmul':
            want = A * B
        elif fname == 'matmul_multiple':
            want = sp.Matrix.vstack(*[(A[i, :].reshape(n, n) * B).reshape(1, n * m) for i in range(N)])
        else:
            want = sp.Matrix.vstack(*[(A.T * B[i, :].reshape(n, n) * A).reshape(1, m * m) for i in range(N)])
        obs = [('true', 'shape', R.shape == want.shape)]
        if R.shape == want.shape:
            obs += [('eq', 'product', R[i], want[i]) for i in range(len(want))]
        # bounds of the entries of the arrays that are computed in int64 arithmetic
        for b in run.int64:
            lim = [(b - (2**63 - 1), {1})]
            mx = [x for x in run.inputs if str(x) in ('maxA', 'maxB')]
            # primitive entries are integers: a maximum is 0 or at least 1
            zero = [[(x, {0}) for x in c] + [(y - 1, {0, 1}) for y in mx if y not in c] for k in range(3) for c in itertools.combinations(mx, k)]
            for z in zero:
                obs.append(('infeasible', 'int64 overflow', lim + z))
        return obs
    return FnTask(f'{fname}[n={n}, m={m}, N={N}]', body, None, must_return=True, key=(AR, fname))


@oracle
def products(A, U, N, n):
    """the exact products with rational matrices of any size of entries"""
    ar = importlib.import_module(AR)
    A = sp.Matrix([[sp.Rational(x) for x in r] for r in A])
    U = sp.Matrix([[sp.Rational(x) for x in r] for r in U]) if U else sp.zeros(n, 0)
    m = U.shape[1]
    An = [A[i, :].reshape(n, n) for i in range(N)]
    sb = sp.Matrix.vstack(*[(U.T * a * U).reshape(1, m * m) for a in An])
    calls = [('matmul_multiple', (A, U), sp.Matrix.vstack(*[(a * U).reshape(1, n * m) for a in An])),
             ('symmetric_bilinear_multiple', (U, A), sb), ('symmetric_bilinear', (U, An[0]), U.T * An[0] * U),
             ('matmul', (An[0], U), An[0] * U), ('matmul', (U.T, An[0]), U.T * An[0]), ('matmul', (A.T, A), A.T * A)]
    for f, a, want in calls:
        c = [x.copy() for x in a]
        try:
            r = getattr(ar, f)(*a)
        except Exception as e:
            return {'call': f'{f}{[x.tolist() for x in a]}'[:400], 'raises': repr(e)}
        if r.shape != want.shape or sp.Matrix(r) != want or list(a) != c:
            return {'call': f'{f}{[x.tolist() for x in a]}'[:400], 'result': str(r.tolist())[:300], 'expected': str(want.tolist())[:300]}


def product_cases(seed, count):
    rng = random.Random(seed)
    cs = []
    for i in range(count):
        n, m, N = rng.randint(1, 3), rng.randint(0 if i % 9 == 0 else 1, 3), rng.randint(1, 3)
        mag = rng.choice([2, 10**9, 2**31, 2**32, 3 * 10**9, 2**61, 2**62, 2**63 - 1, 2**63, 2**64, 10**30])
        d = rng.choice((1, 1, 6))
        R = lambda: f'{rng.choice([0, 1, -1, mag, -mag, mag - 1, rng.randint(-mag, mag)])}/{rng.choice([1, 1, d, 3 if d > 1 else 1])}'
        small = rng.random() < .5
        cs.append({'oracle': 'products', 'args': [[[R() for _ in range(n * n)] for _ in range(N)], [[str(rng.randint(-2, 2)) if small else R() for _ in range(m)] for _ in range(n)] if m else [], N, n]})
    return cs


def linear_cases(seed, count):
    rng = random.Random(seed)
    cs = []
    for i in range(count):
        m, n = rng.randint(1, 5), rng.randint(1, 7)
        A = [['0'] * n for _ in range(m)]
        sep = rng.random() < .4
        for j in range(n):
            for k in ([rng.randrange(m)] if sep else range(m)):
                if rng.random() < .6:
                    A[k][j] = rng.choice(['1', '1', '-1', '2', '1/2', '-3', '7/5'])
        if m > 1 and rng.random() < .4:
            A[-1] = [str(sp.Rational(x) * 2) for x in A[0]]
        idx = list(range(n))
        rng.shuffle(idx)
        groups = []
        if i % 2:
            k = rng.randint(1, n)
            groups = [idx[:k]] + ([idx[k:k + 2]] if n - k > 1 else [])
            if rng.random() < .5:
                for g in groups:
                    for r in range(m):
                        for j in g:
                            A[r][j] = A[r][g[0]]
        x = [rng.randint(-2, 2) for _ in range(n)]
        for g in groups:
            for j in g:
                x[j] = x[g[0]]
        b = [[str(sum(sp.Rational(A[r][j]) * x[j] for j in range(n)))] for r in range(m)]
        if rng.random() < .3:
            b[rng.randrange(m)][0] = str(rng.randint(-3, 3))
        cs.append({'oracle': 'linsys', 'args': [A, b, groups]})
        if i % 3 == 0:
            cs.append({'oracle': 'rref', 'args': [A, {'normalize_last': bool(i % 2)}]})
        if i % 8 == 0:               # irrational entries take the general branches
            s = ['sqrt(2)', '1 - sqrt(2)', '0', '3', '-sqrt(2)/2']
            A2 = [[rng.choice(s) if x != '0' and rng.random() < .4 and i % 16 else x for x in r] for r in A]
            b2 = [[rng.choice(s)] for _ in b]
            cs.append({'oracle': 'linsys', 'args': [A2, b2, []]})
    for i in range(count // 20):     # larger systems
        m, n = rng.randint(6, 12), rng.randint(6, 16)
        A = [['0'] * n for _ in range(m)]
        for j in range(n):
            for k in ([rng.randrange(m)] if i % 3 == 0 else rng.sample(range(m), rng.randint(0, 4))):
                A[k][j] = rng.choice(['1', '-1', '2', '1/2', '-3', '7/5', '100003'])
        if i % 2:
            A[-1] = [str(sp.Rational(x) - 2 * sp.Rational(y)) for x, y in zip(A[0], A[1])]
        idx = list(range(n))
        rng.shuffle(idx)
        groups = [idx[:4], idx[4:6]] if i % 4 > 1 else []
        x = [rng.randint(-2, 2) for _ in range(n)]
        for g in groups:
            for j in g:
                x[j] = x[g[0]]
        b = [[str(sum(sp.Rational(A[r][j]) * x[j] for j in range(n)))] for r in range(m)]
        cs.append({'oracle': 'linsys', 'args': [A, b, groups]})
        cs.append({'oracle': 'rref', 'args': [A, {'normalize_last': bool(i % 2)}]})
    return cs


def d02(rep, tier, seed):
    th = tier != 'quick'
    ts = [row_reduce_task(m, n, o) for m, n in ((1, 2), (2, 2), (2, 3), (3, 3), (2, 4)) for o in ({'normalize_last': False}, {})]
    ts += [row_reduce_task(3, 4, {'normalize_last': False}, z) for z in (((0, 0),), ((0, 0), (1, 0)), ((0, 0), (1, 1), (2, 2)), ((0, 1), (1, 0), (2, 3)), ((0, 0), (0, 1), (1, 0), (1, 1)))]
    for m, n, c in ((1, 2, 1), (2, 2, 1), (2, 3, 1), (3, 3, 1), (2, 3, 2), (3, 4, 1)):
        for r in range(0, m + 1):
            for piv in itertools.combinations(range(n + c), r):
                ts.append(undetermined_task(m, n, c, piv))
    rng = random.Random(7)
    for m, n, k in ((4, 5, 9), (4, 6, 9), (5, 6, 10), (5, 7, 11), (6, 8, 12)) if not th else ((4, 5, 11), (5, 6, 12), (6, 8, 13), (8, 9, 14)):
        cells = [(i, j) for i in range(m) for j in range(n)]
        for q in range(10 if not th else 30):
            nz = set(rng.sample(cells, k))
            ts.append(row_reduce_task(m, n, {'normalize_last': bool(q % 2)}, tuple(c for c in cells if c not in nz)))
    for m, n, c in ((4, 5, 1), (4, 4, 2), (5, 6, 1)):
        for r in range(m + 1):
            for piv in itertools.combinations(range(n + c), r):
                ts.append(undetermined_task(m, n, c, piv))
    ts += csr_tasks(th)
    ts += [product_task(f, n, m, N) for f in ('matmul', 'matmul_multiple', 'symmetric_bilinear_multiple') for n, m, N in ((1, 1, 1), (2, 1, 2), (2, 2, 1), (2, 3, 1), (3, 3, 2), (4, 2, 3), (4, 4, 3))]
    setup = fncheck.setup([SU, AR])
    fncheck.check(rep, tier, seed, ts, setup, 60, linear_cases(seed, 250 if not th else 4000) + product_cases(seed, 150 if not th else 3000), 20,
                  ['gcd returns a nonzero number', 'numpy int64 matrix products are exact when every partial sum is in range', 'SymPy Matrix.rref (fallback outside ZZ/QQ)',
                   'matrix sizes and sparsity patterns as listed; all entries'], path_limit=10)
