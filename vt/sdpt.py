"""Transformations of semidefinite programmes: the point sent back to the parent gives exactly the child's matrices."""
import importlib, itertools, random
import sympy as sp
from . import fncheck, engine, sos
from .fncheck import FnTask, params
from .linalg import patched
from .oracles import oracle, Declined

TR, DU, PR, AB, UT, AR = ('triples.sdp.' + n for n in ('transform', 'dual', 'primal', 'abstract', 'utils', 'arithmetic'))


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


class Contract(Exception):
    pass


def congruence(M, perturb=False):
    """contract of congruence_with_perturbation: some U, S with U.T*diag(S)*U == M"""
    from .sdp import split
    if M.shape[0] == 0 or M.shape[1] == 0:
        return sp.Matrix(), sp.Matrix()
    return split(M)


class contracts:
    """while symbolic: callees by their contracts; the concrete runs patch only the decomposition (whose sign condition does not matter here)"""
    def __enter__(self):
        self.ps = [patched(mod(AB), congruence_with_perturbation=congruence)]
        if engine.RUN is not None:
            self.ps += [patched(mod(m), solve_undetermined_linear=solve_linear) for m in (TR, DU)]
        for p in self.ps:
            p.__enter__()

    def __exit__(self, *a):
        for p in self.ps:
            p.__exit__(*a)


def num(rng, zero=.35):
    return sp.S(0) if rng.random() < zero else sp.Rational(rng.choice((1, 1, 2, -1, -2, 3, -3, 5)), rng.choice((1, 1, 1, 2, 3)))


def unvec(x, n):
    return sp.Matrix(n, n, list(x))


def solve_linear(M, B):
    """contract of solve_undetermined_linear (D02) for a rational M: refuses exactly the unsolvable systems, else all solutions"""
    if any(x.free_symbols for x in M):
        raise Contract('symbolic system')
    n = M.shape[1]
    m = M.shape[0]
    K = M.nullspace() if m and n else [sp.Matrix([int(i == j) for j in range(n)]) for i in range(n)]
    S = sp.Matrix.hstack(*K) if K else sp.zeros(n, 0)
    run = engine.RUN
    for c in consistency(M, B):
        if nonzero_on_path(c):
            raise ValueError('Linear system has no solution')
    R, piv = M.rref() if m and n else (M, ())
    x0 = sp.zeros(n, 1)
    if piv:
        rows = independent_rows(M)
        A = M.extract(rows, list(piv))
        x = A.inv() * B.extract(rows, [0])
        for p, v in zip(piv, x):
            x0[p] = v
    if S.shape[1] and run is not None:
        x0 = x0 + S * sp.Matrix(S.shape[1], 1, [run.fresh('w') for _ in range(S.shape[1])])
    return x0, S


def independent_rows(M):
    return list(M.T.rref()[1])


def nonzero_on_path(c):
    c = sp.sympify(c)
    if c.is_Rational:
        return c != 0
    return bool(engine.hook_cmp('ne', c, 0))


def same(a, b):
    """obligations a == b entry by entry"""
    if a.shape != b.shape:
        return [('true', f'shape {a.shape} {b.shape}', False)]
    return [('eq', '', x, y) for x, y in zip(a, b)]


def label(text, obs):
    return [(o[0], text + (' ' + o[1] if o[1] else ''), *o[2:]) for o in obs]


def rows_of(S_key, n, U):
    """matrix of the linear map S -> vec(S*U) on vec(S) (row-major)"""
    out = []
    for i in range(n):
        for c in range(U.shape[1]):
            r = sp.zeros(1, n * n)
            for k in range(n):
                r[i * n + k] += U[k, c]
            out.append(r)
    return sp.Matrix.vstack(*out) if out else sp.zeros(0, n * n)


def sym_space(rng, n, dof, zero=.35):
    A = sp.zeros(n * n, dof)
    for i in range(n):
        for j in range(i, n):
            for c in range(dof):
                A[i * n + j, c] = A[j * n + i, c] = num(rng, zero)
    return A


def build(rng, mk, sizes, dof, symmetric=True, fill=.7):
    """a dual programme: x0 from mk (symbolic), space rational"""
    D = {}
    for key, n in sizes.items():
        x0 = sp.zeros(n * n, 1)
        for i in range(n):
            for j in range(i if symmetric else 0, n):
                v = mk() if rng.random() < fill else num(rng)
                x0[i * n + j] = v
                if symmetric:
                    x0[j * n + i] = v
        sp_ = sym_space(rng, n, dof)
        if not symmetric:
            sp_ = sp.Matrix(n * n, dof, lambda *_: num(rng, .5))
        D[key] = (x0, sp_)
    return D


def rank(M):
    return M.rank() if M.shape[0] and M.shape[1] else 0


def full(D):
    return sp.Matrix.vstack(*[s for _, s in D.values()]), sp.Matrix.vstack(*[x for x, _ in D.values()])


def restriction(D, keys, sizes, kind, data):
    """the equations (on y) the transformation imposes: E*y == r"""
    Es, rs = [], []
    for k in keys:
        x0, S = D[k]
        n = sizes[k]
        if kind == 'null':
            L = rows_of(None, n, data[k])
        elif kind == 'mask':
            idx = [i * n + j for i in data[k] for j in range(n)]
            L = sp.Matrix(len(idx), n * n, lambda p, q: int(q == idx[p]))
        elif kind == 'sym':
            prs = [(i, j) for i in range(n) for j in range(i)]
            L = sp.Matrix(len(prs), n * n, lambda p, q: int(q == prs[p][0] * n + prs[p][1]) - int(q == prs[p][1] * n + prs[p][0]))
        elif kind == 'equal':
            L = sp.Matrix(len(data.get(k, ())), n * n, lambda p, q: int(q == data[k][p][0][0] * n + data[k][p][0][1]) - int(q == data[k][p][1][0] * n + data[k][p][1][1])) if data.get(k) else sp.zeros(0, n * n)
        if L.shape[0]:
            Es.append(L * S)
            rs.append(-L * x0)
    dof = next(iter(D.values()))[1].shape[1]
    return (sp.Matrix.vstack(*Es), sp.Matrix.vstack(*rs)) if Es else (sp.zeros(0, dof), sp.zeros(0, 1))


def consistency(E, r):
    """numbers which vanish iff E*y == r is solvable (E rational)"""
    if not E.shape[0]:
        return []
    N = E.T.nullspace() if E.shape[1] else [sp.Matrix([int(i == j) for j in range(E.shape[0])]) for i in range(E.shape[0])]
    return [sp.expand((v.T * r)[0]) for v in N]


def basis(rng, n, r):
    for _ in range(200):
        V = sp.Matrix(n, r, lambda *_: num(rng, .5))
        if rank(V) == r:
            return V
    return sp.eye(n)[:, :r]


def chain_obligations(first, last, given=None):
    """at every level the registered matrices are those of the registered point, with a valid decomposition"""
    obs, node, seen = [], last, set()
    todo = [last]
    while todo:
        node = todo.pop()
        if id(node) in seen:
            continue
        seen.add(id(node))
        if node.y is None:
            return [('true', f'a point is registered at {node}', False)]
        S = node.S_from_y(node.y)
        obs.append(('true', 'matrices of every block', set(S) == set(node.S) == set(node.decompositions)))
        for k in S:
            given_ = (lambda m: m.xreplace(given)) if given else (lambda m: m)
            obs += label(f'matrix of {k} at the registered point', same(given_(S[k]), sp.Matrix(node.S[k])))
            n = S[k].shape[0]
            if n:
                U, d = node.decompositions[k][:2]
                obs += label(f'decomposition of {k}', same(U.T * sp.diag(*list(d)) * U, sp.Matrix(node.S[k])))
        todo += node.parents
    obs.append(('true', 'the first programme has received the point', id(first) in seen))
    return obs


SIZES = [{'p': 2}, {'p': 3}, {'p': 1, 'q': 2}, {'p': 2, 'q': 2}, {'p': 3, 'q': 1}, {'p': 2, 'q': 1, 'r': 2}]


def dual_case(kind, si, dof, seed, mk, fixed_x0=None):
    """-> (parent, child or None when refused, obligations, completeness data)"""
    T, P = mod(TR), mod(DU)
    rng = random.Random(f'{kind}{si}{dof}{seed}')
    sizes = dict(SIZES[si])
    keys = list(sizes)
    D = build(rng, mk, sizes, dof, symmetric=kind != 'sym', fill=.5 if kind in ('mask', 'zero') else .7)
    data = {}
    if kind in ('null', 'col', 'both'):
        V = {k: basis(rng, n, rng.choice((0, 0, 1, 1, n) if rng.random() < .3 else (0, 1))) for k, n in sizes.items()}
        if kind != 'col' and not any(v.shape[1] for v in V.values()):
            V[keys[0]] = basis(rng, sizes[keys[0]], 1)
        data = V
        if kind == 'col' and all(V[k].shape[1] == n for k, n in sizes.items()):
            V[keys[-1]] = basis(rng, sizes[keys[-1]], 0)      # no column space at all is read as no restriction
        # a consistent right-hand side: x0 = X - space*y0 with X*V == 0
        if rng.random() < .7:
            y0 = sp.Matrix(dof, 1, [mk() if t < 2 else num(rng) for t in range(dof)])
            for k, n in sizes.items():
                U = sp.Matrix.hstack(*V[k].T.nullspace()) if V[k].shape[1] and V[k].T.nullspace() else (sp.eye(n) if not V[k].shape[1] else sp.zeros(n, 0))
                m = U.shape[1]
                X = sp.zeros(m, m)
                for i in range(m):
                    for j in range(i, m):
                        X[i, j] = X[j, i] = mk()
                D[k] = (((U * X * U.T).reshape(n * n, 1) if m else sp.zeros(n * n, 1)) - D[k][1] * y0, D[k][1])
    if kind in ('mask', 'zero'):
        for k, n in sizes.items():
            data[k] = sorted(rng.sample(range(n), rng.choice((0, 1, min(n, 2)))))
        if not any(data.values()):
            data[keys[0]] = [sizes[keys[0]] - 1]
        for k, n in sizes.items():
            x0, S = D[k]
            for i in data[k]:
                for j in range(n):
                    keep = rng.random() < .4 and j != i
                    for q in (i * n + j, j * n + i):
                        if kind == 'zero' and i == j or not keep:
                            x0[q] = 0
                        if kind == 'zero' and i == j or rng.random() < .3 and q >= 0:
                            S[i * n + j, :] = S[j * n + i, :] = sp.zeros(1, dof)
    if kind == 'equal':
        for k, n in sizes.items():
            pick = lambda: (rng.randrange(n), rng.randrange(n))
            if rng.random() < .8:
                data[k] = [(pick(), pick()) for _ in range(rng.choice((1, 2)))]
    D0 = {k: (x.copy(), s.copy()) for k, (x, s) in D.items()}
    parent = P.SDPProblem(D)
    obs = [('true', 'one variable for every column', parent.dof == dof and len(set(parent.free_symbols)) == dof)]
    zs = sp.Matrix(parent.free_symbols)
    for k, n in sizes.items():
        obs += label(f'matrix {k} in the variables', same(parent.S_from_y()[k], unvec(D0[k][0] + D0[k][1] * zs, n)))
    with contracts():
        try:
            if kind == 'null':
                child = parent.constrain_nullspace({k: v.copy() for k, v in data.items()})
            elif kind == 'col':
                child = parent.constrain_subspace({k: (sp.Matrix.hstack(*v.T.nullspace()) if v.T.nullspace() else sp.zeros(sizes[k], 0)) if v.shape[1] else sp.eye(sizes[k]) for k, v in data.items()})
            elif kind == 'both':
                child = T.SDPMatrixTransform(parent, columnspace={k: (sp.Matrix.hstack(*v.T.nullspace()) if v.T.nullspace() else sp.zeros(sizes[k], 0)) if v.shape[1] else sp.eye(sizes[k]) for k, v in data.items()}, nullspace=data).child_node
            elif kind == 'mask':
                child = T.SDPRowMasking(parent, {k: list(v) for k, v in data.items()}).child_node
            elif kind == 'zero':
                got = parent._get_zero_diagonals()
                data = got
                for k, n in sizes.items():
                    for i in range(n):
                        e = (D0[k][0] + D0[k][1] * zs)[i * n + i]
                        if i in got[k]:
                            obs.append(('eq', f'diagonal {i} of {k} is zero', e, 0))
                        else:
                            obs.append(('true', f'zero diagonal {i} of {k} is found', sp.expand(e) != 0))
                child = parent.constrain_zero_diagonals(recursive=False)
            elif kind == 'sym':
                child = parent.constrain_symmetry()
            elif kind == 'equal':
                child = parent.constrain_equal_entries(data)
        except ValueError as e:
            E, r = restriction(D0, keys, sizes, {'col': 'null', 'both': 'null', 'zero': 'mask'}.get(kind, kind), data)
            return parent, None, obs, (E, r)
        E, r = restriction(D0, keys, sizes, {'col': 'null', 'both': 'null', 'zero': 'mask'}.get(kind, kind), data)
        for c in consistency(E, r):
            obs.append(('eq', 'an unsolvable restriction is refused', c, 0))
        k0 = rank(E)
        obs.append(('true', f'no freedom is lost: {child.dof} variables of {dof - k0}', child.dof == (dof - k0 if child.keys() else 0)))
        if child is not parent:
            z = sp.Matrix(child.dof, 1, [mk() for _ in range(child.dof)]) if child.dof else sp.zeros(0, 1)
            child.register_y(z)
        else:
            z = sp.Matrix(child.dof, 1, [mk() for _ in range(child.dof)])
            child.register_y(z)
        obs += chain_obligations(parent, child)
        obs += label('the restriction holds at the point', same(E * parent.y, r))
        # the points reached have as many dimensions as the solutions of the restriction
        if child.dof and child is not parent:
            zsym = sorted(z.free_symbols & set(z), key=str)
            J = parent.y.jacobian(sp.Matrix(zsym)) if len(zsym) == child.dof else None
            if J is not None and not J.free_symbols:
                obs.append(('true', 'different points of the child are different points of the parent', rank(sp.Matrix(J)) == child.dof))
        # relation of child and parent matrices
        for k, n in sizes.items():
            Sp = sp.Matrix(parent.S[k])
            if kind in ('null', 'col', 'both'):
                V = data[k]
                obs += label(f'null space of {k}', same(Sp * V, sp.zeros(n, V.shape[1]))) if V.shape[1] else []
                U = parent._transforms[-1]._columnspace[k]
                if child.S.get(k) is not None and child is not parent:
                    obs += label(f'child matrix {k} is the compression of the parent', same(U.T * Sp * U, sp.Matrix(child.S[k])))
                elif child is not parent:
                    obs += label(f'dropped block {k} vanishes', same(Sp, sp.zeros(n, n)))
            if kind in ('mask', 'zero') and child is not parent:
                un = [i for i in range(n) if i not in data[k]]
                obs += label(f'child block {k}', same(Sp.extract(un, un), sp.Matrix(child.S[k])) if un else [])
                obs += label(f'masked rows of {k}', [('eq', '', Sp[i, j], 0) for i in data[k] for j in range(n)] + [('eq', '', Sp[j, i], 0) for i in data[k] for j in range(n)])
            if kind in ('sym', 'equal') and child is not parent:
                obs += label(f'child block {k}', same(Sp, sp.Matrix(child.S[k])))
    return parent, child, obs, (E, r)


def dual_task(kind, si, dof, seed):
    def body(run):
        cnt = itertools.count()

        def mk():
            return params(run, [f'x{next(cnt)}'])[0]
        run.oracle_args = [kind, si, dof, seed]
        parent, child, obs, (E, r) = dual_case(kind, si, dof, seed, mk)
        if child is None:
            return obs + [('infeasible', 'a solvable restriction is refused', [(c, {0}) for c in consistency(E, r)])]
        return obs
    return FnTask(f'{kind}[blocks {SIZES[si]}, {dof} variables, {seed}]', body, 'dual', must_return=True, key=(TR, kind))


def evaluate(obs, call):
    for o in obs:
        if o[0] == 'true' and not o[2]:
            return {'call': call, 'failure': o[1]}
        if o[0] == 'eq' and sp.radsimp(sp.expand(o[2] - o[3])) != 0:
            return {'call': call, 'failure': f'{o[1]}: {o[2]} != {o[3]}'[:400]}


@oracle
def dual(kind, si, dof, seed):
    rng = random.Random(seed * 31 + 7)
    call = f'{kind} on blocks {SIZES[si]} with {dof} variables, seed {seed}'
    try:
        parent, child, obs, (E, r) = dual_case(kind, si, dof, seed, lambda: sp.Rational(rng.randint(-9, 9), rng.choice((1, 2, 3))))
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    call += f' ({ {k: (list(x), s.tolist()) for k, (x, s) in parent._x0_and_space.items()} })'[:700]
    if child is None and all(c == 0 for c in consistency(E, r)):
        return {'call': call, 'failure': 'a solvable restriction is refused'}
    return evaluate(obs, call)


# ---------------------------------------------------------------- chains, affine substitution, parameters
def affine_case(n, dof, dz, seed, mk):
    T, P = mod(TR), mod(DU)
    rng = random.Random(f'a{n}{dof}{dz}{seed}')
    sizes = {'p': n, 'q': 1}
    D = {k: (sp.Matrix(m * m, 1, lambda *_: num(rng)), sp.Matrix(m * m, dof, lambda *_: mk() if rng.random() < .3 else num(rng))) for k, m in sizes.items()}
    for k, m in sizes.items():
        for i in range(m):
            for j in range(i):
                D[k][0][i * m + j] = D[k][0][j * m + i]
                D[k][1][i * m + j, :] = D[k][1][j * m + i, :]
    A = sp.Matrix(dof, dz, lambda *_: mk() if rng.random() < .5 else num(rng))
    b = sp.Matrix(dof, 1, lambda *_: mk())
    # parameters inside the matrices are not variables here
    parent = P.SDPProblem({k: (x.copy(), s.copy()) for k, (x, s) in D.items()})
    with contracts():
        t = T.SDPVectorTransform(parent, A, b)
        child = t.child_node
        z = sp.Matrix(dz, 1, [mk() for _ in range(dz)])
        child.register_y(z)
        obs = chain_obligations(parent, child) + label('y == A*z + b', same(parent.y, A * z + b))
        obs += [('true', 'as_params', parent.as_params() == dict(zip(parent.free_symbols, parent.y)))]
    return obs


def affine_task(n, dof, dz, seed):
    def body(run):
        cnt = itertools.count()
        return affine_case(n, dof, dz, seed, lambda: params(run, [f'x{next(cnt)}'])[0])
    return FnTask(f'SDPVectorTransform[{n}x{n}, {dof} -> {dz}, {seed}]', body, None, must_return=True, key=(TR, 'SDPVectorTransform'))


def chain_case(si, dof, seed, mk):
    """several transformations one after the other; a null space given for the first programme reaches the last"""
    T, P = mod(TR), mod(DU)
    rng = random.Random(f'c{si}{dof}{seed}')
    sizes = dict(SIZES[si])
    V = {k: basis(rng, n, rng.choice((0, 1)) if n > 1 else 0) for k, n in sizes.items()}
    W = {k: basis(rng, n, rng.choice((0, 1)) if n > 2 else 0) for k, n in sizes.items()}
    D = {}
    y0 = sp.Matrix(dof, 1, [mk() for _ in range(dof)])
    for k, n in sizes.items():
        N = sp.Matrix.hstack(V[k], W[k])
        U = sp.Matrix.hstack(*N.T.nullspace()) if N.shape[1] else sp.eye(n)
        m = U.shape[1]
        space = sp.zeros(n * n, dof)
        for c in range(dof):
            B = sp.Matrix(m, m, lambda *_: num(rng, .4))
            Q = U * (B + B.T) * U.T
            if c % 2 == 0:
                e = sp.zeros(n, n)
                i, j = rng.randrange(n), rng.randrange(n)
                e[i, j] = e[j, i] = 1
                Q += e
            space[:, c] = Q.reshape(n * n, 1)
        X = sp.zeros(m, m)
        for i in range(m):
            for j in range(i, m):
                X[i, j] = X[j, i] = mk()
        D[k] = ((U * X * U.T).reshape(n * n, 1) - space * y0, space)
    parent = P.SDPProblem(D)
    node = parent
    steps = []
    with contracts():
        for step in range(2):
            N = (V, W)[step]
            if any(v.shape[1] for v in N.values()):
                try:
                    node = parent.constrain_nullspace({k: v.copy() for k, v in N.items()}, to_child=True)
                except ValueError:
                    if 'zero' in steps:      # the zero rows of semidefinite matrices may exclude the point the example was made from
                        return None
                    raise
                steps.append('null')
            if rng.random() < .5:
                try:
                    z = node.constrain_zero_diagonals()
                except ValueError:        # a zero diagonal whose row cannot vanish
                    return None
                if z is not node:
                    steps.append('zero')
                node = z
        if not steps:
            return None
        last = parent.get_last_child()
        z = sp.Matrix(last.dof, 1, [mk() for _ in range(last.dof)]) if last.dof else sp.zeros(0, 1)
        last.register_y(z)
        obs = chain_obligations(parent, last)
        for k, n in sizes.items():
            N = sp.Matrix.hstack(V[k], W[k])
            if N.shape[1]:
                obs += label(f'null space of {k}', same(sp.Matrix(parent.S[k]) * N, sp.zeros(n, N.shape[1])))
    return obs


def chain_task(si, dof, seed):
    def body(run):
        cnt = itertools.count()
        run.oracle_args = [si, dof, seed]
        obs = chain_case(si, dof, seed, lambda: params(run, [f'x{next(cnt)}'])[0])
        return obs or []
    return FnTask(f'chain[blocks {SIZES[si]}, {dof} variables, {seed}]', body, 'chain', must_return=True, key=(TR, 'constrain_nullspace'))


@oracle
def chain(si, dof, seed):
    rng = random.Random(seed * 17 + 3)
    call = f'chain of restrictions on blocks {SIZES[si]} with {dof} variables, seed {seed}'
    try:
        obs = chain_case(si, dof, seed, lambda: sp.Rational(rng.randint(-9, 9), rng.choice((1, 2))))
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    if obs is None:
        raise Declined
    return evaluate(obs, call)


def param_case(si, dof, np_, seed, mk):
    """parameters in x0 become variables"""
    P = mod(DU)
    rng = random.Random(f'd{si}{dof}{np_}{seed}')
    sizes = dict(SIZES[si])
    ts = sp.symbols('y_{1} t s')[:np_]
    D, C = {}, {}
    for k, n in sizes.items():
        x0 = sp.zeros(n * n, 1)
        for i in range(n):
            for j in range(i, n):
                cs = [num(rng, .5) for _ in ts]
                c0 = num(rng)
                w = rng.random()
                e = c0 + sum(c * t for c, t in zip(cs, ts))
                if w < .3 and np_:
                    e = sp.Mul(sp.Rational(1, 2), sp.Add(*(2 * c * t for c, t in zip(cs, ts)), 2 * c0), evaluate=False)
                x0[i * n + j] = x0[j * n + i] = e
        D[k] = (x0, sym_space(rng, n, dof))
    parent = P.SDPProblem({k: (x.copy(), s.copy()) for k, (x, s) in D.items()})
    with contracts():
        child = parent.deparametrize()
        used = set().union(*[x.free_symbols for x, _ in D.values()])
        if child is parent:
            return [('true', 'no parameters', not used)]
        obs = [('true', 'every parameter becomes a variable', set(child.free_symbols) == used | set(parent.free_symbols) and len(child.free_symbols) == dof + len(used)),
               ('true', 'nothing else is free', not set().union(*[x.free_symbols for x, _ in child._x0_and_space.values()]))]
        z = sp.Matrix(child.dof, 1, [mk() for _ in range(child.dof)])
        child.register_y(z)
        given = {t: v for t, v in zip(child.free_symbols, child.y)}
        obs += chain_obligations(parent, child, given)
        obs += label('variables keep their values', [('eq', '', parent.y[i], given[s]) for i, s in enumerate(parent.free_symbols)])
    return obs


def param_task(si, dof, np_, seed):
    def body(run):
        cnt = itertools.count()
        run.oracle_args = [si, dof, np_, seed]
        return param_case(si, dof, np_, seed, lambda: params(run, [f'x{next(cnt)}'])[0])
    return FnTask(f'deparametrize[blocks {SIZES[si]}, {dof} variables, {np_} parameters, {seed}]', body, 'param', must_return=True, key=(TR, 'DualDeparametrization'))


@oracle
def param(si, dof, np_, seed):
    rng = random.Random(seed * 13 + 1)
    call = f'deparametrize on blocks {SIZES[si]}, {dof} variables, {np_} parameters, seed {seed}'
    try:
        obs = param_case(si, dof, np_, seed, lambda: sp.Rational(rng.randint(-9, 9), rng.choice((1, 2))))
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    return evaluate(obs, call)


# ---------------------------------------------------------------- decompose_matrix, vectors
SHAPES = ['lin', 'factored', 'unevaluated', 'split', 'root', 'nested', 'const', 'single', 'neg']


def entry(shape, vs, cs, c0, rng):
    """an expression linear in vs with these coefficients, written in some form"""
    if shape == 'const':
        return c0, [0] * len(vs)
    e = c0 + sp.Add(*[c * v for c, v in zip(cs, vs)])
    if shape == 'single':
        k = rng.randrange(len(vs))
        return cs[k] * vs[k], [c if i == k else 0 for i, c in enumerate(cs)], 0
    if shape == 'factored':
        return cs[0] * sp.Add(*vs, 1), [cs[0]] * len(vs), cs[0]
    if shape == 'unevaluated':
        return sp.Mul(2, sp.Add(*vs, 1), evaluate=False), [2] * len(vs), 2
    if shape == 'split':
        return sp.Add(e, sp.Mul(cs[0], vs[0] - vs[-1], evaluate=False), evaluate=False), [c + (cs[0] if i == 0 else 0) - (cs[0] if i == len(vs) - 1 else 0) for i, c in enumerate(cs)], c0
    if shape == 'root':
        r = sp.sqrt(2)
        return r * (e), [r * c for c in cs], r * c0
    if shape == 'nested':
        return 3 * (sp.Rational(1, 3) * e + cs[0] * (vs[0] - 2)), [c + (3 * cs[0] if i == 0 else 0) for i, c in enumerate(cs)], c0 - 6 * cs[0]
    if shape == 'neg':
        return -(e), [-c for c in cs], -c0
    return e, list(cs), c0


def decompose_case(rows, cols, nv, shapes, given, mk, seed):
    U = mod(UT)
    rng = random.Random(f'dm{rows}{cols}{nv}{shapes}{seed}')
    vs = list(sp.symbols('u v w')[:nv])
    want_x, want_A, M = sp.zeros(rows * cols, 1), sp.zeros(rows * cols, nv), sp.zeros(rows, cols)
    for i in range(rows):
        for j in range(cols):
            sh = shapes[(i * cols + j) % len(shapes)]
            cs, c0 = [mk() for _ in vs], mk()
            r = entry(sh, vs, cs, c0, rng)
            M[i, j] = r[0]
            want_x[i * cols + j] = r[2] if len(r) > 2 else c0
            for t in range(nv):
                want_A[i * cols + j, t] = r[1][t]
    M0 = M.copy()
    x, A, v = U.decompose_matrix(M, vs if given else None)
    obs = [('true', 'the argument is left as it was', M == M0), ('true', 'variables', not set(vs) - set(v)) if given else ('true', 'variables', True)]
    for k in range(nv):
        if vs[k] in list(v):
            obs += label(f'coefficients of {vs[k]}', same(A[:, list(v).index(vs[k])], want_A[:, k]))
    if given:
        obs += label('constants', same(x, want_x)) + [('true', 'constants are free of the variables', not (x.free_symbols | A.free_symbols) & set(vs))]
    else:
        obs += label('vec(M) == x + A*v', same(x + A * v if len(v) else x, M0.reshape(rows * cols, 1)))
    return obs


def decompose_task(rows, cols, nv, shapes, seed):
    def body(run):
        cnt = itertools.count()
        run.oracle_args = [rows, cols, nv, list(shapes), True, seed]
        return decompose_case(rows, cols, nv, shapes, True, lambda: params(run, [f'x{next(cnt)}'])[0], seed)
    return FnTask(f'decompose_matrix[{rows}x{cols}, {nv} variables, {"/".join(shapes)}, {seed}]', body, 'decompose', must_return=True, key=(UT, 'decompose_matrix'))


@oracle
def decompose(rows, cols, nv, shapes, given, seed):
    rng = random.Random(seed * 7 + 5)
    call = f'decompose_matrix of a {rows}x{cols} matrix, {nv} variables, forms {shapes}, seed {seed}'
    vals = [0, 1, -1, 2, sp.Rational(1, 3), sp.sqrt(2), -sp.sqrt(3), sp.pi]
    try:
        obs = decompose_case(rows, cols, nv, shapes, given, lambda: sp.sympify(rng.choice(vals)), seed)
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    return evaluate(obs, call)


def vec_task(n):
    def body(run):
        M = mod(UT).Mat2Vec
        A = sp.Matrix(n, n, params(run, [f'm{i}_{j}' for i in range(n) for j in range(n)])) if n else sp.zeros(0, 0)
        S = (A + A.T) if n else A
        v, u = M.mat2vec(A), sp.Matrix(list(M.mat2vec(S, mode=M.UPPER))) if n else sp.zeros(0, 1)
        obs = [('true', 'shape', v.shape == (n * n, 1) and M.length_of_vec(n) == n * n == v.shape[0] and M.length_of_mat(n * n) == n),
               ('true', 'upper shape', u.shape == (n * (n + 1) // 2, 1) and M.length_of_vec(n, M.UPPER) == u.shape[0] and M.length_of_mat(u.shape[0], M.UPPER) == n)]
        obs += label('rows one after the other', [('eq', '', v[i * n + j], A[i, j]) for i in range(n) for j in range(n)])
        obs += label('back', same(M.vec2mat(v), A) + same(M.vec2mat(u, mode=M.UPPER), S))
        it = iter(u)
        obs += label('upper part by rows', [('eq', '', next(it), S[i, j]) for i in range(n) for j in range(i, n)])
        return obs
    return FnTask(f'Mat2Vec[{n}x{n}]', body, None, must_return=True, key=(UT, 'Mat2Vec'))


@oracle
def lengths(n):
    M = mod(UT).Mat2Vec
    for mode in (M.DIRECT, M.UPPER):
        if M.length_of_mat(M.length_of_vec(n, mode), mode) != n:
            return {'call': f'Mat2Vec.length_of_mat(length_of_vec({n}, {mode}), {mode})', 'got': M.length_of_mat(M.length_of_vec(n, mode), mode)}


# ---------------------------------------------------------------- primal programmes
def primal_build(rng, mk, sizes, m):
    space = {k: sym_space_rows(rng, n, m, mk) for k, n in sizes.items()}
    return space


def sym_space_rows(rng, n, m, mk, fill=.4):
    A = sp.zeros(m, n * n)
    for r in range(m):
        for i in range(n):
            for j in range(i, n):
                v = mk() if rng.random() < fill else num(rng, .5)
                A[r, i * n + j] = A[r, j * n + i] = v
    return A


def zero_diag_case(sizes, pattern, mk):
    """pattern: per equation, {block: {(i, j): 'v' | '+' | number}}, rhs 0 -> (reported, equations, psd conditions)"""
    P = mod(PR)
    m = len(pattern)
    space = {k: sp.zeros(m, n * n) for k, n in sizes.items()}
    for r, eq in enumerate(pattern):
        for k, ent in eq.items():
            n = sizes[k]
            for (i, j), c in ent.items():
                v = mk() if c in ('v', 'u') else sp.sympify(c)
                space[k][r, i * n + j] = v
                if c == 'u':
                    continue
                space[k][r, j * n + i] = v
    sdp = P.SDPPrimal(sp.zeros(m, 1), {k: v.copy() for k, v in space.items()})
    return space, sdp._get_zero_diagonals()


def zero_diag_task(sizes, pattern, name):
    def body(run):
        cnt = itertools.count()
        run.oracle_args = None
        space, got = zero_diag_case(sizes, pattern, lambda: params(run, [f'k{next(cnt)}'])[0])
        S = {}
        facts = []
        for k, n in sizes.items():
            M = sp.zeros(n, n)
            for i in range(n):
                for j in range(i, n):
                    M[i, j] = M[j, i] = params(run, [f's{k}{i}{j}'])[0]
            S[k] = M
            facts += [(M[i, i], {0, 1}) for i in range(n)] + [(sp.expand(M.extract(list(c), list(c)).det(method='berkowitz')), {0, 1}) for q in range(2, n + 1) for c in itertools.combinations(range(n), q)]
        for r in range(len(pattern)):
            facts.append((sp.Add(*[(space[k][r, :] * S[k].reshape(n * n, 1))[0] for k, n in sizes.items()]), {0}))
        return [('infeasible', f'diagonal {i} of {k} is zero in every solution', facts + [(S[k][i, i], {1})]) for k in got for i in got[k]]
    return FnTask(f'SDPPrimal._get_zero_diagonals[{name}]', body, None, must_return=True, key=(TR, 'PrimalTransformMixin._get_zero_diagonals'))


ZD = [('upper entries only', {'p': 2}, [{'p': {(0, 0): 'v', (0, 1): 'u', (1, 1): 'v'}}]), ('lower entries only', {'p': 2}, [{'p': {(0, 0): 'v', (1, 0): 'u', (1, 1): 'v'}}]),
      ('one equation, one block', {'p': 2}, [{'p': {(0, 0): 'v', (0, 1): 'v', (1, 1): 'v'}}]),
      ('one equation, two blocks', {'p': 2, 'q': 1}, [{'p': {(0, 0): 'v', (1, 1): 'v'}, 'q': {(0, 0): 'v'}}]),
      ('two equations, two blocks', {'p': 1, 'q': 1}, [{'p': {(0, 0): 'v'}, 'q': {(0, 0): 'v'}}, {'p': {(0, 0): 'v'}, 'q': {(0, 0): 'v'}}]),
      ('two equations, 2x2', {'p': 2}, [{'p': {(0, 0): 'v'}}, {'p': {(0, 1): 'v', (1, 1): 'v'}}]),
      ('off-diagonal after zero', {'p': 2, 'q': 1}, [{'p': {(0, 0): 'v'}, 'q': {(0, 0): 'v'}}, {'p': {(0, 1): 'v'}, 'q': {(0, 0): 'v'}}])]


def primal_case(kind, si, m, seed, mk):
    """-> obligations; the child point satisfies the child's equations by assumption"""
    T, P = mod(TR), mod(PR)
    rng = random.Random(f'p{kind}{si}{m}{seed}')
    sizes = dict(SIZES[si])
    symm = {}
    for k, n in sizes.items():
        M = sp.zeros(n, n)
        for i in range(n):
            for j in range(i, n):
                M[i, j] = M[j, i] = mk()
        symm[k] = M
    masks = {k: sorted(rng.sample(range(n), rng.choice((0, 1)))) for k, n in sizes.items()}
    if not any(masks.values()):
        masks[list(sizes)[-1]] = [0]
    if kind == 'mask':
        for k in sizes:
            for i in masks[k]:
                for j in range(sizes[k]):
                    symm[k][i, j] = symm[k][j, i] = 0
    space = {k: sym_space_rows(rng, n, m, mk, .4 if kind != 'dual' else 0) for k, n in sizes.items()}
    vec = sp.Matrix.vstack(*[symm[k].reshape(n * n, 1) for k, n in sizes.items()])
    x0 = sp.Matrix.hstack(*space.values()) * vec
    sdp = P.SDPPrimal(x0.copy(), {k: v.copy() for k, v in space.items()})
    obs = [('true', 'dof', sdp.dof == sum(n * n for n in sizes.values()) and sdp.size == sizes), *label('full space', same(sdp.full_space, sp.Matrix.hstack(*space.values())))]
    obs += [o for k in sizes for o in label(f'matrix {k}', same(sdp.S_from_y(vec)[k], symm[k]))]
    names = sdp.S_from_y()
    obs += [('true', f'symbolic matrix {k} is symmetric with different names', names[k].shape == (n, n) and names[k] == names[k].T and len(names[k].free_symbols) == n * (n + 1) // 2) for k, n in sizes.items()]
    with contracts():
        if kind == 'mask':
            child = T.SDPRowMasking(sdp, {k: list(v) for k, v in masks.items()}).child_node
            z = []
            for k, n in sizes.items():
                un = [i for i in range(n) if i not in masks[k]]
                z += [symm[k][i, j] for i in un for j in un]
            z = sp.Matrix(len(z), 1, z) if z else sp.zeros(0, 1)
            obs += label('the compressed point solves the equations of the child', same(child.full_space * z, child._x0))
            child.y, child.S = z, child.S_from_y(z)
            child.decompositions = {k: congruence(v) for k, v in child.S.items()}
            child.propagate_to_parent()
            obs += label('point of the parent', same(sp.Matrix(sdp.y), vec))
            for k, n in sizes.items():
                obs += label(f'matrix {k}', same(sp.Matrix(sdp.S[k]), symm[k]))
                U, d = sdp.decompositions[k][:2]
                if U.shape[0]:
                    obs += label(f'decomposition of {k}', same(U.T * sp.diag(*list(d)) * U, symm[k]))
        elif kind == 'null':
            V = {k: basis(rng, n, rng.choice((0, 1)) if n > 1 else 0) for k, n in sizes.items()}
            if not any(v.shape[1] for v in V.values()):
                return obs
            child = sdp.constrain_nullspace({k: v.copy() for k, v in V.items()})
            w = sp.Matrix(sdp.dof, 1, [mk() for _ in range(sdp.dof)])
            # the added equations say exactly S*V == 0 for symmetric S
            old = sdp.full_space.shape[0]
            new = child.full_space[old:, :]
            obs += [('true', 'old equations are kept', child.full_space[:old, :] == sdp.full_space and child._x0[:old, :] == sdp._x0), ('true', 'new right-hand sides are zero', all(x == 0 for x in child._x0[old:, :]))]
            L, off = [], 0
            for k, n in sizes.items():
                R = rows_of(None, n, V[k])
                if R.shape[0]:
                    pad = sp.zeros(R.shape[0], sdp.dof)
                    pad[:, off:off + n * n] = R
                    L.append(pad)
                off += n * n
            L = sp.Matrix.vstack(*L)
            # on symmetric matrices
            cols, off = [], 0
            for k, n in sizes.items():
                for i in range(n):
                    for j in range(i, n):
                        e = sp.zeros(sdp.dof, 1)
                        e[off + i * n + j] = e[off + j * n + i] = 1
                        cols.append(e)
                off += n * n
            B = sp.Matrix.hstack(*cols)
            a, b = L * B, new * B
            obs.append(('true', 'the new equations are S*V == 0', rank(a) == rank(b) == rank(sp.Matrix.vstack(a, b))))
            child.y = w
            child.S, child.decompositions = {'x': 1}, {'x': 2}
            child.propagate_to_parent()
            obs += label('point of the parent', same(sdp.y, w)) + [('true', 'matrices of the parent', sdp.S == {'x': 1} and sdp.decompositions == {'x': 2})]
        elif kind == 'sym':
            A = {k: sp.Matrix(m, n * n, lambda *_: mk() if rng.random() < .5 else num(rng, .5)) for k, n in sizes.items()}
            want = sp.Matrix.hstack(*[A[k] for k in sizes]) * vec
            q = P.SDPPrimal(x0, {k: v.copy() for k, v in A.items()})
            r = q.constrain_symmetry()
            obs += label('same equations on symmetric matrices', same(r.full_space * vec, want))
            for k, n in sizes.items():
                obs += label(f'coefficients of {k} are symmetric', [('eq', '', r._space[k][t, i * n + j], r._space[k][t, j * n + i]) for t in range(m) for i in range(n) for j in range(i)])
        elif kind == 'dual':
            child = sdp.to_dual()
            z = sp.Matrix(child.dof, 1, [mk() for _ in range(child.dof)]) if child.dof else sp.zeros(0, 1)
            child.register_y(z)
            obs += label('the point of the parent solves its equations', same(sdp.full_space * sdp.y, sdp._x0))
            obs += [o for k, n in sizes.items() for o in label(f'matrix {k}', same(sp.Matrix(sdp.S[k]), sdp.S_from_y(sdp.y)[k]) + same(sp.Matrix(sdp.S[k]), sp.Matrix(sdp.S[k]).T))]
            free = sum(n * (n + 1) // 2 for n in sizes.values())
            cols, off = [], 0
            for k, n in sizes.items():
                for i in range(n):
                    for j in range(i, n):
                        e = sp.zeros(sdp.dof, 1)
                        e[off + i * n + j] = e[off + j * n + i] = 1
                        cols.append(e)
                off += n * n
            obs.append(('true', 'no freedom is lost', child.dof == free - rank(sdp.full_space * sp.Matrix.hstack(*cols))))
    return obs


def primal_task(kind, si, m, seed):
    def body(run):
        cnt = itertools.count()
        run.oracle_args = [kind, si, m, seed]
        return primal_case(kind, si, m, seed, lambda: params(run, [f'x{next(cnt)}'])[0])
    return FnTask(f'primal {kind}[blocks {SIZES[si]}, {m} equations, {seed}]', body, 'primal', must_return=True, key=(TR, 'primal ' + kind))


@oracle
def primal(kind, si, m, seed):
    rng = random.Random(seed * 5 + 3)
    call = f'primal programme, {kind} on blocks {SIZES[si]}, {m} equations, seed {seed}'
    try:
        obs = primal_case(kind, si, m, seed, lambda: sp.Rational(rng.randint(-9, 9), rng.choice((1, 2))))
    except Exception as e:
        return {'call': call, 'raises': repr(e)[:300]}
    return evaluate(obs, call)


KINDS = ('null', 'col', 'both', 'mask', 'zero', 'sym', 'equal')


def cases(seed, count):
    rng = random.Random(seed)
    cs = [('lengths', [n]) for n in range(0, 200, 7)]
    for _ in range(count):
        cs.append(('dual', [rng.choice(KINDS), rng.randrange(len(SIZES)), rng.randint(1, 6), rng.randrange(10**6)]))
        cs.append(('chain', [rng.randrange(len(SIZES)), rng.randint(2, 6), rng.randrange(10**6)]))
        cs.append(('param', [rng.randrange(len(SIZES)), rng.randint(0, 3), rng.randint(0, 3), rng.randrange(10**6)]))
        cs.append(('decompose', [rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.sample(SHAPES, 3), rng.random() < .7, rng.randrange(10**6)]))
        cs.append(('primal', [rng.choice(('mask', 'null', 'sym', 'dual')), rng.randrange(len(SIZES)), rng.randint(1, 3), rng.randrange(10**6)]))
    rng.shuffle(cs)
    return [{'oracle': o, 'args': k} for o, k in cs]


def setup():
    fncheck.setup([TR, DU, PR, AB, UT, AR])()


def tasks(thorough):
    s = range(4 if thorough else 1)
    ts = [vec_task(n) for n in range(5)]
    ts += [dual_task(k, si, d, q) for k in KINDS for si in range(len(SIZES)) for d in (1, 3, 5) for q in s]
    ts += [affine_task(n, d, z, q) for n in (1, 2, 3) for d in (1, 3) for z in (1, 2) for q in s]
    ts += [chain_task(si, d, q) for si in range(len(SIZES)) for d in (3, 4) for q in range(12 if thorough else 5)]
    ts += [param_task(si, d, p, q) for si in range(len(SIZES)) for d in (0, 2) for p in (0, 1, 3) for q in s]
    ts += [decompose_task(r, c, nv, (a, b), 0) for r, c in ((1, 1), (2, 2)) for nv in (1, 2, 3) for a, b in zip(SHAPES, SHAPES[1:] + SHAPES[:1])]
    ts += [zero_diag_task(s_, p, nm) for nm, s_, p in ZD]
    ts += [primal_task(k, si, m, q) for k in ('mask', 'null', 'sym', 'dual') for si in range(len(SIZES)) for m in (1, 2) for q in s]
    return ts


def d03(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 45, cases(seed, 40 if not th else 1500), 20,
                  ['congruence decomposition by its contract (D01)', 'solve_undetermined_linear by its contract (D02): all solutions, or refused when there is none', f'block sizes {SIZES}; the directions of a programme are rational, its constant part, the points and affine maps are symbolic'], path_limit=15, case_limit=15)
