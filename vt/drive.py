"""What the numerical SDP solvers are given: objectives, constraints, eigenvalue bounds and scaling."""
import importlib, itertools, random, sys, types
import numpy
import sympy as sp
from . import fncheck
from .fncheck import FnTask
from .linalg import patched, nonzero, positive
from .oracles import oracle, Declined

BK = 'triples.sdp.backend.backend'
CA = 'triples.sdp.backend.caller'
CV = 'triples.sdp.backend.cvxopt_sdp'
PI = 'triples.sdp.backend.picos_sdp'
CL = 'triples.sdp.backend.clarabel_sdp'
SU = 'triples.sdp.utils'
PR = 'triples.sdp.primal'
DU = 'triples.sdp.dual'
AB = 'triples.sdp.abstract'
STD = {'>': '__ge__', '<': '__le__', '=': '__eq__', '==': '__eq__', '>=': '__ge__', '<=': '__le__', '__gt__': '__ge__', '__lt__': '__le__', '__ge__': '__ge__', '__le__': '__le__', '__eq__': '__eq__', '__leq__': '__le__', '__geq__': '__ge__'}


def mod(n):
    importlib.import_module('triples.core.sum_of_squares')
    return importlib.import_module(n)


def setup():
    fncheck.setup([BK, CA, CV, PI, SU])()


# ---------------------------------------------------------------- exact numbers in numpy arrays
class Arr(numpy.ndarray):
    """an array of exact numbers; the largest magnitude may be any number not less than 0"""
    def astype(self, *a, **k):
        return self.copy()

    def __abs__(self):
        return Magnitude(self)


class Magnitude:
    def __init__(self, x):
        self.x = x

    def max(self):
        from . import engine
        run = engine.RUN
        if run is None:
            return max(abs(v) for v in self.x.flatten())
        t = run.fresh('m')
        if run.decide(2, 'zero') == 0:
            positive(run, t)
            return t
        return sp.S(0)


class Numbers:
    """stands for a path: random numbers instead of symbols (variables of the programme stay symbols)"""
    def __init__(self, seed):
        self.r = random.Random(seed)

    def params(self, names):
        return [sp.Symbol(n) if n[0] in 'yrV' else sp.Rational(self.r.choice([0, 1, -1, 2, -3, 5, 4, -2]), self.r.choice([1, 1, 2])) for n in names]

    def fresh(self, n):
        return sp.Rational(self.r.randint(1, 9), 2)

    def decide(self, n, *a):
        return self.r.randrange(n)


def params(run, names):
    return run.params(names) if isinstance(run, Numbers) else fncheck.params(run, names)


def right(run, j, n):
    """right side of a constraint: any number, and 0 for some"""
    return sp.S(0) if n % 2 == 1 and j % 2 == 0 or n == 4 and j == 1 else params(run, [f'h{j}'])[0]


class NP:
    """numpy on exact numbers"""
    float64 = object

    def __getattr__(self, n):
        return getattr(numpy, n)

    def array(self, x, dtype=None):
        if isinstance(x, sp.MatrixBase):
            y = numpy.empty(x.shape, dtype=object)
            for i, j in itertools.product(range(x.rows), range(x.cols)):
                y[i, j] = x[i, j]
            return y.view(Arr)
        return numpy.array(x, dtype=object).view(Arr)

    def zeros(self, shape, dtype=None):
        x = numpy.empty(shape, dtype=object)
        x[...] = sp.S(0)
        return x.view(Arr)

    def eye(self, n):
        x = self.zeros((n, n))
        for i in range(n):
            x[i, i] = sp.S(1)
        return x

    def hstack(self, l):
        return numpy.hstack(list(l)).view(Arr)

    def vstack(self, l):
        return numpy.vstack(list(l)).view(Arr)

    def concatenate(self, l, axis=0):
        return numpy.concatenate(list(l), axis=axis).view(Arr)

    def split(self, x, at, axis=0):
        return [v.view(Arr) for v in numpy.split(x, at, axis=axis)]

    def sqrt(self, x):
        return numpy.sqrt(float(x))


def arr(x):
    return NP().array(x)


class _Float(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class ExactFloat(metaclass=_Float):
    def __new__(cls, x):
        return x


def exact(*ms):
    """context: exact arithmetic in these modules"""
    import contextlib
    st = contextlib.ExitStack()
    for m in ms:
        if hasattr(m, 'np'):
            st.enter_context(patched(m, np=NP()))
        if '_sx_float' in vars(m):
            st.enter_context(patched(m, _sx_float=lambda x: x))
        elif 'float' not in vars(m):
            m.float = ExactFloat
            st.callback(lambda m=m: vars(m).pop('float', None))
    return st


def symmetric_data(run, n, dof, tag):
    """(x0, space): symbolic symmetric matrices"""
    mats = [sp.zeros(n, n) for _ in range(dof + 1)]
    for q in range(dof + 1):
        for i in range(n):
            for j in range(i, n):
                mats[q][i, j] = mats[q][j, i] = params(run, [f'{tag}{q}_{i}{j}'])[0]
    return sp.Matrix(n * n, 1, list(mats[0])), sp.Matrix(n * n, dof, lambda i, q: mats[q + 1][i // n, i % n])


def bounds(run, form, keys):
    """eigenvalue bounds: (argument, {key: (k, b)})"""
    if form == 'zero':
        return 0, {k: (0, 0) for k in keys}
    if form == 'one':
        b = 2
        return b, {k: (0, b) for k in keys}
    if form == 'pair':
        k, b = params(run, ['ek', 'eb'])
        return (k, b), {q: (k, b) for q in keys}
    d = {}
    for i, q in enumerate(keys):
        d[q] = tuple(params(run, [f'ek{i}', f'eb{i}']))
    if form == 'numbers':
        d = {q: (0, i + 1) for i, q in enumerate(keys)}
        return {q: v[1] for q, v in d.items()}, d
    if form == 'some':
        return {keys[-1]: d[keys[-1]]}, {q: d[q] if q == keys[-1] else (0, 0) for q in keys}
    return dict(d), d


def rec_backend():
    B = mod(BK)

    class Rec(B.DualBackend):
        def __init__(self, dof):
            super().__init__(dof)
            self.lmis, self.obj = [], None

        def _add_linear_matrix_inequality(self, x0, extended_space):
            self.lmis.append((list(x0), extended_space))

        def _set_objective(self, objective):
            self.obj = list(objective)

        def solve(self, *a, **k):
            pass
    return Rec


def lmi_obligations(name, got, want, Y):
    """got = positive multiple of want: both lists of linear expressions"""
    obs = [('true', f'{name}: size', len(got) == len(want))]
    if not obs[0][2]:
        return obs
    s = None
    for g, w in zip(got, want):
        w, g = sp.expand(w), sp.expand(g)
        if s is None:
            for v in list(Y) + [sp.S(1)]:
                cw = w.coeff(v) if v != 1 else w.xreplace({y: sp.S(0) for y in Y})
                cg = g.coeff(v) if v != 1 else g.xreplace({y: sp.S(0) for y in Y})
                if cw != 0 and cw.is_Symbol:
                    s = sp.cancel(cg / cw)
                    break
                if cw != 0 and cw.is_number:
                    s = sp.cancel(cg / cw)
                    break
        if s is None:
            s = sp.S(1)
        obs.append(('eq', f'{name}: entry', g, s * w))
    if s is not None:
        obs.append(('sign', f'{name}: positive multiple', s, {1}))
    return obs


def linear(vec, Y):
    return sum((c * y for c, y in zip(vec, Y)), sp.S(0))


def want_lmi(x0, space, kb, y, r):
    n = int(round(space.rows**.5))
    k, b = kb
    return [x0[i] + linear(space.row(i), y) - ((k * r + b) if i % (n + 1) == 0 else 0) for i in range(n * n)]


def dual_task(form, sizes, dof, scaling, ops, lower, extended):
    """_create_numerical_dual_sdp: what the backend is given"""
    def body(run):
        B, C = mod(BK), mod(CA)
        keys = [f'S{i}' for i in range(len(sizes))]
        data = {k: symmetric_data(run, n, dof, f'd{i}q') for i, (k, n) in enumerate(zip(keys, sizes))}
        y, r = params(run, [f'y{i}' for i in range(dof)]), params(run, ['r'])[0]
        Y = list(y) + [r]
        me, want_me = bounds(run, form, keys)
        obj = params(run, [f'o{i}' for i in range(dof + extended)])
        cons = [(params(run, [f'c{j}_{i}' for i in range(dof + extended)]), right(run, j, len(ops)), op) for j, op in enumerate(ops)]
        lb = params(run, ['lb'])[0] if lower else None
        Rec = rec_backend()
        back = dict(C._DUAL_BACKENDS)
        with exact(B, C), patched(C, _DUAL_BACKENDS={**back, 'rec': Rec}):
            p = C._create_numerical_dual_sdp(dict(data), arr(obj), [(arr(c), h, op) for c, h, op in cons], me, lower_bound=lb, scaling=sp.Integer(scaling) if scaling else 0, solver='rec')
        lmis = [[x + linear(list(row), Y) for x, row in zip(x0, sp_)] for x0, sp_ in p.lmis]
        obs = []
        i = 0
        for k, n in zip(keys, sizes):
            if n == 0:
                continue
            if i >= len(lmis):
                return [('true', 'a matrix inequality is missing', False)]
            obs += lmi_obligations(f'matrix {k}', lmis[i], want_lmi(*data[k], want_me[k], y, r), Y)
            i += 1
        want = []
        for c, h, op in cons + ([(obj, lb, '>=')] if lower else []):
            e = linear(c, Y) - h
            want += [[e]] if STD[op] == '__ge__' else [[-e]] if STD[op] == '__le__' else [[e], [-e]]
        want.append([r])
        rest = [e for e in lmis[i:]]
        obs.append(('true', 'number of linear inequalities', len(rest) == len(want)))
        for w in want:      # in any order
            j = next((j for j, g in enumerate(rest) if len(g) == 1 and sp.expand(g[0] - w[0]) == 0), None)
            obs.append(('true', f'linear inequality {w[0]} >= 0', j is not None))
            if j is not None:
                rest.pop(j)
        obs.append(('eq', 'objective', linear(p.obj, Y), linear(obj, Y)))
        return obs
    return FnTask(f'_create_numerical_dual_sdp[bounds {form}, sizes {sizes}, {dof} variables, scaling {scaling}, {"".join(ops) or "no constraints"}{", lower bound" if lower else ""}{", with r" if extended else ""}]', body, None, must_return=True, key=(CA, '_create_numerical_dual_sdp'))


# ---------------------------------------------------------------- solvers replaced by recorders
class FakeCvxopt(types.ModuleType):
    def __init__(self, answer):
        super().__init__('cvxopt')
        self.log = []
        fake = self

        class M:
            def __init__(self, x):
                self.x = numpy.array(x, dtype=object)
        self.matrix = M

        class solvers:
            options = {}

            @staticmethod
            def sdp(c, Gs=None, hs=None, **kw):
                fake.log.append((c.x, [g.x for g in Gs], [h.x for h in hs], kw))
                return {'x': answer, 'status': 'optimal'}
        self.solvers = solvers


def cvxopt_task(sizes, dof):
    def body(run):
        B, V = mod(BK), mod(CV)
        y, r = params(run, [f'y{i}' for i in range(dof)]), params(run, ['r'])[0]
        Y = list(y) + [r]
        data = [symmetric_data(run, n, dof + 1, f'd{i}q') for i, n in enumerate(sizes)]
        obj = params(run, [f'o{i}' for i in range(dof + 1)])
        fake = FakeCvxopt(Y)
        old = sys.modules.get('cvxopt')
        sys.modules['cvxopt'] = fake
        try:
            with exact(B, V):
                p = V.DualBackendCVXOPT(dof)
                p.set_objective(arr(obj))
                for x0, s in data:
                    p.add_linear_matrix_inequality(arr(x0), arr(s))
                got = p.solve()
        finally:
            if old is None:
                del sys.modules['cvxopt']
            else:
                sys.modules['cvxopt'] = old
        c, Gs, hs, kw = fake.log[-1]
        obs = [('true', 'solved once', len(fake.log) == 1), ('true', 'sizes', len(Gs) == len(hs) == len(sizes)), ('eq', 'objective', linear(list(c.flatten()), Y), linear(obj, Y)),
               ('true', 'the answer without the relaxation variable', list(got) == list(y))]
        for (x0, s), G, h, n in zip(data, Gs, hs, sizes):
            obs.append(('true', 'shape', h.shape == (n, n) and G.shape == (n * n, dof + 1)))
            for i, j in itertools.product(range(n), range(n)):
                # column-major vectors, slack = h - G x
                obs.append(('eq', 'slack of the solver', h[i, j] - linear(list(G[j * n + i]), Y), x0[i * n + j] + linear(s.row(i * n + j), Y)))
        return obs
    return FnTask(f'DualBackendCVXOPT[sizes {sizes}, {dof} variables]', body, None, must_return=True, key=(CV, 'DualBackendCVXOPT'))


class Aff:
    """affine expressions of picos: a column of exact expressions"""
    __array_ufunc__ = None

    def __init__(self, es, shape=None):
        self.es, self.shape = [sp.sympify(e) for e in es], shape

    @staticmethod
    def of(o, n):
        if isinstance(o, Aff):
            return o.es
        if isinstance(o, numpy.ndarray):
            return [sp.sympify(x) for x in o.flatten()]
        return [sp.sympify(o)] * n

    def __add__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        q = Aff.of(o, len(self.es))
        if len(q) != len(self.es):
            raise TypeError('shapes do not match')
        return Aff([u + v for u, v in zip(self.es, q)])
    __radd__ = __add__

    def __sub__(self, o):
        return self + Aff([-v for v in Aff.of(o, len(self.es))])

    def __neg__(self):
        return Aff([-v for v in self.es])

    def __rmul__(self, o):
        if isinstance(o, numpy.ndarray):
            rows = o.reshape((1, -1)) if o.ndim == 1 else o
            if rows.shape[1] != len(self.es):
                raise TypeError('shapes do not match')
            return Aff([linear(list(row), self.es) for row in rows])
        return Aff([o * v for v in self.es])

    def rel(self, op, o):
        q = Aff.of(o, len(self.es))
        if len(q) != len(self.es):
            raise TypeError('shapes do not match')
        return (op, [u - v for u, v in zip(self.es, q)])

    def __eq__(self, o):
        return self.rel('__eq__', o)

    def __le__(self, o):
        return self.rel('__le__', o)

    def __ge__(self, o):
        return self.rel('__ge__', o)
    __hash__ = None


class FakePicos(types.ModuleType):
    def __init__(self, run):
        super().__init__('picos')
        fake = self
        self.problems, self.vars = [], []

        class Sym(Aff):
            def __init__(self, name, shape):
                n = int(round(shape[0]))
                m = sp.zeros(n, n)
                for i in range(n):
                    for j in range(i, n):
                        m[i, j] = m[j, i] = params(run, [f'V{len(fake.vars)}_{i}{j}'])[0]
                Aff.__init__(self, list(m), (n, n))
                self.m, self.value = m, arr(m)
                fake.vars.append(self)

            @property
            def vec(self):
                return Aff(self.es)

            def __rshift__(self, o):
                assert o == 0
                return ('psd', self)

        class Real(Aff):
            def __init__(self, name, shape=1):
                n = int(shape)
                Aff.__init__(self, params(run, [f'V{len(fake.vars)}_{i}' for i in range(n)]))
                self.value = arr(self.es)
                fake.vars.append(self)

            @property
            def vec(self):
                return self

        class Problem:
            def __init__(self):
                self.cons, self.obj = [], None
                fake.problems.append(self)

            def add_constraint(self, c):
                self.cons.append(c)

            def set_objective(self, sense, e):
                self.obj = (sense, e)

            def solve(self, **k):
                return 'solved'
        self.SymmetricVariable, self.RealVariable, self.Problem = Sym, Real, Problem
        self.sum = lambda l: __import__('functools').reduce(lambda u, v: u + v, l)


class faked:
    def __init__(self, name, m):
        self.name, self.m = name, m

    def __enter__(self):
        self.old = sys.modules.get(self.name)
        sys.modules[self.name] = self.m
        return self.m

    def __exit__(self, *a):
        if self.old is None:
            del sys.modules[self.name]
        else:
            sys.modules[self.name] = self.old


def picos_dual_task(sizes, dof, ops):
    def body(run):
        B, V = mod(BK), mod(PI)
        data = [symmetric_data(run, n, dof + 1, f'd{i}q') for i, n in enumerate(sizes)]
        obj = params(run, [f'o{i}' for i in range(dof + 1)])
        cons = [(params(run, [f'c{j}_{i}' for i in range(dof + 1)]), right(run, j, len(ops)), op) for j, op in enumerate(ops)]
        with faked('picos', FakePicos(run)) as P, exact(B, V):
            p = V.DualBackendPICOS(dof)
            for x0, s in data:
                p.add_linear_matrix_inequality(arr(x0), arr(s))
            p.set_objective(arr(obj))
            for c, h, op in cons:
                p.add_constraint(arr(c), h, op)
            got = p.solve()
        Y = P.vars[0].es
        cs = P.problems[0].cons
        obs = [('true', 'one problem', len(P.problems) == 1), ('true', 'minimise', P.problems[0].obj[0] == 'min'), ('eq', 'objective', P.problems[0].obj[1].es[0], linear(obj, Y)),
               ('true', 'the answer without the relaxation variable', list(got) == list(Y[:-1]))]
        psd = [c[1] for c in cs if c[0] == 'psd']
        eqs = [c[1] for c in cs if c[0] == '__eq__']
        obs.append(('true', 'a matrix for each inequality', len(psd) == len(sizes)))
        for V_, (x0, s), n in zip(psd, data, sizes):
            e = next((e for e in eqs if any(v in sp.sympify(sum(e)).free_symbols for v in V_.es)), None)
            if e is None or len(e) != n * n:
                obs.append(('true', 'the matrix is tied to the variables', False))
                continue
            eqs.remove(e)
            obs += [('eq', 'matrix entry', V_.es[i] - e[i], x0[i] + linear(s.row(i), Y)) for i in range(n * n)]
        got = [(c[0], x) for c in cs if c[0] in ('__le__', '__ge__') for x in c[1]] + [('__eq__', x) for e in eqs for x in e]
        obs.append(('true', 'number of constraints', len(got) == len(cons)))
        for c, h, op in cons:
            e = linear(c, Y) - h
            ok = any((o == STD[op] and sp.expand(x - e) == 0) or (o == {'__le__': '__ge__', '__ge__': '__le__', '__eq__': '__eq__'}[STD[op]] and sp.expand(x + e) == 0) for o, x in got)
            obs.append(('true', f'constraint {op}', ok))
        return obs
    return FnTask(f'DualBackendPICOS[sizes {sizes}, {dof} variables, {"".join(ops)}]', body, None, must_return=True, key=(PI, 'DualBackendPICOS'))


def primal_task(form, sizes, rows, scaling, ops, extended):
    """_create_numerical_primal_sdp with the picos backend, in terms of S = S' + (k r + b) I"""
    def body(run):
        B, C, V = mod(BK), mod(CA), mod(PI)
        keys = [f'S{i}' for i in range(len(sizes))]
        dof = sum(n * n for n in sizes)
        space = {k: sp.Matrix(rows, n * n, lambda i, j: params(run, [f'a{q}_{i}_{j}'])[0]) for q, (k, n) in enumerate(zip(keys, sizes))}
        x0 = sp.Matrix(params(run, [f'x{i}' for i in range(rows)]))
        me, want_me = bounds(run, form, keys)
        obj = params(run, [f'o{i}' for i in range(dof + extended)])
        cons = [(params(run, [f'c{j}_{i}' for i in range(dof + extended)]), right(run, j, len(ops)), op) for j, op in enumerate(ops)]
        with faked('picos', FakePicos(run)) as P, exact(B, C, V):
            p = C._create_numerical_primal_sdp(dict(space), x0, arr(obj), [(arr(c), h, op) for c, h, op in cons], me, scaling=sp.Integer(scaling) if scaling else 0, solver='picos')
            got = p.solve()
        cs = P.problems[0].cons
        psd = [c[1] for c in cs if c[0] == 'psd']
        real = [v for v in P.vars if not any(v is q for q in psd)]
        obs = [('true', 'a matrix for each key', [q.m.rows for q in psd] == list(sizes)), ('true', 'one relaxation variable', len(real) == 1 and len(real[0].es) == 1), ('true', 'minimise', P.problems[0].obj[0] == 'min')]
        if not all(o[2] for o in obs):
            return obs
        r = real[0].es[0]
        S = []
        for q, n, k in zip(psd, sizes, keys):
            kk, b = want_me[k]
            S += [q.es[i] + ((kk * r + b) if i % (n + 1) == 0 else 0) for i in range(n * n)]
        obs.append(('true', 'length of the answer', len(got) == dof))
        obs += [('eq', 'the answer is S', g, s) for g, s in zip(got, S)]
        Y = S + [r]
        full = sp.Matrix.hstack(*space.values())
        eqs = [x for c in cs if c[0] == '__eq__' for x in c[1]]
        ins = [x if c[0] == '__le__' else -x for c in cs if c[0] in ('__le__', '__ge__') for x in c[1]]
        nocons = [(linear(c, Y) - h, STD[op]) for c, h, op in cons]
        obs.append(('true', 'number of equations', len(eqs) == rows + sum(op == '__eq__' for _, op in nocons)))
        obs.append(('true', 'number of inequalities', len(ins) == 1 + sum(op != '__eq__' for _, op in nocons)))
        for i in range(rows):
            if i < len(eqs):
                vs = [v for q in psd for v in dict.fromkeys(q.es)] + [r]
                obs += multiple(eqs[i], linear(full.row(i), S) - x0[i], vs)
        for e, op in nocons:
            ok = any(sp.expand(x - e) == 0 or sp.expand(x + e) == 0 for x in eqs[rows:]) if op == '__eq__' else any(sp.expand(x - (e if op == '__le__' else -e)) == 0 for x in ins)
            obs.append(('true', f'constraint {op}', ok))
        obs.append(('true', 'the relaxation variable is not negative', any(sp.expand(x + r) == 0 for x in ins)))
        diff = sp.expand(P.problems[0].obj[1].es[0] - linear(obj, Y))
        obs.append(('true', 'the objective up to a constant', not diff.free_symbols & ({v for q in psd for v in q.es} | {r})))
        return obs
    return FnTask(f'_create_numerical_primal_sdp[bounds {form}, sizes {sizes}, {rows} equations, scaling {scaling}, {"".join(ops) or "no constraints"}{", with r" if extended else ""}]', body, None, must_return=True, key=(CA, '_create_numerical_primal_sdp'))


def multiple(g, w, vs):
    """g = s*w with s != 0, both affine in vs"""
    g, w = sp.expand(g), sp.expand(w)
    s = None
    for v in vs:
        cw = w.coeff(v)
        if cw.is_Symbol or cw.is_number and cw != 0:
            s = sp.cancel(g.coeff(v) / cw)
            break
    if s is None:
        zero = {v: sp.S(0) for v in vs}
        cw = w.xreplace(zero)
        s = sp.cancel(g.xreplace(zero) / cw) if cw.is_number and cw != 0 else sp.S(1)
    return [('eq', 'equation', g, s * w), ('sign', 'equation times a nonzero number', s, {1, -1})]


# ---------------------------------------------------------------- expressions
def exprs_task(kind, dof, forms):
    def body(run):
        U = mod(SU)
        ys = sp.symbols(f'y0:{dof}')
        es, want = [], []
        for j, f in enumerate(forms):
            cs, ds = params(run, [f'k{j}_{i}' for i in range(dof + 1)]), params(run, [f'l{j}_{i}' for i in range(dof + 1)])
            l, r_ = linear(cs, list(ys) + [1]), linear(ds, list(ys) + [1])
            h = params(run, [f'h{j}'])[0]
            rel = {'<=': sp.Le, '<': sp.Lt, '>=': sp.Ge, '>': sp.Gt, '==': sp.Eq}
            if f in rel:
                e = rel[f](l, r_, evaluate=False)
                want.append((l - r_, STD[f]))
            elif f == 'expr':
                e = l
                want.append((l, None))
            elif f[0] == '(':
                e = (l, h, f[1:-1]) if f != '()' else (l, h)
                want.append((l - h, STD[f[1:-1]] if f != '()' else None))
            elif f == 'array':
                e = sp.Matrix([cs[:-1]])
                want.append((linear(cs[:-1], ys), None))
            elif f == 'array<=':
                e = (sp.Matrix([cs[:-1]]), h, '<=')
                want.append((linear(cs[:-1], ys) - h, '__le__'))
            elif f == 'number':
                e = 3
                want.append((sp.S(3), None))
            es.append((lambda loc, e=e: e) if kind == 'callable' else e)
        out = U.exprs_to_arrays({}, list(ys), es)
        obs = [('true', 'one for each', len(out) == len(es))]
        flip = {'__le__': '__ge__', '__ge__': '__le__', '__eq__': '__eq__'}
        for o, (e, op) in zip(out, want):
            if len(o) != (2 if op is None else 3):
                obs.append(('true', 'an operator exactly for constraints', False))
                continue
            got = linear(list(o[0]), ys) - o[1]
            if op is not None and STD.get(o[2]) == flip[op] and op != '__eq__':
                got = -got
            elif op is not None:
                obs.append(('true', 'operator', STD.get(o[2]) == op))
            obs.append(('eq', 'expression', got, e))
        return obs
    return FnTask(f'exprs_to_arrays[{kind}, {dof} variables, {forms}]', body, None, must_return=True, key=(SU, 'exprs_to_arrays'))


def objective_task(fn, n, dof):
    def body(run):
        B = mod(BK)
        S = sp.Matrix(n * n, dof, lambda i, j: params(run, [f's{i}_{j}'])[0])
        T = sp.Matrix(n, n, lambda i, j: params(run, [f't{i}_{j}'])[0])
        num = 3
        y = params(run, [f'y{i}' for i in range(dof)])
        with patched(B, np=NP()):
            if fn == 'max_relax_var_objective':
                v = list(B.max_relax_var_objective(dof))
                return [('true', 'length', len(v) == dof + 1), ('eq', 'minus the relaxation variable', linear(v, list(y) + [y[0] + 1]), -(y[0] + 1))]
            if 'trace' in fn:
                v = getattr(B, fn)(arr(S))
                want = sum(linear(S.row(i), y) for i in range(0, n * n, n + 1))
            else:
                v = getattr(B, fn)(arr(S), arr(T) if fn.endswith('objective') else None)
                want = sum(linear(S.row(i), y) * T[i // n, i % n] for i in range(n * n))
        return [('eq', 'value', linear(list(v), y), want if fn.startswith('min') else -want), ('true', 'length', len(list(v)) == dof)]
    return FnTask(f'{fn}[{n}x{n}, {dof} variables]', body, None, must_return=True, key=(BK, fn))


# ---------------------------------------------------------------- bounded: the installed solvers
def random_programme(r, n, dof):
    """symmetric integer matrices C + sum y_i A_i, feasible with some room and bounded"""
    C = numpy.zeros((n, n))
    A = []
    for _ in range(dof):
        m = numpy.array([[r.randint(-3, 3) for _ in range(n)] for _ in range(n)])
        A.append(m + m.T)
    y0 = [r.randint(-2, 2) for _ in range(dof)]
    C = sp.eye(n) * r.randint(3, 6) - sum((y0[i] * sp.Matrix(n, n, lambda p, q: int(A[i][p, q])) for i in range(dof)), sp.zeros(n, n))
    return C, [sp.Matrix(n, n, lambda p, q: int(a[p, q])) for a in A], y0


@oracle
def sdp_programme(seed, n, dof, k):
    """the numerical answer for a programme with constraints and bounds satisfies them, and two solvers agree on the optimum"""
    m = mod(DU)
    r = random.Random(seed)
    C, A, y0 = random_programme(r, n, dof)
    ys = sp.symbols(f'y0:{dof}')
    S = C + sum((ys[i] * A[i] for i in range(dof)), sp.zeros(n, n))
    box = [sp.Le(v, c + 4) for v, c in zip(ys, y0)] + [sp.Ge(v, c - 4) for v, c in zip(ys, y0)]
    obj = sum(r.randint(-3, 3) * v for v in ys) + r.randint(-2, 2)
    g = sum(r.randint(-2, 2) * v for v in ys)
    g0 = g.subs(dict(zip(ys, y0))) if g != 0 else 0
    extra = {0: [], 1: [sp.Le(g, g0 + 1)], 2: [sp.Ge(g - 3, g0 - 3)], 3: [sp.Eq(g, g0)], 4: [(g + 2, g0 + 3, '<=')], 5: [sp.Lt(g0, g + 1)]}[k] if g != 0 else []
    lo = r.choice([0, 1, {'S_0': 1}, {'S_0': (0, 1)}, (0, 1), 0.5])
    b = {0: 0, 1: 1}.get(lo, 1) if isinstance(lo, int) else 0.5 if isinstance(lo, float) else 1
    free = sorted(S.free_symbols, key=lambda v: v.name)
    if free != list(ys):
        raise Declined('a variable is missing')
    ans = {}
    for solver in ('cvxopt', 'picos'):
        p = m.SDPProblem.from_matrix(S)
        call = f'SDPProblem.from_matrix({S.tolist()}).solve(objective={obj}, constraints={extra} and a box, min_eigen={lo}, solver={solver}, allow_numer=3)'
        try:
            ok = p.solve(objective=obj, constraints=box + extra, min_eigen=lo, solver=solver, allow_numer=3)
        except Exception as e:
            return {'call': call, 'raises': repr(e)[:200]}
        if not ok:
            raise Declined('the solver gives up')    # floating-point solvers may: r is unbounded above
        v = {q: float(t) for q, t in zip(p.free_symbols, p.y)}
        low = float(min(numpy.linalg.eigvalsh(numpy.array(S.subs(v)).astype(float))))
        if low < b - 1e-3:
            return {'call': call, 'returns': v, 'least eigenvalue': low, 'bound': b}
        for c in box + extra:
            if isinstance(c, tuple):
                c = sp.Le(c[0], c[1])
            d = float((c.lhs - c.rhs).subs(v))
            bad = abs(d) if isinstance(c, sp.Eq) else d if isinstance(c, (sp.Le, sp.Lt)) else -d
            if bad > 1e-3:
                return {'call': call, 'returns': v, 'constraint': str(c), 'off by': bad}
        ans[solver] = float(sp.sympify(obj).subs(v))
    if abs(ans['cvxopt'] - ans['picos']) > 1e-2 * (1 + abs(ans['picos'])):
        return {'call': call, 'optima': ans}


@oracle
def primal_programme(seed, sizes, rows, lo):
    """a primal programme: the answer satisfies equations, constraints and bounds; the default solver is one that is installed"""
    m, K = mod(PR), mod(CA)
    r = random.Random(seed)
    keys = [f'S{i}' for i in range(len(sizes))]
    mats = {}
    for k, n in zip(keys, sizes):
        g = sp.Matrix(n, n, lambda i, j: r.randint(-1, 1))
        mats[k] = g * g.T + 2 * sp.eye(n)
    full = sp.Matrix([e for k in keys for e in mats[k]])
    N = full.rows
    sp_ = {}
    for k, n in zip(keys, sizes):
        blocks = []
        for i in range(rows):
            t = sp.Matrix(n, n, lambda p, q: r.randint(-2, 2))
            t = sp.eye(n) if i == 0 else t + t.T
            blocks.append(list(t))
        sp_[k] = sp.Matrix(blocks)
    A = sp.Matrix.hstack(*[sp_[k] for k in keys])
    x0 = A * full
    obj = numpy.zeros(N)
    obj[0] = 1
    con = numpy.zeros(N)
    con[0] = 1
    h = float(full[0]) + r.choice([-.5, .5])
    bound = 1 if lo else 0
    for op in ('<=', '>='):
        p = m.SDPPrimal(x0, {k: v for k, v in sp_.items()})
        call = f'SDPPrimal({list(x0)}, {({k: v.tolist() for k, v in sp_.items()})}).solve(S00 {op} {h}, min_eigen={lo}, allow_numer=3)'
        hh = float(full[0]) + (.5 if op == '<=' else -.5)
        try:
            ok = p.solve(objective=obj * (-1 if op == '<=' else 1), constraints=[(con, hh, op)], min_eigen=lo, allow_numer=3)
        except Exception as e:
            return {'call': call, 'raises': repr(e)[:200]}
        if not ok:
            raise Declined('the solver gives up')
        S = {k: numpy.array(p.S[k]).astype(float) for k in keys}
        y = numpy.concatenate([S[k].flatten() for k in keys])
        e = numpy.abs(numpy.array(A).astype(float) @ y - numpy.array(x0).astype(float).flatten()).max()
        low = min(float(min(numpy.linalg.eigvalsh(v))) for v in S.values())
        if e > 1e-3 or low < bound - 1e-3:
            return {'call': call, 'equations off by': float(e), 'least eigenvalue': low}
        if (y[0] - hh) * (1 if op == '<=' else -1) > 1e-3:
            return {'call': call, 'S00': float(y[0]), 'bound': hh}


@oracle
def isometric(seed, n, which):
    """conversion to and from the vectors of the upper triangle keeps inner products (clarabel, mosek: pure numpy parts)"""
    import importlib as il
    r = random.Random(seed)
    B = mod(CL) if which == 'clarabel' else mod('triples.sdp.backend.mosek_sdp')
    D = getattr(B, 'DualBackend' + which.upper())
    P = getattr(B, 'PrimalBackend' + which.upper())
    sym = lambda: (lambda m: m + m.T)(numpy.array([[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]))
    U, V = sym(), sym()
    u = D._convert_space_to_isometric(U.reshape((-1, 1))).flatten()
    v = P._convert_space_to_isometric(V.reshape((1, -1))).flatten()
    if abs(u @ v - (U * V).sum()) > 1e-9:
        return {'call': f'{which}: inner product of the vectors of {U.tolist()} and {V.tolist()}', 'returns': float(u @ v), 'expected': float((U * V).sum())}
    W = P._convert_vec_to_matrix(v)
    if abs(W - V).max() > 1e-9:
        return {'call': f'{which}: _convert_vec_to_matrix of the vector of {V.tolist()}', 'returns': W.tolist()}


BY_NAME = {}


@oracle
def handed(name, seed):
    """the contract of a task evaluated on random numbers, on the unmodified code"""
    if not BY_NAME:
        BY_NAME.update((t.name, t) for t in tasks(True))
    if name not in BY_NAME:
        raise Declined('no such task')
    run = Numbers(seed)
    log = []
    p0 = run.params
    run.params = lambda ns: [log.append((n, v)) or v for n, v in zip(ns, p0(ns))]
    data = lambda: {n: str(v) for n, v in log if v.is_number}
    try:
        obs = BY_NAME[name].body(run)
    except Exception as e:
        return {'call': name, 'data': data(), 'raises': repr(e)[:300]}
    for ob in obs:
        if ob[0] == 'true' and not ob[2] or ob[0] == 'eq' and sp.expand(ob[2] - ob[3]) != 0 or ob[0] == 'sign' and sp.sign(ob[2]) not in ob[3]:
            return {'call': name, 'data': data(), 'fails': ob[1], 'values': str(ob[2:])[:300]}


@oracle
def available():
    """a backend says it is available only when its package can be imported, and the default one is available"""
    C = mod(CA)
    need = {'clarabel': 'clarabel', 'cvxopt': 'cvxopt', 'cvxpy': 'cvxpy', 'mosek': 'mosek', 'picos': 'picos', 'sdpa': 'sdpap', 'sdpap': 'sdpap'}
    for dual, table in ((True, C._DUAL_BACKENDS), (False, C._PRIMAL_BACKENDS)):
        have = []
        for k, cls in table.items():
            try:
                importlib.import_module(need[k])
                there = True
            except ImportError:
                there = False
            except KeyError:
                continue
            if cls.is_available() and not there:
                return {'call': f'{cls.__name__}.is_available()', 'returns': True, 'but': f'{need[k]} is not installed'}
            have += [k] * bool(cls.is_available())
        d = C.get_default_sdp_backend(dual=dual)
        if have and d not in have:
            return {'call': f'get_default_sdp_backend(dual={dual})', 'returns': d, 'available': have}


def tasks(th):
    ts = []
    forms = ['zero', 'one', 'pair', 'dict', 'numbers', 'some']
    opss = [(), ('<=',), ('>=', '=='), ('<', '>', '='), ('__le__', '__eq__'), ('__geq__', '__leq__', '__gt__', '__lt__')]
    for i, (form, sizes, dof) in enumerate(itertools.product(forms, [(1,), (2,), (2, 1), (0, 2), (3,), (1, 2, 1)], [1, 2, 3])):
        ts.append(dual_task(form, sizes, dof, 0 if len(sizes) > 2 and dof > 1 and not th else (6, 0)[i % 2], opss[i % 6], i % 3 == 0, i % 4 == 1))
        if th:
            ts.append(dual_task(form, sizes, dof, (0, 6)[i % 2], opss[(i + 2) % 6], i % 3 == 1, i % 4 == 2))
    for sizes in [(1,), (2,), (3,), (2, 1), (1, 3), (2, 2, 1)]:
        for dof in (1, 2, 3):
            ts.append(cvxopt_task(sizes, dof))
            for ops in opss[:4]:
                ts.append(picos_dual_task(sizes, dof, ops))
    for i, (form, sizes, rows) in enumerate(itertools.product(forms, [(1,), (2,), (2, 1), (3,), (1, 2)], [1, 2])):
        for q in range(3 if th else 1):
            ts.append(primal_task(form, sizes, rows, (6, 0)[(i + q) % 2], opss[(i + q) % 6], (i + q) % 4 == 1))
    rels = ['<=', '<', '>=', '>', '==', 'expr', '(<=)', '(==)', '(>)', '()', 'array', 'array<=', 'number']
    for kind in ('plain', 'callable'):
        for dof in (1, 2, 3):
            ts += [exprs_task(kind, dof, (f,)) for f in rels]
            ts += [exprs_task(kind, dof, fs) for fs in [('<=', 'expr', '>'), ('array<=', '==', '>='), ('expr', '(<=)', 'array', '<'), ('number', '()', '>=', '(==)')]]
    for fn in ('min_trace_objective', 'max_trace_objective', 'min_inner_objective', 'max_inner_objective', 'max_relax_var_objective'):
        ts += [objective_task(fn, n, dof) for n in (1, 2, 3) for dof in (1, 2)]
    return ts


def cases(seed, count):
    r = random.Random(seed)
    cs = [{'oracle': 'available', 'args': []}]
    names = [t.name for t in tasks(False)]
    cs += [{'oracle': 'handed', 'args': [n, r.randint(0, 10**9)]} for n in names if '(1, 2, 1)' not in n or r.random() < .3]
    for i in range(count):
        cs.append({'oracle': 'sdp_programme', 'args': [r.randint(0, 10**9), r.choice([2, 3]), r.choice([1, 2, 3]), i % 6]})
        if i % 2 == 0:
            cs.append({'oracle': 'primal_programme', 'args': [r.randint(0, 10**9), r.choice([[2], [2, 1], [3], [1, 2]]), r.choice([1, 2]), r.choice([0, 1, 1])]})
        if i % 4 == 0:
            cs.append({'oracle': 'isometric', 'args': [r.randint(0, 10**9), r.randint(1, 5), r.choice(['clarabel', 'mosek'])]})
    return cs


def d05(rep, tier, seed):
    th = tier != 'quick'
    fncheck.check(rep, tier, seed, tasks(th), setup, 60, cases(seed, 80 if not th else 1500), 30,
                  ['conversion of exact numbers to floats is exact (numpy arrays hold exact numbers)', 'cvxopt: slack h - G x in the cone of semidefinite matrices, vectors by columns; picos: recorded relations', 'the largest magnitude of the data: any number not less than 0',
                   'solvers that are not installed (mosek, clarabel, cvxpy, sdpap): only their conversions, bounded'], path_limit=20, case_limit=25)
