"""AST instrumentation of the real source files of /repo, done afresh on every run.

The transformation is purely mechanical.  It keeps every statement and expression of the file and
only replaces *decision points* by hook calls, so that a symbolic value can take both sides:

    x < y, x == y, ...       ->  _sx_cmp('lt', x, y)      (chains become conjunctions)
    if / while / ifexp / and / or / not / comprehension-if / assert   ->  _sx_truth(...)
    isinstance(x, T)         ->  _sx_isinstance(x, T)
    any(..), all(..), bool(x), filter, min, max  ->  the same function with _sx_truth / _sx_cmp inside
    float(x), int(x), complex(x), round(x)  ->  _sx_float(x), ...
    x // y                                   ->  _sx_floordiv(x, y)
    x.is_Rational, x.is_rational, p.degree, p.LC, x.is_real ...  ->  _sx_attr(x, 'is_Rational')
    f(...)  for names in CALL_HOOKS          -> unchanged (stubs are installed in the namespace)

What it drops: nothing.  Type annotations, decorators and docstrings are kept.
"""
import ast, sys, os, importlib.abc, importlib.util, importlib.machinery

REPO = os.environ.get('VT_REPO', '/repo')
_OPS = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}
_ATTRS = {'free_symbols', 'is_Rational', 'is_rational', 'is_real', 'is_Float', 'is_Integer', 'is_integer', 'is_zero',
          'is_positive', 'is_negative', 'is_nonnegative', 'is_nonpositive', 'is_finite', 'is_number',
          'is_Numerical', 'is_QQ', 'is_ZZ', 'is_Exact', 'degree', 'LC', 'total_degree', 'homogenize', 'as_poly', 'is_homogeneous', 'coeff_monomial', 'div', 'quo', 'rem',
          'terms', 'monoms', 'all_coeffs', 'is_monomial', 'exquo', 'pdiv', 'as_dict', 'LM', 'rep', 'coeffs', 'numerator', 'denominator'}
_BUILTINS = {'float': '_sx_float', 'int': '_sx_int', 'complex': '_sx_float', 'round': '_sx_round',
             'isinstance': '_sx_isinstance', 'any': '_sx_any', 'all': '_sx_all', 'bool': '_sx_truth',
             'filter': '_sx_filter', 'max': '_sx_max', 'min': '_sx_min', 'abs': 'abs'}


def _has_scope_stuff(node):
    return any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node))


class Instr(ast.NodeTransformer):
    def __init__(self, skip_funcs=(), loop_hook=None):
        self.skip = set(skip_funcs)
        self.depth = []

    def visit_FunctionDef(self, node):
        if node.name in self.skip:
            return node
        self.depth.append(node.name)
        # do not touch annotations/decorators/defaults
        node.body = [self.visit(s) for s in node.body]
        self.depth.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def _call(self, fn, *args):
        return ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])

    def _thunk(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def truth(self, e):
        return ast.copy_location(self._call('_sx_truth', e), e)

    def visit_Compare(self, node):
        if _has_scope_stuff(node):
            return self.generic_visit(node)
        ops = node.ops
        if not all(type(o) in _OPS for o in ops):
            return self.generic_visit(node)
        left = self.visit(node.left)
        comps = [self.visit(c) for c in node.comparators]
        if len(ops) == 1:
            r = self._call('_sx_cmp', ast.Constant(_OPS[type(ops[0])]), left, comps[0])
        else:
            r = self._call('_sx_chain', ast.Tuple([ast.Constant(_OPS[type(o)]) for o in ops], ast.Load()),
                           *[self._thunk(x) for x in [left] + comps])
        return ast.copy_location(r, node)

    def visit_BoolOp(self, node):
        if _has_scope_stuff(node):
            return self.generic_visit(node)
        vals = [self.visit(v) for v in node.values]
        fn = '_sx_and' if isinstance(node.op, ast.And) else '_sx_or'
        return ast.copy_location(self._call(fn, *[self._thunk(v) for v in vals]), node)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            node.operand = self.truth(node.operand)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self.truth(node.test)
        return node
    visit_While = visit_If
    visit_IfExp = visit_If
    visit_Assert = visit_If

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.ifs = [self.truth(i) for i in node.ifs]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _BUILTINS:
            node.func = ast.copy_location(ast.Name(id=_BUILTINS[node.func.id], ctx=ast.Load()), node.func)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.FloorDiv):
            return ast.copy_location(self._call('_sx_floordiv', node.left, node.right), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in _ATTRS:
            return ast.copy_location(self._call('_sx_attr', node.value, ast.Constant(node.attr)), node)
        return node


def transform(src, filename, skip=()):
    tree = ast.parse(src, filename)
    tree = Instr(skip).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    """Serve instrumented versions of the selected modules; everything else loads normally."""
    def __init__(self, hooks, select, skips):
        self.hooks, self.select, self.skips = hooks, select, skips
        self.loaded = {}

    def find_spec(self, name, path, target=None):
        if not name.startswith('triples') or not self.select(name):
            return None
        rel = name.replace('.', '/')
        for fn, pkg in ((rel + '/__init__.py', True), (rel + '.py', False)):
            full = os.path.join(REPO, fn)
            if os.path.exists(full):
                loader = Loader(self, name, full)
                return importlib.util.spec_from_file_location(
                    name, full, loader=loader,
                    submodule_search_locations=[os.path.dirname(full)] if pkg else None)
        return None


class Loader(importlib.abc.Loader):
    def __init__(self, finder, name, path):
        self.finder, self.name, self.path = finder, name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = open(self.path, encoding='utf-8').read()
        code = transform(src, self.path, self.finder.skips.get(self.name, ()))
        module.__dict__.update(self.finder.hooks)
        self.finder.loaded[self.name] = self.path
        exec(code, module.__dict__)


def install(hooks, select, skips=None):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    f = Finder(hooks, select, skips or {})
    sys.meta_path.insert(0, f)
    return f
