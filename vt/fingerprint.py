"""Fingerprints of function bodies, used only to decide what to explore FIRST (never to skip anything).

A spec function's fingerprint covers its own AST and, transitively, every function of the same package that its
body mentions by name and that is not itself under contract.
"""
import ast, hashlib, os, json
REPO = os.environ.get('VT_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def strip(node):
    for n in ast.walk(node):
        b = getattr(n, 'body', None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            n.body = b[1:] or [ast.Pass()]
    return node


def functions(root='triples'):
    """name -> list of (module, dump, mentioned names); names are unqualified (methods included)"""
    out = {}
    for r, ds, fs in os.walk(os.path.join(REPO, root)):
        if 'tests' in r.split(os.sep):
            continue
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(r, f)
            try:
                tree = strip(ast.parse(open(p, encoding='utf-8').read()))
            except SyntaxError:
                continue
            mod = os.path.relpath(p, REPO)[:-3].replace(os.sep, '.')
            top = []

            def visit(body):
                for n in body:
                    if isinstance(n, ast.FunctionDef):
                        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}
                        out.setdefault(n.name, []).append((mod, ast.dump(n), names))
                    elif isinstance(n, ast.ClassDef):
                        visit(n.body)
                    elif not isinstance(n, (ast.Import, ast.ImportFrom)):
                        top.append(ast.dump(n))
            visit(tree.body)
            out.setdefault('<top>' + mod, []).append((mod, '\n'.join(top), set()))
    return out


def fingerprints(keys, contracted):
    fs = functions()
    res = {}
    for mod, name in keys:
        seen, todo, parts = set(), [name], []
        parts.append(''.join(d for _, d, _ in fs.get('<top>' + mod, [])))
        first = True
        while todo:
            n = todo.pop()
            if n in seen or n not in fs:
                continue
            seen.add(n)
            if n in contracted and not first:
                continue
            first = False
            for m, d, names in fs[n]:
                if n == name and m != mod:
                    continue
                parts.append(m + d)
                todo += sorted(names)
        res[f'{mod}:{name}'] = hashlib.sha256('\n'.join(sorted(parts)).encode()).hexdigest()[:20]
    return res


def baseline():
    try:
        return json.load(open(os.path.join(HERE, 'corpus', 'fingerprints.json')))
    except FileNotFoundError:
        return {}
