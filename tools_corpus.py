"""One-off: extract the documented example polynomials from the docstrings of /repo into corpus/examples.json."""
import ast, json, os, sys
sys.path.insert(0, '/repo')
import sympy as sp
from triples.utils.text_process import preprocess_text
base = '/repo/triples/core/structsos'
out = []
for root, _, fs in os.walk(base):
    for f in sorted(fs):
        if not f.endswith('.py'): continue
        p = os.path.join(root, f)
        for node in ast.walk(ast.parse(open(p).read())):
            if not isinstance(node, ast.FunctionDef): continue
            d = ast.get_docstring(node)
            if not d: continue
            for line in d.split('\n'):
                line = line.strip()
                if not line or not any(x in line for x in ('s(', 'p(')) or '=>' in line and False: continue
                t = line.replace('\\', '')
                if t.startswith('>>>') or '>=' in t or ' is ' in t or 'http' in t: continue
                for cand in (t, t.split('=>')[0], t.split(' ')[0]):
                    try:
                        P = preprocess_text(cand)
                        if P is None: continue
                        P = sp.Poly(P, *sp.symbols('a b c')) if not isinstance(P, sp.Poly) else P
                        if P.is_zero or not P.is_homogeneous or not (P.domain.is_QQ or P.domain.is_ZZ) and not P.domain.is_Algebraic and not P.domain.is_EX: raise ValueError
                        if P.total_degree() > 16: raise ValueError
                        out.append({'module': os.path.relpath(p, base), 'function': node.name, 'text': cand, 'degree': P.total_degree(),
                                    'coeffs': [[list(m), str(v)] for m, v in P.terms()], 'nvars': len(P.gens)})
                        break
                    except Exception as e:
                        continue
json.dump(out, open('/verif/corpus/examples.json', 'w'), indent=0)
import collections
print(len(out), collections.Counter((o['nvars'], o['degree']) for o in out))
