#!/usr/bin/env python
"""run.py <property id> [--budget SECONDS]: decide one property on the current tree of /repo."""
import sys, os, importlib, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


def main():
    prop = sys.argv[1]
    if prop == '--selftest':
        return selftest()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vt import registry, report
    entry = registry.CHECKS[prop]
    rep = report.Report(prop, tier, seed, entry['level'])
    try:
        entry['run'](rep, tier, seed)
    except Exception:
        rep.errors.append(traceback.format_exc()[-3000:])
    return rep.finish()


def selftest():
    """the tools this machinery needs are there"""
    import subprocess, sympy, flint, numpy
    from vt import smt
    out = subprocess.run([smt.Z3, '-in'], input='(declare-const x Real)(assert (< (* x x) 0.0))(check-sat)', capture_output=True, text=True).stdout.strip()
    assert out == 'unsat', out
    print('python', sys.version.split()[0], 'sympy', sympy.__version__, 'flint', flint.__version__, 'z3 ok')
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
