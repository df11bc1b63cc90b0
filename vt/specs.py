"""Contracts (requires/ensures) of the structural solver functions of /repo.

Each entry: function -> degree, invariance group of the coefficients, orbits whose coefficient must vanish.
The postcondition is common to all: None, or an expression identically equal to the input form.
"""
from .sos import CYC, SYM, TRIV, PART

T = 'triples.core.structsos.ternary.'
Q = 'triples.core.structsos.quarternary.'
A = 'triples.core.structsos.constrained.acute'


def S(mod, fn, degree, group, zeros='', nvars=3, base='cyc', sig='coeff', pre=None):
    g = {'cyc': CYC, 'sym': SYM, 'triv': TRIV, 'part': PART}[group][nvars]
    zs = {tuple(int(ch) for ch in z) for z in zeros.split()}
    zs = {max(tuple(m[p[i]] for i in range(nvars)) for p in g) for m in zs}
    return (mod, fn), {'degree': degree, 'group': g, 'gname': group, 'zeros': zs, 'nvars': nvars,
                       'base': base if nvars == 3 else {'cyc': 'sym', 'none': 'none'}[base], 'sig': sig,
                       'pre': pre}


HEX6 = '600 510 150'
HEX7 = '700 610 160'
HEX8 = '800 710 170'

SPECS = dict([
    # reached recursively with polynomials of any degree: contract only (verified per degree through SOLVERS)
    S(T + 'solver', '_structural_sos_3vars_cyclic', None, 'cyc'),
    S(T + 'solver', '_structural_sos_3vars_acyclic', None, 'triv', base='none'),
    S(T + 'dense_symmetric', 'sos_struct_liftfree_for_six', None, 'sym'),
    S(T + 'dense_symmetric', '_sos_struct_lift_for_six', None, 'sym'),
    S(T + 'dense_symmetric', '_sos_struct_liftfree_for_six_ord4', None, 'sym'),
    S(T + 'dense_symmetric', '_sos_struct_dense_symmetric', None, 'sym'),
    S(T + 'dense_symmetric', '_sos_struct_trivial_additive', None, 'cyc'),
    S(T + 'dense_symmetric', 'sos_struct_dense_symmetric', None, 'cyc'),
    S(T + 'sparse', 'sos_struct_sparse', None, 'cyc'),
    S(T + 'sparse', 'sos_struct_heuristic', None, 'cyc'),
    S(T + 'sparse', '_sos_struct_sparse_amgm', None, 'cyc'),
    S(T + 'quadratic', 'sos_struct_quadratic', 2, 'cyc'),
    S(T + 'quadratic', 'sos_struct_acyclic_quadratic', 2, 'triv', base='none'),
    S(T + 'cubic', 'sos_struct_cubic', 3, 'cyc'),
    S(T + 'cubic', '_sos_struct_cubic_symmetric', 3, 'sym'),
    S(T + 'cubic', '_sos_struct_cubic_degenerate', 3, 'cyc', '300'),
    S(T + 'cubic', '_sos_struct_cubic_parabola', 3, 'cyc'),
    S(T + 'cubic', '_sos_struct_cubic_nontrivial', 3, 'cyc'),
    S(T + 'cubic', '_sos_struct_cubic_nontrivial_irrational', 3, 'cyc'),
    S(T + 'cubic', 'sos_struct_acyclic_cubic', 3, 'triv', base='none'),
    S(T + 'cubic', '_sos_struct_acyclic_cubic_hexagon', 3, 'triv', base='none'),
    S(T + 'cubic', '_sos_struct_acyclic_cubic_symmetric', 3, 'triv', base='none'),
    S(T + 'quartic', 'sos_struct_quartic', 4, 'cyc'),
    S(T + 'quartic', '_sos_struct_quartic_core', 4, 'cyc'),
    S(T + 'quartic', '_sos_struct_quartic_quadratic_border', 4, 'cyc'),
    S(T + 'quartic', '_sos_struct_quartic_biased', 4, 'cyc'),
    S(T + 'quartic', '_sos_struct_quartic_degenerate', 4, 'cyc', '400'),
    S(T + 'quartic', '_sos_struct_quartic_uncentered', 4, 'cyc'),
    S(T + 'quartic', '_sos_struct_quartic_uncentered_real', 4, 'cyc'),
    S(T + 'quartic', 'sos_struct_acyclic_quartic', 4, 'triv', base='none'),
    S(T + 'quartic', '_sos_struct_acyclic_quartic_symmetric', 4, 'triv', base='none'),
    S(T + 'quintic', 'sos_struct_quintic', 5, 'cyc'),
    S(T + 'quintic', '_sos_struct_quintic_full', 5, 'cyc'),
    S(T + 'quintic', '_sos_struct_quintic_windmill', 5, 'cyc', '500'),
    S(T + 'quintic', '_sos_struct_quintic_uncentered', 5, 'cyc', '500 410 320'),
    S(T + 'quintic', '_sos_struct_quintic_windmill_special', 5, 'cyc', '500 410 320 230', pre=[{(1, 4, 0): 1, (3, 1, 1): 1, (2, 2, 1): 1}]),
    S(T + 'quintic', '_sos_struct_quintic_hexagon', 5, 'cyc'),
    S(T + 'quintic_symmetric', 'sos_struct_quintic_symmetric', 5, 'sym'),
    S(T + 'quintic_symmetric', '_sos_struct_quintic_symmetric_hexagon', 5, 'sym', '500'),
    S(T + 'sextic', 'sos_struct_sextic', 6, 'cyc'),
    S(T + 'sextic', '_sos_struct_sextic_hexagram', 6, 'cyc', HEX6 + ' 420 240'),
    S(T + 'sextic', '_sos_struct_sextic_hexagon', 6, 'cyc'),
    S(T + 'sextic', '_sos_struct_sextic_rotated_tree', 6, 'cyc', HEX6 + ' 330 411'),
    S(T + 'sextic', '_sos_struct_sextic_hexagon_sdp', 6, 'cyc', HEX6),
    S(T + 'sextic', '_sos_struct_sextic_hexagon_sdp2', 6, 'cyc', HEX6),
    S(T + 'sextic', '_sos_struct_sextic_hexagon_to_hexagram', 6, 'cyc', HEX6),
    S(T + 'sextic', '_sos_struct_sextic_full_sdp', 6, 'cyc'),
    S(T + 'sextic_symmetric', 'sos_struct_sextic_symmetric_ultimate', 6, 'sym'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_hexagon_symmetric_sdp', 6, 'sym', '600 510'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_hexagon_symmetric', 6, 'sym', '600 510'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_hexagram_symmetric', 6, 'sym', '600 510 420'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_tree', 6, 'sym', '510 420 321'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_symmetric_schur_split', 6, 'sym'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_iran96', 6, 'sym', '600'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_symmetric_full_sdp', 6, 'sym'),
    S(T + 'sextic_symmetric', '_sos_struct_sextic_symmetric_ultimate', 6, 'sym'),
    S(T + 'septic', 'sos_struct_septic', 7, 'cyc'),
    S(T + 'septic', '_sos_struct_septic_star', 7, 'cyc', HEX7 + ' 520 250'),
    S(T + 'septic', '_sos_struct_septic_biased', 7, 'cyc', HEX7),
    S(T + 'septic', '_sos_struct_septic_hexagon', 7, 'cyc', HEX7),
    S(T + 'septic_symmetric', 'sos_struct_septic_symmetric', 7, 'sym'),
    S(T + 'octic', 'sos_struct_octic', 8, 'cyc'),
    S(T + 'octic_symmetric', 'sos_struct_octic_symmetric', 8, 'sym'),
    S(T + 'octic_symmetric', '_sos_struct_octic_symmetric_hexagon_sdp', 8, 'sym', '800 710'),
    S(T + 'octic_symmetric', '_sos_struct_octic_symmetric_hexagon', 8, 'sym', '800 710'),
    S(T + 'octic_symmetric', '_sos_struct_octic_symmetric_hexagram', 8, 'sym', '800 710 620 530'),
    S(T + 'nonic', 'sos_struct_nonic', 9, 'cyc'),
    S(T + 'nonic', '_sos_struct_nonic_symmetric_tree', 9, 'sym', '810 720 540 621 531 432'),
    S(T + 'nonic', '_sos_struct_nonic_hexagon_symmetric', 9, 'sym', '900 810 720 711 621 540'),
    S(T + 'nonic', '_sos_struct_nonic_hexagram_symmetric', 9, 'sym', '900 810 720 711 630'),
    S(T + 'nonic', '_sos_struct_nonic_gear', 9, 'cyc', '900 810 720 270 711 630 360 180'),

    # four variables
    S(Q + 'solver', '_structural_sos_4vars_symmetric', None, 'sym', nvars=4, base='none'),
    S(Q + 'solver', '_structural_sos_4vars_cyclic', None, 'cyc', nvars=4, base='none'),
    S(Q + 'solver', '_structural_sos_4vars_partial_symmetric', None, 'part', nvars=4, base='none'),
    S(Q + 'cubic', 'quarternary_cubic_symmetric', 3, 'sym', nvars=4, base='none'),
    S(Q + 'cubic', '_quarternary_cubic_partial_symmetric', 3, 'part', nvars=4, base='none'),
    S(Q + 'quartic', 'quarternary_quartic', 4, 'cyc', nvars=4, base='none'),
    S(Q + 'quartic', '_quarternary_quartic_real', 4, 'cyc', nvars=4, base='none'),
    S(Q + 'quartic', '_quarternary_quartic_fluroite', 4, 'cyc', nvars=4, base='none'),
    # any number of variables
    S('triples.core.structsos.nvars', '_sos_struct_nvars_quartic_symmetric_sdp', None, 'sym', nvars=4, base='none', sig='poly'),
    S('triples.core.structsos.sparse', 'sos_struct_quadratic', None, 'triv', nvars=4, base='none', sig='poly'),
    S('triples.core.structsos.sparse', 'sos_struct_linear', None, 'triv', nvars=4, base='none', sig='poly'),
    # acute triangle constraints: F(a) stands for b^2+c^2-a^2
    S(A, '_constrained_acute_quadratic', 2, 'cyc', sig='coeff,F'),
    S(A, '_constrained_acute_cubic', 3, 'cyc', sig='coeff,F'),
    S(A, '_constrained_acute_quartic', 4, 'cyc', sig='coeff,F'),
    S(A, '_constrained_acute_trivial_uncentered', None, 'sym', sig='coeff,F'),
    S(A, '_constrained_acute_lift_for_six', None, 'sym', sig='coeff,F'),
    S(A, '_constrained_acute_dense_symmetric', None, 'sym', sig='coeff,F'),
])
