"""Texts of the properties and of the checks."""

def P(id, title, statement, over, text, why, files, mech):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}

T = 'triples/core/structsos/ternary/'
ENGINE = ('contract-based deductive verification: symbolic execution of the real Python functions against pre/postconditions, '
          'callees replaced by their contracts, obligations discharged by polynomial identity (flint) and z3')
NOTE = ('Proof per path: every certificate returned on an explored path of the real code is shown to equal the input form for all coefficients '
        'satisfying the path condition. Evidence says which functions had all paths explored within the time budget; paths beyond it, obligations '
        'z3 leaves unknown and functions with nonlinear search loops are reported as undecided, never counted as discharged, and are backed by a '
        'bounded corpus run of the unmodified code. Trusted: SymPy expression construction, flint, z3, contracts of numeric helpers (D04, D01).')

PROPS = []
CHECKS = {}
NOT_APPLICABLE = {}

PROPS.append(P('C01', 'Ternary quadratic, cubic and quartic certificates equal the input',
  'Whenever the structural solver returns a certificate for a homogeneous polynomial of degree 2, 3 or 4 in three variables, cyclic or not, '
  'the certificate expands to exactly that polynomial, as an identity in the variables. The coefficients of the certificate are exact when those of the '
  'input are; there is no input for which a different polynomial is certified.',
  ['inputs'], 'every tuple of real coefficients of a cyclic or arbitrary ternary form of degree 2-4, every branch of the solver',
  'The solvers branch on signs of polynomials in the coefficients, and each branch returns closed-form certificates; the only tests are a few docstrings and run a handful of polynomials, while a wrong term in one branch shows only on inputs reaching that branch.',
  [T + 'quadratic.py', T + 'cubic.py', T + 'quartic.py', T + 'utils.py', 'triples/core/structsos/utils.py'],
  [('closed-form certificates per sign case', T + 'quartic.py'), ('weighted sums of certificate terms', 'triples/core/structsos/utils.py: sum_y_exprs')]))
CHECKS['C01'] = {'technique': ENGINE, 'level': 'proof', 'level_note': NOTE}

PROPS.append(P('C02', 'Ternary quintic and sextic certificates equal the input',
  'Whenever the structural solver returns a certificate for a cyclic or symmetric ternary form of degree 5 or 6, the certificate expands to exactly '
  'that form. This holds on every special case the solver distinguishes, including those reached only through reductions to other forms, and the certificate of an exact input is exact.',
  ['inputs'], 'every tuple of real coefficients of a cyclic or symmetric ternary form of degree 5-6, every branch of the solver',
  'Dozens of parametric branches with hand-derived polynomial formulas; existing tests do not run these solvers on more than isolated examples, and a wrong formula only shows where its sign conditions hold.',
  [T + 'quintic.py', T + 'quintic_symmetric.py', T + 'sextic.py', T + 'sextic_symmetric.py', T + 'utils.py'],
  [('parametric quintic windmill/hexagon certificates', T + 'quintic.py'), ('sextic case analyses', T + 'sextic_symmetric.py'), ('reductions to lower problems', T + 'sextic.py')]))
CHECKS['C02'] = {'technique': ENGINE, 'level': 'proof', 'level_note': NOTE}

PROPS.append(P('C03', 'Ternary degree 7 to 9 certificates equal the input',
  'Whenever the structural solver returns a certificate for a cyclic or symmetric ternary form of degree 7, 8 or 9, the certificate expands to exactly '
  'that form, also when the form was reduced to another one by a substitution, a division or a change of variables. The certificate of an exact input is exact.',
  ['inputs'], 'every tuple of real coefficients of a cyclic or symmetric ternary form of degree 7-9, every branch of the solver',
  'The reductions read only some of the coefficients, so a form outside the intended family can be certified as one inside it; isolated examples inside the family cannot show this.',
  [T + 'septic.py', T + 'septic_symmetric.py', T + 'octic.py', T + 'octic_symmetric.py', T + 'nonic.py', T + 'utils.py'],
  [('stars, hexagons and gears', T + 'nonic.py'), ('inverse substitution', T + 'utils.py: inverse_substitution'), ('discriminant case analyses', T + 'octic_symmetric.py')]))
CHECKS['C03'] = {'technique': ENGINE, 'level': 'proof', 'level_note': NOTE}

PROPS.append(P('C04', 'General ternary solvers: certificates and closed forms equal the input',
  'Whenever one of the degree-independent ternary solvers (sparse AM-GM, trivial additive, heuristic, lift-free, dense symmetric, and the degree dispatcher) returns a certificate for '
  'a cyclic or arbitrary ternary form, it expands to exactly that form; and the building blocks it uses (Pnrms, Hnmr, the common Schur/AM-GM/quadratic expressions) '
  'are exactly the polynomials they stand for, for all exponents.',
  ['inputs'], 'every coefficient tuple on the supports listed in the evidence (full support up to degree 10, all one- and two-orbit supports up to degree 8), every branch; closed forms for every exponent up to the stated degree',
  'The solvers recurse on remainders and read tables of closed forms indexed by exponents; a wrong table entry or a term counted twice appears only for the exponents or supports that use it.',
  [T + 'sparse.py', T + 'dense_symmetric.py', T + 'solver.py', 'triples/core/structsos/sparse.py', T + 'utils.py'],
  [('sparse AM-GM by barycentric exponents', T + 'sparse.py: _sos_struct_sparse_amgm'), ('closed form tables', T + 'sparse.py: Hnmr, Pnrms'), ('lifting and division for symmetric forms', T + 'dense_symmetric.py')]))
CHECKS['C04'] = {'technique': ENGINE, 'level': 'proof', 'level_note': NOTE}

Q = 'triples/core/structsos/'
PROPS.append(P('C05', 'Certificates in four and more variables, and quadratic forms, equal the input',
  'Whenever the structural solver returns a certificate for a polynomial in four variables (symmetric, cyclic or symmetric in all but one variable), for a symmetric quartic in more variables, '
  'or for a quadratic or linear polynomial in any number of variables (homogeneous or not), the certificate expands to exactly that polynomial.',
  ['inputs'], 'every coefficient tuple of the listed families, every branch; number of variables 4 (four-variable solvers), 4-5 (symmetric quartics), 1-4 (quadratic and linear)',
  'Each branch assembles a matrix or a parametric square; an overlooked coefficient (a monomial of the orbit that the formula does not read) is invisible on examples where it is zero.',
  [Q + 'quarternary/cubic.py', Q + 'quarternary/quartic.py', Q + 'quarternary/solver.py', Q + 'nvars.py', Q + 'sparse.py', Q + 'utils.py'],
  [('partially symmetric cubics', Q + 'quarternary/cubic.py'), ('parametric quartics', Q + 'quarternary/quartic.py'), ('symmetric quartic LMI', Q + 'nvars.py'), ('quadratic and linear forms', Q + 'sparse.py')]))
CHECKS['C05'] = {'technique': ENGINE, 'level': 'proof', 'level_note': NOTE}

FN = ('contract-based deductive verification: symbolic execution of the real Python functions with symbolic matrix entries against pre/postconditions, '
      'callees replaced by their contracts, obligations discharged by polynomial identity (flint) and z3')
FNOTE = ('Every obligation of every path is discharged for all real entries, for the sizes and patterns listed in the evidence (the loops run over matrix indices, so sizes are fixed per task); '
         'larger sizes are bounded samples on the unmodified code, labelled bounded. Trusted: SymPy/flint/numpy containers, z3.')
S = 'triples/sdp/'
PROPS.append(P('D01', 'congruence returns an exact U.T*diag(S)*U with S >= 0, or None iff not PSD',
  'congruence(M) of a symmetric matrix returns an upper triangular U and a nonnegative diagonal S with U.T*diag(S)*U == M exactly, and returns None only if M is not positive semidefinite; '
  'M itself is not changed. This holds for the implementation of the sdp package and the one used by the structural solver, also for singular matrices with zero pivots.',
  ['inputs'], 'every symmetric matrix of size 1 to 7 (symbolic entries); sizes up to 12 sampled',
  'Zero pivots, zero rows and indefinite matrices whose first failing minor is late form a case tree that examples visit sparsely; the guarantee is an identity for all entries.',
  [S + 'utils.py', Q + 'utils.py'],
  [('LDL with zero pivots', S + 'utils.py: congruence'), ('LDL with sign decisions', Q + 'utils.py: congruence')]))
CHECKS['D01'] = {'technique': FN, 'level': 'proof', 'level_note': FNOTE}

PROPS.append(P('D02', 'Exact linear systems: complete solutions, exact reduction and products',
  'solve_undetermined_linear, solve_csr_linear (with groups of equal variables) and solve_nullspace return exactly the full solution set of the system, or raise ValueError iff there is none; '
  'the row reduction they use is the reduced row echelon form; matmul, matmul_multiple and symmetric_bilinear(_multiple) return the exact product for rational entries of any size (no int64 overflow).',
  ['inputs'], 'all entries for the listed sizes and sparsity patterns; entries of any magnitude for the products',
  'Which shortcut runs depends on sparsity, zero rows, grouping and magnitude near 2**63; a lost solution or an overflow needs a specific pattern or magnitude.',
  [S + 'arithmetic.py'],
  [('fraction-free reduction', S + 'arithmetic.py: _row_reduce_dict'), ('column separated systems', S + 'arithmetic.py: solve_csr_linear'), ('int64 guard', S + 'arithmetic.py: matmul, symmetric_bilinear_multiple')]))
CHECKS['D02'] = {'technique': FN, 'level': 'proof', 'level_note': FNOTE}

U = 'triples/utils/'
PROPS.append(P('E02', 'Cyclic sums and products keep their value under every operation',
  'A CyclicSum (CyclicProduct) denotes the sum (product) of its summand over all permutations of its group. Construction with its simplifications, doit, expand, as_content_primitive, xreplace, '
  'subs (simultaneous) and rewrite_symmetry return expressions whose expansion equals the same operation applied to the expanded sum: no symbol is captured, no permutation lost or counted twice, '
  'no constant factor raised to a wrong power.',
  ['inputs'], 'every summand (uninterpreted function, and each summand shape the code distinguishes), all subgroups of S3 and 12 groups on 4, 7 on 6 symbols, the enumerated substitution rules',
  'Certificates are stored as cyclic expressions and every later step (renaming variables, inserting constraints, display) substitutes into them; a lost permutation needs a particular combination of group and rule.',
  [U + 'expression/cyclic.py'],
  [('orbit representative and factoring out invariants', U + 'expression/cyclic.py: __new__, _eval_simplify_'), ('case analysis of substitution rules', U + 'expression/cyclic.py: _xreplace'), ('coset transversals', U + 'expression/cyclic.py: rewrite_symmetry')]))
CHECKS['E02'] = {'technique': FN.replace('symbolic matrix entries', 'an uninterpreted summand'), 'level': 'proof',
                 'level_note': 'Each obligation holds for every summand of the shape (uninterpreted functions); groups, shapes and substitution rules are enumerated, and the quick tier samples a part of the rule table. Trusted: SymPy, flint.'}

PROPS.append(P('C08', 'Structural certificates are nonnegative by the given constraints alone',
  'A certificate returned by the structural solver is nonnegative for every real value of the variables whenever the given inequality constraints are nonnegative: a variable that occurs with odd degree '
  'is backed by a constraint that says so (replaced by its expression), and a certificate that would need an assumption not given is not returned. The replacement does not change its value. '
  'Holds for any names and scales of constraints and any names and order of generators.',
  ['inputs'], 'every certificate expression of the grammar the solvers build (structural induction: sums, products, powers, cyclic sums and products), the listed constraint dictionaries and generator orders',
  'Solvers silently assume a, b, c >= 0 and the facade undoes it afterwards; dropping one factor or mapping one symbol to the wrong constraint gives a false proof which still expands to the polynomial.',
  [Q + 'solution.py', Q + 'ternary/solver.py', Q + 'quarternary/solver.py', Q + 'structsos.py'],
  [('extraction of assumed factors', Q + 'solution.py: _extract_nonnegative_exprs'), ('constraints substituted for the assumptions', Q + 'ternary/solver.py: structural_sos_3vars'), ('single-term shortcut', Q + 'structsos.py: _structural_sos')]))
CHECKS['C08'] = {'technique': FN.replace('with symbolic matrix entries', 'by structural induction over certificate expressions (parts are uninterpreted functions)'), 'level': 'proof',
                 'level_note': 'Induction step per constructor of the certificate grammar, parts uninterpreted; integer exponents enumerated from -7 to 8 (they enter through parity and sign). The facade with named constraints is a bounded sample, labelled bounded. Trusted: SymPy, flint, z3.'}

PROPS.append(P('C07', 'Acute-triangle certificates equal the input and use only the constraints',
  'With the constraints b^2+c^2-a^2, c^2+a^2-b^2, a^2+b^2-c^2 >= 0 given, whenever the acute-triangle solver returns a certificate for a cyclic or symmetric form, the certificate expands to '
  'exactly that form once each constraint symbol is replaced by its constraint, and it is nonnegative by the given constraints alone, whatever their names, order and the names of the variables.',
  ['inputs'], 'every coefficient tuple of cyclic forms of degree 2-4 and symmetric forms of degree 2 to 9, every branch; the listed certificates, names and orders for the replacement of constraint symbols',
  'The cubic solver is a case tree over conics in two parameters and the lifting solver recurses through divisions; a wrong closed form or a division of the wrong polynomial needs a form on that branch, and no test solves any acute problem.',
  [Q + 'constrained/acute.py', Q + 'constrained/solver.py'],
  [('parametric cubic case tree', Q + 'constrained/acute.py: _constrained_acute_cubic'), ('lifting by degree six', Q + 'constrained/acute.py: _constrained_acute_lift_for_six'), ('constraint symbols replaced', Q + 'constrained/acute.py: constrained_acute')]))
CHECKS['C07'] = {'technique': ENGINE, 'level': 'proof', 'level_note': NOTE}

PROPS.append(P('C06', 'Proofs of univariate polynomials and bivariate forms are exact and honest',
  'Whenever prove_univariate or prove_univariate_interval returns a proof, it is sum multiplier*coefficient*square equal to the given polynomial identically, every coefficient is nonnegative, '
  'and the multipliers are those that are nonnegative on the requested set (1 on the line; 1 and x on the half line; 1, x-a, b-x and their product on an interval); the same holds after conversion to an expression. '
  'For a form in two variables with linear constraints the certificate equals the form once each constraint symbol is replaced by its constraint, and it is nonnegative whenever these symbols are. '
  'It is never lost that a leading coefficient cancels, that a factor repeats, or that constraints are parallel.',
  ['inputs'], 'all real coefficients, end points and constraint normals at each listed degree (leaves of degree 0-2, Gram matrices up to 5x5, irreducible factors of degree 3-6, up to three factors, intervals up to degree 6, up to three half planes)',
  'The proof goes through floating-point roots, a rounded Gram matrix completed from the coefficients and two changes of variable; a wrong index or power shows only when coefficients cancel or the degree has the other parity. One test file samples a few polynomials.',
  [Q + 'pivoting/univariate.py', Q + 'pivoting/bivariate.py'],
  [('Gram matrix completed from coefficients', Q + 'pivoting/univariate.py: _determine_diagonal_entries'), ('merging of factors', Q + 'pivoting/univariate.py: prove_univariate'), ('change of variable', Q + 'pivoting/univariate.py: prove_univariate_interval'), ('cone', Q + 'pivoting/bivariate.py: _sos_struct_bivariate_linear_ineq')]))
CHECKS['C06'] = {'technique': ENGINE, 'level': 'proof',
                 'level_note': 'Each function is checked against the contracts of its callees: numeric roots and rounding may return anything, congruence returns a factorisation or None. Degrees and sizes are enumerated, coefficients are arbitrary reals. Larger degrees are a bounded sample, labelled bounded. Trusted: SymPy Poly.factor_list/transform/shift, flint, z3.'}

PROPS.append(P('F01', 'Preparing a problem and translating the answer back preserve its meaning',
  'Before a solver runs, the problem is homogenised, constraints lose square factors, a symmetry group is guessed, constraints are renamed to functions of their variables and irrelevant variables are dropped; afterwards all of this is undone. '
  'For whatever answer the solver gives that is correct for the prepared problem, the answer handed to the user equals the original polynomial once every constraint name is replaced by its constraint, uses only names and symbols the user gave, '
  'and every name of an inequality that the solver is given is a nonnegative multiple of a name the user gave. The guessed symmetry group leaves the polynomial and each set of constraints invariant, '
  'and homogenising gives a homogeneous polynomial equal to the original at 1, with a new symbol.',
  ['inputs'], 'every solver answer (uninterpreted multipliers of every constraint, alone and inside cyclic sums), all coefficients, all settings of the wrapper; problem shapes and kinds of names are enumerated',
  'The wrapper works on dictionaries of names, permutations and renamed functions, and a mistake shows only with repeated factors, negative contents, a name equal to a variable, or a symmetric constraint list with user names. No test covers it directly.',
  ['triples/core/shared.py', Q + 'utils.py'],
  [('wrapper around solvers', 'triples/core/shared.py: sanitize_input'), ('square-free parts', 'triples/core/shared.py: _std_ineq_constraints'), ('renaming', 'triples/core/shared.py: _get_constraints_wrapper'), ('symmetry', 'triples/core/shared.py: identify_symmetry_from_lists'), ('irrelevant symbols', Q + 'utils.py: clear_free_symbols')]))
CHECKS['F01'] = {'technique': ENGINE, 'level': 'proof',
                 'level_note': 'The decorator is executed around a solver that returns the polynomial plus arbitrary multipliers times (name - constraint), so its contract covers every correct solver; coefficients are arbitrary. Symmetry guesses on concrete lists and whole runs are a bounded sample, labelled bounded. A name of an equality with repeated factors is a root and correct up to its sign. Trusted: SymPy sqf_list, homogenize, xreplace.'}

PROPS.append(P('E01', 'Tables of coefficients and symmetric-function forms represent the polynomial',
  'A vector of coefficients holds exactly one entry per orbit of monomials under the group, each entry is the coefficient in the polynomial (or in its sum over the group), and turning a vector back gives the polynomial with that coefficient on the whole orbit. '
  'Coefficient dictionaries add, subtract, reflect and cancel common monomials and exponents without changing the value, and report a symmetry exactly when the coefficients have it. '
  'Expressing a symmetric or cyclic polynomial in elementary symmetric polynomials gives an expression with the same value, and a polynomial without the symmetry is refused.',
  ['inputs'], 'all coefficients; 1 to 5 variables, degrees up to 6, trivial, cyclic, alternating, symmetric and other groups, homogeneous or not, are enumerated',
  'Every solver reads its coefficients through these tables, so a wrong orbit, multiplicity or permutation shows as a missed or wrong certificate far away, and only for groups and degrees that are not sampled. Tests look at a few polynomials in three variables.',
  ['triples/utils/monomials.py', 'triples/utils/expression/coeff.py', 'triples/utils/expression/pqr.py', 'triples/utils/polytools.py'],
  [('vectors of orbit coefficients', 'triples/utils/monomials.py: MonomialManager'), ('coefficient dictionaries', 'triples/utils/expression/coeff.py: Coeff'), ('guess of the symmetry', 'triples/utils/expression/coeff.py: identify_symmetry'), ('elementary symmetric forms', 'triples/utils/expression/pqr.py: pqr_cyc')]))
CHECKS['E01'] = {'technique': FN.replace('symbolic matrix entries', 'symbolic coefficients'), 'level': 'proof',
                 'level_note': 'The real table functions run on polynomials with symbolic coefficients, the entries are compared with orbits computed in the check; invariance answers are proved in both directions (path equalities imply invariance, the negation is infeasible). Floating-point vectors are compared on a bounded sample only.'}

PROPS.append(P('G01', 'LinearSOS certificates are exact and honest for every linear programme answer',
  'LinearSOS looks for nonnegative weights of products of constraints, tangents and monomials with a floating-point linear programme, makes the weights exact and builds an expression from them. '
  'For any weights the programme returns, the exact weights are nonnegative, the weighted sum of the terms vanishes identically and the weights of the multipliers sum to one, or the step is refused; '
  'the expression equals the polynomial once every name is replaced by its constraint, uses no other names, and is visibly nonnegative when the names of inequalities are nonnegative and the names of equalities vanish.',
  ['inputs'], 'all nonnegative weights and all coefficient vectors of the terms (entries symbolic); problem shapes, names, degree lifts and the selection of terms are enumerated',
  'The answer depends on a floating-point optimum: tests see the few vertices the solver happens to return, while the expression is put together from even and odd powers, symmetries, multipliers and several kinds of constraint names.',
  ['triples/core/linsos/solution.py', 'triples/core/linsos/correction.py', 'triples/core/linsos/linsos.py', 'triples/core/linsos/basis.py', 'triples/core/linsos/updegree.py'],
  [('exact weights', 'triples/core/linsos/correction.py: linear_correction'), ('grouping of terms', 'triples/core/linsos/solution.py: _collect_constraints'), ('terms and their vectors', 'triples/core/linsos/basis.py: LinearBasisTangent'), ('products of constraints', 'triples/core/linsos/linsos.py: _get_qmodule_list'), ('multipliers', 'triples/core/linsos/updegree.py: lift_degree')]))
CHECKS['G01'] = {'technique': ENGINE, 'level': 'proof',
                 'level_note': 'The facade runs with the linear programme and the exact correction replaced by their contracts (any nonnegative weights); linear_correction itself is proved against the contracts of rounding, solving and exact comparison. Selections of terms are enumerated by seed. Systems with radicals (LUsolve, _is_Ax_equal_to_b) are a bounded sample, labelled bounded.'}

PROPS.append(P('G02', 'SDPSOS certificates are exact and honest for every point of the programme',
  'Whatever feasible point the semidefinite programme returns, a certificate produced by SDPSOS equals the given polynomial exactly: the sum over the symmetry group of nonnegative multiples of products of '
  'the given constraints times squares, plus polynomial multiples of the given equalities, every constraint under the name the user gave it. An infeasible or unsolved programme gives no certificate, never a wrong one.',
  ['inputs', 'histories'], 'every point of the affine space of the programme (up to 9 symbolic coordinates), every weight, for the problem shapes, symmetry groups and degrees in the evidence; coefficients of the polynomial symbolic for the listed supports',
  'The affine programme is assembled from index arithmetic over monomials and reduced by symmetry and null spaces; a misplaced or doubled index is invisible at points where the affected entry is zero or the solver happens to pick a symmetric matrix.',
  ['triples/core/sdpsos/sdpsos.py', 'triples/core/sdpsos/solution.py', S + 'dual.py', S + 'abstract.py', S + 'transform.py', S + 'arithmetic.py'],
  [('affine programme of a Putinar certificate', 'triples/core/sdpsos/sdpsos.py: SOSProblem'), ('decomposition back to a certificate', 'triples/core/sdpsos/solution.py: SolutionSDP.from_decompositions'), ('propagation of points to the parent programme', S + 'dual.py: register_y')]))
CHECKS['G02'] = {'technique': FN, 'level': 'proof', 'level_note': FNOTE}

PROPS.append(P('D03', 'Transformations of semidefinite programmes keep exactly the restricted solutions',
  'Restricting a semidefinite programme (to a column or null space, to symmetric or equal entries, to masked rows, by an affine substitution), turning its parameters into variables or its primal form into the dual '
  'gives a child whose points, sent back, are exactly the points of the parent that satisfy the restriction: the matrices and decompositions registered at every level are those of the registered point. '
  'A restriction is refused exactly when it has no solution, a diagonal entry is taken for zero only if it is zero in every semidefinite solution, and vectors and parameter-linear matrices decompose without loss.',
  ['inputs', 'histories'], 'all constant parts, points, affine maps and coefficients (symbolic); block sizes, numbers of variables, rational directions and chains of up to four transformations are enumerated by seed',
  'The index arithmetic of vectorised matrices and the change of basis are right for the standard cases; an error shows for non-orthonormal bases, unequal blocks, chained restrictions or constants that are not symmetric.',
  [S + 'transform.py', S + 'dual.py', S + 'primal.py', S + 'abstract.py', S + 'utils.py'],
  [('column and null spaces', S + 'transform.py: DualMatrixTransform'), ('masked rows and zero diagonals', S + 'transform.py: SDPRowMasking'), ('affine substitution', S + 'transform.py: SDPVectorTransform'),
   ('parameters', S + 'transform.py: DualDeparametrization'), ('vectors and symbolic matrices', S + 'utils.py: Mat2Vec, decompose_matrix')]))
CHECKS['D03'] = {'technique': FN, 'level': 'proof', 'level_note': FNOTE}

PROPS.append(P('G03', 'SymmetricSOS: the change of variables is exact and its proof is honest',
  'For every symmetric form the transformed numerator, rewritten in the original variables, divided by the denominator is the form itself, for real variables (three and four) and for positive ones; constraints are carried over exactly and the added ones are true. '
  'The proof found in the new variables is identically the transformed polynomial and nonnegative wherever its nonnegative symbols are; the certificate uses only constraints the user gave, under their names.',
  ['inputs'], 'all coefficients of symmetric forms in three variables to degree 6 and in four to degree 5; polynomials to be proved by pivoting: symbolic coefficients, enumerated supports; whole method: bounded',
  'The change of variables divides out powers that depend on how many coefficients vanish (at (1,1,1), on lines): each power has to be matched in the denominator, and generic inputs exercise only one of the cases.',
  ['triples/core/symsos/symmetric.py', 'triples/core/symsos/basic.py', 'triples/core/symsos/representation.py', 'triples/core/symsos/symsos.py', 'triples/core/symsos/solution.py', U + 'expression/pqr.py'],
  [('change of variables', 'triples/core/symsos/symmetric.py: SymmetricPositive, SymmetricReal'), ('proof by pivoting', 'triples/core/symsos/basic.py: prove_by_pivoting'), ('constraints', 'triples/core/symsos/representation.py: sym_transform')]))
CHECKS['G03'] = {'technique': FN, 'level': 'proof', 'level_note': FNOTE}

PROPS.append(P('D04', 'Rounded numbers, weights and rearranged terms keep what was required of them',
  'Rational numbers put in place of roots satisfy the sign conditions they were chosen for and lie on the side of the bound asked for; rounding a floating-point matrix or point gives exact decompositions of the registered point, or is refused. '
  'quadratic_weighting writes a nonnegative binary quadratic form as nonnegative weights times squares and returns None otherwise; radsimp, sum_y_exprs, reflect_expression, inverse_substitution and the shift of a form with a zero off the centre keep the value of the expression. '
  'An attempted proof with a perturbation is accepted only when the perturbed problem plus the perturbation is the problem.',
  ['inputs'], 'all real coefficients of the forms and expressions; numeric roots and rounding may return anything; shapes of expressions, directions and case splits are enumerated',
  'These helpers sit between floating-point guesses and exact certificates; an inequality that is tested in the wrong direction shows only when the first guess fails and another candidate is on the wrong side.',
  [Q + 'utils.py', T + 'utils.py', U + 'roots/rationalize.py', S + 'rationalize.py', S + 'utils.py'],
  [('choice of rational numbers', Q + 'utils.py: rationalize_func, quadratic_weighting'), ('rounding', U + 'roots/rationalize.py: rationalize_bound'), ('rounding of semidefinite points', S + 'rationalize.py: rationalize_and_decompose'),
   ('rearranging expressions', T + 'utils.py: inverse_substitution')]))
CHECKS['D04'] = {'technique': FN.replace('symbolic matrix entries', 'symbolic coefficients'), 'level': 'proof', 'level_note': 'Shapes are enumerated, coefficients are symbolic, and numeric callees are replaced by arbitrary answers; '
                 'larger random inputs on the unmodified code are labelled bounded. Trusted: SymPy/flint/numpy containers, z3.'}

PROPS.append(P('G04', 'Restricting the SDP by zeros of the polynomial loses no certificate',
  'Before solving, SDPSOS restricts the Gram matrices by vectors taken from zeros of the polynomial, their permutations and derivatives. For every certificate of the polynomial (nonnegative multiples of the constraints times rational squares plus multiples of the equalities) every such vector is in the kernel of the Gram matrix it restricts, '
  'so no polynomial becomes unprovable by the restriction. Monomial vectors, their derivatives and rational spans at a rational or algebraic point are those of the point, and evaluation at it is exact, also when its coordinates lie in different number fields.',
  ['inputs'], 'all coefficients of the squares and multipliers; zeros (rational, quadratic, cubic, mixed fields), constraints, symmetry groups and supports are enumerated',
  'The restriction argues with signs of derivatives at the zero, which is valid only for some constraints; a wrong vector makes the programme infeasible and the answer None for a polynomial that has a certificate, which no test on other polynomials shows.',
  ['triples/core/sdpsos/manifold.py', U + 'roots/roots.py', U + 'roots/findroot.py', U + 'monomials.py'],
  [('vectors from zeros', 'triples/core/sdpsos/manifold.py: RootSubspace, _root_space'), ('derivatives at zeros on the border', 'triples/core/sdpsos/manifold.py: _compute_nonvanishing_diff_orders'), ('rational spans', U + 'roots/roots.py: RootAlgebraic')]))
CHECKS['G04'] = {'technique': FN.replace('symbolic matrix entries', 'symbolic coefficients of an arbitrary certificate'), 'level': 'proof', 'level_note': 'Each task takes an arbitrary certificate (symbolic coefficients) of a polynomial with the given zero, runs the real code on it and proves that the vectors '
                 'annihilate its Gram matrices. Zeros, constraints, groups and supports are enumerated; zeros found by the code itself are sampled, labelled bounded. Trusted: SymPy number fields and root finding, z3.'}
PROPS.append(P('D05', 'The numerical solver is given the programme that was asked for',
  'Objective, linear constraints, eigenvalue bounds and scaling handed to the SDP solvers describe exactly the programme of the caller, in dual and primal form: the same matrices up to a positive factor, each bound min_eigen >= k*r + b on the matrix it names, each constraint with its sign and right side, and the objective to be minimised. '
  'The answer of the solver is mapped back to the variables and matrices asked for, and the default backend is one that is installed.',
  ['inputs'], 'all entries, coefficients, right sides, bounds and answers of the solver; sizes of blocks, forms of bounds and relations, number of variables are enumerated',
  'A sign or a bound put on the wrong matrix yields a solver failure or an answer outside the constraints for some programmes only; tests solve a few feasible ones.',
  [S + 'backend/caller.py', S + 'backend/backend.py', S + 'backend/cvxopt_sdp.py', S + 'backend/picos_sdp.py', S + 'backend/clarabel_sdp.py', S + 'utils.py'],
  [('programme construction', S + 'backend/caller.py: _create_numerical_dual_sdp, _create_numerical_primal_sdp'), ('eigenvalue bounds', S + 'backend/backend.py: extend_space'), ('solver interfaces', S + 'backend/cvxopt_sdp.py, picos_sdp.py'), ('relations to arrays', S + 'utils.py: exprs_to_arrays')]))
CHECKS['D05'] = {'technique': FN.replace('symbolic matrix entries', 'symbolic programmes handed to recording solvers'), 'level': 'proof', 'level_note': 'The real construction code runs on symbolic data; the solver packages cvxopt and picos are replaced by recorders and their answers left arbitrary. Assumed: conversion to floating point is exact, '
                 'cvxopt and picos mean what their documentation says. Backends whose packages are not installed are out of reach except for their pure conversions (bounded).'}

PROPS.append(P('E03', 'Shown equations, fractions and formulas have the value of what they show',
  'Writing a certificate as a fraction or an equation, or setting the homogenizing variable to 1, keeps the identity problem = solution, and is_equal is true only for solutions equal to the problem; the text shown for a certificate (LaTeX, plain, formatted) denotes its value. The standard and factorised text of a polynomial under a permutation group denotes that polynomial. '
  'Text in the documented notation (implied products and powers, cyclic s and p, LaTeX fractions, roots and sums) is read as the polynomial it denotes, and text written by the package reads back as the same polynomial.',
  ['inputs'], 'all coefficients and all contents and signs of factors SymPy may return; monomial supports, permutation groups and the formulas read are enumerated or sampled',
  'A user sees the proof only through this text: a sign, a multiplicity of an orbit or a term swallowed by a LaTeX sum makes a correct certificate wrong on the page, or proves another inequality than the one typed.',
  [U + 'expression/solution.py', U + 'expression/form.py', U + 'text_process.py'],
  [('fractions and equations', U + 'expression/solution.py: as_fraction, as_eq, dehomogenize, is_equal'), ('text of polynomials', U + 'expression/form.py: poly_get_standard_form, poly_get_factor_form'), ('reading formulas', U + 'text_process.py: preprocess_text')]))
CHECKS['E03'] = {'technique': FN.replace('symbolic matrix entries', 'symbolic coefficients and SymPy answers left arbitrary'), 'level': 'proof', 'level_note': 'Fractions, equations, dehomogenisation and the text of polynomials are proved for all coefficients, with SymPy together, fraction, factor_list and contents replaced by any answer of the same value. '
                 'The text is read back by a reader written here from the documented notation. Supports and groups are enumerated; reading formulas is compared on random formulas (bounded).'}
