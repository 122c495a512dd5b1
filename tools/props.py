"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after changing it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, M, H, F, L, K, LL, RM = ['qsymm/' + f for f in ('groups.py', 'model.py', 'hamiltonian_generator.py', 'symmetry_finder.py', 'linalg.py',
                                                   'kwant_continuum.py', 'kwant_linalg_lll.py', 'kwant_rmt.py')]
T = {}


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    T[pid] = dict(title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None},
                  technique=technique, note=note)


prop('C01', 'Symmetry operations form a group under composition',
     'Products, inverses and integer powers of symmetry operations have exactly the real-space action, conjugation, antisymmetry and unitary part that '
     'composition of maps on Hamiltonians requires, so associativity, identity and inverse laws hold for every word, in exact and in floating point '
     'representation. Equality of operations is an equivalence relation compatible with hashing, includes the unitary part up to a phase exactly if strict comparison is requested for an operand or one of its factors, '
     'and ordering is a total order. Invalid constructions raise and no operation modifies its operands.',
     ['inputs', 'programs'], 'all words of symmetry operations in 1, 2 and 3 dimensions, with or without unitary part, exact or floating point',
     'The tests multiply a few fixed generators; the group laws quantify over all words, representations and flag combinations.',
     [G], [('composition rule, inverse and powers', G + ' PointGroupElement.__mul__, inv, __pow__'), ('comparison and hashing', G + ' __eq__, __lt__, __hash__')],
     ['attributes of products, inverses, powers', '==, <, hash'],
     'property-based testing: random words against a reference model of composition', 'Random words up to length 8 against an independent numpy model of the operations.')

prop('C02', 'Applying a symmetry operation gives the transformed Hamiltonian',
     'Applying a symmetry operation to a Hamiltonian gives at every momentum the conjugated, negated, rotated and basis-transformed matrix that the operation '
     'prescribes, for polynomial and Bloch Hamiltonians, dense or sparse, and for plain matrices where that is meaningful. Applying a product is applying the '
     'factors in order, the inverse undoes it, and Hamiltonian and operation stay unmodified.',
     ['inputs', 'programs'], 'all Hamiltonians and all operations of matching dimension',
     'The tests apply a handful of symmetries to Hamiltonians that have them, which cannot distinguish most wrong transformation rules.',
     [G, M], [('transformation rule', G + ' PointGroupElement.apply'), ('rotation of momenta', M + ' rotate_momenta')], ['value of the transformed Model at sample points'],
     'property-based testing: pointwise oracle on random Hamiltonians and operations', 'Values are compared at random momenta and parameters with the transformation evaluated pointwise.')

prop('C03', 'Continuous generators act as derivatives of the one-parameter group',
     'Applying a continuous symmetry generator gives at every momentum the derivative of the transformed Hamiltonian along the one-parameter group it generates, '
     'so the result vanishes if the Hamiltonian is invariant under the whole group. The result is linear in generator and Hamiltonian, both stay unmodified, '
     'and generators whose parts are not Hermitian or, in real space, not antisymmetric raise.',
     ['inputs'], 'all Hamiltonians and generators of matching dimension, with or without spatial and unitary part',
     'The tests use two or three generators on invariant Hamiltonians; the rule for arbitrary ones is not examined.',
     [G], [('action of the generator', G + ' ContinuousGroupGenerator.apply'), ('validation', G + ' ContinuousGroupGenerator.__init__')], ['value of the result at sample points'],
     'property-based testing: numerical derivative and group-orbit oracle', 'Derivatives along the orbit are evaluated by central differences and by the commutator formula.')

prop('C04', 'Group generation yields exactly the generated group',
     'From any finite set of symmetry operations the generated group contains every product of the generators exactly once, is closed, and does not depend on order or '
     'redundancy of the generators. Sets of products are the sets of all pairwise products, and the list of subgroups contains exactly the subgroups of the group with '
     'their generators.',
     ['inputs'], 'all finite generating sets of crystallographic, local and non-spatial symmetries',
     'The tests check the order of two or three point groups.',
     [G], [('closure', G + ' generate_group'), ('subgroups', G + ' generate_subgroups'), ('products of sets', G + ' set_multiply')], ['returned sets'],
     'property-based testing: closure by independent enumeration of words', 'Groups are enumerated independently from the definition and compared as sets.')

prop('C05', 'Predefined symmetries and point groups are what their names say',
     'Every predefined symmetry acts on Hamiltonians with the real-space action, conjugation, antisymmetry and unitary part that its name and arguments prescribe; spin arguments give the '
     'spin representation of the rotation and time reversal. The predefined square, hexagonal and cubic groups have the right elements for all options, form groups with consistent '
     'unitary representations, and inconsistent options raise.',
     ['inputs', 'configurations'], 'all dimensions, angles, axes, spins, unitary parts and group options',
     'The tests construct a few of the options, and compare orders of some groups only.',
     [G], [('factory functions', G + ' time_reversal ... mirror'), ('point groups', G + ' square, cubic, hexagonal')], ['attributes of the symmetries'],
     'property-based testing: all options and random arguments against explicit formulas', 'Options are sampled exhaustively in the quick tier; arguments are random.')

prop('C06', 'Spin and angular momentum matrices generate rotations',
     'The spin matrices of every spin and the orbital angular momentum matrices satisfy the angular momentum algebra with the right Casimir operator, and the orbital ones are those of the '
     'documented basis of functions. Spin rotations are the exponentials of the rotation vector, give a representation of the rotations up to sign with full rotations +-1, and correspond to the '
     'real-space rotation about the same axis; invalid spins raise.',
     ['inputs'], 'all half-integer spins, all rotation vectors', 'The tests use spin one half and a few angles.',
     [G], [('spin matrices', G + ' spin_matrices'), ('orbital matrices', G + ' L_matrices'), ('rotations', G + ' spin_rotation')], ['returned matrices'],
     'property-based testing: algebraic identities and explicit rotations of functions', 'Spins up to 4 (quick) with random rotation vectors.')

prop('C07', 'Symmetries built from permutations of sites act on the sites',
     'A symmetry built from a permutation of sites maps the orbitals of every site to the image of that site with the onsite unitary given for it, in the order of sites and orbitals that '
     'the number of orbitals defines. Composing the permutations composes the symmetries, and inconsistent input raises.',
     ['inputs'], 'all permutations, orbital counts and onsite matrices', 'The tests use permutations that are their own inverse only.',
     [G], [('construction', G + ' symmetry_from_permutation')], ['unitary part of the symmetry'],
     'property-based testing: explicit action on basis vectors', 'Random permutations of up to 6 sites with up to 3 orbitals per site.')

prop('C08', 'Printed names identify the symmetry',
     'The printed name of every symmetry operation states its angle, axis, mirror or inversion character and its non-spatial action such that the operation can be reconstructed from it. '
     'Names of continuous generators state the same for spatial and unitary part, plain and LaTeX output agree, and printing works for every operation.',
     ['inputs'], 'all operations in 1, 2 and 3 dimensions, exact or floating point',
     'The tests compare a few printed strings.', [G], [('names', G + ' pretty_print_pge, pretty_print_cgg'), ('angle and axis', G + ' rotation_to_angle, name_angle')], ['printed strings'],
     'property-based testing: parse the name and reconstruct the operation', 'The parser of the names is part of the check; LaTeX layout is not judged.')

prop('C09', 'Arithmetic of Models is arithmetic of matrix-valued functions',
     'Every sequence of additions, subtractions, elementwise and matrix products, multiplication and division by numbers, symbols and arrays, transposition, trace, reshape and conjugation of Models '
     'gives a Model whose value at every point is the result of the same operations on the values, with matching shape, format and momenta. Results own their values and operands stay unmodified. '
     'Terms are read by expression or string with absent terms reading as zero, and combining mismatched shapes, formats or momenta raises.',
     ['inputs', 'programs'], 'all programs of operations over Models with scalar, dense, sparse and operator values',
     'The tests evaluate a few fixed expressions; interplay of operations, formats and coefficients is not sampled.',
     [M], [('arithmetic operators', M + ' Model.__add__ ... __truediv__'), ('validation of items', M + ' Model.__setitem__')], ['value of results at sample points', 'shape, format, momenta'],
     'property-based testing: random programs against pointwise numpy evaluation', 'Programs of up to 7 instructions, compared pointwise by an own evaluator of the coefficients.')

prop('C10', 'Parsed Hamiltonians have the value that the expression denotes',
     'A Model built from a string, a symbolic expression or a dictionary has at every point the value of that expression, including matrices, Kronecker products, list literals, trigonometric functions, exponentials and '
     'local names, with all symbols commuting. Its terms have distinct coefficients without numerical factors and nonzero values, momenta are those requested, and with a set of '
     'kept coefficients exactly the terms outside it are discarded, also in products.',
     ['inputs', 'configurations'], 'all expressions of the documented syntax, all dictionaries, momenta and sets of kept terms',
     'The tests parse a dozen fixed strings.', [M, K], [('parsing', K + ' sympify, monomials'), ('construction and normalization', M + ' Model.__init__')], ['terms and values of the Model'],
     'property-based testing: random syntax trees against direct evaluation', 'Expressions are evaluated from the syntax tree, never through the parser.')

prop('C11', 'Substitution and rotation of momenta act on the argument',
     'Substituting symbols by numbers, symbols or expressions gives a Model whose value is that of the original at the substituted point, with numerical exponentials evaluated and momenta renamed or removed as '
     'documented. Rotating the momenta evaluates the original at rotated momentum and rotations compose; functions of the coefficients act on every term.',
     ['inputs'], 'all lists of substitutions, all rotations and all Models and BlochModels',
     'The tests substitute in a few fixed Models.', [M], [('substitution', M + ' Model.subs, BlochModel.subs'), ('rotation', M + ' rotate_momenta'), ('transformation', M + ' transform_symbolic')],
     ['value and momenta of the result'], 'property-based testing: pointwise evaluation at the substituted point', 'Up to three simultaneous or chained substitutions.')

prop('C12', 'Exports give the same function as the Model',
     'Conversion of a Model to a symbolic matrix, a callable function or a numerically evaluated Model, and conversion of its values to dense or sparse arrays, gives objects with the value of the Model at every point. '
     'Callables take momenta and parameters by name, and no conversion modifies the Model.',
     ['inputs'], 'all Models with dense, sparse or operator values, polynomial or with exponentials, and BlochModels',
     'The tests export two or three dense Models.', [M], [('symbolic and callable exports', M + ' tosympy, lambdify, evalf'), ('formats', M + ' tocsr, toarray')], ['returned objects'],
     'property-based testing: pointwise comparison of every export with direct evaluation', 'Known unsupported combinations (vector-valued Models in lambdify, see DESIGN.md) are not generated.')

prop('C13', 'BlochModels are a faithful representation of lattice Hamiltonians',
     'Conversion between Models with exponentials of momenta and BlochModels keeps the function, and arithmetic, conjugation, transposition, multiplication and comparison of BlochModels agree with the same operations on functions of momentum. '
     'Bloch coefficients multiply by adding hopping vectors, compare equal exactly if hopping and coefficient are the same up to rounding, and equal coefficients have equal hashes.',
     ['inputs', 'programs'], 'all lattice Hamiltonians with integer, exact or floating point hopping vectors and symbolic coefficients',
     'The tests convert one or two Hamiltonians back and forth.', [M], [('coefficients', M + ' BlochCoeff'), ('conversion', M + ' BlochModel, tomodel')], ['values, keys, hashes'],
     'property-based testing: round trip and random programs against pointwise evaluation', 'Hopping vectors include nearly equal floats well inside and outside of the tolerance.')

prop('C14', 'Comparison, rounding and removal of small terms respect their tolerance',
     'Two Models are equal or close if and only if every entry of every term differs at most by the absolute tolerance plus the relative tolerance times the largest entry of the term, where a missing term is zero; the outcome does not depend on the order of operands or terms. '
     'Rounding rounds every entry and drops exactly the terms that become zero, and removal of small terms removes exactly those with a norm below the tolerance, for dense and sparse values alike, without modifying the Model.',
     ['inputs'], 'all pairs of Models and tolerances, with perturbations well inside or outside of the tolerance',
     'The tests compare identical or completely different Models only.', [M], [('comparison', M + ' __eq__, allclose'), ('removal', M + ' eliminate_zeros, around')], ['results of comparison, terms of results'],
     'property-based testing: constructed pairs of known distance', 'Distances are kept away from the tolerance by a factor.')

prop('C15', 'continuum_hamiltonian gives exactly the symmetric polynomial Hamiltonians',
     'For any set of discrete and continuous symmetries, dimension, degree or list of allowed powers, and any of its options, continuum_hamiltonian returns a basis of all Hermitian polynomial Hamiltonians with these powers that have the symmetries: '
     'members satisfy every symmetry and are linearly independent, and their number is the dimension of that space. Symmetries and other arguments are not modified.',
     ['inputs', 'configurations'], 'all finite sets of symmetries, dimensions 0 to 3, degrees, powers, momenta, dense or sparse solver',
     'The tests count the members for a few symmetry groups with one set of options.', [H, L], [('constraints and solution', H + ' continuum_hamiltonian, constrain_family'), ('beautification', H + ' make_basis_pretty'), ('null space', L + ' nullspace')],
     ['returned families'], 'property-based testing: independent numerical computation of the space of symmetric Hamiltonians',
     'The oracle samples the symmetry conditions at random momenta and finds the null space by SVD; cases without a clear gap only check membership.')

prop('C16', 'continuum_pairing gives exactly the symmetric superconducting pairings',
     'For any symmetries of the normal state, choice of phases, sign of the square of particle-hole symmetry and powers, continuum_pairing returns a basis of all pairing functions that have the exchange symmetry required by particle-hole symmetry '
     'and transform under the symmetries with the chosen phases: members are independent and their number is the dimension of that space.',
     ['inputs', 'configurations'], 'all sets of symmetries, phases, signs, powers and momenta',
     'The tests examine two or three cases.', [H], [('embedding into BdG form', H + ' continuum_pairing')], ['returned families'],
     'property-based testing: independent numerical computation of the space of allowed pairings', 'Same oracle as for normal Hamiltonians, with the transformation rule of the pairing function.')

prop('C17', 'bloch_family gives exactly the symmetric tight-binding Hamiltonians',
     'For any hopping vectors, symmetries, conserved quantities and orbital content, bloch_family returns a basis of all Hermitian Hamiltonians with the symmetries, on the given hoppings and their images if symmetrization is on, otherwise on exactly the given hoppings. '
     'This holds for Model and BlochModel output, with or without onsite terms and beautification, no argument is modified, and unsupported input raises.',
     ['inputs', 'configurations'], 'all lattices, hopping vectors, site permutations and finite groups, and all options',
     'The tests count families for a few lattices with default options.', [H], [('symmetrization and constraints', H + ' bloch_family, symmetrize_monomial, constrain_family')], ['returned families'],
     'property-based testing: independent numerical computation of the space of symmetric Hamiltonians on the hoppings',
     'Hoppings and their orbits are enumerated independently, the dimension is found by SVD of the sampled conditions.')

prop('C18', 'Family utilities preserve the space of Hamiltonians spanned by a family',
     'For families of polynomial and tight-binding Hamiltonians: constrain_family returns a basis of the symmetric members of the real span, check_symmetry raises exactly if some member is not symmetric to the stated precision, and symmetrize_monomial is the average over the group. '
     'remove_duplicates, make_basis_pretty and subtract_family return independent members whose span is that of the input (minus the second family), and refuse what they cannot do. '
     'hamiltonian_from_family and display_family give the sum of coefficient times member, and round_family rounds every member.',
     ['inputs'], 'all families of Models and BlochModels and all symmetries',
     'The tests use these functions on a few families inside one workflow and compare only sizes.',
     [H, L], [('constraining and checking', H + ' constrain_family, check_symmetry, symmetrize_monomial'), ('spans of families', H + ' remove_duplicates, subtract_family, make_basis_pretty, hamiltonian_from_family'),
              ('row reduction', L + ' rref, family_to_vectors')], ['returned families and exceptions'],
     'property-based testing: random families against real linear algebra on sampled values', 'Spans, ranks and symmetry conditions are recomputed with numpy from sampled values of the members.')

prop('C19', 'The symmetry finder returns exactly the symmetric candidates',
     'Among the candidates, the discrete symmetry finder returns, each exactly once and together with their products, those operations for which some unitary makes them a symmetry of the Hamiltonian, and nothing else; with the generators option it returns generators of that group. '
     'Every returned unitary makes its operation a symmetry, for any block structure, degeneracies and basis of the Hamiltonian, dense or sparse. '
     'Candidates that already have a unitary part and unsupported values raise.',
     ['inputs', 'configurations'], 'all Hamiltonians, conserved quantities, candidate sets and options',
     'The tests look at Hamiltonians whose symmetries are known by construction, with few block structures.',
     [F, G], [('reduction to blocks and search of the unitary', F + ' discrete_symmetries, _find_unitary, _find_unitary_blocks, _construct_unitary')], ['returned lists of operations'],
     'property-based testing: existence of the unitary decided independently by linear algebra on intertwiners', 'Whether a candidate is a symmetry is decided from the space of intertwiners computed with numpy.')

prop('C20', 'The symmetry finder returns exactly the conserved quantities',
     'Conserved quantities found for a Hamiltonian are a basis of the traceless Hermitian matrices that commute with it at every momentum and parameter, also when prettified, where they are in addition in reduced form and rounded, and with sparse linear algebra. '
     'The symmetry adapted basis is orthonormal and complete, and in it every coefficient is block diagonal with identical copies of irreducible blocks of which no two different ones are equivalent.',
     ['inputs', 'configurations'], 'all Hamiltonians with any multiplicities of blocks in any basis',
     'The tests sample a few multiplicities.',
     [F, L], [('reduction to irreducible blocks', F + ' _reduce_hamiltonian, separate_lie_algebra, symmetry_adapted_sun, conserved_quantities'), ('solution of the commutation equations', L + ' solve_mat_eqn, simult_diag')],
     ['returned generators and projectors'],
     'property-based testing: dimension and content compared with the commutant computed independently', 'The commutant is computed by SVD of the commutation equations.')

prop('C21', 'The symmetry finder returns exactly the continuous rotations',
     'For any k.p Hamiltonian the continuous rotation symmetries found, with or without prettifying and with dense or sparse linear algebra, leave the Hamiltonian invariant up to the stated precision, rotate about independent axes, and are as many as there are independent axes of rotations that are symmetries with some Hilbert space part. '
     'In fewer than two dimensions and for BlochModels there are none, and unsupported values raise.',
     ['inputs', 'configurations'], 'all polynomial Hamiltonians with any block structure in any basis, and all options',
     'The tests examine three or four Hamiltonians with full or axial rotation symmetry.',
     [F, G, L], [('linear equations for rotation and Hilbert space parts', F + ' continuous_symmetries, _reduced_model'), ('action of generators', G + ' ContinuousGroupGenerator.apply')], ['returned generators'],
     'property-based testing: number of rotation axes and invariance decided independently on the coefficients',
     'The linear system for axis and Hilbert space part is set up and solved with numpy for the whole Hamiltonian.')

prop('C22', 'Continuum expressions keep the operators they denote',
     'sympify turns a string, or a list of expressions, into the expression that it denotes: position and momentum operators do not commute and keep their order, all other names, also single '
     'letters and Greek letters, are commuting symbols or undefined functions, Pauli matrices, kron, identity and list literals are matrices, and local names stand for their definitions, which may be strings, numbers, arrays or '
     'expressions. SymPy expressions are returned unchanged except for leaving functions undefined, names that are not identifiers raise ValueError, and no call changes its arguments or the state of SymPy. '
     'lambdify gives a function of the names in the expression in alphabetical order with the value of the expression; monomials splits an expression into distinct products of generators whose sum with the coefficients is the expression; make_commutative makes exactly the given symbols commute.',
     ['inputs'], 'all expressions in positions, momenta, parameters, functions, matrices and local names',
     'The tests use these functions on a handful of commuting expressions only.',
     [K], [('parsing with noncommuting operators and local names', K + ' sympify'), ('callables', K + ' lambdify'), ('monomials and commutativity', K + ' monomials, make_commutative, gcd')],
     ['returned expressions and functions', 'raised exceptions', 'global state of SymPy'],
     'property-based testing: values with random matrices in place of the operators, from the syntax tree', 'Expressions are evaluated with random matrices for operators and compared with an independent evaluation of the syntax tree.')

prop('C23', 'bravais_point_group returns exactly the isometries of the lattice',
     'For any basis of any lattice in one to three dimensions, rotated, scaled, in skewed bases or embedded in more dimensions, the point group returned consists of exactly all orthogonal matrices that map the lattice to itself, each once and without unitary part, combined with time reversal and particle-hole symmetry if requested. '
     'With the generators option the result generates that group, the name printed with verbose is that of the Bravais type, and unsupported dimensions raise.',
     ['inputs', 'configurations'], 'all lattice bases up to three vectors, with lattice types clear at the accuracy of the code',
     'The tests use one set of parameters per Bravais type in a random orientation and check only the size of the group.',
     [F, LL], [('classification by Voronoi vectors', F + ' bravais_point_group, bravais_group_2d, bravais_group_3d, equals, pick_perp, threefold_axis, twofold_axis, check_bravais_symmetry')], ['returned set of operations and printed name'],
     'property-based testing: all isometries enumerated by brute force over integer matrices', 'Isometries are the integer matrices preserving the Gram matrix, found by enumeration.')

prop('C24', 'Lattice reduction, closest vectors and Voronoi vectors are exact',
     'lll returns a reduced basis of the same lattice with the integer unimodular coefficients relating it to the input. '
     'cvp returns exactly the n closest lattice vectors in order, or all vectors at the n shortest distances. '
     'voronoi returns one shortest vector of every nonzero class of the lattice modulo two and its negative, and in reduced form exactly the faces of the Voronoi cell; invalid bases raise.',
     ['inputs'], 'all lattice bases of up to four vectors in any dimension, all points and options',
     'The repository has no tests of these functions.',
     [LL], [('LLL', LL + ' lll, gs, is_c_reduced'), ('closest vectors', LL + ' cvp'), ('Voronoi cell', LL + ' voronoi')], ['returned arrays'],
     'property-based testing: brute force over lattice points in a box that contains the answer', 'Brute force enumeration of lattice points, Voronoi criterion for faces.')

prop('C25', 'Null spaces and solutions of matrix equations are complete and exact',
     'nullspace, dense or sparse, gives an orthonormal basis of all vectors annihilated by a matrix up to the stated tolerance, real for real matrices, and on request a basis of the orthocomplement; at most k_max vectors are given if that is requested. '
     'solve_mat_eqn and the functions based on it give a basis of exactly the matrices that solve all equations H_L,i X = X H_R,i, also conjugated, in a subspace, hermitian or traceless on request, and inconsistent input raises. matrix_basis gives the elementary matrices requested.',
     ['inputs', 'configurations'], 'all matrices, families of equations and options, dense and sparse',
     'The tests examine random matrices of a few sizes with generic rank only.',
     [L], [('null space', L + ' nullspace, split_list'), ('matrix equations', L + ' solve_mat_eqn, matrix_basis')], ['returned bases'],
     'property-based testing: rank-revealing oracle by construction and independent SVD', 'Matrices of known null space by construction; dimension of solutions by numpy SVD of explicitly assembled equations.')

prop('C26', 'Linear algebra utilities are exact',
     'simult_diag gives orthonormal bases of exactly the joint eigenspaces of commuting normal matrices and raises for others. rref and sparse_basis give the unique reduced row echelon form with the row operations leading to it, rounded and over the reals as requested. '
     'allclose, prop_to_id, the inverse of integer matrices, family_to_vectors and matrix products agree with their definitions for all formats of input, and matrices that have no integer inverse raise.',
     ['inputs'], 'all matrices of small dimension, with degenerate spectra and dependent rows, dense and sparse',
     'The tests call these functions only indirectly or on generic random matrices without degeneracy.',
     [L, G], [('simultaneous diagonalization', L + ' simult_diag'), ('echelon forms', L + ' rref, sparse_basis'), ('comparison', L + ' allclose, prop_to_id'), ('integer inverse', G + ' _inv_int')], ['returned arrays'],
     'property-based testing: constructed answers and exact rational arithmetic', 'Eigenspaces by construction, echelon forms by exact fraction arithmetic, definitions in numpy.')

prop('C27', 'Random matrices belong to the requested ensemble',
     'Gaussian and circular random matrices of all ten symmetry classes have exactly the symmetries documented for the class, unitarity and the requested topological invariant, and for every size and invariant that is impossible ValueError is raised. '
     'All independent components allowed by the symmetries are present with the documented distribution, and results are reproducible from the seed or state of the random number generator and proportional to v. The tables of symmetry squares and operators describe these matrices.',
     ['inputs', 'configurations'], 'all classes, sizes, invariants, scales and random number generators',
     'The repository uses these functions as a source of test data but does not test them.',
     [RM], [('Gaussian ensembles', RM + ' gaussian'), ('circular ensembles', RM + ' circular'), ('classification', RM + ' t, p, c, h_t_matrix, h_p_matrix')], ['returned matrices'],
     'property-based testing: symmetry conditions, invariants and statistical moments on random draws', 'Allowed components enumerated by projection; moments tested at 7 standard deviations with derandomized seeds.')

prop('C28', 'Copies and pickles of Models and operations are equal and independent',
     'A copy of a Model, BlochModel, symmetry operation or continuous generator (copy method, copy module, any pickle protocol, a pickle read by another process) is equal to the original: it has the same class, terms, values, rotation, unitary and format, compares equal with equal hash, and everything computed from it is equal. '
     'Modifying the copy or the original in place does not modify the other.',
     ['inputs', 'histories'], 'all classes, formats, representations of rotations, kept terms, ways of copying and repeated copies',
     'The tests copy nothing; copies and pickles must work for every representation and be independent for every modification.',
     [M, G], [('copies of Models', M + ' Model.copy, BlochCoeff.__getnewargs__'), ('copies of operations', G + ' PointGroupElement, ContinuousGroupGenerator')], ['returned objects'],
     'property-based testing: copies and pickles against originals, modification of one of the two, pickles read in another process', 'Values are compared as arrays, keys by lookup; the other process has another hash seed.')

prop('C29', 'Results depend on the arguments only, not on previous calls',
     'Whatever was computed before, and however results and arguments of previous calls were modified afterwards, a call of a public function or method returns what it returns in a process that has computed nothing else, and repeated calls agree. '
     'No call changes global state: random numbers, print and error settings of numpy, warning filters, environment, working directory, sympy converters.',
     ['inputs', 'histories'], 'all sequences of calls of operations, Models, parsing, factories, groups, families, finders, lattices, random matrices, linear algebra and names',
     'The library caches spin matrices, identities, products and parsed expressions; whether a cache is keyed completely and not exposed to modification depends on the history of calls, which unit tests do not vary.',
     [M, G, H, F, L, K, LL, RM], [('caches', G + ' lru_cache'), ('in-place operations', M + ' Model.__iadd__')], ['returned values', 'global state'],
     'stateful property-based testing: random histories of calls, the same call in a forked process without history as the reference', 'Results of algorithms that may choose a basis are compared as sets and spans.')

prop('C30', 'Generation of Hamiltonians and symmetry finding are inverse to each other',
     'The family of Hamiltonians generated from the symmetries, conserved quantities and continuous rotations found in a Hamiltonian contains that Hamiltonian, and a generic Hamiltonian in it has exactly the same symmetries, conserved quantities and rotations according to the finder. '
     'In a generic Hamiltonian generated from given symmetries and conserved quantities the finder finds all of them and their products, with unitary parts that agree with those given up to conserved unitaries.',
     ['inputs', 'configurations'], 'all polynomial and Bloch Hamiltonians on square, hexagonal, cubic and one-dimensional lattices and all representations of symmetries',
     'The round trip crosses all parts of the library; the tests check it for a few fixed Hamiltonians.',
     [H, F], [('generators', H + ' continuum_hamiltonian, bloch_family'), ('finders', F + ' symmetries')], ['families', 'symmetries found'],
     'property-based testing: round trips between symmetry finder and generator', 'Unitary parts that generate an infinite group are used with symmetrize=False, as the average over the group is then not possible; few hoppings per model. Membership by projection of values at random momenta; a generic member is a random combination, independent for each parameter of the Hamiltonian.')

# --- more properties are added above this line ---

LEVEL = 'exploration'


def main():
    ids = sorted(T)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for i in ids:
            t = T[i]
            f.write(json.dumps({'id': i, 'title': t['title'], 'statement': t['statement'], 'quantifier': t['quantifier'],
                                'why_tests_cant': t['why_tests_cant'], 'anchors': t['anchors']}) + '\n')
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'checks': [{'property': i, 'quick_cmd': f'./run.py --property {i} --tier quick', 'thorough_cmd': f'./run.py --property {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': T[i]['technique'], 'level': LEVEL,
                       'level_note': T[i]['note'] + ' Generated cases only: absence of violations outside the sample is not established.'} for i in ids],
           'not_applicable': [],
           'notes': 'All checks are random search with Hypothesis over case descriptions with explicit oracles; replay with ./run.py --property ID --replay FILE.'}
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    for i in ids:
        assert len(T[i]['title']) <= 80, i
        assert T[i]['statement'].count('. ') <= 2, (i, T[i]['statement'])
    print(len(ids), 'properties')


main()
