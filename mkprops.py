"""Writes properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, symbols=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files))
    import re
    mech = []
    for name in symbols:
        short = name.split('.')[-1]
        for f in files:
            path = '/repo/' + f
            if re.search(r'^\s*(def|class) %s\b' % re.escape(short), open(path).read(), re.M):
                mech.append(dict(name=name, where=f)); break
        else:
            raise SystemExit('no anchor for ' + name)
    d['anchors']['mechanism'] = mech
    P.append(d)
SF='qsymm/symmetry_finder.py'; HG='qsymm/hamiltonian_generator.py'; GR='qsymm/groups.py'; MO='qsymm/model.py'; LI='qsymm/linalg.py'; KC='qsymm/kwant_continuum.py'
p('C01','Every discrete symmetry returned is a symmetry of the Hamiltonian',
  "Whatever legal eigenvector basis, rounding, iteration order or cache state the run meets, every discrete symmetry that `symmetries` or `discrete_symmetries` returns (with full group, `generators=True`, dense or sparse algebra, Model or BlochModel) has a unitary U and satisfies U H(±R^-1 k)^(*) U^dagger = ±H(k) for all momenta and all real parameter values, with the signs and conjugation its flags state. It is never merely a symmetry of one block, one term or one momentum.",
  ['inputs','schedules','configurations'],"all Hermitian Hamiltonian families, candidate sets (subsets, any order), and all orthonormal bases a LAPACK/ARPACK call may return for degenerate subspaces",
  "Tests use seeded random matrices of a few sizes with the one basis this LAPACK build happens to return and one hash order; degenerate subspaces have a continuum of legal bases.",[SF,LI,GR,MO],['symmetries','discrete_symmetries','_find_unitary','_construct_unitary','_reduce_hamiltonian'])
p('C02','The discrete symmetry search is complete and returns a group',
  "When the candidates form a group, the result contains exactly those candidates for which some unitary U exists, regardless of the order candidates are visited, the numerical basis returned, the hash seed or block structure; it is closed under multiplication and inverse. With `generators=True` the elements returned generate the same group.",
  ['inputs','schedules','configurations'],"all Hamiltonian families, candidate groups and subgroups, all iteration orders and legal numerical bases",
  "Tests compare against a handful of hand-derived groups; a missing element in an untested block structure or visiting order is invisible.",[SF,GR],['discrete_symmetries','_find_unitary_blocks','_construct_unitary','generate_group'])
p('C03','Conserved quantities are exactly the traceless commutant',
  "The conserved quantities returned for a Hamiltonian family are Hermitian, traceless, linearly independent, commute with H(k) at every momentum and parameter value, and together with the identity span every onsite operator that commutes with the family. This holds for any multiplicity structure, with or without `prettify` or sparse algebra, and for any legal numerical basis.",
  ['inputs','schedules','configurations'],"all families, all multiplicity structures (equivalent and inequivalent irreducible blocks), all legal bases",
  "Tests check a few fixed multiplicities with one basis returned by LAPACK.",[SF,LI],['_reduce_hamiltonian','conserved_quantities','separate_lie_algebra','symmetry_adapted_sun','simult_diag','solve_mat_eqn'])
p('C04','Continuous rotation symmetries are sound and complete',
  "Every continuous rotation generator returned has a real rotation part, and leaves H(k) invariant to first order at every momentum and parameter; the generators are linearly independent and their rotation parts span exactly the rotations that can be compensated by some onsite operator. Lattice (Bloch) models and models of dimension at most one yield none.",
  ['inputs','schedules','configurations'],"all k.p families in up to 3 dimensions, all legal numerical bases, dense and sparse, prettified or not",
  "Tests check a few models with known answer and one numerical basis.",[SF,GR],['continuous_symmetries','_reduced_model','ContinuousGroupGenerator.apply'])
p('C05','Continuum families are exactly the symmetric Hamiltonians',
  "`continuum_hamiltonian` returns linearly independent Hermitian terms, each invariant under every requested symmetry (unitary, antiunitary, antisymmetry, continuous), and whose real span is the whole space of invariant Hamiltonians with the allowed total powers and per-direction powers. The span does not depend on the order of the symmetries, on the numerical basis, on prettify or on sparse algebra.",
  ['inputs','schedules','configurations'],"all symmetry generator sets, dimensions, power restrictions, momentum names, legal numerical bases and orders",
  "Tests check counts for a few symmetry sets; over- or under-constrained spans elsewhere pass.",[HG,LI],['continuum_hamiltonian','constrain_family','continuum_variables','family_to_vectors','nullspace'])
p('C06','Bloch families are exactly the symmetric tight-binding terms',
  "`bloch_family` returns linearly independent Hermitian terms, each invariant under every requested symmetry and commuting with every requested conserved quantity; with `symmetrize=True` they span the group average of all terms on the given hoppings, otherwise all invariant combinations of the given hoppings. Result format (Model or BlochModel), order of inputs, numerical basis and prettify do not change the span.",
  ['inputs','schedules','configurations'],"all lattices, site permutations, orbital counts, hopping sets, symmetry orders, onsite flags and legal numerical bases",
  "Tests cover graphene and a single fixed example.",[HG,GR,MO],['bloch_family','symmetrize_monomial','remove_duplicates','constrain_family','symmetry_from_permutation'])
p('C07','Pairing families are exactly the symmetric pairing terms',
  "`continuum_pairing` returns linearly independent pairing functions Delta(k) that satisfy the particle-hole constraint of the requested square and every requested symmetry with its phase in particle-hole space, and these span all such functions of the allowed powers. The caller's symmetry operators keep acting on the normal-state space.",
  ['inputs','schedules','configurations'],"all normal-state symmetry sets, phases, particle-hole squares, powers and legal numerical bases",
  "Tests cover a mirror with a few phases, and compare the code with itself.",[HG],['continuum_pairing'])
p('C08','Family tools preserve the span they promise to preserve',
  "`constrain_family` returns a basis of the invariant part of the input span, `remove_duplicates` a basis of the same span, `subtract_family` a basis of the orthogonal remainder (or an error when it is not a subfamily), and `make_basis_pretty` the same span up to rounding. `round_family` keeps every coefficient up to the rounding asked for, `hamiltonian_from_family` is the sum of coefficient times member, `symmetrize_monomial` the average over the group. `check_symmetry` raises exactly when some member violates some symmetry.",
  ['inputs','schedules','configurations'],"all families (redundant, partly symmetric, dense coefficients), orders and legal numerical bases",
  "Tests use a few constructed families.",[HG,LI],['constrain_family','remove_duplicates','subtract_family','make_basis_pretty','check_symmetry','hamiltonian_from_family','symmetrize_monomial','round_family','rref','nullspace'])
p('C09','Model arithmetic equals arithmetic of matrix-valued functions',
  "After any sequence of additions, subtractions, scalar, symbol, matrix and Model products, conjugations, transposes, traces, copies, momentum rotations and evaluations, a Model or BlochModel evaluates at every momentum and parameter value to what the same sequence of operations on plain matrix functions gives. Equality of Models agrees with equality of those functions, and an operation on one Model never changes another.",
  ['histories','inputs','configurations'],"all operation sequences over all formats (dense, sparse, scalar), with caches evicted at arbitrary points",
  "Tests check single operations on a few models; wrong results after a chain of operations, cache evictions or aliasing are not reached.",[MO],['Model','BlochModel','BlochCoeff'])
p('C10','Conversions between representations preserve the function',
  "Converting between text, sympy expression, dictionary, Model and BlochModel, dense and sparse, applying `subs`, `tosympy`, `lambdify`, or splitting by `keep`, never changes the matrix-valued function that is represented, beyond the substitution or truncation asked for. `subs` leaves exactly the momenta that were not replaced by other quantities, and moves exponentials that have become numbers into the matrices.",
  ['inputs','histories','configurations'],"all models, conversion chains, substitution forms, momentum names, symbol object identities and cache states",
  "Tests check a few examples, always with the very symbol objects that are cached in the process.",[MO,KC],['Model','BlochModel','_to_bloch_coeff','Model.subs','Model.lambdify','Model.tosympy'])
p('C11','Point-group elements form a group that acts on Hamiltonians',
  "For all elements, product, power, inverse and identity satisfy the group laws including the unitary part (with complex conjugation for antiunitary elements), and applying a product to a Model or BlochModel equals applying the factors in turn. Equality, hashing and ordering are consistent with each other and with the physical action, and none of this depends on what was computed or cached before.",
  ['inputs','histories','configurations'],"all elements (integer, exact and floating rotations, with or without unitary part), all products, all cache histories",
  "Tests check types of a few products and one cache history.",[GR],['PointGroupElement','_mul','_inv','_eq','_make_int'])
p('C12','Generated and predefined groups are complete groups',
  "`generate_group` returns exactly the closure of its generators and `generate_subgroups` exactly all subgroups, whatever the order or redundancy of the input; the predefined square, cubic and hexagonal groups contain exactly the documented elements, and with `spin` every element's unitary is the representation of its own rotation. `symmetry_from_permutation`, `rotation`, `mirror`, `time_reversal` and the other constructors build the operator that really leaves a system with that symmetry invariant.",
  ['inputs','schedules','configurations'],"all generator sets, orders, hash seeds, dimensions, flags, spins and spin representations",
  "Tests only use the predefined groups indirectly with one hash seed.",[GR],['generate_group','generate_subgroups','square','cubic','hexagonal','symmetry_from_permutation','rotation','mirror'])
p('C13','bravais_point_group returns the exact lattice point group',
  "For every 1D, 2D and 3D Bravais lattice, in any orientation and unit of length, for any choice of primitive vectors and when embedded in a higher-dimensional space (then in the Gram-Schmidt frame of the periods), `bravais_point_group` returns exactly the orthogonal maps that leave the lattice invariant (times time-reversal and particle-hole when requested); with `generators=True` the result generates that group. The answer does not depend on the numerical basis or iteration order.",
  ['inputs','configurations','schedules'],"all 14+5+1 lattice types, generic and special parameters, orientations, unimodular basis changes and embeddings",
  "Tests check group orders for one standard orientation of each type.",[SF,'qsymm/kwant_linalg_lll.py',GR],['bravais_point_group','bravais_group_2d','bravais_group_3d','equals'])
p('C14','Random-matrix ensembles have their symmetry and obey the rng',
  "For every stream the random number generator may deliver, `gaussian` returns a Hermitian and `circular` a unitary matrix with every symmetry documented for its class, of the requested size and topological charge. Over a random stream, `gaussian` is distributed isotropically within its class, with the requested standard deviation for each independent off-diagonal component, and `circular` by the invariant measure of its class. An integer seed or generator makes the result reproducible, draws only from that generator and leaves numpy's global random state untouched; invalid sizes, classes and charges are rejected.",
  ['inputs','schedules','histories'],"all classes, sizes, charges, generator kinds and random streams",
  "Tests call the ensembles with one seed, mostly without checking symmetries.",['qsymm/kwant_rmt.py'],['gaussian','circular','ensure_rng'])
p('C15','Concurrent callers get the answers serial callers get',
  "When several threads use the library at the same time, sharing Models, symmetry operators and candidate sets, under every interleaving each call completes and returns what it would return alone. Process-wide state of numpy, sympy and the library is afterwards as it was before.",
  ['schedules'],"all interleavings of calls in two or more threads at source-line and call granularity",
  "All tests are single threaded.",[KC,GR,MO,HG,SF],['sympify','_mul','_eq','_symbol_normalizer','_find_momenta'])
p('C16','A failing or interrupted call leaves no damage behind',
  "When an allocation, a numerical routine or a symbolic routine fails, or the user interrupts, at any point inside a call, the call either returns a correct result or raises; the arguments, the objects created before and all process-wide state are unchanged, and repeating the call gives the correct answer. A failure is never turned into a wrong result.",
  ['fault_sequences','crash_points'],"all calls and all positions of an injected failure (MemoryError, LinAlgError, ARPACK non-convergence, KeyboardInterrupt), also repeated",
  "Tests never inject a failure.",[KC,MO,SF,HG,GR,LI],['sympify','symmetries','continuum_hamiltonian','bloch_family'])
p('C17','Library calls never modify their arguments',
  "No public function or method modifies a Model, point-group element, generator, symmetry list, candidate set, family, array, hopping list or dictionary passed to it, in value, identity of contents or equality behaviour. The same arguments can therefore be passed again, in any order and to any function, with the same effect.",
  ['inputs','histories'],"all public calls and sequences of calls that reuse the same argument objects",
  "Tests build fresh arguments for almost every call and never compare them afterwards.",[MO,GR,SF,HG,LI],['bloch_family','continuum_pairing','discrete_symmetries','constrain_family','Model'])
p('C18','Objects survive copying, pickling and a process restart',
  "Models, BlochModels, Bloch coefficients, point-group elements, continuous generators and result lists that are copied, deep-copied or pickled and restored, in the same process or in another one with a different hash seed and cold caches, equal the original, act the same, and work as arguments, set members and dictionary keys together with locally made ones. Every object returned can be printed.",
  ['crash_points','histories','configurations'],"all library objects, all pickle protocols, restart into a process with another hash seed and cold or warm caches",
  "No test pickles anything or starts a second process.",[MO,GR,SF],['BlochCoeff','BlochModel','PointGroupElement','ContinuousGroupGenerator','PrettyList'])
p('C19','Version lookup survives every git and filesystem behaviour',
  "Importing the package yields a version string whatever git does: missing or failing executable, foreign or unreadable repository, no tags, dirty tree, large output, failing sub-commands. The string is exactly the one the git answers determine (release, distance, hash, dirty mark), the static version file wins when present, every child process is reaped and no pipe is left unread; writing the static version replaces the file.",
  ['fault_sequences','configurations'],"all combinations of git replies, failures at each child process, file system errors and archive metadata",
  "No test touches version lookup; the build has one git state.",['qsymm/_version.py','qsymm/_static_version.py'],['get_version','get_version_from_git','get_version_from_git_archive','pep440_format'])
p('C20','Results do not depend on the history of the process',
  "The result of a call is the same in a fresh process and after any sequence of other calls, failed calls, cache evictions, changes the user made to returned objects, and reseeding or use of the random number generators. Library calls other than the random ensembles neither read nor advance the global random state, except where a sparse solver starts from a random vector, which must not affect the result.",
  ['histories','configurations'],"all call histories, including in-place changes to earlier results, hash seeds and cache sizes",
  "Tests run in one order; nothing compares a warm process with a fresh one.",[GR,MO,KC,LI,SF],['_mul','_inv','_symbol_normalizer','_bloch_normalizer','_find_momenta'])
p('C21','Short names of point-group elements describe the element',
  "Every printed form of a PointGroupElement (repr, `_repr_latex_`, `str`, `pretty_print_pge`, PrettyList) reads back to the element: letter (rotation, mirror, inversion, rotoinversion), sense and angle (simple fractions of pi), axis or mirror normal, time reversal / particle-hole / chiral type, the action on H(k) and the unitary, in 1, 2 and 3 dimensions; the same for a ContinuousGroupGenerator of unit strength (axis, action, L). Printing never raises, and does not depend on earlier calls, caches or the eigenvector basis LAPACK returns.",
  ['inputs','schedules','configurations'],"all elements with R in O(d), d=1..3, products and inverses of them, all legal LAPACK return values and cache states","Tests do not check names.",[GR],['pretty_print_pge','rotation_to_angle','pretty_print_cgg'])
p('C22','LLL, closest-vector and Voronoi routines are exact',
  "For every lattice basis (any length unit, skewed, embedded in more dimensions): `lll` returns a basis of the same lattice with the integer transformation to it, size-reduced (Gram-Schmidt coefficients at most 1/2) and c-reduced; `cvp` returns the n closest lattice vectors in order of distance, with `group_by_length` all of the n closest shells; `voronoi` returns a shortest vector of every class modulo 2, and with `reduced=True` exactly the vectors whose faces bound the cell. Malformed input raises ValueError; arguments are not changed.",
  ['inputs','configurations'],"all lattice bases of 1 to 4 vectors in up to 6 dimensions, targets inside, outside and on the boundary of cells","Tests reach them only through bravais_point_group.",['qsymm/kwant_linalg_lll.py'],['lll','cvp','voronoi'])
p('C23','Spin and orbital angular momentum represent rotations',
  "`spin_matrices` are the standard spin operators of every integer and half-integer spin (other spins are refused); `spin_rotation(n, s)` is exp(-i n.s), the rotation by |n| around n in any spin or orbital representation (sign -1 at 2 pi for half-integer spin), exact integers with `roundint=True`; `L_matrices(d, l)` rotates positions (l=1) and the documented real p and d orbitals (l=2) as functions rotate. `rotation`, `mirror`, `time_reversal`, `inversion`, `particle_hole`, `chiral`, `identity` and the named point groups with `spin` have the documented R, conjugation, antisymmetry and U, with U S U^-1 = det(R) R S, and TR reversing spin with square (-1)^2s. Contradictory arguments raise; arguments are never changed and results never share state with later calls.",
  ['inputs','histories','configurations'],"all spins up to 13/2 and sums of them in any basis, all rotation vectors and axes, all orders of calls","Tests use a few spins and angles around z; d orbitals around other axes are never checked.",[GR],['spin_matrices','spin_rotation','L_matrices','rotation','mirror','time_reversal'])
p('C24','Text Hamiltonians are parsed with the documented rules',
  "`sympify` gives every text in the documented grammar the value that reading it by hand gives: x, y, z, k_x, k_y, k_z do not commute and keep their order, single letters and lower-case Greek names (other than I and pi) are symbols or undefined functions even where sympy has other meanings for them, e is Euler's number as a positive symbol, sigma_*, kron, eye and identity are matrices, list literals are matrices; `locals` (texts, numbers, lists, arrays, sympy objects) override all of these and are not changed; invalid names raise ValueError. sympy objects pass through with functions made undefined and a warning if locals are given. `monomials` splits a polynomial without losing or changing terms, `make_commutative` changes exactly the named symbols, `lambdify` takes the sorted names (including functions) and gives the value, and a Model made of the text has its value. None of this depends on earlier (failed) parses or caches.",
  ['inputs','histories','configurations'],"all expressions in the documented grammar, all locals, all orders of calls, failures and cache evictions","Tests parse a few expressions.",[KC],['sympify','monomials','make_commutative','lambdify'])
p('C25','Linear-algebra building blocks keep their documented contracts',
  "Whatever legal basis LAPACK or ARPACK returns: `nullspace` (dense, every sparse format, with complement, with `k_max`) gives an orthonormal basis of the whole null space (real for real matrices) within its documented limits; `simult_diag` gives one block of orthonormal vectors for every distinct set of joint eigenvalues of commuting normal matrices, and refuses others; `solve_mat_eqn` gives a basis of all X with X HL = HR X, or X HL = HR X* where `conjugate`, Hermitian or traceless if asked, dense and sparse, as an array of matrices; `rref` and `sparse_basis` give the reduced row echelon form and the invertible operations; `matrix_basis` spans exactly the described matrices, each an object of its own; `family_to_vectors` is linear and isometric in the given key order; `allclose`, `prop_to_id`, `split_list` and the inverse of integer rotations decide as documented, relative to the largest entry. For Lie algebras of trace-orthonormal Hermitian matrices in any basis, `separate_lie_algebra` splits center and semisimple part, `casimir` commutes with all generators (and refuses algebras with a center), and `symmetry_adapted_sun`, `_reduce_hamiltonian` and `conserved_quantities` give a basis adapted to the symmetry, irreducible blocks and the conserved quantities of a Hamiltonian. Arguments are never changed; malformed input raises ValueError.",
  ['inputs','configurations','histories'],"all matrices with singular values and eigenvalue gaps away from the tolerances, all legal LAPACK/ARPACK return values and starting vectors","Tests call simult_diag, solve_mat_eqn and the sparse basis on a few random matrices; conjugate equations, sparse formats, degenerate normal matrices and large integer rotations never.",[LI,GR,SF],['nullspace','simult_diag','solve_mat_eqn','rref','sparse_basis','matrix_basis','family_to_vectors','allclose','_inv_int','separate_lie_algebra','symmetry_adapted_sun','casimir'])
p('C26','Contradictory arguments are refused, and refusals leave no trace',
  "Arguments that contradict each other or the documentation raise an exception and never give a result: Models of different momenta, shapes or formats combined; constants or values of another shape or format (including a declared `shape` or `format`); division by anything but numbers; elementwise products of sparse Models; keys of BlochModels that are sums, carry momenta outside imaginary exponentials or symbols in hoppings; rotations acting on another number of momenta; non-Hermitian continuous generators; exact and floating point rotations mixed; permutations between sites that do not match; scalar Models given to the symmetry finders; powers, hoppings, orbitals, coefficients or members of a family that do not fit. A refusal changes no argument, and the neighbouring valid call gives its correct result before and after it.",
  ['inputs','histories','configurations'],"all contradictory arguments of these kinds next to valid ones, all orders of refusals and valid calls, cache sizes and hash salts","Tests never call the library with contradictory arguments.",[MO,GR,HG,SF],['__add__','__setitem__','BlochCoeff','_to_bloch_coeff','ContinuousGroupGenerator','_mul','symmetry_from_permutation','constrain_family','check_symmetry'])
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open('properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
