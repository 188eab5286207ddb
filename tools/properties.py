p('C01', 'Operator automaton represents exactly the sum of the added terms',
  'For any set of operator-string terms added to the automaton - any supports, operators, coefficients, site-dependent identities, including repeated or overlapping terms - the generated chain of symbolic matrices multiplies out to exactly the formal sum of those terms, each with its multiplicity and coefficient. The chain starts with one row, ends with one column, and neighbouring matrices have matching dimensions.',
  ['inputs', 'programs'], 'every sequence of added terms (support, operators, coefficients) and every assignment of per-site identity operators',
  'the tests add a few fixed Hamiltonians and compare matrices literally; repeated terms, single-site duplicates and mixed identities are not sampled',
  [G + 'fsm.h', G + 'symb_alg/coef_op_alg.h'], [('AddPath', G + 'fsm.h'), ('GenMatRepr / CastFSMPathToMatRepr_', G + 'fsm.h')])
p('C02', 'Compressing the operator matrices never changes the operator',
  'For any set of terms, the compressed chain of symbolic matrices multiplies out to exactly the same formal sum of operator strings as the terms that were added, coefficients and multiplicities included. Compression never increases a bond dimension and leaves a well-formed chain (one row at the left end, one column at the right end, matching inner dimensions).',
  ['inputs', 'programs'], 'every sequence of added terms; all coincidences between their operators and coefficients',
  'whether rows or columns merge depends on every coincidence between labels; the tests compare a handful of chains with literal expectations',
  [G + 'fsm.h', G + 'symb_alg/coef_op_alg.h', G + 'symb_alg/sparse_mat.h'], [('GenCompressedMatRepr', G + 'fsm.h'), ('row/column compresser and delinearisation', G + 'symb_alg/coef_op_alg.h')])
p('C04', 'Symbolic coefficients and operators behave as formal sums',
  'A symbolic coefficient denotes the multiset of its labels and a symbolic operator denotes a sum of coefficient-operator products: equality holds exactly when the denoted sums agree, addition is the sum of both sides (commutative, associative, null as zero), copying and moving keep the value, and realising them with numbers and operators gives the corresponding weighted sum.',
  ['inputs'], 'every choice of label lists for up to three coefficients and two operators, and every numeric value of the labels',
  'equality of label multisets is a statement about all pairs of lists; the tests compare a few constants',
  [G + 'symb_alg/coef_op_alg.h'], [('coefficient representation', G + 'symb_alg/coef_op_alg.h'), ('operator representation', G + 'symb_alg/coef_op_alg.h')])
p('C05', 'Sparse symbolic matrix behaves like a dense matrix under any edit history',
  'After any sequence of element writes, row and column removals, swaps, permutations and copies, every element, row, column, emptiness query and equality comparison of the sparse matrix agrees with a dense matrix that went through the same operations. Writing the null element clears the place. Copies are independent of the original, and equality depends on shape and elements only, not on how the matrix was built. (Removing the only row or column leaves the empty 0x0 matrix.)',
  ['histories', 'inputs'], 'every history of edits from every starting matrix',
  'index bookkeeping errors need specific shapes and interleavings of removals, swaps and writes',
  [G + 'symb_alg/sparse_mat.h'], [('SetElem / RemoveRow / RemoveCol / Transpose*', G + 'symb_alg/sparse_mat.h')])
p('C06', 'Taking common coefficients out of operators, rows or columns is exact',
  'When the coefficient of a symbolic operator is separated from its base, coefficient times base is the operator again. When a common coefficient is reported for a row or column and taken out, that coefficient times what remains equals the original line and no other element changes; no coefficient is reported only for empty lines.',
  ['inputs'], 'every operator and every row or column, with all coincidences between coefficients',
  'the separation depends on whether several coefficients coincide; tests use one or two constants',
  [G + 'symb_alg/coef_op_alg.h'], [('SeparateCoefAndBase', G + 'symb_alg/coef_op_alg.h'), ('TryCatch*CommonDivisorCoef / Remove*Coef', G + 'symb_alg/coef_op_alg.h')])
p('C07', 'Compressing one bond keeps the product of the two neighbouring matrices',
  'Row and column compression of a symbolic matrix against its neighbour, and the removal of linearly dependent lines alone, leave the product of the two matrices unchanged, keep the outer dimensions, and never enlarge the shared one - provided, for every shared index, at least one of the two sides carries no coefficients. Sorting rows or columns returns the permutation that was applied.',
  ['inputs'], 'every pair of neighbouring matrices that satisfies the restriction',
  'linear dependence and sorting depend on all elements at once; the tests check three small constants',
  [G + 'symb_alg/coef_op_alg.h', G + 'symb_alg/sparse_mat.h'], [('SparOpReprMatRowCompresser / ColCompresser', G + 'symb_alg/coef_op_alg.h'), ('SparOpReprMatRowDelinearize / ColDelinearize', G + 'symb_alg/coef_op_alg.h')])
p('C08', 'Label conversion is a bijection that survives any order of conversions',
  'Converting objects to labels gives equal labels exactly to equal objects, the label of an object never changes later, and the label-to-object table maps every label handed out back to its object, with the identity at label zero when one was given.',
  ['histories', 'inputs'], 'every history of conversions, with all coincidences between objects',
  'label stability is about all orders of conversion', [G + 'fsm.h'], [('LabelConvertor', G + 'fsm.h')])
p('C09', 'Element container never leaks, double-frees or shares elements',
  'After any history of allocation, release, element access, copying, moving and assignment (including self-assignment), each position holds either nothing or exactly the value last stored there, copies are independent, moved-from containers own nothing of the moved data, and destruction releases every element exactly once.',
  ['histories'], 'every history of operations on several containers', 'ownership errors need specific sequences of copy, move, release and reuse',
  [I + 'one_dim_tn/framework/duovector.h'], [('copy/move/alloc/dealloc', I + 'one_dim_tn/framework/duovector.h')])
p('C10', 'Case parameters come back as written, or the failure is reported',
  'For any parameter file and any requested type, a parameter that is present with the right type is returned with exactly the value in the file; one that is missing takes the default where a default is given. A missing mandatory parameter, a value of the wrong type (including a number that does not fit the requested type), an unreadable file, or a file without the parameter object never yields a value: the program exits with status 1 after naming file and key, and the non-fatal form returns failure and leaves its output untouched.',
  ['inputs', 'configurations'], 'every JSON value for every accessor, every presence/absence combination',
  'the tests try a few well-formed and ill-formed constants; numeric ranges, element types in arrays and mixed types are unbounded',
  [I + 'case_params_parser.h'], [('StrictParse / TryParseStrict', I + 'case_params_parser.h')])
p('C11', 'Printed symbolic operators name exactly their summands',
  'The printed form of a symbolic coefficient or operator lists exactly its summands: every coefficient label by its letter (1 for the identity, parenthesised sums), every operator by a symbol that identifies its label, 0 for the null element; printing with numbers shows the sum of the numbers the labels stand for.',
  ['inputs'], 'every coefficient with labels up to 26 and every operator label within the bound', 'the printed form of sums with several distinct labels is not tested',
  [G + 'symb_alg/coef_op_alg.h'], [('ToString', G + 'symb_alg/coef_op_alg.h')])
p('C12', 'Every added term is its own path, and generation does not disturb the automaton',
  'Each added term becomes one path that waits in the ready state before its support, uses intermediate states shared with no other term inside it, and stays in the final state behind it, carrying the term operators and the identities elsewhere. Generating matrices, once or repeatedly, compressed or not, changes nothing: the result is reproducible, and terms added afterwards are part of the next generation.',
  ['histories', 'programs'], 'every history of additions and generations', 'tests build an automaton once and generate once',
  [G + 'fsm.h'], [('AddPath', G + 'fsm.h'), ('GenMatRepr const', G + 'fsm.h')])
p('C13', 'Generated matrix product operators equal the sum of the added terms',
  'For any Hamiltonian terms given to the MPO generator - any number of operators per term on different sites in any order, real or complex coefficients of any magnitude, explicit or uniform string operators between them, one- and two-body shorthands - the generated chain of tensors, compressed or not, contracts to exactly the sum of the coefficient-weighted operator products, with string operators on the sites between and identities elsewhere. Terms with zero coefficient add nothing. The symbolic matrix representation, read back with the generator tables, denotes the same operator.',
  ['inputs', 'programs'], 'every set of terms: supports, site order, operators (including zero, identity, and negatives of each other), coefficients and strings',
  'the MPO tests need the tensor library and compare a few literal tensors; here whole operators are compared for all coincidences of operators and coefficients',
  [G + 'mpogen.h', G + 'mpogen_impl.h', G + 'fsm.h', G + 'symb_alg/coef_op_alg.h'], [('MPOGenerator::AddTerm', G + 'mpogen_impl.h'), ('MPOGenerator::Gen / HeadMpoTenRepr2MpoTen_ / CentMpoTenRepr2MpoTen_ / TailMpoTenRepr2MpoTen_', G + 'mpogen_impl.h'), ('MPOGenerator::GenMatReprMPO', G + 'mpogen_impl.h')])
p('C14', 'Built-in model operators satisfy their algebra',
  'The operator tables of the built-in sites (spin-1/2, t-J, Hubbard) are the documented ones: spin operators obey the spin algebra, creation and annihilation operators with the Jordan-Wigner factor obey the fermionic relations, composite operators equal the products they are named after, every operator changes the quantum number by the amount it is stored with. Hopping and Heisenberg couplings built between any two sites are the physical ones - Hermitian, with the right amplitude and sign - whatever the order of the two sites.',
  ['inputs', 'configurations'], 'every operator of every table; every pair of sites in either order and every amplitude',
  'the sign of a hopping term depends on the site order and the string between; tests only sample energies of fixed lattices',
  [I + 'model_relevant/operators/operators_all.h', I + 'model_relevant/sites/model_site_all.h'], [('operator tables', I + 'model_relevant/operators/'), ('hopping and coupling terms', I + 'model_relevant/')])
NOT_APPLICABLE = {}
DECIDE = {}
DECIDE['C01'] = 'Encoded: `FSM::AddPath`, `GenMatRepr` and the whole symbolic algebra below. Symbolic: number of sites/terms fixed per unit; head, tail, every operator label, every coefficient label, per-site identities. Oracle: the harness expands the chain of matrices into monomials (operator string, bag of coefficient labels) and compares the multiset with the one of the added terms.'
DECIDE['C02'] = 'As C01 for `GenCompressedMatRepr`, plus: no bond dimension grows. All coincidences of labels are covered, so all ways in which rows and columns can merge.'
DECIDE['C04'] = 'Encoded: `CoefRepr`, `OpRepr`. Symbolic: all labels; list lengths enumerated up to the bound. Oracle: multiset comparison in the harness; algebraic laws; realisation against a direct sum.'
DECIDE['C05'] = 'Encoded: `SparMat<long>`. Symbolic: values; shapes, operations and positions are split by the solver. Oracle: a dense matrix edited alongside; `pair` gives two matrices different histories and compares equality with the dense one.'
DECIDE['C06'] = 'Encoded: `SeparateCoefAndBase`, `GetOpReprCoef`, `TryCatch{Row,Col}CommonDivisorCoef`, `Remove{Row,Col}Coef`. Oracle: monomial expansion of coefficient times base against the expansion of the original.'
DECIDE['C07'] = 'Encoded: `SparOpReprMat{Row,Col}Compresser`, `{Row,Col}Delinearize`, `SortRows/SortCols`. Oracle: monomial expansion of the product of the two matrices before and after. The neighbour carries pairwise different operator labels, so no mix-up cancels.'
DECIDE['C08'] = 'Encoded: `LabelConvertor<T>` with and without identity. Symbolic: the objects. Oracle: labels equal iff objects equal; the table read back at every point of the history.'
DECIDE['C09'] = 'Encoded: `DuoVector<T>` with an element type that counts its instances. The engine itself decides double free, use after free and bounds for every history; live-object counts decide leaks. Oracle: array of optional values.'
DECIDE['C10'] = 'Encoded: `CaseParamsParserBasic` together with the nlohmann JSON parser it contains, reading a file whose bytes are symbolic (digits, signs, string characters, presence of keys; the JSON skeleton is enumerated by the solver). Oracle: the value the harness wrote, type rules of docs/params_parser_guide.md. `exit` ends the path in a hook that checks status and that file and key were named on stderr.'
DECIDE['C11'] = 'Encoded: `CoefRepr::ToString`, `OpRepr::ToString`, `operator<<`. Oracle: the harness parses the printed text and compares with the summands.'
DECIDE['C12'] = 'Encoded: `FSM::AddPath`, `GetFSMPaths`, repeated `GenMatRepr`/`GenCompressedMatRepr`. Oracle: the path structure is checked directly; generated chains are compared element by element between generations.'

DECIDE['C13'] = 'Encoded: `MPOGenerator` with everything below it, compiled against a dense stand-in for the (absent) tensor library in `checks/stub`: plain arrays, exact arithmetic. Symbolic: sites, operators from a palette (generic matrices, zero, identity, negatives), coefficients, strings. Oracle: the tensors are contracted to the full operator and compared element by element with the sum of Kronecker products.'
DECIDE['C14'] = 'Encoded: the site and operator headers and the term builders, against the same stand-in. Symbolic: operator index, pair of sites, order, amplitude. Oracle: independent tables written from the definitions, and full many-site matrices with Jordan-Wigner factors.'
p('C15', 'Canonicalising, truncating, adding and storing an MPS keep the state',
  'Any history of centring, left/right canonicalisation, reversal, copying and replacing tensors leaves the state of a finite MPS as it was, and the recorded canonical form is always truthful: a tensor flagged left- or right-canonical is an isometry and a claimed centre really is one. Truncation yields a normalised left-canonical MPS within the requested bond dimension, and the same state when nothing is discarded. The entanglement entropies are those of every cut. Sum and inner product are those of the states. Initial states are the requested ones. What is written to disk is read back.',
  ['inputs', 'histories'], 'every history of operations up to the bound on every MPS: the tensors are uninterpreted, so all values, block structures and bond dimensions are covered at once',
  'the MPS code needs the absent tensor library and has no runnable test here; a stale flag only matters after a particular order of calls',
  [I + 'one_dim_tn/mps/finite_mps/', I + 'one_dim_tn/framework/ten_vec.h', I + 'one_dim_tn/mps/mps.h'], [('canonicalisation and flags', I + 'one_dim_tn/mps/finite_mps/finite_mps.h'), ('truncation, sum, inner product', I + 'one_dim_tn/mps/finite_mps/finite_mps_ops.h'), ('initial states', I + 'one_dim_tn/mps/finite_mps/finite_mps_init.h')])
DECIDE['C15'] = 'Encoded: `FiniteMPS` and its operations, compiled against the diagrammatic stand-in (below). Symbolic: the history, sites, orders, truncation, every tensor. Oracle: normal form of the contracted chain before and after; isometry of flagged tensors.'
p('C16', 'Measurements return the expectation values and change nothing',
  'One-site, two-site, multi-site and grouped four-site measurements of a finite MPS, in memory or from disk, with any insertion operators and tail strings, return for every requested event the expectation value of exactly those operators on those sites in the given state, label it with those sites, and write the same list to the JSON file. The state is unchanged afterwards; a disk measurement leaves the files as they were and no tensor in memory.',
  ['inputs', 'configurations'], 'every choice and order of sites and events up to the bound, every insertion pattern; tensors and operators are uninterpreted',
  'the measurement code needs the absent tensor library; a value is wrong only for certain combinations of sites, insertions and earlier events',
  [I + 'one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h', I + 'one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h'], [('measurements in memory', I + 'one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h'), ('measurements from disk', I + 'one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h')])
DECIDE['C16'] = 'Encoded: the measurement functions, compiled against the diagrammatic stand-in. Symbolic: sites, events, insertion kinds, overload, path, initial canonical form; all tensors. Oracle: the whole state with the operators applied, contracted with its adjoint; the result file is parsed back.'
VM = I + 'algorithm/vmps/'
p('C17', 'Variational sweeps optimise the right local problem and lose nothing',
  'In every sweep of the finite variational MPS algorithms (two-site, two-site with noise, single-site with or without noise), every local problem handed to the eigensolver is that of the present state: the environments are the contractions of the present tensors with the operator, the start vector is the present local state, the effective Hamiltonian is applied correctly. The optimised local state is carried into the MPS; noise enlarges it, before it is decomposed, only by a multiple of the Hamiltonian acting on it, along the outer leg in the direction of motion; the amplitude starts each of the first sweeps at the listed value, changes between updates only as documented (it shrinks when decomposing has cost at least alpha of what optimising gained, grows up to the maximum when it has cost less) and zero stays zero; if nothing is truncated the state on disk afterwards is exactly the last optimised one, noise included. Decompositions use the requested truncation; bonds stay within the maximal dimension (a bond that noise has just enlarged, from the next visit on); the MPS on disk is in canonical form around the stated centre; the returned energy is the last one; nothing stays in memory. A second run over the same directories continues from the first. Exactly the requested number of sweeps is made; the noisy algorithm called without noises is the plain one.',
  ['inputs', 'histories', 'configurations'], 'every length, number of sweeps, starting centre, noise list and restart up to the bounds; MPS, MPO and the optimised local states are uninterpreted tensors, so all values are covered at once',
  'the sweeps need the absent tensor library; the energy tests converge even with a stale environment or a lost truncation parameter',
  [VM], [('TwoSiteFiniteVMPS', VM + 'two_site_update_finite_vmps_impl.h'), ('TwoSiteFiniteVMPSWithNoise', VM + 'two_site_update_noise_finite_vmps_impl.h'), ('SingleSiteFiniteVMPS', VM + 'single_site_update_finite_vmps_impl.h'), ('InitEnvs and boundary', VM + 'vmps_init.h')])
DECIDE['C17'] = 'Encoded: the sweep drivers, updates, noise expansion, environment files and initialisation, compiled against the diagrammatic stand-in. The eigensolver call is intercepted: it recomputes both environments and the whole state from the tensors in memory and on disk, compares the action of the effective Hamiltonian, and answers with a fresh uninterpreted local state. Symbolic: length, sweeps, centre, noise list, charge pattern of new bonds (decides where noise applies), paths, restart, kept dimensions. Oracle: normal forms of the recomputed networks. (Convergence of the eigensolver itself is arithmetic of floating-point iterations and not decided.)'
TD = I + 'algorithm/tdvp/'; AM = I + 'algo_mpi/'; DM = I + 'algorithm/dmrg/'
p('C18', 'Time evolution composes the right local steps and measures the right values',
  'The two-site TDVP for dynamical correlations (three or more sites, local operator in complex form) applies the given operator at the chosen site (with its Jordan-Wigner string, if any) to the stored initial state, which itself stays unchanged on disk. Every local evolution in every step acts on the present state: its environments are the contractions of the present tensors with the operator and the effective Hamiltonian is applied correctly. Two-site evolutions forward and single-site evolutions backward alternate and form the symmetric second-order step with the requested step length. If nothing is truncated the evolved state on disk is exactly the last evolved one; decompositions use the requested truncation. Each reported correlation has the right sites, the right time and the value of the overlap of the present state with the operator applied to the stored state. The results file lists the same.',
  ['inputs', 'histories', 'configurations'], 'every length, site of the operator, number of steps, string and starting centre up to the bounds; MPS, MPO, operators and evolved local states are uninterpreted tensors',
  'the evolution needs the absent tensor library; a wrong half step at one bond or a stale environment changes results only beyond the tolerance of a sampled comparison',
  [TD], [('TwoSiteFiniteTDVP and its sweeps, measurement of correlations', TD + 'two_site_update_finite_tdvp_impl.h')])
DECIDE['C18'] = 'Encoded: the evolution driver, sweeps, environments, initial-state preparation and correlation measurement, compiled against the diagrammatic stand-in. The exponential solver call is intercepted: it recomputes environments from the present tensors, checks the effective Hamiltonian and the sequence of step lengths, and answers with a fresh uninterpreted local state. Symbolic: length, operator site, string, steps, kept dimensions. Oracle: normal forms of the recomputed networks.'
p('C19', 'DMRG sweeps optimise the right local problem, lose nothing and can be stopped',
  'In every sweep of the DMRG executor (operator given as matrices of local operators) each local problem handed to the eigensolver is that of the present state: the super-block Hamiltonian built from the block operators acts exactly as the Hamiltonian contracted with the present tensors, and the start vector is the present local state. The optimised state is carried on; if nothing is truncated the state on disk after the run is exactly the last optimised one, with the centre at site 0. Decompositions use the requested truncation; bonds stay within the maximal dimension; the returned energy is the last one; the executor reports completion and can be executed again. After a graceful or emergency stop signal the run ends at the documented point, the tensors on disk fit together, and the calculation can be resumed.',
  ['inputs', 'histories', 'crash points', 'configurations'], 'every length, number of sweeps, pattern of zero entries in the operator matrices, restart and arrival time of a signal up to the bounds; all tensors are uninterpreted',
  'the executor needs the absent tensor library; whether row and column of a block operator are mixed up shows only for asymmetric sparsity patterns, and a signal can arrive at every update',
  [DM], [('DMRGExecutor', DM + 'dmrg_impl.h'), ('block operators', DM + 'dmrg.h'), ('InitDMRG', DM + 'dmrg_init.h')])
DECIDE['C19'] = 'Encoded: the executor with its sweeps, block-operator growth, sparsity patterns, files, initialisation and signal handling, compiled against the diagrammatic stand-in; one unit keeps the assertions of the library as obligations. The eigensolver call is intercepted as in C17. Symbolic: length, sweeps, sparsity of the operator matrices, restart, kept dimensions, the update at which a signal arrives and its kind (the registered handler is called). Oracle: the whole Hamiltonian contracted with the tensors on disk and the last decomposition.'
p('C20', 'Krylov solvers build the right projected problem and return its solution',
  'For every operator and start vector the Lanczos ground-state solvers (variational sweeps, DMRG) and the Lanczos exponential apply the operator exactly once to each basis vector, orthogonalise each remainder against the two previous vectors, hand exactly the resulting diagonal and off-diagonal to the small eigensolver, and stop as soon as the Krylov space is exhausted, the requested accuracy is reached, the whole space is spanned or the iteration limit (at least two) is met. They return the combination of basis vectors given by the lowest eigenvector and its eigenvalue, respectively the exponential of the projected operator with the requested sign and length of the step and the norm of the start vector (the distributed exponential works on a normalised state and leaves the norm to its caller), and report the dimension of the Krylov space they used. The three distributed solvers do the same, hand out the environments first (those of DMRG: have the workers prepare their parts with the first product) and give the workers exactly one order per product and a final one. No buffer is overrun and no vector is leaked or used after release.',
  ['inputs', 'histories', 'configurations'], 'every iteration limit, dimension, point of exhaustion, convergence pattern and step sign up to the bounds; vectors are formal symbols and the answers of the small eigensolver are arbitrary',
  'the solvers need the absent tensor library; the exits at exhaustion, at the full space and at small iteration limits depend on combinations the energy tests never reach',
  [VM + 'lanczos_vmps_solver_impl.h', DM + 'lanczos_dmrg_solver_impl.h', TD + 'lanczos_expmv_solver_impl.h'], [('LanczosSolver', VM + 'lanczos_vmps_solver_impl.h'), ('LanczosSolver (super block)', DM + 'lanczos_dmrg_solver_impl.h'), ('LanczosExpmvSolver', TD + 'lanczos_expmv_solver_impl.h'), ('MasterLanczosSolver', AM + 'vmps/lanczos_solver_mpi_master.h'), ('MasterLanczosExpmvSolver', AM + 'tdvp/lanczos_expmv_solver_mpi.h'), ('DMRGMPIMasterExecutor::LanczosSolver_', AM + 'dmrg/lanczos_dmrg_solver_mpi_master.h')])
DECIDE['C20'] = 'Encoded: the three serial and the three distributed solvers and their tridiagonal helpers, instantiated with vectors that are formal combinations of symbols, and a LAPACK stub that checks its input and answers prescribed eigen-data. Symbolic: iteration limit, dimension, the step at which the remainder vanishes, at which sizes the accuracy criterion holds, sign of the step. Oracle: the three-term recurrence and the stopping rule stated above.'
FM = I + 'one_dim_tn/mpo/finite_mpo/'
p('C21', 'Arithmetic of finite matrix product operators is exact and keeps its promises',
  'For a FiniteMPO of two or more sites: after any sequence of canonicalisation, centring, scaling, sums, uncompressed products, replacing of tensors, storing and loading, copying and moving, the operator it represents is exactly what these operations mean; neighbouring tensors fit together and the canonical flags and the centre are truthful. The trace, the largest bond dimension and the identity operator are right. Truncation uses the requested parameters, respects the maximal dimension and leaves right-canonical tensors; an exact one leaves the operator unchanged. In the variational product (three or more sites) every two-site tensor is the projection of the product onto the present output, every bond is updated in every sweep, the result is the last projection with the centre at site 1; Square is the product with itself. With bond dimensions below the limit ExpFiniteMPO returns the normalised Taylor series of exp(-tau H) up to the requested order or the convergence criterion.',
  ['inputs', 'histories', 'configurations'], 'every sequence of operations, length, centre and parameter up to the bounds; all operator tensors are uninterpreted',
  'this code needs the absent tensor library; a wrong leg or a stale flag is invisible for symmetric operators such as the Hamiltonians the tests use',
  [FM], [('FiniteMPO', FM + 'finite_mpo.h'), ('MpoProduct, GenerateIdentityMPO', FM + 'finite_mpo_utility.h'), ('ExpFiniteMPO', FM + 'exp_finite_mpo.h')])
DECIDE['C21'] = 'Encoded: the class, both products with their environments, identity, exponential, compiled against the diagrammatic stand-in. Symbolic: operations, sites, factors, initial guess, parameters, kept dimensions. Oracle: the chain of tensors contracted to one tensor and combined directly; every decomposition inside the variational product is intercepted and compared with a projection recomputed from the present output.'
p('C22', 'Distributed algorithms give the serial result and always finish',
  'For every number of processes, of charge sectors and every order in which messages arrive, the MPI versions of the effective-Hamiltonian product and of the growth of left and right environments return exactly the serial result, each sector being worked on exactly once. The MPI two-site sweeps, with and without noise, fulfil what is promised for the serial ones: every local problem (including what the workers multiply with) is that of the present state, the state is carried on exactly, decompositions use the requested truncation, nothing stays in memory, a second run continues. All processes, the helper threads included, always finish: nobody waits for a message that is never sent, collective calls match, no message is left over.',
  ['inputs', 'schedules', 'histories', 'configurations'], 'every number of processes and sectors, their degeneracies (which decide the order of work), arrival order, buffered or synchronous sends and late or early helper threads up to the bounds; all tensors are uninterpreted',
  'needs MPI and the absent tensor library; a task lost or done twice, or a deadlock, depends on the number of sectors relative to the workers and on who answers first',
  [AM], [('MasterTwoSiteFiniteVMPS... product', AM + 'vmps/two_site_update_finite_vmps_mpi_impl_master.h'), ('worker side', AM + 'vmps/two_site_update_finite_vmps_mpi_impl_slave.h'), ('environments', AM + 'env_ten_update_master.h'), ('noise', AM + 'vmps/two_site_update_noised_finite_vmps_mpi_impl.h')])
DECIDE['C22'] = 'Encoded: master and worker code together, every process a coroutine over an MPI stand-in (mailboxes, collectives, ANY_SOURCE receives that may match any sender, buffered or synchronous sends; std::thread bodies run at start or at join), compiled against the diagrammatic stand-in whose bonds have several sectors; sums over all sectors merge to the whole. Symbolic: processes, sectors, degeneracies, arrival orders, sends, thread timing, number of rounds. Oracle: the serial contraction, respectively the whole C17 oracle; deadlock, mismatched collectives and left-over messages are failures of the stand-in.'
p('C23', 'Distributed DMRG and time evolution keep the promises of the serial ones',
  'For every number of processes and every order in which messages arrive, the MPI version of DMRG (function and executors, first and repeated runs) solves at each pair of sites exactly the local problem of the present state: the action the workers compute the first time and every later one, and the expectation value gathered with it, are those of the effective Hamiltonian; the block operators grown by the workers are those of the updated state; the state on disk stays the last optimised one, canonical, with the requested truncation. The MPI time evolution takes exactly the half steps of the second-order scheme with the right generators, times and signs, and reports correlations as the serial one does. One process alone gives the serial behaviour. All processes always finish, no message is left over, collective calls match, no tensor stays in memory so that an executor can be run again.',
  ['inputs', 'schedules', 'histories', 'configurations'], 'every number of processes, pattern of present operators, starting centre, arrival order, buffered or synchronous sends, number of sweeps, steps and runs up to the bounds; all tensors are uninterpreted',
  'needs MPI and the absent tensor library; which worker holds which part depends on the order of arrival and on how many parts there are',
  [AM], [('DMRGMPIMasterExecutor', AM + 'dmrg/dmrg_mpi_impl_master.h'), ('DMRGMPISlaveExecutor', AM + 'dmrg/dmrg_mpi_impl_slave.h'), ('static and dynamic products', AM + 'dmrg/lanczos_dmrg_solver_mpi_master.h'), ('TwoSiteFiniteTDVP', AM + 'tdvp/two_site_update_finite_tdvp_mpi.h')])
DECIDE['C23'] = 'Encoded: master and worker code together over the MPI stand-in of C22, inside the oracles of C19 (DMRG) and C18 (time evolution), which recompute from the present state what every action must give; the solver loop itself is C20. The master asks the workers for the action on the optimised state and on fresh uninterpreted ones. Symbolic: processes, arrival orders, sends, operator patterns, centre, sweeps, steps, repeated runs.'

p('C24', 'The infinite-chain automaton represents every term and all its translations',
  'For every set of distinct terms added to the automaton of an infinite chain (iFSM) - of one or more sites, beginning at any site of the unit cell or of a later cell, longer than the cell or sharing their first operators with earlier terms, with the coefficient on any operator - each term becomes one path from the ready to the final state whose nodes lie at its sites of the unit cell, earlier paths stay as they are, the matrices generated for the unit cell fit together around it, and the unit cell repeated over any window (ready in the first row, final in the last column) is exactly the sum of the terms and all their translations by whole cells, each once. Automaton nodes report the site and state they were given and are ordered by site, then state.',
  ['inputs', 'histories'], 'every unit cell, term, starting site, operator, coefficient and order of additions up to the bounds',
  'no test adds a path to this automaton; terms that wrap around the unit cell or share a beginning exercise it in ways no fixed example covers',
  [G + 'ifsm.h', G + 'fsm.h'], [('iFSM::AddPath, GenMatRepr', G + 'ifsm.h'), ('FSMNode', G + 'fsm.h')])
DECIDE['C24'] = 'Encoded: `iFSM` with its path construction and matrix generation, and `FSMNode`. Symbolic: starting site, length, operators, coefficients and their place, identities. Oracle: the matrices are chained over a window and expanded to a formal sum of operator strings, compared as multisets with the terms and their translations. Terms equal to an earlier one are refused by the library (exit) and excluded; the compressed matrices do not say which of their states are ready and final and are not claimed, nor is `iMPOGenerator`, whose `Gen` is empty upstream.'