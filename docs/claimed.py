prop('T01', 'Multistep IMEX schemes meet their order conditions for any timesteps',
     """For every multistep IMEX scheme and every sequence of positive timesteps, including start-up steps with a short history,
     the coefficients applied to the time derivative, the implicit terms and the explicit terms reproduce polynomials in time
     exactly up to the scheme's nominal order (or the available history). Explicit terms never use the unknown new level.""",
     ['inputs', 'histories'], 'all positive real timestep sequences, all start-up iterations, all multistep schemes',
     """Tests run a handful of fixed timesteps and check final errors with loose tolerances; a wrong variable-step coefficient vanishes
     for constant steps, and start-up coefficients only affect the first iterations.""",
     ['dedalus/core/timesteppers.py'], [('variable-step coefficient formulas', 'compute_coefficients of each MultistepIMEX subclass')],
     'value numbering of coefficient functions over rational functions of symbolic timesteps, identities decided exactly',
     """Exact for all real positive timesteps; floating-point rounding is not modelled.""")

prop('T02', 'Runge-Kutta IMEX tableaux are consistent and meet their order conditions',
     """For every Runge-Kutta IMEX scheme the explicit tableau is strictly lower triangular, the implicit tableau is lower triangular,
     the row sums of both tableaux equal the stage times, the stage times lie in the step and end at its end, and the coupled order
     conditions hold up to the nominal order of the scheme.""",
     ['programs', 'configurations'], 'all tableau entries of all schemes',
     """Tests compare final errors of short runs with loose tolerances; a perturbed coefficient lowers the order without failing them.""",
     ['dedalus/core/timesteppers.py'], [('Butcher tableaux', 'class constants A, H, c of RungeKuttaIMEX subclasses')],
     'constant propagation of class tableaux to exact algebraic numbers, order conditions decided exactly',
     """Exact over the declared constants.""")

prop('T03', 'Each timestep solves the IMEX system with the right weights, history and times',
     """For every timestep (any pattern of repeated or changed timesteps) the linear systems solved for the new state are the
     scheme's defining equations: the matrix combines the current step's implicit weights, the right-hand side combines the
     time-derivative, implicit and explicit terms of the correct previous levels or stages with the correct weights, explicit terms are evaluated at
     the correct stage time, and the simulation time advances by exactly the timestep. Scheduled analysis is evaluated once per step, for the state at the start of the step.""",
     ['histories', 'inputs'], 'all step sequences up to the history depth of the scheme; all weights; dt repeated/changed in every pattern',
     """The tests take constant timesteps; factorization reuse, history rotation and the update flags depend on the pattern of timesteps.""",
     ['dedalus/core/timesteppers.py', 'dedalus/core/solvers.py'],
     [('multistep update', 'MultistepIMEX.step'), ('Runge-Kutta update', 'RungeKuttaIMEX.step'), ('factorization reuse', '_LHS_params / update_LHS')],
     'abstract interpretation of the step routines in a linear-form domain (symbolic weights), comparison with the scheme equation',
     """Histories of several consecutive steps with all repeat/change patterns; matrices, solvers and evaluators are uninterpreted.""")

prop('D01', 'Moving a field one layout step moves both its label and its data, on every path',
     """Whenever one or several fields are moved one step towards grid or coefficient space, every field of the group ends labelled with the adjacent layout
     in that direction, and its data has been transformed along the right axis or redistributed in the right direction into its own
     storage, on every path (single field, grouped fields, no communication required, no local data, no basis along the axis).""",
     ['inputs', 'configurations', 'schedules'], 'all groups of fields with any domains/components and all combinations of empty or constant axes',
     """The tests run serially, so transpose paths with and without a communication plan, grouped fields with mixed domains and empty blocks are never reached.""",
     ['dedalus/core/distributor.py', 'dedalus/core/field.py'],
     [('layout paths', 'Transform.increment/decrement, Transpose.increment/decrement'), ('field moves', 'Field.towards_grid_space/towards_coeff_space')],
     'path-sensitive typestate analysis (layout and data representation of each field) by abstract interpretation',
     """Groups of one to three fields, every branch of every undetermined condition; transform plans and communication plans are trusted primitives.""")

prop('D02', 'Layouts form a valid transform chain and tile the global data',
     """For every dimension and process mesh, the layouts built by the distributor start in full coefficient space and end in full grid space, adjacent layouts differ by exactly one
     transform of a local axis or one exchange of the distribution of two adjacent axes. In every layout the blocks of all processes cover each global index exactly once, in whole
     chunks, and local shapes, elements, slices and group/chunk views agree with that block on every process.""",
     ['configurations', 'inputs'], 'all mesh shapes up to the analysed dimension; all sizes, chunk sizes, process counts and process coordinates',
     """Tests run serially where every block is the whole array; uneven and empty blocks never occur.""",
     ['dedalus/core/distributor.py'], [('layout construction', 'Distributor._build_layouts'), ('block formulas', 'Layout.local_chunks, local_elements, slices, local_shape …')],
     'abstract interpretation to closed forms, formula comparison with the canonical block partition',
     """Closed forms are compared on a bounded set of sizes/process counts that exercises every branch of the min/ceil formulas (uneven, exact, empty blocks).""")

prop('D03', 'Redistribution between layouts moves every block to its right place',
     """The parallel transposes use the same block partition as the layouts for every size, chunk size and process count; message counts, displacements and buffer shapes match
     those blocks, packing and unpacking are inverse maps in the same block order, buffers are large enough, and each direction copies in, communicates and copies out consistently.""",
     ['inputs', 'configurations'], 'all global shapes, chunk sizes, process counts and ranks',
     """Tests run serially, so no transpose plan is ever executed.""",
     ['dedalus/core/transposes.pyx'], [('planners', 'FFTWTranspose, AlltoallvTranspose, RowDistributor, ColDistributor'), ('kernels', 'split/combine rows/columns')],
     'closed-form extraction and induction-variable summaries of the pack/unpack loops, compared with the block partition',
     """FFTW/MPI primitives are trusted to do what their arguments say. Indices are mathematical integers.""")

prop('F01', 'Changing a field\'s layout or scales never corrupts or mislabels its data',
     """Any sequence of layout changes, scale changes, reads and writes of a field keeps its layout label, scale label, buffer and data view consistent and the represented function
     unchanged: reading returns data in exactly the requested layout and scales, assigning stores the given data there, copies and unlocked fields are independent with the same content,
     the buffer always has room for the data, and locked fields refuse changes that leave their permitted layouts or scales.""",
     ['inputs', 'histories', 'configurations'], 'all start layouts, target layouts and old/new scales, serial and distributed chains',
     """Tests visit a few layouts and uniform scales in serial.""",
     ['dedalus/core/field.py'], [('layout/scale changes', 'Field.change_layout/change_scales/towards_*/require_*'), ('data access', 'Field.__getitem__/__setitem__/preset_layout/copy'), ('locking', 'LockedField')],
     'typestate analysis by abstract interpretation over (layout label, scale label, buffer content)',
     """Chains of up to three axes (four thorough), uniform and mixed scales; transforms between adjacent layouts are trusted to preserve the function.""")

prop('O01', 'Operator evaluation has no side effects and fully defines its output',
     """Evaluating any operator never modifies the data, layout label or scales of its arguments (beyond requiring them in another layout), sets the output layout to that of its
     arguments before touching output data, and overwrites every element of the output, which may hold stale data from an earlier evaluation. The layout conditions an operator
     enforces establish the ones it checks, for any starting layouts, in serial and distributed, and are the ones its computation needs (common layout, coefficient or grid space and
     locality of the axis it acts along).""",
     ['inputs', 'histories', 'configurations'], 'all operator classes, all argument layouts, operator axes and serial/distributed layout chains',
     """Tests evaluate freshly allocated outputs in serial, so stale output, modified operands and distributed axes never show.""",
     ['dedalus/core/operators.py', 'dedalus/core/arithmetic.py', 'dedalus/core/basis.py'],
     [('evaluation', 'operate of every Future subclass'), ('conditions', 'check_conditions/enforce_conditions of every Future subclass')],
     'typestate analysis of output coverage and argument effects by abstract interpretation; interprocedural mutation analysis',
     """Representative component shapes per operator family; per-group loops over basis maps are trusted to visit every group. Layout moves are the contract of F01.""")

prop('O03', 'Deferred expressions evaluate their current operands, whatever came before',
     """Evaluating an expression returns its operation applied to the present operand values: results are reused only within one evaluation id, an attempt whose layout conditions fail
     returns None, changes no layouts and can be retried, evaluation restores the original arguments, operands and outputs are brought to the dealias scales first, the output carries
     the metadata of the expression, and every operator constructor sets up this state.""",
     ['inputs', 'histories'], 'expression trees with nested and shared operators; call histories mixing evaluate, attempt and item access; storage options on and off',
     """Tests evaluate an expression once or twice from a fresh state; stale results need particular call histories.""",
     ['dedalus/core/future.py', 'dedalus/core/operators.py', 'dedalus/core/arithmetic.py'], [('protocol', 'Future.evaluate/attempt/reset/get_out/build_out, FutureField.__getitem__'), ('state', 'constructors of all Future subclasses')],
     'typestate analysis by abstract interpretation with evaluation epochs',
     """Trees of up to three operators and histories of up to four calls; a failed attempt is assumed to be retried with the same id before operands change.""")

prop('E01', 'Handlers evaluate every due task exactly once, dealiased and in lock-step',
     """When handlers are evaluated, every task holds the value of its operator at the present state before any handler is processed, whatever the layouts of the fields and the layouts in
     which operators can act; all fields of pending tasks move together through the layout chain, locked fields never move, outputs are truncated in coefficient space and are not shared
     between tasks, and each due handler is processed once with the given arguments. A handler is due iff a wall-time, sim-time, iteration or custom cadence triggers; cadences are
     independent and each advances exactly when it triggers. Tasks record their operator, layout, name, scales and dtype.""",
     ['inputs', 'histories', 'configurations'], 'layout chains of 2-4 layouts, all field start layouts and operator layouts, all cadence combinations',
     """Tests use one or two handlers from one starting layout and never exercise cadence boundaries.""",
     ['dedalus/core/evaluator.py', 'dedalus/core/future.py'], [('evaluation', 'Evaluator.evaluate_handlers/require_coeff_space/require_grid_space'), ('tasks and schedule', 'Handler.add_task/check_schedule, DictionaryHandler')],
     'typestate analysis by abstract interpretation; guarded-formula extraction for schedules',
     """Operators are modelled by the set of layouts in which their conditions hold. Known finding: shared operators with STORE_LAST_DEFAULT off.""")

prop('E02', 'Analysis files hold every write, from every process, in its place',
     """For each HDF5 file handler, write n lands at the next index of the current set with its own time scales, iteration and write number; sets roll over after max_writes, and 'append' continues set
     and write numbers after existing sets while 'overwrite' deletes only this handler's own sets. Every process writes exactly its own block of every task, in the task's layout and scales, so that
     the joint dataset holds the global data (in virtual files every block is mapped to its place by relative names). Dataset axes carry the labels and grids or wavenumbers of their own axes. All
     processes make the same collective calls, only the root touches shared folders and serial joint files, and files are closed after each write.""",
     ['inputs', 'histories', 'configurations'], 'handler kinds, modes, max_writes, numbers of writes, process counts including processes without data; scalar, vector, tensor and constant-axis tasks',
     """Tests write serially with one process and one or two sets; rollover, appending, empty processes and the mapping of blocks need several processes and several runs.""",
     ['dedalus/core/evaluator.py'], [('file handlers', 'H5FileHandlerBase, H5GatherFileHandler, H5ParallelFileHandler, H5VirtualFileHandler'), ('constructor modes', 'H5FileHandlerBase.__init__'), ('virtual mapping', 'H5VirtualFileHandler.create_task_dataset')],
     'abstract interpretation of the handlers on every process against an abstract file system and HDF5 model',
     """Bounded histories: three to five writes, one or three processes, max_writes None/1/2, folders with and without earlier sets. Layout blocks are covered by D02, evaluation by E01.""")

prop('E03', 'Global data keep their place when scattered, gathered, loaded or filtered',
     """For every field, mesh and layout: setting or loading global data (arrays or saved tasks, grid or coefficient space, any saved grid size) gives each process exactly its block at the right
     components and scales, ending at the dealias scales for grid data; gathering returns every element at its own global index as an independent copy; norms and maxima combine all processes, also
     those without data; seeded random fills are the same global array for every mesh and chunk size; low- and high-pass filters truncate to the requested scales, restore the field's scales and are
     complementary. Mixed-space data and coefficient data of another shape are refused.""",
     ['inputs', 'configurations'], 'serial and 1-D/2-D meshes with uneven and empty blocks, scalar to rank-2 tensor fields, constant axes, both data types, roundoff-sensitive grid sizes',
     """Tests run serially with scalar fields and even sizes; misplaced components, empty processes and roundoff-sensitive sizes never occur.""",
     ['dedalus/core/field.py', 'dedalus/tools/random_arrays.py'], [('global data methods', 'Field.set_global_data, load_from_*, gather_data, allgather_data, allreduce_*, fill_random, *_pass_filter'), ('random stream', 'ChunkedRandomArray, rng_elements')],
     'abstract interpretation on every process with arrays of element labels; collectives matched across processes',
     """Layout blocks and transforms are models (covered by D01-D03); sizes and meshes are enumerated up to small bounds that exercise every branch.""")

prop('A01', 'Symbolic manipulations of expressions preserve their meaning',
     """For every expression: split(vars) returns two parts that sum to it, the first holding exactly the terms containing the variables; replace(old, new) substitutes every occurrence of an operand, a
     subexpression or an operator class; sym_diff follows sum, product, power and chain rules, and grid functions carry their true derivatives; expand and reinitialize give an equal expression; has and
     atoms find exactly the operands and operators present. Operators +, -, *, /, **, @, unary minus, abs and numpy ufuncs on operands, on either side of numbers, and Add/Multiply with any mix of
     numbers, zeros, ones and operands mean what they say. The Frechet differential is the directional derivative around the given backgrounds.""",
     ['inputs', 'programs'], 'all expression trees, by structural induction over node classes and kinds of operands (dependent, independent, mixed, numeric)',
     """Tests manipulate a few fixed expressions; products of mixed operands, nested operators, zeros, numbers and repeated variables are rarely sampled.""",
     ['dedalus/core/arithmetic.py', 'dedalus/core/operators.py', 'dedalus/core/field.py', 'dedalus/core/future.py'],
     [('sums and products', 'Add, Product, Multiply'), ('linear and nonlinear operators', 'LinearOperator, NonlinearOperator, Power, UnaryGridFunction, TimeDerivative, Convert'), ('operands', 'Operand, Field')],
     'abstract interpretation of each manipulation per node class, compared in a normal form of the operator algebra (structural induction)',
     """Operands satisfy the property by induction; operators are linear in their operand and rebuild themselves (O02). Ordering of tensor products is kept; derivations are treated as such.""")

prop('O02', 'Operators rebuilt on new operands keep all their own parameters',
     """For every operator class, applying the operator again to a new operand of the same kind (as substitution, splitting, differentiation and expansion do) gives the same kind of operator with the
     same parameters: tensor indices, coordinates and coordinate systems, positions, output bases and lift modes, layouts, functions, derivatives and keyword arguments, and argument order. Operators
     applied to a zero operand give zero.""",
     ['inputs', 'programs'], 'all concrete operator classes; all admissible values of finite parameters, distinct symbols for others; coordinate systems of every kind; tensor ranks 0-2',
     """Tests rebuild operators with default parameters, where a dropped index, position or keyword leaves the result unchanged.""",
     ['dedalus/core/operators.py', 'dedalus/core/arithmetic.py', 'dedalus/core/basis.py'],
     [('rebuild methods', 'new_operand/new_operands of all Future subclasses'), ('dispatch', '_preprocess_args, __init__ of all MultiClass operators')],
     'abstract interpretation of constructors and rebuild methods; attribute-wise comparison of original and rebuilt states',
     """The new operand has the tensor signature, domain and dtype of the old one. Abstract classes without subclasses are skipped.""")

prop('P01', 'Problems accept exactly the equations they document and split them correctly',
     """add_equation accepts an equation if and only if it has the documented form: initial value problems need a left side strictly linear in the variables, independent of time, at most first order in
     time and with time derivatives on problem variables only, and a right side without time derivatives; linear boundary value problems need a right side independent of the variables; eigenvalue
     problems need a left side affine in the eigenvalue and a zero right side; right sides never extend over more dimensions. Other equations raise UnsupportedEquationError. The stored M, L, F, dF are
     exactly the terms of the equation (dF the Newton differential without locks), on the joint domain of all terms, with coefficients prepared around the right variables, and with valid modes owned
     by the equation. build_EVP gives eigenvalue*M.X1 + L.X1 - F'(X0).X1 = 0 with the valid modes of the original. Equation strings are split at their only top-level equals sign.""",
     ['inputs', 'programs'], 'all expression trees for the acceptance methods (structural induction); families of equations over abstract operands for each problem class',
     """Tests add a few valid equations; invalid equations, vanishing parts, numeric sides and mixed terms that must be refused or split are not sampled.""",
     ['dedalus/core/problems.py', 'dedalus/core/arithmetic.py', 'dedalus/core/operators.py', 'dedalus/core/field.py', 'dedalus/core/future.py', 'dedalus/tools/parsing.py'],
     [('problem classes', 'add_equation, _check_equation_conditions, _build_matrix_expressions, build_EVP'), ('acceptance methods', 'require_linearity, require_first_order, require_independent'), ('coefficients', 'prep_nccs')],
     'abstract interpretation: structural induction for the acceptance methods, denotational comparison of the stored expressions',
     """Symbolic manipulations have the meaning established by A01. Domains are unions of the operands' domains. Families of equations are sums of up to three terms.""")

prop('S02', 'Pencil matrices and vectors hold every mode once and in its place',
     """For any set of variables and equations (tensor ranks, constant directions, truncations, group conditions, complex or real groups): every local mode group belongs to exactly one subproblem, and groups
     share matrices only along axes the matrices do not depend on and only with the same zero/nonzero character; the assembled matrices hold each valid equation mode and variable mode exactly once at the
     documented position (boundary and tau placement, component interleaving), entries below the cutoff (in magnitude) are dropped, equations are left out of the groups their condition excludes, and
     unequal mode counts raise ValueError; expanded matrices share the pattern of the left-hand side; gather and scatter move every coefficient between its current field position and its vector entry,
     set invalid modes to zero and touch nothing else.""",
     ['inputs', 'configurations'], 'all ordering options; representative 2-D and 3-D spaces with mixed ranks, constant directions, masks and conditions; all matrix dependence patterns',
     """Tests solve problems whose answer is insensitive to ordering and which have few components, all groups valid and no failing conditions.""",
     ['dedalus/core/subsystems.py', 'dedalus/core/solvers.py', 'dedalus/tools/array.py'],
     [('pencils', 'Subproblem.build_matrices, gather_*, scatter_*, left_permutation, right_permutation'), ('grouping', 'build_subsystems, build_subproblems, Subsystem'), ('patterns', 'zeros_with_pattern, expand_pattern, drop_empty_rows')],
     'abstract interpretation over label matrices: every mode carries a unique label, so its final position identifies its provenance',
     """Sparse products and apply_sparse have their documented meaning. Layout group slices are those established by D02.""")

prop('P03', 'Boundary and eigenvalue solves use current systems and change only their modes',
     """Solver coupling contains the problem's coupling (a fully separable problem couples its last axis), only couples local axes and otherwise raises ValueError; matrix dependence is that of the problem plus that of
     every equation basis under the coupling actually used. Options come from arguments, then configuration, and requirements of the matrix solver override them before pencils are built. Every LBVP solve (any history of
     full, partial, rebuilt solves) evaluates the right-hand side for the current data, uses the matrices built last (building each subproblem when first needed or on request), and changes exactly the selected subproblems'
     modes of the state. Every Newton iteration subtracts damping times the solution of the current Jacobian and residual. Eigenvalue solves pass (L, -M) of the selected subproblem, express right, left and modified left
     eigenvectors in the problem's variables with left vectors normalized against the right ones, raise RuntimeError when left and right eigenvalues differ (unless disabled), and set_state sets exactly the chosen eigenmode.""",
     ['histories', 'configurations', 'inputs'], 'all coupling/override/locality patterns up to 3 axes; every solver option; all solve histories of length 3 over 7 kinds of calls; all eigenvalue-solve option combinations',
     """Tests construct a solver and solve once; rebuilt, partial and repeated solves, coefficient changes and left eigenvectors are hardly sampled.""",
     ['dedalus/core/solvers.py'],
     [('solver construction', 'SolverBase.__init__'), ('linear solves', 'LinearBoundaryValueSolver.solve'), ('Newton', 'NonlinearBoundaryValueSolver.newton_iteration'), ('eigenvalues', 'EigenvalueSolver.solve_dense, solve_sparse, set_state')],
     'abstract interpretation of solver call histories over small generic systems with layout typestate of fields',
     """Linear and eigen solvers solve what they are given; pencil gathers/scatters are exact (S02); scheduled evaluation is exact (E01).""")

prop('S03', 'The initial value loop stops, steps, counts and restarts as documented',
     """proceed is false exactly when the simulation time, wall time or iteration has reached its stopping value; evolve refuses to run without a stopping value, takes exactly the needed steps and reports errors of the timestep
     function or the step unchanged (statistics never raise, for any warmup length, profiling option or number of steps). A step with a non-finite timestep raises ValueError before anything changes; any other step advances once with
     the current wall time and counts once; states of real problems are transformed to the grid and back for as many iterations per cadence as the scheme has levels. All processes see the root's clock, and sim_time always equals
     the problem's time field. load_state restores iteration, initial iteration, simulation time and every state field of the selected write and raises IOError for missing fields unless allowed. Explicit handler evaluation passes the current counters.""",
     ['histories', 'configurations', 'schedules'], 'all orderings of the three stop conditions; step histories over three cadences; loop lengths around the warmup; failing steps; 1-2 processes',
     """Tests run loops that end by iteration after the warmup, with finite timesteps, on one process.""",
     ['dedalus/core/solvers.py'],
     [('loop', 'InitialValueSolver.proceed, evolve, step'), ('clock', 'world_time, wall_time, sim_time'), ('restart', 'load_state'), ('statistics', 'log_stats')],
     'abstract interpretation of loop histories with a model of timestepper, clock, communicator and restart file',
     """Timesteppers advance time by the timestep (T03); field loading is exact (E03).""")

prop('B04', 'Array and sparse kernels compute the products and solutions they stand for',
     """For every array rank, axis, extent (unit and empty extents included), memory arrangement and real/complex dtype combination whose result fits the output: apply_matrix, apply_dense, apply_sparse and their variants return
     the contraction of the matrix with the array along the axis, write all of a given output, leave the input unchanged, or raise ValueError (an output that cannot be written in place is refused, never silently lost);
     solve_upper_sparse returns the solution along the axis, also for matrices with unsorted or repeated entries; the csr_matvec(s) add the product to the output and refuse mismatched shapes; kernels never index outside their arrays;
     permutation, block-diagonal, interleaving, Kronecker, pattern and axis-selection helpers equal their definitions; scipy_sparse_eigs returns eigenpairs of A.x = lambda B.x nearest the target and, for left modes, of the adjoint pencil.""",
     ['inputs', 'configurations'], 'array ranks 1-4 (5 in depth), every axis, unit/empty extents, five memory arrangements of inputs and outputs, all dtype pairs, both kernel configuration switches',
     """Tests apply a few matrices to contiguous 3-D arrays; kernels are specialised by rank, axis and unit extents, and skip bounds checks.""",
     ['dedalus/tools/array.py', 'dedalus/tools/linalg.pyx'],
     [('kernels', 'linalg.pyx apply_csr*, solve_upper_csr*'), ('dispatch', 'apply_matrix, apply_dense, apply_sparse, solve_upper_sparse'), ('assembly helpers', 'perm_matrix, sparse_block_diag, interleave_matrices, zeros_with_pattern'), ('eigenvalue search', 'scipy_sparse_eigs')],
     'abstract interpretation over label arrays with the static memory-view typing, C arithmetic and unchecked indexing of the Cython kernels',
     """NumPy/SciPy primitives have their documented meaning; upper triangular matrices have nonzero diagonals and no entries below them.""")

prop('C01', 'Collective communication never depends on rank-dependent values',
     """No call that may execute an MPI collective (creating communicators, broadcasts, reductions, gathers, barriers, all-to-all transposes, collective file operations, and everything that transforms or transposes fields) is controlled by
     a condition, loop, early exit or argument that can differ between processes: ranks and coordinates, local data and extents, local subproblem and subsystem lists, clocks, file-system queries.
     So no process can skip, repeat or reorder a collective that another performs, also when processes hold no data or no subproblems. Values used to steer all processes (global minima, maxima, means and integrals, CFL timesteps,
     data norms, world and wall time, the loop condition) are the same everywhere.""",
     ['schedules', 'configurations'], 'every function of core, tools and extras for every concrete class it runs on; any number of processes and any distribution, including empty processes',
     """The suite runs on one process; deadlocks need process counts that leave some processes without data or subproblems, or clocks and files that differ.""",
     ['dedalus/core/distributor.py', 'dedalus/core/field.py', 'dedalus/core/solvers.py', 'dedalus/core/evaluator.py', 'dedalus/core/arithmetic.py', 'dedalus/core/subsystems.py', 'dedalus/extras/flow_tools.py', 'dedalus/tools/parallel.py'],
     [('transposes', 'Transpose.increment/decrement, AlltoallvTranspose'), ('solves', 'LinearBoundaryValueSolver.solve, build_subproblem_matrices'), ('reductions', 'GlobalArrayReducer, CFL, Field.allreduce_data_norm'), ('output', 'H5 handlers, Sync'), ('ghosts', 'GhostBroadcaster')],
     'interprocedural taint analysis of rank-dependent values with per-class function summaries, over a resolved call graph of collective operations',
     """User code calls the documented collective methods on all processes; h5py and mpi4py behave as documented; only files created between barriers are queried per process; eigenvalue solves of one subproblem are the caller's responsibility.""")

prop('M01', 'Every registered matrix solver solves the system it was built from',
     """For every registered and constructible matrix solver (sparse, factorised, transposed factorised, banded, QR, inverse and dense, and their Woodbury-bordered variants): built from a square nonsingular sparse matrix, real or complex, solve(b) returns the
     solution of A.x = b and solve_H(b), where provided, the solution of the adjoint system conj(A.T).x = b, in the shape of b (vectors, single columns and several columns); b is not modified,
     and later changes of the matrix passed in (as the solvers make when they rebuild) do not change the solutions. All are registered under the lower-case name by which solvers look them up, the configured defaults exist, and
     every registered solver can be constructed the way problem solvers do, from a matrix and the solver.""",
     ['inputs', 'configurations'], 'all registered solvers; real and complex matrices with several patterns; right hand sides of 1 and 2 dimensions',
     """Tests run a few of the solvers on real problems; transposed, adjoint, complex and column-shaped combinations and the optional libraries are not run.""",
     ['dedalus/libraries/matsolvers.py'],
     [('registry', 'add_solver, matsolvers, woodbury_matsolvers'), ('factorised', '_SuperluFactorizedBase'), ('banded', 'BandedSolver.sparse_to_banded, ScipyBanded'), ('bordered', 'Woodbury')],
     'abstract interpretation of every registered class with exact models of the sparse and dense linear algebra primitives',
     """Library primitives (SuperLU, UMFPACK, SPQR, LAPACK) solve the system they are given with their documented transposition and storage conventions.""")

prop('V01', 'Timestep limits and flow diagnostics are those of the whole domain',
     """Global minima, maxima, means, sums and volume integrals of flow properties equal those of the undistributed data for every split between processes, including processes without data, on every process.
     CFL.compute_timestep returns the stored timestep except one iteration after its frequencies were evaluated (every `cadence` iterations, not on the first evaluation); then the timestep is safety divided by the largest
     total frequency (unbounded for zero frequency), limited by max_dt and max_change, then by min_dt and min_change (the lower limits win), and replaces the stored one when it differs by more than the threshold.
     Frequencies are evaluated on the dealiased grid; only vectors are accepted as velocities. For every coordinate system and basis the advective frequency at each grid point is the sum of |u_i| / Delta_i, with
     Delta_i the resolved spacing of the basis (L/N for Fourier, the cosine-grid spacing for Chebyshev, grid spacing times dealias otherwise, radius/mmax in azimuth, radius/sqrt(L(L+1)) for the horizontal velocity on spheres; constant directions and m=0 or L=0
     truncations do not contribute), on any process distribution and position of the coordinates, leaving velocity and cached grid spacings unchanged.""",
     ['inputs', 'histories', 'configurations', 'schedules'], 'splits of data over 1-3 processes; histories over cadences, restarts and twelve limit settings; all bases alone and in products, each axis distributed',
     """Tests compare the operator with its own spacings on single bases, on one process; cadence, change limits, threshold, empty processes and products of coordinates are not run.""",
     ['dedalus/extras/flow_tools.py', 'dedalus/core/basis.py', 'dedalus/core/operators.py'],
     [('reductions', 'GlobalArrayReducer, GlobalFlowProperty'), ('timestep', 'CFL.compute_timestep'), ('frequencies', 'AdvectiveCFL and its subclasses (cfl_spacing, compute_cfl_frequency)')],
     'abstract interpretation of timestep histories and frequency operators with models of grids, handlers and communicators (collectives matched across processes)',
     """Grid spacings returned by bases are right; handlers evaluate tasks on schedule (E01); NaN data are not considered.""")

prop('K01', 'Caching never changes what a call returns',
     """A call of a cached function or method, an access to a cached attribute and the construction of an instance of a caching class (bases, coordinates, field-like objects using these decorators) give the result of computing with exactly these arguments on
     this instance, whatever was called before, by whichever spelling (positional, keyword, omitted defaults), with any cache size, between several instances, after failed calls and while the garbage collector drops unused instances; repeated calls give the
     cached object. Every constructor argument (shape, bounds, radii, parameters, dealias, libraries) is part of the instance key in its place, and equivalent spellings of an argument give the same key. Objects a cache has handed out
     (arrays, matrices, lists, shared instances) are not changed in place by any other code, and cached results do not depend on state that changes later.""",
     ['inputs', 'histories', 'schedules'], 'histories of up to three calls over all spellings and cache sizes with collections at every step; every function of the package for the flow of cached results',
     """Tests use fresh objects; a stale or corrupted cached value needs an earlier call with particular arguments, in the same process, to show.""",
     ['dedalus/tools/cache.py', 'dedalus/core/basis.py', 'dedalus/core/operators.py', 'dedalus/core/evaluator.py', 'dedalus/core/subsystems.py'],
     [('caches', 'CachedFunction, CachedMethod, CachedAttribute, CachedClass'), ('keys', '_preprocess_cache_args of the caching classes'), ('users', 'every function that receives a cached result')],
     'abstract interpretation of the caching decorators on call histories; interprocedural alias and effect analysis of cached results; read-set analysis of cached functions',
     """Arguments are hashable with sound equality. Memory use of caches is not considered. Known finding: PolarBasis.S1_basis changes shared cached Fourier instances.""")

prop('N01', 'Every reference resolves on every path',
     """No path through the package, its extras or its tools fails because the code refers to something that does not exist: every name a function uses is bound by its scopes, its module or the builtins; no local variable is used where no path has bound it; every
     name imported from a module of the package and every attribute taken from such a module is defined there; every attribute used on `self`, and every attribute or method name used on any object, is defined by some class it can stand for; every call of a
     function, constructor or method of the package - by position, keyword, through `self`, `super()` or dispatching metaclasses - has arguments that its definition accepts (for each concrete class the calling method runs on); and every configuration value
     that is read has a default of the requested type.""",
     ['inputs', 'configurations'], 'every name, attribute, import, call and configuration read in the modules reachable from the public package, the extras, the tools and the command line',
     """Python finds a missing name, attribute or parameter only when the line runs: diagnostics, error messages, optional solvers, higher-rank branches, plotting and post-processing are lines that no test runs.""",
     ['dedalus/core', 'dedalus/tools', 'dedalus/extras', 'dedalus/libraries', 'dedalus/dedalus.cfg'],
     [('names', 'all functions and modules'), ('attributes', 'all loads of attributes of self, modules and other objects'), ('calls', 'all calls of package functions, classes and methods'), ('configuration', 'all reads of config')],
     'scope and definite-assignment analysis, class-hierarchy attribute analysis, call-signature checking over the class hierarchy, configuration key resolution',
     """Attributes of external objects are those of the installed libraries. Attributes created under computed names are recognised by the text they contain. Values of attributes are not followed: a method name used on an object of another package class that
     lacks it is reported only when no class defines the name or none accepts the call. Known findings: unused or broken code (FieldSystem, SpectralOperatorS2, the disk128 transforms, BlockInverse and others listed in known_findings.json).""")

prop('Q01', 'Bases are values: equal parameters are equal bases, combinations keep geometry',
     """Two bases of a family are equal exactly when class, coordinates and every parameter (sizes, bounds, radii, weights, dealias factors, libraries) are; a clone with changed parameters has those and all others unchanged. The sum of two bases of a family has the
     larger size and weight per direction and all other parameters unchanged, whatever the order; products and products with non-constant coefficients have a size that holds both, weights that the conversions in use can reach (for annulus and shell the sum, as
     their radial prefactors multiply), and the same geometry; bases with different geometry, grids or coordinates are refused, as are coefficients the solver does not support. Derived bases (azimuthal, spherical, radial, meridional, edges and surfaces, derivative
     bases, sphere times radial) keep the parameters of their directions and the radius they stand for; named families (Legendre, Ultraspherical, Chebyshev, Fourier) are the Jacobi or Fourier bases of their definition; shorthand arguments are expanded and arguments
     out of range refused. Affine maps and their inverses take endpoints and centre to endpoints and centre; grids at any scale have ceil(scale * size) points, constant directions one.""",
     ['inputs', 'configurations'], 'ten basis families; every parameter changed in turn; all pairs of up to four sizes and three weights for every operation',
     """Tests combine bases that differ only in coordinates; pairs with different sizes, weights, dealiasing or radii, and derived bases of such bases, are hardly constructed.""",
     ['dedalus/core/basis.py', 'dedalus/core/coords.py'],
     [('identity', '__eq__, clone_with, grid_params of the bases'), ('algebra', '__add__, __mul__, __rmatmul__ of the bases'), ('derived', 'S1_basis, S2_basis, radial_basis, derivative_basis and attributes of the constructors'), ('maps', 'AffineCOV, Basis.grid_shape')],
     'abstract interpretation of constructors, comparison and algebra of bases over parameter families, against their definitions',
     """Instances are cached on canonical arguments (K01). dtype and library of purely radial bases are not part of their identity.""")
prop('L01', 'Pencil matrices and vector calculus act as the expressions they stand for',
     """The matrix a subproblem builds for an expression, applied to the raveled coefficients of its variables, gives the raveled coefficients of the evaluated expression: sums add and scalings scale the matrices of their terms, linear operators multiply the matrix of their operand,
     products with a known coefficient multiply by the matrix of that coefficient, with its side, handedness, tensor indices and cutoff, and an expression is built for the variables it contains only. Components, traces, transposes, skews, rotations and tensor products act on the index
     asked for, in matrices as in evaluation, whatever the rank of the operand, the position of the index and the dtype. One-dimensional and polar operators apply the matrix of their basis along their axis, per group and spin component. Gradient, divergence, curl and Laplacian over Cartesian and
     direct-product coordinates, in any order of their directions, are assembled into the operators of their mathematical definitions.""",
     ['inputs', 'configurations'], 'operands of rank up to three, one to three dimensions, real and complex; every index of every tensor operator; all orders of line, plane and space factors',
     """Tests solve equations with scalars and vectors in a few geometries; operators on later indices of tensors, coefficients of unusual sign or handedness, and direct products in other orders do not appear on their left-hand sides.""",
     ['dedalus/core/arithmetic.py', 'dedalus/core/operators.py'],
     [('composition', 'Add, Multiply, LinearOperator.expression_matrices; Product.prep_nccs, gather_ncc_coeffs, build_ncc_matrix'), ('tensors', 'subproblem_matrix and operate of component, trace, transpose, skew, gradient and divergence operators'), ('lines', 'SpectralOperator1D, PolarMOperator, InterleaveMatrix'), ('calculus', 'constructors of Gradient, Divergence, Curl and Laplacian over Cartesian and direct-product coordinates')],
     'abstract interpretation of matrix builders and operator constructors on labelled operands, against evaluation and the mathematical definition',
     """Matrices of single bases are those of their definitions (A03 is not claimed, C01 and B04 decide parts). Curvilinear gradients are not assembled from parts and are outside this property.""")
