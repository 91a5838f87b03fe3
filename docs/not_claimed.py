NUM = "Quantifies over floating-point results of numerical kernels (transform/quadrature/linear-algebra output); no static argument over the source bounds them. "
prop('N10', 'Grid-coefficient transforms round-trip to rounding error for every basis',
     """Transforming any bandlimited field to grid space and back returns the same coefficients to rounding error, for every basis,
     scale factor and dtype.""", ['inputs', 'configurations'], 'all fields, bases, sizes, scales',
     'Tests sample a few sizes and scales per basis.', ['dedalus/core/transforms.py', 'dedalus/core/basis.py'], [('transforms', 'transforms.py')],
     na=NUM + "The structural parts (outputs completely overwritten, paired normalizations, layout bookkeeping) are claimed separately.")
prop('N11', 'Operator matrices agree with direct evaluation of the operator',
     """For every linear operator and argument, applying its subproblem matrices to the coefficients equals evaluating the operator.""",
     ['inputs', 'programs'], 'all operators and arguments', 'Tests sample operators on small domains.',
     ['dedalus/core/operators.py', 'dedalus/core/basis.py'], [('operator matrices', 'subproblem_matrix')],
     na=NUM + "Matrix entries come from Jacobi/Zernike recursions in floating point; agreement is a numerical statement.")
prop('N12', 'Vector-calculus identities hold on curvilinear domains',
     """Divergence of curl, curl of gradient and the Laplacian/divergence-of-gradient identity hold for every field on every geometry.""",
     ['inputs', 'configurations'], 'all fields and geometries', 'Tests check particular analytic fields.',
     ['dedalus/core/basis.py', 'dedalus/libraries/dedalus_sphere/sphere.py'], [('spin/regularity calculus', 'basis.py')],
     na=NUM + "They reduce to floating-point recursion tables indexed by (m, ell, n).")
prop('N13', 'NCC expansions converge to the pointwise product within the cutoff',
     """Multiplication matrices of nonconstant coefficients reproduce the pointwise product to the requested cutoff.""",
     ['inputs'], 'all coefficient fields', 'Tests sample polynomials.', ['dedalus/core/arithmetic.py', 'dedalus/tools/clenshaw.py'], [('NCC matrices', 'arithmetic.py')],
     na=NUM + "Truncation error depends on the runtime coefficient values.")
prop('N14', 'Solutions of boundary, initial and eigenvalue problems satisfy the equations',
     """After a solve, the residual of the discretized equations is at rounding level.""", ['inputs', 'programs'], 'all well-posed problems',
     'Tests sample problems.', ['dedalus/core/solvers.py'], [('solvers', 'solvers.py')],
     na=NUM + "Depends on conditioning and the external sparse/eigen solvers.")
prop('N15', 'Results are independent of the number of processes and mesh',
     """Running the same script on any process mesh gives the same fields up to rounding.""", ['configurations', 'schedules'], 'all meshes',
     'Tests run serially.', ['dedalus/core/distributor.py', 'dedalus/core/evaluator.py'], [('distribution', 'distributor.py')],
     na="Equality of numerical results across process counts is a runtime statement; the structural necessary conditions (layout typestate, block partition, collectives not conditional on local state) are claimed separately.")
prop('N16', 'Checkpoint restart continues the simulation identically',
     """Loading a saved state and continuing equals the uninterrupted run.""", ['histories', 'crash_points'], 'all save points',
     'Tests save once.', ['dedalus/core/solvers.py', 'dedalus/core/evaluator.py'], [('load_state', 'solvers.py')],
     na="HDF5 write/read equality and multistep start-up make this a runtime round-trip property; multistep restarts intentionally lose history.")
prop('N17', 'Quadrature and integration are exact to the basis degree',
     """Integrals and averages of bandlimited fields are exact to rounding.""", ['inputs'], 'all fields', 'Tests sample fields.',
     ['dedalus/core/basis.py'], [('integration', 'basis.py')], na=NUM)
