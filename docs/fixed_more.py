FIXED['K01'] = {'6c2528d': 'the resolved key of one call equalled the direct key of another (f((1, 2), ()) gave f(1, 2))', '85529a7': 'constructing a cached class raised KeyError when the garbage collector ran between lookup and return',
                '610a07a': 'spin recombination matrices changed the cached factors of the coordinate system', '8a832a2': 'ball and shell CFL operators scaled the cached sphere spacings at every construction',
                '0e01f84': 'virtual file handlers kept their emptiness from before tasks were added'}
FIXED['A03'] = {'82200ad': 'conversion matrices of Jacobi bases of different sizes', '915bfe3': 'matrix dependence of ball operators'}
FIXED['B01'] = {'fa4268f': 'transforms left truncated modes uninitialised'}
FIXED['Q01'] = {'bc13b65': 'curvilinear bases of different resolution compared equal, so fields were combined and converted as if they had the same size'}
FIXED['N01'] = {'c0863f2': 'Field.allreduce_L2_norm of vectors and tensors raised AttributeError (arithmetic.dot, arithmetic.Trace, arithmetic.Dot and operators.Transpose do not exist)',
                'd92fdc5': 'global_radius_weights and local_radius_weights of annulus and disk bases raised TypeError (sphere.quadrature takes no k)',
                '851a5c5': 'tuple_tools used numpy without importing it'}
FIXED['L01'] = {'e2577a8': 'the matrix of a spin skew sized its azimuthal factor by the axis instead of the tensor index (IndexError or wrong size for vectors that are not over all of space)',
                'd688ec5': 'curl over the direct product of a plane and a line (in that order) tested the dimension of scalars and raised NotImplementedError'}
