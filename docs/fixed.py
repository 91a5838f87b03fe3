#!/usr/bin/env python3
"""Rewrites the list of repaired defects in known_findings.json.  Run: python3 docs/fixed.py"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: {commit: what failed}
FIXED = {
    'D01': {'fc6b37f': 'Transpose.decrement_group relabelled fields with layout1 (instead of layout0) when no communication was needed, so grouped redistribution on empty/undistributed domains never reached coefficient space'},
    'D03': {'fa58a9d': 'AlltoallvTranspose ignored the chunk shape passed by the planner and split grouped chunks between processes'},
    'O01': {'113aa77': 'DotProduct accepted contraction indices equal to the tensor rank', 'b74e9d1': 'vector component operators always took the first tensor index',
            'e25d43b': 'Lock.operate locked a list instead of its layouts', 'a7634c6': 'TransposeComponents used negative indices without normalizing them',
            '93d98bf': 'Radial/Angular/AzimuthalComponent used the unnormalized index', '403873d': 'ConvertConstant did not require the last axis of multidimensional bases to be local',
            'b93dd71': 'colatitude interpolation overwrote its operand', '592df3f': 'radial transform factors were broadcast along the wrong axis when other axes follow'},
    'E01': {'bf32b6b': 'evaluator string tasks were not parsed in the problem namespace'},
    'E02': {'c0cb9f9': 'coefficient-space output scales used the wavenumbers of another axis', 'a55c016': 'append mode failed on folders without numbered sets'},
    'E03': {'baffe13': 'setting global data of tensor fields sliced component axes', 'b5096e0': 'scales inferred from a grid shape gave another shape after roundoff'},
    'A01': {'298671e': 'array @ operand was not defined', 'c25995a': 'LinearOperator.replace swapped its arguments', '1721884': 'Product.expand called a method that does not exist',
            '4f6f8bb': 'Product.expand failed on numeric factors', '7d26dfe': 'Average and TimeDerivative could not be rebuilt', '357b8bc': 'Copy, Lock and component operators failed on zero operands',
            '2c3b22b': 'Add dropped arguments beyond the second', '725c9a5': 'Multiply with more than two factors overwrote the third', 'adbe414': 'powers and grid functions failed when rebuilt on numbers',
            'ae23074': 'the time derivative of a number failed', 'e789765': 'CoordinateSystem equality compared only some of the coordinates'},
    'O02': {'e696cbf': 'azimuthal averages failed on zero operands', 'b821dea': 'GeneralFunction could not be rebuilt'},
    'P01': {'9c0b86b': 'build_EVP failed with default backgrounds', 'bf1244c': 'order checks of nonlinear operators failed on arguments that are not operands', '67bdebd': 'IVPs silently dropped time derivatives of coefficients'},
    'S02': {'bb22cd4': 'gather/scatter of subproblems cached views of field buffers that had been replaced'},
    'P03': {'deb54b4': 'BVP solves reset modes outside the solved subproblems', '497279c': 'the override message failed for matrix solvers with option requirements', '7f36469': 'dense eigenvalue solves without left vectors left right_eigenvectors unset or stale'},
    'B04': {'3c9ca0f': 'solve_upper_sparse failed on fresh matrices and returned nothing without an output', 'ab484a7': 'sparse kernels lost their results on outputs whose reshape is a copy'},
    'C01': {'2f46678': 'linear BVP solves deadlocked when some processes had no subproblems to build', 'e947be0': 'NCC evaluation changed layouts only on processes with subsystems'},
    'M01': {'493cf6f': 'the SPQR solver referred to a name imported in another method, so every solve raised NameError'},
    'V01': {'9aafec0': 'Chebyshev CFL spacings used the position in the coordinate system instead of the axis (cylinders with Chebyshev heights failed)', '1f51882': 'CFL operators overwrote the cached grid spacings of their bases'},
    'S03': {'80941d0': 'evolve raised AttributeError when it ended before or exactly at the end of the warmup, hiding errors of the loop'},
}
exec(open(os.path.join(HERE, 'docs', 'fixed_more.py')).read()) if os.path.exists(os.path.join(HERE, 'docs', 'fixed_more.py')) else None


def main():
    p = os.path.join(HERE, 'known_findings.json')
    d = json.load(open(p))
    d['fixed'] = [f"fixed: property={k} {c} {w}" for k, v in FIXED.items() for c, w in v.items()]
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n')
    have = {c for v in FIXED.values() for c in v}
    for l in log:
        if ' fix: ' in l and l.split()[0] not in have:
            print('not listed:', l)
    json.dump(d, open(p, 'w'), indent=1)


if __name__ == '__main__':
    main()
