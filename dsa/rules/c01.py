"""Collective communication is reached by all processes alike.

Dataflow analysis of rank-dependent values (rank and coordinates, local data
and extents, local lists of subproblems, clocks and file-system queries) over
all functions, with summaries across calls and attributes.  No call that may
execute a collective operation may be controlled by a rank-dependent condition,
loop, early exit or argument.
"""
import ast
import os
import re
from ..taint import *
from ..repo import AnalysisBroken

EXPLANATION = __doc__


import numpy as np
BUILTIN = {a for t in (list, dict, set, str, tuple, int, float) for a in dir(t)} | set(dir(np.ndarray)) | {'solve', 'write', 'close', 'read', 'toarray', 'tocsr', 'tocoo', 'dot'}

LOCAL = {'local_shape', 'local_elements', 'local_chunks', 'local_groups', 'local_group_arrays', 'local_groupset', 'local_groupsets', 'local_slices'}


class Sources:
    """What is rank-dependent, what is uniform."""
    UNIFORM = {'dtype', 'ndim', 'itemsize', 'tensorsig', 'domain', 'dist', 'layout', 'comm', 'comm_cart', 'comm_sub', 'pycomm', 'bases', 'scales', 'name', 'local', 'grid_space', 'size_'}

    def uniform_attr(self, e):
        return e.attr in self.UNIFORM

    def local_attr(self, e):
        if e.attr in ('rank', 'coords') and comm_like(e.value):
            return True
        return e.attr in ('comm_coords', 'ext_coords', 'data', 'subproblems', 'subsystems') or e.attr in LOCAL

    def resolve_attr(self, e):
        return False

    def collective_call(self, ft, e, txt):
        last = txt.split('.')[-1]
        if last == 'write' and any(k.arg == 'dxpl' for k in e.keywords):
            return True
        if last in ('resize', 'create_dataset', 'create_group', 'make_scale', 'attach_scale') and ft.cls is not None and any(c.name == 'H5ParallelFileHandler' for c in ft.cls.mro()):
            return True
        return txt.endswith('h5py.File') and any(k.arg in ('comm', 'driver') for k in e.keywords)

    def uniform_call(self, txt):
        return txt in ('isinstance', 'hasattr', 'callable', 'type', 'id', 'super')

    def uniform_func(self, ft, fn):
        """Transpose sub-shapes: local extents outside the transposed axes, which the
        processes of the transposing communicator share (extents are checked by D03)."""
        if not (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ft.me and ft.cls is not None and any(c.name == 'Transpose' for c in ft.cls.mro())):
            return False
        m = ft.cls.method(fn.attr)
        if m is None:
            return False
        calls = {n.func.attr for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        return {'local_shape', 'global_shape'} <= calls

    def local_call(self, e, txt):
        last = txt.split('.')[-1]
        if txt.endswith('.current_file.exists'):
            return False   # created and renamed only between barriers of all processes
        if txt in ('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'perf_counter', 'os.getpid', 'psutil.Process'):
            return True
        return last in ('exists', 'is_file', 'is_dir', 'iterdir', 'glob', 'rglob', 'isfile', 'isdir', 'listdir', 'Get_rank', 'Get_coords') or last in LOCAL

    def filter(self, ft, e, ts):
        return [] if e.func.attr in BUILTIN else ts

    def ignore_collective(self, f, g, node, byname):
        return False

    def local_key(self, key):
        return isinstance(key, str) and key in ('local_shape', 'local_start', 'local_size', 'local_slices')

    def balanced(self, ft, node, cond):
        """RotateProcesses: rank barriers on entry, size - rank on exit."""
        return ft.cls is not None and ft.cls.name == 'RotateProcesses'


UNIFORM = [
    ('extras.flow_tools', 'GlobalArrayReducer', ('reduce_scalar', 'global_min', 'global_max', 'global_mean')),
    ('extras.flow_tools', 'GlobalFlowProperty', ('min', 'max', 'grid_average', 'volume_integral')),
    ('extras.flow_tools', 'CFL', ('compute_timestep', 'compute_dt')),
    ('core.field', 'Field', ('allgather_data', 'allreduce_data_norm', 'allreduce_data_max')),
    ('core.solvers', 'InitialValueSolver', ('world_time', 'wall_time', 'proceed')),
]


def run(repo, rep):
    rep.rule(__doc__)
    T = Taint(repo, lambda n: n.startswith(('dedalus.core', 'dedalus.tools', 'dedalus.extras')), Sources())
    rounds = T.solve()
    coll = [(f, c) for f, c in T.inst if T.sum[(id(f.node), c)].coll]
    rep.count('fixed-point rounds', rounds)
    rep.count('functions analysed', len(T.funcs))
    rep.count('function contexts analysed', len(T.inst))
    rep.count('functions that may execute a collective', len({f.fq for f, c in coll}))
    rep.count('collective call sites', len(T.sites))
    rep.count('direct MPI collectives', len(T.direct))
    rep.count('rank-dependent attributes', len(T.attr))
    if os.environ.get('C01DBG'):
        for f, c in coll:
            print('COLL', f.fq, c and c.name, '<-', T.sum[(id(f.node), c)].coll)
        for k, w in T.attr.items():
            print('ATTR', k, w)
    for name in ('core.distributor', 'core.field', 'core.evaluator', 'core.solvers', 'core.arithmetic', 'core.transposes', 'extras.flow_tools', 'tools.parallel'):
        if not any(d[0].module.name == 'dedalus.' + name for d in T.direct.values()):
            raise AnalysisBroken(f"no MPI collective recognised in dedalus.{name}")
    rep.floor('collective call sites', 150)
    bad = {(f.fq, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)) for f, n, d, w in T.reports.values()}
    for s in sorted(T.sites):
        if s not in bad:
            rep.ok(f"{s[0]}:{s[1]} not controlled by rank-dependent values")
    for k, (f, node, desc, why) in sorted(T.reports.items(), key=lambda x: x[0]):
        rep.violation(f"{f.fq}|{desc}", f"{f.qualname}: {desc} may execute a collective under the rank-dependent condition '{why}'", f"{f.module.rel}:{getattr(node, 'lineno', '?')}")
    # Reduced quantities are the same on every process
    for mod, cls, names in UNIFORM:
        for c in repo.subclasses(repo.cls(mod, cls)):
            for n in names:
                m = c.method(n)
                if m is None:
                    raise AnalysisBroken(f"{cls}.{n} not found")
                s = T.sum[(id(m.node), c)]
                rep.check(L not in s.ret and not any(p in s.ret for p in ('p:data', 'p:local_scalar')), f"{m.fq}|uniform result", f"{c.name}.{n} may return a value that differs between processes", m.module.rel + f":{m.node.lineno}")
