"""Models shared by the solver rules: fields with a layout, subproblems with small concrete systems, evaluator and configuration."""
import numpy as np
import scipy.sparse as sps
from ..interp import *
from ..repo import Class
from ..nd import ND, SP, Const, NDConfig, unwrap, wrap, NotConcrete


def err(it, msg):
    it.state['errors'].append((it.loc(), msg))


class FieldS(AbsVal):
    """One coefficient per subproblem; the layout tells whether the data are coefficients."""
    def __init__(self, name, n, layout='g'):
        self.name, self.arr, self.layout = name, np.zeros(n, dtype=complex), layout
        self.valid = ND(np.ones(n, dtype=bool))
        self.log = []

    def __repr__(self):
        return f"<{self.name}>"

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is'):
            return self is other
        if op in ('!=', 'is not'):
            return self is not other
        return NotImplemented

    def move(self, layout):
        if isinstance(layout, Obj):
            layout = layout.attrs.get('key', '?')
        self.layout = layout

    def getattr(self, it, name):
        if name == 'name':
            return self.name
        if name == 'valid_modes':
            return self.valid
        if name == 'domain':
            return Obj(None, 'domain', {'dealias': ('dealias',), 'bases': (), 'dim': 1})
        if name == 'data':
            if self.layout != 'c':
                err(it, f"data of {self.name} are used as coefficients in grid space")
            return ND(self.arr)
        if name == 'dtype':
            return Const(np.complex128)
        return NotImplemented

    def getitem(self, it, key):
        if key in ('c', 'g'):
            self.layout = key
            return ND(self.arr)
        return NotImplemented

    def setitem(self, it, key, value):
        if key not in ('c', 'g'):
            raise PathAbort(f"setting {self.name}[{show(key)}]")
        self.layout = key
        self.arr[...] = dense(value)

    def callmethod(self, it, name, args, kwargs):
        if name in ('change_layout', 'require_layout'):
            self.move(args[0])
            return None
        if name == 'require_coeff_space':
            self.move('c')
            return None
        if name == 'require_grid_space':
            self.move('g')
            return None
        if name in ('change_scales', 'preset_scales', 'require_scales'):
            self.log.append((name, args[0]))
            return None
        if name == 'allreduce_data_max':
            return wrap(self.arr.real.max())
        if name in ('gather_ncc_coeffs',):
            return None
        if name == 'load_from_hdf5':
            self.log.append((name, args, kwargs))
            return None
        return NotImplemented


class FactM(AbsVal):
    def __init__(self, it, matrix, w):
        self.m = np.array(dense(matrix))
        self.w = w
        w.factors += 1

    def callmethod(self, it, name, args, kwargs):
        if name == 'solve':
            b = dense(args[0])
            if self.w.singular:
                raise RaiseSig('RuntimeError', 'singular', it.loc())
            return ND(np.linalg.solve(self.m, b))
        return NotImplemented


def dense(m):
    if isinstance(m, SP):
        return m.a.toarray()
    try:
        return np.asarray(unwrap(m))
    except NotConcrete:
        raise PathAbort(f'unknown value {show(m)}')


class MatSolverM(AbsVal):
    def __init__(self, name, w, config=None):
        self.name, self.w, self.config = name, w, dict(config or {})

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'config':
            return self.config
        if name == '__name__':
            return self.name
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is'):
            return self is other
        if op in ('!=', 'is not'):
            return self is not other
        return NotImplemented

    def call(self, it, args, kwargs):
        if len(args) > 1 and args[1] is not it.state.get('solver'):
            err(it, f"the matrix solver is given {show(args[1])} as its solver")
        return FactM(it, args[0], self.w)


class SectionM(AbsVal):
    def __init__(self, name, d):
        self.name, self.d = name, {k.lower(): v for k, v in d.items()}

    def truth(self, it):
        return bool(self.d)

    def raw(self, it, key):
        if not isinstance(key, str) or key.lower() not in self.d:
            raise RaiseSig('KeyError', key, it.loc())
        return self.d[key.lower()]

    def getitem(self, it, key):
        v = self.raw(it, key)
        return str(v)

    def callmethod(self, it, name, args, kwargs):
        if name == 'getboolean':
            v = str(self.raw(it, args[0])).lower()
            if v not in ('true', 'false'):
                raise RaiseSig('ValueError', v, it.loc())
            return v == 'true'
        if name == 'get':
            return str(self.raw(it, args[0]))
        if name == 'getint':
            return int(self.raw(it, args[0]))
        return NotImplemented


class ConfigM(AbsVal):
    def __init__(self, d):
        self.d = {k: SectionM(k, v) for k, v in d.items()}

    def truth(self, it):
        return True

    def getitem(self, it, key):
        if key not in self.d:
            raise RaiseSig('KeyError', key, it.loc())
        return self.d[key]

    def callmethod(self, it, name, args, kwargs):
        if name in ('getboolean', 'get', 'getint'):
            return self.getitem(it, args[0]).callmethod(it, name, args[1:], kwargs)
        return NotImplemented


class HandlerS(AbsVal):
    def __init__(self, w, iter_, group):
        self.w, self.iter, self.group = w, iter_, group
        self.tasks, self.fields, self.last = [], None, None

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'fields':
            if self.fields is None:
                raise RaiseSig('AttributeError', 'fields', it.loc())
            return self.fields
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'add_task':
            self.tasks.append(args[0])
            return None
        if name == 'add_tasks':
            self.tasks += list(it.iterate(args[0]))
            return None
        if name == 'build_system':
            self.fields = [FieldS(f"F{i}", self.w.n) for i in range(len(self.tasks))]
            return None
        return NotImplemented

    def evaluate(self, it):
        for t, f in zip(self.tasks, self.fields):
            if not (isinstance(t, tuple) and t[0] == 'F'):
                err(it, f"evaluates {show(t)} as an equation right-hand side")
                continue
            f.arr[:] = self.w.rhs(t[1])
            f.layout = 'g'


class EvaluatorS(AbsVal):
    def __init__(self, w):
        self.w, self.handlers, self.calls = w, [], []

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'handlers':
            return self.handlers
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        self.calls.append((name, args, kwargs))
        if name == 'add_system_handler':
            h = HandlerS(self.w, kwargs.get('iter'), kwargs.get('group'))
            self.handlers.append(h)
            return h
        if name in ('require_coeff_space', 'require_grid_space'):
            for f in it.iterate(args[0]):
                f.move('c' if 'coeff' in name else 'g')
            self.w.events.append((name, list(it.iterate(args[0]))))
            return None
        if name in ('evaluate_scheduled', 'evaluate_group', 'evaluate_handlers'):
            hs = self.handlers
            if name == 'evaluate_group':
                hs = [h for h in hs if h.group == args[0]]
            if name == 'evaluate_handlers':
                hs = list(it.iterate(args[0]))
            for h in hs:
                if name == 'evaluate_scheduled':
                    i = unwrap(kwargs.get('iteration'))
                    if i is None:
                        raise RaiseSig('TypeError', 'iteration is None', it.loc())
                    if h.iter is None or (h.last is not None and i // h.iter <= h.last):
                        continue
                    h.last = i // h.iter
                if isinstance(h, HandlerS):
                    h.evaluate(it)
            return None
        return NotImplemented


class SolverCfg(NDConfig):
    max_paths = 8

    def on_new(self, it, cls, args, kwargs, node):
        w = it.state['w']
        if cls.name == 'Evaluator':
            w.evaluator_args = args
            return w.evaluator
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        w = it.state['w']
        n = clo.func.name
        if clo.func.cls is None and clo.func.module.name.endswith('core.subsystems'):
            if n == 'build_subsystems':
                w.at_build = {k: args[0].attrs.get(k) for k in ('bc_top', 'tau_left', 'interleave_components', 'store_expanded_matrices', 'matrix_coupling', 'matrix_dependence', 'matsolver', 'dist', 'dtype', 'ncc_cutoff', 'max_ncc_terms', 'entry_cutoff')}
                return w.subsystems
            if n == 'build_subproblems':
                if args[1] is not w.subsystems:
                    err(it, "subproblems are not built from the subsystems")
                return tuple(w.subproblems)
            if n == 'build_subproblem_matrices':
                sel = [args[1]] if isinstance(args[1], Obj) else list(it.iterate(args[1]))
                if isinstance(args[1], Obj) or not all(isinstance(p, Obj) and p in w.subproblems for p in sel):
                    err(it, f"matrices are built for {show(args[1])}, which is not a list of subproblems")
                    raise PathAbort('subproblems')
                w.build(it, sel, list(it.iterate(args[2])))
                return None
        if n == 'scipy_sparse_eigs':
            return w.sparse_eigs(it, clo, args, kwargs)
        return NotImplemented

    def on_getitem(self, it, base, key):
        if isinstance(base, dict) and isinstance(key, (Obj, FieldS)) and key not in base:
            raise RaiseSig('KeyError', show(key), it.loc())
        return super().on_getitem(it, base, key)

    def on_isinstance(self, it, value, cls):
        if isinstance(value, AbsVal) and type(value).__module__.startswith('dsa.rules') and isinstance(cls, (Native, Class)):
            return False
        return None

    def on_call(self, it, f, args, kwargs, node):
        if show(f) == 'scipy.linalg.eig':
            return it.state['w'].eig(it, args, kwargs)
        if show(f).startswith(('h5py.', 'pathlib.', 'cProfile.', 'time.')):
            r = it.state['w'].external(it, show(f), args, kwargs)
            if r is not NotImplemented:
                return r
        return super().on_call(it, f, args, kwargs, node)

    def on_native(self, it, name, args, kwargs):
        if name == 'print':
            return None
        return super().on_native(it, name, args, kwargs)


class WorldS:
    """Three subproblems, two equations, two variables."""
    n = 3
    singular = False

    def __init__(self, repo, it, kind, dtype=np.complex128):
        self.repo, self.kind = repo, kind
        self.factors = 0
        self.events = []
        r = self.rng = np.random.default_rng(3)
        self.param = 0          # changes the equations' matrices
        self.forcing = 0        # changes the right-hand sides
        self.base = r.integers(1, 9, (self.n, 2, 2)) + np.eye(2) * 11
        self.f0 = r.integers(1, 9, (2, self.n)) + 0j
        self.vars = [FieldS(x, self.n) for x in 'uv']
        for v in self.vars:
            v.arr[:] = r.integers(1, 9, self.n)
        self.perts = [FieldS('d' + x, self.n) for x in 'uv']
        self.evaluator = EvaluatorS(self)
        sub = repo.cls('core.subsystems', 'Subproblem')
        ss = repo.cls('core.subsystems', 'Subsystem')
        self.subsystems, self.subproblems = [], []
        for k in range(self.n):
            s = Obj(ss, f'subsystem{k}', {'group': (k,), 'scatter': Native('scatter', lambda it2, d, fs, k=k: self.scatter(it2, k, d, fs)), 'gather': Native('gather', lambda it2, fs, k=k: self.gather(it2, k, fs))})
            p = Obj(sub, f'subproblem{k}', {'group': (k,), 'subsystems': (s,), 'shape': (2, 2), 'size': 2, 'index': k,
                    'gather_outputs': Native('gather_outputs', lambda it2, fs, out=None, k=k: self.gather(it2, k, fs, True)),
                    'gather_inputs': Native('gather_inputs', lambda it2, fs, out=None, k=k: self.gather(it2, k, fs, True)),
                    'scatter_inputs': Native('scatter_inputs', lambda it2, d, fs, k=k: self.scatter(it2, k, d, fs)),
                    'scatter_outputs': Native('scatter_outputs', lambda it2, d, fs, k=k: self.scatter(it2, k, d, fs))})
            p.closed = True
            self.subsystems.append(s)
            self.subproblems.append(p)
        self.subsystems = tuple(self.subsystems)
        self.layout = Obj(None, 'coeff_layout', {'key': 'c', 'local': ND(np.array([False, True]))})
        self.comm = Obj(None, 'comm', {'rank': 0, 'size': 1})
        self.dist = Obj(None, 'dist', {'coeff_layout': self.layout, 'comm': self.comm, 'comm_cart': self.comm, 'dim': 2,
                                       'get_basis_axis': Native('get_basis_axis', lambda it2, b: b.attrs['axis'])})
        self.dtype = Const(np.dtype(dtype))
        self.eqs = [{'F': ('F', i), 'domain': Obj(None, f'domain{i}', {'bases': ()}), 'L': 1, 'M': 1, 'dF': 1} for i in range(2)]
        self.problem = Obj(None, 'problem', {'variables': self.vars, 'LHS_variables': self.perts if kind == 'NonlinearBoundaryValueSolver' else self.vars, 'equations': self.eqs, 'eqs': self.eqs,
                                             'dist': self.dist, 'dtype': self.dtype, 'namespace': {'x': 1}, 'matrix_coupling': ND(np.array([False, True])), 'matrix_dependence': ND(np.array([True, True])),
                                             'perturbations': self.perts, 'eigenvalue': FieldS('lambda', 1), 'time': FieldS('t', 1)})
        self.matsolvers = {k: MatSolverM(k, self) for k in ('defaultsolver', 'defaultfactorizer', 'other')}
        self.config = ConfigM({'linear algebra': {'MATRIX_SOLVER': 'DefaultSolver', 'MATRIX_FACTORIZER': 'DefaultFactorizer', 'SPLIT_CSR_MATVECS': 'False', 'OLD_CSR_MATVECS': 'False'},
                               'matrix construction': {'BC_TOP': 'False', 'TAU_LEFT': 'True', 'INTERLEAVE_COMPONENTS': 'False', 'STORE_EXPANDED_MATRICES': 'True'},
                               'profiling': {'PROFILE_DEFAULT': 'False', 'PARALLEL_PROFILE_DEFAULT': 'False', 'PROFILE_DIRECTORY': 'profiles'},
                               'memory': {'STORE_OUTPUTS': 'True', 'STORE_LAST_DEFAULT': 'True'}})
        cfgmod = repo.module('tools.config').name
        sol = repo.module('core.solvers').name
        it.module_cache[(cfgmod, 'config')] = self.config
        it.module_cache[(sol, 'config')] = self.config
        it.module_cache[(sol, 'matsolvers')] = self.matsolvers
        it.module_cache[(repo.module('libraries.matsolvers').name, 'matsolvers')] = self.matsolvers
        it.state.update(w=self, errors=[])

    # equations
    def matrix(self, name, k):
        m = self.base[k] * {'L': 1, 'M': 2, 'dF': 1}[name] + self.param
        if name == 'M':
            m = m + np.array([[0, 3], [1, 0]])
        if name == 'dF':
            m = m + np.diag([v.arr[k] for v in self.vars])
        return m.astype(complex)

    def rhs(self, i):
        r = self.f0[i] + self.forcing * (i + 1)
        if self.kind == 'NonlinearBoundaryValueSolver':
            r = r + self.vars[i].arr ** 2
        return r

    def build(self, it, sps_, names):
        self.events.append(('build', [p.attrs['index'] for p in sps_], list(names)))
        for p in sps_:
            for n in names:
                p.attrs[f'{n}_min'] = SP(sps.csr_matrix(self.matrix(n, p.attrs['index'])))

    def gather(self, it, k, fs, column=False):
        fs = list(it.iterate(fs))
        for f in fs:
            if f.layout != 'c':
                err(it, f"{f.name} is gathered in grid space")
        v = np.array([f.arr[k] for f in fs])
        return ND(v[:, None] if column else v)

    def scatter(self, it, k, data, fs):
        fs = list(it.iterate(fs))
        d = dense(data)
        for i, f in enumerate(fs):
            if f.layout != 'c':
                err(it, f"{f.name} is scattered to in grid space")
            f.arr[k] = d[i, 0] if d.ndim == 2 else d[i]

    def external(self, it, name, args, kwargs):
        return NotImplemented

    def eig(self, it, args, kwargs):
        return NotImplemented

    def sparse_eigs(self, it, clo, args, kwargs):
        return NotImplemented


def new_solver(it, repo, w, cls, args=(), kwargs=None):
    c = repo.cls('core.solvers', cls)
    s = Obj(c, 'solver')
    s.closed = True
    it.state['solver'] = s
    init = c.method('__init__')
    it.call_func(Closure(init, None, s, init.cls), [s, w.problem, *args], dict(kwargs or {}))
    return s


def meth(it, o, n, *a, **k):
    return it.call(it.getattr(o, n), list(a), k)


def judge(repo, rep, go, f, what, key, expect=None, cfg=None, n=1):
    """Run all paths; `go` returns a message, None, or a list of messages."""
    it = Interp(repo, (cfg or SolverCfg)())
    for r in it.explore(go):
        errs = r.extra.get('errors') or []
        if errs and r.outcome != 'raise':
            rep.check(False, key, f"{what}: {errs[0][1]}", errs[0][0], what)
        elif r.outcome == 'abort':
            rep.undec(f"{what}: {r.value}")
        elif expect:
            rep.check(r.outcome == 'raise' and r.value.name.replace('IOError', 'OSError') == expect.replace('IOError', 'OSError'), key, f"{what}: {show(r.value)} instead of {expect}", f.loc, what)
        else:
            msg = f"raises {r.value.name} ({show(r.value.value)}) at {r.value.loc}" if r.outcome == 'raise' else r.value
            rep.check(msg is None, key, f"{what}: {msg}", f.loc, what)
