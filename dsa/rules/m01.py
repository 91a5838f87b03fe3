"""Every matrix solver solves the system it was built for.

The registry of matrix solvers is built by interpreting libraries/matsolvers.py;
every registered class is constructed and used on arrays of labels, with the
factorisation libraries replaced by their contracts (which system a call with
given arguments solves, and in which shape the result comes).
"""
import configparser
import itertools
import os
import numpy as np
import scipy.sparse as sps
from ..interp import *
from ..repo import AnalysisBroken
from ..nd import ND, SP, Const, NDConfig, unwrap, wrap, NotConcrete

EXPLANATION = __doc__


class Ctx(AbsVal):
    """The second argument of a matrix solver: the problem solver (or what the Woodbury formula needs)."""
    def __init__(self, kind, attrs):
        self.kind, self.attrs = kind, attrs

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        raise RaiseSig('AttributeError', f"the {self.kind} has no attribute '{name}'", it.loc())


class Fact(AbsVal):
    """Result of a library factorisation: solves with a snapshot of the matrix."""
    def __init__(self, m, cast=True):
        self.m, self.cast = np.array(m), cast

    def truth(self, it):
        return True

    def solve(self, it, v, trans='N'):
        m = {'N': self.m, 'T': self.m.T, 'H': self.m.conj().T}.get(trans)
        if m is None:
            raise RaiseSig('ValueError', 'trans must be N, T, or H', it.loc())
        if np.iscomplexobj(v) and not np.iscomplexobj(m) and not self.cast:
            raise RaiseSig('TypeError', 'Cannot cast array data from complex128 to float64', it.loc())
        if v.shape[0] != m.shape[0]:
            raise RaiseSig('ValueError', 'incompatible dimensions', it.loc())
        try:
            return np.linalg.solve(m, v)
        except np.linalg.LinAlgError:
            raise RaiseSig('LinAlgError', 'the system given to the library is singular', it.loc())

    def callmethod(self, it, name, args, kwargs):
        if name == 'solve':
            v = unwrap(args[0] if args else kwargs['rhs'])
            tr = kwargs.get('trans', args[1] if len(args) > 1 else 'N')
            return ND(self.solve(it, np.asarray(v), tr))
        return NotImplemented


class Snapshot(AbsVal):
    def __init__(self, m):
        self.m = np.array(m)

    def truth(self, it):
        return True


def todense(v):
    v = unwrap(v)
    return v.toarray() if sps.issparse(v) else np.asarray(v)


def overwrites(it, v, kwargs, key):
    """Libraries allowed to overwrite the right hand side do so."""
    if unwrap(kwargs.get(key, False)):
        it.state['scrap'].append(unwrap(v))


def scrap(it):
    for a in it.state['scrap']:
        a[...] = 777
    it.state['scrap'] = []


class Cfg(NDConfig):
    max_steps = 10 ** 7
    max_depth = 80

    def on_call(self, it, f, args, kwargs, node):
        n = show(f)
        last = n.split('.')[-1]
        if last == 'spsolve' and n.startswith('scipy.'):
            m, v = args[0], np.asarray(unwrap(args[1]))
            x = Fact(todense(m)).solve(it, v)
            if x.ndim == 2 and x.shape[1] == 1:
                x = x.ravel()
            return ND(x)
        if last == 'solve' and 'sparseqr' in n:
            return ND(Fact(todense(args[0])).solve(it, np.asarray(unwrap(args[1]))))
        if last == 'splu':
            m = unwrap(args[0] if args else kwargs['A'])
            if not sps.issparse(m) or m.format != 'csc':
                it.state['errors'].append('a factorisation is given a matrix that is not in CSC format')
            for k in ('permc_spec', 'diag_pivot_thresh', 'relax', 'panel_size', 'options'):
                kwargs.pop(k, None)
            if kwargs:
                raise RaiseSig('TypeError', f"splu() got an unexpected keyword argument '{list(kwargs)[0]}'", it.loc())
            return Fact(m.toarray(), cast=False)
        if last == 'solve_banded':
            overwrites(it, args[2], kwargs, 'overwrite_b')
            overwrites(it, args[1], kwargs, 'overwrite_ab')
            (l, u), ab, v = unwrap(args[0]), np.asarray(unwrap(args[1])), np.asarray(unwrap(args[2]))
            N = ab.shape[1]
            if ab.shape[0] != l + u + 1:
                raise RaiseSig('ValueError', 'l and u do not match the banded matrix', it.loc())
            m = np.zeros((N, N), dtype=ab.dtype)
            for i, j in itertools.product(range(N), range(N)):
                if -l <= j - i <= u:
                    m[i, j] = ab[u + i - j, j]
            return ND(Fact(m).solve(it, v))
        if n in ('scipy.sparse.linalg.inv',):
            return SP(sps.csc_matrix(np.linalg.inv(todense(args[0]))))
        if n in ('scipy.linalg.inv', 'numpy.linalg.inv'):
            return ND(np.linalg.inv(todense(args[0])))
        if last == 'lu_factor':
            return Snapshot(todense(args[0]))
        if last == 'lu_solve':
            overwrites(it, args[1], kwargs, 'overwrite_b')
            tr = unwrap(kwargs.get('trans', args[2] if len(args) > 2 else 0))
            if not isinstance(args[0], Snapshot):
                raise PathAbort(f'unknown factorisation {show(args[0])}')
            return ND(Fact(args[0].m).solve(it, np.asarray(unwrap(args[1])), {0: 'N', 1: 'T', 2: 'H'}.get(tr)))
        if last == 'from_sparse' and 'pybanded' in n:
            return Snapshot(todense(args[0]))
        if last == 'BandedQR' and 'pybanded' in n:
            if not isinstance(args[0], Snapshot):
                raise PathAbort(f'unknown matrix {show(args[0])}')
            return Fact(args[0].m)
        return super().on_call(it, f, args, kwargs, node)


def named(it, mod, name):
    r = it.module_name(mod, name)
    if r is None:
        raise AnalysisBroken(f"no {name} in {mod.name}")
    return r[0]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def matrices(deep):
    r = np.random.RandomState(7)
    for n in (4, 5) if not deep else (3, 4, 5, 6):
        for kind in (float, complex):
            full = r.randint(1, 9, (n, n)) + 7. * np.diag(np.arange(1, n + 1))
            if kind is complex:
                full = full + 1j * r.randint(1, 9, (n, n))
            yield f'{n}x{n} {np.dtype(kind)}', full
            up = np.triu(full, -1)
            yield f'{n}x{n} {np.dtype(kind)} with one lower diagonal', np.triu(np.tril(up, 2), -1)
            yield f'{n}x{n} {np.dtype(kind)} lower', np.tril(full)


SOLVER = {'problem': Ctx('problem', {'variables': [1]}), 'dist': None, 'bc_top': True, 'tau_left': False}


def run(repo, rep):
    deep = rep.tier == 'thorough'
    rep.rule("for every registered solver, matrix and right hand side: solve gives the solution (solve_H the solution of the adjoint system) in the shape of the right hand side, also when repeated, without changing its input and independently of later changes of the matrix")
    mod = repo.module('libraries.matsolvers')
    it = Interp(repo, Cfg())
    reg = {}

    def load(i):
        i.state['errors'] = []
        d = named(i, mod, 'matsolvers')
        return dict(d)
    r = it.explore(load)
    if len(r) != 1 or r[0].outcome != 'return':
        raise AnalysisBroken(f"the solver registry cannot be built: {getattr(r[0].value, 'why', r[0].value)}")
    reg = r[0].value
    rep.count('registered solvers', len(reg))
    rep.floor('registered solvers', 15)
    # configured defaults exist, under lower-case names
    for k in reg:
        rep.check(k == k.lower(), f'registry|{k}', f"solver '{k}' cannot be selected: names are looked up in lower case", mod.rel)
    cfg = configparser.ConfigParser()
    cfg.read(os.path.join(repo.root, 'dedalus', 'dedalus.cfg'))
    for k in ('MATRIX_SOLVER', 'MATRIX_FACTORIZER'):
        v = cfg.get('linear algebra', k, fallback=None)
        rep.check(v is not None and v.lower() in reg, f'config|{k}', f"the configured {k} '{v}' is not a registered solver", 'dedalus/dedalus.cfg')
    skip = {'dummysolver', 'blockinverse'}
    for name, cls in sorted(reg.items(), key=lambda x: x[0]):
        if name in skip:
            continue
        wood = name.startswith('woodbury')
        if wood and name[8:] in skip:
            continue
        probe = {}
        for (what, A), vdim, op in itertools.product(matrices(deep), (None, 1, 3), ('solve', 'solve_H')):
            if wood and (op == 'solve_H' or 'lower' in what):
                continue
            if probe.get(('dead', op)):
                continue
            n = A.shape[0]
            v = np.arange(1, 1 + n * (vdim or 1)).reshape((n,) if vdim is None else (n, vdim)).astype(A.dtype)
            if A.dtype.kind == 'c':
                v = v * (1 + 2j) + 1j * v[::-1]
            want = np.linalg.solve(A if op == 'solve' else A.conj().T, v)
            err = []

            def go(i):
                i.state['errors'] = err
                d = named(i, mod, 'matsolvers')
                c = i.getitem(d, name)
                M = sps.csr_matrix(A)
                ctx = Ctx('subproblem', {'update_rank': 1}) if wood else Ctx('solver', SOLVER)
                s = i.call(c, [SP(M), ctx], {})
                M.data[:] = np.arange(1, 1 + len(M.data)) * 1e3
                x = ND(v.copy())
                i.state['scrap'] = []
                i.call(i.getattr(s, op), [ND(v.copy())], {})
                scrap(i)
                y = i.call(i.getattr(s, op), [x], {})
                scrap(i)
                if not same(unwrap(x), v):
                    err.append('the right hand side is changed')
                return y
            rs = it.explore(go)
            where = f"{mod.rel} {name}"
            tag = f"{name}.{op} on a {what} matrix, right hand side {v.shape}"
            rep.count('solves judged')
            if len(rs) != 1 or rs[0].outcome == 'abort':
                rep.undec(f"{tag}: {[getattr(x.value, 'why', x.value) for x in rs][:1]}")
                continue
            o, y = rs[0].outcome, rs[0].value
            if err:
                rep.violation(f'{name}|{op}', f"{tag}: {err[0]}", where)
                continue
            if o == 'raise':
                if op == 'solve_H' and y.name == 'NotImplementedError':
                    probe[('dead', op)] = True
                    continue
                rep.violation(f'{name}|{op}', f"{tag} raises {y.name}: {show(y.value)}", y.loc)
                continue
            try:
                got = todense(y)
            except NotConcrete:
                rep.undec(f"{tag}: result {show(y)} is not known")
                continue
            rep.check(same(got, want), f'{name}|{op}', f"{tag} does not give the solution" + ('' if got.shape == want.shape else f" (shape {got.shape} for a right hand side of shape {v.shape})"), where, tag)
        if name in ('superlunaturalfactorized', 'superlucolamdfactorized', 'superlunaturalfactorizedtranspose', 'superlucolamdfactorizedtranspose'):
            rep.check(not probe.get(('dead', 'solve_H')), f'{name}|adjoint', f"{name} does not implement adjoint solves", mod.rel)
    # solvers are built from the matrix and the problem solver
    for name in sorted(reg):
        if name not in ('blockinverse',) and not name.startswith('woodbury'):
            continue
        A = next(matrices(deep))[1]

        def build(i):
            i.state['errors'] = []
            return i.call(i.getitem(named(i, mod, 'matsolvers'), name), [SP(sps.csr_matrix(A)), Ctx('solver', SOLVER)], {})
        rs = it.explore(build)
        kind = 'woodbury' if name.startswith('woodbury') else name
        if len(rs) != 1 or rs[0].outcome == 'abort':
            rep.undec(f"{name} construction: {[getattr(x.value, 'why', x.value) for x in rs][:1]}")
        elif rs[0].outcome == 'raise':
            rep.violation(f'{kind}|construction', f"{name} cannot be built by a solver: {rs[0].value.name}: {show(rs[0].value.value)}", rs[0].value.loc)
        else:
            rep.ok(f"{name} construction")
    rep.floor('solves judged', 200)
