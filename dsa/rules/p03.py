"""Boundary and eigenvalue solvers solve the stated systems with current matrices and right-hand sides.

The solver classes are abstractly interpreted over small concrete systems:
fields hold one coefficient per subproblem and know their layout, matrices and
right-hand sides depend on parameters that histories change between solves.
"""
import itertools
import numpy as np
import scipy.sparse as sps
from ..interp import *
from ..nd import ND, SP, Const, unwrap, wrap
from ._solver import *


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-8)


# ---- common construction ------------------------------------------------------

KINDS = ('EigenvalueSolver', 'LinearBoundaryValueSolver', 'NonlinearBoundaryValueSolver', 'InitialValueSolver')


def construct(it, repo, w, kind, **kw):
    if kind == 'InitialValueSolver':
        return new_solver(it, repo, w, kind, [Native('timestepper', lambda it2, s: Obj(None, 'stepper', {'steps': 1, 'stages': 1}))], kw)
    return new_solver(it, repo, w, kind, (), kw)


class Cfg(SolverCfg):
    def on_call(self, it, f, args, kwargs, node):
        if show(f).endswith('.allreduce'):
            return args[0]
        return super().on_call(it, f, args, kwargs, node)


class World(WorldS):
    def external(self, it, name, args, kwargs):
        if name == 'time.time':
            return 5
        if name in ('pathlib.Path', 'cProfile.Profile'):
            return Obj(None, name, {})
        return NotImplemented


def coupling(repo, rep):
    """Coupling overrides, locality and matrix dependence."""
    f = repo.method('core.solvers', 'SolverBase', '__init__')
    bases_of = {1: [[(0, 1)]], 2: [[(0, 1), (1, 1)], [(0, 2)], [(1, 1)], []], 3: [[(0, 1), (1, 2)], [(0, 2), (2, 1)], [(0, 1), (1, 1), (2, 1)], [(0, 3)]]}
    for dim in (1, 2, 3):
        for given, override, local in itertools.product(itertools.product((False, True), repeat=dim), [None] + list(itertools.product((False, True), repeat=dim)), itertools.product((False, True), repeat=dim - 1)):
            local = local + (True,)
            if dim == 3 and list(local) != sorted(local):
                continue
            rep.count('coupling choices')
            want = override if override is not None else given if any(given) else (False,) * (dim - 1) + (True,)
            bad = override is not None and any(g and not o for g, o in zip(given, override)) or any(x and not l for x, l in zip(want, local))

            def go(it):
                w = World(repo, it, 'EigenvalueSolver')
                P = w.problem.attrs
                w.layout.attrs['local'] = ND(np.array(local))
                w.dist.attrs['dim'] = dim
                P['matrix_coupling'] = ND(np.array(given))
                dep0 = np.zeros(dim, dtype=bool)
                dep0[0] = sum(given) % 2
                P['matrix_dependence'] = ND(dep0.copy())
                exp = dep0.copy()
                for i, e in enumerate(w.eqs):
                    bs = []
                    for ax, d in bases_of[dim][(i + sum(given)) % len(bases_of[dim])]:
                        # dependence of this basis: rotate the coupling, plus one marked axis
                        def dep(it2, c, ax=ax, d=d):
                            c = np.asarray(unwrap(c))
                            if c.shape != (d,) or tuple(c) != tuple(want[ax:ax + d]):
                                err(it2, f"the basis on axes {ax}..{ax + d - 1} is asked for its dependence with the coupling {c.tolist()} instead of {want[ax:ax + d]}")
                                return ND(np.zeros(d, dtype=bool))
                            return ND(np.roll(c, 1) if d > 1 else ~c)
                        bs.append(Obj(None, f'basis{ax}', {'axis': ax, 'dim': d, 'matrix_dependence': Native('matrix_dependence', dep)}))
                        c = np.array(want[ax:ax + d])
                        exp[ax:ax + d] |= np.roll(c, 1) if d > 1 else ~c
                    e['domain'].attrs['bases'] = tuple(bs)
                kw = {} if override is None else {'matrix_coupling': tuple(override)}
                s = construct(it, repo, w, 'EigenvalueSolver', **kw)
                got = np.asarray(unwrap(w.at_build['matrix_coupling']))
                if tuple(got) != tuple(want) or tuple(np.asarray(unwrap(it.getattr(s, 'matrix_coupling')))) != tuple(want):
                    return f"couples {got.tolist()} instead of {want}"
                d = np.asarray(unwrap(w.at_build['matrix_dependence']))
                if tuple(d) != tuple(exp):
                    return f"has matrices depending on {d.tolist()} instead of {exp.tolist()}"
                if tuple(P['matrix_coupling'].a) != tuple(given) or tuple(P['matrix_dependence'].a) != tuple(dep0):
                    return "changes the coupling of the problem"
                return None
            judge(repo, rep, go, f, f"problem coupling {given}, requested {override}, local axes {local}", 'P03|coupling', expect='ValueError' if bad else None, cfg=Cfg)


def options(repo, rep):
    f = repo.method('core.solvers', 'SolverBase', '__init__')
    names = ('bc_top', 'tau_left', 'interleave_components', 'store_expanded_matrices')
    defaults = {'bc_top': False, 'tau_left': True, 'interleave_components': False, 'store_expanded_matrices': True}
    for kind in KINDS:
        for given in ({}, *({n: v} for n in names for v in (False, True)), dict(ncc_cutoff='cut', max_ncc_terms='max', entry_cutoff='entry')):
            for flip in (False, True):
                for ms in ((None, 'override', 'OTHER') if not given else (None, 'override')):
                    rep.count('option choices')

                    def go(it):
                        w = World(repo, it, kind)
                        if flip:
                            w.config.d['matrix construction'] = SectionM('m', {n.upper(): str(not defaults[n]) for n in names})
                        dflt = {n: defaults[n] != flip for n in names}
                        ov = {n: (not given.get(n, dflt[n])) for n in names[1::2]}
                        kw = dict(given)
                        if ms == 'override':
                            kw['matsolver'] = MatSolverM('custom', w, ov)
                        elif ms:
                            kw['matsolver'] = ms
                        s = construct(it, repo, w, kind, **kw)
                        want = {**dflt, 'ncc_cutoff': None, **given, **(ov if ms == 'override' else {})}
                        for n, v in want.items():
                            if v is None:
                                continue
                            for where, got in (('when subproblems are built', w.at_build[n]), ('afterwards', it.getattr(s, n))):
                                if got is not v and got != v:
                                    return f"{n} is {show(got)} instead of {v} {where}"
                        m = it.getattr(s, 'matsolver')
                        if ms == 'override' and m is not kw['matsolver'] or ms == 'OTHER' and m is not w.matsolvers['other'] or ms is None and m not in (w.matsolvers['defaultsolver'], w.matsolvers['defaultfactorizer']):
                            return f"uses the matrix solver {show(m)} for {ms}"
                        if it.getattr(s, 'state') is not w.vars and list(it.iterate(it.getattr(s, 'state'))) != w.vars:
                            return "state is not the list of problem variables"
                        if it.getattr(s, 'subproblems') != tuple(w.subproblems) or it.getattr(s, 'subsystems') != w.subsystems:
                            return "subproblems are lost"
                        g = it.getattr(s, 'subproblems_by_group')
                        if [it.getitem(g, p.attrs['group']) for p in w.subproblems] != w.subproblems:
                            return "subproblems_by_group maps groups to wrong subproblems"
                        if w.evaluator_args[0] is not w.dist or w.evaluator_args[1] is not w.problem.attrs['namespace'] and w.evaluator_args[1] != w.problem.attrs['namespace']:
                            return "the evaluator has a wrong distributor or namespace"
                        return None
                    judge(repo, rep, go, f, f"{kind} with options {given}, configuration {'changed' if flip else 'default'}, matrix solver {ms}", 'P03|options', cfg=Cfg)


# ---- linear boundary value problems ---------------------------------------------

def lbvp(repo, rep, thorough):
    c = repo.cls('core.solvers', 'LinearBoundaryValueSolver')
    f = c.method('solve')
    moves = {'solve': (None, False), 'solve rebuilt': (None, True), 'first': ((0,), False), 'two': ((2, 1), False), 'two rebuilt': ((2, 1), True), 'single': (1, False), 'single rebuilt': (1, True)}
    depth = 3
    for seq in itertools.product(moves, repeat=depth):
        if not thorough and depth == 3 and seq[0] not in ('solve', 'first', 'single') and seq[1] not in ('solve', 'two'):
            continue
        for change, early in itertools.product(((True, True, True), (False, True, False)) if thorough else ((True, True, True),), (False, True)):
            if early and not thorough and seq[0] == 'solve':
                continue
            rep.count('LBVP histories')

            def go(it):
                w = World(repo, it, 'LinearBoundaryValueSolver')
                s = construct(it, repo, w, 'LinearBoundaryValueSolver')
                built = {}
                if early:  # matrices inspected before the first solve
                    meth(it, s, 'build_matrices')
                for j, mv in enumerate(seq):
                    which, rebuild = moves[mv]
                    w.forcing = j * j + 1
                    if change[j]:
                        w.param = 5 * j
                    for x in w.vars + list(it.iterate(it.getattr(s, 'F'))):
                        x.layout = 'g'
                    before = [v.arr.copy() for v in w.vars]
                    sel = list(range(w.n)) if which is None else [which] if isinstance(which, int) else list(which)
                    kw = {'rebuild_matrices': True} if rebuild else {}
                    if which is not None:
                        kw['subproblems'] = w.subproblems[which] if isinstance(which, int) else [w.subproblems[i] for i in which]
                    meth(it, s, 'solve', **kw)
                    for k in sel:
                        if rebuild or k not in built:
                            built[k] = w.matrix('L', k)
                    for k in range(w.n):
                        got = np.array([v.arr[k] for v in w.vars])
                        if k in sel:
                            want = np.linalg.solve(built[k], np.array([w.rhs(0)[k], w.rhs(1)[k]]))
                            if not close(got, want):
                                return f"call {j + 1} ({mv}) does not solve subproblem {k} for its current right-hand side with the matrices built last"
                        elif not close(got, [b[k] for b in before]):
                            return f"call {j + 1} ({mv}) changes modes of subproblem {k}, which was not selected"
                    if any(v.layout != 'c' for v in w.vars):
                        return "leaves the state in grid space"
                return None
            judge(repo, rep, go, f, f"history {'build matrices, ' if early else ''}{seq}, coefficients changing {change}", 'P03|LBVP', cfg=Cfg)


def nlbvp(repo, rep):
    c = repo.cls('core.solvers', 'NonlinearBoundaryValueSolver')
    f = c.method('newton_iteration')
    for dampings in ((None,), (None, None, None), (0.5, None, 0.25), (1, 2, 1), (-1, 0.5, None)):
        rep.count('Newton histories')

        def go(it):
            w = World(repo, it, 'NonlinearBoundaryValueSolver')
            for i, v in enumerate(w.vars):
                v.valid.a[:] = [i == 0, True, False]
            s = construct(it, repo, w, 'NonlinearBoundaryValueSolver')
            for p, v in zip(w.perts, w.vars):
                if not np.array_equal(p.valid.a, v.valid.a) or p.valid is v.valid:
                    return "perturbations do not take the valid modes of their variables"
            if list(it.iterate(it.getattr(s, 'perturbations'))) != w.perts:
                return "perturbations are not those of the problem"
            for j, d in enumerate(dampings):
                w.forcing, w.param = j, 3 * j
                for x in w.vars + w.perts + list(it.iterate(it.getattr(s, 'F'))):
                    x.layout = 'g'
                want = np.array([v.arr for v in w.vars])
                new = want.copy()
                for k in range(w.n):
                    new[:, k] -= (1 if d is None else d) * np.linalg.solve(w.matrix('dF', k), np.array([w.rhs(0)[k], w.rhs(1)[k]]))
                meth(it, s, 'newton_iteration', *([] if d is None else [d]))
                if not close([v.arr for v in w.vars], new):
                    return f"iteration {j + 1} with damping {d} does not update the state by the Newton step of the current state"
                if any(v.layout != 'c' for v in w.vars):
                    return "leaves the state in grid space"
                it_ = unwrap(it.getattr(s, 'iteration'))
                if it_ != j + 1:
                    return f"counts {it_} iterations after {j + 1}"
            return None
        judge(repo, rep, go, f, f"dampings {dampings}", 'P03|NLBVP', cfg=Cfg)


# ---- eigenvalue problems -----------------------------------------------------------

class EigWorld(World):
    def __init__(self, repo, it, complex_=True):
        super().__init__(repo, it, 'EigenvalueSolver')
        r = self.rng
        self.builds = []

        def mat(*shape):
            return SP(sps.csr_matrix(r.integers(1, 9, shape) + 1j * r.integers(-4, 5, shape)))
        self.pre = {}
        for k, p in enumerate(self.subproblems):
            for n, s in (('pre_left', (2, 4)), ('pre_right', (4, 2)), ('pre_right_pinv', (2, 4)), ('pre_left_pinv', (4, 2))):
                p.attrs[n] = mat(*s)
        self.mats = {}
        self.gen = 0
        self.nret = None
        self.mismatch = False

    def build(self, it, sps_, names):
        self.gen += 1
        self.events.append(('build', [p.attrs['index'] for p in sps_], sorted(names)))
        for p in sps_:
            for n in names:
                m = self.rng.integers(1, 9, (2, 2)) + 1j * self.rng.integers(-4, 5, (2, 2))
                p.attrs[f'{n}_min'] = SP(sps.csr_matrix(m))
                self.mats[n, p.attrs['index']] = m

    def outputs(self, left):
        r = self.rng
        c = lambda *s: r.integers(1, 9, s) + 1j * r.integers(-4, 5, s)
        self.out = {'w': c(2), 'vl': c(2, 2), 'vr': c(2, 2)}
        self.out['wl'] = np.conj(self.out['w']) + (1 if self.mismatch else 0)

    def check_pencil(self, it, A, B):
        k = self.current
        if not close(dense(A), self.mats['L', k]) or not close(dense(B), -self.mats['M', k]):
            err(it, "the eigenvalue pencil is not (L, -M) of the selected subproblem")

    def eig(self, it, args, kwargs):
        kw = dict(zip(('a', 'b', 'left', 'right'), args))
        kw.update(kwargs)
        self.check_pencil(it, kw.pop('a'), kw.pop('b', None))
        self.left = bool(unwrap(kw.pop('left', False)))
        self.passed = kw
        self.outputs(self.left)
        o = self.out
        if self.left:
            return (ND(o['w'].copy()), ND(o['vl'].copy()), ND(o['vr'].copy()))
        return (ND(o['w'].copy()), ND(o['vr'].copy()))

    def sparse_eigs(self, it, clo, args, kwargs):
        kw = dict(zip(('A', 'B', 'N', 'target', 'matsolver', 'v0', 'left'), args))
        names = [a for a in clo.func.params()]
        kw = dict(zip(names, args))
        kw.update(kwargs)
        self.check_pencil(it, kw.pop('A'), kw.pop('B'))
        self.left = bool(unwrap(kw.pop('left', False)))
        self.passed = kw
        self.outputs(self.left)
        o = self.out
        if self.left:
            return (ND(o['w'].copy()), ND(o['vr'].copy()), ND(o['wl'].copy()), ND(o['vl'].copy()))
        return (ND(o['w'].copy()), ND(o['vr'].copy()))


def evp(repo, rep):
    c = repo.cls('core.solvers', 'EigenvalueSolver')
    for method in ('solve_dense', 'solve_sparse'):
        f = c.method(method)
        for left, norm, mismatch, rom, v0 in itertools.product((None, False, True), (None, False, True), (False, True), (None, False), (False, True)):
            if mismatch and method == 'solve_dense' or v0 and method == 'solve_dense' or not left and (norm is not None or mismatch) or rom is False and not mismatch:
                continue
            rep.count('eigenvalue solves')

            def go(it):
                w = EigWorld(repo, it)
                w.mismatch = mismatch
                s = construct(it, repo, w, 'EigenvalueSolver')
                for k, rebuild in ((1, False), (1, False), (0, False), (1, True), (2, True)):
                    sp = w.subproblems[k]
                    w.current = k
                    known = ('L', k) in w.mats
                    g0 = w.gen
                    kw = {'extra': 'passed'}
                    for n, v in (('left', left), ('normalize_left', norm), ('raise_on_mismatch', rom)):
                        if v is not None:
                            kw[n] = v
                    if rebuild:
                        kw['rebuild_matrices'] = True
                    args = [sp] + ([4, 2.5] if method == 'solve_sparse' else [])
                    guess = np.arange(4) + 1j
                    if v0:
                        kw['v0'] = ND(guess.copy())
                    meth(it, s, method, *args, **kw)
                    if (rebuild or not known) != (w.gen > g0) or w.gen > g0 + 1:
                        return f"{'does not rebuild' if rebuild or not known else 'rebuilds'} matrices of subproblem {k}"
                    if it.getattr(s, 'eigenvalue_subproblem') is not sp:
                        return "does not record the subproblem"
                    if w.passed.get('extra') != 'passed':
                        return "does not pass further options to the eigensolver"
                    if method == 'solve_sparse':
                        if unwrap(w.passed.get('N')) != 4 or unwrap(w.passed.get('target')) != 2.5 or w.passed.get('matsolver') is not it.getattr(s, 'matsolver'):
                            return f"passes N={show(w.passed.get('N'))}, target={show(w.passed.get('target'))}, matsolver={show(w.passed.get('matsolver'))}"
                        if v0 and not close(dense(w.passed.get('v0')), sp.attrs['pre_right_pinv'].a @ guess):
                            return "does not express the starting guess in pencil coordinates"
                        if not v0 and w.passed.get('v0') is not None:
                            return "invents a starting guess"
                    if bool(left) != w.left:
                        return f"solves for left eigenvectors: {w.left} when left={left}"
                    o = w.out
                    if not close(dense(it.getattr(s, 'eigenvalues')), o['w']):
                        return "changes the eigenvalues"
                    R = sp.attrs['pre_right'].a @ o['vr']
                    for n in ('eigenvectors', 'right_eigenvectors'):
                        if not close(dense(it.getattr(s, n)), R):
                            return f"{n} are not the pencil eigenvectors expressed in the variables"
                    if left:
                        M = w.mats['M', k]
                        lv = sp.attrs['pre_left'].a.conj().T @ o['vl']
                        mv = (M @ sp.attrs['pre_right_pinv'].a.toarray()).conj().T @ o['vl']
                        if norm is not False and not mismatch:
                            d = np.diag(o['vl'].conj().T @ M @ o['vr'])
                            lv, mv = lv / np.conj(d), mv / np.conj(d)
                        if not close(dense(it.getattr(s, 'left_eigenvectors')), lv):
                            return "left eigenvectors are wrong"
                        if not close(dense(it.getattr(s, 'modified_left_eigenvectors')), mv):
                            return "modified left eigenvectors are not biorthonormal to the right eigenvectors"
                return None
            judge(repo, rep, go, f, f"{method} with left={left}, normalize_left={norm}, mismatch={mismatch}, raise_on_mismatch={rom}, v0={v0}", f'P03|EVP|{method}', expect='RuntimeError' if mismatch and rom is None else None, cfg=Cfg)
    # eigenmodes as states
    f = c.method('set_state')
    for index, sub in itertools.product((0, 1), (None, 0, 1, -1, 'object', 'foreign')):
        rep.count('eigenmode states')

        def go(it):
            w = EigWorld(repo, it)
            s = construct(it, repo, w, 'EigenvalueSolver')
            sp = w.subproblems[0]
            sp.attrs['subsystems'] = tuple(w.subsystems[:2])
            s.attrs['eigenvalue_subproblem'] = sp
            ev = np.array([[1 + 1j, 2], [3, 4 - 1j]])
            s.attrs['eigenvectors'] = ND(ev.copy())
            s.attrs['eigenvalues'] = ND(np.array([7 + 1j, 8]))
            a = {None: [], 'object': [w.subsystems[1]], 'foreign': [w.subsystems[2]]}.get(sub, [sub])
            k = {None: 0, 'object': 1, 'foreign': 2, -1: 1}.get(sub, sub)
            meth(it, s, 'set_state', index, *a)
            want = np.zeros((2, w.n), dtype=complex)
            want[:, k] = ev[:, index]
            if not close([v.arr for v in w.vars], want):
                return "state is not the selected eigenmode"
            lam = w.problem.attrs['eigenvalue']
            if not close(lam.arr, [(7 + 1j, 8)[index]]) or lam.layout != 'g':
                return "the eigenvalue is not set"
            if not close(dense(it.getattr(s, 'eigenvectors')), ev):
                return "changes the eigenvectors"
            return None
        judge(repo, rep, go, f, f"set_state({index}, {sub})", 'P03|EVP|set_state', expect='ValueError' if sub == 'foreign' else None, cfg=Cfg)


def run(repo, rep):
    rep.rule('solver coupling contains the problem coupling and only local axes; dependence follows the coupling actually used')
    rep.rule('options come from arguments, then configuration; requirements of the matrix solver override them before pencils are built')
    rep.rule('each solve uses the current right-hand side in coefficient space and the matrices built last, and changes only the selected modes')
    rep.rule('eigenvalue pencils are (L, -M); eigenvectors are expressed in the variables and left vectors are normalized against them')
    coupling(repo, rep)
    options(repo, rep)
    lbvp(repo, rep, rep.tier == 'thorough')
    nlbvp(repo, rep)
    evp(repo, rep)
    for k, n in (('coupling choices', 100), ('option choices', 40), ('LBVP histories', 50), ('Newton histories', 4), ('eigenvalue solves', 10), ('eigenmode states', 6)):
        rep.floor(k, n)


ASSUMPTIONS = ['pencil gathers and scatters are exact (S02)', 'scheduled evaluation computes handlers that are due (E01)', 'matrix solvers and eigensolvers solve the systems they are given']
