"""Pencil matrices and vectors hold every mode of every equation and variable once, in its place.

`build_subsystems`, `build_subproblems`, `Subproblem.build_matrices`, the
permutations and the gather/scatter methods are abstractly interpreted with
label matrices: every entry of every expression matrix and every field
coefficient has its own label, so the label found in a pencil shows which
equation mode and variable mode it belongs to.  Layouts and expressions are
models.
"""
import itertools
import numpy as np
import scipy.sparse as sps
from ..interp import *
from ..nd import ND, SP, Const, NDConfig, unwrap, wrap, NotConcrete
from ..repo import AnalysisBroken, Class
from .e01 import OSet

GS = 2  # group size along separable axes


class Cfg(NDConfig):
    max_paths = 16

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'OrderedSet':
            s = OSet()
            s.callmethod(it, 'update', args, {})
            return s
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        n = clo.func.name
        if n == 'apply_sparse' and clo.func.module.name.endswith('tools.array'):
            kw = dict(zip(('matrix', 'array', 'axis', 'out'), args))
            kw.update(kwargs)
            m, a, out = kw['matrix'], kw['array'], kw.get('out')
            if not isinstance(m, SP) or not isinstance(a, ND) or unwrap(kw['axis']) != 0 or not (out is None or isinstance(out, ND)):
                raise PathAbort(f'apply_sparse of {show(m)} to {show(a)}')
            if m.a.shape[1] != a.a.shape[0] or out is not None and out.a.shape != (m.a.shape[0],) + a.a.shape[1:]:
                it.state['errors'].append((it.loc(), f"applies a matrix of shape {m.a.shape} to data of shape {a.a.shape}" + (f" into shape {out.a.shape}" if out is not None else '')))
                raise PathAbort('shape mismatch')
            r = m.a @ a.a
            if out is None:
                return ND(r)
            out.a[...] = r
            return out
        if n == 'log_progress':
            return args[0]
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        if show(f) == 'eval' or show(f).endswith('.eval'):
            return self.do_eval(it, args)
        return super().on_call(it, f, args, kwargs, node)

    def on_native(self, it, name, args, kwargs):
        if name == 'eval':
            return self.do_eval(it, args)
        return super().on_native(it, name, args, kwargs)

    def do_eval(self, it, args):
        try:
            ns = {k: unwrap(v) for k, v in args[1].items()}
        except (NotConcrete, AttributeError, IndexError):
            return NotImplemented
        try:
            return wrap(eval(compile(args[0], 'condition', 'eval'), {'__builtins__': {}}, ns))
        except NameError as e:
            raise RaiseSig('NameError', str(e), it.loc())


class Expr(AbsVal):
    """Equation term with known matrix blocks."""
    def __init__(self, name, blocks):
        self.name, self.blocks, self.gathers = name, blocks, 0

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is'):
            return self is other
        if op in ('!=', 'is not'):
            return self is not other
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'gather_ncc_coeffs':
            self.gathers += 1
            return None
        if name == 'expression_matrices':
            kw = dict(zip(('subproblem', 'vars'), args))
            kw.update(kwargs)
            st = it.state
            if not self.gathers:
                st['errors'].append((it.loc(), f"{self.name} is assembled before its coefficients are gathered"))
            if list(it.iterate(kw['vars'])) != st['w'].lhs:
                st['errors'].append((it.loc(), f"{self.name} is assembled for {show(kw['vars'])}"))
            if kw.get('ncc_cutoff') != 'cutoff' or kw.get('max_ncc_terms') != 'terms':
                st['errors'].append((it.loc(), f"{self.name} is assembled with cutoffs {show(kw.get('ncc_cutoff'))}, {show(kw.get('max_ncc_terms'))}"))
            return self.blocks(it, kw['subproblem'])
        return NotImplemented


class World:
    """Distributed 2-D or 3-D coefficient space with the last axis coupled."""
    def __init__(self, repo, coupled, sizes, variables, equations, kind='InitialValueProblem', masked=True, complex_=True):
        self.repo, self.coupled, self.sizes = repo, coupled, sizes
        self.dim = len(sizes)
        P = repo.cls('core.problems', kind)
        self.dtype = Const(np.complex128 if complex_ else np.float64)
        self.kind = kind
        self.rng = np.random.default_rng(7)
        self.label = 10
        w = self

        def groupset_slices(it, group, domain, scales=None):
            if unwrap(scales) != 1 and scales is not None:
                it.state['errors'].append((it.loc(), f"groups are taken at scales {show(scales)}"))
            s = w.slices(tuple(unwrap(x) for x in it.iterate(group)), domain)
            return [] if s is None else [s]

        def groupsets(it, coupling, domain, scales=None):
            if tuple(bool(unwrap(c)) for c in it.iterate(coupling)) != tuple(w.coupled):
                it.state['errors'].append((it.loc(), f"groups are taken for the coupling {show(coupling)}"))
            return [g for g in w.groups if w.slices(g, domain) is not None]
        self.layout = Obj(None, 'coeff_layout', {'local_groupset_slices': Native('local_groupset_slices', groupset_slices), 'local_groupsets': Native('local_groupsets', groupsets)})
        coords = [Obj(None, f'coord_{n}', {'name': n}) for n in 'xyz'[:self.dim]]
        self.dist = Obj(None, 'dist', {'coeff_layout': self.layout, 'dim': self.dim, 'coords': tuple(coords), 'default_nonconst_groups': (1,) * self.dim})
        self.groups = list(itertools.product(*[[None] if c else range(n // GS) for c, n in zip(coupled, sizes)]))
        self.domains = {}
        self.fields = {}
        self.vars = [self.field(n, r, d) for n, r, d in variables]
        self.lhs = self.vars if kind != 'NonlinearBoundaryValueProblem' else [self.field('d' + n, r, d) for n, r, d in variables]
        self.eqs = []
        for i, (n, r, d, cond, terms) in enumerate(equations):
            f = self.field(n, r, d)
            e = {'eqn': f, 'domain': f.attrs['domain'], 'tensorsig': f.attrs['tensorsig'], 'valid_modes': ND(f.attrs['valid_modes'].a.copy()), 'condition': cond, 'LHS': f, 'RHS': 0, 'dtype': self.dtype}
            for name in ('M', 'L', 'dF'):
                e[name] = Expr(f'{name}[{n}]', self.blocks(name, i, terms.get(name))) if terms.get(name) else 0
            if kind != 'EigenvalueProblem':
                e['F'] = self.field('F' + n, r, d)
            self.eqs.append(e)
        if masked:
            self.mask()
        self.problem = Obj(P, 'problem', {'variables': self.vars, 'LHS_variables': self.lhs, 'equations': self.eqs, 'eqs': self.eqs, 'dist': self.dist, 'dtype': self.dtype})
        if kind == 'NonlinearBoundaryValueProblem':
            self.problem.attrs['perturbations'] = self.lhs

    def domain(self, d):
        if d not in self.domains:
            shape = tuple(n if x else 1 for n, x in zip([*self.sizes[:-1], x_size(d, self.sizes)], d))
            self.domains[d] = Obj(None, f'domain{d}', {'coeff_shape': shape, 'dim': sum(bool(x) for x in d), 'dist': self.dist, 'key': d})
        return self.domains[d]

    def field(self, name, rank, d):
        dom = self.domain(d)
        cs = tuple(Obj(None, f'cs{n}', {'dim': n}) for n in rank)
        shape = tuple(rank) + dom.attrs['coeff_shape']
        data = np.arange(self.label, self.label + int(np.prod(shape))).reshape(shape).astype(complex)
        self.label += data.size
        f = Obj(None, name, {'domain': dom, 'tensorsig': cs, 'name': name, 'data': ND(data), 'valid_modes': ND(np.ones(shape, dtype=bool)), 'dtype': self.dtype})
        self.fields[name] = (f, data)
        return f

    def slices(self, group, domain):
        out = []
        for g, n, x in zip(group, domain.attrs['coeff_shape'], domain.attrs['key']):
            if g is None:
                out.append(slice(0, n))
            elif not x:
                if g != 0:
                    return None
                out.append(slice(0, 1))
            else:
                out.append(slice(g * GS, (g + 1) * GS))
        return tuple(out)

    def mask(self):
        """Square truncation: the same number of valid modes for equations and variables in each group."""
        r = self.rng
        for v, e in zip(self.vars, self.eqs):
            a = v.attrs['valid_modes'].a
            b = e['valid_modes'].a
            if a.shape != b.shape:
                raise AnalysisBroken('mask shapes')
            for comp in np.ndindex(*a.shape[:a.ndim - self.dim]):
                for g in self.groups:
                    s = self.slices(g, v.attrs['domain'])
                    if s is None:
                        continue
                    ns = {f'n{c}': q for c, q in zip('xyz', g) if q is not None}
                    if v.name == 't' and not eval(e['condition'], {}, ns):
                        a[comp][s] = False
                        continue
                    n = a[comp][s].size
                    k = int(r.integers(0, 2)) if g[0] == 0 else 0
                    x, y = np.ones(n, bool), np.ones(n, bool)
                    x[r.permutation(n)[:k]] = False
                    y[r.permutation(n)[:k]] = False
                    a[comp][s] = x.reshape(a[comp][s].shape)
                    b[comp][s] = y.reshape(a[comp][s].shape)
        for v, p in zip(self.vars, self.lhs):
            p.attrs['valid_modes'].a[...] = v.attrs['valid_modes'].a
        self.masks = [x['valid_modes'].a.copy() for x in self.eqs] + [v.attrs['valid_modes'].a.copy() for v in self.vars]

    def size(self, f, group):
        s = self.slices(group, f.attrs['domain'])
        if s is None:
            return 0
        d = f.attrs['data'].a
        return d[(slice(None),) * len(f.attrs['tensorsig']) + s].size

    def blocks(self, name, i, vars):
        """Full blocks with unique labels (some of them negligible)."""
        store = {}

        def get(group, v):
            k = (group, v)
            if k not in store:
                n, m = self.size(self.eqs[i]['eqn'], group), self.size(self.fields_lhs(v), group)
                a = np.arange(self.label, self.label + n * m).reshape(n, m) + 0j
                self.label += n * m
                r = np.random.default_rng(n * 100 + m)
                a[r.random((n, m)) < 0.3] = 0
                a[r.random((n, m)) < 0.3] *= -1
                if m > 1 and n:
                    a[0, 1] = 1e-14
                store[k] = a
            return store[k]

        def build(it, sp):
            group = tuple(unwrap(x) for x in it.getattr(sp, 'group'))
            out = {}
            for v in vars:
                out[self.fields_lhs(v)] = SP(sps.csr_matrix(get(group, v)))
            return out
        build.get, build.vars = get, vars
        return build

    def fields_lhs(self, v):
        return self.fields[('d' if self.kind == 'NonlinearBoundaryValueProblem' else '') + v][0]

    # expected vectors

    def modes(self, fs, group, masks=None, order=None, bottom=True, interleave=True):
        """Ordered valid modes: (field index, flat index within the group block)."""
        out = []
        for n1, f in enumerate(fs):
            s = self.slices(group, f.attrs['domain'])
            if s is None:
                continue
            rank = len(f.attrs['tensorsig'])
            m = masks[n1][(slice(None),) * rank + s]
            nc = int(np.prod(m.shape[:rank]))
            mm = m.reshape(nc, -1)
            dim = f.attrs['domain'].attrs['dim']
            for n2 in range(nc):
                for n3 in range(mm.shape[1]):
                    if mm[n2, n3]:
                        out.append(((-dim if bottom else dim), n3, *((n2, n1) if interleave else (n1, n2)), n1, n2 * mm.shape[1] + n3))
        return [(x[-2], x[-1]) for x in sorted(out)]

    def vector(self, fs, group, modes, datas=None):
        v = []
        for n1, k in modes:
            s = self.slices(group, fs[n1].attrs['domain'])
            d = datas[n1] if datas else fs[n1].attrs['data'].a
            v.append(d[(slice(None),) * len(fs[n1].attrs['tensorsig']) + s].ravel()[k])
        return np.array(v, dtype=complex)


def x_size(d, sizes):
    return d[-1] if d[-1] and d[-1] is not True else sizes[-1]


def make_solver(it, w, opts):
    cls = w.repo.cls('core.solvers', {'InitialValueProblem': 'InitialValueSolver', 'EigenvalueProblem': 'EigenvalueSolver', 'LinearBoundaryValueProblem': 'LinearBoundaryValueSolver',
                                      'NonlinearBoundaryValueProblem': 'NonlinearBoundaryValueSolver'}[w.kind])
    s = Obj(cls, 'solver', {'problem': w.problem, 'dist': w.dist, 'dtype': w.dtype, 'state': w.vars, 'ncc_cutoff': 'cutoff', 'max_ncc_terms': 'terms', 'entry_cutoff': ND(np.float64(1e-12))})
    s.attrs['matrix_coupling'] = ND(np.array(w.coupled))
    s.attrs.update(opts)
    return s


VARS = [('u', (2,), (True, True)), ('p', (), (True, 3)), ('t', (2,), (True, False)), ('c', (), (False, False))]
EQS = [('E', (2,), (True, True), 'True', {'M': ['u'], 'L': ['u', 'p', 't'], 'dF': ['u', 'p', 't']}),
       ('D', (), (True, 3), 'nx != 0 or nx == 0', {'L': ['u', 'c'], 'dF': ['u', 'c']}),
       ('B', (2,), (True, False), 'nx != 0', {'L': ['u'], 'M': ['t', 'u'], 'dF': ['p', 't']}),
       ('G', (), (False, False), 'nx == 0', {'L': ['p'], 'dF': ['p']})]
VARS3 = [('u', (2, 2), (True, True, True)), ('p', (), (True, True, 3)), ('t', (2,), (True, True, False)), ('c', (), (False, True, False))]
EQS3 = [('E', (2, 2), (True, True, True), 'True', {'M': ['u'], 'L': ['u', 'p', 't'], 'dF': ['u']}),
        ('D', (), (True, True, 3), 'True', {'L': ['u'], 'dF': ['u', 'p']}),
        ('B', (2,), (True, True, False), 'True', {'L': ['u', 'c'], 'dF': ['u', 't']}),
        ('G', (), (False, True, False), 'nx == 0', {'L': ['p'], 'dF': ['p', 'c']})]


def start(it):
    it.state.update(errors=[])


def check_subproblems(repo, rep):
    """Subsystems cover all groups and share matrices only when they may."""
    f = repo.func('core.subsystems', 'build_subsystems')
    g = repo.func('core.subsystems', 'build_subproblems')
    one = [('u', (), (True, True))]
    nul = [('c', (), (False, False)), ('t', (), (False, True))]
    for coupled, sizes, vs, es in (((False, True), (8, 4), VARS, EQS), ((False, False, True), (6, 4, 4), VARS3, EQS3), ((False, True), (8, 4), nul + one, [EQS[3], EQS[3], EQS[3]]),
                                   ((False, True), (8, 4), nul, [EQS[3], EQS[1]]), ((True, True), (8, 4), VARS, EQS)):
        n = len(sizes)
        for dep in itertools.product((False, True), repeat=n):
            rep.count('groupings')

            def go(it):
                start(it)
                w = it.state['w'] = World(repo, coupled, sizes, vs, es, masked=False)
                s = make_solver(it, w, {'matrix_dependence': ND(np.array(dep))})
                ss = list(it.iterate(it.call_func(Closure(f, None, None, None), [s], {})))
                got = [tuple(unwrap(x) for x in it.getattr(x, 'group')) for x in ss]
                if sorted(map(str, got)) != sorted(map(str, w.groups)):
                    return f"has subsystems {got} for the groups {w.groups}"
                sp = list(it.iterate(it.call_func(Closure(g, None, None, None), [s, tuple(ss)], {})))
                seen = []
                for x in sp:
                    members = list(it.iterate(it.getattr(x, 'subsystems')))
                    seen += [id(m) for m in members]
                    gs = [tuple(unwrap(y) for y in it.getattr(m, 'group')) for m in members]
                    key = tuple(unwrap(y) for y in it.getattr(x, 'group'))
                    for a in gs:
                        if it.getattr(members[gs.index(a)], 'subproblem') is not x:
                            return f"does not link the subsystem {a} to its subproblem"
                        for ax in range(n):
                            if coupled[ax]:
                                ok = key[ax] is None
                            elif dep[ax]:
                                ok = key[ax] == a[ax]
                            else:
                                ok = (key[ax] == 0) == (a[ax] == 0) and w_valid(key[ax], sizes[ax])
                            if not ok:
                                return f"solves the group {a} with the matrices of group {key}, which differ along axis {ax}"
                if sorted(seen) != sorted(id(x) for x in ss):
                    return "does not put every subsystem into exactly one subproblem"
                return None
            judge(repo, rep, 'P', go, f, f"dependence {dep}, sizes {sizes}", 'S02|grouping')
    # incompatible distributions
    vs = [('u', (), (True, True)), ('q', (), (True, 5))]

    def go(it):
        start(it)
        w = it.state['w'] = World(repo, (False, True), (8, 4), vs, [('E', (), (True, True), 'True', {})], masked=False)
        lay = w.layout.attrs
        dq = w.vars[1].attrs['domain']
        old = lay['local_groupsets'].fn
        lay['local_groupsets'] = Native('local_groupsets', lambda it2, c, d, scales=None: [(2, None), (9, None)] if d is dq else [(1, None), (2, None)])
        s = make_solver(it, w, {'matrix_dependence': ND(np.array((True, True)))})
        it.call_func(Closure(f, None, None, None), [s], {})
        return "accepts groups that are not nested"
    it = Interp(repo, Cfg())
    for r in it.explore(go):
        if r.outcome == 'abort':
            rep.undec(f"incompatible groups: {r.value}")
        else:
            rep.check(r.outcome == 'raise' and r.value.name == 'ValueError', 'S02|nested groups', f"build_subsystems {show(r.value)}", f.loc, 'incompatible groups are refused')


def w_valid(g, size):
    return 0 <= g < size // GS


def judge(repo, rep, tag, go, f, what, key, expect=None):
    it = Interp(repo, Cfg())
    for r in it.explore(go):
        errs = r.extra.get('errors') or []
        if errs:
            rep.check(False, key, f"{what}: {errs[0][1]}", errs[0][0], what)
            continue
        if r.outcome == 'abort':
            rep.undec(f"{what}: {r.value}")
            continue
        if expect:
            rep.check(r.outcome == 'raise' and r.value.name == expect, key, f"{what}: {show(r.value)} instead of {expect}", f.loc, what)
            continue
        msg = f"raises {r.value.name} ({show(r.value.value)}) at {r.value.loc}" if r.outcome == 'raise' else r.value
        rep.check(msg is None, key, f"{what}: {msg}", f.loc, what)


def dense(m):
    return m.a.toarray() if isinstance(m, SP) else np.asarray(unwrap(m))


def expected(w, name, group, eqs, conds, rows, cols):
    A = np.zeros((len(rows), len(cols)), dtype=complex)
    for i, (e, a) in enumerate(rows):
        x = eqs[e][name]
        if not isinstance(x, Expr) or not conds[e]:
            continue
        for j, (v, b) in enumerate(cols):
            n = w.vars[v].name
            if n in x.blocks.vars:
                val = x.blocks.get(group, n)[a, b]
                A[i, j] = val if abs(val) >= 1e-12 else 0
    return A


def pencil(it, w, opts, names, groups_wanted=None, again=False):
    """Build and check every subproblem; returns a message or None."""
    dep = (True,) * w.dim if 'dep' not in opts else opts['dep']
    s = make_solver(it, w, dict(opts, matrix_dependence=ND(np.array(dep))))
    repo = w.repo
    fs, fp = repo.func('core.subsystems', 'build_subsystems'), repo.func('core.subsystems', 'build_subproblems')
    ss = it.call_func(Closure(fs, None, None, None), [s], {})
    sps_ = it.call_func(Closure(fp, None, None, None), [s, ss], {})
    s.attrs['subsystems'], s.attrs['subproblems'] = ss, sps_
    bm = s.cls.method('build_matrices')
    it.call_func(Closure(bm, None, s, bm.cls), [s] + ([list(it.iterate(sps_)), list(names)] if again else []), {})
    for sp in it.iterate(sps_):
        members = list(it.iterate(it.getattr(sp, 'subsystems')))
        group = tuple(unwrap(x) for x in it.getattr(sp, 'group'))
        ns = {f'n{c}': g for c, g in zip('xyz', group) if g is not None}
        conds = [bool(eval(e['condition'], {}, dict(ns))) for e in w.eqs]
        emasks = [e['valid_modes'].a & c for e, c in zip(w.eqs, conds)]
        vmasks = [v.attrs['valid_modes'].a for v in w.lhs]
        rows = w.modes([e['eqn'] for e in w.eqs], group, emasks, bottom=not opts['bc_top'], interleave=opts['interleave_components'])
        cols = w.modes(w.lhs, group, vmasks, bottom=not opts['tau_left'], interleave=opts['interleave_components'])
        mats = {}
        for n in names:
            A = dense(it.getattr(sp, f'{n}_min'))
            E = expected(w, n, group, w.eqs, conds, rows, cols)
            mats[n] = E
            msg = compare(A, E, f"{n}_min of group {group}", rows, cols, w)
            if msg:
                return msg
        if len(names) > 1:
            lhs = it.getattr(sp, 'LHS')
            if tuple(lhs.a.shape) != E.shape:
                return f"LHS of group {group} has shape {lhs.a.shape} instead of {E.shape}"
            if opts['store_expanded_matrices']:
                for n in names:
                    X = it.getattr(sp, f'{n}_exp')
                    if not isinstance(X, SP) or X.a.format != 'csr':
                        return f"{n}_exp of group {group} is not a CSR matrix"
                    msg = compare(dense(X), mats[n], f"{n}_exp of group {group}", rows, cols, w)
                    if msg:
                        return msg
                    if not (np.array_equal(X.a.indices, lhs.a.indices) and np.array_equal(X.a.indptr, lhs.a.indptr)):
                        return f"{n}_exp of group {group} does not have the pattern of the left-hand side"
        ndof = sum(w.size(e['eqn'], group) for e, c in zip(w.eqs, conds) if c)
        top = max(e['domain'].attrs['dim'] for e, c in zip(w.eqs, conds) if c)
        ur = ndof - sum(w.size(e['eqn'], group) for e, c in zip(w.eqs, conds) if c and e['domain'].attrs['dim'] == top)
        if unwrap(it.getattr(sp, 'update_rank')) != ur:
            return f"update rank of group {group} is {show(it.getattr(sp, 'update_rank'))} instead of {ur}"
        msg = vectors(it, w, sp, members, rows, cols, group)
        if msg:
            return msg
        if not all(np.array_equal(m, x['valid_modes'].a if hasattr(x, 'get') else x.attrs['valid_modes'].a) for m, x in zip(w.masks, w.eqs + w.vars)):
            return f"assembling the matrices of group {group} changes the valid modes of an equation or variable"
    return None


def compare(A, E, what, rows, cols, w):
    if A.shape != E.shape:
        return f"{what} has shape {A.shape} instead of {E.shape}"
    bad = np.argwhere(A != E)
    if len(bad):
        i, j = bad[0]
        (e, a), (v, b) = rows[i], cols[j]
        return f"{what} has a wrong entry at row {i} (equation {w.eqs[e]['eqn'].name}, mode {a}) and column {j} (variable {w.vars[v].name}, mode {b})"
    return None


def vectors(it, w, sp, members, rows, cols, group):
    """Gather and scatter of inputs and outputs."""
    mgroups = [tuple(unwrap(x) for x in it.getattr(m, 'group')) for m in members]
    meth = lambda o, n, a: it.call(it.getattr(o, n), a, {})
    if w.kind == 'EigenvalueProblem':
        return subsystem_vectors(it, w, members, mgroups)
    for side, fs, modes in (('inputs', w.lhs, cols), ('outputs', [e['F'] for e in w.eqs], rows)):
        for rnd in range(2):
            if rnd:  # fields with new buffers
                for f in fs:
                    f.attrs['data'] = ND(f.attrs['data'].a + 5000)
            for given in (False, True):
                out = ND(np.full((len(modes), len(members)), -1 + 0j)) if given else None
                snap = [f.attrs['data'].a.copy() for f in fs]
                r = meth(sp, f'gather_{side}', [list(fs)] + ([out] if given else []))
                if given and (out is not r):
                    return f"gather_{side} does not return the given output"
                if any(not np.array_equal(a, f.attrs['data'].a) for a, f in zip(snap, fs)):
                    return f"gather_{side} changes the fields"
                R = unwrap(r)
                W = np.stack([w.vector(fs, g, modes) for g in mgroups], axis=1) if len(modes) else np.zeros((0, len(members)))
                if R.shape != W.shape or not np.array_equal(R, W):
                    return f"gather_{side} of group {group} gives {np.asarray(R).tolist()[:4]} instead of {W.tolist()[:4]}"
        # scatter distinct values
        n = len(modes)
        X = (np.arange(n * len(members)).reshape(n, len(members)) + 1e6).astype(complex)
        before = [f.attrs['data'].a.copy() for f in fs]
        keep = X.copy()
        meth(sp, f'scatter_{side}', [ND(X), list(fs)])
        if not np.array_equal(X, keep):
            return f"scatter_{side} changes the solution vector"
        for k, f in enumerate(fs):
            want = before[k].copy()
            for j, g in enumerate(mgroups):
                s = w.slices(g, f.attrs['domain'])
                if s is None:
                    continue
                idx = (slice(None),) * len(f.attrs['tensorsig']) + s
                blk = np.zeros(want[idx].shape, dtype=complex)
                flat = blk.ravel()
                for i, (n1, m) in enumerate(modes):
                    if n1 == k:
                        flat[m] = X[i, j]
                want[idx] = flat.reshape(blk.shape)
            if not np.array_equal(want, f.attrs['data'].a):
                d = np.argwhere(want != f.attrs['data'].a)[0]
                return f"scatter_{side} of group {group} leaves {f.attrs['data'].a[tuple(d)]} at {tuple(int(x) for x in d)} of {f.name} instead of {want[tuple(d)]}"
    return subsystem_vectors(it, w, members, mgroups)


def subsystem_vectors(it, w, members, mgroups):
    meth = lambda o, n, a: it.call(it.getattr(o, n), a, {})
    for m, g in zip(members, mgroups):
        fs = w.lhs
        W = [f.attrs['data'].a[(slice(None),) * len(f.attrs['tensorsig']) + w.slices(g, f.attrs['domain'])].ravel() for f in fs if w.slices(g, f.attrs['domain']) is not None]
        W = np.concatenate(W)
        R = unwrap(meth(m, 'gather', [list(fs)]))
        if R.shape != W.shape or not np.array_equal(R, W):
            return f"Subsystem.gather of group {g} gives {R.tolist()[:4]} instead of {W.tolist()[:4]}"
        X = np.arange(W.size) + 2e6 + 0j
        before = [f.attrs['data'].a.copy() for f in fs]
        meth(m, 'scatter', [ND(X), list(fs)])
        i = 0
        for k, f in enumerate(fs):
            s = w.slices(g, f.attrs['domain'])
            want = before[k]
            if s is not None:
                idx = (slice(None),) * len(f.attrs['tensorsig']) + s
                n = want[idx].size
                want[idx] = X[i:i + n].reshape(want[idx].shape)
                i += n
            if not np.array_equal(want, f.attrs['data'].a):
                return f"Subsystem.scatter of group {g} puts values into the wrong modes of {f.name}"
    return None


def check_pencils(repo, rep, thorough):
    f = repo.method('core.subsystems', 'Subproblem', 'build_matrices')
    kinds = {'InitialValueProblem': ['M', 'L'], 'LinearBoundaryValueProblem': ['L'], 'NonlinearBoundaryValueProblem': ['dF'], 'EigenvalueProblem': ['M', 'L']}
    for kind, names in kinds.items():
        for bc, tau, inter, exp in itertools.product((False, True), repeat=4):
            if exp and len(names) == 1 or kind != 'InitialValueProblem' and bc != tau and not thorough:
                continue
            for vs, es, coupled, sizes, dep in ((VARS, EQS, (False, True), (8, 4), (True, True)), (VARS, EQS, (False, True), (8, 4), (False, True)), (VARS3, EQS3, (False, False, True), (4, 4, 4), (True, True, True))):
                if len(sizes) == 3 and (kind not in ('InitialValueProblem',) or bc or not exp) and not thorough:
                    continue
                rep.count('pencil assemblies')

                def go(it):
                    start(it)
                    w = it.state['w'] = World(repo, coupled, sizes, vs, es, kind)
                    return pencil(it, w, {'bc_top': bc, 'tau_left': tau, 'interleave_components': inter, 'store_expanded_matrices': exp, 'dep': dep}, names)
                judge(repo, rep, kind, go, f, f"{kind} with bc_top={bc}, tau_left={tau}, interleave_components={inter}, store_expanded={exp}, sizes {sizes}, dependence {dep}", f"S02|Subproblem|{kind}")

    # non-square systems are refused
    def go(it):
        start(it)
        w = it.state['w'] = World(repo, (False, True), (8, 4), VARS, EQS[:-1])
        return pencil(it, w, {'bc_top': False, 'tau_left': False, 'interleave_components': True, 'store_expanded_matrices': True}, ['M', 'L'])
    judge(repo, rep, '', go, f, 'a non-square system', 'S02|square', expect='ValueError')


def run(repo, rep):
    rep.rule('subsystems cover all groups; groups share matrices only where matrices do not depend on them')
    rep.rule('pencil matrices hold each valid equation and variable mode once, in the documented order')
    rep.rule('gather and scatter move each coefficient between its field position and its vector entry')
    check_subproblems(repo, rep)
    check_pencils(repo, rep, rep.tier == 'thorough')
    rep.floor('groupings', 4)
    rep.floor('pencil assemblies', 8)


ASSUMPTIONS = ['sparse matrix products and apply_sparse have their documented meaning (B04)', 'groups of a layout partition its modes (D02)']
