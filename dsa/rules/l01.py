"""Pencil matrices of expressions act as the expressions they stand for.

The matrix-building methods of sums, scalings, products, linear operators and
nonlinear operators are interpreted on operands whose own matrices are known
matrices of labels, and the result is compared with the definition (the
induction step for every expression).  The tensor operators (components,
traces, transposes, skews, gradients and divergences assembled from their
parts), the one-dimensional and polar spectral operators and the Cartesian
coefficient products are constructed and interpreted on arrays of distinct
labels: the matrix applied to the raveled operand, the evaluation of the
operator and the definition of the operator have to agree.
"""
import itertools

import numpy as np
import scipy.sparse as sps

from ..interp import *
from ..nd import NDConfig, ND, SP, Const, NotConcrete, unwrap, wrap
from ._solver import dense, judge

ASSUMPTIONS = ["one-dimensional and radial operator matrices are the matrices of their operators", "sparse matrix routines compute what they are documented to compute"]


class Cfg(NDConfig):
    max_paths = 64

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'Domain':
            return args[1] if len(args) > 1 and isinstance(args[1], Obj) else NotImplemented
        return NotImplemented

    def nd_call(self, it, name, args, kwargs):
        if name in ('numpy.ndindex', 'numpy.ndenumerate'):
            try:
                a = unwrap(list(args))
            except NotConcrete:
                return NotImplemented
            if name == 'numpy.ndindex':
                return [tuple(int(q) for q in i) for i in np.ndindex(*a)]
            return [(tuple(int(q) for q in i), wrap(v)) for i, v in np.ndenumerate(*a)]
        return super().nd_call(it, name, args, kwargs)

    def on_isinstance(self, it, value, cls):
        if isinstance(value, Const) and (isinstance(cls, Native) and cls.name == 'type' or show(cls).split('.')[-1] == 'type'):
            return isinstance(value.v, type)
        if isinstance(value, Obj) and value.cls is not None:
            n = cls.name if isinstance(cls, Class) else cls.args[0].split('.')[-1] if isinstance(cls, Term) and cls.op == 'ext' else None
            if n is not None:
                return any(k.name == n for k in value.cls.mro())
        return None


def labels(shape, seed=0, lo=1):
    """Distinct integers."""
    n = int(np.prod(shape, dtype=int))
    rng = np.random.default_rng(seed + 17)
    return (rng.permutation(5 * n + 7)[:n] + lo).reshape(shape).astype(float)


def nat(f, name='f'):
    return Native(name, lambda it, *a, **k: f(*a, **k))


class Space:
    """A distributor, domains and subproblem with known sizes."""
    def __init__(self, repo, it, shape, dtype=np.float64, group=None, axes=None):
        self.repo, self.it, self.dtype = repo, it, dtype
        self.axes = axes or {}
        self.layout = Obj(None, 'layout', {'grid_space': (True,) * len(shape), 'local': (True,) * len(shape)})
        self.dist = Obj(None, 'dist', {'dim': len(shape), 'grid_layout': self.layout, 'coeff_layout': self.layout, 'get_axis': nat(self.axis), 'single_coordsys': False,
                                       'get_basis_axis': nat(lambda b: b.attrs['axis']), 'first_axis': nat(lambda b: b.attrs['axis']), 'last_axis': nat(lambda b: b.attrs['axis'] + b.attrs['dim'] - 1)})
        self.group = group or (None,) * len(shape)
        self.domain = self.dom(shape)
        self.sub = Obj(None, 'subproblem', {'group': self.group, 'dist': self.dist, 'field_size': nat(self.fsize), 'field_shape': nat(self.fshape), 'coeff_size': nat(lambda d: int(np.prod(d.attrs['shape']))),
                                            'coeff_shape': nat(lambda d: d.attrs['shape'])})

    def dom(self, shape, **kw):
        b = kw.pop('basis', None)
        return Obj(None, f'domain{shape}', {'shape': tuple(shape), 'dist': self.dist, 'bases': (), 'get_basis': nat(lambda c: b), 'basis': b, **kw})

    def axis(self, c):
        n = c.attrs.get('name') if isinstance(c, Obj) else None
        if n in self.axes:
            return self.axes[n]
        cs = self.it.getattr(c, 'coords')
        return self.axes[self.it.getattr(list(self.it.iterate(cs))[0], 'name')]

    def dims(self, ts):
        return tuple(int(self.it.getattr(c, 'dim')) for c in ts)

    def tshape(self, o):
        return self.dims(self.it.iterate(self.it.getattr(o, 'tensorsig')))

    def fshape(self, o):
        return self.tshape(o) + self.it.getattr(o, 'domain').attrs['shape']

    def fsize(self, o):
        return int(np.prod(self.fshape(o), dtype=int))

    def field(self, name, ts, domain=None, data=None, cls=('core.field', 'Field')):
        domain = domain or self.domain
        o = Obj(self.repo.cls(*cls), name, {'tensorsig': tuple(ts), 'domain': domain, 'dtype': Const(self.dtype), 'dist': self.dist, 'layout': self.layout, 'name': name})
        o.attrs['data'] = ND(np.array(data if data is not None else labels(self.dims(ts) + domain.attrs['shape'], seed=len(ts)), dtype=self.dtype))
        o.attrs['preset_layout'] = nat(lambda l: None)
        o.attrs['expression_matrices'] = Native('expression_matrices', lambda it, sub, vars, **kw: {o: SP(sps.identity(self.fsize(o), format='csr'))})
        return o

    def build(self, cls, *args, **kw):
        """Construct an operator by interpreting its own constructor."""
        o = Obj(cls, cls.name)
        init = cls.method('__init__')
        self.it.call_func(Closure(init, None, o, init.cls), [o, *args], kw)
        return o

    def matrix(self, o):
        return dense(self.it.call(self.it.getattr(o, 'subproblem_matrix'), [self.sub], {}))

    def operate(self, o, ts, domain=None):
        out = self.field('out', ts, domain)
        out.attrs['data'] = ND(np.full(out.attrs['data'].a.shape, 777, dtype=self.dtype))
        self.it.call(self.it.getattr(o, 'operate'), [out], {})
        return out.attrs['data'].a


def compare(got, want, what):
    if got.shape != want.shape:
        return f"{what} has shape {got.shape} instead of {want.shape}"
    if not np.allclose(got, want):
        i = tuple(int(x) for x in np.argwhere(~np.isclose(got, want))[0])
        return f"{what} has {got[i]} instead of {want[i]} at {i}"
    return None


def agree(sp, o, x, want, ts=None, operate=True, domain=None):
    """Matrix, evaluation and definition."""
    if ts is not None and tuple(sp.it.iterate(sp.it.getattr(o, 'tensorsig'))) != tuple(ts):
        return f"has tensor signature {show(sp.it.getattr(o, 'tensorsig'))} instead of {show(tuple(ts))}"
    M = sp.matrix(o)
    if M.shape != (want.size, x.size):
        return f"matrix has shape {M.shape} instead of {(want.size, x.size)}"
    r = compare((M @ x.ravel()).reshape(want.shape), want, 'the matrix applied to the operand')
    if r is None and operate:
        r = compare(sp.operate(o, ts if ts is not None else sp.it.iterate(sp.it.getattr(o, 'tensorsig')), domain), want, 'the evaluated operator')
    return r


# ---------------------------------------------------------------- composition

def operand(sp, name, mats, size, calls):
    """An expression whose matrices over the variables are known."""
    f = sp.field(name, (), sp.dom((size,)))

    def em(it, sub, vars, **kw):
        calls.append((name, sub, vars, dict(kw)))
        return {v: SP(sps.csr_matrix(m)) for v, m in mats.items()}

    def prep(it, vars):
        calls.append((name, 'prep', vars))

    def gather(it):
        calls.append((name, 'gather'))
    f.attrs['expression_matrices'] = Native('expression_matrices', em)
    f.attrs['prep_nccs'] = Native('prep_nccs', prep)
    f.attrs['gather_ncc_coeffs'] = Native('gather_ncc_coeffs', gather)
    f.attrs['has'] = Native('has', lambda it, *v: bool(mats))
    f.attrs['require_linearity'] = Native('require_linearity', lambda it, *v, **k: None)
    return f


def checked(got, want, sizes):
    if not isinstance(got, dict):
        return f"returns {show(got)}"
    for v in got:
        if v not in want and np.any(dense(got[v])):
            return f"has a matrix for {show(v)}"
    for v, m in want.items():
        if v not in got:
            if np.any(m):
                return f"has no matrix for {show(v)}"
            continue
        r = compare(np.atleast_2d(dense(got[v])), m, f"the matrix for {show(v)}")
        if r:
            return r
    return None


def classes(repo, root):
    r = repo.cls('core.field', 'Operand') if root is None else root
    return [c for c in repo.classes() if c.issub(r)]


def owners(repo, meth):
    """Definitions of a method by the expression classes, with the classes that use each."""
    d = {}
    for c in classes(repo, None):
        f = c.method(meth)
        if f is not None:
            d.setdefault((f.module.name, f.qual), []).append(c)
    return d


KW = {'ncc_cutoff': 3, 'max_ncc_terms': 5}


def composition(repo, rep):
    add, mul = repo.cls('core.arithmetic', 'Add'), repo.cls('core.arithmetic', 'MultiplyNumberField')
    prod, lin, non = repo.cls('core.arithmetic', 'Product'), repo.cls('core.operators', 'LinearOperator'), repo.cls('core.operators', 'NonlinearOperator')
    fld = repo.cls('core.field', 'Field')
    ctrl = repo.cls('core.future', 'Future')
    concrete = [c for c in repo.classes() if c.issub(ctrl)]
    seen = set()
    plans = []
    for c in concrete:
        kind = 'add' if c.issub(add) else 'non' if c.issub(non) and not c.issub(prod) else 'number' if c.issub(mul) else 'prod' if c.issub(prod) else 'lin' if c.issub(lin) else None
        for meth in ('expression_matrices', 'prep_nccs', 'gather_ncc_coeffs'):
            f = c.method(meth)
            if kind is None or f is None or (kind, f) in seen or kind == 'non' and meth != 'expression_matrices':
                continue
            if c.name in ('Multiply', 'Product', 'MultiplyNumberField') and kind == 'prod':
                continue
            seen.add((kind, f))
            plans.append((kind, c, f, meth))
    for kind, c, f, meth in plans:
        rep.count('matrix-building methods of expressions')
        run_plan(repo, rep, kind, c, f, meth)

    # leaves
    for meth in ('expression_matrices', 'prep_nccs', 'gather_ncc_coeffs'):
        f = fld.method(meth)
        rep.count('matrix-building methods of expressions')

        def go(it):
            sp = Space(repo, it, (2, 3))
            x = sp.field('x', (), sp.dom((2, 3)))
            x.attrs.pop('expression_matrices')
            log = []
            x.attrs['require_linearity'] = Native('require_linearity', lambda it2, *v, **k: log.append(v))
            if meth != 'expression_matrices':
                it.call(it.getattr(x, meth), [[x]] if meth == 'prep_nccs' else [], {})
                return None
            r = it.call(it.getattr(x, meth), [sp.sub, [x]], dict(KW))
            return checked(r, {x: np.eye(6)}, None)
        judge(repo, rep, go, f, f"{meth} of a field", f"L01|Field {meth}", cfg=Cfg)


NCC = labels((3, 2), 9)


def ncc_leaf(it, sp, n, calls):
    n.attrs['require_coeff_space'] = nat(lambda: calls.append(('ncc', 'coeff')))
    n.attrs['change_layout'] = nat(lambda l: calls.append(('ncc', 'coeff')) if l in ('c', sp.dist.attrs['coeff_layout']) else None)
    n.attrs['allgather_data'] = nat(lambda *a, **k: ND(NCC) if ('ncc', 'coeff') in calls else None)


def run_plan(repo, rep, kind, c, f, meth):
    key = f"L01|{c.name if kind in ('add', 'number') else kind} {meth}"
    A, B, D = labels((4, 3), 1), labels((4, 2), 2), labels((4, 3), 3)
    P = labels((5, 4), 4)
    if kind == 'non':
        def go(it):
            sp = Space(repo, it, (4,))
            calls = []
            x = sp.field('x', (), sp.dom((3,)))
            a = operand(sp, 'a', {x: A}, 4, calls)
            o = Obj(c, c.name, {'args': [a], 'operand': a, 'dist': sp.dist, 'domain': sp.dom((5,)), 'tensorsig': (), 'dtype': Const(sp.dtype), '__str__': nat(lambda: 'o')})
            return it.call(it.getattr(o, meth), [sp.sub, [x]], dict(KW))
        judge(repo, rep, go, f, f"{meth} of {c.name}", key, expect='NonlinearOperatorError', cfg=Cfg)
        return
    if kind == 'add':
        cases = [[{'x': A}, {'y': B}], [{'x': A}, {'x': D}], [{'x': A, 'y': B}, {'x': D}], [{'x': A}, {'x': D, 'y': B}, {'x': A}], [{'y': B}, {'x': A, 'y': 2 * B}, {}], ['same']]
    else:
        cases = [[{'x': A}], [{'x': A, 'y': B}], [{}]]
    for ci, case in enumerate(cases):
        def go(it):
            sp = Space(repo, it, (4,))
            calls = []
            x, y = sp.field('x', (), sp.dom((3,))), sp.field('y', (), sp.dom((2,)))
            V = {'x': x, 'y': y}
            vars = [x, y]
            osize = 5 if kind in ('lin', 'prod') else 4
            if case == ['same']:
                a = operand(sp, 'a', {x: A}, 4, calls)
                args, mats = [a, a], [{'x': A}, {'x': A}]
            else:
                mats = case
                args = [operand(sp, f'a{i}', {V[k]: m for k, m in d.items()}, 4, calls) for i, d in enumerate(case)]
            attrs = {'args': list(args), 'original_args': tuple(args), 'dist': sp.dist, 'domain': sp.dom((osize,)), 'tensorsig': (), 'dtype': Const(sp.dtype), 'operand': args[0], '__str__': nat(lambda: 'o'), 'name': 'o'}
            ncc = []
            want = {}
            if kind == 'add':
                for d in mats:
                    for k, m in d.items():
                        want[V[k]] = want.get(V[k], 0) + m
            elif kind == 'number':
                attrs['args'] = [7, args[0]]
                want = {V[k]: 7 * m for k, m in mats[0].items()}
            elif kind == 'prod':
                n = sp.field('ncc', ())
                n.attrs['has'] = Native('has', lambda it2, *v: False)
                attrs.update(args=[n, args[0]], ncc=n, _ncc_vars=vars, ncc_first=True, _ncc_data=ND(np.ones(3)))

                def mat(it2, sub, *a, **k):
                    got = {**dict(zip(('ncc_cutoff', 'max_ncc_terms'), a)), **k}
                    ncc.append((sub, got))
                    return SP(sps.csr_matrix(P))
                attrs['build_ncc_matrix'] = Native('build_ncc_matrix', mat)
                want = {V[k]: P @ m for k, m in mats[0].items()}
            else:
                def mat(it2, sub):
                    ncc.append((sub, KW))
                    return SP(sps.csr_matrix(P))
                attrs['subproblem_matrix'] = Native('subproblem_matrix', mat)
                want = {V[k]: P @ m for k, m in mats[0].items()}
            attrs['require_linearity'] = Native('require_linearity', lambda it2, *v, **k: (attrs['args'][0], args[0]) if kind == 'number' else 1)
            o = Obj(c, c.name, attrs)
            ops = args if kind == 'add' else args[:1]
            if meth != 'expression_matrices':
                if kind in ('prod', 'number'):
                    o.attrs['require_linearity'] = Native('require_linearity', lambda it2, *v, **k: 1)
                    o.attrs.pop('operand')
                    o.attrs.pop('ncc', None)
                    it.call(it.getattr(o, 'prep_nccs'), [vars], {})
                    if meth == 'gather_ncc_coeffs':
                        calls.clear()
                        if kind == 'prod':
                            ncc_leaf(it, sp, n, calls)
                if not (meth == 'prep_nccs' and kind in ('prod', 'number')):
                    it.call(it.getattr(o, meth), [vars] if meth == 'prep_nccs' else [], {})
                for a in ops:
                    if not any(k[0] == a.attrs['name'] for k in calls):
                        return f"does not visit {show(a)}"
                if meth == 'prep_nccs' and any(list(k[2]) != vars for k in calls if k[1] == 'prep'):
                    return "passes on other variables"
                if meth == 'gather_ncc_coeffs' and kind in ('prod', 'number'):
                    got = it.getattr(o, '_ncc_data')
                    if kind == 'number':
                        return None if got == 7 else f"stores {show(got)} for the number 7"
                    return None if isinstance(got, ND) and np.array_equal(got.a, NCC) and ('ncc', 'coeff') in calls else f"stores {show(got)} for the coefficient data"
                return None
            # an expression among the variables is its own unknown
            r = it.call(it.getattr(o, meth), [sp.sub, [x, o]], dict(KW))
            m = checked(r, {o: np.eye(osize)}, None)
            if m or calls:
                return f"as one of the variables: {m or 'expands its operands'}"
            r = it.call(it.getattr(o, meth), [sp.sub, vars], dict(KW))
            m = checked(r, want, None)
            if m:
                return m
            for k in calls:
                if k[1] is not sp.sub or list(k[2]) != vars or k[3] != KW:
                    return "passes other arguments to its operands"
            for s, k in ncc:
                if s is not sp.sub or k != KW:
                    return "builds its matrix with other arguments"
            if kind == 'prod':
                attrs['_ncc_vars'] = [x]
                o.attrs['_ncc_vars'] = [x]
                try:
                    it.call(it.getattr(o, meth), [sp.sub, vars], dict(KW))
                    return "accepts other variables than its coefficients were prepared for"
                except RaiseSig as e:
                    if e.name != 'SymbolicParsingError':
                        raise
            if kind == 'lin':
                o.attrs['domain'] = sp.dom((0,))
                r = it.call(it.getattr(o, meth), [sp.sub, vars], dict(KW))
                for v in r:
                    if tuple(np.atleast_2d(dense(r[v])).shape) != (0, sp.fsize(v)):
                        return f"has a matrix of shape {dense(r[v]).shape} for {show(v)} where it has no data"
                if o.attrs['domain'].attrs['shape'] == (0,) and mats[0] and not set(V[k] for k in mats[0]) <= set(r):
                    return "has no matrix for its variables where it has no data"
            return None
        judge(repo, rep, go, f, f"{meth} of {c.name}, case {ci}", key, cfg=Cfg)
        rep.count('composition cases')


# ---------------------------------------------------------------- tensor operators

def coords(it, repo, cls, *names):
    return it.call(repo.cls('core.coords', cls), [repo_name(n) for n in names], {})


def repo_name(n):
    return n


def tensor_operators(repo, rep):
    op = lambda n: repo.cls('core.operators', n)
    bas = lambda n: repo.cls('core.basis', n)

    def case(cls, what, go, meth='subproblem_matrix'):
        rep.count('operator cases')
        judge(repo, rep, go, cls.method(meth) or cls.method('__init__'), f"{cls.name} {what}", f"L01|{cls.name}", cfg=Cfg)

    def cart(it, n=2):
        return coords(it, repo, 'CartesianCoordinates', *'xyz'[:n])

    def polar(it):
        return coords(it, repo, 'PolarCoordinates', 'phi', 'r')

    AX = {'x': 0, 'y': 1, 'z': 2}

    # traces
    for n, extra in ((2, 0), (3, 0), (2, 1), (3, 1)):
        def go(it):
            sp = Space(repo, it, (2, 3, 2)[:n], axes=AX)
            c = cart(it, n)
            ts = (c, c) + (polar(it),) * extra
            f = sp.field('f', ts)
            x = f.attrs['data'].a
            return agree(sp, sp.build(op('CartesianTrace'), f), x, np.einsum('ii...->...', x), ts[2:])
        case(op('CartesianTrace'), f"of rank {2 + extra} in {n} dimensions", go)
    for extra in (0, 1):
        def go(it):
            sp = Space(repo, it, (2, 3), axes={'phi': 0, 'r': 1}, group=(1, None))
            c = polar(it)
            ts = (c, c) + (c,) * extra
            f = sp.field('f', ts)
            x = f.attrs['data'].a
            return agree(sp, sp.build(op('PolarTrace'), f), x, x[0, 1] + x[1, 0], ts[2:], operate=False)
        case(op('PolarTrace'), f"of rank {2 + extra} in spin components", go)

        def go(it):
            sp = Space(repo, it, (2, 3), axes={'phi': 0, 'r': 1}, group=(1, None))
            c = polar(it)
            ts = (c, c) + (c,) * extra
            f = sp.field('f', ts)
            x = f.attrs['data'].a
            o = sp.build(op('PolarTrace'), f)
            return compare(sp.operate(o, ts[2:]), np.einsum('ii...->...', x), 'the evaluated operator')
        case(op('PolarTrace'), f"of rank {2 + extra} on the grid", go, 'operate')

    # transposes
    for rank in (2, 3, 4):
        for i, j in itertools.permutations(range(rank), 2):
            for neg in (False, True) if rank == 3 else (False,):
                def go(it):
                    sp = Space(repo, it, (2, 3), axes=AX)
                    c = cart(it)
                    ts = (c,) * rank
                    f = sp.field('f', ts)
                    x = f.attrs['data'].a
                    o = sp.build(op('StandardTransposeComponents'), f, indices=(i - rank, j - rank) if neg else (i, j))
                    return agree(sp, o, x, np.swapaxes(x, i, j), ts)
                case(op('StandardTransposeComponents'), f"of indices {i - rank if neg else i}, {j - rank if neg else j} of rank {rank}", go)

    # mixed signatures: only the transposed indices need to agree
    def go(it):
        sp = Space(repo, it, (2, 3), axes=AX)
        c, p = cart(it), cart(it, 3)
        ts = (c, p, c)
        f = sp.field('f', ts)
        x = f.attrs['data'].a
        return agree(sp, sp.build(op('StandardTransposeComponents'), f, indices=(0, 2)), x, np.swapaxes(x, 0, 2), ts)
    case(op('StandardTransposeComponents'), 'across an index of another dimension', go)

    # skews
    for rank in (1, 2, 3):
        for index in range(rank):
            def go(it):
                sp = Space(repo, it, (2, 3), axes=AX)
                c = cart(it)
                ts = tuple(c if k == index else cart(it, 3) for k in range(rank))
                f = sp.field('f', ts)
                x = f.attrs['data'].a
                y = np.moveaxis(x, index, 0)
                want = np.moveaxis(np.array([-y[1], y[0]]), 0, index)
                return agree(sp, sp.build(op('CartesianSkew'), f, index=index), x, want, ts)
            case(op('CartesianSkew'), f"of index {index} of rank {rank}", go)
            for dtype in (np.float64, np.complex128):
                for az, shape in ((0, (2, 3)), (0, (4, 3)), (1, (1, 2, 3)), (1, (4, 2, 3)), (1, (5, 2, 3))):
                    def go(it):
                        sp = Space(repo, it, shape, axes={'phi': az, 'r': az + 1}, dtype=dtype)
                        sp.layout.attrs['grid_space'] = (False,) * len(shape)
                        c = polar(it)
                        ts = tuple(c if k == index else cart(it, 3) for k in range(rank))
                        data = labels(sp.dims(ts) + shape, seed=3) + (1j * labels(sp.dims(ts) + shape, seed=4) if dtype is np.complex128 else 0)
                        f = sp.field('f', ts, data=data)
                        o = sp.build(op('SpinSkew'), f, index=index)
                        x = f.attrs['data'].a
                        if dtype is np.complex128:
                            i = 1j * x
                        else:
                            y = np.moveaxis(x, rank + az, -1)
                            i = np.empty_like(y)
                            i[..., 0::2], i[..., 1::2] = -y[..., 1::2], y[..., 0::2]
                            i = np.moveaxis(i, -1, rank + az)
                        z = np.moveaxis(i, index, 0)
                        want = np.moveaxis(np.array([-z[0], z[1]]), 0, index)
                        return agree(sp, o, x, want, ts)
                    case(op('SpinSkew'), f"of index {index} of rank {rank}, {dtype.__name__}, coefficients {shape} with azimuth along axis {az}", go)

    # components
    for rank in (1, 2, 3):
        for index in range(rank):
            for n in (2, 3):
                for k in range(n):
                    def go(it):
                        sp = Space(repo, it, (2, 3, 2)[:n], axes=AX)
                        c = cart(it, n)
                        ts = tuple(c if q == index else polar(it) for q in range(rank))
                        f = sp.field('f', ts)
                        x = f.attrs['data'].a
                        comp = list(it.iterate(it.getattr(c, 'coords')))[k]
                        o = sp.build(op('CartesianComponent'), f, index, comp)
                        return agree(sp, o, x, np.take(x, k, axis=index), ts[:index] + ts[index + 1:])
                    case(op('CartesianComponent'), f"{k} of {n} at index {index} of rank {rank}", go)
            for order in (0, 1):
                for k in (0, 1):
                    def go(it):
                        z, p = coords(it, repo, 'CartesianCoordinates', 'x', 'y', 'z'), polar(it)
                        parts = [z, p] if order == 0 else [p, z]
                        axes = {}
                        for q in parts:
                            for cc in it.iterate(it.getattr(q, 'coords')):
                                axes[it.getattr(cc, 'name')] = len(axes)
                        sp = Space(repo, it, (2, 3, 1, 2, 1), axes=axes)
                        c = it.call(repo.cls('core.coords', 'DirectProduct'), list(parts), {})
                        ts = tuple(c if q == index else polar(it) for q in range(rank))
                        f = sp.field('f', ts)
                        x = f.attrs['data'].a
                        o = sp.build(op('DirectProductComponent'), f, index, parts[k])
                        s0 = 0 if k == 0 else sp.dims(parts[:1])[0]
                        want = np.take(x, range(s0, s0 + sp.dims(parts)[k]), axis=index)
                        return agree(sp, o, x, want, ts[:index] + (parts[k],) + ts[index + 1:])
                    case(op('DirectProductComponent'), f"{k} of order {order} at index {index} of rank {rank}", go)

    def go(it):
        sp = Space(repo, it, (2, 3), axes=AX)
        f = sp.field('f', (cart(it), polar(it)))
        o = Obj(op('Copy'), 'Copy', {'operand': f, 'args': [f], 'domain': sp.domain, 'tensorsig': f.attrs['tensorsig'], 'dtype': f.attrs['dtype'], 'dist': sp.dist})
        return agree(sp, o, f.attrs['data'].a, f.attrs['data'].a)
    case(op('Copy'), 'of a tensor', go)

    # components of vectors on the circle and on the sphere
    for name, k in (('PolarAzimuthalComponent', 0), ('PolarRadialComponent', 1), ('PolarAngularComponent', 0)):
        for dtype, shape in ((np.float64, (2,)), (np.complex128, (1,))):
            for rank in (1, 2, 3) if name != 'PolarAngularComponent' else (1,):
                for index in range(-1, rank):
                    def go(it):
                        sp = Space(repo, it, shape, axes={'phi': 0, 'r': 0}, dtype=dtype, group=(1,))
                        b = Obj(None, 'S1', {'axis': 0, 'dim': 1})
                        dom = sp.dom(shape, basis=b)
                        ts = (polar(it),) * rank
                        f = sp.field('f', ts, dom)
                        x = f.attrs['data'].a
                        o = sp.build(bas(name), f, index=index)
                        return agree(sp, o, x, np.take(x, k, axis=index % rank), (ts[:index] + ts[index + 1:]) if index >= 0 else ts[:-1])
                    case(bas(name), f"of index {index} of rank {rank}, {dtype.__name__}", go)
    for name in ('S2RadialComponent', 'S2AngularComponent'):
        for dtype in (np.float64, np.complex128):
            for ell in (None, 3):
                for rank in (1, 2) if name == 'S2RadialComponent' else (1,):
                    for index in range(rank):
                        def go(it):
                            m, Lmax = 2, 4
                            shape = (2 if dtype is np.float64 else 1, 1 if ell is not None else Lmax + 1 - m)
                            sp = Space(repo, it, shape, axes={'phi': 0, 'theta': 1, 'r': 2}, dtype=dtype, group=(m, ell))
                            b = Obj(None, 'S2', {'axis': 0, 'dim': 2, 'Lmax': Lmax, 'spin_weights': nat(lambda t: ND(np.zeros(sp.dims(t))))})
                            dom = sp.dom(shape, basis=b)
                            c = coords(it, repo, 'SphericalCoordinates', 'phi', 'theta', 'r')
                            ts = (c,) * rank
                            f = sp.field('f', ts, dom)
                            x = f.attrs['data'].a
                            o = sp.build(bas(name), f, index=index)
                            if name == 'S2RadialComponent':
                                return agree(sp, o, x, np.take(x, 2, axis=index), ts[:index] + ts[index + 1:])
                            s2 = it.getattr(c, 'S2coordsys')
                            return agree(sp, o, x, np.take(x, [0, 1], axis=index), ts[:index] + (s2,) + ts[index + 1:])
                        case(bas(name), f"of index {index} of rank {rank}, {dtype.__name__}, {'one degree' if ell else 'all degrees'}", go)

    # operators assembled from parts
    lin = repo.cls('core.operators', 'LinearOperator')
    done = set()
    for c in repo.classes():
        f = c.method('subproblem_matrix') if c.issub(lin) else None
        g = c.method('operate') if f else None
        if f is None or g is None or f.cls is not c or (f, g) in done:
            continue
        if c.find('subproblem_matrix') is None:
            continue
        kind = 'stack' if c.issub(op('Gradient')) else 'same' if c.issub(op('Divergence')) or c.issub(op('Laplacian')) else None
        if kind is None or not c.name.startswith(('Cartesian', 'DirectProduct')):
            continue
        done.add((f, g))
        if kind == 'stack':
            direct = c.name.startswith('DirectProduct')

            def go(it):
                sp = Space(repo, it, (2, 3), axes=AX)
                v = sp.field('v', (cart(it),))
                x = v.attrs['data'].a
                dims = (1, 2) if direct else (1, 1)
                parts = []
                for i, d in enumerate(dims):
                    ts = (coords(it, repo, 'CartesianCoordinates', *'xyz'[:d]),) if direct else ()
                    dat = labels((d,) * direct + (2, 2, 3), 20 + i)
                    a = sp.field(f'a{i}', ts + (v.attrs['tensorsig'][0],), data=dat)
                    M = np.outer(dat.ravel(), x.ravel()) / np.dot(x.ravel(), x.ravel())
                    a.attrs['expression_matrices'] = Native('expression_matrices', lambda it2, sub, vars, M=M, **kw: {vars[0]: SP(sps.csr_matrix(M))} if len(vars) == 1 and vars[0] is v and sub is sp.sub else {})
                    parts.append(a)
                cs = coords(it, repo, 'CartesianCoordinates', 'x', 'y', 'z') if direct else cart(it)
                o = Obj(c, c.name, {'args': parts, 'operand': v, 'dist': sp.dist, 'domain': sp.domain, 'tensorsig': (cs, v.attrs['tensorsig'][0]), 'dtype': v.attrs['dtype'], 'coordsys': Obj(None, 'cs', {'coordsystems': [p.attrs['tensorsig'][0] for p in parts], 'dim': sum(dims)})})
                want = np.concatenate([p.attrs['data'].a if direct else p.attrs['data'].a[None] for p in parts])
                return agree(sp, o, x, want)
            case(c, 'of a vector', go)
        else:
            def go(it):
                sp = Space(repo, it, (2, 3), axes=AX)
                v = sp.field('v', (cart(it),))
                x = v.attrs['data'].a
                a = sp.field('a', (polar(it),))
                M = labels((12, 12), 30)
                a.attrs['data'] = ND((M @ x.ravel()).reshape(2, 2, 3))
                a.attrs['expression_matrices'] = Native('expression_matrices', lambda it2, sub, vars, **kw: {vars[0]: SP(sps.csr_matrix(M))} if len(vars) == 1 and vars[0] is v and sub is sp.sub else {})
                o = Obj(c, c.name, {'args': [a], 'operand': v, 'dist': sp.dist, 'domain': sp.domain, 'tensorsig': a.attrs['tensorsig'], 'dtype': v.attrs['dtype']})
                return agree(sp, o, x, a.attrs['data'].a)
            case(c, 'of a vector', go)


# ---------------------------------------------------------------- spectral operators along an axis

def spectral_operators(repo, rep):
    one, pol = repo.cls('core.operators', 'SpectralOperator1D'), repo.cls('core.operators', 'PolarMOperator')
    f = one.method('subproblem_matrix')
    for dim in (1, 2, 3):
        for axis in range(dim):
            for group in (None, 2):
                for rank in (0, 1, 2):
                    for square in (True, False):
                        rep.count('operator cases')

                        def go(it):
                            shape = (3, 2, 4)[:dim]
                            m, n = 2 if group is not None else shape[axis], shape[axis]
                            if group is not None:
                                n = 2
                            m = n if square else 1
                            ishape = shape[:axis] + (n,) + shape[axis + 1:]
                            oshape = shape[:axis] + (m,) + shape[axis + 1:]
                            sp = Space(repo, it, ishape, group=tuple(group if k == axis else None if k % 2 else 5 for k in range(dim)))
                            ts = tuple(coords(it, repo, 'CartesianCoordinates', *'xyz'[:2 + k]) for k in range(rank))
                            v = sp.field('v', ts)
                            x = v.attrs['data'].a
                            A = labels((m, n), 40)
                            dom = sp.dom(oshape)
                            o = Obj(one, 'Op', {'args': [v], 'operand': v, 'dist': sp.dist, 'domain': dom, 'tensorsig': ts, 'dtype': v.attrs['dtype'], 'last_axis': axis, 'first_axis': axis})
                            o.attrs['subspace_matrix'] = Native('subspace_matrix', lambda it2, l: SP(sps.csr_matrix(A)) if group is None and l is sp.layout else None)
                            o.attrs['group_matrix'] = Native('group_matrix', lambda it2, g: ND(A) if group is not None and g == group else None)
                            want = np.moveaxis(np.tensordot(A, x, axes=(1, rank + axis)), 0, rank + axis)
                            return agree(sp, o, x, want, operate=False)
                        judge(repo, rep, go, f, f"{one.name} along axis {axis} of {dim}, group {group}, rank {rank}, {'square' if square else 'reducing'}", f"L01|{one.name}", cfg=Cfg)
    f = pol.method('subproblem_matrix')
    for rank_in, rank_out in ((0, 0), (1, 1), (1, 0), (0, 1), (2, 1)):
        for az in (0, 1):
            for rev in (False, True):
                for none in (False, True):
                    for empty in (False, True):
                        rep.count('operator cases')

                        def go(it):
                            m = 3
                            pre = (3,) * az
                            ishape, oshape = pre + (2, 4), pre + (2, 0 if empty else 3)
                            sp = Space(repo, it, ishape, group=(1,) * az + (m, None))
                            c = coords(it, repo, 'PolarCoordinates', 'phi', 'r')
                            ti, to = (c,) * rank_in, (c,) * rank_out
                            v = sp.field('v', ti)
                            x = v.attrs['data'].a
                            b = Obj(None, 'basis', {'axis': az, 'dim': 2, 'spin_weights': nat(lambda t: ND(np.zeros(sp.dims(t)))), 'ell_reversed': nat(lambda d: {m: rev, **{k: not rev for k in range(8) if k != m}})})
                            table = {i: [j for n, j in enumerate(np.ndindex(*(2,) * rank_out)) if (n + sum(i)) % 2 == 0] for i in np.ndindex(*(2,) * rank_in)}
                            mats = {(i, j): labels((3, 4), 50 + 7 * n) for n, (i, j) in enumerate((i, j) for i in table for j in table[i])}
                            o = Obj(pol, 'Op', {'args': [v], 'operand': v, 'dist': sp.dist, 'domain': sp.dom(oshape), 'tensorsig': to, 'dtype': v.attrs['dtype'], 'last_axis': az + 1, 'first_axis': az, 'input_basis': None if none else b, 'output_basis': b})
                            o.attrs['spinindex_out'] = Native('spinindex_out', lambda it2, i: tuple(table[tuple(i)]))
                            o.attrs['radial_matrix'] = Native('radial_matrix', lambda it2, i, j, mm: ND(mats[tuple(i), tuple(j)]) if mm == m else None)
                            want = np.zeros((2,) * rank_out + oshape)
                            if not empty:
                                for (i, j), A in mats.items():
                                    want[j] += np.moveaxis(np.tensordot(A[::-1, ::-1] if rev else A, x[i], axes=(1, az + 1)), 0, az + 1)
                            return agree(sp, o, x, want, operate=False)
                        judge(repo, rep, go, f, f"{pol.name} from rank {rank_in} to {rank_out}, azimuth axis {az}{', reversed' if rev else ''}{', no input basis' if none else ''}{', empty' if empty else ''}", f"L01|{pol.name}", cfg=Cfg)


# ---------------------------------------------------------------- Cartesian coefficient products

def products(repo, rep):
    ar = lambda n: repo.cls('core.arithmetic', n)
    f = ar('DotProduct').method('build_cartesian_ncc_matrix')
    eps = np.zeros((3, 3, 3))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        eps[i, j, k], eps[i, k, j] = 1, -1
    plans = []
    for r0, r1 in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for i0 in range(r0):
            for i1 in range(r1):
                plans.append(('DotProduct', r0, r1, (i0, i1)))
    plans += [('MultiplyFields', 0, 0, None), ('MultiplyFields', 1, 0, None), ('MultiplyFields', 0, 1, None), ('MultiplyFields', 1, 1, None), ('MultiplyFields', 2, 1, None), ('CrossProduct', 1, 1, True), ('CrossProduct', 1, 1, False)]
    for name, r0, r1, par in plans:
        for first in (True, False):
            for cutoff in (False, True):
                rep.count('coefficient products')

                def go(it):
                    dim = 3 if name == 'CrossProduct' else 2
                    oshape, ashape, nshape = (3, 2), (2, 2), (2, 3)
                    sp = Space(repo, it, oshape, axes={'x': 0, 'y': 1, 'z': 2})
                    cs = coords(it, repo, 'CartesianCoordinates', *'xyz'[:dim])
                    if name == 'CrossProduct':
                        cs.attrs['right_handed'] = par
                    rn, ra = (r0, r1) if first else (r1, r0)
                    full = [Obj(None, f'basis{k}', {}) for k in range(2)]
                    P = {(ax, q): labels((oshape[ax], ashape[ax]), 60 + 5 * ax + q) for ax in (0, 1) for q in range(nshape[ax])}
                    ab, ob = [Obj(None, f'abasis{k}') for k in range(2)], [Obj(None, f'obasis{k}') for k in range(2)]
                    for ax, b in enumerate(full):
                        b.attrs['product_matrix'] = Native('product_matrix', lambda it2, a, o, q, ax=ax: SP(sps.csr_matrix(P[ax, int(q)])) if a is ab[ax] and o is ob[ax] else None)
                    nd, ad, od = sp.dom(nshape, full_bases=tuple(full)), sp.dom(ashape, full_bases=tuple(ab)), sp.dom(oshape, full_bases=tuple(ob))
                    tn, ta = (cs,) * rn, (cs,) * ra
                    n, a = sp.field('n', tn, nd), sp.field('a', ta, ad)
                    coeff = labels((dim,) * rn + nshape, 70)
                    if cutoff:
                        coeff[..., 1, 0] = -coeff[..., 1, 0] * 1e-3 / np.max(coeff)
                    else:
                        coeff[..., 1, 2] = -coeff[..., 1, 2]
                        if rn:
                            coeff[(0,) * rn + (1, 2)] = 0
                    args = [n, a] if first else [a, n]
                    A, B = ('abcd'[:r0], 'efgh'[:r1])
                    if name == 'DotProduct':
                        i0, i1 = par
                        A2, B2 = A[:i0] + 'z' + A[i0 + 1:], B[:i1] + 'z' + B[i1 + 1:]
                        spec, out = (A2, B2), (A2 + B2).replace('z', '')
                    elif name == 'CrossProduct':
                        spec, out = (A, B), 'i'
                    else:
                        spec, out = (A, B), A + B
                    to = (cs,) * len(out)
                    o = Obj(ar(name), name, {'args': args, 'ncc': n, 'operand': a, 'ncc_first': first, '_ncc_data': ND(coeff), 'domain': od, 'tensorsig': to, 'dtype': Const(np.float64), 'dist': sp.dist, 'indices': par if name == 'DotProduct' else None})
                    got = dense(it.call(it.getattr(o, 'build_cartesian_ncc_matrix'), [sp.sub, 1e-2 if cutoff else 1e-6, None], {}))
                    x = labels((dim,) * ra + ashape, 80)
                    want = np.zeros((dim,) * len(out) + oshape)
                    for q in np.ndindex(*nshape):
                        cq = coeff[(...,) + q]
                        if np.max(np.abs(cq)) <= (1e-2 if cutoff else 1e-6):
                            continue
                        y = np.einsum('XYZ,...->XYZ...' if False else '...xy,Xx,Yy->...XY', x, P[0, q[0]], P[1, q[1]])
                        c0, c1 = (cq, y) if first else (y, cq)
                        e0, e1 = (spec[0], spec[1] + 'XY') if first else (spec[0] + 'XY', spec[1])
                        if name == 'CrossProduct':
                            want += np.einsum(f'{e0},{e1},i{A}{B}->iXY', c0, c1, eps if par else -eps)
                        else:
                            want += np.einsum(f'{e0},{e1}->{out}XY', c0, c1)
                    if got.shape != (want.size, x.size):
                        return f"matrix has shape {got.shape} instead of {(want.size, x.size)}"
                    return compare((got @ x.ravel()).reshape(want.shape), want, 'the matrix applied to the operand')
                judge(repo, rep, go, f, f"{name} of ranks {r0}, {r1}{f' ({par})' if par is not None else ''} with the coefficient {'first' if first else 'second'}{', small terms' if cutoff else ''}", f"L01|{name} coefficients", cfg=Cfg)

    # a constant coefficient does not mix modes
    def go(it):
        sp = Space(repo, it, (3, 2))
        nd, od = sp.dom((1, 2), full_bases=(None, None)), sp.dom((3, 2), full_bases=(None, None))
        b = Obj(None, 'b', {'product_matrix': Native('product_matrix', lambda it2, a, o, q: SP(sps.csr_matrix(labels((2, 2), 90 + int(q)))))})
        nd.attrs['full_bases'] = (None, b)
        n, a = sp.field('n', (), nd), sp.field('a', (), od)
        coeff = labels((1, 2), 5)
        o = Obj(ar('MultiplyFields'), 'Mul', {'args': [n, a], 'ncc': n, 'operand': a, 'ncc_first': True, '_ncc_data': ND(coeff), 'domain': od, 'tensorsig': (), 'dtype': Const(np.float64), 'dist': sp.dist})
        got = dense(it.call(it.getattr(o, 'build_cartesian_ncc_matrix'), [sp.sub, 1e-6, None], {}))
        return compare(got, np.kron(np.eye(3), sum(coeff[0, q] * labels((2, 2), 90 + q) for q in (0, 1))), 'the matrix')
    judge(repo, rep, go, f, "a coefficient constant along one axis", "L01|constant axis", cfg=Cfg)


def run(repo, rep):
    rep.rule(' '.join(__doc__.split()))
    composition(repo, rep)
    tensor_operators(repo, rep)
    spectral_operators(repo, rep)
    products(repo, rep)
    from . import _l01
    _l01.run(repo, rep)
    rep.floor('operator cases', 250)
    rep.floor('coefficient products', 40)
    rep.floor('matrix-building methods of expressions', 8)
    rep.floor('composition cases', 20)
