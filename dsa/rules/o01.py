"""Operators evaluate without side effects into completely defined output.

For every operator class that defines or inherits an evaluation routine:
(a) typestate by abstract interpretation of `operate`: the output's layout is
set from an argument's layout before its data is touched, the output data is
never read or accumulated into before it has been overwritten, it is completely
overwritten on every path (coverage mask over components and axes), and no
argument data is ever written;
(b) `enforce_conditions` establishes `check_conditions` and the layout the
evaluation needs, and `check_conditions` accepts nothing else, over all
layouts of serial and distributed chains and all operator axes.
"""
import ast
import itertools
import sympy
from ..interp import *
from ..repo import AnalysisBroken, Class
from .f01 import Lay, chain
from ..effects import Effects

NS = 4                     # representative size of every spatial axis
SLICE = object()


class Arr(AbsVal):
    """Abstract array: `owner` tells whose storage it is; mask marks the defined elements."""

    def __init__(self, owner, mask, unknown=False, root=None):
        self.owner, self.mask, self.unknown = owner, mask, unknown
        self.root = root or self
        self.fresh = False         # this very view has been overwritten

    def __repr__(self):
        return f"data of {self.owner}"

    def view(self, mask, unknown=False):
        return Arr(self.owner, mask, self.unknown or unknown, self.root)

    # -- reads / writes
    def defined(self):
        return self.unknown or bool(self.root.__dict__.get('maybe')) or bool(self.mask.all())

    def read(self, it, what):
        if self.owner == 'out' and not self.defined() and not empty(it) and not it.state.get('loopcond'):
            it.state['errors'].append((it.loc(), f"{what} reads output data that has not been written"))

    def write(self, it, what='store'):
        if self.owner.startswith('arg'):
            it.state['errors'].append((it.loc(), f"{what} modifies the data of {self.owner}"))
            return
        if self.unknown:
            self.root.__dict__['maybe'] = True
            self.fresh = True
        else:
            self.mask[...] = True

    def getattr(self, it, name):
        if name == 'size':
            return Term('size', self.owner)
        if name == 'shape':
            return tuple(Term('dim', self.owner if not isinstance(self.mask, np.ndarray) else '', i) if n == NS else int(n) for i, n in enumerate(self.mask.shape))
        if name == 'ndim':
            return self.mask.ndim
        if name in ('real', 'imag', 'T'):
            return self.view(self.mask.T if name == 'T' else self.mask)
        if name == 'dtype':
            return sym('dtype')
        return NotImplemented

    def getitem(self, it, key):
        k = npk(key, self.mask.ndim)
        if k is None:
            return self.view(np.zeros((NS,) * max(1, self.mask.ndim - (len(key) if isinstance(key, tuple) else 0)), bool) if False else self.mask, True)
        try:
            m = self.mask[k]
        except (IndexError, TypeError):
            return self.view(self.mask, True)
        if not isinstance(m, np.ndarray):
            m = self.mask[tuple(k) + (None,)] if isinstance(k, tuple) else self.mask[(k, None)]
        return self.view(m)

    def setitem(self, it, key, value):
        t = self.getitem(it, key)
        if value is t or isinstance(value, Arr) and value.root is t.root and value.mask is t.mask:
            return None
        if isinstance(value, Arr):
            value.read(it, 'assignment')
        t.write(it, 'assignment')
        return None

    def binop(self, it, op, other, swapped):
        self.read(it, 'expression')
        if isinstance(other, Arr):
            other.read(it, 'expression')
        return temp(self.mask.shape)

    def unop(self, it, op):
        self.read(it, 'expression')
        return temp(self.mask.shape)

    def compare(self, it, op, other, swapped):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        return NotImplemented

    def iterate(self, it):
        if self.mask.ndim and self.mask.shape[0] != NS:
            return [self.getitem(it, i) for i in range(self.mask.shape[0])]
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == '__iop__':
            if self.owner == 'out' and self.unknown and not self.mask.all() and not self.fresh and not empty(it):
                it.state['errors'].append((it.loc(), "accumulation into output data that has not been written"))
            self.read(it, 'accumulation')
            if isinstance(args[1], Arr):
                args[1].read(it, 'expression')
            if self.owner.startswith('arg'):
                self.write(it, 'in-place operation')
            return self
        if name == 'fill':
            self.write(it, 'fill')
            return None
        if name in ('copy', 'astype', 'conj', 'conjugate', 'sum', 'mean', 'dot', 'max', 'min', 'take'):
            self.read(it, name)
            return temp(self.mask.shape)
        if name in ('reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes'):
            return self.view(self.mask, name not in ('view',) and self.owner == 'out' and False)
        if name in ('sort', 'partition', 'put', 'itemset', 'resize'):
            self.write(it, name)
            return None
        return NotImplemented


def temp(shape, init=True):
    m = np.zeros(shape, bool)
    m[...] = init
    return Arr('temp', m)


def size_true(d, owner):
    t, v = d[0], d[1]
    if isinstance(t, Term) and t.op == 'truth':
        t = t.args[0]
    if isinstance(t, Term) and t.op == 'size' and (owner is None or t.args[0] == owner):
        return v
    if isinstance(t, Term) and t.op == 'cmp' and isinstance(t.args[1], Term) and t.args[1].op == 'size' and t.args[2] == 0 and (owner is None or t.args[1].args[0] == owner):
        return {'==': not v, '!=': v, '>': v, '<=': not v}.get(t.args[0])
    return None


def empty(it):
    return any(size_true(d, 'out') is False for d in it.decisions) or it.state.get('same') and any(size_true(d, None) is False for d in it.decisions)


def npk(key, ndim):
    """numpy key if completely known."""
    ks = key if isinstance(key, (tuple, list)) and not isinstance(key, Generic) else (key,)
    out = []
    for k in ks:
        k = toint(k)
        if k is Ellipsis or k is None and False or isinstance(k, int) and not isinstance(k, bool):
            out.append(k)
        elif isinstance(k, slice):
            s = [toint(x) for x in (k.start, k.stop, k.step)]
            if not all(x is None or isinstance(x, int) for x in s):
                return None
            out.append(slice(*s))
        else:
            return None
    return tuple(out)


class FieldM(AbsVal):
    """Field with the trusted contract of F01: moves along the layout chain."""

    def __init__(self, name, lay, comps, dim, dtype='dtype'):
        self.name, self.lay, self.comps, self.dim = name, lay, comps, dim
        self.preset = name != 'out'
        self.arr = Arr(name, np.full(comps + (NS,) * dim, name != 'out'))
        self.tensorsig = tuple(Obj(None, f"cs{i}", {'dim': n}) for i, n in enumerate(comps))

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'layout':
            return self.lay
        if name == 'data':
            if not self.preset:
                it.state['errors'].append((it.loc(), "output data is accessed before the output layout is set"))
            return self.arr
        if name == 'tensorsig':
            return self.tensorsig
        if name == 'dtype':
            return sym('dtype')
        if name == 'domain':
            return it.state['domain']
        if name == 'dist':
            return it.state['dist']
        return NotImplemented

    def setattr(self, it, name, value):
        it.state['errors'].append((it.loc(), f"attribute {name} of {self.name} is assigned"))
        return None

    def setitem(self, it, key, value):
        if self.name != 'out':
            it.state['errors'].append((it.loc(), f"data of {self.name} is assigned"))
        else:
            self.preset = True
            self.arr.mask[...] = True
        return None

    def compare(self, it, op, other, swapped):
        if op in ('==', '!='):
            return (self is other) == (op == '==')
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        return NotImplemented

    def move(self, it, ok, step):
        L = it.state['layouts']
        i = self.lay.index
        while not ok(L[i]):
            i += step(L[i]) if callable(step) else step
            if not 0 <= i < len(L):
                raise RaiseSig('ValueError', 'no such layout', it.loc())
        self.lay = L[i]

    def callmethod(self, it, name, args, kwargs):
        if name == 'preset_layout':
            lay = resolve(it, args[0])
            self.lay = lay
            self.preset = True
            if self.name != 'out':
                it.state['errors'].append((it.loc(), f"layout label of {self.name} is overwritten"))
            else:
                self.arr.mask[...] = False
            return None
        if name == 'preset_scales':
            if self.name != 'out':
                it.state['errors'].append((it.loc(), f"scales of {self.name} are overwritten"))
            return None
        if name == 'change_layout':
            self.lay = resolve(it, args[0])
            return None
        ax = args[0] if args else kwargs.get('axis')
        ax = toint(ax)
        if name == 'require_grid_space':
            self.move(it, (lambda l: all(l.grid)) if ax is None else (lambda l: l.grid[ax]), 1)
            return None
        if name == 'require_coeff_space':
            self.move(it, (lambda l: not any(l.grid)) if ax is None else (lambda l: not l.grid[ax]), -1)
            return None
        if name == 'require_local':
            g = self.lay.grid[ax]
            self.move(it, lambda l: l.local[ax], -1 if g else 1)
            return None
        if name in ('towards_grid_space', 'towards_coeff_space'):
            i = self.lay.index + (1 if 'grid' in name else -1)
            self.lay = it.state['layouts'][i]
            return None
        if name in ('lock_axis_to_grid', 'lock_to_layouts'):
            return None
        return NotImplemented


def resolve(it, lay):
    if isinstance(lay, Lay):
        return lay
    if lay == 'c':
        return it.state['layouts'][0]
    if lay == 'g':
        return it.state['layouts'][-1]
    return lay


KERNELS = {'apply_matrix', 'apply_dense', 'apply_sparse', 'copyto', 'forward_spin_recombination', 'backward_spin_recombination',
           'forward_regularity_recombination', 'backward_regularity_recombination', 'compute_cfl_frequency',
           'subspace_matrix', 'radial_matrix', '_radial_matrix', 'interpolation_vector', 'interpolation_vectors', 'local_symbols',
           'spin_weights', 'regularity_classes', 'm_maps', 'ell_maps', 'spintotal', 'regularity_allowed', 'n_slice', 'local_group_arrays',
           'spinindex_out', 'regindex_out', 'last_axis', 'first_axis', 'get_axis', 'unify_attributes', 'get_coordsystem'}


class Cfg(Config):
    max_paths = 256
    max_while = 12
    max_depth = 10

    def on_isinstance(self, it, value, cls):
        n = cls.name if isinstance(cls, Class) else None
        if isinstance(value, FieldM):
            return n in ('Field', 'Operand', 'LockedField') if n else None
        if isinstance(value, Lay):
            return n == 'Layout' if n else None
        return None

    def on_truth(self, it, value):
        if it.loops:
            it.state['loopcond'] = True
        return None

    def on_repo_call(self, it, clo, args, kwargs, node):
        f = clo.func
        n = f.name
        if n == 'copyto' and isinstance(args[0], Arr):
            return wr(it, args[0], args[1:], 'copyto')
        if n in ('apply_matrix', 'apply_dense', 'apply_sparse'):
            a = dict(zip(f.params(), args))
            a.update(kwargs)
            src = a.get('array')
            if isinstance(src, Arr):
                src.read(it, n)
            out = a.get('out')
            if isinstance(out, Arr):
                out.write(it, n)
                return out
            return temp(src.mask.shape if isinstance(src, Arr) else (NS,))
        if n in ('forward_spin_recombination', 'backward_spin_recombination'):
            a = dict(zip(f.params(), args))
            a.update(kwargs)
            ps = [a.get(p) for p in f.params()]
            arrs = [(p, x) for p, x in zip(f.params(), ps) if isinstance(x, Arr)]
            if arrs:
                arrs[0][1].read(it, n)
            muts = it.cfg.effects.mutated(f)
            for p, x in arrs:
                if p in muts or x is arrs[-1][1]:
                    x.write(it, n)
            return None
        if n in ('forward_regularity_recombination', 'backward_regularity_recombination'):
            for x in list(args) + list(kwargs.values()):
                if isinstance(x, Arr):
                    x.read(it, n)
                    x.write(it, n)
            return None
        if n == 'compute_cfl_frequency':
            a = [x for x in args if isinstance(x, Arr)]
            if len(a) == 2:
                a[0].read(it, n)
                a[1].read(it, n)
                if a[1].owner != 'out':
                    a[1].write(it, n)
                return None
        if f.cls is not None and f.cls.name == 'GhostBroadcaster' and n in ('cast', '_skip_cast'):
            return args[-1].arr if isinstance(args[-1], FieldM) else NotImplemented
        if n in ('spin_weights', 'regularity_classes'):
            return np.zeros(it.state['comps'], dtype=object)
        if n in KERNELS:
            muts = it.cfg.effects.mutated(f)
            for p, x in list(zip(f.params(), args)) + list(kwargs.items()):
                if isinstance(x, Arr) and p in muts and p != 'out':
                    x.write(it, n)
            if any(isinstance(x, Arr) for x in list(args) + list(kwargs.values())):
                return generic(it, n, args, kwargs)
            return Term('call', freeze(clo.func.qualname), tuple(freeze(x) for x in args if not isinstance(x, (FieldM, Obj))), ())
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        n = None
        if isinstance(f, Term):
            n = f.args[0] if f.op == 'ext' else (f.args[1] if f.op == 'attr' else None)
        last = str(n).split('.')[-1] if n else ''
        if last in ('spin_weights', 'regularity_classes'):
            return np.zeros(it.state['comps'], dtype=object)
        if last == 'cast' and args and isinstance(args[-1], FieldM):
            return args[-1].arr
        allv = list(args) + list(kwargs.values())
        if not any(isinstance(x, Arr) for x in allv):
            if n == 'numpy.ndenumerate' and isinstance(args[0], np.ndarray):
                return [(i, sym(f's{i}')) for i in np.ndindex(*args[0].shape)]
            if n in ('numpy.isrealobj', 'numpy.iscomplexobj'):
                return Term('isreal', freeze(args[0]))
            if last in ('get_layout_object',):
                return resolve(it, args[0])
            if last in ('m_maps', 'ell_maps'):
                return NotImplemented
            return NotImplemented
        if n in ('numpy.copyto',):
            return wr(it, args[0], args[1:], 'copyto')
        if n in ('numpy.transpose', 'numpy.moveaxis', 'numpy.swapaxes', 'numpy.reshape', 'numpy.ravel', 'numpy.asarray', 'numpy.broadcast_to', 'numpy.squeeze', 'numpy.conj') and isinstance(args[0], Arr):
            args[0].read(it, last)
            return args[0].view(args[0].mask)
        if n in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like'):
            return temp(args[0].mask.shape, 'empty' not in n)
        if isinstance(f, Term) and f.op == 'attr':
            # method of an unresolved object: what every repository method of that name does to its arguments
            defs = [c.methods[last] for c in it.repo.classes() if last in c.methods]
            hit = False
            for m in defs[:1]:
                ps = m.params()[1:]
                for p, x in list(zip(ps, args)) + list(kwargs.items()):
                    if isinstance(x, Arr):
                        others = [d for d in defs if p in d.params()]
                        if others and all(p in it.cfg.effects.mutated(d) for d in others):
                            if p != 'out' and not hit:
                                x.read(it, last)
                            x.write(it, last)
                            hit = True
                        else:
                            x.read(it, last)
            if hit:
                return None
        return generic(it, last or show(f), args, kwargs)


def wr(it, dst, srcs, what):
    for s in srcs:
        if isinstance(s, Arr):
            s.read(it, what)
    if isinstance(dst, Arr):
        dst.write(it, what)
    return None


INPLACE3 = {'power': 2, 'multiply': 2, 'add': 2, 'subtract': 2, 'divide': 2, 'negative': 1, 'conjugate': 1, 'sqrt': 1, 'exp': 1}


def generic(it, name, args, kwargs):
    """Library function: reads its operands, writes `out` (keyword or trailing ufunc output)."""
    out = kwargs.get('out')
    pos = list(args)
    if out is None and name in INPLACE3 and len(pos) > INPLACE3[name]:
        out = pos.pop(INPLACE3[name])
    for x in pos + [v for k, v in kwargs.items() if k != 'out']:
        if isinstance(x, Arr):
            x.read(it, name)
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if isinstance(out, Arr):
        out.write(it, name)
        return out
    sh = next((x.mask.shape for x in pos if isinstance(x, Arr)), (NS,))
    return temp(sh)


# ---------------------------------------------------------------- set-up

def operator_classes(repo):
    fut = repo.cls('core.future', 'Future')
    base = fut.method('operate')
    out = []
    for c in repo.subclasses(fut, strict=True):
        m = c.method('operate')
        if m is None or m is base:
            if 'CrossProduct' not in c.name:
                continue
        out.append(c)
    return out


def preserves_shape(cls):
    """__init__ gives the result the operand's domain and tensor signature."""
    for c in cls.mro():
        m = c.methods.get('__init__')
        if m is None:
            continue
        s = ast.unparse(m.node)
        if 'self.domain' in s:
            return 'self.domain = operand.domain' in s and 'self.tensorsig = operand.tensorsig' in s
    return False


def scenario(it, repo, cls, dim, mesh, comps_in, comps_out, axis, arg_lays, index=0):
    it.state.update(dim=dim, errors=[], comps=comps_in)
    lays = [Lay(i, g, l) for i, (g, l) in enumerate(chain(dim, mesh))]
    it.state['layouts'] = lays
    dcls = repo.cls('core.distributor', 'Distributor')
    dist = Obj(dcls, 'dist', {'dim': dim, 'layouts': lays, 'coeff_layout': lays[0], 'grid_layout': lays[-1],
                              'layout_references': {'c': lays[0], 'g': lays[-1]}})
    it.state['dist'] = dist
    it.state['domain'] = Obj(None, 'domain')
    args = [FieldM(f'arg{i}', lays[l], comps_in, dim) for i, l in enumerate(arg_lays)]
    out = FieldM('out', None, comps_out, dim)
    op = Obj(cls, cls.name.lower(), {
        'args': args, 'original_args': tuple(args), 'dist': dist, '_grid_layout': lays[-1], '_coeff_layout': lays[0],
        'tensorsig': out.tensorsig, 'dtype': sym('dtype'), 'domain': it.state['domain'], 'operand': args[0],
        'last_axis': axis, 'first_axis': axis if dim == 1 or cls.issub('SpectralOperator1D') else max(0, axis - 1), 'axis': axis, 'radius_axis': axis,
        'index': index, 'layouts': [lays[0], lays[-1]], 'indices': np.array([0, len(lays) - 1], dtype=object), 'layout': lays[-1],
        '_field_arg_indices': list(range(len(args))), 'azimuth_axis': max(0, axis - 1), 'coord_subaxis': 1,
        'kw': {}, 'coord': sym('coord'), 'new_axis_order': sym('order'),
        'input_basis': sym('input_basis'), 'output_basis': basis_obj(repo, cls, 'output_basis_type', 'output_basis'), 'radial_basis': sym('radial_basis'), 'sphere_basis': sym('sphere_basis')})
    it.state['same'] = preserves_shape(cls)
    return op, args, out, lays


def basis_obj(repo, cls, attr, name):
    """Basis argument whose `dim` is the one shared by every class the operator dispatches on."""
    r = cls.find(attr)
    v = sym(name)
    if not r or r[1] != 'attr':
        return v
    n = getattr(r[2], 'value', r[2])
    dims = set()
    for e in (n.elts if isinstance(n, ast.Tuple) else [n]):
        nm = e.id if isinstance(e, ast.Name) else getattr(e, 'attr', None)
        c = next((x for x in repo.classes() if x.name == nm), None)
        d = c.find('dim') if c else None
        v2 = getattr(d[2], 'value', d[2]) if d and d[1] == 'attr' else None
        dims.add(v2.value if isinstance(v2, ast.Constant) else None)
    if len(dims) == 1 and None not in dims:
        return Obj(None, name, {'dim': dims.pop()})
    return v


class OpCfg(Cfg):
    effects = None

    def on_getattr(self, it, base, name):
        if isinstance(base, Obj) and base is it.state.get('op'):
            if name in ('radius_axis', 'azimuth_axis') and name in base.attrs:
                return base.attrs[name]
            if name == 'coordsys':
                n = base.attrs['comps_out'][0] if base.attrs['comps_out'] else 2
                if n == 3:
                    sub = [Obj(None, 'csA', {'dim': 1}), Obj(None, 'csB', {'dim': 2})]
                else:
                    sub = [Obj(None, 'csA', {'dim': 1})] * n
                return Obj(None, 'coordsys', {'dim': n, 'coordsystems': tuple(sub)})
        return NotImplemented


def shapes_for(cls):
    """(component shapes in, out, number of field arguments)"""
    n = cls.name
    if cls.issub('Gradient') and cls.name.startswith(('Cartesian', 'DirectProduct')):
        return [((), (3,), 3), ((), (2,), 2)] if cls.name.startswith('Cartesian') else [((2,), (3,), 2)]
    if cls.issub('Gradient'):
        return [((2,), (2, 2), 1)]
    if cls.issub('CrossProduct'):
        return [((3,), (3,), 2)]
    if cls.issub('DotProduct'):
        return [((2,), (), 2)]
    if cls.issub('MultiplyNumberField'):
        return [((2,), (2,), 'num')]
    if cls.issub('PowerFieldConstant'):
        return [((), (), 'pow')]
    if cls.issub('Product') or cls.issub('Add'):
        return [((2,), (2,), 2)]
    if cls.issub('Trace'):
        return [((2, 2), (), 1)]
    if cls.issub('Component'):
        return [((3,), (2,), 1)] if 'Angular' in n else [((3,), (), 1)]
    if cls.issub('Divergence') or cls.issub('CartCompBase'):
        return [((2,), (), 1)]
    if cls.issub('AdvectiveCFL'):
        return [((2,), (), 1)]
    if cls.issub('Curl') and cls.name.startswith(('Cartesian', 'DirectProduct')):
        return [((3,), (3,), 1)]
    if cls.issub('Skew'):
        return [((2,), (2,), 1), ((2, 2), (2, 2), 1)]
    return [((2,), (2,), 1)]


def need(cls, op, lay, axis):
    """Layout precondition of the evaluation routine, by operator family."""
    if cls.issub('NonlinearOperator') or cls.issub('Product') and not cls.issub('MultiplyNumberField'):
        return all(lay.grid), 'full grid space'
    if cls.issub('Trace') or cls.issub('AdvectiveCFL'):
        return all(lay.grid), 'full grid space'
    if cls.name == 'InterpolateAzimuth':
        a = op.attrs['first_axis']
        return lay.grid[a] and lay.local[a], 'grid space and locality along the azimuth'
    if cls.name == 'InterpolateColatitude':
        a = op.attrs['first_axis']
        return not lay.grid[a] and lay.grid[a + 1] and lay.local[a + 1], 'azimuthal coefficients, local colatitude grid'
    return None, ''


def run(repo, rep):
    rep.rule('operate: output layout set from an argument before data access; output fully overwritten, never read before written; arguments never written')
    rep.rule('enforce_conditions establishes check_conditions; check_conditions implies the layout needed by the evaluation')
    OpCfg.effects = Effects(repo)
    classes = operator_classes(repo)
    for cls in classes:
        rep.count('operator classes')
        operate_rule(repo, rep, cls)
        conditions_rule(repo, rep, cls)
    rep.floor('operator classes', 40)
    rep.floor('evaluation paths', 60)
    rep.floor('condition cases', 200)


def abstract(cls):
    """Dispatch base classes are never instantiated."""
    return False


def operate_rule(repo, rep, cls):
    names = ['operate']
    if cls.issub('CrossProduct'):
        names = ['operate_right_handed', 'operate_left_handed']
    for name in names:
        m = cls.method(name)
        if m is None:
            rep.violation(f"O01|{cls.name}|{name}|missing", f"{cls.name} has no evaluation routine {name}", cls.loc)
            continue
        for ci, co, nargs in shapes_for(cls):
            for index in ((0, 1) if len(ci) > 1 and cls.issub('Skew') else (0,)):
                for variant in variants(cls, nargs):
                    it = Interp(repo, OpCfg())

                    def go(it):
                        k = 1 if nargs in ('num', 'pow') else nargs
                        op, args, out, lays = scenario(it, repo, cls, 3, 0, ci, co, 1 if not cls.issub('SphericalEllOperator') else 2, [0] * k, index)
                        it.state['op'] = op
                        op.attrs['comps_out'] = co
                        if nargs == 'num':
                            op.attrs['args'] = [2] + args
                        if nargs == 'pow':
                            op.attrs['args'] = args + [3]
                        if variant == 'zero':
                            op.attrs['args'] = args[:-1] + [0]
                        it.call(it.getattr(op, name), [out])
                        it.state.update(out=out, args=args, lays=lays, op=op)
                        if not out.preset:
                            it.state['errors'].append((None, 'the output layout is never set'))
                        elif not any(out.lay is a.lay for a in args) and out.lay is not op.attrs['layout']:
                            it.state['errors'].append((None, f"the output is labelled {show(out.lay)}, which is not the layout of the arguments"))
                        if out.preset and not out.arr.mask.all() and not empty(it):
                            if out.arr.__dict__.get('maybe') or it.state.get('loopcond'):
                                it.state['unk'] = True
                            else:
                                it.state['errors'].append((None, "part of the output data is never written"))
                        return None
                    for r in it.explore(go):
                        rep.count('evaluation paths')
                        what = f"{cls.name}.{name}"
                        if r.outcome == 'abort':
                            rep.undec(f"{what}: {r.value}")
                            continue
                        if r.outcome == 'raise':
                            if r.value.name in ('NotImplementedError', 'ValueError'):
                                continue
                            if r.value.name in ('AttributeError', 'TypeError', 'NameError'):
                                rep.undec(f"{what}: raises {r.value.name} {r.value.value} in the model")
                            continue
                        errs = r.extra['errors']
                        rep.check(not errs, f"O01|{m.qualname}|{errs[0][1] if errs else ''}", f"{what}: {errs[0][1] if errs else ''} when {r.cond_text()}", (errs[0][0] if errs else None) or m.loc, f"{what} ({index}, {variant})")
                        if r.extra.get('unk') and not errs:
                            rep.count('partially indexed outputs')


def variants(cls, nargs):
    if cls.issub('Gradient') and cls.name.startswith(('Cartesian', 'DirectProduct')):
        return ['all', 'zero']
    return ['all']


def conditions_rule(repo, rep, cls):
    chk, enf = cls.method('check_conditions'), cls.method('enforce_conditions')
    fut = repo.cls('core.future', 'Future')
    if chk is fut.method('check_conditions') or enf is fut.method('enforce_conditions'):
        rep.violation(f"O01|{cls.name}|conditions missing", f"{cls.name} does not define both condition methods", cls.loc)
        return
    ci, co, nargs = shapes_for(cls)[0]
    k = 1 if nargs in ('num', 'pow') else nargs
    spectral = cls.issub('SpectralOperator')
    for dim, mesh in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
        if dim == 1 and (cls.name == 'InterpolateColatitude'):
            continue
        nl = len(chain(dim, mesh))
        axes = range(dim) if spectral else (0,)
        if cls.issub('PolarMOperator') or cls.issub('SeparableSphereOperator') or cls.issub('SphericalEllOperator'):
            axes = [a for a in axes if a >= (2 if cls.issub('SphericalEllOperator') else 1)]
        for axis in axes:
            if (cls.name == 'InterpolateColatitude') and axis != 1:
                continue
            for arg_lays in itertools.product(range(nl), repeat=k):
                if k == 3 and len(set(arg_lays)) == 3 and rep.tier != 'thorough':
                    continue
                for which in ('enforce', 'check'):
                    it = Interp(repo, OpCfg())

                    def go(it):
                        op, args, out, lays = scenario(it, repo, cls, dim, mesh, ci, co, axis, arg_lays)
                        it.state['op'] = op
                        op.attrs['comps_out'] = co
                        if cls.name == 'InterpolateColatitude':
                            op.attrs['first_axis'] = axis - 1
                        if cls.name == 'InterpolateAzimuth':
                            op.attrs['first_axis'] = axis
                        if nargs == 'num':
                            op.attrs['args'] = [2] + args
                        if nargs == 'pow':
                            op.attrs['args'] = args + [3]
                        if which == 'enforce':
                            it.call(it.getattr(op, 'enforce_conditions'), [])
                        it.state['final'] = [a.lay for a in args]
                        v = it.call(it.getattr(op, 'check_conditions'), [])
                        v = it.truth(v)
                        if any(a.lay is not l for a, l in zip(args, it.state['final'])):
                            it.state['errors'].append((it.loc(), 'check_conditions moves its arguments'))
                        coup = None
                        if spectral:
                            try:
                                c = it.getattr(op, 'subaxis_coupling')
                                c = c[-1] if isinstance(c, (list, tuple)) else None
                                coup = c if isinstance(c, bool) else None
                                if coup is None:
                                    coup = next((d[1] for d in it.decisions if 'subaxis_coupling' in show(d[0])), None)
                            except RaiseSig:
                                pass
                        it.state['coup'] = coup
                        it.state['opv'] = op
                        return v
                    for r in it.explore(go):
                        rep.count('condition cases')
                        what = f"{cls.name} (axis {axis} of {dim}{', distributed' if mesh else ''}, layouts {list(arg_lays)})"
                        if r.outcome == 'abort':
                            rep.undec(f"{what}: {r.value}")
                            continue
                        if r.outcome == 'raise':
                            if which == 'enforce':
                                rep.check(False, f"O01|{enf.qualname}|raises", f"{what}: enforce_conditions raises {r.value.name}: {r.value.value} when {r.cond_text()}", enf.loc)
                            continue
                        fin = r.extra['final']
                        for l, m in r.extra['errors']:
                            rep.violation(f"O01|{chk.qualname}|effects", f"{what}: {m}", l)
                        if which == 'enforce':
                            rep.check(r.value is True, f"O01|{cls.name}|enforce does not establish check", f"{what}: after enforce_conditions the arguments are in {fin} but check_conditions is False when {r.cond_text()}", enf.loc)
                        if r.value is True:
                            accepted(rep, repo, cls, r, fin, axis, what, chk if which == 'check' else enf, which)


def accepted(rep, repo, cls, r, fin, axis, what, m, which):
    op = r.extra['opv']
    key = f"O01|{cls.name}|{which} accepts unusable layout"
    # elementwise operators on several arguments need one common layout
    if len(fin) > 1:
        rep.check(all(l is fin[0] for l in fin), key, f"{what}: {m.name} leaves the arguments in different layouts {fin}", m.loc, f"{what} common layout")
    ok, text = need(cls, op, fin[0], axis)
    if ok is not None:
        rep.check(ok, key, f"{what}: evaluation needs {text} but {m.name} accepts {fin[0]} (grid {fin[0].grid}, local {fin[0].local}) when {r.cond_text()}", m.loc, f"{what} {text}")
        return
    if cls.issub('SpectralOperator'):
        l = fin[0]
        if cls.issub('Copy') and cls.method('operate').cls.name == 'Copy':
            return
        if cls.issub('Convert') and l.grid[axis]:
            # copied pointwise: never with coefficients required
            return
        coup = r.extra['coup']
        c = not l.grid[axis]
        rep.check(c, key, f"{what}: spectral evaluation needs coefficients along the axis but {m.name} accepts {l} (grid {l.grid}) when {r.cond_text()}", m.loc, f"{what} coefficients")
        if coup:
            rep.check(l.local[axis], key, f"{what}: coupled spectral evaluation needs the axis local but {m.name} accepts {l} (local {l.local}) when {r.cond_text()}", m.loc, f"{what} local")
