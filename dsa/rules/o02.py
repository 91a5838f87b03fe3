"""Operators are rebuilt with their own parameters.

Every concrete operator class is constructed abstractly with symbolic
parameters; the call its `new_operand(s)` makes is recorded, bound through the
class's own argument preprocessing and constructor, and the state of the
rebuilt operator is compared, attribute by attribute, with that of the
original.  Zero operands are dispatched abstractly and must give zero.
"""
import itertools
import ast
import os
import re
import sympy
from ..interp import *
from ..repo import AnalysisBroken, Class
from .a01 import is_a, metaclass

SKIP_ATTRS = {'last_id', 'last_out', '_grid_layout', '_coeff_layout', 'out', 'arg0', 'arg1'}


class Built(AbsVal):
    """Operator built during the analysis."""
    def __init__(self, cls, args, kwargs):
        self.cls, self.args, self.kwargs = cls, args, kwargs

    def __eq__(self, o):
        return isinstance(o, Built) and repr(o) == repr(self)

    def __hash__(self):
        return hash(repr(self))

    def operands(self):
        return [y for x in list(self.args) + list(self.kwargs.values()) for y in operands_of(x)]

    def __repr__(self):
        return f"{self.cls.name}({', '.join(show(a) for a in self.args)}{', ' if self.kwargs else ''}{', '.join(f'{k}={show(v)}' for k, v in self.kwargs.items())})"

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is'):
            return self is other
        if op in ('!=', 'is not'):
            return self is not other
        return NotImplemented

    def getattr(self, it, name):
        # operators of the same kind of operand have the same attributes
        if name == 'tensorsig' and self.args and isinstance(self.args[0], Opnd) and self.cls.name in ('Differentiate', 'Convert', 'Interpolate', 'DifferentiateJacobi'):
            return self.args[0].attrs['tensorsig']
        return Term('attr', self, name)


class Opnd(AbsVal):
    """An operand; the new operand looks the same but is another object."""
    def __init__(self, name, attrs):
        self.new = name.startswith('new ')
        self.name, self.attrs = re.sub('^new ', '', name), attrs

    def __eq__(self, o):
        return isinstance(o, Opnd) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        return Term('attr', sym('operand'), name)

    def callmethod(self, it, name, args, kwargs):
        return Term('call', Term('attr', sym('operand'), name), tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kwargs.items())))

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is'):
            return self is other
        if op in ('!=', 'is not'):
            return self is not other
        if op in ('in', 'not in') and not swapped:
            return any(x is self for x in it.iterate(other)) == (op == 'in')
        return NotImplemented


def operands_of(v):
    if isinstance(v, Opnd):
        return [v]
    if isinstance(v, Built):
        return v.operands()
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in operands_of(x)]
    if isinstance(v, Term):
        return [y for x in v.args for y in operands_of(x)]
    return []


class Cfg(Config):
    max_paths = 48
    max_depth = 16
    max_steps = 200000

    def on_isinstance(self, it, value, cls):
        if isinstance(value, (Opnd, Built)):
            nm = cls.name if isinstance(cls, (Native, Class)) else cls.args[0] if isinstance(cls, Term) and cls.op == 'ext' else None
            if isinstance(value, Built) and isinstance(cls, Class):
                return value.cls.issub(cls)
            if isinstance(cls, Class):
                return cls.name in ('Operand', 'Field')
            return False if nm else None
        if isinstance(value, Par) and value.cls is not None:
            return value.cls.issub(cls) if isinstance(cls, Class) else False
        if isinstance(value, Par) and isinstance(cls, Native) and cls.name in ('str', 'tuple', 'list', 'int', 'float'):
            return False
        if isinstance(value, NUM) and isinstance(cls, Class):
            return False
        if isinstance(cls, Class) and isinstance(value, Term) and value.op == 'sym' and it.state.get('ptype', {}).get(value.args[0]) is not None:
            return any(p == cls.name for p in it.state['ptype'][value.args[0]])
        return None

    def on_new(self, it, cls, args, kwargs, node):
        if is_a(cls, 'Operand') or metaclass(it.repo, cls) is not None and metaclass(it.repo, cls).name == 'MultiClass':
            mc = metaclass(it.repo, cls)
            if it.state.get('dispatch') and mc is not None:
                m = mc.method('__call__')
                return it.call(Closure(m, None, cls, m.cls), list(args), kwargs)
            b = Built(cls, list(args), dict(kwargs))
            it.state.setdefault('built', []).append(b)
            return b
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        n = clo.func.name
        if n == 'get_layout_object' and len(args) > 1:
            return args[1]
        if n in ('unify_attributes',):
            return Term('unified', str(args[1]) if len(args) > 1 else '')
        if n == '__init__' and clo.func.cls is not None and clo.func.cls.name == 'Future':
            o, ops = args[0], args[1:]
            o.attrs['args'] = list(ops)
            o.attrs['original_args'] = tuple(ops)
            o.attrs['out'] = kwargs.get('out')
            o.attrs['dist'] = it.state['dist']
            return None
        if n == 'get_basis' and args and not isinstance(args[0], Opnd):
            return NotImplemented
        return NotImplemented

    def on_getattr(self, it, base, name):
        if name == 'get_layout_object' and isinstance(base, (Term, Par)):
            return Native(name, lambda it2, x: x)
        if isinstance(base, Class):
            if name == '__subclasses__':
                return Native('subclasses', lambda it2: [c for c in it.repo.classes() if base in c.bases])
            if name == 'stop_dispatch' and base.find(name) is None:
                return False
            if base.find(name) is None:
                mc = metaclass(it.repo, base)
                if mc is not None and mc.method(name) is not None:
                    m = mc.method(name)
                    return Closure(m, None, base, m.cls)
        if isinstance(base, SuperVal) and name == '__call__' and isinstance(base.obj, Class):
            def build(it2, *a, **k):
                nw = base.obj.method('__new__')
                if nw is not None:
                    r = it2.call_func(Closure(nw, None, None, nw.cls), [base.obj] + list(a), k)
                    if not isinstance(r, Term):
                        return r
                b = Built(base.obj, list(a), dict(k))
                it2.state.setdefault('built', []).append(b)
                return b
            return Native('type.__call__', build)
        return NotImplemented


class Par(AbsVal):
    """A constructor parameter: a distinct value of a known class."""
    def __init__(self, name, cls=None, attrs=None):
        self.name, self.cls, self.attrs = name, cls, dict(attrs or {})

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is'):
            return self is other
        if op in ('!=', 'is not'):
            return self is not other
        if op in ('in', 'not in') and not swapped:
            return any(x is self for x in it.iterate(other)) == (op == 'in')
        return NotImplemented

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        return Term('attr', sym(self.name), name)

    def callmethod(self, it, name, args, kwargs):
        return Term('call', Term('attr', sym(self.name), name), tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kwargs.items())))

    def call(self, it, args, kwargs):
        return Term('call', sym(self.name), tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kwargs.items())))


def coordsystems(repo, cls):
    """Coordinate systems to try: the kinds the operator class is made for, then all others."""
    kinds = []
    for attr in ('cs_type', 'coordsys_type', 'input_coord_type'):
        found = cls.find(attr)
        if found and found[1] == 'attr':
            v = found[2]
            v = v.value if isinstance(v, (ast.Assign, ast.AnnAssign)) else v
            for x in v.elts if isinstance(v, ast.Tuple) else [v]:
                r = repo.resolve_expr(x, found[0].module)
                if isinstance(r, Class) and r.name != 'Coordinate':
                    kinds.append(r.name)
    rest = [k for k in ('CartesianCoordinates', 'PolarCoordinates', 'S2Coordinates', 'SphericalCoordinates', 'DirectProduct') if k not in kinds]
    for k in kinds + rest:
        for n in {'CartesianCoordinates': (3, 2), 'PolarCoordinates': (2,), 'S2Coordinates': (2,)}.get(k, (3,)):
            yield make_coordsys(repo, k, n)


def make_coordsys(repo, kind, n):
    C = repo.cls('core.coords', 'Coordinate')
    cs = tuple(Par(f'c{i}', C, {'dim': 1, 'coords': None, 'name': f'c{i}'}) for i in range(n))
    for c in cs:
        c.attrs['coords'] = (c,)
    attrs = {'dim': n, 'coords': cs, 'right_handed': True}
    if kind == 'DirectProduct':
        P = repo.cls('core.coords', 'CartesianCoordinates')
        attrs['coordsystems'] = (Par('cs_first', P, {'dim': 2, 'coords': cs[:2]}), cs[2])
    return Par('coordsys', repo.cls('core.coords', kind), attrs)


# parameters with a finite set of meaningful values; other parameters are symbols
FINITE = {'index': (0, 1, -1, -2), 'indices': ((0, 1), (-1, 0), (0, -1), (1, -1)), 'n': (-1, -2, 0, 1), 'power': (2, -1)}
OPERANDS = ('operand', 'arg0', 'arg1', 'arg', 'operand0', 'operand1')


def operand(it, name, rank):
    return Opnd(name, {'tensorsig': tuple(it.state['cs'][:rank]), 'dist': it.state['dist'], 'dtype': sym('dtype'), 'domain': sym('domain')})


def coord_classes(repo, cls):
    """Classes the coordinate parameter can have."""
    found = cls.find('input_coord_type')
    out = []
    if found and found[1] == 'attr':
        v = found[2]
        v = v.value if hasattr(v, 'value') and not hasattr(v, 'elts') and not hasattr(v, 'attr') and not hasattr(v, 'id') else v
        for x in getattr(v, 'elts', [v]):
            r = repo.resolve_expr(x, found[0].module)
            if isinstance(r, Class):
                out.append(r)
    return out or [repo.cls('core.coords', 'Coordinate')]


def param_cases(repo, cls, params):
    fin = [p for p in params if p in FINITE]
    for vals in itertools.product(*[FINITE[p] for p in fin]):
        d = dict(zip(fin, vals))
        for c in (coord_classes(repo, cls) if any(p in ('coord', 'coords') for p in params) else [None]):
            yield [d[p] if p in d else Par('given_' + p, c if p in ('coord', 'coords') else None) for p in params], \
                ', '.join([f'{k}={v}' for k, v in d.items()] + ([c.name] if c else []))


def preprocess(it, cls, args, kwargs):
    if metaclass(it.repo, cls) is None:
        return list(args), dict(kwargs)
    m = it.getattr(cls, '_preprocess_args')
    r = it.call(m, list(args), dict(kwargs))
    a, k = it.iterate(r)
    return list(it.iterate(a)), dict(k)


def init(it, cls, args, kwargs):
    o = Obj(cls, 'self')
    f = cls.method('__init__')
    it.call_func(Closure(f, None, o, f.cls), [o] + list(args), {k: v for k, v in kwargs.items() if not (k == 'out' and v is None)})
    return o


def concrete(repo):
    out = []
    for c in repo.subclasses(repo.cls('core.future', 'Future'), strict=True):
        if c.method('new_operand') is not None and c.method('new_operand').cls.name == 'LinearOperator' and metaclass(repo, c) is None and '__init__' not in c.methods:
            continue    # abstract: no operator class derives from it
        if not any(is_a(c, n) for n in ('LinearOperator', 'Product', 'Power', 'UnaryGridFunction', 'GeneralFunction', 'AdvectiveCFL')):
            continue
        if any(s is not c for s in repo.subclasses(c, strict=True)):
            continue
        out.append(c)
    return out


def normal(v, depth=0):
    if isinstance(v, Obj):
        if depth > 3:
            return v.cls.name if v.cls else 'obj'
        return (v.cls.name if v.cls else 'obj',) + tuple(sorted((k, normal(x, depth + 1)) for k, x in v.attrs.items()))
    if isinstance(v, Built):
        return ('built', v.cls.name, tuple(normal(x, depth + 1) for x in v.args), tuple(sorted((k, normal(x, depth + 1)) for k, x in v.kwargs.items())))
    if isinstance(v, Opnd):
        return v.name
    if isinstance(v, (list, tuple)):
        return tuple(normal(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((show(k), normal(x, depth + 1)) for k, x in v.items()))
    return re.sub(r'#\d+', '', show(v))


def state(o):
    return {k: normal(v) for k, v in o.attrs.items() if k not in SKIP_ATTRS}


def reachable(it, root, cls):
    """Can dispatch starting from `root` end at `cls`?"""
    if root is cls:
        return True
    if metaclass(it.repo, root) is None:
        return False
    for c in it.repo.classes():
        if root in c.bases and it.getattr(c, 'stop_dispatch') is False and cls.issub(c) and reachable(it, c, cls):
            return True
    return False


def rebuild_method(cls):
    return cls.method('new_operands') if any(is_a(cls, n) for n in ('Product', 'Power', 'UnaryGridFunction', 'GeneralFunction')) else cls.method('new_operand')


def check_class(repo, rep, cls):
    # the constructor that names the parameters
    f = next(c.methods['__init__'] for c in cls.mro() if '__init__' in c.methods and (len(c.methods['__init__'].params()) > 1 or c.name in ('AddFields', 'Add', 'Future')))
    if f.cls.name == 'Future' and metaclass(repo, cls) is None:
        return      # abstract
    m = rebuild_method(cls)
    key = f"O02|{(m.cls if m else cls).name}|{cls.name}"
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    if a.vararg is not None:
        names.append('*' + a.vararg.arg)
    if cls.method('__new__') is not None:
        rep.count('classes without instances')
        return
    if m is None:
        rep.violation(key, f"{cls.name} has no method that rebuilds it with a new operand", cls.loc)
        return
    ops = [n for n in names if n in OPERANDS]
    params = [n for n in names if n not in ops and n != 'out']
    if is_a(cls, 'PowerFieldConstant'):
        ops, params = ['arg0'], ['power']
        names = ['arg0', 'power']
    if is_a(cls, 'MultiplyNumberField'):
        ops = ['arg1']
        params, names = ['factor'], ['factor', 'arg1']
    if not ops and not is_a(cls, 'GeneralFunction') and names[:1] != ['*args']:
        rep.undec(f"{cls.name}: constructor parameters {names}")
        return
    built = 0
    seen = set()
    cases = list(param_cases(repo, cls, params))
    for cs, rank, (vals, label) in itertools.chain.from_iterable(itertools.product([cs], (2, 1, 0), cases) for cs in coordsystems(repo, cls)):
        if built and cs is not first:
            break
        first = cs
        if True:
            vals = [cs if p in ('coordsys', 'cs') or p == 'coords' and is_a(cls, 'AdvectiveCFL') else v for p, v in zip(params, vals)]

            def go(it):
                it.state.update(dist=sym('dist'), cs=[cs, cs], stage='construct')
                pm = dict(zip(params, [sympy.Integer(3) if p == 'factor' else v for p, v in zip(params, vals)]))
                os_ = {n: operand(it, n, rank) for n in ops}
                if names[:1] == ['*args']:
                    os_ = {n: operand(it, n, rank) for n in ('arg0', 'arg1', 'arg2')}
                    order = list(os_)
                else:
                    order = [n for n in names if n != 'out' and not n.startswith('*')]
                args = []
                for n in order:
                    args += [os_[n]] if n in os_ else [pm[n]]
                for p, v in pm.items():
                    if p == 'index' and not -rank <= v < rank or p == 'indices' and isinstance(v, tuple) and not all(-rank <= x < rank for x in v):
                        return ('refused',)
                if is_a(cls, 'Lock'):
                    args += [pm[p] for p in params] + [Par('given_second_layout')]
                if is_a(cls, 'GeneralFunction'):
                    args[names.index('args')] = [operand(it, 'operand', rank)]
                    os_ = {'operand': None}
                try:
                    a1, kw = preprocess(it, cls, args, {})
                except RaiseSig:
                    return ('refused',)
                try:
                    o1 = init(it, cls, a1, kw)
                except RaiseSig as e:
                    if os.environ.get('DSA_DEBUG'):
                        print(cls.name, label, rank, e.name, show(e.value), e.loc)
                    return ('refused',)
                s1 = state(o1)
                it.state.update(stage='rebuild', built=[])
                it.state['why'] = None
                news = [operand(it, 'new ' + n, rank) for n in os_]
                margs = []
                if is_a(cls, 'PowerFieldConstant'):
                    margs = [news[0], o1.attrs['args'][1]]
                elif is_a(cls, 'MultiplyNumberField'):
                    margs = [o1.attrs['args'][0], news[0]]
                else:
                    margs = list(news)
                r = it.call_func(Closure(m, None, o1, m.cls), [o1] + margs)
                if isinstance(r, Opnd):
                    return ('same', r is news[0] and is_a(cls, 'Convert'))
                if not isinstance(r, Built):
                    return ('other', show(r))
                if not reachable(it, r.cls, cls):
                    return ('class', r.cls.name)
                it.state['stage'] = 'reconstruct'
                a2, k2 = preprocess(it, r.cls, r.args, r.kwargs)
                o2 = init(it, cls, a2, k2)
                got = operands_of(o2.attrs.get('args'))
                if not got or not all(x.new for x in got):
                    return ('operands', show(o2.attrs.get('args')))
                s2 = state(o2)
                d = sorted(k for k in set(s1) | set(s2) if s1.get(k) != s2.get(k))
                return ('built', d, [(s1.get(k), s2.get(k)) for k in d])
            it = Interp(repo, Cfg())
            for r in it.explore(go):
                if r.outcome == 'abort':
                    if r.value not in seen:
                        seen.add(r.value)
                        rep.undec(f"{cls.name}: {r.value}")
                    continue
                where = f"{cls.name}({label})" if label else cls.name
                loc = m.loc
                if r.outcome == 'raise':
                    rep.violation(key, f"{where}: rebuilding with a new operand raises {r.value.name} ({show(r.value.value)}) at {r.value.loc}", loc)
                    continue
                v = r.value
                if v[0] == 'refused':
                    continue
                built += 1
                msg = None
                if v[0] == 'same' and not v[1]:
                    msg = "returns the operand without the operator"
                elif v[0] == 'other':
                    msg = f"returns {v[1]}"
                elif v[0] == 'class':
                    msg = f"builds {v[1]}, which is another operator"
                elif v[0] == 'operands':
                    msg = f"is applied to {v[1]}"
                elif v[0] == 'built' and v[1]:
                    k, (x, y) = v[1][0], v[2][0]
                    msg = f"changes {', '.join(v[1])} ({k}: {show(x)[:80]} becomes {show(y)[:80]})"
                rep.check(msg is None, key, f"{where} rebuilt with a new operand {msg}", loc, f"{where} rank {rank}")
    if not built:
        rep.undec(f"{cls.name}: no admissible construction found")
    else:
        rep.count('operator classes')


def check_zero(repo, rep, cls):
    """new_operand(0) is zero (for every value of the parameters)."""
    m = rebuild_method(cls)
    if cls.method('__new__') is not None:
        return
    if m is None or is_a(cls, 'AdvectiveCFL') or is_a(cls, 'Power') or is_a(cls, 'UnaryGridFunction') or is_a(cls, 'GeneralFunction'):
        return
    nums = [0]
    if is_a(cls, 'Product'):
        cases = [(0, 'x'), ('x', 0), (0, 0)]
    else:
        cases = [(0,)]
    for case in cases:
        def go(it):
            it.state.update(dist=sym('dist'), cs=[sym('cs'), sym('cs')], dispatch=True)
            o = Obj(cls, 'self')
            o.attrs['args'] = [operand(it, 'operand', 1)]
            return it.call_func(Closure(m, None, o, m.cls), [o] + [operand(it, 'x', 1) if c == 'x' else c for c in case])
        it = Interp(repo, Cfg())
        for r in it.explore(go):
            if r.outcome == 'abort':
                rep.undec(f"{cls.name}: {r.value}")
                continue
            msg = None
            if r.outcome == 'raise':
                msg = f"raises {r.value.name} ({show(r.value.value)[:120]}) at {r.value.loc}"
            elif not (isinstance(r.value, NUM) and r.value == 0):
                msg = f"gives {show(r.value)[:120]}"
            rep.check(msg is None, f"O02|zero|{(m.cls or cls).name}|{cls.name}", f"{cls.name} applied to zero ({', '.join(map(str, case))}) {msg}", m.loc, f"{cls.name} of zero")
    rep.count('zero rules')


def run(repo, rep):
    rep.rule('each operator rebuilt through its own new_operand(s), argument preprocessing and constructor has the attributes of the original')
    rep.rule('operators of zero are zero after dispatch')
    for cls in concrete(repo):
        if cls.name.startswith('_') or cls.method('__init__') is None:
            continue
        check_class(repo, rep, cls)
        check_zero(repo, rep, cls)
    rep.floor('operator classes', 60)


ASSUMPTIONS = ['domains and bases of operands are unchanged by the rebuild (the new operand is of the same kind as the old one)']
