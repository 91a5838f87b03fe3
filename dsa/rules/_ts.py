"""Shared model for the timestepper rules: linear-form domain for M, L, X, F."""
import sympy
import numpy as np
from ..interp import *
from ..interp import Generic
from ..repo import AnalysisBroken


def schemes(repo, base):
    b = repo.cls('core.timesteppers', base)
    return b, [c for c in repo.subclasses(b, strict=True)]


class Lin:
    """Immutable linear combination {basis name: sympy coeff}."""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = {k: sympy.sympify(v) for k, v in (d or {}).items() if sympy.sympify(v) != 0}

    def add(self, o, s=1):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + s * v
        return Lin(r)

    def scale(self, s):
        return Lin({k: v * s for k, v in self.d.items()})

    def same(self, o):
        keys = set(self.d) | set(o.d)
        return all(sympy.simplify(self.d.get(k, 0) - o.d.get(k, 0)) == 0 for k in keys)

    def __repr__(self):
        return ' + '.join(f"({v})*{k}" for k, v in sorted(self.d.items())) or '0'


class VecRef(AbsVal):
    """Mutable array holding a linear form (a data buffer)."""
    def __init__(self, val=None, name='?'):
        self.val = val if val is not None else Lin({f"uninit[{name}]": 1})
        self.name = name

    def __repr__(self):
        return f"<array {self.name}={self.val}>"

    def getattr(self, it, name):
        if name == 'size':
            return 7
        if name in ('data', 'T'):
            return self
        return NotImplemented

    def getitem(self, it, key):
        return self

    def setitem(self, it, key, value):
        self.val = lin(value)

    def setattr(self, it, name, value):
        if name == 'data':
            self.val = lin(value)
            return None
        return NotImplemented

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        if name == '__iop__':
            op, v = args
            if op in ('+', '-'):
                self.val = self.val.add(lin(v), 1 if op == '+' else -1)
            elif op == '*':
                self.val = self.val.scale(v)
            elif op == '/':
                self.val = self.val.scale(1 / sympy.sympify(v))
            else:
                return NotImplemented
            return self
        if name in ('copy', 'ravel', 'astype', 'tocsr', 'tocsc'):
            return VecRef(self.val, self.name)
        if name == 'fill':
            self.val = Lin({}) if args[0] == 0 else Lin({'const': args[0]})
            return None
        return NotImplemented

    def binop(self, it, op, other, swapped):
        if op in ('+', '-') and isinstance(other, (VecRef, int)):
            o = lin(other)
            if swapped:
                return VecRef(o.add(self.val, 1 if op == '+' else -1), 'tmp')
            return VecRef(self.val.add(o, 1 if op == '+' else -1), 'tmp')
        if op == '*' and isinstance(other, (int, sympy.Basic)):
            return VecRef(self.val.scale(other), 'tmp')
        if op == '/' and not swapped and isinstance(other, (int, sympy.Basic)):
            return VecRef(self.val.scale(1 / sympy.sympify(other)), 'tmp')
        if op == '@' and isinstance(other, VecRef):
            a, b = (other, self) if swapped else (self, other)
            return VecRef(matvec(a.val, b.val), 'tmp')
        return NotImplemented

    def unop(self, it, op):
        return VecRef(self.val.scale(-1 if op == '-' else 1), 'tmp')


def matvec(m, v):
    r = {}
    for a, x in m.d.items():
        for b, y in v.d.items():
            r[f"{a}.{b}"] = r.get(f"{a}.{b}", 0) + x * y
    return Lin(r)


def lin(v):
    if isinstance(v, VecRef):
        return v.val
    if isinstance(v, int) and v == 0:
        return Lin({})
    raise PathAbort(f"non-linear value {show(v)}")


class Fact(AbsVal):
    def __init__(self, model, val):
        self.model = model
        self.val = val

    def getattr(self, it, name):
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'solve':
            return self.model.solve(it, self.val, lin(args[0]))
        return NotImplemented


class StepModel:
    """World state seen by a step routine."""
    def __init__(self):
        self.nX = 0
        self.state_layout = '?'
        self.F_val = None
        self.F_valid = False
        self.solves = []
        self.errors = []
        self.scheduled = []
        self.gathered = False

    def X(self):
        return Lin({f"X{self.nX}": 1})

    def solve(self, it, A, rhs):
        self.solves.append((A, rhs, it.loc()))
        self.pending = f"X{self.nX + 1}"
        return VecRef(Lin({self.pending: 1}), 'solution')


class SubdataSys(AbsVal):
    """CoeffSystem stand-in: one buffer."""
    _n = 0

    def __init__(self):
        SubdataSys._n += 1
        self.ref = VecRef(None, f"sys{SubdataSys._n}")

    def __repr__(self):
        return f"<CoeffSystem {self.ref}>"

    def getattr(self, it, name):
        if name == 'data':
            return self.ref
        return NotImplemented

    def setattr(self, it, name, value):
        if name == 'data':
            if value is not self.ref:
                self.ref.val = lin(value)
            return None
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'get_subdata':
            return self.ref
        return NotImplemented


class FieldM(AbsVal):
    def __init__(self, model, kind):
        self.model, self.kind = model, kind

    def __repr__(self):
        return f"<{self.kind} field>"

    def callmethod(self, it, name, args, kwargs):
        if name in ('preset_layout', 'change_layout', 'require_layout', 'require_coeff_space', 'set_layout'):
            lay = 'c' if name == 'require_coeff_space' else (args[0] if args else None)
            if self.kind == 'state':
                self.model.state_layout = lay
            return None
        return NotImplemented


class EvalM(AbsVal):
    def __init__(self, model, solver):
        self.model, self.solver = model, solver

    def __repr__(self):
        return '<evaluator>'

    def _evalF(self, it):
        t = it.getattr(self.solver, 'sim_time')
        self.model.F_val = Lin({f"F[{self.model.nX}]": 1})
        self.model.F_time = t
        self.model.state_layout = '?'

    def callmethod(self, it, name, args, kwargs):
        m = self.model
        if name == 'require_coeff_space':
            for f in it.iterate(args[0]):
                if isinstance(f, FieldM) and f.kind == 'state':
                    m.state_layout = 'c'
            return None
        if name == 'evaluate_scheduled':
            m.scheduled.append(dict(kwargs))
            self._evalF(it)
            return None
        if name == 'evaluate_group':
            if args and args[0] == 'F':
                self._evalF(it)
            return None
        return NotImplemented


class SP(Obj):
    pass


class StepConfig(Config):
    max_steps = 200000
    max_paths = 64

    def __init__(self):
        self.model = None
        self.coefs = None

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'CoeffSystem':
            return SubdataSys()
        return NotImplemented

    def on_truth(self, it, v):
        # distinct coefficient symbols are distinct values
        if isinstance(v, Term) and v.op == 'cmp' and v.args[0] in ('==', '!='):
            a, b = v.args[1], v.args[2]
            if _purely_sym(a) and _purely_sym(b):
                eq = _symeq(a, b)
                return eq if v.args[0] == '==' else not eq
        return None

    def on_call(self, it, f, args, kwargs, node):
        name = f.args[0] if isinstance(f, Term) and f.op == 'ext' else None
        if name and name.endswith('get_blas_funcs'):
            return Native('axpy', axpy)
        if name in ('numpy.multiply', 'numpy.add', 'numpy.subtract'):
            out = kwargs.get('out', args[2] if len(args) > 2 else None)
            a, b = args[:2]
            op = {'numpy.multiply': '*', 'numpy.add': '+', 'numpy.subtract': '-'}[name]
            r = it.binop(op, a, b)
            if isinstance(out, (VecRef,)):
                out.val = lin(r)
                return out
            return r
        if name == 'numpy.copyto' and isinstance(args[0], VecRef):
            args[0].val = lin(args[1])
            return None
        if isinstance(f, Term) and f.op == 'attr' and isinstance(f.args[0], Obj):
            base, meth = f.args
            m = self.model
            if isinstance(base, SP):
                if meth == 'gather_inputs':
                    if m.state_layout != 'c':
                        m.errors.append(('gather', it.loc(), 'state gathered while not known to be in coefficient space'))
                    r = VecRef(m.X(), 'spX')
                    out = kwargs.get('out', args[1] if len(args) > 1 else None)
                    if isinstance(out, VecRef):
                        out.val = r.val
                        return out
                    return r
                if meth == 'gather_outputs':
                    if m.F_val is None:
                        m.errors.append(('Fgather', it.loc(), 'F gathered before evaluation'))
                        val = Lin({'F?': 1})
                    else:
                        val = m.F_val
                    m.F_times = getattr(m, 'F_times', {})
                    for k in val.d:
                        m.F_times[k] = getattr(m, 'F_time', None)
                    out = kwargs.get('out', args[1] if len(args) > 1 else None)
                    if isinstance(out, VecRef):
                        out.val = val
                        return out
                    return VecRef(val, 'F')
                if meth == 'scatter_inputs':
                    if m.state_layout != 'c':
                        m.errors.append(('scatter', it.loc(), 'state scattered while not known to be in coefficient space'))
                    v = lin(args[0])
                    if list(v.d.items()) == [(getattr(m, 'pending', None), 1)]:
                        m.nX += 1
                    else:
                        m.errors.append(('scatter', it.loc(), f'state set to {v}, not to the solution'))
                    return None
            if meth == 'matsolver':
                return Fact(m, lin(args[0]))
        if isinstance(f, Term) and f.op == 'sym' and f.args[0] == 'matsolver':
            return Fact(self.model, lin(args[0]))
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        n = clo.func.name
        if n == 'apply_sparse':
            p = clo.func.params()
            b = dict(zip(p, args))
            b.update(kwargs)
            r = matvec(lin(b['matrix'] if 'matrix' in b else args[0]), lin(b['array'] if 'array' in b else args[1]))
            out = b.get('out')
            if isinstance(out, VecRef):
                out.val = r
                return out
            return VecRef(r, 'tmp')
        if n == 'compute_coefficients' and self.coefs is not None:
            vals = [a for a in args if not (isinstance(a, (Obj, Class)))]
            b = dict(zip(clo.func.params()[1:], vals))
            b.update(kwargs)
            ps = clo.func.params()[1:]
            return self.coefs(it, list(b[ps[0]]), b[ps[1]])
        return NotImplemented

    def inline(self, it, func):
        return True


def axpy(it, x=None, y=None, a=1, **k):
    if not isinstance(y, VecRef):
        return NotImplemented
    y.val = y.val.add(lin(x).scale(a))
    return y


def _purely_sym(a):
    if isinstance(a, (int, sympy.Basic)) or a is None:
        return True
    if isinstance(a, Term) and a.op == 'tuple':
        return all(_purely_sym(x) for x in a.args)
    return False


def _symeq(a, b):
    if isinstance(a, Term) or isinstance(b, Term):
        if not (isinstance(a, Term) and isinstance(b, Term)) or len(a.args) != len(b.args):
            return False
        return all(_symeq(x, y) for x, y in zip(a.args, b.args))
    if a is None or b is None:
        return a is b
    return sympy.simplify(sympy.sympify(a) - sympy.sympify(b)) == 0


def make_world(it, model, expanded):
    solver = Obj(None, 'solver')
    X = FieldM(model, 'state')
    Ff = FieldM(model, 'F')
    sp = SP(None, 'sp')
    sp.attrs.update(size=5, M_min=VecRef(Lin({'M': 1}), 'M_min'), L_min=VecRef(Lin({'L': 1}), 'L_min'),
                    M_exp=VecRef(Lin({'M': 1}), 'M_exp'), L_exp=VecRef(Lin({'L': 1}), 'L_exp'),
                    LHS=VecRef(None, 'LHS'))
    solver.attrs.update(subproblems=[sp], state=[X], F=[Ff], sim_time=sympy.Symbol('t0'), dtype=sym('dtype'),
                        iteration=0, store_expanded_matrices=expanded, matsolver=sym('matsolver'))
    solver.attrs['evaluator'] = EvalM(model, solver)
    return solver, sp
