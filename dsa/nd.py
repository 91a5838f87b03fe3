"""Arrays of concrete labels.

`ND` is an abstract value carrying an array of element labels (or numbers).
Indexing, broadcasting, reshaping and arithmetic of arrays of labels follow
the semantics of the array library, so the place where every element ends up
is known exactly.  Repository code is only interpreted.
"""
import numpy as np
import operator as _op
import scipy.sparse
import sympy
from .interp import *
from .interp import _PYOPS, _PYCMP, NUM


class NotConcrete(ValueError):
    pass


class Const(AbsVal):
    """A library object passed around unchanged (a dtype, for example)."""
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return str(self.v)

    def __eq__(self, o):
        return isinstance(o, Const) and o.v == self.v

    def __hash__(self):
        return hash(str(self.v))

    def truth(self, it):
        return bool(self.v)

    def compare(self, it, op, other, swapped):
        try:
            o = unwrap(other)
        except NotConcrete:
            return NotImplemented
        if op in ('==', 'is', '!=', 'is not'):
            return (self.v == o) == (op in ('==', 'is'))
        return NotImplemented

    def getitem(self, it, key):
        try:
            return wrap(self.v[unwrap(key)])
        except (TypeError, KeyError, NotConcrete):
            return NotImplemented

    def getattr(self, it, name):
        try:
            return wrap(getattr(self.v, name))
        except (AttributeError, NotConcrete):
            return NotImplemented


def unwrap(v):
    if isinstance(v, (ND, SP)):
        return v.a
    if isinstance(v, Const):
        return v.v
    if v is None or v is Ellipsis or isinstance(v, (bool, int, float, complex, str, np.generic)):
        return v
    if isinstance(v, sympy.Basic):
        if v in (sympy.oo, -sympy.oo):
            return float(v)
        if isinstance(v, sympy.Integer):
            return int(v)
        if v.is_number:
            c = complex(v)
            return c.real if c.imag == 0 else c
        raise NotConcrete(v)
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            return v
        x = [unwrap(y) for y in v.ravel()]
        if any(isinstance(y, (AbsVal, Term, Obj)) for y in x):
            raise NotConcrete(v)
        if not x:
            return np.zeros(v.shape, dtype=int)
        return np.array(x).reshape(v.shape)
    if isinstance(v, Generic):
        raise NotConcrete(v)
    if isinstance(v, tuple):
        return tuple(unwrap(x) for x in v)
    if isinstance(v, list):
        return [unwrap(x) for x in v]
    if isinstance(v, dict):
        return {k: unwrap(x) for k, x in v.items()}
    if isinstance(v, range):
        return v
    if isinstance(v, slice):
        return slice(unwrap(v.start), unwrap(v.stop), unwrap(v.step))
    if isinstance(v, Native) and v.name in _EXT:
        return _EXT[v.name]
    if isinstance(v, Term) and v.op == 'ext':
        r = ext_obj(v.args[0])
        if r is not None:
            return r
    raise NotConcrete(v)


_EXT = {'float': float, 'int': int, 'complex': complex, 'bool': bool, 'object': object}


def ext_obj(name):
    if name in _EXT:
        return _EXT[name]
    if name.startswith(('numpy.', 'scipy.sparse.')):
        o = np if name.startswith('numpy.') else scipy
        for part in name.split('.')[1:]:
            o = getattr(o, part, None)
            if o is None:
                return None
        return o
    return None


def wrap(r):
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    if isinstance(r, (int, np.integer)):
        return int(r)
    if isinstance(r, (float, complex, np.floating, np.complexfloating)):
        return ND(np.asarray(r)[()])
    if isinstance(r, np.ndarray):
        return ND(r)
    if r is None or isinstance(r, str):
        return r
    if scipy.sparse.issparse(r):
        return SP(r)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, dict):
        return {k: wrap(x) for k, x in r.items()}
    if isinstance(r, (np.dtype, type)):
        return Const(r)
    if isinstance(r, slice):
        return r
    raise NotConcrete(r)


def _guard(it, f):
    try:
        with np.errstate(all='ignore'):
            return wrap(f())
    except NotConcrete:
        return NotImplemented
    except IndexError as e:
        raise RaiseSig('IndexError', str(e), it.loc())
    except (ValueError, TypeError, NotImplementedError, np.linalg.LinAlgError) as e:
        raise RaiseSig(type(e).__name__, str(e), it.loc())
    except AttributeError:
        return NotImplemented


class ND(AbsVal):
    def __init__(self, a):
        self.a = a

    def __repr__(self):
        if np.ndim(self.a) == 0:
            return str(self.a)
        if np.size(self.a) <= 64:
            return f"array({np.asarray(self.a).tolist()})"
        return f"array{np.shape(self.a)}#{hash(np.asarray(self.a).tobytes()) & 0xffffff:x}"

    def truth(self, it):
        try:
            return bool(self.a)
        except ValueError:
            raise RaiseSig('ValueError', 'truth value of an array', it.loc())

    def getattr(self, it, name):
        if name in ('shape', 'size', 'ndim', 'dtype', 'T', 'real', 'imag', 'flat', 'itemsize', 'nbytes', 'strides', 'flags', 'base'):
            if name == 'flat':
                return ND(self.a.ravel())
            if name == 'flags':
                return Const(self.a.flags)
            r = getattr(self.a, name)
            if isinstance(r, np.ndarray):
                return ND(r)
            return _guard(it, lambda: r)
        return NotImplemented

    def setattr(self, it, name, value):
        if name in ('real', 'imag', 'shape'):
            try:
                setattr(self.a, name, unwrap(value))
            except NotConcrete:
                raise PathAbort(f'unknown value {show(value)}')
            return None
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == '__iop__':
            op, val = args
            if not isinstance(self.a, np.ndarray):
                return NotImplemented
            try:
                v = unwrap(val)
            except NotConcrete:
                return NotImplemented
            f = {'+': _op.iadd, '-': _op.isub, '*': _op.imul, '/': _op.itruediv, '//': _op.ifloordiv, '%': _op.imod, '**': _op.ipow, '@': _op.imatmul, '&': _op.iand, '|': _op.ior, '^': _op.ixor, '<<': _op.ilshift, '>>': _op.irshift}[op]
            try:
                with np.errstate(all='ignore'):
                    f(self.a, v)
            except (ValueError, TypeError) as e:
                raise RaiseSig(type(e).__name__, str(e), it.loc())
            return self
        if name == '__len__':
            return _guard(it, lambda: len(self.a))
        if name.startswith('__'):
            return NotImplemented
        if not hasattr(self.a, name):
            return NotImplemented
        try:
            a, k = unwrap(list(args)), unwrap(dict(kwargs))
        except NotConcrete:
            return NotImplemented
        return _guard(it, lambda: getattr(self.a, name)(*a, **k))

    def getitem(self, it, key):
        try:
            k = unwrap(key)
        except NotConcrete:
            return NotImplemented
        return _guard(it, lambda: self.a[k])

    def setitem(self, it, key, value):
        try:
            k, v = unwrap(key), unwrap(value)
        except NotConcrete:
            raise PathAbort(f'store of {show(value)} at {show(key)}')
        try:
            self.a[k] = v
        except IndexError as e:
            raise RaiseSig('IndexError', str(e), it.loc())
        except (ValueError, TypeError) as e:
            raise RaiseSig(type(e).__name__, str(e), it.loc())
        return None

    def binop(self, it, op, other, swapped):
        try:
            o = unwrap(other)
        except NotConcrete:
            return NotImplemented
        f = _PYOPS[op]
        return _guard(it, lambda: f(o, self.a) if swapped else f(self.a, o))

    def unop(self, it, op):
        return _guard(it, lambda: {'-': _op.neg, '+': _op.pos, '~': _op.invert}[op](self.a))

    def compare(self, it, op, other, swapped):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        try:
            o = unwrap(other)
        except NotConcrete:
            return NotImplemented
        if op in ('in', 'not in'):
            if swapped:
                return bool((o in self.a) == (op == 'in'))
            return NotImplemented
        f = _PYCMP[op]
        return _guard(it, lambda: f(o, self.a) if swapped else f(self.a, o))

    def iterate(self, it):
        if not isinstance(self.a, np.ndarray) or self.a.ndim == 0:
            raise RaiseSig('TypeError', 'iteration over a scalar', it.loc())
        return [wrap(x) for x in self.a]


class SP(AbsVal):
    """Sparse matrix of labels."""
    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return f"sparse{self.a.shape}"

    def truth(self, it):
        try:
            return bool(self.a)
        except ValueError:
            raise RaiseSig('ValueError', 'truth value of a matrix', it.loc())

    def getattr(self, it, name):
        if name in ('shape', 'nnz', 'ndim', 'dtype', 'T', 'H', 'data', 'indices', 'indptr', 'row', 'col', 'format', 'size', 'has_canonical_format', 'has_sorted_indices', 'real', 'imag', 'offsets', 'blocksize'):
            return _guard(it, lambda: getattr(self.a, name))
        return NotImplemented

    def setattr(self, it, name, value):
        if name in ('data', 'indices', 'indptr', 'row', 'col'):
            try:
                setattr(self.a, name, unwrap(value))
            except NotConcrete:
                raise PathAbort(f'unknown value {show(value)}')
            return None
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == '__iop__':
            return self.binop(it, args[0], args[1], False)
        if name.startswith('__') or not callable(getattr(self.a, name, None)):
            return NotImplemented
        try:
            a, k = unwrap(list(args)), unwrap(dict(kwargs))
        except NotConcrete:
            return NotImplemented
        return _guard(it, lambda: getattr(self.a, name)(*a, **k))

    def getitem(self, it, key):
        try:
            k = unwrap(key)
        except NotConcrete:
            return NotImplemented
        return _guard(it, lambda: self.a[k])

    def setitem(self, it, key, value):
        try:
            k, v = unwrap(key), unwrap(value)
        except NotConcrete:
            raise PathAbort(f'store of {show(value)} at {show(key)}')
        self.a[k] = v
        return None

    def binop(self, it, op, other, swapped):
        try:
            o = unwrap(other)
        except NotConcrete:
            return NotImplemented
        f = _PYOPS[op]
        return _guard(it, lambda: f(o, self.a) if swapped else f(self.a, o))

    def unop(self, it, op):
        return _guard(it, lambda: {'-': _op.neg, '+': _op.pos}[op](self.a))

    def compare(self, it, op, other, swapped):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        try:
            o = unwrap(other)
        except NotConcrete:
            return NotImplemented
        f = _PYCMP[op]
        return _guard(it, lambda: f(o, self.a) if swapped else f(self.a, o))


def has_nd(v):
    if isinstance(v, (ND, SP)):
        return True
    if isinstance(v, (list, tuple)):
        return any(has_nd(x) for x in v)
    if isinstance(v, dict):
        return any(has_nd(x) for x in v.values())
    return False


_SAFE = ('numpy.',)
_DENY = ('numpy.save', 'numpy.load', 'numpy.random', 'numpy.fromfile', 'numpy.memmap', 'numpy.genfromtxt', 'numpy.savetxt', 'numpy.loadtxt')
_IDX = {'numpy.mgrid': np.mgrid, 'numpy.ogrid': np.ogrid, 'numpy.r_': np.r_, 'numpy.c_': np.c_, 'numpy.s_': np.s_}


class NDConfig(Config):
    """Arrays are label arrays wherever the values are known."""
    lazy_generators = True

    def on_call(self, it, f, args, kwargs, node):
        if isinstance(f, Term) and f.op == 'ext' and isinstance(f.args[0], str):
            return self.nd_call(it, f.args[0], args, kwargs)
        if isinstance(f, Term) and f.op == 'attr' and show(f.args[0]) in _IDX:
            return self.nd_index(it, show(f.args[0]), args[0])
        if isinstance(f, Term) and f.op == 'attr' and show(f).startswith('scipy.sparse.'):
            return self.nd_call(it, show(f), args, kwargs)
        if isinstance(f, Const) and callable(f.v):
            try:
                a, k = unwrap(list(args)), unwrap(dict(kwargs))
            except NotConcrete:
                return NotImplemented
            return _guard(it, lambda: f.v(*a, **k))
        return NotImplemented

    def nd_index(self, it, name, key):
        try:
            k = unwrap(key)
        except NotConcrete:
            return NotImplemented
        return _guard(it, lambda: _IDX[name][k])

    def on_getitem(self, it, base, key):
        if isinstance(base, Term) and base.op in ('ext', 'attr') and show(base) in _IDX:
            return self.nd_index(it, show(base), key)
        return NotImplemented

    def nd_call(self, it, name, args, kwargs):
        if name in ('float', 'complex') and args:
            try:
                return wrap(_EXT[name](*[unwrap(a) for a in args]))
            except (NotConcrete, TypeError, ValueError):
                return NotImplemented
        if name.endswith('.__getitem__') and name[:-12] in _IDX:
            return self.nd_index(it, name[:-12], args[0])
        if not name.startswith(('numpy.', 'scipy.sparse.')) or name.startswith(_DENY):
            return NotImplemented
        if name == 'numpy.prod' and not any(has_nd(a) for a in args):
            return NotImplemented
        try:
            a, k = unwrap(list(args)), unwrap(dict(kwargs))
        except NotConcrete:
            return NotImplemented
        fn = ext_obj(name)
        if not callable(fn):
            return NotImplemented
        r = _guard(it, lambda: fn(*a, **k))
        if kwargs.get('out') is not None and isinstance(kwargs['out'], ND):
            return kwargs['out']
        return r

    def on_native(self, it, name, args, kwargs):
        import builtins
        fn = getattr(builtins, name, None)
        if fn is None or not any(has_nd(x) for x in args) or name in ('getattr', 'setattr', 'isinstance', 'hasattr', 'print', 'map', 'filter', 'zip', 'enumerate'):
            return NotImplemented
        try:
            a, k = unwrap(list(args)), unwrap(dict(kwargs))
        except NotConcrete:
            return NotImplemented
        return _guard(it, lambda: fn(*a, **k))
