"""L01, second part: vector calculus operators assembled from partial derivatives, components and skews are those of their definitions."""
import itertools

import numpy as np
import sympy as sp

from ..interp import *
from ..nd import Const, NDConfig
from ._solver import judge

NAMES = ('Differentiate', 'CartesianComponent', 'DirectProductComponent', 'Component', 'CartCompBase', 'Gradient', 'Divergence', 'Laplacian', 'Skew', 'TransposeComponents', 'Trace', 'Dot', 'DotProduct', 'convert', 'Convert')
X = {n: sp.Symbol(n) for n in 'xyz'}


def names(it, cs):
    return [it.getattr(c, 'name') for c in it.iterate(it.getattr(cs, 'coords'))]


class Ten(AbsVal):
    """A tensor whose Cartesian components are known functions of the coordinates."""
    def __init__(self, it, ts, comps):
        self.ts, self.comps = tuple(ts), np.array(comps, dtype=object)

    def __repr__(self):
        return f"tensor{self.comps.shape}"

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is', '!=', 'is not'):
            return (self is other) == (op in ('==', 'is'))
        return NotImplemented

    def getattr(self, it, name):
        w = it.state['w']
        if name == 'tensorsig':
            return self.ts
        if name == 'dist':
            return w['dist']
        if name == 'domain':
            return w['domain']
        if name == 'dtype':
            return Const64
        if name == 'expression_matrices':
            return Native('expression_matrices', lambda it2, *a, **k: {})
        return NotImplemented

    def getitem(self, it, key):
        if key == 'g':
            return Comps(self)
        return NotImplemented

    def unop(self, it, op):
        return Ten(it, self.ts, -self.comps if op == '-' else self.comps)

    def binop(self, it, op, other, swapped):
        if not isinstance(other, Ten):
            if isinstance(other, NUM):
                if op == '*' or op == '/' and not swapped:
                    return Ten(it, self.ts, self.comps * (sp.sympify(other) if op == '*' else 1 / sp.sympify(other)))
                if op == '+' and other == 0:
                    return self
                if op == '-' and other == 0:
                    return Ten(it, self.ts, -self.comps if swapped else self.comps)
            return NotImplemented
        a, b = (other, self) if swapped else (self, other)
        if op in '+-':
            if a.ts != b.ts:
                raise RaiseSig('ValueError', 'different tensor signatures', it.loc())
            return Ten(it, a.ts, a.comps + b.comps if op == '+' else a.comps - b.comps)
        if op == '*':
            return Ten(it, a.ts + b.ts, np.multiply.outer(a.comps, b.comps))
        if op == '@':
            if a.ts[-1] is not b.ts[0]:
                raise RaiseSig('ValueError', 'contraction of different bundles', it.loc())
            return Ten(it, a.ts[:-1] + b.ts[1:], np.tensordot(a.comps, b.comps, axes=(a.comps.ndim - 1, 0)))
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == '__iop__':
            return self.binop(it, args[0], args[1], False)
        return NotImplemented


Const64 = Const(np.float64)


class Comps(AbsVal):
    def __init__(self, t):
        self.t = t

    def setitem(self, it, key, value):
        self.t.comps[key] = sp.sympify(value)

    def getitem(self, it, key):
        return self.t.comps[key]


def d(it, t, c):
    return Ten(it, t.ts, np.vectorize(lambda e: sp.diff(e, X[it.getattr(c, 'name')]), otypes=[object])(t.comps) if t.comps.size else t.comps)


def take(it, t, index, comp):
    cs = t.ts[index]
    all_, sub = names(it, cs), names(it, comp)
    k = [all_.index(n) for n in sub]
    index %= len(t.ts)
    if not it.state['cls'](cs, 'DirectProduct'):
        return Ten(it, t.ts[:index] + t.ts[index + 1:], np.take(t.comps, k[0], axis=index))
    return Ten(it, t.ts[:index] + (comp,) + t.ts[index + 1:], np.take(t.comps, k, axis=index))


def grad(it, t, cs):
    cc = list(it.iterate(it.getattr(cs, 'coords')))
    return Ten(it, (cs,) + t.ts, np.array([d(it, t, c).comps for c in cc], dtype=object))


def div(it, t, index=0):
    cc = list(it.iterate(it.getattr(t.ts[index], 'coords')))
    index %= len(t.ts)
    r = sum(d(it, Ten(it, (), np.take(t.comps, i, axis=index)), c).comps for i, c in enumerate(cc))
    return Ten(it, t.ts[:index] + t.ts[index + 1:], r)


def lap(it, t, cs):
    return Ten(it, t.ts, sum(d(it, d(it, t, c), c).comps for c in it.iterate(it.getattr(cs, 'coords'))))


def skew(it, t, index=0):
    index %= len(t.ts)
    c = np.moveaxis(t.comps, index, 0)
    return Ten(it, t.ts, np.moveaxis(np.array([-c[1], c[0]], dtype=object), 0, index))


class Cfg(NDConfig):
    max_paths = 16

    def on_new(self, it, cls, args, kwargs, node):
        f = {'Differentiate': lambda it, t, c, **k: d(it, t, c), 'CartesianComponent': lambda it, t, index=0, comp=None, **k: take(it, t, index, comp),
             'DirectProductComponent': lambda it, t, index=0, comp=None, **k: take(it, t, index, comp), 'CartCompBase': lambda it, t, index=0, comp=None, **k: take(it, t, index, comp),
             'Gradient': lambda it, t, cs=None, **k: grad(it, t, cs), 'Divergence': lambda it, t, index=0, **k: div(it, t, index), 'Laplacian': lambda it, t, cs=None, **k: lap(it, t, cs),
             'Skew': lambda it, t, index=0, **k: skew(it, t, index), 'Convert': lambda it, t, *a, **k: t,
             'CartesianGradient': lambda it, t, cs=None, **k: grad(it, t, cs), 'CartesianDivergence': lambda it, t, index=0, **k: div(it, t, index), 'CartesianLaplacian': lambda it, t, cs=None, **k: lap(it, t, cs),
             'CartesianSkew': lambda it, t, index=0, **k: skew(it, t, index)}.get(cls.name)
        if f and args and isinstance(args[0], Ten):
            kw = dict(kwargs)
            kw.pop('out', None)
            return f(it, *args, **{('cs' if k == 'coordsys' else k): v for k, v in kw.items()})
        if cls.name == 'Domain':
            return it.state['w']['domain']
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        if isinstance(f, Closure) and f.func.name == 'convert' and args and isinstance(args[0], Ten):
            return args[0]
        if isinstance(f, Closure) and f.func.name == '_build_bases':
            return ()
        return super().on_call(it, f, args, kwargs, node)

    def on_isinstance(self, it, value, cls):
        if isinstance(value, Ten) and isinstance(cls, Class):
            return cls.name in ('Operand', 'Field', 'Future', 'FutureField')
        return None


def setup(repo, it, coordsys):
    def vec(it2, cs, **k):
        return Ten(it2, (cs,), np.zeros(len(names(it2, cs)), dtype=object) * sp.Integer(1))

    def field(it2, **k):
        return Ten(it2, (), np.array(sp.Integer(0), dtype=object))

    def identity(it2, cin, cout=None, bases=None, dtype=None):
        cout = cin if cout is None else cout
        ni, no = names(it2, cin), names(it2, cout)
        return Ten(it2, (cout, cin), np.array([[sp.Integer(int(a == b)) for b in ni] for a in no], dtype=object))

    def axis(it2, c):
        n = names(it2, coordsys)
        return n.index(names(it2, c)[0])
    dist = Obj(None, 'dist', {'VectorField': Native('VectorField', vec), 'Field': Native('Field', field), 'IdentityTensor': Native('IdentityTensor', identity), 'get_axis': Native('get_axis', axis), 'grid_layout': None, 'coeff_layout': None, 'dim': 3, 'single_coordsys': coordsys})
    dom = Obj(None, 'domain', {'dist': dist, 'bases': (), 'get_basis': Native('get_basis', lambda it2, c: Obj(None, 'basis'))})
    it.state['w'] = {'dist': dist, 'domain': dom}
    it.state['cls'] = lambda v, n: isinstance(v, Obj) and v.cls is not None and any(k.name == n for k in v.cls.mro())


def tensor(it, ts, tag='f'):
    shape = tuple(len(names(it, c)) for c in ts)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = sp.Function(f"{tag}{''.join(map(str, i))}")(*X.values())
    return Ten(it, ts, a)


def run(repo, rep):
    def cs(it, cls, *a, **k):
        return it.call(repo.cls('core.coords', cls), list(a), k)

    def systems(it, kind):
        if kind.startswith('cart'):
            return cs(it, 'CartesianCoordinates', *'xyz'[:int(kind[4])], **({'right_handed': False} if kind.endswith('-') else {}))
        if kind == 'coord':
            return cs(it, 'Coordinate', 'x')
        h, z = cs(it, 'CartesianCoordinates', 'x', 'y'), cs(it, 'Coordinate', 'z')
        return cs(it, 'DirectProduct', *([h, z] if kind.startswith('hz') else [z, h]), **({'right_handed': False} if kind.endswith('-') else {}))

    plans = []
    for name, kinds in (('CartesianGradient', ('cart1', 'cart2', 'cart3', 'coord')), ('CartesianLaplacian', ('cart1', 'cart2', 'cart3', 'coord')), ('DirectProductGradient', ('hz', 'zh')), ('DirectProductLaplacian', ('hz', 'zh'))):
        plans += [(name, k, r, None) for k in kinds for r in (0, 1, 2)]
    for name, kinds in (('CartesianDivergence', ('cart1', 'cart2', 'cart3')), ('DirectProductDivergence', ('hz', 'zh'))):
        plans += [(name, k, r, i) for k in kinds for r in (1, 2, 3) for i in range(r)]
    plans += [('CartesianCurl', k, 1, 0) for k in ('cart3', 'cart3-')] + [('DirectProductCurl', k, 1, 0) for k in ('hz', 'zh', 'hz-', 'zh-')]
    for name, kind, rank, index in plans:
        cls = repo.cls('core.operators', name)
        init = cls.method('__init__')
        rep.count('vector calculus operators assembled')

        def go(it):
            c = systems(it, kind)
            setup(repo, it, c)
            other = c if 'Divergence' not in name else cs(it, 'CartesianCoordinates', 'x', 'y')
            ts = tuple(c if index is None or q == index else other for q in range(rank))
            t = tensor(it, ts)
            o = Obj(cls, name)
            it.call_func(Closure(init, None, o, init.cls), [o, t] + ([c] if index is None else []), {} if index is None else {'index': index})
            args = it.getattr(o, 'args')
            if it.getattr(o, 'operand') is not t:
                return f"has operand {show(it.getattr(o, 'operand'))}"
            if not all(isinstance(a, Ten) for a in args):
                return f"is assembled from {show(args)}"
            if name.endswith('Gradient'):
                sub = list(it.iterate(it.getattr(c, 'coordsystems'))) if name.startswith('Direct') else None
                parts = [a.comps if name.startswith('Direct') else a.comps[None] for a in args]
                if sub and [a.ts for a in args] != [(s,) + ts for s in sub]:
                    return "is assembled from gradients over other coordinates"
                got = np.concatenate(parts)
                want = grad(it, t, c)
                osig = tuple(it.iterate(it.getattr(o, 'tensorsig')))
                if len(osig) != rank + 1 or osig[1:] != ts or names(it, osig[0]) != names(it, c):
                    return f"has tensor signature {show(osig)}"
            else:
                if len(args) != 1:
                    return f"is assembled from {len(args)} parts"
                got = args[0].comps
                if name.endswith('Laplacian'):
                    want = lap(it, t, c)
                elif name.endswith('Divergence'):
                    want = div(it, t, index)
                else:
                    n = names(it, c)
                    D = lambda i, j: sp.diff(t.comps[i], X[n[j]])
                    w = np.array([D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)], dtype=object)
                    want = Ten(it, (c,), w if it.truth(it.getattr(c, 'right_handed')) else -w)
                if tuple(it.iterate(it.getattr(o, 'tensorsig'))) != want.ts:
                    return f"has tensor signature {show(it.getattr(o, 'tensorsig'))} instead of {show(want.ts)}"
            if got.shape != want.comps.shape:
                return f"has components of shape {got.shape} instead of {want.comps.shape}"
            for i in np.ndindex(*got.shape):
                if sp.expand(got[i] - want.comps[i]) != 0:
                    return f"has component {i} {got[i]} instead of {want.comps[i]}"
            return None
        judge(repo, rep, go, init, f"{name} of rank {rank}{f', index {index}' if index is not None else ''} over {kind}", f"L01|{name} parts", cfg=Cfg)
    rep.floor('vector calculus operators assembled', 50)
