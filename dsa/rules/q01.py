"""Bases with equal parameters are interchangeable, and combining bases keeps their geometry.

Coordinates and bases are constructed by interpreting their own classes
(construction is memoised on canonical arguments, as the caching metaclass
does), on families of arguments that differ in one parameter, in size and in
weight.  Equality, cloning, sums, products and NCC products of all pairs, the
bases derived from a basis, the named Jacobi families and the coordinate
maps are compared with their definitions.
"""
import ast
import itertools

import numpy as np

from ..interp import *
from ..nd import NDConfig, ND, Const, NotConcrete, unwrap, wrap
from ._solver import judge

ASSUMPTIONS = ["constructed bases are cached on their canonical arguments (property K01)", "transform libraries exist under the names used"]

LIB = {'Jacobi': ('library',), 'RealFourier': ('library',), 'ComplexFourier': ('library',), 'AnnulusBasis': ('azimuth_library', 'radius_library'), 'DiskBasis': ('azimuth_library', 'radius_library'),
       'SphereBasis': ('azimuth_library', 'colatitude_library'), 'ShellBasis': ('azimuth_library', 'colatitude_library', 'radius_library'), 'BallBasis': ('azimuth_library', 'colatitude_library', 'radius_library'),
       'ShellRadialBasis': ('radius_library',), 'BallRadialBasis': ('radius_library',)}


def cache_hooks(repo):
    """Methods of the instances' classes through which the caching metaclass makes arguments canonical."""
    meta = repo.cls('tools.cache', 'CachedClass')
    called = [n.func.attr for f in meta.methods.values() for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)]
    jac = repo.cls('core.basis', 'Jacobi')
    return [h for h in dict.fromkeys(called) if h in jac.methods and not h.startswith('__')]


class Cfg(NDConfig):
    max_paths = 4

    def on_new(self, it, cls, args, kwargs, node):
        if not any(k.name == 'Basis' for k in cls.mro()):
            return NotImplemented
        init = cls.method('__init__')
        a = init.node.args
        names = [x.arg for x in a.args][1:]
        if len(args) > len(names):
            raise RaiseSig('TypeError', f"{cls.name} takes {len(names)} arguments", it.loc())
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in names or k in vals:
                raise RaiseSig('TypeError', f"{cls.name} got an unexpected argument {k}", it.loc())
            vals[k] = v
        fr = Frame(None, init.module, {}, cls)
        it.frames.append(fr)
        try:
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                if n not in vals:
                    vals[n] = it.eval(d)
        finally:
            it.frames.pop()
        for n in names:
            if n not in vals:
                raise RaiseSig('TypeError', f"{cls.name} missing argument {n}", it.loc())
        full = [vals[n] for n in names]
        hook = next((h for h in cache_hooks(it.repo) if cls.method(h)), None)
        if hook and any(k.keywords for k in [c.node for c in cls.mro()]):
            pre = it.getattr(cls, hook)
            full = list(it.iterate(it.call(pre, full, {})))
        key = (cls.name, repr([show(freeze(x)) for x in full]))
        memo = it.state.setdefault('instances', {})
        if key not in memo:
            o = Obj(cls, f"{cls.name}({', '.join(show(x) for x in full)})")
            o.closed = True
            it.call_func(Closure(init, None, o, init.cls), [o, *full], {})
            memo[key] = o
        return memo[key]

    def on_call(self, it, f, args, kwargs, node):
        if show(f) == 'inspect.getfullargspec':
            g = args[0]
            if isinstance(g, Closure):
                a = g.func.node.args
                return ([x.arg for x in a.args], None, None, None, [], None, {})
        return super().on_call(it, f, args, kwargs, node)


def plain(x):
    """Concrete Python value, for comparison."""
    if isinstance(x, (tuple, list)):
        return tuple(plain(e) for e in x)
    try:
        v = unwrap(x)
    except NotConcrete:
        return x
    if isinstance(v, np.ndarray):
        return tuple(plain(e) for e in v.tolist())
    if isinstance(v, (tuple, list)):
        return tuple(plain(e) for e in v)
    if isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
        return float(v)
    if hasattr(v, 'is_number') and v.is_number:
        return float(v)
    return v


class World:
    def __init__(self, repo, it):
        self.repo, self.it = repo, it
        self.coords = {}

    def cs(self, cls, *names):
        return self.it.call(self.repo.cls('core.coords', cls), list(names), {})

    def new(self, cls, **kw):
        return self.it.call(self.repo.cls('core.basis', cls), [], {k: wrapv(v) for k, v in kw.items()})


def wrapv(v):
    if isinstance(v, (Obj, type(None), str, bool)) or isinstance(v, int):
        return v
    if isinstance(v, tuple):
        return tuple(wrapv(x) for x in v)
    if isinstance(v, float):
        return symfloat(v)
    return wrap(v)


def params(cls_node):
    return [x.arg for x in cls_node.args.args][1:]


F, C = np.float64, np.complex128

# class -> (coordinates, base arguments, alternatives per parameter)
FAMILIES = {
    'Jacobi': (('Coordinate', 'x'), dict(size=8, bounds=(0, 2), a=0, b=0.5, a0=-0.5, b0=0, dealias=(1.5,), library='matrix'),
               dict(size=[12], bounds=[(0, 3), (-1, 2)], a=[1], b=[1.5], a0=[0.5], b0=[1], dealias=[(1,)], library=['other'])),
    'RealFourier': (('Coordinate', 'x'), dict(size=8, bounds=(0, 2), dealias=(1.5,), library='matrix'), dict(size=[12], bounds=[(0, 3), (-1, 2)], dealias=[(1,)], library=['other'])),
    'ComplexFourier': (('Coordinate', 'x'), dict(size=8, bounds=(0, 2), dealias=(1.5,), library='matrix'), dict(size=[12], bounds=[(0, 3), (-1, 2)], dealias=[(1,)], library=['other'])),
    'AnnulusBasis': (('PolarCoordinates', 'phi', 'r'), dict(shape=(8, 6), dtype=F, radii=(1, 3), k=1, alpha=(0, 0.5), dealias=(1.5, 2), azimuth_library='matrix', radius_library='matrix'),
                     dict(shape=[(12, 6), (8, 9)], dtype=[C], radii=[(1, 2), (2, 3)], k=[0, 2], alpha=[(0, 0), (0.5, 0.5)], dealias=[(1, 2), (1.5, 1)], azimuth_library=['other'], radius_library=['other'])),
    'DiskBasis': (('PolarCoordinates', 'phi', 'r'), dict(shape=(8, 6), dtype=F, radius=2, k=1, alpha=0.5, dealias=(1.5, 2), azimuth_library='matrix', radius_library='matrix'),
                  dict(shape=[(12, 6), (8, 9)], dtype=[C], radius=[3], k=[0, 2], alpha=[0, 1], dealias=[(1, 2), (1.5, 1)], azimuth_library=['other'], radius_library=['other'])),
    'SphereBasis': (('S2Coordinates', 'phi', 'theta'), dict(shape=(8, 6), dtype=F, radius=2, dealias=(1.5, 2), azimuth_library='matrix', colatitude_library='matrix'),
                    dict(shape=[(12, 6), (8, 9)], dtype=[C], radius=[3], dealias=[(1, 2), (1.5, 1)], azimuth_library=['other'], colatitude_library=['other'])),
    'ShellBasis': (('SphericalCoordinates', 'phi', 'theta', 'r'), dict(shape=(8, 6, 5), dtype=F, radii=(1, 3), k=1, alpha=(0, 0.5), dealias=(1.5, 2, 1.25), azimuth_library='matrix', colatitude_library='matrix', radius_library='matrix'),
                   dict(shape=[(12, 6, 5), (8, 9, 5), (8, 6, 7)], dtype=[C], radii=[(1, 2), (2, 3)], k=[0, 2], alpha=[(0, 0), (0.5, 0.5)], dealias=[(1, 2, 1.25), (1.5, 1, 1.25), (1.5, 2, 1)],
                        azimuth_library=['other'], colatitude_library=['other'], radius_library=['other'])),
    'BallBasis': (('SphericalCoordinates', 'phi', 'theta', 'r'), dict(shape=(8, 6, 5), dtype=F, radius=2, k=1, alpha=0.5, dealias=(1.5, 2, 1.25), azimuth_library='matrix', colatitude_library='matrix', radius_library='matrix'),
                  dict(shape=[(12, 6, 5), (8, 9, 5), (8, 6, 7)], dtype=[C], radius=[3], k=[0, 2], alpha=[0, 1], dealias=[(1, 2, 1.25), (1.5, 1, 1.25), (1.5, 2, 1)],
                       azimuth_library=['other'], colatitude_library=['other'], radius_library=['other'])),
    'ShellRadialBasis': (('SphericalCoordinates', 'phi', 'theta', 'r'), dict(radial_size=6, dtype=F, radii=(1, 3), k=1, alpha=(0, 0.5), dealias=(1, 1, 1.5), radius_library='matrix'),
                         dict(radial_size=[9], radii=[(1, 2), (2, 3)], k=[0, 2], alpha=[(0, 0), (0.5, 0.5)], dealias=[(1, 1, 2)])),
    'BallRadialBasis': (('SphericalCoordinates', 'phi', 'theta', 'r'), dict(radial_size=6, dtype=F, radius=2, k=1, alpha=0.5, dealias=(1, 1, 1.5), radius_library='matrix'),
                        dict(radial_size=[9], radius=[3], k=[0, 2], alpha=[0, 1], dealias=[(1, 1, 2)])),
}
SIZE = {'Jacobi': 'size', 'RealFourier': 'size', 'ComplexFourier': 'size', 'ShellRadialBasis': 'radial_size', 'BallRadialBasis': 'radial_size'}
WEIGHT = {'Jacobi': ('a', 'b'), 'AnnulusBasis': ('k',), 'DiskBasis': ('k',), 'ShellBasis': ('k',), 'BallBasis': ('k',), 'ShellRadialBasis': ('k',), 'BallRadialBasis': ('k',), 'RealFourier': (), 'ComplexFourier': (), 'SphereBasis': ()}


def get(it, b, names):
    return {n: plain(it.getattr(b, n)) for n in names}


def eq(it, a, b):
    r = it.compare('==', a, b)
    return it.truth(r)


def coordname(it, c):
    return 'coord' if it.state['coordkey'] == 'coord' else 'coordsys'


def make(it, w, name, cs, kw):
    ck = 'coord' if FAMILIES[name][0][0] == 'Coordinate' else 'coordsys'
    return w.new(name, **{ck: cs}, **kw)


def describe(d):
    return ', '.join(f"{k}={v if not isinstance(v, type) else v.__name__}" for k, v in d.items())


def cases(name, base, alts):
    yield None, base
    for p, vs in alts.items():
        for v in vs:
            yield p, {**base, p: v}


def identity(repo, rep):
    """Equality and cloning."""
    for name, (cs, base, alts) in FAMILIES.items():
        cls = repo.cls('core.basis', name)
        f = cls.method('__eq__') or cls.method('__init__')
        pnames = list(base)
        for p, kw in cases(name, base, alts):
            rep.count('bases compared')

            def go(it):
                w = World(repo, it)
                c1, c2 = w.cs(*cs), w.cs(*cs)
                c3 = w.cs(cs[0], *[n + '_other' for n in cs[1:]])
                x, y = make(it, w, name, c1, base), make(it, w, name, c1, kw)
                have = get(it, y, pnames)
                for q in pnames:
                    if have[q] != plain(wrapv(kw[q])):
                        return f"has {q} = {have[q]} for the argument {kw[q]}"
                if it.truth(it.compare('==', x, None)) or it.truth(it.compare('==', x, 0)):
                    return "equals None or a number"
                if eq(it, x, y) != (p is None) or eq(it, y, x) != (p is None) or it.truth(it.compare('!=', x, y)) == (p is None):
                    return f"compares {'un' if p is None else ''}equal to the basis with other {p}" if p else "differs from the basis with the same parameters"
                if p is None:
                    if eq(it, x, make(it, w, name, c3, base)):
                        return "equals the basis of other coordinates"
                    if cs[0] != 'Coordinate' and not eq(it, x, make(it, w, name, c2, base)):
                        return "differs from the basis of equal coordinates"
                    for other, (ocs, okw, _) in FAMILIES.items():
                        if other != name and ocs == cs and (eq(it, x, make(it, w, other, c1, okw)) or eq(it, make(it, w, other, c1, okw), x)):
                            return f"equals a {other}"
                # cloning
                if p is not None:
                    z = it.call(it.getattr(x, 'clone_with'), [], {p: wrapv(kw[p])})
                    if z.cls is not cls:
                        return f"clones to a {z.cls.name}"
                    g = get(it, z, pnames)
                    for q in pnames:
                        if g[q] != plain(wrapv(kw[q])):
                            return f"cloned with another {p} has {q} = {g[q]} instead of {kw[q]}"
                    if not eq(it, z, y):
                        return f"cloned with another {p} differs from the basis constructed with it"
                    if it.getattr(z, 'coords') is not it.getattr(x, 'coords'):
                        return "clones to other coordinates"
                else:
                    if not eq(it, it.call(it.getattr(x, 'clone_with'), [], {}), x):
                        return "differs from its clone"
                if p in ('k', None) and 'k' in base and cls.method('_new_k'):
                    z = it.call(it.getattr(x, '_new_k'), [wrapv(kw['k'])], {})
                    if not eq(it, z, y):
                        return "differs from the basis constructed with its weight"
                return None
            judge(repo, rep, go, f, f"{name} with {describe(base)} and {p or 'nothing'} changed" + (f" to {kw[p]}" if p else ''), f"Q01|{name} identity", cfg=Cfg)


def combine(it, op, a, b):
    """Result of a binary operation, or the name of the exception it raises."""
    try:
        if op == '@':
            # NCC (left) on operand (right), as arithmetic does
            r = it.call(it.getattr(a, '__matmul__'), [b], {}) if isinstance(a, Obj) else it.call(it.getattr(b, '__rmatmul__'), [a], {})
            if r is NotImplemented or show(r) == 'NotImplemented':
                return 'TypeError'
            return r
        r = it.binop(op, a, b)
        return 'TypeError' if r is NotImplemented or show(r) == 'NotImplemented' else r
    except RaiseSig as e:
        return e.name


def maxshape(a, b):
    return tuple(max(x, y) for x, y in zip(a, b)) if isinstance(a, tuple) else max(a, b)


def algebra(repo, rep):
    """Sums, products and NCC products of pairs."""
    for name, (cs, base, alts) in FAMILIES.items():
        cls = repo.cls('core.basis', name)
        size = SIZE.get(name, 'shape')
        weights = WEIGHT[name]
        fourier = 'Fourier' in name
        sizes = [base[size]] + alts[size]
        fixed = [q for q in base if q != size and q not in weights]
        variants = []
        for s in sizes:
            for ws in itertools.product(*[[base[q]] + alts[q] for q in weights]):
                variants.append({**base, size: s, **dict(zip(weights, ws))})
        for op, meth in (('+', '__add__'), ('*', '__mul__'), ('@', '__rmatmul__')):
            f = cls.method(meth)
            for i, ka in enumerate(variants):
                rep.count('combinations', len(variants))

                def go(it):
                    w = World(repo, it)
                    c = w.cs(*cs)
                    a = make(it, w, name, c, ka)
                    for none in (combine(it, op, a, None), combine(it, op, None, a)):
                        if not isinstance(none, Obj) or not eq(it, none, a) and not (op == '*' and name == 'Jacobi'):
                            return f"combined with no basis gives {show(none)}"
                    for kb in variants:
                        b = make(it, w, name, c, kb)
                        r = combine(it, op, a, b)
                        pair = f"with {describe({q: kb[q] for q in (size, *weights)})}"
                        if fourier:
                            if ka == kb and r is not a or ka != kb and r != 'TypeError':
                                return f"{pair}: gives {show(r)}"
                            continue
                        if not isinstance(r, Obj):
                            if op == '@' and name in ('ShellBasis',) and r == 'ValueError' and ka['shape'][0] != 1:
                                continue
                            return f"{pair}: gives {show(r)}"
                        if r.cls is not cls:
                            return f"{pair}: gives a {r.cls.name}"
                        g = get(it, r, list(base))
                        for q in fixed:
                            if g[q] != plain(wrapv(base[q])):
                                return f"{pair}: has {q} = {g[q]} instead of {base[q]}"
                        if op == '@' and name in ('BallBasis', 'ShellBasis'):
                            want = kb[size]
                        else:
                            want = maxshape(ka[size], kb[size])
                        if g[size] != plain(want):
                            return f"{pair}: has {size} {g[size]} instead of {want}"
                        for q in weights:
                            v, x, y = g[q], plain(ka[q]), plain(kb[q])
                            if op == '+' and v != max(x, y):
                                return f"{pair}: has {q} = {v} instead of {max(x, y)}"
                            if op == '@' and v < y:
                                return f"{pair}: has {q} = {v}, below the operand's {y}"
                            if op in '*@' and name in ('AnnulusBasis', 'ShellBasis', 'ShellRadialBasis') and v != x + y:
                                return f"{pair}: has {q} = {v} instead of {x + y}, so that the radial prefactors do not multiply"
                            if op == '*' and name == 'Jacobi' and a is not b and not min(x, y, base[q + '0']) <= v <= max(x, y, base[q + '0']):
                                return f"{pair}: has {q} = {v}"
                        if op != '@':
                            r2 = combine(it, op, b, a)
                            if not isinstance(r2, Obj) or not eq(it, r, r2):
                                return f"{pair}: depends on the order"
                        if op == '+' and ka == kb and r is not a:
                            return f"{pair}: gives another basis for equal bases"
                    return None
                judge(repo, rep, go, f, f"{name} ({describe({q: ka[q] for q in (size, *weights)})}) {op}", f"Q01|{name} {op}", cfg=Cfg)
            # other geometry is refused
            for q in fixed:
                for v in alts.get(q, ()):
                    rep.count('combinations refused')

                    def go(it):
                        w = World(repo, it)
                        c = w.cs(*cs)
                        a, b = make(it, w, name, c, base), make(it, w, name, c, {**base, q: v})
                        for x, y in ((a, b), (b, a)):
                            r = combine(it, op, x, y)
                            if op == '@' and isinstance(r, Obj) and name == 'BallBasis' and (q in ('dtype', 'azimuth_library', 'colatitude_library', 'radius_library') or q == 'dealias' and v[2] == base['dealias'][2]):
                                continue   # only the radial parameters are combined
                            if not isinstance(r, str):
                                return f"gives {show(r)}"
                        return None
                    judge(repo, rep, go, f, f"{name} {op} with {q} {base[q]} and {v}", f"Q01|{name} {op} geometry", cfg=Cfg)

            def go(it):
                w = World(repo, it)
                c, d = w.cs(*cs), w.cs(cs[0], *[n + '_other' for n in cs[1:]])
                a, b = make(it, w, name, c, base), make(it, w, name, d, base)
                for x, y in ((a, b), (b, a)):
                    r = combine(it, op, x, y)
                    if not isinstance(r, str):
                        return f"gives {show(r)}"
                return None
            judge(repo, rep, go, f, f"{name} {op} of different coordinates", f"Q01|{name} {op} geometry", cfg=Cfg)


def run(repo, rep):
    rep.rule(' '.join(__doc__.split()))
    identity(repo, rep)
    algebra(repo, rep)
    from . import _q01
    _q01.run(repo, rep)
    rep.floor('bases compared', 80)
    rep.floor('combinations', 1500)
    rep.floor('combinations refused', 150)
    rep.floor('bases whose derived bases are examined', 80)
    rep.floor('products of different classes', 60)
    rep.floor('named families', 80)
    rep.floor('arguments refused', 40)
    rep.floor('coordinate maps', 6)
