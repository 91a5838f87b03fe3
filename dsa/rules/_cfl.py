"""Grid-crossing frequencies of every coordinate system (part of V01)."""
import itertools
import math
import numpy as np
from ..interp import *
from ..nd import ND, NDConfig, unwrap, wrap, NotConcrete
from ..repo import AnalysisBroken, Class
from .a01 import metaclass


def P(f):
    return Native('model', f)


def num(x):
    return wrap(np.float64(x))


class Grid:
    """Points per axis; one axis split between two processes."""
    def __init__(self, sizes, split, rank):
        self.sizes, self.split, self.rank = sizes, split, rank

    def elements(self, axis):
        n = self.sizes[axis]
        if axis != self.split:
            return np.arange(n)
        h = -(-n // 2)
        return np.arange(h) if self.rank == 0 else np.arange(h, n)


def along(v, axis, dim):
    s = [1] * dim
    s[axis] = len(v)
    return np.asarray(v, dtype=float).reshape(s)


class Cfg(NDConfig):
    max_paths = 4
    max_steps = 10 ** 6
    max_depth = 40

    def on_new(self, it, cls, args, kwargs, node):
        mc = metaclass(it.repo, cls)
        if mc is not None and mc.issub(it.repo.cls('tools.dispatch', 'MultiClass')):
            m = mc.method('__call__')
            return it.call(Closure(m, None, cls, m.cls), list(args), kwargs)
        return NotImplemented

    def on_getattr(self, it, base, name):
        if isinstance(base, Class):
            if name == '__subclasses__':
                return Native('subclasses', lambda it2: [c for c in it.repo.classes() if base in c.bases])
            if name == 'stop_dispatch' and base.find(name) is None:
                return False
            if base.find(name) is None:
                mc = metaclass(it.repo, base)
                if mc is not None and mc.method(name) is not None:
                    m = mc.method(name)
                    return Closure(m, None, base, m.cls)
        if isinstance(base, SuperVal) and name == '__call__' and isinstance(base.obj, Class):
            return Native('type.__call__', lambda it2, *a, **k: it2.new(base.obj, list(a), k))
        return NotImplemented


# piece: (kind, axes, size, dealias)
CART = {'RealFourier': 8, 'ComplexFourier': 6, 'ChebyshevT': 8, 'Legendre': 6, None: 1}


def build(it, repo, spec, grid):
    """Coordinates, distributor, bases and velocity domain of a specification."""
    cm = repo.module('core.coords')
    new = lambda n, *a: it.call(it.module_name(cm, n)[0], [*a], {})
    css, plan = [], []
    for k, p in enumerate(spec):
        if p[0] == 'cart':
            css.append(new('CartesianCoordinates', *[f'x{k}{j}' for j in range(len(p[1]))]))
        elif p[0] == 'line':
            css.append(new('Coordinate', f'z{k}'))
        elif p[0] in ('Disk', 'Annulus'):
            css.append(new('PolarCoordinates', f'p{k}', f'r{k}'))
        elif p[0] == 'Sphere':
            css.append(new('S2Coordinates', f'p{k}', f't{k}'))
        else:
            css.append(new('SphericalCoordinates', f'p{k}', f't{k}', f'r{k}'))
    cs = css[0] if len(css) == 1 else new('DirectProduct', *css)
    coords = tuple(it.iterate(it.getattr(cs, 'coords')))
    axis_of = {id(c): i for i, c in enumerate(coords)}
    dim = len(coords)

    def get_axis(it2, c):
        cc = it2.getattr(c, 'coords')
        return axis_of[id(list(it2.iterate(cc))[0])]

    def elements(it2, domain, scales=None, rank=None):
        b = domain.attrs.get('basis')
        own = b.attrs['axes'] if b is not None else range(dim)
        return tuple(ND(grid.elements(a)) if a in own else ND(np.arange(1)) for a in range(dim))
    dist = Obj(None, 'dist', {'dim': dim, 'coords': coords, 'coordsystems': (cs,), 'coordsys': cs, 'get_axis': P(get_axis), 'grid_layout': Obj(None, 'grid_layout', {'local_elements': P(elements), 'grid_space': (True,) * dim}),
                              'get_basis_axis': P(lambda it2, b: b.attrs['axes'][0]), 'first_axis': P(lambda it2, b: b.attrs['axes'][0]), 'last_axis': P(lambda it2, b: b.attrs['axes'][-1])})
    bm = repo.module('core.basis')
    by = {}
    want = []
    for k, (p, c) in enumerate(zip(spec, css)):
        kind = p[0]
        own = [axis_of[id(x)] for x in it.iterate(it.getattr(c, 'coords'))]
        if kind in ('cart', 'line'):
            names = p[1] if kind == 'cart' else [p[1]]
            for a, name, cc in zip(own, names, it.iterate(it.getattr(c, 'coords'))):
                if name is None:
                    by[id(cc)] = None
                    continue
                N, d, L = CART[name], p[2], 3. + a
                n = grid.sizes[a]
                stretch = L / (2 * math.pi) if 'Fourier' in name else L / 2
                space = .1 * (1 + np.arange(n)) ** 1.5 / n
                attrs = {'axes': [a], 'coordsys': cc, 'coord': cc, 'coords': (cc,), 'dim': 1, 'size': N, 'shape': (N,), 'dealias': (num(d),), 'COV': Obj(None, 'COV', {'stretch': num(stretch)}),
                         'bounds': (0., L), 'constant': (False,), 'grid_shape': P(lambda it2, s, n=n: (n,)),
                         'local_grid_spacing': P(lambda it2, ds, scale=None, a=a, space=space, **kw: ND(along(space[grid.elements(a)], a, dim))),
                         'global_grid_spacing': P(lambda it2, ds, scale=None, a=a, space=space, **kw: ND(along(space, a, dim)))}
                if name in ('ChebyshevT', 'Legendre'):
                    ab = -1 / 2 if name == 'ChebyshevT' else 0
                    attrs.update(a=num(ab), b=num(ab), a0=num(ab), b0=num(ab))
                b = Obj(repo.cls('core.basis', 'Jacobi' if name in ('ChebyshevT', 'Legendre') else name), name, attrs)
                attrs = b.attrs
                attrs['domain'] = P(lambda it2, ds, b=b: Obj(None, 'domain', {'basis': b}))
                by[id(cc)] = b
                i = np.arange(n)
                if 'Fourier' in name:
                    dx = np.full(n, L / N)
                elif name == 'ChebyshevT':
                    dx = d * stretch * np.sin(np.pi * (i + .5) / n) * np.pi / n
                else:
                    dx = d * space
                want.append(lambda u, a=a, dx=dx: np.abs(u[a]) / along(dx, a, dim))
            continue
        name = kind + 'Basis'
        d, M = p[1], p[2]
        n = [grid.sizes[a] for a in own]
        rad = 1.7
        r = 1. + np.arange(n[-1]) / n[-1]
        space = [.3 * (1 + np.arange(m)) ** 1.25 / m for m in n]
        kept = {}

        def spacing(it2, ds, subaxis, scales=None, kept=kept, space=space, own=own):
            subaxis = int(unwrap(subaxis))
            if subaxis not in kept:
                kept[subaxis] = ND(along(space[subaxis][grid.elements(own[subaxis])], own[subaxis], dim))
            return kept[subaxis]
        attrs = {'axes': own, 'coordsys': c, 'coords': tuple(it.iterate(it.getattr(c, 'coords'))), 'dim': len(own), 'dealias': tuple(num(x) for x in d), 'mmax': M, 'Lmax': M, 'local_grid_spacing': P(spacing),
                 'local_grid_radius': P(lambda it2, ds, scale=None, own=own, r=r: ND(along(r[grid.elements(own[-1])], own[-1], dim)))}
        if kind in ('Disk', 'Sphere'):
            attrs['radius'] = num(rad)
        if kind == 'Ball':
            attrs['radial_basis'] = Obj(None, 'radial_basis', {'radius': num(rad)})
            attrs['radius'] = num(rad)
        if kind in ('Annulus', 'Shell'):
            attrs['radii'] = (num(1.), num(2.))
        b = Obj(repo.cls('core.basis', name), name, attrs)
        attrs['domain'] = P(lambda it2, ds, b=b: Obj(None, 'domain', {'basis': b}))
        for cc in attrs['coords']:
            by[id(cc)] = b
        by[id(c)] = b
        it.state['kept'].append((name, kept, space, own))
        a = own
        R = {'Disk': rad, 'Sphere': rad, 'Ball': rad}.get(kind)
        if R is None:
            R = along(r, a[-1], dim)
        if kind in ('Disk', 'Annulus'):
            if M:
                want.append(lambda u, a=a, R=R, M=M: np.abs(u[a[0]]) * M / R)
        elif M:
            want.append(lambda u, a=a, R=R, M=M: np.sqrt(np.abs(u[a[0]]) ** 2 + np.abs(u[a[1]]) ** 2) * np.sqrt(M * (M + 1)) / R)
        if kind != 'Sphere':
            want.append(lambda u, a=a, d=d, s=space: np.abs(u[a[-1]]) / along(d[-1] * s[-1], a[-1], dim))

    def get_basis(it2, x):
        if id(x) in by:
            return by[id(x)]
        try:
            c0 = list(it2.iterate(it2.getattr(x, 'coords')))[0]
        except RaiseSig:
            raise PathAbort(f'basis of {show(x)}')
        return by.get(id(c0))
    bases = tuple({id(b): b for b in by.values() if b is not None}.values())
    domain = Obj(None, 'domain', {'get_basis': P(get_basis), 'bases': bases, 'dist': dist, 'dim': dim, 'dealias': tuple([num(1.)] * dim)})
    return cs, dist, domain, dim, want


SPECS = []
for _n in ('RealFourier', 'ComplexFourier', 'ChebyshevT', 'Legendre', None):
    SPECS.append([('cart', (_n,), 1.5)])
SPECS += [
    [('cart', ('RealFourier', 'ChebyshevT'), 1.5)],
    [('cart', ('ChebyshevT', 'RealFourier'), 1.)],
    [('cart', ('ComplexFourier', 'ChebyshevT', 'Legendre'), 2.)],
    [('cart', ('RealFourier', None, 'ChebyshevT'), 1.5)],
    [('Disk', (1.5, 2.), 4)], [('Disk', (1., 1.), 0)], [('Annulus', (1.5, 2.), 5)], [('Annulus', (1., 1.), 0)],
    [('Sphere', (1.5, 1.5), 5)], [('Sphere', (1., 1.), 0)],
    [('Ball', (1., 1.5, 2.), 3)], [('Ball', (1., 1., 1.), 0)], [('Shell', (1., 1.5, 2.), 3)], [('Shell', (1., 1., 1.), 0)],
    [('Disk', (1.5, 2.), 4), ('line', 'ChebyshevT', 1.5)], [('line', 'ChebyshevT', 1.5), ('Disk', (1.5, 2.), 4)], [('Annulus', (1.5, 1.), 4), ('line', 'RealFourier', 2.)],
    [('Disk', (1.5, 2.), 4), ('line', 'Legendre', 1.5)], [('line', None, 1.), ('Annulus', (1.5, 2.), 4)],
    [('cart', ('RealFourier', 'ChebyshevT'), 1.5), ('line', 'ChebyshevT', 1.)],
]
DEAL = {'RealFourier': 8, 'ComplexFourier': 6, 'ChebyshevT': 8, 'Legendre': 6}


def sizes_of(spec):
    out = []
    for p in spec:
        if p[0] in ('cart', 'line'):
            for n in (p[1] if p[0] == 'cart' else [p[1]]):
                out.append(int(math.ceil(p[2] * CART[n])) if n else 1)
        else:
            out += [4 + k for k in range({'Disk': 2, 'Annulus': 2, 'Sphere': 2}.get(p[0], 3))]
    return out


def run(repo, rep):
    cls = repo.cls('core.operators', 'AdvectiveCFL')
    om = repo.module('core.operators')
    for spec in SPECS:
        sizes = sizes_of(spec)
        dim = len(sizes)
        for split, rank, cplx in [(None, 0, False), (None, 0, True)] + [(a, r, False) for a in range(dim) if sizes[a] > 1 for r in (0, 1)]:
            what = f"frequencies for {' x '.join(str(p[0] if p[0] not in ('cart', 'line') else p[1]) for p in spec)}" + (f", axis {split} distributed, process {rank}" if split is not None else '') + (' (complex data)' if cplx else '')
            grid = Grid(sizes, split, rank)
            rng = np.random.RandomState(3)
            full = rng.randint(-9, 9, [dim] + sizes).astype(complex if cplx else float)
            loc = full[tuple([slice(None)] + [grid.elements(a) for a in range(dim)])] if False else full
            for a in range(dim):
                loc = np.take(loc, grid.elements(a), axis=a + 1)
            it = Interp(repo, Cfg())

            def go(i):
                i.state['kept'] = []
                cs, dist, domain, D, want = build(i, repo, spec, grid)
                i.state['want'] = want
                u = Obj(repo.cls('core.field', 'Field'), 'u', {'dist': dist, 'domain': domain, 'tensorsig': (cs,), 'dtype': Const_dtype(cplx), 'name': 'u', 'data': ND(loc.copy()), 'layout': dist.attrs['grid_layout'], 'scales': domain.attrs['dealias']})
                op = i.call(i.module_name(om, 'AdvectiveCFL')[0], [u, cs], {})
                out = Obj(None, 'out', {'data': ND(np.full(loc.shape[1:], 7.5, dtype=loc.dtype)), 'preset_layout': P(lambda it2, l: None), 'lock_axis_to_grid': P(lambda it2, a: None), 'dist': dist})
                i.call(i.getattr(op, 'operate'), [out], {})
                i.call(i.getattr(op, 'operate'), [out], {})
                i.state['u'] = unwrap(u.attrs['data'])
                return out.attrs['data']
            rs = it.explore(go)
            rep.count('frequency operators')
            if len(rs) != 1 or rs[0].outcome == 'abort':
                rep.undec(f"{what}: {[str(getattr(r.value, 'why', r.value)) + r.cond_text() for r in rs][:2]}")
                continue
            r = rs[0]
            if r.outcome == 'raise':
                rep.violation('frequency|raises', f'{what}: raises {r.value.name}: {show(r.value.value)}', r.value.loc)
                continue
            exp = np.zeros(sizes)
            for f in r.extra['want']:
                exp = exp + f(full)
            for a in range(dim):
                exp = np.take(exp, grid.elements(a), axis=a)
            try:
                got = np.asarray(unwrap(r.value))
            except NotConcrete:
                rep.undec(f'{what}: {show(r.value)}')
                continue
            kinds = '+'.join(sorted({p[0] if p[0] not in ('cart', 'line') else str(n) for p in spec for n in ([None] if p[0] not in ('cart', 'line') else p[1] if p[0] == 'cart' else [p[1]])}))
            rep.check(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-10), f'frequency|{kinds}', f'{what}: not the sum of the velocity components over the resolved scales', cls.loc, what)
            rep.check(np.array_equal(r.extra['u'], loc), 'frequency|velocity', f'{what}: the velocity is changed', cls.loc)
            ok = all(np.allclose(unwrap(v), along(space[s][grid.elements(own[s])], own[s], dim)) for name, kept, space, own in r.extra['kept'] for s, v in kept.items())
            rep.check(ok, 'frequency|cached spacings', f'{what}: the cached grid spacings of the basis are changed', cls.loc)
    rep.floor('frequency operators', 50)


def Const_dtype(cplx):
    from ..nd import Const
    return Const(np.complex128 if cplx else np.float64)
