"""Q01, second part: derived bases, mixed products, named families, coordinate maps and grid shapes."""
import math

import numpy as np
import sympy as sp

from ..interp import *
from ..nd import wrap
from ._solver import judge
from .q01 import F, C, FAMILIES, SIZE, Cfg, World, cases, combine, describe, eq, get, make, plain, wrapv


def check(it, b, cls, want, what):
    if not isinstance(b, Obj) or b.cls is None or b.cls.name != cls:
        return f"{what} is {show(b)} instead of a {cls}"
    for q, v in want.items():
        g = plain(it.getattr(b, q))
        if g != plain(wrapv(v)):
            return f"{what} has {q} = {g} instead of {v}"
    return None


def method(it, obj, name, /, *args, **kw):
    return it.call(it.getattr(obj, name), [wrapv(a) for a in args], {k: wrapv(v) for k, v in kw.items()})


def derived(repo, rep):
    """Bases constructed from a basis keep its parameters."""
    for name, (cs, base, alts) in FAMILIES.items():
        cls = repo.cls('core.basis', name)
        dim = len(cs) - 1
        for p, kw in cases(name, base, alts):
            rep.count('bases whose derived bases are examined')

            def go(it):
                w = World(repo, it)
                c = w.cs(*cs)
                x = make(it, w, name, c, kw)
                fourier = 'ComplexFourier' if kw.get('dtype') is C else 'RealFourier'

                def azimuth(b, what):
                    coords = plain(it.getattr(c, 'coords'))
                    r = check(it, b, fourier, dict(size=kw['shape'][0], dealias=(kw['dealias'][0],), library=kw['azimuth_library']), what)
                    if r:
                        return r
                    if [round(e, 12) for e in plain(it.getattr(b, 'bounds'))] != [0.0, round(2 * math.pi, 12)]:
                        return f"{what} has bounds {plain(it.getattr(b, 'bounds'))}"
                    if it.getattr(b, 'coord') is not coords[0]:
                        return f"{what} has coordinate {show(it.getattr(b, 'coord'))}"

                def sphere(b, what, radius):
                    r = check(it, b, 'SphereBasis', dict(shape=kw['shape'][:2], dtype=kw['dtype'], radius=radius, dealias=kw['dealias'][:2], azimuth_library=kw['azimuth_library'], colatitude_library=kw['colatitude_library']), what)
                    return r or (None if it.getattr(b, 'coordsys') is c else f"{what} has other coordinates")

                def same(b, what, /, **ch):
                    full = {**kw, **ch}
                    y = make(it, w, name, c, full)
                    r = check(it, b, name, full, what)
                    return r or (None if eq(it, b, y) else f"{what} differs from the basis constructed with its parameters")

                out = []
                if name == 'Jacobi':
                    for n in (0, 1, 2):
                        out.append(same(method(it, x, 'derivative_basis', n), f"derivative_basis({n})", a=kw['a'] + n, b=kw['b'] + n))
                    out.append(same(method(it, x, 'derivative_basis'), "derivative_basis()", a=kw['a'] + 1, b=kw['b'] + 1))
                elif 'k' in kw and cls.find('derivative_basis'):
                    for n in (0, 1, 2):
                        out.append(same(method(it, x, 'derivative_basis', n), f"derivative_basis({n})", k=kw['k'] + n))
                    out.append(same(method(it, x, 'derivative_basis'), "derivative_basis()", k=kw['k'] + 1))
                if name in ('AnnulusBasis', 'DiskBasis'):
                    out.append(same(it.getattr(x, 'radial_basis'), 'radial_basis', shape=(1, kw['shape'][1])))
                    out.append(azimuth(it.getattr(x, 'azimuth_basis'), 'azimuth_basis'))
                    for q in (('edge',) if name == 'DiskBasis' else ('inner_edge', 'outer_edge')):
                        out.append(azimuth(it.getattr(x, q), q))
                    out.append(azimuth(method(it, x, 'S1_basis', 1), 'S1_basis(1)'))
                if name == 'SphereBasis':
                    out.append(azimuth(it.getattr(x, 'azimuth_basis'), 'azimuth_basis'))
                    out.append(same(it.getattr(x, 'latitude_basis'), 'latitude_basis', shape=(1, kw['shape'][1])))
                if name in ('ShellBasis', 'BallBasis'):
                    R = kw['radius'] if name == 'BallBasis' else max(kw['radii'])
                    out.append(azimuth(it.getattr(x, 'azimuth_basis'), 'azimuth_basis'))
                    out.append(sphere(it.getattr(x, 'sphere_basis'), 'sphere_basis', R))
                    out.append(sphere(method(it, x, 'S2_basis'), 'S2_basis()', R))
                    for rad in (1, 2):
                        out.append(sphere(method(it, x, 'S2_basis', rad), f'S2_basis({rad})', rad))
                    if name == 'BallBasis':
                        out.append(sphere(it.getattr(x, 'surface'), 'surface', R))
                        shape = dict(radius=kw['radius'])
                    else:
                        out.append(sphere(it.getattr(x, 'inner_surface'), 'inner_surface', kw['radii'][0]))
                        out.append(sphere(it.getattr(x, 'outer_surface'), 'outer_surface', kw['radii'][1]))
                        out.append(same(it.getattr(x, 'meridional_basis'), 'meridional_basis', shape=(1, *kw['shape'][1:])))
                        shape = dict(radii=kw['radii'])
                    for b, what in ((it.getattr(x, 'radial_basis'), 'radial_basis'), (method(it, x, 'get_radial_basis'), 'get_radial_basis()')):
                        out.append(check(it, b, name.replace('Basis', 'RadialBasis'), dict(shape=(1, 1, kw['shape'][2]), radial_size=kw['shape'][2], k=kw['k'], alpha=kw['alpha'], dtype=kw['dtype'],
                                                                                           radius_library=kw['radius_library'], **shape), what))
                        if plain(it.getattr(b, 'dealias'))[2] != kw['dealias'][2]:
                            out.append(f"{what} has radial dealias {plain(it.getattr(b, 'dealias'))}")
                        if it.getattr(b, 'coordsys') is not c:
                            out.append(f"{what} has other coordinates")
                # grid sizes
                size = kw[SIZE.get(name, 'shape')]
                ns = [1, 1, size] if SIZE.get(name) == 'radial_size' else [size] if dim == 1 else list(size)
                for scales in ((1, 1, 1), (1.5, 2, 1.25), (0.5, 0.4, 0.7), (0.3, 1.05, 2)):
                    s = scales[:dim]
                    g = plain(method(it, x, 'grid_shape', s))
                    wantg = tuple(float(1 if n == 1 else math.ceil(round(t * n, 9))) for t, n in zip(s, ns))
                    if g != wantg:
                        out.append(f"has grid shape {g} instead of {wantg} at scales {s}")
                # volume
                vol = {'Jacobi': lambda: kw['bounds'][1] - kw['bounds'][0], 'AnnulusBasis': lambda: math.pi * (kw['radii'][1]**2 - kw['radii'][0]**2), 'DiskBasis': lambda: math.pi * kw['radius']**2,
                       'SphereBasis': lambda: 4 * math.pi * kw['radius']**2, 'ShellBasis': lambda: 4 / 3 * math.pi * (kw['radii'][1]**3 - kw['radii'][0]**3), 'BallBasis': lambda: 4 / 3 * math.pi * kw['radius']**3}
                vol['RealFourier'] = vol['ComplexFourier'] = vol['Jacobi']
                vol['ShellRadialBasis'], vol['BallRadialBasis'] = vol['ShellBasis'], vol['BallBasis']
                v = plain(it.getattr(x, 'volume'))
                if abs(v - vol[name]()) > 1e-9:
                    out.append(f"has volume {v} instead of {vol[name]()}")
                return next((o for o in out if o), None)
            judge(repo, rep, go, cls.method('__init__'), f"{name} with {describe(kw)}", f"Q01|{name} derived", cfg=Cfg)
        # an axis of size one
        if 'shape' in base:
            rep.count('bases whose derived bases are examined')

            def go(it):
                w = World(repo, it)
                x = make(it, w, name, w.cs(*cs), {**base, 'shape': (1, *base['shape'][1:])})
                g = plain(method(it, x, 'grid_shape', (2,) * dim))
                want = (1.0, *[float(2 * n) for n in base['shape'][1:]])
                return None if g == want else f"has grid shape {g} instead of {want}"
            judge(repo, rep, go, cls.method('__init__'), f"{name} with one azimuthal mode", f"Q01|{name} derived", cfg=Cfg)


def mixed(repo, rep):
    """Products of bases of different classes."""
    for full in ('ShellBasis', 'BallBasis'):
        rad = full.replace('Basis', 'RadialBasis')
        cs, fb, fa = FAMILIES[full]
        _, rb, ra = FAMILIES[rad]
        rb = {**rb, 'dealias': (1, 1, fb['dealias'][2])}
        cls = repo.cls('core.basis', full)
        for op, meth in (('*', '__mul__'), ('@', '__rmatmul__'), ('+', '__add__')):
            for kf in (0, 1, 2):
                rep.count('products of different classes')

                def go(it):
                    w = World(repo, it)
                    c = w.cs(*cs)
                    x = make(it, w, full, c, {**fb, 'k': kf})
                    for kr in (0, 1, 2):
                        y = make(it, w, rad, c, {**rb, 'k': kr, 'radial_size': fb['shape'][2]})
                        pair = f"with a radial basis with k={kr}"
                        r = combine(it, op, y, x)
                        if op == '+':
                            if r != 'TypeError':
                                return f"{pair}: gives {show(r)}"
                            continue
                        bad = check(it, r, full, {q: v for q, v in fb.items() if q != 'k'}, f"{pair}: the product")
                        if bad:
                            return bad
                        k = plain(it.getattr(r, 'k'))
                        if full == 'ShellBasis' and k != kf + kr:
                            return f"{pair}: has k = {k} instead of {kf + kr}"
                        if op == '@' and k < kf:
                            return f"{pair}: has k = {k}, below the operand's {kf}"
                        if op == '*':
                            r2 = combine(it, op, x, y)
                            if not isinstance(r2, Obj) or not eq(it, r, r2):
                                return f"{pair}: depends on the order"
                    # radial bases of another geometry are refused
                    for q in ra:
                        if q in ('radial_size', 'k'):
                            continue
                        y = make(it, w, rad, c, {**rb, q: ra[q][0]})
                        r = combine(it, op, y, x)
                        if not isinstance(r, str):
                            return f"with a radial basis with {q} {ra[q][0]}: gives {show(r)}"
                    return None
                judge(repo, rep, go, cls.method(meth), f"{full} with k={kf} {op} {rad}", f"Q01|{full} {op} {rad}", cfg=Cfg)
        # meridional and azimuthal NCCs of the shell
        if full == 'ShellBasis':
            for shape, ok in (((1, 6, 5), True), ((1, 1, 5), True), ((8, 6, 5), False), ((4, 6, 5), False)):
                rep.count('products of different classes')

                def go(it):
                    w = World(repo, it)
                    c = w.cs(*cs)
                    x = make(it, w, full, c, fb)
                    y = make(it, w, full, c, {**fb, 'shape': shape, 'k': 2})
                    r = combine(it, '@', y, x)
                    if not ok:
                        return None if isinstance(r, str) else f"gives {show(r)}"
                    return check(it, r, full, {**fb, 'k': fb['k'] + 2}, "the product")
                judge(repo, rep, go, cls.method('__rmatmul__'), f"ShellBasis NCC of shape {shape}", "Q01|ShellBasis NCC", cfg=Cfg)
    # sphere times shell radial
    sk = FAMILIES['SphereBasis'][1]
    rk = FAMILIES['ShellRadialBasis'][1]
    rcls = repo.cls('core.basis', 'ShellRadialBasis')
    for p, ch in [(None, {})] + [(q, {q: v}) for q, vs in FAMILIES['SphereBasis'][2].items() for v in vs if q not in ('radius', 'dtype')]:
        for q, rch in [(None, {})] + [(r, {r: v}) for r, vs in FAMILIES['ShellRadialBasis'][2].items() for v in vs if r != 'dtype']:
            rep.count('products of different classes')

            def go(it):
                w = World(repo, it)
                c = w.cs('SphericalCoordinates', 'phi', 'theta', 'r')
                s, r = {**sk, **ch}, {**rk, **rch}
                x = make(it, w, 'SphereBasis', c, s)
                y = make(it, w, 'ShellRadialBasis', c, r)
                want = dict(shape=(*s['shape'], r['radial_size']), dtype=F, radii=r['radii'], k=r['k'], alpha=r['alpha'], dealias=(*s['dealias'], r['dealias'][2]),
                            azimuth_library=s['azimuth_library'], colatitude_library=s['colatitude_library'], radius_library=r['radius_library'])
                for a, b in ((x, y), (y, x)):
                    z = combine(it, '*', a, b)
                    bad = check(it, z, 'ShellBasis', want, "the product")
                    if bad:
                        return bad
                    if it.getattr(z, 'coordsys') is not c:
                        return "the product has other coordinates"
                return None
            judge(repo, rep, go, rcls.method('__mul__'), f"SphereBasis with {describe(ch) or 'no change'} * ShellRadialBasis with {describe(rch) or 'no change'}", "Q01|sphere * radial", cfg=Cfg)


def families(repo, rep):
    """Named families construct the Jacobi or Fourier basis they stand for."""
    m = repo.module('core.basis')
    common = dict(size=8, bounds=(0, 2))

    def jac(it, w, fn, c, **kw):
        f = it.module_name(m, fn)[0]
        return it.call(f, [c], {k: wrapv(v) for k, v in {**common, **kw}.items()})

    table = []
    for de in ((1.5,), (1,)):
        for lib in ('matrix', 'other', None):
            kw = dict(dealias=de, library=lib)
            table += [('Legendre', kw, (0, 0, 0, 0)), ('ChebyshevT', kw, (-.5, -.5, -.5, -.5)), ('Chebyshev', kw, (-.5, -.5, -.5, -.5)),
                      ('ChebyshevU', kw, (.5, .5, .5, .5)), ('ChebyshevV', kw, (1.5, 1.5, 1.5, 1.5))]
            for al in (0, 1, 2.5):
                table.append(('Ultraspherical', {**kw, 'alpha': al}, (al - .5,) * 4))
                for al0 in (0, 1):
                    table.append(('Ultraspherical', {**kw, 'alpha': al, 'alpha0': al0}, (al - .5, al - .5, al0 - .5, al0 - .5)))
            for f in ('ChebyshevU', 'ChebyshevV', 'ChebyshevT'):
                al = dict(ChebyshevT=-.5, ChebyshevU=.5, ChebyshevV=1.5)[f]
                table.append((f, {**kw, 'alpha0': 0}, (al, al, -.5, -.5)))
            table.append(('Legendre', {**kw, 'a0': 1, 'b0': 2}, (0, 0, 1, 2)))
    by = {}
    for fn, kw, ab in table:
        by.setdefault(fn, []).append((kw, ab))
    for fn, rows in by.items():
        rep.count('named families', len(rows))
        f = m.funcs.get(fn) or m.funcs['ChebyshevT']

        def go(it):
            w = World(repo, it)
            c = w.cs('Coordinate', 'x')
            for kw, (a, b, a0, b0) in rows:
                x = jac(it, w, fn, c, **kw)
                lib = kw['library'] or ('fftw_dct' if a0 == b0 == -.5 else 'matrix')
                bad = check(it, x, 'Jacobi', dict(**common, a=a, b=b, a0=a0, b0=b0, dealias=kw['dealias'], library=lib), f"with {describe(kw)}")
                if bad:
                    return bad
                if not eq(it, x, make(it, w, 'Jacobi', c, dict(**common, a=a, b=b, a0=a0, b0=b0, dealias=kw['dealias'], library=lib))):
                    return f"with {describe(kw)}: differs from the Jacobi basis"
            return None
        judge(repo, rep, go, f, fn, f"Q01|{fn}", cfg=Cfg)
    rep.count('named families', 5)

    def go(it):
        w = World(repo, it)
        c = w.cs('Coordinate', 'x')
        for dt, cl in ((F, 'RealFourier'), (C, 'ComplexFourier')):
            x = jac(it, w, 'Fourier', c, dtype=dt, dealias=(1.5,), library='matrix')
            bad = check(it, x, cl, dict(**common, dealias=(1.5,), library='matrix'), f"with {dt.__name__}")
            if bad:
                return bad
        for dt in (None, np.float32, np.int64):
            try:
                x = jac(it, w, 'Fourier', c, dtype=dt)
            except RaiseSig as e:
                continue
            return f"accepts {dt}"
        return None
    judge(repo, rep, go, m.funcs['Fourier'], 'Fourier', "Q01|Fourier", cfg=Cfg)


def refuse(repo, rep):
    """Arguments outside the documented ranges are refused, shorthand is expanded."""
    bad = {'Jacobi': dict(size=[0, -1], bounds=[(0, 1, 2), (0,)], dealias=[(1, 1)]), 'RealFourier': dict(size=[0, -1], bounds=[(0, 1, 2), (0,)], dealias=[(1, 1)]),
           'ComplexFourier': dict(size=[0, -1], bounds=[(0, 1, 2), (0,)], dealias=[(1, 1)]),
           'AnnulusBasis': dict(shape=[(8,), (8, 6, 5), (7, 6), (6, 6)], radii=[(1,), (0, 1), (-1, 1), (2, 1), (1, 1)], alpha=[(0, 0, 0)], dealias=[(1,), (1, 1, 1)]),
           'DiskBasis': dict(shape=[(8,), (8, 6, 5), (7, 6), (6, 6)], radius=[0, -1], dealias=[(1,), (1, 1, 1)]),
           'SphereBasis': dict(shape=[(7, 6), (6, 6)]),
           'ShellBasis': dict(shape=[(8, 6), (8, 6, 5, 4), (6, 6, 5)], radii=[(0, 1), (-1, 1), (2, 1), (1, 1)], alpha=[(0, 0, 0)], dealias=[(1, 1)]),
           'BallBasis': dict(shape=[(8, 6), (6, 6, 5)], radius=[0, -1], dealias=[(1, 1)])}
    for name, rows in bad.items():
        cs, base, _ = FAMILIES[name]
        cls = repo.cls('core.basis', name)
        n = sum(len(v) for v in rows.values())
        rep.count('arguments refused', n)

        def go(it):
            w = World(repo, it)
            c = w.cs(*cs)
            for q, vs in rows.items():
                for v in vs:
                    try:
                        x = make(it, w, name, c, {**base, q: v})
                    except RaiseSig:
                        continue
                    return f"accepts {q} = {v}"
            return None
        judge(repo, rep, go, cls.method('__init__'), f"{name} arguments", f"Q01|{name} refused arguments", cfg=Cfg)

        def go(it):
            w = World(repo, it)
            c = w.cs(*cs)
            dim = len(cs) - 1
            for q, v, full in [('dealias', 1.5, (1.5,) * dim)] + ([('alpha', 0, (0, 0))] if name in ('AnnulusBasis', 'ShellBasis') else []):
                x = make(it, w, name, c, {**base, q: v})
                y = make(it, w, name, c, {**base, q: full})
                if plain(it.getattr(x, q)) != plain(wrapv(full)) or not eq(it, x, y):
                    return f"with {q} = {v} differs from {q} = {full}"
            return None
        judge(repo, rep, go, cls.method('__init__'), f"{name} shorthand", f"Q01|{name} shorthand", cfg=Cfg)


def maps(repo, rep):
    """Affine coordinate maps."""
    cls = repo.cls('core.basis', 'AffineCOV')
    rows = [((-1, 1), (0, 2)), ((-1, 1), (-3, 5)), ((0, 1), (0, 2.5)), ((0, 2), (1, 2)), ((-1, 1), (-1, 1)), ((1, 4), (2, 3))]
    names = {'left': 0, 'lower': 0, 'right': 1, 'upper': 1, 'center': .5, 'middle': .5}
    for nat, pro in rows:
        rep.count('coordinate maps')

        def go(it):
            cov = it.call(cls, [wrapv(nat), wrapv(pro)], {})
            for (meth, src, dst) in (('problem_coord', nat, pro), ('native_coord', pro, nat)):
                for t in (0, .25, .5, .7, 1, 1.5):
                    x = src[0] + t * (src[1] - src[0])
                    y = plain(method(it, cov, meth, x))
                    if abs(y - (dst[0] + t * (dst[1] - dst[0]))) > 1e-12:
                        return f"{meth}({x}) is {y} instead of {dst[0] + t * (dst[1] - dst[0])}"
                for s, t in names.items():
                    y = plain(method(it, cov, meth, s))
                    if y != dst[0] + t * (dst[1] - dst[0]):
                        return f"{meth}({s!r}) is {y} instead of {dst[0] + t * (dst[1] - dst[0])}"
                try:
                    method(it, cov, meth, 'elsewhere')
                except RaiseSig:
                    continue
                return f"{meth} accepts an unknown name"
            if abs(plain(it.getattr(cov, 'stretch')) - (pro[1] - pro[0]) / (nat[1] - nat[0])) > 1e-12:
                return f"has stretch {plain(it.getattr(cov, 'stretch'))}"
            return None
        judge(repo, rep, go, cls.method('problem_coord'), f"AffineCOV({nat}, {pro})", "Q01|AffineCOV", cfg=Cfg)


def run(repo, rep):
    derived(repo, rep)
    mixed(repo, rep)
    families(repo, rep)
    refuse(repo, rep)
    maps(repo, rep)
