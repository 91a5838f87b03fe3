"""Layout and scale changes of a field preserve what the field represents.

Typestate over (layout label, scale label, buffer content): the methods of
Field/LockedField are abstractly interpreted for every layout chain with up to
three axes (serial, and distributed with one mesh axis), every start layout and
every pattern of old/new scales.  Buffers carry the representation their
content was written in (per axis: coefficients, or grid values at a scale; and
the distribution), so data viewed under a label it does not have is reported.
"""
import itertools
import sympy
from ..interp import *
from ..repo import AnalysisBroken, Class

NONE = object()


class Buf(AbsVal):
    n = 0

    def __init__(self, cap):
        Buf.n += 1
        self.id = Buf.n
        self.cap = cap
        self.content = None        # (value, rep)

    def callmethod(self, it, name, args, kwargs):
        if name == 'fill':
            self.content = ('zeros', None)
            return None
        return NotImplemented

    def __repr__(self):
        return f"buffer{self.id}"


class View(AbsVal):
    def __init__(self, buf, shape):
        self.buf, self.shape = buf, shape

    @property
    def rep(self):
        return tuple(self.shape)

    def __repr__(self):
        return f"view({self.buf}, {show(self.shape)})"

    def value(self):
        c = self.buf.content
        if c is None or c[1] != self.rep:
            return 'garbage'
        return c[0]

    def getattr(self, it, name):
        if name == 'shape':
            return self.shape
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'copy':
            return Data(self.value(), self.rep)
        return NotImplemented

    def write(self, it, src):
        if isinstance(src, (View, Data)):
            v = src.value() if isinstance(src, View) else src.v
            if src.rep != self.rep:
                it.state['errors'].append((it.loc(), f"data of representation {rtext(src.rep)} copied into a view of representation {rtext(self.rep)}"))
                v = 'garbage'
            if isinstance(src, View) and src.buf is self.buf:
                return
        else:
            v = ('given', show(src))
        self.buf.content = (v, self.rep)

    def setitem(self, it, key, value):
        if is_full(key):
            self.write(it, value)
            return None
        return NotImplemented


class Data(AbsVal):
    def __init__(self, v, rep):
        self.v, self.rep = v, rep

    def __repr__(self):
        return f"data({self.v})"

    def binop(self, it, op, other, swapped):
        if isinstance(other, Data):
            a, b = (other, self) if swapped else (self, other)
            return Data((op, a.v, b.v), self.rep if a.rep == b.rep else ())
        return NotImplemented


def is_full(key):
    return key is Ellipsis or (isinstance(key, slice) and key.start is None and key.stop is None and key.step is None)


def rtext(rep):
    return '(' + ', '.join(str(r.args[2]) if isinstance(r, Term) and r.op == 'ax' else show(r) for r in rep) + ')'


class Lay(AbsVal):
    def __init__(self, index, grid, local):
        self.index, self.grid, self.local = index, grid, local

    def __repr__(self):
        return f"layout{self.index}"

    def getattr(self, it, name):
        if name == 'index':
            return self.index
        if name == 'grid_space':
            return np.array(self.grid, dtype=object)
        if name == 'local':
            return np.array(self.local, dtype=object)
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op in ('==', '!='):
            return (self is other) == (op == '==')
        return NotImplemented

    def shape(self, scales):
        return tuple(Term('ax', i, scales[i] if g else 'coeff', self.index if not all(self.local) or True else 0) for i, g in enumerate(self.grid))

    def callmethod(self, it, name, args, kwargs):
        if name == 'local_shape':
            a = dict(zip(('domain', 'scales'), args))
            a.update(kwargs)
            return self.shape(norm(it, a.get('scales')))
        if name == 'global_shape':
            a = dict(zip(('domain', 'scales'), args))
            a.update(kwargs)
            s = norm(it, a.get('scales'))
            return tuple(Term('gax', i, s[i] if g else 'coeff') for i, g in enumerate(self.grid))
        if name in ('slices', 'local_elements'):
            a = dict(zip(('domain', 'scales'), args))
            a.update(kwargs)
            s = norm(it, a.get('scales'))
            return tuple(Term('sl', *x.args) for x in self.shape(s))
        return NotImplemented


def norm(it, s):
    if s is None:
        s = 1
    if isinstance(s, np.ndarray):
        s = s.tolist()
    if not isinstance(s, (tuple, list)):
        s = (s,) * it.state['dim']
    return tuple(s)


def chain(dim, mesh):
    """Layouts of the transform/transpose chain: coefficient space first, the first `mesh` axes are distributed."""
    out = []
    if not mesh:
        for k in range(dim + 1):
            out.append(([i >= dim - k for i in range(dim)], [True] * dim))
        return out
    grid = [False] * dim
    local = [False] * mesh + [True] * (dim - mesh)
    out.append((list(grid), list(local)))
    while not all(grid):
        d = max(i for i in range(dim) if not grid[i])
        if local[d]:
            grid[d] = True
        else:
            local[d], local[d + 1] = True, False
        out.append((list(grid), list(local)))
    return out


class Path(AbsVal):
    def __init__(self, index):
        self.index = index

    def __repr__(self):
        return f"path{self.index}"

    def callmethod(self, it, name, args, kwargs):
        if name not in ('increment', 'decrement'):
            return NotImplemented
        src, dst = (self.index, self.index + 1) if name == 'increment' else (self.index + 1, self.index)
        lays = it.state['layouts']
        for f in args[0]:
            lay = f.attrs['layout']
            if lay is not lays[src]:
                it.state['errors'].append((it.loc(), f"{name} of path {self.index} applied to a field labelled {lay}"))
            buf = f.attrs['buffer']
            want = lays[src].shape(norm(it, f.attrs['scales']))
            v = buf.content[0] if buf.content is not None and buf.content[1] == want else 'garbage'
            it.call(it.getattr(f, 'preset_layout'), [lays[dst]])
            buf = f.attrs['buffer']
            buf.content = (v, lays[dst].shape(norm(it, f.attrs['scales'])))
        it.state['moves'] += 1
        return None


class Dom(AbsVal):
    def __init__(self, dim):
        self.dim = dim

    def __repr__(self):
        return 'domain'

    def getattr(self, it, name):
        if name == 'dealias':
            return tuple(sympy.Rational(3, 2) for _ in range(self.dim))
        if name == 'bases':
            return (sym('basis'),)
        return NotImplemented


class Cfg(Config):
    max_paths = 64
    max_while = 12

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'Domain':
            return Dom(it.state['dim'])
        if cls.name == 'ChunkedRandomArray':
            return Term('random', freeze(args[0]))
        return NotImplemented

    def on_truth(self, it, v):
        if isinstance(v, Term) and v.op == 'cmp' and v.args[0] == 'is' and v.args[2] is None:
            return False
        return None

    def on_isinstance(self, it, value, cls):
        n = cls.name if isinstance(cls, Class) else None
        if isinstance(value, Lay):
            return n == 'Layout'
        if n == 'Layout':
            return False
        return None

    def on_call(self, it, f, args, kwargs, node):
        n = f.args[0] if isinstance(f, Term) and f.op in ('ext', 'global') else (f.args[1] if isinstance(f, Term) and f.op == 'attr' else None)
        last = str(n).split('.')[-1] if n else ''
        if last in ('fftw_alloc_real',):
            return Buf(sympy.sympify(args[0]))
        if n == 'numpy.asarray' and isinstance(args[0], Buf):
            return args[0]
        if n == 'numpy.zeros' and not it.state.get('plain'):
            return Buf(sympy.sympify(args[0][0] if isinstance(args[0], (tuple, list)) else args[0]))
        if n == 'numpy.ndarray':
            a = dict(zip(('shape', 'dtype', 'buffer'), args))
            a.update(kwargs)
            if isinstance(a.get('buffer'), Buf):
                sh = tuple(it.iterate(a['shape']))
                k = len(it.state['tens'])
                if tuple(sh[:k]) != it.state['tens']:
                    it.state['errors'].append((it.loc(), f"view has component shape {show(sh[:k])} instead of {it.state['tens']}"))
                if a.get('dtype') != sym('dtype'):
                    it.state['errors'].append((it.loc(), f"view has dtype {show(a.get('dtype'))}"))
                return View(a['buffer'], sh[k:])
        if n in ('numpy.copyto',):
            if isinstance(args[0], View):
                args[0].write(it, args[1])
                return None
        if n == 'numpy.array' and args and isinstance(args[0], tuple):
            return list(args[0])
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        f = clo.func
        if f.cls is not None and f.cls.name == 'Distributor' and f.name == 'buffer_size':
            a = dict(zip(('self', 'domain', 'scales', 'dtype'), args))
            a.update(kwargs)
            return 8 * bsz(norm(it, a['scales']))
        if f.cls is None and f.name == 'copyto' and isinstance(args[0], View):
            args[0].write(it, args[1])
            return None
        if f.cls is not None and f.cls.name == 'Domain':
            return NotImplemented
        return NotImplemented


def bsz(scales):
    return sympy.Symbol('n[' + ','.join(str(x) for x in scales) + ']', integer=True, positive=True)


SC = (sympy.Integer(1), sympy.Rational(3, 2), sympy.Integer(2))


def setup(it, repo, dim, mesh, cls='Field', tens=(2,)):
    it.state.update(dim=dim, errors=[], moves=0, tens=tuple(tens))
    lays = [Lay(i, g, l) for i, (g, l) in enumerate(chain(dim, mesh))]
    it.state['layouts'] = lays
    dcls = repo.cls('core.distributor', 'Distributor')
    refs = {'c': lays[0], 'g': lays[-1]}
    dist = Obj(dcls, 'dist', {'dim': dim, 'layouts': lays, 'layout_references': refs, 'coeff_layout': lays[0], 'grid_layout': lays[-1],
                              'paths': [Path(i) for i in range(len(lays) - 1)], 'fields': Obj(None, 'fieldset'), 'dtype': sym('dtype'), 'comm': Obj(None, 'comm')})
    it.state['dist'] = dist
    return dist, lays


def make_field(it, repo, dist, tens, li=0, scales=None, value='X', cls='Field'):
    c = repo.cls('core.field', cls)
    f = Obj(c, 'f')
    init = c.method('__init__')
    ts = tuple(Obj(None, f'cs{i}', {'dim': n}) for i, n in enumerate(tens))
    it.call(Closure(init, None, f, init.cls), [dist], {'bases': (sym('basis'),), 'name': 'f', 'tensorsig': ts, 'dtype': sym('dtype')})
    if scales is not None:
        it.call(it.getattr(f, 'preset_scales'), [scales])
    it.call(it.getattr(f, 'preset_layout'), [it.state['layouts'][li]])
    f.attrs['buffer'].content = (value, it.state['layouts'][li].shape(norm(it, f.attrs['scales'])))
    it.state['f'] = f
    it.state['errors'].clear()
    return f


def pats(dim, thorough=False):
    out = [tuple(SC[0] for _ in range(dim)), tuple(SC[1] for _ in range(dim))]
    for ax in (range(dim) if dim < 3 else (1,)):
        out.append(tuple(SC[2] if i == ax else SC[1] for i in range(dim)))
    return out


def state_ok(it, f, value, layout=None, scales=None):
    lays = it.state['layouts']
    errs = [f"{m} ({l})" for l, m in it.state['errors']]
    lay = f.attrs.get('layout')
    if lay not in lays:
        return errs + [f'layout label is {show(lay)}']
    sc = f.attrs.get('scales')
    if not isinstance(sc, (tuple, list)) or len(sc) != it.state['dim']:
        return errs + [f'scale label is {show(sc)}']
    rep = lay.shape(sc)
    buf = f.attrs.get('buffer')
    data = f.attrs.get('data')
    if not isinstance(buf, Buf) or not isinstance(data, View):
        return errs + ['no data view']
    if data.buf is not buf:
        errs.append('data is a view of a stale buffer')
    if data.rep != rep:
        errs.append(f'data view has representation {rtext(data.rep)} under label {rtext(rep)}')
    if value is not NONE:
        got = data.value()
        if got != value:
            errs.append(f'data holds {show(got)} instead of {show(value)}' if got != 'garbage' else f'buffer content has representation {rtext(buf.content[1]) if buf.content else None} under label {rtext(rep)}')
    if layout is not None and lay is not layout:
        errs.append(f'layout is {lay} instead of {layout}')
    if scales is not None and tuple(sc) != tuple(scales):
        errs.append(f'scales are {show(sc)} instead of {show(scales)}')
    # capacity
    ncomp = sympy.prod(it.state['tens'])
    need = ncomp * bsz(sc)
    if not covers(buf.cap, need, it.decisions):
        errs.append(f'buffer of {buf.cap} elements is not known to hold {need} elements')
    return errs


def covers(cap, need, decisions):
    if sympy.simplify(cap - need) == 0:
        return True
    syms = sorted(cap.free_symbols | need.free_symbols, key=str)
    rels = []
    for t, v, l in decisions:
        if t.op == 'cmp':
            op, a, b = t.args
            if isinstance(a, (sympy.Basic, int)) and isinstance(b, (sympy.Basic, int)):
                fs = getattr(a, 'free_symbols', set()) | getattr(b, 'free_symbols', set())
                if fs and all(str(s).startswith('n[') for s in fs):
                    rels.append((op, sympy.sympify(a), sympy.sympify(b), v))
                    syms = sorted(set(syms) | fs, key=str)
    for vals in itertools.product((0, 1, 2, 5), repeat=len(syms)):
        env = dict(zip(syms, vals))
        ok = True
        for op, a, b, v in rels:
            x, y = a.subs(env), b.subs(env)
            r = {'<=': x <= y, '<': x < y, '>=': x >= y, '>': x > y, '==': x == y, '!=': x != y}.get(op)
            if r is None:
                continue
            if bool(r) != v:
                ok = False
                break
        if ok and cap.subs(env) < need.subs(env):
            return False
    return True


def run(repo, rep):
    rep.rule('every layout or scale change leaves data, buffer, layout and scale labels consistent and the represented field unchanged')
    rep.rule('reading returns the data in exactly the requested layout and scales; setting stores exactly the given data under them')
    fcls = repo.cls('core.field', 'Field')
    lcls = repo.cls('core.field', 'LockedField')
    cases = [(1, 0), (2, 0), (2, 1), (3, 1)]
    if rep.tier == 'thorough':
        cases += [(3, 0), (4, 1)]

    def explore(name, dim, mesh, li, sc, call, check, cls='Field', value='X', tens=(2,)):
        it = Interp(repo, Cfg())

        def go(it):
            dist, lays = setup(it, repo, dim, mesh, tens=tens)
            f = make_field(it, repo, dist, tens, li, sc, value, cls)
            it.state['n0'] = len(it.decisions)
            r = call(it, f, lays)
            it.state['errs'] = check(it, f, lays, r)
            return r
        for r in it.explore(go):
            rep.count('paths')
            where = f"{dim} axes{' distributed' if mesh else ''}, layout{li}, scales {show(sc)}"
            if r.outcome == 'abort':
                rep.undec(f"{name}: {r.value}")
                continue
            if r.outcome == 'raise':
                rep.violation(f"F01|{name}|raises", f"{name} raises {r.value.name}: {r.value.value} ({where})", r.value.loc)
                continue
            errs = r.extra['errs']
            m = fcls.method(name.split('.')[-1]) or lcls.method(name.split('.')[-1])
            rep.check(not errs, f"F01|{name}", f"{name} ({where}): {'; '.join(errs[:3])}", m.loc if m else None, f"{name} ({where})")

    M = lambda f, n: (lambda it, *a, **k: it.call(it.getattr(f, n), list(a), k))
    for dim, mesh in cases:
        nl = len(chain(dim, mesh))
        P = pats(dim)
        for li in range(nl):
            for s0 in P:
                # change_scales
                for s1 in P:
                    explore('change_scales', dim, mesh, li, s0, lambda it, f, L, s1=s1: it.call(it.getattr(f, 'change_scales'), [s1]),
                            lambda it, f, L, r, s1=s1: state_ok(it, f, 'X', scales=s1))
                    rep.count('scale changes')
            for s0 in P[:3]:
                for lj in range(nl):
                    explore('change_layout', dim, mesh, li, s0, lambda it, f, L, lj=lj: it.call(it.getattr(f, 'change_layout'), [L[lj]]),
                            lambda it, f, L, r, lj=lj: state_ok(it, f, 'X', layout=L[lj], scales=tuple(s0)))
                    rep.count('layout changes')
            for key in ('c', 'g'):
                tgt = 0 if key == 'c' else nl - 1
                explore('__getitem__', dim, mesh, li, P[1], lambda it, f, L: it.getitem(f, key),
                        lambda it, f, L, r: state_ok(it, f, 'X', layout=L[tgt], scales=P[1]) + got_view(f, r))
                for s1 in P[:3]:
                    explore('__getitem__', dim, mesh, li, P[1], lambda it, f, L, s1=s1: it.getitem(f, (key, s1)),
                            lambda it, f, L, r, s1=s1: state_ok(it, f, 'X', layout=L[tgt], scales=s1) + got_view(f, r))
                    explore('__setitem__', dim, mesh, li, P[0], lambda it, f, L, s1=s1: it.setitem(f, (key, s1), Term('newdata')),
                            lambda it, f, L, r, s1=s1: state_ok(it, f, ('given', show(Term('newdata'))), layout=L[tgt], scales=s1))
                explore('__setitem__', dim, mesh, li, P[0], lambda it, f, L: it.setitem(f, key, Term('newdata')),
                        lambda it, f, L, r: state_ok(it, f, ('given', show(Term('newdata'))), layout=L[tgt], scales=P[0]))
            for s0 in P[:2]:
                for ax in [None] + list(range(dim)):
                    a = [] if ax is None else [ax]
                    axs = range(dim) if ax is None else [ax]
                    explore('require_grid_space', dim, mesh, li, s0, lambda it, f, L: it.call(it.getattr(f, 'require_grid_space'), a),
                            lambda it, f, L, r: state_ok(it, f, 'X', scales=s0) + [f'axis {i} left in coefficient space' for i in axs if not f.attrs['layout'].grid[i]])
                    explore('require_coeff_space', dim, mesh, li, s0, lambda it, f, L: it.call(it.getattr(f, 'require_coeff_space'), a),
                            lambda it, f, L, r: state_ok(it, f, 'X', scales=s0) + [f'axis {i} left in grid space' for i in axs if f.attrs['layout'].grid[i]])
                    if ax is not None:
                        def loc_ok(it, f, L, r, ax=ax, li=li):
                            e = state_ok(it, f, 'X', scales=s0)
                            if not f.attrs['layout'].local[ax]:
                                e.append(f'axis {ax} left distributed')
                            if f.attrs['layout'].grid[ax] != L[li].grid[ax]:
                                e.append(f'axis {ax} transformed')
                            return e
                        explore('require_local', dim, mesh, li, s0, lambda it, f, L: it.call(it.getattr(f, 'require_local'), [ax]), loc_ok)
                explore('preset_scales', dim, mesh, li, P[0], lambda it, f, L: it.call(it.getattr(f, 'preset_scales'), [s0]),
                        lambda it, f, L, r: state_ok(it, f, NONE, layout=L[li], scales=s0))

                def copied(it, f, L, r, li=li, s0=s0):
                    if not isinstance(r, Obj) or r is f:
                        return ['copy is not a new field']
                    e = state_ok(it, r, 'X', layout=L[li], scales=s0) + state_ok(it, f, 'X', layout=L[li], scales=s0)
                    if r.attrs['buffer'] is f.attrs['buffer']:
                        e.append('copy shares the buffer')
                    return e
                explore('copy', dim, mesh, li, s0, lambda it, f, L: it.call(it.getattr(f, 'copy'), []), copied)
                explore('LockedField.unlock', dim, mesh, li, s0, lambda it, f, L: it.call(it.getattr(f, 'unlock'), []), copied, cls='LockedField')
            # filters
            explore('low_pass_filter', dim, mesh, li, P[1], lambda it, f, L: it.call(it.getattr(f, 'low_pass_filter'), [], {'scales': P[0]}),
                    lambda it, f, L, r: state_ok(it, f, 'X', scales=P[1]))
    rep.floor('scale changes', 40)
    rep.floor('layout changes', 40)
    remedy(repo, rep)
    locked(repo, rep, lcls)
    random_layout(repo, rep)


def random_layout(repo, rep):
    """fill_random writes the local part of a global random array in the requested layout and scales."""
    c = repo.cls('core.field', 'Field')
    for scales in (None, SC[1]):
        for layout in (None, 'c', 'g'):
            it = Interp(repo, Cfg())

            def go(it):
                dist, lays = setup(it, repo, 2, 1)
                f = make_field(it, repo, dist, (2,), 1, None, 'X')
                f.attrs['is_complex'] = False
                f.attrs['is_real'] = True
                it.call(it.getattr(f, 'fill_random'), [], {'scales': scales, 'layout': layout, 'seed': 1})
                tgt = lays[1] if layout is None else (lays[0] if layout == 'c' else lays[-1])
                sc = (scales,) * 2 if scales is not None else (1, 1)
                it.state['errs'] = state_ok(it, f, NONE, layout=tgt, scales=sc)
                v = f.attrs['data'].value()
                gl = tuple(Term('gax', i, sc[i] if g else 'coeff') for i, g in enumerate(tgt.grid))
                sl = tuple(Term('sl', *x.args) for x in tgt.shape(sc))
                want = Term('item', Term('random', freeze((2,) + gl)), freeze((slice(None),) + sl))
                if v != ('given', show(want)):
                    it.state['errs'].append(f"data is {show(v)[:160]} instead of the local part of the global array")
                return None
            for r in it.explore(go):
                rep.count('paths')
                if r.outcome == 'abort':
                    rep.undec(f'fill_random: {r.value}')
                elif r.outcome == 'raise':
                    rep.violation('F01|fill_random|raises', f"fill_random raises {r.value.name}: {r.value.value}", r.value.loc)
                else:
                    rep.check(not r.extra['errs'], 'F01|fill_random', f"fill_random(layout={layout}, scales={scales}): {'; '.join(r.extra['errs'])}", c.method('fill_random').loc)


def remedy(repo, rep):
    dcls = repo.cls('core.distributor', 'Distributor')
    m = dcls.method('remedy_scales')
    a, b = sympy.Rational(3, 2), sympy.Rational(1, 2)
    for arg, want in ((None, (1, 1, 1)), (a, (a, a, a)), ((a, b, a), (a, b, a)), ([a, b, 1], (a, b, 1)), (0, 'raise'), ((a, 0, 1), 'raise'), ((a, b, 0), 'raise')):
        it = Interp(repo, Config())
        for r in it.explore(lambda it: it.call(it.getattr(Obj(dcls, 'dist', {'dim': 3}), 'remedy_scales'), [arg])):
            rep.count('scale arguments')
            if r.outcome == 'abort':
                rep.undec(f'remedy_scales: {r.value}')
                continue
            got = 'raise' if r.outcome == 'raise' else r.value
            rep.check(got == want, 'F01|remedy_scales', f"remedy_scales({show(arg)}) gives {show(got)} instead of {show(want)}", m.loc)


def locked(repo, rep, lcls):
    """A locked field refuses to leave its permitted layouts or scales, and leaves its data as they were."""
    for dim, mesh in ((1, 0), (2, 1)):
        nl = len(chain(dim, mesh))
        for li in range(nl):
            for lj in range(nl):
                if li == lj:
                    continue
                for allowed in ({li}, {li, lj}, set(range(nl))):
                    it = Interp(repo, Cfg())

                    def go(it):
                        dist, lays = setup(it, repo, dim, mesh)
                        f = make_field(it, repo, dist, (2,), li, None, 'X', 'LockedField')
                        it.call(it.getattr(f, 'lock_to_layouts'), [lays[i] for i in sorted(allowed)])
                        it.call(it.getattr(f, 'change_layout'), [lays[lj]])
                        it.state['errs'] = state_ok(it, f, 'X', layout=lays[lj])
                        return None
                    step = 1 if lj > li else -1
                    legal = all(k in allowed for k in range(li + step, lj + step, step))
                    for r in it.explore(go):
                        rep.count('locked changes')
                        if r.outcome == 'abort':
                            rep.undec(f'locked change: {r.value}')
                        elif legal:
                            rep.check(r.outcome == 'return' and not r.extra.get('errs'), 'F01|LockedField|legal', f"permitted layout change {li}->{lj} of a locked field fails: {r.value if r.outcome == 'raise' else r.extra.get('errs')}")
                        else:
                            rep.check(r.outcome == 'raise', 'F01|LockedField|illegal', f"locked field changes from layout {li} to {lj} although only layouts {sorted(allowed)} are permitted")
    for dim, mesh in ((1, 0), (2, 0), (2, 1)):
        nl = len(chain(dim, mesh))
        for old in pats(dim):
            for new in pats(dim):
                for li in range(nl):
                    for via in ('change_scales', '__getitem__'):
                        it = Interp(repo, Cfg())

                        def go(it):
                            dist, lays = setup(it, repo, dim, mesh)
                            f = make_field(it, repo, dist, (2,), li, old, 'X', 'LockedField')
                            it.call(it.getattr(f, 'lock_to_layouts'), list(lays))
                            if via == 'change_scales':
                                it.call(it.getattr(f, via), [new])
                            else:
                                it.getitem(f, (lays[li], new))
                            it.state['errs'] = state_ok(it, f, 'X', layout=lays[li])
                            return None
                        for r in it.explore(go):
                            rep.count('locked changes')
                            if r.outcome == 'abort':
                                rep.undec(f'locked scale change: {r.value}')
                            elif old != new:
                                rep.check(r.outcome == 'raise', 'F01|LockedField|scales', f"locked field accepts a change of scales from {show(old)} to {show(new)} through {via} when {r.cond_text()}", lcls.loc)
                            else:
                                rep.check(r.outcome == 'return' and not r.extra.get('errs'), 'F01|LockedField|same scales', f"locked field refuses or mishandles its own scales {show(old)} through {via}", lcls.loc)
        for axis in range(dim):
            it = Interp(repo, Cfg())

            def lock(it):
                dist, lays = setup(it, repo, dim, mesh)
                f = make_field(it, repo, dist, (2,), nl - 1, None, 'X', 'LockedField')
                it.call(it.getattr(f, 'lock_axis_to_grid'), [axis])
                al = f.attrs.get('allowed_layouts')
                it.state['ok'] = isinstance(al, (list, tuple)) and set(l.index for l in al) == {l.index for l in lays if l.grid[axis]}
                return al
            for r in it.explore(lock):
                if r.outcome != 'abort':
                    rep.check(r.outcome == 'return' and r.extra['ok'], 'F01|LockedField|axis lock', f"locking axis {axis} of {dim} to grid space permits {show(r.value)}", lcls.loc)


def got_view(f, r):
    if not isinstance(r, View) or r is not f.attrs['data'] and (r.buf is not f.attrs['buffer'] or r.rep != f.attrs['data'].rep):
        return [f'returned {show(r)} instead of the data view']
    return []
