"""Global data keep their place when they are scattered, gathered, loaded or reduced.

`Field` data methods and the chunked random generator are abstractly
interpreted on every process of a mesh with arrays of element labels: each
global element has its own label, so the label found at an index shows where
that element came from.  Layout blocks, transforms and the communicator are
models.
"""
import itertools
import math
import numpy as np
from ..interp import *
from ..nd import ND, Const, NDConfig, unwrap, wrap, NotConcrete
from ..repo import AnalysisBroken, Class


class Layout(AbsVal):
    def __init__(self, name, world, dist_axes, grid, index):
        self.name, self.w, self.dist_axes, self.grid, self.index = name, world, dist_axes, grid, index

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('==', 'is'):
            return self is other
        if op in ('!=', 'is not'):
            return self is not other
        return NotImplemented

    def gshape(self, scales):
        w = self.w
        if not self.grid:
            return tuple(w.sizes)
        return tuple(1 if n == 1 and c else int(math.ceil(s * n)) for s, n, c in zip(scales, w.sizes, w.const))

    def mesh(self):
        m = [1] * self.w.dim
        for k, ax in enumerate(self.dist_axes):
            m[ax] = self.w.mesh[k]
        return m

    def coords(self, rank):
        c = np.unravel_index(rank, self.w.mesh) if self.w.mesh else ()
        out = [0] * self.w.dim
        for k, ax in enumerate(self.dist_axes):
            out[ax] = int(c[k])
        return out

    def block(self, scales, rank):
        out = []
        for n, m, c in zip(self.gshape(scales), self.mesh(), self.coords(rank)):
            b = -(-n // m)
            s = min(c * b, n)
            out.append((s, min(b, n - s)))
        return out

    def getattr(self, it, name):
        if name == 'grid_space':
            return (self.grid,) * self.w.dim
        if name == 'ext_mesh':
            return ND(np.array(self.mesh()))
        if name == 'ext_coords':
            return ND(np.array(self.coords(it.state['rank'])))
        if name == 'local':
            return ND(np.array([a not in self.dist_axes for a in range(self.w.dim)]))
        if name == 'index':
            return self.index
        if name == 'dist':
            return it.state['distobj']
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        w = self.w
        if name in ('global_shape', 'local_shape', 'slices', 'local_elements', 'valid_elements', 'local_slices'):
            kw = dict(zip(('domain', 'scales', 'rank'), args))
            kw.update(kwargs)
            if kw.get('domain') is not w.domain:
                it.state['errors'].append((it.loc(), f'{name} is taken for {show(kw.get("domain"))}'))
            sc = remedy(it, kw.get('scales'))
            if name == 'global_shape':
                return self.gshape(sc)
            b = self.block(sc, kw['rank'] if kw.get('rank') is not None else it.state['rank'])
            if name == 'local_shape':
                return tuple(n for s, n in b)
            if name in ('slices', 'local_slices'):
                return tuple(slice(s, s + n) if n else slice(0, 0) for s, n in b)
            if name == 'local_elements':
                return tuple(ND(np.arange(s, s + n)) for s, n in b)
        return NotImplemented


def remedy(it, s):
    w = it.state['w']
    try:
        s = unwrap(s)
    except NotConcrete:
        raise PathAbort(f'unknown scales {show(s)}')
    if s is None:
        s = 1
    if np.ndim(s) == 0:
        s = [s] * w.dim
    return tuple(float(x) for x in s)


class World:
    def __init__(self, mesh, sizes, tensor, const, complex_):
        self.mesh, self.sizes, self.tensor, self.const, self.complex = mesh, sizes, tensor, const, complex_
        self.dim = len(sizes)
        self.size = int(np.prod(mesh)) if mesh else 1
        nd = len(mesh)
        self.domain = Obj(None, 'domain', {'dealias': tuple([ND(np.float64(1.5))] * self.dim), 'constant': tuple(const), 'dim': self.dim})
        self.L = {'c': Layout('coeff_layout', self, tuple(range(nd)), False, 0), 'g': Layout('grid_layout', self, tuple(range(self.dim - nd, self.dim)), True, 2)}
        self.dealias = (1.5,) * self.dim

    def labels(self, layout, scales, lead=()):
        shape = tuple(self.tensor) + layout.gshape(scales)
        n = int(np.prod(shape))
        return np.arange(1, n + 1).reshape(shape)

    def local(self, G, layout, scales, rank):
        key = tuple(slice(None) for _ in self.tensor) + tuple(slice(s, s + n) for s, n in layout.block(scales, rank))
        return G[key]


class Comm(AbsVal):
    def getattr(self, it, name):
        if name == 'rank':
            return it.state['rank']
        if name == 'size':
            return it.state['w'].size
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        st = it.state
        if name in ('Barrier', 'barrier'):
            return None
        pos = {'gather': ('sendobj', 'root'), 'allgather': ('sendobj',), 'allreduce': ('sendobj', 'op'), 'Allreduce': ('sendbuf', 'recvbuf', 'op'), 'reduce': ('sendobj', 'op', 'root'),
               'bcast': ('obj', 'root'), 'Reduce': ('sendbuf', 'recvbuf', 'op', 'root'), 'scatter': ('sendobj', 'root')}.get(name)
        if pos is None:
            return NotImplemented
        kw = dict(zip(pos, args))
        kw.update(kwargs)
        root = kw.get('root', 0)
        op = show(kw.get('op', 'MPI.SUM')).split('.')[-1]
        rooted = name in ('gather', 'reduce', 'bcast', 'scatter', 'Reduce')
        k = len(st['calls'])
        payload = kw.get('sendobj', kw.get('sendbuf', kw.get('obj')))
        if isinstance(payload, ND) and isinstance(payload.a, np.ndarray):
            payload = ND(payload.a.copy())
        st['calls'].append(((name, op if 'educe' in name else None, root if rooted else None), payload))
        if st['others'] is None:
            raise Collect()
        vals = []
        for r in range(st['w'].size):
            c = st['others'][r]
            if k >= len(c) or c[k][0] != st['calls'][k][0]:
                st['errors'].append((it.loc(), f'process {r} calls {c[k][0] if k < len(c) else "nothing"} where process {st["rank"]} calls {st["calls"][k][0]}'))
                raise Collect()
            vals.append(c[k][1])
        if name == 'allgather' or name == 'gather':
            return list(vals) if name == 'allgather' or st['rank'] == root else None
        if name == 'bcast':
            return vals[root]
        if 'educe' in name:
            try:
                x = [unwrap(v) for v in vals]
            except NotConcrete:
                raise PathAbort('reduction of unknown values')
            f = {'SUM': lambda a, b: a + b, 'MAX': np.maximum, 'MIN': np.minimum, 'PROD': lambda a, b: a * b}.get(op)
            if f is None:
                raise PathAbort(f'reduction {op}')
            shapes = {np.shape(y) for y in x}
            if name[0] == 'A' or name[0] == 'R':
                if len(shapes) > 1:
                    raise RaiseSig('MPIError', f'buffers of different shapes {shapes} are reduced', it.loc())
            r = x[0]
            for y in x[1:]:
                r = f(r, y)
            if name in ('Allreduce', 'Reduce'):
                if name == 'Reduce' and st['rank'] != root:
                    return None
                buf = kw['recvbuf'].a
                if np.shape(buf) != np.shape(r):
                    raise RaiseSig('MPIError', 'receive buffer has the wrong shape', it.loc())
                buf[...] = r
                return None
            if name == 'reduce' and st['rank'] != root:
                return None
            return wrap(r)
        return NotImplemented


class Collect(Exception):
    """The exchange of this process is not known yet."""


class Dset(AbsVal):
    """Array-like global data with attributes, as found in a file."""
    def __init__(self, a, attrs):
        self.a, self.attrs = a, attrs

    def getattr(self, it, name):
        if name == 'shape':
            return tuple(self.a.shape)
        if name == 'attrs':
            return self.attrs
        if name == 'ndim':
            return self.a.ndim
        return NotImplemented

    def getitem(self, it, key):
        return ND(self.a[unwrap(key)])


class FieldM(Obj):
    pass


class Cfg(NDConfig):
    max_paths = 8
    max_depth = 16
    max_while = 1000
    max_steps = 2000000

    def on_repo_call(self, it, clo, args, kwargs, node):
        n, s = clo.func.name, args[0] if args else None
        st = it.state
        if s is not None and s is st.get('field'):
            w = st['w']
            if n == 'preset_scales':
                st['scales'] = remedy(it, args[1])
                put(st, alloc(w, st))
                return None
            if n == 'preset_layout':
                st['layout'] = lay(it, args[1])
                put(st, alloc(w, st))
                return None
            if n == 'change_scales':
                sc = remedy(it, args[1])
                if sc != st['scales']:
                    if st['layout'] is w.L['g']:
                        st['layout'] = w.L['c']
                    st['moved'].append(('scales', sc))
                    st['scales'] = sc
                    put(st, ND(values(w, st)))
                return None
            if n in ('require_grid_space', 'require_coeff_space') and len(args) == 1:
                st['layout'] = w.L['g' if 'grid' in n else 'c']
                if 'grid' in n and st['scales'] == st.get('filter'):
                    st['offset'] = 100000
                put(st, ND(values(w, st)))
                return None
            if n in ('change_layout', 'require_layout'):
                l = lay(it, args[1])
                if l is not st['layout']:
                    st['moved'].append(('layout', l))
                    st['layout'] = l
                    put(st, ND(values(w, st)))
                return None
            if n == '__setitem__':
                key, v = args[1], args[2]
                if isinstance(key, tuple):
                    st['scales'] = remedy(it, key[1])
                    key = key[0]
                st['layout'] = lay(it, key)
                loc = alloc(w, st)
                v = unwrap(v)
                if np.shape(v) != loc.a.shape:
                    raise RaiseSig('ValueError', f'data of shape {np.shape(v)} are assigned to local data of shape {loc.a.shape}', it.loc())
                loc.a[...] = v
                put(st, loc)
                st['offset'] = 0
                st['sets'].append((st['layout'], st['scales'], loc.a.copy()))
                return None
            if n == '__getitem__':
                key = args[1]
                if isinstance(key, tuple):
                    raise PathAbort('field item with scales')
                l = lay(it, key)
                if l is not st['layout']:
                    st['moved'].append(('layout', l))
                    st['layout'] = l
                    put(st, ND(values(w, st)))
                return st['data']
        if n == 'copyto':
            return NotImplemented
        return NotImplemented

    def on_getattr(self, it, base, name):
        st = it.state
        if base is st.get('field'):
            if name in ('data', 'layout', 'scales'):
                return st[name] if name != 'scales' else tuple(ND(np.float64(x)) for x in st['scales'])
            w = st['w']
            v = {'domain': w.domain, 'dist': st['distobj'], 'tensorsig': tuple(Obj(None, 'cs', {'dim': d}) for d in w.tensor), 'dtype': Const(np.complex128 if w.complex else np.float64),
                 'is_real': not w.complex, 'is_complex': w.complex, 'name': 'f', 'global_shape': st['layout'].gshape(st['scales'])}.get(name, NotImplemented)
            return v
        return NotImplemented

    def on_setattr(self, it, base, name, value):
        st = it.state
        if base is st.get('field') and name == 'data':
            loc = alloc(st['w'], st)
            v = unwrap(value)
            if np.shape(v) != loc.a.shape:
                raise RaiseSig('ValueError', f'data of shape {np.shape(v)}', it.loc())
            put(st, ND(np.array(v)))
            return None
        return NotImplemented

    def on_new(self, it, cls, args, kwargs, node):
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        s = show(f)
        if s.endswith('default_rng'):
            it.state['seeds'].append(args[0] if args else kwargs.get('seed'))
            return Rng()
        return super().on_call(it, f, args, kwargs, node)


class Rng(AbsVal):
    """Random stream: the n-th number drawn has label n."""
    def __init__(self):
        self.n = 0

    def getattr(self, it, name):
        if name.startswith('__'):
            return NotImplemented
        return Native(f'draw_{name}', lambda it2, *a, **k: self.draw(it2, name, a, k))

    def callmethod(self, it, name, args, kwargs):
        return self.draw(it, name, args, kwargs)

    def draw(self, it, name, args, kw):
        kw = dict(kw)
        size = unwrap(kw.pop('size', args[0] if args else 1))
        it.state['draws'].append((name, tuple(sorted((k, show(v)) for k, v in kw.items()))))
        n = int(np.prod(size))
        out = np.arange(self.n, self.n + n, dtype=float).reshape(size)
        self.n += n
        if self.n > 5000:
            raise PathAbort('random stream is read without end')
        return ND(out)


def put(st, new):
    """The storage of the field is reused: earlier views lose their contents."""
    old = st['data'].a
    if old.size:
        old[...] = -9
    st['data'] = new


def alloc(w, st):
    shape = tuple(w.tensor) + tuple(n for s, n in st['layout'].block(st['scales'], st['rank']))
    return ND(np.full(shape, -7.0, dtype=complex if w.complex else float))


def values(w, st):
    """Local labels of the field's own data in its present layout and scales."""
    a = w.local(w.labels(st['layout'], st['scales']), st['layout'], st['scales'], st['rank'])
    return a.astype(complex if w.complex else float) + st.get('offset', 0)


def lay(it, x):
    w = it.state['w']
    if isinstance(x, Layout):
        return x
    if x in w.L:
        return w.L[x]
    raise PathAbort(f'unknown layout {show(x)}')


# ---- driver ---------------------------------------------------------------------------------
def setup(it, w, rank, layout, scales, others):
    st = it.state
    st.update(w=w, rank=rank, layout=w.L[layout], scales=tuple(float(x) for x in scales), errors=[], calls=[], others=others, moved=[], sets=[], seeds=[], draws=[])
    comm = Comm()
    st['distobj'] = Obj(None, 'dist', {'comm': comm, 'comm_cart': comm, 'dim': w.dim, 'coeff_layout': w.L['c'], 'grid_layout': w.L['g'], 'layouts': [w.L['c'], w.L['g']],
                                      'get_layout_object': Native('get_layout_object', lambda it2, x: lay(it2, x)),
                                      'remedy_scales': Native('remedy_scales', lambda it2, s: tuple(ND(np.float64(x)) for x in remedy(it2, s)))})
    cls = it.repo.cls('core.field', 'Field')
    f = Obj(cls, 'field')
    st['field'] = f
    st['data'] = ND(values(w, st))
    return f


def run_all(repo, rep, w, layout, scales, call, check, key, what):
    """Interpret `call(it, field)` on every process; collectives are matched across processes."""
    others = None
    for rnd in range(6):
        results, calls, pending = [], [], False
        for rank in range(w.size):
            it = Interp(repo, Cfg())

            def thunk(it):
                f = setup(it, w, rank, layout, scales, others)
                it.state['pending'] = False
                try:
                    return call(it, f)
                except Collect:
                    it.state['pending'] = True
                    return None
            paths = it.explore(thunk)
            if len(paths) != 1:
                rep.undec(f'{what}: {len(paths)} paths: {paths[0].cond_text()}')
                return
            r = paths[0]
            results.append(r)
            calls.append(r.extra['calls'])
            pending = pending or r.extra['pending']
        if not pending or any(r.extra['errors'] for r in results):
            break
        if others is not None and [len(c) for c in calls] == [len(c) for c in others]:
            break
        others = calls
        # calls made so far by processes that have not reached the exchange count as missing
    rep.count('runs on a process', w.size)
    loc = None
    for rank, r in enumerate(results):
        me = f"{what}, process {rank} of {w.size}"
        if r.outcome == 'abort':
            rep.undec(f'{me}: {r.value}')
            return
        msg = None
        if r.outcome == 'raise':
            msg = check(rank, None, r) if getattr(check, 'raises', False) else None
            if msg is None and not getattr(check, 'raises', False):
                msg = f'raises {r.value.name}: {r.value.value}'
            loc = r.value.loc
        elif r.extra['errors']:
            loc, msg = r.extra['errors'][0]
        elif r.extra['pending']:
            msg = 'collective call is not matched by the other processes'
        elif [c[0] for c in r.extra['calls']] != [c[0] for c in results[0].extra['calls']]:
            msg = 'collective calls differ between processes'
        else:
            msg = check(rank, r.value, r)
        cls = repo.cls('core.field', 'Field')
        m = key.split('|')[-1]
        rep.check(not msg, f"E03|{m}", f"{me}: {msg}", loc or (cls.method(m).loc if cls.method(m) else cls.module.rel), me)
        if msg:
            return


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def arr(v):
    try:
        return np.asarray(unwrap(v))
    except NotConcrete:
        return None


WORLDS = []


def worlds():
    out = []
    for mesh, sizes, tensor, const, cx in (
            ((), (4, 3), (), (False, False), False),
            ((3,), (4, 6), (2,), (False, False), False),
            ((3,), (1, 5), (), (True, False), True),
            ((2, 3), (3, 4, 5), (3, 2), (False,) * 3, True),
            ((2, 2), (4, 1, 5), (2,), (False, True, False), False),
            ((4,), (2, 5), (), (False, False), False)):
        out.append(World(mesh, sizes, tensor, const, cx))
    return out


def run(repo, rep):
    rep.rule('every process holds exactly its own block of the given global data, component axes included')
    rep.rule('gathering returns every element of the global data at its own index')
    rep.rule('loaded data arrive in the saved layout and at scales that reproduce the saved shape')
    rep.rule('reductions combine the values of all processes')
    rep.rule('element n of a chunked random array is number n of the stream, whatever part is requested')
    for w in worlds():
        name = f"{'x'.join(map(str, w.mesh)) or 'serial'} mesh, sizes {w.sizes}, tensor {w.tensor}"
        for lname in ('g', 'c'):
            for sc in ((1.0,) * w.dim, (1.5,) * w.dim):
                if lname == 'c' and sc[0] != 1.0:
                    continue
                one(repo, rep, w, lname, sc, f"{name}, {lname} layout, scales {sc[0]}")
        loads(repo, rep, w, name)
    roundoff(repo, rep)
    random_arrays(repo, rep)
    rep.floor('runs on a process', 300)
    rep.floor('random selections', 30)


def one(repo, rep, w, lname, sc, name):
    L = w.L[lname]
    cls = repo.cls('core.field', 'Field')

    def meth(it, f, m, *a, **k):
        return it.call(it.getattr(f, m), list(a), k)

    # gather
    for arg in (None, 'c', 'g'):
        tl = w.L[arg] if arg else L
        G = w.labels(tl, sc)

        def all_ok(rank, v, r, G=G, tl=tl):
            a = arr(v)
            if a is None or not same(a, G):
                return f'global data of shape {G.shape} come back as {show(v)}' if a is None or a.shape != G.shape else f'{int(np.sum(a != G))} of {a.size} elements are at the wrong index'
            if r.extra['layout'] is not tl:
                return f"field is left in {r.extra['layout']}"
            if v is r.extra['data'] or isinstance(v, ND) and w.size == 1 and np.shares_memory(v.a, r.extra['data'].a):
                return 'result is the field data itself'
        run_all(repo, rep, w, lname, sc, lambda it, f: meth(it, f, 'allgather_data', *([arg] if arg else [])), all_ok, 'allgather_data', f'allgather_data({arg or ""}), {name}')
        for root in {0, w.size - 1}:
            def root_ok(rank, v, r, G=G, root=root):
                if rank == root:
                    return all_ok(rank, v, r)
                return None
            run_all(repo, rep, w, lname, sc, lambda it, f: meth(it, f, 'gather_data', root=root, layout=arg), root_ok, 'gather_data', f'gather_data(root={root}, layout={arg}), {name}')
    # scatter
    G = w.labels(L, sc) * 10

    def loc_ok(rank, v, r):
        want = w.local(G, L, sc, rank)
        got = r.extra['data'].a
        if r.extra['layout'] is not L or r.extra['scales'] != sc:
            return 'layout or scales change'
        if not same(got, want):
            return f'{int(np.sum(got != want)) if got.shape == want.shape else "all"} local elements are wrong'
    run_all(repo, rep, w, lname, sc, lambda it, f: meth(it, f, 'set_global_data', ND(G.copy())), loc_ok, 'set_global_data', f'set_global_data, {name}')
    # norms
    for order in (2, 1, 4, 'inf'):
        for arg in (None, 'c' if lname == 'g' else 'g'):
            tl = w.L[arg] if arg else L
            A = w.labels(tl, sc).astype(float)
            want = A.max() if order == 'inf' else (A ** order).sum() ** (1 / order)

            def norm_ok(rank, v, r, want=want):
                a = arr(v)
                if a is None or a.shape != () or not np.isclose(float(a.real), want, rtol=1e-12):
                    return f'norm is {show(v)} instead of {want}'
            run_all(repo, rep, w, lname, sc, lambda it, f: meth(it, f, 'allreduce_data_norm', layout=arg, order=sympy_inf() if order == 'inf' else order), norm_ok, 'allreduce_data_norm', f'allreduce_data_norm(order={order}, layout={arg}), {name}')
        if order == 'inf':
            run_all(repo, rep, w, lname, sc, lambda it, f: meth(it, f, 'allreduce_data_max'), lambda rank, v, r: None if arr(v) is not None and float(arr(v).real) == w.labels(L, sc).max() else f'maximum is {show(v)}', 'allreduce_data_max', f'allreduce_data_max, {name}')
    # random fill
    for larg, sarg in ((None, None), ('g', None), (None, 1.5), ('c', 1.0)):
        tl = w.L[larg] if larg else L
        ts = (float(sarg),) * w.dim if sarg else sc
        shape = tuple(w.tensor) + tl.gshape(ts)
        n = int(np.prod(shape))
        if w.complex:
            pairs = np.arange(2 * n).reshape(shape + (2,))
            G2 = pairs[..., 0] + 1j * pairs[..., 1]
        else:
            G2 = np.arange(n).reshape(shape)

        def rnd_ok(rank, v, r, G2=G2, tl=tl, ts=ts):
            want = w.local(G2, tl, ts, rank)
            got = r.extra['data'].a
            if r.extra['layout'] is not tl or r.extra['scales'] != ts:
                return f"field is filled in {r.extra['layout']} with scales {r.extra['scales']}"
            if not same(got, want):
                return 'local data are not this process\'s part of the global random array'
            if any(s != 42 for s in r.extra['seeds']) or not r.extra['seeds']:
                return f"generator is seeded with {show(r.extra['seeds'])}"
            if any(d != ('normal', (('scale', '3'),)) for d in r.extra['draws']):
                return f"numbers are drawn from {r.extra['draws'][0]}"
        kw = {'seed': 42, 'chunk_size': 7, 'distribution': 'normal', 'scale': 3}
        if larg:
            kw['layout'] = larg
        if sarg:
            kw['scales'] = ND(np.float64(sarg))
        run_all(repo, rep, w, lname, sc, lambda it, f: meth(it, f, 'fill_random', **kw), rnd_ok, 'fill_random', f'fill_random(layout={larg}, scales={sarg}), {name}')
    # filters
    if lname == 'g':
        filters(repo, rep, w, sc, name)


def filters(repo, rep, w, sc, name):
    C, Gl = w.L['c'], w.L['g']
    for start in ('g', 'c'):
        for by in ('scales', 'shape', 'number'):
            fs = (0.5,) * w.dim
            arg = {'scales': {'scales': tuple(ND(np.float64(0.5)) for _ in range(w.dim))}, 'number': {'scales': ND(np.float64(0.5))}, 'shape': {'shape': Gl.gshape(fs)}}[by]
            if by == 'shape':
                # scales that reproduce the requested shape
                unit = w.L['g'].gshape((1.0,) * w.dim)
                fs = tuple(a / b for a, b in zip(Gl.gshape(fs), unit))
            for m in ('low_pass_filter', 'high_pass_filter'):
                def call(it, f):
                    it.state['filter'] = fs
                    return it.call(it.getattr(f, m), [], arg)

                def ok(rank, v, r):
                    st = r.extra
                    if st['scales'] != sc:
                        return f"field is left with scales {st['scales']} instead of {sc}"
                    if m == 'low_pass_filter':
                        if st.get('offset') != 100000:
                            return 'the field is not truncated to the requested scales'
                        return None
                    if len(st['sets']) != 1 or st['sets'][0][0] is not C:
                        return 'the filtered coefficients are not stored'
                    if not np.all(st['sets'][0][2] == -100000):
                        return 'the stored coefficients are not the original ones minus the truncated ones'
                run_all(repo, rep, w, start, sc, call, ok, m, f'{m} by {by} from {start}, {name}')

    def both(rank, v, r):
        if r.outcome != 'raise' or r.value.name != 'ValueError':
            return 'a filter shape together with scales is accepted'
    both.raises = True
    run_all(repo, rep, w, 'g', sc, lambda it, f: it.call(it.getattr(f, 'low_pass_filter'), [], {'shape': tuple(w.sizes), 'scales': 1}), both, 'low_pass_filter', f'low_pass_filter with shape and scales, {name}')


def sympy_inf():
    import sympy
    return sympy.oo


def loads(repo, rep, w, name):
    for kind, lname in (('grid', 'g'), ('coeff', 'c')):
        L = w.L[lname]
        for sc in ((1.0, 0.5, 2.0) if kind == 'grid' else (1.0,)):
            scales = (sc,) * w.dim
            G = w.labels(L, scales) * 10
            T = np.stack([G + 5000 * k for k in range(3)])
            for func in (False, True):
                for entry in ('direct', 'hdf5', 'hdf5task'):
                    def call(it, f):
                        fn = Native('func', lambda it2, x: ND(unwrap(x) + 0.5)) if func else None
                        if entry == 'direct':
                            return it.call(it.getattr(f, f'load_from_global_{kind}_data'), [ND(G.copy())], {'func': fn} if func else {})
                        d = Dset(T, {'grid_space': ND(np.array([kind == 'grid'] * w.dim))})
                        bad = Dset(T * 0, {'grid_space': ND(np.array([kind == 'grid'] * w.dim))})
                        file = {'tasks': {'f': d, 'other': bad} if entry == 'hdf5' else {'f': bad, 'other': d}}
                        a = [file, 1]
                        k = {'func': fn} if func else {}
                        if entry == 'hdf5task':
                            k['task'] = 'other'
                        return it.call(it.getattr(f, 'load_from_hdf5'), a, k)
                    src = G if entry == 'direct' else T[1]

                    def ok(rank, v, r, src=src):
                        sets = r.extra['sets']
                        if len(sets) != 1:
                            return f'data are assigned {len(sets)} times'
                        l, s, a = sets[0]
                        if l is not L:
                            return f'data are assigned in {l}'
                        if L.gshape(s) != L.gshape(scales):
                            return f'data are assigned at scales {s} instead of {scales}'
                        want = w.local(src, L, scales, rank) + (0.5 if func else 0)
                        if not same(a, want):
                            return 'local data are not this process\'s block of the given data'
                        if np.any(r.extra['data'].a == -7):
                            return 'loaded data are discarded afterwards'
                        if kind == 'grid' and r.extra['scales'] != w.dealias:
                            return f"field is left with scales {r.extra['scales']} instead of its dealias scales"
                    m = f'load_from_global_{kind}_data'
                    # the field starts elsewhere: other layout and other scales
                    run_all(repo, rep, w, 'c' if lname == 'g' else 'g', (0.5,) * w.dim, call, ok, m, f'{m} ({entry}{", func" if func else ""}) scales {sc}, {name}')
    # refused: mixed spaces, wrong coefficient shape
    def refuses(what):
        def f(rank, v, r):
            if r.outcome != 'raise':
                return f'{what} is accepted'
            if r.value.name != 'ValueError':
                return f'{what} raises {r.value.name}'
        f.raises = True
        return f
    if w.dim > 1:
        gs = [True] + [False] * (w.dim - 1)
        G = w.labels(w.L['c'], (1.0,) * w.dim)
        run_all(repo, rep, w, 'c', (1.0,) * w.dim, lambda it, f: it.call(it.getattr(f, 'load_from_hdf5'), [{'tasks': {'f': Dset(G[None], {'grid_space': ND(np.array(gs))})}}, 0], {}), refuses('data in a mixed space'), 'load_from_hdf5', f'load_from_hdf5 of mixed data, {name}')
    ax = next(i for i, c in enumerate(w.const) if not c)
    G = w.labels(w.L['c'], (1.0,) * w.dim)
    G = np.concatenate([G, G], axis=len(w.tensor) + ax)
    run_all(repo, rep, w, 'c', (1.0,) * w.dim, lambda it, f: it.call(it.getattr(f, 'load_from_global_coeff_data'), [ND(G)], {}), refuses('coefficient data of another shape'), 'load_from_global_coeff_data', f'coefficient data of another shape, {name}')


def roundoff(repo, rep):
    """Scales inferred from shapes have to reproduce these shapes in double precision."""
    cases = [(n, m) for n in range(1, 41) for m in range(1, 61)]
    bad = [(n, m) for n, m in cases if math.ceil((m / n) * n) != m]
    cases = bad[:25] + [(8, 12), (8, 8), (7, 5), (9, 3), (16, 24), (5, 7)]
    for n, m in cases:
        w = World((2,), (n, 3), (), (False, False), False)
        G = np.arange(m * 3).reshape(m, 3) + 1

        def ok(rank, v, r):
            sets = r.extra['sets']
            if len(sets) != 1:
                return 'data are not assigned'
            l, s, a = sets[0]
            if l.gshape(s) != (m, 3):
                return f'grid data of size {m} on {n} modes are loaded at scales giving size {l.gshape(s)[0]}'
            if not same(a, w.local(G, l, s, rank)):
                return 'local data are wrong'
        run_all(repo, rep, w, 'g', (1.0, 1.0), lambda it, f: it.call(it.getattr(f, 'load_from_global_grid_data'), [ND(G.copy())], {}), ok, 'load_from_global_grid_data', f'grid data of size {m} on {n} modes')


def random_arrays(repo, rep):
    cls = repo.cls('tools.random_arrays', 'ChunkedRandomArray')
    sl = slice
    shapes = {(5, 4): [(sl(None), sl(None)), (sl(0, 2), sl(None)), (sl(2, 5), sl(1, 3)), (sl(5, 5), sl(None)), (sl(4, 5), sl(3, 4)), (sl(0, 1), sl(0, 1)), (sl(3, 4),)], (13,): [(sl(0, 5),), (sl(5, 10),), (sl(10, 13),), (sl(13, 13),), (sl(12, 13),), sl(2, 11)]}
    for shape, keys in shapes.items():
        S = np.arange(int(np.prod(shape))).reshape(shape)
        for key in keys:
            for cs in (1, 3, 5, 100):
                it = Interp(repo, Cfg())

                def thunk(it):
                    it.state.update(seeds=[], draws=[])
                    o = it.new(cls, [shape], {'seed': 9, 'chunk_size': cs, 'distribution': 'uniform', 'low': 2})
                    return it.getitem(o, key)
                paths = it.explore(thunk)
                rep.count('random selections')
                what = f'chunks of {cs}, shape {shape}, selection {show(key)}'
                for r in paths:
                    if r.outcome == 'abort':
                        rep.undec(f'{what}: {r.value}')
                        continue
                    msg = None
                    if r.outcome == 'raise':
                        msg = f'raises {r.value.name}: {r.value.value}'
                    else:
                        a = arr(r.value)
                        want = S[key]
                        if a is None or not same(a, want):
                            msg = f'selection holds numbers {a.ravel()[:8].tolist() if a is not None else show(r.value)} of the stream instead of {want.ravel()[:8].tolist()}'
                        elif set(r.extra['seeds']) != {9} and want.size:
                            msg = f"seed {show(r.extra['seeds'])}"
                        elif want.size and set(r.extra['draws']) != {('uniform', (('low', '2'),))}:
                            msg = f"draws {r.extra['draws'][0]}"
                    rep.check(not msg, 'E03|ChunkedRandomArray', f'{what}: {msg}', cls.module.rel, what)
