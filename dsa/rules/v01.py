"""Timestep limits and flow diagnostics are the ones of the whole domain.

The classes of extras/flow_tools.py are abstractly interpreted on every process
of small communicators whose processes hold known (also empty) pieces of the
data; the collective exchanges are matched across the processes.  Timestep
histories are compared with the documented rule.  The frequency operators of
all coordinate systems are interpreted with grids of known spacings, and the
result is compared with the sum of the velocity components over the resolved
scales.
"""
import itertools
import math
import numpy as np
from ..interp import *
from ..nd import ND, NDConfig, unwrap, wrap, NotConcrete
from ..repo import AnalysisBroken

EXPLANATION = __doc__


class Collect(Exception):
    pass


class Comm(AbsVal):
    def getattr(self, it, name):
        if name in ('rank', 'size'):
            return it.state[name]
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        st = it.state
        if name in ('Barrier', 'barrier'):
            return None
        pos = {'allreduce': ('sendobj', 'op'), 'Allreduce': ('sendbuf', 'recvbuf', 'op'), 'allgather': ('sendobj',)}.get(name)
        if pos is None:
            return NotImplemented
        kw = dict(zip(pos, args))
        kw.update(kwargs)
        op = show(kw.get('op', 'MPI.SUM')).split('.')[-1]
        src = kw.get('sendobj', kw.get('sendbuf'))
        if name == 'Allreduce' and show(src).endswith('IN_PLACE'):
            src = kw['recvbuf']
        v = np.array(unwrap(src))
        k = len(st['calls'])
        st['calls'].append((name, op, v))
        if st['others'] is None:
            raise Collect()
        vals = []
        for r in range(st['size']):
            c = st['others'][r]
            if k >= len(c):
                raise Collect()
            if c[k][:2] != (name, op):
                st['errors'].append(f'process {r} calls {c[k][:2]} where process {st["rank"]} calls {(name, op)}')
                raise Collect()
            vals.append(c[k][2])
        vals[st['rank']] = v
        if name == 'allgather':
            return [wrap(x) for x in vals]
        f = {'SUM': np.add, 'MAX': np.maximum, 'MIN': np.minimum, 'PROD': np.multiply}.get(op)
        if f is None:
            raise PathAbort(f'reduction {op}')
        x = vals[0]
        for y in vals[1:]:
            x = f(x, y)
        if name == 'Allreduce':
            buf = unwrap(kw['recvbuf'])
            if buf.dtype != v.dtype or buf.shape != np.shape(x):
                raise RaiseSig('MPIError', 'buffers do not match', it.loc())
            buf[...] = x
            return None
        return wrap(x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x)


class FieldM(AbsVal):
    """A task output: grid data of this process, complete on request."""
    def __init__(self, value):
        self.value = value          # local grid data

    def truth(self, it):
        return True

    def getitem(self, it, key):
        if key == 'g':
            return ND(np.array(self.value, dtype=float))
        raise PathAbort(f'field data in {show(key)}')


class OpM(AbsVal):
    def __init__(self, what, arg=None, coord=None):
        self.what, self.arg, self.coord = what, arg, coord

    def __repr__(self):
        return f"{self.what}({show(self.arg)})"

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'domain':
            return Obj(None, 'domain', {'dealias': ('DEALIAS', self)})
        if name == 'tensorsig':
            return getattr(self, 'tensorsig', ())
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'evaluate':
            return FieldM(it.state['integral'](self.arg))
        return NotImplemented


class Handler(AbsVal):
    """Dictionary handler: tasks evaluated by the schedule of its cadence."""
    def __init__(self, kw):
        self.kw, self.tasks, self.data = kw, [], {}

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'fields':
            return dict(self.data)
        if name == 'tasks':
            return self.tasks
        return NotImplemented

    def getitem(self, it, key):
        if key not in self.data:
            raise RaiseSig('KeyError', str(key), it.loc())
        return self.data[key]

    def callmethod(self, it, name, args, kwargs):
        if name == 'add_task':
            kw = dict(zip(('task', 'layout', 'name', 'scales'), args))
            kw.update(kwargs)
            t = kw.pop('task')
            self.tasks.append({'operator': t if isinstance(t, OpM) else OpM('task', t), 'name': kw.get('name'), 'layout': kw.get('layout'), 'scales': kw.get('scales')})
            return None
        return NotImplemented


class Evaluator(AbsVal):
    def callmethod(self, it, name, args, kwargs):
        if name == 'add_dictionary_handler':
            h = Handler(dict(kwargs))
            it.state['handlers'].append(h)
            return h
        return NotImplemented


class Cfg(NDConfig):
    max_paths = 8
    max_steps = 10 ** 6
    max_depth = 30

    def on_new(self, it, cls, args, kwargs, node):
        if cls.module.name.endswith('operators') and cls.name in ('Integrate', 'AdvectiveCFL'):
            return OpM(cls.name, args[0], args[1] if len(args) > 1 else None)
        return NotImplemented

    def on_getattr(self, it, base, name):
        if isinstance(base, NUM) and name in ('size', 'shape', 'ndim', 'dtype'):
            raise RaiseSig('AttributeError', f"'int' object has no attribute '{name}'", it.loc())
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        r = self.named(it, f, args)
        return super().on_call(it, f, args, kwargs, node) if r is None else r

    def named(self, it, f, args):
        if show(f).split('.')[-1] in ('warning', 'info', 'debug'):
            return ()
        return None


def everywhere(repo, P, thunk):
    """Results of thunk(it, rank) on all processes with matched exchanges."""
    others = None
    for rnd in range(40):
        out, calls = [], []
        for rank in range(P):
            it = Interp(repo, Cfg())

            def go(i):
                i.state.update(rank=rank, size=P, calls=[], others=others, errors=[], handlers=[], pending=False)
                try:
                    return thunk(i, rank)
                except Collect:
                    i.state['pending'] = True
            rs = it.explore(go)
            if len(rs) != 1:
                return f'{len(rs)} paths: {rs[0].cond_text()}', None
            if rs[0].outcome == 'abort':
                return str(getattr(rs[0].value, 'why', rs[0].value)), None
            out.append(rs[0])
            calls.append(rs[0].extra['calls'])
        err = [e for r in out for e in r.extra['errors']]
        if err:
            return None, err[0]
        if not any(r.extra['pending'] for r in out) or any(r.outcome == 'raise' for r in out):
            # repeated until the exchanged values no longer change
            if others is not None and all(len(a) == len(b) and all(np.array_equal(x[2], y[2], equal_nan=True) for x, y in zip(a, b)) for a, b in zip(calls, others)):
                return None, out
            if all(not c for c in calls):
                return None, out
        elif others is not None and [len(c) for c in calls] == [len(c) for c in others] and all(np.array_equal(x[2], y[2], equal_nan=True) for a, b in zip(calls, others) for x, y in zip(a, b)):
            return None, 'a process waits for an exchange that the others do not make'
        others = calls
    return 'the exchanges do not settle', None


PIECES = [
    [[3., -7., 2., 5.]], [[0., 0.]],
    [[3., -7.], [2.]], [[], [4., -1.5]], [[-2., -9.], []], [[0.], [0., 0.]],
    [[1.], [], [-6., 2.5]], [[], [], [8.]],
]


def cls_new(it, repo, name, args, kwargs=None):
    c = repo.cls('extras.flow_tools', name)
    return it.instantiate(c, args, kwargs or {}) if hasattr(it, 'instantiate') else it.call(c, args, kwargs or {})


def solver_model():
    return Obj(None, 'solver', {'dist': Obj(None, 'dist', {'comm_cart': Comm(), 'comm': Comm()}), 'evaluator': Evaluator(), 'iteration': 0, 'initial_iteration': 0})


def judge(rep, repo, P, thunk, want, key, what, cls):
    und, out = everywhere(repo, P, thunk)
    loc = repo.cls('extras.flow_tools', cls).loc
    if und:
        rep.undec(f'{what}: {und}')
        return
    if isinstance(out, str):
        rep.violation(key, f'{what}: {out}', loc)
        return
    for rank, r in enumerate(out):
        me = f'{what}, process {rank} of {P}'
        if r.outcome == 'raise':
            ok = isinstance(want, type) and r.value.name == want.__name__
            rep.check(ok, key, f'{me}: raises {r.value.name}: {show(r.value.value)}', r.value.loc, me)
        elif isinstance(want, type):
            rep.violation(key, f'{me}: does not raise {want.__name__}', loc)
        else:
            msg = want(rank, r.value, r)
            rep.check(not msg, key, f'{me}: {msg}', loc, me)


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def number(v):
    v = unwrap(v)
    return complex(v).real if np.ndim(v) == 0 else float(np.asarray(v).reshape(()))


def run(repo, rep):
    rep.rule("reductions over any split of the data, with empty pieces, give the value of the whole data on every process")
    rep.rule("timesteps follow the documented limits, cadence and threshold")
    rep.rule("grid-crossing frequencies add the velocity components over the resolved scales of every coordinate")
    reducers(repo, rep)
    flow(repo, rep)
    timesteps(repo, rep)
    tasks(repo, rep)
    from . import _cfl
    _cfl.run(repo, rep)
    rep.floor('reductions', 20)
    rep.floor('timestep histories', 50)


def reducers(repo, rep):
    ops = {'global_min': min, 'global_max': max, 'global_mean': lambda x: sum(x) / len(x)}
    for pieces in PIECES:
        full = sum(pieces, [])
        for name, f in ops.items():
            def thunk(it, rank):
                r = cls_new(it, repo, 'GlobalArrayReducer', [Comm()])
                d = ND(np.array(pieces[rank], dtype=float))
                first = it.call(it.getattr(r, name), [d], {})
                again = it.call(it.getattr(r, name), [ND(np.array(pieces[rank], dtype=float) * 2)], {})
                return first, again

            def want(rank, v, r):
                a, b = number(v[0]), number(v[1])
                if not close(a, f(full)) or not close(b, f([2 * x for x in full])):
                    return f'{name} of {pieces} is {a:g} (then {b:g} for doubled data) instead of {f(full):g}'
            rep.count('reductions')
            judge(rep, repo, len(pieces), thunk, want, f'reducer|{name}', f'{name} of {pieces}', 'GlobalArrayReducer')
        for op, f in (('MIN', min), ('MAX', max), ('SUM', sum)):
            loc = [sum(p) + k for k, p in enumerate(pieces)]

            def thunk(it, rank):
                r = cls_new(it, repo, 'GlobalArrayReducer', [Comm()])
                return it.call(it.getattr(r, 'reduce_scalar'), [wrap(np.float64(loc[rank])), Term('attr', Term('ext', 'mpi4py.MPI'), op)], {})
            rep.count('reductions')
            judge(rep, repo, len(pieces), thunk, lambda rank, v, r: None if close(number(v), f(loc)) else f'reduces {loc} with {op} to {number(v):g}', 'reducer|reduce_scalar', f'{op} of {loc}', 'GlobalArrayReducer')


def flow(repo, rep):
    for pieces in PIECES:
        full = sum(pieces, [])
        ref = {'min': min(full), 'max': max(full), 'grid_average': sum(full) / len(full), 'volume_integral': 12.5}
        for pre, name, order in itertools.product((False, True), ref, (1, -1)):
            if pre and name != 'volume_integral':
                continue

            def thunk(it, rank):
                s = solver_model()
                asked = it.state['asked'] = []

                def integral(op):
                    asked.append(op)
                    return [ref['volume_integral']] if pieces[rank] else []
                it.state['integral'] = integral
                fl = cls_new(it, repo, 'GlobalFlowProperty', [s], {'cadence': 7})
                for pr in (('u*u', 'other'), ('u', 'Re'))[::order]:
                    it.call(it.getattr(fl, 'add_property'), [*pr], {'precompute_integral': True} if pre else {})
                h = it.state['handlers'][0]
                for t in h.tasks:
                    o = t['operator']
                    if o.what == 'Integrate':
                        # an integral of the property itself, precomputed by the handler
                        a = o.arg.arg if isinstance(o.arg, OpM) else None
                        if a not in ('u', 'u*u'):
                            it.state['errors'].append(f'the precomputed integral integrates {show(o.arg)}')
                        h.data[t['name']] = FieldM([ref['volume_integral'] if a == 'u' else -5.] if pieces[rank] else [])
                    else:
                        h.data[t['name']] = FieldM(pieces[rank] if o.arg == 'u' else [1e6] * len(pieces[rank]))
                return it.call(it.getattr(fl, name), ['Re'], {})

            def want(rank, v, r):
                h = r.extra['handlers']
                if len(h) != 1 or number(h[0].kw.get('iter', -1)) != 7:
                    return 'the handler does not have the requested cadence'
                if any(t['layout'] != 'g' for t in h[0].tasks):
                    return 'a property is not evaluated on the grid'
                if name == 'volume_integral' and not pre and [getattr(a, 'value', None) for a in r.extra['asked']] != [[float(x) for x in pieces[rank]]]  and [getattr(a, 'value', None) for a in r.extra['asked']] != [pieces[rank]]:
                    return 'the integral of the property is not evaluated once'
                if not close(number(v), ref[name]):
                    return f'{name} of {pieces} is {number(v):g} instead of {ref[name]:g}'
            rep.count('flow properties')
            judge(rep, repo, len(pieces), thunk, want, f'flow|{name}', f"{name}{' (precomputed)' if pre else ''} of {pieces}", 'GlobalFlowProperty')


def limit(dt, old, p):
    dt = min(dt * p['safety'], p['max_dt'], p['max_change'] * old)
    dt = max(dt, p['min_dt'], p['min_change'] * old)
    return dt if abs(dt - old) > p['threshold'] * old else old


def timesteps(repo, rep):
    deep = rep.tier == 'thorough'
    inf = math.inf
    params = []
    base = dict(safety=1., max_dt=inf, min_dt=0., max_change=inf, min_change=0., threshold=0.)
    for over in ({}, {'safety': .5}, {'max_dt': .3}, {'max_dt': 600.}, {'min_dt': .4}, {'max_change': 1.25}, {'min_change': .75}, {'threshold': .5}, {'threshold': 1.}, {'threshold': .1, 'max_change': 2.},
                 {'max_dt': .2, 'min_dt': .6}, {'max_change': .5, 'min_change': 2.}, {'safety': 2., 'max_dt': .7, 'min_dt': .05, 'max_change': 1.5, 'min_change': .5, 'threshold': .05},
                 {'safety': .3, 'min_dt': .1, 'max_change': 3.}):
        params.append({**base, **over})
    # frequency arrays of successive states: (pieces per process, one list per frequency)
    fr = [
        [[[2., 1.]], [[1., 3.]]],
        [[[0., 0.]], [[0., 0.]]],
        [[[-.5, .25]], [[.5, -.125]]],
        [[[16., -3.]], [[-8., 40.]]],
        [[[1., 1.1]], [[1., 1.]]],
        [[[2e-3, 1e-3]], [[0., 1e-3]]],
    ]
    hists = []
    for start, cad, n in ((0, 1, 8), (0, 2, 9), (0, 3, 10), (4, 1, 4), (4, 3, 9), (5, 2, 8)) if not deep else [(s, c, 4 * c + 1) for s in range(7) for c in range(1, 5)]:
        hists.append((start, cad, n))
    for (start, cad, n), p in itertools.product(hists, params):
        for P in (1, 2):
            if P == 2 and not (p is params[0] or p is params[-2]):
                continue
            dt0 = .5
            # documented rule
            stored, want_dts, last, seen = dt0, [], None, -1
            for k in range(n):
                it_n = start + k
                if (it_n - 1) % cad == 0 and it_n - 1 > start:
                    f = np.abs(np.array(last)).sum(axis=0).max()
                    stored = limit(inf if f == 0 else 1 / f, stored, p)
                want_dts.append(stored)
                if it_n // cad > seen:          # the handler is evaluated at the beginning of the step
                    seen = it_n // cad
                    last = [x[0] for x in fr[it_n % len(fr)]]

            def thunk(it, rank):
                s = solver_model()
                s.attrs['initial_iteration'] = start
                kw = {k: (wrap(np.float64(v)) if v != inf else wrap(np.float64(v))) for k, v in p.items()}
                c = cls_new(it, repo, 'CFL', [s, wrap(np.float64(dt0))], {'cadence': cad, **kw})
                h = it.state['handlers'][0]
                every = h.kw.get('iter', 1)
                out, seen = [], -1
                for k in range(n):
                    it_n = start + k
                    s.attrs['iteration'] = it_n
                    out.append(it.call(it.getattr(c, 'compute_timestep'), [], {}))
                    if it_n // every > seen:
                        seen = it_n // every
                        for j, x in enumerate(fr[it_n % len(fr)]):
                            x = x[0]
                            if P == 2:
                                x = x[:1] if rank == 0 else x[1:]
                            h.data[f'f{j}'] = FieldM(x)
                return out

            def want(rank, v, r):
                got = [number(x) for x in v]
                if not all(close(a, b) for a, b in zip(got, want_dts)):
                    return f'timesteps {[round(x, 6) for x in got]} instead of {[round(x, 6) for x in want_dts]}'
            rep.count('timestep histories')
            pars = {k: v for k, v in p.items() if v != base[k]}
            judge(rep, repo, P, thunk, want, 'timestep|compute_timestep', f'timesteps from iteration {start} with cadence {cad} and {pars}', 'CFL')
    # processes without grid points
    for pieces in ([[1., 4.], []], [[], [2.]], [[0.], []]):
        def thunk(it, rank):
            s = solver_model()
            c = cls_new(it, repo, 'CFL', [s, wrap(np.float64(.5))], {'max_dt': wrap(np.float64(3.))})
            s.attrs['iteration'] = 2
            it.state['handlers'][0].data['f'] = FieldM(pieces[rank])
            return it.call(it.getattr(c, 'compute_timestep'), [], {})
        f = max(sum(pieces, []))
        w = min(1 / f if f else inf, 3.)
        judge(rep, repo, 2, thunk, lambda rank, v, r: None if close(number(v), w) else f'timestep {number(v):g} instead of {w:g}', 'timestep|empty', f'timestep for frequencies {pieces}', 'CFL')


def tasks(repo, rep):
    for rank_ in (0, 1, 2):
        def thunk(it, rank):
            s = solver_model()
            c = cls_new(it, repo, 'CFL', [s, wrap(np.float64(.5))], {})
            u = OpM('velocity', 'u')
            u.tensorsig = tuple(f'cs{i}' for i in range(rank_))
            it.call(it.getattr(c, 'add_velocity'), [u], {})
            f = OpM('frequency', 'f')
            it.call(it.getattr(c, 'add_frequency'), [f], {})
            return u, f

        def want(rank, v, r):
            t = r.extra['handlers'][0].tasks
            if len(t) != 2:
                return f'{len(t)} tasks are added for a velocity and a frequency'
            o = t[0]['operator']
            if o.what != 'AdvectiveCFL' or o.arg is not v[0] or o.coord != 'cs0':
                return f'the frequency of the velocity is {show(o)} along {show(o.coord)}'
            if t[1]['operator'] is not v[1]:
                return 'the given frequency is not the one evaluated'
            for x in t:
                if x['layout'] != 'g' or x['scales'] != ('DEALIAS', x['operator']):
                    return 'a frequency is not evaluated on its dealiased grid'
        rep.count('frequency tasks')
        judge(rep, repo, 1, thunk, want if rank_ == 1 else ValueError, 'tasks|velocity', f'adding a velocity of rank {rank_}', 'CFL')
