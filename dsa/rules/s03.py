"""The initial value loop: stop conditions, timestep checks, clocks, symmetry enforcement, restarts and statistics.

The initial value solver is abstractly interpreted with a model of the
timestepper, evaluator, clock and restart file, over histories of loop calls.
"""
import itertools
import numpy as np
from ..interp import *
from ..nd import ND, SP, Const, unwrap, wrap, NotConcrete
from ._solver import *


class Cfg(SolverCfg):
    max_while = 60

    def on_call(self, it, f, args, kwargs, node):
        w = it.state['w']
        if show(f).endswith('.allreduce'):
            return args[0]
        return super().on_call(it, f, args, kwargs, node)


class Stepper(AbsVal):
    """Advances time and the pencil systems; may fail."""
    def __init__(self, w, steps=1, stages=1):
        self.w, self.steps, self.stages = w, steps, stages
        self.calls, self.fail = [], None

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in ('steps', 'stages'):
            return getattr(self, name)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'step':
            s = it.state['solver']
            kw = dict(zip(('dt', 'wall_time'), args))
            kw.update(kwargs)
            self.calls.append((kw['dt'], kw.get('wall_time'), unwrap(it.getattr(s, 'iteration')), unwrap(it.getattr(s, 'sim_time'))))
            self.w.events.append(('step',))
            if self.fail is not None and len(self.calls) > self.fail:
                raise RaiseSig('StepError', 'step', it.loc())
            it.setattr(s, 'sim_time', wrap(unwrap(it.getattr(s, 'sim_time')) + unwrap(kw['dt'])))
            for v in self.w.vars:
                v.layout = 'c'
            return None
        return NotImplemented


class Comm(AbsVal):
    def __init__(self, w, size=1, rank=0):
        self.w, self.size, self.rank = w, size, rank

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in ('size', 'rank'):
            return getattr(self, name)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'Bcast':
            root = kwargs.get('root', args[1] if len(args) > 1 else 0)
            self.w.events.append(('Bcast', root))
            if self.rank != root:
                args[0].a[...] = self.w.clock[root]
            return None
        if name == 'bcast':
            root = kwargs.get('root', args[1] if len(args) > 1 else 0)
            return wrap(self.w.clock[root]) if self.rank != root else args[0]
        if name == 'allreduce':
            self.w.events.append(('allreduce', show(kwargs.get('op', args[1] if len(args) > 1 else None))))
            return wrap(unwrap(args[0]) * self.size)
        if name == 'gather':
            return [args[0]] * self.size if self.rank == kwargs.get('root', 0) else None
        if name in ('Barrier', 'barrier'):
            return None
        return NotImplemented


class ExtObj(AbsVal):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        return None

    def binop(self, it, op, other, swapped):
        return self


class FileM(AbsVal):
    def __init__(self, w, tasks):
        self.w, self.tasks = w, tasks

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        if name == '__enter__':
            self.w.events.append('open')
            return self
        if name == '__exit__':
            self.w.events.append('close')
            return None
        return NotImplemented

    def getitem(self, it, key):
        if key == 'scales':
            return {k: ND(v.copy()) for k, v in self.w.scales.items()}
        if key == 'tasks':
            return {n: n for n in self.tasks}
        if isinstance(key, str) and key.startswith('scales/'):
            return ND(self.w.scales[key[7:]].copy())
        return NotImplemented


class World(WorldS):
    def __init__(self, repo, it, dtype=np.complex128, t0=0.0, size=1, rank=0):
        super().__init__(repo, it, 'InitialValueSolver', dtype)
        self.clock = [100.0, 7.0]
        self.tick = 0
        self.comm = Comm(self, size, rank)
        self.dist.attrs['comm'] = self.dist.attrs['comm_cart'] = self.comm
        self.problem.attrs['time'].arr[:] = t0
        self.stepper = None
        self.tasks = None
        self.scales = {'write_number': np.array([11, 12, 13]), 'timestep': np.array([.5, .25, .125]), 'iteration': np.array([40, 50, 60]), 'sim_time': np.array([1.5, 2.5, 3.5])}

    def external(self, it, name, args, kwargs):
        if name == 'time.time':
            self.clock = [x + self.tick for x in self.clock]
            return wrap(self.clock[self.comm.rank])
        if name == 'h5py.File':
            mode = kwargs.get('mode', args[1] if len(args) > 1 else 'r')
            if mode != 'r':
                err(it, f"opens the restart file with mode {show(mode)}")
            return FileM(self, self.tasks)
        if name in ('pathlib.Path', 'cProfile.Profile'):
            return ExtObj(name)
        return NotImplemented


class StepCls(AbsVal):
    def __init__(self, w, name, **kw):
        self.w, self.name, self.kw = w, name, kw

    def truth(self, it):
        return True

    def call(self, it, args, kwargs):
        if args[0] is not it.state['solver']:
            err(it, "the timestepper is not given the solver")
        w = self.w
        built = {(k, n) for e in w.events if e[0] == 'build' for k in e[1] for n in e[2]}
        if built != {(k, n) for k in range(w.n) for n in 'ML'}:
            err(it, f"the timestepper is created with only {sorted(built)} of the matrices built")
        if it.state['solver'].attrs.get('F') is None:
            err(it, "the timestepper is created before the right-hand sides")
        w.stepper = Stepper(w, **self.kw)
        w.stepper.scheme = self.name
        return w.stepper


def make(it, repo, w, steps=1, stages=1, scheme=None, **kw):
    it.module_cache[(repo.module('core.timesteppers').name, 'schemes')] = {n: StepCls(w, n, steps=steps, stages=stages) for n in ('A', 'B')}
    return new_solver(it, repo, w, 'InitialValueSolver', [scheme or StepCls(w, 'direct', steps=steps, stages=stages)], kw)


def num(it, s, name):
    return unwrap(it.getattr(s, name))


def construction(repo, rep):
    f = repo.method('core.solvers', 'InitialValueSolver', '__init__')
    for dtype, t0, cad, scheme in itertools.product((np.float64, np.complex128, np.float32), (0.0, 2.5), (None, 7), (None, 'B')):
        rep.count('constructions')

        def go(it):
            w = World(repo, it, dtype, t0)
            s = make(it, repo, w, scheme=scheme, **({'enforce_real_cadence': cad} if cad else {}))
            if w.stepper is None or it.getattr(s, 'timestepper') is not w.stepper or scheme and w.stepper.scheme != scheme:
                return f"does not use the timestepper {scheme}"
            hs = [h for h in w.evaluator.handlers if isinstance(h, HandlerS)]
            if len(hs) != 1 or hs[0].tasks != [e['F'] for e in w.eqs] or it.getattr(s, 'F') is not hs[0].fields:
                return "does not evaluate one right-hand side per equation, in order"
            if num(it, s, 'sim_time') != t0 or num(it, s, 'initial_sim_time') != t0:
                return f"starts at time {show(it.getattr(s, 'sim_time'))} instead of the problem's time {t0}"
            if num(it, s, 'iteration') != 0 or num(it, s, 'initial_iteration') != 0:
                return "does not start at iteration 0"
            c = it.getattr(s, 'enforce_real_cadence')
            want = None if np.iscomplexobj(dtype()) else cad or 100
            if unwrap(c) != want:
                return f"enforces the symmetry of {dtype.__name__} problems every {show(c)} iterations instead of {want}"
            for n in ('stop_sim_time', 'stop_wall_time', 'stop_iteration'):
                if unwrap(it.getattr(s, n)) != np.inf:
                    return f"{n} is finite by default"
            it.setattr(s, 'sim_time', 4.5)
            t = w.problem.attrs['time']
            if t.arr[0] != 4.5 or t.layout != 'g' or num(it, s, 'sim_time') != 4.5:
                return "setting sim_time does not set the problem's time field"
            return None
        judge(repo, rep, go, f, f"{dtype.__name__} problem at time {t0}, cadence {cad}, scheme {scheme}", 'S03|construction', cfg=Cfg)


def stop(repo, rep):
    f = repo.method('core.solvers', 'InitialValueSolver', 'proceed')
    for a, b, c in itertools.product((-1, 0, 1, None), repeat=3):
        rep.count('stop conditions')
        want = all(x is None or x < 0 for x in (a, b, c))

        def go(it):
            w = World(repo, it)
            s = make(it, repo, w)
            s.attrs['_sim_time'] = wrap(3.0)
            s.attrs['iteration'] = 20
            w.clock[0] = 100.0 + 50
            for n, base, d in (('stop_sim_time', 3.0, a), ('stop_wall_time', 50.0, b), ('stop_iteration', 20, c)):
                if d is not None:
                    it.setattr(s, n, wrap(base - d))
            if unwrap(it.getattr(s, 'wall_time')) != 50:
                return f"wall time is {show(it.getattr(s, 'wall_time'))} fifty seconds after construction"
            r = it.truth(it.getattr(s, 'proceed'))
            if r is not want:
                return f"proceed is {r}"
            return None
        judge(repo, rep, go, f, f"time, wall time and iteration minus their stopping values: {a}, {b}, {c}", 'S03|proceed', cfg=Cfg)


def clocks(repo, rep):
    f = repo.method('core.solvers', 'InitialValueSolver', 'world_time')
    for size, rank in ((1, 0), (2, 0), (2, 1)):
        rep.count('clocks')

        def go(it):
            w = World(repo, it, size=size, rank=rank)
            s = make(it, repo, w)
            w.events.clear()
            w.clock = [130.0, 55.0]
            t = unwrap(it.getattr(s, 'world_time'))
            if t != 130.0:
                return f"process {rank} of {size} reads the time {t} instead of the root's"
            if unwrap(it.getattr(s, 'wall_time')) != 30.0:
                return f"process {rank} of {size} has wall time {show(it.getattr(s, 'wall_time'))} instead of 30"
            return None
        judge(repo, rep, go, f, f"process {rank} of {size}", 'S03|clock', cfg=Cfg)


def steps(repo, rep):
    f = repo.method('core.solvers', 'InitialValueSolver', 'step')
    for dtype, k, cad in ((np.float64, 1, 4), (np.float64, 2, 4), (np.float64, 3, 5), (np.float64, 1, 1), (np.float64, 4, 3), (np.complex128, 2, 4)):
        for init in (0, 3):
            rep.count('step histories')

            def go(it):
                w = World(repo, it, dtype)
                s = make(it, repo, w, steps=k, enforce_real_cadence=cad)
                if init:
                    s.attrs['iteration'] = s.attrs['initial_iteration'] = init
                enforced = set()
                t = 0.0
                for j in range(init, init + 3 * cad):
                    w.events.clear()
                    for v in w.vars:
                        v.log.clear()
                    w.clock[0] += 1
                    dt = 0.5 + 0.25 * (j % 3)
                    meth(it, s, 'step', wrap(dt))
                    if len(w.stepper.calls) != j - init + 1:
                        return f"calls the timestepper {len(w.stepper.calls)} times in {j - init + 1} steps"
                    d, wt, i, ts = w.stepper.calls[-1]
                    if unwrap(d) != dt or i != j or ts != t:
                        return f"steps by {show(d)} from time {ts} at iteration {i} instead of {dt} from {t} at {j}"
                    if unwrap(wt) != w.clock[0] - 100:
                        return f"passes the wall time {show(wt)}"
                    t += dt
                    if num(it, s, 'iteration') != j + 1 or num(it, s, 'sim_time') != t or num(it, s, 'dt') != dt:
                        return f"is at iteration {show(it.getattr(s, 'iteration'))}, time {show(it.getattr(s, 'sim_time'))} with timestep {show(it.getattr(s, 'dt'))} after step {j}"
                    names = [e[0] for e in w.events]
                    if 'require_grid_space' in names:
                        g = [e for e in w.events if e[0] == 'require_grid_space'][-1]
                        if names.index('step') > names.index('require_grid_space'):
                            return "enforces the symmetry before the step"
                        if sorted(map(id, g[1])) != sorted(map(id, w.vars)) or names[-1] != 'require_coeff_space' or any(v.layout != 'c' for v in w.vars):
                            return "does not transform every state variable to the grid and back"
                        enforced.add(j)
                want = {j for j in range(init, init + 3 * cad) if j % cad < k} if np.isrealobj(dtype()) else set()
                if want - enforced:
                    return f"does not enforce the symmetry of real variables at iterations {sorted(want - enforced)}"
                return None
            judge(repo, rep, go, f, f"{dtype.__name__}, {k}-step scheme, cadence {cad}, first iteration {init}", 'S03|step', cfg=Cfg)
    for bad in (np.nan, np.inf, -np.inf):
        rep.count('step histories')

        def go(it):
            w = World(repo, it)
            s = make(it, repo, w)
            try:
                meth(it, s, 'step', wrap(bad))
            except RaiseSig as e:
                if e.name != 'ValueError':
                    return f"raises {e.name}"
                if w.stepper.calls or num(it, s, 'iteration') != 0 or num(it, s, 'sim_time') != 0:
                    return "changes the solution before refusing the timestep"
                return None
            return f"accepts the timestep {bad}"
        judge(repo, rep, go, f, f"timestep {bad}", 'S03|finite', cfg=Cfg)


def loops(repo, rep):
    f = repo.method('core.solvers', 'InitialValueSolver', 'evolve')
    for nstop, warm, profile, fail, size, init in itertools.product((None, 0, 1, 3, 4, 6), (0, 3, 10), (False, True), (None, 'function', 'step'), (1, 2), (0, 5)):
        if nstop is None and (profile or fail or size > 1):
            continue
        if size > 1 and (fail or init) or profile and init and fail:
            continue
        rep.count('evolve histories')

        def go(it):
            w = World(repo, it, size=size)
            w.tick = 1
            s = make(it, repo, w, warmup_iterations=warm, profile=profile)
            if init:
                s.attrs['iteration'] = s.attrs['initial_iteration'] = init
            if nstop is not None:
                it.setattr(s, 'stop_iteration', nstop + init)
            n = [0]

            def ts(it2):
                n[0] += 1
                if fail == 'function' and n[0] > 2:
                    raise RaiseSig('UserError', 'timestep', it2.loc())
                return wrap(0.5)

            if fail == 'step':
                w.stepper.fail = 2
            wanterr = 'ValueError' if nstop is None else {'function': 'UserError', 'step': 'StepError'}.get(fail) if nstop > 2 else None
            try:
                meth(it, s, 'evolve', Native('timestep_function', ts))
            except RaiseSig as e:
                if e.name != wanterr:
                    return f"raises {e.name} ({show(e.value)}) at {e.loc}" + (f" instead of {wanterr}" if wanterr else '')
                if nstop is None and w.stepper.calls:
                    return "steps before refusing to run without a stopping criterion"
                return None
            if wanterr:
                return f"does not raise {wanterr}"
            if num(it, s, 'iteration') != nstop + init or len(w.stepper.calls) != nstop or n[0] != nstop:
                return f"takes {len(w.stepper.calls)} steps"
            return None
        judge(repo, rep, go, f, f"stop after {nstop} iterations, warmup {warm}, profile {profile}, failing {fail}, {size} processes, first iteration {init}", 'S03|evolve', cfg=Cfg)


def restart(repo, rep):
    f = repo.method('core.solvers', 'InitialValueSolver', 'load_state')
    for index, allow, tasks in itertools.product((None, 0, 1, -1, -2), (None, False, True), (('u', 'v', 'other'), ('v',), ())):
        rep.count('restarts')
        missing = len(tasks) < 2

        def go(it):
            w = World(repo, it)
            w.tasks = tasks
            s = make(it, repo, w)
            i = -1 if index is None else index
            kw = {} if index is None else {'index': index}
            if allow is not None:
                kw['allow_missing'] = allow
            r = meth(it, s, 'load_state', 'file.h5', **kw)
            wr, dt = [unwrap(x) for x in it.iterate(r)]
            S = w.scales
            if (wr, dt) != (S['write_number'][i], S['timestep'][i]):
                return f"returns write {wr} and timestep {dt}"
            for n, k in (('iteration', 'iteration'), ('initial_iteration', 'iteration'), ('sim_time', 'sim_time'), ('initial_sim_time', 'sim_time')):
                if num(it, s, n) != S[k][i]:
                    return f"{n} is {show(it.getattr(s, n))} instead of {S[k][i]}"
            if w.problem.attrs['time'].arr[0] != S['sim_time'][i]:
                return "the problem's time field is not restored"
            for v in w.vars:
                loads = [x for x in v.log if x[0] == 'load_from_hdf5']
                if (len(loads) == 1) != (v.name in tasks):
                    return f"loads {v.name} {len(loads)} times"
                if loads:
                    a = dict(zip(('file', 'index'), loads[0][1]))
                    a.update(loads[0][2])
                    if not isinstance(a.get('file'), FileM) or unwrap(a.get('index')) != i:
                        return f"loads {v.name} at index {show(a.get('index'))} instead of {i}"
            return None
        judge(repo, rep, go, f, f"write {index} of a file with tasks {tasks}, allow_missing={allow}", 'S03|restart', expect='IOError' if missing and not allow else None, cfg=Cfg)


def handlers(repo, rep):
    f = repo.method('core.solvers', 'InitialValueSolver', 'evaluate_handlers')
    for given, dt in itertools.product((False, True), (None, 0.25)):
        rep.count('handler evaluations')

        def go(it):
            w = World(repo, it)
            s = make(it, repo, w)
            s.attrs['iteration'], s.attrs['_sim_time'] = 9, wrap(1.25)
            w.clock[0] = 105.0
            w.evaluator.calls.clear()
            h = list(w.evaluator.handlers) + ([] if given else [])
            kw = {} if dt is None else {'dt': wrap(dt)}
            if given:
                kw['handlers'] = h
            meth(it, s, 'evaluate_handlers', **kw)
            c = [x for x in w.evaluator.calls if x[0] == 'evaluate_handlers']
            if len(c) != 1:
                return f"evaluates handlers {len(c)} times"
            a = dict(zip(('handlers',), c[0][1]))
            a.update(c[0][2])
            if list(it.iterate(a['handlers'])) != h:
                return "evaluates other handlers"
            got = {k: unwrap(v) for k, v in a.items() if k != 'handlers'}
            want = {'iteration': 9, 'wall_time': 5.0, 'sim_time': 1.25, 'timestep': dt or 0}
            if got != want:
                return f"passes {got} instead of {want}"
            return None
        judge(repo, rep, go, f, f"handlers given: {given}, dt={dt}", 'S03|evaluate_handlers', cfg=Cfg)


def run(repo, rep):
    rep.rule('the loop proceeds while no stopping value is reached and refuses to start without one')
    rep.rule('each step checks its timestep, advances once from the current time, then counts; real variables are symmetrized on schedule')
    rep.rule('all processes read the same clock; simulation time and the time field agree')
    rep.rule('restarts restore counters, time and every state field of the selected write')
    rep.rule('statistics never raise, so errors of the loop are reported unchanged')
    construction(repo, rep)
    stop(repo, rep)
    clocks(repo, rep)
    steps(repo, rep)
    loops(repo, rep)
    restart(repo, rep)
    handlers(repo, rep)
    for k, n in (('constructions', 10), ('stop conditions', 64), ('clocks', 3), ('step histories', 10), ('evolve histories', 50), ('restarts', 20), ('handler evaluations', 4)):
        rep.floor(k, n)


ASSUMPTIONS = ['the timestepper advances the simulation time by the timestep (T03)', 'field loading is exact (E03)']
