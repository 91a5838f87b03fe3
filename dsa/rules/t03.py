"""Every timestep solves the IMEX equation with the right history, weights, matrix and time.

The step routines are abstractly interpreted over several consecutive steps in
a linear-form domain: arrays hold formal combinations of M.X_n, L.X_n, F_n with
symbolic scheme weights.  The system handed to the matrix solver is compared
with the scheme's defining equation; patterns of repeated/changed timesteps
exercise the reuse of cached factorizations.
"""
import sympy
from ..interp import *
from ..repo import AnalysisBroken
from ._ts import *


def run(repo, rep):
    rep.rule('solved system == (a0 M + b0 L) X_new = sum c_j F - a_j M.X - b_j L.X with history in order (multistep)')
    rep.rule('solved system == (M + k H_ii L) X_i = M.X_0 + k sum_j (A_ij F_j - H_ij L.X_j), F_j at t0 + k c_j (Runge-Kutta)')
    rep.rule('simulation time advances by exactly dt per step, scheduled analysis runs once per step at the start-of-step time')
    multistep(repo, rep)
    rk(repo, rep)
    rep.floor('step routines', 2)
    rep.floor('solves compared', 8)


def mk_self(it, cls, solver):
    o = Obj(cls, 'timestepper')
    init = cls.method('__init__')
    it.call(Closure(init, None, o, init.cls), [solver])
    return o


def multistep(repo, rep):
    base, subs = schemes(repo, 'MultistepIMEX')
    # a concrete subclass supplies amax.. ; use override constants on the object
    seen = set()
    for c in subs:
        st = c.method('step')
        if st is None or st in seen:
            continue
        seen.add(st)
        rep.count('step routines')
        for depth in (1, 3):
            for expanded in (False, True):
                _multistep(repo, rep, c, st, depth, expanded)


def _multistep(repo, rep, c, st, D, expanded):
    cfg = StepConfig()
    patt = [(1, 1), (1, 1), (2, 1), (2, 2), (1, 2), (1, 2)]
    N = len(patt)
    dts = [sympy.Symbol(f'dt{n}') for n in range(N)]
    info = {}

    def coefs(it, timesteps, iteration):
        m = cfg.model
        m.coef_calls.append((list(timesteps), iteration, it.loc()))
        n = m.step
        L = min(n + 1, D) + 1
        A = [sympy.Symbol(f'a0_{patt[n][0]}')] + [sympy.Symbol(f'a{j}@{n}') for j in range(1, L)]
        B = [sympy.Symbol(f'b0_{patt[n][1]}')] + [sympy.Symbol(f'b{j}@{n}') for j in range(1, L)]
        C = [sympy.Integer(0)] + [sympy.Symbol(f'c{j}@{n}') for j in range(1, L)]
        m.coef_vals.append((A, B, C))
        return A, B, C
    cfg.coefs = coefs
    it = Interp(repo, cfg)

    def go(it):
        m = StepModel()
        cfg.model = m
        m.coef_calls, m.coef_vals = [], []
        m.times = []
        m.steps_solves = []
        solver, sp = make_world(it, m, expanded)
        o = Obj(c, 'timestepper')
        o.attrs.update(amax=D, bmax=D, cmax=D, steps=D)
        init = c.method('__init__')
        it.call(Closure(init, None, o, init.cls), [solver])
        it.state['m'] = m
        for n in range(N):
            m.step = n
            k = len(m.solves)
            solver.attrs['iteration'] = n
            it.call(it.getattr(o, 'step'), [dts[n], sym('wall_time')])
            m.steps_solves.append(m.solves[k:])
            m.times.append(it.getattr(solver, 'sim_time'))
        return m
    loc = st.loc
    for r in it.explore(go):
        tag = f"{st.qualname} depth={D} expanded={expanded}"
        K = lambda w: f"T03|{st.qualname}|{w}"
        if r.outcome == 'raise':
            rep.violation(K('raise'), f"{tag}: raises {r.value.name} {r.value.value}", r.value.loc)
            continue
        if r.outcome == 'abort':
            rep.undec(f"{tag}: {r.value}")
            continue
        m = r.value
        for (w, l, msg) in m.errors:
            rep.violation(K(w), f"{tag}: {msg}", l)
        for n in range(N):
            if len(m.coef_calls) <= n or len(m.coef_calls) > N:
                rep.violation(K('coefs'), f"{tag}: compute_coefficients called {len(m.coef_calls)} times in {N} steps", loc)
                break
            ts, itn, l = m.coef_calls[n]
            exp = [dts[n - j] for j in range(min(n + 1, D))]
            got = ts[:len(exp)]
            rep.check(all(x is y or x == y for x, y in zip(got, exp)) and len(ts) >= len(exp), K('timesteps'), f"{tag}: step {n} passes timesteps {show(ts)}, expected newest-first {exp}", l)
            rep.check(itn == n, K('iteration'), f"{tag}: step {n} passes iteration {show(itn)}", l)
            A, B, C = m.coef_vals[n]
            exp_lhs = Lin({'M': A[0], 'L': B[0]})
            d = {}
            for j in range(1, len(A)):
                x = n + 1 - j
                d[f"F[{x}]"] = C[j]
                d[f"M.X{x}"] = -A[j]
                d[f"L.X{x}"] = -B[j]
            exp_rhs = Lin(d)
            ss = m.steps_solves[n]
            if not rep.check(len(ss) == 1, K('solve'), f"{tag}: step {n} performs {len(ss)} solves per subproblem", loc):
                continue
            lhs, rhs, l = ss[0]
            rep.count('solves compared')
            rep.check(lhs.same(exp_lhs), K('LHS'), f"{tag}: step {n} solves with matrix {lhs}, expected {exp_lhs}", l, f"{tag} step {n} LHS")
            rep.check(rhs.same(exp_rhs), K('RHS'), f"{tag}: step {n} right-hand side {rhs}, expected {exp_rhs}", l, f"{tag} step {n} RHS")
            t = sympy.Symbol('t0') + sum(dts[:n + 1])
            tv = m.times[n]
            rep.check(isinstance(tv, sympy.Basic) and sympy.simplify(tv - t) == 0, K('sim_time'), f"{tag}: after step {n} sim_time is {show(tv)}, expected {t}", loc)
        _sched(rep, K, tag, m, dts, N, loc)
        _ftimes(rep, K, tag, m, {f"F[{n}]": sympy.Symbol('t0') + sum(dts[:n]) for n in range(N)}, loc)


def _sched(rep, K, tag, m, dts, N, loc):
    if not rep.check(len(m.scheduled) == N, K('scheduled'), f"{tag}: evaluate_scheduled called {len(m.scheduled)} times in {N} steps", loc):
        return
    for n in range(N):
        kw = m.scheduled[n]
        t = sympy.Symbol('t0') + sum(dts[:n])
        st = kw.get('sim_time')
        if st is not None:
            rep.check(isinstance(st, sympy.Basic) and sympy.simplify(st - t) == 0, K('scheduled time'), f"{tag}: step {n} schedules analysis at time {show(st)}, expected {t}", loc)
        if 'iteration' in kw:
            rep.check(kw['iteration'] == n, K('scheduled iteration'), f"{tag}: step {n} schedules analysis with iteration {show(kw['iteration'])}", loc)
        if 'timestep' in kw:
            rep.check(kw['timestep'] == dts[n], K('scheduled timestep'), f"{tag}: step {n} reports timestep {show(kw['timestep'])}", loc)


def _ftimes(rep, K, tag, m, exp, loc):
    for k, t in getattr(m, 'F_times', {}).items():
        if k in exp and isinstance(t, sympy.Basic):
            rep.check(sympy.simplify(t - exp[k]) == 0, K('F time'), f"{tag}: {k} evaluated at time {t}, expected {exp[k]}", loc)


def rk(repo, rep):
    base, subs = schemes(repo, 'RungeKuttaIMEX')
    seen = set()
    for c in subs:
        st = c.method('step')
        if st is None or st in seen:
            continue
        seen.add(st)
        rep.count('step routines')
        for S in (1, 3):
            for expanded in (False, True):
                _rk(repo, rep, c, st, S, expanded)


def _rk(repo, rep, c, st, S, expanded):
    import numpy as np
    cfg = StepConfig()
    ks = [sympy.Symbol('kA'), sympy.Symbol('kA'), sympy.Symbol('kB'), sympy.Symbol('kA')]
    N = len(ks)
    A = np.empty((S + 1, S + 1), dtype=object)
    H = np.empty((S + 1, S + 1), dtype=object)
    cv = np.empty(S + 1, dtype=object)
    for i in range(S + 1):
        cv[i] = sympy.Integer(0) if i == 0 else (sympy.Integer(1) if i == S else sympy.Symbol(f'c{i}'))
        for j in range(S + 1):
            A[i, j] = sympy.Symbol(f'A{i}{j}') if j < i else sympy.Integer(0)
            H[i, j] = sympy.Symbol(f'H{i}{j}') if (j <= i and i > 0) else sympy.Integer(0)
    it = Interp(repo, cfg)

    def go(it):
        m = StepModel()
        cfg.model = m
        m.times, m.steps_solves, m.startX = [], [], []
        solver, sp = make_world(it, m, expanded)
        o = Obj(c, 'timestepper')
        o.attrs.update(stages=S, A=A, H=H, c=cv)
        init = c.method('__init__')
        it.call(Closure(init, None, o, init.cls), [solver])
        for n in range(N):
            k = len(m.solves)
            m.startX.append(m.nX)
            solver.attrs['iteration'] = n
            it.call(it.getattr(o, 'step'), [ks[n], sym('wall_time')])
            m.steps_solves.append(m.solves[k:])
            m.times.append(it.getattr(solver, 'sim_time'))
        return m
    loc = st.loc
    for r in it.explore(go):
        tag = f"{st.qualname} stages={S} expanded={expanded}"
        K = lambda w: f"T03|{st.qualname}|{w}"
        if r.outcome == 'raise':
            rep.violation(K('raise'), f"{tag}: raises {r.value.name} {r.value.value}", r.value.loc)
            continue
        if r.outcome == 'abort':
            rep.undec(f"{tag}: {r.value}")
            continue
        m = r.value
        for (w, l, msg) in m.errors:
            rep.violation(K(w), f"{tag}: {msg}", l)
        ft = {}
        for n in range(N):
            ss = m.steps_solves[n]
            if not rep.check(len(ss) == S, K('solve'), f"{tag}: step {n} performs {len(ss)} solves for {S} stages", loc):
                continue
            x0 = m.startX[n]
            k = ks[n]
            t0 = sympy.Symbol('t0') + sum(ks[:n])
            for i in range(1, S + 1):
                lhs, rhs, l = ss[i - 1]
                rep.count('solves compared')
                exp_lhs = Lin({'M': 1, 'L': k * H[i, i]})
                d = {f"M.X{x0}": 1}
                for j in range(i):
                    d[f"F[{x0 + j}]"] = k * A[i, j]
                    d[f"L.X{x0 + j}"] = -k * H[i, j]
                exp_rhs = Lin(d)
                rep.check(lhs.same(exp_lhs), K('LHS'), f"{tag}: step {n} stage {i} solves with matrix {lhs}, expected {exp_lhs}", l, f"{tag} step {n} stage {i} LHS")
                rep.check(rhs.same(exp_rhs), K('RHS'), f"{tag}: step {n} stage {i} right-hand side {rhs}, expected {exp_rhs}", l, f"{tag} step {n} stage {i} RHS")
            for j in range(S):
                ft[f"F[{x0 + j}]"] = t0 + k * cv[j]
            tv = m.times[n]
            rep.check(isinstance(tv, sympy.Basic) and sympy.simplify(tv - t0 - k) == 0, K('sim_time'), f"{tag}: after step {n} sim_time is {show(tv)}, expected {t0 + k}", loc)
        _sched(rep, K, tag, m, ks, N, loc)
        _ftimes(rep, K, tag, m, ft, loc)
