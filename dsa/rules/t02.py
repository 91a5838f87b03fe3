"""Consistency of every IMEX Runge-Kutta tableau (exact arithmetic over the class constants)."""
import itertools
import sympy
import numpy as np
from ..interp import *
from ._ts import schemes

ORDERS = {'RK111': (1, 1), 'RK222': (2, 2), 'RK443': (3, 3), 'RKSMR': (2, 3), 'RKGFY': (2, 2)}


def order_of(c):
    if c.name in ORDERS:
        return ORDERS[c.name]
    return (1, 1)


def run(repo, rep):
    rep.rule('A strictly lower triangular, H lower triangular, both row sums equal the abscissae, last abscissa 1')
    rep.rule('coupled (additive) Runge-Kutta order conditions up to the nominal order for every pairing of the two tableaux')
    base, subs = schemes(repo, 'RungeKuttaIMEX')
    for c in subs:
        it = Interp(repo)
        got = {}
        def go(it):
            for n in ('stages', 'A', 'H', 'c'):
                got[n] = it.getattr(c, n)
        it.explore(go)
        if not c.find('A') or not c.find('H') or not c.find('c'):
            continue
        rep.count('RK schemes')
        try:
            s = int(got['stages'])
            A = np.array(got['A'], dtype=object)
            H = np.array(got['H'], dtype=object)
            cv = [sympy.sympify(x) for x in got['c']]
            if A.ndim != 2 or H.ndim != 2 or not all(isinstance(x, (int, sympy.Basic)) for x in list(A.ravel()) + list(H.ravel())):
                raise TypeError
        except Exception:
            rep.undec(f"{c.name}: tableau not constant")
            continue
        loc = c.loc
        K = lambda what: f"T02|{c.name}|{what}"
        if not rep.check(A.shape == (s + 1, s + 1) and H.shape == (s + 1, s + 1) and len(cv) == s + 1, K('shape'), f"tableau shapes {A.shape},{H.shape},{len(cv)} do not match {s} stages", loc):
            continue
        z = lambda x: sympy.simplify(sympy.nsimplify(x) if False else x) == 0
        S = sympy.sympify
        bad = [(i, j) for i in range(s + 1) for j in range(i, s + 1) if not z(S(A[i, j]))]
        rep.check(not bad, K('explicit'), f"A has nonzero entries on/above the diagonal {bad}", loc)
        bad = [(i, j) for i in range(s + 1) for j in range(i + 1, s + 1) if not z(S(H[i, j]))]
        rep.check(not bad, K('diagonally implicit'), f"H has nonzero entries above the diagonal {bad}", loc)
        bad = [i for i in range(1, s + 1) if z(S(H[i, i]))]
        rep.check(not bad, K('implicit'), f"H has a vanishing diagonal entry in stage {bad}", loc)
        rep.check(z(cv[0]) and all(z(S(A[0, j])) and z(S(H[0, j])) for j in range(s + 1)), K('c0'), f"stage 0 is not the initial state", loc)
        rep.check(z(cv[s] - 1), K('cs'), f"final abscissa is {cv[s]}, not 1", loc)
        out = [i for i in range(s + 1) if (cv[i] < 0) == True or (cv[i] > 1) == True]
        rep.check(not out, K('abscissae'), f"stage times outside the step: {[str(cv[i]) for i in out]}", loc)
        for i in range(s + 1):
            ra = sum(S(x) for x in A[i])
            rh = sum(S(x) for x in H[i])
            rep.check(z(ra - cv[i]), K('row sum A'), f"row {i} of A sums to {ra}, abscissa is {cv[i]}", loc, f"{c.name} A row {i}")
            rep.check(z(rh - cv[i]), K('row sum H'), f"row {i} of H sums to {sympy.simplify(rh)}, abscissa is {cv[i]}", loc, f"{c.name} H row {i}")
        p, pe = order_of(c)
        mats = {'A': A, 'H': H}
        def cond(tag, order, expr, target, names):
            need = pe if names <= {'A'} else p
            if order > need:
                return
            rep.check(z(expr - target), K('order'), f"order-{order} condition {tag} gives {sympy.simplify(expr)} instead of {target}", loc, f"{c.name} {tag}")
        rng = range(s + 1)
        for bn, B in mats.items():
            b = [S(x) for x in B[s]]
            cond(f"sum b{bn}", 1, sum(b), 1, {bn})
            for m1n, M1 in mats.items():
                c1 = [sum(S(x) for x in M1[i]) for i in rng]
                cond(f"b{bn}.c{m1n}", 2, sum(b[i] * c1[i] for i in rng), sympy.Rational(1, 2), {bn, m1n})
                for m2n, M2 in mats.items():
                    c2 = [sum(S(x) for x in M2[i]) for i in rng]
                    cond(f"b{bn}.(c{m1n}*c{m2n})", 3, sum(b[i] * c1[i] * c2[i] for i in rng), sympy.Rational(1, 3), {bn, m1n, m2n})
                    cond(f"b{bn}.{m1n}.c{m2n}", 3, sum(b[i] * S(M1[i, j]) * c2[j] for i in rng for j in rng), sympy.Rational(1, 6), {bn, m1n, m2n})
    rep.floor('RK schemes', 3)
