"""Order conditions of every multistep IMEX scheme, for arbitrary positive timestep sequences.

`compute_coefficients` of every scheme is evaluated by value numbering over the
field of rational functions in the symbolic timesteps (the iteration counter is
case-split over the start-up range); the order conditions are then polynomial
identities decided exactly.
"""
import collections
import sympy
from ..interp import *
from ..repo import AnalysisBroken
from ._ts import schemes

ORDERS = {'CNAB1': 1, 'SBDF1': 1, 'CNAB2': 2, 'MCNAB2': 2, 'SBDF2': 2, 'CNLF2': 2, 'SBDF3': 3, 'SBDF4': 4}
ASSUMPTIONS = ['nominal order of a scheme not in the table is read from the digit ending its name']


def order_of(c):
    if c.name in ORDERS:
        return ORDERS[c.name]
    import re
    m = re.search(r'(\d)$', c.name)
    return int(m.group(1)) if m else 1


def const(it, c, name):
    v = it.getattr(c, name)
    return v if isinstance(v, int) else None


def run(repo, rep):
    rep.rule('sum_j a_j q(t_{n-j}) = sum_j b_j q\'(t_{n-j}) = sum_j c_j q\'(t_{n-j}) for every polynomial q of degree <= order')
    rep.rule('explicit weights never use the unknown level, history not yet available is never used, implicit weight nonzero')
    base, subs = schemes(repo, 'MultistepIMEX')
    for c in subs:
        m = c.method('compute_coefficients')
        if m is None or m.cls is base:
            continue
        rep.count('multistep schemes')
        p = order_of(c)
        it0 = Interp(repo)
        vals = {}
        def consts(it):
            for n in ('amax', 'bmax', 'cmax', 'steps'):
                vals[n] = const(it, c, n)
        it0.explore(consts)
        if any(vals.get(n) is None for n in ('amax', 'bmax', 'cmax', 'steps')):
            rep.undec(f"{c.name}: amax/bmax/cmax/steps not constant")
            continue
        for n in range(0, vals['steps'] + 2):
            ks = [sympy.Symbol(f'k{j}', positive=True) for j in range(vals['steps'])]
            poison = set(ks[n + 1:])
            it = Interp(repo)
            def go(it):
                return it.call(it.getattr(c, 'compute_coefficients'), [collections.deque(ks), n])
            for r in it.explore(go):
                loc = c.loc
                tag = f"{c.name} iteration {n}"
                if r.outcome != 'return':
                    if r.outcome == 'raise':
                        rep.violation(f"T01|{c.name}|raises", f"{tag}: compute_coefficients raises {r.value.name}: {r.value.value}", r.value.loc)
                    else:
                        rep.undec(f"{tag}: {r.value}")
                    continue
                try:
                    a, b, cc = [[sympy.sympify(x) for x in list(v)] for v in r.value]
                except Exception:
                    rep.undec(f"{tag}: result not a triple of closed forms: {show(r.value)[:120]}")
                    continue
                rep.count('coefficient sets')
                need = min(p, n + 1)
                lim = max(len(a), len(b), len(cc))
                tau = [ks[0], sympy.Integer(0)]
                for j in range(1, lim):
                    tau.append(tau[-1] - (ks[j] if j < len(ks) else sympy.Symbol(f'kx{j}')))
                used = set().union(*[x.free_symbols for x in a + b + cc]) if (a or b or cc) else set()
                rep.check(not (used & poison), f"T01|{c.name}|startup", f"{tag}: coefficients depend on timesteps not taken yet: {sorted(map(str, used & poison))}", loc)
                late = [(nm, j) for nm, w in (('a', a), ('b', b), ('c', cc)) for j in range(n + 2, len(w)) if sympy.simplify(w[j]) != 0]
                rep.check(not late, f"T01|{c.name}|history", f"{tag}: nonzero weight on history not yet available: {late}", loc)
                over = [(nm, len(w) - 1) for nm, w, mx in (('a', a, 'amax'), ('b', b, 'bmax'), ('c', cc, 'cmax')) if len(w) - 1 > vals[mx]]
                rep.check(not over, f"T01|{c.name}|depth", f"{tag}: more weights than stored history levels: {over}", loc)
                rep.check(sympy.simplify(cc[0]) == 0, f"T01|{c.name}|explicit", f"{tag}: explicit weight c[0] on the unknown level is {cc[0]}", loc)
                rep.check(sympy.simplify(b[0]) != 0 and sympy.simplify(a[0]) != 0, f"T01|{c.name}|implicit", f"{tag}: a[0] or b[0] vanishes", loc)
                for q in range(need + 1):
                    A = sum(w * t**q for w, t in zip(a, tau))
                    for nm, ws in (('implicit', b), ('explicit', cc)):
                        D = sum(w * (q * t**(q - 1) if q >= 1 else 0) for w, t in zip(ws, tau))
                        res = sympy.simplify(sympy.together(A - D))
                        rep.check(res == 0, f"T01|{c.name}|order", f"{tag}: {nm} part fails the order-{q} condition (required order {need}) with residual {res}", loc,
                                  sample=f"{tag}: {nm} order {q}")
    rep.floor('multistep schemes', 5)
    rep.floor('coefficient sets', 15)
