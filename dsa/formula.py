"""Equality of closed-form integer expressions extracted from the source."""
import itertools
import sympy


def agree(a, b, domain, limit=6000):
    """(True, None) if the two expressions agree (canonically, or on the whole small integer grid), else (False, witness)."""
    a, b = sympy.sympify(a), sympy.sympify(b)
    if a == b:
        return True, None
    syms = sorted(a.free_symbols | b.free_symbols, key=str)
    fa, fb = compile_(a, syms), compile_(b, syms)
    n = 0
    for vals in itertools.product(*[list(domain(str(s))) for s in syms]):
        n += 1
        if n > limit:
            break
        env = dict(zip([str(s) for s in syms], vals))
        if any(k[0] == 'c' and k[1:].isdigit() and 'm' + k[1:] in env and env[k] >= env['m' + k[1:]] for k in env):
            continue
        try:
            x, y = fa(*vals), fb(*vals)
        except ZeroDivisionError:
            continue
        if x != y:
            return False, env
    return True, None


def compile_(e, syms):
    import math
    import fractions
    F = fractions.Fraction

    def go(x):
        if isinstance(x, sympy.Symbol):
            i = syms.index(x)
            return lambda v: F(v[i])
        if isinstance(x, sympy.Rational):
            c = F(x.p, x.q)
            return lambda v: c
        args = [go(y) for y in x.args]
        if isinstance(x, sympy.Add):
            return lambda v: sum((g(v) for g in args), F(0))
        if isinstance(x, sympy.Mul):
            def mul(v):
                r = F(1)
                for g in args:
                    r *= g(v)
                return r
            return mul
        if isinstance(x, sympy.Pow):
            def pw(v):
                b, e = args[0](v), args[1](v)
                if b == 0 and e < 0:
                    raise ZeroDivisionError
                return b ** int(e) if e.denominator == 1 else float(b) ** float(e)
            return pw
        if isinstance(x, sympy.floor):
            return lambda v: F(math.floor(args[0](v)))
        if isinstance(x, sympy.ceiling):
            return lambda v: F(math.ceil(args[0](v)))
        if isinstance(x, sympy.Min):
            return lambda v: min(g(v) for g in args)
        if isinstance(x, sympy.Max):
            return lambda v: max(g(v) for g in args)
        if isinstance(x, sympy.Abs):
            return lambda v: abs(args[0](v))
        if isinstance(x, sympy.Mod):
            return lambda v: args[0](v) % args[1](v)
        raise ValueError(f"cannot evaluate {x}")
    g = go(e)
    return lambda *v: g(v)
