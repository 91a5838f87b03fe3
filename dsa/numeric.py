"""Numeric value of extracted terms under a valuation of their symbols (used to compare extracted formulas with specifications)."""
import math
import fractions
import sympy

from .interp import Term, show

F = fractions.Fraction


class Unknown(Exception):
    pass


def num(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return F(x)
    if isinstance(x, sympy.Rational):
        return F(int(x.p), int(x.q))
    if x == sympy.oo or x == -sympy.oo:
        return math.inf if x == sympy.oo else -math.inf
    if isinstance(x, float):
        return x if math.isinf(x) or math.isnan(x) else F(repr(x)) if 'e' not in repr(x) else F(x)
    if isinstance(x, fractions.Fraction):
        return x
    raise Unknown(show(x))


def sgn(x):
    return (x > 0) - (x < 0)


def rint(x):
    return F(round(x)) if not isinstance(x, float) else x


FUN = {
    'int': lambda x: F(math.trunc(x)), 'float': lambda x: x, 'abs': abs, 'bool': lambda x: bool(x), 'round': lambda x, n=None: rint(x),
    'numpy.round': lambda x, n=None: rint(x), 'numpy.rint': rint, 'numpy.around': rint, 'numpy.floor': lambda x: F(math.floor(x)), 'math.floor': lambda x: F(math.floor(x)),
    'numpy.ceil': lambda x: F(math.ceil(x)), 'math.ceil': lambda x: F(math.ceil(x)), 'numpy.abs': abs, 'numpy.absolute': abs, 'numpy.fabs': abs, 'math.fabs': abs,
    'numpy.sign': lambda x: F(sgn(x)), 'min': lambda *a: min(a), 'max': lambda *a: max(a), 'numpy.minimum': lambda a, b: min(a, b), 'numpy.maximum': lambda a, b: max(a, b),
    'numpy.trunc': lambda x: F(math.trunc(x)), 'math.trunc': lambda x: F(math.trunc(x)), 'divmod': lambda a, b: (F(a // b), a % b),
    'numpy.floor_divide': lambda a, b: F(a // b), 'numpy.isfinite': lambda x: not (isinstance(x, float) and (math.isinf(x) or math.isnan(x))), 'math.isfinite': lambda x: not (isinstance(x, float) and (math.isinf(x) or math.isnan(x))),
    'numpy.isinf': lambda x: isinstance(x, float) and math.isinf(x), 'math.isinf': lambda x: isinstance(x, float) and math.isinf(x), 'numpy.isnan': lambda x: isinstance(x, float) and math.isnan(x), 'math.isnan': lambda x: isinstance(x, float) and math.isnan(x),
}


def evaluate(t, env):
    """Exact value; `env` maps shown terms to numbers."""
    if isinstance(t, Term):
        key = show(t)
        if key in env:
            return env[key]
        o, a = t.op, t.args
        if o == 'bin':
            x, y = evaluate(a[1], env), evaluate(a[2], env)
            op = a[0]
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op == '/':
                return x / y
            if op == '//':
                return F(x // y)
            if op == '%':
                return x % y
            if op == '**':
                return x ** y
            if op == '&' or op == '|':
                return (x and y) if op == '&' else (x or y)
        if o == 'un':
            x = evaluate(a[1], env)
            if a[0] == '-':
                return -x
            if a[0] == '+':
                return x
            if a[0] == 'not':
                return not x
        if o == 'cmp':
            op = a[0]
            x, y = evaluate(a[1], env), evaluate(a[2], env)
            if op == 'is':
                return x is y or x == y
            if op == 'is not':
                return not (x is y or x == y)
            return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
        if o == 'truth':
            return bool(evaluate(a[0], env))
        if o == 'call' and isinstance(a[0], Term) and a[0].op == 'ext' and a[0].args[0] in FUN and not a[2]:
            args = [evaluate(x, env) for x in a[1]]
            if len(args) == 1 and isinstance(args[0], (list, tuple)) and a[0].args[0] in ('min', 'max'):
                args = list(args[0])
            return FUN[a[0].args[0]](*args)
        if o in ('list', 'tuple'):
            return [evaluate(x, env) for x in a]
        if o == 'item' and isinstance(a[1], int):
            return evaluate(a[0], env)[a[1]]
        raise Unknown(key)
    if isinstance(t, (list, tuple)):
        return [evaluate(x, env) for x in t]
    if isinstance(t, sympy.Basic) and not isinstance(t, (sympy.Rational,)):
        if t in (sympy.oo, -sympy.oo):
            return num(t)
        syms = {s: env[str(s)] for s in t.free_symbols}
        r = t.subs({s: (sympy.Rational(v.numerator, v.denominator) if isinstance(v, F) else v) for s, v in syms.items()})
        return num(r)
    return num(t)


def consistent(decisions, env):
    """Is a path with these (term, value, loc) decisions the one taken under env?"""
    for t, v, _ in decisions:
        if bool(evaluate(t, env)) != v:
            return False
    return True
