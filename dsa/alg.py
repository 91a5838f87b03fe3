"""Algebra of expressions: a denotational normal form for operator trees.

A `Den` is a linear combination of monomials over named atoms.  Scalars
commute and carry exponents, tensors keep their order, linear operators and
bilinear products distribute over sums, derivations follow the product rule,
homomorphisms distribute over products.  `Ex` is the abstract operand of the
interpreter: it carries a `Den`, and its symbolic methods (`split`,
`replace`, `sym_diff`, ...) are *defined* by their meaning on the normal form,
i.e. they are the induction hypothesis when one node class is analysed.
"""
import sympy
from .interp import *
from .repo import Class


def _num(x):
    if isinstance(x, float):
        return symfloat(x)
    if isinstance(x, complex):
        return symfloat(x.real) + sympy.I * symfloat(x.imag)
    return sympy.sympify(x)


class Den:
    """{monomial: coefficient}; monomial = (scalars, tensors)."""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c != 0}

    def __eq__(self, o):
        return isinstance(o, Den) and (self - o).zero()

    def __hash__(self):
        return hash(frozenset(self.t))

    def zero(self):
        return all(sympy.simplify(c) == 0 for c in self.t.values())

    def key(self):
        return tuple(sorted(((m, str(sympy.nsimplify(c) if False else c)) for m, c in self.t.items()), key=repr))

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Den(t)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, k):
        k = _num(k)
        return Den({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        t = {}
        for (s1, t1), c1 in self.t.items():
            for (s2, t2), c2 in o.t.items():
                m = (smul(s1, s2), t1 + t2)
                t[m] = t.get(m, 0) + c1 * c2
        return Den(t)

    def bil(self, key, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                # scalars factor out of bilinear products
                (s1, t1), (s2, t2) = m1, m2
                m = (smul(s1, s2), (('bil', key, t1, t2),))
                t[m] = t.get(m, 0) + c1 * c2
        return Den(t)

    def lin(self, key, kind=None, coord=None):
        out = Den()
        for (s, ts), c in self.t.items():
            if kind == 'identity':
                out = out + Den({(s, ts): c})
            elif kind in ('deriv', 'tderiv'):
                out = out + derive(s, ts, lambda m: Den({factor_mono(('lin', key, m)): sympy.Integer(1)}), kind == 'tderiv').scale(c)
            elif kind == 'hom':
                m = one()
                for f, e in s:
                    m = m.mul(Den({((((('lin', key, (((f, sympy.Integer(1)),), ())), e),)), ()): sympy.Integer(1)}))
                for f in ts:
                    m = m.mul(Den({((), (('lin', key, ((), (f,))),)): sympy.Integer(1)}))
                out = out + m.scale(c)
            else:
                if not s and not ts:
                    out = out + Den({((), (('lin', key, (s, ts)),)): c})
                else:
                    scal = not ts
                    f = ('lin', key, (s, ts))
                    out = out + Den({(((f, 1),), ()) if scal else ((), (f,)): c})
        return out

    def fn(self, key):
        k = ('fn', key, self.key())
        return Den({(((k, sympy.Integer(1)),), ()): 1})

    def pow(self, n):
        n = _num(n)
        if n == 0:
            return one()
        if n == 1:
            return self
        if len(self.t) == 1:
            (s, ts), c = next(iter(self.t.items()))
            if not ts:
                return Den({(tuple(sorted(((f, e * n) for f, e in s), key=repr)), ()): c ** n})
        if n.is_Integer and 1 < n <= 4:
            out = self
            for i in range(int(n) - 1):
                out = out.mul(self)
            return out
        k = ('base', self.key())
        return Den({(((k, n),), ()): 1})

    def subst(self, f):
        """Replace every atom factor by f(name, scalar) -> Den or None (keep)."""
        out = Den()
        for (s, ts), c in self.t.items():
            m = one().scale(c)
            for fac, e in s:
                d = subst_factor(fac, True, f)
                m = m.mul(d.pow(e))
            for fac in ts:
                m = m.mul(subst_factor(fac, False, f))
            out = out + m
        return out

    def atoms(self):
        out = set()

        def fac(f):
            if f[0] == 'a':
                out.add(f[1])
            elif f[0] == 'lin':
                mono(f[2])
            elif f[0] == 'bil':
                for x in f[2] + f[3]:
                    fac(x)
            elif f[0] == 'fn':
                for m, c in f[2]:
                    mono(m)
            elif f[0] == 'base':
                for m, c in f[1]:
                    mono(m)

        def mono(m):
            for f, e in m[0]:
                fac(f)
            for f in m[1]:
                fac(f)
        for m in self.t:
            mono(m)
        return out

    def opkeys(self):
        """Keys of the linear operators and functions occurring."""
        out = set()

        def fac(f):
            if f[0] == 'lin':
                out.add(f[1])
                mono(f[2])
            elif f[0] == 'bil':
                out.add(('bil', f[1]))
                for x in f[2] + f[3]:
                    fac(x)
            elif f[0] == 'fn':
                for m, c in f[2]:
                    mono(m)
            elif f[0] == 'base':
                for m, c in f[1]:
                    mono(m)

        def mono(m):
            for f, e in m[0]:
                fac(f)
            for f in m[1]:
                fac(f)
        for m in self.t:
            mono(m)
        return out

    def parts(self, pred):
        """(terms satisfying pred, others)"""
        a, b = {}, {}
        for m, c in self.t.items():
            (a if pred(Den({m: c})) else b)[m] = c
        return Den(a), Den(b)

    def __repr__(self):
        if not self.t:
            return '0'
        return ' + '.join(f"{'' if c == 1 else str(c) + '·'}{show_mono(m)}" for m, c in self.t.items())


def show_factor(f):
    if f[0] == 'a':
        return f[1]
    if f[0] == 'lin':
        k = f[1]
        return f"{k if isinstance(k, str) else show(k[0]) if isinstance(k, tuple) else show(k)}({show_mono(f[2])})"
    if f[0] == 'bil':
        return f"{show(f[1])}({show_mono(((), f[2]))}, {show_mono(((), f[3]))})"
    if f[0] == 'fn':
        return f"{show(f[1])}({' + '.join(show_mono(m) for m, c in f[2])})"
    return f"({' + '.join(show_mono(m) for m, c in f[1])})"


def show_mono(m):
    s, t = m
    xs = [show_factor(f) + ('' if e == 1 else f'^{e}') for f, e in s] + [show_factor(f) for f in t]
    return '·'.join(xs) or '1'


KINDS = ('deriv', 'tderiv', 'hom', 'identity')


def key_kind(k):
    return k[-1] if isinstance(k, tuple) and k and k[-1] in KINDS else None


def one():
    return Den({((), ()): sympy.Integer(1)})


def smul(a, b):
    d = {}
    for f, e in a + b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(((f, e) for f, e in d.items() if e != 0), key=repr))


def atom(name, scalar=False):
    f = ('a', name, scalar)
    return Den({(((f, sympy.Integer(1)),), ()) if scalar else ((), (f,)): sympy.Integer(1)})


def factor_mono(f):
    """Monomial of one factor (scalar factors carry their nature inside)."""
    scal = _is_scalar(f)
    return (((f, sympy.Integer(1)),), ()) if scal else ((), (f,))


def _is_scalar(f):
    if f[0] == 'a':
        return f[2]
    if f[0] == 'lin':
        return not f[2][1]
    return f[0] in ('fn', 'base')


def derive(s, ts, d, commute):
    """Product rule over a monomial; d(mono of one factor) -> Den (derivative of that factor)."""
    out = Den()
    for i, (f, e) in enumerate(s):
        rest = s[:i] + s[i + 1:]
        df = dfactor(f, True, d, commute)
        m = Den({(smul(rest, ((f, e - 1),)) if e != 1 else rest, ()): e})
        out = out + m.mul(df).mul(Den({((), ts): 1}))
    for i, f in enumerate(ts):
        df = dfactor(f, False, d, commute)
        out = out + Den({(s, ts[:i]): 1}).mul(df).mul(Den({((), ts[i + 1:]): 1}))
    return out


def dfactor(f, scalar, d, commute):
    if f[0] == 'bil':
        t1, t2 = f[2], f[3]
        a, b = Den({((), t1): 1}), Den({((), t2): 1})
        return derive((), t1, d, commute).bil(f[1], b) + a.bil(f[1], derive((), t2, d, commute))
    if f[0] == 'lin' and commute and key_kind(f[1]) != 'tderiv':
        # the time derivative commutes with the other linear operators
        inner = derive(f[2][0], f[2][1], d, commute)
        return inner.lin(f[1], key_kind(f[1]))
    return d(((((f, sympy.Integer(1)),), ()) if scalar else ((), (f,))))


def subst_factor(fac, scalar, f):
    if fac[0] == 'a':
        r = f(fac[1], fac[2])
        return r if r is not None else atom(fac[1], fac[2])
    if fac[0] == 'lin':
        inner = Den({fac[2]: sympy.Integer(1)}).subst(f)
        kind = key_kind(fac[1])
        return inner.lin(fac[1], kind)
    if fac[0] == 'bil':
        return Den({((), fac[2]): sympy.Integer(1)}).subst(f).bil(fac[1], Den({((), fac[3]): sympy.Integer(1)}).subst(f))
    if fac[0] == 'fn':
        inner = Den({m: sympy.sympify(c) for m, c in fac[2]}).subst(f)
        return inner.fn(fac[1])
    if fac[0] == 'base':
        return Den({m: sympy.sympify(c) for m, c in fac[1]}).subst(f)
    raise AssertionError(fac)


def diff(den, dat, dfn=None):
    """Derivation of a Den: dat(name, scalar) -> Den; dfn(key, inner) -> Den of the derivative function."""
    out = Den()
    for (s, ts), c in den.t.items():
        for i, (f, e) in enumerate(s):
            rest = Den({(s[:i] + s[i + 1:], ()): 1})
            df = diff_factor(f, True, dat, dfn)
            lead = Den({(((f, e - 1),) if e != 1 else (), ()): e})
            if f[0] == 'base':
                lead = Den({m: sympy.sympify(x) for m, x in f[1]}).pow(e - 1).scale(e)
            out = out + rest.mul(lead).mul(df).mul(Den({((), ts): 1})).scale(c)
        for i, f in enumerate(ts):
            df = diff_factor(f, False, dat, dfn)
            out = out + Den({(s, ts[:i]): 1}).mul(df).mul(Den({((), ts[i + 1:]): 1})).scale(c)
    return out


def diff_factor(f, scalar, dat, dfn):
    if f[0] == 'a':
        return dat(f[1], f[2])
    if f[0] == 'lin':
        kind = key_kind(f[1])
        return diff(Den({f[2]: sympy.Integer(1)}), dat, dfn).lin(f[1], kind)
    if f[0] == 'bil':
        a, b = Den({((), f[2]): sympy.Integer(1)}), Den({((), f[3]): sympy.Integer(1)})
        return diff(a, dat, dfn).bil(f[1], b) + a.bil(f[1], diff(b, dat, dfn))
    if f[0] == 'fn':
        inner = Den({m: sympy.sympify(c) for m, c in f[2]})
        return dfn(f[1], inner).mul(diff(inner, dat, dfn))
    if f[0] == 'base':
        return diff(Den({m: sympy.sympify(c) for m, c in f[1]}), dat, dfn)
    raise AssertionError(f)


# --------------------------------------------------------------------------- operands

class Ex(AbsVal):
    """Abstract operand with a denotation."""
    def __init__(self, den, cls=None, name=None, args=None, flags=None, attrs=None):
        self.den, self.cls, self.name, self.args = den, cls, name, args
        self.flags = dict(flags or {})
        self.attrs = dict(attrs or {})

    def __repr__(self):
        return self.name or repr(self.den)

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('is', '=='):
            return self is other
        if op in ('is not', '!='):
            return self is not other
        if op in ('in', 'not in') and not swapped:
            items = it.iterate(other)
            return any(x is self for x in items) == (op == 'in')
        return NotImplemented

    def binop(self, it, op, other, swapped):
        d = den_of(it, other)
        if d is None:
            return NotImplemented
        a, b = (d, self.den) if swapped else (self.den, d)
        flags = merge_flags(self, other)
        if op == '+':
            return mk(it, a + b, cls='Add', flags=flags)
        if op == '-':
            return mk(it, a - b, cls='Add', flags=flags)
        if op == '*':
            return mk(it, a.mul(b), cls='Multiply', flags=flags)
        if op == '@':
            return mk(it, a.bil(('Dot', (-1, 0)), b), flags=flags)
        if op == '**' and not swapped and isinstance(other, NUM):
            return mk(it, self.den.pow(other), flags=flags)
        if op == '/' and isinstance(other, NUM) and not swapped:
            return mk(it, self.den.scale(1 / _num(other)), flags=flags)
        if op == '/' and isinstance(other, Ex) or op == '/' and swapped:
            return mk(it, a.mul(b.pow(-1)), flags=flags)
        return NotImplemented

    def unop(self, it, op):
        if op == '-':
            return mk(it, self.den.scale(-1))
        return NotImplemented

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'args' and self.args is not None:
            return list(self.args)
        if name == 'operand' and self.args:
            return self.args[0]
        if name == 'domain':
            return Domain(self)
        if name in ('dist', 'dtype', 'tensorsig'):
            return it.state.get(name, sym(name))
        if name == 'name':
            return self.name or sym('name')
        if name == 'valid_modes':
            return Term('valid_modes', self.name or repr(self.den))
        if name == 'scales':
            return 1
        if name in METHODS:
            return Native('operand.' + name, lambda it2, *a, **k: METHODS[name](self, it2, *a, **k))
        h = it.state.get('ex_getattr')
        if h is not None:
            r = h(self, it, name)
            if r is not NotImplemented:
                return r
        if self.cls is not None and name.startswith('_') and not name.startswith('__'):
            m = self.cls.method(name)   # a private helper of the class, analysed with this operand as self
            if m is not None:
                if m.has_deco('staticmethod'):
                    return Closure(m, None, None, m.cls)
                return Closure(m, None, self, m.cls)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name in METHODS:
            return METHODS[name](self, it, *args, **kwargs)
        return NotImplemented


class Domain(AbsVal):
    def __init__(self, ex):
        self.ex = ex

    def __repr__(self):
        return f"domain[{self.ex.den!r}]"

    def ident(self):
        return frozenset(self.ex.den.t)

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if isinstance(other, Domain):
            r = self.ident() == other.ident()
            return r if op in ('==', 'is') else not r
        return NotImplemented

    def getattr(self, it, name):
        if name == 'bases':
            return Term('bases_of', self)
        if name == 'dist':
            return it.state.get('dist', sym('dist'))
        if name in ('nonconstant', 'constant', 'mode_dependence'):
            return Term(name, self)
        return NotImplemented


def merge_flags(*xs):
    """Flags that hold for every operand."""
    xs = [x for x in xs if isinstance(x, Ex)]
    return {k: v for k, v in xs[0].flags.items() if all(x.flags.get(k) == v for x in xs)} if xs else {}


def mk(it, den, **kw):
    """Operand for a denotation; zero and pure numbers stay python numbers."""
    if den.zero():
        return 0
    if isinstance(kw.get('cls'), str):
        kw['cls'] = it.state.get('classes', {}).get(kw['cls'])
    return Ex(den, **kw)


def den_of(it, v):
    if isinstance(v, Ex):
        return v.den
    if isinstance(v, NUM) and not isinstance(v, bool):
        return one().scale(v)
    if isinstance(v, Obj):
        h = it.state.get('obj_den')
        if h is not None:
            return h(it, v)
    return None


def depends(it, name, var):
    """Does the atom depend on the variable (an operand or an operator class)?"""
    if isinstance(var, Ex):
        return var.name == name or var.name in it.state['dep'].get(name, ())
    if isinstance(var, Class):
        return var.name in it.state['dep'].get(name, ())
    it.state['errors'].append((it.loc(), f"{show(var)} is used as a variable"))
    return False


def key_matches(key, var):
    return isinstance(var, Class) and isinstance(key, tuple) and len(key) > 1 and isinstance(key[1], Class) and key[1].issub(var)


def den_has(it, den, vars):
    if any(depends(it, a, v) for a in den.atoms() for v in vars):
        return True
    return any(key_matches(k, v) for k in den.opkeys() for v in vars if isinstance(v, Class))


def m_has(self, it, *vars):
    return den_has(it, self.den, vars)


def m_split(self, it, *vars):
    a, b = self.den.parts(lambda d: den_has(it, d, vars))
    return (mk(it, a), mk(it, b))


def m_sym_diff(self, it, var):
    return mk(it, diff_by(it, self.den, var))


def diff_by(it, den, var):
    def dat(name, scalar):
        if isinstance(var, Ex) and name == var.name:
            return one()
        if depends(it, name, var):
            return atom(f"∂{name}/∂{var.name}", scalar)
        return Den()

    def dfn(key, inner):
        return inner.fn(('deriv', key))
    return diff(den, dat, it.state.get('dfn', dfn))


def replace_in(it, den, old, new):
    if isinstance(old, Class):
        return replace_op(it, den, old, new)
    nd = den_of(it, new)

    def f(name, scalar):
        if isinstance(old, Ex) and name == old.name:
            if nd is None:
                it.state['errors'].append((it.loc(), f"{name} is replaced by {show(new)}"))
                return None
            return nd
        if depends(it, name, old):
            return atom(f"{name}[{show(old)}→{show(new)}]", scalar)
        return None
    return den.subst(f)


def replace_op(it, den, cls, new):
    out = Den()
    for (s, ts), c in den.t.items():
        m = one().scale(c)
        for fac, e in list(s) + [(f, sympy.Integer(1)) for f in ts]:
            m = m.mul(replace_op_factor(it, fac, cls, new).pow(e))
        out = out + m
    return out


def replace_op_factor(it, fac, cls, new):
    if fac[0] == 'a':
        if depends(it, fac[1], cls):
            return atom(f"{fac[1]}[{cls.name}→{show(new)}]", fac[2])
        return atom(fac[1], fac[2])
    if fac[0] == 'lin':
        inner = replace_op(it, Den({fac[2]: sympy.Integer(1)}), cls, new)
        if key_matches(fac[1], cls):
            r = it.call(new, [mk(it, inner)], {})
            return den_of(it, r)
        kind = key_kind(fac[1])
        return inner.lin(fac[1], kind)
    if fac[0] == 'bil':
        return replace_op(it, Den({((), fac[2]): sympy.Integer(1)}), cls, new).bil(fac[1], replace_op(it, Den({((), fac[3]): sympy.Integer(1)}), cls, new))
    return Den({(((fac, sympy.Integer(1)),), ()): sympy.Integer(1)})


def m_replace(self, it, old, new):
    return mk(it, replace_in(it, self.den, old, new))


def m_expand(self, it, *vars):
    it.state.setdefault('expanded', []).append((self, vars))
    h = it.state.get('expand_shape', {}).get(self.name)
    if h is not None:
        return h
    return self


def m_atoms(self, it, *types):
    h = it.state.get('atoms_of')
    if h is not None:
        return h(self, it, types)
    return [x for x in it.state.get('leaves', []) if x.name in self.den.atoms()]


def m_reinitialize(self, it, **kw):
    e = Ex(self.den, self.cls, self.name, self.args, self.flags, self.attrs)
    e.flags['reinit'] = freeze(kw)
    e.flags.pop('prepped', None)
    return e


def m_prep(self, it, *a, **kw):
    self.flags['prepped'] = freeze(kw.get('vars', a[0] if a else None))
    it.state.setdefault('prepped', []).append((self, kw.get('vars', a[0] if a else None)))
    return None


def degrees(it, den, vars):
    """Polynomial degrees of the terms in the variables (None: not polynomial)."""
    def fac(f):
        if f[0] == 'a':
            return 1 if any(isinstance(v, Ex) and v.name == f[1] for v in vars) else 0
        if f[0] == 'lin':
            return mono(f[2])
        if f[0] == 'bil':
            xs = [fac(x) for x in f[2] + f[3]]
            return None if None in xs else sum(xs)
        inner = f[2] if f[0] == 'fn' else f[1]
        return 0 if all(mono(m) == 0 for m, c in inner) else None

    def mono(m):
        xs = []
        for f, e in m[0]:
            d = fac(f)
            xs.append(0 if d == 0 else None if d is None or not (e.is_Integer and e > 0) else int(d * e))
        xs += [fac(f) for f in m[1]]
        return None if None in xs else sum(xs)
    return [mono(m) for m in den.t]


def op_orders(it, den, ops):
    """Nesting depth of the operators in each term."""
    def fac(f):
        if f[0] == 'lin':
            return mono(f[2]) + any(key_matches(f[1], o) for o in ops)
        if f[0] == 'bil':
            return max([fac(x) for x in f[2] + f[3]] + [0])
        if f[0] == 'a':
            return 0
        return max([mono(m) for m, c in (f[2] if f[0] == 'fn' else f[1])] + [0])

    def mono(m):
        return max([fac(f) for f, e in m[0]] + [fac(f) for f in m[1]] + [0])
    return [mono(m) for m in den.t]


def refuse(it, error):
    raise RaiseSig(error.name if isinstance(error, (Class, Native)) else show(error), 'refused', it.loc())


def m_require_linearity(self, it, *vars, allow_affine=False, error=None, **kw):
    ds = degrees(it, self.den, vars)
    if not all(d == 1 or d == 0 and allow_affine for d in ds):
        refuse(it, error)


def m_require_independent(self, it, *vars, error=None, **kw):
    if den_has(it, self.den, vars):
        refuse(it, error)


def m_require_first_order(self, it, *ops, error=None, **kw):
    if any(o > 1 for o in op_orders(it, self.den, ops)):
        refuse(it, error)


def m_matrix_info(name):
    def f(self, it, *vars):
        return Term(name, repr(self.den), freeze(tuple(vars)))
    return f


def m_new_operand(self, it, operand, **kw):
    key = self.attrs['key']
    return mk(it, den_of(it, operand).lin(key, key_kind(key)))


METHODS = {'require_linearity': m_require_linearity, 'require_independent': m_require_independent, 'require_first_order': m_require_first_order,
           'new_operand': m_new_operand, 'has': m_has, 'split': m_split, 'sym_diff': m_sym_diff, 'replace': m_replace, 'expand': m_expand, 'atoms': m_atoms,
           'reinitialize': m_reinitialize, 'prep_nccs': m_prep, 'matrix_dependence': m_matrix_info('matrix_dependence'),
           'matrix_coupling': m_matrix_info('matrix_coupling')}
