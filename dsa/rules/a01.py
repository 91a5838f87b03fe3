"""Symbolic manipulations preserve the meaning of expressions.

Each node class's `split`, `replace`, `sym_diff`, `expand`, `has`, `atoms`
and `reinitialize` is abstractly interpreted once per combination of operand
kinds, with abstract operands whose own manipulations satisfy the property
(the induction hypothesis).  The result is compared with the definition of
the manipulation in a normal form of the operator algebra (linear operators,
bilinear products, powers, grid functions, derivations), so each case is an
inductive step valid for every expression.  Operator overloads, constructor
preprocessing and the Frechet differential are compared in the same algebra;
the derivative table of grid functions is checked against exact calculus.
"""
import itertools
import sympy
from ..interp import *
from ..alg import *
from ..repo import AnalysisBroken, Class, Func

FUTURE_METHODS = ('split', 'replace', 'sym_diff', 'expand', 'has', 'atoms', 'reinitialize')


def is_a(c, name):
    return any(x.name == name for x in c.mro())


class Cfg(Config):
    max_paths = 64
    max_depth = 14
    max_while = 6

    def on_isinstance(self, it, value, cls):
        if isinstance(value, (Ex, Obj)) and not isinstance(cls, Class):
            nm = cls.args[0] if isinstance(cls, Term) and cls.op == 'ext' else cls.name if isinstance(cls, Native) else None
            return False if nm is not None else None
        if isinstance(value, Ex) and isinstance(cls, Class):
            c = value.cls or it.state['classes'].get('Field')
            return c.issub(cls)
        if isinstance(cls, Class) and isinstance(value, NUM):
            return False
        return None

    def on_getattr(self, it, base, name):
        if isinstance(base, Class):
            if name == '__subclasses__':
                return Native('subclasses', lambda it2: [c for c in it.repo.classes() if base in c.bases])
            if name == 'stop_dispatch' and base.find(name) is None:
                return False
            if base.find(name) is None:
                mc = metaclass(it.repo, base)
                if mc is not None and mc.method(name) is not None:
                    m = mc.method(name)
                    return Closure(m, None, base, m.cls)
        if isinstance(base, SuperVal) and name == '__call__' and isinstance(base.obj, Class):
            return Native('type.__call__', lambda it2, *a, **k: construct(it2, base.obj, a, k))
        if isinstance(base, Obj) and name in METHODS and name not in base.attrs and base is not it.state.get('self') and it.state.get('obj_den'):
            d = it.state['obj_den'](it, base)
            if d is not None:
                e = Ex(d, base.cls)
                return Native('node.' + name, lambda it2, *a, **k: METHODS[name](e, it2, *a, **k))
        return NotImplemented

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'OrderedSet':
            return SetM(it, args)
        if is_a(cls, 'Future') or cls.name == 'Field':
            if it.state.get('dispatch') and metaclass(it.repo, cls) is not None:
                mc = metaclass(it.repo, cls)
                m = mc.method('__call__')
                return it.call(Closure(m, None, cls, m.cls), list(args), kwargs)
            return construct(it, cls, args, kwargs)
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        n = clo.func.name
        s = args[0] if args else None
        if n == 'unify_attributes':
            return Term('unified', str(args[1]) if len(args) > 1 else '')
        if n == 'cast' and clo.func.cls is not None and clo.func.cls.name == 'Operand':
            a = args[0]
            it.state.setdefault('cast', []).append(args)
            if isinstance(a, NUM):
                return Ex(one().scale(a), it.state['classes']['Field'])
            return a
        if n == 'new_operand' and isinstance(s, Obj) and s.cls is not None and is_a(s.cls, 'LinearOperator') and s is it.state.get('self'):
            key = it.state['selfkey']
            if len(args) != 2:
                return NotImplemented
            d = den_of(it, args[1])
            if d is None:
                it.state['errors'].append((it.loc(), f"operator applied to {show(args[1])}"))
                return 0
            return mk(it, d.lin(key, key_kind(key)), cls='LinearOperator')
        if isinstance(s, Obj) and s is it.state.get('self') and n == '__str__':
            return 'self'
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        s = show(f)
        if s in ('numpy.conj', 'numpy.conjugate') and args and isinstance(args[0], (Ex, Obj)):
            d = den_of(it, args[0])
            return mk(it, d.fn('conj'))
        if s in ('numpy.real', 'numpy.imag'):
            return NotImplemented
        return NotImplemented

    def on_native(self, it, name, args, kwargs):
        if name.split('.')[-1] in ('conj', 'conjugate') and args and isinstance(args[0], (Ex, Obj)):
            return mk(it, den_of(it, args[0]).fn('conj'))
        return NotImplemented


class SetM(AbsVal):
    """OrderedSet of operands."""
    def __init__(self, it, colls=()):
        self.items = []
        for c in colls:
            self.callmethod(it, 'update', [c], {})

    def truth(self, it):
        return bool(self.items)

    def iterate(self, it):
        return list(self.items)

    def callmethod(self, it, name, args, kwargs):
        if name == 'update':
            for a in args:
                for x in it.iterate(a):
                    if not any(x is y for y in self.items):
                        self.items.append(x)
            return None
        if name == 'add':
            if not any(args[0] is y for y in self.items):
                self.items.append(args[0])
            return None
        return NotImplemented

    def getattr(self, it, name):
        if name in ('update', 'add'):
            return Native(name, lambda it2, *a, **k: self.callmethod(it2, name, a, k))
        return NotImplemented


def metaclass(repo, cls):
    for c in cls.mro():
        for k in c.node.keywords:
            if k.arg == 'metaclass':
                r = repo.resolve_expr(k.value, c.module)
                return r if isinstance(r, Class) else None
    return None


def construct(it, cls, args, kwargs):
    """Meaning of building a node of a class."""
    st = it.state
    kwargs = {k: v for k, v in kwargs.items() if not (k == 'out' and v is None)}
    if cls.name == 'Field':
        st['fields'] = st.get('fields', 0) + 1
        nm = f"new_field_{st['fields']}"
        e = Ex(atom(nm, True), cls, nm)
        e.attrs['ctor'] = dict(kwargs)
        st['leaves'].append(e)
        return e
    if 'out' in kwargs:
        st['errors'].append((it.loc(), f'{cls.name} is built with output {show(kwargs["out"])}'))
    dens = [den_of(it, a) for a in args]

    def need(i, what='an operand'):
        if i >= len(args) or dens[i] is None:
            raise RaiseSig('TypeError', f"{cls.name} needs {what}", it.loc())
        return dens[i]

    def operand(i):
        if i >= len(args) or isinstance(args[i], NUM):
            raise RaiseSig('ValueError', f"{cls.name} needs operands, got {show(args[i]) if i < len(args) else 'too few arguments'}", it.loc())
        return need(i)
    if is_a(cls, 'Add'):
        d = Den()
        for i in range(len(args)):
            d = d + need(i)
        return mk(it, d, cls='Add' if cls.name == 'Add' else cls.name, args=list(args))
    if is_a(cls, 'Multiply'):
        if len(args) != 2:
            raise RaiseSig('TypeError', f"{cls.name} takes 2 operands", it.loc())
        return mk(it, need(0).mul(need(1)), cls='Multiply' if cls.name == 'Multiply' else cls.name, args=list(args))
    if is_a(cls, 'DotProduct') or is_a(cls, 'CrossProduct'):
        if len(args) > 3 or len(args) < 2:
            raise RaiseSig('TypeError', f"{cls.name} takes 2 operands", it.loc())
        idx = kwargs.get('indices', args[2] if len(args) > 2 else (-1, 0)) if is_a(cls, 'DotProduct') else None
        name = ('Dot', freeze(idx)) if is_a(cls, 'DotProduct') else ('Cross',)
        return mk(it, operand(0).bil(name, operand(1)), cls=cls.name, args=list(args))
    if is_a(cls, 'Power'):
        if len(args) != 2 or not isinstance(args[1], NUM):
            raise RaiseSig('NotImplementedError', 'power must be a number', it.loc())
        return mk(it, operand(0).pow(args[1]), cls='PowerFieldConstant', args=list(args))
    if is_a(cls, 'UnaryGridFunction'):
        deriv = kwargs.get('deriv', args[2] if len(args) > 2 else None)
        if len(args) < 2:
            raise RaiseSig('TypeError', 'missing argument', it.loc())
        key = (freeze(args[0]), 'default' if deriv is None else deriv)
        return mk(it, operand(1).fn(key), cls='UnaryGridFunction', args=[args[1]])
    if is_a(cls, 'LinearOperator'):
        rest = tuple(freeze(a) for a in args[1:]) + tuple(sorted((k, freeze(v)) for k, v in kwargs.items()))
        key = ('op', cls, rest, op_kind(cls))
        return mk(it, need(0).lin(key, key_kind(key)), cls='LinearOperator', args=list(args[:1]))
    return NotImplemented


def op_kind(cls):
    if is_a(cls, 'TimeDerivative'):
        return 'tderiv'
    if is_a(cls, 'Differentiate'):
        return 'deriv'
    if is_a(cls, 'Interpolate'):
        return 'hom'
    if is_a(cls, 'Convert'):
        return 'identity'
    return None


# --------------------------------------------------------------------------- node under test

def setup(it, repo):
    it.state.update(errors=[], dep={}, leaves=[], expand_shape={}, dist=Obj(None, 'dist'), tensorsig=(), dtype=sym('dtype'))
    C = {}
    for m, n in (('core.field', 'Field'), ('core.arithmetic', 'Add'), ('core.arithmetic', 'AddFields'), ('core.arithmetic', 'Multiply'), ('core.arithmetic', 'MultiplyFields'),
                 ('core.arithmetic', 'MultiplyNumberField'), ('core.arithmetic', 'DotProduct'), ('core.arithmetic', 'CrossProduct'),
                 ('core.operators', 'PowerFieldConstant'), ('core.operators', 'UnaryGridFunction'), ('core.operators', 'LinearOperator'), ('core.operators', 'TimeDerivative')):
        C[n] = repo.cls(m, n)
    C['Add'], C['Multiply'] = C['AddFields'], C['MultiplyFields']
    it.state['classes'] = C
    it.state['ADD'], it.state['MUL'] = C['AddFields'], C['MultiplyFields']
    return C


def leaf(it, name, dep=(), scalar=False):
    e = Ex(atom(name, scalar), it.state['classes']['Field'], name)
    it.state['leaves'].append(e)
    it.state['dep'][name] = tuple(dep)
    return e


def both(it, name, dep, scalar=False):
    """An expression with a part depending on `dep` and a part free of it."""
    it.state['dep'][name + '₁'] = tuple(dep)
    it.state['dep'][name + '₀'] = ()
    e = Ex(atom(name + '₁', scalar) + atom(name + '₀', scalar), it.state['classes']['AddFields'], name)
    e.args = [leaf(it, name + '₁', dep, scalar), leaf(it, name + '₀', (), scalar)]
    return e


KINDS_OF_CLASS = (('Add', 'add'), ('MultiplyNumberField', 'mulnum'), ('Multiply', 'mul'), ('DotProduct', 'dot'), ('CrossProduct', 'cross'),
                  ('Power', 'pow'), ('UnaryGridFunction', 'fn'), ('LinearOperator', 'lin'))


def kind_of(cls):
    for n, k in KINDS_OF_CLASS:
        if is_a(cls, n):
            return k
    return None


def node(it, cls, args, power=2):
    """Instance of a node class over abstract operands, and its meaning."""
    k = kind_of(cls)
    o = Obj(cls, cls.name)
    st = it.state
    st['self'] = o
    attrs = dict(dist=st['dist'], tensorsig=(), dtype=st['dtype'], out=None, last_id=None)
    if k == 'pow':
        args = [args[0], power]
    attrs['args'] = list(args)
    attrs['original_args'] = tuple(args)
    attrs['domain'] = Obj(None, 'domain')
    key = None
    if k == 'dot':
        attrs['indices'] = sym('indices')
    if k == 'fn':
        fk = (sym('func'), sym('deriv'))
        attrs['func'] = sym('func')
        attrs['deriv'] = Native('deriv', lambda it2, x: mk(it2, den_of(it2, x).fn(('deriv', fk))))
        st['native_deriv'] = attrs['deriv']
    if k == 'lin':
        attrs['operand'] = args[0]
        key = ('op', cls, (), op_kind(cls))
        st['selfkey'] = key
    o.attrs.update(attrs)

    def meaning(it2, obj):
        if obj is not o:
            return None
        d = [den_of(it2, a) for a in args]
        if k == 'add':
            r = Den()
            for x in d:
                r = r + x
            return r
        if k in ('mul', 'mulnum'):
            return d[0].mul(d[1])
        if k == 'dot':
            return d[0].bil(('Dot', freeze(sym('indices'))), d[1])
        if k == 'cross':
            return d[0].bil(('Cross',), d[1])
        if k == 'pow':
            return d[0].pow(power)
        if k == 'fn':
            return d[0].fn((freeze(sym('func')), attrs['deriv']))
        if k == 'lin':
            return d[0].lin(key, key_kind(key))
    st['obj_den'] = meaning
    st['dfn'] = lambda fkey, inner: inner.fn(('deriv', (fkey[0], sym('deriv')))) if isinstance(fkey, tuple) and len(fkey) == 2 and fkey[0] != 'deriv' else inner.fn(('deriv', fkey))
    return o, meaning(it, o)


def call(it, o, name, args, kwargs=None):
    f = o.cls.method(name)
    if f is None:
        raise AnalysisBroken(f"{o.cls.name} has no method {name}")
    return it.call(Closure(f, None, o, f.cls), list(args), kwargs or {})


def arity(k):
    return 1 if k in ('pow', 'fn', 'lin') else 2


def operand_cases(k):
    """Kinds of each operand: 'dep' (depends on the variable), 'ind', 'both', 'num'."""
    if k == 'mulnum':
        return [('num', c) for c in ('dep', 'ind', 'both')]
    if arity(k) == 1:
        return [(c,) for c in ('dep', 'ind', 'both')]
    cs = list(itertools.product(('dep', 'ind', 'both'), repeat=2))
    if k == 'add':
        cs += [('dep', 'ind', 'both'), ('ind', 'ind', 'dep'), ('dep', 'ind', 'first')]
    # the same object may be several operands
    cs += [(c, 'first') for c in ('dep', 'ind', 'both')]
    return cs


def put(args, case, i, v):
    for j, c in enumerate(case):
        if j == i or c == 'first' and i == 0:
            args[j] = v


def build_args(it, k, case, var):
    scalar = k in ('pow', 'fn')
    out = []
    for i, c in enumerate(case):
        nm = 'xyz'[i]
        if c == 'first':
            out.append(out[0])
        elif c == 'num':
            out.append(sympy.Integer(3))
        elif c == 'both':
            out.append(both(it, nm, var, scalar))
        else:
            out.append(leaf(it, nm, var if c == 'dep' else (), scalar))
    return out


def explore(repo, thunk):
    it = Interp(repo, Cfg())

    def go(it):
        setup(it, repo)
        return thunk(it)
    return it.explore(go)


def node_classes(repo):
    """One class per distinct set of implementations, with all classes it stands for."""
    fut = repo.cls('core.future', 'Future')
    groups = {}
    names = FUTURE_METHODS + ('_expand_linop', '_expand_add', '_expand_multiply', 'new_operands')
    for c in repo.subclasses(fut, strict=True):
        k = kind_of(c)
        if k is None:
            continue
        if k != 'lin' and any(s is not c for s in repo.subclasses(c, strict=True)):
            continue
        sig = (k, op_kind(c) if k == 'lin' else None) + tuple(id(c.method(n)) if c.method(n) else None for n in names)
        groups.setdefault(sig, []).append(c)
    return [(sig[0], cs) for sig, cs in groups.items()]


class Fail:
    def __init__(self, rep, pid, repo):
        self.rep, self.pid, self.repo = rep, pid, repo

    def result(self, cls, meth, label, r, pred):
        """pred(r) -> None or message."""
        rep = self.rep
        f = cls.method(meth)
        loc = f.loc if f else cls.loc
        key = f"{self.pid}|{(f.cls or cls).name if f else cls.name}.{meth}|{cls.name}"
        if r.outcome == 'abort':
            rep.undec(f"{cls.name}.{meth} {label}: {r.value}")
            return
        if r.outcome == 'raise':
            rep.violation(key, f"{cls.name}.{meth} [{label}] raises {r.value.name} ({show(r.value.value)}) at {r.value.loc}", loc)
            return
        errs = r.extra.get('errors') or []
        if errs:
            rep.violation(key, f"{cls.name}.{meth} [{label}]: {errs[0][1]} at {errs[0][0]}", loc)
            return
        msg = pred(r)
        rep.check(msg is None, key, f"{cls.name}.{meth} [{label}]: {msg}", loc, f"{cls.name}.{meth} {label}")


def eq(it, value, want):
    d = den_of(it, value)
    if d is None:
        return f"returns {show(value)}, which is no expression"
    if not d == want:
        return f"means {d!r} instead of {want!r}"
    return None


def check_manipulations(repo, rep, F):
    for k, classes in node_classes(repo):
        cls = classes[0]
        rep.count('node implementations')
        rep.count('node classes', len(classes))
        for case in operand_cases(k):
            powers = (2, 3, -1, sympy.Rational(1, 2)) if k == 'pow' else (2,)
            for power in powers:
                label = f"operands {', '.join(case)}" + (f", power {power}" if k == 'pow' else '')
                check_split(repo, rep, F, cls, k, case, power, label)
                check_diff(repo, rep, F, cls, k, case, power, label)
                check_replace(repo, rep, F, cls, k, case, power, label)
                check_has(repo, rep, F, cls, k, case, power, label)
            check_expand(repo, rep, F, cls, k, case, label)
            check_reinit(repo, rep, F, cls, k, case, label)


def check_split(repo, rep, F, cls, k, case, power, label):
    f = cls.method('split')
    for vkind in ('operand', 'operator class', 'two operands'):
        def go(it):
            C = it.state['classes']
            v = leaf(it, 'v')
            w = leaf(it, 'w')
            vars = {'operand': (v,), 'operator class': (C['TimeDerivative'],), 'two operands': (w, v)}[vkind]
            dep = ('TimeDerivative',) if vkind == 'operator class' else ('v',)
            o, want = node(it, cls, build_args(it, k, case, dep), power)
            r = call(it, o, 'split', vars)
            it.state['want'] = want
            r = tuple(it.iterate(r))
            if len(r) != 2:
                it.state['errors'].append((it.loc(), f'split returns {len(r)} parts'))
                return None
            a, b = den_of(it, r[0]), den_of(it, r[1])
            if a is None or b is None:
                return f"returns ({show(r[0])}, {show(r[1])})"
            if not (a + b) == want:
                return f"parts ({a!r}) and ({b!r}) do not sum to {want!r}"
            own = vkind == 'operator class' and k == 'lin' and is_a(cls, 'TimeDerivative')
            # a power of a sum is one factor, although the normal form multiplies it out
            whole = k == 'pow' and 'both' in case and a == want
            bad = [m for m in a.t if not own and not whole and not den_has(it, Den({m: 1}), vars)]
            if bad:
                return f"first part contains {show_mono(bad[0])}, which is free of the variables"
            bad = [m for m in b.t if den_has(it, Den({m: 1}), vars)]
            if bad:
                return f"second part contains {show_mono(bad[0])}, which depends on the variables"
            return None
        for r in explore(repo, go):
            F.result(cls, 'split', f"{label}; variable: {vkind}", r, lambda r: r.value)


def check_diff(repo, rep, F, cls, k, case, power, label):
    for variant in ('dependent', 'variable'):
        if variant == 'variable' and 'dep' not in case:
            continue

        def go(it):
            v = leaf(it, 'v', scalar=True)
            args = build_args(it, k, case, ('v',))
            if variant == 'variable':
                i = case.index('dep')
                if k in ('dot', 'cross'):
                    return None
                put(args, case, i, v)
            o, want = node(it, cls, args, power)
            r = call(it, o, 'sym_diff', [v])
            # the derivative function is applied once, times the inner derivative
            w = diff_by(it, want, v)
            return eq(it, r, w)
        for r in explore(repo, go):
            F.result(cls, 'sym_diff', f"{label}; {variant}", r, lambda r: r.value)


def check_replace(repo, rep, F, cls, k, case, power, label):
    for variant in ('operand', 'operator class', 'whole node', 'own class', 'zero', 'one'):
        if variant in ('zero', 'one') and (k in ('dot', 'cross') or 'dep' not in case):
            continue
        if variant in ('zero',) and k == 'pow':
            continue

        def go(it):
            C = it.state['classes']
            old = leaf(it, 'old', scalar=True)
            new = leaf(it, 'new', scalar=True)
            dep = ('TimeDerivative',) if variant == 'operator class' else ('old',)
            if variant == 'own class':
                dep = (cls.name,)
            args = build_args(it, k, case, dep)
            if variant in ('zero', 'one'):
                put(args, case, case.index('dep'), old)
                new = 0 if variant == 'zero' else 1
            o, want = node(it, cls, args, power)
            if variant == 'whole node':
                if op_kind(cls) == 'identity':
                    return None
                r = call(it, o, 'replace', [o, new])
                return None if r is new else f"returns {show(r)} instead of the replacement"
            if variant == 'operator class':
                if is_a(cls, 'TimeDerivative'):
                    return None
                fn = Native('wrap', lambda it2, x: mk(it2, den_of(it2, x).lin(('op', None, 'wrapped', None))))
                r = call(it, o, 'replace', [C['TimeDerivative'], fn])
                w = replace_by_name(it, want, lambda n: f"{n}[TimeDerivative→{show(fn)}]")
                return eq(it, r, w)
            if variant == 'own class':
                if k != 'lin':
                    got = []
                    fn = Native('wrap', lambda it2, *xs: (got.append(xs), it2.state['leaves'][0])[1])
                    r = call(it, o, 'replace', [cls, fn])
                    if len(got) != 1 or r is not it.state['leaves'][0]:
                        return f"returns {show(r)}, which is not the replaced operator's result"
                    w = [replace_by_name(it, den_of(it, a), lambda n: f"{n}[{cls.name}→{show(fn)}]") for a in o.attrs['args']]
                    ds = [den_of(it, a) for a in got[0]]
                    if len(ds) != len(w) or any(d is None or not d == x for d, x in zip(ds, w)):
                        return f"the replaced operator is applied to {ds} instead of {w}"
                    return None
                if op_kind(cls) == 'identity':
                    return None
                fn = Native('wrap', lambda it2, x: mk(it2, den_of(it2, x).lin(('op', None, 'wrapped', None))))
                r = call(it, o, 'replace', [cls, fn])
                d = den_of(it, args[0])
                w = replace_by_name(it, d, lambda n: f"{n}[{cls.name}→{show(fn)}]").lin(('op', None, 'wrapped', None))
                return eq(it, r, w)
            r = call(it, o, 'replace', [old, new])
            if variant in ('zero', 'one') and k == 'fn':
                # a grid function of a number is the function's value
                return None
            return eq(it, r, replace_in(it, want, old, new))
        for r in explore(repo, go):
            F.result(cls, 'replace', f"{label}; replacing {variant}", r, lambda r: r.value)


def replace_by_name(it, den, f):
    return den.subst(lambda n, s: atom(f(n), s) if it.state['dep'].get(n) else None)


def check_has(repo, rep, F, cls, k, case, power, label):
    for vkind in ('operand', 'operator class', 'own class', 'no match'):
        def go(it):
            C = it.state['classes']
            v, w = leaf(it, 'v'), leaf(it, 'w')
            dep = ('TimeDerivative',) if vkind == 'operator class' else ('v',)
            o, want = node(it, cls, build_args(it, k, case, dep), power)
            vars = {'operand': (w, v), 'operator class': (C['TimeDerivative'],), 'own class': (cls,), 'no match': (w,)}[vkind]
            r = it.truth(call(it, o, 'has', vars))
            expect = vkind == 'own class' or (vkind != 'no match' and any(c in ('dep', 'both') for c in case)) \
                or (vkind == 'operator class' and is_a(cls, 'TimeDerivative'))
            return None if r == expect else f"returns {r} instead of {expect}"
        for r in explore(repo, go):
            F.result(cls, 'has', f"{label}; {vkind}", r, lambda r: r.value)

    def go(it):
        FieldC = it.state['classes']['Field']
        args = build_args(it, k, case, ('v',))
        got = []

        def atoms_of(ex, it2, types):
            got.append(tuple(types))
            return [x for x in it.state['leaves'] if x.name in ex.den.atoms()]
        it.state['atoms_of'] = atoms_of
        o, want = node(it, cls, args, power)
        r = call(it, o, 'atoms', [FieldC])
        names = {x.name for x in it.iterate(r)}
        expect = set()
        for a in args:
            if isinstance(a, Ex):
                expect |= a.den.atoms()
        if names != expect:
            return f"collects {sorted(names)} instead of {sorted(expect)}"
        if any(t != (FieldC,) for t in got):
            return "the requested types are not passed to the operands"
        return None
    for r in explore(repo, go):
        F.result(cls, 'atoms', label, r, lambda r: r.value)


def shapes(it, base, dep):
    """Forms an expanded operand can take."""
    C = it.state['classes']
    p, q = leaf(it, base + 'p', dep), leaf(it, base + 'q', dep)
    r = leaf(it, base + 'r', ())
    yield 'leaf', p
    yield 'sum', Ex(p.den + q.den, C['AddFields'], base + 'sum', [p, q])
    yield 'sum with independent term', Ex(p.den + r.den, C['AddFields'], base + 'sum', [p, r])
    yield 'product', Ex(r.den.mul(p.den), C['MultiplyFields'], base + 'prod', [r, p])
    yield 'number times operand', Ex(p.den.scale(5), C['MultiplyNumberField'], base + 'nprod', [5, p])
    key = ('op', C['LinearOperator'], 'G', None)
    yield 'linear operator', Ex(p.den.lin(key), C['LinearOperator'], base + 'lin', [p], attrs={'key': key})
    key2 = ('op', C['TimeDerivative'], (), 'tderiv')
    yield 'time derivative', Ex(p.den.lin(key2, 'tderiv'), C['TimeDerivative'], base + 'dt', [p], attrs={'key': key2})


def check_expand(repo, rep, F, cls, k, case, label):
    n = len(case)
    if k in ('pow', 'fn'):
        names = ['leaf', 'sum']
    else:
        names = ['leaf', 'sum', 'sum with independent term', 'product', 'number times operand', 'linear operator', 'time derivative']
    if n == 3:
        combos = [('sum', 'leaf', 'product')]
    else:
        combos = list(itertools.product(names, repeat=n)) if n == 1 or k == 'mulnum' else [(a, b) for a in names for b in names if a == 'leaf' or b == 'leaf' or (a == 'sum' and b == 'sum')]
    for shp in combos:
        def go(it):
            v = leaf(it, 'v')
            args = []
            for i, c in enumerate(case):
                if c == 'num':
                    args.append(sympy.Integer(3))
                    continue
                if c == 'first':
                    args.append(args[0])
                    continue
                dep = ('v',) if c in ('dep', 'both') else ()
                sh = dict(shapes(it, 'xyz'[i], dep))[shp[i]]
                # the unexpanded operand has the same meaning as its expanded form
                a = Ex(sh.den, it.state['classes']['Field'], f'operand{i}')
                it.state['dep'].update({x: it.state['dep'].get(x, ()) for x in sh.den.atoms()})
                it.state['expand_shape'][a.name] = sh
                args.append(a)
            o, want = node(it, cls, args)
            r = call(it, o, 'expand', [v])
            for ex, vs in it.state.get('expanded', []):
                if tuple(vs) != (v,):
                    return f"operands are expanded over {show(vs)}"
            if k not in ('pow', 'fn'):
                done = [ex for ex, vs in it.state.get('expanded', [])]
                for a, c in zip(args, case):
                    if c in ('dep', 'both') and not any(a is x for x in done):
                        return f"the operand {a.name}, which depends on the variables, is not expanded"
            return eq(it, r, want)
        for r in explore(repo, go):
            F.result(cls, 'expand', f"{label}; forms {', '.join(shp)}", r, lambda r: r.value)


def check_reinit(repo, rep, F, cls, k, case, label):
    def go(it):
        args = build_args(it, k, case, ('v',))
        seen = []
        o, want = node(it, cls, args)
        vs = [leaf(it, 'v')]
        for a in args:
            if isinstance(a, Ex):
                e = Ex(a.den.subst(lambda n, s: atom('new ' + n, s)), a.cls, 'new ' + (a.name or ''))
                a.attrs['reinitialize'] = Native('reinitialize', lambda it2, _e=e, **kw: (seen.append(kw), _e)[1])
        it.state['dep'] = dict(it.state['dep'], **{'new ' + n: d for n, d in it.state['dep'].items()})
        r = call(it, o, 'reinitialize', [], {'ncc': True, 'ncc_vars': vs})
        for kw in seen:
            if kw.get('ncc') is not True or kw.get('ncc_vars') is not vs:
                return "the NCC options are not passed to the operands"
        return eq(it, r, want.subst(lambda n, s: atom('new ' + n, s)))
    for r in explore(repo, go):
        if r.outcome == 'return' or cls.method('reinitialize'):
            F.result(cls, 'reinitialize', label, r, lambda r: r.value)


# --------------------------------------------------------------------------- leaves and overloads

def check_leaf(repo, rep, F):
    cls = repo.cls('core.field', 'Field')
    rep.count('node implementations')

    def run(meth, label, fn):
        for r in explore(repo, fn):
            F.result(cls, meth, label, r, lambda r: r.value)

    def obj(it, name='f'):
        o = Obj(cls, name, {'name': name, 'dist': it.state['dist'], 'tensorsig': (), 'dtype': it.state['dtype']})
        it.state['self'] = o
        it.state['obj_den'] = lambda it2, x: atom('self', True) if x is o else None
        return o
    for match in (True, False):
        def split(it):
            o = obj(it)
            v = leaf(it, 'v')
            vars = (v, o) if match else (v, it.state['classes']['TimeDerivative'])
            r = tuple(it.iterate(call(it, o, 'split', vars)))
            want = (o, 0) if match else (0, o)
            return None if len(r) == 2 and all(a is b or (isinstance(a, int) and isinstance(b, int) and a == b) for a, b in zip(r, want)) else f"returns {show(r)}"
        run('split', f'variable {match}', split)

        def diff_(it):
            o = obj(it)
            v = o if match else leaf(it, 'v')
            return eq(it, call(it, o, 'sym_diff', [v]), one() if match else Den())
        run('sym_diff', f'variable {match}', diff_)

        def repl(it):
            o = obj(it)
            old, new = (o, leaf(it, 'new')) if match else (leaf(it, 'old'), leaf(it, 'new'))
            r = call(it, o, 'replace', [old, new])
            return None if r is (new if match else o) else f"returns {show(r)}"
        run('replace', f'variable {match}', repl)

        def has(it):
            o = obj(it)
            vars = (leaf(it, 'v'), o) if match else (leaf(it, 'v'), it.state['classes']['TimeDerivative'])
            r = it.truth(call(it, o, 'has', vars))
            return None if r == match else f"returns {r}"
        run('has', f'variable {match}', has)

    def expand(it):
        o = obj(it)
        return None if call(it, o, 'expand', [leaf(it, 'v')]) is o else 'changes the field'
    run('expand', 'field', expand)

    def reinit(it):
        o = obj(it)
        return None if call(it, o, 'reinitialize', [], {'ncc': True, 'ncc_vars': []}) is o else 'changes the field'
    run('reinitialize', 'field', reinit)

    def atoms(it):
        o = obj(it)
        a = it.iterate(call(it, o, 'atoms', []))
        b = it.iterate(call(it, o, 'atoms', [cls]))
        c = it.iterate(call(it, o, 'atoms', [it.state['classes']['TimeDerivative']]))
        return None if (len(a) == 1 and a[0] is o and len(b) == 1 and b[0] is o and not c) else f"collects {show(a)}, {show(b)}, {show(c)}"
    run('atoms', 'field', atoms)


def check_overloads(repo, rep, F):
    cls = repo.cls('core.field', 'Operand')
    X, Y = atom('x', True), atom('y', True)
    c = sympy.Rational(7, 2)
    C1 = one().scale(c)
    dot = lambda a, b: a.bil(('Dot', Term('tuple', -1, 0)), b)
    A, B = atom('x'), atom('y')
    cases = []
    for name, fo, fn_ in (('__add__', lambda a, b: a + b, 1), ('__radd__', lambda a, b: b + a, 1), ('__sub__', lambda a, b: a - b, 1), ('__rsub__', lambda a, b: b - a, 1),
                          ('__mul__', lambda a, b: a.mul(b), 1), ('__rmul__', lambda a, b: b.mul(a), 1), ('__truediv__', lambda a, b: a.mul(b.pow(-1)), 1),
                          ('__rtruediv__', lambda a, b: b.mul(a.pow(-1)), 1)):
        cases.append((name, 'operand', True, lambda it, y: [y], fo(X, Y)))
        cases.append((name, 'number', True, lambda it, y: [c], fo(X, C1)))
    for name, w in (('__add__', A + B), ('__sub__', A - B), ('__rsub__', B - A), ('__mul__', A.mul(B)), ('__rmul__', B.mul(A)), ('__matmul__', dot(A, B)), ('__rmatmul__', dot(B, A))):
        cases.append((name, 'tensor operand', False, lambda it, y: [y], w))
    for p in (0, 1, 2, -1, sympy.Rational(1, 2)):
        cases.append(('__pow__', f'power {p}', True, lambda it, y, p=p: [p], X.pow(p)))
    cases.append(('__neg__', '', True, lambda it, y: [], X.scale(-1)))
    for uf, w in (('add', X + Y), ('subtract', X - Y), ('multiply', X.mul(Y)), ('divide', X.mul(Y.pow(-1))), ('true_divide', X.mul(Y.pow(-1)))):
        cases.append(('__array_ufunc__', f'numpy.{uf}', True, lambda it, y, uf=uf: [Term('ext', f'numpy.{uf}'), '__call__', it.state['x'], y], w))
        cases.append(('__array_ufunc__', f'numpy.{uf} of number and operand', True, lambda it, y, uf=uf: [Term('ext', f'numpy.{uf}'), '__call__', c, it.state['x']],
                      {'add': C1 + X, 'subtract': C1 - X, 'multiply': C1.mul(X), 'divide': C1.mul(X.pow(-1)), 'true_divide': C1.mul(X.pow(-1))}[uf]))
    cases.append(('__array_ufunc__', 'numpy.power', True, lambda it, y: [Term('ext', 'numpy.power'), '__call__', it.state['x'], 3], X.pow(3)))
    for name, other, scalar, mkargs, want in cases:
        f = cls.method(name)
        if f is None:
            rep.violation(f"A01|Operand.{name}|missing", f"Operand defines no {name}", cls.loc)
            continue
        rep.count('operator overloads')

        def go(it):
            x, y = leaf(it, 'x', scalar=scalar), leaf(it, 'y', scalar=scalar)
            it.state['x'] = x
            r = it.call(Closure(f, None, x, cls), mkargs(it, y), {})
            if isinstance(r, Term) and show(r) == 'NotImplemented' and 'true_divide' in other:
                return None   # numpy reports division as `divide`
            return eq(it, r, want)
        for r in explore(repo, go):
            F.result(cls, name, other, r, lambda r: r.value)
    # unary ufuncs keep function and argument
    f = cls.method('__array_ufunc__')

    def go(it):
        x = leaf(it, 'x', scalar=True)
        u = sym('some_ufunc')
        return eq(it, it.call(Closure(f, None, x, cls), [u, '__call__', x], {}), X.fn((u, 'default')))
    for r in explore(repo, go):
        F.result(cls, '__array_ufunc__', 'unary', r, lambda r: r.value)
    f = cls.method('__abs__')

    def go(it):
        x = leaf(it, 'x', scalar=True)
        r = it.call(Closure(f, None, x, cls), [], {})
        d = den_of(it, r)
        fs = [fac for (s, t) in d.t for fac, e in s] if d is not None else []
        ok = len(fs) == 1 and fs[0][0] == 'fn' and 'abs' in show(fs[0][1][0])
        return None if ok else f"means {d!r}"
    for r in explore(repo, go):
        F.result(cls, '__abs__', '', r, lambda r: r.value)
    for real in (True, False):
        for name in ('real', 'imag'):
            f = cls.method(name)

            def go(it):
                x = leaf(it, 'x', scalar=True)
                x.attrs['is_real'] = real
                x.attrs['is_complex'] = not real
                r = it.call_func(Closure(f, None, x, cls), [x])
                cj = X.fn('conj')
                if name == 'real':
                    w = X if real else (X + cj).scale(sympy.Rational(1, 2))
                else:
                    w = Den() if real else (X - cj).scale(-sympy.I / 2)
                return eq(it, r, w)
            for r in explore(repo, go):
                F.result(cls, name, f"{'real' if real else 'complex'} data", r, lambda r: r.value)


def check_dispatch(repo, rep, F):
    """Add and Multiply called with any mix of numbers and operands."""
    for name, cname, comb in (('Add', 'AddFields', lambda ds: sum_den(ds)), ('Multiply', 'MultiplyFields', lambda ds: prod_den(ds))):
        cls = repo.cls('core.arithmetic', name)
        for n in (1, 2, 3):
            for case in itertools.product((0, 1, 3, 'x', 'y'), repeat=n):
                label = f"{name}({', '.join(map(str, case))})"

                def go(it):
                    it.state['dispatch'] = True
                    xs = {'x': leaf(it, 'x', scalar=True), 'y': leaf(it, 'y', scalar=True)}
                    args = [xs.get(c, c) if isinstance(c, str) else sympy.Integer(c) for c in case]
                    r = it.call(cls, args, {})
                    return eq(it, r, comb([den_of(it, a) for a in args]))
                for r in explore(repo, go):
                    f = cls.method('_preprocess_args')
                    F.result(cls, '_preprocess_args', label, r, lambda r: r.value)
        rep.count('dispatching constructors')


def sum_den(ds):
    r = Den()
    for d in ds:
        r = r + d
    return r


def prod_den(ds):
    r = one()
    for d in ds:
        r = r.mul(d)
    return r


def check_frechet(repo, rep, F):
    """F'(X0).X1 for sums, products, powers, functions and linear operators."""
    cls = repo.cls('core.field', 'Operand')
    f = cls.method('frechet_differential')
    if f is None:
        raise AnalysisBroken('Operand.frechet_differential not found')
    G = ('op', None, 'G', None)
    forms = {
        'linear': lambda u, v, g: u.lin(G) + v.scale(3),
        'quadratic': lambda u, v, g: u.mul(v) + u.mul(u).scale(2),
        'power': lambda u, v, g: u.pow(3).mul(g),
        'negative power': lambda u, v, g: u.pow(-2).mul(v),
        'operator of product': lambda u, v, g: u.mul(v).lin(G) + g,
        'function': lambda u, v, g: u.fn(('sin', 'd')).mul(v),
        'independent': lambda u, v, g: g,
    }
    for label, form in forms.items():
        for bgs in (False, True):
            def go(it):
                u, v, g = (leaf(it, n, scalar=True) for n in 'uvg')
                du, dv = leaf(it, 'du', scalar=True), leaf(it, 'dv', scalar=True)
                bu, bv = leaf(it, 'bu', scalar=True), leaf(it, 'bv', scalar=True)
                it.state['dfn'] = lambda key, inner: inner.fn(('deriv', key))
                d = form(u.den, v.den, g.den)
                x = Ex(d, it.state['classes']['AddFields'], 'F')
                args = [[u, v], [du, dv]] + ([[bu, bv]] if bgs else [])
                r = it.call(Closure(f, None, x, cls), args, {})
                w = Den()
                for a, da in ((u, du), (v, dv)):
                    w = w + diff(d, lambda n, s: da.den if n == a.name else Den(), it.state['dfn'])
                if bgs:
                    w = w.subst(lambda n, s: {'u': bu.den, 'v': bv.den}.get(n))
                return eq(it, r, w)
            for r in explore(repo, go):
                F.result(cls, 'frechet_differential', f"{label}{', other backgrounds' if bgs else ''}", r, lambda r: r.value)
        rep.count('Frechet forms')


# --------------------------------------------------------------------------- grid function derivatives

class SymOp(AbsVal):
    """Operand standing for a real variable in exact calculus."""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return str(self.e)

    def truth(self, it):
        return True

    @staticmethod
    def val(x):
        return x.e if isinstance(x, SymOp) else _num(x) if isinstance(x, NUM) and not isinstance(x, bool) else None

    def binop(self, it, op, other, swapped):
        o = self.val(other)
        if o is None:
            if isinstance(other, Term) and show(other) == 'numpy.pi':
                o = sympy.pi
            else:
                return NotImplemented
        a, b = (o, self.e) if swapped else (self.e, o)
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}.get(op)
        return SymOp(r()) if r else NotImplemented

    def unop(self, it, op):
        return SymOp(-self.e) if op == '-' else NotImplemented


from ..alg import _num

UFUNCS = {
    'absolute': lambda x: sympy.Abs(x), 'abs': lambda x: sympy.Abs(x), 'sign': lambda x: sympy.sign(x), 'exp': sympy.exp, 'exp2': lambda x: 2 ** x, 'expm1': lambda x: sympy.exp(x) - 1,
    'log': sympy.log, 'log2': lambda x: sympy.log(x, 2), 'log10': lambda x: sympy.log(x, 10), 'log1p': lambda x: sympy.log(1 + x), 'sqrt': sympy.sqrt, 'square': lambda x: x ** 2,
    'cbrt': lambda x: x ** sympy.Rational(1, 3), 'reciprocal': lambda x: 1 / x,
    'sin': sympy.sin, 'cos': sympy.cos, 'tan': sympy.tan, 'arcsin': sympy.asin, 'arccos': sympy.acos, 'arctan': sympy.atan, 'sinh': sympy.sinh, 'cosh': sympy.cosh,
    'tanh': sympy.tanh, 'arcsinh': sympy.asinh, 'arccosh': sympy.acosh, 'arctanh': sympy.atanh, 'erf': sympy.erf, 'erfc': sympy.erfc, 'negative': lambda x: -x, 'positive': lambda x: x}

POINTS = {'arccosh': (1.7, 3.2, 5.5), 'default': (0.13, 0.42, 0.77), 'absolute': (0.4, -0.6, 1.3), 'sign': (0.4, -0.6), 'abs': (0.4, -0.6)}


class DCfg(Config):
    def on_call(self, it, f, args, kwargs, node):
        s = show(f)
        n = s.split('.')[-1]
        if (s.startswith('numpy.') or s.startswith('scipy.')) and n in UFUNCS and len(args) == 1:
            v = SymOp.val(args[0])
            if v is not None:
                return SymOp(UFUNCS[n](v))
        return NotImplemented

    def on_native(self, it, name, args, kwargs):
        n = name.split('.')[-1]
        if n in UFUNCS and len(args) == 1 and SymOp.val(args[0]) is not None:
            return SymOp(UFUNCS[n](SymOp.val(args[0])))
        return NotImplemented


def check_table(repo, rep):
    cls = repo.cls('core.operators', 'UnaryGridFunction')
    found = cls.find('ufunc_derivatives')
    if not found or found[1] != 'attr':
        raise AnalysisBroken('derivative table of grid functions not found')
    st = found[2]
    x = sympy.Symbol('x', real=True)
    it = Interp(repo, DCfg())

    def go(it):
        t = it.class_attr(cls, 'ufunc_derivatives')
        if not isinstance(t, dict):
            return None
        out = []
        for k, fn in t.items():
            name = (k.name if isinstance(k, Native) else show(k)).split('.')[-1]
            r = it.call(fn, [SymOp(x)], {})
            out.append((name, SymOp.val(r)))
        return out
    res = it.explore(go)
    table = next((r.value for r in res if r.outcome == 'return' and r.value), None)
    if table is None:
        raise AnalysisBroken('derivative table could not be evaluated')
    loc = f"{cls.module.rel}:{st.lineno}"
    for name, d in table:
        if name not in UFUNCS:
            rep.undec(f"derivative of {name}: no exact reference")
            continue
        rep.count('grid function derivatives')
        if d is None:
            rep.undec(f"derivative of {name} could not be evaluated")
            continue
        f = UFUNCS[name]
        bad = None
        if name == 'sign':
            want = sympy.Integer(0)
        elif name in ('absolute', 'abs'):
            want = sympy.sign(x)
        else:
            want = sympy.diff(f(x), x)
        if sympy.simplify(d - want) != 0:
            for p in POINTS.get(name, POINTS['default']):
                a, b = complex(sympy.N(d.subs(x, p))) if isinstance(d, sympy.Basic) else complex(d), complex(sympy.N(want.subs(x, p)))
                if abs(a - b) > 1e-9 * (1 + abs(b)):
                    bad = f"derivative of {name} is given as {d}, but is {want} (at x = {p}: {a.real:.6g} instead of {b.real:.6g})"
                    break
        rep.check(bad is None, f"A01|ufunc_derivatives|{name}", bad or '', loc, f"d/dx {name}")
    rep.floor('grid function derivatives', 15)


def run(repo, rep):
    F = Fail(rep, 'A01', repo)
    rep.rule('one inductive step per node class, manipulation and operand kind, compared in the normal form of the operator algebra')
    rep.rule('overloads, dispatching constructors and Frechet differentials compared in the same algebra; derivative table compared with exact derivatives')
    check_manipulations(repo, rep, F)
    check_leaf(repo, rep, F)
    check_overloads(repo, rep, F)
    check_dispatch(repo, rep, F)
    check_frechet(repo, rep, F)
    check_table(repo, rep)
    rep.floor('node implementations', 8)
    rep.floor('operator overloads', 25)


ASSUMPTIONS = ['operands satisfy the property (structural induction over expressions)', 'constructors of linear operators are linear in their operand; new_operand rebuilds the same operator (property O02)']
