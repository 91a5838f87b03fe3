"""Problems accept exactly the equations they can represent, and split them into the right terms.

Part 1: `require_linearity`, `require_first_order`, `require_independent` and
`prep_nccs` of every node class are abstractly interpreted for every
combination of operand kinds (independent, linear, affine, nonlinear; time
order 0, 1, 2), which is an inductive proof that they decide the polynomial
degree and the operator order of every expression.

Part 2: `add_equation` of every problem class is interpreted on families of
equations over abstract operands; acceptance is compared with the class of
equations the problem documents, and the stored M, L, F, dF with the terms of
the equation in the operator algebra, including conversion to the joint
domain, NCC preparation, matrix metadata, the Newton differential, and the
eigenvalue problem derived from an initial value problem.
"""
import itertools
import sympy
from ..interp import *
from ..alg import *
from ..alg import degrees, op_orders
from ..repo import AnalysisBroken, Class
from .a01 import Cfg as ACfg, is_a, setup, leaf, node, node_classes, call, arity, construct, Fail, kind_of

ERR = 'UnsupportedEquationError'


class BoolVec(AbsVal):
    def __init__(self, v):
        self.v = tuple(bool(x) for x in v)

    def __repr__(self):
        return str(self.v)

    def iterate(self, it):
        return list(self.v)

    def binop(self, it, op, other, swapped):
        if isinstance(other, BoolVec) and op in ('&', '|', '^'):
            f = {'&': lambda a, b: a and b, '|': lambda a, b: a or b, '^': lambda a, b: a != b}[op]
            return BoolVec([f(a, b) for a, b in zip(self.v, other.v)])
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if isinstance(other, BoolVec) and op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = (other, self) if swapped else (self, other)
            f = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}[op]
            return BoolVec([f(x, y) for x, y in zip(a.v, b.v)])
        return NotImplemented

    def getitem(self, it, key):
        return self.v[int(key)]

    def unop(self, it, op):
        if op == '~':
            return BoolVec([not x for x in self.v])
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'any':
            return any(self.v)
        if name == 'all':
            return all(self.v)
        if name == 'copy':
            return BoolVec(self.v)
        return NotImplemented


class Modes(AbsVal):
    """valid_modes array: identity of its content."""
    def __init__(self, content, owner=None):
        self.content, self.owner = content, owner

    def __repr__(self):
        return f"modes[{self.content}]"

    def callmethod(self, it, name, args, kwargs):
        if name == 'copy':
            return Modes(self.content)
        return NotImplemented

    def getattr(self, it, name):
        if name == 'copy':
            return Native('copy', lambda it2: Modes(self.content))
        return NotImplemented

    def setitem(self, it, key, value):
        if isinstance(value, Modes):
            self.content = value.content
            return None
        return NotImplemented


class Cfg(ACfg):
    max_paths = 32

    def on_getattr(self, it, base, name):
        if isinstance(base, NUM) and name in ('replace', 'reinitialize', 'prep_nccs', 'split', 'has', 'matrix_dependence', 'matrix_coupling', 'domain', 'frechet_differential', 'atoms'):
            raise RaiseSig('AttributeError', f"number has no attribute {name}", it.loc())
        if isinstance(base, Ex) and name == 'domain':
            return Dom(base)
        if isinstance(base, Ex) and name == 'valid_modes':
            return it.state['modes'].setdefault(id(base), (Modes(base.name or repr(base.den), base), base))[0]
        if isinstance(base, Ex) and name == 'unlock':
            return Native('unlock', lambda it2: mk(it2, atom(f"unlocked {base.name}")))
        if isinstance(base, Ex) and name == 'copy':
            return Native('copy', lambda it2: it2.state['copy_of'](it2, base))
        if isinstance(base, Ex) and name == 'frechet_differential':
            return Native('frechet', lambda it2, *a, **k: frechet(base, it2, *a, **k))
        if isinstance(base, Ex) and name == 'tensorsig':
            return it.state['tensorsig']
        return super().on_getattr(it, base, name)

    def on_setattr(self, it, base, name, value):
        if isinstance(base, Ex) and name == 'name':
            base.attrs['name'] = value
            return True
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        n = clo.func.name
        if n == 'convert' and clo.func.module.name.endswith('operators'):
            a, bases = args[0], args[1] if len(args) > 1 else kwargs['bases']
            if isinstance(a, NUM):
                return a
            if not isinstance(a, Ex):
                raise PathAbort(f"cannot convert {show(a)}")
            e = Ex(a.den, a.cls, None, None, a.flags, a.attrs)
            e.flags['domain'] = freeze(bases)
            return e
        if n == 'cast' and clo.func.cls is not None and clo.func.cls.name == 'Operand':
            a = args[0]
            if isinstance(a, NUM):
                e = Ex(one().scale(a), it.state['classes']['Field'])
                e.attrs['cast'] = (freeze(tuple(args[1:])), freeze(kwargs))
                return e
            return a
        if n == 'unify_attributes' and len(args) > 1 and isinstance(args[1], str):
            return it.state['dist'] if args[1] == 'dist' else Term('unified', args[1])
        return super().on_repo_call(it, clo, args, kwargs, node)

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'Field':
            e = construct(it, cls, args, kwargs)
            for n in {e.name} | set(e.den.atoms()):
                it.state['noncon'][n] = (False, False)
            return e
        return super().on_new(it, cls, args, kwargs, node)

    def on_setitem(self, it, base, key, value):
        if isinstance(base, Ex) and key in ('c', 'g') and isinstance(value, NUM):
            if 'ctor' in base.attrs:
                base.den = Den() if value == 0 else one().scale(value)
            base.attrs['set'] = value
            return True
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        s = show(f)
        if s.startswith('numpy.'):
            r = np_call(it, s[6:], args, kwargs)
            if r is not NotImplemented:
                return r
        if s == 'eval' or s.endswith('.eval'):
            return self.do_eval(it, args)
        if s.endswith('ChainMap'):
            return Term('namespace', len(it.state.setdefault('maps', [])))
        if isinstance(f, Term) and f.op == 'attr' and f.args[-1] == 'Field' and show(f.args[0]) == 'dist':
            e = construct(it, it.state['classes']['Field'], args, kwargs)
            for n in {e.name} | set(e.den.atoms()):
                it.state['noncon'][n] = (False, False)
            return e
        return super().on_call(it, f, args, kwargs, node)

    def on_native(self, it, name, args, kwargs):
        if name == 'eval':
            return self.do_eval(it, args)
        return super().on_native(it, name, args, kwargs)

    def do_eval(self, it, args):
        k = args[0].strip() if isinstance(args[0], str) else None
        if k in it.state.get('strings', {}):
            it.state.setdefault('namespaces', []).append(args[1:])
            return it.state['strings'][k]
        return NotImplemented


def np_call(it, fn, args, kwargs):
    def arr(x):
        if isinstance(x, BoolVec):
            return x
        if isinstance(x, (list, tuple)) and all(isinstance(y, bool) for y in x):
            return BoolVec(x)
        return None
    xs = [arr(a) for a in args]
    if fn in ('any', 'all') and xs and xs[0] is not None:
        return (any if fn == 'any' else all)(xs[0].v)
    if fn in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'greater', 'less') and len(xs) == 2 and None not in xs:
        f = {'logical_and': lambda a, b: a and b, 'bitwise_and': lambda a, b: a and b, 'logical_or': lambda a, b: a or b, 'bitwise_or': lambda a, b: a or b,
             'greater': lambda a, b: a > b, 'less': lambda a, b: a < b}[fn]
        return BoolVec([f(a, b) for a, b in zip(xs[0].v, xs[1].v)])
    if fn in ('logical_not', 'invert') and xs and xs[0] is not None:
        return BoolVec([not x for x in xs[0].v])
    if fn in ('array', 'asarray') and xs and xs[0] is not None:
        return xs[0]
    return NotImplemented


class Dom(AbsVal):
    """Domain of an expression: the union of the domains of its operands."""
    def __init__(self, ex):
        self.ex = ex

    def __repr__(self):
        return f"domain[{self.ex.den!r}]"

    def vec(self, it):
        vs = [it.state['noncon'].get(base_name(a), (True, False)) for a in self.ex.den.atoms()] or [(False, False)]
        return BoolVec([any(x) for x in zip(*vs)])

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'bases':
            if self.ex.den.atoms() and not any(self.vec(it).v):
                return ()
            return Term('bases_of', frozenset(base_name(a) for a in self.ex.den.atoms()))
        if name == 'nonconstant':
            return self.vec(it)
        if name == 'constant':
            return BoolVec([not x for x in self.vec(it).v])
        if name == 'dist':
            return it.state['dist']
        return NotImplemented


def base_name(a):
    return a.split('[')[0]


def frechet(self, it, variables, perturbations, backgrounds=None):
    it.state.setdefault('frechet', []).append((self, list(it.iterate(variables)), list(it.iterate(perturbations)), None if backgrounds is None else list(it.iterate(backgrounds))))
    LK = it.state['classes']['Lock']
    ps = list(it.iterate(perturbations))
    if not any(den_has(it, self.den, [v]) for v in it.iterate(variables)):
        return 0
    d = frechet_den(it, self.den, ps)
    return mk(it, d)


def frechet_den(it, den, ps):
    """Opaque differential with locked coefficients."""
    LK = it.state['classes']['Lock']
    m = '|'.join(sorted(show_mono(x) for x in den.t))
    d = Den()
    for i, p in enumerate(ps):
        a = atom(f"D{i}<{m}>", True).mul(p.den)
        d = d + a
    # coefficients that hold locks
    lk = atom('w').lin(('op', LK, (), None))
    d = d + lk.mul(ps[0].den) + atom('locked').mul(ps[0].den)
    return d


# --------------------------------------------------------------------------- part 1

LIN = ('ind', 'lin', 'aff', 'non')


def build(it, k, case):
    """Operands of the given linearity kinds."""
    v = it.state['v']
    out = []
    for i, c in enumerate(case):
        nm = 'xyz'[i]
        e = leaf(it, nm)
        if c == 'num':
            out.append(sympy.Integer(3))
            continue
        e.attrs['kind'] = c
        it.state['kinds'][nm] = c
        it.state['dep'][nm] = () if c == 'ind' else ('v',)
        out.append(e)
    return out


def combine(k, case):
    cs = [c for c in case if c != 'num']
    if k == 'add':
        if 'non' in cs:
            return 'non'
        if all(c == 'lin' for c in cs):
            return 'lin'
        return 'ind' if all(c == 'ind' for c in cs) else 'aff'
    if k in ('mul', 'dot', 'cross', 'mulnum'):
        dep = [c for c in cs if c != 'ind']
        return 'ind' if not dep else dep[0] if len(dep) == 1 else 'non'
    if k == 'lin':
        return cs[0]
    return 'ind' if cs[0] == 'ind' else 'non'


class LinCfg(ACfg):
    """Operands whose own checks are exact (induction hypothesis)."""
    def on_getattr(self, it, base, name):
        if isinstance(base, Ex) and 'kind' in base.attrs:
            kind = base.attrs['kind']

            def lin(it2, *vars, allow_affine=False, error=None, **kw):
                it2.state['asked'].append(base.name)
                if not any(x is it2.state['v'] for x in vars) or not isinstance(error, Class):
                    it2.state['errors'].append((it2.loc(), f"operand {base.name} is checked for {show(vars)} with error {show(error)}"))
                if kind != 'lin' and not (allow_affine is True and kind != 'non'):
                    raise RaiseSig(error.name if isinstance(error, Class) else show(error), 'refused', it2.loc())

            def order(it2, *ops, error=None, **kw):
                if not any(x is it2.state['classes']['TimeDerivative'] for x in ops) or not isinstance(error, Class):
                    it2.state['errors'].append((it2.loc(), f"operand {base.name} is checked for {show(ops)} with error {show(error)}"))
                if kind == 2:
                    raise RaiseSig(error.name if isinstance(error, Class) else show(error), 'refused', it2.loc())

            def prep(it2, *a, **kw):
                it2.state['prepped'].append((base, kw.get('vars', a[0] if a else None)))
            if name == 'require_linearity':
                return Native(name, lin)
            if name == 'require_first_order':
                return Native(name, order)
            if name == 'prep_nccs':
                return Native(name, prep)
        return super().on_getattr(it, base, name)


def explore(repo, cfg, thunk):
    it = Interp(repo, cfg())

    def go(it):
        C = setup(it, repo)
        C['Lock'] = repo.cls('core.operators', 'Lock')
        it.state.update(kinds={}, asked=[], prepped=[], noncon={}, modes={})
        it.state['dist'] = Obj(None, 'dist')
        it.state['error'] = repo.cls('tools.exceptions', ERR)
        return thunk(it)
    return it.explore(go)


def groups(repo, names):
    """Node classes by implementation of the named methods."""
    fut = repo.cls('core.future', 'Future')
    out = {}
    for c in repo.subclasses(fut, strict=True):
        k = kind_of(c) or ('fn' if is_a(c, 'GeneralFunction') else None)
        if k is None or k != 'lin' and any(s is not c for s in repo.subclasses(c, strict=True)):
            continue
        sig = (k, is_a(c, 'TimeDerivative')) + tuple(id(c.method(n)) for n in names)
        out.setdefault(sig, []).append(c)
    return [(s[0], cs) for s, cs in out.items()]


def refused(r):
    return r.outcome == 'raise'


def check_linearity(repo, rep):
    for k, classes in groups(repo, ('require_linearity', 'has', '__init__' if False else 'require_linearity')):
        cls = classes[0]
        f = cls.method('require_linearity')
        rep.count('linearity implementations')
        n = 1 if k == 'mulnum' else arity(k)
        cases = list(itertools.product(LIN, repeat=n))
        if k == 'add':
            cases += [('lin', 'lin', c) for c in LIN]
        if k == 'mulnum':
            cases = [('num',) + c for c in cases]
        for case in cases:
            kind = combine(k, case)
            for affine in (False, True):
                def go(it):
                    v = it.state['v'] = leaf(it, 'v', scalar=True)
                    w = leaf(it, 'w', scalar=True)
                    o, _ = node(it, cls, build(it, k, case))
                    return call(it, o, 'require_linearity', [w, v], {'allow_affine': affine, 'self_name': 'LHS', 'vars_name': 'variables', 'error': it.state['error']})
                ok = kind == 'lin' or affine and kind != 'non'
                for r in explore(repo, LinCfg, go):
                    verdict(rep, f"P01|{f.cls.name}.require_linearity|{cls.name}", f.loc,
                            f"{cls.name} of ({', '.join(case)}) operands, which is {NAMES[kind]}", 'affine' if affine else 'linear', r, ok)


NAMES = {'lin': 'linear', 'aff': 'affine', 'ind': 'independent of the variables', 'non': 'nonlinear'}


def verdict(rep, key, loc, what, needed, r, ok):
    if r.outcome == 'abort':
        rep.undec(f"{what}: {r.value}")
        return
    errs = r.extra.get('errors') or []
    msg = None
    if r.outcome == 'raise' and r.value.name != ERR:
        msg = f"raises {r.value.name} ({show(r.value.value)}) instead of the given error"
    elif refused(r) == ok:
        msg = f"is {'refused' if refused(r) else 'accepted'} where {needed} expressions are required"
    elif errs:
        msg = errs[0][1]
    rep.check(msg is None, key, f"{what} {msg}", loc, what)


def check_order(repo, rep):
    for k, classes in groups(repo, ('require_first_order',)):
        cls = classes[0]
        f = cls.method('require_first_order')
        rep.count('order implementations')
        n = 1 if k == 'mulnum' else arity(k)
        cases = list(itertools.product((0, 1, 2), repeat=n))
        if k == 'add':
            cases += [(0, 1, c) for c in (0, 1, 2)]
        if k == 'mulnum':
            cases = [('num',) + c for c in cases]
        for case in cases:
            td = is_a(cls, 'TimeDerivative')
            cs = [c for c in case if c != 'num']
            if k in ('mul', 'dot', 'cross') and cs == [1, 1]:
                continue
            ok = max(cs) == 0 if td else max(cs) < 2

            def go(it):
                v = leaf(it, 'v')
                args = []
                for i, c in enumerate(case):
                    if c == 'num':
                        args.append(sympy.Integer(3))
                        continue
                    e = leaf(it, 'xyz'[i], ('TimeDerivative',) if c else (), k in ('pow', 'fn'))
                    e.attrs['kind'] = c
                    args.append(e)
                o, _ = node(it, cls, args)
                return call(it, o, 'require_first_order', [it.state['classes']['TimeDerivative']], {'self_name': 'LHS', 'ops_name': 'dt', 'error': it.state['error']})
            for r in explore(repo, LinCfg, go):
                verdict(rep, f"P01|{f.cls.name}.require_first_order|{cls.name}", f.loc, f"{cls.name} of operands of time order {', '.join(map(str, cs))}", 'first-order', r, ok)


def check_leaves(repo, rep):
    F = repo.cls('core.field', 'Field')
    for cls in [F] + [c for c in repo.subclasses(F, strict=True) if c.name == 'LockedField']:
        for inside in (True, False):
            for affine in (True, False):
                def go(it):
                    o = Obj(cls, 'x')
                    o.attrs.update(name='x', dist=it.state['dist'])
                    w = leaf(it, 'w')
                    f = cls.method('require_linearity')
                    return it.call(Closure(f, None, o, f.cls), [w, o] if inside else [w], {'allow_affine': affine, 'self_name': 'LHS', 'vars_name': 'v', 'error': it.state['error']})
                for r in explore(repo, LinCfg, go):
                    verdict(rep, f"P01|{cls.name}.require_linearity", cls.method('require_linearity').loc, f"{cls.name} {'among' if inside else 'not among'} the variables",
                            'affine' if affine else 'linear', r, inside or affine)
        for what, has in (('contained', True), ('not contained', False)):
            def go(it):
                o = Obj(cls, 'x')
                o.attrs.update(name='x', dist=it.state['dist'])
                f = cls.method('require_independent')
                return it.call(Closure(f, None, o, f.cls), [leaf(it, 'w'), o] if has else [leaf(it, 'w')], {'self_name': 'RHS', 'vars_name': 'v', 'error': it.state['error']})
            for r in explore(repo, LinCfg, go):
                verdict(rep, f"P01|{cls.name}.require_independent", cls.method('require_independent').loc, f"{cls.name} with the variable {what}", 'independent', r, not has)
    # composite expressions share Operand.require_independent
    for c in repo.subclasses(repo.cls('core.future', 'Future'), strict=True):
        m = c.method('require_independent')
        rep.check(m is not None and m.cls.name == 'Operand', f"P01|require_independent|{m.cls.name if m else c.name}", f"{c.name} redefines require_independent in {m.cls.name if m else None}", c.loc)
    for k, classes in groups(repo, ('require_independent', 'has')):
        cls = classes[0]
        f = cls.method('require_independent')
        n = 1 if k == 'mulnum' else arity(k)
        for case in itertools.product(('ind', 'lin'), repeat=n):
            if k == 'mulnum':
                case = ('num',) + case

            def go(it):
                v = it.state['v'] = leaf(it, 'v', scalar=True)
                o, _ = node(it, cls, build(it, k, case))
                return call(it, o, 'require_independent', [leaf(it, 'w', scalar=True), v], {'self_name': 'RHS', 'vars_name': 'variables', 'error': it.state['error']})
            for r in explore(repo, LinCfg, go):
                verdict(rep, f"P01|{f.cls.name}.require_independent|{cls.name}", f.loc, f"{cls.name} of ({', '.join(case)}) operands", 'independent', r, 'lin' not in case)


def check_prep(repo, rep):
    """prep_nccs finds the coefficient and the operand of each product."""
    for k, classes in groups(repo, ('prep_nccs', 'require_linearity')):
        if k in ('pow', 'fn'):
            continue
        cls = classes[0]
        f = cls.method('prep_nccs')
        rep.count('NCC preparations')
        if k == 'mulnum':
            cases = [('num', 'lin')]
        elif k in ('mul', 'dot', 'cross'):
            cases = [('ind', 'lin'), ('lin', 'ind')]
        else:
            cases = [('lin',) * (1 if k == 'lin' else 2)]
        for case in cases:
            def go(it):
                v = it.state['v'] = leaf(it, 'v')
                args = build(it, k, case)
                o, _ = node(it, cls, args)
                vars = [v]
                call(it, o, 'prep_nccs', [], {'vars': vars})
                got = [x for x, vs in it.state['prepped']]
                dep = [a for a, c in zip(args, case) if c == 'lin']
                if [id(x) for x in got] != [id(x) for x in dep] or any(vs is not vars for x, vs in it.state['prepped']):
                    return f"prepares {got} instead of the operands {dep} with the variables"
                if k in ('mul', 'dot', 'cross', 'mulnum'):
                    if o.attrs.get('operand') is not dep[0]:
                        return f"takes {show(o.attrs.get('operand'))} as the operand instead of {dep[0]}"
                    other = [a for a, c in zip(args, case) if c != 'lin'][0]
                    if o.attrs.get('ncc') is not other and o.attrs.get('ncc') != other:
                        return f"takes {show(o.attrs.get('ncc'))} as the coefficient instead of {other}"
                    if o.attrs.get('ncc_first') is not (args[0] is other):
                        return f"places the coefficient {'first' if o.attrs.get('ncc_first') else 'second'}"
                    if o.attrs.get('_ncc_vars') is not vars:
                        return "does not remember the variables"
                return None
            for r in explore(repo, LinCfg, go):
                what = f"{cls.name}.prep_nccs of ({', '.join(case)}) operands"
                if r.outcome == 'abort':
                    rep.undec(f"{what}: {r.value}")
                    continue
                msg = f"raises {r.value.name} ({show(r.value.value)})" if r.outcome == 'raise' else r.value
                rep.check(msg is None, f"P01|{f.cls.name}.prep_nccs|{cls.name}", f"{what} {msg}", f.loc, what)


# --------------------------------------------------------------------------- part 2

def atoms_of(it, C):
    """Operands of the equations."""
    st = it.state
    u, v = leaf(it, 'u'), leaf(it, 'v')
    c, s = leaf(it, 'c'), leaf(it, 's')
    big = leaf(it, 'big')
    across = leaf(it, 'across')
    t = leaf(it, 't', scalar=True)
    lam = leaf(it, 'lam', scalar=True)
    lk = leaf(it, 'locked')
    st['noncon'] = {'t': (False, False), 'lam': (False, False), 'big': (True, True), 'across': (False, True)}
    st['leaves'].append(lk)
    st['atoms_of'] = lambda self, it2, types: [lk] if any(isinstance(x, Class) and x.name == 'LockedField' for x in types) and 'locked' in self.den.atoms() \
        else [x for x in it2.state['leaves'] if not types and x.name in self.den.atoms()]
    TD = C['TimeDerivative']
    dt = lambda e: mk(it, e.den.lin(('op', TD, (), None)))
    A = lambda e: mk(it, e.den.lin(('op', C['LinearOperator'], ('A',), None)))
    f = lambda e: mk(it, Den({((), (('fn', 'f', e.den.key()),)): sympy.Integer(1)}))
    mul = lambda *es: mk(it, mulden(es))
    dot = lambda a, b: mk(it, a.den.bil(('Dot',), b.den))
    num = lambda n, e: mk(it, e.den.scale(n))
    return dict(u=u, v=v, c=c, s=s, big=big, across=across, t=t, lam=lam, dt=dt, A=A, f=f, mul=mul, dot=dot, num=num, lk=lk)


def mulden(es):
    d = one()
    for e in es:
        d = d.mul(e.den)
    return d


def add(it, es):
    d = Den()
    for e in es:
        d = d + den_of(it, e)
    return mk(it, d)


def ivp_terms(x):
    u, v, c, s, t, dt, A, f, mul, dot, num = (x[k] for k in ('u', 'v', 'c', 's', 't', 'dt', 'A', 'f', 'mul', 'dot', 'num'))
    good = {'dt(u)': dt(u), 'c*dt(u)': mul(c, dt(u)), 'A(dt(v))': A(dt(v)), 'dt(A(u))': dt(A(u)), 'dt(c*v)': dt(mul(c, v)), 'dot(c, dt(u))': dot(c, dt(u)), '-2*dt(v)': num(-2, dt(v)),
            'A(u)': A(u), 'v*c': mul(v, c), '3*u': num(3, u), 'dot(v, c)': dot(v, c), 'A(c*A(v))': A(mul(c, A(v))), 'f(c)*u': mul(f(c), u)}
    bad = {'c': c, 'u*v': mul(u, v), 'f(u)': f(u), 'dt(dt(u))': dt(dt(u)), 'A(dt(dt(v)))': A(dt(dt(v))), 'dt(A(dt(u)))': dt(A(dt(u))), 'dt(c)*u': mul(dt(c), u), 't*u': mul(t, u), 'f(t)*dt(u)': mul(f(t), dt(u)),
           'u*dt(v)': mul(u, dt(v)), 'dt(c)': dt(c), 'f(dt(u))': f(dt(u)), 'dot(u, u)': dot(u, u)}
    return good, bad


def rhs_cases(x, kind):
    u, v, c, s, t, big, across, dt, A, f, mul, num = (x[k] for k in ('u', 'v', 'c', 's', 't', 'big', 'across', 'dt', 'A', 'f', 'mul', 'num'))
    if kind == 'ivp':
        good = {'0': 0, '2': sympy.Integer(2), 's': s, 'u*A(v)': mul(u, A(v)), 'f(u)': f(u), 't*s': mul(t, s), '-u': num(-1, u)}
        bad = {'dt(u)': dt(u), 's*A(dt(c))': mul(s, A(dt(c))), 'f(dt(u))': f(dt(u)), 'a field along more dimensions': big, 'a field along another dimension': across}
    else:
        good = {'0': 0, '2': sympy.Integer(2), 's': s, 'f(c)': f(c), 'A(s)': A(s)}
        bad = {'u': u, 's*v': mul(s, v), 'f(v)': f(v), 's + A(u)': None, 'a field along more dimensions': big, 'a field along another dimension': across}
    return good, bad


def problem(it, repo, kind, x):
    P = {'ivp': 'InitialValueProblem', 'lbvp': 'LinearBoundaryValueProblem', 'nlbvp': 'NonlinearBoundaryValueProblem', 'evp': 'EigenvalueProblem'}[kind]
    cls = repo.cls('core.problems', P)
    it.state['perts'] = []

    def copy_of(it2, e):
        p = leaf(it2, 'δ' + (e.name or '?'))
        it2.state['perts'].append((p, e))
        p.attrs['preset_scales'] = Native('preset_scales', lambda it3, *a: None)
        return p
    it.state['copy_of'] = copy_of
    o = Obj(cls, P)
    f = cls.method('__init__')
    vars = it.state['vars'] = [x['u'], x['v']]
    args = [vars]
    kw = {}
    if kind == 'ivp':
        kw['time'] = x['t']
    if kind == 'evp':
        args.append(x['lam'])
    it.call_func(Closure(f, None, o, f.cls), [o] + args, kw)
    return o


def build_eq(kind, repo, lhs, rhs, strings=False, after=None, ok=True):
    """thunk adding one equation; lhs, rhs: functions of the operands."""
    def go(it):
        C = it.state['classes']
        x = atoms_of(it, C)
        o = problem(it, repo, kind, x)
        L, R = lhs(it, x), rhs(it, x)
        it.state['sides'] = (L, R)
        f = o.cls.method('add_equation')
        eqn = (L, R)
        if strings:
            it.state['strings'] = {'left(a=1)': L, 'right': R}
            eqn = 'left(a=1) = right'
        if isinstance(L, NUM) and isinstance(R, NUM):
            return ('skip',)
        # the sum keeps its own denotation even if the sides cancel
        r = it.call_func(Closure(f, None, o, f.cls), [o, eqn])
        if after:
            return after(it, o, x)
        return ('eqn', check_eqn(it, kind, o, r, L, R, x) if ok else None)
    return go


def check_eqn(it, kind, o, eqn, L, R, x):
    if not isinstance(eqn, dict):
        return f"returns {show(eqn)}"
    eqs = it.iterate(it.getattr(o, 'equations'))
    if not any(e is eqn for e in eqs) or len(list(eqs)) != 1 or it.getattr(o, 'eqs') is not it.getattr(o, 'equations'):
        return "is not appended to the list of equations"
    if eqn.get('LHS') is not L or eqn.get('RHS') is not R and eqn.get('RHS') != R:
        return "does not keep its sides"
    C = it.state['classes']
    dl, dr = den_of(it, L), den_of(it, R)
    vars = it.state['vars']
    want = {}
    if kind == 'ivp':
        a, b = dl.parts(lambda d: den_has(it, d, [C['TimeDerivative']]))
        want = {'M': drop(it, a), 'L': b, 'F': dr}
    elif kind == 'evp':
        a, b = dl.parts(lambda d: den_has(it, d, [x['lam']]))
        want = {'M': replace_in(it, a, x['lam'], 1), 'L': b}
    elif kind == 'lbvp':
        want = {'L': dl, 'F': dr}
    else:
        F = dl - dr
        vars = [p for p, e in it.state['perts']]
        if [e for p, e in it.state['perts']] != it.state['vars']:
            return f"perturbs {[e for p, e in it.state['perts']]}"
        want = {'F': F, 'dF': replace_in(it, replace_op(it, frechet_den(it, F, vars), C['Lock'], Native('id', lambda it2, y: y)), x['lk'], mk(it, atom('unlocked locked')))}
        fr = it.state.get('frechet', [])
        if len(fr) != 1 or not fr[0][0].den == F or fr[0][1] != it.state['vars'] or fr[0][2] != vars or fr[0][3] not in (None, it.state['vars']):
            return f"is differentiated as {show(fr[0][0]) if fr else None} in {show(fr[0][1]) if fr else None} along {show(fr[0][2]) if fr else None}"
    if set(want) - set(eqn):
        return f"has no {sorted(set(want) - set(eqn))}"
    total = set()
    for d in want.values():
        total |= {base_name(a) for a in d.atoms()}
    for name, w in want.items():
        e = eqn[name]
        d = den_of(it, e)
        if d is None or not d == w:
            return f"stores {name} = {show(e)} instead of {w!r}"
        lin = name != 'F'
        if w.zero() and lin:
            if not (isinstance(e, NUM) and e == 0):
                return f"stores {name} = {show(e)} instead of 0"
            continue
        if isinstance(e, NUM):
            return f"stores {name} as a number"
        zero = w.zero()
        if zero:
            ctor = e.attrs.get('ctor')
            if ctor is None or e.attrs.get('set') != 0:
                return f"stores {name} = {show(e)}, which is not a zero field"
            dom = freeze(ctor.get('bases'))
            if freeze(ctor.get('tensorsig')) != freeze(eqn['tensorsig']) or freeze(ctor.get('dtype')) != freeze(eqn['dtype']) or ctor.get('dist') is not it.state['dist']:
                return f"builds the zero field of {name} with {show(ctor)}"
        else:
            dom = e.flags.get('domain')
        names = dom.args[0] if isinstance(dom, Term) and dom.op == 'bases_of' else None
        if names is None or not total - {'locked', 'unlocked locked', 'w'} <= set(names) | set(n for n in total if n.startswith('D')) | {'lam'}:
            return f"does not convert {name} to the domain of all terms (converted to {show(dom)})"
        if lin:
            kw = e.flags.get('reinit')
            if not flag_ok(it, e, vars):
                return f"{name} is not rebuilt and prepared with coefficients around the variables {vars} (rebuilt with {show(kw)}, prepared with {show(e.flags.get('prepped'))})"
        elif not zero and 'cast' in e.attrs:
            a, k = e.attrs['cast']
            if freeze(it.state['dist']) not in a.args or kvs(k).get('tensorsig') != freeze(eqn['tensorsig']):
                return f"casts {name} with {show(a)} {show(k)}"
    lin = [w for n, w in want.items() if n != 'F']
    d = Den()
    for w in lin:
        d = d + w
    for info in ('matrix_dependence', 'matrix_coupling'):
        g = eqn.get(info)
        if not (isinstance(g, Term) and g.op == info and g.args[0] == repr(d) and g.args[1] == freeze(tuple(vars))):
            if isinstance(g, Term) and g.op == info and sorted(g.args[0].split(' + ')) == sorted(repr(d).split(' + ')) and g.args[1] == freeze(tuple(vars)):
                continue
            return f"takes {info} from {show(g)} instead of {d!r} with {vars}"
    if not isinstance(eqn.get('domain'), Dom):
        return f"has domain {show(eqn.get('domain'))}"
    if not {base_name(a) for w in want.values() for a in w.atoms()} - {'locked', 'unlocked locked', 'w', 'lam'} <= {base_name(a) for a in eqn['domain'].ex.den.atoms()} | {n for n in total if n.startswith('D')}:
        return f"has {eqn['domain']!r} instead of the domain of all terms"
    vm = eqn.get('valid_modes')
    ex = eqn.get('eqn')
    if not isinstance(ex, Ex) or not ex.den == dl - dr:
        return f"stores the expression {show(ex)} instead of LHS - RHS"
    if not isinstance(vm, Modes) or vm.owner is not None:
        return f"does not own a copy of the valid modes"
    return None


def kvs(t):
    """Items of a frozen dict."""
    return {k.args[0]: k.args[1] for k in t.args} if isinstance(t, Term) and t.op == 'dict' else {}


def flag_ok(it, e, vars):
    d = kvs(e.flags.get('reinit'))
    if not d or d.get('ncc') is not True or d.get('ncc_vars') != freeze(vars):
        return False
    return e.flags.get('prepped') == freeze(vars)


def drop(it, den):
    return replace_op(it, den, it.state['classes']['TimeDerivative'], Native('id', lambda it2, y: y))


def report(rep, key, loc, what, ok, r):
    if r.outcome == 'abort':
        rep.undec(f"{what}: {r.value}")
        return
    if r.outcome == 'return' and r.value == ('skip',):
        return
    msg = None
    if r.outcome == 'raise':
        if r.value.name != ERR:
            msg = f"raises {r.value.name} ({show(r.value.value)}) at {r.value.loc}"
        elif ok:
            msg = f"is refused at {r.value.loc}"
    elif not ok:
        msg = "is accepted"
    else:
        errs = r.extra.get('errors') or []
        msg = errs[0][1] if errs else r.value[1]
    rep.check(msg is None, key, f"{what} {msg}", loc, what)


PCLS = {'ivp': 'InitialValueProblem', 'lbvp': 'LinearBoundaryValueProblem', 'nlbvp': 'NonlinearBoundaryValueProblem', 'evp': 'EigenvalueProblem'}


def check_equations(repo, rep):
    def run(kind, what, lhs, rhs, ok, strings=False):
        cls = repo.cls('core.problems', PCLS[kind])
        rep.count(f'{PCLS[kind]} equations')
        for r in explore(repo, Cfg, build_eq(kind, repo, lhs, rhs, strings, ok=ok)):
            report(rep, f"P01|{PCLS[kind]}.add_equation|{'valid' if ok else 'invalid'}", (cls.method('_build_matrix_expressions' if ok else '_check_equation_conditions') or cls.method('add_equation') or cls).loc,
                   f"{PCLS[kind]} equation {what}", ok, r)

    def name(n):
        return 'minus ' + n[1:] if n.startswith('-') else n

    def side(f, *names):
        def g(it, x):
            good, bad = f(x)
            allt = {**good, **bad}
            if len(names) == 1 and isinstance(allt[names[0]], NUM):
                return allt[names[0]]
            return add(it, [allt[n] for n in names]) if names else 0
        return g
    # initial value problems
    it0 = {}

    def names_of(f, kind=None):
        got = {}

        def go(it):
            x = atoms_of(it, it.state['classes'])
            g, b = f(x)
            got['g'], got['b'] = list(g), list(b)
        list(explore(repo, Cfg, go))
        return got['g'], got['b']
    rhs = lambda kind: (lambda x: rhs_cases(x, kind))
    g, b = names_of(ivp_terms)
    rg, rb = names_of(rhs('ivp'))
    for i, n in enumerate(g):
        for m in ([n], [n, g[(i + 5) % len(g)]], [n, g[(i + 8) % len(g)], g[(i + 3) % len(g)]]):
            r = rg[i % len(rg)]
            run('ivp', f"{' + '.join(m)} = {r}", side(ivp_terms, *m), side(rhs('ivp'), r), True)
    for r in rg:
        run('ivp', f"c*dt(u) + v*c = {r}", side(ivp_terms, 'c*dt(u)', 'v*c'), side(rhs('ivp'), r), True)
        run('ivp', f"A(u) = {r}", side(ivp_terms, 'A(u)'), side(rhs('ivp'), r), True, strings=True)
    for n in b:
        run('ivp', f"{n} = s", side(ivp_terms, n), side(rhs('ivp'), 's'), False)
        run('ivp', f"dt(u) + A(u) + {n} = 0", side(ivp_terms, 'dt(u)', 'A(u)', n), side(rhs('ivp'), '0'), False)
    for r in rb:
        run('ivp', f"dt(u) + 3*u = {r}", side(ivp_terms, 'dt(u)', '3*u'), side(rhs('ivp'), r), False)
    run('ivp', "0 = s", lambda it, x: 0, side(rhs('ivp'), 's'), False)
    # boundary value problems
    rg, rb = names_of(rhs('lbvp'))
    lg = [n for n in g if 'dt' not in n]
    lb = [n for n in b if 'dt' not in n and n != 't*u']
    for i, n in enumerate(lg):
        for m in ([n], [n, lg[(i + 2) % len(lg)], lg[(i + 3) % len(lg)]]):
            for r in rg:
                run('lbvp', f"{' + '.join(m)} = {r}", side(ivp_terms, *m), side(rhs('lbvp'), r), True, strings=r == 's')
    for n in lb:
        run('lbvp', f"A(u) + {n} = s", side(ivp_terms, 'A(u)', n), side(rhs('lbvp'), 's'), False)
        run('lbvp', f"{n} = 0", side(ivp_terms, n), side(rhs('lbvp'), '0'), False)
    for r in rb:
        fn = (lambda it, x: add(it, [x['s'], x['A'](x['u'])])) if r == 's + A(u)' else side(rhs('lbvp'), r)
        run('lbvp', f"A(u) = {r}", side(ivp_terms, 'A(u)'), fn, False)
    # nonlinear boundary value problems
    for l, r in ((['A(u)'], 's'), (['A(u)', 'u*v'], '0'), (['f(u)', 'c'], 'f(v)'), (['dot(u, u)'], '2'), (['c', '3*u'], 'u'), (['u*v'], 'a field along more dimensions')):
        run('nlbvp', f"{' + '.join(l)} = {r}", side(ivp_terms, *l), side(rhs('lbvp'), r), True)
    # eigenvalue problems

    def ev(x):
        u, v, c, s, lam, A, f, mul, num, dot = (x[k] for k in ('u', 'v', 'c', 's', 'lam', 'A', 'f', 'mul', 'num', 'dot'))
        good = {'lam*u': mul(lam, u), 'lam*c*v': mul(lam, c, v), 'A(lam*u)': A(mul(lam, u)), 'lam*A(v)': mul(lam, A(v)), 'A(u)': A(u), 'c*v': mul(c, v), '-u': num(-1, u), 'dot(c, v)': dot(c, v)}
        bad = {'lam': lam, 'lam*lam*u': mul(lam, lam, u), 'u*v': mul(u, v), 'c': c, 'f(lam)*u': mul(f(lam), u), 'lam*u*v': mul(lam, u, v), 'lam*A(lam*u)': mul(lam, A(mul(lam, u))), 'f(u)': f(u)}
        return good, bad
    eg, eb = names_of(ev)
    for i, n in enumerate(eg):
        for m in ([n], [n, eg[(i + 3) % len(eg)]], [n, eg[(i + 4) % len(eg)], eg[(i + 6) % len(eg)]]):
            run('evp', f"{' + '.join(m)} = 0", side(ev, *m), lambda it, x: 0, True)
        run('evp', f"{n} = s", side(ev, n), lambda it, x: x['s'], False)
        run('evp', f"{n} = 1", side(ev, n), lambda it, x: sympy.Integer(1), False)
    for n in eb:
        run('evp', f"{n} = 0", side(ev, n), lambda it, x: 0, False)
        run('evp', f"lam*u + A(u) + {n} = 0", side(ev, 'lam*u', 'A(u)', n), lambda it, x: 0, False)


def check_build_evp(repo, rep):
    cls = repo.cls('core.problems', 'InitialValueProblem')
    f = cls.method('build_EVP')
    if f is None:
        rep.undec('InitialValueProblem has no build_EVP')
        return
    eqs = {'dt(u) + c*v = f(u)': (lambda it, x: add(it, [x['dt'](x['u']), x['mul'](x['c'], x['v'])]), lambda it, x: x['f'](x['u']), True),
           'A(u) = 0': (lambda it, x: x['A'](x['u']), lambda it, x: 0, True),
           'c*dt(v) = s': (lambda it, x: x['mul'](x['c'], x['dt'](x['v'])), lambda it, x: x['s'], True),
           'A(dt(v)) + u = u*v': (lambda it, x: add(it, [x['A'](x['dt'](x['v'])), x['u']]), lambda it, x: x['mul'](x['u'], x['v']), True),
           'dt(u) = t*u': (lambda it, x: x['dt'](x['u']), lambda it, x: x['mul'](x['t'], x['u']), False)}
    for what, (lhs, rhs, ok) in eqs.items():
        for given in (False, True):
            rep.count('derived eigenvalue problems')

            def after(it, o, x):
                ivp = it.iterate(it.getattr(o, 'equations'))[0]
                ivp['valid_modes'].content = 'IVP modes'
                kw = {}
                if given:
                    ps = [leaf(it, 'p'), leaf(it, 'q')]
                    bg = [leaf(it, 'U'), leaf(it, 'V')]
                    kw = dict(eigenvalue=x['lam'], perturbations=ps, backgrounds=bg)
                it.state['frechet'] = []
                it.state['lockfree'] = True
                E = it.call_func(Closure(f, None, o, f.cls), [o], kw)
                if not isinstance(E, Obj) or E.cls.name != 'EigenvalueProblem':
                    return ('evp', f"returns {show(E)}")
                if not ok:
                    return ('evp', None)
                lam = it.getattr(E, 'eigenvalue')
                ps2 = list(it.iterate(it.getattr(E, 'variables')))
                if given and (lam is not x['lam'] or ps2 != ps):
                    return ('evp', "ignores the given eigenvalue or perturbations")
                if not given and [(p, e) for p, e in it.state['perts'][-2:]] != list(zip(ps2, it.state['vars'])):
                    return ('evp', f"perturbs {ps2}")
                es = list(it.iterate(it.getattr(E, 'equations')))
                if len(es) != 1:
                    return ('evp', f"has {len(es)} equations")
                a, b = den_of(it, ivp['LHS']).parts(lambda d: den_has(it, d, [it.state['classes']['TimeDerivative']]))
                w = replace_op(it, a, it.state['classes']['TimeDerivative'], Native('lam', lambda it2, y: mk(it2, lam.den.mul(den_of(it2, y))))) + b
                for v, p in zip(it.state['vars'], ps2):
                    w = replace_in(it, w, v, p)
                R = ivp['RHS']
                if isinstance(R, Ex) and any(den_has(it, R.den, [v]) for v in it.state['vars']):
                    w = w - frechet_den(it, R.den, ps2)
                    fr = it.state['frechet']
                    if len(fr) != 1 or fr[0][1] != it.state['vars'] or fr[0][2] != ps2 or fr[0][3] != (bg if given else fr[0][3]) or not given and fr[0][3] not in (None, it.state['vars']):
                        return ('evp', f"linearizes the RHS as {show(fr)}")
                d = den_of(it, es[0]['LHS'])
                if not d == w:
                    return ('evp', f"has the equation {d!r} instead of {w!r}")
                if not (isinstance(es[0]['RHS'], NUM) and es[0]['RHS'] == 0):
                    return ('evp', f"has the right-hand side {show(es[0]['RHS'])}")
                vm = es[0].get('valid_modes')
                if not isinstance(vm, Modes) or vm.content != 'IVP modes':
                    return ('evp', f"keeps the valid modes {show(vm)} instead of those of the IVP")
                for p, v in zip(ps2, it.state['vars']):
                    m = it.state['modes'].get(id(p))
                    if m is None or m[0].content != (v.name):
                        return ('evp', f"does not copy the valid modes of {v} to its perturbation")
                return ('evp', None)
            for r in explore(repo, Cfg, build_eq('ivp', repo, lhs, rhs, after=after, ok=ok)):
                report(rep, 'P01|InitialValueProblem.build_EVP', f.loc, f"EVP of {what} ({'given' if given else 'default'} perturbations)", ok, r)


def check_parsing(repo, rep):
    """Equation strings are split at their only top-level equals sign."""
    f = repo.func('tools.parsing', 'split_equation')
    cases = {'u = 0': ('u', '0'), 'f(x, y=5) = x**2': ('f(x, y=5)', 'x**2'), 'dt(u) - lap(u, k=(1)) =g(h(a=1), b=2)': ('dt(u) - lap(u, k=(1))', 'g(h(a=1), b=2)'), 'u': None, 'a = b = c': None, 'f(a=1)': None,
             '(u) = (v)': ('(u)', '(v)')}
    for s, want in cases.items():
        it = Interp(repo, Cfg())
        for r in it.explore(lambda it: it.call_func(Closure(f, None, None, None), [s])):
            if r.outcome == 'abort':
                rep.undec(f"split_equation({s!r}): {r.value}")
                continue
            if r.outcome == 'raise':
                ok = want is None
                msg = f"raises {r.value.name}"
            else:
                got = r.value
                ok = want is not None and isinstance(got, (tuple, list)) and tuple(str(x).strip() if isinstance(x, str) else x for x in got) == want
                msg = f"gives {show(got)}"
            rep.check(ok, 'P01|split_equation', f"split_equation({s!r}) {msg}", f.loc, f"split {s!r}")


def run(repo, rep):
    rep.rule('require_* of each node class decide linearity, operator order and independence (structural induction)')
    rep.rule('prep_nccs separates the coefficient from the operand of each product')
    rep.rule('add_equation accepts exactly the equations of the problem class and stores their terms')
    check_linearity(repo, rep)
    check_order(repo, rep)
    check_leaves(repo, rep)
    check_prep(repo, rep)
    check_equations(repo, rep)
    check_build_evp(repo, rep)
    check_parsing(repo, rep)
    rep.floor('linearity implementations', 5)
    rep.floor('InitialValueProblem equations', 20)


ASSUMPTIONS = ['split, replace, has, atoms and the Frechet differential have the meaning established by A01',
               'domains of expressions are the unions of the domains of their operands']
