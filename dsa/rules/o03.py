"""Deferred expressions evaluate their current operands, whatever was evaluated before.

`Future.evaluate`, `attempt`, `reset`, `get_out`, `build_out` and the
constructor are abstractly interpreted over expression trees and call
histories.  Values carry the evaluation epoch in which their operands were
read, so a stale cached result, stale substituted argument, skipped layout
condition or wrong output metadata shows as a concrete mismatch on a path.
"""
import itertools
from ..interp import *
from ..repo import AnalysisBroken, Class


class FieldM(AbsVal):
    def __init__(self, name, dealias, value=None, leaf=False, meta=None):
        self.name, self.dealias, self.value, self.leaf = name, dealias, value, leaf
        self.scales = sym('stale_scales')
        self.meta = meta
        self.layout = sym('some_layout')

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def val(self, it):
        return (self.name, it.state['epoch']) if self.leaf else self.value

    def getattr(self, it, name):
        if name == 'domain':
            return Obj(None, f'dom_{self.name}', {'dealias': self.dealias})
        if name == 'scales':
            return self.scales
        if name == 'layout':
            return self.layout
        if name == 'dist':
            return sym('dist')
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op in ('is', '=='):
            return self is other
        if op in ('is not', '!='):
            return self is not other
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'change_scales':
            self.scales = args[0]
            return None
        if name == 'preset_scales':
            self.scales = args[0]
            if self.leaf:
                it.state['errors'].append((it.loc(), f'scales of operand {self.name} are overwritten without moving its data'))
            else:
                self.value = None
            return None
        if name in ('change_layout', 'require_coeff_space', 'require_grid_space'):
            return None
        return NotImplemented

    def getitem(self, it, key):
        it.state['got'] = key
        return Term('data', self.name, freeze(self.val(it)), freeze(key))

    def setattr(self, it, name, value):
        it.state['errors'].append((it.loc(), f'attribute {name} of {self.name} is assigned'))
        return None


class Cfg(Config):
    max_paths = 96
    max_while = 6
    max_depth = 12

    def on_truth(self, it, value):
        if isinstance(value, Term) and 'STORE_OUTPUTS' in show(value):
            return it.state['store_out']
        return None

    def on_getattr(self, it, base, name):
        if name == 'store_last' and isinstance(base, Obj) and name not in base.attrs:
            return it.state['store_last']
        return NotImplemented

    def on_isinstance(self, it, value, cls):
        n = cls.name if isinstance(cls, Class) else None
        if isinstance(value, FieldM) and n:
            return n in ('Field', 'Operand', 'Current')
        return None

    def on_repo_call(self, it, clo, args, kwargs, node):
        n = clo.func.name
        s = args[0] if args else None
        if n == 'unify_attributes':
            return sym('dist')
        if isinstance(s, Obj) and s in it.state['ops']:
            st = it.state
            if n == 'check_conditions':
                ready(it, s, 'check_conditions')
                return st['cond'][s.name]
            if n == 'enforce_conditions':
                ready(it, s, 'enforce_conditions')
                st['cond'][s.name] = True
                st['enforced'].append(s.name)
                return None
            if n == 'operate':
                out = args[1] if len(args) > 1 else kwargs.get('out')
                ready(it, s, 'operate')
                if not st['cond'][s.name]:
                    st['errors'].append((it.loc(), 'operate is called although the layout conditions were neither satisfied nor enforced'))
                if not isinstance(out, FieldM):
                    st['errors'].append((it.loc(), f'operate is called with output {show(out)}'))
                    return None
                if show(out.scales) != show(s.attrs['domain'].attrs['dealias']):
                    st['errors'].append((it.loc(), f"output has scales {show(out.scales)} instead of the domain's dealias scales"))
                for a in it.iterate(s.attrs['args']):
                    if isinstance(a, FieldM) and show(a.scales) != show(a.dealias):
                        st['errors'].append((it.loc(), f"operand {a} has scales {show(a.scales)} instead of its dealias scales"))
                if any(out is a for a in it.iterate(s.attrs['args'])):
                    st['errors'].append((it.loc(), 'output is one of the operands'))
                st['operated'].append(s.name)
                out.value = (s.name,) + tuple(a.val(it) if isinstance(a, FieldM) else a for a in it.iterate(s.attrs['args']))
                out.value = out.value
                return None
            if n == '__str__' or n == '__repr__':
                return s.name
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        if isinstance(f, Term) and f == Term('ext', 'str') and args and isinstance(args[0], Obj):
            return args[0].name
        return NotImplemented


def ready(it, s, what):
    for a in it.iterate(s.attrs['args']):
        if isinstance(a, Obj):
            it.state['errors'].append((it.loc(), f'{what} is called before operand {a.name} is evaluated'))


def make_type(it, name):
    def new(it2, *a, **k):
        f = FieldM(f"out{len(it2.state['made'])}", sym(f'dealias_{name}'), meta=k)
        it2.state['made'].append(f)
        if a:
            it2.state['errors'].append((it2.loc(), 'output field built with positional arguments'))
        return f
    return Native('future_type', new)


def make_op(it, repo, cls, name, args, out=None):
    o = Obj(cls, name)
    it.state['ops'].append(o)
    init = cls.method('__init__')
    o.attrs['domain'] = Obj(None, f'dom_{name}', {'dealias': sym(f'dealias_{name}'), 'bases': (sym(f'basis_{name}'),)})
    o.attrs['tensorsig'] = sym(f'ts_{name}')
    o.attrs['dtype'] = sym(f'dtype_{name}')
    o.attrs['future_type'] = make_type(it, name)
    o.attrs['name'] = name
    it.call(Closure(init, None, o, init.cls), list(args), {'out': out} if out is not None else {})
    return o


def tree(it, repo, cls, shape, out):
    f = FieldM('f', sym('dealias_f'), leaf=True)
    g = FieldM('g', sym('dealias_g'), leaf=True)
    if shape == 'leaf':
        r = make_op(it, repo, cls, 'R', [f, 2, g], out)
        return r, {'R': [f, 2, g]}
    if shape == 'nested':
        c = make_op(it, repo, cls, 'C', [f])
        r = make_op(it, repo, cls, 'R', [g, c, 3], out)
        return r, {'R': [g, c, 3], 'C': [f]}
    if shape == 'two':
        b = make_op(it, repo, cls, 'B', [f])
        c = make_op(it, repo, cls, 'C', [g, f])
        r = make_op(it, repo, cls, 'R', [b, c], out)
        return r, {'R': [b, c], 'B': [f], 'C': [g, f]}
    c = make_op(it, repo, cls, 'C', [f])
    r = make_op(it, repo, cls, 'R', [c, c], out)
    return r, {'R': [c, c], 'C': [f]}


def expected(it, op, orig):
    return (op.name,) + tuple(expected(it, a, orig) if isinstance(a, Obj) else (a.name, it.state['epoch']) if isinstance(a, FieldM) else a for a in orig[op.name])


# call histories: (method, id, conditions that hold before the call); a failed attempt is retried under the same id
HIST = [
    [('evaluate', 'A', ''), ('evaluate', 'A', ''), ('evaluate', 'B', '')],
    [('evaluate', None, ''), ('evaluate', None, ''), ('evaluate', 'A', '')],
    [('evaluate', 'A', ''), ('evaluate', None, ''), ('evaluate', 'B', '')],
    [('evaluate', 0, ''), ('evaluate', 0, ''), ('evaluate', 1, '')],
    [('attempt', 'A', ''), ('attempt', 'A', '*'), ('attempt', 'B', '*')],
    [('attempt', 'A', 'BC'), ('attempt', 'A', '*'), ('evaluate', 'B', '')],
    [('attempt', 'A', 'C'), ('attempt', 'A', 'B'), ('attempt', 'A', 'R'), ('evaluate', 'A', '')],
    [('attempt', 'A', '*'), ('attempt', 'A', ''), ('evaluate', None, '')],
    [('evaluate', 'A', ''), ('attempt', 'A', ''), ('attempt', 'B', '*')],
    [('attempt', None, 'R'), ('evaluate', 'A', ''), ('evaluate', 'A', '')],
    [('attempt', 'A', 'R'), ('evaluate', 'A', ''), ('attempt', 'B', 'C')],
    [('getitem', None, ''), ('evaluate', 'A', ''), ('getitem', None, '')],
    [('getitem', None, ''), ('getitem', None, ''), ('evaluate', 0, '')],
]


def run(repo, rep):
    rep.rule('evaluating an expression yields the operation applied to the present operand values, whatever was evaluated or attempted before')
    rep.rule('results are reused only within one evaluation id; attempts return None and leave the operands alone when conditions do not hold')
    fut = repo.cls('core.future', 'FutureField')
    names = ('evaluate', 'attempt', 'reset', 'get_out', 'build_out', '__getitem__')
    variants = {}
    for c in [fut] + repo.subclasses(fut, strict=True) + repo.subclasses(repo.cls('core.future', 'FutureLockedField')):
        key = tuple(c.method(n) for n in names)
        variants.setdefault(key, c)
    for key, c in variants.items():
        if c.method('__getitem__') is None:
            hist = [h for h in HIST if not any(x[0] == 'getitem' for x in h)]
        else:
            hist = HIST
        rep.count('evaluation protocols')
        protocol(repo, rep, c, hist)
    constructors(repo, rep)
    rep.floor('histories', 300)
    rep.floor('evaluations', 500)


def protocol(repo, rep, cls, hist):
    # the protocol methods come from `cls`; the constructor is the shared one
    base = repo.cls('core.future', 'Future')
    use = cls if cls.method('__init__') is base.method('__init__') else Shell(cls, base)
    for shape in ('leaf', 'nested', 'two', 'shared'):
        for h in hist:
            for store_last, store_out, given in itertools.product((True, False), (True, False), (True, False)):
                if given and not store_out:
                    continue
                one(repo, rep, use, shape, h, store_last, store_out, given)


class Shell(Class):
    """The class with the base constructor (subclass constructors are checked separately)."""
    def __init__(self, cls, base):
        self.__dict__.update(cls.__dict__)
        self._real, self._base = cls, base

    def find(self, name):
        if name == '__init__':
            return self._base.find(name)
        return self._real.find(name)

    def method(self, name):
        r = self.find(name)
        return r[2] if r and r[1] == 'method' else None

    def mro(self):
        return self._real.mro()

    def issub(self, other):
        return self._real.issub(other)


def one(repo, rep, cls, shape, h, store_last, store_out, given):
    it = Interp(repo, Cfg())
    what = f"{shape} expression, store_last={store_last}, store_outputs={store_out}, out={'given' if given else 'new'}, calls {[x[:2] for x in h]}"

    def go(it):
        st = it.state
        st.update(ops=[], errors=[], cond={}, enforced=[], operated=[], made=[], epoch=0, store_last=store_last, store_out=store_out, got=None)
        out = FieldM('given', sym('dealias_R'), meta=None) if given else None
        r, orig = tree(it, repo, cls, shape, out)
        st['orig'] = orig
        problems = []
        last = {'id': None, 'res': None}
        pending = None
        for n, (m, id, ok) in enumerate(h):
            if not (pending is not None and pending == id and id is not None) and not (id is not None and last['id'] == id):
                st['epoch'] += 1
            if pending is None or pending != id:
                pass
            for o in st['ops']:
                st['cond'][o.name] = ok == '*' or o.name in ok
            st['enforced'].clear()
            st['operated'].clear()
            before = {o.name: st['cond'][o.name] for o in st['ops']}
            if m == 'getitem':
                v = it.getitem(r, 'g')
                res = v
            elif m == 'attempt':
                res = it.call(it.getattr(r, 'attempt'), [], {'id': id} if id is not None else {})
            else:
                res = it.call(it.getattr(r, 'evaluate'), [], {'id': id} if id is not None else {})
            step = f"call {n + 1} ({m}, id={id!r})"
            exp = expected(it, r, orig)
            if m == 'getitem':
                if not (isinstance(res, Term) and res.op == 'data' and res.args[1] == freeze(exp) and st['got'] == 'g'):
                    problems.append(f"{step} does not return the evaluated data in the requested layout but {show(res)}")
                last = {'id': None, 'res': None}
                pending = None
            elif isinstance(res, FieldM):
                if res.val(it) != exp:
                    problems.append(f"{step} returns {res.val(it)} instead of {exp}")
                if res.leaf:
                    problems.append(f"{step} returns an operand")
                if res.meta is not None:
                    md = res.meta
                    want = {'dist': 'dist', 'tensorsig': 'ts_R', 'dtype': 'dtype_R'}
                    for k, w in want.items():
                        if k not in md or show(md[k]) != w:
                            problems.append(f"{step}: output field is built with {k}={show(md.get(k))}")
                    has = md.get('bases')
                    if has is not None and show(has) != show((sym('basis_R'),)):
                        problems.append(f"{step}: output field is built with bases={show(has)}")
                    if has is None and not any('basis_R' in show(d[0]) and d[1] is False for d in it.decisions):
                        problems.append(f"{step}: output field is built without the bases of the expression")
                if given and res.name != 'given':
                    problems.append(f"{step} does not use the given output")
                if store_last and id is not None and last['id'] == id:
                    if res is not last['res']:
                        problems.append(f"{step} does not reuse the result of the same evaluation")
                    if st['operated']:
                        problems.append(f"{step} evaluates the same expression twice in one evaluation")
                for o in st['ops']:
                    a = list(it.iterate(o.attrs['args']))
                    w = orig[o.name]
                    if len(a) != len(w) or any(x is not y and x != y for x, y in zip(a, w)):
                        problems.append(f"{step}: afterwards the arguments of {o.name} are {show(a)} instead of the original {show(w)}")
                last = {'id': id, 'res': res}
                pending = None
            elif res is None:
                if m != 'attempt':
                    problems.append(f"{step} returns None although evaluation is forced")
                elif not blocked(st, r, orig, before, last, id, store_last):
                    problems.append(f"{step} returns None although all conditions hold")
                pending = id
            else:
                problems.append(f"{step} returns {show(res)}")
            if m == 'attempt':
                if st['enforced']:
                    problems.append(f"{step} changes layouts (enforce_conditions of {st['enforced']}) in an attempt")
            for o in st['ops']:
                oa = list(it.iterate(o.attrs['original_args']))
                if len(oa) != len(orig[o.name]) or any(x is not y and x != y for x, y in zip(oa, orig[o.name])):
                    problems.append(f"{step}: the record of original arguments of {o.name} changes to {show(oa)}")
            rep.count('evaluations')
        st['problems'] = problems
        return None
    for r in it.explore(go):
        rep.count('histories')
        if r.outcome == 'abort':
            rep.undec(f'{what}: {r.value}')
            continue
        loc = cls.method('evaluate').loc
        if r.outcome == 'raise':
            rep.check(False, f"O03|raises|{r.value.name}", f"{what}: raises {r.value.name}: {r.value.value} when {r.cond_text()}", r.value.loc or loc)
            continue
        errs = r.extra['errors']
        probs = r.extra['problems']
        msg = errs[0][1] if errs else probs[0] if probs else ''
        key = errs[0][1] if errs else (probs[0].split(') ', 1)[-1][:60] if probs else '')
        rep.check(not errs and not probs, f"O03|{key}", f"{what}: {msg}", errs[0][0] if errs else loc, what)


def blocked(st, r, orig, before, last, id, store_last):
    """May this attempt return None?  (some operator of the tree had unsatisfied conditions)"""
    return not all(before.values())


def constructors(repo, rep):
    """Every constructor leaves the evaluation state the protocol starts from."""
    base = repo.cls('core.future', 'Future')
    binit = base.method('__init__')
    for c in repo.subclasses(base, strict=True):
        init = c.method('__init__')
        if init is None or init is binit or repo.subclasses(c, strict=True):
            continue
        rep.count('constructors')
        if reaches_base(repo, c, init):
            continue
        # does not delegate: it has to set the same state itself
        it = Interp(repo, Cfg())
        bad = []

        def go(it):
            it.state.update(ops=[], errors=[], store_last=True, store_out=True, epoch=0)
            o = Obj(c, 'op')
            ps = init.params()[1:]
            args = {p: sym(p) for p in ps}
            if 'args' in args:
                args['args'] = [FieldM('f', sym('df'), leaf=True), 2]
            if 'kw' in args:
                args['kw'] = {}
            it.call(Closure(init, None, o, init.cls), [], {p: v for p, v in args.items()})
            it.state['o'] = o
            return None
        for r in it.explore(go):
            if r.outcome != 'return':
                continue
            a = r.extra['o'].attrs
            missing = [x for x in ('args', 'original_args', 'out', 'dist', 'last_id') if x not in a]
            if 'original_args' in a and 'args' in a:
                if a['args'] is a['original_args']:
                    bad.append('args and original_args are the same list')
                elif list(a['args']) != list(a['original_args']):
                    bad.append('original_args differ from args')
            if 'last_id' in a and a['last_id'] is not None:
                bad.append('last_id does not start empty')
            if missing:
                bad.append(f"does not set {missing}")
        rep.check(not bad, f"O03|{c.name}|constructor", f"{c.name}.__init__ {'; '.join(sorted(set(bad)))}", init.loc, f'{c.name} constructor')


def reaches_base(repo, c, init, depth=0):
    """The constructor calls a constructor that reaches Future.__init__."""
    src = ast.unparse(init.node)
    if 'super().__init__' in src:
        return True
    for n in ast.walk(init.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__':
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and depth < 3:
            m = c.method(n.func.attr)
            if m is not None and m is not init and reaches_base(repo, c, m, depth + 1):
                return True
    return False
