"""Transforms and transposes move every field, with its data, to the adjacent layout on every path.

Typestate over the layout of each field: the four direction methods of
`Transform` and `Transpose` are abstractly interpreted (helpers inlined, every
undetermined condition forked) for lists of one to three fields; arrays are
typed by (field, layout, representation), so a field relabelled without its
data being moved, moved in the wrong direction, or filled from another field's
components is reported.
"""
import sympy
from ..interp import *
from ..interp import Generic
from ..repo import AnalysisBroken


class FM(AbsVal):
    """Abstract field."""
    def __init__(self, name, ncomp, dom, start):
        self.name, self.ncomp, self.dom = name, ncomp, dom
        self.layout = start
        self.start = start
        self.rep = start
        self.errors = []

    def __repr__(self):
        return self.name

    def getattr(self, it, name):
        if name == 'data':
            return DV(self, self.layout)
        if name == 'tensorsig':
            return [Obj(None, f'cs_{self.name}', {'dim': self.ncomp})]
        if name == 'layout':
            return sym(f'layout{self.layout}')
        if name == 'domain':
            return Term('sym', f'domain_{self.dom}')
        if name == 'scales':
            return sym('scales')
        if name == 'dtype':
            return sym('dtype')
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'preset_layout':
            a = args[0]
            if a == sym('layout0'):
                self.layout = 0
            elif a == sym('layout1'):
                self.layout = 1
            else:
                raise PathAbort('layout argument')
            return None
        return NotImplemented


class DV(AbsVal):
    """View of a field's buffer taken in a given layout."""
    def __init__(self, f, layout):
        self.f, self.layout = f, layout

    def __repr__(self):
        return f"{self.f.name}.data@{self.layout}"

    def getattr(self, it, name):
        if name == 'shape':
            return Term('shape', self.f.dom, self.layout)
        if name == 'size':
            return Term('size', self.f.dom, self.layout)
        if name == 'dtype':
            return sym('dtype')
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name in ('reshape', 'view', 'ravel'):
            return self
        if name == 'copy':
            return Cat([(self.f, self.layout)], {self.f: self.f.rep})
        if name == '__len__':
            return self.f.ncomp
        return NotImplemented

    def setitem(self, it, key, value):
        full = isinstance(key, slice) and key.start is None and key.stop is None or key is Ellipsis or (isinstance(key, Term) and 'Ellipsis' in repr(key))
        if isinstance(value, (Cat, Piece)):
            write(it, self, value)
            return None
        return NotImplemented

    def truth(self, it):
        return None


class Cat(AbsVal):
    """Concatenated copy of several fields' components."""
    def __init__(self, items, reps=None):
        self.items = list(items)      # [(field, layout)]
        self.reps = reps if reps is not None else {}

    def __repr__(self):
        return 'cat' + repr(self.items)

    def getattr(self, it, name):
        if name == 'size':
            return sum(f.ncomp for f, _ in self.items)
        return NotImplemented

    def getitem(self, it, key):
        if isinstance(key, tuple):
            key = key[0]
        if isinstance(key, slice):
            a = key.start or 0
            b = key.stop
            if isinstance(a, int) and isinstance(b, int):
                return Piece(self, a, b)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name in ('reshape', 'view'):
            return self
        return NotImplemented


class Piece(AbsVal):
    def __init__(self, cat, a, b):
        self.cat, self.a, self.b = cat, a, b

    def __repr__(self):
        return f"{self.cat}[{self.a}:{self.b}]"

    def callmethod(self, it, name, args, kwargs):
        if name in ('reshape', 'view', 'copy'):
            return self
        return NotImplemented

    def field(self):
        i = 0
        for f, _ in self.cat.items:
            if i == self.a and i + f.ncomp == self.b:
                return f
            i += f.ncomp
        return None


def write(it, dv, value):
    f = dv.f
    if not value_nonempty(value):
        return
    if isinstance(value, Cat):
        value = Piece(value, 0, sum(g.ncomp for g, _ in value.items))
    src = value.field()
    if src is None:
        f.errors.append(('split', it.loc(), f"{f.name} is filled from components {value.a}:{value.b}, which are not one field's components"))
        return
    if src is not f:
        f.errors.append(('split', it.loc(), f"{f.name} is filled with the data of {src.name}"))
        return
    if dv.layout != f.layout:
        f.errors.append(('write', it.loc(), f"{f.name} written through a view of the other layout"))
    f.rep = value.cat.reps.get(f, value.cat.reps.get('*', f.rep))


def value_nonempty(v):
    c = v.cat if isinstance(v, Piece) else v
    return bool(c.items)


class Cfg(Config):
    max_paths = 600

    def __init__(self, direction):
        self.direction = direction
        self.log = []

    def on_truth(self, it, v):
        if isinstance(v, Term) and v.op == 'cmp' and v.args[0] == 'in':
            # distinct symbolic keys are distinct
            return repr(v.args[1]) in repr(v.args[2])
        if isinstance(v, Term) and v.op == 'planner':
            return True
        return None

    def on_getattr(self, it, base, name):
        if isinstance(base, Term) and base == sym('plan'):
            return Term('attr', base, name)
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        if isinstance(f, Term) and f.op == 'ext':
            n = f.args[0].split('.')[-1]
            if n in ('concatenate', 'vstack', 'stack'):
                vs = [v for v in it.iterate(args[0])]
                if all(isinstance(v, (DV, Cat)) for v in vs):
                    items, reps = [], {}
                    for v in vs:
                        if isinstance(v, DV):
                            items.append((v.f, v.layout))
                            reps[v.f] = v.f.rep
                        else:
                            items += v.items
                            reps.update(v.reps)
                    return Cat(items, reps)
            if n in ('zeros', 'empty'):
                return Cat([])
            if n == 'copyto' and isinstance(args[0], DV):
                write(it, args[0], args[1] if isinstance(args[1], (Cat, Piece)) else Cat([]))
                return None
            if n in ('prod', 'sum') and len(args) == 1 and isinstance(args[0], (list,)) and all(isinstance(x, int) for x in args[0]):
                return NotImplemented
        if isinstance(f, Term) and f.op == 'attr':
            base, meth = f.args
            if meth in ('backward_transform', 'forward_transform'):
                self.transform(it, meth, base, args, kwargs)
                return None
            if meth in ('local_shape', 'global_shape', 'chunk_shape'):
                if base == sym('layout1') or base == sym('layout0'):
                    tag, dom = f"{meth}{base.args[0][-1]}", args[0]
                else:
                    tag, dom = f"chunk{args[0].args[0][-1]}", base
                return tuple(sympy.Symbol(f"{tag}_{show(dom)}_{i}", positive=None) for i in range(4))
            if meth in ('localize_columns', 'localize_rows'):
                self.localize(it, meth, args)
                return None
            if meth == 'Barrier':
                it.event('barrier')
                return None
        if isinstance(f, (Term, Class)) and isinstance(args, list) and len(args) >= 4 and 'Planner' in show(f):
            pass
        if self.is_planner(f):
            it.event('plan', list(args), dict(kwargs))
            return Term('planner', freeze(args[0]), freeze(args[1]), freeze(args[3]) if len(args) > 3 else None)
        return NotImplemented

    def on_new(self, it, cls, args, kwargs, node):
        if cls.method('localize_rows') is not None:
            return self.mkplan(it, cls, args, kwargs)
        return NotImplemented

    def mkplan(self, it, cls, args, kwargs):
        it.event('plan', list(args), dict(kwargs))
        return Term('planner', *[freeze(a) for a in args])

    def is_planner(self, f):
        return isinstance(f, Term) and ('TransposePlanner' in show(f) or 'Transpose' in show(f)) and f.op in ('global', 'ext', 'attr')

    def transform(self, it, meth, base, args, kwargs):
        names = ['field', 'axis', 'in', 'out']
        fm, axis, src, dst = (list(args) + [None] * 4)[:4]
        a0, a1 = (0, 1) if meth == 'backward_transform' else (1, 0)
        if not (isinstance(src, DV) and isinstance(dst, DV) and isinstance(fm, FM)):
            raise PathAbort('transform arguments')
        f = src.f
        if fm is not f or dst.f is not f:
            f.errors.append(('transform', it.loc(), 'transform mixes different fields'))
        if axis != sym('axis'):
            f.errors.append(('transform', it.loc(), f'transform along {show(axis)} instead of the transform axis'))
        if src.layout != a0 or dst.layout != a1:
            f.errors.append(('transform', it.loc(), f'{meth} from a view of layout {src.layout} to a view of layout {dst.layout}'))
        if f.rep != a0:
            f.errors.append(('transform', it.loc(), f'{meth} applied to data in representation {f.rep}'))
        want = Term('item', Term('attr', Term('sym', f'domain_{f.dom}'), 'full_bases'), sym('axis'))
        if base != want:
            f.errors.append(('transform', it.loc(), f'basis {show(base)} is not the basis of the transform axis'))
        f.rep = a1

    def localize(self, it, meth, args):
        # localize_columns(RL, CL): layout0 -> layout1 ; localize_rows(CL, RL): layout1 -> layout0
        a0, a1 = (0, 1) if meth == 'localize_columns' else (1, 0)
        src, dst = args[:2]
        it.event('localize', meth, src, dst)
        s = self._items(src)
        d = self._items(dst)
        for (g, lay) in s:
            if lay != a0:
                g.errors.append(('transpose', it.loc(), f'{meth} reads {g.name} through a view of layout {lay}'))
        for (g, lay) in d:
            if lay != a1:
                g.errors.append(('transpose', it.loc(), f'{meth} writes {g.name} through a view of layout {lay}'))
        if s and d and [g for g, _ in s] != [g for g, _ in d]:
            s[0][0].errors.append(('transpose', it.loc(), f'{meth} source order {[g.name for g, _ in s]} differs from target order {[g.name for g, _ in d]}'))
        if isinstance(dst, DV):
            g = dst.f
            if g.rep != a0:
                g.errors.append(('transpose', it.loc(), f'{meth} applied to data in representation {g.rep}'))
            g.rep = a1
        elif isinstance(dst, Cat):
            for g, _ in dst.items:
                if isinstance(src, Cat) and src.items and src.reps.get(g, a0) != a0:
                    g.errors.append(('transpose', it.loc(), f'{meth} applied to data in representation {src.reps.get(g)}'))
                dst.reps[g] = a1
        else:
            raise PathAbort('transpose arguments')

    def _items(self, v):
        if isinstance(v, DV):
            return [(v.f, v.layout)]
        if isinstance(v, Cat):
            return v.items
        raise PathAbort('transpose arguments')


def scenarios():
    yield [('u', 2, 'A')]
    yield [('u', 2, 'A'), ('v', 1, 'A')]
    yield [('u', 2, 'A'), ('v', 3, 'B')]
    yield [('u', 1, 'A'), ('v', 3, 'A'), ('w', 2, 'B')]


def run(repo, rep):
    rep.rule('after increment/decrement every field of the list is in the target layout on every path')
    rep.rule('its data was transformed/transposed in the right direction between views of the two layouts, unless the path has no basis, no local data or nothing to redistribute')
    rep.rule('group redistribution splits the gathered buffer back to the same fields in the same order')
    for cname in ('Transform', 'Transpose'):
        cls = repo.cls('core.distributor', cname)
        for meth, start, target in (('increment', 0, 1), ('decrement', 1, 0)):
            if cls.method(meth) is None:
                from ..repo import AnalysisBroken
                raise AnalysisBroken(f"{cname}.{meth} not found")
            rep.count('direction methods')
            for sc in scenarios():
                one(repo, rep, cls, meth, start, target, sc)
    rep.floor('direction methods', 4)
    rep.floor('paths', 20)
    field_moves(repo, rep)
    plan_rule(repo, rep)


def one(repo, rep, cls, meth, start, target, sc):
    cfg = Cfg(meth)
    it = Interp(repo, cfg)

    def go(it):
        fields = [FM(n, c, d, start) for n, c, d in sc]
        it.state['fields'] = fields
        o = Obj(cls, 'self', {'layout0': sym('layout0'), 'layout1': sym('layout1'), 'axis': sym('axis') if cls.name == 'Transform' else 1,
                              'comm_cart': sym('comm_cart'), 'comm_sub': sym('comm_sub')})
        return it.call(it.getattr(o, meth), [fields])
    st = cls.method(meth)
    K = lambda w: f"D01|{cls.name}.{meth}|{w}"
    for r in it.explore(go):
        rep.count('paths')
        names = [x[0] for x in sc]
        if r.outcome == 'abort':
            rep.undec(f"{cls.name}.{meth}({names}): {r.value}")
            continue
        if r.outcome == 'raise':
            rep.violation(K('raises'), f"{meth} of {names} raises {r.value.name}: {r.value.value} when {r.cond_text()}", r.value.loc)
            continue
        fields = r.extra['fields']
        nodata = set()
        nobasis = set()
        for t, v, l in r.decisions:
            s = show(t)
            for f in fields:
                if f"'{f.dom}'" in s and ('size' in s or 'shape' in s) and not v:
                    nodata.add(f.dom)
                if t.op == 'cmp' and t.args[0] == 'is' and f'domain_{f.dom}.full_bases' in s and v:
                    nobasis.add(f.dom)
        empty = {(f.dom, lay) for f in fields for lay in (0, 1) for t, v, l in r.decisions if not v and any(show(Term(q, f.dom, lay)) in show(t) for q in ('size', 'shape'))}
        for e in r.events:
            if e.kind != 'localize':
                continue
            m, src, dst = e.data[0][:3] if isinstance(e.data[0], (list, tuple)) else e.data[:3]
            a0, a1 = (0, 1) if m == 'localize_columns' else (1, 0)
            S, D = [g for g, _ in cfg._items(src)], [g for g, _ in cfg._items(dst)]
            for g in D:
                rep.check(g in S or (g.dom, a0) in empty, K('gather'), f"{m} is not given the data of {g.name}, which may be non-empty, when {r.cond_text()}", e.loc)
            for g in S:
                rep.check(g in D or (g.dom, a1) in empty, K('gather'), f"{m} is not given room for the data of {g.name}, which may be non-empty, when {r.cond_text()}", e.loc)
        planned = [e for e in r.events if e.kind == 'plan']
        for f in fields:
            for w, l, msg in f.errors:
                rep.violation(K(w), f"{msg} when {r.cond_text()}", l)
            rep.check(f.layout == target, K('layout'), f"field {f.name} of {names} is left in layout{f.layout} instead of layout{target} when {r.cond_text()}", st.loc,
                      f"{cls.name}.{meth}{names}: layout of {f.name} when {r.cond_text()[:150]}")
            moved = f.rep == target
            if cls.name == 'Transform':
                free = f.dom in nobasis or f.dom in nodata
            else:
                free = _no_change(r, f, repo) or f.dom in nodata
            rep.check(moved or free, K('data'), f"field {f.name} of {names} is relabelled without its data being moved when {r.cond_text()}", st.loc)
        for e in planned:
            check_plan(rep, K, e, fields)


def _no_change(r, f, repo):
    """The path established that there is nothing to redistribute: the size is zero or both axes hold a single chunk."""
    eqs = set()
    for t, v, l in r.decisions:
        s = show(t)
        if f'domain_{f.dom}_' not in s or not v:
            continue
        if t.op == 'cmp' and t.args[0] == '==':
            a, b = t.args[1], t.args[2]
            if a == 0 or b == 0:
                return True
            syms = sorted(str(x) for x in (getattr(a, 'free_symbols', set()) | getattr(b, 'free_symbols', set())))
            if any(x.startswith('chunk') for x in syms) and any(x.startswith('global') for x in syms):
                ax = {x[-1] for x in syms}
                if len(ax) == 1:
                    eqs |= ax
        elif t.op == 'truth' and 'prod' in s:
            pass
    if {'1', '2'} <= eqs:
        return True
    for t, v, l in r.decisions:
        if t.op == 'truth' and f'domain_{f.dom}_' in show(t) and not v:
            return True
    return False


def check_plan(rep, K, e, fields):
    args = list(e.data[0])
    if len(args) < 5:
        return
    shape, chunk, dtype, axis, comm = args[:5]
    if isinstance(shape, tuple) and isinstance(chunk, tuple):
        ok = len(shape) == 5 and len(chunk) == 5 and shape[0] == chunk[0]
        rep.check(ok, K('plan shape'), f"planner shapes {show(shape)} / {show(chunk)} do not carry one component axis each", e.loc)
        if ok:
            exp = [f'local_shape0', 'global_shape0', 'global_shape0', 'local_shape0']
            got = [str(x) for x in shape[1:]]
            rep.check(all(g.startswith(x) and g.endswith(f'_{i}') for i, (g, x) in enumerate(zip(got, exp))), K('plan sub shape'),
                      f"planner global shape {got} is not global along the two transposed axes and local elsewhere", e.loc)
            tot = {}
            for f in fields:
                tot[f'domain_{f.dom}'] = tot.get(f'domain_{f.dom}', 0) + f.ncomp
            doms = [d for d in tot if d in got[0]]
            if doms:
                single = {f.ncomp for f in fields if f'domain_{f.dom}' == doms[0]}
                rep.check(shape[0] == tot[doms[0]] or shape[0] in single, K('plan components'), f"planner component count {show(shape[0])} is not the number of components sent", e.loc)
    rep.check(axis == 2, K('plan axis'), f"planner axis {show(axis)} does not account for the leading component axis (expected self.axis + 1)", e.loc)
    rep.check(comm == sym('comm_sub'), K('plan comm'), f"planner communicator is {show(comm)}", e.loc)


def plan_rule(repo, rep):
    """Communication is skipped only if the whole redistributed extent is a single chunk along both axes (or empty)."""


def field_moves(repo, rep):
    """Field.towards_grid_space / towards_coeff_space use the path adjacent to the current layout."""
    cls = repo.cls('core.field', 'Field')
    for meth, off, op in (('towards_grid_space', 0, 'increment'), ('towards_coeff_space', -1, 'decrement')):
        m = cls.method(meth)
        if m is None:
            raise AnalysisBroken(f"Field.{meth} not found")
        cfg = Config()
        cfg.inline = lambda it, func: func.cls is not None and func.cls.name in ('Field', 'Current', 'Operand')
        it = Interp(repo, cfg)

        def go(it):
            i = sympy.Symbol('i', integer=True)
            lay = Obj(None, 'layout', {'index': i})
            dist = Obj(None, 'dist')
            o = Obj(cls, 'field', {'layout': lay, 'dist': dist})
            it.state['o'] = o
            return it.call(it.getattr(o, meth), [])
        i = sympy.Symbol('i', integer=True)
        for r in it.explore(go):
            if r.outcome != 'return':
                continue
            rep.count('field moves')
            calls = [e for e in r.events if e.kind == 'call' and isinstance(e.data[0], Term) and e.data[0].op == 'attr' and e.data[0].args[1] in ('increment', 'decrement')]
            ok = len(calls) == 1
            if ok:
                f = calls[0].data[0]
                path = f.args[0]
                ok = f.args[1] == op and path.op == 'item' and path.args[0] == Term('attr', r.extra['o'].attrs['dist'], 'paths') and sympy.sympify(path.args[1]) - (i + off) == 0
                a = calls[0].data[1]
                ok = ok and len(a) == 1 and isinstance(a[0], (list, tuple)) and list(a[0]) == [r.extra['o']]
            rep.check(ok, f"D01|Field.{meth}|path", f"Field.{meth} does not apply exactly paths[index{'' if off == 0 else '-1'}].{op}([self]): {[show(e.data[0]) for e in calls]}", m.loc)
    rep.floor('field moves', 2)
