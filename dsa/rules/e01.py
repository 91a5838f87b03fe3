"""Handler evaluation: every task of every handler, once, from the same state, dealiased and independent.

`Evaluator.evaluate_handlers/evaluate_group/evaluate_scheduled`, the layout
drivers and `Handler.add_task/check_schedule/process` are abstractly
interpreted over layout chains, field start layouts and operators whose layout
conditions hold only in given layouts.  The operators run the real
`Future.attempt/evaluate/atoms` code.  Layout paths check that every field
they move is at their end of the step, so a field left behind or moved twice
shows as a mismatch.  Scheduling conditions are extracted as guarded formulas
and compared with their specification on boundary-dense valuations.
"""
import itertools
from fractions import Fraction as Fr
from ..interp import *
from ..repo import AnalysisBroken, Class
from ..numeric import evaluate as numeval, consistent


class LayoutM(AbsVal):
    def __init__(self, index, n):
        self.index, self.n = index, n

    def __repr__(self):
        return f"layout{self.index}"

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'index':
            return self.index
        if name == 'grid_space':
            return sym(f'grid_space_{self.index}')
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op in ('is', '=='):
            return self is other
        if op in ('is not', '!='):
            return self is not other
        return NotImplemented


class OSet(AbsVal):
    def __init__(self, items=()):
        self.d = dict.fromkeys(items)

    def __repr__(self):
        return '{' + ', '.join(map(show, self.d)) + '}'

    def truth(self, it):
        return bool(self.d)

    def iterate(self, it):
        return list(self.d)

    def getattr(self, it, name):
        if name in ('update', 'add', 'pop', 'discard', 'remove', 'keys', 'copy', '__contains__', '__len__', 'difference', 'union'):
            return Native('oset.' + name, lambda it2, *a, **k: self.callmethod(it2, name, a, k))
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'update':
            for a in args:
                for x in it.iterate(a):
                    self.d[x] = None
            return None
        if name == 'add':
            self.d[args[0]] = None
            return None
        if name in ('pop', 'remove', 'discard'):
            if args[0] not in self.d:
                if len(args) > 1 or name == 'discard':
                    return None
                raise RaiseSig('KeyError', show(args[0]), it.loc())
            del self.d[args[0]]
            return None
        if name == 'keys':
            return list(self.d)
        if name == 'copy':
            return OSet(self.d)
        if name == '__contains__':
            return args[0] in self.d
        if name == '__len__':
            return len(self.d)
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op in ('in', 'not in') and swapped:
            return (other in self.d) == (op == 'in')
        return NotImplemented


class FieldM(AbsVal):
    def __init__(self, name, layout, value=None, leaf=False, locked=False):
        self.name, self.layout, self.value, self.leaf, self.locked = name, layout, value, leaf, locked
        self.dealiased = False
        self.copies = 0
        self.scales = ('dealias',) if locked else ('initial',)

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def val(self, it):
        return (self.name, it.state['epoch']) if self.leaf else self.value

    def compare(self, it, op, other, swapped):
        if op in ('is', '=='):
            return self is other
        if op in ('is not', '!='):
            return self is not other
        return NotImplemented

    def move(self, it, layout):
        self.layout = layout
        if layout is it.state['layouts'][0]:
            self.dealiased = True

    def getattr(self, it, name):
        if name == 'layout':
            return self.layout
        if name == 'domain':
            return Obj(None, 'dom', {'dealias': ('dealias',)})
        if name == 'scales':
            return self.scales
        if name == 'dist':
            return it.state['dist']
        if name in ('dtype', 'tensorsig'):
            return sym(f'{name}_{self.name}')
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        st = it.state
        if name == 'atoms':
            return OSet([self])
        if name == 'change_scales':
            if not (self.scales == args[0]):
                # data pass through coefficient space, up to the layout where scaled axes are coefficients
                self.layout = st['scaled']
            self.scales = args[0]
            return None
        if name == 'preset_scales':
            self.scales = args[0]
            return None
        if name in ('change_layout', 'require_layout'):
            l = args[0]
            if l == 'c':
                l = st['layouts'][0]
            if l == 'g':
                l = st['layouts'][-1]
            self.move(it, l)
            return None
        if name == 'require_coeff_space':
            self.move(it, st['layouts'][0])
            return None
        if name == 'require_grid_space':
            self.move(it, st['layouts'][-1])
            return None
        if name == 'copy':
            c = FieldM(self.name + "'", self.layout, self.val(it), locked=self.locked)
            c.dealiased = self.dealiased
            c.scales = self.scales
            return c
        return NotImplemented


class PathM(AbsVal):
    """The step between layouts index and index+1 (a transform or a transpose)."""
    def __init__(self, index):
        self.index = index

    def __repr__(self):
        return f'path{self.index}'

    def getattr(self, it, name):
        if name in ('increment', 'decrement'):
            return Native(name, lambda it2, *a, **k: self.callmethod(it2, name, a, k))
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name not in ('increment', 'decrement'):
            return NotImplemented
        st = it.state
        L = st['layouts']
        up = name == 'increment'
        src, dst = (L[self.index], L[self.index + 1]) if up else (L[self.index + 1], L[self.index])
        seen = set()
        for f in it.iterate(args[0]):
            if not isinstance(f, FieldM):
                st['errors'].append((it.loc(), f'{name} is called with {show(f)}, which is no field'))
                continue
            if id(f) in seen:
                st['errors'].append((it.loc(), f'{name} is called with the same field twice'))
            seen.add(id(f))
            if f.locked:
                st['errors'].append((it.loc(), f'locked field moved by {name}'))
            if f.layout is not src:
                st['errors'].append((it.loc(), f'field {f} in {f.layout} is given to {name} of the step {src} -> {dst}'))
            f.move(it, dst)
        return None


class Cfg(Config):
    max_paths = 400
    max_while = 45
    max_depth = 14
    max_steps = 4000000

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'OrderedSet':
            s = OSet()
            s.callmethod(it, 'update', args, {})
            return s
        return NotImplemented

    def on_truth(self, it, value):
        if isinstance(value, Term) and 'STORE_OUTPUTS' in show(value):
            return it.state['store_out']
        return None

    def on_getattr(self, it, base, name):
        if name == 'store_last' and isinstance(base, Obj) and name not in base.attrs:
            return it.state['store_last']
        return NotImplemented

    def on_isinstance(self, it, value, cls):
        n = cls.name if isinstance(cls, Class) else None
        if isinstance(value, FieldM):
            return n in ('Field', 'Operand', 'Current') or (value.locked and n == 'LockedField')
        return None

    def on_call(self, it, f, args, kwargs, node):
        s = show(f)
        if s.startswith('uuid.') or s.startswith('time.'):
            it.state['n_id'] += 1
            return f"unique-{it.state['n_id']}"
        if isinstance(f, Term) and f == Term('ext', 'str') and args and isinstance(args[0], (Obj, AbsVal)):
            return args[0].name
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        n = clo.func.name
        s = args[0] if args else None
        st = it.state
        if n == 'unify_attributes':
            return st['dist']
        if isinstance(s, Obj) and s in st.get('ops', ()):
            if n in ('check_conditions', 'enforce_conditions', 'operate'):
                fs = [a for a in it.iterate(s.attrs['args']) if isinstance(a, (FieldM, Obj))]
                if any(isinstance(a, Obj) for a in fs):
                    st['errors'].append((it.loc(), f'{n} is called before its operands are evaluated'))
                    return None
            if n == 'check_conditions':
                return all(f.layout is fs[0].layout for f in fs) and fs[0].layout.index in st['where'][s.name]
            if n == 'enforce_conditions':
                for f in fs:
                    f.move(it, st['layouts'][st['where'][s.name][0]])
                st['errors'].append((it.loc(), 'layouts are enforced operator by operator instead of moving all fields together'))
                return None
            if n == 'operate':
                out = args[1] if len(args) > 1 else kwargs.get('out')
                st['operated'].append(s.name)
                out.value = (s.name,) + tuple(a.val(it) if isinstance(a, FieldM) else a for a in it.iterate(s.attrs['args']))
                out.layout = fs[0].layout
                out.dealiased = out.layout is st["layouts"][0]
                return None
        return NotImplemented


def make_op(it, repo, name, args, where, locked=False):
    st = it.state
    cls = repo.cls('core.future', 'FutureLockedField' if locked else 'FutureField')
    o = Obj(cls, name)
    st['ops'].append(o)
    st['where'][name] = where
    o.attrs.update(domain=Obj(None, f'dom_{name}', {'dealias': ('dealias',), 'bases': (sym('basis'),)}), tensorsig=(), dtype=sym('dtype'), name=name)
    o.attrs['future_type'] = Native('future_type', lambda it2, *a, **k: FieldM(f"out_{name}", st['layouts'][0], locked=locked))
    o.attrs.update(args=list(args), original_args=tuple(args), out=None, dist=st['dist'], last_id=None, scales=1)
    return o


def expected(it, op):
    o = it.state['orig'][op.name]
    return (op.name,) + tuple(expected(it, a) if isinstance(a, Obj) else (a.name, it.state['epoch']) if isinstance(a, FieldM) else a for a in o)


def setup(it, repo, n, store_last=True, store_out=True):
    st = it.state
    L = [LayoutM(i, n) for i in range(n)]
    st.update(ops=[], where={}, errors=[], operated=[], epoch=0, n_id=0, layouts=L, store_last=store_last, store_out=store_out, problems=[], orig={}, scaled=L[0])
    st['dist'] = Obj(None, 'dist', {'layouts': list(L), 'paths': [PathM(i) for i in range(n - 1)], 'coeff_layout': L[0], 'grid_layout': L[-1], 'dim': 2})
    ev = Obj(repo.cls('core.evaluator', 'Evaluator'), 'evaluator')
    init = ev.cls.method('__init__')
    it.call(Closure(init, None, ev, ev.cls), [st['dist'], {}], {})
    return ev


class HandlerM(Obj):
    """A handler whose process step records what it is given."""


def make_handler(it, name, ops, group=None, sched=True):
    st = it.state
    h = Obj(None, name, {'tasks': [{'operator': o, 'name': o.name, 'layout': st['layouts'][-1], 'scales': ('dealias',)} for o in ops], 'group': group})
    h.attrs['calls'] = []

    def process(it2, **kw):
        h.attrs['calls'].append(dict(kw))
        check_process(it2, h, kw)
        return None

    def check(it2, **kw):
        h.attrs.setdefault('checks', []).append(dict(kw))
        return h.attrs['sched']
    h.attrs['process'] = Native('process', process)
    h.attrs['check_schedule'] = Native('check_schedule', check)
    h.attrs['sched'] = sched
    return h


def check_process(it, h, kw):
    st = it.state
    p = st['problems']
    st['processed'].append(h.name)
    outs = [t.get('out') for g in st['active'] for t in g.attrs['tasks']]
    for g in st['active']:
        for t in g.attrs['tasks']:
            out, op = t.get('out'), t['operator']
            if not isinstance(out, FieldM):
                p.append(f"{h.name} is processed while task {op.name} of {g.name} has output {show(out)}")
                continue
            if out.val(it) != expected(it, op):
                p.append(f"{h.name} is processed while task {op.name} of {g.name} holds {out.val(it)} instead of {expected(it, op)}")
            if out.leaf:
                p.append(f"task {op.name} outputs the operand field itself")
            if not out.locked and not out.dealiased:
                p.append(f"{h.name} is processed although the output of {op.name} was not truncated in coefficient space")
            if not out.locked and sum(1 for o in outs if o is out) > 1:
                p.append(f"{h.name} is processed while two tasks share the output of {op.name}")
    if kw != st['kw']:
        p.append(f"{h.name}.process receives {show(kw)} instead of {show(st['kw'])}")


def run(repo, rep):
    rep.rule('every task of every evaluated handler holds the value of its operator at the present state before any handler is processed; layout steps move exactly the fields that are at their start')
    rep.rule('outputs are dealiased and never shared between tasks; every evaluated handler is processed once with the given arguments')
    rep.rule('a handler is scheduled iff one of its cadences triggers, and each cadence state advances exactly when that cadence triggers')
    evaluation(repo, rep)
    drivers(repo, rep)
    tasks(repo, rep)
    schedule(repo, rep)
    dictionary(repo, rep)
    rep.floor('evaluations', 150)
    rep.floor('layout moves', 60)
    rep.floor('schedule valuations', 400)


# ---- evaluate_handlers ------------------------------------------------------------------
def scenarios(tier):
    for n in (2, 3, 4) if tier != 'thorough' else (2, 3, 4, 5):
        ks = range(n)
        for sf, sg in itertools.product(ks, ks):
            for k1, k2 in itertools.product(ks, ks):
                if n > 3 and (sf + 2 * sg + k1 + 3 * k2) % (4 if tier != 'thorough' else 1):
                    continue
                yield n, sf, sg, k1, k2


def evaluation(repo, rep):
    loc = repo.cls('core.evaluator', 'Evaluator').method('evaluate_handlers').loc
    shapes = ('simple', 'nested', 'mixed', 'shared', 'locked')
    sc = list(scenarios(rep.tier))
    for i, (n, sf, sg, k1, k2) in enumerate(sc):
        for j, shape in enumerate(shapes):
            if rep.tier != 'thorough' and n == 3 and (i + j) % 4:
                continue
            one(repo, rep, loc, n, sf, sg, k1, k2, shape, entry=('evaluate_handlers', 'evaluate_group', 'evaluate_scheduled')[(i + j) % 3], store=(True, False)[i % 5 == 0])


def one(repo, rep, loc, n, sf, sg, k1, k2, shape, entry, store):
    it = Interp(repo, Cfg())
    what = f"{n} layouts, fields in {sf},{sg}, operators need {k1},{k2}, {shape} tasks, {entry}, store_last={store}"

    def go(it):
        ev = setup(it, repo, n, store_last=store, store_out=i_store(n, sf, sg))
        st = it.state
        L = st['layouts']
        f, g = FieldM('f', L[sf], leaf=True), FieldM('g', L[sg], leaf=True)

        def op(name, args, where, locked=False):
            o = make_op(it, repo, name, args, where, locked)
            st['orig'][name] = tuple(args)
            return o
        if shape == 'simple':
            hs = [[op('A', [f], (k1,))], [op('B', [g, 2], (k2,))]]
        elif shape == 'nested':
            c = op('C', [f], (k2,))
            hs = [[op('A', [c, g], (k1,))]]
        elif shape == 'mixed':
            c = op('C', [f, g], (k1,))
            hs = [[op('A', [op('D', [c], (k2,))], tuple(range(n))), op('B', [g], (k2,))], [op('E', [f], tuple(range(n)))]]
        elif shape == 'locked':
            lk = op('K', [f], (k1,), locked=True)
            ll = FieldM('lockedleaf', L[k1], leaf=True, locked=True)
            hs = [[lk, op('A', [g], (k2,)), op('P', [ll, f], (k1,))], [op('B', [lk_arg(it, op, g, n), f], tuple(range(n)))]]
        else:
            c = op('C', [f], (k1,))
            a = op('A', [c, g], (k2,))
            hs = [[a, c], [a, op('B', [c], tuple(range(n)))], [a]]
        handlers = [make_handler(it, f'h{i}', os, group='G' if True else None) for i, os in enumerate(hs)]
        idle = make_handler(it, 'idle', [op('X', [f], (0,))], group='other', sched=False)
        for h in [idle] + handlers if entry != 'evaluate_handlers' else []:
            r = it.call(it.getattr(ev, 'add_handler'), [h], {})
            if r is not h:
                st['problems'].append('add_handler does not return the handler')
        st['active'] = handlers
        for rnd in range(3):
            st['epoch'] += 1
            st['operated'].clear()
            st['processed'] = []
            st['kw'] = {'iteration': sym(f'it{rnd}'), 'sim_time': sym('t')}
            if entry == 'evaluate_handlers':
                it.call(it.getattr(ev, entry), [list(handlers)], dict(st['kw']))
            elif entry == 'evaluate_group':
                it.call(it.getattr(ev, entry), ['G'], dict(st['kw']))
            else:
                it.call(it.getattr(ev, entry), [], dict(st['kw']))
                for h in [idle] + handlers:
                    c = h.attrs.get('checks', [])
                    if len(c) != rnd + 1 or c[-1] != st['kw']:
                        st['problems'].append(f"the schedule of {h.name} is checked {len(c) - rnd} times with {show(c[-1:])}")
            if st['processed'] != [h.name for h in handlers]:
                st['problems'].append(f"handlers processed: {st['processed']}, expected {[h.name for h in handlers]}")
            if 'X' in st['operated']:
                st['problems'].append('a handler that is not due is evaluated')
            for o in st['ops']:
                a = list(it.iterate(o.attrs['args']))
                if any(x is not y and x != y for x, y in zip(a, st['orig'][o.name])):
                    st['problems'].append(f'the arguments of {o.name} are left substituted')
            if store:
                for o in set(st['operated']):
                    if st['operated'].count(o) > 1:
                        st['problems'].append(f'shared operator {o} is computed {st["operated"].count(o)} times in one evaluation')
            # the state changes between evaluations
            f.layout, g.layout = L[(sf + rnd) % n], L[(sg + 2 * rnd) % n]
        return None
    for r in it.explore(go):
        rep.count('evaluations')
        if r.outcome == 'abort':
            rep.undec(f'{what}: {r.value}')
            continue
        if r.outcome == 'raise':
            rep.check(False, f"E01|raises|{r.value.name}", f"{what}: raises {r.value.name}: {r.value.value} when {r.cond_text()}", r.value.loc or loc)
            continue
        errs, probs = r.extra['errors'], r.extra['problems']
        msg = errs[0][1] if errs else probs[0] if probs else ''
        key = 'E01|tasks share an operator while store_last is off' if shape == 'shared' and not store else f"E01|{generic(msg)}"
        rep.check(not errs and not probs, key, f"{what}: {msg}", errs[0][0] if errs else loc, what)


def lk_arg(it, op, g, n):
    return op('M', [g], tuple(range(n)))


def generic(msg):
    import re
    return re.sub(r"\d+|out_\w+'?|\b[A-Z]\b|\bh\d|\b[fg]\b|\(.*\)", '*', msg)[:90]


# ---- require_coeff_space / require_grid_space -----------------------------------------------
def drivers(repo, rep):
    for name, end in (('require_coeff_space', 0), ('require_grid_space', -1)):
        m = repo.cls('core.evaluator', 'Evaluator').method(name)
        for n in (2, 3, 4):
            for starts in itertools.product(range(n), repeat=3):
                for as_set in (True, False):
                    if as_set and len(set(starts)) < 2 and starts[0] % 2:
                        continue
                    it = Interp(repo, Cfg())

                    def go(it):
                        ev = setup(it, repo, n)
                        L = it.state['layouts']
                        fs = [FieldM(f'f{i}', L[s], leaf=True) for i, s in enumerate(starts)]
                        it.call(it.getattr(ev, name), [OSet(fs) if as_set else list(fs)], {})
                        it.call(it.getattr(ev, name), [OSet() if as_set else []], {})
                        return [f.layout.index for f in fs]
                    for r in it.explore(go):
                        rep.count('layout moves')
                        if r.outcome == 'abort':
                            rep.undec(f'{name} {starts}: {r.value}')
                            continue
                        if r.outcome == 'raise':
                            rep.check(False, f'E01|{name}|raises', f'{name} of fields in layouts {starts} raises {r.value.name}: {r.value.value}', r.value.loc or m.loc)
                            continue
                        errs = r.extra['errors']
                        want = range(n)[end]
                        rep.check(not errs and all(v == want for v in r.value), f'E01|{name}', f"{name} of fields in layouts {starts} of {n}: {errs[0][1] if errs else 'ends in layouts ' + str(r.value)}", errs[0][0] if errs else m.loc, f'{name} {starts}')


# ---- add_task ------------------------------------------------------------------------------
def tasks(repo, rep):
    hc = repo.cls('core.evaluator', 'Handler')
    m = hc.method('add_task')
    for kind in ('operator', 'field', 'string', 'locked operator'):
        for scales in (None, 2, 'tuple', 'dealias'):
            for layout in ('g', 'c'):
                for name in (None, 'nm'):
                    it = Interp(repo, TaskCfg())

                    def go(it):
                        setup(it, repo, 2)
                        st = it.state
                        st['copies'] = []
                        dist = st['dist']
                        dist.cls = repo.cls('core.distributor', 'Distributor')
                        dist.attrs['get_layout_object'] = Native('glo', lambda it2, l: st['layouts'][0] if l == 'c' else st['layouts'][-1] if l == 'g' else l)
                        h = Obj(hc, 'handler', {'tasks': [{'name': 'earlier'}], 'vars': {'a': 1}, 'dist': dist})
                        f = FieldM('f', st['layouts'][0], leaf=True)
                        o = make_op(it, repo, 'A', [f], (0,), locked=kind.startswith('locked'))
                        st['op'] = o
                        t = f if kind == 'field' else 'expr' if kind == 'string' else o
                        sc = {'tuple': (3, 2), 'dealias': ('dealias',)}.get(scales, scales)
                        kw = {} if scales is None else {'scales': sc}
                        if name:
                            kw['name'] = name
                        it.call(it.getattr(h, 'add_task'), [t], {'layout': layout, **kw})
                        st['h'] = h
                        return None
                    what = f"add_task({kind}, layout={layout!r}, scales={scales}, name={name})"
                    for r in it.explore(go):
                        rep.count('tasks')
                        if r.outcome == 'abort':
                            rep.undec(f'{what}: {r.value}')
                            continue
                        if r.outcome == 'raise':
                            rep.check(False, f'E01|add_task|raises', f'{what} raises {r.value.name}: {r.value.value} when {r.cond_text()}', r.value.loc or m.loc)
                            continue
                        st = r.extra
                        ts = st['h'].attrs['tasks']
                        bad = []
                        if len(ts) != 2 or ts[0] != {'name': 'earlier'}:
                            bad.append(f'handler has tasks {show(ts)}')
                        t = ts[-1]
                        op = t.get('operator')
                        if kind == 'field':
                            if not (isinstance(op, Obj) and op.name == 'copy' and isinstance(op.attrs['args'][0], FieldM)):
                                bad.append(f'operator is {show(op)} instead of a copy of the field')
                        elif kind == 'string':
                            if not (isinstance(op, Obj) and op.name == 'parsed'):
                                bad.append(f'operator is {show(op)} instead of the parsed expression')
                        elif op is not st['op']:
                            bad.append(f'operator is {show(op)}')
                        if t.get('layout') is not (st['layouts'][0] if layout == 'c' else st['layouts'][-1]):
                            bad.append(f"layout is {show(t.get('layout'))}")
                        dn = {'operator': 'A', 'locked operator': 'A', 'field': 'f', 'string': 'expr'}[kind]
                        if show(t.get('name')).strip("'") not in ([name] if name else [dn, f'str({dn})']):
                            bad.append(f"name is {show(t.get('name'))}")
                        ws = ('dealias',) if kind.startswith('locked') else {None: (1, 1), 2: (2, 2), 'tuple': (3, 2), 'dealias': ('dealias',)}[scales]
                        if t.get('scales') != ws:
                            bad.append(f"scales are {show(t.get('scales'))} instead of {show(ws)}")
                        if isinstance(op, Obj) and show(t.get('dtype')) != show(op.attrs['dtype']):
                            bad.append(f"dtype is {show(t.get('dtype'))}")
                        rep.check(not bad, f'E01|add_task|{generic(bad[0]) if bad else ""}', f"{what}: {bad[0] if bad else ''}", m.loc, what)


class TaskCfg(Cfg):
    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'Copy':
            o = Obj(it.repo.cls('core.future', 'FutureField'), 'copy', {'args': list(args), 'dtype': sym('dtype_copy'), 'domain': Obj(None, 'd', {'dealias': ('dealias',)})})
            return o
        return super().on_new(it, cls, args, kwargs, node)

    def on_repo_call(self, it, clo, args, kwargs, node):
        if clo.func.name == 'parse':
            o = Obj(it.repo.cls('core.future', 'FutureField'), 'parsed', {'args': list(args), 'dtype': sym('dtype_parsed'), 'domain': Obj(None, 'd', {'dealias': ('dealias',)})})
            a = list(args) + list(kwargs.values())
            if a[0] != 'expr' or not any(x == {'a': 1} for x in a if isinstance(x, dict)) or it.state['dist'] not in a:
                it.state['errors'].append((it.loc(), f'expression parsed with {show(a)}'))
            return o
        return super().on_repo_call(it, clo, args, kwargs, node)


# ---- check_schedule --------------------------------------------------------------------------
KW = ('iteration', 'wall_time', 'sim_time', 'timestep')
H = Fr(1, 2)


def rnd(x):
    """Round half to even."""
    return Fr(round(x))


def spec(v, active):
    """Expected (scheduled, {attr: new value}) for a valuation."""
    due, upd = False, {}
    if 'wall' in active:
        d = v['wall_time'] // v['wall_dt']
        if d > v['last_wall_div']:
            due, upd['last_wall_div'] = True, d
    if 'sim' in active:
        c = rnd(v['sim_time'] / v['sim_dt'])
        if c > v['last_sim_div'] and abs(v['sim_time'] - c * v['sim_dt']) < abs(v['sim_time'] + v['timestep'] - c * v['sim_dt']):
            due, upd['last_sim_div'] = True, c
    if 'iter' in active:
        d = v['iteration'] // v['iter']
        if d > v['last_iter_div']:
            due, upd['last_iter_div'] = True, d
    if 'custom' in active and v['custom']:
        due = True
    return due, upd


def valuations(active):
    base = {'wall_time': Fr(7), 'wall_dt': Fr(2), 'last_wall_div': Fr(-1), 'sim_time': Fr(1), 'sim_dt': Fr(1), 'timestep': Fr(1, 10), 'last_sim_div': Fr(-1), 'iteration': Fr(5), 'iter': Fr(2), 'last_iter_div': Fr(-1), 'custom': True}
    per = {
        'wall': [dict(wall_time=Fr(t), wall_dt=d, last_wall_div=Fr(l)) for t in (0, H, 2, Fr(39, 10), 4, 7) for d in (H, Fr(2), Fr(3)) for l in (-1, 0, 1, 2, 3, 13, 14)],
        'sim': [dict(sim_time=t, sim_dt=d, timestep=s, last_sim_div=Fr(l)) for t in (Fr(0), Fr(2, 5), H, Fr(9, 10), Fr(19, 20), Fr(1), Fr(21, 20), Fr(11, 10), Fr(149, 100), Fr(3, 2), Fr(2)) for d in (Fr(1), H) for s in (Fr(1, 10), Fr(3, 10), Fr(1), Fr(3)) for l in (-1, 0, 1, 2, 4)],
        'iter': [dict(iteration=Fr(i), iter=Fr(d), last_iter_div=Fr(l)) for i in range(0, 8) for d in (1, 2, 3) for l in (-1, 0, 1, 2, 3, 6)],
        'custom': [dict(custom=c) for c in (True, False)],
    }
    if len(active) == 1:
        for v in per[active[0]]:
            yield {**base, **v}
    else:
        pick = {k: ([x for x in per[k] if spec({**base, **x}, (k,))[0]][::17][:2] + [x for x in per[k] if not spec({**base, **x}, (k,))[0]][::17][:2]) for k in active}
        for c in itertools.product(*[pick[k] for k in active]):
            v = dict(base)
            for x in c:
                v.update(x)
            yield v


def schedule(repo, rep):
    hc = repo.cls('core.evaluator', 'Handler')
    m = hc.method('check_schedule')
    init = hc.method('__init__')
    keys = ('wall', 'sim', 'iter', 'custom')
    for k in range(0, 5):
        for active in itertools.combinations(keys, k):
            it = Interp(repo, Cfg())

            def go(it):
                setup(it, repo, 2)
                h = Obj(hc, 'h')
                got = []

                def custom(it2, *a, **kw):
                    got.append((a, kw))
                    return sym('custom')
                kw = {}
                if 'wall' in active:
                    kw['wall_dt'] = sym('wall_dt')
                if 'sim' in active:
                    kw['sim_dt'] = sym('sim_dt')
                if 'iter' in active:
                    kw['iter'] = sym('iter')
                if 'custom' in active:
                    kw['custom_schedule'] = Native('custom', custom)
                it.call(Closure(init, None, h, hc), [it.state['dist'], {}], kw)
                start = dict(h.attrs)
                for a in ('last_wall_div', 'last_sim_div', 'last_iter_div'):
                    h.attrs[a] = sym(a)
                r = it.call(it.getattr(h, 'check_schedule'), [], {x: sym(x) for x in KW})
                if isinstance(r, (Term, AbsVal)):
                    r = it.truth(r)
                it.state.update(h=h, start=start, got=got)
                return r
            paths = []
            for r in it.explore(go):
                if r.outcome == 'abort':
                    rep.undec(f'schedule {active}: {r.value}')
                    continue
                if r.outcome == 'raise':
                    rep.check(False, f'E01|schedule|raises', f"check_schedule with {active or 'no'} cadences raises {r.value.name}: {r.value.value}", r.value.loc or m.loc)
                    continue
                paths.append(r)
            for r in paths:
                for a in ('last_wall_div', 'last_sim_div', 'last_iter_div'):
                    v = r.extra['start'].get(a)
                    rep.check(isinstance(v, (int, sympy.Integer)) and v < 0, f'E01|schedule|{a}', f"{a} starts as {show(v)}, so nothing is triggered by the first call", init.loc)
                if 'custom' in active and r.value is False:
                    rep.check(r.extra['got'] and all(set(k) == set(KW) for a, k in r.extra['got']), 'E01|schedule|custom', f"the custom schedule is called with {show(r.extra['got'])}", m.loc)
            for v in valuations(active):
                rep.count('schedule valuations')
                env = dict(v)
                match = [r for r in paths if consistent(r.decisions, env)]
                if len(match) != 1:
                    rep.undec(f'schedule {active}: {len(match)} paths for {v}')
                    continue
                r = match[0]
                due, upd = spec(v, active)
                bad = None
                if bool(r.value) != due:
                    bad = f"returns {r.value}, but the handler is {'due' if due else 'not due'}"
                else:
                    for a in ('last_wall_div', 'last_sim_div', 'last_iter_div'):
                        try:
                            x = numeval(r.extra['h'].attrs[a], env)
                        except Exception as e:
                            rep.undec(f'schedule {active}: cannot evaluate {show(r.extra["h"].attrs[a])}')
                            continue
                        if x != upd.get(a, v[a]):
                            bad = f"leaves {a} = {x} instead of {upd.get(a, v[a])}"
                rel = {k: str(x) for k, x in v.items() if any(k.startswith(p) or k.endswith(p) or k.startswith('last_' + p) for p in [dict(wall='wall', sim='sim', iter='iter', custom='custom')[a] for a in active] + (['timestep'] if 'sim' in active else []))}
                rep.check(bad is None, f"E01|schedule|{'/'.join(active)}|{generic(bad) if bad else ''}", f"check_schedule with cadences {active} at {rel} {bad}", m.loc, f'schedule {active}')


# ---- DictionaryHandler ------------------------------------------------------------------------
def dictionary(repo, rep):
    hc = repo.cls('core.evaluator', 'DictionaryHandler')
    m = hc.method('process')
    it = Interp(repo, Cfg())

    def go(it):
        setup(it, repo, 3)
        st = it.state
        L = st['layouts']
        h = Obj(hc, 'handler')
        it.call(Closure(hc.method('__init__'), None, h, hc), [st['dist'], {}], {})
        st['outs'] = []
        ts = []
        for i, (start, l) in enumerate(itertools.product(range(3), range(3))):
            out = FieldM(f'o{i}', L[start], value=('v', i))
            ts.append({'operator': sym('op'), 'name': f'n{i}', 'layout': L[l], 'scales': ('s', i), 'out': out})
            st['outs'].append((f'n{i}', out, L[l], ('s', i)))
        h.attrs['tasks'] = ts
        it.call(it.getattr(h, 'process'), [], {x: sym(x) for x in KW})
        st['got'] = {n: it.getitem(h, n) for n, *_ in st['outs']}
        return None
    for r in it.explore(go):
        rep.count('dictionary tasks', 9)
        if r.outcome != 'return':
            rep.check(False, 'E01|dictionary', f'DictionaryHandler.process {r.outcome} {getattr(r.value, "value", r.value)}', m.loc)
            continue
        for n, out, l, s in r.extra['outs']:
            got = r.extra['got'][n]
            rep.check(got is out and out.layout is l and out.scales == s, 'E01|dictionary', f"task {n} is stored as {show(got)} in {getattr(got, 'layout', None)} with scales {show(getattr(got, 'scales', None))} instead of its output in {l} with scales {s}", m.loc, f'dictionary {n}')


def i_store(n, sf, sg):
    return (n + sf + sg) % 4 != 0
