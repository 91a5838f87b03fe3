"""Interprocedural analysis of rank-dependent values and collective communication.

Flow-sensitive taint inside each function (assignments, implicit flows,
loops to a fixed point), function summaries over parameters (which parameters
reach the result, which control a collective), a fixed point over attributes
of class families, and a resolved call graph for "may execute a collective".
"""
import ast
from .repo import Func, Class, Module

L = 'local'
COLLECTIVE = {'bcast', 'Bcast', 'allreduce', 'Allreduce', 'reduce_', 'Reduce', 'gather', 'Gather', 'Gatherv', 'allgather', 'Allgather', 'Allgatherv', 'scatter', 'Scatter', 'Scatterv', 'Barrier', 'barrier',
              'Create_cart', 'Sub', 'Split', 'Dup', 'Alltoall', 'Alltoallv', 'alltoall', 'Alltoallw', 'Reduce_scatter', 'Scan', 'Exscan'}
UNIFORM_RESULT = {'bcast', 'allreduce', 'allgather', 'alltoall_'}
UNIFORM_BUF = {'Bcast': 0, 'Allreduce': 1, 'Allgather': 1, 'Allgatherv': 1}


def comm_like(e):
    """Expression naming a communicator."""
    while isinstance(e, ast.Call):
        e = e.func
    n = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ''
    return 'comm' in n.lower()


class Cond(str):
    """Text of a condition, keeping its syntax."""
    node = None


def cond(e):
    c = Cond(ast.unparse(e))
    c.node = e
    return c


class Summary:
    def __init__(self):
        self.ret = frozenset()       # labels reaching the result
        self.ctrl = {}               # parameter -> description of a collective it controls
        self.coll = None             # description of a collective it may execute
        self.mutates = {}            # attribute of self -> parameters stored into it

    def uniform(self):
        return self.coll is not None and not self.ret


class Taint:
    def __init__(self, repo, modules, sources):
        self.repo = repo
        self.src = sources
        self.funcs = []
        self.by_method = {}
        self.families = {}
        for m in repo.modules.values():
            if not modules(m.name):
                continue
            for f in m.functions():
                self._add(f)
        self.sum = {}
        self.inst = []               # (function, concrete class of self or None)
        for f in self.funcs:
            for c in ([None] if f.cls is None else repo.subclasses(f.cls)):
                self.inst.append((f, c))
                self.sum[(id(f.node), c)] = Summary()
        self.attr = {}               # (concrete class, attribute) -> where it became rank-dependent
        self.reports = {}

    def _add(self, f):
        self.funcs.append(f)
        if f.cls is not None:
            self.by_method.setdefault(f.name, []).append(f)
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, (ast.FunctionDef,)) and not hasattr(n, '_dsa_nested'):
                n._dsa_nested = True
                g = Func(n, f.module, f"{f.qualname}.{n.name}", f.cls)
                g.outer = f
                self.funcs.append(g)

    # ---- resolution --------------------------------------------------------------
    def is_prop(self, f):
        return f.has_deco('property', 'CachedAttribute', 'cached_property', 'classproperty')

    def targets(self, fn, f, cls, scope, me=('self', 'cls')):
        """Functions a callee expression may reach: ([(function, concrete class)], exact)."""
        if isinstance(fn, ast.Name):
            if fn.id in scope:
                return [(g, cls) for g in scope[fn.id]], True
            return self.static(self.repo.resolve_name(fn.id, f.module), cls), True
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Name) and v.id in me and cls is not None:
                m = cls.method(fn.attr)
                return ([(m, cls)] if m is not None else []), True
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None:
                mro = cls.mro()
                for k in mro[mro.index(f.cls) + 1:] if f.cls in mro else []:
                    if fn.attr in k.methods:
                        if (id(k.methods[fn.attr].node), cls) not in self.supers:
                            self.supers.add((id(k.methods[fn.attr].node), cls))
                            self.changed = True
                        return [(k.methods[fn.attr], cls)], True
                return [], True
            r = self.repo.resolve_expr(fn, f.module)
            if isinstance(r, (Func, Class)):
                return self.static(r, cls), True
            if isinstance(r, tuple):
                return [], True
            out = []
            for m in self.by_method.get(fn.attr, []):
                if not self.is_prop(m):
                    out += [(m, c) for c in self.repo.subclasses(m.cls) if c.method(fn.attr) is m]
            return out, False
        return [], False

    def static(self, r, cls):
        if isinstance(r, Func):
            if r.cls is None:
                return [(r, None)]
            c = cls if cls is not None and r.cls in cls.mro() else r.cls
            if (id(r.node), c) not in self.supers:
                self.supers.add((id(r.node), c))
                self.changed = True
            return [(r, c)]
        if isinstance(r, Class):
            return [(m, r) for m in (r.method('__init__'), r.method('__new__')) if m is not None]
        return []

    # ---- fixed point -------------------------------------------------------------
    def solve(self, rounds=20):
        """Run every context until nothing changes; rerun only contexts whose inputs changed."""
        self.supers = set()
        self.ver = {}
        self.per = {}
        deps = {}
        for n in range(rounds):
            self.changed = False
            for f, c in self.inst:
                if c is not None and not hasattr(f, 'outer') and c.method(f.name) is not f and (id(f.node), c) not in self.supers and f.name != '__new__' and not f.name.endswith('.setter'):
                    continue
                k = (id(f.node), c)
                d = deps.get(k)
                if d is not None and all(self.ver.get(x, 0) == v for x, v in d.items()):
                    continue
                self.cur = deps[k] = {}
                self.reports, self.sites, self.direct = self.per[k] = {}, set(), {}
                FnTaint(self, f, c).run()
            if not self.changed:
                break
        self.reports, self.sites, self.direct = {}, set(), {}
        for r, st, dr in self.per.values():
            for k, v in r.items():
                self.reports.setdefault(k, v)
            self.sites |= st
            self.direct.update(dr)
        return n + 1

    def bump(self, key):
        self.ver[key] = self.ver.get(key, 0) + 1
        self.changed = True

    def summary(self, g, c):
        """Summary of a callee, recorded as an input of the current context."""
        k = (id(g.node), c)
        self.cur.setdefault(k, self.ver.get(k, 0))
        return self.sum.get(k)

    def attr_labels(self, cls, name):
        k = ('attr', cls, name)
        self.cur.setdefault(k, self.ver.get(k, 0))
        return frozenset([L]) if (cls, name) in self.attr else frozenset()

    def set_attr(self, cls, name, why):
        if (cls, name) not in self.attr:
            self.attr[(cls, name)] = why
            self.bump(('attr', cls, name))


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'fill', 'appendleft', 'setdefault', 'sort'}


class FnTaint:
    def __init__(self, T, f, cls):
        self.T, self.f, self.cls = T, f, cls
        self.k = (id(f.node), cls)
        self.s = T.sum[self.k]
        self.serial = 0
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.defs.setdefault(n.targets[0].id, []).append(n.value)
        stores = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
        self.defs = {k: v for k, v in self.defs.items() if stores.get(k) == len(v) == 1 and k not in f.params()}
        self.me = {'self', 'cls'} | {k for k, v in self.defs.items() if isinstance(v[0], ast.Name) and v[0].id == 'self'}
        self.env = {}
        self.ctx = []               # [(labels, text)]
        self.loops = []
        self.exits = []             # [(labels, text)]
        self.scope = {}
        o = f
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node:
                self.scope[n.name] = [g for g in T.funcs if g.node is n]

    # -- helpers
    def active(self, call=None):
        for l, t in self.ctx + self.exits + [x for lp in self.loops for x in lp]:
            if call is not None and getattr(t, 'node', None) is not None and self.own_size(call, t.node):
                continue
            if l:
                yield l, t

    def event(self, desc, node, call=None):
        """A call that may execute a collective operation."""
        if self.s.coll is None:
            self.s.coll = desc
            self.T.bump(self.k)
        self.T.sites.add((self.f.fq, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
        if self.serial:
            return
        for lab, t in self.active(call):
            for p in lab:
                if p == L:
                    if not self.T.src.balanced(self, node, t):
                        self.report(desc, node, t)
                elif p not in self.s.ctrl:
                    self.s.ctrl[p] = f"{desc} (under {t})"
                    self.T.bump(self.k)

    def report(self, desc, node, why):
        if not self.serial:
            self.T.reports.setdefault((self.f.fq, desc), (self.f, node, desc, why))

    def local(self):
        return frozenset() if self.serial else frozenset([L])

    def run(self):
        a = self.f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            self.env[p.arg] = frozenset() if p.arg in ('self', 'cls') else frozenset(['p:' + p.arg])
        self.block(self.f.node.body)
        for k, v in self.env.items():
            if k.startswith('self.') and k.count('.') == 1 and self.cls is not None:
                if L in v:
                    self.T.set_attr(self.cls, k[5:], self.f.fq)
                for p in v:
                    if p != L and p not in self.s.mutates.setdefault(k[5:], set()):
                        self.s.mutates[k[5:]].add(p)
                        self.T.bump(self.k)

    def ret(self, labels):
        if not labels <= self.s.ret:
            self.s.ret |= labels
            self.T.bump(self.k)

    # -- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def branch(self, cond_labels, text, bodies):
        """Run alternative bodies under a condition and join."""
        env0 = dict(self.env)
        envs = []
        for b in bodies:
            self.env = dict(env0)
            self.ctx.append((cond_labels, text))
            self.block(b)
            self.ctx.pop()
            envs.append(self.env)
        out = {}
        for k in set().union(*envs):
            vs = [e.get(k, frozenset()) for e in envs]
            v = frozenset().union(*vs)
            out[k] = v
        self.env = out

    def imp(self):
        out = frozenset()
        for l, t in self.ctx + [x for lp in self.loops for x in lp]:
            out |= l
        return out

    def assign(self, t, labels, weak=False):
        labels = labels | self.imp()
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, labels)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, labels)
        elif isinstance(t, ast.Name):
            self.env[t.id] = labels | (self.env.get(t.id, frozenset()) if weak else frozenset())
        elif isinstance(t, ast.Attribute):
            k = self.key(t)
            if k is not None:
                self.env[k] = labels | (self.env.get(k, frozenset()) if weak else frozenset())
            else:
                self.expr(t.value)
            ts, ex = [], False
            if isinstance(t.value, ast.Name) and t.value.id in self.me and self.cls is not None:
                m = self.cls.find(t.attr + '.setter')
                if m and m[1] == 'method':
                    ts = [(m[2], self.cls)]
            for g in ts:
                self.apply(g, [(g[0].params()[1], labels)] if len(g[0].params()) > 1 else [], t)
        elif isinstance(t, ast.Subscript):
            lk = self.expr(t.slice)
            if isinstance(t.slice, ast.Constant) and self.T.src.local_key(t.slice.value):
                return
            if is_layout_key(t.slice) and self.fieldlike(t.value):
                self.field_access(t)
                return
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            lab = self.expr(b) | labels | lk
            named = isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str)
            for k in (self.keys(b)[:1] if named else self.keys(b)):
                self.env[k] = lab | self.env.get(k, frozenset())

    def key(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return f"{'self' if e.value.id in self.me else e.value.id}.{e.attr}"
        return None

    def keys(self, e):
        """Key of a stored-into object and of what it aliases."""
        out = [self.key(e)]
        if isinstance(e, ast.Name) and e.id in self.defs:
            b = self.alias(e)
            while isinstance(b, ast.Subscript):
                b = b.value
            out.append(self.key(b))
        return [k for k in out if k is not None]

    def stmt(self, st):
        if isinstance(st, ast.Expr):
            self.expr(st.value)
        elif isinstance(st, ast.Assign):
            v = self.expr(st.value)
            for t in st.targets:
                self.assign(t, v)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.expr(st.value))
        elif isinstance(st, ast.AugAssign):
            v = self.expr(st.value)
            t = st.target
            old = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t)) if isinstance(t, ast.Name) else (self.env.get(self.key(t), frozenset()) if self.key(t) else frozenset())
            if isinstance(t, ast.Attribute):
                old |= self.expr(t)
            self.assign(t, v | old)
        elif isinstance(st, (ast.Return,)):
            v = self.expr(st.value) if st.value is not None else frozenset()
            self.ret(v | self.imp())
            self.leave(self.exits)
        elif isinstance(st, ast.If):
            c = self.expr(st.test)
            sr = self.serial_test(st.test)
            if sr is not None:
                env0 = dict(self.env)
                bodies = [st.body, st.orelse]
                self.serial += 1
                self.block(bodies[0 if sr else 1])
                self.serial -= 1
                self.env = env0
                self.block(bodies[1 if sr else 0])
                return
            stop = [self.aborts(b) for b in (st.body, st.orelse)]
            if any(stop):
                # the other side is the only one that continues
                env0 = dict(self.env)
                self.ctx.append((c, cond(st.test)))
                for b, x in zip((st.body, st.orelse), stop):
                    if x:
                        self.block(b)
                        self.env = dict(env0)
                self.ctx.pop()
                for b, x in zip((st.body, st.orelse), stop):
                    if not x:
                        self.block(b)
                return
            self.branch(c, cond(st.test), [st.body, st.orelse])
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.expr(st.iter)
            self.loop(it, f"for {ast.unparse(st.target)} in {ast.unparse(st.iter)}", st.body, lambda: self.assign(st.target, it))
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            for i in range(2):
                c = self.expr(st.test)
                self.loop(c, f"while {ast.unparse(st.test)}", st.body, None, again=lambda: self.expr(st.test))
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            exits = []
            for item in st.items:
                v = self.expr(item.context_expr)
                e = item.context_expr
                if isinstance(e, ast.Call):
                    r = self.T.repo.resolve_expr(e.func, self.f.module)
                    if isinstance(r, Class):
                        for nm in ('__enter__', '__exit__'):
                            m = r.method(nm)
                            if m is not None:
                                if nm == '__enter__':
                                    self.apply((m, r), [], e)
                                else:
                                    exits.append(((m, r), e))
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v)
            self.block(st.body)
            for m, e in exits:
                self.apply(m, [], e)
        elif isinstance(st, ast.Try):
            env0 = dict(self.env)
            self.block(st.body)
            env1 = dict(self.env)
            envs = [env1]
            for h in st.handlers:
                self.env = {k: env0.get(k, frozenset()) | env1.get(k, frozenset()) for k in set(env0) | set(env1)}
                self.block(h.body)
                envs.append(self.env)
            self.env = env1
            self.block(st.orelse)
            envs[0] = self.env
            self.env = {k: frozenset().union(*[e.get(k, frozenset()) for e in envs]) for k in set().union(*envs)}
            self.block(st.finalbody)
        elif isinstance(st, (ast.Break, ast.Continue)):
            if self.loops:
                self.leave(self.loops[-1])
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                self.expr(st.exc)
        elif isinstance(st, ast.Assert):
            self.expr(st.test)
        elif isinstance(st, ast.Delete):
            pass
        elif isinstance(st, ast.Match):
            c = self.expr(st.subject)
            self.branch(c, ast.unparse(st.subject), [k.body for k in st.cases])

    def aborts(self, body):
        """Every path through the block raises."""
        if not body:
            return False
        st = body[-1]
        if isinstance(st, ast.Raise):
            return not any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for b in body for n in ast.walk(b))
        return isinstance(st, ast.If) and self.aborts(st.body) and self.aborts(st.orelse)

    def serial_test(self, t):
        """True/False when the test holds exactly on a single process/several processes."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.serial_test(t.operand)
            return None if v is None else not v
        t = self.alias(t)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = self.alias(t.left), self.alias(t.comparators[0]), type(t.ops[0])
            if isinstance(a, ast.Constant):
                a, b, op = b, a, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
            size = (isinstance(a, ast.Attribute) and a.attr == 'size' and comm_like(a.value)) or (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'Get_size')
            if size and isinstance(b, ast.Constant):
                if (op in (ast.Eq, ast.LtE) and b.value == 1) or (op is ast.Lt and b.value == 2):
                    return True
                if (op in (ast.NotEq, ast.Gt) and b.value == 1) or (op is ast.GtE and b.value == 2):
                    return False
        return None

    def alias(self, e):
        for i in range(5):
            if isinstance(e, ast.Name) and len(self.defs.get(e.id, [])) == 1:
                e = self.defs[e.id][0]
        return e

    def own_size(self, call, cond):
        """Condition on whether the transmitted buffer itself is empty."""
        if not call.args:
            return False
        cond = self.alias(cond)
        if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
            a, b = self.alias(cond.left), self.alias(cond.comparators[0])
            if isinstance(a, ast.Constant):
                a, b = b, a
            if not (isinstance(b, ast.Constant) and b.value in (0, 1)):
                return False
            cond = a
        if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
            return self.own_size(call, cond.operand)
        if not (isinstance(cond, ast.Attribute) and cond.attr == 'size'):
            return False
        x, y = self.root(cond.value), self.root(call.args[0])
        return x is not None and x == y

    def root(self, e):
        while isinstance(e, ast.Name) and len(self.defs.get(e.id, [])) == 1 and isinstance(self.defs[e.id][0], ast.Name):
            e = self.defs[e.id][0]
        return e.id if isinstance(e, ast.Name) else None

    def leave(self, where):
        for l, t in self.ctx:
            if l and (l, t) not in where:
                where.append((l, t))

    def loop(self, labels, text, body, head, again=None):
        env0 = dict(self.env)
        self.loops.append([])
        self.ctx.append((labels, text))
        for i in range(3):
            before = dict(self.env)
            if head:
                head()
            self.block(body)
            self.env = {k: self.env.get(k, frozenset()) | before.get(k, frozenset()) for k in set(self.env) | set(before)}
            if again:
                self.ctx[-1] = (self.ctx[-1][0] | again(), text)
            if self.env == before:
                break
        self.ctx.pop()
        self.loops.pop()

    # -- expressions
    def expr(self, e):
        if e is None or isinstance(e, ast.Constant):
            return frozenset()
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        out = frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.expr(c)
        return out

    def x_Name(self, e):
        return self.env.get(e.id, frozenset())

    def x_Lambda(self, e):
        return frozenset()

    def x_IfExp(self, e):
        c = self.expr(e.test)
        self.ctx.append((c, cond(e.test)))
        v = self.expr(e.body) | self.expr(e.orelse)
        self.ctx.pop()
        return v | c

    def x_BoolOp(self, e):
        out = self.expr(e.values[0])
        n = 0
        for v, prev in zip(e.values[1:], e.values):
            self.ctx.append((out, cond(prev)))
            n += 1
            out |= self.expr(v)
        for i in range(n):
            self.ctx.pop()
        return out

    def x_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def comp(self, e, elts):
        saved = dict(self.env)
        n = 0
        lab = frozenset()
        for g in e.generators:
            it = self.expr(g.iter)
            lab |= it
            self.ctx.append((it, f"for {ast.unparse(g.target)} in {ast.unparse(g.iter)}"))
            n += 1
            self.assign(g.target, it)
            for c in g.ifs:
                v = self.expr(c)
                lab |= v
                self.ctx.append((v, ast.unparse(c)))
                n += 1
        for x in elts:
            lab |= self.expr(x)
        for i in range(n):
            self.ctx.pop()
        self.env = saved
        return lab

    def x_ListComp(self, e):
        return self.comp(e, [e.elt])

    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def x_Attribute(self, e):
        v = e.value
        src = self.T.src
        if src.uniform_attr(e):
            self.expr(v)
            return frozenset()
        if src.local_attr(e):
            self.expr(v)
            return self.local()
        out = self.expr(v)
        k = self.key(e)
        if k is not None and k in self.env:
            return out | self.env[k]
        if isinstance(v, ast.Name) and v.id in self.me and self.cls is not None:
            m = self.cls.method(e.attr)
            if m is not None and self.T.is_prop(m):
                out |= self.apply((m, self.cls), [], e)
            return out | self.T.attr_labels(self.cls, e.attr)
        if isinstance(v, ast.Name) and not v.id in self.env and isinstance(self.T.repo.resolve_name(v.id, self.f.module), (Module, tuple)):
            return out
        if src.resolve_attr(e):
            for m in self.T.by_method.get(e.attr, []):
                if self.T.is_prop(m):
                    for c in self.T.repo.subclasses(m.cls):
                        if c.method(e.attr) is m:
                            self.apply((m, c), [], e, byname=True)
        return out

    def fieldlike(self, e):
        return True

    def field_access(self, e):
        for m in self.T.by_method.get('__getitem__' if isinstance(e.ctx, ast.Load) else '__setitem__', []):
            if m.cls.name == 'Field':
                self.apply((m, m.cls), [], e)

    def x_Subscript(self, e):
        if isinstance(e.slice, ast.Constant) and self.T.src.local_key(e.slice.value):
            self.expr(e.value)
            return self.local()
        if is_layout_key(e.slice) and self.fieldlike(e.value):
            self.expr(e.value)
            self.field_access(e)
            return self.local()
        return self.expr(e.value) | self.expr(e.slice)

    def x_Call(self, e):
        fn = e.func
        args = [(None, self.expr(a.value if isinstance(a, ast.Starred) else a)) for a in e.args]
        kws = [(k.arg, self.expr(k.value)) for k in e.keywords]
        alll = frozenset().union(*[l for _, l in args + kws]) if args or kws else frozenset()
        src = self.T.src
        # direct collectives
        if isinstance(fn, ast.Attribute) and fn.attr in COLLECTIVE and comm_like(fn.value):
            r = self.expr(fn.value)
            self.T.direct[(self.f.fq, e.lineno, e.col_offset)] = (self.f, e)
            self.event(f"{fn.attr} on {ast.unparse(fn.value)}", e, e if fn.attr == 'Bcast' else None)
            if fn.attr in UNIFORM_BUF:
                i = UNIFORM_BUF[fn.attr]
                if fn.attr in ('Allreduce',) and len(e.args) < 2:
                    i = 1
                bufs = [e.args[i]] if i < len(e.args) else [k.value for k in e.keywords if k.arg in ('recvbuf', 'buf')]
                for b in bufs:
                    while isinstance(b, (ast.Subscript, ast.List)):
                        b = b.elts[0] if isinstance(b, ast.List) else b.value
                    for k in self.keys(b):
                        self.env[k] = frozenset()
            if fn.attr in UNIFORM_RESULT or fn.attr in ('Create_cart', 'Sub', 'Dup', 'Split'):
                return frozenset()
            if fn.attr in ('gather', 'scatter'):
                return frozenset([L])
            return frozenset()
        txt = ast.unparse(fn)
        if src.collective_call(self, e, txt):
            self.event(f"{txt} call", e)
        if src.uniform_call(txt) or src.uniform_func(self, fn):
            if isinstance(fn, ast.Attribute):
                self.expr(fn.value)
            return frozenset()
        if src.local_call(e, ast.unparse(ast.Attribute(self.alias(fn.value), fn.attr, ast.Load())) if isinstance(fn, ast.Attribute) else txt):
            if isinstance(fn, ast.Attribute):
                self.expr(fn.value)
            return self.local()
        ts, exact = self.T.targets(fn, self.f, self.cls, self.scope, self.me)
        recv = self.expr(fn.value) if isinstance(fn, ast.Attribute) else frozenset()
        out = frozenset()
        if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS and not (exact and ts):
            b = fn.value
            while isinstance(b, ast.Subscript):
                alll |= self.expr(b.slice)
                b = b.value
            for k in self.keys(b):
                if k in self.env or k.startswith('self.'):
                    self.env[k] = self.env.get(k, frozenset()) | alll | self.imp()
        if not ts:
            return out | alll | recv
        if not exact:
            ts = src.filter(self, e, ts)
            for g in ts:
                self.apply(g, args + kws, e, recv=recv, byname=True)
            if all(self.T.summary(g, c).uniform() for g, c in ts):
                return frozenset()
            return alll | recv
        for g in ts:
            out |= self.apply(g, args + kws, e, recv=recv)
        return out | recv

    def apply(self, g, args, node, recv=frozenset(), byname=False):
        """Effect of calling g; returns labels of the result."""
        g, gc = g
        s = self.T.summary(g, gc)
        if s is None:
            return frozenset()
        ps = g.params()
        if ps and ps[0] in ('self', 'cls') and g.cls is not None:
            ps = ps[1:]
        kwonly = [x.arg for x in g.node.args.kwonlyargs]
        bind = {}
        i = 0
        for nm, lab in args:
            if nm is None:
                p = ps[i] if i < len(ps) else (g.node.args.vararg.arg if g.node.args.vararg else None)
                i += 1
            else:
                p = nm if nm in ps + kwonly else (g.node.args.kwarg.arg if g.node.args.kwarg else None)
            if p is not None:
                bind['p:' + p] = bind.get('p:' + p, frozenset()) | lab
        if s.coll is not None and not self.T.src.ignore_collective(self.f, g, node, byname):
            self.event(f"{g.qualname}", node)
        for p, d in s.ctrl.items():
            lab = bind.get(p, frozenset())
            if L in lab:
                self.report(f"{g.qualname}: {d}", node, f"argument {p[2:]}")
            for q in lab:
                if q != L and q not in self.s.ctrl:
                    self.s.ctrl[q] = d
                    self.T.bump(self.k)
        for at, pls in s.mutates.items():
            for p in pls:
                if L in bind.get(p, frozenset()) and gc is not None:
                    self.T.set_attr(gc, at, self.f.fq)
        out = frozenset()
        for l in s.ret:
            if l == L:
                out |= self.local()
            else:
                out |= bind.get(l, frozenset())
        return out


def is_layout_key(e):
    return isinstance(e, ast.Constant) and e.value in ('c', 'g')
