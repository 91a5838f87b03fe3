"""N01: every reference resolves.

R1 Every name a function loads is bound in its own scope, an enclosing scope, its module or the builtins.
R2 No local name is loaded where no path from the function's entry has bound it.
R3 Every attribute of a package module that is loaded, and every name imported from one (or listed in __all__), is defined by that module.
R4 Every attribute loaded from `self` (or `cls`) is defined for the instances of some class the code runs on: by a class of the
   hierarchy, or by a store of that attribute.
   Every attribute loaded from any object is defined by some class, module or store of the package, or by the libraries it uses.
R5 Every call whose callee is determined (package functions and classes, methods of self and super, methods of names which only the
   package defines) binds to the signature of the callee: of each concrete class for methods of self.
R6 Every configuration value that is read is present in the default configuration, or read with a fallback.
"""
import ast
import builtins
import configparser
import os

from ..repo import AnalysisBroken, Class, Func, Module

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__class__'}
ASSUMPTIONS = ["external libraries provide the names used from them", "attributes created through setattr, __dict__ or namespaces with computed names are not followed"]
DECOS = {'staticmethod', 'classmethod', 'property', 'CachedMethod', 'CachedAttribute', 'CachedFunction', 'parseable', 'prefix', 'alias', 'register_basis', 'register_transform',
         'add_scheme', 'add_solver', 'contextmanager', 'abstractmethod', 'wraps'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


# ---- scope ---------------------------------------------------------------

ROOTS = ('dedalus.public', 'dedalus.__main__', 'dedalus.extras', 'dedalus.tools')


def live(repo):
    """Modules that the public package, the extras, the tools or the command line import, directly or not."""
    todo = [m for n, m in repo.modules.items() if n == 'dedalus' or any(n == r or n.startswith(r + '.') for r in ROOTS)]
    if len(todo) < 10:
        raise AnalysisBroken('the package has lost its public modules')
    seen = {}
    while todo:
        m = todo.pop()
        if m.name in seen:
            continue
        seen[m.name] = m
        names = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                names |= {a.name for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                mod = m._absmod(n.level, n.module)
                names |= {mod} | {f"{mod}.{a.name}" for a in n.names}
        for x in names:
            while x:
                if x in repo.modules:
                    todo.append(repo.modules[x])
                x = x.rpartition('.')[0]
    return list(seen.values())


def site_key(m, qual, what):
    """Identifies a reference by the class (or the module) that holds it."""
    top = qual.strip('.').split('.')[0]
    return f"N01|{m.name[len('dedalus.'):]}{'.' + top if top in m.classes else ''}|{what}"


# ---- names ---------------------------------------------------------------

def module_names(repo, m, seen=None):
    seen = seen or set()
    if m.name in seen:
        return set(), False
    seen.add(m.name)
    out, open_ = set(m.funcs) | set(m.classes) | set(m.imports) | set(m.globals), False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    # every module level binding
    for st in m.tree.body:
        for n in walk_scope(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    for s in m.star:
        if s in repo.modules:
            o, op = module_names(repo, repo.modules[s], seen)
            al = literal_all(repo.modules[s])
            out |= set(al) if al is not None else {x for x in o if not x.startswith('_')}
            open_ |= op
        else:
            open_ = True
    for n in m.tree.body:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.For, ast.If, ast.With)):
            for c in ast.walk(n):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('globals', 'exec'):
                    open_ = open_ or False
    # names written through globals()
    return out, open_


def literal_all(m):
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in st.targets) and isinstance(st.value, (ast.List, ast.Tuple)):
            return [e.value for e in st.value.elts if isinstance(e, ast.Constant)]
    return None


def aliases_of(m):
    """Names a module defines through @alias decorators and a loop over globals()."""
    out = set()
    for c in m.classes.values():
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name):
                out |= {a.value for a in d.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
    return out if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals') for st in m.tree.body for n in ast.walk(st)) else set()


def walk_scope(node):
    """Nodes of the same scope (nested functions and classes excluded, their decorators and defaults included)."""
    todo = [node]
    first = True
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS) and not first:
            a = n.args
            todo += list(a.defaults) + [d for d in a.kw_defaults if d] + list(getattr(n, 'decorator_list', []))
            continue
        if isinstance(n, ast.ClassDef) and not first:
            todo += n.bases + n.decorator_list + [k.value for k in n.keywords]
            continue
        first = False
        todo += list(ast.iter_child_nodes(n))


class Scope:
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.bound = set()
        self.globals = set()


def bind(scope, node):
    if isinstance(node, FUNCS):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            scope.bound.add(x.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    comps = []
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            scope.bound.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets escape
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    scope.bound.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            scope.bound.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                scope.bound.add((al.asname or al.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            scope.bound.add(n.name)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            scope.globals |= set(n.names)
        todo += list(ast.iter_child_nodes(n))
    scope.bound -= scope.globals


def check_names(repo, rep):
    for m in live(repo):
        names, open_ = module_names(repo, m)
        names |= aliases_of(m)
        if open_ or m.is_pyx:
            continue

        def visit(n, scope, owner, qual):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in getattr(n, 'decorator_list', []) + n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d, scope, owner, qual)
                s = Scope(n, scope, 'f')
                bind(s, n)
                q = f"{qual}.{n.name}" if hasattr(n, 'name') else qual
                for b in (n.body if isinstance(n.body, list) else [n.body]):
                    visit(b, s, n, q)
                return
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    visit(d, scope, owner, qual)
                s = Scope(n, scope, 'c')
                bind(s, n)
                for b in n.body:
                    visit(b, s, owner, f"{qual}.{n.name}")
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                s = Scope(n, scope, 'f')
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            s.bound.add(x.id)
                for ch in ast.iter_child_nodes(n):
                    visit(ch, s, owner, qual)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                rep.count('name loads')
                s, own, ok = scope, True, False
                while s is not None:
                    if n.id in s.bound and (s.kind != 'c' or own):
                        ok = True
                        break
                    own = False if s.kind == 'c' or s.kind == 'f' else own
                    s = s.parent
                ok = ok or n.id in names or n.id in BUILTINS or n.id == '_load_all_'
                if not ok:
                    rep.violation(site_key(m, qual, n.id), f"{m.name}{qual} uses the name {n.id}, which nothing defines", f"{m.rel}:{n.lineno}")
                return
            for ch in ast.iter_child_nodes(n):
                visit(ch, scope, owner, qual)
        for st in m.tree.body:
            visit(st, None, None, '')
        rep.ok(f"names of {m.name}")


# ---- unassigned locals ---------------------------------------------------

class Flow:
    """May-be-bound analysis of one function: reports loads which no path has bound."""
    def __init__(self, fn, report):
        s = Scope(fn, None, 'f')
        bind(s, fn)
        self.local = s.bound
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.report = report
        self.brk, self.cont = [], []
        self.quiet = 0

    def load(self, n, st):
        if n.id in self.local and st is not None and n.id not in st and not self.quiet:
            self.report(n)

    def expr(self, e, st):
        """Names bound after evaluating e."""
        if e is None or st is None:
            return st
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [k for k in e.args.kw_defaults if k]:
                st = self.expr(d, st)
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            st = self.expr(e.generators[0].iter, st)
            inner = st | own
            for g in e.generators:
                for c in g.ifs:
                    inner = self.expr(c, inner)
            for g in e.generators[1:]:
                inner = self.expr(g.iter, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                inner = self.expr(x, inner)
            return st | (inner - own)
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.load(e, st)
                return st
            if isinstance(e.ctx, ast.Store):
                return st | {e.id}
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.expr(e.value, st)
            return st | {e.target.id}
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice)):
                st = self.expr(c, st)
        return st

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        return frozenset().union(*sts) if sts else None

    def stmt(self, s, st):
        if st is None:
            return None
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.expr(d, st)
            if isinstance(s, ast.ClassDef):
                for b in s.bases:
                    st = self.expr(b, st)
            else:
                for d in s.args.defaults + [k for k in s.args.kw_defaults if k]:
                    st = self.expr(d, st)
            return st | {s.name}
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.expr(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.expr(s.target, self.expr(s.value, st))
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                self.load(s.target, st)
                return st | {s.target.id}
            return self.expr(s.target, st)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                st = self.expr(c, st)
            return None
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.brk.append([])
            self.cont.append([])
            if isinstance(s, ast.While):
                head = st
            else:
                st = self.expr(s.iter, st)
                head = st
            # two rounds: bindings of an earlier round reach the next
            self.quiet += 1
            for _ in range(2):
                h = self.expr(s.test, head) if isinstance(s, ast.While) else self.expr(s.target, head)
                out = self.block(s.body, h)
                head = self.join(head, out, *self.cont[-1])
            self.quiet -= 1
            h = self.expr(s.test, head) if isinstance(s, ast.While) else self.expr(s.target, head)
            out = self.block(s.body, h)
            cont, brk = self.cont.pop(), self.brk.pop()
            end = self.join(head, out, *cont)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                end = None
            end = self.block(s.orelse, end)
            return self.join(end, *brk)
        if isinstance(s, ast.Break):
            self.brk[-1].append(st)
            return None
        if isinstance(s, ast.Continue):
            self.cont[-1].append(st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.expr(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            # anything bound in the body may be bound in the handlers
            sc = set()
            for x in s.body:
                for n in walk_scope(x):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        sc.add(n.id)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        sc |= {(a.asname or a.name).split('.')[0] for a in n.names}
            body = self.block(s.body, st)
            outs = [self.block(s.orelse, body)]
            for h in s.handlers:
                outs.append(self.block(h.body, st | sc | ({h.name} if h.name else set())))
            out = self.join(*outs)
            if s.finalbody:
                fin = self.block(s.finalbody, self.join(out, st | sc))
                return None if out is None else self.join(out, fin)
            return out
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split('.')[0] for a in s.names}
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    st = self.expr(t, st)
            return st
        if isinstance(s, ast.Match):
            return st | {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                st = self.expr(c, st)
        return st


def all_functions(m):
    def walk(n, qual):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield f"{qual}.{c.name}", c
                yield from walk(c, f"{qual}.{c.name}")
            elif isinstance(c, ast.ClassDef):
                yield from walk(c, f"{qual}.{c.name}")
            else:
                yield from walk(c, qual)
    yield from walk(m.tree, '')


def check_flow(repo, rep):
    for m in live(repo):
        if m.is_pyx:
            continue
        for qual, fn in all_functions(m):
            rep.count('functions')

            def bad(n):
                rep.violation(site_key(m, qual, f"local of {qual.split('.')[-1]}"), f"{m.name}{qual} uses its local {n.id} before any path binds it", f"{m.rel}:{n.lineno}")
            f = Flow(fn, bad)
            f.block(fn.body, frozenset(f.params))
            rep.ok(f"locals of {m.name}{qual}")


def run(repo, rep):
    rep.rule(' '.join((__doc__ or '').split('\n\n', 1)[1].split()))
    check_names(repo, rep)
    check_flow(repo, rep)
    from . import _n01
    _n01.run(repo, rep)
    rep.floor('name loads', 15000)
    rep.floor('functions', 1000)
