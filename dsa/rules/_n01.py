"""N01, continued: module attributes, attributes of self, call signatures, configuration keys."""
import ast
import configparser
import os
import re

from ..repo import AnalysisBroken, Class, Func, Module
from .n01 import all_functions, live, module_names, aliases_of, literal_all, walk_scope, site_key, FUNCS, Scope, bind

KEEP = {'staticmethod', 'classmethod', 'property', 'CachedMethod', 'CachedAttribute', 'CachedFunction', 'abstractmethod', 'setter', 'alias', 'parseable', 'prefix', 'add_scheme', 'add_solver',
        'register_basis', 'register_transform', 'wraps', 'unary_ufunc'}


def short(m):
    return m.name[len('dedalus.'):] if m.name.startswith('dedalus.') else m.name


def sites(m):
    """(class or None, enclosing functions, node) of every expression of a module, with the innermost class whose method holds it."""
    if not hasattr(m, 'n01_sites'):
        m.n01_sites = list(_sites(m))
    return m.n01_sites


def _sites(m):
    def reached(n):
        for name, val in ast.iter_fields(n):
            if isinstance(val, ast.AST):
                yield val
            elif isinstance(val, list):
                for x in val:
                    if isinstance(x, ast.AST):
                        yield x
                    if isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                        break

    def walk(n, cls, fns, qual):
        for c in reached(n):
            if isinstance(c, ast.ClassDef):
                yield from walk(c, m.classes.get(c.name) if not fns and cls is None else None, fns, f"{qual}.{c.name}")
            elif isinstance(c, FUNCS):
                yield from walk(c, cls, fns + [c], f"{qual}.{c.name}" if hasattr(c, 'name') else qual)
            else:
                yield cls, fns, qual, c
                yield from walk(c, cls, fns, qual)
    yield from walk(m.tree, None, [], '')


def local_names(fns):
    out = set()
    for f in fns:
        s = Scope(f, None, 'f')
        bind(s, f)
        out |= s.bound
    return out


def local_imports(m, fns):
    """Names that the enclosing functions bind by an import and by nothing else."""
    out = {}
    for f in fns:
        stores, imps = set(), {}
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            stores.add(x.arg)
        for b in (f.body if isinstance(f.body, list) else [f.body]):
            for n in walk_scope(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stores.add(n.id)
                elif isinstance(n, FUNCS + (ast.ClassDef,)) and hasattr(n, 'name'):
                    stores.add(n.name)
                elif isinstance(n, ast.Import):
                    for al in n.names:
                        imps.setdefault(al.asname or al.name.split('.')[0], set()).add(('module', al.name if al.asname else al.name.split('.')[0]))
                elif isinstance(n, ast.ImportFrom):
                    for al in n.names:
                        imps.setdefault(al.asname or al.name, set()).add(('from', m._absmod(n.level, n.module), al.name))
        for x in list(out):
            if x in stores or x in imps:
                del out[x]
        out.update({k: next(iter(v)) for k, v in imps.items() if k not in stores and len(v) == 1})
    return out


class Resolver:
    def __init__(self, repo):
        self.repo = repo
        self.cache = {}

    def scope(self, m, fns):
        k = (m.name, tuple(id(f) for f in fns))
        if k not in self.cache:
            imps = local_imports(m, fns)
            self.cache[k] = (local_names(fns), imps)
        return self.cache[k]

    def name(self, m, fns, nm):
        """What a name stands for; None if it is a local variable."""
        loc, imps = self.scope(m, fns)
        if nm in imps:
            return self.repo._resolve_import(imps[nm])
        if nm in loc:
            return None
        return self.repo.resolve_name(nm, m)

    def expr(self, m, fns, e):
        if isinstance(e, ast.Name):
            return self.name(m, fns, e.id)
        if isinstance(e, ast.Attribute):
            b = self.expr(m, fns, e.value)
            if isinstance(b, Module):
                r = self.repo.resolve_name(e.attr, b)
                return self.repo.modules.get(f"{b.name}.{e.attr}") if r is None else r
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', f"{b[1]}.{e.attr}")
            if isinstance(b, Class):
                r = b.find(e.attr)
                if r and r[1] == 'method':
                    return r[2]
        return None


# ---- module attributes ---------------------------------------------------

def submodules(repo, m):
    return {n[len(m.name) + 1:].split('.')[0] for n in repo.modules if n.startswith(m.name + '.')} if m.is_pkg else set()


def check_modules(repo, rep):
    names = {}
    for m in repo.modules.values():
        ns, open_ = module_names(repo, m)
        names[m.name] = None if open_ else ns | aliases_of(m) | submodules(repo, m)
    failed = {n for n, _ in repo.failed}
    R = Resolver(repo)
    for m in live(repo):
        if m.is_pyx:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                mod = m._absmod(n.level, n.module)
                if mod in repo.modules and names[mod] is not None:
                    for a in n.names:
                        if a.name != '*':
                            rep.count('imported names')
                            rep.check(a.name in names[mod] or f"{mod}.{a.name}" in repo.modules, site_key(m, '', a.name), f"{m.name} imports {a.name}, which {mod} does not define", f"{m.rel}:{n.lineno}")
                elif mod.split('.')[0] == 'dedalus' and mod not in failed:
                    # compiled modules without a parsed source have no names to compare
                    parts = os.path.join(repo.root, *mod.split('.'))
                    if not any(os.path.exists(parts + e) for e in ('.py', '.pyx', '')):
                        rep.violation(site_key(m, '', mod), f"{m.name} imports the module {mod}, which does not exist", f"{m.rel}:{n.lineno}")
        al = literal_all(m)
        for a in al or []:
            rep.check(names[m.name] is None or a in names[m.name], site_key(m, '', a), f"{m.name} exports {a}, which it does not define", m.rel)
        for cls, fns, qual, n in sites(m):
            if isinstance(n, ast.Attribute) and isinstance(n.value, (ast.Name, ast.Attribute)):
                root = n
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not isinstance(root, ast.Name):
                    continue
                t = R.expr(m, fns, n.value)
                if isinstance(t, Module) and not t.is_pyx and names[t.name] is not None and isinstance(n.ctx, ast.Load):
                    rep.count('module attributes')
                    rep.check(n.attr in names[t.name], site_key(m, qual, n.attr), f"{m.name}{qual} uses {ast.unparse(n)}, which {t.name} does not define", f"{m.rel}:{n.lineno}")


# ---- attributes ----------------------------------------------------------

class Attrs:
    def __init__(self, repo):
        self.repo = repo
        self.own = {}        # class -> attributes defined by its own body and methods
        self.stored = set()  # attributes stored on objects other than self
        self.dynamic = set()
        self.open = set()    # classes with unknown bases or __getattr__
        classes = list(repo.classes())
        for c in classes:
            s = set(c.attrs) | {n.split('.')[0] for n in c.methods}
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    s.add(st.target.id)
            for f in c.methods.values():
                a = f.node.args.posonlyargs + f.node.args.args
                me = {a[0].arg} if a and not f.has_deco('staticmethod') else set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        if isinstance(n.value, ast.Name) and n.value.id in me:
                            s.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            s.add(n.args[1].value)
                        else:
                            self.dynamic.add(c)
                    if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                        self.dynamic.add(c)
            self.own[c] = s
            for b in c.base_exprs:
                r = repo.resolve_expr(b, c.module)
                if not isinstance(r, Class) and not (isinstance(b, ast.Name) and b.id == 'object'):
                    self.open.add(c)
            if {'__getattr__', '__getattribute__'} & set(c.methods):
                self.open.add(c)
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        self.stored.add(n.attr)
        self.meta = {}
        for c in classes:
            for k in c.node.keywords:
                if k.arg == 'metaclass':
                    r = repo.resolve_expr(k.value, c.module)
                    self.meta[c] = r if isinstance(r, Class) else None
        self.subs = {c: repo.subclasses(c) for c in classes}

    def has(self, c, name):
        return any(name in self.own.get(k, ()) for k in c.mro())

    def unknown(self, c):
        return any(k in self.open for k in c.mro())

    def metaclass(self, c):
        for k in c.mro():
            if k in self.meta:
                return self.meta[k]
        return None


OBJ = set(dir(object)) | {'__dict__', '__name__', '__mro__', '__bases__', '__qualname__', '__subclasses__', 'mro', '__module__', '__weakref__'}


def runs_on(A, c, f):
    """Concrete classes whose instances run method f of class c: those that inherit it, or a class that calls it through super."""
    return A.subs[c]


def selves(fn, me):
    """Names of a method that always stand for its first parameter."""
    stores = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
    out = {me}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == me and me not in stores:
            out |= {t.id for t in n.targets if isinstance(t, ast.Name) and stores[t.id] == 1}
    return out


def check_attrs(repo, rep, A):
    mods = live(repo)
    for c in repo.classes():
        m = c.module
        if m.is_pyx or m not in mods:
            continue
        for f in c.methods.values():
            a = f.node.args.posonlyargs + f.node.args.args
            if not a or f.has_deco('staticmethod'):
                continue
            me = a[0].arg
            is_cls = f.has_deco('classmethod') or f.name in ('__new__', '__init_subclass__') or me == 'cls'
            # names tested before they are used
            tested = {n.args[1].value for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'setattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
            guarded = {x.attr for n in ast.walk(f.node) if isinstance(n, ast.Try) and any(h.type is None or 'AttributeError' in ast.unparse(h.type) for h in n.handlers) for b in n.body for x in ast.walk(b) if isinstance(x, ast.Attribute)}
            rebound = any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))
            if rebound:
                continue
            cands = runs_on(A, c, f)
            mine = selves(f.node, me)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in mine and isinstance(n.ctx, ast.Load):
                    rep.count('attributes of self')
                    nm = n.attr
                    if nm in OBJ or nm in tested or nm in guarded or (nm.startswith('__') and not nm.endswith('__')):
                        continue
                    ok = any(A.has(k, nm) or A.unknown(k) for k in cands)
                    if not ok:
                        # metaclass attributes, and attributes stored from outside
                        mc = A.metaclass(c)
                        ok = nm in A.stored or (is_cls and (mc is None and any(k in A.meta for k in c.mro()) or mc is not None and (A.has(mc, nm) or A.unknown(mc) and nm == 'mro')))
                        ok = ok or any(k in A.dynamic and not is_cls for k in c.mro() if k.name in ('Handler',))
                    rep.check(ok, site_key(m, c.name, nm), f"{c.name}.{f.name} uses {me}.{nm}, which no instance it runs on defines", f"{m.rel}:{n.lineno}")


# ---- calls ---------------------------------------------------------------

def binds(fn, call, bound):
    """None, or why the call cannot bind to the function (bound: leading parameters supplied implicitly)."""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][bound:]
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(not isinstance(x, ast.Starred) for x in call.args)
    if npos > len(pos) and not a.vararg:
        return f"takes {len(pos)} positional arguments, not {npos}"
    posonly = max(0, len(a.posonlyargs) - bound)
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in pos[posonly:] or k.arg in kwonly:
            if k.arg in pos and pos.index(k.arg) < npos and not star:
                return f"receives {k.arg} twice"
        elif not a.kwarg:
            return f"has no parameter {k.arg}"
    if star or dstar:
        given = {k.arg for k in call.keywords if k.arg}
        if not dstar:
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and x.arg not in given:
                    return f"needs the argument {x.arg}"
        return None
    given = set(pos[:npos]) | {k.arg for k in call.keywords}
    nodef = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    for p in nodef:
        if p not in given:
            return f"needs the argument {p}"
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return f"needs the argument {x.arg}"
    return None


def known_decos(f):
    return all(d.split('(')[0].split('.')[-1] in KEEP for d in f.decorators)


def fits(f, call, via):
    """via: 'instance', 'class' or 'plain'; None if it fits or is unknown."""
    if not known_decos(f):
        return None
    if f.has_deco('property', 'CachedAttribute'):
        return None
    if f.has_deco('staticmethod') or f.cls is None:
        b = 0
    elif f.has_deco('classmethod'):
        b = 1
    else:
        b = 1 if via == 'instance' else 0
    if f.name == '__new__':
        b = 1
    return binds(f.node, call, b)


def ctor(A, c, call):
    """Why instances of the class cannot be built by the call; None if they can."""
    if A.unknown(c):
        return None
    meta = A.metaclass(c)
    if any(k in A.meta for k in c.mro()) and (meta is None or any(x.name == 'MultiClass' for x in meta.mro())):
        cands = A.subs[c]
    else:
        cands = [c]
    why = None
    for k in cands:
        init, new = k.method('__init__'), k.method('__new__')
        w = None
        if init is not None:
            w = fits(init, call, 'instance')
        elif new is None and (call.args or call.keywords) and not any(isinstance(x, ast.Starred) for x in call.args):
            w = "takes no arguments"
        if w is None and new is not None:
            w = fits(new, call, 'class')
        if w is None:
            return None
        why = f"{k.name} {w}"
    for name in dispatch_hooks(meta):
        pre = c.method(name)
        if pre is not None and fits(pre, call, 'class') is None:
            return None
    return why


def dispatch_hooks(meta):
    """Methods that the metaclass calls on the class with the arguments of the construction."""
    call = meta.method('__call__') if meta is not None else None
    if call is None:
        return []
    return [n.func.attr for n in ast.walk(call.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and any(isinstance(a, ast.Starred) for a in n.args)]


def external_methods():
    import builtins
    import collections
    out = set()
    ts = [getattr(builtins, n) for n in dir(builtins)]
    ts += [collections.OrderedDict, collections.defaultdict, collections.deque, collections.Counter]
    import cProfile
    import pstats
    ts += [cProfile.Profile, pstats.Stats]
    import logging
    import pathlib
    import threading
    import datetime
    import io
    import multiprocessing
    import subprocess
    ts += [logging.Logger, pathlib.Path, threading.Thread, logging, io.TextIOWrapper, datetime.datetime, datetime.timedelta, subprocess.Popen, subprocess.CompletedProcess, re.Match, re.Pattern,
           type(threading.Lock()), threading.Event, type(re.finditer('', ''))]
    import numpy
    import scipy.sparse
    import scipy.sparse.linalg
    ts += [numpy, numpy.ndarray, numpy.random, numpy.random.Generator, numpy.dtype, numpy.linalg, numpy.fft, scipy.sparse, scipy.sparse.linalg]
    ts += [getattr(scipy.sparse, n) for n in dir(scipy.sparse)] + [getattr(scipy.sparse.linalg, n) for n in dir(scipy.sparse.linalg)]
    for t in ts:
        if isinstance(t, type) or t.__class__.__name__ == 'module':
            out |= set(dir(t))
    # plotting, files, communicators and the like
    out |= {'create', 'create_group', 'create_dataset', 'require_group', 'close', 'send', 'recv', 'bcast', 'scatter', 'gather', 'Gather', 'barrier', 'plot', 'set_data', 'set_title', 'add_axes', 'update', 'step', 'evaluate_at', 'solve', 'result', 'start', 'stop', 'run', 'wait', 'submit', 'execute', 'resize', 'write', 'keys', 'build'}
    return out


def check_calls(repo, rep, A):
    R = Resolver(repo)
    ext = external_methods()
    defs = {}
    for c in repo.classes():
        for n, f in c.methods.items():
            defs.setdefault(n, []).append(f)
    # names which are also set to other values are not determined by the definitions
    values = set(A.stored)
    for c in repo.classes():
        values |= {x for x in A.own[c] if x not in c.methods}
    for m in repo.modules.values():
        for n in m.funcs:
            defs.setdefault(n, []).append(m.funcs[n])
        if not m.is_pyx:
            values |= set(m.globals)
    for m in live(repo):
        if m.is_pyx:
            continue
        for cls, fns, qual, n in sites(m):
            if not isinstance(n, ast.Call):
                continue
            loc = f"{m.rel}:{n.lineno}"
            where = f"{m.name}{qual}"
            f = n.func
            key = site_key(m, qual, ast.unparse(f).split('.')[-1])
            meth = next((x for x in reversed(fns) if cls is not None and cls.methods.get(getattr(x, 'name', None)) and cls.methods[x.name].node is x), None)
            me = None
            if meth is not None:
                mf = cls.methods[meth.name]
                ps = meth.args.posonlyargs + meth.args.args
                if ps and not mf.has_deco('staticmethod'):
                    me = ps[0].arg
            # a name
            if isinstance(f, ast.Name):
                t = R.name(m, fns, f.id)
                judge(rep, A, t, n, key, where, loc)
                continue
            if not isinstance(f, ast.Attribute):
                continue
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None:
                if v.args:
                    continue
                todo = [(k, next((b.methods[f.attr] for b in k.mro()[k.mro().index(cls) + 1:] if f.attr in b.methods), None), any(b in A.open for b in k.mro()[k.mro().index(cls):])) for k in A.subs[cls]]
                missing = [k for k, g, o in todo if g is None and not o]
                rep.count('super calls')
                if f.attr not in OBJ and len(missing) == len(todo):
                    rep.violation(key, f"{where} calls super().{f.attr}, which no base class defines", loc)
                    continue
                whys = [(k, fits(g, n, 'instance' if meth is None or not (cls.methods[meth.name].has_deco('classmethod') or meth.name == '__new__') else 'class')) for k, g, o in todo if g is not None]
                bad = [x for x in whys if x[1]]
                rep.check(not bad or len(bad) < len(whys) and cls is not bad[0][0], key, f"{where} calls super().{f.attr} of {bad[0][0].name if bad else ''}, which {bad[0][1] if bad else ''}", loc)
                continue
            if isinstance(v, ast.Name) and me is not None and v.id in selves(meth, me):
                rep.count('method calls')
                via = 'class' if cls.methods[meth.name].has_deco('classmethod') or me == 'cls' or meth.name == '__new__' else 'instance'
                bad = None
                for k in A.subs[cls]:
                    # classes that override the calling method run it only through super
                    if k.method(meth.name) is not cls.methods[meth.name]:
                        continue
                    if A.unknown(k) or any(f.attr in A.own.get(b, ()) and f.attr not in b.methods for b in k.mro()):
                        continue
                    g = k.method(f.attr)
                    if g is None:
                        continue
                    # an abstract class, whose method only raises, has no signature to respect
                    w = fits(g, n, via)
                    if w and not only_raises(g) and not dead(A, k, selves(meth, me), meth, n):
                        bad = (k, w)
                        break
                rep.check(bad is None, key, f"{where} calls {ast.unparse(f)}, which in {bad[0].name if bad else ''} {bad[1] if bad else ''}", loc)
                continue
            root = v
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name):
                t = R.expr(m, fns, f)
                base = R.expr(m, fns, v)
                if isinstance(base, (Class, Module)):
                    if isinstance(base, Class):
                        if base.find(f.attr) is None and not A.unknown(base) and f.attr not in OBJ and not A.has(base, f.attr):
                            mc = A.metaclass(base)
                            rep.check(mc is not None and A.has(mc, f.attr) or f.attr in ('mro',), key, f"{where} calls {ast.unparse(f)}, which {base.name} does not define", loc)
                        elif isinstance(t, Func):
                            w = fits(t, n, 'class')
                            rep.check(w is None, key, f"{where} calls {ast.unparse(f)}, which {w}", loc)
                        continue
                    judge(rep, A, t, n, key, where, loc)
                    continue
                if isinstance(base, tuple) and base[0] == 'ext':
                    continue
            # a method name that only the package defines
            if f.attr in defs and f.attr not in ext and f.attr not in values and not f.attr.startswith('__'):
                rep.count('calls by method name')
                ws = [fits(g, n, 'instance') if not only_raises(g) else 'is not implemented' for g in defs[f.attr]]
                if all(ws):
                    # called through the class, with the instance as an argument
                    ws = [fits(g, n, 'class') for g in defs[f.attr]] if isinstance(v, (ast.Name, ast.Attribute)) and ast.unparse(v).split('.')[-1][:1].isupper() else ws
                rep.check(not all(ws), key, f"{where} calls {ast.unparse(f)[:60]}; every method of this name refuses the arguments: it {ws[0]}", loc)
                if not all(ws):
                    continue
        rep.count('modules')


def only_raises(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, ast.Raise) or isinstance(s, ast.Pass) for s in body)


class Unknown(Exception):
    pass


def static(A, k, me, e):
    """Value of an expression over the class attributes of k."""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in me:
        if e.attr in A.stored or any(e.attr in instance_stores(b) for b in k.mro()):
            raise Unknown
        r = k.find(e.attr)
        if r is None or r[1] != 'attr' or not isinstance(r[2], ast.Assign):
            raise Unknown
        try:
            return ast.literal_eval(r[2].value)
        except ValueError:
            raise Unknown
    if isinstance(e, ast.Subscript):
        try:
            return static(A, k, me, e.value)[static(A, k, me, e.slice)]
        except (TypeError, IndexError, KeyError):
            raise Unknown
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not static(A, k, me, e.operand)
    raise Unknown


def instance_stores(c):
    if not hasattr(c, 'n01_stores'):
        c.n01_stores = {n.attr for f in c.methods.values() for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return c.n01_stores


def dead(A, k, me, fn, node):
    """The node lies in a branch that the class attributes of k exclude."""
    for n in ast.walk(fn):
        if not isinstance(n, (ast.If, ast.IfExp)):
            continue
        for part, val in ((n.body, True), (n.orelse, False)):
            part = part if isinstance(part, list) else [part]
            if any(x is node for p in part for x in ast.walk(p)):
                try:
                    if bool(static(A, k, me, n.test)) != val:
                        return True
                except Unknown:
                    pass
    return False


def judge(rep, A, t, call, key, where, loc):
    if isinstance(t, Func):
        rep.count('function calls')
        w = fits(t, call, 'plain') if not t.decorators or known_decos(t) else None
        rep.check(w is None, key, f"{where} calls {t.name}, which {w}", loc)
    elif isinstance(t, Class):
        rep.count('constructions')
        w = ctor(A, t, call)
        rep.check(w is None, key, f"{where} constructs {t.name}; {w}", loc)


# ---- attributes nothing defines ------------------------------------------

# methods of plots, files and communicators that the package uses
LIBS = '''Allreduce Barrier Bcast Create_cart Get_coords Sub allreduce add_artist add_subplot attach_scale create_scale create_virtual_dataset extractall gca get_figheight get_figwidth get_position
height width id is_virtual iter_chunks make_scale maxshape move mpi offsets outline pcolormesh select_hyperslab set_bad set_clim set_dxpl_mpio set_label_position set_ticks_position set_visible
set_xlabel set_ylabel subplots_adjust tick_params transformed xaxis yaxis rank size Get_rank Get_size Split Scatter Allgather allgather Alltoallv Alltoall Reduce reduce Free Dup barrier
indptr indices nnz rank dims attrs track_order Get_topo Shift exscan scan Wtime'''.split()


def check_unknown(repo, rep, A):
    import configparser
    import hashlib
    import inspect
    import numpy
    import types
    ext = external_methods() | set(LIBS)
    for t in (configparser.ConfigParser, configparser.SectionProxy, inspect.Signature, inspect.BoundArguments, inspect.Parameter, types.FunctionType, types.ModuleType, types.MethodType,
              numpy.finfo, numpy.iinfo, type(hashlib.sha1()), numpy.nditer, numpy.ufunc, BaseException, OSError, ImportError):
        ext |= set(dir(t))
    import logging
    ext |= set(dir(logging.StreamHandler)) | set(dir(numpy.finfo(float)))
    # installed libraries, by the text of their sources
    words = re.compile(r'\b[A-Za-z_]\w*')
    import glob
    for lib in ('h5py', 'mpi4py'):
        for p in glob.glob(f'/opt/venv/lib/python3*/site-packages/{lib}/**/*.py*', recursive=True):
            if p.endswith(('.py', '.pyi')) and '/tests/' not in p:
                with open(p, encoding='utf-8', errors='replace') as f:
                    ext |= {w.split()[-1] for w in re.findall(r'(?:def|class)\s+\w+', f.read())}
    known = set(A.stored)
    pats = set()
    for c in repo.classes():
        known |= A.own[c]
    for m in repo.modules.values():
        known |= set(m.funcs) | set(m.classes) | set(m.globals) | set(m.imports) | aliases_of(m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    known.add(n.args[1].value)
        for q, f in all_functions(m):
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and not isinstance(n.args[1], ast.Constant) for n in ast.walk(f)):
                # computed names hold some text of the function
                pats |= {y for x in ast.walk(f) if isinstance(x, ast.Constant) and isinstance(x.value, str) for y in re.split(r'\{[^}]*\}|%s|\W+', x.value) if len(y) > 2}
    pats = {p for p in pats if p.startswith('_') or p.endswith('_')} | {p for p in pats if '_' + p in known}
    R = Resolver(repo)
    for m in live(repo):
        if m.is_pyx:
            continue
        for cls, fns, qual, n in sites(m):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'hasattr') and len(n.args) == 2 and isinstance(n.args[1], ast.Constant):
                a = n.args[1].value
                rep.count('attributes by name')
                rep.check(a in known or a in ext or a.startswith('__') or any(p in a for p in pats), site_key(m, qual, a), f"{m.name}{qual} tests {ast.unparse(n)[:60]}; nothing defines the attribute {a}", f"{m.rel}:{n.lineno}")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                b = R.expr(m, fns, n.value)
                if isinstance(b, tuple) and b[0] == 'ext':
                    continue
                rep.count('attribute loads')
                ok = n.attr in known or n.attr in ext or n.attr.startswith('__') or any(p in n.attr for p in pats)
                rep.check(ok, site_key(m, qual, n.attr), f"{m.name}{qual} uses {ast.unparse(n)[:60]}; nothing defines the attribute {n.attr}", f"{m.rel}:{n.lineno}")


# ---- configuration -------------------------------------------------------

GET = ('get', 'getint', 'getfloat', 'getboolean')


def check_config(repo, rep):
    p = os.path.join(repo.root, 'dedalus', 'dedalus.cfg')
    if not os.path.exists(p):
        raise AnalysisBroken('dedalus.cfg not found')
    cfg = configparser.ConfigParser()
    cfg.optionxform = str.lower
    cfg.read(p)
    for m in live(repo):
        for cls, fns, qual, n in sites(m):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == 'config' and isinstance(n.slice, ast.Constant):
                rep.count('configuration sections')
                rep.check(n.slice.value in cfg, site_key(m, qual, f"{n.slice.value}"), f"{m.name}{qual} reads the configuration section {n.slice.value}, which dedalus.cfg does not have", f"{m.rel}:{n.lineno}")
        for cls, fns, qual, n in sites(m):
            key = sec = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GET:
                v = n.func.value
                if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and v.value.id == 'config' and isinstance(v.slice, ast.Constant) and n.args and isinstance(n.args[0], ast.Constant):
                    sec, key = v.slice.value, n.args[0].value
                elif isinstance(v, ast.Name) and v.id == 'config' and len(n.args) > 1 and all(isinstance(a, ast.Constant) for a in n.args[:2]):
                    sec, key = n.args[0].value, n.args[1].value
                if key is not None and any(k.arg == 'fallback' for k in n.keywords):
                    continue
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id == 'config' and isinstance(n.slice, ast.Constant):
                sec, key = n.value.slice.value, n.slice.value
            if key is None or sec not in cfg:
                continue
            rep.count('configuration keys')
            ok = str(key).lower() in cfg[sec]
            rep.check(ok, site_key(m, qual, f"{sec}.{key}"), f"{m.name}{qual} reads {sec}.{key}, which dedalus.cfg does not set", f"{m.rel}:{n.lineno}")
            if ok and isinstance(n, ast.Call) and n.func.attr in ('getint', 'getfloat', 'getboolean'):
                try:
                    getattr(cfg[sec], n.func.attr)(key)
                except ValueError:
                    rep.violation(site_key(m, qual, f"{sec}.{key} type"), f"{m.name}{qual} reads {sec}.{key} by {n.func.attr}, which its default is not", f"{m.rel}:{n.lineno}")


def run(repo, rep):
    check_modules(repo, rep)
    A = Attrs(repo)
    check_attrs(repo, rep, A)
    check_calls(repo, rep, A)
    check_unknown(repo, rep, A)
    check_config(repo, rep)
