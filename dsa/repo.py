"""Loader: parses every source module of /repo and resolves names, imports and classes.

Only the text of the source files is read.  Cython sources are lowered to
Python syntax by `pyx.py` so that the same analyses apply to them.
"""
import ast
import os
import hashlib

from . import pyx

REPO = os.environ.get('DSA_REPO', '/repo')
PKG = 'dedalus'


class AnalysisBroken(Exception):
    """An anchor the analysis needs is missing: the run is an error, not a pass."""


class Func:
    """A function/method definition (or lambda) found in the source."""
    def __init__(self, node, module, qualname, cls=None):
        self.node = node
        self.module = module
        self.qualname = qualname
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.decorators = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]

    @property
    def fq(self):
        return f"{self.module.name}.{self.qualname}"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def has_deco(self, *names):
        for d in self.decorators:
            base = d.split('(')[0].split('.')[-1]
            if base in names:
                return True
        return False

    def __repr__(self):
        return f"<Func {self.fq}>"


class Class:
    def __init__(self, node, module, qualname):
        self.node = node
        self.module = module
        self.name = node.name
        self.qualname = qualname
        self.methods = {}
        self.attrs = {}         # class attribute name -> ast expr (last wins)
        self.attr_order = []
        self.base_exprs = node.bases
        self.bases = []
        self._mro = None
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def fq(self):
        return f"{self.module.name}.{self.qualname}"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def mro(self):
        if self._mro is None:
            try:
                self._mro = _c3(self)
            except RecursionError:
                self._mro = [self]
        return self._mro

    def find(self, name):
        """Resolve attribute through the MRO: returns (class, kind, value)."""
        for c in self.mro():
            if name in c.methods:
                return c, 'method', c.methods[name]
            if name in c.attrs:
                return c, 'attr', c.attrs[name]
        return None

    def method(self, name):
        r = self.find(name)
        if r and r[1] == 'method':
            return r[2]
        return None

    def issub(self, other):
        if isinstance(other, Class):
            return other in self.mro()
        return any(c.name == other or c.fq == other for c in self.mro())

    def __repr__(self):
        return f"<Class {self.fq}>"


def _c3(cls):
    seqs = [list(b.mro()) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            # inconsistent: fall back to depth first
            cand = seqs[0][0]
        out.append(cand)
        for s in seqs:
            while cand in s:
                s.remove(cand)


class Module:
    def __init__(self, name, path, repo):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, repo.root)
        self.repo = repo
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        text = self.source
        self.is_pyx = path.endswith('.pyx')
        if self.is_pyx:
            text = pyx.lower(text)
        self.text = text
        self.tree = ast.parse(text)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> ('module', name) | ('from', module, attr)
        self.star = []
        self.globals = {}     # name -> list of ast value exprs
        self.global_order = []
        self.all_funcs = []
        self._collect(self.tree.body)

    def _absmod(self, level, modname):
        if level == 0:
            return modname
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        if modname:
            parts = parts + modname.split('.')
        return '.'.join(parts)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = Func(st, self, st.name)
                self.funcs[st.name] = fn
                self.global_order.append((st.name, st))
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = self._class(st, st.name)
                self.global_order.append((st.name, st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ('module', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = self._absmod(st.level, st.module)
                for a in st.names:
                    if a.name == '*':
                        self.star.append(mod)
                    else:
                        self.imports[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.globals.setdefault(n.id, []).append(st)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(st, fld, []) or [])
                for h in getattr(st, 'handlers', []) or []:
                    self._collect(h.body)
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            self.globals.setdefault(n.id, []).append(st)
                if isinstance(st, ast.With):
                    for it in st.items:
                        if it.optional_vars is not None:
                            for n in ast.walk(it.optional_vars):
                                if isinstance(n, ast.Name):
                                    self.globals.setdefault(n.id, []).append(st)

    def _class(self, node, qualname):
        c = Class(node, self, qualname)
        for st in node.body:
            self._class_stmt(c, st, qualname)
        return c

    def _class_stmt(self, c, st, qualname):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = Func(st, self, f"{qualname}.{st.name}", c)
            if any(d.endswith('.setter') for d in fn.decorators):
                c.methods[st.name + '.setter'] = fn
            else:
                c.methods[st.name] = fn
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        c.attrs[n.id] = st
                        c.attr_order.append((n.id, st))
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            c.attrs[st.target.id] = st
            c.attr_order.append((st.target.id, st))
        elif isinstance(st, ast.ClassDef):
            c.attrs[st.name] = st
        elif isinstance(st, (ast.If, ast.For, ast.With, ast.Try)):
            for fld in ('body', 'orelse', 'finalbody'):
                for s2 in getattr(st, fld, []) or []:
                    self._class_stmt(c, s2, qualname)

    def functions(self):
        """Every function in the module, nested ones included, as Func objects."""
        out = []
        for f in self.funcs.values():
            out.append(f)
        for c in self.classes.values():
            out.extend(c.methods.values())
        return out


class Repo:
    def __init__(self, root=None, include_tests=False):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package directory {base}")
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            rel = os.path.relpath(d, self.root).split(os.sep)
            if '__pycache__' in rel or 'tests' in rel or 'tests_parallel' in rel:
                continue
            for f in sorted(files):
                if not f.endswith(('.py', '.pyx')):
                    continue
                stem = f.rsplit('.', 1)[0]
                parts = rel + ([] if stem == '__init__' else [stem])
                name = '.'.join(parts)
                path = os.path.join(d, f)
                try:
                    self.modules[name] = Module(name, path, self)
                except SyntaxError as e:
                    if f.endswith('.pyx'):
                        self.modules.setdefault('__failed__', []) if False else None
                        self.failed = getattr(self, 'failed', []) + [(name, str(e))]
                    else:
                        raise AnalysisBroken(f"cannot parse {path}: {e}")
        self.failed = getattr(self, 'failed', [])
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_expr(b, m)
                    if isinstance(r, Class):
                        c.bases.append(r)

    # ---- resolution -------------------------------------------------------
    def resolve_name(self, name, module, _depth=0):
        """Resolve a module-level name to Func/Class/Module/('ext', dotted)/('global', module, name)/None."""
        if _depth > 12:
            return None
        if name in module.imports and name not in module.funcs and name not in module.classes:
            return self._resolve_import(module.imports[name], _depth)
        if name in module.classes:
            return module.classes[name]
        if name in module.funcs:
            return module.funcs[name]
        if name in module.globals:
            return ('global', module, name)
        for s in module.star:
            if s in self.modules:
                r = self.resolve_name(name, self.modules[s], _depth + 1)
                if r is not None:
                    return r
        return None

    def _resolve_import(self, imp, depth=0):
        if imp[0] == 'module':
            return self.modules.get(imp[1]) or ('ext', imp[1])
        _, mod, attr = imp
        if mod in self.modules:
            r = self.resolve_name(attr, self.modules[mod], depth + 1)
            if r is not None:
                return r
            sub = f"{mod}.{attr}"
            if sub in self.modules:
                return self.modules[sub]
            return ('missing', mod, attr)
        sub = f"{mod}.{attr}"
        if sub in self.modules:
            return self.modules[sub]
        return ('ext', sub)

    def resolve_expr(self, node, module):
        if isinstance(node, ast.Name):
            return self.resolve_name(node.id, module)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(node.value, module)
            if isinstance(b, Module):
                r = self.resolve_name(node.attr, b)
                if r is None and f"{b.name}.{node.attr}" in self.modules:
                    return self.modules[f"{b.name}.{node.attr}"]
                return r
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', f"{b[1]}.{node.attr}")
            if isinstance(b, Class):
                r = b.find(node.attr)
                if r and r[1] == 'method':
                    return r[2]
        return None

    # ---- lookup helpers ---------------------------------------------------
    def module(self, name):
        full = f"{PKG}.{name}" if not name.startswith(PKG) else name
        if full not in self.modules:
            raise AnalysisBroken(f"module {full} not found")
        return self.modules[full]

    def cls(self, modname, cname):
        m = self.module(modname)
        if cname not in m.classes:
            raise AnalysisBroken(f"class {cname} not found in {m.name}")
        return m.classes[cname]

    def func(self, modname, fname):
        m = self.module(modname)
        if fname not in m.funcs:
            raise AnalysisBroken(f"function {fname} not found in {m.name}")
        return m.funcs[fname]

    def method(self, modname, cname, mname):
        f = self.cls(modname, cname).method(mname)
        if f is None:
            raise AnalysisBroken(f"method {cname}.{mname} not found in {modname}")
        return f

    def classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def subclasses(self, cls, strict=False):
        return [c for c in self.classes() if cls in c.mro() and not (strict and c is cls)]

    def functions(self):
        for m in self.modules.values():
            yield from m.functions()

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].source.encode())
        return h.hexdigest()
