"""Interprocedural effect analysis: which parameters' array data may a function modify.

Flow-insensitive alias sets inside each function (views, slices, reshapes and
functions returning a view of a parameter), fixed point over calls resolved by
name.  Attribute calls are resolved to every repository method of that name.
"""
import ast
from .repo import Func, Class

VIEW_METHODS = {'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'real', 'imag', 'T', 'data', 'flat', 'astype_view'}
VIEW_FUNCS = {'reshape', 'ravel', 'asarray', 'transpose', 'moveaxis', 'swapaxes', 'squeeze', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'rollaxis', 'asfortranarray', 'ascontiguousarray'}
MUT_METHODS = {'fill', 'sort', 'put', 'partition', 'resize', 'itemset', 'setfield'}
UFUNC_OUT = {'power': 2, 'multiply': 2, 'add': 2, 'subtract': 2, 'divide': 2, 'true_divide': 2, 'maximum': 2, 'minimum': 2,
             'negative': 1, 'conjugate': 1, 'conj': 1, 'sqrt': 1, 'exp': 1, 'absolute': 1, 'abs': 1, 'sign': 1, 'square': 1}
# attribute names too generic to resolve by name alone
GENERIC = {'append', 'extend', 'get', 'items', 'keys', 'values', 'copy', 'update', 'pop', 'format', 'join', 'split', 'index', 'index', 'sum', 'dot', 'any', 'all', 'max', 'min', 'tolist', 'tocsr', 'toarray', 'write', 'read', 'close', 'info', 'debug', 'warning', 'Bcast_', 'create_dataset'}
MPI_RECV = {'Bcast': (0,), 'Recv': (0,), 'Allreduce': (1,), 'Reduce': (1,), 'Alltoallv': (1,), 'Gather': (1,), 'Allgather': (1,), 'Scatter': (1,)}


class Effects:
    def __init__(self, repo):
        self.repo = repo
        self.funcs = []
        seen = set()
        for f in repo.functions():
            if id(f.node) not in seen:
                seen.add(id(f.node))
                self.funcs.append(f)
        self.by_method = {}
        for f in self.funcs:
            if f.cls is not None:
                self.by_method.setdefault(f.name, []).append(f)
        self.mut = {id(f.node): set() for f in self.funcs}     # mutated parameter names
        self.ret = {id(f.node): set() for f in self.funcs}     # parameters the result may alias
        self.why = {}
        self._fix()

    def _fix(self):
        changed = True
        n = 0
        while changed and n < 12:
            changed = False
            n += 1
            for f in self.funcs:
                m, r = self._analyse(f)
                k = id(f.node)
                if not m <= self.mut[k] or not r <= self.ret[k]:
                    self.mut[k] |= m
                    self.ret[k] |= r
                    changed = True

    def mutated(self, func):
        return self.mut.get(id(func.node), set())

    def targets(self, call, f):
        """Repository functions a call may reach."""
        fn = call.func
        if isinstance(fn, ast.Name):
            r = self.repo.resolve_name(fn.id, f.module)
            if isinstance(r, Func):
                return [r], 0
            if isinstance(r, Class):
                m = r.method('__init__')
                return ([m], 1) if m else ([], 0)
            return [], 0
        if isinstance(fn, ast.Attribute):
            r = self.repo.resolve_expr(fn, f.module)
            if isinstance(r, Func):
                off = 0
                return [r], off
            if isinstance(r, tuple):
                return [], 0
            if fn.attr in GENERIC:
                return [], 0
            if isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and f.cls is not None:
                ms = []
                for c in self.repo.subclasses(f.cls) + f.cls.mro():
                    m = c.methods.get(fn.attr)
                    if m is not None and m not in ms:
                        ms.append(m)
                if ms:
                    return ms, 1
            ms = self.by_method.get(fn.attr, [])
            return ms, 1
        return [], 0

    def _analyse(self, f):
        node = f.node
        params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        alias = {p: {p} for p in params}
        mut, ret = set(), set()
        body = node.body if isinstance(node.body, list) else [node.body]

        def al(e):
            if isinstance(e, ast.Name):
                return alias.get(e.id, set())
            if isinstance(e, ast.Subscript):
                return al(e.value)
            if isinstance(e, ast.Attribute):
                if e.attr in VIEW_METHODS:
                    return al(e.value)
                return set()
            if isinstance(e, ast.Starred):
                return al(e.value)
            if isinstance(e, (ast.Tuple, ast.List)):
                s = set()
                for x in e.elts:
                    s |= al(x)
                return s
            if isinstance(e, ast.IfExp):
                return al(e.body) | al(e.orelse)
            if isinstance(e, ast.BoolOp):
                s = set()
                for x in e.values:
                    s |= al(x)
                return s
            if isinstance(e, ast.NamedExpr):
                return al(e.value)
            if isinstance(e, ast.Call):
                fn = e.func
                if isinstance(fn, ast.Attribute):
                    ext = self.repo.resolve_expr(fn, f.module)
                    if isinstance(ext, tuple) and ext[0] == 'ext':
                        if fn.attr in VIEW_FUNCS and e.args:
                            return al(e.args[0])
                        return set()
                    if fn.attr in VIEW_METHODS:
                        return al(fn.value)
                s = set()
                ts, off = self.targets(e, f)
                for t in ts:
                    rets = self.ret.get(id(t.node), set())
                    if rets:
                        ps = t.params()[off:] if off and t.cls is not None and not t.has_deco('staticmethod') else t.params()
                        for p, a in zip(ps, e.args):
                            if p in rets:
                                s |= al(a)
                        for k in e.keywords:
                            if k.arg in rets:
                                s |= al(k.value)
                return s
            return set()

        def bind(t, s):
            if isinstance(t, ast.Name):
                if s - alias.get(t.id, set()):
                    alias[t.id] = alias.get(t.id, set()) | s
                    return True
            elif isinstance(t, (ast.Tuple, ast.List)):
                return any([bind(x, s) for x in t.elts])
            elif isinstance(t, ast.Starred):
                return bind(t.value, s)
            return False

        own = []
        todo = list(body)
        while todo:
            n = todo.pop()
            own.append(n)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        for _ in range(4):
            ch = False
            for n in own:
                if isinstance(n, ast.Assign):
                    # element-wise unpacking
                    for t in n.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                            for a, b in zip(t.elts, n.value.elts):
                                ch |= bind(a, al(b))
                        else:
                            ch |= bind(t, al(n.value))
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    ch |= bind(n.target, al(n.value))
                elif isinstance(n, ast.NamedExpr):
                    ch |= bind(n.target, al(n.value))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    it = n.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('zip', 'enumerate', 'reversed', 'list', 'sorted'):
                        s = set()
                        for a in it.args:
                            s |= al(a)
                        ch |= bind(n.target, s)
                    else:
                        ch |= bind(n.target, al(it))
            if not ch:
                break

        def hit(s, n, how):
            for p in s:
                mut.add(p)
                self.why.setdefault((id(node), p), f"{f.module.rel}:{getattr(n, 'lineno', node.lineno)} {how}")

        def stores(t, n):
            if isinstance(t, ast.Subscript):
                hit(al(t.value), n, 'element assignment')
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    stores(x, n)

        for n in own:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    stores(t, n)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Subscript):
                    hit(al(n.target.value), n, 'in-place element operation')
                elif isinstance(n.target, ast.Name):
                    hit(al(n.target), n, 'in-place operation')
            elif isinstance(n, ast.Return) and n.value is not None:
                ret |= al(n.value)
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == 'out':
                        hit(al(k.value), n, 'out= argument')
                fn = n.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else (fn.id if isinstance(fn, ast.Name) else None)
                if nm == 'copyto' and n.args:
                    hit(al(n.args[0]), n, 'copyto destination')
                if isinstance(fn, ast.Attribute):
                    if nm in MUT_METHODS:
                        hit(al(fn.value), n, f'.{nm}()')
                    if nm in UFUNC_OUT and len(n.args) > UFUNC_OUT[nm]:
                        hit(al(n.args[UFUNC_OUT[nm]]), n, 'ufunc output')
                    if nm in MPI_RECV:
                        for i in MPI_RECV[nm]:
                            if i < len(n.args):
                                hit(al(n.args[i]), n, f'{nm} receive buffer')
                ts, off = self.targets(n, f)
                for t in ts:
                    muts = self.mut.get(id(t.node), set())
                    if not muts:
                        continue
                    ps = t.params()
                    if off and t.cls is not None and not t.has_deco('staticmethod'):
                        ps = ps[1:]
                    for i, a in enumerate(n.args):
                        if isinstance(a, ast.Starred):
                            if set(ps[i:]) & muts:
                                hit(al(a), n, f'call of {t.qualname}')
                            break
                        if i < len(ps) and ps[i] in muts:
                            hit(al(a), n, f'call of {t.qualname}')
                    for k in n.keywords:
                        if k.arg in muts:
                            hit(al(k.value), n, f'call of {t.qualname}')
        return mut, ret
