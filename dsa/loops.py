"""Loop-nest summarisation for array kernels (lowered Cython or Python).

A kernel is summarised as the set of array cells it defines, each with a closed
form over symbolic loop iterators, loads of input arrays and sums over loops
(induction-variable and reduction recognition).  Loops are never unrolled.
"""
import ast
import sympy

LSUM = sympy.Function('LSUM')


class Unsupported(Exception):
    pass


class Arr:
    def __init__(self, name, ndim=None, shape=None):
        self.name, self.ndim, self.shape = name, ndim, shape

    def dim(self, i):
        if self.shape is not None and i < len(self.shape):
            return self.shape[i]
        return sympy.Symbol(f'{self.name}_shape{i}', integer=True, nonnegative=True)


class Shape:
    def __init__(self, arr):
        self.arr = arr


class Loop:
    def __init__(self, sym, lo, hi, step, parallel):
        self.sym, self.lo, self.hi, self.step, self.parallel = sym, lo, hi, step, parallel

    def __repr__(self):
        return f"{self.sym} in [{self.lo}, {self.hi}) step {self.step}"


def load(name, subs):
    return sympy.Function(f'{name}')(*subs)


def lsum(d, s, lo, hi, tilings=()):
    """Sum of d over integer s in [lo, hi)."""
    d = sympy.expand(d)
    if d == 0:
        return sympy.Integer(0)
    if s not in d.free_symbols:
        return d * (hi - lo)
    for S, E in tilings:
        a, b = sympy.Function(S)(s), sympy.Function(E)(s)
        if d.has(a) and d.has(b):
            k = d.subs(a, 0).subs(b, 1)
            if s not in k.free_symbols and sympy.expand(d - k * (b - a)) == 0:
                st = lambda x: sympy.Integer(0) if x == 0 else sympy.Function(S)(x)
                return k * (st(hi) - st(lo))
    q = sympy.Symbol('σ', integer=True)
    d = d.subs(s, q)
    # pull constant factors out
    c, rest = sympy.factor_terms(d).as_independent(q, as_Add=False)
    return c * LSUM(rest, lo, hi)


class LoopEval:
    def __init__(self, module, attrs=None, tilings=(), data=()):
        self.module = module
        self.attrs = attrs or {}       # self.X -> value
        self.tilings = tilings
        self.scal = {}
        self.cells = {}                # (array, subs) -> value
        self.loops = []
        self.n = 0
        self.order = []                # store order
        self.dirty = set()
        self.loopinfo = {}
        self.depth = 0

    # -- entry
    def run(self, node, args):
        self.scal = dict(args)
        self.block(node.body)
        return self

    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return
            if isinstance(st.value, ast.Call):
                return self.call_stmt(st.value)
            return
        if isinstance(st, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v)
            return
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value))
            return
        if isinstance(st, ast.AugAssign):
            op = st.op
            cur = self.ev(ast.copy_location(_load(st.target), st))
            v = self.bin(op, cur, self.ev(st.value))
            self.assign(st.target, v)
            return
        if isinstance(st, ast.For):
            return self.for_(st)
        if isinstance(st, ast.With):
            return self.block(st.body)
        if isinstance(st, ast.Return) and st.value is None:
            raise Unsupported('return')
        raise Unsupported(type(st).__name__)

    def call_stmt(self, c):
        f = self.local_func(c)
        if f is None:
            raise Unsupported('call ' + ast.unparse(c.func))
        self.inline(f, c)

    def local_func(self, c):
        if isinstance(c.func, ast.Name) and c.func.id in self.module.funcs:
            return self.module.funcs[c.func.id]
        return None

    def inline(self, f, c):
        if self.depth > 4:
            raise Unsupported('depth')
        names = [a.arg for a in f.node.args.args]
        args = {n: self.ev(a) for n, a in zip(names, c.args)}
        for k in c.keywords:
            args[k.arg] = self.ev(k.value)
        saved = self.scal
        self.scal = args
        self.depth += 1
        ret = None
        try:
            body = f.node.body
            if isinstance(body[-1], ast.Return):
                self.block(body[:-1])
                ret = self.ev(body[-1].value) if body[-1].value is not None else None
            else:
                self.block(body)
        finally:
            self.scal = saved
            self.depth -= 1
        return ret

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.scal[t.id] = v
            return
        if isinstance(t, ast.Tuple):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpack')
            for x, y in zip(t.elts, v):
                self.assign(x, y)
            return
        if isinstance(t, ast.Subscript):
            a = self.ev(t.value)
            if isinstance(a, Arr):
                subs = self.subs(t.slice)
                self.cells[(a.name, subs)] = v
                if (a.name, subs) not in self.order:
                    self.order.append((a.name, subs))
                return
        raise Unsupported('assign ' + ast.unparse(t))

    def subs(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev(x) for x in s.elts)
        return (self.ev(s),)

    def ev(self, e):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or e.value is None:
                return e.value
            if isinstance(e.value, (int, float)):
                return sympy.nsimplify(e.value)
            return e.value
        if isinstance(e, ast.Name):
            if e.id in self.scal:
                v = self.scal[e.id]
                if v is POISON:
                    raise Unsupported(f'{e.id} used after a loop that may not define it')
                return v
            raise Unsupported('name ' + e.id)
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x) for x in e.elts)
        if isinstance(e, ast.BinOp):
            return self.bin(e.op, self.ev(e.left), self.ev(e.right))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -self.ev(e.operand)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and 'self' not in self.scal:
                if e.attr in self.attrs:
                    return self.attrs[e.attr]
                raise Unsupported('self.' + e.attr)
            chain = ast.unparse(e)
            if chain in self.attrs:
                return self.attrs[chain]
            if chain.startswith('self.') and chain[5:] in self.attrs:
                return self.attrs[chain[5:]]
            b = self.ev(e.value)
            if isinstance(b, Arr) and e.attr == 'shape':
                return Shape(b)
            raise Unsupported(chain)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            if isinstance(b, Shape):
                i = self.ev(e.slice)
                return b.arr.dim(int(i))
            if isinstance(b, Arr):
                subs = self.subs(e.slice)
                return self.read(b, subs)
            raise Unsupported('subscript')
        if isinstance(e, ast.Call):
            f = self.local_func(e)
            if f is not None:
                return self.inline(f, e)
            n = ast.unparse(e.func).split('.')[-1]
            a = [self.ev(x) for x in e.args]
            if n in ('min', 'minimum', 'max', 'maximum'):
                return (sympy.Min if n.startswith('min') else sympy.Max)(*a)
            if n in ('int', 'float', 'complex') and len(a) == 1:
                return a[0]
            if n == 'len' and isinstance(a[0], Arr):
                return a[0].dim(0)
        raise Unsupported(type(e).__name__ + ' ' + ast.unparse(e))

    def read(self, a, subs):
        key = (a.name, subs)
        if key in self.cells:
            return self.cells[key]
        # quantified cell matching
        for (n, p), v in reversed(list(self.cells.items())):
            if n != a.name or len(p) != len(subs):
                continue
            m = {}
            ok = True
            for x, y in zip(p, subs):
                if x == y:
                    continue
                if isinstance(x, sympy.Symbol) and x in self.loopinfo and isinstance(y, sympy.Symbol) and y in self.loopinfo and x not in self.active():
                    lx, ly = self.loopinfo[x], self.loopinfo[y]
                    if lx.lo == ly.lo and lx.hi == ly.hi:
                        m[x] = y
                        continue
                ok = False
                break
            if ok and isinstance(v, sympy.Basic):
                return v.subs(m)
        return load(a.name, subs)

    def active(self):
        return {l.sym for l in self.loops}

    def bin(self, op, a, b):
        if not isinstance(a, sympy.Basic) or not isinstance(b, sympy.Basic):
            raise Unsupported('operand')
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if self.isint(a) and self.isint(b):
                return sympy.floor(a / b)
            return a / b
        if isinstance(op, ast.FloorDiv):
            return sympy.floor(a / b)
        if isinstance(op, ast.Mod):
            return sympy.Mod(a, b)
        if isinstance(op, ast.Pow):
            return a ** b
        raise Unsupported('operator')

    def isint(self, a):
        return bool(a.is_integer) and not a.atoms(sympy.core.function.AppliedUndef)

    # -- loops
    def for_(self, st):
        if not isinstance(st.iter, ast.Call) or not isinstance(st.target, ast.Name) or st.orelse:
            raise Unsupported('loop ' + ast.unparse(st.iter))
        fn = ast.unparse(st.iter.func).split('.')[-1]
        if fn not in ('range', 'prange'):
            raise Unsupported('loop over ' + fn)
        a = [self.ev(x) for x in st.iter.args]
        lo, hi, step = (sympy.Integer(0), a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else (a[0], a[1], a[2])
        if step == -1:
            lo, hi = hi + 1, lo + 1
            desc = True
        elif step == 1:
            desc = False
        else:
            raise Unsupported('step')
        S = sympy.Symbol(f'{st.target.id}@{self.n}', integer=True, nonnegative=True)
        self.n += 1
        L = Loop(S, lo, hi, -1 if desc else 1, fn == 'prange')
        self.loopinfo[S] = L
        pre_s, pre_c = dict(self.scal), dict(self.cells)
        n0 = self.n
        def reset(extra_s=(), extra_c=()):
            self.scal, self.cells = dict(pre_s), dict(pre_c)
            self.scal.update(extra_s)
            self.cells.update(extra_c)
            self.n = n0

        def once():
            self.iterate(st, S, L)

        def solve(v, p, v0, phis):
            """closed form at the start of iteration S, final value after the loop."""
            if not isinstance(v, sympy.Basic):
                return None, None
            if p not in v.free_symbols:
                ok = not (v.free_symbols & (set(phis) | {S}))
                return v0 if ok and v == v0 else p, v if ok else None
            d = sympy.expand(v - p)
            if d.free_symbols & set(phis):
                return p, None
            a, b = (S + 1, hi) if desc else (lo, S)
            return v0 + lsum(d, S, a, b, self.tilings), v0 + lsum(d, S, lo, hi, self.tilings)

        # scalars
        once()
        ch_s = [k for k in self.scal if k != st.target.id and k in pre_s and not _same(self.scal[k], pre_s.get(k))]
        new_s = [k for k in self.scal if k not in pre_s]
        sphi = {k: sympy.Symbol(f'φ{k}@{S}') for k in ch_s if isinstance(pre_s[k], sympy.Basic)}
        sclosed, sfinal = {}, {}
        if sphi:
            reset(sphi)
            once()
            for k, p in sphi.items():
                c, f = solve(self.scal[k], p, pre_s[k], sphi.values())
                sclosed[k], sfinal[k] = (c if c is not None else p), f
        # cells
        if sphi:
            reset(sclosed)
            once()
        ch_c = [k for k in self.cells if not self.depends(k, S) and not _same(self.cells.get(k), pre_c.get(k))]
        cphi = {k: sympy.Symbol(f'φ{k[0]}{k[1]}@{S}') for k in ch_c}
        cclosed, cfinal = {}, {}
        if cphi:
            v0s = {}
            reset(sclosed)
            for k in cphi:
                v0s[k] = self.read(Arr(k[0]), k[1])
            reset(sclosed, cphi)
            once()
            for k, p in cphi.items():
                c, f = solve(self.cells[k], p, v0s[k], cphi.values())
                cclosed[k], cfinal[k] = (c if c is not None else p), f
            reset(sclosed, cclosed)
            once()
        for k in sphi:
            self.scal[k] = sfinal[k] if sfinal.get(k) is not None else POISON
        for k in cphi:
            self.cells[k] = cfinal[k] if cfinal.get(k) is not None else POISON
        for k in ch_s:
            if k not in sphi:
                self.scal[k] = POISON
        for k in new_s:
            self.scal[k] = POISON
        self.scal[st.target.id] = POISON

    def depends(self, key, S):
        todo = [x for x in key[1] if isinstance(x, sympy.Basic)]
        seen = set()
        while todo:
            for s in todo.pop().free_symbols:
                if s == S:
                    return True
                if s in self.loopinfo and s not in seen:
                    seen.add(s)
                    l = self.loopinfo[s]
                    todo += [l.lo, l.hi]
        return False

    def iterate(self, st, S, L):
        self.loops.append(L)
        self.scal[st.target.id] = S
        try:
            self.block(st.body)
        finally:
            self.loops.pop()


class _P:
    def __repr__(self):
        return 'undefined'


POISON = _P()


def _same(a, b):
    return a is b or (isinstance(a, sympy.Basic) and isinstance(b, sympy.Basic) and a == b) or (type(a) == type(b) and not isinstance(a, sympy.Basic) and a == b)


def _load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def cell_loops(ev, subs, value):
    syms = set()
    for x in list(subs) + [value]:
        if isinstance(x, sympy.Basic):
            syms |= {s for s in x.free_symbols if s in ev.loopinfo}
    return {s: ev.loopinfo[s] for s in syms}
