"""Redistribution plans move exactly the blocks of the layouts.

Constructors of the transpose planners are evaluated to closed forms over
symbolic global sizes, chunk sizes, process count and rank; block starts/ends,
counts, displacements and local shapes are compared with the block partition
used by the layouts.  Pack/unpack kernels are summarised by induction-variable
analysis into index maps; each pair must be the inverse map, and the block
order of sender and receiver must agree.
"""
import sympy
from ..interp import *
from ..repo import AnalysisBroken
from ..formula import agree
from ..loops import LoopEval, Arr, Unsupported, cell_loops, load

I = lambda n, **k: sympy.Symbol(n, integer=True, nonnegative=True, **k)
G = [sympy.Symbol(f'N{i}', integer=True, positive=True) for i in range(5)]
C = [sympy.Symbol(f'C{i}', integer=True, positive=True) for i in range(5)]
PS = sympy.Symbol('m', integer=True, positive=True)
R = sympy.Symbol('r', integer=True, nonnegative=True)
p = sympy.Symbol('p', integer=True, nonnegative=True)
DS = sympy.Symbol('ds', integer=True, positive=True)
AX = 2


class RV(AbsVal):
    """Vector indexed by process: expression in p."""
    def __init__(self, e):
        self.e = sympy.sympify(e)

    def __repr__(self):
        return f"[{self.e} for p]"

    def at(self, k):
        return self.e.subs(p, k)

    def getitem(self, it, k):
        if isinstance(k, (int, sympy.Basic)):
            return self.at(k)
        return NotImplemented

    def binop(self, it, op, o, swapped):
        x = o.e if isinstance(o, RV) else o
        if isinstance(x, (int, sympy.Basic)):
            a, b = (x, self.e) if swapped else (self.e, x)
            r = numop_(op, a, b)
            return RV(r) if r is not None else NotImplemented
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name in ('astype', 'copy'):
            return self
        return NotImplemented


def numop_(op, a, b):
    a, b = sympy.sympify(a), sympy.sympify(b)
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: sympy.floor(a / b)}.get(op, lambda: None)()


class PComm(AbsVal):
    def getattr(self, it, name):
        if name == 'size':
            return PS
        if name == 'rank':
            return R
        return NotImplemented


class Cfg(Config):
    max_paths = 64

    def on_getitem(self, it, base, key):
        if isinstance(base, dict) and isinstance(key, Term) and base and sorted(base.values(), key=str) == [1, 2]:
            it.event('datasize', {show(k): v for k, v in base.items()})
            return DS
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        n = f.args[0] if isinstance(f, Term) and f.op == 'ext' else None
        if n == 'numpy.arange' and args and args[0] == PS:
            return RV(p)
        if n in ('numpy.minimum', 'numpy.maximum') and any(isinstance(a, RV) for a in args):
            F = sympy.Min if n.endswith('minimum') else sympy.Max
            return RV(F(*[a.e if isinstance(a, RV) else a for a in args]))
        if n == 'numpy.clip' and isinstance(args[0], RV):
            return RV(sympy.Min(sympy.Max(args[0].e, args[1]), args[2]))
        if n == 'numpy.transpose' and isinstance(args[0], NDV):
            return NDV([args[0].shape[i] for i in (args[1] if len(args) > 1 else kwargs['axes'])], args[0].buf, [args[0].order[i] for i in (args[1] if len(args) > 1 else kwargs['axes'])])
        if n == 'numpy.ndarray':
            sh = kwargs.get('shape', args[0] if args else None)
            return NDV(list(it.iterate(sh)), kwargs.get('buffer'))
        if n == 'numpy.copyto':
            it.event('copy', args[0], args[1])
            return None
        if n == 'numpy.zeros':
            return Term('zeros', freeze(args[0]))
        if isinstance(f, Term) and f.op == 'attr' and f.args[1] in ('debug', 'info'):
            return None
        if isinstance(f, Term):
            it.event('ext', show(f).split('.')[-1], list(args), dict(kwargs))
        return NotImplemented


class NDV(AbsVal):
    def __init__(self, shape, buf, order=None):
        self.shape, self.buf = list(shape), buf
        self.order = order or list(range(len(self.shape)))

    def __repr__(self):
        return f"view(shape={self.shape}, buffer={self.buf}, order={self.order})"

    def getattr(self, it, name):
        if name == 'shape':
            return tuple(self.shape)
        if name == 'T':
            return NDV(self.shape[::-1], self.buf, self.order[::-1])
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'transpose':
            ax = args[0] if len(args) == 1 else args
            return NDV([self.shape[i] for i in ax], self.buf, [self.order[i] for i in ax])
        return NotImplemented


GRID = {'N': (1, 2, 3, 5, 6, 7), 'C': (1, 2), 'm': (1, 2, 3), 'r': (0, 1, 2), 'p': (0, 1, 2), 'd': (1, 2)}
FIX = {'N0': (2,), 'N1': (3,), 'N4': (2,), 'C0': (2,), 'C1': (3,), 'C4': (1,)}


def dom(s):
    return FIX.get(s, GRID.get(s[0], (0, 1, 2)))


def same_(a, b):
    try:
        return agree(a, b, dom, 20000)
    except (ValueError, TypeError):
        return False, 'not comparable'


def blocks():
    """Canonical block starts/ends for the row axis (AX) and the column axis (AX+1)."""
    out = {}
    for nm, ax in (('row', AX), ('col', AX + 1)):
        B = C[ax] * sympy.ceiling(sympy.ceiling(G[ax] / C[ax]) / PS)
        out[nm] = (sympy.Min(B * p, G[ax]), sympy.Min(B * (p + 1), G[ax]), B)
    return out


def run(repo, rep):
    rep.rule('block starts/ends of every planner equal the layouts\' block partition (whole chunks) on both transposed axes')
    rep.rule('local shapes, counts and displacements are the products of those blocks; pack and unpack are inverse index maps in the same block order')
    rep.rule('localize_rows / localize_columns copy in, communicate unconditionally and copy out in the matching direction')
    mod = repo.module('core.transposes')
    planners = planner_classes(repo)
    if not planners:
        raise AnalysisBroken('no transpose planner found')
    for c in planners:
        rep.count('planners')
        one(repo, rep, mod, c)
    rep.floor('planners', 2)
    rep.floor('block vectors', 8)
    rep.floor('kernels', 4)


def planner_classes(repo):
    mod = repo.module('core.transposes')
    out = []
    used = set()
    import ast
    for n in ast.walk(repo.module('core.distributor').tree):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.asname and a.name in mod.classes:
                    used.add(a.name)
    for nm in sorted(used):
        out.append(mod.classes[nm])
    return out


def one(repo, rep, mod, cls):
    cfg = Cfg()
    cfg.record_getattr = set()
    it = Interp(repo, cfg)
    K = lambda w: f"D03|{cls.name}|{w}"

    def go(it):
        o = Obj(cls, 'plan')
        it.state['o'] = o
        init = cls.method('__init__')
        it.call(Closure(init, None, o, init.cls), [tuple(G), tuple(C), sym('dtype'), AX, PComm()])
        for meth in ('localize_rows', 'localize_columns'):
            k = len(it.events)
            args = {'localize_rows': [sym('CLin'), sym('RLout')], 'localize_columns': [sym('RLin'), sym('CLout')]}[meth]
            it.call(it.getattr(o, meth), args)
            it.state[meth] = (k, len(it.events))
        return o
    bl = blocks()
    for r in it.explore(go):
        if r.outcome == 'abort':
            rep.undec(f"{cls.name}: {r.value}")
            continue
        if r.outcome == 'raise':
            if isinstance(r.value.name, str) and r.value.name == 'RuntimeError':
                continue
            rep.violation(K('raises'), f"raises {r.value.name}: {r.value.value} when {r.cond_text()}", r.value.loc)
            continue
        o = r.extra['o']
        A = o.attrs
        loc = cls.loc
        vecs = {}
        for nm in ('row', 'col'):
            for kind, j in (('starts', 0), ('ends', 1)):
                v = A.get(f'{nm}_{kind}')
                if v is None:
                    continue
                if not isinstance(v, RV):
                    rep.undec(f"{cls.name}.{nm}_{kind}: {show(v)}")
                    continue
                rep.count('block vectors')
                ok, w = same_(v.e, bl[nm][j])
                rep.check(ok, K(f'{nm} {kind}'), f"{nm}_{kind} is {v.e} for process p, but the layouts place {bl[nm][j]}; differs at {w}", loc)
        counts = {nm: bl[nm][1] - bl[nm][0] for nm in bl}
        N0, N1, N2 = G[0] * G[1], G[AX], G[AX + 1]
        own = {nm: counts[nm].subs(p, R) for nm in counts}
        for nm, want in (('CL', [N0, N1, own['col'], None]), ('RL', [N0, own['row'], N2, None])):
            sh = A.get(f'{nm}_reduced_shape')
            try:
                sh = list(it.iterate(sh))
            except Exception:
                sh = None
            if not sh or len(sh) != 4:
                rep.undec(f"{cls.name}.{nm}_reduced_shape")
                continue
            for i, w in enumerate(want):
                if w is None:
                    ok = any(same_(sh[i], x)[0] for x in (G[4], G[4] * DS))
                    rep.check(ok, K(f'{nm} shape'), f"{nm} local shape entry {i} is {show(sh[i])} instead of {G[4]}", loc)
                else:
                    ok, wit = same_(sh[i], w)
                    rep.check(ok, K(f'{nm} shape'), f"{nm} local shape entry {i} is {show(sh[i])} instead of {w}; differs at {wit}", loc)
        if cls.method('split_rows') or any(e.kind == 'ext' and e.data[0] == 'Alltoallv' for e in r.events):
            alltoallv(repo, rep, mod, cls, A, K, r, counts, bl, N0, loc)
        else:
            fftw(repo, rep, mod, cls, A, K, r, bl, N0, own, loc)


# --------------------------------------------------------------------------- FFTW planner

def fftw(repo, rep, mod, cls, A, K, r, bl, N0, own, loc):
    ev = r.events
    B1, B2 = bl['row'][2], bl['col'][2]
    howmany = N0 * G[4] * DS
    want = {'RL_to_CL_plan': [G[AX], G[AX + 1], howmany, B1, B2], 'CL_to_RL_plan': [G[AX + 1], G[AX], howmany, B2, B1]}
    flags = {'RL_to_CL_plan': 'TRANSPOSED_OUT', 'CL_to_RL_plan': 'TRANSPOSED_IN'}
    bufs = {'RL_to_CL_plan': ('RL', 'CL'), 'CL_to_RL_plan': ('CL', 'RL')}
    for nm, w in want.items():
        v = A.get(nm)
        if not (isinstance(v, Term) and v.op == 'call'):
            rep.undec(f"{cls.name}.{nm}: {show(v)}")
            continue
        a = list(v.args[1])
        rep.count('plans')
        for i, x in enumerate(w):
            ok, wit = same_(a[i], x) if isinstance(a[i], (int, sympy.Basic)) else (False, show(a[i]))
            rep.check(ok, K(f'{nm} argument {i}'), f"{nm} is planned with argument {i} = {show(a[i])} instead of {x}; differs at {wit}", loc)
        s = show(v)
        rep.check(flags[nm] in s and not any(f in s for f in flags.values() if f != flags[nm]), K(f'{nm} flag'), f"{nm} is not planned with FFTW_MPI_{flags[nm]}", loc)
        for j, side in zip((5, 6), bufs[nm]):
            b = A.get(f'{side}_buffer')
            rep.check(a[j] == Term('item', freeze(b), 0) or a[j] == freeze(b), K(f'{nm} buffer'), f"{nm} buffer {j - 4} is {show(a[j])} instead of the {side} buffer", loc)
    for e in ev:
        if e.kind == 'ext' and e.data[0] == 'fftw_mpi_local_size_many_transposed':
            a = e.data[1]
            w = [2, [G[AX], G[AX + 1]], howmany, B1, B2]
            ok = a[0] == 2 and isinstance(a[1], list) and all(same_(x, y)[0] for x, y in zip(a[1], w[1])) and all(same_(x, y)[0] for x, y in zip(a[2:5], w[2:]))
            rep.check(ok, K('buffer size'), f"buffers are sized for {show(a[:5])} instead of {w}", e.loc)
    # views on the FFTW buffers: 4-d array [N0, N1, N2, N3] seen through [N1, N2, N0, N3] memory
    for nm, wantshape in (('CL', [N0, G[AX], own['col'], G[4]]), ('RL', [N0, own['row'], G[AX + 1], G[4]])):
        v = A.get(f'{nm}_view')
        if not isinstance(v, NDV):
            rep.undec(f"{cls.name}.{nm}_view: {show(v)}")
            continue
        rep.check(freeze(v.buf) == freeze(A.get(f'{nm}_buffer')), K(f'{nm} view buffer'), f"{nm}_view does not view the {nm} buffer", loc)
        rep.check(v.order == [2, 0, 1, 3], K(f'{nm} view order'), f"{nm}_view axis order {v.order}: transposed axes are not leading in memory", loc)
        for i, (x, y) in enumerate(zip(v.shape, wantshape)):
            ok, wit = same_(x, y)
            rep.check(ok, K(f'{nm} view shape'), f"{nm}_view entry {i} is {show(x)} instead of {y}; differs at {wit}", loc)
    # copy in, execute, copy out
    for meth, (src, plan, dst) in {'localize_rows': ('CL', 'CL_to_RL_plan', 'RL'), 'localize_columns': ('RL', 'RL_to_CL_plan', 'CL')}.items():
        a, b = r.extra[meth]
        acts = []
        for e in ev[a:b]:
            if e.kind == 'copy':
                acts.append(('copy', e.data[0], e.data[1]))
            elif e.kind == 'ext' and e.data[0] == 'fftw_execute':
                acts.append(('exec', e.data[1][0]))
        inn, out = sym(f'{src}in'), sym(f'{dst}out')
        ok = len(acts) == 3 and [x[0] for x in acts] == ['copy', 'exec', 'copy']
        if ok:
            c1, ex, c2 = acts
            ok = c1[1] is A.get(f'{src}_view') and _views(c1[2], inn, A.get(f'{src}_reduced_shape')) and freeze(ex[1]) == freeze(A.get(plan)) \
                and c2[2] is A.get(f'{dst}_view') and _views(c2[1], out, A.get(f'{dst}_reduced_shape'))
        rep.check(ok, K(meth), f"{meth} performs {[tuple(show(y)[:60] for y in x[1:]) for x in acts]} instead of copy-in({src}), {plan}, copy-out({dst})", cls.method(meth).loc)


def _views(v, buf, shape):
    if not isinstance(v, NDV):
        return v == buf
    return v.buf == buf and [str(x) for x in v.shape] == [str(x) for x in (shape.tolist() if isinstance(shape, np.ndarray) else shape)] and v.order == [0, 1, 2, 3]


# --------------------------------------------------------------------------- Alltoallv planner

def alltoallv(repo, rep, mod, cls, A, K, r, counts, bl, N0, loc):
    N3 = G[4] * DS
    own = {nm: counts[nm].subs(p, R) for nm in counts}
    want = {'CL_counts': N0 * own['col'] * N3 * counts['row'], 'RL_counts': N0 * own['row'] * N3 * counts['col'],
            'CL_displs': N0 * own['col'] * N3 * bl['row'][0], 'RL_displs': N0 * own['row'] * N3 * bl['col'][0]}
    for nm, w in want.items():
        v = A.get(nm)
        if not isinstance(v, RV):
            rep.undec(f"{cls.name}.{nm}: {show(v)}")
            continue
        rep.count('block vectors')
        ok, wit = same_(v.e, w)
        rep.check(ok, K(nm), f"{nm} is {v.e} instead of {w}; differs at {wit}", loc)
    for nm, w in (('CL_buffer', N0 * G[AX] * own['col'] * N3), ('RL_buffer', N0 * own['row'] * G[AX + 1] * N3)):
        v = A.get(nm)
        if isinstance(v, Term) and v.op == 'zeros' and isinstance(v.args[0], (int, sympy.Basic)):
            ok, wit = same_(v.args[0], w)
            rep.check(ok, K(nm), f"{nm} holds {v.args[0]} elements instead of {w}; differs at {wit}", loc)
        else:
            rep.undec(f"{cls.name}.{nm}: {show(v)}")
    # the communication step: find the pack / unpack kernels used by the two methods
    kern = {}
    for meth, (src, dst, pack, unpack) in {'localize_rows': ('CL', 'RL', 'split_rows', 'combine_columns'), 'localize_columns': ('RL', 'CL', 'split_columns', 'combine_rows')}.items():
        m = cls.method(meth)
        a, b = r.extra[meth]
        comm = [e for e in r.events[a:b] if e.kind == 'ext' and e.data[0] == 'Alltoallv']
        ok = len(comm) == 1
        rep.check(ok, K(f'{meth} communicates'), f"{meth} calls the collective {len(comm)} times when {r.cond_text()}", m.loc)
        if ok:
            s, t = comm[0].data[1][:2]
            f = lambda n: freeze(A.get(n))
            for side, arg in ((src, s), (dst, t)):
                arg = list(arg) if isinstance(arg, (list, tuple)) else []
                good = len(arg) >= 3 and freeze(arg[0]) == f(f'{side}_buffer') and _rv(arg[1], A.get(f'{side}_counts')) and _rv(arg[2], A.get(f'{side}_displs'))
                rep.check(good, K(f'{meth} {side} message'), f"{meth} does not exchange the {side} buffer with its counts and displacements", comm[0].loc)
    kernels(repo, rep, mod, cls, A, K, r)


def _rv(a, b):
    return isinstance(a, RV) and isinstance(b, RV) and a.e == b.e


def kernels(repo, rep, mod, cls, A, K, r):
    """Pack/unpack index maps."""
    n0, n1, n2, n3 = sympy.symbols('N0 N1 N2 N3', integer=True, positive=True)
    lc, lr = I('lc'), I('lr')
    attrs = {'N0': n0, 'N1': n1, 'N2': n2, 'N3': n3, 'local_col_count': lc, 'local_row_count': lr, 'pycomm.size': PS}
    for nm in ('row', 'col'):
        for k in ('starts', 'ends', 'counts'):
            attrs[f'{nm}_{k}'] = Arr(f'{nm}_{k}')
    rs, re_ = sympy.Function('row_starts'), sympy.Function('row_ends')
    cs, ce = sympy.Function('col_starts'), sympy.Function('col_ends')
    spec = {
        'split_rows': ('out', lambda q, a, b, c, d: n0 * lc * n3 * rs(q) + ((a * (re_(q) - rs(q)) + b - rs(q)) * lc + c) * n3 + d, 'row'),
        'combine_rows': ('in', lambda q, a, b, c, d: n0 * lc * n3 * rs(q) + ((a * (re_(q) - rs(q)) + b - rs(q)) * lc + c) * n3 + d, 'row'),
        'split_columns': ('out', lambda q, a, b, c, d: n0 * lr * n3 * cs(q) + ((a * lr + b) * (ce(q) - cs(q)) + c - cs(q)) * n3 + d, 'col'),
        'combine_columns': ('in', lambda q, a, b, c, d: n0 * lr * n3 * cs(q) + ((a * lr + b) * (ce(q) - cs(q)) + c - cs(q)) * n3 + d, 'col'),
    }
    for name, (direction, formula, blk) in spec.items():
        m = cls.method(name)
        if m is None:
            rep.undec(f"{cls.name}.{name} not found")
            continue
        rep.count('kernels')
        le = LoopEval(mod, attrs=attrs, tilings=[('row_starts', 'row_ends'), ('col_starts', 'col_ends')])
        names = [a.arg for a in m.node.args.args][1:]
        # the 4-d array is the first argument of a pack and the second of an unpack
        args = dict(zip(names, [Arr('A'), Arr('B')] if direction == 'out' else [Arr('B'), Arr('A')]))
        try:
            le.run(m.node, args)
        except Unsupported as e:
            rep.undec(f"{cls.name}.{name}: {e}")
            continue
        cells = list(le.cells.items())
        if not cells:
            rep.violation(K(f'{name}'), f"{name} copies nothing", m.loc)
            continue
        (arr, subs), v = cells[-1]
        # identify 4-index and linear index
        four = subs if len(subs) == 4 else (tuple(v.args) if getattr(v, 'func', None) is not None and str(v.func) == 'A' else None)
        lin = subs[0] if len(subs) == 1 else (v.args[0] if str(getattr(v, 'func', '')) == 'B' else None)
        if len(cells) != 1 or four is None or lin is None or (arr == 'B') != (direction == 'out'):
            rep.violation(K(f'{name} map'), f"{name} is not an element-by-element copy between the array and the buffer: {cells}", m.loc)
            continue
        q = [s for s in le.loopinfo if le.loopinfo[s].hi == PS]
        q = [s for s in q if s in sympy.sympify(lin).free_symbols]
        if len(q) != 1:
            rep.undec(f"{cls.name}.{name}: process loop not identified")
            continue
        q = q[0]
        ok = sympy.expand(lin - formula(q, *four)) == 0
        rep.check(ok, K(f'{name} offset'), f"{name}: buffer position {lin} does not follow the displacement and block order {formula(q, *four)}", m.loc)
        S, E = ('row_starts', 'row_ends') if blk == 'row' else ('col_starts', 'col_ends')
        rng = [(0, n0), (load(S, (q,)), load(E, (q,))) if blk == 'row' else (0, lr), (0, lc) if blk == 'row' else (load(S, (q,)), load(E, (q,))), (0, n3)]
        for i, (x, (lo, hi)) in enumerate(zip(four, rng)):
            l = le.loopinfo.get(x)
            rep.check(l is not None and sympy.simplify(l.lo - lo) == 0 and sympy.simplify(l.hi - hi) == 0, K(f'{name} range'),
                      f"{name}: index {i} runs over {l} instead of [{lo}, {hi})", m.loc)
    # guards and order
    import ast
    for meth, (src, dst, pack, unpack) in {'localize_rows': ('CL', 'RL', 'split_rows', 'combine_columns'), 'localize_columns': ('RL', 'CL', 'split_columns', 'combine_rows')}.items():
        m = cls.method(meth)
        it = Interp(repo, KCfg())

        def go(it):
            o = Obj(cls, 'plan', {**{k: sym(k) for k in ('CL_reduced_shape', 'RL_reduced_shape', 'CL_buffer', 'RL_buffer', 'CL_counts', 'RL_counts', 'CL_displs', 'RL_displs', 'pycomm')},
                                  'local_col_count': sympy.Symbol('lc', integer=True, nonnegative=True), 'local_row_count': sympy.Symbol('lr', integer=True, nonnegative=True)})
            args = [sym('CLin'), sym('RLout')] if meth == 'localize_rows' else [sym('RLin'), sym('CLout')]
            return it.call(it.getattr(o, meth), args)
        for rr in it.explore(go):
            if rr.outcome != 'return':
                rep.undec(f"{cls.name}.{meth}: {rr.outcome}")
                continue
            acts = [(e.kind, e.data) for e in rr.events if e.kind in ('kernel', 'collective')]
            empty = {str(t) for t, val, _ in rr.decisions}
            no_src = any(('lc' if src == 'CL' else 'lr') in show(t) and _is_empty(t, val) for t, val, _ in rr.decisions)
            no_dst = any(('lr' if dst == 'RL' else 'lc') in show(t) and _is_empty(t, val) for t, val, _ in rr.decisions)
            seq = [a[1][0] if a[0] == 'kernel' else 'collective' for a in acts]
            want = ([] if no_src and pack not in seq else [pack]) + ['collective'] + ([] if no_dst and unpack not in seq else [unpack])
            rep.count('localize paths')
            rep.check(seq == want, K(f'{meth} order'), f"{meth} performs {seq} instead of {want} when {rr.cond_text()}", m.loc)
            for k, d in acts:
                if k == 'kernel':
                    a = d[1]
                    exp = {pack: (f'{src}in', f'{src}_buffer'), unpack: (f'{dst}_buffer', f'{dst}out')}.get(d[0])
                    if exp:
                        got = tuple(_nm(x) for x in a[:2])
                        rep.check(got == exp, K(f'{meth} {d[0]} arguments'), f"{meth} calls {d[0]}{got} instead of {exp}", m.loc)


def _nm(x):
    if isinstance(x, NDV):
        x = x.buf
    return show(x)


def _is_empty(t, val):
    """Does taking (t, val) establish that the count is zero?"""
    if t.op == 'cmp':
        o, a, b = t.args
        z = b == 0 or a == 0
        if o == '==' and z:
            return val
        if o == '<' and a == 0:
            return not val
        if o == '>' and b == 0:
            return not val
        if o in ('<=',) and b == 0:
            return val
    if t.op == 'truth':
        return not val
    return False


class KCfg(Config):
    def on_call(self, it, f, args, kwargs, node):
        if isinstance(f, Term) and f.op == 'ext' and f.args[0] == 'numpy.ndarray':
            return NDV([sym('s')], kwargs.get('buffer'))
        if isinstance(f, Term) and f.op == 'attr' and f.args[0] == sym('pycomm'):
            it.event('collective', f.args[1], args)
            return None
        return NotImplemented

    def on_repo_call(self, it, clo, args, kwargs, node):
        if clo.func.name in ('split_rows', 'split_columns', 'combine_rows', 'combine_columns'):
            it.event('kernel', clo.func.name, args[1:])
            return None
        return NotImplemented
