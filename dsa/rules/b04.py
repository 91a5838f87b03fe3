"""Array and sparse-matrix kernels compute the products, solutions and arrangements they stand for.

The helpers of tools/array.py and the Cython kernels of tools/linalg.pyx are
abstractly interpreted over arrays of labels for every array rank up to four,
every axis, unit and empty extents, strided inputs and outputs and dtype
combinations.  Kernel arguments keep the static typing of the Cython source:
rank, element type and contiguity of every memory view, C integer division,
unchecked indexing (any index outside the view is an error) and parallel loops
(executed in another order).
"""
import itertools
import re
import numpy as np
import scipy.sparse as sps
from ..interp import *
from ..repo import AnalysisBroken
from ..pyx import _split_top
from ..nd import ND, SP, Const, NDConfig, unwrap, wrap, NotConcrete

EXPLANATION = __doc__


class OutOfView(PathAbort):
    pass


class Mem(ND):
    """A memory view parameter: unchecked indexing."""
    def _chk(self, it, key):
        ks = key if isinstance(key, tuple) else (key,)
        for i, k in enumerate(ks):
            k = unwrap(k)
            if isinstance(k, (int, np.integer)) and not 0 <= int(k) < self.a.shape[i]:
                it.state['errors'].append(f"{it.loc()}: index {int(k)} is outside a memory view of extent {self.a.shape[i]}")
                raise PathAbort('index outside a memory view')

    def getitem(self, it, key):
        self._chk(it, key)
        return super().getitem(it, key)

    def setitem(self, it, key, value):
        self._chk(it, key)
        return super().setitem(it, key, value)


def signatures(repo):
    """Typed memory view parameters of the kernels, from the Cython source."""
    path = None
    for m in repo.modules.values():
        if m.is_pyx and m.name.endswith('tools.linalg'):
            path = m.source
    if path is None:
        raise AnalysisBroken('no Cython module tools.linalg')
    text = path
    out = {}
    for m in re.finditer(r"^def\s+(\w+)\s*\(([^)]*)\)\s*:", text, re.M):
        ps = {}
        for i, q in enumerate(x.strip() for x in _split_top(m.group(2)) if x.strip()):
            mm = re.match(r"(const\s+)?(\w+)\s*\[([^\]]*)\]\s*(\w+)$", q)
            if mm:
                ps[i] = (mm.group(4), mm.group(2), len(mm.group(3).split(',')), '::1' in mm.group(3), bool(mm.group(1)))
        out[m.group(1)] = ps
    return out


class Cfg(NDConfig):
    max_while = 200
    max_steps = 10 ** 7
    max_depth = 80

    def __init__(self, sigs):
        self.sigs = sigs
        self.flags = {}

    def kernel(self, it):
        return bool(it.frames) and it.frames[-1].module is not None and it.frames[-1].module.is_pyx

    def on_repo_call(self, it, clo, args, kwargs, node):
        m = clo.func.module
        if not m.is_pyx:
            return NotImplemented
        ps = self.sigs.get(clo.func.name, {})
        names = [a.arg for a in clo.func.node.args.args]
        dts = set()
        for i, (nm, ty, nd, contig, const) in ps.items():
            v = args[i] if i < len(args) else kwargs.get(names[i])
            if not isinstance(v, ND):
                raise PathAbort(f'unknown memory view {show(v)}')
            a = np.asarray(v.a)
            if a.ndim != nd:
                raise RaiseSig('ValueError', f'Buffer has wrong number of dimensions ({nm})', it.loc())
            if ty == 'dtype':
                dts.add(a.dtype)
                if a.dtype.kind not in 'fc':
                    raise RaiseSig('TypeError', 'No matching signature found', it.loc())
            elif ty == 'int' and a.dtype != np.int32:
                raise RaiseSig('ValueError', 'Buffer dtype mismatch', it.loc())
            if contig and not a.flags.c_contiguous:
                raise RaiseSig('ValueError', 'ndarray is not C-contiguous', it.loc())
            w = Mem(a)
            if i < len(args):
                args[i] = w
            else:
                kwargs[names[i]] = w
        if len(dts) > 1:
            raise RaiseSig('ValueError', 'Buffer dtype mismatch', it.loc())
        return NotImplemented

    def on_binop(self, it, op, a, b):
        if op in ('/', '%') and self.kernel(it) and isinstance(a, int) and isinstance(b, int):
            if b == 0:
                it.state['errors'].append(f"{it.loc()}: integer division by zero")
                raise PathAbort('division by zero')
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == '/' else a - q * b
        return NotImplemented

    def on_isinstance(self, it, value, cls):
        if isinstance(value, (ND, SP)):
            n = show(cls)
            if n.startswith(('scipy.sparse.', 'numpy.')):
                from ..nd import ext_obj
                o = ext_obj(n)
                if isinstance(o, type):
                    return isinstance(value.a, o)
            return False if isinstance(cls, (Class,)) else None
        return None

    def on_call(self, it, f, args, kwargs, node):
        n = show(f)
        if n.endswith('.getboolean'):
            return self.flags.get(args[-1] if isinstance(args[-1], str) else None, False)
        if n.endswith('prange'):
            a = [unwrap(x) for x in args]
            return list(reversed(range(*a)))
        if n in ('numpy.empty', 'numpy.empty_like'):
            try:
                r = np.empty(*unwrap(list(args)), **unwrap(dict(kwargs))) if n.endswith('empty') else np.empty_like(*unwrap(list(args)), **unwrap(dict(kwargs)))
            except NotConcrete:
                return NotImplemented
            if r.dtype.kind in 'fc':
                r[...] = np.nan
            return ND(r)
        h = it.state.get('lib')
        if h is not None:
            r = h(it, n, args, kwargs)
            if r is not NotImplemented:
                return r
        return super().on_call(it, f, args, kwargs, node)


LAB = itertools.count(1)


def labels(shape, dtype, seed):
    r = np.random.RandomState(seed)
    a = r.randint(1, 97, size=shape).astype(float)
    if np.dtype(dtype).kind == 'c':
        a = a + 1j * r.randint(1, 97, size=shape)
    return a.astype(dtype)


def matrix(M, N, dtype, seed):
    a = labels((M, N), dtype, seed)
    r = np.random.RandomState(seed + 1)
    a[r.rand(M, N) < .35] = 0
    if M > 2:
        a[1] = 0
    return a


def upper(N, dtype, seed, gen=False):
    a = np.triu(matrix(N, N, dtype, seed), 1) / 16
    return a + np.diag(np.power(2., np.arange(N) % 3 + 1)).astype(dtype)


def noncanonical(a):
    """CSR form with unsorted indices and one split entry."""
    N = a.shape[0]
    ptr, idx, dat = [0], [], []
    for i in range(N):
        cols = list(np.nonzero(a[i])[0])[::-1]
        for j in cols:
            idx += [j, j]
            dat += [a[i, j] - 1, 1]
        ptr.append(len(idx))
    return sps.csr_matrix((np.array(dat, dtype=a.dtype), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=a.shape)


def strided(shape, dtype, kind, fill):
    """Array of given shape in a given memory arrangement."""
    if kind == 'C':
        a = np.empty(shape, dtype=dtype)
    elif kind == 'F':
        a = np.empty(shape, dtype=dtype, order='F')
    elif kind == 'rev':
        a = np.empty(shape, dtype=dtype)[::-1]
    elif kind == 'last':
        a = np.empty(shape[:-1] + (2 * shape[-1],), dtype=dtype)[..., ::2]
    elif kind == 'part':
        a = np.empty(tuple(n + 1 for n in shape), dtype=dtype)[tuple(slice(0, n) for n in shape)]
    a[...] = fill
    return a


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=1e-11)


SHAPES = {1: [((3,), 0)],
          2: [((3, 2), 0), ((2, 3), 1), ((3, 1), 0), ((1, 3), 1), ((3, 0), 0), ((0, 3), 1), ((1, 2), 0), ((2, 1), 1)],
          3: [((3, 2, 2), 0), ((2, 3, 2), 1), ((2, 2, 3), 2), ((3, 1, 1), 0), ((1, 3, 1), 1), ((1, 1, 3), 2), ((1, 3, 2), 1), ((2, 3, 1), 1), ((3, 2, 1), 0), ((1, 2, 3), 2), ((2, 1, 3), 2), ((0, 3, 2), 1), ((2, 1, 2), 1)],
          4: [((3, 2, 1, 2), 0), ((2, 3, 2, 2), 1), ((2, 2, 3, 2), 2), ((2, 1, 2, 3), 3), ((1, 1, 3, 2), 2), ((1, 1, 3, 1), 2), ((2, 2, 3, 1), 2), ((1, 3, 1, 2), 1), ((1, 1, 1, 3), 3)]}
EXTRA = [((3, 4, 2), 0), ((4, 3, 5), 1), ((2, 4, 3), 2), ((2, 3, 4, 2), 1), ((2, 3, 2, 3, 2), 1), ((2, 1, 3, 3), 3)]
DT = [(float, float), (float, complex), (complex, complex)]


def named(it, mod, name):
    r = it.module_name(mod, name)
    if r is None:
        raise AnalysisBroken(f"no function {name} in {mod.name}")
    return r[0]


class Run:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.mod = repo.module('tools.array')
        self.cfg = Cfg(signatures(repo))
        self.it = Interp(repo, self.cfg)

    def call(self, name, args, kwargs=None, lib=None, flags=None, mod=None):
        """-> (outcome, value, errors)"""
        self.cfg.flags = flags or {}
        err = []

        def go(it):
            it.state['errors'] = err
            it.state['lib'] = lib
            return it.call(named(it, mod or self.mod, name), list(args), dict(kwargs or {}))
        rs = self.it.explore(go)
        if len(rs) != 1:
            return 'abort', f'{len(rs)} paths', err
        r = rs[0]
        return r.outcome, r.value, err

    def judge(self, name, what, key, out, cond, allow=()):
        """One obligation."""
        o, v, err = out
        self.rep.count('kernel applications')
        if err:
            self.rep.violation(f"{name}|{key}", f"{name}({what}): {err[0]}", f"tools/array.py {name}")
            return
        if o == 'abort':
            self.rep.undec(f"{name}({what}): {getattr(v, 'why', v)}")
            return
        if o == 'raise':
            if v.name in allow:
                self.rep.ok()
                return
            self.rep.violation(f"{name}|{key}", f"{name}({what}) raises {v.name}: {show(v.value)}", v.loc)
            return
        try:
            msg = cond(v)
        except NotConcrete as e:
            self.rep.undec(f"{name}({what}): result {show(v)} is not known")
            return
        except (AttributeError, TypeError, ValueError, IndexError, KeyError) as e:
            msg = f"gives {show(v)}, which cannot be used ({e})"
        if msg:
            self.rep.violation(f"{name}|{key}", f"{name}({what}): {msg}", f"tools/array.py {name}")
        else:
            self.rep.ok(f"{name}({what})")


def dense(v):
    v = unwrap(v)
    return v.toarray() if sps.issparse(v) else np.asarray(v)


def applies(R, deep):
    fns = [('apply_sparse', 's'), ('apply_matrix', 's'), ('apply_sparse_dot', 's'), ('apply_dense', 'd'), ('apply_matrix', 'd'), ('apply_dense_einsum', 'd')]
    shapes = [x for n in SHAPES for x in SHAPES[n]] + (EXTRA if deep else EXTRA[1:2])
    for (name, kind), (shape, axis) in itertools.product(fns, shapes):
        n = shape[axis]
        for (dm, da), M in itertools.product(DT, (2, 4, n)):
            if M == n and (dm, da) != DT[1]:
                continue
            A = matrix(M, n, dm, 5 + M)
            x = labels(shape, da, 11)
            want = np.moveaxis(np.tensordot(A, x, axes=(1, axis)), 0, axis)
            oshape = want.shape
            mat = SP(sps.csr_matrix(A)) if kind == 's' else ND(A)
            arr = [('C', None), ('C', 'C'), ('F', None), ('last', 'C'), ('C', 'F'), ('C', 'rev'), ('C', 'part'), ('part', 'last')]
            if (dm, da) != DT[1] or M == 2:
                arr = arr[:3]
            for xi, oi in arr:
                X = strided(shape, da, xi, x)
                x0 = X.copy()
                kw = {}
                O = None
                if oi is not None:
                    O = strided(oshape, da, oi, np.nan)
                    kw['out'] = ND(O)
                for cs in ((False, True) if name == 'apply_sparse' and (xi, oi) == ('C', 'C') else (False,)):
                    if cs:
                        kw['check_shapes'] = True
                    for old in ((False, True) if name == 'apply_sparse' and len(shape) in (2, 3) and (xi, oi) in (('C', 'C'), ('C', None)) and not cs and dm == da else (False,)):
                        if O is not None:
                            O[...] = np.nan
                        if old and 0 in shape:
                            continue
                        out = R.call(name, [mat, ND(X), axis], kw, flags={'OLD_CSR_MATVECS': old})

                        def cond(v):
                            if not same(dense(v), want):
                                return f"returns {dense(v).tolist()} instead of the product {want.tolist()}"
                            if O is not None and not same(O, want):
                                return "the output array does not hold the product"
                            if not np.array_equal(X, x0):
                                return "the input array is modified"
                        R.judge(name, f"{np.dtype(dm)} {M}x{n} {'sparse' if kind == 's' else 'dense'} matrix, {np.dtype(da)} array {shape} ({xi}), axis={axis}, out={oi}" + (', check_shapes' if cs else '') + (', OLD_CSR_MATVECS' if old else ''), f"ndim{len(shape)}-{kind}" + (f"-{oi}" if oi not in (None, 'C') else ''), out, cond, allow=('ValueError',) if oi not in (None, 'C') else ())
    # In place application of dense matrices, wraparound axes
    for (shape, axis), (dm, da) in itertools.product(shapes, DT):
        n = shape[axis]
        A = matrix(n, n, dm, 3)
        x = labels(shape, da, 12)
        want = np.moveaxis(np.tensordot(A, x, axes=(1, axis)), 0, axis)
        for name in ('apply_dense', 'apply_matrix'):
            X = x.copy()
            R.judge(name, f"{n}x{n} dense matrix, array {shape}, axis={axis}, in place", 'inplace', R.call(name, [ND(A), ND(X), axis], {'out': ND(X)}), lambda v: None if same(X, want) and same(dense(v), want) else 'the array does not hold the product')
        for name in ('apply_dense', 'apply_sparse_dot'):
            R.judge(name, f"{n}x{n} matrix, array {shape}, axis={axis - len(shape)}", 'negaxis', R.call(name, [ND(A) if name == 'apply_dense' else SP(sps.csr_matrix(A)), ND(x), axis - len(shape)]), lambda v: None if same(dense(v), want) else 'wrong product')
    # Refusals of apply_sparse
    A = matrix(4, 3, float, 1)
    X = labels((2, 3, 2), float, 2)
    S = sps.csr_matrix(A)
    for what, a, k in [('matrix in CSC format', [SP(S.tocsc()), ND(X), 1], {}), ('output that is the input', [SP(sps.csr_matrix(A[:3])), 'X', 1], {'out': 'X'}),
                       ('axis out of bounds', [SP(S), ND(X), 3], {'check_shapes': True, 'out': ND(X.copy())}), ('negative axis', [SP(S), ND(X), -2], {'check_shapes': True, 'out': ND(np.zeros((2, 4, 2)))}),
                       ('input of another size', [SP(S), ND(X), 0], {'check_shapes': True}), ('larger input', [SP(S), ND(np.ones((2, 5, 2))), 1], {'check_shapes': True}), ('output of another size', [SP(S), ND(X), 1], {'check_shapes': True, 'out': ND(np.zeros((2, 3, 2)))})]:
        nx = ND(X)
        a = [nx if isinstance(y, str) else y for y in a]
        k = {q: nx if isinstance(y, str) else y for q, y in k.items()}
        R.judge('apply_sparse', what, 'refuse', R.call('apply_sparse', a, k), lambda v: 'is accepted', allow=('ValueError', 'IndexError'))


def solves(R, deep):
    shapes = [x for n in SHAPES for x in SHAPES[n]] + (EXTRA if deep else EXTRA[1:2])
    for shape, axis in shapes:
        n = shape[axis]
        for dm, da in DT:
            U = upper(n, dm, 9)
            b = labels(shape, da, 21)
            want = np.moveaxis(np.linalg.solve(U, np.moveaxis(b, axis, 0).reshape(n, -1)).reshape((n,) + tuple(np.delete(shape, axis))), 0, axis) if b.size else b
            mats = [('canonical', lambda: sps.csr_matrix(U)), ('with unsorted and repeated entries', lambda: noncanonical(U))]
            outs = [None, 'C', 'same'] + ([] if (dm, da) != DT[1] else ['F', 'rev', 'part', 'Frhs', 'sameF'])
            for (mk, mf), oi in itertools.product(mats, outs):
                if mk != 'canonical' and oi == 'same':
                    continue
                B = strided(shape, da, 'F' if oi in ('Frhs', 'sameF') else 'C', b)
                nb = ND(B)
                O = None if oi in (None, 'Frhs') else B if oi in ('same', 'sameF') else strided(shape, da, oi, np.nan)
                kw = {} if O is None else {'out': nb if O is B else ND(O)}
                if oi == 'C':
                    kw['check_shapes'] = True
                out = R.call('solve_upper_sparse', [SP(mf()), nb, axis], kw)

                def cond(v):
                    if v is None or not same(dense(v), want):
                        return f"returns {show(v)} instead of the solution {want.tolist()}"
                    if O is not None and not same(O, want):
                        return "the output array does not hold the solution"
                    if O is not B and not np.array_equal(B, b):
                        return "the right-hand side is modified"
                R.judge('solve_upper_sparse', f"{np.dtype(dm)} {n}x{n} matrix {mk}, {np.dtype(da)} right-hand side {shape}, axis={axis}, out={oi}", f"ndim{len(shape)}" + (f"-{oi}" if oi not in (None, 'C') else ''), out, cond, allow=('ValueError',) if oi in ('F', 'rev', 'part', 'Frhs', 'sameF') else ())
    U = upper(3, float, 2)
    X = labels((2, 3, 2), float, 2)
    for what, a in [('matrix in CSC format', [SP(sps.csc_matrix(U)), ND(X), 1]), ('axis out of bounds', [SP(sps.csr_matrix(U)), ND(X), 3]), ('another size', [SP(sps.csr_matrix(U)), ND(X), 0]), ('rectangular matrix', [SP(sps.csr_matrix(U[:2])), ND(X), 1])]:
        R.judge('solve_upper_sparse', what, 'refuse', R.call('solve_upper_sparse', a, {'check_shapes': True}), lambda v: 'is accepted', allow=('ValueError', 'IndexError'))


def matvecs(R):
    for d in (float, complex):
        A = matrix(4, 3, d, 8)
        S = sps.csr_matrix(A)
        x, o = labels(3, d, 1), labels(4, d, 2)
        O = o.copy()
        R.judge('csr_matvec', f'{np.dtype(d)}', 'add', R.call('csr_matvec', [SP(S), ND(x.copy()), ND(O)]), lambda v: None if same(O, o + A @ x) and same(dense(v), O) else 'the product is not added to the output')
        for split, k in itertools.product((False, True), (1, 2, 3)):
            x, o = labels((3, k), d, 1), labels((4, k), d, 2)
            O = o.copy()
            R.judge('csr_matvecs', f'{np.dtype(d)}, {k} vectors, split={split}', 'add', R.call('csr_matvecs', [SP(S), ND(x.copy()), ND(O)], flags={'SPLIT_CSR_MATVECS': split}), lambda v: None if same(O, o + A @ x) and same(dense(v), O) else 'the product is not added to the output')
    A = sps.csr_matrix(matrix(4, 3, float, 8))
    z = lambda *s: ND(np.zeros(s))
    for n, a in [('csr_matvec', [SP(A.tocsc()), z(3), z(4)]), ('csr_matvec', [SP(A), z(4), z(4)]), ('csr_matvec', [SP(A), z(3), z(3)]), ('csr_matvec', [SP(A), z(3, 1), z(4)]), ('csr_matvec', [SP(A), z(3), z(4, 1)]),
                 ('csr_matvecs', [SP(A.tocsc()), z(3, 2), z(4, 2)]), ('csr_matvecs', [SP(A), z(4, 2), z(4, 2)]), ('csr_matvecs', [SP(A), z(3, 2), z(3, 2)]), ('csr_matvecs', [SP(A), z(3, 2), z(4, 1)]), ('csr_matvecs', [SP(A), z(3), z(4, 1)]), ('csr_matvecs', [SP(A), z(3, 1), z(4)]), ('csr_matvecs', [SP(A), z(2, 3), z(4, 3)])]:
        R.judge(n, f"{a[0].a.format} {a[0].a.shape}, {a[1].a.shape}, {a[2].a.shape}", 'refuse', R.call(n, a), lambda v: 'is accepted', allow=('ValueError',))


def sparse_tools(R):
    sp = lambda a, f='csr': SP(sps.csr_matrix(a).asformat(f))
    A, B = matrix(3, 3, float, 1), matrix(3, 3, complex, 2)
    Q = matrix(2, 3, float, 3)
    for f in ('csr', 'csc', 'coo'):
        for what, a, want in [('matrices', (sp(A, f), sp(B)), A + B), ('scalar and matrix', (2.5, sp(A, f)), 2.5 * np.eye(3) + A), ('matrix and scalar', (sp(A, f), -2), A - 2 * np.eye(3)), ('zero and matrix', (0, sp(A, f)), A), ('complex scalar', (ND(np.complex128(2j)), sp(B, f)), B + 2j * np.eye(3)), ('scalars', (2, 3), np.array(5))]:
            R.judge('add_sparse', f'{what}, {f}', 'sum', R.call('add_sparse', list(a)), lambda v: None if same(dense(v), want) else f"gives {dense(v).tolist()} instead of {want.tolist()}")
    # block diagonals
    blocks = [matrix(2, 3, float, 4), np.zeros((0, 2)), matrix(1, 1, complex, 5) + 1, np.zeros((2, 0)), np.zeros((2, 1)), matrix(3, 2, float, 6)]
    for n in range(4):
        for bl in itertools.permutations(range(6), n) if n < 3 else [(0, 1, 2), (1, 2, 3), (2, 3, 5), (5, 3, 1), (1, 0, 3), (3, 0, 1), (4, 4, 2), (1, 3, 1)]:
            bs = [blocks[i] for i in bl]
            m, k = sum(b.shape[0] for b in bs), sum(b.shape[1] for b in bs)
            for shape in (None, (m + 1, k + 2)):
                want = np.zeros(shape or (m, k), dtype=complex)
                i = j = 0
                for b in bs:
                    want[i:i + b.shape[0], j:j + b.shape[1]] = b
                    i += b.shape[0]
                    j += b.shape[1]
                R.judge('sparse_block_diag', f'blocks {[b.shape for b in bs]}, shape={shape}', 'blocks', R.call('sparse_block_diag', [[SP(sps.csr_matrix(b)) if k2 % 2 == 0 else ND(b) for k2, b in enumerate(bs)]], {'shape': shape} if shape else {}), lambda v: None if sps.issparse(unwrap(v)) and same(dense(v), want) else f"gives {dense(v).tolist()}")
    # patterns
    E = sps.csr_matrix((np.array([0., 3.]), np.array([0, 2]), np.array([0, 1, 2, 2])), shape=(3, 3))
    for ms in [(A,), (A, B), (A, B, E), (E, A.T.copy())]:
        S = [m if sps.issparse(m) else sps.csr_matrix(m) for m in ms]
        pat = {(i, j) for m in S for i, j in zip(m.tocoo().row, m.tocoo().col)}

        def cz(v):
            z = unwrap(v).tocoo()
            if z.shape != (3, 3) or np.any(z.data != 0):
                return 'the result has nonzero entries'
            if {(i, j) for i, j in zip(z.row, z.col)} != pat:
                return 'the pattern is not the union of the patterns'
            if z.tocsr().nnz != len(pat):
                return 'explicit zeros are lost'
        R.judge('zeros_with_pattern', f'{len(S)} matrices', 'pattern', R.call('zeros_with_pattern', [SP(m) for m in S]), cz)

        def ce(v):
            z = unwrap(v).tocsr()
            if not same(z.toarray(), S[-1].toarray()):
                return 'the entries are not those of the input'
            z = z.tocoo()
            if not {(i, j) for i, j in zip(z.row, z.col)} >= pat:
                return 'entries of the pattern are missing'
        z = sum(abs(m) * 0 for m in S)
        P = sps.coo_matrix((np.zeros(len(pat)), tuple(np.array(sorted(pat)).T)), shape=(3, 3)).tocsr()
        S0 = S[-1].copy()
        R.judge('expand_pattern', f'pattern of {len(S)} matrices', 'pattern', R.call('expand_pattern', [SP(S[-1]), SP(P)]), ce)
        for m in S:
            R.judge('expand_pattern', f'pattern with values, {len(S)} matrices', 'values', R.call('expand_pattern', [SP(S[-1]), SP(m)]), lambda v: None if same(dense(v), S[-1].toarray()) else 'the entries are not those of the input')
        R.judge('expand_pattern', 'input unchanged', 'input', ('return', None, []), lambda v: None if same(S0.toarray(), S[-1].toarray()) else 'the input is modified')
    # permutations
    for n in (1, 2, 3):
        for p in itertools.permutations(range(n)):
            for src, sparse, M, form in itertools.product((False, True), (True, False), (None, n + 2), ('list', 'array')):
                if src and M:
                    continue
                want = np.zeros((M or n, n))
                for i, q in enumerate(p):
                    if src:
                        want[i, q] = 1
                    else:
                        want[q, i] = 1
                R.judge('perm_matrix', f'{p}, M={M}, source_index={src}, sparse={sparse}', 'perm', R.call('perm_matrix', [ND(np.array(p)) if form == 'array' else list(p)], {'M': M, 'source_index': src, 'sparse': sparse} if M else {'source_index': src, 'sparse': sparse}), lambda v: None if same(dense(v), want) and sps.issparse(unwrap(v)) == sparse else f"gives {dense(v).tolist()}")
    for m in (A, Q, B, np.zeros((2, 3)), np.array([[0, 0], [1, 0], [0, 0], [0, 2.]])):
        for f in ('csr', 'coo', 'csc'):
            want = m[np.any(m != 0, axis=1)]
            R.judge('drop_empty_rows', f'{m.shape} {f}', 'rows', R.call('drop_empty_rows', [sp(m, f)]), lambda v: None if same(dense(v), want) else f"gives {dense(v).tolist()}")
    # interleaving
    for k in (1, 2, 3):
        ms = [matrix(2, 3, complex if i % 2 else float, 30 + i) for i in range(k)]
        want = np.zeros((2 * k, 3 * k), dtype=complex)
        for i, m in enumerate(ms):
            want[i::k, i::k] = m
        R.judge('interleave_matrices', f'{k} matrices', 'interleave', R.call('interleave_matrices', [[sp(m) for m in ms]]), lambda v: None if same(dense(v), want) else f"gives {dense(v).tolist()}")
    for facs in ([], [A], [A, Q], [Q, A, B]):
        want = np.identity(1)
        for f in facs:
            want = np.kron(want, f)
        R.judge('kron', f'{len(facs)} factors', 'kron', R.call('kron', [ND(f) for f in facs]), lambda v: None if same(dense(v), want) else 'is not the Kronecker product in order')
    for n in (0, 1, 2, 3):
        want = np.identity(1)
        for i in range(n):
            want = np.kron(want, Q)
        R.judge('nkron', f'{n}', 'kron', R.call('nkron', [ND(Q), n]), lambda v: None if same(dense(v), want) else 'is not the Kronecker power')


def arrays(R):
    for shape in ((3,), (3, 2), (2, 3), (2, 3, 4), (2, 2, 3, 2)):
        x = labels(shape, float, 4)
        for ax in range(len(shape)):
            n = shape[ax]
            for p in itertools.permutations(range(n)) if n < 4 else [(1, 3, 0, 2)]:
                want = np.take(x, p, axis=ax)
                for oi in (None, 'C', 'same'):
                    X = x.copy()
                    nx = ND(X)
                    O = None if oi is None else X if oi == 'same' else np.full(shape, np.nan)
                    kw = {} if O is None else {'out': nx if O is X else ND(O)}
                    R.judge('permute_axis', f'array {shape}, axis={ax}, {p}, out={oi}', 'permute', R.call('permute_axis', [nx, ax, ND(np.array(p))], kw), lambda v: None if same(dense(v), want) and (O is None or same(O, want)) and (O is X or same(X, x)) else 'is not the permuted array')
            for dst in range(len(shape)):
                R.judge('move_single_axis', f'array {shape}, {ax} -> {dst}', 'move', R.call('move_single_axis', [ND(x), ax, dst]), lambda v: None if same(dense(v), np.moveaxis(x, ax, dst)) else 'axes are arranged differently')
            for s in [(0, 1), (1, None), (0, None, 2), (1, None, 2), (-1, None), (1, -1), (None, None, -1), (-1, -3, -1)]:
                idx = (slice(None),) * ax + (slice(*s),)
                R.judge('axslice', f'axis={ax}, {s}', 'slice', R.call('axslice', [ax] + list(s)), lambda v: None if same(x[unwrap(v)], x[idx]) else 'selects other entries')
            R.judge('axindex', f'axis={ax}', 'index', R.call('axindex', [ax, 1]), lambda v: None if same(x[unwrap(v)], np.take(x, 1, axis=ax)) else 'selects other entries')
    for n, a in (('axindex', [-1, 0]), ('axslice', [-2, 0, 1])):
        R.judge(n, 'negative axis', 'refuse', R.call(n, a), lambda v: 'is accepted', allow=('ValueError',))
    v1 = labels((4,), float, 7)
    for dim in (1, 2, 3, 4):
        for ax in range(-dim, dim):
            want = [1] * dim
            want[ax] = 4
            R.judge('reshape_vector', f'dim={dim}, axis={ax}', 'reshape', R.call('reshape_vector', [ND(v1)], {'dim': dim, 'axis': ax}), lambda v: None if same(dense(v), v1.reshape(want)) else f"has shape {dense(v).shape}")
    x, y = labels((2, 3), float, 1), np.zeros((2, 3))
    R.judge('copyto', '', 'copy', R.call('copyto', [ND(y), ND(x)]), lambda v: None if same(x, y) else 'the destination is not overwritten')


# ---- solvers built on library factorisations ----------------------------------

class LU(AbsVal):
    def __init__(self, a, R):
        self.m, self.R = a, R

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        if name == 'solve':
            x = unwrap(args[0])
            tr = kwargs.get('trans', args[1] if len(args) > 1 else 'N')
            if np.iscomplexobj(x) and not np.iscomplexobj(self.m):
                raise RaiseSig('TypeError', 'Cannot cast array data from complex128 to float64', it.loc())
            m = {'N': self.m, 'T': self.m.T, 'H': self.m.conj().T}[tr]
            return ND(np.linalg.solve(m, x))
        return NotImplemented


class LinOp(AbsVal):
    def __init__(self, kw):
        self.kw = kw

    def truth(self, it):
        return True


def factorisations(R):
    def lib(it, n, args, kwargs):
        if n.endswith('.splu'):
            m = unwrap(args[0])
            if m.format != 'csc':
                it.state['errors'].append('splu is given a matrix that is not CSC')
            return LU(m.toarray(), R)
        if n.endswith('.LinearOperator'):
            return LinOp({**dict(zip(('shape', 'matvec'), args)), **kwargs})
        return NotImplemented
    for dm, dx in ((float, float), (float, complex), (complex, complex)):
        A = upper(3, dm, 4) + np.tril(labels((3, 3), dm, 5), -1) / 64
        for k in ('matvec', 'matmat'):
            x = labels((3,) if k == 'matvec' else (3, 2), dx, 3)
            err = []

            def go(it):
                it.state['errors'], it.state['lib'] = err, lib
                op = it.call(named(it, R.mod, 'splu_inverse'), [SP(sps.csr_matrix(A))], {})
                if not isinstance(op, LinOp):
                    raise PathAbort(f'unknown operator {show(op)}')
                if k not in op.kw:
                    raise PathAbort(f'no {k}')
                return it.call(op.kw[k], [ND(x)], {})
            r = R.it.explore(go)[0]
            R.judge('splu_inverse', f'{np.dtype(dm)} matrix, {np.dtype(dx)} {k}', 'solve', (r.outcome, r.value, err), lambda v: None if same(dense(v), np.linalg.solve(A, x)) else 'does not solve with the matrix')

    class Solver(AbsVal):
        def __init__(self, m):
            self.m = m

        def callmethod(self, it, name, args, kwargs):
            if name == 'solve':
                return ND(np.linalg.solve(self.m, unwrap(args[0])))
            if name == 'solve_H':
                return ND(np.linalg.solve(self.m.conj().T, unwrap(args[0])))
            return NotImplemented

    def lib2(it, n, args, kwargs):
        if n.endswith('.LinearOperator'):
            return LinOp({**dict(zip(('shape', 'matvec'), args)), **kwargs})
        if n.endswith('.eigs'):
            op = args[0] if args else kwargs['A']
            k = unwrap(kwargs.get('k', args[1] if len(args) > 1 else 6))
            if not isinstance(op, LinOp):
                raise PathAbort('eigenvalue search on an unknown operator')
            N = unwrap(op.kw['shape'])[0]
            cols = [np.asarray(unwrap(it.call(op.kw['matvec'], [ND(e)], {}))) for e in np.eye(N, dtype=complex)]
            D = np.array(cols).T
            w, v = np.linalg.eig(D)
            which = kwargs.get('which', 'LM')
            o = np.argsort(-abs(w)) if which == 'LM' else np.argsort(abs(w))
            if kwargs.get('sigma') is not None:
                o = np.argsort(abs(w - unwrap(kwargs['sigma'])))
            it.state.setdefault('kw', []).append({q: show(x) for q, x in kwargs.items()})
            return (ND(w[o][:k]), ND(v[:, o][:, :k]))
        return NotImplemented
    for (d, target, left) in itertools.product((float, complex), (0, 1.3, .4 + .9j), (False, True)):
        A = labels((4, 4), d, 31) / 8 + np.diag([3., -2, 5, 1])
        B = upper(4, d, 32)
        B[3, 3] = 0.5
        w = np.linalg.eigvals(np.linalg.solve(B, A))
        want = np.sort_complex(w[np.argsort(abs(w - target))][:2])

        def cond(v):
            v = [np.asarray(unwrap(x)) for x in v]
            if len(v) != (4 if left else 2):
                return f"returns {len(v)} arrays"
            if not same(np.sort_complex(np.round(v[0], 8)), np.sort_complex(np.round(want, 8))):
                return f"returns the eigenvalues {v[0].tolist()} instead of those nearest the target {want.tolist()}"
            if not np.allclose(A @ v[1], B @ v[1] * v[0], atol=1e-7):
                return "A.x = lambda B.x does not hold"
            if left:
                if not np.allclose(A.conj().T @ v[3], B.conj().T @ v[3] * v[2], atol=1e-7):
                    return "the left eigenpairs do not satisfy A^H.y = mu B^H.y"
                if not same(np.sort_complex(np.round(v[2], 8)), np.sort_complex(np.round(want.conj(), 8))):
                    return "the left eigenvalues are not the conjugates of the eigenvalues"
        R.judge('scipy_sparse_eigs', f'{np.dtype(d)}, target={target}, left={left}', 'pairs', R.call('scipy_sparse_eigs', [SP(sps.csr_matrix(A)), SP(sps.csr_matrix(B)), left, 2, ND(np.asarray(target)[()]) if not isinstance(target, int) else target, Native('matsolver', lambda it, m: Solver(unwrap(m).toarray()))], {}, lib=lib2), cond)


def run(repo, rep):
    deep = rep.tier == 'thorough'
    rep.rule("for all ranks, axes, extents, strides and dtypes: applied matrices give the tensor contraction along the axis, write all of the output and nothing else, or refuse the arrays")
    rep.rule("triangular solves give the solution; memory views are never indexed outside their extent")
    rep.rule("accumulating products, block diagonals, patterns, permutations, interleaving, Kronecker products and axis selections equal their definitions")
    R = Run(repo, rep)
    applies(R, deep)
    solves(R, deep)
    matvecs(R)
    sparse_tools(R)
    arrays(R)
    factorisations(R)
    rep.floor('kernel applications', 1000)
