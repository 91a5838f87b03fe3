"""Layout chain and block distribution.

The construction of the layouts is abstractly interpreted for every pattern of
distributed / undistributed mesh directions (process counts are symbolic
integers larger than one); the chain of layouts and paths is then checked as a
typestate sequence.  The block formulas (first/last chunk, elements, slices,
shapes) are extracted as closed forms in symbolic sizes, process counts and
process coordinates and compared with the canonical block partition.
"""
import itertools
import sympy
from ..interp import *
from ..repo import AnalysisBroken
from ..formula import agree


class Cart(AbsVal):
    def __init__(self, dims):
        self.dims = dims

    def getattr(self, it, name):
        if name == 'coords':
            return [sympy.Symbol(f'c{i}', integer=True, nonnegative=True) for i in range(len(self.dims))]
        if name in ('dim', 'ndim'):
            return len(self.dims)
        if name == 'dims':
            return list(self.dims)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'Sub':
            a = args[0] if args else kwargs.get('remain_dims')
            return Term('subcomm', *[int(toint_(x)) for x in it.iterate(a)])
        if name == 'Get_coords':
            pre = 'rc' if args and str(args[0]) == 'rank' else 'badcoord'
            return [sympy.Symbol(f'{pre}{i}', integer=True, nonnegative=True) for i in range(len(self.dims))]
        return NotImplemented


def toint_(x):
    return int(x)


class Comm(AbsVal):
    def __init__(self, size):
        self.size = size

    def getattr(self, it, name):
        if name == 'size':
            return self.size
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'Create_cart':
            return Cart([x for x in it.iterate(args[0])])
        if name == 'Get_size':
            return self.size
        return NotImplemented


class Cfg(Config):
    max_paths = 40

    def on_call(self, it, f, args, kwargs, node):
        if isinstance(f, Term) and f.op == 'attr' and f.args[1] in ('debug', 'info', 'warning'):
            return None
        return NotImplemented


def build(repo, mesh, D, trailing=0):
    cls = repo.cls('core.distributor', 'Distributor')
    cfg = Cfg()
    it = Interp(repo, cfg)
    size = sympy.Integer(1)
    for m in mesh:
        size = size * m

    def go(it):
        coords = tuple(Obj(None, f'x{i}') for i in range(D))
        cs = Obj(None, 'cs', {'coords': coords, 'dim': D})
        d = Obj(cls, 'dist')
        init = cls.method('__init__')
        it.call(Closure(init, None, d, init.cls), [[cs]], {'comm': Comm(size), 'mesh': tuple(list(mesh) + [1] * trailing), 'dtype': sym('dtype')})
        it.state['d'] = d
        return d
    return it.explore(go), it


def run(repo, rep):
    rep.rule('each consecutive pair of layouts differs by one transform of a local axis or one exchange of adjacent axes')
    rep.rule('first layout all coefficient, last all grid, transforms from last to first axis, process mesh direction follows the distributed axis')
    rep.rule('block formulas equal the canonical partition: start = min(K, ceil(K/m) c), stop = min(K, ceil(K/m) (c+1)), K = ceil(N/C)')
    maxd = 4 if rep.tier == 'quick' else 5
    for D in range(1, maxd + 1):
        for R in range(0, D):
            for pat in itertools.product((0, 1), repeat=R):
                if pat and pat[-1] == 0:
                    continue
                for trailing in ((0, 1) if R + 1 < D else (0,)):
                    chain(repo, rep, D, pat, trailing)
    rep.floor('mesh patterns', 15)
    partition(repo, rep)


def chain(repo, rep, D, pat, trailing):
    mesh = [2 + sympy.Symbol(f'k{i}', integer=True, nonnegative=True) if p else sympy.Integer(1) for i, p in enumerate(pat)]
    rs, it = build(repo, mesh, D, trailing)
    rep.count('mesh patterns')
    what = f"D={D}, mesh pattern {tuple('m' if p else 1 for p in pat)}{' + trailing 1' if trailing else ''}"
    loc = repo.cls('core.distributor', 'Distributor').loc
    K = lambda w: f"D02|layouts|{w}"
    done = False
    for r in rs:
        if r.outcome == 'abort':
            rep.undec(f"{what}: {r.value}")
            continue
        if r.outcome == 'raise':
            rep.violation(K('raises'), f"construction raises {r.value.name}: {r.value.value} for {what}", r.value.loc)
            continue
        if r.decisions:
            rep.undec(f"{what}: undetermined {r.cond_text()}")
            continue
        done = True
        check_chain(repo, rep, r.extra['d'], D, mesh, what, K, loc)
    if not done:
        rep.undec(f"{what}: no path analysed")


def lst(v):
    if isinstance(v, np.ndarray):
        return [x for x in v.tolist()]
    return list(v)


def check_chain(repo, rep, d, D, mesh, what, K, loc):
    A = d.attrs
    layouts, paths, transforms = A.get('layouts'), A.get('paths'), A.get('transforms')
    if not all(isinstance(x, list) for x in (layouts, paths, transforms)):
        rep.undec(f"{what}: layout lists not determined")
        return
    dist_axes = [i for i, m in enumerate(mesh) if m != 1]
    R = len(dist_axes)
    C = lambda cond, key, msg: rep.check(cond, K(key), f"{msg} for {what}", loc)
    if not C(len(layouts) == D + R + 1 and len(paths) == D + R, 'count', f"{len(layouts)} layouts and {len(paths)} paths (expected {D + R + 1} and {D + R})"):
        return
    L = [{k: lst(l.attrs[k]) for k in ('local', 'grid_space', 'ext_mesh', 'ext_coords')} for l in layouts]
    C(not any(L[0]['grid_space']), 'first layout', f"first layout has grid-space axes {L[0]['grid_space']}")
    C([i for i in range(D) if not L[0]['local'][i]] == dist_axes, 'first layout local', f"first layout locality {L[0]['local']}")
    C(all(L[-1]['grid_space']), 'last layout', f"last layout grid_space {L[-1]['grid_space']}")
    C(A.get('coeff_layout') is layouts[0] and A.get('grid_layout') is layouts[-1], 'references', "coefficient/grid layout references are not the ends of the chain")
    ref = A.get('layout_references')
    if isinstance(ref, dict):
        C(ref.get('c') is layouts[0] and ref.get('g') is layouts[-1], 'string references', "'c'/'g' do not reference the ends of the chain")
    for i, l in enumerate(layouts):
        C(l.attrs.get('index') == i, 'index', f"layout {i} has index {show(l.attrs.get('index'))}")
        non = [a for a in range(D) if not L[i]['local'][a]]
        C(len(non) == R, 'distributed axes', f"layout {i} has {len(non)} distributed axes (expected {R})")
        C([str(L[i]['ext_mesh'][a]) for a in non] == [str(m) for m in mesh if m != 1] and all(L[i]['ext_mesh'][a] == 1 for a in range(D) if a not in non),
          'mesh of layout', f"layout {i} process mesh {[str(x) for x in L[i]['ext_mesh']]}")
        C([str(L[i]['ext_coords'][a]) for a in non] == [f'c{j}' for j in range(len(non))] and all(L[i]['ext_coords'][a] == 0 for a in range(D) if a not in non),
          'coords of layout', f"layout {i} process coordinates {[str(x) for x in L[i]['ext_coords']]}")
    order = []
    for i, p in enumerate(paths):
        a, b = L[i], L[i + 1]
        nm = p.cls.name if isinstance(p, Obj) and p.cls else show(p)
        dg = [x for x in range(D) if a['grid_space'][x] != b['grid_space'][x]]
        dl = [x for x in range(D) if a['local'][x] != b['local'][x]]
        C(p.attrs.get('layout0') is layouts[i] and p.attrs.get('layout1') is layouts[i + 1], 'path ends', f"path {i} ({nm}) does not join layouts {i} and {i + 1}")
        ax = p.attrs.get('axis')
        if nm == 'Transform' or len(dg):
            ok = len(dg) == 1 and not dl and dg[0] == ax and a['local'][ax] and b['grid_space'][ax]
            C(ok and nm == 'Transform', 'transform step', f"path {i} ({nm} axis {show(ax)}) changes spaces of axes {dg} and locality of {dl}")
            order += dg
        else:
            ok = isinstance(ax, int) and dl == [ax, ax + 1] and not a['local'][ax] and a['local'][ax + 1] and b['local'][ax] and not b['local'][ax + 1]
            C(ok and nm == 'Transpose', 'transpose step', f"path {i} ({nm} axis {show(ax)}) changes locality of axes {dl}")
            if ok:
                non = [x for x in range(D) if not a['local'][x]]
                want = [int(x == ax) for x in non]
                sub = p.attrs.get('comm_sub')
                C(isinstance(sub, Term) and sub.op == 'subcomm' and list(sub.args) == want, 'transpose communicator',
                  f"path {i} communicates along mesh directions {show(sub)} instead of {want}")
    C(order == list(range(D))[::-1], 'transform order', f"axes are transformed in the order {order}")
    C([t.attrs.get('axis') for t in transforms] == list(range(D)), 'transform lookup', f"transforms by axis are {[show(t.attrs.get('axis')) for t in transforms]}")


# --------------------------------------------------------------------------- block partition

class Rng(AbsVal):
    """Integer range start..stop (vector)."""
    def __init__(self, a, b, rep=1, tile=None):
        self.a, self.b = sympy.sympify(a), sympy.sympify(b)

    def __repr__(self):
        return f"range({self.a}, {self.b})"

    def size(self):
        return self.b - self.a

    def getattr(self, it, name):
        if name == 'size':
            return self.size()
        if name == 'shape':
            return (self.size(),)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == '__len__':
            return self.size()
        if name == 'min':
            return self.a
        if name == 'max':
            return self.b - 1
        if name == 'astype':
            return self
        return NotImplemented

    def getitem(self, it, key):
        if key == 0:
            return self.a
        if key == -1:
            return self.b - 1
        return NotImplemented

    def binop(self, it, op, o, swapped):
        if isinstance(o, (int, sympy.Basic)):
            if op == '+':
                return Rng(self.a + o, self.b + o)
            if op == '-' and not swapped:
                return Rng(self.a - o, self.b - o)
        return NotImplemented

    def truth(self, it):
        return None


class Blk(AbsVal):
    """Vector built from a range by repeat/tile: value = scale*(q) + unit*(r) for q in range, r in range(n)."""
    def __init__(self, q, r, n, cq, cr, count):
        self.q, self.r, self.n, self.cq, self.cr, self.count = q, r, n, cq, cr, count

    def binop(self, it, op, o, swapped):
        if op == '*' and isinstance(o, (int, sympy.Basic)):
            return Blk(self.q, self.r, self.n, self.cq * o, self.cr * o, self.count)
        if op == '+' and isinstance(o, Blk):
            q = self.q or o.q
            # repeat(R, n) has major index R and minor index of length n; tile(S, k) has minor index S
            cq, cr = self.cq + o.cq, self.cr + o.cr
            R = self.q if self.q is not None else o.q
            S = self.r if self.r is not None else o.r
            if R is None or S is None:
                return NotImplemented
            n = self.n if self.n is not None else o.n
            cnt = self.count if self.count is not None else o.count
            if cnt is not None and sympy.simplify(cnt - R.size()) != 0:
                return Term('badblock')
            if S.a == 0 and sympy.simplify(S.b - n) == 0 and cr == 1 and sympy.simplify(cq - n) == 0:
                return Rng(n * R.a, n * R.b)
            return Term('badblock')
        return NotImplemented


class PCfg(Config):
    max_paths = 60

    def __init__(self, D, R):
        self.N = [sympy.Symbol(f'N{i}', integer=True, nonnegative=True) for i in range(D)]
        self.C = [sympy.Symbol(f'C{i}', integer=True, positive=True) for i in range(D)]

    def on_call(self, it, f, args, kwargs, node):
        if isinstance(f, Term) and f.op == 'attr' and f.args[0] == sym('domain') or isinstance(f, Term) and f.op == 'attr' and isinstance(f.args[0], Obj) and f.args[0].name == 'domain':
            if f.args[1] == 'global_shape':
                return tuple(self.N)
            if f.args[1] == 'chunk_shape':
                return tuple(self.C)
        if isinstance(f, Term) and f.op == 'attr' and f.args[1] == 'remedy_scales':
            return args[0]
        if isinstance(f, Term) and f.op == 'ext':
            n = f.args[0]
            if n == 'numpy.arange':
                if len(args) == 1:
                    return Rng(0, args[0])
                if len(args) == 2:
                    return Rng(args[0], args[1])
            if n == 'numpy.repeat' and isinstance(args[0], Rng):
                return Blk(args[0], None, sympy.sympify(args[1]), sympy.Integer(1), sympy.Integer(0), None)
            if n == 'numpy.tile' and isinstance(args[0], Rng):
                return Blk(None, args[0], None, sympy.Integer(0), sympy.Integer(1), sympy.sympify(args[1]))
        return NotImplemented

    def on_truth(self, it, v):
        if isinstance(v, Rng):
            return None
        return None


def mk_layout(repo, it, D, local, cfg):
    cls = repo.cls('core.distributor', 'Layout')
    non = [i for i in range(D) if not local[i]]
    m = [sympy.Symbol(f'm{i}', integer=True, positive=True) for i in range(D)]
    c = [sympy.Symbol(f'c{i}', integer=True, nonnegative=True) for i in range(D)]
    dist = Obj(None, 'dist', {'dim': D, 'comm_cart': Cart([1] * len(non))})
    o = Obj(cls, 'layout', {
        'dist': dist, 'local': np.array(local, dtype=object), 'grid_space': np.array([False] * D, dtype=object),
        'ext_mesh': np.array([m[i] if not local[i] else 1 for i in range(D)], dtype=object),
        'ext_coords': np.array([c[i] if not local[i] else 0 for i in range(D)], dtype=object)})
    return o, m, c


def canonical(N, C, m, c):
    K = sympy.ceiling(N / C)
    b = sympy.ceiling(K / m)
    return sympy.Min(K, b * c), sympy.Min(K, b * (c + 1)), K


GRID = {'N': range(0, 8), 'C': (1, 2, 3), 'm': (1, 2, 3, 4), 'c': (0, 1, 2, 3)}


def eq(a, b, cfg=None):
    return agree(a, b, lambda s: GRID.get(s[0], range(0, 4)))


def partition(repo, rep):
    D = 3
    local = [False, True, False]
    cls = repo.cls('core.distributor', 'Layout')
    for meth in ('local_chunks', 'local_elements', 'slices', 'local_shape'):
        f = cls.method(meth)
        if f is None:
            raise AnalysisBroken(f"Layout.{meth} not found")
        for rank in (False, True) if meth in ('local_chunks', 'local_elements', 'local_shape') else (False,):
            for bc in (False, True) if meth in ('local_chunks', 'local_elements') else (False,):
                for basis in ((1, 1, 1), (None, 1, 1), (1, 1, None)):
                    cfg = PCfg(D, 2)
                    it = Interp(repo, cfg)

                    def go(it):
                        o, m, c = mk_layout(repo, it, D, local, cfg)
                        it.state.update(m=m, c=c)
                        dom = Obj(None, 'domain', {'full_bases': tuple(None if b is None else Obj(None, f'b{i}') for i, b in enumerate(basis))})
                        kw = {}
                        if rank:
                            kw['rank'] = sympy.Symbol('rank', integer=True, nonnegative=True)
                        if bc:
                            kw['broadcast'] = True
                        return it.call(it.getattr(o, meth), [dom, sym('scales')], kw)
                    for r in it.explore(go):
                        rep.count('block formulas')
                        one_partition(repo, rep, meth, f, r, rank, bc, basis, cfg, D, local)
    rep.floor('block formulas', 20)


def one_partition(repo, rep, meth, f, r, rank, bc, basis, cfg, D, local):
    K = lambda w: f"D02|Layout.{meth}|{w}"
    what = f"rank={'given' if rank else 'own'}, broadcast={bc}, constant axes {[i for i, b in enumerate(basis) if b is None]}"
    if r.outcome == 'abort':
        rep.undec(f"{meth}: {r.value}")
        return
    if r.outcome == 'raise':
        rep.violation(K('raises'), f"{meth} raises {r.value.name} ({what})", r.value.loc)
        return
    v = r.value
    if isinstance(v, Term) and v.op == 'tuple':
        v = tuple(v.args)
    if not isinstance(v, (tuple, list)) or len(v) != D:
        rep.undec(f"{meth}: result {show(v)[:100]}")
        return
    for ax in range(D):
        N, C, m = cfg.N[ax], cfg.C[ax], r.extra['m'][ax]
        if local[ax]:
            a, b, Kc = sympy.Integer(0), sympy.ceiling(N / C), sympy.ceiling(N / C)
            coord = None
        else:
            j = [i for i in range(D) if not local[i]].index(ax)
            coord = sympy.Symbol(f'rc{j}', integer=True, nonnegative=True) if rank else r.extra['c'][ax]
            if bc and basis[ax] is None:
                coord = sympy.Integer(0)
            a, b, Kc = canonical(N, C, m, coord)
        x = v[ax]
        if meth in ('local_elements', 'slices', 'local_shape'):
            a, b = C * a, C * b
        if isinstance(x, Rng):
            got = (x.a, x.b)
            if meth == 'local_shape' or meth == 'slices':
                rep.violation(K('kind'), f"axis {ax} gives {x}", f.loc)
                continue
            want = (a, b)
        elif isinstance(x, slice) and meth == 'slices':
            want = (a, b)
            got = (x.start, x.stop)
            if got == (0, 0):
                # the empty case: fine if the path established an empty range
                conds = [show(t) for t, val, _ in r.decisions if not val]
                if conds:
                    rep.ok(f"{meth} axis {ax}: empty")
                    continue
        elif meth == 'local_shape' and isinstance(x, (int, sympy.Basic)):
            got, want = (x,), (b - a,)
        elif isinstance(x, Term) and x.op == 'badblock':
            rep.violation(K('elements'), f"axis {ax} elements are not the consecutive elements of the local chunks ({what})", f.loc)
            continue
        else:
            rep.undec(f"{meth} axis {ax}: {show(x)[:120]}")
            continue
        for g, w, nm in zip(got, want, ('start', 'stop')):
            g = conv(g)
            if g is None:
                rep.undec(f"{meth} axis {ax}: {show(got)}")
                continue
            ok, wit = eq(g, w)
            rep.check(ok, K('block'), f"axis {ax} {nm} of local {meth} is {g} instead of {w} ({what}); differs at {wit}", f.loc, f"Layout.{meth} axis {ax} {nm} ({what})")


def conv(g):
    """Replace coordof(rank, j) terms by symbols."""
    try:
        e = to_sympy(g, {}) if not isinstance(g, (int, sympy.Basic)) else sympy.sympify(g)
    except Exception:
        return None
    return e
