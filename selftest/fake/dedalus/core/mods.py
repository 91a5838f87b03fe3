import dataclasses
from dataclasses import dataclass, field
from enum import Enum
import functools
from ..tools import util
from ..tools.util import helper, CONST as CC
from typing import NamedTuple

TABLE = {}
TABLE['x'] = 1
for _k in ('a', 'b'):
    TABLE[_k] = len(TABLE)
NAMES = [n for n in TABLE]
LIST = []
LIST.append(3)
LIST += [4]
X, Y = 1, 2
try:
    Z = int('q')
except ValueError:
    Z = 5
if X == 1:
    W = 'one'
else:
    W = 'two'
FN = lambda x: x + X
PART = functools.partial(helper, 2)
TABLE.update(q=9)

def register(f):
    REG[f.__name__] = f
    return f
REG = {}
@register
def regd(x):
    return x * 3

def wrap(f):
    @functools.wraps(f)
    def inner(*a):
        return f(*a) + 100
    return inner

@wrap
def deco1(x):
    return x

@dataclass
class D:
    x: int
    y: int = 2
    z: list = field(default_factory=list)
    def total(self):
        return self.x + self.y

class NT(NamedTuple):
    a: int
    b: int = 3

class Col(Enum):
    RED = 1
    BLUE = 2

class C:
    table = {}
    table['q'] = 2
    vals = [i * 2 for i in range(3)]
    base = 3
    twice = base * 2
    def f(self):
        return self.twice
    g = f
    for _i in range(2):
        table[_i] = _i
    def __getattr__(self, name):
        if name.startswith('dyn'):
            return name[3:]
        raise AttributeError(name)
    def _h(self): return 4
    h = property(_h)
    s = staticmethod(lambda x: x + 1)

class Meta(type):
    def __call__(cls, *a):
        return ('meta', a)

class P1:
    _reg = []
    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        P1._reg.append(cls.__name__)

class P2(P1):
    pass

class Mixin:
    def who(self):
        return 'mixin ' + self.name()

class Impl(Mixin):
    def name(self):
        return 'impl'

class Slots:
    __slots__ = ('a',)
    def __init__(self):
        self.a = 1

class Ctx:
    def __init__(self, log): self.log = log
    def __enter__(self): self.log.append('e'); return self
    def __exit__(self, t, v, tb):
        self.log.append(t is not None)
        return True

class Res:
    def __init__(self): self._v = None
    @property
    def v(self):
        if self._v is None:
            self._v = 7
        return self._v

class Iter:
    def __init__(self, n): self.n = n; self.i = 0
    def __iter__(self): return self
    def __next__(self):
        if self.i >= self.n: raise StopIteration
        self.i += 1
        return self.i

class GetLen:
    def __len__(self): return 3
    def __getitem__(self, i):
        if i >= 3: raise IndexError(i)
        return i * i

def t_consts():
    return TABLE, NAMES, LIST, X, Y, Z, W, FN(3), PART(3)

def t_reg():
    return list(REG), REG['regd'](2), regd(1), deco1(1)

def t_dataclass():
    d = D(1)
    e = D(1, y=5)
    return d.x, d.y, d.z, e.total(), D(1) == D(1)

def t_nt():
    n = NT(1)
    a, b = n
    return n.a, n.b, a + b, n[0]

def t_cls():
    c = C()
    return c.table, c.vals, c.f(), c.g(), C.twice, c.h, c.s(2), C.s(3)

def t_getattr():
    return C().dynfoo

def t_imports():
    return util.helper(1, 2), helper(3, 4), CC, util.Thing(3).val()

def t_mixin():
    return Impl().who()

def t_ctx():
    log = []
    with Ctx(log):
        raise ValueError
    with Ctx(log) as c, Ctx(log) as d:
        log.append(c is d)
    return log

def t_res():
    r = Res()
    return r.v, r._v

def t_iter():
    return list(Iter(3)), [x for x in Iter(2)], list(GetLen()), sum(GetLen()), max(Iter(4)), list(zip(Iter(2), Iter(2)))

def t_listlive():
    w = [1]
    out = []
    for x in w:
        out.append(x)
        if x < 4:
            w.append(x + 1)
    return out

def t_closuremut():
    calls = []
    def rec(n):
        calls.append(n)
        if n:
            rec(n - 1)
    rec(12)
    return calls

def t_unbound():
    def f(c):
        if c:
            q = 1
        return q
    try:
        f(False)
    except UnboundLocalError:
        return 1
    return 2

def t_shortcircuit():
    out = []
    def p(x):
        out.append(x)
        return x > 1
    r = any(p(x) for x in [1, 2, 3])
    s = next((x for x in [1, 2, 3] if p(x)), None)
    return r, s, out

def t_methref():
    m = Impl.name
    ms = [Impl().name, Impl().who]
    return m(Impl()), [f() for f in ms], getattr(Impl(), 'na' + 'me')()

def t_kwpass():
    def inner(**kw): return kw
    def outer(*args, **kw): return inner(**kw, z=1), args
    opts = dict(a=1)
    opts2 = {'b': 2}
    return outer(*[1, 2], **opts, **opts2)

def t_sortkeys():
    d = [('b', 2), ('a', 2), ('c', 1)]
    return sorted(d, key=lambda t: (t[1], t[0])), sorted(d, key=lambda t: -t[1]), max(d, key=lambda t: t[1]), sorted({3, 1, 2}), sorted('cab', reverse=True)

def t_ifchain():
    def f(x):
        if x < 0: return 'neg'
        elif x == 0: return 'zero'
        return 'pos'
    return [f(x) for x in (-1, 0, 1)]

def t_early():
    def f(xs):
        for x in xs:
            for y in x:
                if y == 3:
                    return (x, y)
        return None
    return f([[1], [2, 3]]), f([])

def t_while_pop():
    stack = [[1, [2, [3]]], 4]
    out = []
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        else:
            out.append(x)
    return out

def t_boolops():
    a = None
    b = a if a is not None else 3
    c = a or []
    c = c and 1
    return b, c, (a is None) and (b == 3), not (a or 0), bool(a) ^ True

def t_dictops():
    d = {}
    for k, v in [('a', 1), ('b', 2), ('a', 3)]:
        d.setdefault(k, []).append(v)
    inv = {tuple(v): k for k, v in d.items()}
    (first, *_), = [list(d)]
    k0, = {'z': 1}
    return d, inv, first, k0, list(d.items())[0], [*d], {**d, 'c': 0}, d.pop('a'), dict(sorted({'b': 1, 'a': 2}.items()))

def t_strfmt():
    return f"{1 + 1}-{'a' if X else 'b'}", "%d_%s" % (1, 'b'), "{:d}".format(3), f"{[1, 2]}" if False else 'n', ('a' 'b'), '\n'.join(f"{i}" for i in range(2))

def t_exit_in_loop():
    res = []
    for i in range(5):
        try:
            if i == 3: break
            if i % 2: continue
            res.append(i)
        finally:
            res.append('f')
    else:
        res.append('else')
    return res

def t_nestfun_default():
    def outer(x):
        def mid(y=x):
            def inn(z=y):
                return x + y + z
            return inn
        return mid()
    return outer(2)()

def t_enum():
    return Col.RED.value, Col.BLUE.name, Col.RED is Col.RED, Col.RED == Col.BLUE

def t_exc_attr():
    class MyErr(ValueError):
        def __init__(self, code):
            super().__init__('msg')
            self.code = code
    try:
        raise MyErr(3)
    except ValueError as e:
        return e.code

def t_assign_multi():
    a = b = []
    a.append(1)
    c, d = d0, e0 = (1, 2)
    x = y = z = 3
    x, y = y + 1, x + 2
    l = [0, 1, 2]
    l[0], l[1] = l[1], l[0]
    i = 0
    i, l[i] = 2, 9
    return b, c, d, d0, e0, x, y, z, l

def t_exc_order():
    out = []
    try:
        try:
            out.append(1)
            raise KeyError
        finally:
            out.append(2)
    except KeyError:
        out.append(3)
    else:
        out.append(4)
    return out
