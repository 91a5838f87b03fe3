import functools, itertools, operator, math, collections, copy
from functools import partial, reduce
from collections import defaultdict, OrderedDict, Counter, namedtuple, deque
from itertools import product, chain, islice, accumulate, groupby, zip_longest, combinations, permutations, starmap, takewhile, count, repeat
from operator import itemgetter, attrgetter, mul
import numpy as np

GL = 3

def t_while_else():
    i = 0
    while i < 3:
        i += 1
    else:
        i += 10
    for j in range(2):
        if j == 5:
            break
    else:
        i += 100
    return i

def t_comps():
    return [x*y for x in range(3) for y in range(x) if y], {x % 2 for x in range(5)}, {k: v for k, v in zip('ab', [1, 2])}, list(x for x in (1, 2))

def t_lambda():
    f = lambda x, *a, k=2, **kw: (x, a, k, kw)
    return f(1), f(1, 2, 3, k=4, z=5)

def t_nested():
    n = 0
    def inc(by=1):
        nonlocal n
        n += by
        return n
    inc(); inc(by=3)
    return n

def t_gen():
    def g(n):
        for i in range(n):
            got = yield i
        return 7
    def h():
        r = yield from g(3)
        yield r
    return list(h()), next(g(2)), sum(g(4)), [*g(2)]

def t_walrus():
    out = []
    while (n := len(out)) < 3:
        out.append(n)
    return out, [y for x in range(4) if (y := x * 2) > 2]

def t_try():
    out = []
    try:
        out.append(1)
        raise ValueError('x')
    except (KeyError, ValueError) as e:
        out.append(str(e))
    else:
        out.append('no')
    finally:
        out.append('f')
    try:
        {}['a']
    except KeyError:
        out.append('ke')
    try:
        [][1]
    except IndexError:
        out.append('ie')
    try:
        int('x')
    except ValueError:
        out.append('ve')
    try:
        a, b = (1, 2, 3)
    except ValueError:
        out.append('unp')
    try:
        None.foo
    except AttributeError:
        out.append('ae')
    try:
        1/0
    except ZeroDivisionError:
        out.append('zd')
    try:
        len(3)
    except TypeError:
        out.append('te')
    return out

def t_tryret():
    def f():
        try:
            return 1
        finally:
            pass
    def g():
        for i in range(3):
            try:
                if i == 1:
                    continue
                if i == 2:
                    break
            finally:
                acc.append(i)
        return acc
    acc = []
    return f(), g()

def t_star():
    a, *b, c = range(5)
    (d, e), f = (1, 2), 3
    x = [*b, *(9, 8)]
    y = {**{'a': 1}, 'b': 2}
    def f2(*args, **kw):
        return args, kw
    return a, b, c, d, e, f, x, y, f2(*x, **y), f2(1, *[2], k=3)

def t_chaincmp():
    x = 3
    return 1 < x <= 3, 1 < x < 3, x in (1, 3), x not in [3], not x, x is None, x is not None, (x == 3) is True

def t_slices():
    l = list(range(10))
    l[2:4] = [20]
    del l[0]
    return l, l[::-1], l[-3:], l[1:8:2], l[:-1], tuple(l)[2:], 'abc'[::-1]

def t_str():
    x = 3
    return f'{x}', f'a{x:03d}b{x!r}', 'a'.join(['x', 'y']), '%s-%i' % ('a', 3), '{} {k}'.format(1, k=2), 'abc'.upper(), 'a b'.split(), 'abc'.startswith('a'), 'xay'.replace('a', 'b'), 'a' in 'abc', ' x '.strip(), 'abc'.find('c'), 'a' * 3, 'a' + 'b'

def t_dict():
    d = {'a': 1}
    d.setdefault('b', []).append(3)
    d.update(c=4)
    d.update({'d': 5})
    p = d.pop('a')
    q = d.pop('zz', None)
    return d, p, q, list(d), list(d.items()), list(d.values()), d.get('b'), d.get('n', 0), 'b' in d, len(d), sorted(d), dict(d), {k: d[k] for k in reversed(list(d))}

def t_dd():
    d = defaultdict(list)
    d['a'].append(1)
    e = defaultdict(int)
    for c in 'aab':
        e[c] += 1
    return dict(d), dict(e), sorted(e.items())

def t_od():
    d = OrderedDict()
    d['x'] = 1
    d['y'] = 2
    return list(d.items())

def t_counter():
    return sorted(Counter('aab').items())

def t_sets():
    a = {1, 2, 3}
    b = set([2, 5])
    a.add(9)
    a.discard(100)
    a.update([4])
    c = frozenset(a)
    return sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), b <= a, a.issuperset({1}), sorted(a.union(b)), sorted(a.intersection(b)), len(c), a.isdisjoint({77}), sorted(set().union(*[{1}, {2}]))

def t_list():
    l = [3, 1, 2]
    l.sort()
    l.append(4); l.extend([5]); l += [6]; l.insert(0, 0); l.remove(3); x = l.pop(); l.reverse()
    m = l[:]; m2 = list(l); m3 = l.copy()
    m.sort(key=lambda v: -v)
    return l, x, m, m2 == m3, l.index(2), l.count(4), sorted(l, reverse=True), sorted('bca'), l * 2, [0] * 3 + [1], max(l), min(l, default=0), sum(l, 5), max(l, key=lambda v: -v)

def t_builtins():
    return (abs(-1), divmod(7, 2), pow(2, 3), round(2.6), any([0, 1]), all([1, 0]), list(map(lambda x: x+1, [1])), list(filter(None, [0, 1])), list(zip([1, 2], 'ab')),
            list(enumerate('ab', 1)), list(reversed([1, 2])), int('3'), float('2.5'), str(4), bool([]), tuple([1]), isinstance(3, int), isinstance('a', (int, str)), callable(len), list(range(5, 0, -2)), hash(3) == hash(3), id(3) == id(3), type(3) is int, type(3) == int, repr('a'), chr(97), ord('a'), iter([1]).__next__(), sum(x for x in [1, 2]), max(1, 2), min([3, 1]))

def t_itertools():
    return (list(product([1, 2], repeat=2)), list(product('ab', [1])), list(chain([1], [2])), list(chain.from_iterable([[1], [2, 3]])), list(islice(range(10), 2, 6, 2)), list(accumulate([1, 2, 3])), [(k, list(g)) for k, g in groupby([1, 1, 2])], list(zip_longest([1], [1, 2])), list(combinations([1, 2, 3], 2)), list(permutations([1, 2])), list(starmap(pow, [(2, 3)])), list(takewhile(lambda x: x < 2, [1, 2, 1])), list(islice(count(3), 2)), list(itertools.repeat(1, 2)))

def t_functools():
    f = partial(pow, 2)
    g = functools.partial(lambda a, b=0: (a, b), b=3)
    return f(3), g(1), reduce(lambda a, b: a*b, [1, 2, 3]), reduce(mul, [2, 3], 10), functools.reduce(operator.add, [[1], [2]], [])

def t_operator():
    return itemgetter(1)([5, 6]), operator.itemgetter(0, 1)('ab'), sorted([(1, 'b'), (0, 'c')], key=itemgetter(0)), operator.mul(2, 3), operator.neg(2), operator.sub(3, 1)

def t_math():
    return math.prod([2, 3]), math.ceil(2.1), math.floor(2.9), math.sqrt(4.0), math.gcd(4, 6), 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 5, 5 & 3, 5 | 3, 5 ^ 3, 1 << 3, ~2

def t_global():
    global GL
    GL = 4
    return GL

class A:
    k = 1
    table = {'x': 2}
    def __init__(self, x):
        self.x = x
        self._y = None
    @property
    def y(self):
        return self._y
    @y.setter
    def y(self, v):
        self._y = v
    @classmethod
    def make(cls, x):
        return cls(x)
    @staticmethod
    def st(x):
        return x + 1
    def __len__(self):
        return 4
    def __getitem__(self, i):
        return i * 2
    def __setitem__(self, i, v):
        self.last = (i, v)
    def __call__(self, z):
        return z + self.x
    def __iter__(self):
        yield self.x
        yield 2
    def __contains__(self, q):
        return q == self.x
    def __eq__(self, o):
        return isinstance(o, A) and self.x == o.x
    def __hash__(self):
        return hash(self.x)
    def __add__(self, o):
        return A(self.x + (o.x if isinstance(o, A) else o))
    def __radd__(self, o):
        return A(o + self.x)
    def __neg__(self):
        return A(-self.x)
    def __bool__(self):
        return self.x != 0
    def __enter__(self):
        self.log = ['in']
        return self
    def __exit__(self, *a):
        self.log.append('out')
    def __repr__(self):
        return 'A(%s)' % self.x
    def __lt__(self, o):
        return self.x < o.x
    def meth(self, a, b=2):
        return self.x, a, b

class B(A):
    k = 5
    def __init__(self, x, z=3):
        super().__init__(x)
        self.z = z
    def meth(self, *args, **kw):
        return ('B',) + super().meth(*args, **kw)
    @functools.cached_property
    def cp(self):
        return [self.z]

def t_class():
    a = A(3)
    a.y = 7
    a[1] = 5
    b = B.make(4)
    with a as c:
        c.log.append('mid')
    return 0

def t_class2():
    a = A(3)
    a.y = 7
    a[1] = 5
    b = B.make(4)
    with a as c:
        c.log.append('mid')
    return (a.y, a.last, b.z, b.x, A.st(1), a.st(2), len(a), a[3], a(1), list(a), 3 in a, a == A(3), a != A(3), (a + A(1)).x, (a + 1).x, (1 + a).x, (-a).x, bool(A(0)), a.log, b.meth(1), b.meth(1, b=5), b.k, A.k, type(b).k, b.cp is b.cp,
            sorted([A(2), A(1)])[0].x, {A(1): 'q'}[A(1)], hasattr(a, 'y'), hasattr(a, 'nope'), getattr(a, 'nope', 3), isinstance(b, A), issubclass(B, A), B.__name__, b.__class__.__name__, a.__dict__['x'], str(a), f'{a}', not A(0), A.table['x'], [m.x for m in map(A, [1, 2])], list(map(a.meth, [1])), (lambda s: s.x)(a), sum([A(1), A(2)], A(0)).x, attrgetter('x')(a))

def t_setattr():
    a = A(1)
    setattr(a, 'w', 3)
    delattr(a, 'w')
    vars(a)['q'] = 3
    return hasattr(a, 'w'), a.q

def t_namedtuple():
    P = namedtuple('P', ['x', 'y'])
    p = P(1, y=2)
    x, y = p
    return p.x, p[1], x + y, p._replace(x=4).x

def t_deque():
    d = deque([1, 2], maxlen=3)
    d.appendleft(0); d.append(3)
    d.rotate(1)
    return list(d), d.pop(), d.popleft(), len(d)

def t_default_mut():
    def f(x, acc=[]):
        acc.append(x)
        return len(acc)
    f(1)
    return f(2)

def t_closure_loop():
    fs = [lambda i=i: i for i in range(3)]
    gs = []
    for i in range(3):
        def h():
            return i
        gs.append(h)
    return [f() for f in fs], [g() for g in gs]

def t_kwonly():
    def f(a, /, b, *, c=3, d):
        return a, b, c, d
    return f(1, 2, d=4), f(1, b=2, c=5, d=6)

def t_assert():
    assert GL, 'msg'
    try:
        assert False, 'no'
    except AssertionError:
        return 1

def t_condexpr():
    x = None
    return (x or 3), (x and 4), (0 or [] or 'z'), (1 if x is None else 2), (1 and 2 and 3)

def t_while_break():
    n = 0
    while True:
        n += 1
        if n > 4:
            break
        if n % 2:
            continue
    return n

def t_match():
    def f(x):
        match x:
            case 0:
                return 'zero'
            case [a, b]:
                return a + b
            case {'k': v}:
                return v
            case str():
                return 'str'
            case _:
                return 'other'
    return f(0), f([1, 2]), f({'k': 3}), f('s'), f(9.0)

def t_augattr():
    a = A([1])
    a.x += [2]
    a.x[0] += 5
    d = {'q': 1}
    d['q'] *= 3
    d['q'] //= 2
    return a.x, d

def t_unpackfor():
    out = []
    for i, (a, b) in enumerate([(1, 2), (3, 4)]):
        out.append((i, a, b))
    for k, *r in [(1, 2, 3)]:
        out.append((k, r))
    return out

def t_raise_from():
    try:
        try:
            raise KeyError('a')
        except KeyError as e:
            raise ValueError('b') from e
    except ValueError as v:
        return 'ok'

def t_custom_exc():
    class E(Exception):
        pass
    try:
        raise E('a')
    except E:
        return 1

def t_reraise():
    try:
        try:
            raise KeyError('a')
        except KeyError:
            raise
    except KeyError:
        return 1

def t_localclass():
    class L:
        z = 3
        def m(self):
            return self.z
    return L().m()

def t_deco():
    def deco(f):
        @functools.wraps(f)
        def w(*a, **k):
            return ('w', f(*a, **k))
        return w
    @deco
    def g(x):
        return x
    return g(3)

def t_bytes_complex():
    z = 1 + 2j
    return z.real, z.imag, abs(3 + 4j), z.conjugate(), complex(1, 2), 1e3, float('inf') > 1

def t_genexpr_args():
    return tuple(x for x in range(3)), dict((k, 1) for k in 'ab'), ','.join(str(x) for x in [1, 2]), set(x for x in [1]), any(x > 1 for x in [1, 2]), next((x for x in [1, 2] if x > 1), None), next(iter([]), 'd'), min((x for x in [2, 1]))

def t_nestedcomp():
    return [[i*j for j in range(2)] for i in range(2)], {k: [v for v in vs] for k, vs in {'a': (1, 2)}.items()}, list(zip(*[(1, 2), (3, 4)])), [x for xs in [[1], [2]] for x in xs]

def t_dictmerge():
    a = {'x': 1}
    b = a | {'y': 2}
    a |= {'z': 1}
    return a, b, dict(a, k=3), dict(zip('ab', (1, 2))), dict.fromkeys('ab', 0), {}.get('a'), list(a.keys()), a.keys() & {'x'} == {'x'}

def t_copy():
    a = [1, [2]]
    b = copy.copy(a); c = copy.deepcopy(a)
    a[1].append(3)
    return b, c

def t_bool_arith():
    return True + 1, sum([True, False]), (3 > 2) * 4, int(True), -True

def t_in_dict_loop():
    d = {'a': 1, 'b': 2}
    for k in list(d):
        if d[k] == 1:
            del d[k]
    while d:
        d.popitem()
    return d

def t_stopiter():
    it = iter([1])
    next(it)
    try:
        next(it)
    except StopIteration:
        return 'stop'

def t_zip_strict():
    return list(zip([1], [2], strict=True)), [a for a, in [(1,)]]

def t_ellipsis():
    x = ...
    return x is Ellipsis, x is ...

def t_suppress():
    from contextlib import suppress, nullcontext
    with suppress(KeyError):
        {}['a']
    with nullcontext(3) as q:
        pass
    return q

def t_ctxman():
    import contextlib
    log = []
    @contextlib.contextmanager
    def cm(x):
        log.append('in')
        try:
            yield x
        finally:
            log.append('out')
    with cm(3) as v:
        log.append(v)
    return log

def t_recursion():
    def fact(n):
        return 1 if n <= 1 else n * fact(n - 1)
    return fact(6)

def t_typing():
    x: int = 3
    y: 'list[int]' = [x]
    def f(a: int, b: str = 'x') -> tuple:
        return a, b
    return f(x), y

def t_sliceobj():
    s = slice(1, 3)
    return [1, 2, 3, 4][s], s.start, s.stop, s.step, s.indices(10), list(range(*s.indices(4)))

def t_strmethods():
    return 'a,b'.partition(','), 'x'.join('ab'), 'aXb'.lower(), 'abc'.endswith(('c', 'd')), 'a'.isdigit(), '1'.isdigit(), 'abc'.index('b'), 'a-b'.rsplit('-', 1), 'ab'.title(), 'x'.zfill(3), 'x'.ljust(3), 'abc'[1], 'ab'.encode() == b'ab'

class Base:
    def run(self):
        return self.step() + self._helper(2)
    def step(self):
        raise NotImplementedError
    def _helper(self, x):
        return x

class Derived(Base):
    def step(self):
        return 5

def helper_outside(obj, x, *, scale=1):
    obj.append(x * scale)
    return obj

def t_inherit():
    try:
        Base().run()
    except NotImplementedError:
        pass
    l = []
    helper_outside(l, 3, scale=2)
    fn = Derived().run
    return fn(), l, Base.run(Derived())

def t_static_consts():
    NAMES = ('a', 'b')
    IDX = {n: i for i, n in enumerate(NAMES)}
    return IDX['b'], NAMES.index('a')
