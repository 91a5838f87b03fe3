"""Cached results are the ones a fresh computation would give.

The decorators of tools/cache.py are abstractly interpreted on call histories
over every spelling of a call (positional, keyword, default), several
instances and bounded caches, and the metaclass caching instances also with
collections of unreferenced instances between any two of its steps.  Every
class caching its instances is interpreted on arguments that differ in one
parameter.  Flow analyses follow the results of all cached functions to their
uses: none is modified in place, and no cached function reads state that
changes after construction.
"""
import ast
import inspect
import itertools
from ..interp import *
from ..interp import walk_own
from ..repo import AnalysisBroken, Func, Class
from ..nd import NDConfig, unwrap, NotConcrete

EXPLANATION = __doc__
CACHED = ('CachedAttribute', 'CachedMethod', 'CachedFunction', 'cached_property', 'lru_cache', 'cache')


class Result(AbsVal):
    """What one evaluation of the wrapped function returns."""
    def __init__(self, bound, n):
        self.bound, self.n = bound, n

    def __repr__(self):
        return f"result#{self.n}{self.bound}"

    def truth(self, it):
        return bool(self.n % 3)

    def compare(self, it, op, other, swapped):
        if op in ('==', '!='):
            return (self is other) == (op == '==')
        return NotImplemented


class Inst(AbsVal):
    """An instance: a dictionary of attributes and its class."""
    def __init__(self, name, owner):
        self.name, self.owner, self.attrs = name, owner, {}

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == '__dict__':
            return self.attrs
        if name == '__class__':
            return self.owner
        if name in self.attrs:
            return self.attrs[name]
        raise RaiseSig('AttributeError', name, it.loc())

    def setattr(self, it, name, value):
        self.attrs[name] = value
        return None


class Owner(AbsVal):
    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in ('__name__', '__qualname__'):
            return 'Owner'
        return NotImplemented


class Fn(AbsVal):
    """The wrapped function."""
    def __init__(self, params, fail=()):
        self.params = params          # [(name, default) | name]
        self.names = [p if isinstance(p, str) else p[0] for p in params]
        self.defaults = [p[1] for p in params if not isinstance(p, str)]
        self.fail = fail
        self.calls = []
        self.attrs = {}

    def __repr__(self):
        return 'fn'

    def truth(self, it):
        return True

    def bind(self, args, kwargs):
        if len(args) > len(self.names):
            return None
        b = dict(zip(self.names, args))
        for k, v in kwargs.items():
            if k in b or k not in self.names:
                return None
            b[k] = v
        for p in self.params:
            if not isinstance(p, str):
                b.setdefault(p[0], p[1])
        if len(b) < len(self.names):
            return None
        return tuple(b[n] for n in self.names)

    def call(self, it, args, kwargs):
        b = self.bind(tuple(args), kwargs)
        if b is None:
            raise RaiseSig('TypeError', 'wrong arguments', it.loc())
        if b in self.fail:
            raise RaiseSig('ValueError', 'the function fails', it.loc())
        r = Result(b, len(self.calls))
        self.calls.append(b)
        return r

    def getattr(self, it, name):
        if name in ('__name__', '__qualname__'):
            return 'fn'
        if name in ('__doc__', '__module__'):
            return 'doc'
        if name in ('__wrapped__',):
            raise RaiseSig('AttributeError', name, it.loc())
        if name == '__dict__':
            return self.attrs
        if name == '__defaults__':
            return tuple(self.defaults) or None
        return NotImplemented

    def pysig(self):
        P = inspect.Parameter
        ps = [P(n, P.POSITIONAL_OR_KEYWORD, default=(P.empty if isinstance(p, str) else p[1])) for n, p in zip(self.names, self.params)]
        return inspect.Signature(ps)


class SigV(AbsVal):
    """inspect.Signature of a modelled function."""
    def __init__(self, sig):
        self.sig = sig

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'parameters':
            return {n: ParamV(p) for n, p in self.sig.parameters.items()}
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name in ('bind', 'bind_partial'):
            try:
                return BoundV(getattr(self.sig, name)(*args, **kwargs))
            except TypeError as e:
                raise RaiseSig('TypeError', str(e), it.loc())
        return NotImplemented


class ParamV(AbsVal):
    def __init__(self, p):
        self.p = p

    def getattr(self, it, name):
        if name == 'name':
            return self.p.name
        if name == 'default':
            return Term('ext', 'inspect.Parameter.empty') if self.p.default is inspect.Parameter.empty else self.p.default
        if name == 'kind':
            return Term('ext', 'inspect.Parameter.' + self.p.kind.name)
        if name in ('empty', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD', 'POSITIONAL_ONLY'):
            return Term('ext', 'inspect.Parameter.' + name)
        return NotImplemented


class BoundV(AbsVal):
    def __init__(self, b):
        self.b = b

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'args':
            return tuple(self.b.args)
        if name == 'kwargs':
            return dict(self.b.kwargs)
        if name == 'arguments':
            return dict(self.b.arguments)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'apply_defaults':
            self.b.apply_defaults()
            return None
        return NotImplemented


class Weak(AbsVal):
    """A dictionary of weak references; entries nobody holds can vanish before any operation."""
    def __init__(self, when=None):
        self.d = {}
        self.held = []       # instances the user keeps
        self.ops = 0
        self.when = when     # operation before which the collector runs
        self.user_keeps = True

    def tick(self, it):
        self.ops += 1
        if self.when is not None and self.ops >= self.when:
            for k, v in list(self.d.items()):
                if not any(v is h for h in self.held) and not self.in_frames(it, v):
                    del self.d[k]

    @staticmethod
    def in_frames(it, v):
        def inside(x, depth=0):
            if x is v:
                return True
            if depth < 3 and isinstance(x, (list, tuple, set)):
                return any(inside(y, depth + 1) for y in x)
            if depth < 3 and isinstance(x, dict):
                return any(inside(y, depth + 1) for y in x.values())
            return False
        return any(inside(x) for f in it.frames for x in f.locals.values())

    def truth(self, it):
        self.tick(it)
        return bool(self.d)

    def key(self, k):
        try:
            hash(k)
        except TypeError:
            raise RaiseSig('TypeError', 'unhashable key')
        return k

    def compare(self, it, op, other, swapped):
        if op in ('in', 'not in') and swapped:
            return self.contains(it, other) == (op == 'in')
        return NotImplemented

    def contains(self, it, k):
        self.tick(it)
        return self.key(k) in self.d

    def getitem(self, it, k):
        self.tick(it)
        if self.key(k) not in self.d:
            raise RaiseSig('KeyError', 'the instance has been collected', it.loc())
        return self.d[k]

    def setitem(self, it, k, v):
        self.tick(it)
        self.d[self.key(k)] = v
        return None

    def callmethod(self, it, name, args, kwargs):
        if name == '__contains__':
            return self.contains(it, args[0])
        if name == '__getitem__':
            return self.getitem(it, args[0])
        if name == '__setitem__':
            return self.setitem(it, *args)
        if name == 'get':
            self.tick(it)
            return self.d.get(self.key(args[0]), args[1] if len(args) > 1 else kwargs.get('default'))
        if name == 'setdefault':
            self.tick(it)
            return self.d.setdefault(self.key(args[0]), args[1])
        if name == 'pop':
            self.tick(it)
            if args[0] in self.d:
                return self.d.pop(args[0])
            if len(args) > 1:
                return args[1]
            raise RaiseSig('KeyError', 'pop', it.loc())
        return NotImplemented


class CacheCfg(NDConfig):
    closed_keys = True

    def on_call(self, it, callee, args, kwargs, node):
        n = callee.args[0] if isinstance(callee, Term) and callee.op == 'ext' else ''
        short = n.split('.')[-1]
        if n.startswith('inspect.') and args and isinstance(args[0], (Fn, SigFn)):
            f = args[0]
            if short == 'getfullargspec':
                return (list(f.names), None, None, tuple(f.defaults) or None, [], None, {})
            if short == 'signature':
                return SigV(f.pysig())
        if n == 'types.MethodType':
            fn, self_ = args
            return Bound(fn, self_)
        if n in ('functools.partial', 'functools.partialmethod') and args:
            return Partial(args[0], args[1:], kwargs)
        if n in ('functools.update_wrapper', 'functools.wraps'):
            return args[0]
        if n == 'object.__new__':
            return Obj(args[0], 'cached')
        if n.endswith('WeakValueDictionary'):
            return it.state.setdefault('weak', Weak())
        if n in ('threading.Lock', 'threading.RLock'):
            return SimpleCtx(None)
        return super().on_call(it, callee, args, kwargs, node)

    def on_native(self, it, name, args, kwargs):
        if name.split('.')[-1] in ('contains',):
            return NotImplemented
        return super().on_native(it, name, args, kwargs)


class SigFn(Fn):
    pass


class Bound(AbsVal):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def truth(self, it):
        return True

    def call(self, it, args, kwargs):
        return it.call(self.fn, [self.self_] + list(args), kwargs)

    def getattr(self, it, name):
        if name == '__func__':
            return self.fn
        if name == '__self__':
            return self.self_
        return it.getattr(self.fn, name)


def make(it, cls, fn, **kw):
    """What decorating with `cls` (and keywords) gives."""
    nw = cls.method('__new__')
    if kw and nw is not None:
        p = it.call(Closure(nw, None, None, nw.cls), [cls], dict(kw))
        if not isinstance(p, Partial):
            raise PathAbort('the decorator with arguments is not understood')
        cls2, a, k = p.f, list(p.args), dict(p.kw)
        if cls2 is not cls:
            raise PathAbort('the decorator with arguments is not understood')
        return it.new(cls, a + [fn], k)
    return it.new(cls, [fn], kw)


def access(it, desc, name, inst, owner):
    """Attribute access through a non-data descriptor found in the class."""
    if inst is not None and name in inst.attrs:
        return inst.attrs[name]
    g = desc.cls.method('__get__')
    if g is None:
        return Bound(desc, inst) if inst is not None else desc
    return it.call(Closure(g, None, desc, g.cls), [inst, owner])


SIGS = {
    '(x)': (['x'], [((1,), {}), ((), {'x': 1}), ((2,), {}), ((), {'x': 2})]),
    '(x, y=5)': (['x', ('y', 5)], [((1,), {}), ((1, 5), {}), ((1,), {'y': 5}), ((1,), {'y': 6}), ((5, 1), {}), ((), {'y': 1, 'x': 5}), ((), {'x': 5})]),
    '(x, y)': (['x', 'y'], [((1, 2), {}), ((2, 1), {}), ((), {'y': 2, 'x': 1}), ((), {'y': 1, 'x': 2}), ((1,), {'y': 2}), (((1, 2), ()), {}), (((1,), (('y', 2),)), {})]),
    '(x=None, y=())': ([('x', None), ('y', ())], [((), {}), ((None,), {}), ((), {'y': ()}), (((),), {}), ((None, ((),)), {}), (((), ()), {}), (((None,),), {})]),
    '(x, y=5, z=7)': (['x', ('y', 5), ('z', 7)], [((1,), {'y': 9}), ((1,), {'z': 9}), ((1, 9), {}), ((1,), {'z': 9, 'y': 7}), ((1, 7, 9), {}), ((), {'z': 7, 'x': 1})]),
    '()': ([], [((), {})]),
}


def first(res, rep, what):
    """The single outcome of a deterministic scenario (None when undecided)."""
    bad = [r for r in res if r.outcome == 'abort']
    if bad or not res:
        rep.undec(f"{what}: {bad[0].value if bad else 'no path'}")
        return None
    return res


def run_scenario(repo, rep, key, loc, what, thunk, cfg=None):
    """thunk(it) -> list of problems."""
    it = Interp(repo, cfg or CacheCfg())
    res = first(it.explore(thunk), rep, what)
    if res is None:
        return
    probs = []
    for r in res:
        if r.outcome == 'raise':
            probs.append(f"raises {r.value.name} ({r.value.value}) at {r.value.loc}")
        else:
            probs += r.value
    rep.check(not probs, key, f"{what}: {probs[0] if probs else ''}", loc)


def same(fn, b, r):
    return isinstance(r, Result) and r.bound == b


def histories(calls, n):
    return itertools.product(range(len(calls)), repeat=n)


def function_cache(repo, rep, cls):
    loc = f"{cls.module.rel}:{cls.node.lineno}"
    for sig, (params, calls) in SIGS.items():
        for size in (None, 1, 2, 3):
            n = 0
            probs = []
            hs = list(histories(calls, 2)) + [h for i, h in enumerate(histories(calls, 3)) if size is None or i % 3 == 0]
            for h in hs:
                def thunk(it):
                    fn = Fn(params)
                    c = make(it, cls, fn, **({} if size is None else {'max_size': size}))
                    out = []
                    seen = {}
                    for j in h:
                        a, k = calls[j]
                        b = fn.bind(a, k)
                        r = it.call(c, list(a), dict(k))
                        if not same(fn, b, r):
                            out.append(f"the call {spell(a, k)} after {[spell(*calls[i]) for i in h]} gives {show(r)} instead of the result for {b}")
                        elif size is None and seen.setdefault(b, r) is not r:
                            out.append(f"the call {spell(a, k)} after {[spell(*calls[i]) for i in h]} does not give the cached result")
                    return out
                it = Interp(repo, CacheCfg())
                for r in it.explore(thunk):
                    n += 1
                    if r.outcome == 'abort':
                        probs.append(('abort', r.value))
                    elif r.outcome == 'raise':
                        probs.append(('raise', f"raises {r.value.name} ({r.value.value}) in {[spell(*calls[i]) for i in h]}"))
                    else:
                        probs += [('bad', x) for x in r.value]
            what = f"{cls.name} of a function {sig}" + (f" with max_size={size}" if size else '')
            rep.count('call histories', n)
            verdict(rep, probs, f"{cls.name}|{sig}|{size}", what, loc)


def verdict(rep, probs, key, what, loc):
    bad = [x for k, x in probs if k != 'abort']
    ab = [x for k, x in probs if k == 'abort']
    if bad:
        rep.violation(key, f"{what}: {bad[0]}", loc)
    elif ab:
        rep.undec(f"{what}: {ab[0]}")
    else:
        rep.ok(what)


def spell(a, k):
    return 'f(' + ', '.join([repr(x) for x in a] + [f"{n}={v!r}" for n, v in k.items()]) + ')'


def method_cache(repo, rep, cls):
    """Several instances, access through the instance and the class."""
    loc = f"{cls.module.rel}:{cls.node.lineno}"
    params = ['self', 'x', ('y', 5)]
    calls = [((1,), {}), ((1, 5), {}), ((), {'y': 5, 'x': 1}), ((5, 1), {})]
    probs = []
    n = 0
    acts = [(i, c) for i in (0, 1) for c in range(len(calls))]
    # (instance, spelling, through the class)
    hist = [[(*a, False), (*b, False), (*c, cl)] for a in acts for b in acts for c in acts[::2] for cl in (False, True)]
    for h in hist[::3]:
        def thunk(it):
            fn = Fn(params)
            owner = Owner()
            desc = make(it, cls, fn)
            insts = [Inst('one', owner), Inst('two', owner)]
            out = []
            for i, c, through in h:
                a, k = calls[c]
                b = fn.bind((insts[i],) + tuple(a), k)
                if through:
                    r = it.call(access(it, desc, 'fn', None, owner), [insts[i]] + list(a), dict(k))
                else:
                    r = it.call(access(it, desc, 'fn', insts[i], owner), list(a), dict(k))
                if not same(fn, b, r):
                    out.append(f"{spell(a, k)} on {insts[i]} gives {show(r)} after {[(str(insts[x]), spell(*calls[y])) for x, y, z in h]}")
            return out
        it = Interp(repo, CacheCfg())
        for r in it.explore(thunk):
            n += 1
            if r.outcome == 'abort':
                probs.append(('abort', r.value))
            elif r.outcome == 'raise':
                probs.append(('raise', f"raises {r.value.name} ({r.value.value})"))
            else:
                probs += [('bad', x) for x in r.value]
    rep.count('call histories', n)
    verdict(rep, probs, f"{cls.name}|instances", f"{cls.name} on several instances", loc)


def attribute_cache(repo, rep, cls):
    loc = f"{cls.module.rel}:{cls.node.lineno}"

    def thunk(it):
        fn = Fn(['self'])
        owner = Owner()
        desc = make(it, cls, fn)
        one, two = Inst('one', owner), Inst('two', owner)
        out = []
        a = access(it, desc, 'fn', one, owner)
        b = access(it, desc, 'fn', two, owner)
        c = access(it, desc, 'fn', one, owner)
        if not same(fn, (one,), a) or not same(fn, (two,), b):
            out.append(f"the attribute of one instance is {show(a)}, of the other {show(b)}")
        if c is not a:
            out.append("a second access does not give the attribute computed first")
        d = it.call(access(it, desc, 'fn', None, owner), [two])
        if not same(fn, (two,), d):
            out.append(f"called through the class it gives {show(d)}")
        return out
    run_scenario(repo, rep, f"{cls.name}|instances", loc, f"{cls.name} on several instances", thunk)

    def falsy(it):
        fn = Fn(['self'])
        fn.calls = [None] * 3     # the next result is false in a boolean context
        owner = Owner()
        desc = make(it, cls, fn)
        one = Inst('one', owner)
        a = access(it, desc, 'fn', one, owner)
        b = access(it, desc, 'fn', one, owner)
        return [] if a is b else ["a false attribute is computed again"]
    run_scenario(repo, rep, f"{cls.name}|false", loc, f"{cls.name} with a false value", falsy)


def failing(repo, rep, cls):
    loc = f"{cls.module.rel}:{cls.node.lineno}"

    def thunk(it):
        fn = Fn(['x'], fail=((1,),))
        c = make(it, cls, fn)
        out = []
        for _ in range(2):
            try:
                r = it.call(c, [1])
                out.append(f"the call of a failing function returns {show(r)}")
            except RaiseSig as e:
                if e.name != 'ValueError':
                    out.append(f"the function raises ValueError, the cache {e.name}")
        if not same(fn, (2,), it.call(c, [2])):
            out.append("wrong result after a failure")
        return out
    run_scenario(repo, rep, f"{cls.name}|failure", loc, f"{cls.name} of a failing function", thunk)


class ClsV(AbsVal):
    """A class whose metaclass caches its instances."""
    def __init__(self, meta, params, canon=False):
        self.meta, self.attrs = meta, {}
        self.init = SigFn(['self'] + params)
        self.made = []
        if canon:
            # the class has its own canonical form of the arguments
            self.attrs[canon] = Canon()

    def __repr__(self):
        return 'cls'

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == '__init__':
            return self.init
        if name in ('__name__', '__qualname__', '__module__'):
            return 'cls'
        m = self.meta.method(name)
        if m is not None:
            if m.has_deco('staticmethod'):
                return Closure(m, None, None, m.cls)
            return Closure(m, None, self, m.cls)
        return NotImplemented

    def setattr(self, it, name, value):
        self.attrs[name] = value
        return None


class Canon(AbsVal):
    """Canonical arguments: numbers stand for themselves, strings for their length."""
    @staticmethod
    def of(args):
        return tuple(len(x) if isinstance(x, str) else x for x in args)

    def truth(self, it):
        return True

    def call(self, it, args, kwargs):
        if kwargs:
            raise RaiseSig('TypeError', 'keywords', it.loc())
        return self.of(args)


class Made(AbsVal):
    def __init__(self, args):
        self.args = args

    def __repr__(self):
        return f"instance{self.args}"

    def truth(self, it):
        return True


class MetaCfg(CacheCfg):
    def on_call(self, it, callee, args, kwargs, node):
        cls = it.state.get('cls')
        if isinstance(callee, Term) and callee.op == 'attr' and isinstance(callee.args[0], Term) and callee.args[0].op == 'super' and callee.args[1] == '__call__':
            return self.create(it, cls, args, kwargs)
        if isinstance(callee, Term) and callee == Term('ext', 'type.__call__'):
            return self.create(it, cls, args[1:], kwargs)
        return super().on_call(it, callee, args, kwargs, node)

    def create(self, it, cls, args, kwargs):
        b = cls.init.bind((None,) + tuple(args), kwargs)
        if b is None:
            raise RaiseSig('TypeError', 'wrong constructor arguments', it.loc())
        m = Made(b[1:])
        cls.made.append(m)
        return m


def hook_name(meta, an):
    """The method of the metaclass which cached classes replace to give their canonical constructor arguments."""
    best = {}
    for name in meta.methods:
        if name.startswith('__'):
            continue
        for c in an.cached_classes.values():
            m, init = c.methods.get(name), c.method('__init__')
            if m is not None and init is not None and m.params()[1:] == init.params()[1:] and len(m.params()) > 1:
                best[name] = best.get(name, 0) + 1
    return max(best, key=best.get) if best else None


def class_cache(repo, rep, meta, hook):
    loc = f"{meta.module.rel}:{meta.node.lineno}"
    params = ['x', ('y', 5)]
    plain = [((1,), {}), ((1, 5), {}), ((), {'y': 5, 'x': 1}), ((5, 1), {}), ((1,), {'y': 6})]
    spelled = [((1,), {}), (('a', 5), {}), ((), {'y': 'abcde', 'x': 1}), (('abcde', 1), {})]
    n = 0
    probs = []
    for calls, canon in ((plain, None), (spelled, hook)):
      if calls is spelled and canon is None:
        continue
      for h in histories(calls, 3 if not canon else 2):
        for keep in (True, False):
            for when in ([None] if keep else [None, 1, 2, 3, 4, 5, 6, 7, 8]):
                if not keep and len(set(h)) > 2:
                    continue
                def thunk(it):
                    cls = ClsV(meta, params, canon)
                    it.state['cls'] = cls
                    init = meta.method('__init__')
                    if init is not None:
                        it.call(Closure(init, None, cls, init.cls), ['cls', (), {}])
                    weak = it.state.get('weak')
                    if weak is None:
                        raise PathAbort('no dictionary of weak references')
                    weak.when = when
                    out = []
                    prev = {}
                    for j in h:
                        a, k = calls[j]
                        b = cls.init.bind((None,) + tuple(a), k)[1:]
                        if canon:
                            b = Canon.of(b)
                        call = meta.method('__call__')
                        r = it.call(Closure(call, None, cls, call.cls), list(a), dict(k))
                        if not isinstance(r, Made) or r.args != b:
                            out.append(f"{spell(a, k)} gives {show(r)} after {[spell(*calls[i]) for i in h]}")
                        elif keep and prev.setdefault(b, r) is not r:
                            out.append(f"{spell(a, k)} gives another instance while the first is in use")
                        if keep:
                            weak.held.append(r)
                    return out
                it = Interp(repo, MetaCfg())
                for r in it.explore(thunk):
                    n += 1
                    if r.outcome == 'abort':
                        probs.append(('abort', r.value))
                    elif r.outcome == 'raise':
                        probs.append(('raise', f"raises {r.value.name} ({r.value.value}) at {r.value.loc} in {[spell(*calls[i]) for i in h]}"
                                      + (f" when the garbage is collected before step {when}" if when else '')))
                    else:
                        probs += [('bad', x) for x in r.value]
    rep.count('construction histories', n)
    verdict(rep, probs, f"{meta.name}|instances", f"{meta.name}", loc)


def run(repo, rep):
    cache = repo.module('dedalus.tools.cache')
    rep.rule('A call of a cached function, method, attribute or class gives what the call with these arguments computes, whatever was called before')
    function_cache(repo, rep, repo.cls('dedalus.tools.cache', 'CachedFunction'))
    function_cache(repo, rep, repo.cls('dedalus.tools.cache', 'CachedMethod'))
    failing(repo, rep, repo.cls('dedalus.tools.cache', 'CachedFunction'))
    method_cache(repo, rep, repo.cls('dedalus.tools.cache', 'CachedMethod'))
    attribute_cache(repo, rep, repo.cls('dedalus.tools.cache', 'CachedAttribute'))
    an = Analysis(repo)
    meta = repo.cls('dedalus.tools.cache', 'CachedClass')
    an.hook = hook_name(meta, an)
    class_cache(repo, rep, meta, an.hook)
    class_keys(repo, rep, an)
    signatures(repo, rep, an)
    shared_results(repo, rep, an)
    stale_state(repo, rep, an)
    rep.floor('call histories', 500)
    rep.floor('construction histories', 100)
    rep.floor('classes with cached instances', 5)
    rep.floor('functions followed', 500)
    rep.floor('cached functions read', 80)


# ---------------------------------------------------------------- flow of cached results

VIEWS = {'T', 'real', 'imag', 'data', 'flat'}
VIEW_METHODS = {'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'values', 'items', 'get', 'setdefault', '__getitem__'}
VIEW_FUNCS = {'asarray', 'ravel', 'reshape', 'transpose', 'moveaxis', 'swapaxes', 'squeeze', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'asfortranarray', 'ascontiguousarray', 'reshape_vector', 'require_order', 'real', 'imag', 'asanyarray'}
SHALLOW = {'list', 'tuple', 'sorted', 'reversed', 'set', 'dict', 'OrderedDict', 'deque', 'OrderedSet', 'enumerate', 'zip'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'popitem', 'add', 'discard', 'fill', 'put', 'resize', 'itemset', 'eliminate_zeros', 'sum_duplicates', 'sort_indices', 'setdiag', 'partition', 'appendleft', 'popleft', 'move_to_end', 'setdefault', '__setitem__', 'setflags_', 'difference_update', 'intersection_update'}
OUTPOS = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'put_along_axis': 0, 'permute_axis_': 0}
NOTHING = (frozenset(), frozenset())


def join(a, b):
    return (a[0] | b[0], a[1] | b[1])


def both(v):
    return v[0] | v[1]


class Flow:
    """Forward flow of shared (cached) objects through one function; a value is
    (caches the object itself belongs to, caches its elements belong to)."""
    def __init__(self, an, func):
        self.an, self.f = an, func
        self.env = {}
        self.ret = NOTHING
        self.found = []
        for p in func.params():
            self.env[p] = (frozenset({('param', p)}), frozenset({('param', p)}))
        if func.node.args.vararg:
            p = func.node.args.vararg.arg
            self.env[p] = (frozenset(), frozenset({('param', p)}))

    def run(self):
        body = self.f.node.body
        if isinstance(self.f.node, ast.Lambda):
            self.ret = self.ev(body)
        else:
            self.block(body)
        return self

    def hit(self, v, node, how):
        for o in v:
            self.found.append((o, node, how))

    # statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def branch(self, *bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                outs.append(self.env)
        if not outs:
            outs = [start]
        self.env = {}
        for k in set().union(*outs):
            v = NOTHING
            for o in outs:
                v = join(v, o.get(k, NOTHING))
            self.env[k] = v

    def loop(self, body, orelse):
        for _ in range(2):
            start = dict(self.env)
            self.block(body)
            for k, v in start.items():
                self.env[k] = join(v, self.env.get(k, NOTHING))
        self.block(orelse)

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            self.ev(st.value)
            if isinstance(st.target, ast.Name):
                v = self.env.get(st.target.id, NOTHING)
                if not self.plain(st.value, st.op):
                    self.hit({o for o in v[0] if not self.an.immutable(o)}, st, 'is updated in place')
            else:
                v = self.ev(st.target.value)
                self.hit(v[0], st, 'is written')
                if isinstance(st.target, ast.Attribute) and isinstance(st.target.value, ast.Name) and st.target.value.id in ('self', 'cls'):
                    pass
                if isinstance(st.target, ast.Subscript):
                    w = self.sub(v, st.target)
                    if not self.plain(st.value, st.op):
                        self.hit({o for o in w[0] - v[0] if not self.an.immutable(o)}, st, 'is updated in place')
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.ret = join(self.ret, self.ev(st.value))
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.If):
            self.ev(st.test)
            self.branch(st.body, st.orelse)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            v = self.ev(st.iter)
            self.assign(st.target, self.elem(v))
            self.loop(st.body, st.orelse)
        elif isinstance(st, ast.While):
            self.ev(st.test)
            self.loop(st.body, st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            self.branch(st.body + st.orelse, *[h.body for h in st.handlers] or [[]])
            self.block(st.finalbody)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(self.ev(t.value)[0], st, 'loses items')
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.env[st.name] = NOTHING
            inner = {a.arg for a in st.args.args}
            saved = dict(self.env)
            for a in inner:
                self.env[a] = NOTHING
            r = self.ret
            self.block(st.body)
            self.ret = r
            self.env = saved
        elif isinstance(st, ast.Match):
            self.ev(st.subject)
            self.branch(*[c.body for c in st.cases], [])
        elif isinstance(st, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.ev(x)

    @staticmethod
    def plain(e, op):
        """The right side can only update an immutable value (number, tuple, string) or rebinds."""
        return isinstance(e, (ast.Tuple, ast.JoinedStr)) or isinstance(e, ast.Constant) and isinstance(e.value, str)

    def elem(self, v):
        return (v[1], v[1])

    def sub(self, v, node):
        """Item of a value: arrays give views for basic indices only."""
        return (v[1] | v[0], v[1] | v[0]) if not self.fancy(node.slice) else NOTHING

    def fancy(self, s):
        if isinstance(s, ast.Compare):
            return True
        if isinstance(s, ast.Tuple):
            return any(self.fancy(x) for x in s.elts)
        if isinstance(s, (ast.List, ast.ListComp)):
            return True
        if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert):
            return True
        if isinstance(s, ast.Call):
            n = s.func.attr if isinstance(s.func, ast.Attribute) else getattr(s.func, 'id', '')
            return n in ('ix_', 'where', 'argsort', 'arange')
        return False

    def assign(self, t, v, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(value.elts) + list(t.elts)):
                vs = [self.ev(x) for x in value.elts]
                for x, y in zip(t.elts, vs):
                    self.assign(x, y)
            else:
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, (frozenset(), v[1]))
                    else:
                        self.assign(x, self.elem(v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.hit(b[0], t, 'is written')
            if isinstance(t.value, ast.Name) and t.value.id in self.env:
                c, e = self.env[t.value.id]
                self.env[t.value.id] = (c, e | v[0])
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.an.attribute_store(self, t, b)
            if isinstance(t.value, ast.Name) and t.value.id == 'self' and self.f.cls is not None:
                self.an.keep(self.f.cls, t.attr, v)

    # expressions
    def ev(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NOTHING)
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value)
            o = self.an.attribute_origin(e, self.f)
            if o:
                return (o, o)
            if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls'):
                return self.an.self_attribute(self, e.attr)
            if e.attr in VIEWS:
                return b
            return (both(b), both(b)) if not any(x[0] == 'param' for x in both(b)) else \
                (frozenset(x for x in both(b) if x[0] != 'param'),) * 2
        if isinstance(e, ast.Subscript):
            return self.sub(self.ev(e.value), e)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            s = frozenset()
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                s |= v[1] if isinstance(x, ast.Starred) else v[0]
            return (frozenset(), s)
        if isinstance(e, ast.Dict):
            s = frozenset()
            for x in e.values:
                s |= self.ev(x)[0]
            return (frozenset(), s)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return join(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, ast.BoolOp):
            v = NOTHING
            for x in e.values:
                v = join(v, self.ev(x))
            return v
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v)
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                self.assign(g.target, self.elem(self.ev(g.iter)))
                for c in g.ifs:
                    self.ev(c)
            v = self.ev(e.value if isinstance(e, ast.DictComp) else e.elt)
            self.env = saved
            return (frozenset(), v[0])
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Lambda):
            return NOTHING
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return NOTHING

    def call(self, e):
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
        args = [self.ev(a.value) if isinstance(a, ast.Starred) else self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        if 'out' in kws:
            self.hit(kws['out'][0], e, 'receives a result')
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) else NOTHING
        if name in OUTPOS and len(args) > OUTPOS[name]:
            self.hit(args[OUTPOS[name]][0], e, 'receives a result')
        o = self.an.call_origin(e, self.f)
        if o:
            return (o, o)
        if isinstance(fn, ast.Attribute):
            if name in MUTATORS:
                self.hit(recv[0], e, f"is changed by {name}()")
            if name in ('pop', 'setdefault', 'get', 'popleft', 'values', 'items'):
                return (recv[1], recv[1])
            if name in VIEW_METHODS and recv != NOTHING:
                return recv
            if name == 'astype' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return recv
        if name in SHALLOW and args:
            return (frozenset(), frozenset().union(*[a[1] for a in args]))
        if name in VIEW_FUNCS and args:
            out = args[0]
        else:
            out = NOTHING
        # repository functions
        for g, off in self.an.targets(e, self.f):
            s = self.an.summary.get(id(g.node))
            if s is None:
                continue
            params = g.params()
            at = {}
            for p, v in zip(params[off:], args):
                at[p] = v
            for k, v in kws.items():
                at[k] = v
            if off == 1 and params and isinstance(fn, ast.Attribute) and len(self.an.targets(e, self.f)) == 1:
                at[params[0]] = recv
            for p, how in s['mut'].items():
                if p in at:
                    self.hit(at[p][0], e, f"is changed by {g.qualname} ({how})")
            c, el = s['ret']
            cc, ee = set(), set()
            for src, dst in ((c, cc), (el, ee)):
                for x in src:
                    if x[0] == 'param':
                        if x[1] in at:
                            dst |= at[x[1]][0]
                    else:
                        dst.add(x)
            out = join(out, (frozenset(cc), frozenset(ee)))
        return out


class Analysis:
    def __init__(self, repo):
        from ..effects import Effects
        self.repo = repo
        self.funcs = []
        seen = set()
        for f in repo.functions():
            if id(f.node) not in seen:
                seen.add(id(f.node))
                self.funcs.append(f)
        self.cached = [f for f in self.funcs if f.has_deco(*CACHED)]
        self.shared = [f for f in self.cached if not owned(f)]
        self.attrs, self.methods = {}, {}
        for f in self.shared:
            d = self.attrs if f.has_deco('CachedAttribute', 'cached_property') else self.methods
            d.setdefault(f.name, []).append(f)
        self.by_name = {}
        for f in self.funcs:
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(f)
        self.eff = Effects.__new__(Effects)
        self.eff.repo = repo
        self.eff.by_method = self.by_name
        self.cached_classes = {c.name: c for c in repo.classes() if 'CachedClass' in ' '.join(metaclasses(c))}
        self.summary = {id(f.node): {'mut': {}, 'ret': NOTHING} for f in self.funcs}
        self.held = {}
        self._imm = {}
        self.fix()

    def fix(self):
        for n in range(6):
            changed = False
            for f in self.funcs:
                h = dict(self.held)
                fl = Flow(self, f).run()
                changed |= h != self.held
                mut = {}
                for o, node, how in fl.found:
                    if o[0] == 'param':
                        mut.setdefault(o[1], how)
                s = {'mut': mut, 'ret': fl.ret}
                old = self.summary[id(f.node)]
                if set(mut) != set(old['mut']) or fl.ret != old['ret']:
                    changed = True
                    self.summary[id(f.node)] = s
            if not changed:
                break

    def keep(self, cls, attr, v):
        """self.attr = value: the attribute holds these shared objects."""
        v = tuple(frozenset(o for o in x if o[0] != 'param') for x in v)
        old = self.held.get((cls, attr), NOTHING)
        self.held[cls, attr] = join(old, v)

    def self_attribute(self, flow, attr):
        v = NOTHING
        cls = flow.f.cls
        if cls is not None and attr in self.held_names():
            for c in cls.mro() + self.repo.subclasses(cls):
                v = join(v, self.held.get((c, attr), NOTHING))
        return v

    def held_names(self):
        return {a for (_, a), v in self.held.items() if v != NOTHING}

    def attribute_store(self, flow, t, b):
        """obj.attr = value with a shared object."""
        mine = {o for o in b[0] if o[0] != 'param'}
        if mine and not (isinstance(t.value, ast.Name) and t.value.id == 'self'):
            flow.hit(mine, t, f"gets another '{t.attr}'")

    def candidates(self, e, f, table):
        """Cached functions an attribute expression can name."""
        c = table.get(e.attr)
        if not c:
            return []
        r = self.repo.resolve_expr(e, f.module)
        if isinstance(r, Func):
            return [x for x in c if x.node is r.node]
        if isinstance(r, (tuple, Class)):
            return []
        if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and f.cls is not None:
            fam = self.repo.subclasses(f.cls) + f.cls.mro()
            c2 = [x for x in c if x.cls in fam]
            return c2
        return c

    def attribute_origin(self, e, f):
        c = self.candidates(e, f, self.attrs)
        if c and isinstance(e.ctx, ast.Load):
            return frozenset({('cached', x.qualname) for x in c})
        return frozenset()

    def call_origin(self, e, f):
        fn = e.func
        if isinstance(fn, ast.Attribute):
            c = self.candidates(fn, f, self.methods)
            # methods of the same name that are not cached: only when the receiver is resolved or every one is cached
            if c:
                return frozenset({('cached', x.qualname) for x in c})
            return frozenset()
        if isinstance(fn, ast.Name):
            r = self.repo.resolve_name(fn.id, f.module)
            if isinstance(r, Func) and r.has_deco(*CACHED) and not owned(r):
                return frozenset({('cached', r.qualname)})
            if isinstance(r, Class) and r.name in self.cached_classes:
                return frozenset({('instance', r.name)})
        return frozenset()

    def targets(self, e, f):
        ts, off = self.eff.targets(e, f)
        return [(t, off) for t in ts]

    def immutable(self, o):
        """Every return of the cached function is a number, tuple, string or boolean (by its form)."""
        if o[0] != 'cached':
            return o[0] == 'param'
        if o not in self._imm:
            fs = [f for f in self.cached if f.qualname == o[1]]
            self._imm[o] = all(all(immutable_expr(r.value) for r in ast.walk(f.node) if isinstance(r, ast.Return) and r.value is not None) for f in fs)
        return self._imm[o]


ALLOC = {'empty', 'zeros', 'create_array', 'create_buffer', 'empty_like', 'zeros_like', 'ndarray', 'bytearray'}


def owned(f, seen=()):
    """The cached object carries no content of its own: scratch memory, the owner's private copy, or nothing (abstract)."""
    rets = [r.value for r in ast.walk(f.node) if isinstance(r, ast.Return) and r.value is not None]
    if not rets:
        return True
    top = {id(st) for st in f.node.body}

    def callname(e):
        if isinstance(e, ast.Call):
            return e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, 'attr', '')
        return ''

    def helper(e):
        """The method or function of the same class or module a call names."""
        if not isinstance(e, ast.Call):
            return None
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and f.cls is not None and f.params() and e.func.value.id in (f.params()[0], f.cls.name):
            return f.cls.method(e.func.attr)
        if isinstance(e.func, ast.Name):
            g = f.module.funcs.get(e.func.id)
            return g[-1] if isinstance(g, list) else g
        return None
    binds = {}
    written = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    binds.setdefault(t.id, []).append((n, n.value))
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    for x, y in zip(t.elts, n.value.elts):
                        if isinstance(x, ast.Name):
                            binds.setdefault(x.id, []).append((n, y))
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    written.add(t.value.id)
        elif isinstance(n, ast.AugAssign):
            t = n.target
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Name):
                written.add(t.id)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == 'out' and isinstance(k.value, ast.Name):
                    written.add(k.value.id)

    def values(name):
        b = sorted(binds.get(name, []), key=lambda x: (x[0].lineno, x[0].col_offset))
        if b and id(b[-1][0]) in top:
            return [b[-1][1]]
        return [v for _, v in b]

    def private(e, depth=0):
        if callname(e) == 'copy':
            return True
        if isinstance(e, ast.Name) and depth < 4:
            b = values(e.id)
            return bool(b) and all(private(x, depth + 1) for x in b)
        g = helper(e)
        return g is not None and g.node not in seen and len(seen) < 3 and private_result(g)

    def private_result(g):
        rs = [r.value for r in ast.walk(g.node) if isinstance(r, ast.Return) and r.value is not None]
        return bool(rs) and owned(g, seen + (f.node, 'copy')) if 'copy' not in seen else False

    if (f.has_deco('CachedAttribute', 'cached_property') or 'copy' in seen) and all(private(r) for r in rets):
        return True

    def scratch(e, depth=0):
        if callname(e) in ALLOC:
            return True
        if isinstance(e, ast.Name) and depth < 4:
            b = values(e.id)
            return bool(b) and e.id not in written and all(scratch(x, depth + 1) for x in b)
        if isinstance(e, ast.Tuple):
            return any(scratch(x, depth + 1) for x in e.elts)
        g = helper(e)
        return g is not None and g.node not in seen and len(seen) < 3 and owned(g, seen + (f.node,))
    return all(scratch(r) for r in rets)


def metaclasses(c):
    return [ast.unparse(k.value) for x in c.mro() for k in x.node.keywords if k.arg == 'metaclass']


def immutable_expr(e):
    if isinstance(e, (ast.Constant, ast.Compare, ast.Tuple, ast.JoinedStr)):
        return True
    if isinstance(e, ast.BoolOp):
        return all(immutable_expr(x) for x in e.values)
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, 'attr', '')
        return n in ('tuple', 'int', 'float', 'len', 'bool', 'str', 'complex', 'prod', 'sum', 'max', 'min', 'isinstance', 'any', 'all', 'slice')
    if isinstance(e, ast.BinOp):
        return immutable_expr(e.left) and immutable_expr(e.right)
    return False


def shared_results(repo, rep, an):
    rep.rule('An object a cache has handed out is never changed in place')
    n = 0
    for f in an.funcs:
        fl = Flow(an, f).run()
        n += 1
        hits = {}
        for o, node, how in fl.found:
            if o[0] != 'param':
                hits.setdefault((o, how), node)
        rep.count('functions followed')
        if not hits:
            rep.ok(f"{f.qualname}")
        for (o, how), node in hits.items():
            what = f"the cached result of {o[1]}" if o[0] == 'cached' else f"a cached instance of {o[1]}"
            rep.violation(f"{o[1]}|{how}" if o[0] == 'instance' else f"{f.qualname}|{o[1]}|{how}", f"{f.qualname}: {what} {how}", f"{f.module.rel}:{node.lineno}")


def self_stores(f):
    """(attribute, node) assigned or stored into through `self` in a method."""
    if not f.params():
        return
    me = f.params()[0]

    def base(t):
        while isinstance(t, (ast.Subscript, ast.Starred)):
            t = t.value
        return t
    for n in ast.walk(f.node):
        ts = []
        if isinstance(n, ast.Assign):
            ts = list(n.targets)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            ts = [n.target]
        elif isinstance(n, ast.Delete):
            ts = list(n.targets)
        elif isinstance(n, (ast.For,)):
            ts = [n.target]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(base(n.func.value), ast.Attribute):
            ts = [n.func.value]
        while ts:
            t = ts.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                ts += t.elts
                continue
            t = base(t)
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                yield t.value.id == me, t.attr, n


def stale_state(repo, rep, an):
    rep.rule('A cached function reads no state of its object that changes after construction')
    by_cls = {}
    for f in an.funcs:
        if f.cls is not None:
            by_cls.setdefault(f.cls, []).append(f)
    # methods used only while constructing
    calls = {}
    for f in an.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                calls.setdefault(n.attr, []).append(f)
    ctor = {'__init__', '__new__', '__setstate__', '__init_subclass__', '__post_init__'}

    def only_in_construction(f, seen=()):
        if f.name in ctor:
            return True
        if f.node in seen:
            return True
        users = calls.get(f.name, [])
        return f.name.startswith('_') and bool(users) and all(u.cls is not None and only_in_construction(u, seen + (f.node,)) for u in users)
    owner = {}       # attribute -> classes that set it while constructing
    mutable = {}     # (class, attribute) -> where it changes
    stores = {}
    for f in an.funcs:
        for me, attr, n in self_stores(f):
            if me and f.cls is not None:
                if only_in_construction(f):
                    owner.setdefault(attr, set()).add(f.cls)
                elif not (f.has_deco(*CACHED) and f.name == attr):
                    mutable.setdefault((f.cls, attr), f)
                    stores.setdefault((f.cls, attr), set()).add(f)
    for f in an.cached:
        if f.cls is None or not f.params():
            continue
        rep.count('cached functions read')
        fam = [c for c in repo.classes() if c in f.cls.mro() or f.cls in c.mro()]
        me = f.params()[0]
        bad = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                if n.value.id == me:
                    if n.attr == 'args' and only_metadata(f, n):
                        continue    # evaluating an operand keeps its metadata
                    late = {w for (c, a), ws in stores.items() if a == n.attr and c in fam for w in ws}
                    if not owner.get(n.attr, set()) & set(fam) and len(late) == 1:
                        continue    # set once, after construction
                    for c in fam:
                        w = mutable.get((c, n.attr))
                        if w is not None and f.name not in (w.name,):
                            bad = bad or (n, f"reads {ast.unparse(n)}, which {w.qualname} changes")
                elif n.attr in STATE:
                    bad = bad or (n, f"reads {ast.unparse(n)}, the present state of another object")
        if bad:
            rep.violation(f"{f.qualname}|{ast.unparse(bad[0])}", f"{f.qualname} is cached but {bad[1]}", f"{f.module.rel}:{bad[0].lineno}")
        else:
            rep.ok(f.qualname)


METADATA = {'domain', 'tensorsig', 'dtype', 'dist'}


def only_metadata(f, attr):
    """Every use of self.args[i] in the function reads metadata of the operand."""
    parents = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}

    def fine(n, depth=0):
        p = parents.get(n)
        if isinstance(p, ast.Subscript) and p.value is n:
            return fine(p, depth)
        if isinstance(p, ast.Attribute):
            return p.attr in METADATA
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('len', 'isinstance', 'type'):
            return True
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and depth < 3:
            names = [x for x in ast.walk(p.targets[0]) if isinstance(x, ast.Name)]
            return all(fine(u, depth + 1) for x in names for u in ast.walk(f.node) if isinstance(u, ast.Name) and u.id == x.id and isinstance(u.ctx, ast.Load))
        if isinstance(p, (ast.Tuple, ast.Starred, ast.List)):
            return fine(p, depth)
        if isinstance(p, (ast.For, ast.comprehension)) and depth < 3:
            names = [x for x in ast.walk(p.target) if isinstance(x, ast.Name)]
            return all(fine(u, depth + 1) for x in names for u in ast.walk(f.node) if isinstance(u, ast.Name) and u.id == x.id and isinstance(u.ctx, ast.Load))
        return False
    return fine(attr)


STATE = {'scales', 'layout', 'data', 'buffer', 'sim_time', 'iteration', 'dt', 'last_id'}


# ---------------------------------------------------------------- keys of cached classes

def samples(rank):
    """Per parameter: (base value, spellings of the same value, other values)."""
    r = rank
    f = Term('ext', 'numpy.float64')
    c = Term('ext', 'numpy.complex128')
    shape = (8, 6, 4)[:r]
    dl = (1.5, 2.0, 1.25)[:r]
    return {
        'shape': (shape, [list(shape)], [(8, 6, 6)[:r] if r > 2 else (8, 4), (4,) + shape[1:]]),
        'size': (8, [], [6]), 'radial_size': (8, [], [6]),
        'bounds': ((0, 1), [[0, 1]], [(0, 2), (-1, 1), (0.25, 1.5), (1, 0)]),
        'dtype': (f, [], [c]),
        'radii': ((1, 2), [[1, 2]], [(1, 3), (0.5, 2), (1.25, 2.5)]),
        'radius': (1, [], [2, 3, 1.75]),
        'k': (1, [], [0, 2]),
        'alpha': ((-0.5, 0.5), [[-0.5, 0.5]], [(0.5, -0.5), (0.5, 0.5)]),
        'dealias': (dl, [list(dl)], [(1.0,) * r, (2.0,) + dl[1:], dl[:-1] + (3.0,)]),
        'a': (0.5, [], [1.5]), 'b': (2.5, [], [3.5]), 'a0': (4.5, [], [5.5]), 'b0': (6.5, [], [7.5]),
        'library': ('libx', [], ['liby']), 'azimuth_library': ('libx', [], ['liby']),
        'colatitude_library': ('libx', [], ['liby']), 'radius_library': ('libx', [], ['liby']),
    }


def class_keys(repo, rep, an):
    rep.rule('Every constructor argument of a class with cached instances is part of the key, in its place')
    coordnames = ['Coordinate', 'AzimuthalCoordinate', 'CartesianCoordinates', 'PolarCoordinates', 'S2Coordinates', 'SphericalCoordinates']
    for name, cls in sorted(an.cached_classes.items()):
        rep.count('classes with cached instances')
        init = cls.method('__init__')
        loc = f"{cls.module.rel}:{cls.node.lineno}"
        if init is None:
            continue
        a = init.node.args
        if a.kwonlyargs or a.vararg or a.kwarg:
            rep.violation(f"{name}|signature", f"{name}: constructor arguments beyond the positional ones are not part of the key", loc)
            continue
        params = init.params()[1:]
        m = cls.method(an.hook) if an.hook else None
        if m is None:
            rep.ok(f"{name}: the arguments are the key")
            continue
        dflt = dict(zip(params[::-1], a.defaults[::-1]))
        system = None
        for cn in coordnames:
            for rank in (1, 2, 3):
                for scalar_alpha in [isinstance(dflt.get('alpha'), (ast.Constant, ast.UnaryOp))]:
                    if system is not None:
                        continue
                    base = base_args(repo, params, cn, rank, scalar_alpha)
                    if base is None:
                        continue
                    k = key_of(repo, cls, m, params, base)
                    if isinstance(k, tuple) and k and k[0] == 'key':
                        system = (cn, rank, scalar_alpha)
        if system is None:
            k = key_of(repo, cls, m, params, base_args(repo, params, 'SphericalCoordinates', 3, False))
            rep.undec(f"{name}: no accepted arguments found ({k})")
            continue
        cn, rank, sa = system
        base = base_args(repo, params, cn, rank, sa)
        k0 = key_of(repo, cls, m, params, base)[1]
        if len(k0) != len(params):
            rep.violation(f"{name}|length", f"{name}: the key has {len(k0)} entries for {len(params)} constructor arguments", loc)
            continue
        sm = samples(rank)
        ds = {}
        for i, p in enumerate(params):
            if p in ('coord', 'coordsys'):
                others, same_ = [Obj(repo.cls('dedalus.core.coords', cn), 'other')], []
            elif p in sm:
                _, same_, others = sm[p]
                if p == 'alpha' and sa:
                    same_, others = [], [3, 4]
            else:
                rep.undec(f"{name}: unknown constructor argument {p}")
                continue
            probs = []
            for v in others:
                k = key_of(repo, cls, m, params, {**base, p: v})
                if k[0] == 'abort':
                    probs.append(('abort', k[1]))
                elif k[0] == 'raise':
                    probs.append(('bad', f"{p}={show(v)} is refused: {k[1]}"))
                else:
                    diff = [j for j in range(len(params)) if not keq(k[1][j], k0[j])]
                    if diff != [i]:
                        probs.append(('bad', f"instances for {p}={show(base[p])} and {p}={show(v)} have keys differing in {[params[j] for j in diff] or 'nothing'}"))
                    elif not keq(k[1][i], tuple(v) if isinstance(v, list) else v):
                        probs.append(('bad', f"{p}={show(v)} becomes {show(k[1][i])}"))
                rep.count('keys compared')
            for v in same_:
                k = key_of(repo, cls, m, params, {**base, p: v})
                if k[0] == 'abort':
                    probs.append(('abort', k[1]))
                elif k[0] == 'raise' or not all(keq(x, y) for x, y in zip(k[1], k0)):
                    probs.append(('bad', f"{p}={show(v)} and {p}={show(base[p])} give different keys"))
                rep.count('keys compared')
            verdict(rep, probs, f"{name}|key|{p}", f"{name}: {p}", loc)


def base_args(repo, params, cn, rank, scalar_alpha):
    sm = samples(rank)
    out = {}
    for p in params:
        if p in ('coord', 'coordsys'):
            out[p] = Obj(repo.cls('dedalus.core.coords', cn), 'coords')
        elif p == 'alpha' and scalar_alpha:
            out[p] = 2
        elif p in sm:
            out[p] = sm[p][0]
        else:
            out[p] = Obj(None, p)
    return out


def keq(a, b):
    a, b = [plain_value(x) for x in (a, b)]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(keq(x, y) for x, y in zip(a, b))
    if isinstance(a, (Obj, AbsVal)) or isinstance(b, (Obj, AbsVal)):
        return a is b
    try:
        return bool(a == b)
    except Exception:
        return False


def plain_value(x):
    try:
        return unwrap(x)
    except NotConcrete:
        return x


def key_of(repo, cls, m, params, args):
    it = Interp(repo, CacheCfg())
    res = it.explore(lambda it: it.call(Closure(m, None, None if m.has_deco('staticmethod') else cls, m.cls), [args[p] for p in params]))
    if len(res) != 1:
        return ('abort', f"{len(res)} paths")
    r = res[0]
    if r.outcome == 'abort':
        return ('abort', r.value)
    if r.outcome == 'raise':
        return ('raise', f"{r.value.name} {show(r.value.value)}")
    if not isinstance(r.value, (tuple, list)):
        return ('abort', 'not a tuple')
    return ('key', tuple(r.value))


def signatures(repo, rep, an):
    rep.rule('Cached functions take no argument the key leaves out, and no cached method stands behind super()')
    for f in an.cached:
        if f.has_deco('CachedAttribute', 'cached_property', 'lru_cache', 'cache'):
            continue
        a = f.node.args
        extra = [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else []) + [x.arg for x in a.posonlyargs]
        rep.check(not extra, f"{f.qualname}|signature", f"{f.qualname} is cached without its arguments {extra}", f"{f.module.rel}:{f.node.lineno}")
    names = {f.name for f in an.cached if f.has_deco('CachedMethod', 'CachedAttribute')}
    for f in an.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super' and n.attr in names and f.cls is not None:
                mro = f.cls.mro()[1:]
                m = next((c.methods[n.attr] for c in mro if n.attr in c.methods), None)
                rep.check(m is None or not m.has_deco('CachedMethod', 'CachedAttribute'), f"{f.qualname}|super|{n.attr}",
                          f"{f.qualname}: the access to the cached {n.attr} of a base class replaces the one of the instance", f"{f.module.rel}:{n.lineno}")
