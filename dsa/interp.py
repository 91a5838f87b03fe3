"""Path-sensitive abstract interpreter over the syntax tree.

Values are either constants known from the source (numbers, strings,
containers), canonical opaque terms (`Term`), abstract objects of a class
defined in the repository (`Obj`), or instances of a rule's own abstract
domain (`AbsVal`).  Calls to functions defined in the repository are inlined,
so helper extraction does not change what a rule sees.  A branch on an
undetermined condition forks the path; loops over unknown sequences are
analysed for one generic element.  No code of the repository is executed.
"""
import ast
import os
import collections
import fractions
import itertools
import math
import operator as op_
import sympy
import threading
import numpy as np

from .repo import Func, Class, Module


# --------------------------------------------------------------------------- values

class Term:
    __slots__ = ('op', 'args', '_h')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = None

    def __eq__(self, other):
        if self is other:
            return True
        return isinstance(other, Term) and hash(self) == hash(other) and self.op == other.op and _teq(self.args, other.args)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, tuple(_hashable(a) for a in self.args)))
        return self._h

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth of Term")


def _teq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, bool) != isinstance(y, bool):
            return False
        if not (x is y or (type(x) == type(y) or isinstance(x, (int, float, sympy.Basic)) and isinstance(y, (int, float, sympy.Basic))) and _safe_eq(x, y)):
            return False
    return True


def _safe_eq(x, y):
    try:
        return bool(x == y)
    except Exception:
        return False


def _hashable(a):
    try:
        hash(a)
        return a
    except TypeError:
        return repr(type(a))


def show(v, depth=0):
    if depth > 12:
        return '…'
    s = lambda x: show(x, depth + 1)
    if isinstance(v, Term):
        o, a = v.op, v.args
        if o == 'sym':
            return str(a[0])
        if o == 'attr':
            return f"{s(a[0])}.{a[1]}"
        if o == 'item':
            return f"{s(a[0])}[{s(a[1])}]"
        if o == 'idx':
            return f"#{s(a[0])}"
        if o == 'call':
            args = [s(x) for x in a[1]] + [f"{k}={s(x)}" for k, x in a[2]]
            return f"{s(a[0])}({', '.join(args)})"
        if o == 'bin':
            return f"({s(a[1])} {a[0]} {s(a[2])})"
        if o == 'un':
            return f"({a[0]} {s(a[1])})"
        if o == 'cmp':
            return f"({s(a[1])} {a[0]} {s(a[2])})"
        if o == 'ext':
            return str(a[0])
        return f"{o}({', '.join(s(x) for x in a)})"
    if isinstance(v, (list,)):
        return '[' + ', '.join(s(x) for x in v) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(s(x) for x in v) + ')'
    if isinstance(v, dict):
        return '{' + ', '.join(f"{s(k)}: {s(x)}" for k, x in v.items()) + '}'
    if isinstance(v, slice):
        f = lambda x: '' if x is None else s(x)
        return f"{f(v.start)}:{f(v.stop)}" + (f":{f(v.step)}" if v.step is not None else '')
    return str(v) if isinstance(v, (AbsVal, Obj, sympy.Basic)) else repr(v)


def sym(name):
    return Term('sym', name)


def freeze(v):
    if isinstance(v, Frozen):
        return v
    if isinstance(v, (list, collections.deque)):
        return Term('list', *[freeze(x) for x in v])
    if isinstance(v, tuple):
        return Term('tuple', *[freeze(x) for x in v])
    if isinstance(v, (dict,)):
        return Term('dict', *[Term('kv', freeze(k), freeze(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return Term('set', *sorted((freeze(x) for x in v), key=repr))
    if isinstance(v, slice):
        return Term('slice', freeze(v.start), freeze(v.stop), freeze(v.step))
    if isinstance(v, np.ndarray):
        return Term('ndarray', *[freeze(x) for x in v.ravel().tolist()])
    return v


class Frozen:
    pass


class AbsVal:
    """Base class for rule-specific abstract values; override the hooks needed."""
    def getattr(self, it, name):
        return NotImplemented

    def setattr(self, it, name, value):
        return NotImplemented

    def getitem(self, it, key):
        return NotImplemented

    def setitem(self, it, key, value):
        return NotImplemented

    def call(self, it, args, kwargs):
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        return NotImplemented

    def binop(self, it, op, other, swapped):
        return NotImplemented

    def unop(self, it, op):
        return NotImplemented

    def truth(self, it):
        return None

    def iterate(self, it):
        return NotImplemented

    def compare(self, it, op, other, swapped):
        return NotImplemented


class Obj:
    """Abstract instance of a class defined in the repository."""
    _n = 0

    def __init__(self, cls, name=None, attrs=None):
        self.cls = cls
        self.name = name
        self.attrs = dict(attrs or {})

    def __repr__(self):
        return self.name or f"<{self.cls.name if self.cls else 'object'}>"


class Native:
    """A python callable standing for a builtin or library function."""
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<{self.name}>"


class Closure:
    def __init__(self, func, frame=None, self_val=None, cls=None, defaults=None):
        self.defaults = defaults
        self.func = func       # repo.Func
        self.frame = frame     # defining frame for nested functions
        self.self_val = self_val
        self.cls = cls         # class in whose body it was found (for super)

    def __repr__(self):
        if self.self_val is not None:
            return f"{show(self.self_val)}.{self.func.name}"
        return f"{self.func.qualname}"

    def __eq__(self, o):
        return isinstance(o, Closure) and o.func is self.func and o.frame is self.frame and (o.self_val is self.self_val or (isinstance(self.self_val, Term) and o.self_val == self.self_val))

    def __hash__(self):
        return hash(id(self.func))


class SuperVal:
    def __init__(self, obj, cls, start):
        self.obj, self.cls, self.start = obj, cls, start


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


# --------------------------------------------------------------------------- control

class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class RaiseSig(Exception):
    def __init__(self, name, value=None, loc=None):
        self.name = name
        self.value = value
        self.loc = loc


class PathAbort(Exception):
    """The path cannot be continued (bound reached / unsupported)."""
    def __init__(self, why):
        self.why = why


class Event:
    __slots__ = ('kind', 'data', 'loc', 'loops', 'stack')

    def __init__(self, kind, data, loc, loops, stack):
        self.kind = kind
        self.data = data
        self.loc = loc
        self.loops = loops
        self.stack = stack

    def __repr__(self):
        return f"{self.kind}{show(self.data)}@{self.loc}"


class PathResult:
    def __init__(self, outcome, value, events, decisions, interp):
        self.outcome = outcome     # 'return' | 'raise' | 'abort'
        self.value = value
        self.events = events
        self.decisions = decisions  # list of (term, bool, loc)
        self.interp = interp
        self.extra = {}

    def cond_text(self):
        return ' and '.join((show(t) if v else f"not {show(t)}") for t, v, l in self.decisions) or 'always'


class Frame:
    def __init__(self, func, module, locals_, cls=None, parent=None, node=None):
        self.func = func
        self.module = module
        self.locals = locals_
        self.cls = cls
        self.parent = parent
        self.node = node
        self.yields = None
        self.comp = False
        self.globals_decl = set()
        self.nonlocal_decl = set()


_BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
           ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
           ast.LShift: '<<', ast.RShift: '>>'}
_CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
           ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

_CACHE_DECOS = ('CachedMethod', 'CachedAttribute', 'CachedFunction', 'cached_property', 'lru_cache')

NUM = (int, float, complex, fractions.Fraction, sympy.Basic)
CONST = (int, float, complex, str, bytes, bool, type(None), fractions.Fraction)


def is_num(v):
    return isinstance(v, NUM) and not isinstance(v, bool) or isinstance(v, bool)


def symfloat(x):
    """Exact rational for a decimal literal."""
    if x != x or x in (float('inf'), float('-inf')):
        return sympy.oo if x > 0 else (-sympy.oo if x < 0 else sympy.nan)
    return sympy.Rational(repr(x))


class Config:
    """Analysis configuration; rules subclass or fill the hooks."""
    max_depth = 60
    max_recursion = 30
    max_paths = 4000
    max_steps = 400000
    max_while = 3
    lazy_generators = False
    closed_keys = False    # distinct dictionary keys are unequal, whatever they are made of
    exact = True           # exact rational arithmetic
    catch_forks = False    # fork "the try body raised" at try statements
    attr_types = {}        # (class name, attr) -> class name (repo)
    record_getattr = ()    # attribute names whose loads are recorded

    def inline(self, it, func):
        return True

    def on_call(self, it, callee, args, kwargs, node):
        """Hook for calls on opaque/external callees; return NotImplemented for the default."""
        return NotImplemented

    def on_native(self, it, name, args, kwargs):
        """Hook for builtins applied to values their model does not know."""
        return NotImplemented

    def on_repo_call(self, it, closure, args, kwargs, node):
        return NotImplemented

    def on_new(self, it, cls, args, kwargs, node):
        return NotImplemented

    def on_getattr(self, it, base, name):
        return NotImplemented

    def on_setattr(self, it, base, name, value):
        return NotImplemented

    def on_getitem(self, it, base, key):
        return NotImplemented

    def on_setitem(self, it, base, key, value):
        return NotImplemented

    def on_truth(self, it, value):
        return None

    def on_iterate(self, it, value):
        return NotImplemented

    def on_isinstance(self, it, value, cls):
        return None

    def on_binop(self, it, op, a, b):
        return NotImplemented


class Interp:
    def __init__(self, repo, config=None):
        self.repo = repo
        self.cfg = config or Config()
        self._reset([])
        self._cls_type_cache = {}

    # ---- exploration --------------------------------------------------------
    def _reset(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.known = {}
        self.events = []
        self.heap = {}
        self.frames = []
        self.loops = []
        self.steps = 0
        self.notes = []
        self.cur = None
        self.fresh = 0
        self.module_cache = {}
        self.method_cache = {}
        self.state = {}
        for g in getattr(self, 'gens', ()):
            g.close()
        self.gens = []

    def explore(self, thunk):
        """thunk(interp) -> value; called once per path.  Returns list of PathResult."""
        results = []
        work = [[]]
        while work:
            if len(results) >= self.cfg.max_paths:
                results.append(PathResult('abort', 'path limit', [], [], None))
                break
            prefix = work.pop()
            self._reset(prefix)
            outcome, value = 'return', None
            try:
                value = thunk(self)
            except RaiseSig as e:
                outcome, value = 'raise', e
            except PathAbort as e:
                outcome, value = 'abort', e.why
            except RecursionError:
                outcome, value = 'abort', 'recursion'
            except ReturnSig as e:
                value = e.v
            except (ArithmeticError, AssertionError, AttributeError, LookupError, NameError, TypeError, ValueError) as e:
                # a construct the models do not understand: undecided, never a verdict
                if os.environ.get('DSA_DEBUG'):
                    raise
                outcome, value = 'abort', f"analysis: {type(e).__name__}: {e} (near {self.loc()})"
            for g in self.gens:
                g.close()
            r = PathResult(outcome, value, self.events, list(self.decisions), None)
            r.extra = dict(self.state)
            r.notes = self.notes
            r.heap = self.heap
            results.append(r)
            for i in range(len(self.decisions) - 1, len(prefix) - 1, -1):
                work.append([d[1] for d in self.decisions[:i]] + [not self.decisions[i][1]])
        return results

    def decide(self, term, prefer=True):
        """Decide an undetermined boolean term (canonical) on this path."""
        key = term
        if key in self.known:
            return self.known[key]
        i = len(self.decisions)
        v = self.prefix[i] if i < len(self.prefix) else prefer
        self.decisions.append((term, v, self.loc()))
        self.known[key] = v
        return v

    def loc(self):
        if not self.frames:
            return '?'
        f = self.frames[-1]
        line = getattr(self.cur, 'lineno', 0)
        q = f.func.qualname if f.func else ''
        return f"{f.module.rel}:{line} in {q}"

    def event(self, kind, *data):
        st = tuple(f.func.qualname for f in self.frames if f.func)
        self.events.append(Event(kind, data, self.loc(), tuple(self.loops), st))

    def fresh_sym(self, hint='v'):
        self.fresh += 1
        return Term('fresh', hint, self.fresh)

    # ---- calling ------------------------------------------------------------
    def eval_defaults(self, func, frame):
        """Default values, evaluated when the function is defined."""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        exprs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                exprs[x.arg] = d
        if not exprs:
            return {}
        if frame is not None:
            return {n: self.eval(d) for n, d in exprs.items()}
        key = ('defaults', func.fq)
        if key not in self.module_cache:
            fr = Frame(None, func.module, {}, func.cls)
            if func.cls is not None:
                fr.class_scope = func.cls
            self.frames.append(fr)
            saved = self.cur
            try:
                self.module_cache[key] = {n: self.eval(d) for n, d in exprs.items()}
            finally:
                self.frames.pop()
                self.cur = saved
        return self.module_cache[key]

    def bind(self, func, args, kwargs, clo=None):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            raise RaiseSig('TypeError', f"{func.name}() takes {len(names)} positional arguments but {len(args)} given", self.loc())
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg:
            rest = args[len(names):]
            loc[a.vararg.arg] = tuple(rest)
        kw = dict(kwargs)
        extra = kw.pop('**', None)
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in loc:
                    raise RaiseSig('TypeError', f"{func.name}() got multiple values for argument '{k}'", self.loc())
                loc[k] = kw.pop(k)
        if a.kwarg:
            loc[a.kwarg.arg] = dict(kw)
            if extra is not None:
                loc[a.kwarg.arg]['**'] = extra
        elif kw:
            raise RaiseSig('TypeError', f"{func.name}() got an unexpected keyword argument '{sorted(map(str, kw))[0]}'", self.loc())
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in loc]
        defaults = {}
        if missing:
            defaults = clo.defaults if clo is not None and clo.defaults is not None else self.eval_defaults(func, None)
        for n in missing:
            if n in defaults:
                loc[n] = defaults[n]
            elif extra is not None or any(isinstance(v, Star) for v in args):
                loc[n] = Term('item', extra, n)
            else:
                raise RaiseSig('TypeError', f"{func.name}() missing required argument '{n}'", self.loc())
        return loc

    def call_func(self, clo, args, kwargs=None):
        kwargs = kwargs or {}
        func = clo.func
        if len([f for f in self.frames if f.func is func]) > self.cfg.max_recursion or len(self.frames) > self.cfg.max_depth:
            return self.opaque_call(clo, args, kwargs)
        if isinstance(func.node, ast.Lambda):
            loc = self.bind(func, args, kwargs, clo)
            fr = Frame(func, func.module, loc, clo.cls or func.cls, clo.frame)
            self.frames.append(fr)
            saved = self.cur
            try:
                return self.eval(func.node.body)
            finally:
                self.frames.pop()
                self.cur = saved
        loc = self.bind(func, args, kwargs, clo)
        fr = Frame(func, func.module, loc, clo.cls or func.cls, clo.frame)
        if func.has_deco('contextmanager'):
            return CtxGen(LazyGen(self, fr, func))
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(func.node))
        if is_gen and self.cfg.lazy_generators:
            return LazyGen(self, fr, func)
        if is_gen:
            fr.yields = []
        self.frames.append(fr)
        saved = self.cur
        nloops = len(self.loops)
        try:
            self.exec_block(func.node.body)
            v = None
        except ReturnSig as r:
            v = r.v
        finally:
            self.frames.pop()
            self.cur = saved
            del self.loops[nloops:]
        if is_gen:
            g = GenVal(fr.yields)
            g.ret = v
            return g
        return v

    def opaque_call(self, callee, args, kwargs):
        t = Term('call', freeze(callee), tuple(freeze(a) for a in args), tuple(sorted(((k, freeze(v)) for k, v in kwargs.items()), key=lambda kv: str(kv[0]))))
        self.event('call', callee, tuple(args), dict(kwargs), t)
        return t

    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kwargs}, node)
        if isinstance(f, Native):
            try:
                r = f.fn(self, *args, **kwargs)
            except (RaiseSig, ReturnSig, PathAbort, BreakSig, ContinueSig):
                raise
            except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration, OverflowError, NotImplementedError):
                r = NotImplemented
            if r is NotImplemented:
                r = self.cfg.on_native(self, f.name, args, kwargs)
            if r is NotImplemented:
                return self.opaque_call(Term('ext', f.name), args, kwargs)
            return r
        if isinstance(f, Closure):
            a = list(args)
            if f.self_val is not None:
                a = [f.self_val] + a
            r = self.cfg.on_repo_call(self, f, a, kwargs, node)
            if r is not NotImplemented:
                return r
            if not self.cfg.inline(self, f.func):
                return self.opaque_call(f, args, kwargs)
            if f.func.has_deco(*_CACHE_DECOS):
                key = (f.func.fq, repr(freeze(tuple(a))), repr(freeze(kwargs)))
                if key not in self.method_cache:
                    self.method_cache[key] = self.call_func(f, a, kwargs)
                return self.method_cache[key]
            return self.call_func(f, a, kwargs)
        if isinstance(f, Class):
            r = self.cfg.on_new(self, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
            return self.new(f, args, kwargs)
        if isinstance(f, AbsVal):
            r = f.call(self, args, kwargs)
            if r is not NotImplemented:
                return r
        r = self.cfg.on_call(self, f, args, kwargs, node)
        if r is not NotImplemented:
            return r
        if isinstance(f, Term):
            if f.op == 'ext':
                lib = LIB.get(f.args[0])
                if lib is not None:
                    return self.call(lib, args, kwargs, node)
        if isinstance(f, Obj):
            m = self.getattr(f, '__call__')
            if isinstance(m, Closure):
                return self.call(m, args, kwargs, node)
        return self.opaque_call(f, args, kwargs)

    def new(self, cls, args, kwargs):
        o = Obj(cls, f"{cls.name}#{len(self.events)}")
        self.event('new', cls, tuple(args), dict(kwargs), o)
        if any(b.endswith(('Exception', 'Error')) for b in [ast.unparse(x) for c in cls.mro() for x in c.base_exprs]):
            o.attrs['args'] = tuple(args)
            init = cls.method('__init__')
            if init is not None and self.cfg.inline(self, init):
                self.call_func(Closure(init, getattr(init.cls, 'def_frame', None), o, init.cls), [o] + list(args), kwargs)
            return o
        init = cls.method('__init__')
        if init is None and any(d.split('(')[0].split('.')[-1] == 'dataclass' for k in cls.mro() for d in k.decorators):
            fields = {}
            for k in reversed(cls.mro()):
                for st in k.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                        fields[st.target.id] = (k, st)
            pos = list(args)
            kw = dict(kwargs)
            for f, (k, st) in fields.items():
                if pos:
                    o.attrs[f] = pos.pop(0)
                elif f in kw:
                    o.attrs[f] = kw.pop(f)
                elif st.value is not None:
                    v = st.value
                    fac = [x.value for x in v.keywords if x.arg == 'default_factory'] if isinstance(v, ast.Call) else []
                    dflt = [x.value for x in v.keywords if x.arg == 'default'] if isinstance(v, ast.Call) else []
                    fr = Frame(None, k.module, {}, k)
                    self.frames.append(fr)
                    try:
                        o.attrs[f] = self.call(self.eval(fac[0]), []) if fac else self.eval(dflt[0] if dflt else v)
                    finally:
                        self.frames.pop()
                else:
                    raise RaiseSig('TypeError', f"missing argument '{f}'", self.loc())
            if pos or kw:
                raise RaiseSig('TypeError', 'unexpected arguments', self.loc())
            o.dataclass = tuple(fields)
            post = cls.method('__post_init__')
            if post is not None:
                self.call_func(Closure(post, None, o, post.cls), [o])
            return o
        if init is not None:
            c = Closure(init, getattr(init.cls, 'def_frame', None), o, init.cls)
            r = self.cfg.on_repo_call(self, c, [o] + list(args), kwargs, None)
            if r is NotImplemented and self.cfg.inline(self, init):
                self.call_func(c, [o] + list(args), kwargs)
        return o

    # ---- attribute / item ----------------------------------------------------
    def getattr(self, base, name, default=None, has_default=False):
        r = self.cfg.on_getattr(self, base, name)
        if r is not NotImplemented:
            return r
        if name in self.cfg.record_getattr:
            self.event('getattr', base, name)
        if base is None and not name.startswith('__'):
            if has_default:
                return default
            raise RaiseSig('AttributeError', f"'NoneType' object has no attribute '{name}'", self.loc())
        if isinstance(base, AbsVal):
            r = base.getattr(self, name)
            if r is not NotImplemented:
                return r
            return Term('attr', base, name)
        if isinstance(base, Obj):
            if name in base.attrs:
                return base.attrs[name]
            if name == '__class__':
                return base.cls
            if name == '__dict__':
                return base.attrs
            if base.cls is not None:
                found = base.cls.find(name)
                if found:
                    c, kind, v = found
                    if kind == 'method':
                        clo = Closure(v, getattr(c, 'def_frame', None), base, c)
                        if v.has_deco('staticmethod'):
                            return Closure(v, getattr(c, 'def_frame', None), None, c)
                        if v.has_deco('classmethod'):
                            return Closure(v, getattr(c, 'def_frame', None), base.cls, c)
                        if v.has_deco('property', 'CachedAttribute', 'cached_property'):
                            r = self.cfg.on_repo_call(self, clo, [base], {}, None)
                            if r is not NotImplemented:
                                return r
                            if not self.cfg.inline(self, v):
                                return Term('attr', base, name)
                            val = self.call_func(clo, [base])
                            if v.has_deco('CachedAttribute', 'cached_property'):
                                base.attrs[name] = val
                            return val
                        return self.decorated(clo)
                    v = self.class_attr(c, name)
                    if isinstance(v, Closure) and v.self_val is None:
                        return Closure(v.func, v.frame, base, v.cls or c, v.defaults)
                    if isinstance(v, Term) and v.op == 'call' and isinstance(v.args[0], Term) and v.args[0].op == 'ext' and v.args[0].args[0] in ('property', 'staticmethod') and v.args[1] and isinstance(v.args[1][0], Closure):
                        if v.args[0].args[0] == 'staticmethod':
                            return v.args[1][0]
                        return self.call(v.args[1][0], [base])
                    return v
            if base.cls is not None and not name.startswith('__'):
                m = base.cls.method('__getattr__')
                if m is not None and self.cfg.inline(self, m):
                    return self.call(Closure(m, getattr(m.cls, 'def_frame', None), base, m.cls), [name])
            tname = None
            for c in (base.cls.mro() if base.cls else []):
                tname = self.cfg.attr_types.get((c.name, name))
                if tname:
                    break
            if tname:
                o = Obj(self.find_class(tname), f"{show(base)}.{name}")
                base.attrs[name] = o
                return o
            if self.obj_is_closed(base) and not name.startswith('__'):
                if has_default:
                    return default
                raise RaiseSig('AttributeError', f"{show(base)} has no attribute '{name}'", self.loc())
            return Term('attr', base, name)
        if isinstance(base, Class):
            found = base.find(name)
            if found:
                c, kind, v = found
                if kind == 'method':
                    if v.has_deco('classmethod'):
                        return Closure(v, getattr(c, 'def_frame', None), base, c)
                    return self.decorated(Closure(v, getattr(c, 'def_frame', None), None, c))
                if (base, name) in self.heap:
                    return self.heap[(base, name)]
                v = self.class_attr(c, name)
                if isinstance(v, Term) and v.op == 'call' and v.args[0] == Term('ext', 'staticmethod') and v.args[1] and isinstance(v.args[1][0], Closure):
                    return v.args[1][0]
                return v
            if name == '__name__':
                return base.name
            return Term('attr', Term('class', base.fq), name)
        if isinstance(base, Module):
            v = self.module_name(base, name)
            if v is not None:
                return v[0]
            return Term('attr', Term('module', base.name), name)
        if isinstance(base, SuperVal):
            mro = base.cls.mro()
            if base.start in mro:
                mro = mro[mro.index(base.start) + 1:]
            for c in mro:
                if name in c.methods:
                    v = c.methods[name]
                    clo = Closure(v, getattr(c, 'def_frame', None), base.obj, c)
                    if v.has_deco('property', 'CachedAttribute'):
                        return self.call_func(clo, [base.obj])
                    return clo
                if name in c.attrs:
                    return self.class_attr(c, name)
            if name in ('__init__', '__setattr__', '__init_subclass__'):
                return Native('super.' + name, lambda it, *a, **k: None)
            return Term('attr', Term('super', freeze(base.obj)), name)
        if isinstance(base, Term):
            if (base, name) in self.heap:
                return self.heap[(base, name)]
            if base.op == 'ext':
                full = f"{base.args[0]}.{name}"
                if full in LIBCONST:
                    return LIBCONST[full]
                return Term('ext', full)
            if base.op == 'module':
                m = self.repo.modules.get(base.args[0])
                if m:
                    return self.getattr(m, name)
            return Term('attr', base, name)
        if isinstance(base, np.ndarray):
            if name == 'shape':
                return tuple(int(x) for x in base.shape)
            if name == 'size':
                return int(base.size)
            if name == 'ndim':
                return int(base.ndim)
            if name == 'T':
                return base.T
            m = getattr(base, name, None)
            if callable(m):
                return Native('ndarray.' + name, lambda it, *a, **k: m(*a, **k))
        if isinstance(base, sympy.Basic):
            if name in ('real', 'imag'):
                return sympy.re(base) if name == 'real' else sympy.im(base)
            if name in ('conjugate', 'conj'):
                return Native('conjugate', lambda it, *a: sympy.conjugate(base))
            return Term('attr', base, name)
        if isinstance(base, slice) and name in ('start', 'stop', 'step'):
            return getattr(base, name)
        if isinstance(base, slice) and name == 'indices':
            return Native('slice.indices', lambda it, n: base.indices(n))
        if isinstance(base, (list, tuple, dict, set, frozenset, str, collections.deque, int, float, complex)):
            if hasattr(base, name):
                m = getattr(base, name)
                if callable(m):
                    return Native(f"{type(base).__name__}.{name}", lambda it, *a, **k: self.native_method(base, name, a, k))
                return m
            if has_default:
                return default
            return Term('attr', freeze(base), name)
        if isinstance(base, Native):
            if name in getattr(base, 'attrs', ()):
                return base.attrs[name]
            if name == '__name__':
                return base.name.split('.')[-1]
        if isinstance(base, Closure):
            if name == '__name__':
                return base.func.name
            if name == '__self__':
                return base.self_val
            return Term('attr', base, name)
        return Term('attr', freeze(base), name)

    def obj_is_closed(self, o):
        return getattr(o, 'closed', False)

    def find_class(self, name):
        if name in self._cls_type_cache:
            return self._cls_type_cache[name]
        for c in self.repo.classes():
            if c.name == name or c.fq == name:
                self._cls_type_cache[name] = c
                return c
        return None

    def native_method(self, base, name, a, k):
        if name == 'sort' or (isinstance(base, (list,)) and name in ('index', 'count', 'remove')):
            if name == 'sort':
                if 'key' in k or 'reverse' in k or any(isinstance(x, (Term, AbsVal, Obj)) for x in base):
                    base[:] = sort_values(self, list(base), k.get('key'), k.get('reverse', False))
                    return None
        if isinstance(base, str) and any(isinstance(x, (Term, AbsVal, Obj)) for x in a):
            return Term('call', Term('attr', base, name), tuple(freeze(x) for x in a), ())
        if isinstance(base, (list, collections.deque)) and name == 'extend' and isinstance(a[0], (Term, AbsVal)):
            base.extend(self.iterate(a[0]))
            return None
        if isinstance(base, dict) and name == 'update' and a and isinstance(a[0], Term):
            base[Term('star', a[0])] = a[0]
            return None
        if isinstance(base, dict) and name in ('get', 'setdefault', 'pop') and a and isinstance(a[0], (Term, list)):
            key = a[0]
            if isinstance(key, Term) and key not in base and base:
                pass
        try:
            r = getattr(base, name)(*a, **k)
        except TypeError as e:
            if 'unhashable' in str(e):
                raise PathAbort('unhashable key')
            raise
        except IndexError as e:
            raise RaiseSig('IndexError', str(e), self.loc())
        except KeyError as e:
            raise RaiseSig('KeyError', str(e), self.loc())
        if type(r).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
            return list(r)
        return r

    def class_attr(self, c, name):
        key = ('classattr', c.fq, name)
        if key in self.module_cache:
            return self.module_cache[key]
        # evaluate the class body assignments in order in a class frame
        fr = Frame(None, c.module, {}, c)
        self.frames.append(fr)
        saved = self.cur
        try:
            st = c.attrs[name]
            if isinstance(st, ast.ClassDef):
                return Term('class', f"{c.fq}.{name}")
            fr.func = Func(st, c.module, c.qualname, c) if False else None
            v = None
            self._class_names(c, st, fr)
            top = building_statements(c, c.node.body).get(name, [])
            if len(top) > 1 and not any(isinstance(x, (ast.If, ast.Try, ast.With)) for x in top):
                for x in top:
                    self.exec_stmt(x)
                v = fr.locals.get(name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                self.exec_stmt(st)
                v = fr.locals.get(name)
            if any(ast.unparse(b).split('.')[-1] in ('Enum', 'IntEnum') for k in c.mro() for b in k.base_exprs) and not name.startswith('_'):
                v = Obj(c, f'{c.name}.{name}', {'name': name, 'value': v})
        finally:
            self.frames.pop()
            self.cur = saved
        self.module_cache[key] = v
        return v

    def _class_names(self, c, st, fr):
        # bind names of earlier class attributes lazily
        fr.class_scope = c

    def module_name(self, m, name):
        """Returns [value] or None."""
        key = (m.name, name)
        if key in self.module_cache:
            return [self.module_cache[key]]
        r = self.repo.resolve_name(name, m)
        if r is None:
            return None
        if isinstance(r, Func):
            k2 = (r.module.name, r.qualname)
            if k2 in self.module_cache:
                return [self.module_cache[k2]]
            return [self.decorated(Closure(r, None, None, None))]
        if isinstance(r, (Class, Module)):
            if isinstance(r, Class) and any(ast.unparse(b).split('.')[-1] == 'NamedTuple' for b in r.base_exprs) and len(r.mro()) == 1:
                return [self.named_tuple(r)]
            return [r]
        if isinstance(r, tuple) and r[0] == 'ext':
            if r[1] in LIBCONST:
                return [LIBCONST[r[1]]]
            return [Term('ext', r[1])]
        if isinstance(r, tuple) and r[0] == 'missing':
            return [Term('ext', f"{r[1]}.{r[2]}")]
        if isinstance(r, tuple) and r[0] == 'global':
            _, mod, nm = r
            k2 = (mod.name, nm)
            if k2 in self.module_cache:
                return [self.module_cache[k2]]
            sts = mod.globals[nm]
            v = Term('global', mod.name, nm)
            top = building_statements(mod, mod.tree.body).get(nm, [])
            if len(top) > 1 or (top and not isinstance(top[0], (ast.Assign, ast.AnnAssign))):
                return [self.build_global(mod, nm, top, k2, v)]
            if len(sts) == 1 and isinstance(sts[0], (ast.Assign, ast.AnnAssign)) and sts[0].value is not None:
                self.module_cache[k2] = v
                fr = Frame(None, mod, {}, None)
                self.frames.append(fr)
                saved = self.cur
                ne = len(self.events)
                try:
                    self.exec_stmt(sts[0])
                    v = fr.locals.get(nm, v)
                except (RaiseSig, PathAbort):
                    pass
                finally:
                    self.frames.pop()
                    self.cur = saved
                    del self.events[ne:]
            self.module_cache[k2] = v
            return [v]
        return None

    def decorated(self, clo):
        """A function wrapped by the decorators defined in the repository."""
        decos = [d for d in getattr(clo.func.node, 'decorator_list', [])]
        if not decos:
            return clo
        key = ('decorated', clo.func.fq)
        if key in self.module_cache:
            w = self.module_cache[key]
        else:
            w = None
            for d in reversed(decos):
                e = d.func if isinstance(d, ast.Call) else d
                r = self.repo.resolve_expr(e, clo.func.module) if isinstance(e, (ast.Name, ast.Attribute)) else None
                if isinstance(r, Func) and r.name not in _CACHE_DECOS:
                    self.module_cache[key] = clo
                    fr = Frame(None, clo.func.module, {}, None)
                    self.frames.append(fr)
                    saved = self.cur
                    try:
                        w = self.call(self.eval(d), [w or Closure(clo.func, clo.frame, None, clo.cls)])
                    finally:
                        self.frames.pop()
                        self.cur = saved
            self.module_cache[key] = w if isinstance(w, (Closure, Native, Partial)) else None
            w = self.module_cache[key]
        if w is None or w is clo:
            return clo
        if clo.self_val is not None:
            return Closure(w.func, w.frame, clo.self_val, w.cls, w.defaults) if isinstance(w, Closure) and w.self_val is None else Partial(w, [clo.self_val], {})
        return w

    def build_global(self, mod, nm, top, key, opaque):
        """The value several module-level statements give a name (opaque when they depend on unknown conditions)."""
        self.module_cache[key] = opaque
        fr = Frame(None, mod, {}, None)
        self.frames.append(fr)
        saved, ne, nd, nk = self.cur, len(self.events), len(self.decisions), dict(self.known)
        v = opaque
        try:
            for st in top:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    x = self.module_name(mod, st.name)[0]
                    for d in reversed(st.decorator_list):
                        if isinstance(self.repo.resolve_expr(d, mod), Func):
                            self.call(self.eval(d), [x], {})
                else:
                    self.exec_stmt(st)
                self.module_cache[key] = fr.locals.get(nm, opaque)
            v = fr.locals.get(nm, opaque)
        except (RaiseSig, PathAbort):
            pass
        finally:
            self.frames.pop()
            self.cur = saved
            del self.events[ne:]
            if len(self.decisions) > nd:
                del self.decisions[nd:]
                self.known = nk
                v = opaque
        self.module_cache[key] = v
        return v

    def named_tuple(self, c):
        key = ('namedtuple', c.fq)
        if key not in self.module_cache:
            fields = [st.target.id for st in c.node.body if isinstance(st, ast.AnnAssign)]
            defaults = [self.class_attr(c, f) for f in fields if c.attrs.get(f) is not None and getattr(c.attrs[f], 'value', None) is not None]
            self.module_cache[key] = _namedtuple(self, c.name, fields, defaults)
        return self.module_cache[key]

    def setattr(self, base, name, value):
        r = self.cfg.on_setattr(self, base, name, value)
        if r is not NotImplemented:
            return
        if isinstance(base, AbsVal):
            r = base.setattr(self, name, value)
            if r is not NotImplemented:
                return
        if isinstance(base, Obj):
            if base.cls is not None:
                st = base.cls.method(name + '.setter')
                if st is not None and self.cfg.inline(self, st):
                    self.call_func(Closure(st, getattr(st.cls, 'def_frame', None), base, st.cls), [base, value])
                    return
            base.attrs[name] = value
            self.event('setattr', base, name, value)
            return
        self.event('setattr', base, name, value)
        if isinstance(base, (Term, Class)):
            self.heap[(base, name)] = value

    def getitem(self, base, key):
        r = self.cfg.on_getitem(self, base, key)
        if r is not NotImplemented:
            return r
        if isinstance(base, AbsVal):
            r = base.getitem(self, key)
            if r is not NotImplemented:
                return r
            return Term('item', base, freeze(key))
        if isinstance(base, (Term, Obj)):
            if isinstance(base, Obj) and base.cls is not None:
                m = base.cls.method('__getitem__')
                if m is not None and self.cfg.inline(self, m):
                    return self.call(Closure(m, getattr(m.cls, 'def_frame', None), base, m.cls), [key])
            if isinstance(base, Term) and base.op in ('tuple', 'list') and isinstance(key, int) and -len(base.args) <= key < len(base.args):
                return base.args[key]
            t = Term('item', base, freeze(key))
            if t in self.heap:
                return self.heap[t]
            return t
        if isinstance(base, np.ndarray):
            try:
                return base[npkey(key)]
            except (IndexError, TypeError):
                return Term('item', freeze(base), freeze(key))
        if isinstance(base, (list, tuple, str, collections.deque, range)):
            k = toint(key)
            if isinstance(k, int):
                try:
                    return base[k]
                except IndexError:
                    if self.loops:
                        return Term('item', freeze(base), key)
                    raise RaiseSig('IndexError', None, self.loc())
            if isinstance(k, slice):
                k = slice(*[toint(x) for x in (k.start, k.stop, k.step)])
                if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    return base[k]
                return Term('item', freeze(base), freeze(key))
            if isinstance(k, Term) and k.op == 'idx' and len(base) == 1 and not isinstance(base, str):
                return base[0]
            return Term('item', freeze(base), freeze(key))
        if isinstance(base, dict):
            try:
                if key in base:
                    return base[key]
                if isinstance(base, collections.defaultdict):
                    return base[key]
            except TypeError:
                return Term('item', freeze(base), freeze(key))
            if self.cfg.closed_keys or isinstance(key, CONST) and all(isinstance(x, CONST) for x in base):
                raise RaiseSig('KeyError', key, self.loc())
            return Term('item', freeze(base), freeze(key))
        if isinstance(base, Class):
            return Term('item', Term('class', base.fq), freeze(key))
        return Term('item', freeze(base), freeze(key))

    def setitem(self, base, key, value):
        r = self.cfg.on_setitem(self, base, key, value)
        if r is not NotImplemented:
            return
        if isinstance(base, AbsVal):
            r = base.setitem(self, key, value)
            if r is not NotImplemented:
                return
        if isinstance(base, np.ndarray):
            try:
                base[npkey(key)] = value
                return
            except (IndexError, TypeError, ValueError):
                raise PathAbort('ndarray store')
        if isinstance(base, (list, collections.deque)):
            k = toint(key)
            if isinstance(k, int):
                try:
                    base[k] = value
                except IndexError:
                    raise RaiseSig('IndexError', None, self.loc())
                return
            if isinstance(k, slice) and isinstance(value, (list, tuple)):
                base[k] = value
                return
            # unknown index: weak update
            for i in range(len(base)):
                base[i] = Term('phi', freeze(base[i]), freeze(value)) if len(base) > 1 else value
            self.event('setitem', base, key, value)
            return
        if isinstance(base, dict):
            try:
                base[key] = value
            except TypeError:
                base[freeze(key)] = value
            return
        if isinstance(base, Obj) and base.cls is not None:
            m = base.cls.method('__setitem__')
            if m is not None and self.cfg.inline(self, m):
                self.call(Closure(m, getattr(m.cls, 'def_frame', None), base, m.cls), [key, value])
                return
        self.event('setitem', base, key, value)
        if isinstance(base, Term):
            if isinstance(key, CONST) or isinstance(key, Term):
                self.heap[Term('item', base, freeze(key))] = value

    # ---- statements -----------------------------------------------------------
    def exec_block(self, body):
        for st in body:
            self.exec_stmt(st)

    def exec_stmt(self, st):
        self.cur = st
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise PathAbort('step limit')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise PathAbort(f"unsupported statement {type(st).__name__}")
        m(st)

    def s_Expr(self, st):
        self.eval(st.value)

    def s_Pass(self, st):
        pass

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def s_AugAssign(self, st):
        op = _BINOPS[type(st.op)]
        if isinstance(st.target, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target))
            new = self.aug(op, cur, self.eval(st.value))
            self.assign(st.target, new)
        elif isinstance(st.target, ast.Attribute):
            b = self.eval(st.target.value)
            cur = self.getattr(b, st.target.attr)
            new = self.aug(op, cur, self.eval(st.value))
            self.setattr(b, st.target.attr, new)
        elif isinstance(st.target, ast.Subscript):
            b = self.eval(st.target.value)
            k = self.eval(st.target.slice)
            cur = self.getitem(b, k)
            val = self.eval(st.value)
            if isinstance(cur, AbsVal):
                r = cur.callmethod(self, '__iop__', [op, val], {})
                if r is not NotImplemented:
                    self.setitem(b, k, r)
                    return
            self.event('augitem', b, k, op, val)
            self.setitem(b, k, self.aug(op, cur, val))

    def aug(self, op, cur, val):
        if isinstance(cur, AbsVal):
            r = cur.callmethod(self, '__iop__', [op, val], {})
            if r is not NotImplemented:
                return r
        if isinstance(cur, list) and op == '+':
            cur.extend(self.iterate(val))
            return cur
        if isinstance(cur, list) and op == '*' and isinstance(val, int):
            cur *= val
            return cur
        if isinstance(cur, set) and op in '|&-^' and isinstance(val, (set, frozenset)):
            return {'|': op_.ior, '&': op_.iand, '-': op_.isub, '^': op_.ixor}[op](cur, val)
        if isinstance(cur, dict) and op == '|' and isinstance(val, dict):
            cur.update(val)
            return cur
        if isinstance(cur, Obj) and cur.cls is not None and op in _DUNDER:
            m = cur.cls.method('__i' + _DUNDER[op][2:])
            if m is not None and self.cfg.inline(self, m):
                return self.call(Closure(m, getattr(m.cls, 'def_frame', None), cur, m.cls), [val])
        self.event('aug', cur, op, val)
        return self.binop(op, cur, val)

    def s_Return(self, st):
        raise ReturnSig(self.eval(st.value) if st.value is not None else None)

    def s_If(self, st):
        if self.truth(self.eval(st.test)):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def s_For(self, st):
        itv = self.eval(st.iter)
        items = lazy_items(self, itv) if isinstance(itv, (LazyGen, Counted)) else self.iterate(itv)
        tag = freeze(itv) if isinstance(itv, (Term, AbsVal)) else None
        generic = isinstance(items, Generic)
        if type(itv) is list:
            items = itv
        try:
            for x in items:
                self.assign(st.target, x)
                if generic:
                    self.loops.append(items.over)
                try:
                    self.exec_block(st.body)
                except ContinueSig:
                    pass
                finally:
                    if generic:
                        self.loops.pop()
        except BreakSig:
            return
        self.exec_block(st.orelse)

    def s_While(self, st):
        n = 0
        try:
            while True:
                nd = len(self.decisions)
                c = self.eval(st.test)
                if n >= self.cfg.max_while:
                    # too many undetermined iterations: assume the loop ends
                    break
                if not self.truth(c):
                    break
                try:
                    self.exec_block(st.body)
                except ContinueSig:
                    pass
                if len(self.decisions) > nd or isinstance(c, (Term, AbsVal)):
                    n += 1
        except BreakSig:
            return
        self.exec_block(st.orelse)

    def s_Break(self, st):
        raise BreakSig()

    def s_Continue(self, st):
        raise ContinueSig()

    def s_Raise(self, st):
        if st.exc is None:
            raise RaiseSig('reraise', None, self.loc())
        v = self.eval(st.exc)
        name = 'Exception'
        if isinstance(v, Obj) and v.cls is not None:
            name = v.cls.name
        elif isinstance(v, Class):
            name = v.name
        elif isinstance(v, Term):
            t = v
            if t.op == 'call':
                t = t.args[0]
            if isinstance(t, Term) and t.op == 'ext':
                name = t.args[0].split('.')[-1]
        self.event('raise', name, v)
        raise RaiseSig(name, v, self.loc())

    def s_Assert(self, st):
        if not self.truth(self.eval(st.test)):
            self.event('raise', 'AssertionError', None)
            raise RaiseSig('AssertionError', None, self.loc())

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                k = self.eval(t.slice)
                self.event('delitem', b, k)
                if isinstance(b, (dict, list)):
                    try:
                        del b[k]
                    except (KeyError, IndexError, TypeError):
                        pass
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                self.event('delattr', b, t.attr)
                if isinstance(b, Obj):
                    b.attrs.pop(t.attr, None)

    def s_Import(self, st):
        for a in st.names:
            nm = a.asname or a.name.split('.')[0]
            self.frames[-1].locals[nm] = self.repo.modules.get(a.name) or Term('ext', a.name if a.asname else nm)

    def s_ImportFrom(self, st):
        m = self.frames[-1].module
        mod = m._absmod(st.level, st.module)
        for a in st.names:
            if a.name == '*':
                continue
            r = self.repo._resolve_import(('from', mod, a.name))
            if isinstance(r, Func):
                v = Closure(r)
            elif isinstance(r, (Class, Module)):
                v = r
            elif isinstance(r, tuple) and r[0] == 'global':
                vv = self.module_name(r[1], r[2])
                v = vv[0] if vv else Term('ext', f"{mod}.{a.name}")
            else:
                v = LIBCONST.get(f"{mod}.{a.name}", Term('ext', f"{mod}.{a.name}"))
            self.frames[-1].locals[a.asname or a.name] = v

    def s_FunctionDef(self, st):
        fr = self.frames[-1]
        q = (fr.func.qualname + '.' if fr.func else '') + st.name
        fn = Func(st, fr.module, q, fr.cls)
        v = Closure(fn, fr, None, fr.cls, self.eval_defaults(fn, fr))
        for d in reversed(st.decorator_list):
            dv = self.eval(d)
            if isinstance(dv, Term) and dv.op == 'ext':
                continue
            v = self.call(dv, [v])
        self.assign(ast.copy_location(ast.Name(st.name, ast.Store()), st), v)

    def s_ClassDef(self, st):
        fr = self.frames[-1]
        c = fr.module._class(st, (fr.func.qualname + '.' if fr.func else '') + st.name)
        c.def_frame = fr
        for b in st.bases:
            bv = self.eval(b)
            if isinstance(bv, Class):
                c.bases.append(bv)
        if st.decorator_list and not any(d.split('(')[0].split('.')[-1] == 'dataclass' for d in c.decorators):
            raise PathAbort('decorated local class')
        fr.locals[st.name] = c

    def s_Global(self, st):
        self.frames[-1].globals_decl.update(st.names)

    def s_Nonlocal(self, st):
        self.frames[-1].nonlocal_decl.update(st.names)

    def enter(self, v, node=None):
        """The value bound by `with v as ...`."""
        if isinstance(v, AbsVal):
            r = v.callmethod(self, '__enter__', [], {})
            if r is not NotImplemented:
                return r
        elif isinstance(v, Obj) and v.cls is not None and v.cls.method('__enter__'):
            return self.call(self.getattr(v, '__enter__'), [])
        elif isinstance(v, list) and len(v) == 1 and isinstance(node, ast.Call):
            return v[0]
        return v

    def exit(self, v, exc):
        if isinstance(v, AbsVal):
            r = v.callmethod(self, '__exit__', [exc, exc, None] if exc is not None else [None, None, None], {})
            return False if r is NotImplemented else r
        if isinstance(v, Obj) and v.cls is not None and v.cls.method('__exit__'):
            e = Term('ext', exc.name) if exc is not None else None
            return self.call(self.getattr(v, '__exit__'), [e, e, None])
        return False

    def s_With(self, st, i=0):
        if i == len(st.items):
            self.exec_block(st.body)
            return
        it = st.items[i]
        v = self.eval(it.context_expr)
        self.event('with_enter', v)
        ev = self.enter(v, it.context_expr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ev)
        try:
            self.s_With(st, i + 1)
        except RaiseSig as e:
            self.event('with_exit', v)
            r = self.exit(v, e)
            if r is None or r is False or not self.truth(r):
                raise
            return
        except (ReturnSig, BreakSig, ContinueSig):
            self.event('with_exit', v)
            self.exit(v, None)
            raise
        self.event('with_exit', v)
        self.exit(v, None)

    def s_Try(self, st):
        try:
            if self.cfg.catch_forks and st.handlers:
                q = self.frames[-1].func.qualname if self.frames[-1].func else ''
                self.fresh += 1
                t = Term('raises', q, self._ordinal(st), self.fresh)
                if self.decide(t, prefer=False):
                    self.event('raised', st)
                    raise RaiseSig(self._handler_name(st.handlers[0]), None, self.loc())
            self.exec_block(st.body)
        except RaiseSig as e:
            for h in st.handlers:
                if self._matches(h, e):
                    if h.name:
                        self.frames[-1].locals[h.name] = e.value if e.value is not None else Term('sym', h.name)
                    try:
                        self.exec_block(h.body)
                    except RaiseSig as e2:
                        if e2.name == 'reraise':
                            raise e
                        raise
                    finally:
                        self.exec_block_final(st)
                    return
            self.exec_block_final(st)
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.exec_block_final(st)
            raise
        try:
            self.exec_block(st.orelse)
        except (RaiseSig, ReturnSig, BreakSig, ContinueSig):
            self.exec_block_final(st)
            raise
        self.exec_block_final(st)

    def m_value(self, p, v):
        """Does the pattern match (binding its names)?"""
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('==', v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('is', v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.m_value(p.pattern, v):
                return False
            if p.name:
                self.frames[-1].locals[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.m_value(q, v) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and type(v) in (list, tuple):
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if (not star and len(v) != len(p.patterns)) or len(v) < len(p.patterns) - len(star):
                return False
            if star:
                i, tail = star[0], len(p.patterns) - star[0] - 1
                v = list(v[:i]) + [list(v[i:len(v) - tail])] + list(v[len(v) - tail:])
            for q, x in zip(p.patterns, v):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        self.frames[-1].locals[q.name] = x
                elif not self.m_value(q, x):
                    return False
            return True
        if isinstance(p, ast.MatchSequence) and (v is None or isinstance(v, (str, dict) + NUM)):
            return False
        if isinstance(p, ast.MatchMapping) and isinstance(v, dict) and not p.rest:
            for k, q in zip(p.keys, p.patterns):
                kv = self.eval(k)
                if kv not in v or not self.m_value(q, v[kv]):
                    return False
            return True
        if isinstance(p, ast.MatchMapping) and (v is None or isinstance(v, (str, list, tuple) + NUM)):
            return False
        if isinstance(p, ast.MatchClass) and not p.patterns:
            if not self.truth(self.call(BUILTINS['isinstance'], [v, self.eval(p.cls)])):
                return False
            return all(self.m_value(q, self.getattr(v, a)) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise PathAbort('unsupported pattern')

    def s_Match(self, st):
        v = self.eval(st.subject)
        for c in st.cases:
            if self.m_value(c.pattern, v) and (c.guard is None or self.truth(self.eval(c.guard))):
                self.exec_block(c.body)
                return

    def _ordinal(self, st):
        return getattr(st, 'col_offset', 0)

    def exec_block_final(self, st):
        self.exec_block(st.finalbody)

    def _handler_name(self, h):
        if h.type is None:
            return 'Exception'
        if isinstance(h.type, ast.Tuple):
            return ast.unparse(h.type.elts[0]).split('.')[-1]
        return ast.unparse(h.type).split('.')[-1]

    def _matches(self, h, e):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [ast.unparse(t).split('.')[-1] for t in types]
        if e.name in names or 'Exception' in names or 'BaseException' in names:
            return True
        import builtins
        c = e.value.cls if isinstance(e.value, Obj) and e.value.cls is not None else e.value if isinstance(e.value, Class) else self.find_class(e.name)
        if c is not None:
            for b in c.mro():
                if b.name in names:
                    return True
                for x in b.base_exprs:
                    k = getattr(builtins, ast.unparse(x).split('.')[-1], None)
                    if isinstance(k, type) and any(q.__name__ in names for q in k.__mro__):
                        return True
        k = getattr(builtins, e.name, None)
        return isinstance(k, type) and any(b.__name__ in names for b in k.__mro__)

    # ---- assignment -------------------------------------------------------------
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.nonlocal_decl:
                p = fr.parent
                while p is not None:
                    if t.id in p.locals:
                        p.locals[t.id] = v
                        return
                    p = p.parent
            if t.id in fr.globals_decl:
                self.module_cache[(fr.module.name, t.id)] = v
                self.event('setglobal', fr.module.name, t.id, v)
                return
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, (Term, AbsVal, Obj)) or (isinstance(v, Generic)):
                got = self.unpack(v, n, star)
            else:
                try:
                    got = list(self.iterate(v))
                except PathAbort:
                    got = None
            if got is None:
                got = [Term('item', freeze(v), i) for i in range(n)]
                if star:
                    got[star[0]] = [got[star[0]]]
            elif star:
                i = star[0]
                tail = n - i - 1
                mid = got[i:len(got) - tail]
                got = got[:i] + [list(mid)] + (got[len(got) - tail:] if tail else [])
            if len(got) != n:
                raise RaiseSig('ValueError', 'unpack', self.loc())
            for e, x in zip(t.elts, got):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            k = self.eval(t.slice)
            self.setitem(b, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, n, star):
        if isinstance(v, Term) and v.op in ('tuple', 'list'):
            return list(v.args)
        if isinstance(v, AbsVal):
            r = v.iterate(self)
            if r is not NotImplemented:
                return list(r)
        return None

    # ---- iteration ----------------------------------------------------------------
    def iterate(self, v):
        r = self.cfg.on_iterate(self, v)
        if r is not NotImplemented:
            return r
        if isinstance(v, Generic):
            return v
        if isinstance(v, GenVal):
            rest = list(v[v.pos:])
            v.pos = len(v)
            return rest
        if isinstance(v, (list, tuple, set, frozenset, str, collections.deque, range)):
            return list(v) if not isinstance(v, Generic) else v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, AbsVal):
            r = v.iterate(self)
            if r is not NotImplemented:
                return r
            return Generic([Term('item', v, Term('idx', v))], v)
        if isinstance(v, np.ndarray):
            return [v[i] for i in range(v.shape[0])]
        if isinstance(v, Obj) and v.cls is not None:
            m = v.cls.method('__iter__')
            nx = v.cls.method('__next__')
            if m is not None and nx is not None and self.cfg.inline(self, m):
                o = self.call(Closure(m, getattr(m.cls, 'def_frame', None), v, m.cls), [])
                if o is v:
                    out = []
                    for _ in range(10000):
                        try:
                            out.append(self.call(Closure(nx, getattr(nx.cls, 'def_frame', None), v, nx.cls), []))
                        except RaiseSig as e:
                            if e.name == 'StopIteration':
                                return out
                            raise
                    raise PathAbort('iterator without end')
                return self.iterate(o)
            gi, ln = v.cls.method('__getitem__'), v.cls.method('__len__')
            if m is None and gi is not None and ln is not None and self.cfg.inline(self, gi) and self.cfg.inline(self, ln):
                n = toint(_len(self, v))
                if isinstance(n, int):
                    return [self.getitem(v, i) for i in range(n)]
            if m is not None and self.cfg.inline(self, m):
                return self.iterate(self.call(Closure(m, getattr(m.cls, 'def_frame', None), v, m.cls), []))
        if isinstance(v, Term) and v.op in ('tuple', 'list'):
            return list(v.args)
        fv = freeze(v)
        return Generic([Term('item', fv, Term('idx', fv))], fv)

    # ---- truth ---------------------------------------------------------------------
    def truth(self, v):
        r = self.cfg.on_truth(self, v)
        if r is not None:
            return r
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, AbsVal):
            r = v.truth(self)
            if r is not None:
                return r
            return self.decide(Term('truth', v))
        if isinstance(v, Term):
            if v.op == 'un' and v.args[0] == 'not':
                return not self.truth(v.args[1])
            if v.op == 'cmp':
                return self.decide_cmp(v.args[0], v.args[1], v.args[2])
            if v.op == 'call' and isinstance(v.args[0], Term) and v.args[0].op == 'ext' and v.args[0].args[0] == 'len':
                return self.decide(Term('truth', v.args[1][0]))
            if v.op == 'list' or v.op == 'tuple' or v.op == 'dict':
                return len(v.args) > 0
            return self.decide(Term('truth', v))
        if isinstance(v, Generic):
            return True
        if isinstance(v, sympy.Basic):
            if v == sympy.true:
                return True
            if v == sympy.false:
                return False
            if v.is_zero is True:
                return False
            if v.is_number or v.is_nonzero:
                return True
            return self.decide(Term('truth', v))
        if isinstance(v, Obj):
            if v.cls is not None:
                for nm in ('__bool__', '__len__'):
                    m = v.cls.method(nm)
                    if m is not None:
                        if self.cfg.inline(self, m):
                            return self.truth(self.call(Closure(m, getattr(m.cls, 'def_frame', None), v, m.cls), []))
                        return self.decide(Term('truth', v))
            return True
        if isinstance(v, np.ndarray):
            return self.decide(Term('truth', freeze(v)))
        if isinstance(v, (Closure, Class, Module, Native, Partial, slice)):
            return True
        return bool(v)

    def decide_cmp(self, op, a, b):
        # canonical polarity
        if op == '!=':
            return not self.decide_cmp('==', a, b)
        if op == 'is not':
            return not self.decide_cmp('is', a, b)
        if op == 'not in':
            return not self.decide_cmp('in', a, b)
        if op == '>':
            return self.decide_cmp('<', b, a)
        if op == '>=':
            return not self.decide_cmp('<', a, b)
        if op == '<=':
            return not self.decide_cmp('<', b, a)
        if op in ('==', 'is'):
            if repr(a) > repr(b):
                a, b = b, a
            # knowledge: x == c1 known true implies x == c2 false
            for (k, val) in list(self.known.items()):
                if val and isinstance(k, Term) and k.op == 'cmp' and k.args[0] in ('==', 'is'):
                    for x, c in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                        for y, d in ((a, b), (b, a)):
                            if isinstance(c, CONST) and isinstance(d, CONST) and type(x) == type(y) and x == y and c is not None and d is not None:
                                return c == d
        return self.decide(Term('cmp', op, a, b))

    # ---- expressions ------------------------------------------------------------------
    def eval(self, e):
        if hasattr(e, 'lineno'):
            self.cur = e if not isinstance(self.cur, ast.AST) or True else self.cur
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.notes.append(f"unsupported {type(e).__name__}")
            return Term('unsupported', ast.unparse(e))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float) and self.cfg.exact:
            return symfloat(v)
        if isinstance(v, complex) and self.cfg.exact:
            return symfloat(v.real) + sympy.I * symfloat(v.imag)
        return v

    def e_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        fr = self.frames[-1] if self.frames else None
        f = fr
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            f = f.parent
        f = fr
        while f is not None and f.comp:
            f = f.parent
        if f is not None and f.func is not None and isinstance(f.func.node, ast.FunctionDef) and name in own_names(f.func.node) and name not in f.globals_decl and name not in f.nonlocal_decl:
            raise RaiseSig('UnboundLocalError', f"local variable '{name}' referenced before assignment", self.loc())
        cs = getattr(fr, 'class_scope', None)
        if cs is not None and name in cs.attrs:
            return self.class_attr(cs, name)
        if cs is not None and name in cs.methods:
            return Closure(cs.methods[name], getattr(cs, 'def_frame', None), None, cs)
        if fr is not None:
            v = self.module_name(fr.module, name)
            if v is not None:
                return v[0]
        if name in BUILTINS:
            return BUILTINS[name]
        if name in ('self',):
            return Term('sym', name)
        return Term('ext', name)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        k = self.eval(e.slice)
        return self.getitem(b, k)

    def e_Slice(self, e):
        f = lambda x: self.eval(x) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return list(self.elts(e.elts))

    def e_Set(self, e):
        try:
            return set(self.elts(e.elts))
        except TypeError:
            return Term('set', *[freeze(x) for x in self.elts(e.elts)])

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.eval(v)
                if isinstance(vv, dict):
                    d.update(vv)
                else:
                    d[Term('star', freeze(vv))] = vv
            else:
                kk = self.eval(k)
                d[kk if _is_hashable(kk) else freeze(kk)] = self.eval(v)
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Term('fstr', *parts)

    def e_FormattedValue(self, e):
        x = self.eval(e.value)
        if e.conversion == 114:
            x = self.call(BUILTINS['repr'], [x])
        elif e.conversion == 115:
            x = self.call(BUILTINS['str'], [x])
        spec = self.eval(e.format_spec) if e.format_spec is not None else ''
        y = float(x) if isinstance(x, sympy.Basic) and x.is_number and x.is_real and not x.is_Integer else int(x) if isinstance(x, sympy.Integer) else x
        if isinstance(spec, str) and isinstance(y, (str, int, float)) and (spec or not isinstance(x, sympy.Basic)):
            try:
                return format(y, spec)
            except ValueError as ex:
                raise RaiseSig('ValueError', str(ex), self.loc())
        if isinstance(x, Obj):
            r = self.call(BUILTINS['str'], [x])
            if isinstance(r, str):
                return r
        return freeze(x) if not spec else Term('format', freeze(x), spec)

    def e_Lambda(self, e):
        fr = self.frames[-1]
        fn = Func(e, fr.module, (fr.func.qualname + '.' if fr.func else '') + '<lambda>', fr.cls)
        return Closure(fn, fr, None, fr.cls, self.eval_defaults(fn, fr))

    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, (Term, AbsVal, sympy.Basic)) else False
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (Term, AbsVal, Obj)) and not isinstance(v, Obj):
                return Term('un', 'not', v) if not self._known_truth(v) else not self.truth(v)
            return not self.truth(v)
        if isinstance(v, AbsVal):
            r = v.unop(self, '-' if isinstance(e.op, ast.USub) else '+' if isinstance(e.op, ast.UAdd) else '~')
            if r is not NotImplemented:
                return r
        if isinstance(e.op, ast.USub):
            if isinstance(v, NUM) or isinstance(v, np.ndarray):
                return -v
            if isinstance(v, Obj):
                m = v.cls.method('__neg__') if v.cls else None
                if m is not None and self.cfg.inline(self, m):
                    return self.call(Closure(m, getattr(m.cls, 'def_frame', None), v, m.cls), [])
            return Term('un', '-', freeze(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, np.ndarray) and all(isinstance(x, (bool, np.bool_)) for x in v.ravel()):
                return np.array([not x for x in v.ravel()], dtype=object).reshape(v.shape)
            if isinstance(v, int):
                return ~v
            return Term('un', '~', freeze(v))

    def _known_truth(self, v):
        return True

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(_BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        r = self.cfg.on_binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(a, AbsVal):
            r = a.binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, AbsVal):
            r = b.binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if isinstance(a, NUM) and isinstance(b, NUM):
            return numop(op, a, b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if not isinstance(a, (Term, AbsVal, Obj)) and not isinstance(b, (Term, AbsVal, Obj)):
                try:
                    return _PYOPS[op](a if not isinstance(a, int) or op != '/' else sympy.Integer(a), b)
                except Exception:
                    pass
        if op == '+' and isinstance(a, (list, tuple, str)) and type(a) == type(b):
            return a + b
        if op == '*' and isinstance(a, (list, tuple, str)) and isinstance(b, int):
            return a * b
        if op == '*' and isinstance(b, (list, tuple, str)) and isinstance(a, int):
            return a * b
        if op == '%' and isinstance(a, str):
            try:
                if isinstance(b, CONST) or (isinstance(b, tuple) and all(isinstance(x, CONST) for x in b)):
                    return a % b
            except (TypeError, ValueError):
                pass
            return Term('fmt', a, freeze(b))
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and op in '|&-^':
            return _PYOPS[op](a, b)
        if op in '|&-^' and type(a) in (list, set) and type(b) in (list, set):
            # views of dictionary keys are lists here
            try:
                return _PYOPS[op](set(a), set(b))
            except TypeError:
                pass
        if op == '|' and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        refused = False
        for x, y, nm in ((a, b, _DUNDER.get(op)), (b, a, _RDUNDER.get(op))):
            if isinstance(x, Obj) and x.cls is not None and nm:
                if x is b and refused and isinstance(a, Obj) and a.cls is b.cls:
                    continue
                m = x.cls.method(nm)
                if m is not None and self.cfg.inline(self, m):
                    r = self.call(Closure(m, getattr(m.cls, 'def_frame', None), x, m.cls), [y])
                    if isinstance(r, Term) and r.op == 'ext' and r.args[0] == 'NotImplemented':
                        refused = True
                        continue
                    return r
        if refused:
            raise RaiseSig('TypeError', f"unsupported operand types for {op}", self.loc())
        return Term('bin', op, freeze(a), freeze(b))

    def e_Compare(self, e):
        a = self.eval(e.left)
        res = True
        for i, (o, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(r)
            v = self.compare(_CMPOPS[type(o)], a, b)
            if i == len(e.ops) - 1 and i == 0:
                return v
            if not self.truth(v):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(a, AbsVal):
            r = a.compare(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, AbsVal):
            r = b.compare(self, op, a, True)
            if r is not NotImplemented:
                return r
        if (isinstance(a, np.ndarray) or isinstance(b, np.ndarray)) and op in _PYCMP:
            r = self._cmp_array(op, a, b)
            if r is not None:
                return r
        if op in ('is', 'is not'):
            r = self._is(a, b)
            if r is None:
                return Term('cmp', op, freeze(a), freeze(b))
            return r if op == 'is' else not r
        if op in ('in', 'not in'):
            r = self._in(a, b)
            if r is None:
                return Term('cmp', op, freeze(a), freeze(b))
            return r if op == 'in' else not r
        if isinstance(a, NUM) and isinstance(b, NUM):
            if any(x in (sympy.oo, -sympy.oo, sympy.nan) for x in (a, b) if isinstance(x, sympy.Basic)) and op in ('==', '!='):
                return (a == b) == (op == '==')
            if isinstance(a, sympy.Basic) or isinstance(b, sympy.Basic):
                d = sympy.simplify(a - b) if op in ('==', '!=') else sympy.sympify(a) - b
                if op == '==':
                    if d.is_zero or d == 0:
                        return True
                    if d.is_number or d.is_nonzero:
                        return False
                elif op == '!=':
                    if d.is_zero or d == 0:
                        return False
                    if d.is_number or d.is_nonzero:
                        return True
                else:
                    v = _PYCMP[op](d, 0)
                    if v in (sympy.true, sympy.false):
                        return bool(v)
                return Term('cmp', op, a, b)
            try:
                return _PYCMP[op](a, b)
            except TypeError:
                return Term('cmp', op, a, b)
        if op in ('==', '!='):
            r = self._eq(a, b)
            if r is not None:
                return r if op == '==' else not r
            return Term('cmp', op, freeze(a), freeze(b))
        if op in _CMPDUNDER:
            for x, y, nm in ((a, b, _CMPDUNDER[op]), (b, a, _CMPDUNDER[_CMPSWAP[op]])):
                if isinstance(x, Obj) and x.cls is not None:
                    m = x.cls.method(nm)
                    if m is not None and self.cfg.inline(self, m):
                        return self.call(Closure(m, getattr(m.cls, 'def_frame', None), x, m.cls), [y])
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                return _PYCMP[op](a, b)
            except TypeError:
                pass
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return _PYCMP[op](a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            try:
                return bool(_PYCMP[op](a, b))
            except TypeError:
                pass
        return Term('cmp', op, freeze(a), freeze(b))

    def _cmp_array(self, op, a, b):
        if isinstance(a, (Term, AbsVal, Obj, str)) or isinstance(b, (Term, AbsVal, Obj, str)) or a is None or b is None:
            return None
        try:
            A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        except ValueError:
            return None
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(*A.shape):
            out[i] = self.compare(op, toint(A[i]), toint(B[i]))
        return out

    def _is(self, a, b):
        if a is b:
            return True
        if isinstance(a, Term) and isinstance(b, Term):
            if a == b:
                return True
            if a.op == 'ext' and b.op == 'ext':
                return a == b
            return None
        known_nonnull = (Obj, list, tuple, dict, set, str, int, sympy.Basic, Closure, Class, np.ndarray, slice, Native, AbsVal, Generic, collections.deque)
        if a is None and isinstance(b, known_nonnull):
            return False
        if b is None and isinstance(a, known_nonnull):
            return False
        if isinstance(a, Term) or isinstance(b, Term):
            t = a if isinstance(a, Term) else b
            o = b if isinstance(a, Term) else a
            if o is None and t.op in ('tuple', 'list', 'bin', 'fstr', 'fmt', 'ext', 'class', 'un'):
                return False
            return None
        if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
            return type(a) == type(b) and a == b
        if isinstance(a, Closure) and isinstance(b, Closure):
            return a == b
        return False

    def _eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Term,)) or isinstance(b, (Term,)):
            if isinstance(a, Term) and isinstance(b, Term) and a == b:
                return True
            if isinstance(a, Term) and a.op in ('ext', 'class') and isinstance(b, (str, int, type(None))):
                return False
            return None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) != type(b) or len(a) != len(b):
                return False
            rs = [self._eq(x, y) for x, y in zip(a, b)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if isinstance(a, dict) and isinstance(b, dict):
            if set(map(repr, a)) != set(map(repr, b)):
                return None
            return None if a is not b else True
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and x.cls is not None:
                    m = x.cls.method('__eq__')
                    if m is not None:
                        if self.cfg.inline(self, m):
                            r = self.call(Closure(m, getattr(m.cls, 'def_frame', None), x, m.cls), [y])
                            return r if isinstance(r, bool) else None
                        return None
            if isinstance(a, Obj) and isinstance(b, Obj) and getattr(a, 'dataclass', None) and a.cls is b.cls:
                return self._eq([a.attrs[f] for f in a.dataclass], [b.attrs[f] for f in a.dataclass])
            return False
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, AbsVal):
                r = x.compare(self, '==', y, sw)
                if isinstance(r, bool):
                    return r
        if isinstance(a, (AbsVal, np.ndarray)) or isinstance(b, (AbsVal, np.ndarray)):
            return None
        try:
            return bool(a == b)
        except Exception:
            return None

    def _in(self, a, b):
        if isinstance(b, (list, tuple, set, frozenset, collections.deque)) and not isinstance(b, Generic):
            unknown = False
            for x in b:
                r = self._eq(a, x)
                if r is True:
                    return True
                if r is None:
                    unknown = True
            return None if unknown else False
        if isinstance(b, dict):
            try:
                if a in b:
                    return True
            except TypeError:
                return None
            if self.cfg.closed_keys:
                return False
            if isinstance(a, CONST) and all(isinstance(k, CONST) for k in b):
                return False
            if isinstance(a, (Obj, Class)) and all(isinstance(k, (Obj, Class) + CONST) for k in b):
                return False
            return None if b else False
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        if isinstance(b, range) and isinstance(a, int):
            return a in b
        if isinstance(b, Obj) and b.cls is not None:
            m = b.cls.method('__contains__')
            if m is not None and self.cfg.inline(self, m):
                return self.truth(self.call(Closure(m, getattr(m.cls, 'def_frame', None), b, m.cls), [a]))
            if m is None and b.cls.method('__iter__'):
                items = self.iterate(b)
                if not isinstance(items, Generic):
                    return self._in(a, list(items))
        return None

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            while fr is not None and fr.func is None:
                fr = fr.parent
            a0 = fr.func.params()[0] if fr.func.params() else None
            obj = fr.locals.get(a0)
            start = fr.cls
            if isinstance(obj, Obj):
                return SuperVal(obj, obj.cls, start)
            if isinstance(obj, Class):
                return SuperVal(obj, obj, start)
            return SuperVal(obj, start, start)
        f = self.eval(e.func)
        if isinstance(f, Native) and f.name in ('any', 'all', 'next') and f is BUILTINS[f.name] and e.args and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            return self.short_circuit(f.name, e)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                items = self.iterate(v)
                if isinstance(items, Generic):
                    args.append(Term('star', freeze(v)))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(x))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        kwargs[kk if isinstance(kk, str) else '**'] = vv
                else:
                    kwargs['**'] = freeze(v)
            else:
                kwargs[k.arg] = self.eval(k.value)
        self.cur = e
        # method call on abstract domain values
        if isinstance(e.func, ast.Attribute) and isinstance(f, Term) and f.op == 'attr' and isinstance(f.args[0], AbsVal):
            r = f.args[0].callmethod(self, f.args[1], args, kwargs)
            if r is not NotImplemented:
                return r
        return self.call(f, args, kwargs, e)

    def short_circuit(self, name, e):
        """any/all/next over a generator expression: elements after the deciding one are not evaluated."""
        class Done(Exception):
            pass
        g = e.args[0]

        def elt():
            v = self.eval(g.elt)
            if name == 'next' or (self.truth(v) == (name == 'any')):
                raise Done(v)
            return v
        depth, nl = len(self.frames), len(self.loops)
        try:
            self.comp(g, elt, list)
        except Done as d:
            del self.loops[nl:]
            assert len(self.frames) == depth
            return d.args[0] if name == 'next' else name == 'any'
        if name == 'next':
            if len(e.args) > 1:
                return self.eval(e.args[1])
            raise RaiseSig('StopIteration', None, self.loc())
        return name == 'all'

    def e_ListComp(self, e):
        return self.comp(e, lambda: self.eval(e.elt), list)

    def e_SetComp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt), list)
        if isinstance(r, Generic):
            return r
        try:
            return set(r)
        except TypeError:
            return r

    def e_GeneratorExp(self, e):
        return self.comp(e, lambda: self.eval(e.elt), list)

    def e_DictComp(self, e):
        r = self.comp(e, lambda: (self.eval(e.key), self.eval(e.value)), list)
        d = {}
        for k, v in r:
            d[k if _is_hashable(k) else freeze(k)] = v
        return d

    def comp(self, e, elt, typ):
        fr = self.frames[-1]
        new = Frame(fr.func, fr.module, {}, fr.cls, fr)
        new.comp = True
        if hasattr(fr, 'class_scope'):
            new.class_scope = fr.class_scope
        self.frames.append(new)
        out = []
        gen = []

        def rec(i):
            if i == len(e.generators):
                out.append(elt())
                return
            g = e.generators[i]
            items = self.iterate(self.eval(g.iter))
            isgen = isinstance(items, Generic)
            if isgen:
                gen.append(items.over)
            for x in items:
                self.assign(g.target, x)
                if isgen:
                    self.loops.append(items.over)
                try:
                    ok = True
                    for c in g.ifs:
                        if not self.truth(self.eval(c)):
                            ok = False
                            break
                    if ok:
                        rec(i + 1)
                finally:
                    if isgen:
                        self.loops.pop()
        try:
            rec(0)
        finally:
            self.frames.pop()
        if gen and not all(False for _ in gen):
            return Generic(out, gen[0])
        return out

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        for f in reversed(self.frames):
            if isinstance(f.yields, LazyGen):
                f.yields.put(v)
                break
            if f.yields is not None:
                f.yields.append(v)
                break
        return None

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        for f in reversed(self.frames):
            if isinstance(f.yields, LazyGen):
                for x in (lazy_items(self, v) if isinstance(v, LazyGen) else self.iterate(v)):
                    f.yields.put(x)
                return getattr(v, 'ret', None)
            if f.yields is not None:
                f.yields.extend(self.iterate(v))
                return getattr(v, 'ret', None)
        return None

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        fr = self.frames[-1]
        while fr.comp and fr.parent is not None:
            fr = fr.parent
        if fr is self.frames[-1]:
            self.assign(e.target, v)
        else:
            fr.locals[e.target.id] = v
        return v

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Await(self, e):
        return self.eval(e.value)


class Star:
    pass


class GenExit(BaseException):
    pass


class LazyGen(AbsVal):
    """A generator whose body is interpreted on demand (its interpretation is suspended at each yield)."""
    def __init__(self, it, fr, func):
        self.it, self.fr, self.func = it, fr, func
        fr.yields = self
        self.thread = None
        self.done = False
        self.msg = None
        self.ret = None
        self.throw = None
        self.kill = False
        self.resume, self.back = threading.Semaphore(0), threading.Semaphore(0)
        it.gens.append(self)

    def __repr__(self):
        return f'<generator {self.func.name}>'

    def truth(self, it):
        return True

    def body(self):
        self.resume.acquire()
        try:
            if self.kill:
                raise GenExit()
            self.it.exec_block(self.func.node.body)
            self.msg = ('end', None)
        except ReturnSig as r:
            self.ret = r.v
            self.msg = ('end', None)
        except GenExit:
            self.msg = ('end', None)
        except BaseException as e:
            self.msg = ('exc', e)
        self.done = True
        self.back.release()

    def put(self, v):
        self.msg = ('val', v)
        self.back.release()
        self.resume.acquire()
        if self.kill:
            raise GenExit()
        if self.throw is not None:
            e, self.throw = self.throw, None
            raise e

    def fetch(self):
        it = self.it
        if self.done:
            return False, None
        saved = it.frames, it.cur, it.loops
        if self.thread is None:
            self.frames, self.cur, self.loops = list(it.frames) + [self.fr], it.cur, []
            threading.stack_size(64 << 20)
            self.thread = threading.Thread(target=self.body, daemon=True)
            self.thread.start()
        it.frames, it.cur, it.loops = self.frames, self.cur, self.loops
        self.resume.release()
        self.back.acquire()
        self.frames, self.cur, self.loops = it.frames, it.cur, it.loops
        it.frames, it.cur, it.loops = saved
        k, v = self.msg
        if k == 'exc':
            raise v
        return (True, v) if k == 'val' else (False, None)

    def close(self):
        if self.thread is not None and not self.done:
            self.kill = True
            self.resume.release()
            self.back.acquire()

    def iterate(self, it):
        return list(lazy_items(it, self))


class CtxGen(AbsVal):
    """A @contextmanager generator."""
    def __init__(self, gen):
        self.gen = gen

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        if name == '__enter__':
            ok, v = self.gen.fetch()
            if not ok:
                raise RaiseSig('RuntimeError', "generator didn't yield", it.loc())
            return v
        if name == '__exit__':
            if args and args[0] is not None:
                self.gen.throw = args[0]
                try:
                    ok, v = self.gen.fetch()
                except RaiseSig as e:
                    if e is args[0]:
                        return False
                    raise
                return not ok
            ok, v = self.gen.fetch()
            if ok:
                raise RaiseSig('RuntimeError', "generator didn't stop", it.loc())
            return False
        return NotImplemented


class SimpleCtx(AbsVal):
    """contextlib.suppress / nullcontext / closing."""
    def __init__(self, value=None, suppress=()):
        self.value, self.suppress = value, suppress

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        if name == '__enter__':
            return self.value
        if name == '__exit__':
            import builtins
            if args and isinstance(args[0], RaiseSig):
                k = getattr(builtins, args[0].name, None)
                mro = [b.__name__ for b in k.__mro__] if isinstance(k, type) else [args[0].name, 'Exception', 'BaseException']
                return any(n in mro for n in self.suppress)
            return False
        return NotImplemented


class ExitStack(AbsVal):
    def __init__(self):
        self.stack = []

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        if name == '__enter__':
            return self
        if name == 'enter_context':
            v = it.enter(args[0])
            self.stack.append(('ctx', args[0]))
            return v
        if name == 'callback':
            self.stack.append(('call', args[0], list(args[1:]), kwargs))
            return args[0]
        if name in ('__exit__', 'close'):
            exc = args[0] if args else None
            while self.stack:
                e = self.stack.pop()
                if e[0] == 'call':
                    it.call(e[1], e[2], e[3])
                elif it.exit(e[1], exc):
                    exc = None
            return exc is None and bool(args) and args[0] is not None
        return NotImplemented


def _exc_name(x):
    return x.args[0].split('.')[-1] if isinstance(x, Term) and x.op == 'ext' else x.name if isinstance(x, Class) else str(x)


def lazy_items(it, g):
    """The values of a generator, one at a time."""
    n = 0
    while True:
        ok, v = g.fetch()
        if not ok:
            return
        n += 1
        if n > 20000:
            raise PathAbort('generator without end')
        yield v


class GenVal(list):
    """The values a generator yields (generators are analysed eagerly), with its read position."""
    def __init__(self, items):
        super().__init__(items)
        self.pos = 0

    __hash__ = object.__hash__


class Generic(list):
    """A list standing for `one generic element per element of .over`."""
    def __init__(self, items, over):
        super().__init__(items)
        self.over = over

    def __hash__(self):
        return id(self)


_OWN = {}
_BUILD = {}


def building_statements(key, body):
    """name -> the statements of a module/class body that bind or change it, in order."""
    r = _BUILD.get(key)
    if r is None:
        r = _BUILD[key] = {}

        def base(e):
            while isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None

        def names(st):
            out = set()
            for n in ast.walk(st):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and base(n):
                    out.add(base(n))
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                        and n.value.func.attr in ('append', 'extend', 'update', 'add', 'insert', 'setdefault', 'remove', 'pop', 'clear', 'discard') and base(n.value.func):
                    out.add(base(n.value.func))
            return out
        fns = {st.name: st for st in body if isinstance(st, ast.FunctionDef)}

        def fills(fn):
            """Containers of the module that a decorator function fills."""
            own = {a.arg for a in fn.args.args} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            out = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and base(n):
                    out.add(base(n))
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                        and n.value.func.attr in ('append', 'extend', 'update', 'add', 'insert', 'setdefault') and base(n.value.func):
                    out.add(base(n.value.func))
            return out - own
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and isinstance(key, Module):
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in fns and fns[d.id] is not st:
                        for n in fills(fns[d.id]):
                            r.setdefault(n, []).append(st)
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            for n in names(st):
                r.setdefault(n, []).append(st)
        # statements filling a container in a loop need the loop; keep only those mentioning a name bound here
    return r



def own_names(node):
    """Names a function body binds (its local variables)."""
    r = _OWN.get(node)
    if r is None:
        r = set()
        decl = set()
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                decl.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                r.update(a.asname or a.name.split('.')[0] for a in n.names)
        for n in walk_own(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    for m in ast.walk(g.target):
                        if isinstance(m, ast.Name):
                            decl.add(m.id)
        # a name bound by a comprehension as well as by the body is left to the dynamic lookup
        r = _OWN[node] = r - decl
    return r


def _is_hashable(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False


def walk_own(node):
    """Walk a function body without entering nested functions/lambdas/classes."""
    todo = list(getattr(node, 'body', []) if isinstance(getattr(node, 'body', []), list) else [node.body])
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def toint(k):
    if isinstance(k, sympy.Integer):
        return int(k)
    if isinstance(k, np.integer):
        return int(k)
    return k


def npkey(k):
    if isinstance(k, tuple):
        return tuple(npkey(x) for x in k)
    if isinstance(k, slice):
        return slice(*[toint(x) for x in (k.start, k.stop, k.step)])
    k = toint(k)
    if isinstance(k, (Term, AbsVal, Obj)):
        raise TypeError('abstract index')
    if isinstance(k, (list, np.ndarray)):
        v = np.asarray(k, dtype=object)
        if v.size and all(isinstance(x, (bool, np.bool_)) for x in v.ravel()):
            return v.astype(bool)
        if all(isinstance(toint(x), int) for x in v.ravel()):
            return np.array([int(x) for x in v.ravel()], dtype=int).reshape(v.shape)
        raise TypeError('abstract index')
    return k


_PYOPS = {'+': op_.add, '-': op_.sub, '*': op_.mul, '/': op_.truediv, '//': op_.floordiv, '%': op_.mod,
          '**': op_.pow, '@': op_.matmul, '&': op_.and_, '|': op_.or_, '^': op_.xor, '<<': op_.lshift, '>>': op_.rshift}
_PYCMP = {'==': op_.eq, '!=': op_.ne, '<': op_.lt, '<=': op_.le, '>': op_.gt, '>=': op_.ge}
_DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '**': '__pow__', '@': '__matmul__'}
_CMPDUNDER = {'<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'}
_CMPSWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
_RDUNDER = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__', '**': '__rpow__', '@': '__rmatmul__'}


def numop(op, a, b):
    try:
        if op == '/':
            if isinstance(a, (int, sympy.Basic, fractions.Fraction)) and isinstance(b, (int, sympy.Basic, fractions.Fraction)):
                r = sympy.sympify(a) / sympy.sympify(b)
                return int(r) if isinstance(r, sympy.Integer) and False else r
            return a / b
        if op == '**':
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            return sympy.sympify(a) ** sympy.sympify(b)
        if op in ('//', '%'):
            if isinstance(a, int) and isinstance(b, int):
                return _PYOPS[op](a, b)
            a, b = sympy.sympify(a), sympy.sympify(b)
            r = sympy.floor(a / b) if op == '//' else a - b * sympy.floor(a / b)
            return int(r) if isinstance(r, sympy.Integer) else r
        r = _PYOPS[op](a, b)
        return r
    except ZeroDivisionError:
        return Term('bin', op, a, b)


# --------------------------------------------------------------------------- builtins

def _len(it, x):
    if isinstance(x, Generic):
        return Term('call', Term('ext', 'len'), (x.over,), ())
    if isinstance(x, (list, tuple, dict, set, frozenset, str, collections.deque, np.ndarray)):
        return len(x)
    if isinstance(x, AbsVal):
        r = x.callmethod(it, '__len__', [], {})
        if r is not NotImplemented:
            return r
    if isinstance(x, Obj) and x.cls is not None:
        m = x.cls.method('__len__')
        if m is not None and it.cfg.inline(it, m):
            return it.call(Closure(m, getattr(m.cls, 'def_frame', None), x, m.cls), [])
    if x is None or isinstance(x, (int, sympy.Basic, Closure, Native)):
        raise RaiseSig('TypeError', 'object has no len()', it.loc())
    return Term('call', Term('ext', 'len'), (freeze(x),), ())


def _range(it, *a):
    a = [toint(x) for x in a]
    if all(isinstance(x, int) and not isinstance(x, bool) for x in a):
        if len(range(*a)) > 4096:
            t = Term('range', *a)
            return Generic([Term('idx', t)], t)
        return list(range(*a))
    if len(a) == 1 or (len(a) == 2 and a[0] == 0 and isinstance(a[0], int)):
        n = a[-1]
        if isinstance(n, Term) and n.op == 'call' and n.args[0] == Term('ext', 'len'):
            over = n.args[1][0]
            return Generic([Term('idx', over)], over)
        t = Term('range', freeze(n))
        return Generic([Term('idx', t)], t)
    t = Term('range', *[freeze(x) for x in a])
    return Generic([Term('idx', t)], t)


def _enumerate(it, x, start=0):
    items = it.iterate(x)
    if isinstance(items, Generic):
        i = Term('idx', items.over)
        if start != 0:
            i = Term('bin', '+', i, start)
        return Generic([(i, v) for v in items], items.over)
    return [(start + i, v) if isinstance(start, int) else (Term('bin', '+', start, i), v) for i, v in enumerate(items)]


def _zip(it, *seqs, strict=False):
    if any(isinstance(s, (LazyGen, Counted)) for s in seqs) and not all(isinstance(s, (LazyGen, Counted)) for s in seqs):
        # an endless generator is read as far as the finite sequences go
        fin = min([len(it.iterate(s)) for s in seqs if not isinstance(s, (LazyGen, Counted, GenVal))], default=None)
        if fin is not None:
            seqs = [list(itertools.islice(lazy_items(it, s), fin)) if isinstance(s, (LazyGen, Counted)) else s for s in seqs]
    lists = [it.iterate(s) for s in seqs]
    if strict and len({len(l) for l in lists}) > 1 and not any(isinstance(l, Generic) for l in lists):
        raise RaiseSig('ValueError', 'zip() arguments of different lengths', it.loc())
    if any(isinstance(l, Generic) for l in lists):
        base = next(l for l in lists if isinstance(l, Generic))
        out = []
        for l, s in zip(lists, seqs):
            if isinstance(l, Generic):
                if isinstance(s, Term) and s != base.over and s.op not in ('list', 'tuple'):
                    out.append(Term('item', s, Term('idx', base.over)))
                else:
                    out.append(l[0] if l else Term('item', freeze(s), Term('idx', base.over)))
            else:
                out.append(l[0] if len(l) == 1 else Term('item', freeze(s), Term('idx', base.over)))
        return Generic([tuple(out)], base.over)
    return [tuple(t) for t in zip(*lists)]


def _isinstance(it, x, c):
    classes = list(c) if isinstance(c, (tuple, list)) else [c]
    unknown = False
    for k in classes:
        r = it.cfg.on_isinstance(it, x, k)
        if r is None:
            r = _isinst1(x, k)
        if r is True:
            return True
        if r is None:
            unknown = True
    if not unknown:
        return False
    return Term('call', Term('ext', 'isinstance'), (freeze(x), freeze(c if not isinstance(c, list) else tuple(c))), ())


_TYPEMAP = {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'set': set, 'bool': bool}


def _isinst1(x, k):
    if isinstance(k, Class):
        if isinstance(x, Obj):
            return x.cls is not None and x.cls.issub(k)
        if isinstance(x, (Term, AbsVal)):
            return None
        return False
    nm = k.name if isinstance(k, Native) else (k.args[0] if isinstance(k, Term) and k.op == 'ext' else None)
    if nm is None:
        return None
    nm = nm.split('.')[-1]
    if isinstance(x, Class):
        return nm in ('type', 'object') or (None if nm not in _TYPEMAP and nm not in ('int', 'float', 'Number', 'ndarray') else False)
    if isinstance(x, (Term, AbsVal)):
        return None
    if nm in _TYPEMAP:
        return isinstance(x, _TYPEMAP[nm])
    if nm == 'int':
        return isinstance(x, (int, sympy.Integer))
    if nm in ('float',):
        return isinstance(x, sympy.Basic) and not isinstance(x, sympy.Integer)
    if nm == 'Number':
        return isinstance(x, NUM)
    if nm == 'ndarray':
        return isinstance(x, np.ndarray)
    if isinstance(x, Obj):
        return False
    if isinstance(x, CONST) or isinstance(x, (list, tuple, dict)):
        return False
    return None


def _sum(it, x, start=0):
    items = it.iterate(x)
    if isinstance(items, Generic):
        return Term('call', Term('ext', 'sum'), (freeze(list(items)), items.over) if not isinstance(x, Term) else (x,), ())
    v = start
    for y in items:
        v = y if (isinstance(v, int) and v == 0) else it.binop('+', v, y)
    return v


def _minmax(name):
    def f(it, *a, **k):
        items = it.iterate(a[0]) if len(a) == 1 else list(a)
        if isinstance(items, Generic):
            return Term('call', Term('ext', name), (freeze(list(items)),), ())
        if not items:
            if 'default' in k:
                return k['default']
            raise RaiseSig('ValueError', f'{name}() of an empty sequence', it.loc())
        key = k.get('key')
        if key is not None or any(isinstance(x, (str, tuple, list)) for x in items):
            keys = [toint(it.call(key, [x])) if key is not None else x for x in items]
            if len(items) == 1:
                return items[0]
            best = 0
            for i in range(1, len(items)):
                c = it.compare('<', keys[i], keys[best]) if name == 'min' else it.compare('<', keys[best], keys[i])
                if it.truth(c):
                    best = i
            return items[best]
        if all(isinstance(x, (int, fractions.Fraction)) or (isinstance(x, sympy.Basic) and x.is_number) for x in items):
            return (max if name == 'max' else min)(items)
        if all(isinstance(x, NUM) for x in items):
            return (sympy.Max if name == 'max' else sympy.Min)(*items)
        if all(isinstance(x, (AbsVal, *NUM)) for x in items) and any(isinstance(x, AbsVal) for x in items):
            best = items[0]
            for x in items[1:]:
                c = it.compare('<', x, best) if name == 'min' else it.compare('<', best, x)
                if not isinstance(c, bool):
                    break
                best = x if c else best
            else:
                return best
        flat = sorted({freeze(x) if not isinstance(x, AbsVal) else x for x in items}, key=repr)
        if len(flat) == 1:
            return flat[0]
        return Term('call', Term('ext', name), tuple(flat), ())
    return f


def _anyall(name):
    def f(it, x):
        items = it.iterate(x)
        if isinstance(items, Generic):
            if name == 'any':
                return any([it.truth(v) for v in items])
            return all([it.truth(v) for v in items])
        for v in items:
            t = it.truth(v)
            if name == 'any' and t:
                return True
            if name == 'all' and not t:
                return False
        return name == 'all'
    return f


def _listf(it, x=()):
    if isinstance(x, Generic):
        return Generic(list(x), x.over)
    items = it.iterate(x)
    if isinstance(items, Generic) and isinstance(x, (Term, AbsVal)):
        return x if isinstance(x, Term) else NotImplemented
    return list(items)


def _tuplef(it, x=()):
    if isinstance(x, Generic):
        return Generic(list(x), x.over)
    items = it.iterate(x)
    if isinstance(items, Generic) and isinstance(x, (Term, AbsVal)):
        return x if isinstance(x, Term) else NotImplemented
    return tuple(items)


def _setf(it, x=()):
    items = it.iterate(x)
    if isinstance(items, Generic):
        return items if isinstance(x, Generic) else Term('call', Term('ext', 'set'), (freeze(x),), ())
    try:
        return set(items)
    except TypeError:
        return Term('call', Term('ext', 'set'), (freeze(x),), ())


def _dictf(it, *a, **k):
    if not a:
        return dict(k)
    x = a[0]
    if isinstance(x, dict):
        d = type(x)(x) if not isinstance(x, collections.defaultdict) else dict(x)
        d.update(k)
        return d
    if isinstance(x, Term):
        return x
    d = {}
    for kv in it.iterate(x):
        kk, vv = kv if isinstance(kv, tuple) else (Term('item', kv, 0), Term('item', kv, 1))
        d[kk] = vv
    d.update(k)
    return d


def _reversed(it, x):
    items = it.iterate(x)
    if isinstance(items, Generic):
        return Generic(list(items), items.over)
    return list(reversed(items))


def sort_values(it, items, key=None, reverse=False):
    keys = [toint(it.call(key, [v])) if key is not None else toint(v) for v in items]
    if len(items) < 2:
        return list(items)
    if all(isinstance(k, (int, str, tuple, list, fractions.Fraction)) or (isinstance(k, sympy.Basic) and k.is_number) for k in keys):
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(reverse))
            return [items[i] for i in order]
        except TypeError:
            pass

    class K:
        def __init__(self, k):
            self.k = k

        def __lt__(self, o):
            if not isinstance(self.k, Obj):
                raise PathAbort('order of abstract values')
            return it.truth(it.compare('<', self.k, o.k))
    order = sorted(range(len(items)), key=lambda i: K(keys[i]), reverse=bool(reverse))
    return [items[i] for i in order]


def _sorted(it, x, key=None, reverse=False):
    items = it.iterate(x)
    if isinstance(items, Generic):
        return Generic(list(items), items.over)
    return sort_values(it, items, key, reverse)


def _getattr(it, o, name, *d):
    if isinstance(name, str):
        return it.getattr(o, name, d[0] if d else None, bool(d))
    return NotImplemented


def _setattr(it, o, name, v):
    if isinstance(name, str):
        it.setattr(o, name, v)
        return None
    it.event('setattr', o, name, v)
    return None


def _hasattr(it, o, name):
    if isinstance(o, Obj) and isinstance(name, str):
        if name in o.attrs or (o.cls is not None and o.cls.find(name)):
            return True
        if it.obj_is_closed(o):
            return False
    if isinstance(o, Class):
        return o.find(name) is not None
    return NotImplemented


def _abs(it, x):
    if isinstance(x, (int, sympy.Basic)):
        return abs(x)
    return NotImplemented


def _int(it, x=0):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float) and x == x and abs(x) != float('inf'):
        return int(x)
    if isinstance(x, sympy.Basic) and x.is_number and x.is_real:
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError as e:
            raise RaiseSig('ValueError', str(e), it.loc())
    if isinstance(x, AbsVal):
        return NotImplemented
    return Term('call', Term('ext', 'int'), (freeze(x),), ())


def _divmod(it, a, b):
    return (it.binop('//', a, b), it.binop('%', a, b))


def _bool(it, x=False):
    return it.truth(x)


def _type(it, x):
    if isinstance(x, Obj) and x.cls is not None:
        return x.cls
    if type(x) in (int, str, list, tuple, dict, set, bool):
        return BUILTINS[type(x).__name__]
    if x is None:
        return NONETYPE
    return NotImplemented


NONETYPE = Native('NoneType', lambda it: None)


def _map(it, f, *seqs):
    items = it.call(BUILTINS['zip'], list(seqs))
    out = [it.call(f, list(t)) for t in items]
    return Generic(out, items.over) if isinstance(items, Generic) else out


def _filter(it, f, seq):
    items = it.iterate(seq)
    out = [v for v in items if (it.truth(v) if f is None else it.truth(it.call(f, [v])))]
    return Generic(out, items.over) if isinstance(items, Generic) else out


def _issubclass(it, a, b):
    bs = b if isinstance(b, (tuple, list)) else [b]
    if isinstance(a, Class):
        if all(isinstance(x, Class) for x in bs):
            return any(a.issub(x) for x in bs)
    return NotImplemented


def _next(it, x, *d):
    if isinstance(x, (LazyGen, Counted)):
        ok, v = x.fetch()
        if ok:
            return v
        if d:
            return d[0]
        raise RaiseSig('StopIteration', None, it.loc())
    if isinstance(x, GenVal):
        if x.pos < len(x):
            x.pos += 1
            return x[x.pos - 1]
        if d:
            return d[0]
        raise RaiseSig('StopIteration', None, it.loc())
    items = it.iterate(x)
    if items:
        return items[0]
    if d:
        return d[0]
    raise RaiseSig('StopIteration', None, it.loc())


def _iter(it, x):
    if isinstance(x, (GenVal, LazyGen, Counted)):
        return x
    items = it.iterate(x)
    if isinstance(items, Generic):
        return NotImplemented
    return GenVal(items)


def _str(it, x=''):
    if isinstance(x, AbsVal):
        r = x.callmethod(it, '__str__', [], {})
        if r is not NotImplemented:
            return r
    if isinstance(x, (str, int)) or x is None:
        return str(x)
    if isinstance(x, Obj) and x.cls is not None:
        r = it.cfg.on_native(it, 'str', [x], {})
        if r is not NotImplemented:
            return r
        r = it.cfg.on_call(it, Term('ext', 'str'), [x], {}, None)
        if r is not NotImplemented:
            return r
        for nm in ('__str__', '__repr__'):
            m = x.cls.method(nm)
            if m is not None:
                if not it.cfg.inline(it, m):
                    break
                return it.call(Closure(m, getattr(m.cls, 'def_frame', None), x, m.cls), [])
    if isinstance(x, Term) and x.op == 'call' and isinstance(x.args[0], Term) and x.args[0].op == 'ext' and len(x.args[1]) == 1 \
            and isinstance(x.args[1][0], str) and x.args[0].args[0].endswith(('Error', 'Exception', 'Iteration')):
        return x.args[1][0]
    return Term('call', Term('ext', 'str'), (freeze(x),), ())


def _slice(it, *a):
    return slice(*a)


def _undecidable(it, *vals):
    return any(isinstance(v, (Term, AbsVal, Generic)) for v in vals)


def _py(x):
    """A concrete Python number for an exact one."""
    if isinstance(x, sympy.Integer):
        return int(x)
    if isinstance(x, sympy.Basic) and x.is_number and x.is_real:
        return float(x)
    return x


def _pow(it, a, b, m=None):
    if m is not None:
        return pow(a, b, m) if all(isinstance(x, int) for x in (a, b, m)) else NotImplemented
    return it.binop('**', a, b)


def _round(it, x, n=None):
    x = toint(x)
    if isinstance(x, int):
        return x if n is None else round(x, n)
    if isinstance(x, (sympy.Rational, fractions.Fraction)):
        r = round(fractions.Fraction(int(x.p), int(x.q)) if isinstance(x, sympy.Rational) else x, n)
        return r if isinstance(r, int) else sympy.Rational(r.numerator, r.denominator)
    return NotImplemented


def _float(it, x=0):
    if isinstance(x, str):
        try:
            return symfloat(float(x)) if it.cfg.exact else float(x)
        except ValueError as e:
            raise RaiseSig('ValueError', str(e), it.loc())
    return NotImplemented


def _repr(it, x):
    if isinstance(x, Obj) and x.cls is not None:
        m = x.cls.method('__repr__')
        if m is not None and it.cfg.inline(it, m):
            return it.call(Closure(m, getattr(m.cls, 'def_frame', None), x, m.cls), [])
    if isinstance(x, (str, int)) or x is None:
        return repr(x)
    return NotImplemented


def _vars(it, *a):
    if a and isinstance(a[0], Obj):
        return a[0].attrs
    return NotImplemented


def _delattr(it, o, name):
    it.event('delattr', o, name)
    if isinstance(o, Obj):
        o.attrs.pop(name, None)
    return None


def _hash(it, x):
    if isinstance(x, Obj) and x.cls is not None:
        m = x.cls.method('__hash__')
        if m is not None and it.cfg.inline(it, m):
            return it.call(Closure(m, getattr(m.cls, 'def_frame', None), x, m.cls), [])
    if isinstance(x, CONST) or (isinstance(x, tuple) and all(isinstance(y, CONST) for y in x)):
        return hash(x)
    return NotImplemented


def _id(it, x):
    if isinstance(x, (Obj, list, dict, set, np.ndarray)) and not isinstance(x, Generic):
        it.state.setdefault('ids', []).append(x)
        return id(x)
    return NotImplemented


BUILTINS = {}
for _n, _f in dict(len=_len, range=_range, enumerate=_enumerate, zip=_zip, isinstance=_isinstance, sum=_sum,
                   min=_minmax('min'), max=_minmax('max'), any=_anyall('any'), all=_anyall('all'),
                   list=_listf, tuple=_tuplef, set=_setf, frozenset=_setf, dict=_dictf, reversed=_reversed,
                   sorted=_sorted, getattr=_getattr, setattr=_setattr, hasattr=_hasattr, abs=_abs, int=_int,
                   bool=_bool, type=_type, map=_map, filter=_filter, issubclass=_issubclass, next=_next, iter=_iter,
                   str=_str, slice=_slice, divmod=_divmod, pow=_pow, round=_round, repr=_repr,
                   delattr=_delattr, vars=_vars, hash=_hash,
                   ord=lambda it, x: ord(x) if isinstance(x, str) else NotImplemented,
                   chr=lambda it, x: chr(x) if isinstance(x, int) else NotImplemented,
                   print=lambda it, *a, **k: None,
                   callable=lambda it, x: True if isinstance(x, (Closure, Class, Native)) else NotImplemented).items():
    BUILTINS[_n] = Native(_n, _f)
BUILTINS['dict'].attrs = {'fromkeys': Native('dict.fromkeys', lambda it, ks, v=None: {k: v for k in it.iterate(ks)})}
BUILTINS.update({'True': True, 'False': False, 'None': None, 'NotImplemented': Term('ext', 'NotImplemented'), 'Ellipsis': Ellipsis})
for _n in ('object', 'float', 'complex', 'id', 'open', 'property', 'super'):
    BUILTINS.setdefault(_n, Term('ext', _n))


# --------------------------------------------------------------------------- library models

def _np_zeros(it, shape, **k):
    shape = toint(shape)
    if isinstance(shape, tuple):
        shape = tuple(toint(s) for s in shape)
    if isinstance(shape, list):
        shape = tuple(toint(s) for s in shape)
    if isinstance(shape, int) or (isinstance(shape, tuple) and all(isinstance(s, int) for s in shape)):
        a = np.empty(shape, dtype=object)
        a.fill(0)
        return a
    return NotImplemented


def _np_ones(it, shape, **k):
    a = _np_zeros(it, shape)
    if a is NotImplemented:
        return a
    a.fill(1)
    return a


def _has_abs(v):
    if isinstance(v, (list, tuple)):
        return any(_has_abs(x) for x in v)
    return isinstance(v, (Term, AbsVal, Obj, Generic))


def _np_array(it, x, *a, **k):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)) and not _has_abs(x):
        return np.array(x, dtype=object)
    return NotImplemented


def _np_sqrt(it, x, **k):
    if isinstance(x, (int, sympy.Basic)):
        return sympy.sqrt(x)
    return NotImplemented


def _unary(f):
    def g(it, x, **k):
        if isinstance(x, (int, sympy.Basic)):
            return f(x)
        return NotImplemented
    return g


def _np_bin(op):
    def g(it, a, b, out=None, **k):
        if out is not None:
            return NotImplemented
        return it.binop(op, a, b)
    return g


def _deque(it, x=(), maxlen=None):
    items = it.iterate(x)
    if isinstance(items, Generic):
        return NotImplemented
    return collections.deque(items, maxlen)


def _ceil(it, x):
    if isinstance(x, (int,)):
        return x
    if isinstance(x, sympy.Basic):
        r = sympy.ceiling(x)
        return int(r) if isinstance(r, sympy.Integer) else r
    return NotImplemented


def _prod(it, x, **k):
    items = it.iterate(x)
    if isinstance(items, Generic):
        return NotImplemented
    v = 1
    for y in items:
        v = it.binop('*', v, y)
    return v


def _np_sum(it, x, axis=None, **k):
    if isinstance(x, np.ndarray) and axis is None:
        x = list(x.ravel())
    if axis is not None:
        return NotImplemented
    items = it.iterate(x)
    if isinstance(items, Generic) or any(isinstance(y, (list, tuple)) for y in items):
        return NotImplemented
    v = 0
    for y in items:
        v = it.binop('+', v, int(y) if isinstance(y, (bool, np.bool_)) else y)
    return v


def _np_arange(it, *a, **k):
    a = [toint(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return np.array(list(range(*a)), dtype=object)
    return NotImplemented


def _np_minmax(which):
    f = sympy.Min if which == 'min' else sympy.Max

    def g(it, a, b, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(A.shape, dtype=object)
            for i in np.ndindex(*A.shape):
                out[i] = toint(f(sympy.sympify(A[i]), sympy.sympify(B[i])))
            return out
        if isinstance(a, NUM) and isinstance(b, NUM):
            return toint(f(sympy.sympify(a), sympy.sympify(b)))
        return NotImplemented
    return g


def _np_anyall(which):
    def g(it, x, **k):
        if isinstance(x, np.ndarray) and 'axis' not in k:
            return it.call(BUILTINS[which], [list(x.ravel())])
        return NotImplemented
    return g


def _trim_zeros(it, x, trim='fb'):
    v = [toint(y) for y in it.iterate(x)]
    if 'f' in trim:
        while v and it.truth(it.compare('==', v[0], 0)):
            v.pop(0)
    if 'b' in trim:
        while v and it.truth(it.compare('==', v[-1], 0)):
            v.pop()
    return np.array(v, dtype=object)


def _np_like(val):
    def g(it, x, *a, **k):
        if isinstance(x, np.ndarray):
            r = np.empty(x.shape, dtype=object)
            r.fill(val)
            return r
        return NotImplemented
    return g


def _np_abs(it, x):
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            y = toint(x[i])
            if not isinstance(y, NUM):
                return NotImplemented
            out[i] = toint(abs(y))
        return out
    x = toint(x)
    return toint(abs(x)) if isinstance(x, NUM) else NotImplemented


def _np_arg(which):
    def g(it, x, **k):
        items = x.ravel() if isinstance(x, np.ndarray) else np.array(it.iterate(x), dtype=object)
        items = [toint(y) for y in items]
        if k or not items or not all(isinstance(y, (int, float, fractions.Fraction)) for y in items):
            return NotImplemented
        return items.index((min if which == 'min' else max)(items))
    return g


def _np_diag(it, x):
    if isinstance(x, np.ndarray):
        return np.diag(x)
    return NotImplemented


def _product(it, *seqs, repeat=1):
    lists = []
    for q in seqs:
        v = it.iterate(q)
        if isinstance(v, Generic):
            return NotImplemented
        lists.append(list(v))
    return GenVal([tuple(x) for x in itertools.product(*lists, repeat=toint(repeat))])


def _items(it, x):
    v = it.iterate(x)
    if isinstance(v, Generic):
        raise _NotModelled()
    return list(v)


class _NotModelled(Exception):
    pass


def _m(f):
    """A library model over concrete sequences."""
    def g(it, *a, **k):
        try:
            return f(it, *a, **k)
        except _NotModelled:
            return NotImplemented
    return g


def _islice(it, x, *a):
    a = [toint(y) for y in a]
    if not all(y is None or isinstance(y, int) for y in a):
        raise _NotModelled()
    if isinstance(x, (LazyGen, Counted)):
        return GenVal(list(itertools.islice(lazy_items(it, x), *a)))
    if isinstance(x, GenVal):
        rest = x[x.pos:]
        out = list(itertools.islice(rest, *a))
        stop = a[0] if len(a) == 1 else a[1]
        x.pos = len(x) if stop is None else min(len(x), x.pos + stop)
        return GenVal(out)
    return GenVal(list(itertools.islice(_items(it, x), *a)))


def _accumulate(it, x, func=None, *, initial=None):
    out, acc = [], initial
    if initial is not None:
        out.append(initial)
    for i, v in enumerate(_items(it, x)):
        acc = v if (i == 0 and initial is None) else (it.binop('+', acc, v) if func is None else it.call(func, [acc, v]))
        out.append(acc)
    return GenVal(out)


def _groupby(it, x, key=None):
    out = []
    for v in _items(it, x):
        k = it.call(key, [v]) if key is not None else v
        if out and it.truth(it.compare('==', out[-1][0], k)):
            out[-1][1].append(v)
        else:
            out.append((k, GenVal([v])))
    return GenVal(out)


def _reduce(it, f, seq, *init):
    items = _items(it, seq)
    if init:
        acc = init[0]
    elif items:
        acc = items.pop(0)
    else:
        raise RaiseSig('TypeError', 'reduce() of empty sequence', it.loc())
    for v in items:
        acc = it.call(f, [acc, v])
    return acc


def _zip_longest(it, *seqs, fillvalue=None):
    return GenVal([tuple(t) for t in itertools.zip_longest(*[_items(it, q) for q in seqs], fillvalue=fillvalue)])


def _takedrop(which):
    def f(it, pred, seq):
        items = _items(it, seq)
        n = 0
        while n < len(items) and it.truth(it.call(pred, [items[n]])):
            n += 1
        return GenVal(items[:n] if which == 'take' else items[n:])
    return f


class Counted(AbsVal):
    """itertools.count"""
    def __init__(self, start=0, step=1):
        self.n, self.step = start, step

    def truth(self, it):
        return True

    def fetch(self):
        v = self.n
        self.n = v + self.step
        return True, v


def _namedtuple(it, name, fields, defaults=None, **k):
    fields = fields.replace(',', ' ').split() if isinstance(fields, str) else _items(it, fields)
    cls = collections.namedtuple(name, fields, defaults=defaults)
    n = Native('namedtuple ' + name, lambda it2, *a, **kw: cls(*a, **kw))
    n.attrs = {'_fields': tuple(fields), '_make': Native('_make', lambda it2, x: cls(*_items(it2, x)))}
    return n


def _itemgetter(it, *ks):
    return Native('itemgetter', lambda it2, o: it2.getitem(o, ks[0]) if len(ks) == 1 else tuple(it2.getitem(o, k) for k in ks))


def _attrgetter(it, *names):
    def one(it2, o, nm):
        for q in nm.split('.'):
            o = it2.getattr(o, q)
        return o
    return Native('attrgetter', lambda it2, o: one(it2, o, names[0]) if len(names) == 1 else tuple(one(it2, o, n) for n in names))


def _methodcaller(it, name, *a, **k):
    return Native('methodcaller', lambda it2, o: call_method(it2, o, name, list(a), k))


def call_method(it, o, name, args, kwargs):
    f = it.getattr(o, name)
    if isinstance(f, Term) and f.op == 'attr' and isinstance(f.args[0], AbsVal):
        r = f.args[0].callmethod(it, name, args, kwargs)
        if r is not NotImplemented:
            return r
    return it.call(f, args, kwargs)


def _deepcopy(it, x, memo=None):
    if isinstance(x, (list, tuple)) and not isinstance(x, (Generic, GenVal)):
        v = [_deepcopy(it, y) for y in x]
        return NotImplemented if any(y is NotImplemented for y in v) else type(x)(v) if type(x) in (list, tuple) else NotImplemented
    if isinstance(x, dict):
        v = {k: _deepcopy(it, y) for k, y in x.items()}
        return NotImplemented if any(y is NotImplemented for y in v.values()) else v
    if isinstance(x, set):
        return set(x)
    if isinstance(x, CONST) or isinstance(x, sympy.Basic):
        return x
    if isinstance(x, np.ndarray):
        return x.copy()
    return NotImplemented


def _copy(it, x):
    if isinstance(x, (list, dict, set, np.ndarray)) and not isinstance(x, (Generic, GenVal)):
        return x.copy()
    if isinstance(x, (tuple, sympy.Basic)) or isinstance(x, CONST):
        return x
    if isinstance(x, Obj) and x.cls is not None and x.cls.method('__copy__'):
        return it.call(it.getattr(x, '__copy__'), [])
    if isinstance(x, Obj):
        o = Obj(x.cls, f"copy of {x!r}", dict(x.attrs))
        if getattr(x, 'closed', False):
            o.closed = True
        return o
    return NotImplemented


def _op(o):
    return lambda it, a, b: it.binop(o, a, b)


def _cmp(o):
    return lambda it, a, b: it.compare(o, a, b)


def _floor(it, x):
    if isinstance(x, int):
        return x
    if isinstance(x, sympy.Basic):
        r = sympy.floor(x)
        return int(r) if isinstance(r, sympy.Integer) else r
    return NotImplemented


def _gcd(name):
    def f(it, *a):
        a = [toint(x) for x in a]
        return getattr(math, name)(*a) if all(isinstance(x, int) for x in a) else NotImplemented
    return f


def _chain(it, *seqs):
    out = []
    for q in seqs:
        v = it.iterate(q)
        if isinstance(v, Generic):
            return NotImplemented
        out += list(v)
    return GenVal(out)


LIB = {
    'itertools.product': Native('itertools.product', _product), 'itertools.chain': Native('itertools.chain', _chain),
    'numpy.zeros': Native('numpy.zeros', _np_zeros), 'numpy.ones': Native('numpy.ones', _np_ones),
    'numpy.array': Native('numpy.array', _np_array), 'numpy.asarray': Native('numpy.asarray', _np_array),
    'numpy.sqrt': Native('numpy.sqrt', _np_sqrt), 'math.sqrt': Native('math.sqrt', _np_sqrt),
    'numpy.add': Native('numpy.add', _np_bin('+')), 'numpy.subtract': Native('numpy.subtract', _np_bin('-')),
    'numpy.multiply': Native('numpy.multiply', _np_bin('*')), 'numpy.divide': Native('numpy.divide', _np_bin('/')),
    'numpy.sum': Native('numpy.sum', _np_sum), 'numpy.arange': Native('numpy.arange', _np_arange),
    'numpy.minimum': Native('numpy.minimum', _np_minmax('min')), 'numpy.maximum': Native('numpy.maximum', _np_minmax('max')),
    'numpy.any': Native('numpy.any', _np_anyall('any')), 'numpy.all': Native('numpy.all', _np_anyall('all')),
    'numpy.trim_zeros': Native('numpy.trim_zeros', _trim_zeros),
    'numpy.zeros_like': Native('numpy.zeros_like', _np_like(0)), 'numpy.ones_like': Native('numpy.ones_like', _np_like(1)),
    'numpy.ceil': Native('numpy.ceil', _ceil),
    'numpy.diag': Native('numpy.diag', _np_diag),
    'numpy.abs': Native('numpy.abs', _np_abs), 'numpy.absolute': Native('numpy.absolute', _np_abs),
    'numpy.argmin': Native('numpy.argmin', _np_arg('min')), 'numpy.argmax': Native('numpy.argmax', _np_arg('max')),
    'numpy.prod': Native('numpy.prod', _prod), 'math.prod': Native('math.prod', _prod),
    'math.ceil': Native('math.ceil', _ceil),
    'collections.deque': Native('collections.deque', _deque),
    'collections.OrderedDict': Native('collections.OrderedDict', lambda it, *a, **k: collections.OrderedDict(_dictf(it, *a, **k)) if it.cfg.closed_keys else _dictf(it, *a, **k)),
    'collections.defaultdict': Native('collections.defaultdict', lambda it, f=None, *a: collections.defaultdict((lambda: it.call(f, [])) if f is not None else None)),
    'functools.partial': Native('functools.partial', lambda it, f, *a, **k: Partial(f, a, k)),
    'functools.wraps': Native('functools.wraps', lambda it, f: Native('id', lambda it2, g: g)),
}
for _n, _f in {
        'copy.copy': _copy, 'copy.deepcopy': _deepcopy, 'functools.reduce': _reduce,
        'itertools.islice': _islice, 'itertools.accumulate': _accumulate, 'itertools.groupby': _groupby,
        'itertools.zip_longest': _zip_longest, 'itertools.takewhile': _takedrop('take'), 'itertools.dropwhile': _takedrop('drop'),
        'itertools.starmap': lambda it, f, s: GenVal([it.call(f, _items(it, t)) for t in _items(it, s)]),
        'itertools.combinations': lambda it, s, r: GenVal(list(itertools.combinations(_items(it, s), r))),
        'itertools.permutations': lambda it, s, *r: GenVal(list(itertools.permutations(_items(it, s), *r))),
        'itertools.combinations_with_replacement': lambda it, s, r: GenVal(list(itertools.combinations_with_replacement(_items(it, s), r))),
        'itertools.chain.from_iterable': lambda it, s: GenVal([y for x in _items(it, s) for y in _items(it, x)]),
        'itertools.count': lambda it, start=0, step=1: Counted(start, step),
        'itertools.repeat': lambda it, x, n: GenVal([x] * toint(n)),
        'itertools.pairwise': lambda it, s: (lambda v: GenVal(list(zip(v, v[1:]))))(_items(it, s)),
        'itertools.filterfalse': lambda it, f, s: GenVal([v for v in _items(it, s) if not it.truth(it.call(f, [v]) if f is not None else v)]),
        'collections.Counter': lambda it, x=(): collections.Counter(_items(it, x)) if not isinstance(x, dict) else collections.Counter(x),
        'collections.namedtuple': _namedtuple,
        'operator.itemgetter': _itemgetter, 'operator.attrgetter': _attrgetter, 'operator.methodcaller': _methodcaller,
        'operator.neg': lambda it, a: it.binop('*', -1, a), 'operator.not_': lambda it, a: not it.truth(a), 'operator.truth': lambda it, a: it.truth(a),
        'operator.getitem': lambda it, a, b: it.getitem(a, b), 'operator.setitem': lambda it, a, b, c: it.setitem(a, b, c),
        'operator.contains': lambda it, a, b: it.compare('in', b, a),
        'operator.is_': lambda it, a, b: it.compare('is', a, b), 'operator.is_not': lambda it, a, b: it.compare('is not', a, b),
        'operator.index': lambda it, a: toint(a) if isinstance(toint(a), int) else NotImplemented,
        'math.floor': _floor, 'numpy.floor': _floor, 'math.gcd': _gcd('gcd'), 'math.lcm': _gcd('lcm'),
        'contextlib.suppress': lambda it, *t: SimpleCtx(None, [_exc_name(x) for x in t]),
        'contextlib.nullcontext': lambda it, v=None: SimpleCtx(v),
        'contextlib.ExitStack': lambda it: ExitStack()}.items():
    LIB[_n] = Native(_n, _m(_f))
LIB['float'] = Native('float', _float)
for _n, _o in dict(add='+', sub='-', mul='*', truediv='/', floordiv='//', mod='%', pow='**', matmul='@', and_='&', or_='|', xor='^', concat='+').items():
    LIB['operator.' + _n] = Native('operator.' + _n, _op(_o))
for _n, _o in dict(eq='==', ne='!=', lt='<', le='<=', gt='>', ge='>=').items():
    LIB['operator.' + _n] = Native('operator.' + _n, _cmp(_o))
LIBCONST = {'numpy.pi': sympy.pi, 'math.pi': sympy.pi, 'numpy.inf': sympy.oo, 'math.inf': sympy.oo, 'numpy.nan': sympy.nan}


# --------------------------------------------------------------------------- arithmetic normal form

def to_sympy(v, table=None):
    """Arithmetic terms to a sympy expression with opaque sub-terms as symbols."""
    if table is None:
        table = _TABLE
    if isinstance(v, bool):
        return sympy.Integer(int(v))
    if isinstance(v, (int, sympy.Basic)):
        return sympy.sympify(v)
    if isinstance(v, fractions.Fraction):
        return sympy.Rational(v.numerator, v.denominator)
    if isinstance(v, Term):
        if v.op == 'bin':
            o, a, b = v.args
            if o in ('+', '-', '*', '/', '**'):
                x, y = to_sympy(a, table), to_sympy(b, table)
                return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '**': lambda: x ** y}[o]()
            if o == '//':
                return sympy.floor(to_sympy(a, table) / to_sympy(b, table))
            if o == '%':
                x, y = to_sympy(a, table), to_sympy(b, table)
                return x - y * sympy.floor(x / y)
        if v.op == 'un' and v.args[0] == '-':
            return -to_sympy(v.args[1], table)
        if v.op == 'call' and v.args[0] == Term('ext', 'int') and len(v.args[1]) == 1:
            pass
        key = show(v)
        if key not in table:
            table[key] = sympy.Symbol(key, real=True)
        return table[key]
    key = show(v)
    if key not in table:
        table[key] = sympy.Symbol(key, real=True)
    return table[key]


_TABLE = {}


def same(a, b):
    """Are two numeric terms equal as arithmetic expressions?"""
    if isinstance(a, Term) and isinstance(b, Term) and a == b:
        return True
    try:
        d = to_sympy(a) - to_sympy(b)
        return d == 0 or sympy.simplify(d) == 0
    except Exception:
        return False
