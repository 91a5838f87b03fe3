"""Interpreter conformance: the abstract interpreter must agree with CPython on concrete programs."""
import os, sys, types
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
os.environ['DSA_DEBUG'] = os.environ.get('DSA_DEBUG', '')
from dsa import repo as R, interp as I
if not os.environ['DSA_DEBUG']: os.environ.pop('DSA_DEBUG')

def conv(v):
    import sympy
    if isinstance(v, float) and v == v and abs(v) < 1e300: return sympy.Rational(repr(v))
    try: import sympy
    except ImportError: sympy=None
    if isinstance(v, dict): return {conv_k(k): conv(x) for k, x in v.items()}
    if isinstance(v, I.LazyGen): return ('gen',)
    if isinstance(v, tuple): return tuple(conv(x) for x in v)
    if isinstance(v, list): return [conv(x) for x in v]
    if isinstance(v, (set, frozenset)): return set(conv(x) for x in v)
    return v
def conv_k(k): return conv(k)

def main(modname, pat=''):
    path = os.path.join(here, 'fake', *modname.split('.')) + '.py'
    ns = {'__name__': modname}
    src = open(path).read()
    sys.path.insert(0, os.path.join(here, 'fake')); ns = vars(__import__('importlib').import_module(modname))
    names = [n for n in ns if n.startswith('t_') and pat in n]
    repo = R.Repo(os.path.join(here, 'fake'))
    bad = 0
    for n in names:
        want = ns[n]()
        it = I.Interp(repo, I.Config())
        f = repo.modules[modname].funcs[n]
        try:
            res = it.explore(lambda it: it.call_func(I.Closure(f), []))
        except Exception as e:
            import traceback
            if os.environ.get('DSA_DEBUG'): traceback.print_exc()
            print('EXC', n, type(e).__name__, e); bad += 1; continue
        if len(res) != 1 or res[0].outcome != 'return':
            print('PATHS', n, [(r.outcome, getattr(r.value,'name',r.value), getattr(r.value,'value',''), [str(d[0])[:80] for d in r.decisions][:2]) for r in res][:3]); bad += 1; continue
        got = conv(res[0].value)
        try: ok = bool(got == conv(want))
        except Exception as e: ok = False
        if not ok:
            if isinstance(got, tuple) and isinstance(want, tuple) and len(got)==len(want):
                print('DIFF', n, [(i, a, b) for i, (a, b) in enumerate(zip(got, conv(want))) if not (a == b) is True][:6])
            else: print('DIFF', n, 'got', got, 'want', want)
            bad += 1
    print(len(names), 'tests', bad, 'bad')
main(sys.argv[1] if len(sys.argv) > 1 else 'dedalus.core.lang', sys.argv[2] if len(sys.argv) > 2 else '')
