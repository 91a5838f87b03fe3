"""Analysis files: what is written where, on which process, in what order.

The file handlers are abstractly interpreted on every process of a
communicator against an abstract file system and HDF5 model that records the
datasets, attributes, dimension scales, hyperslabs and virtual sources each
process creates, and the collective calls it makes.  Field, layout and MPI
behaviour are models; nothing of the repository is executed.
"""
import fnmatch
import posixpath
import re as _re
import hashlib as _hashlib
from ..interp import *
from ..repo import AnalysisBroken, Class
from .e01 import OSet

UNL = Term('ext', 'h5py.h5s.UNLIMITED')


def err(it, msg):
    it.state['errors'].append((it.loc(), msg))


def collective(it, kind, *info):
    """A call every process of the communicator has to make."""
    st = it.state
    st['coll'].append((kind,) + info)
    k = len(st['coll']) - 1
    root = st['root_run']
    if root is not None:
        # what the other process did to the shared file system up to this point becomes visible
        while st['seen'] < len(root['events']) and root['events'][st['seen']][0] <= k:
            _, op, p = root['events'][st['seen']]
            st['seen'] += 1
            if op == '+':
                st['fs'].setdefault(p, None)
            else:
                st['fs'].pop(p, None)


class CommM(AbsVal):
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def __repr__(self):
        return 'comm'

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'rank':
            return self.rank
        if name == 'size':
            return self.size
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        st = it.state
        if name == 'Get_rank':
            return self.rank
        if name == 'Get_size':
            return self.size
        if name in ('Barrier', 'barrier'):
            collective(it, 'barrier')
            return None
        if name == 'bcast':
            root = kwargs.get('root', args[1] if len(args) > 1 else 0)
            if root != 0:
                err(it, f'broadcast from process {show(root)}, which does not hold the value')
            collective(it, 'bcast')
            k = sum(1 for c in st['coll'] if c[0] == 'bcast') - 1
            if self.rank == 0:
                st['bcasts'].append(args[0])
                return args[0]
            b = st['root_run']['bcasts'] if st['root_run'] else []
            return b[k] if k < len(b) else sym('unmatched_bcast')
        return NotImplemented


class SyncM(AbsVal):
    def __init__(self, enter, exit):
        self.enter, self.exit = enter, exit

    def callmethod(self, it, name, args, kwargs):
        if name == '__enter__':
            if self.enter is not False:
                collective(it, 'barrier')
            return self
        if name == '__exit__':
            if self.exit is not False:
                collective(it, 'barrier')
            return None
        return NotImplemented


class PathM(AbsVal):
    def __init__(self, p):
        self.p = posixpath.normpath(p)

    def __repr__(self):
        return self.p

    def __hash__(self):
        return hash(('path', self.p))

    def __eq__(self, o):
        return isinstance(o, PathM) and o.p == self.p

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        if op in ('==', '!='):
            return (self == other) == (op == '==')
        return NotImplemented

    def binop(self, it, op, other, swapped):
        if op == '/' and not swapped:
            return self.callmethod(it, 'joinpath', [other], {})
        return NotImplemented

    def getattr(self, it, name):
        b = posixpath.basename(self.p)
        if name == 'stem':
            return b.rsplit('.', 1)[0] if '.' in b[1:] else b
        if name == 'name':
            return b
        if name == 'suffix':
            return '.' + b.rsplit('.', 1)[1] if '.' in b[1:] else ''
        if name == 'parent':
            return PathM(posixpath.dirname(self.p))
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        st = it.state
        fs = st['fs']
        if name in ('__str__', 'as_posix', '__fspath__'):
            return self.p
        if name in ('resolve', 'absolute', 'expanduser'):
            return self
        if name == 'joinpath':
            parts = [a.p if isinstance(a, PathM) else a for a in args]
            if not all(isinstance(a, str) for a in parts):
                raise PathAbort(f'unknown path {show(args)}')
            return PathM(posixpath.join(self.p, *parts))
        if name == 'with_suffix':
            return PathM(posixpath.join(posixpath.dirname(self.p), self.getattr(it, 'stem') + args[0]))
        if name == 'with_name':
            return PathM(posixpath.join(posixpath.dirname(self.p), args[0]))
        if name == 'exists':
            return self.p in fs
        if name == 'is_file':
            return self.p in fs and fs[self.p] != 'dir'
        if name == 'is_dir':
            return fs.get(self.p) == 'dir'
        if name == 'glob':
            return [PathM(q) for q in sorted(fs) if posixpath.dirname(q) == self.p and fnmatch.fnmatch(posixpath.basename(q), args[0])]
        if name == 'mkdir':
            if self.p in fs:
                if kwargs.get('exist_ok') is not True:
                    raise RaiseSig('FileExistsError', self.p, it.loc())
            else:
                create(it, self.p, 'dir')
            return None
        if name == 'touch':
            create(it, self.p, 'file')
            return None
        if name == 'unlink':
            if self.p not in fs:
                raise RaiseSig('FileNotFoundError', self.p, it.loc())
            remove(it, self.p)
            return None
        if name == 'relative_to':
            o = args[0].p if isinstance(args[0], PathM) else args[0]
            return PathM(posixpath.relpath(self.p, o))
        return NotImplemented


def create(it, p, content):
    st = it.state
    st['fs'][p] = content
    st['events'].append((len(st['coll']), '+', p))


def remove(it, p):
    st = it.state
    for q in list(st['fs']):
        if q == p or q.startswith(p + '/'):
            del st['fs'][q]
            st['events'].append((len(st['coll']), '-', q))


class Attrs(AbsVal):
    def __init__(self):
        self.d = {}

    def getitem(self, it, key):
        if key not in self.d:
            raise RaiseSig('KeyError', key, it.loc())
        return self.d[key]

    def setitem(self, it, key, value):
        self.d[key] = value
        return None

    def iterate(self, it):
        return list(self.d)

    def callmethod(self, it, name, args, kwargs):
        if name == 'update':
            self.d.update(args[0].d if isinstance(args[0], Attrs) else args[0])
            return None
        if name in ('get', 'items', 'keys'):
            r = getattr(self.d, name)(*args)
            return r if name == 'get' else list(r)
        return NotImplemented


class DimM(AbsVal):
    def __init__(self):
        self.label = ''
        self.scales = []

    def setattr(self, it, name, value):
        if name == 'label':
            self.label = value
            return None
        return NotImplemented

    def getattr(self, it, name):
        if name == 'label':
            return self.label
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'attach_scale':
            self.scales.append(args[0])
            return None
        return NotImplemented


class Dset(AbsVal):
    def __init__(self, name, shape, maxshape, dtype, data=None, layout=None, chunks=None):
        self.name, self.shape, self.maxshape, self.dtype, self.data, self.layout, self.chunks = name, shape, maxshape, dtype, data, layout, chunks
        self.attrs = Attrs()
        self.dims = [DimM() for _ in shape]
        self.writes = []      # (key, value, shape at the time)
        self.scale_name = None
        self.closed = False

    def __repr__(self):
        return f"dataset {self.name}"

    def getattr(self, it, name):
        if name in ('attrs', 'dims', 'shape', 'maxshape', 'dtype', 'name', 'chunks'):
            return getattr(self, name)
        if name == 'is_virtual':
            return self.layout is not None
        if name == 'id':
            return DsetId(self)
        if name == 'size':
            return prodc(self.shape)
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'make_scale':
            self.scale_name = args[0] if args else ''
            return None
        if name == 'resize':
            ax = kwargs.get('axis', args[1] if len(args) > 1 else None)
            n = args[0]
            if ax is None and isinstance(n, (tuple, list)):
                new = tuple(n)
            else:
                new = self.shape[:ax] + (n,) + self.shape[ax + 1:]
            if isinstance(new[0], int) and self.maxshape is not None and isinstance(self.maxshape[0], int) and new[0] > self.maxshape[0]:
                raise RaiseSig('ValueError', f'{self.name} is resized beyond its maximum shape', it.loc())
            if it.state['mpio']:
                collective(it, 'resize', self.name)
            self.shape = new
            return None
        return NotImplemented

    def setitem(self, it, key, value):
        k = key[0] if isinstance(key, tuple) else key
        if isinstance(k, int) and not -self.shape[0] <= k < self.shape[0]:
            raise RaiseSig('IndexError', f'index {k} out of range of {self.name} with {self.shape[0]} entries', it.loc())
        self.writes.append((key, value, self.shape))
        return None

    def getitem(self, it, key):
        for k, v, s in reversed(self.writes):
            if k == key or (isinstance(key, int) and isinstance(k, int) and key % self.shape[0] == k):
                return v
        if isinstance(self.data, (list, tuple)) and isinstance(key, int):
            return self.data[key]
        return Term('read', self.name, freeze(key))


class DsetId(AbsVal):
    def __init__(self, d):
        self.d = d

    def callmethod(self, it, name, args, kwargs):
        if name == 'write':
            collective(it, 'write', self.d.name)
            mem, fil, data = args[:3]
            self.d.writes.append((('space', mem, fil), data, self.d.shape))
            if 'dxpl' not in kwargs and len(args) < 4:
                err(it, 'collective write without its transfer property list')
            return None
        return NotImplemented


class Space(AbsVal):
    def __init__(self, shape):
        self.shape, self.start, self.count = shape, None, None

    def callmethod(self, it, name, args, kwargs):
        if name == 'select_hyperslab':
            self.start, self.count = args[0], args[1]
            return None
        return NotImplemented


class VLayout(AbsVal):
    def __init__(self, shape, maxshape, dtype):
        self.shape, self.maxshape, self.dtype = shape, maxshape, dtype
        self.parts = []

    def setitem(self, it, key, value):
        self.parts.append((key, value))
        return None


class VSource(AbsVal):
    def __init__(self, filename, name, shape, maxshape):
        self.filename, self.name, self.shape, self.maxshape = filename, name, shape, maxshape
        self.key = None

    def getitem(self, it, key):
        v = VSource(self.filename, self.name, self.shape, self.maxshape)
        v.key = key
        return v


class Group(AbsVal):
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.d = {}
        self.attrs = Attrs()

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'attrs':
            return self.attrs
        return NotImplemented

    def find(self, it, key):
        if not isinstance(key, str):
            raise PathAbort(f'unknown dataset name {show(key)}')
        g = self
        parts = [p for p in key.split('/') if p]
        for p in parts:
            if not isinstance(g, Group) or p not in g.d:
                raise RaiseSig('KeyError', key, it.loc())
            g = g.d[p]
        return g

    def getitem(self, it, key):
        if self.file.closed:
            err(it, f'file {self.file.path} is used after it was closed')
        return self.find(it, key)

    def iterate(self, it):
        return list(self.d)

    def compare(self, it, op, other, swapped):
        if op in ('in', 'not in') and swapped:
            try:
                self.find(it, other)
                return op == 'in'
            except RaiseSig:
                return op != 'in'
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name in ('create_group', 'require_group'):
            if args[0] in self.d:
                if name == 'require_group':
                    return self.d[args[0]]
                raise RaiseSig('ValueError', 'group exists', it.loc())
            self.d[args[0]] = Group(f"{self.name}/{args[0]}", self.file)
            return self.d[args[0]]
        if name in ('create_dataset', 'create_virtual_dataset'):
            kw = dict(zip(('name', 'shape', 'dtype', 'data') if name == 'create_dataset' else ('name', 'layout', 'fillvalue'), args))
            kw.update(kwargs)
            n = kw['name']
            if it.state['mpio'] and self.file.mpio:
                collective(it, 'create', n)
            tgt = self
            if '/' in n.strip('/'):
                head, n = n.strip('/').rsplit('/', 1)
                tgt = self.find(it, head)
            if n in tgt.d:
                raise RaiseSig('ValueError', f'dataset {n} exists', it.loc())
            lay = kw.get('layout')
            if lay is not None:
                d = Dset(n, tuple(lay.shape), lay.maxshape, lay.dtype, layout=lay)
            else:
                shape = kw.get('shape')
                if shape is None:
                    shape = (sym('n'),)
                d = Dset(n, tuple(it.iterate(shape)) if not isinstance(shape, int) else (shape,), kw.get('maxshape'), kw.get('dtype'), data=kw.get('data'), chunks=kw.get('chunks'))
            tgt.d[n] = d
            return d
        if name == 'keys':
            return list(self.d)
        if name == 'move':
            self.d[args[1]] = self.d.pop(args[0])
            return None
        return NotImplemented


class FileM(Group):
    def __init__(self, path, mode, mpio):
        super().__init__('', self)
        self.path, self.mode, self.mpio = path, mode, mpio
        self.closed = False

    def __repr__(self):
        return f'file {self.path}'

    def callmethod(self, it, name, args, kwargs):
        if name == '__enter__':
            return self
        if name in ('close', '__exit__'):
            if self.closed:
                err(it, f'file {self.path} is closed twice')
            if self.mpio:
                collective(it, 'close', self.path)
            self.closed = True
            return None
        return super().callmethod(it, name, args, kwargs)


def h5file(it, path, mode='r', **kw):
    st = it.state
    path = path.p if isinstance(path, PathM) else path
    if not isinstance(path, str):
        raise PathAbort(f'unknown file name {show(path)}')
    mpio = kw.get('driver') == 'mpio'
    exists = path in st['fs'] and st['fs'][path] != 'dir'
    if mpio:
        collective(it, 'open', path, mode)
    if mode in ('w-', 'x', 'w'):
        if exists and mode != 'w':
            raise RaiseSig('FileExistsError', path, it.loc())
        if posixpath.dirname(path) not in st['fs']:
            raise RaiseSig('FileNotFoundError', f'folder of {path} does not exist', it.loc())
        f = FileM(path, mode, mpio)
        create(it, path, f)
    else:
        if not exists:
            raise RaiseSig('FileNotFoundError', path, it.loc())
        f = st['fs'][path]
        if not isinstance(f, FileM):
            # written by another process
            f = FileM(path, mode, mpio)
            st['foreign'].add(path)
        elif not f.closed:
            err(it, f'file {path} is opened while it is still open')
        f.closed, f.mode = False, mode
    st['opened'].append((f, path, mode))
    return f


class OutM(AbsVal):
    """The output field of a task."""
    def __init__(self, name, layouts):
        self.name, self.layouts = name, layouts
        self.layout, self.scales = 'start', 'start'

    def __repr__(self):
        return f"out({self.name})"

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name == 'data':
            return DataM(self.name, 'local', freeze(self.layout) if not isinstance(self.layout, AbsVal) else repr(self.layout), self.scales)
        if name in ('layout', 'scales'):
            return getattr(self, name)
        if name == 'dist':
            return it.state['dist']
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name == 'change_scales':
            if self.scales != args[0]:
                self.layout = 'scaled'
            self.scales = args[0]
            return None
        if name in ('change_layout', 'require_layout'):
            self.layout = args[0]
            return None
        if name in ('gather_data', 'allgather_data'):
            collective(it, name, self.name)
            if args[1:] or kwargs.get('layout') is not None:
                self.layout = args[1] if args[1:] else kwargs['layout']
            root = args[0] if args else kwargs.get('root', 0)
            if name == 'gather_data' and it.state['rank'] != root:
                return None
            return DataM(self.name, 'global', repr(self.layout), self.scales)
        return NotImplemented


class DataM(AbsVal):
    def __init__(self, name, part, layout, scales, lead=False):
        self.name, self.part, self.layout, self.scales, self.lead = name, part, layout, scales, lead

    def __repr__(self):
        return f"{self.part} data of {self.name} in {self.layout}, scales {show(self.scales)}" + (', with leading axis' if self.lead else '')

    def getitem(self, it, key):
        k = key if isinstance(key, tuple) else (key,)
        if k[0] is None and all(x == slice(None) or x is Ellipsis for x in k[1:]):
            return DataM(self.name, self.part, self.layout, self.scales, True)
        if all(x == slice(None) or x is Ellipsis for x in k):
            return self
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        if name in ('copy',):
            return self
        return NotImplemented


class LayoutM(AbsVal):
    """Blocks of two axes over the processes (the last may be empty)."""
    def __init__(self, name, size, starts, globals_, grid):
        self.name, self.size, self.starts, self.globals_, self.grid = name, size, starts, globals_, grid

    def __repr__(self):
        return self.name

    def truth(self, it):
        return True

    def block(self, domain, rank):
        return domain.attrs['blocks'][self.name][rank]

    def getattr(self, it, name):
        if name == 'grid_space':
            return self.grid
        if name in ('ext_mesh', 'ext_coords'):
            return (sym(f'{name}0'), sym(f'{name}1'))
        if name == 'dist':
            return it.state['dist']
        return NotImplemented

    def callmethod(self, it, name, args, kwargs):
        st = it.state
        if name in ('global_shape', 'local_shape', 'local_elements', 'global_group_arrays', 'slices', 'local_slices', 'global_group_arrays'):
            dom = args[0] if args else kwargs['domain']
            scales = args[1] if len(args) > 1 else kwargs.get('scales')
            rank = args[2] if len(args) > 2 else kwargs.get('rank')
            if scales != dom.attrs['want_scales']:
                err(it, f'{name} of {dom.name} is taken with scales {show(scales)} instead of the scales of the task')
            if rank is None:
                rank = st['rank']
            b = self.block(dom, rank)
            if name == 'global_shape':
                return dom.attrs['shape'][self.name]
            if name == 'local_shape':
                return tuple(n for s, n in b)
            if name == 'local_elements':
                return tuple(np.array(list(range(s, s + n)), dtype=object) for s, n in b)
            if name in ('slices', 'local_slices'):
                return tuple(slice(s, s + n) if n else slice(0, 0) for s, n in b)
            return [Term('groups', self.name, dom.name, a) for a in range(2)]
        return NotImplemented


class Cfg(Config):
    max_paths = 16
    max_while = 20
    max_depth = 16
    max_steps = 4000000

    def on_new(self, it, cls, args, kwargs, node):
        if cls.name == 'Sync':
            a = list(args) + [None] * 3
            return SyncM(kwargs.get('enter', a[1]), kwargs.get('exit', a[2]))
        if cls.name == 'OrderedSet':
            s = OSet()
            s.callmethod(it, 'update', args, {})
            return s
        return NotImplemented

    def on_truth(self, it, value):
        if isinstance(value, Term):
            s = show(value)
            if 'TOUCH_TMPFILE' in s:
                return it.state['touch']
            if 'get_config' in s and s.endswith('mpi'):
                return True
            if 'os.path.exists' in s or 'os.path.isfile' in s:
                return None
        return None

    def on_isinstance(self, it, value, cls):
        if isinstance(value, (AbsVal,)):
            return False
        return None

    def on_repo_call(self, it, clo, args, kwargs, node):
        n, s = clo.func.name, args[0] if args else None
        return NotImplemented

    def on_getattr(self, it, base, name):
        return NotImplemented

    def on_call(self, it, f, args, kwargs, node):
        st = it.state
        s = show(f)
        if s == 'h5py.File':
            return h5file(it, *args, **kwargs)
        if s == 'h5py.VirtualLayout':
            kw = dict(zip(('shape', 'dtype', 'maxshape'), args))
            kw.update(kwargs)
            return VLayout(kw['shape'], kw.get('maxshape'), kw.get('dtype'))
        if s == 'h5py.VirtualSource':
            kw = dict(zip(('path_or_dataset', 'name', 'shape', 'dtype', 'maxshape'), args))
            kw.update(kwargs)
            p = kw['path_or_dataset']
            return VSource(p.p if isinstance(p, PathM) else p, kw.get('name'), kw.get('shape'), kw.get('maxshape'))
        if s == 'h5py.h5s.create_simple':
            return Space(args[0])
        if s == 'h5py.filters.guess_chunk':
            return tuple(it.iterate(args[0]))
        if s in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath'):
            return args[0] if isinstance(args[0], PathM) else PathM(posixpath.join('/cwd', args[0]))
        if s in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
            p = args[0].p if isinstance(args[0], PathM) else args[0]
            return p in st['fs'] and (s == 'os.path.exists' or (st['fs'][p] == 'dir') == s.endswith('isdir'))
        if s in ('shutil.rmtree', 'os.remove', 'os.unlink', 'os.rmdir'):
            p = args[0].p if isinstance(args[0], PathM) else args[0]
            if p not in st['fs']:
                raise RaiseSig('FileNotFoundError', p, it.loc())
            if (s == 'shutil.rmtree') != (st['fs'][p] == 'dir'):
                raise RaiseSig('OSError', f'{s} of {p}', it.loc())
            remove(it, p)
            return None
        if s in ('re.match', 're.fullmatch', 're.search') and all(isinstance(a, str) for a in args[:2]):
            m = getattr(_re, s[3:])(args[0], args[1])
            return MatchM(m) if m else None
        if s in ('hashlib.sha1', 'hashlib.md5', 'hashlib.sha256'):
            return HashM(args[0])
        if s == 'numpy.dtype':
            return sym('npdtype')
        if s == 'numpy.prod' or s == 'math.prod':
            return NotImplemented
        return NotImplemented


class MatchM(AbsVal):
    def __init__(self, m):
        self.m = m

    def truth(self, it):
        return True

    def callmethod(self, it, name, args, kwargs):
        if name in ('groups', 'group', 'start', 'end', 'groupdict'):
            return getattr(self.m, name)(*args)
        return NotImplemented

    def getitem(self, it, key):
        return self.m[key]


class HashM(AbsVal):
    def __init__(self, data):
        self.data = data

    def callmethod(self, it, name, args, kwargs):
        if name == 'hexdigest':
            return _hashlib.sha1(show(self.data).encode()).hexdigest()[:8]
        return NotImplemented


class GridM(AbsVal):
    def __init__(self, basis, sub, scales):
        self.b, self.sub, self.scales = basis, sub, scales

    def __repr__(self):
        return f"grid {self.sub} of {self.b} with scales {show(self.scales)}"

    def callmethod(self, it, name, args, kwargs):
        if name in ('ravel', 'flatten'):
            return self
        return NotImplemented


def prodc(t):
    r = 1
    for x in t:
        r *= x
    return r


def run(repo, rep):
    rep.rule('write n of a handler lands at the next index of the current set with its own time scales and write number; sets roll over after max_writes')
    rep.rule('every process writes exactly its block of every task, in the requested layout and scales, and the joint dataset maps every block to its place')
    rep.rule('axis scales and task attributes describe the axes they are attached to')
    rep.rule('all processes make the same collective calls; only the root touches shared files and folders')
    handlers(repo, rep)
    rep.floor('handler runs', 60)


# ---- scenario ------------------------------------------------------------------------------
def world(it, repo, size, rank, root_run, fs, mpio, touch):
    st = it.state
    st.update(errors=[], coll=[], bcasts=[], events=[], seen=0, opened=[], foreign=set(), fs=dict(fs), root_run=root_run, rank=rank, mpio=mpio, touch=touch, problems=[])
    comm = CommM(rank, size)
    dist = Obj(None, 'dist', {'comm': comm, 'comm_cart': comm, 'dim': 2})
    st['dist'] = dist
    dist.attrs['get_basis_axis'] = Native('get_basis_axis', lambda it2, b: b.attrs['first_axis'])
    dist.attrs['get_axis'] = Native('get_axis', lambda it2, c: c.attrs['axis'])
    L = {'g': LayoutM('grid', size, None, None, (True, True)), 'c': LayoutM('coeff', size, None, None, (False, False)), 'm': LayoutM('mixed', size, None, None, (False, True))}
    st['L'] = L
    return dist, L


def basis(name, coords, first):
    cs = [Obj(None, c, {'name': c, 'axis': first + i}) for i, c in enumerate(coords)]
    b = Obj(None, name, {'coordsys': Obj(None, 'cs', {'coords': cs}), 'first_axis': first, 'dim': len(coords), 'coords': cs})
    b.attrs['global_grids'] = Native('global_grids', lambda it, dist, scales=None, **k: [GridM(name, i, scales if scales is not None else k.get('scales')) for i in range(len(coords))])
    b.attrs['global_grid'] = Native('global_grid', lambda it, dist, scale=None, **k: GridM(name, 0, scale))
    return b


def blocks(n, size):
    b = -(-n // size)
    out = []
    for r in range(size):
        s = min(r * b, n)
        out.append((s, min(b, n - s)))
    return out


def make_tasks(it, L, size):
    """(name, operator, layout, scales, output)"""
    bx, by = basis('bx', ['x'], 0), basis('by', ['y'], 1)
    bs = basis('bs', ['phi', 'theta'], 0)
    tasks = []

    def task(name, bases, layout, scales, shape, tensor=()):
        dom = Obj(None, f'dom_{name}', {'full_bases': bases, 'bases': tuple(b for b in bases if b is not None), 'constant': tuple(b is None for b in bases), 'shape': {}, 'blocks': {}, 'want_scales': scales})
        for l in L.values():
            dom.attrs['shape'][l.name] = shape
            ax = 0 if l.name != 'grid' else 1
            bl = blocks(shape[ax], size)
            dom.attrs['blocks'][l.name] = [tuple(bl[r] if a == ax else (0, shape[a]) for a in range(2)) for r in range(size)]
        op = Obj(None, f'op_{name}', {'domain': dom, 'tensorsig': tuple(Obj(None, 'cs', {'dim': d}) for d in tensor), 'dtype': sym(f'dtype_{name}')})
        tasks.append((name, op, L[layout], scales, OutM(name, L), tensor, shape))
    task('u', (bx, by), 'g', ('s1', 's2'), (6, 4))
    task('v', (bx, by), 'c', (1, 1), (5, 3), (2,))
    task('w', (None, by), 'm', ('q', 1), (1, 4))
    task('s', (bs, bs), 'g', ('p', 'r'), (6, 2), (3, 2))
    task('sc', (bs, bs), 'c', (1, 1), (4, 4))
    return tasks


CLASSES = [('H5GatherFileHandler', False), ('H5ParallelFileHandler', True), ('H5VirtualFileHandler', False)]
FS = {'/cwd': 'dir'}


def earlier_sets(cls_name):
    """Folder with three sets (1, 2 and 10) and an unrelated file."""
    fs = {'/cwd': 'dir', '/cwd/an': 'dir', '/cwd/an/other_s3.h5': 'file', '/cwd/an/an_notes.txt': 'file', '/cwd/an_s1.h5': 'file'}
    for n, w in ((1, 4), (2, 7), (10, 31)):
        f = FileM(f'/cwd/an/an_s{n}.h5', 'r', False)
        f.closed = True
        sc = Group('/scales', f)
        f.d['scales'] = sc
        d = Dset('write_number', (3,), (None,), 'int', data=[w - 2, w - 1, w])
        sc.d['write_number'] = d
        fs[f.path] = f
        fs[f'/cwd/an/an_s{n}'] = 'dir'
        fs[f'/cwd/an/an_s{n}/an_s{n}_p0.h5'] = 'file'
    return fs


def handlers(repo, rep):
    for cname, mpio in CLASSES:
        cls = repo.cls('core.evaluator', cname)
        for size in (1, 3):
            for mw in (None, 1, 2):
                for mode, prior in (('overwrite', False), ('overwrite', True), ('append', False), ('append', True)):
                    if mw == 1 and prior != (mode == 'append'):
                        continue
                    for touch in (False, True) if cname.startswith('H5V') and mw is None else (False,):
                        scenario(repo, rep, cls, mpio, size, mw, mode, prior, touch)


def scenario(repo, rep, cls, mpio, size, mw, mode, prior, touch):
    root_run = None
    what0 = f"{cls.name}, {size} processes, max_writes={mw}, mode={mode}{' with earlier sets' if prior else ''}"
    seqs = {}
    for rank in range(size):
        it = Interp(repo, Cfg())
        what = f"{what0}, process {rank}"
        paths = it.explore(lambda it: simulate(it, repo, cls, mpio, size, rank, mw, mode, prior, touch, root_run))
        rep.count('handler runs')
        res = None
        for r in paths:
            if r.outcome == 'abort':
                rep.undec(f'{what}: {r.value}')
                continue
            if r.outcome == 'raise':
                rep.check(False, f"E02|{cls.name}|raises {r.value.name}", f"{what}: raises {r.value.name}: {r.value.value}" + (f" when {r.cond_text()}" if r.decisions else ''), r.value.loc)
                continue
            res = r
            errs, probs = r.extra['errors'], r.extra['problems']
            rep.check(not errs and not probs, f"E02|{cls.name}|{generic(errs[0][1] if errs else probs[0] if probs else '')}", f"{what}: {errs[0][1] if errs else probs[0] if probs else ''}", errs[0][0] if errs else cls.method('process').loc, what)
        if res is None:
            return
        seqs[rank] = [c for c in res.extra['coll']]
        if rank == 0:
            root_run = {'bcasts': res.extra['bcasts'], 'events': res.extra['events'], 'coll': res.extra['coll']}
    for rank in range(1, size):
        a, b = seqs[0], seqs[rank]
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), None)
        if i is None and len(a) != len(b):
            i = min(len(a), len(b))
        rep.check(i is None, f"E02|{cls.name}|collectives", f"{what0}: process {rank} makes collective call {b[i] if i is not None and i < len(b) else 'none'} where process 0 makes {a[i] if i is not None and i < len(a) else 'none'} (call {i})", cls.module.rel, what0)


def generic(msg):
    return _re.sub(r"\d+|'[^']*'|/cwd\S*", '*', msg)[:100]


def simulate(it, repo, cls, mpio, size, rank, mw, mode, prior, touch, root_run):
    fs = earlier_sets(cls.name) if prior else dict(FS)
    dist, L = world(it, repo, size, rank, root_run, fs, mpio, touch)
    st = it.state
    p = st['problems']
    h = Obj(cls, 'handler')
    it.call(Closure(cls.method('__init__'), None, h, cls.method('__init__').cls), ['an', dist, {}], {'max_writes': mw, 'mode': mode})
    s0, w0 = (10, 31) if prior and mode == 'append' else (0, 0)
    gone = [q for _, op, q in st['events'] if op == '-']
    if mode == 'append' and gone:
        p.append(f"append mode deletes {gone[0]}")
    if mode == 'overwrite' and prior and rank == 0:
        left = [q for q in st['fs'] if _re.match(r'/cwd/an/an_s\d+', q)]
        if left:
            p.append(f"overwrite mode keeps {left[0]}")
        bad = [q for q in gone if not _re.match(r'/cwd/an/an_s\d+', q)]
        if bad:
            p.append(f"overwrite mode deletes {bad[0]}, which is not a set of this handler")
    if rank and gone:
        p.append(f"process {rank} deletes files")
    if '/cwd/an' not in st['fs']:
        p.append('the output folder is not created before the constructor returns')
    tasks = make_tasks(it, L, size)
    for name, op, layout, scales, out, tensor, shape in tasks:
        h.attrs['tasks'].append({'operator': op, 'layout': layout, 'name': name, 'scales': scales, 'dtype': op.attrs['dtype']})
        register(it, repo, h, op)
    # task distribution data
    for (name, op, layout, scales, out, tensor, shape), t in zip(tasks, h.attrs['tasks']):
        b = op.attrs['domain'].attrs['blocks'][layout.name][rank]
        gs = tuple(tensor) + shape
        ls = tuple(tensor) + tuple(n for s, n in b)
        ok_start = all(x == (0 if i < len(tensor) else b[i - len(tensor)][0]) or ls[i] == 0 for i, x in enumerate(t['local_start'])) and len(t['local_start']) == len(gs)
        if tuple(t['global_shape']) != gs:
            p.append(f"task {name}: global shape {show(t['global_shape'])} instead of {gs}")
        if tuple(t['local_shape']) != ls:
            p.append(f"task {name}: local shape {show(t['local_shape'])} instead of {ls}")
        if not ok_start:
            p.append(f"task {name}: local block starts at {show(t['local_start'])} instead of {b}")
        if any(isinstance(x, int) and x > g for x, g in zip(t['local_start'], gs)):
            p.append(f"task {name}: local block starts beyond the global shape")
        if bool(t['local_size']) != bool(prodc(ls)):
            p.append(f"task {name}: local size is {show(t['local_size'])}")
    n_writes = 5 if mw else 3
    for k in range(1, n_writes + 1):
        set_num = s0 + 1 + ((k - 1) // mw if mw else 0)
        idx = (k - 1) % mw if mw else k - 1
        for (name, op, layout, scales, out, tensor, shape), t in zip(tasks, h.attrs['tasks']):
            t['out'] = OutM(name, L)
        st['opened'].clear()
        kw = {'iteration': sym(f'it{k}'), 'wall_time': sym(f'wt{k}'), 'sim_time': sym(f'st{k}'), 'timestep': sym(f'dt{k}')}
        ncoll = len(st['coll'])
        it.call(it.getattr(h, 'process'), [], dict(kw))
        # tasks moved to the requested layout and scales on every process
        for (name, op, layout, scales, out, tensor, shape), t in zip(tasks, h.attrs['tasks']):
            if t['out'].layout is not layout or t['out'].scales != scales:
                p.append(f"write {k}: task {name} is written in {t['out'].layout} with scales {show(t['out'].scales)} instead of {layout}, {scales}")
        for f, path, m in st['opened']:
            if not f.closed:
                p.append(f"write {k}: file {path} is left open")
        check_files(it, cls, h, tasks, rank, size, k, set_num, idx, w0 + k, kw, mw, mpio)
    return None


def register(it, repo, h, op):
    """Interpret add_task of the file handler behind the stored task (Handler.add_task is checked elsewhere)."""
    base = repo.cls('core.evaluator', 'Handler').method('add_task')
    t = h.attrs['tasks'].pop()
    cfg = it.cfg
    orig = cfg.on_repo_call

    def hook(it2, clo, args, kwargs, node):
        if clo.func is base:
            h.attrs['tasks'].append(t)
            return None
        return NotImplemented
    cfg.on_repo_call = hook
    try:
        it.call(it.getattr(h, 'add_task'), [op], {})
    finally:
        cfg.on_repo_call = orig


def check_files(it, cls, h, tasks, rank, size, k, set_num, idx, wn, kw, mw, mpio):
    st = it.state
    p = st['problems']
    w = f"write {k}"
    joint = f'/cwd/an/an_s{set_num}.h5'
    virtual = cls.name == 'H5VirtualFileHandler'
    gather = cls.name == 'H5GatherFileHandler'
    owner = rank == 0 or mpio
    if joint not in st['fs']:
        p.append(f"{w}: set file {joint} does not exist")
        return
    f = st['fs'][joint]
    if not owner:
        if isinstance(f, FileM) or joint in st['foreign']:
            p.append(f"{w}: process {rank} opens the joint file")
    else:
        if not isinstance(f, FileM):
            p.append(f"{w}: set file {joint} is not written")
            return
        for a, v in (('writes', idx + 1), ('set_number', set_num), ('handler_name', 'an')):
            if f.attrs.d.get(a) != v:
                p.append(f"{w}: file attribute {a} is {show(f.attrs.d.get(a))} instead of {v}")
        sc = f.d.get('scales')
        for n in ('sim_time', 'wall_time', 'timestep', 'iteration', 'write_number'):
            d = sc.d.get(n) if sc else None
            want = kw.get(n, wn)
            if d is None:
                p.append(f"no scale dataset {n}")
                continue
            if d.shape != (idx + 1,):
                p.append(f"{w}: scale {n} has {show(d.shape)} entries instead of {idx + 1}")
            if not d.writes or d.writes[-1][0] not in (idx, -1) or d.writes[-1][1] != want:
                p.append(f"{w}: scale {n} receives {show(d.writes[-1][:2]) if d.writes else 'nothing'} instead of {show(want)} at index {idx}")
            if [x[0] for x in d.writes] != list(range(idx + 1)):
                p.append(f"{w}: scale {n} is written at indices {[x[0] for x in d.writes]}")
            if d.maxshape is None or d.maxshape[0] is not None and d.maxshape[0] != mw:
                p.append(f"scale {n} cannot grow (maximum shape {show(d.maxshape)})")
        ts = f.d.get('tasks')
        if ts is None or sorted(ts.d) != sorted(t[0] for t in tasks):
            p.append(f"{w}: joint file has tasks {sorted(ts.d) if ts else None}")
            return
    for (name, op, layout, scales, out, tensor, shape), t in zip(tasks, h.attrs['tasks']):
        gs = tuple(tensor) + shape
        nt = len(tensor)
        blk = op.attrs['domain'].attrs['blocks'][layout.name]
        ls = tuple(tensor) + tuple(n for s, n in blk[rank])
        lstart = (0,) * nt + tuple(s for s, n in blk[rank])
        if owner:
            d = ts.d[name]
            if tuple(d.shape[1:]) != gs:
                p.append(f"task {name}: dataset has shape {show(d.shape)} per write instead of {gs}")
            if d.maxshape is None or tuple(d.maxshape[1:]) != gs or d.maxshape[0] is not None and d.maxshape[0] != mw:
                p.append(f"task {name}: dataset has maximum shape {show(d.maxshape)}")
            if d.dtype != op.attrs['dtype']:
                p.append(f"task {name}: dataset has dtype {show(d.dtype)}")
            for a, v in (('constant', op.attrs['domain'].attrs['constant']), ('grid_space', layout.grid), ('scales', scales)):
                if d.attrs.d.get(a) != v:
                    p.append(f"task {name}: attribute {a} is {show(d.attrs.d.get(a))} instead of {show(v)}")
            check_dims(it, f, d, op, layout, scales, nt)
        if gather and owner or mpio:
            if d.shape[0] != idx + 1:
                p.append(f"{w}: task {name} has {show(d.shape[0])} entries instead of {idx + 1}")
            last = d.writes[-1] if d.writes else None
            if last is None:
                p.append(f"{w}: task {name} is not written")
                continue
        if gather and owner:
            if last[0] not in (idx, -1) or [x[0] for x in d.writes] != list(range(idx + 1)):
                p.append(f"{w}: task {name} is written at index {show(last[0])} instead of {idx}")
            if not good_data(last[1], name, 'global', layout, scales, False):
                p.append(f"{w}: task {name} receives {show(last[1])}")
        if mpio:
            key = last[0]
            if len(d.writes) != idx + 1:
                p.append(f"{w}: task {name} was written {len(d.writes)} times")
            if isinstance(key, tuple) and key and key[0] == 'space':
                _, mem, fil = key
                want = ((idx,) + lstart, (1,) + ls)
                if tuple(mem.shape) != (1,) + ls or tuple(mem.start or ()) != (0,) * (len(ls) + 1) or tuple(mem.count or ()) != (1,) + ls:
                    p.append(f"{w}: task {name} memory selection is {show(mem.start)} + {show(mem.count)} of {show(mem.shape)} instead of the local data {(1,) + ls}")
                if tuple(fil.shape) != (idx + 1,) + gs:
                    p.append(f"{w}: task {name} file space has shape {show(fil.shape)} instead of {(idx + 1,) + gs}")
                if prodc(ls) and (tuple(fil.start or ()) != want[0] or tuple(fil.count or ()) != want[1]):
                    p.append(f"{w}: task {name} is written to {show(fil.start)} + {show(fil.count)} instead of {want[0]} + {want[1]}")
                if not prodc(ls) and prodc(fil.count or (1,)):
                    p.append(f"{w}: task {name} of an empty process is written to {show(fil.start)} + {show(fil.count)}")
                if not good_data(last[1], name, 'local', layout, scales, True):
                    p.append(f"{w}: task {name} receives {show(last[1])}")
            else:
                want = (idx,) + tuple(slice(s, s + n) for s, n in zip(lstart, ls))
                if prodc(ls) and (key != want or not good_data(last[1], name, 'local', layout, scales, False)):
                    p.append(f"{w}: task {name} is written to {show(key)} with {show(last[1])} instead of {show(want)}")
        if virtual:
            proc = f'/cwd/an/an_s{set_num}/an_s{set_num}_p{rank}.h5'
            if prodc(ls):
                pf = st['fs'].get(proc)
                if not isinstance(pf, FileM):
                    p.append(f"{w}: process file {proc} does not exist although the process holds data of {name}")
                    continue
                pd = pf.d['tasks'].d.get(name) if 'tasks' in pf.d else None
                if pd is None:
                    p.append(f"{w}: process file has no dataset {name}")
                    continue
                if tuple(pd.shape) != (idx + 1,) + ls:
                    p.append(f"{w}: process dataset {name} has shape {show(pd.shape)} instead of {(idx + 1,) + ls}")
                if pd.dtype != op.attrs['dtype']:
                    p.append(f"process dataset {name} has dtype {show(pd.dtype)}")
                if pd.maxshape is None or tuple(pd.maxshape[1:]) != ls or pd.maxshape[0] is not None and pd.maxshape[0] != mw:
                    p.append(f"process dataset {name} has maximum shape {show(pd.maxshape)}")
                if [x[0] for x in pd.writes] != list(range(idx + 1)):
                    p.append(f"{w}: process dataset {name} is written at indices {[show(x[0]) for x in pd.writes]}")
                elif not good_data(pd.writes[-1][1], name, 'local', layout, scales, False):
                    p.append(f"{w}: process dataset {name} receives {show(pd.writes[-1][1])}")
                for a, v in (('global_shape', gs), ('local_start', lstart), ('local_shape', ls)):
                    if a in pd.attrs.d and tuple(pd.attrs.d[a]) != v:
                        p.append(f"process dataset {name} has {a} {show(pd.attrs.d[a])} instead of {v}")
            elif all(prodc(tuple(x[5]) + tuple(n for s, n in x[1].attrs['domain'].attrs['blocks'][x[2].name][rank])) == 0 for x in tasks):
                if proc in st['fs'] and isinstance(st['fs'][proc], FileM):
                    p.append(f"{w}: empty process writes {proc}")
            if owner:
                check_virtual(it, h, d, name, tensor, gs, blk, size, set_num, mw, op)
    # temporary files
    tmp = [q for q in st['fs'] if 'tmpfile' in q]
    if tmp:
        p.append(f"{w}: temporary file {tmp[0]} remains")


def good_data(v, name, part, layout, scales, lead):
    return isinstance(v, DataM) and v.name == name and v.part == part and v.layout == repr(layout) and v.scales == scales and v.lead == lead


def check_virtual(it, h, d, name, tensor, gs, blk, size, set_num, mw, op):
    p = it.state['problems']
    lay = d.layout
    if lay is None:
        p.append(f"task {name}: joint dataset is not virtual")
        return
    if lay.dtype != op.attrs['dtype']:
        p.append(f"task {name}: virtual layout has dtype {show(lay.dtype)}")
    nt = len(tensor)
    want = {}
    for r in range(size):
        ls = tuple(tensor) + tuple(n for s, n in blk[r])
        if prodc(ls):
            want[f'/cwd/an/an_s{set_num}/an_s{set_num}_p{r}.h5'] = (ls, (0,) * nt + tuple(s for s, n in blk[r]))
    seen = set()
    for key, src in lay.parts:
        if not isinstance(src, VSource):
            p.append(f"task {name}: virtual layout is filled with {show(src)}")
            continue
        # h5py resolves a relative source name against the folder of the joint file
        fn = posixpath.normpath(posixpath.join('/cwd/an', src.filename))
        if posixpath.isabs(src.filename):
            p.append(f"task {name}: virtual source has the absolute name {src.filename}, which is lost when the output folder moves")
        if fn not in want:
            p.append(f"task {name}: virtual source {src.filename} does not resolve to a process file with data of this task")
            continue
        seen.add(fn)
        ls, start = want[fn]
        if src.name.strip('/') != f'tasks/{name}':
            p.append(f"task {name}: virtual source reads dataset {src.name}")
        if tuple(src.shape[1:]) != ls:
            p.append(f"task {name}: virtual source has shape {show(src.shape)} instead of {ls}")
        if src.maxshape is not None and (tuple(src.maxshape[1:]) != ls or src.maxshape[0] is not None and src.maxshape[0] != mw):
            p.append(f"task {name}: virtual source has maximum shape {show(src.maxshape)}")
        key = key if isinstance(key, tuple) else (key,)
        sk = src.key if isinstance(src.key, tuple) else (src.key,) if src.key is not None else ()
        if not unlimited(key[0]) or (sk and not unlimited(sk[0])):
            p.append(f"task {name}: the time axis of the virtual mapping does not grow with the writes")
        for a in range(len(ls)):
            ks = key[1 + a] if 1 + a < len(key) else slice(None)
            lo, hi = bounds(ks, gs[a])
            if (lo, hi) != (start[a], start[a] + ls[a]):
                p.append(f"task {name}: block of {src.filename} is mapped to {lo}:{hi} along axis {a} instead of {start[a]}:{start[a] + ls[a]}")
            ks = sk[1 + a] if 1 + a < len(sk) else slice(None)
            lo, hi = bounds(ks, ls[a])
            if (lo, hi) != (0, ls[a]):
                p.append(f"task {name}: virtual source reads {lo}:{hi} along axis {a} instead of all {ls[a]}")
    for fn in want:
        if fn not in seen:
            p.append(f"task {name}: the data in {posixpath.basename(fn)} are missing from the joint dataset")
    if len(lay.parts) != len(seen):
        p.append(f"task {name}: a process file is mapped more than once")


def unlimited(k):
    return isinstance(k, slice) and k.stop == UNL and k.start in (None, 0)


def bounds(k, n):
    if isinstance(k, slice):
        return (0 if k.start is None else k.start, n if k.stop is None else k.stop)
    return (k, k)


def check_dims(it, f, d, op, layout, scales, nt):
    p = it.state['problems']
    sc = f.d['scales'].d
    name = d.name
    if d.dims[0].label != 't':
        p.append(f"task {name}: time axis is labelled {show(d.dims[0].label)}")
    if sorted(x.name for x in d.dims[0].scales) != sorted(('sim_time', 'wall_time', 'timestep', 'iteration', 'write_number')):
        p.append(f"task {name}: time axis has scales {[x.name for x in d.dims[0].scales]}")
    for i in range(1, 1 + nt):
        if d.dims[i].scales:
            p.append(f"task {name}: component axis {i} carries a spatial scale")
    for axis in range(2):
        b = op.attrs['domain'].attrs['full_bases'][axis]
        dim = d.dims[1 + nt + axis]
        if len(dim.scales) != 1:
            p.append(f"task {name}: axis {axis} has {len(dim.scales)} scales")
            continue
        s = dim.scales[0]
        if b is None:
            if dim.label != 'constant' or s.name != 'constant':
                p.append(f"task {name}: constant axis {axis} is labelled {show(dim.label)} with scale {s.name}")
            continue
        sub = axis - b.attrs['first_axis']
        cname = b.attrs['coords'][sub].name
        want = cname if layout.grid[axis] else 'k' + cname
        if dim.label != want:
            p.append(f"task {name}: axis {axis} is labelled {show(dim.label)} instead of {want}")
        if s.scale_name != want:
            p.append(f"task {name}: the scale of axis {axis} is named {show(s.scale_name)} instead of {want}")
        if layout.grid[axis]:
            ok = isinstance(s.data, GridM) and s.data.b == b.name and s.data.sub == sub and s.data.scales == scales
        else:
            ok = isinstance(s.data, Term) and s.data == Term('groups', layout.name, op.attrs['domain'].name, axis)
        if not ok:
            p.append(f"task {name}: the scale of axis {axis} ({want}) holds {show(s.data)}")
