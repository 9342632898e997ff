"""A file system for the storage properties: a model for the symbolic world, a scratch directory for the replay.

The model has names and inodes (rename keeps the inode, opening for writing truncates it), and interruption points: before or
after the n-th operation that changes the directory (rename, replace, remove, open for writing)."""
import copy, io, os, pickle, shutil, sys, tempfile, types


class Crash(BaseException):
    pass


class Inode:
    def __init__(self):
        self.data = None        # None: empty or incomplete


class Blob(bytes):
    """pickled data"""
    def __new__(cls, payload):
        b = bytes.__new__(cls, b'pickle')
        b.payload = payload
        return b


class Handle:
    def __init__(self, fs, inode, mode):
        self.fs, self.inode, self.mode, self.closed = fs, inode, mode, False

    def _need(self, kind):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if kind not in self.mode:
            raise TypeError('file mode')

    def write(self, text):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if isinstance(text, str) == ('b' in self.mode):
            raise TypeError('a bytes-like object is required, or str')
        if isinstance(text, bytes):
            self.inode.data = ('pickle', text.payload)
        else:
            self.inode.data = (self.inode.data or '') + text

    def read(self):
        d = self.inode.data
        return Blob(d[1]) if isinstance(d, tuple) else d

    def readlines(self):
        return self.inode.data.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        return 3

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class Npz(object):
    def __init__(self, inode):
        self.inode, self.seen = inode, inode.data
        self.files = list(inode.data)

    def __getitem__(self, k):
        if self.inode.data is not self.seen:
            raise OSError('the archive was overwritten while in use')
        return copy.copy(self.seen[k])

    def __contains__(self, k):
        return k in self.files

    def __iter__(self):
        return iter(self.files)

    def __len__(self):
        return len(self.files)

    def keys(self):
        return list(self.files)

    def items(self):
        return [(k, self[k]) for k in self.files]

    def values(self):
        return [self[k] for k in self.files]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Counter:
    def arm(self, n, when):
        self.n, self.when, self.seen = n, when, 0

    def disarm(self):
        self.n = None

    def step(self, op):
        if self.n is None:
            return op()
        k = self.seen
        self.seen += 1
        if k == self.n and self.when == 'before':
            raise Crash
        r = op()
        if k == self.n and self.when == 'after':
            raise Crash
        return r


class ModelFS(Counter):
    def __init__(self, ctx, np=None):
        self.ctx, self.n = ctx, None
        self.names = {}

    # -- what the code sees
    def exists(self, name):
        return str(name) in self.names

    def rename(self, a, b):
        def op():
            if a not in self.names:
                raise FileNotFoundError(a)
            self.names[b] = self.names.pop(a)
        return self.step(op)

    def remove(self, a):
        def op():
            if a not in self.names:
                raise FileNotFoundError(a)
            del self.names[a]
        return self.step(op)

    def copyfile(self, a, b, **kw):
        def op():
            if a not in self.names:
                raise FileNotFoundError(a)
            self.names[b] = Inode()
            self.names[b].data = self.names[a].data
            return b
        return self.step(op)

    def open(self, name, mode='r', *args, **kw):
        name = str(name)
        if 'w' in mode:
            def op():
                ino = self.names.setdefault(name, Inode())
                ino.data = None
                return Handle(self, ino, mode)
            return self.step(op)
        if 'r' not in mode:
            raise NotImplementedError('mode ' + mode)
        if name not in self.names:
            raise FileNotFoundError(name)
        return Handle(self, self.names[name], mode)

    def dump(self, obj, f, protocol=None, **kw):
        if 'b' not in f.mode or f.closed:
            raise TypeError("write() argument must be str, not bytes")
        f.inode.data = ('pickle', self._copy(obj))

    def pload(self, f, **kw):
        if 'b' not in f.mode or f.closed:
            raise TypeError('a bytes-like object is required')
        if f.inode.data is None:
            raise EOFError('Ran out of input')
        return self._copy(f.inode.data[1])

    def _copy(self, x):
        if isinstance(x, dict):
            return {k: self._copy(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)([self._copy(v) for v in x])
        return x.copy() if hasattr(x, 'dtype') and hasattr(x, 'copy') else x

    def savez(self, name, *args, **arrays):
        if args:
            raise NotImplementedError('positional arrays')
        if isinstance(name, Handle):
            name.inode.data = self._copy(arrays)
            return
        name = str(name)
        if not name.endswith('.npz'):
            name += '.npz'
        f = self.open(name, 'wb')
        f.inode.data = self._copy(arrays)

    def load(self, name, **kw):
        if isinstance(name, Handle):
            return Npz(name.inode)
        name = str(name)
        if name not in self.names:
            raise FileNotFoundError(name)
        if self.names[name].data is None:
            raise EOFError('No data left in file')
        return Npz(self.names[name])

    # -- what the harness sees
    def world(self, **stubs):
        p = types.ModuleType('os.path')
        for k in ('join', 'splitext', 'basename', 'dirname', 'split', 'sep'):
            setattr(p, k, getattr(os.path, k))
        p.exists = p.isfile = p.lexists = self.exists
        o = types.ModuleType('os')
        o.path, o.rename, o.replace, o.remove, o.unlink = p, self.rename, self.rename, self.remove, self.remove
        o.R_OK, o.W_OK, o.F_OK, o.sep = os.R_OK, os.W_OK, os.F_OK, os.sep
        o.fsync = lambda fd: None
        o.fspath = os.fspath
        o.access = lambda name, mode: self.exists(name)
        o.__path__ = []
        pk = types.ModuleType('pickle')
        pk.dump, pk.load, pk.HIGHEST_PROTOCOL = self.dump, self.pload, pickle.HIGHEST_PROTOCOL
        pk.dumps = lambda obj, protocol=None, **kw: Blob(self._copy(obj))
        pk.loads = lambda b, **kw: self._copy(b.payload)
        pk.PickleError, pk.UnpicklingError = pickle.PickleError, pickle.UnpicklingError
        sh = types.ModuleType('shutil')
        sh.move, sh.copyfile, sh.copy, sh.copy2 = self.rename, self.copyfile, self.copyfile, self.copyfile
        st = {'os': o, 'os.path': p, 'pickle': pk, 'cPickle': pk, 'shutil': sh}
        st.update(stubs)
        w = self.ctx.world(stubs=st, builtin_over={'open': self.open})
        w.np.savez, w.np.load = self.savez, self.load
        return w

    def put(self, name, data):
        self.names[name] = Inode()
        self.names[name].data = ('pickle', self._copy(data)) if not name.rstrip('%').endswith('.npz') else self._copy(data)

    def text(self, name, s):
        self.names[name] = Inode()
        self.names[name].data = s

    def get(self, name):
        """None: no such file; 'incomplete'; otherwise the contents"""
        if name not in self.names:
            return None
        d = self.names[name].data
        if d is None:
            return 'incomplete'
        return d[1] if isinstance(d, tuple) else d

    def reader(self, name):
        return self.open(name, 'r')

    def listing(self):
        return sorted(self.names)

    def done(self):
        pass


class ScratchFS(Counter):
    """the real file system, in a scratch directory"""
    def __init__(self, ctx):
        self.ctx, self.n = ctx, None
        self.dir = tempfile.mkdtemp(prefix='verif_fs_')
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        self.saved = [(os, k, getattr(os, k)) for k in ('rename', 'replace', 'remove', 'unlink')]
        for m, k, f in self.saved:
            setattr(m, k, (lambda f: lambda *a, **kw: self.step(lambda: f(*a, **kw)))(f))
        import builtins
        ro = builtins.open
        self.ropen = ro
        def op(name, mode='r', *a, **kw):
            if 'w' in mode:
                return self.step(lambda: ro(name, mode, *a, **kw))
            return ro(name, mode, *a, **kw)
        for m in (builtins, io):
            self.saved.append((m, 'open', ro))
            m.open = op

    def world(self, **stubs):
        return self.ctx.world(stubs=stubs)

    def put(self, name, data):
        import numpy
        with self.ropen(name, 'wb') as f:
            if name.rstrip('%').endswith('.npz'):
                numpy.savez(f, **data)
            else:
                pickle.dump(data, f)

    def text(self, name, s):
        with self.ropen(name, 'w') as f:
            f.write(s)

    def get(self, name):
        import numpy
        if not os.path.exists(name):
            return None
        if os.path.getsize(name) == 0:
            return 'incomplete'
        try:
            with self.ropen(name, 'rb') as f:
                if name.rstrip('%').endswith('.npz'):
                    with numpy.load(f) as z:
                        return {k: z[k] for k in z.files}
                if name.rstrip('%').endswith('.txt'):
                    return f.read().decode()
                return pickle.load(f)
        except Exception:
            return 'incomplete'

    def reader(self, name):
        return self.ropen(name)

    def listing(self):
        return sorted(os.listdir(self.dir))

    def done(self):
        for m, k, f in self.saved:
            setattr(m, k, f)
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


def fs(ctx):
    return ModelFS(ctx) if getattr(ctx, 'symbolic', False) else ScratchFS(ctx)
