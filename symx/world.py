"""Loads the modules of /repo/package/inference from their current source into a symbolic world:
every module is compiled from source and executed with substituted builtins (float -> SymReal, print -> no-op)
and an import function that hands out facades (numpy, scipy, math), stubs, and Fortran modules interpreted from the
compiler's GIMPLE dump.  A fresh world is made for every path, so no state leaks between paths."""
import builtins, os, sys, types, importlib
import numpy as np
from . import core, npf

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'package')

_code = {}
SOURCES_USED = set()


def get_code(path):
    if path not in _code:
        with open(path) as f:
            _code[path] = compile(f.read(), path, 'exec', dont_inherit=True)
    return _code[path]


class AnyStub(types.ModuleType):
    """absorbs plotting calls"""
    def __init__(self, name='stub'):
        super().__init__(name)
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return AnyStub(k)
    def __call__(self, *a, **k):
        return AnyStub('call')
    def __iter__(self):
        return iter(())


class _Norm:
    """scipy.stats.norm(loc, scale): rvs come from the harness' nondeterministic source"""
    def __init__(self, world, loc=0, scale=1):
        self.w, self.loc, self.scale = world, loc, scale
    def __call__(self, loc=0, scale=1):
        return _Norm(self.w, loc, scale)
    def rvs(self, size=None, **kw):
        if size is None:
            return self.loc + self.scale * self.w.rand_normal()
        if isinstance(size, tuple):
            n = int(np.prod(size))
            return npf._obj_from([self.loc + self.scale * self.w.rand_normal() for _ in range(n)]).reshape(size)
        return npf._obj_from([self.loc + self.scale * self.w.rand_normal() for _ in range(int(size))])
    def __getattr__(self, k):
        import scipy.stats
        return getattr(scipy.stats.norm(0, 1), k)


class World:
    def __init__(self, stubs=None, fortran=True, builtin_over=None, normal_source=None, trace=None, patch=None):
        self.mods = {}
        self.patch = patch or {}
        self.stubs = dict(stubs or {})
        self.fortran = fortran
        self.normal_source = normal_source
        self.np = npf.build_numpy()
        self.np.fromfunction = lambda f, shape, **kw: npf._normal(np.fromfunction(f, shape, **kw))
        self.math = npf.build_math()
        b = dict(builtins.__dict__)
        b['float'] = core.SymReal
        b['print'] = lambda *a, **k: None
        b['__import__'] = self._import
        b['type'] = self._make_type()
        if builtin_over:
            b.update(builtin_over)
        self.builtins = b
        self.ext = {
            'numpy': self.np, 'numpy.linalg': self.np.linalg, 'math': self.math,
            'pylab': AnyStub('pylab'), 'matplotlib': AnyStub('matplotlib'), 'matplotlib.pyplot': AnyStub('pyplot'),
        }
        self.ext['matplotlib'].pyplot = self.ext['matplotlib.pyplot']
        self.ext['scipy'] = self._scipy()
        if 'numpy.random' in self.stubs:
            self.np.random = self.stubs['numpy.random']

    @staticmethod
    def _make_type():
        return type

    def rand_normal(self):
        if self.normal_source is None:
            raise core.Unsupported('random numbers')
        return self.normal_source()

    def _scipy(self):
        m = types.ModuleType('scipy')
        for k, v in self.np.__dict__.items():
            if not k.startswith('__'):
                m.__dict__[k] = v
        st = types.ModuleType('scipy.stats')
        st.norm = _Norm(self)
        st.__getattr__ = lambda k: getattr(importlib.import_module('scipy.stats'), k)
        sp = types.ModuleType('scipy.special')
        sp.__getattr__ = lambda k: getattr(importlib.import_module('scipy.special'), k)
        op = types.ModuleType('scipy.optimize')
        def _noopt(*a, **k):
            raise core.Unsupported('scipy.optimize')
        op.__getattr__ = lambda k: _noopt
        m.stats, m.special, m.optimize = st, sp, op
        m.linalg = self.np.linalg
        self.ext.update({'scipy.stats': st, 'scipy.special': sp, 'scipy.optimize': op, 'scipy.linalg': m.linalg})
        for k in ('stats', 'special', 'optimize'):
            if 'scipy.' + k in self.stubs:
                setattr(m, k, self.stubs['scipy.' + k])
        m.__path__ = []
        return m

    # -- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            full = base + ('.' + name if name else '')
        else:
            full = name
        top = full.split('.')[0]
        if top == 'inference' or full in self.mods:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(full + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(name.split('.')[0]) if not level else self.load(full)
        if full in self.stubs:
            m = self.stubs[full]
        elif full in self.ext:
            m = self.ext[full]
        elif top in ('numpy', 'scipy', 'matplotlib') and top in self.ext:
            m = importlib.import_module(full)
            obj = self.ext[top]
            cur = obj
            for p in full.split('.')[1:]:
                if not hasattr(cur, p):
                    setattr(cur, p, m)
                cur = getattr(cur, p)
            m = cur
        else:
            m = None
        if m is not None:
            if fromlist or '.' not in full:
                if fromlist:
                    for f in fromlist:
                        sub = full + '.' + f
                        if sub in self.stubs and f != '*':
                            setattr(m, f, self.stubs[sub])
                return m
            t = self.stubs.get(top) or self.ext.get(top)
            if t is None:
                t = builtins.__import__(top)
                # expose the stubbed submodule through a copy of the package
                c = types.ModuleType(top)
                c.__dict__.update(t.__dict__)
                setattr(c, full.split('.')[1], m)
                return c
            return t
        return builtins.__import__(full, globals, locals, fromlist, 0)

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        parent = None
        if '.' in full:
            parent = self.load(full.rpartition('.')[0])
            if full in self.mods:
                return self.mods[full]
        if full in self.stubs:
            m = self.stubs[full]
            self.mods[full] = m
            if parent:
                setattr(parent, full.rpartition('.')[2], m)
            return m
        base = os.path.join(PKG, *full.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            path, ispkg = os.path.join(base, '__init__.py'), True
        elif os.path.exists(base + '.py'):
            path, ispkg = base + '.py', False
        else:
            m = None
            if self.fortran:
                from . import fort
                m = fort.load_extension(full, self)
            if m is None:
                raise ModuleNotFoundError('No module named %r' % full)
            self.mods[full] = m
            if parent:
                setattr(parent, full.rpartition('.')[2], m)
            return m
        m = types.ModuleType(full)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__package__ = full if ispkg else full.rpartition('.')[0]
        if ispkg:
            m.__path__ = [base]
        self.mods[full] = m
        SOURCES_USED.add(os.path.relpath(path, REPO))
        try:
            exec(get_code(path), m.__dict__)
        except BaseException:
            del self.mods[full]
            raise
        for k, v in self.patch.get(full, {}).items():
            setattr(m, k, v)
        if parent:
            setattr(parent, full.rpartition('.')[2], m)
        return m
