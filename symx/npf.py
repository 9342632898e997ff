"""Facades for numpy, scipy and math: array creation yields object arrays, elementwise functions accept
SymReal.  Everything structural (indexing, broadcasting, reductions, sorting) is real numpy on object arrays."""
import math, types, builtins
import numpy as np
from . import core
from .core import SymReal, SymBool, mk, is_num, Unsupported, SArr, sarr

_isreal = lambda x: type.__instancecheck__(SymReal, x)

FLOATS = (float, np.float64, np.floating, 'float', 'd', 'f8', 'float64', np.double, np.float32, 'f', 'f4', 'float32')


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt is SymReal or dt is FloatType:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


class _FT(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, np.floating)) or _isreal(x)
    def __call__(cls, x=0.0):
        return core.to_float(x)


class FloatType(metaclass=_FT):
    """stands for numpy.float64 and its aliases"""


def contains_sym(x):
    if _isreal(x) or isinstance(x, SymBool):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(contains_sym(y) for y in x)
    return False


def has_symbolic(x):
    """does x contain a truly symbolic value?"""
    if _isreal(x):
        return isinstance(x.v, core.z3.ExprRef)
    if isinstance(x, SymBool):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_symbolic(y) for y in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_symbolic(y) for y in x)
    return False


def to_obj(a, copy=False):
    """float (or object) array -> object array; int/bool/str arrays unchanged"""
    if a.dtype == object:
        return a.copy() if copy else a
    return a.astype(object)


def _obj_from(x, copy=True, order=None):
    if isinstance(x, np.ndarray):
        return sarr(x.astype(object, copy=copy) if x.dtype != object else (x.copy() if copy else x))
    if _isreal(x) or isinstance(x, SymBool):
        a = np.empty((), object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple, range)):
        xs = [(_obj_from(y) if isinstance(y, (list, tuple, np.ndarray, range)) else y) for y in x]
        if not xs:
            return sarr(np.array([], object))
        shapes = {getattr(y, 'shape', ()) for y in xs}
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
        sh = shapes.pop()
        a = np.empty((len(xs),) + sh, object)
        for i, y in enumerate(xs):
            a[i] = y if sh else (y.item() if isinstance(y, np.ndarray) else y)
        return sarr(a)
    return sarr(np.array(x, dtype=object))


def _normal(a):
    """plain numpy result (concrete) -> representation used in the symbolic world"""
    if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
        return sarr(a.astype(object))
    if isinstance(a, np.floating):
        return float(a)
    return a


def array(x, dtype=None, copy=True, ndmin=0, order=None, **kw):
    if isinstance(x, (map, zip, filter, types.GeneratorType)):
        x = list(x)
    if dtype is not None and is_float_dtype(dtype):
        a = _obj_from(x, copy)
        if a.dtype == object and a.size:
            f = a.reshape(-1)
            for i in range(f.size):
                if isinstance(f[i], (int, np.integer, bool, np.bool_, np.floating, str)):
                    f[i] = float(f[i])
            a = f.reshape(a.shape)
    elif dtype is not None:
        if contains_sym(x) and has_symbolic(x) and np.dtype(dtype).kind in 'iu':
            o = _obj_from(x)
            a = np.array([int(y) for y in o.flat], dtype).reshape(o.shape)
        else:
            a = np.array(x, dtype=dtype, copy=copy)
    else:
        if contains_sym(x):
            a = _obj_from(x, copy)
        else:
            a = np.array(x, copy=copy)
            if a.dtype.kind == 'f':
                a = a.astype(object)
    while a.ndim < ndmin:
        a = a[np.newaxis]
    return sarr(a)


def asarray(x, dtype=None, order=None, **kw):
    return array(x, dtype, copy=False)


def _creator(fill):
    def f(shape, dtype=None, order=None, **kw):
        if dtype is None or is_float_dtype(dtype):
            if isinstance(shape, float):
                raise TypeError("'float' object cannot be interpreted as an integer")
            a = np.empty(shape, object)
            a.fill(fill)
            return sarr(a)
        return np.full(shape, fill, dtype)
    return f

zeros = _creator(0.0)
ones = _creator(1.0)
_NaNFill = float('nan')
empty = _creator(_NaNFill)

def full(shape, fill_value, dtype=None, **kw):
    if contains_sym(fill_value) or isinstance(fill_value, float) or is_float_dtype(dtype):
        a = np.empty(shape, object)
        a.fill(fill_value)
        return sarr(a)
    return np.full(shape, fill_value, dtype)

def _like(fill):
    def f(a, dtype=None, **kw):
        a = asarray(a)
        if dtype is None and a.dtype != object:
            return np.full(a.shape, fill, a.dtype)
        return _creator(fill)(a.shape, dtype)
    return f

zeros_like, ones_like, empty_like = _like(0.0), _like(1.0), _like(_NaNFill)

def full_like(a, v, dtype=None, **kw):
    a = asarray(a)
    if dtype is None and a.dtype != object:
        return np.full(a.shape, v, a.dtype)
    return full(a.shape, v, dtype)

def identity(n, dtype=None):
    a = zeros((n, n))
    for i in range(n):
        a[i, i] = 1.0
    return a

def eye(n, m=None, k=0, dtype=None, **kw):
    return _normal(np.eye(n, m, k))

def arange(*args, dtype=None, **kw):
    if any(has_symbolic(a) for a in args):
        if len(args) == 1:
            lo, hi, st = 0, args[0], 1
        else:
            lo, hi = args[0], args[1]
            st = args[2] if len(args) > 2 else 1
        n = max(0, int(-core.sym_floor(-((hi - lo) / st))))
        return _obj_from([lo + i * st for i in range(n)])
    a = np.arange(*[float(x) if _isreal(x) else x for x in args])
    return array(a, dtype) if dtype is not None else _normal(a)

def linspace(lo, hi, num=50, endpoint=True, retstep=False, **kw):
    num = int(num)
    div = (num - 1) if endpoint else num
    step = (hi - lo) / float(div) if div else math.nan
    vals = [lo + i * step if i else lo + 0.0 for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = hi + 0.0
    a = _obj_from(vals)
    return (a, step) if retstep else a

def logspace(lo, hi, num=50, endpoint=True, base=10.0, **kw):
    return _elem(lambda x: core.sym_pow(base, x) if not isinstance(x, float) else base ** x)(linspace(lo, hi, num, endpoint))


def _elem(f):
    def g(x, *rest, **kw):
        out = kw.pop('out', None)
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        if isinstance(x, np.ndarray):
            r = np.empty(x.shape, object)
            rf, xf = r.reshape(-1), x.reshape(-1)
            for i in range(xf.size):
                v = xf[i]
                if isinstance(v, np.generic):
                    v = v.item()
                rf[i] = f(v)
            r = rf.reshape(x.shape)
            if out is not None:
                out[...] = r
                return out
            return sarr(r) if r.ndim else r.item()
        return f(x)
    return g


def _c1(symf, cf):
    def f(x):
        if has_symbolic(x):
            return symf(x)
        if _isreal(x):
            x = x.v
        return cf(x)
    return f


def _np1(f):
    """concrete numpy scalar function (nan instead of an exception); math's where there is one, so that the
    constants of the code and of the specification agree to the last digit"""
    mf = getattr(math, f.__name__, None)
    def g(x):
        if mf is not None:
            try:
                return mf(float(x))
            except (ValueError, OverflowError):
                pass
        with np.errstate(all='ignore'):
            return float(f(float(x)))
    return g


def _sign(x):
    return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)


def _boolout(f):
    g = _elem(f)
    def h(x, *a, **k):
        r = g(x)
        return r.astype(bool) if isinstance(r, np.ndarray) else r
    return h


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = np.broadcast_arrays(asarray(a), asarray(b))
    r = np.array([bool(abs(x - y) <= atol + rtol * abs(y)) for x, y in zip(a.flat, b.flat)]).reshape(a.shape)
    return r if r.ndim else bool(r)

def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol)))

def isscalar(x):
    return True if _isreal(x) else np.isscalar(x)

def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = asarray(xp), asarray(fp)
    def one(t):
        if t <= xp[0]:
            return fp[0] if t == xp[0] or left is None else left
        if t >= xp[-1]:
            return fp[-1] if t == xp[-1] or right is None else right
        for i in range(len(xp) - 1):
            if t < xp[i + 1]:
                return fp[i] + (fp[i + 1] - fp[i]) * (t - xp[i]) / (xp[i + 1] - xp[i])
    return _elem(one)(x)

def _logaddexp(a, b):
    f = lambda x, y: core.sym_log(core.sym_exp(x) + core.sym_exp(y))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(asarray(a), asarray(b))
        return _obj_from([f(x, y) for x, y in zip(a.flat, b.flat)]).reshape(a.shape)
    return f(a, b)


def vectorize(f, otypes=None, **kw):
    def g(*args):
        arrs = np.broadcast_arrays(*[asarray(a) for a in args])
        if arrs[0].ndim == 0:
            return f(*args)
        r = [f(*xs) for xs in zip(*[a.flat for a in arrs])]
        return _obj_from(r).reshape(arrs[0].shape)
    return g


def sort(a, axis=-1, **k):
    r = array(a)
    r.sort(axis=axis)
    return r

def _power(a, b):
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    if isinstance(b, (list, tuple)):
        b = asarray(b)
    return a ** b

def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if x is None:
        d = dx
    else:
        x = asarray(x)
        d = x[1:] - x[:-1]
    return (d * (y[1:] + y[:-1]) / 2.0).sum()


def _det(a):
    a = asarray(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    return sum((-1) ** j * a[0, j] * _det(np.delete(np.delete(a, 0, 0), j, 1)) for j in range(n))


def _inv(a):
    a = asarray(a)
    n = a.shape[0]
    d = _det(a)
    if d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    r = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            r[j, i] = ((-1) ** (i + j) * _det(np.delete(np.delete(a, i, 0), j, 1)) if n > 1 else 1.0) / d
    return r


def _wrapped(f):
    def g(*a, **k):
        r = f(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            r = r.astype(object)
        if isinstance(r, np.ndarray) and r.dtype == object and r.ndim == 0:
            return r.item()
        return float(r) if isinstance(r, np.floating) else sarr(r)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def _where(c, *ab):
    c = core.as_bool(asarray(c)) if isinstance(c, (list, tuple, np.ndarray)) else bool(c)
    if not ab:
        return np.where(c)
    return _wrapped(np.where)(c, *[asarray(x) if not isinstance(x, np.ndarray) else x for x in ab])


def build_numpy():
    m = types.ModuleType('numpy')
    m.__dict__.update({k: v for k, v in np.__dict__.items() if not k.startswith('__')})
    for k in getattr(np, '__all__', []):
        if not hasattr(m, k):
            setattr(m, k, getattr(np, k))
    m.__all__ = [k for k in np.__all__ if hasattr(m, k)] if hasattr(np, '__all__') else None
    d = dict(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfarray=lambda x, dtype=None: array(x, float),
             zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
             full_like=full_like, identity=identity, eye=eye, arange=arange, linspace=linspace, logspace=logspace,
             exp=_elem(_c1(core.sym_exp, _np1(np.exp))), log=_elem(_c1(core.sym_log, _np1(np.log))),
             sqrt=_elem(_c1(core.sym_sqrt, _np1(np.sqrt))), floor=_elem(_c1(core.sym_floor, _np1(np.floor))),
             ceil=_elem(_c1(lambda x: -core.sym_floor(-x), _np1(np.ceil))),
             sin=_elem(_c1(lambda x: x.sin(), _np1(np.sin))), cos=_elem(_c1(lambda x: x.cos(), _np1(np.cos))),
             log10=_elem(_c1(lambda x: x.log10(), _np1(np.log10))), log1p=_elem(_c1(lambda x: x.log1p(), _np1(np.log1p))),
             expm1=_elem(_c1(lambda x: x.expm1(), _np1(np.expm1))),
             square=lambda x, **k: asarray(x) * asarray(x) if isinstance(x, (list, tuple)) else x * x,
             abs=_elem(abs), absolute=_elem(abs), fabs=_elem(abs), sign=_elem(_sign),
             rint=_elem(_c1(core.sym_round, _np1(np.rint))),
             isnan=_boolout(lambda x: False if has_symbolic(x) else math.isnan(x)),
             isinf=_boolout(lambda x: False if has_symbolic(x) else math.isinf(x)),
             isfinite=_boolout(lambda x: True if has_symbolic(x) else math.isfinite(x)),
             isclose=isclose, allclose=allclose, isscalar=isscalar, interp=interp, logaddexp=_logaddexp,
             vectorize=vectorize, sort=sort, power=_power, trapz=trapz, float64=FloatType, float_=FloatType,
             double=FloatType, longdouble=FloatType)
    m.__dict__.update(d)
    for k in ('concatenate', 'hstack', 'vstack', 'column_stack', 'stack', 'outer', 'dot', 'meshgrid', 'cumsum', 'diff', 'append',
              'insert', 'delete', 'repeat', 'tile', 'ravel', 'transpose', 'inner', 'einsum', 'prod', 'sum', 'mean', 'average',
              'maximum', 'minimum', 'clip', 'cumprod', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'flip', 'roll'):
        f = getattr(np, k)
        if k != 'meshgrid' and not isinstance(f, np.ufunc):
            setattr(m, k, _wrapped(f))
    m.where = _where
    la = types.ModuleType('numpy.linalg')
    la.__dict__.update({k: v for k, v in np.linalg.__dict__.items() if not k.startswith('__')})
    la.det, la.inv = _det, _inv
    m.linalg = la
    m.__name__ = 'numpy'
    return m


def build_math():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith('__')})
    d = dict(exp=_c1(core.sym_exp, math.exp), sqrt=_c1(core.sym_sqrt, math.sqrt),
             log=lambda x, *b: core.sym_log(x, *b) if has_symbolic(x) else math.log(x if not _isreal(x) else x.v, *b),
             log10=_c1(lambda x: x.log10(), math.log10), log1p=_c1(lambda x: x.log1p(), math.log1p),
             expm1=_c1(lambda x: x.expm1(), math.expm1),
             floor=lambda x: int(core.sym_floor(x)), ceil=lambda x: int(-core.sym_floor(-x)),
             fabs=abs, pow=lambda a, b: a ** b, isnan=lambda x: False if has_symbolic(x) else math.isnan(x),
             isinf=lambda x: False if has_symbolic(x) else math.isinf(x),
             isfinite=lambda x: True if has_symbolic(x) else math.isfinite(x),
             sin=_c1(lambda x: x.sin(), math.sin), cos=_c1(lambda x: x.cos(), math.cos),
             fsum=lambda xs: builtins.sum(xs), trunc=lambda x: int(x),
             hypot=lambda a, b: core.sym_sqrt(a * a + b * b) if has_symbolic([a, b]) else math.hypot(a, b),
             isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not has_symbolic([a, b])
             else bool(abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)))
    m.__dict__.update(d)
    return m
