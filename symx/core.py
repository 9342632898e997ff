"""Symbolic values and path exploration.

SymReal / SymInt-free design: the code under test is executed with SymReal objects in
place of floats.  A SymReal holds a z3 Real term.  Branching on a comparison (SymBool)
asks the solver which outcomes are feasible and forks by re-execution (DFS over decision
prefixes).  Floats are interpreted as real numbers (float literals by their exact binary value), except in
"rounding" mode where every arithmetic result carries an arbitrary relative error of at
most 2**-53 (an over-approximation of IEEE double arithmetic without under/overflow).

exp/log: log(t) is an uninterpreted atom LN(t) (t > 0 is established or forked on);
exp(sum c_i*m_i) is rewritten to products of powers of the images of the atoms, so that
exp/log code turns into algebraic code; comparisons of log-domain terms are made on their exp images.
"""
import math, time, sys
from fractions import Fraction
import numpy as np
import z3
z3.z3.Z3_DEBUG = False      # (argument type checks of the bindings: slow)

z3.set_param('smt.random_seed', 1)

class PathAbort(BaseException):
    """the current path is infeasible or was cut"""

class Unsupported(BaseException):
    """the engine cannot go on with this path"""

class DomainError(ArithmeticError):
    pass

ENG = None          # the active engine (one per process)

def eng():
    return ENG

# ---------------------------------------------------------------- numbers -> z3

def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) or type(x).__module__ == 'numpy' and hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0 and x.dtype.kind in 'iuf'

def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(float(x))

def zconst(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    f = to_frac(x)
    return z3.Q(f.numerator, f.denominator)

_R = z3.RealSort()
SINF = z3.Function('SINF', _R, _R)
COSF = z3.Function('COSF', _R, _R)

def zval(v):
    """python Fraction of a z3 rational numeral"""
    return Fraction(v.numerator_as_long(), v.denominator_as_long())

def model_val(model, term):
    r = model.eval(term, model_completion=True)
    r = z3.simplify(r)
    if z3.is_rational_value(r):
        return float(zval(r))
    if z3.is_int_value(r):
        return float(r.as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(25)
        return float(zval(a))
    return None


class _FloatMeta(type):
    def __instancecheck__(cls, inst):
        if cls is SymReal:
            return isinstance(inst, float) or type.__instancecheck__(cls, inst)
        return type.__instancecheck__(cls, inst)

    def __subclasscheck__(cls, sub):
        if cls is SymReal and sub is float:
            return True
        return type.__subclasscheck__(cls, sub)


def _coerce(o):
    """z3 term (or python number) of an operand; None if it is not a number"""
    if type.__instancecheck__(SymReal, o):
        return o.v
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, SymBool):
        return z3.If(o.b, z3.RealVal(1), z3.RealVal(0))
    if isinstance(o, (int, float, Fraction)):
        return o
    if is_num(o):
        return int(o) if o.dtype.kind in 'iu' else float(o)
    if type(o).__module__ == 'numpy' and getattr(o, 'dtype', None) is not None and o.dtype.kind == 'b' and getattr(o, 'ndim', 1) == 0:
        return int(o)
    if type(o).__module__ == 'numpy' and getattr(o, 'ndim', None) == 0 and getattr(o, 'dtype', None) == object:
        return _coerce(o.item())
    return None


def _bad(x):
    return isinstance(x, float) and not math.isfinite(x)


def mk(v):
    """a result value: python number if concrete, else SymReal"""
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, Fraction):
        return float(v)
    if z3.is_rational_value(v):
        f = zval(v)
        return float(f) if float(f) == f else SymReal._make(v)
    return SymReal._make(v)


def _z(v):
    return v if isinstance(v, z3.ExprRef) else zconst(v)


def _rnd(v):
    """rounding mode: attach an arbitrary relative error to a freshly computed term"""
    e = ENG
    if e is None or not e.rounding or not isinstance(v, z3.ExprRef):
        return v
    if z3.is_rational_value(v):
        return v
    return e.round_term(v)


class SymReal(metaclass=_FloatMeta):
    """Stands for `float` in the code under test."""
    __array_priority__ = 1000
    v = None

    def __new__(cls, x=0.0):
        if cls is SymReal:
            return to_float(x)
        self = object.__new__(cls)
        y = to_float(x)
        self.v = y.v if type.__instancecheck__(SymReal, y) else y
        return self

    @staticmethod
    def _make(v):
        s = object.__new__(SymReal)
        s.v = v
        return s

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        a, b = self.v, _coerce(o)
        if b is None:
            if isinstance(o, np.ndarray):
                return _arr_elem(o, lambda y: self._bin(y, f, swap))
            return NotImplemented
        if swap:
            a, b = b, a
        if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
            return mk(f(a, b))
        if _bad(a) or _bad(b):
            return _inf_arith(f, a, b)
        if ENG.abstract_nl and (f is _mul or f is _div):
            za, zb = _z(a), _z(b)
            if not z3.is_rational_value(zb) and (f is _div or not z3.is_rational_value(za)):
                return mk(_rnd(ENG.nl_term(f, za, zb)))
        return mk(_rnd(f(_z(a), _z(b))))

    def __add__(self, o):
        return self._bin(o, _add)
    def __radd__(self, o):
        return self._bin(o, _add, True)
    def __sub__(self, o):
        return self._bin(o, _sub)
    def __rsub__(self, o):
        return self._bin(o, _sub, True)
    def __mul__(self, o):
        return self._bin(o, _mul)
    def __rmul__(self, o):
        return self._bin(o, _mul, True)
    def __truediv__(self, o):
        return self._bin(o, _div)
    def __rtruediv__(self, o):
        return self._bin(o, _div, True)
    def __neg__(self):
        return mk(-self.v)
    def __pos__(self):
        return mk(self.v)
    def __abs__(self):
        if not isinstance(self.v, z3.ExprRef):
            return abs(self.v)
        if ENG.fork_minmax:
            return mk(self.v) if self >= 0 else mk(-self.v)
        return mk(z3.If(self.v >= 0, self.v, -self.v))
    def __pow__(self, k, mod=None):
        return sym_pow(self, k)
    def __rpow__(self, base):
        return sym_pow(base, self)
    def __floordiv__(self, o):
        return sym_floor(self / o)
    def __rfloordiv__(self, o):
        return sym_floor(o / self)
    def __mod__(self, o):
        return self - sym_floor(self / o) * o
    def __rmod__(self, o):
        return o - sym_floor(o / self) * self

    # -- comparisons
    def _cmp(self, o, op):
        b = _coerce(o)
        if b is None:
            if isinstance(o, np.ndarray):
                return _arr_elem(o, lambda y: bool(self._cmp(y, op)), bool)
            return NotImplemented
        return compare(self.v, b, op)
    def __lt__(self, o):
        return self._cmp(o, '<')
    def __le__(self, o):
        return self._cmp(o, '<=')
    def __gt__(self, o):
        return self._cmp(o, '>')
    def __ge__(self, o):
        return self._cmp(o, '>=')
    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(compare(self.v, 0, '!='))

    # -- numpy method hooks for object arrays
    def exp(self):
        return sym_exp(self)
    def log(self):
        return sym_log(self)
    def sqrt(self):
        return sym_sqrt(self)
    def floor(self):
        return sym_floor(self)
    def ceil(self):
        return -sym_floor(-self)
    def sin(self):
        return sym_uf(SINF, math.sin, self)
    def cos(self):
        return sym_uf(COSF, math.cos, self)
    def log10(self):
        return sym_log(self) / math.log(10.)
    def log1p(self):
        return sym_log(1 + self)
    def expm1(self):
        return sym_exp(self) - 1
    def square(self):
        return self * self
    def conjugate(self):
        return self
    def rint(self):
        return sym_round(self)
    def isfinite(self):
        return True
    def copy_value_(self):
        return mk(self.v)
    @property
    def real(self):
        return mk(self.v)
    @property
    def imag(self):
        return 0.0
    def is_integer(self):
        return sym_floor(self) == self
    def item(self):
        return mk(self.v)
    def as_integer_ratio(self):
        return concretize(self).as_integer_ratio()
    def __round__(self, n=None):
        if n is None:
            return int(sym_round(self))
        return float(round(concretize(self), n))
    def __floor__(self):
        return int(sym_floor(self))
    def __ceil__(self):
        return int(-sym_floor(-self))
    def __trunc__(self):
        return int(self)
    def __copy__(self):
        return self
    def __deepcopy__(self, memo):
        return self

    # -- conversions
    def __float__(self):
        if not isinstance(self.v, z3.ExprRef):
            return float(self.v)
        return concretize(self, 'float()')
    def __int__(self):
        if not isinstance(self.v, z3.ExprRef):
            return int(self.v)
        return enum_int(self)
    def __index__(self):
        if not isinstance(self.v, z3.ExprRef):
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError("'float' object cannot be interpreted as an integer")
    def __repr__(self):
        return '<sym>' if isinstance(self.v, z3.ExprRef) else repr(self.v)
    __str__ = __repr__
    def __format__(self, spec):
        return '<sym>' if isinstance(self.v, z3.ExprRef) else format(self.v, spec)


class SArr(np.ndarray):
    """an object array that stands for a float array"""
    def __array_wrap__(self, arr, context=None):
        if arr.ndim == 0:
            return arr.item() if arr.dtype == object else arr[()]
        r = np.ndarray.__array_wrap__(self, arr, context)
        return r if r.dtype == object else r.view(np.ndarray)

    def _c(name):
        g = getattr(np.ndarray, name)
        def f(self, o):
            r = g(self.view(np.ndarray), o.view(np.ndarray) if isinstance(o, SArr) else o)
            return as_bool(r)
        f.__name__ = name
        return f
    for _n in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
        locals()[_n] = _c(_n)
    del _n, _c
    __hash__ = None

    def astype(self, dtype, *a, **k):
        from . import npf
        return npf.array(self, dtype)
    def tolist(self):
        return self.view(np.ndarray).tolist()


def sarr(a):
    return a.view(SArr) if isinstance(a, np.ndarray) and a.dtype == object and a.ndim else a


def as_bool(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        out = np.empty(r.shape, bool)
        o, x = out.reshape(-1), r.reshape(-1)
        for i in range(x.size):
            o[i] = bool(x[i])
        return out
    return r


def _arr_elem(o, f, dt=object):
    out = np.empty(o.shape, dt)
    a, x = out.reshape(-1), o.reshape(-1)
    for i in range(x.size):
        y = x[i]
        a[i] = f(y.item() if isinstance(y, np.generic) else y)
    return sarr(out) if out.ndim else out.item()


def _add(a, b): return a + b
def _sub(a, b): return a - b
def _mul(a, b): return a * b
def _div(a, b):
    if isinstance(b, z3.ExprRef):
        if z3.is_rational_value(b):
            f = zval(b)
            if f == 0:
                raise ZeroDivisionError('float division by zero')
            return a * z3.Q(f.denominator, f.numerator)
        e = ENG
        if not e.known_nonzero(b):
            if bool(SymBool(cmp_term(b, z3.RealVal(0), '=='))):
                raise ZeroDivisionError('float division by zero (symbolic)')
            e.nonzero[b.get_id()] = True
        return a / b
    return a / b


def _inf_arith(f, a, b):
    """one operand is inf/nan, the other symbolic (finite)"""
    ca = a if not isinstance(a, z3.ExprRef) else None
    cb = b if not isinstance(b, z3.ExprRef) else None
    other = SymReal._make(a if ca is None else b)
    x = ca if ca is not None else cb
    if math.isnan(x):
        return x
    if f is _add:
        return x
    if f is _sub:
        return x if ca is not None else -x
    if f is _mul:
        if other > 0:
            return x
        if other < 0:
            return -x
        return math.nan
    if f is _div:
        if cb is not None:
            return 0.0
        if other > 0:
            return x
        if other < 0:
            return -x
        raise ZeroDivisionError
    raise Unsupported('inf arithmetic')


# ---------------------------------------------------------------- exp/log structure

def _has_ln(t, depth=0, seen=None):
    """does an LN/EXPF atom occur in t?"""
    if ENG is not None and not ENG.has_ln:
        return False
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ENG.ln_args:
            return True
        stack.extend(x.children())
    return False


def addends(t):
    """sum-of-monomials form: list of (Fraction coefficient, [factor terms]) and a constant"""
    t = z3.simplify(t, som=True, mul_to_power=False, arith_lhs=False)
    out, const = [], Fraction(0)
    kids = t.children() if z3.is_add(t) else [t]
    for k in kids:
        c, fs = Fraction(1), []
        stack = [k]
        while stack:
            x = stack.pop()
            if z3.is_rational_value(x):
                c *= zval(x)
            elif z3.is_mul(x):
                stack.extend(x.children())
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
                c = -c
                stack.append(x.arg(0))
            elif z3.is_div(x) and z3.is_rational_value(x.arg(1)) and zval(x.arg(1)) != 0:
                c /= zval(x.arg(1))
                stack.append(x.arg(0))
            else:
                fs.append(x)
        if not fs:
            const += c
        else:
            out.append((c, fs))
    return out, const


def nice_frac(c):
    if c.denominator <= 64:
        return c
    d = c.limit_denominator(64)
    if abs(d - c) <= abs(c) * Fraction(1, 10**14):
        return d
    return c


def exp_parts(t):
    """exp image of term t as (const float, [(positive z3 term, Fraction exponent)]), only_ln flag"""
    adds, const = addends(t)
    parts, only_ln = [], True
    for c, fs in adds:
        if len(fs) == 1 and fs[0].get_id() in ENG.ln_args:
            parts.append((ENG.ln_args[fs[0].get_id()], nice_frac(c)))
        else:
            only_ln = False
            m = fs[0]
            for f in fs[1:]:
                m = m * f
            c2 = nice_frac(c)
            if c2.denominator == 1 and abs(c2) <= 8:
                parts.append((ENG.exp_atom(m), c2))
            else:
                parts.append((ENG.exp_atom(_z(abs(c2)) * m), Fraction(1 if c2 > 0 else -1)))
    return const, parts, only_ln


def image(t):
    """z3 terms (num, den) with exp(t) = num/den, both > 0 (given the path condition)"""
    const, parts, only_ln = exp_parts(t)
    num, den = [], []
    if const != 0:
        if abs(const) < 700:
            num.append(zconst(math.exp(const)))
        elif abs(const) < 6000:
            k = int(abs(const) // 600) + 1
            f = Fraction(math.exp(abs(const) / k)).limit_denominator(10**6)**k
            (num if const > 0 else den).append(z3.RealVal(str(f)))
        else:
            raise Unsupported('exp overflow')
    for p, c in parts:
        if c.denominator != 1:
            p = ENG.root_atom(p, c.denominator)
        k = abs(c.numerator)
        (num if c > 0 else den).extend([p] * k)
    return _prod(num), _prod(den), only_ln


MAXTERMS = 4000


class _Big(Exception):
    pass


def _pmul(p, q):
    if len(p) * len(q) > MAXTERMS * 4:
        raise _Big
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for k, n in m2:
                d[k] = d.get(k, 0) + n
            m = tuple(sorted(d.items()))
            out[m] = out.get(m, 0) + c1 * c2
    out = {m: c for m, c in out.items() if c != 0}
    if len(out) > MAXTERMS:
        raise _Big
    return out


def _padd(p, q, sgn=1):
    out = dict(p)
    for m, c in q.items():
        c = out.get(m, 0) + sgn * c
        if c == 0:
            out.pop(m, None)
        else:
            out[m] = c
    return out


def _ratfun(t, memo, nl):
    """a term as a quotient of polynomials over its non-arithmetic subterms"""
    k = t.get_id()
    if k in memo:
        return memo[k]
    one = {(): Fraction(1)}
    if z3.is_rational_value(t):
        v = zval(t)
        r = ({(): v} if v != 0 else {}, one)
    elif z3.is_add(t) or z3.is_sub(t):
        r = None
        for i, c in enumerate(t.children()):
            n, d = _ratfun(c, memo, nl)
            if r is None:
                r = (n, d)
                continue
            sg = -1 if z3.is_sub(t) else 1
            if d == r[1]:
                r = (_padd(r[0], n, sg), d)
            else:
                r = (_padd(_pmul(r[0], d), _pmul(n, r[1]), sg), _pmul(r[1], d))
    elif z3.is_mul(t):
        r = (one, one)
        for c in t.children():
            n, d = _ratfun(c, memo, nl)
            r = (_pmul(r[0], n), _pmul(r[1], d))
    elif z3.is_div(t):
        (n, d), (n2, d2) = _ratfun(t.arg(0), memo, nl), _ratfun(t.arg(1), memo, nl)
        if not n2:
            raise _Big
        r = (_pmul(n, d2), _pmul(d, n2))
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        n, d = _ratfun(t.arg(0), memo, nl)
        r = ({m: -c for m, c in n.items()}, d)
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and zval(t.arg(1)).denominator == 1 and 0 < zval(t.arg(1)) <= 8:
        n, d = _ratfun(t.arg(0), memo, nl)
        r = (one, one)
        for _ in range(int(zval(t.arg(1)))):
            r = (_pmul(r[0], n), _pmul(r[1], d))
    elif k in nl:
        isdiv, a, b = nl[k]
        (n, d), (n2, d2) = _ratfun(a, memo, nl), _ratfun(b, memo, nl)
        if isdiv:
            n2, d2 = d2, n2
            if not d2:
                raise _Big
        r = (_pmul(n, n2), _pmul(d, d2))
    else:
        _TERM[k] = t
        r = ({((k, 1),): Fraction(1)}, one)
    memo[k] = r
    return r


_TERM = {}


def cancel(num, den):
    """num/den (both positive) without common exponential factors: (num, den, no exponential is left)"""
    try:
        n, d = _ratfun(num / den, {}, ENG.nl_def)
    except (_Big, RecursionError):
        return num, den, False
    n, d = _common(n, d)
    def build(p):
        return _sum([_prod([zconst(c)] + [_TERM[k] for k, e in m for _ in range(e)]) for m, c in p.items()])
    left = any(k in ENG.exp_args for p in (n, d) for m in p for k, e in m)
    return build(n), build(d), not left


def _sum(l):
    return z3.Sum(*l) if len(l) > 1 else (l[0] if l else z3.RealVal(0))


def _drop_roundoff(p):
    """without the terms that are rounding residues of cancelled ones (constants are rounded floats throughout)"""
    top = max(map(abs, p.values()), default=0)
    return {m: c for m, c in p.items() if abs(c) > top * Fraction(1, 10**13)}


def _common(n, d):
    ms = [dict(m) for m in list(n) + list(d)]
    if not ms:
        return n, d
    com = {k: min(m.get(k, 0) for m in ms) for k in ms[0]}
    com = {k: e for k, e in com.items() if e > 0}
    if com:
        cut = lambda p: {tuple(sorted((k, e - com.get(k, 0)) for k, e in m if e > com.get(k, 0))): c for m, c in p.items()}
        n, d = cut(n), cut(d)
    return n, d


def identical(za, zb):
    """za and zb are the same rational function (divisors are nonzero on the path: _div forks on it)"""
    try:
        keep = za - zb
        n, d = _ratfun(keep, {}, ENG.nl_def)
        if not n:
            return True
        if ENG.rounding or (len(d) == 1 and all(sum(k for _, k in m) <= 1 for m in n)):
            return False          # linear: the solver decides
        # equalities between inputs which the path implies (ties), then again
        vs = [v for v in free_vars(keep, ENG.nl_def) if not z3.is_int(v)]
        if len(vs) > 10 or any(v.decl().kind() != z3.Z3_OP_UNINTERPRETED for v in vs):
            return False
        sub, rest = [], [z3.RealVal(0), z3.RealVal(1)]
        for v in vs:
            for u in rest:
                if ENG.feasible([v < u]) is False and ENG.feasible([v > u]) is False:
                    sub.append((v, u))
                    break
            else:
                rest.append(v)
        if not sub or ENG.nl_def:
            return False
        keep2 = z3.substitute(keep, *sub)
        n, d = _ratfun(keep2, {}, {})
    except (_Big, RecursionError):
        return False
    return not n


def _ivl(k, depth=0):
    """range of an input or exponential, from the declared ranges of the inputs; None if not known"""
    if k in ENG.ranges:
        return ENG.ranges[k]
    m = ENG.exp_args.get(k)
    if depth > 4:
        return None
    if m is None and k in ENG.ln_args:
        n, d = _ratfun(ENG.ln_args[k], {}, ENG.nl_def)
        a, b = _pivl(n, depth + 1), _pivl(d, depth + 1)
        if a is None or b is None or b[0] <= 0 or a[0] <= 0:
            return None
        lo, hi = math.log(a[0] / b[1]), math.log(a[1] / b[0])
        return Fraction(lo - 1e-9), Fraction(hi + 1e-9)
    if m is None:
        return None
    n, d = _ratfun(m, {}, ENG.nl_def)
    a, b = _pivl(n, depth + 1), _pivl(d, depth + 1)
    if a is None or b is None or b[0] <= 0:
        return None
    lo, hi = min(a[0] / b[0], a[0] / b[1]), max(a[1] / b[0], a[1] / b[1])
    if lo < -300 or hi > 300:
        return None
    return Fraction(math.exp(lo)) * Fraction(999, 1000), Fraction(math.exp(hi)) * Fraction(1001, 1000)


def _pivl(p, depth=0):
    """range of a polynomial (interval arithmetic)"""
    lo = hi = Fraction(0)
    for m, c in p.items():
        a = b = Fraction(1)
        for k, n in m:
            r = _ivl(k, depth)
            if r is None:
                return None
            u, v = r
            if u < 0:
                w = max(-u, v)**n
                u, v = (-w, w) if n % 2 else (Fraction(0), w)
            else:
                u, v = u**n, v**n
            a, b = min(a * u, a * v, b * u, b * v), max(a * u, a * v, b * u, b * v)
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    return lo, hi


def ivl_cmp(t, op):
    """t op 0 where the declared ranges of the inputs decide it, else None"""
    try:
        n, d = _ratfun(t, {}, ENG.nl_def)
        a, b = _pivl(n), _pivl(d)
    except (_Big, RecursionError):
        return None
    if a is None or b is None or b[0] <= 0:
        return None
    if a[0] > 0:
        return op in ('>', '>=', '!=')
    if a[1] < 0:
        return op in ('<', '<=', '!=')
    return None


def near_identical(za, zb, tol):
    """za and zb are quotients of polynomials that differ by rounded coefficients only: |za - zb| <= tol over the declared ranges"""
    try:
        if ENG.rounding:
            return False
        n, d = _ratfun(za - zb, {}, ENG.nl_def)
        n1, d1 = _ratfun(za, {}, ENG.nl_def)
        top, res = max(map(abs, n1.values()), default=0), max(map(abs, n.values()), default=0)
        if not n:
            return True
        if sum(len(m) for m in n) > 2000 or res > top * max(map(abs, d.values())):
            return False
        n, d = _common(n, d)
        a, b = _pivl(n), _pivl(d)
        if a is None or b is None or b[0] * b[1] <= 0:
            return False
        return max(abs(a[0]), abs(a[1])) <= Fraction(tol) * min(abs(b[0]), abs(b[1]))
    except (_Big, RecursionError):
        return False


def free_vars(t, nl):
    seen, out, st, ids = {}, [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in ids:
            continue
        ids.add(x.get_id())
        if x.get_id() in nl:
            st.extend(nl[x.get_id()][1:])
        elif z3.is_app(x) and x.num_args() == 0:
            if not z3.is_rational_value(x) and not z3.is_int_value(x):
                out.append(x)
        else:
            st.extend(x.children())
    return sorted(out, key=lambda v: str(v))


def _prod(l):
    if not l:
        return z3.RealVal(1)
    r = l[0]
    for x in l[1:]:
        r = r * x
    return r


_OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
        '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def compare(a, b, op):
    sa, sb = isinstance(a, z3.ExprRef), isinstance(b, z3.ExprRef)
    if not sa and not sb:
        return _OPS[op](a, b)
    if _bad(a) or _bad(b):
        x = a if _bad(a) else b
        if math.isnan(x):
            return op == '!='
        # finite versus +-inf
        sgn = (1 if x > 0 else -1) * (1 if _bad(b) else -1)   # sign of (b - a)
        return {'<': sgn > 0, '<=': sgn > 0, '>': sgn < 0, '>=': sgn < 0, '==': False, '!=': True}[op]
    za, zb = _z(a), _z(b)
    return SymBool(cmp_term(za, zb, op))


def _exp_mono(f):
    """the exponent m of a factor which is exp(m) by construction, with its rational coefficient; None if it is something else"""
    if z3.is_rational_value(f):
        return zval(f), z3.RealVal(0)
    if f.get_id() in ENG.exp_args:
        return Fraction(1), ENG.exp_args[f.get_id()]
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_UMINUS:
        r = _exp_mono(f.arg(0))
        return r and (-r[0], r[1])
    if z3.is_add(f) or z3.is_sub(f):
        g = z3.simplify(f, som=True)
        return None if z3.is_add(g) else _exp_mono(g)
    if z3.is_mul(f) or z3.is_div(f):
        c, m = None, None
        for k in f.children():
            r = _exp_mono(k)
            if r is None:
                return None
            if c is None:
                c, m = r
            elif z3.is_mul(f):
                c, m = c * r[0], m + r[1]
            else:
                if r[0] == 0:
                    return None
                c, m = c / r[0], m - r[1]
        return c, m
    return None


def exp_cmp(d, op):
    """d op 0 for a sum of at most two exponentials (or one and a number), compared through the exponents"""
    adds, const = addends(d)
    ts = []
    for c, fs in adds:
        m = z3.RealVal(0)
        for f in fs:
            r = _exp_mono(f)
            if r is None:
                return None
            c, m = c * r[0], m + r[1]
        ts.append((c, z3.simplify(m, som=True)))
    merged = {}
    for c, m in ts:
        k = m.get_id()
        merged[k] = (merged[k][0] + c if k in merged else c, m)
    ts = [(c, m) for c, m in merged.values() if c != 0]
    if const != 0:
        ts.append((const, z3.RealVal(0)))
    if len(ts) > 2:
        return None
    if not ts:
        return z3.BoolVal(_OPS[op](0, 0))
    signs = set(c > 0 for c, m in ts)
    if len(signs) == 1:
        return z3.BoolVal(_OPS[op](1 if True in signs else -1, 0))
    (c1, m1), (c2, m2) = ts if ts[0][0] > 0 else ts[::-1]
    q = -c2 / c1
    lq = zconst(math.log(q.numerator) - math.log(q.denominator)) if q != 1 else z3.RealVal(0)
    return _OPS[op](m1 - m2, lq)


_FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def quotient_cmp(d, op):
    """c*p/q + k op 0 with q of known sign: c*p + k*q op 0 (linear if p and q are)"""
    adds, const = addends(d)
    if len(adds) != 1 or len(adds[0][1]) != 1 or not z3.is_div(adds[0][1][0]):
        return None
    c, f = adds[0][0], adds[0][1][0]
    p, q = f.arg(0), f.arg(1)
    t = z3.RealVal(str(c)) * p + z3.RealVal(str(const)) * q
    sg = ENG.sign_of(q)
    if sg is None:
        return None
    return cmp_term(t, z3.RealVal(0), op if sg > 0 else _FLIP[op])


def cmp_term(za, zb, op):
    if ENG.exp_cmp:
        r = quotient_cmp(za - zb, op)
        if r is not None:
            return r
    if ENG.exp_cmp and ENG.exp_args:
        r = exp_cmp(za - zb, op)
        if r is not None:
            return r
    if _has_ln(za) or _has_ln(zb):
        d = za - zb
        r = ivl_cmp(d, op)
        if r is not None:
            return z3.BoolVal(r)
        adds, const = addends(d)
        cs = [c for c, fs in adds if len(fs) == 1 and fs[0].get_id() in ENG.ln_args]
        if len(cs) == len(adds) and cs and nice_frac(cs[0]).denominator > 64:
            d = d * zconst(1 / abs(cs[0]))        # c*ln(x) against a number: scale so that c is 1
        num, den, only_ln = image(d)
        if only_ln:
            return _OPS[op](num, den)
    return _OPS[op](za, zb)


def sym_exp(x):
    v = _coerce(x)
    if not isinstance(v, z3.ExprRef):
        try:
            return math.exp(v)
        except OverflowError:
            return math.inf
    num, den, _ = image(v)
    if z3.is_rational_value(den) and zval(den) == 1:
        return mk(_rnd(num))
    return mk(_rnd(num / den))


def sym_log(x, base=None):
    if base is not None:
        return sym_log(x) / sym_log(base)
    v = _coerce(x)
    if not isinstance(v, z3.ExprRef):
        if v == 0:
            return -math.inf
        if v < 0:
            return math.nan
        return math.log(v)
    if not ENG.known_positive(v):
        if not bool(SymBool(v > 0)):
            if ENG.log_nonpos == 'inf':
                if bool(SymBool(v == 0)):
                    return -math.inf
                return math.nan
            raise DomainError('log of a non-positive number')
    ENG.has_ln = True
    # log of an EXP atom product: undo
    t = ENG.ln_simplify(v)
    return mk(_rnd(t))


def sym_sqrt(x):
    v = _coerce(x)
    if not isinstance(v, z3.ExprRef):
        if v < 0:
            raise DomainError('sqrt of a negative number')
        return math.sqrt(v)
    if not ENG.known_positive(v):
        if bool(SymBool(v < 0)):
            raise DomainError('sqrt of a negative number')
    return mk(_rnd(ENG.root_atom(v, 2)))


def sym_uf(uf, cf, x):
    v = _coerce(x)
    if not isinstance(v, z3.ExprRef):
        return cf(v)
    t = uf(v)
    ENG.fact(z3.And(t >= -1, t <= 1))
    return mk(t)


def sym_pow(b, k):
    kv = _coerce(k)
    bv = _coerce(b)
    if kv is None or bv is None:
        if isinstance(k, np.ndarray):
            return _arr_elem(k, lambda y: sym_pow(b, y))
        if isinstance(b, np.ndarray):
            return _arr_elem(b, lambda y: sym_pow(y, k))
        return NotImplemented
    if isinstance(kv, float) and kv == int(kv) and abs(kv) < 64:
        kv = int(kv)
    if isinstance(kv, int) and abs(kv) <= 64:
        if not isinstance(bv, z3.ExprRef):
            return mk(bv ** kv)
        r, base = 1, SymReal._make(bv)
        for _ in range(abs(kv)):
            r = base * r if not (isinstance(r, int) and r == 1) else base
        if kv < 0:
            return 1.0 / r
        return mk(r.v) if type.__instancecheck__(SymReal, r) else (1.0 if kv == 0 else r)
    if not isinstance(kv, z3.ExprRef):
        f = nice_frac(to_frac(kv))
        if f.denominator <= 64 and abs(f.numerator) <= 64 and isinstance(bv, z3.ExprRef):
            base = SymReal._make(bv)
            if not ENG.known_positive(bv) and bool(base < 0):
                raise DomainError('fractional power of a negative number')
            r = mk(ENG.root_atom(bv, f.denominator))
            return sym_pow(r, f.numerator)
    return sym_exp(sym_log(b) * k)


def sym_floor(x):
    v = _coerce(x)
    if not isinstance(v, z3.ExprRef):
        return float(math.floor(v))
    if _has_ln(v) or nonlinear(v):
        return float(_ln_floor(mk(v)))
    return float(ENG.enum_value(z3.ToInt(v)))


_nonlin = {}


def nonlinear(v):
    """whether a term has products or quotients of variables (integer parts are then found by comparisons)"""
    k = v.get_id()
    if k in _nonlin:
        return _nonlin[k][0]
    cs = v.children()
    if z3.is_mul(v):
        r = sum(not z3.is_rational_value(c) for c in cs) > 1
    elif z3.is_div(v):
        r = not z3.is_rational_value(cs[1])
    elif v.decl().kind() == z3.Z3_OP_POWER:
        r = True
    else:
        r = not cs and v.decl().name().startswith('root')
    r = r or any(nonlinear(c) for c in cs)
    _nonlin[k] = (r, v)
    return r


def _ln_floor(x, limit=64):
    """floor of a term with logarithms, by comparisons"""
    k = 0
    adds, const = addends(x.v)
    if const == 0 and len(adds) == 1 and len(adds[0][1]) == 1 and z3.is_div(adds[0][1][0]):
        # c*p/q against k: c*p against k*q
        c, p, q = mk(z3.RealVal(str(adds[0][0]))), mk(adds[0][1][0].arg(0)), mk(adds[0][1][0].arg(1))
        sg = 1.0 if q > 0 else -1.0
        ge = lambda k: bool(sg * c * p >= (sg * k) * q)
    else:
        ge = lambda k: bool(x >= k)
    if ge(0):
        while ge(k + 1):
            k += 1
            if k > limit:
                ENG.incomplete.append('floor beyond %d' % limit)
                raise PathAbort('floor')
        return k
    while not ge(k):
        k -= 1
        if k < -limit:
            ENG.incomplete.append('floor beyond -%d' % limit)
            raise PathAbort('floor')
    return k


def sym_round(x):
    v = _coerce(x)
    if not isinstance(v, z3.ExprRef):
        return float(round(v))
    fl = sym_floor(x)
    d = x - fl
    if d > 0.5:
        return fl + 1
    if d < 0.5:
        return fl
    return fl if fl % 2 == 0 else fl + 1


def enum_int(x):
    """int(x): truncation towards zero"""
    v = x.v
    if isinstance(v, z3.ExprRef) and (_has_ln(v) or nonlinear(v)):
        return _ln_floor(x) if x >= 0 else -_ln_floor(-x)
    if x >= 0:
        return int(ENG.enum_value(z3.ToInt(v)))
    return -int(ENG.enum_value(z3.ToInt(-v)))


def concretize(x, why=''):
    v = x.v
    if not isinstance(v, z3.ExprRef):
        return float(v)
    return ENG.concretize(v, why)


def to_float(x):
    """float(x) in the code under test"""
    if type.__instancecheck__(SymReal, x):
        return mk(x.v)
    if isinstance(x, SymBool):
        return mk(z3.If(x.b, z3.RealVal(1), z3.RealVal(0)))
    if hasattr(x, 'dtype') and getattr(x, 'dtype', None) == object and x.size == 1:
        return to_float(x.reshape(-1)[0])
    return float(x)


# ---------------------------------------------------------------- booleans

class SymBool:
    __slots__ = ('b',)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ENG.branch(self.b)

    def _c(o):
        if isinstance(o, SymBool):
            return o.b
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        return SymBool(z3.And(self.b, SymBool._c(o)))
    __rand__ = __and__
    def __or__(self, o):
        return SymBool(z3.Or(self.b, SymBool._c(o)))
    __ror__ = __or__
    def __xor__(self, o):
        return SymBool(z3.Xor(self.b, SymBool._c(o)))
    __rxor__ = __xor__
    def __invert__(self):
        return SymBool(z3.Not(self.b))
    def logical_not(self):
        return SymBool(z3.Not(self.b))
    def __eq__(self, o):
        return SymBool(self.b == SymBool._c(o))
    def __ne__(self, o):
        return SymBool(self.b != SymBool._c(o))
    __hash__ = object.__hash__
    def __int__(self):
        return int(bool(self))
    __index__ = __int__
    def __float__(self):
        return float(bool(self))
    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__
    def __repr__(self):
        return '<symbool>'


def zbool(c):
    if isinstance(c, SymBool):
        return c.b
    if isinstance(c, z3.ExprRef):
        return c
    return z3.BoolVal(bool(c))


# ---------------------------------------------------------------- engine

class Stats:
    def __init__(self):
        self.paths = 0
        self.checks = 0
        self.feas = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.identities = 0
        self.concretized = 0
        self.max_depth = 0
        self.aborted = 0
        self.asserted = {}       # label -> number of discharged assertions
        self.cut = {}
        self.reached = {}        # label -> number of paths which reached it


class Engine:
    """explores all paths of run(ctx) within limits"""

    def __init__(self, timeout_ms=20000, feas_timeout_ms=3000, max_paths=100000, deadline=None):
        self.timeout_ms = timeout_ms
        self.feas_timeout_ms = feas_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.rounding = False
        self.fork_minmax = True
        self.exp_lemmas = True
        self.exp_cmp = False
        self.abstract_nl = False
        self.log_nonpos = 'error'
        self.incomplete = []      # reasons why the exploration is not exhaustive
        self.inconclusive = []

    # -- per-path state
    def _reset_path(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []              # path condition (assumptions, branches, definitional facts)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout_ms)
        self.nvar = 0
        self.exp_cache, self.root_cache = {}, {}
        self.nonzero, self.positive = {}, {}
        self.has_ln = False
        self.exp_list, self.exp_args, self.ln_args = [], {}, {}
        self.ranges = {}
        self.keep = []            # keep z3 terms alive whose ids are used as keys
        self.round_cache = {}
        self.nl_cache, self.defs, self.nl_def = {}, [], {}
        self.last_model = None

    def fresh(self, name, sort=None):
        self.nvar += 1
        return z3.Real('%s!%d' % (name, self.nvar)) if sort is None else z3.Const('%s!%d' % (name, self.nvar), sort)

    def fact(self, b):
        self.pc.append(b)
        self.solver.add(b)

    def assume(self, c):
        b = z3.simplify(zbool(c))
        if z3.is_true(b):
            return
        self.fact(b)
        if z3.is_false(b) or (len(self.taken) >= len(self.prefix) and self.feasible([]) is False):
            raise PathAbort('assumption')

    def _timed(self, s, extra):
        t = time.time()
        s.push()
        for x in extra:
            s.add(x)
        r = s.check()
        self.last_model = s.model() if r == z3.sat else None
        s.pop()
        self.stats.solver_s += time.time() - t
        return r

    def feasible(self, extra):
        """True / False / None(unknown)"""
        self.stats.feas += 1
        r = self._timed(self.solver, extra)
        if r == z3.unknown:
            r, m = self.strong_check(self.pc + list(extra), self.feas_timeout_ms)
            self.last_model = m
        return True if r == z3.sat else (False if r == z3.unsat else None)

    def strong_check(self, fs, timeout_ms):
        """a fresh solver (nlsat where it applies), falling back to others"""
        t = time.time()
        m = None
        r = z3.unknown
        for mkr in (lambda: z3.SolverFor('QF_NRA'), z3.Solver,
                    lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'nlsat').solver(),
                    ):
            try:
                s = mkr()
                s.set('timeout', int(timeout_ms))
                s.add(*fs)
                r = s.check()
                if r == z3.sat:
                    m = s.model()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
        self.stats.solver_s += time.time() - t
        return r, m

    def branch(self, b):
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        i = len(self.taken)
        if self.deadline and time.time() > self.deadline:
            self.incomplete.append('time limit')
            raise PathAbort('deadline')
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            ft = self.feasible([b])
            ff = self.feasible([z3.Not(b)]) if ft is not False else True
            if ft is not False and ff is not False:
                self.pending.append(self.taken + [False])
                d = True
            elif ft is not False:
                d = True
            else:
                d = False
        self.taken.append(d)
        self.fact(b if d else z3.Not(b))
        self.stats.max_depth = max(self.stats.max_depth, len(self.taken))
        return d

    def choice(self, n):
        """an n-way fork (a decision that is not a z3 term)"""
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.taken + [k])
        self.taken.append(d)
        return d

    def enum_value(self, iterm, limit=64):
        """fork over the feasible values of an integer term"""
        iterm = z3.simplify(iterm)
        if z3.is_int_value(iterm):
            return iterm.as_long()
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            vals, extra = [], []
            while len(vals) < limit:
                r = self.feasible(extra)
                if r is None:
                    self.incomplete.append('integer enumeration: solver unknown')
                    break
                if not r:
                    break
                v = self.last_model.eval(iterm, model_completion=True)
                if z3.is_int_value(v):
                    v = v.as_long()
                else:                     # integer part of an irrational value
                    m, sub, st = self.last_model, [], [iterm]
                    while st:
                        x = st.pop()
                        if z3.is_to_int(x):
                            y = model_val(m, x.arg(0))
                            if y is None:
                                raise Unsupported('integer part')
                            sub.append((x, z3.IntVal(math.floor(y))))
                        else:
                            st.extend(x.children())
                    a = z3.simplify(z3.substitute(iterm, *sub))
                    for v in ([] if not z3.is_int_value(a) else [a.as_long(), a.as_long() - 1, a.as_long() + 1]):
                        if self.feasible(extra + [iterm == v]):
                            break
                    else:
                        raise Unsupported('integer part')
                vals.append(v)
                extra.append(iterm != v)
            else:
                self.incomplete.append('integer enumeration beyond %d values' % limit)
            if not vals:
                raise PathAbort('no integer value')
            for v in vals[:0:-1]:
                self.pending.append(self.taken + [v])
            d = vals[0]
        self.taken.append(d)
        self.fact(iterm == d)
        return d

    def concretize(self, term, why='', n=2):
        """fallback: continue with sample values only (recorded: the claim is then not exhaustive)"""
        i = len(self.taken)
        if i >= len(self.prefix) and self.feasible([]):
            # a term with one possible value on this path
            v = self.last_model.eval(term, model_completion=True)
            if z3.is_rational_value(v) and self.feasible([term != v]) is False:
                self.taken.append(('=', str(v)))
                return float(zval(v))
        elif i < len(self.prefix) and isinstance(self.prefix[i], tuple):
            self.taken.append(self.prefix[i])
            return float(Fraction(self.prefix[i][1]))
        self.stats.concretized += 1
        self.incomplete.append('concretized a value (%s)' % why)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            vals, extra = [], []
            for _ in range(n):
                if not self.feasible(extra):
                    break
                v = model_val(self.last_model, term)
                vals.append(v)
                extra.append(term != zconst(v))
            if not vals:
                raise PathAbort('concretize')
            for v in vals[:0:-1]:
                self.pending.append(self.taken + [v])
            d = vals[0]
        self.taken.append(d)
        self.fact(term == zconst(d))
        return d

    # -- knowledge about terms
    def known_nonzero(self, t):
        k = t.get_id()
        if k in self.nonzero:
            return self.nonzero[k]
        if self.exp_cmp:
            r = _exp_mono(t)
            if r is not None:
                return r[0] != 0
        self.keep.append(t)
        r = self.known_positive(t, quick=True) or self.feasible([cmp_term(t, z3.RealVal(0), '==')]) is False
        self.nonzero[k] = r
        return r

    def known_positive(self, t, quick=False):
        k = t.get_id()
        if self.positive.get(k):
            return True
        if z3.is_rational_value(t):
            return zval(t) > 0
        if self.exp_cmp:
            r = _exp_mono(t)
            if r is not None:
                return r[0] > 0
        if z3.is_mul(t) and all(self.known_positive(c, True) for c in t.children()):
            return True
        if z3.is_add(t) and all(self.known_positive(c, True) for c in t.children()):
            return True
        if z3.is_div(t) and all(self.known_positive(c, True) for c in t.children()):
            return True
        if quick:
            return False
        self.keep.append(t)
        if not self.rounding and ivl_cmp(t, '>'):
            self.positive[k] = True
            return True
        r = self.feasible([cmp_term(t, z3.RealVal(0), '<=')]) is False
        if r:
            self.positive[k] = True
        return r

    def sign_of(self, t):
        """1 or -1 if the path implies it"""
        if self.known_positive(t, quick=True) or self.feasible([t <= 0]) is False:
            return 1
        if self.feasible([t >= 0]) is False:
            return -1
        return None

    def mark_positive(self, t):
        self.keep.append(t)
        self.positive[t.get_id()] = True

    def nl_term(self, f, a, b):
        """abstract_nl mode: a product or quotient is a variable with the sign facts; its definition is used only
        when an assertion cannot be proved without it (an over-approximation: proofs are sound)"""
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_rational_value(b) or (f is _mul and z3.is_rational_value(a)):
            return f(a, b)
        if f is _div:
            if not self.known_nonzero(b):
                if bool(SymBool(cmp_term(b, z3.RealVal(0), '=='))):
                    raise ZeroDivisionError('float division by zero (symbolic)')
                self.nonzero[b.get_id()] = True
            if z3.is_rational_value(a) and zval(a) == 0:
                return a
        k = (f is _div, a.get_id(), b.get_id())
        if f is _mul and a.get_id() > b.get_id():
            a, b = b, a
            k = (False, a.get_id(), b.get_id())
        if k not in self.nl_cache:
            p = self.fresh('nl')
            self.keep += [a, b, p]
            self.nl_cache[k] = p
            self.nl_def[p.get_id()] = (f is _div, a, b)
            self.defs.append(p == a * b if f is _mul else p * b == a)
            self.fact(z3.And(z3.Implies(z3.And(a > 0, b > 0), p > 0), z3.Implies(z3.And(a < 0, b < 0), p > 0),
                             z3.Implies(z3.And(a > 0, b < 0), p < 0), z3.Implies(z3.And(a < 0, b > 0), p < 0),
                             z3.Implies(a == 0, p == 0), z3.Implies(b == 0, p == 0) if f is _mul else z3.BoolVal(True)))
        return self.nl_cache[k]

    # -- exp / roots
    def exp_atom(self, m):
        """a positive variable standing for exp(m), with sound facts about exp: sign, tangent, monotonicity"""
        m = z3.simplify(m, som=True)
        k = m.get_id()
        if k not in self.exp_cache:
            t = self.fresh('EXP')
            self.keep += [m, t]
            self.exp_cache[k] = t
            self.positive[t.get_id()] = True
            self.exp_args[t.get_id()] = m
            self.fact(t > 0)
            self.fact(z3.And((m > 0) == (t > 1), (m == 0) == (t == 1), t >= 1 + m))
            if self.exp_lemmas:
                for m2, t2 in self.exp_list:
                    self.fact(z3.And((m < m2) == (t < t2), (m == m2) == (t == t2)))
            self.exp_list.append((m, t))
        return self.exp_cache[k]

    def _root_mono(self, p, n):
        """root of a monomial (or quotient of monomials) of positive inputs with exponents divisible by n"""
        if self.rounding or z3.is_const(p):
            return None
        try:
            a, b = _ratfun(p, {}, self.nl_def)
            a, b = _drop_roundoff(a), _drop_roundoff(b)
        except (_Big, RecursionError):
            return None
        if len(a) != 1 or len(b) != 1:
            return None
        (ma, ca), (mb, cb) = list(a.items())[0], list(b.items())[0]
        c = ca / cb
        e = {}
        for m, sg in ((ma, 1), (mb, -1)):
            for k, x in m:
                e[k] = e.get(k, 0) + sg * x
        if c <= 0 or any(x % n or not self.positive.get(k) for k, x in e.items()):
            return None
        f = zconst(float(c)**(1.0 / n))
        num = _prod([f] + [_TERM[k] for k, x in e.items() if x > 0 for _ in range(x // n)])
        den = [_TERM[k] for k, x in e.items() if x < 0 for _ in range(-x // n)]
        return num / _prod(den) if den else num

    def root_atom(self, p, n):
        if n == 1:
            return p
        p = z3.simplify(p)
        r = self._root_mono(p, n)
        if r is not None:
            return r
        k = (p.get_id(), n)
        if k not in self.root_cache:
            self.keep.append(p)
            r = self.fresh('root%d' % n)
            self.fact(z3.And(r >= 0, _prod([r] * n) == p))
            if self.known_positive(p, quick=True):
                self.fact(r > 0)
                self.mark_positive(r)
            self.root_cache[k] = r
        return self.root_cache[k]

    def ln_simplify(self, v):
        """log(v), v > 0"""
        if self.exp_cmp:
            r = _exp_mono(v)
            if r is not None and r[0] > 0:
                c = r[0]
                return z3.simplify(r[1] + zconst(math.log(c.numerator) - math.log(c.denominator)), som=True) if c != 1 else r[1]
        if v.get_id() in self.exp_args:
            return self.exp_args[v.get_id()]
        if (z3.is_mul(v) or z3.is_div(v)) and all(self.known_positive(c) for c in v.children()):
            ts = [self.ln_simplify(c) if not z3.is_rational_value(c) else zconst(math.log(zval(c))) for c in v.children()]
            r = ts[0]
            for x in ts[1:]:
                r = r + x if z3.is_mul(v) else r - x
            return r
        v = z3.simplify(v)
        if z3.is_rational_value(v):
            return zconst(math.log(zval(v)))
        if v.get_id() in self.exp_args:
            return self.exp_args[v.get_id()]
        self.mark_positive(v)
        k = ('ln', v.get_id())
        if k not in self.root_cache:
            t = self.fresh('LN')
            self.keep.append(t)
            self.ln_args[t.get_id()] = v
            self.root_cache[k] = t
            self.fact(z3.And((v > 1) == (t > 0), (v == 1) == (t == 0), t <= v - 1))
        return self.root_cache[k]

    def round_term(self, v):
        v = z3.simplify(v)
        if z3.is_rational_value(v):
            return v
        k = v.get_id()
        if k in self.round_cache:
            return self.round_cache[k]
        if z3.is_const(v):
            return v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UMINUS and z3.is_const(v.arg(0)):
            return v
        self.keep.append(v)
        r = self.fresh('fl')
        u = z3.Q(1, 2**50)
        self.fact(z3.And(z3.Implies(v >= 0, z3.And(r >= v * (1 - u), r <= v * (1 + u))),
                         z3.Implies(v < 0, z3.And(r <= v * (1 - u), r >= v * (1 + u)))))
        self.round_cache[k] = r
        return r

    # -- exploration
    def explore(self, run):
        """run(): executes the harness once on the current path"""
        global ENG
        self.pending = [[]]
        prev, ENG = ENG, self
        try:
            while self.pending:
                if self.stats.paths >= self.max_paths:
                    self.incomplete.append('path limit %d' % self.max_paths)
                    break
                if self.deadline and time.time() > self.deadline:
                    self.incomplete.append('time limit')
                    break
                prefix = self.pending.pop()
                self._reset_path(prefix)
                self.stats.paths += 1
                try:
                    run()
                except PathAbort:
                    self.stats.aborted += 1
                if getattr(self, 'stop', False):
                    break
        finally:
            ENG = prev
