"""Symbolic interpreter for the repository's Fortran: executes the GIMPLE that gfortran dumps for the current sources
(-O0 -fdump-tree-gimple, i.e. the compiler's own front end decides what the program means), behind Python wrappers built
from the same signature data (crackfortran) that f2py builds the real wrappers from."""
import glob, math, os, re, runpy, subprocess, sys, tempfile, types, shutil
import numpy as np
from . import core, npf
from .core import SymReal, SymBool, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'package')
EXECUTED = set()

# ------------------------------------------------------------------ which extensions exist (setup.py decides)

_ext = None


def extensions():
    """{full module name: [source paths]} as the setup.py files list them"""
    global _ext
    if _ext is not None:
        return _ext
    found, cur = {}, []

    class Configuration:
        def __init__(self, package_name=None, parent_name=None, top_path=None, package_path=None, **kw):
            self.path = package_path or cur[-1]
        def set_options(self, **kw):
            pass
        def add_subpackage(self, name, *a, **k):
            p = os.path.join(self.path, name)
            s = os.path.join(p, 'setup.py')
            if os.path.exists(s):
                configure(s)
        def add_extension(self, name, sources, **kw):
            mod = os.path.relpath(self.path, PKG).replace('/', '.') + '.' + name
            found[mod] = [os.path.join(self.path, s) for s in sources]
        def add_data_dir(self, *a, **k):
            pass
        def todict(self):
            return {}

    def configure(setup):
        cur.append(os.path.dirname(setup))
        try:
            runpy.run_path(setup, run_name='setup_recorded')['configuration']('', None)
        finally:
            cur.pop()

    saved = {k: sys.modules.get(k) for k in ('numpy.distutils', 'numpy.distutils.misc_util')}
    d, m = types.ModuleType('numpy.distutils'), types.ModuleType('numpy.distutils.misc_util')
    m.Configuration = Configuration
    d.misc_util = m
    d.__path__ = []
    sys.modules.update({'numpy.distutils': d, 'numpy.distutils.misc_util': m})
    try:
        configure(os.path.join(PKG, 'setup.py'))
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    _ext = found
    return found


# ------------------------------------------------------------------ memory

class FortranFault(Exception):
    """a store outside an array (memory corruption)"""


class FortranStop(Exception):
    pass


class Undef:
    """an uninitialised location"""
    def __repr__(self):
        return '<undef>'

UNDEF = Undef()


class Buf:
    """a block of memory: list of values"""
    __slots__ = ('a', 'name', 'isreal')

    def __init__(self, a, name='', isreal=True):
        self.a, self.name, self.isreal = a, name, isreal

    def get(self, i):
        if not 0 <= i < len(self.a):
            return undef_value(self.isreal, 'read outside %s' % self.name)
        v = self.a[i]
        if v is UNDEF:
            v = undef_value(self.isreal, self.name)
            self.a[i] = v
        if isinstance(v, (np.generic,)):
            v = v.item()
        return v

    def set(self, i, v):
        if not 0 <= i < len(self.a):
            raise FortranFault('store at element %d of %s which has %d elements' % (i + 1, self.name, len(self.a)))
        self.a[i] = v


class UndefInt:
    """an uninitialised integer: may be moved about and converted to an arbitrary real, not used"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __float__(self):
        raise Unsupported('uninitialised integer: %s' % self.why)
    __index__ = __int__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = \
        __floordiv__ = __mod__ = __neg__ = __abs__ = lambda self, *a: self.__float__()
    __hash__ = None


def undef_value(isreal, why):
    if not isreal:
        return UndefInt(why)
    e = core.ENG
    if e is None:
        return 0.0
    e.stats.reached['undef'] = e.stats.reached.get('undef', 0) + 1
    return SymReal._make(e.fresh('undef'))


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b, self.o = b, o


class Cell(Buf):
    """a scalar variable: a block of one element"""
    __slots__ = ()

    def __init__(self, v=UNDEF, name='', isreal=True):
        super().__init__([v], name, isreal)


# ------------------------------------------------------------------ GIMPLE parsing

_name = r'[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z0-9_]+)*'
_num = r'-?(?:\d+\.\d+(?:e[+-]?\d+)?|\d+(?:e[+-]?\d+)?|Inf|Nan)'
_opnd = r'(?:&?\(\*%s\)\[[^\]]+\]|\*%s|&?%s\[[^\]]+\]|&"[^"]*"\[1\]\{[^}]*\}|&?%s|%s)' % (_name, _name, _name, _name, _num)

RE_HEAD = re.compile(r'^(?P<type>[^=;{}<>]*?)\b(?P<name>%s) \((?P<args>.*)\)$' % _name)
RE_BIN = re.compile(r'^(?P<a>%s) (?P<op>\+|-|\*|/|%%|<=|>=|==|!=|<|>|&|\||\^|>>|<<) (?P<b>%s)$' % (_opnd, _opnd))
RE_CALL = re.compile(r'^(?P<f>%s) \((?P<args>.*)\)$' % _name)
RE_FN = re.compile(r'^(?P<f>MAX_EXPR|MIN_EXPR|ABS_EXPR|NON_LVALUE_EXPR) <(?P<args>.*)>$')
RE_CAST = re.compile(r'^\((?P<t>[a-z_]+(?: [a-z_]+)*(?:\(kind=\d+\))?)\) (?P<a>%s)$' % _opnd)
RE_IF = re.compile(r'^if \((?P<c>.*)\) goto (?P<t><[^>]+>|[\w.]+); else goto (?P<e><[^>]+>|[\w.]+);$')
RE_LABEL = re.compile(r'^(<D\.\d+>|[\w.]+):$')
RE_DECL = re.compile(r'^(?P<static>static )?(?P<type>(?:struct \w+|[a-z_]+ ?[a-z]*(?:\(kind=\d+\))?)(?:\[[^\]]*\])?(?: ?\* ?(?:restrict)?)?) (?P<name>%s)(?P<dim>(?:\[\d+\])*)(?: = (?P<init>.*))?;$' % _name)


def split_args(s):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Func:
    def __init__(self, name, args):
        self.name = name
        self.params = []         # (name, kind) kind: 'scalar' | 'array' | 'proc'
        self.decls = {}          # name -> (isreal, n elements or None)
        self.statics = {}        # name -> initial list
        self.code = []
        self.labels = {}
        for a in split_args(args):
            m = re.match(r'^(?P<t>.*?)(?P<n>%s)$' % _name, a)
            t = m.group('t')
            if '(*' in t or '()' in t or re.search(r'\)\s*\(', t):
                k = 'proc'
            elif '[' in t:
                k = 'array'
            elif '&' in t or '*' in t:
                k = 'scalar'
            else:
                k = 'value'
            self.params.append((m.group('n'), k))


def parse_gimple(text):
    funcs = {}
    lines = text.split('\n')
    i = 0
    cur = None
    depth = 0
    skipblock = None
    while i < len(lines):
        l = lines[i].strip()
        i += 1
        if not l or l.startswith('//') or l.startswith(';;'):
            continue
        if cur is None:
            if l.startswith('__attribute__'):
                continue
            m = re.match(r'^(?P<type>.*?)\b(?P<name>%s) \((?P<args>.*)\)$' % _name, l)
            if m and i < len(lines) and lines[i].strip() == '{':
                cur = Func(m.group('name'), m.group('args'))
                depth = 0
            continue
        if l == '{':
            depth += 1
            continue
        if l == '}':
            depth -= 1
            if depth == 0:
                funcs[cur.name] = cur
                cur = None
            continue
        if l in ('try', 'finally'):
            continue
        cur_line(cur, l)
    for f in funcs.values():
        compile_func(f)
    return funcs


def parse_num(s):
    if s in ('Inf', '-Inf'):
        return float(s.lower())
    if s == 'Nan':
        return math.nan
    if re.match(r'^-?\d+$', s):
        return int(s)
    return float(s)


def parse_init(s):
    s = s.strip()
    if s.startswith('{'):
        out = []
        for a in split_args(s[1:-1]):
            if '=' in a and a.startswith('['):
                idx, v = a.split('=', 1)
                mm = re.match(r'\[(\d+)(?: \.\.\. (\d+))?\]', idx.strip())
                lo = int(mm.group(1))
                hi = int(mm.group(2) or lo)
                while len(out) < lo:
                    out.append(0.0)
                for _ in range(lo, hi + 1):
                    out.append(parse_num(v.strip()))
            else:
                out.append(parse_num(a))
        return out
    if s.startswith('"') or s.startswith('&'):
        return [s]
    return [parse_num(s)]


def cur_line(f, l):
    m = RE_DECL.match(l)
    if m and not l.startswith(('return', 'goto')):
        t, name = m.group('type'), m.group('name')
        isreal = t.startswith(('real', 'double'))
        dims = [int(x) for x in re.findall(r'\[(\d+)\]', m.group('dim') or '')]
        n = None
        if dims:
            n = 1
            for d in dims:
                n *= d
        f.decls[name] = (isreal, n, t)
        if m.group('static'):
            init = parse_init(m.group('init')) if m.group('init') else []
            f.statics[name] = (isreal, n, init)
        elif m.group('init'):
            f.code.append('%s = %s;' % (name, m.group('init')))
        return
    m = RE_LABEL.match(l)
    if m:
        f.labels[m.group(1)] = len(f.code)
        return
    f.code.append(l)


# ------------------------------------------------------------------ compilation to closures

class Frame:
    __slots__ = ('v', 'm')

    def __init__(self, m):
        self.v = {}
        self.m = m


def op_reader(s):
    """closure fr -> value of the operand"""
    s = s.strip()
    if re.match('^' + _num + '$', s):
        k = parse_num(s)
        return lambda fr: k
    m = re.match(r'^\(\*(%s)\)\[(.+)\]$' % _name, s)
    if m:
        n, ix = m.group(1), op_reader(m.group(2).split('{')[0])
        def rd(fr):
            p = fr.v[n]
            if isinstance(p, Cell) and isinstance(p.a[0], Ptr):
                p = p.a[0]
            return p.b.get(p.o + as_int(ix(fr)))
        return rd
    m = re.match(r'^\*(%s)$' % _name, s)
    if m:
        n = m.group(1)
        def rd(fr):
            p = fr.v[n]
            if isinstance(p, Cell) and isinstance(p.a[0], Ptr):
                p = p.a[0]
            return p.b.get(p.o)
        return rd
    m = re.match(r'^&\(\*(%s)\)\[(.+)\]$' % _name, s)
    if m:
        n, ix = m.group(1), op_reader(m.group(2).split('{')[0])
        def rd(fr):
            p = fr.v[n]
            if isinstance(p, Cell) and isinstance(p.a[0], Ptr):
                p = p.a[0]
            return Ptr(p.b, p.o + as_int(ix(fr)))
        return rd
    m = re.match(r'^&"([^"]*)".*$', s)
    if m:
        return lambda fr: m.group(1)
    m = re.match(r'^&(%s)\[(.+)\]$' % _name, s)
    if m:
        n, ix = m.group(1), op_reader(m.group(2).split('{')[0])
        return lambda fr: Ptr(lookup(fr, n), as_int(ix(fr)))
    m = re.match(r'^&(%s)$' % _name, s)
    if m:
        n = m.group(1)
        return lambda fr: Ptr(lookup(fr, n), 0)
    m = re.match(r'^(%s)\[(.+)\]$' % _name, s)
    if m:
        n, ix = m.group(1), op_reader(m.group(2).split('{')[0])
        return lambda fr: lookup(fr, n).get(as_int(ix(fr)))
    m = re.match('^' + _name + '$', s)
    if m:
        def rd(fr):
            x = fr.v.get(s)
            if x is None:
                x = lookup(fr, s)
            if isinstance(x, Buf):
                if isinstance(x, Cell):
                    v = x.a[0]
                    return v if isinstance(v, Ptr) else x.get(0)
                return Ptr(x, 0)
            return x
        return rd
    raise Unsupported('GIMPLE operand: ' + s)


def lookup(fr, n):
    x = fr.v.get(n)
    if x is None:
        x = Cell(UNDEF, n)
        fr.v[n] = x
    return x


def as_int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, SymBool):
        return int(bool(x))
    raise Unsupported('non-integer index %r' % (x,))


def writer(s):
    s = s.strip()
    m = re.match(r'^\(\*(%s)\)\[(.+)\]$' % _name, s)
    if m:
        n, ix = m.group(1), op_reader(m.group(2).split('{')[0])
        def wr(fr, v):
            p = fr.v[n]
            if isinstance(p, Cell) and isinstance(p.a[0], Ptr):
                p = p.a[0]
            p.b.set(p.o + as_int(ix(fr)), v)
        return wr
    m = re.match(r'^\*(%s)$' % _name, s)
    if m:
        n = m.group(1)
        def wr(fr, v):
            p = fr.v[n]
            if isinstance(p, Cell) and isinstance(p.a[0], Ptr):
                p = p.a[0]
            p.b.set(p.o, v)
        return wr
    m = re.match(r'^(%s)\[(.+)\]$' % _name, s)
    if m:
        n, ix = m.group(1), op_reader(m.group(2).split('{')[0])
        return lambda fr, v: lookup(fr, n).set(as_int(ix(fr)), v)
    m = re.match('^' + _name + '$', s)
    if m:
        def wr(fr, v):
            x = fr.v.get(s)
            if isinstance(x, Cell):
                x.a[0] = v
            elif x is None:
                fr.v[s] = Cell(v, s)
            else:
                fr.v[s] = Cell(v, s)
        return wr
    raise Unsupported('GIMPLE destination: ' + s)


def _is_int(x):
    return isinstance(x, (int, np.integer))


def idiv(a, b):
    if b == 0:
        raise ZeroDivisionError('Fortran integer division by zero')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def binop(op, a, b):
    if op == '+':
        if isinstance(a, Ptr):
            return Ptr(a.b, a.o + b // 8)
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if _is_int(a) and _is_int(b):
            return idiv(a, b)
        return rdiv(a, b)
    if op == '%':
        return a - idiv(a, b) * b
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '==':
        return a == b
    if op == '!=':
        return a != b
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    if op == '<<':
        return a << b
    if op == '>>':
        return a >> b
    raise Unsupported('GIMPLE operator ' + op)


def rdiv(a, b):
    if not isinstance(b, SymReal) or isinstance(b, float):
        if b == 0:
            if isinstance(a, (int, float)):
                return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
            return math.inf if a > 0 else (-math.inf if a < 0 else math.nan)
    return a / b


def cast(t, x):
    if t.startswith('real(kind=4)'):
        if isinstance(x, (int, float)):
            return float(np.float32(x))
        return x
    if t.startswith('real') or t.startswith('double'):
        if isinstance(x, UndefInt):
            return undef_value(True, x.why)
        if _is_int(x):
            return float(x)
        return x
    if t.startswith('logical') or t.startswith('_Bool'):
        return x
    if t.startswith(('integer', 'sizetype', 'bitsizetype', 'unsigned', 'ssizetype', 'signed', 'character', 'long')):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, bool):
            return int(x)
        if _is_int(x):
            return int(x)
        return int(x)          # truncation; SymReal enumerates
    return x


def _max(a, b):
    return a if bool(a >= b) else b


def _min(a, b):
    return a if bool(a <= b) else b


def _pow(a, b):
    if _is_int(b) and isinstance(a, SymReal) and not isinstance(a, float):
        return core.sym_pow(a, int(b))
    if isinstance(a, SymReal) and not isinstance(a, float) or isinstance(b, SymReal) and not isinstance(b, float):
        return core.sym_pow(a, b)
    try:
        return float(a) ** b
    except OverflowError:
        return math.inf
    except ZeroDivisionError:
        return math.inf


def _sgn(a, b):
    return abs(a) if bool(b >= 0) else -abs(a)


def _log(x):
    return core.sym_log(x)


BUILTINS = {
    '__builtin_log': _log, '__builtin_exp': core.sym_exp, '__builtin_sqrt': core.sym_sqrt, '__builtin_pow': _pow,
    '__builtin_powi': _pow, '__builtin_fabs': abs, '__builtin_copysign': _sgn, '__builtin_fmax': _max, '__builtin_fmin': _min,
    '__builtin_floor': core.sym_floor, '__builtin_log10': lambda x: core.sym_log(x) / math.log(10.0),
    '__builtin_sin': lambda x: core.sym_uf(core.SINF, math.sin, x), '__builtin_cos': lambda x: core.sym_uf(core.COSF, math.cos, x),
    '__builtin_isnan': lambda x: (not npf.has_symbolic(x)) and x != x, '__builtin_iround': lambda x: int(core.sym_round(x)),
    '__builtin_lround': lambda x: int(core.sym_round(x)),
    '__builtin_ifloor': lambda x: int(core.sym_floor(x)), '__builtin_unordered': lambda a, b: False,
    '__builtin_isfinite': lambda x: npf.has_symbolic(x) or math.isfinite(x),
    '__builtin_expect': lambda a, *r: a,
}
for k in list(BUILTINS):
    BUILTINS[k + 'f'] = BUILTINS[k]


def rhs_eval(s):
    s = s.strip()
    m = re.match(r'^\(\((.+)\)\)$', s)
    if m and '(' not in m.group(1).strip('()'):
        return rhs_eval(m.group(1))
    m = RE_FN.match(s)
    if m:
        fn = {'MAX_EXPR': _max, 'MIN_EXPR': _min, 'ABS_EXPR': abs, 'NON_LVALUE_EXPR': lambda x: x}[m.group('f')]
        rs = [op_reader(a) for a in split_args(m.group('args'))]
        return lambda fr: fn(*[r(fr) for r in rs])
    m = RE_CAST.match(s)
    if m:
        t, a = m.group('t'), op_reader(m.group('a'))
        return lambda fr: cast(t, a(fr))
    m = RE_BIN.match(s)
    if m:
        op, a, b = m.group('op'), op_reader(m.group('a')), op_reader(m.group('b'))
        return lambda fr: binop(op, a(fr), b(fr))
    m = re.match(r'^-(%s)$' % _opnd, s)
    if m and not re.match('^' + _num + '$', s):
        a = op_reader(m.group(1))
        return lambda fr: -a(fr)
    m = re.match(r'^~(%s)$' % _opnd, s)
    if m:
        a = op_reader(m.group(1))
        def inv(fr):
            x = a(fr)
            if isinstance(x, SymBool):
                return ~x
            if isinstance(x, bool):
                return not x
            return ~x
        return inv
    m = re.match(r'^!(%s)$' % _opnd, s)
    if m:
        a = op_reader(m.group(1))
        return lambda fr: ~a(fr) if isinstance(a(fr), SymBool) else not a(fr)
    m = RE_CALL.match(s)
    if m:
        return call_eval(m.group('f'), m.group('args'))
    return op_reader(s)


def call_eval(f, args):
    args = split_args(args)
    if f.startswith('_gfortran_'):
        if 'stop' in f or 'runtime_error' in f:
            def st(fr):
                raise FortranStop(f)
            return st
        if f in ('_gfortran_pow_r8_i4', '_gfortran_pow_r8_i8'):
            rs = [op_reader(a) for a in args]
            return lambda fr: _pow(*[r(fr) for r in rs])
        if f in ('_gfortran_pow_i4_i4', '_gfortran_pow_i8_i4'):
            rs = [op_reader(a) for a in args]
            def ip(fr):
                a, b = [r(fr) for r in rs]
                return a ** b if b >= 0 else (1 if a == 1 else (0 if abs(a) != 1 else (-1) ** (-b)))
            return ip
        if f.startswith(('_gfortran_st_', '_gfortran_transfer', '_gfortran_set')):
            return lambda fr: None
        raise Unsupported('runtime library call ' + f)
    rs = [op_reader(a) for a in args]
    if f in BUILTINS:
        b = BUILTINS[f]
        return lambda fr: b(*[r(fr) for r in rs])
    if f == '__builtin_alloca_with_align' or f == '__builtin_malloc':
        return lambda fr: Ptr(Buf([UNDEF] * max(0, rs[0](fr) // 8), 'automatic array'))
    if f in ('__builtin_stack_save',):
        return lambda fr: 0
    if f in ('__builtin_stack_restore', '__builtin_free', '__builtin_unreachable'):
        return lambda fr: None
    if f in ('__builtin_memset',):
        def ms(fr):
            p, v, n = [r(fr) for r in rs]
            for k in range(n // 8 if p.b.isreal else n // 4):
                p.b.set(p.o + k, 0.0 if p.b.isreal else 0)
        return ms
    if f in ('__builtin_memcpy', '__builtin_memmove'):
        def mc(fr):
            d, s_, n = [r(fr) for r in rs]
            k = n // 8 if d.b.isreal else n // 4
            vals = [s_.b.get(s_.o + j) for j in range(k)]
            for j, v in enumerate(vals):
                d.b.set(d.o + j, v)
        return mc
    if f.startswith('__builtin_'):
        raise Unsupported('builtin ' + f)
    def call(fr):
        a = [r(fr) for r in rs]
        return fr.m.call(f, a, fr)
    return call


def compile_func(f):
    code, lab = [], {}
    names = {v: k for k, v in f.labels.items()}
    for l in f.code:
        code.append(compile_stmt(l))
    f.ops = code
    f.compiled = True


def compile_stmt(l):
    """-> (kind, data)"""
    if 'dt_parm' in l and not l.startswith('if ('):
        return ('nop',)
    m = RE_IF.match(l)
    if m:
        return ('if', rhs_eval(m.group('c')), m.group('t'), m.group('e'))
    m = re.match(r'^goto (<[^>]+>|[\w.]+);$', l)
    if m:
        return ('goto', m.group(1))
    if l == 'return;':
        return ('ret', None)
    m = re.match(r'^return (.+);$', l)
    if m:
        return ('ret', op_reader(m.group(1)))
    m = re.match(r'^switch \((.+)\) <(.*)>$', l.rstrip(';'))
    if m:
        cases = {}
        dflt = None
        for c in m.group(2).split(','):
            k, t = c.strip().split(': ')
            if k == 'default':
                dflt = t.strip()
            else:
                k = k.replace('case ', '')
                if '...' in k:
                    a, b = k.split('...')
                    for z in range(int(a), int(b) + 1):
                        cases[z] = t.strip()
                else:
                    cases[int(k)] = t.strip()
        return ('switch', op_reader(m.group(1)), cases, dflt)
    if 'CLOBBER' in l:
        return ('nop',)
    m = re.match(r'^(.+?) = (.+);$', l)
    if m and not m.group(1).startswith('if ('):
        try:
            return ('set', writer(m.group(1)), rhs_eval(m.group(2)), l)
        except Unsupported as ex:
            msg = str(ex) + ' in ' + l
            return ('unsup', msg)
    m = re.match(r'^(%s) \((.*)\);$' % _name, l)
    if m:
        try:
            return ('do', call_eval(m.group(1), m.group(2)))
        except Unsupported as ex:
            return ('unsup', str(ex) + ' in ' + l)
    return ('unsup', 'GIMPLE statement: ' + l)


class Program:
    """the functions of one extension plus their static storage (one instance per world)"""
    def __init__(self, funcs, modname):
        self.funcs, self.modname = funcs, modname
        self.static = {}
        self.steps = 0

    def call(self, name, args, fr=None):
        if fr is not None and name in fr.v and callable(fr.v[name]):
            return fr.v[name](*args)
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs.get(name.rstrip('_'))
        if f is None:
            raise Unsupported('call to unknown Fortran procedure ' + name)
        EXECUTED.add(self.modname + ':' + f.name)
        new = Frame(self)
        v = new.v
        if len(args) != len(f.params):
            raise Unsupported('argument count in call of ' + name)
        for (n, k), a in zip(f.params, args):
            v[n] = a
        for n, (isreal, ne, init) in f.statics.items():
            key = (f.name, n)
            if key not in self.static:
                if ne is None:
                    self.static[key] = Cell(init[0] if init else (0.0 if isreal else 0), n, isreal)
                else:
                    z = 0.0 if isreal else 0
                    a = list(init) + [z] * (ne - len(init))
                    self.static[key] = Buf(a, n, isreal)
            v[n] = self.static[key]
        for n, (isreal, ne, t) in f.decls.items():
            if n in f.statics:
                continue
            if ne is not None:
                v[n] = Buf([UNDEF] * ne, n, isreal)
            else:
                v[n] = Cell(UNDEF, n, isreal)
        pc, ops, labels = 0, f.ops, f.labels
        n = len(ops)
        while pc < n:
            o = ops[pc]
            k = o[0]
            if k == 'set':
                val = o[2](new)
                o[1](new, val)
            elif k == 'if':
                pc = labels[o[2] if bool(o[1](new)) else o[3]]
                continue
            elif k == 'goto':
                pc = labels[o[1]]
                continue
            elif k == 'do':
                o[1](new)
            elif k == 'ret':
                return o[1](new) if o[1] else None
            elif k == 'switch':
                pc = labels[o[2].get(as_int(o[1](new)), o[3])]
                continue
            elif k == 'unsup':
                raise Unsupported(o[1])
            pc += 1
        return None


# ------------------------------------------------------------------ dumps and signatures

_cache = {}


def gimple_of(sources):
    funcs = {}
    d = tempfile.mkdtemp(prefix='symx-gimple-')
    try:
        for s in sources:
            if not s.endswith(('.f', '.f90')):
                continue
            o = os.path.join(d, os.path.basename(s) + '.o')
            p = subprocess.run(['gfortran', '-O0', '-w', '-fno-second-underscore', '-c', '-fdump-tree-gimple'] + (['-ffixed-form'] if s.endswith('.f') else []) + [s, '-o', o],
                               cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise RuntimeError('gfortran failed on %s: %s' % (s, p.stdout[-500:]))
            dumps = glob.glob(os.path.join(d, '*.gimple'))
            for g in dumps:
                funcs.update(parse_gimple(open(g).read()))
                os.remove(g)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return funcs


def crack(sources):
    pyf = [s for s in sources if s.endswith('.pyf')]
    files = pyf or [s for s in sources if s.endswith(('.f', '.f90'))]
    from numpy.f2py import crackfortran as cf
    import importlib, io, contextlib
    importlib.reload(cf)
    cf.verbose, cf.quiet = 0, 1
    cf.errmess = cf.outmess = lambda *a, **k: None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        blocks = cf.crackfortran(files)
    procs, users = {}, {}

    def walk(b, inuser):
        for x in b:
            if x['block'] in ('function', 'subroutine'):
                if inuser:
                    users[x['name']] = users[(inuser, x['name'])] = x
                else:
                    procs[x['name']] = x
            elif 'body' in x:
                walk(x['body'], inuser or (x['name'] if '__user__' in x.get('name', '') else ''))
    walk(blocks, False)
    return procs, users


def preload(full):
    exts = extensions()
    if full not in exts:
        return False
    if full not in _cache:
        _cache[full] = (gimple_of(exts[full]), crack(exts[full]))
    return True


def load_extension(full, world):
    if not preload(full):
        return None
    funcs, (procs, users) = _cache[full]
    prog = Program(funcs, full)
    m = types.ModuleType(full)
    m.__prog__ = prog
    for name, blk in procs.items():
        setattr(m, name, make_wrapper(prog, blk, users))
    return m


class F2pyError(ValueError):
    pass


def ev(expr, env):
    expr = str(expr).strip()
    e = re.sub(r'/', '//', expr).replace('&&', ' and ').replace('||', ' or ')
    fns = {'len': lambda a: len(a), 'shape': lambda a, i=0: np.shape(a)[i], 'abs': abs, 'max': max, 'min': min, 'size': lambda a: np.size(a)}
    return eval(e, {'__builtins__': {}}, {**fns, **env})


def intents(v):
    return set(x for i in v.get('intent', []) for x in [i])


def f_int(x, name):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, float):
        return int(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return f_int(x.reshape(-1)[0], name)
    if type.__instancecheck__(SymReal, x):
        return int(x)
    raise TypeError('%s: cannot convert to an integer' % name)


def f_real(x, name):
    if isinstance(x, np.ndarray):
        if x.size >= 1:
            return f_real(x.reshape(-1)[0], name)
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return float(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, float):
        return x
    if type.__instancecheck__(SymReal, x):
        return core.mk(x.v) if isinstance(x.v, core.z3.ExprRef) else float(x.v)
    if isinstance(x, (list, tuple)) and len(x):
        return f_real(x[0], name)
    raise TypeError('%s: cannot convert to a float' % name)


def make_wrapper(prog, blk, users):
    vars_, args = blk['vars'], blk['args']
    isfunc = blk['block'] == 'function'
    rname = blk.get('result', blk['name'])
    def intent(n):
        return intents(vars_[n])
    def ext(n):
        return n in blk.get('externals', []) or 'external' in vars_.get(n, {}).get('attrspec', [])
    hidden, req, opt = [], [], []
    for a in args:
        it = intent(a) if a in vars_ else set()
        if 'hide' in it or ('out' in it and 'in' not in it and 'inout' not in it and 'inplace' not in it):
            hidden.append(a)
        elif 'optional' in vars_[a].get('attrspec', []) or '=' in vars_[a]:
            opt.append(a)
        else:
            req.append(a)
    order = req + opt
    outs = [a for a in args if 'out' in intent(a)]

    def wrapper(*pos, **kw):
        given = {}
        if len(pos) > len(order):
            raise TypeError('%s() takes at most %d arguments' % (blk['name'], len(order)))
        for n, p in zip(order, pos):
            given[n] = p
        for k, p in kw.items():
            if k in given or k not in order:
                if k.endswith('_extra_args'):
                    raise Unsupported('extra_args')
                raise TypeError('unexpected argument ' + k)
            given[k] = p
        for n in req:
            if n not in given:
                raise TypeError('%s() missing argument %s' % (blk['name'], n))
        env, memo, outarr, back = {}, {}, {}, []
        # input arrays and scalars that are given come first, then the rest in dependency order
        todo = [a for a in args if not ext(a)]
        rounds = 0
        pending = sorted(todo, key=lambda a: (a not in given, blk.get('sortvars', args).index(a) if a in blk.get('sortvars', args) else 0))
        # given arrays of unknown size are converted first (their dimensions may define others)
        while pending:
            rounds += 1
            if rounds > 200:
                raise Unsupported('f2py signature of %s: cannot resolve %s' % (blk['name'], pending))
            a = pending.pop(0)
            v = vars_[a]
            isarr = 'dimension' in v
            real = v.get('typespec') in ('real', 'double precision')
            try:
                if isarr:
                    if a in given:
                        arr, cell = take_array(given[a], real, len(v['dimension']), intents(v), a)
                        env[a] = arr
                        memo[a] = cell
                        # sizes checked later
                        outarr[a] = (arr, cell)
                    else:
                        dims = tuple(int(ev(d, env)) for d in v['dimension'])
                        n = int(np.prod(dims)) if dims else 1
                        z = UNDEF if real else 0
                        if 'out' in intents(v) and real:
                            z = UNDEF
                        b = Buf([z] * n, a, real)
                        memo[a] = Ptr(b)
                        env[a] = np.empty(dims, object)
                        outarr[a] = (dims, b)
                else:
                    if a in given:
                        x = f_real(given[a], a) if real else f_int(given[a], a)
                    elif '=' in v:
                        x = ev(v['='], env)
                        x = float(x) if real else int(x)
                    else:
                        x = UNDEF if real else 0
                    env[a] = x
                    c = Cell(x, a, real)
                    memo[a] = Ptr(c)
            except NameError:
                pending.append(a)
        for a in todo:
            v = vars_[a]
            if 'dimension' in v and a in given:
                for k, d in enumerate(v['dimension']):
                    try:
                        want = int(ev(d, env))
                    except NameError:
                        continue
                    have = env[a].shape[k] if k < env[a].ndim else 1
                    if have < want or (len(v['dimension']) == 1 and have < want):
                        raise F2pyError('%d-th dimension of %s must be %d but got %d' % (k, a, want, have))
            for c in v.get('check', []):
                if a in given and not bool(ev(c, env)):
                    raise F2pyError('check failed: ' + c)
        fargs = []
        for a in args:
            if ext(a):
                fargs.append(make_callback(given[a], blk, a, users))
            else:
                fargs.append(memo[a])
        r = prog.call(blk['name'], fargs)
        res = []
        if isfunc:
            res.append(plain(r))
        for a in outs:
            v = vars_[a]
            if 'dimension' in v:
                o = outarr[a]
                if isinstance(o[0], np.ndarray):
                    arr = o[0]
                    o[1].writeback() if isinstance(o[1], CopyPtr) else None
                    res.append(arr)
                else:
                    dims, b = o
                    real = v.get('typespec') in ('real', 'double precision')
                    arr = np.empty(len(b.a), object)
                    for k in range(len(b.a)):
                        x = b.a[k]
                        arr[k] = x if x is not UNDEF else 0.0     # f2py zero-fills? (contents unspecified)
                    if not real:
                        arr = arr.astype(int)
                    res.append(arr.reshape(dims, order='F'))
            else:
                x = memo[a].b.get(0)
                res.append(plain(x))
        for a in args:
            if a in outarr and isinstance(outarr[a][1], CopyPtr):
                outarr[a][1].writeback()
        if not res:
            return None
        return res[0] if len(res) == 1 else tuple(res)
    wrapper.__name__ = blk['name']
    wrapper.__doc__ = ''
    return wrapper


def plain(x):
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, bool):
        return int(x)
    return x


class ArrBuf(Buf):
    """memory shared with a (contiguous) numpy object array"""
    def __init__(self, flat, name, isreal):
        super().__init__(flat, name, isreal)


class CopyPtr(Ptr):
    __slots__ = ('target',)
    def writeback(self):
        if self.target is not None:
            f = self.target.reshape(-1)
            for k in range(f.size):
                f[k] = self.b.a[k]


def take_array(x, real, ndim, it, name):
    """f2py's conversion of an input array; float64-like contiguous arrays are shared, everything else is copied"""
    shared = False
    if isinstance(x, np.ndarray) and ((x.dtype == object and real) or (x.dtype.kind == 'f' and real) or (x.dtype.kind in 'iu' and x.dtype.itemsize == 4 and not real)):
        arr = x
        shared = (arr.ndim <= 1 and arr.flags.c_contiguous) or (arr.ndim > 1 and arr.flags.f_contiguous)
    else:
        if isinstance(x, (int, float)) or type.__instancecheck__(SymReal, x):
            x = [x]
        arr = npf.array(x, float) if real else np.array([f_int(y, name) for y in np.array(npf._obj_from(x)).reshape(-1)], int).reshape(np.shape(x))
        if 'inout' in it:
            raise F2pyError('failed in converting %s: intent(inout) array must be a contiguous float array' % name)
    if 'copy' in it:
        shared = False
    if 'inout' in it and not shared:
        raise F2pyError('intent(inout) array %s must be contiguous' % name)
    if arr.ndim > ndim:
        if arr.size == max(arr.shape):
            arr = arr.reshape(-1)
        else:
            raise F2pyError('too many axes: %d (expected rank=%d)' % (arr.ndim, ndim))
    if arr.ndim == 0:
        arr = arr.reshape(1)
    if shared and arr.dtype == object:
        flat = arr.reshape(-1, order='F') if arr.ndim > 1 else arr
        if np.shares_memory(flat, arr) or arr.size == 0:
            return arr, Ptr(ArrBuf(flat, name, real))
    if not shared:
        arr2 = arr.copy(order='F')
    else:
        arr2 = arr
    vals = [as_py(y, real) for y in arr2.reshape(-1, order='F')]
    p = Ptr(Buf(vals, name, real))
    if 'out' in it:
        # intent(in,out): the returned array is the converted copy
        o = np.empty(arr2.shape, object)
        p = CopyPtr(Buf(vals, name, real))
        p.target = o
        return o, p
    return arr2, p


def as_py(y, real):
    if isinstance(y, np.generic):
        y = y.item()
    if real and isinstance(y, int):
        return float(y)
    return y


def make_callback(f, blk, a, users):
    """what the Fortran code calls for an external argument"""
    uname = None
    for mod, u in blk.get('use', {}).items():
        uname = u.get('map', {}).get(a, uname)
    # a sample call in the signature file takes precedence (as in f2py)
    ub = users.get((blk['name'] + '__user__routines', a)) or (users.get(uname) if uname else None)
    if ub is None:
        # implicit interface (a sample call in the signature file)
        for x in blk.get('body', []):
            if x.get('name') == a:
                ub = x
    if ub is None:
        raise Unsupported('callback interface of ' + a)
    uvars, uargs = ub['vars'], ub['args']
    isf = ub['block'] == 'function'

    def cb(*fargs):
        env = {}
        arrs = {}
        for n, p in zip(uargs, fargs):
            v = uvars.get(n, {})
            if 'dimension' not in v:
                env[n] = p.b.get(p.o) if isinstance(p, Ptr) else p
        for n, p in zip(uargs, fargs):
            v = uvars.get(n, {})
            if 'dimension' in v:
                k = 1
                for d in v['dimension']:
                    k *= int(ev(d, env))
                arrs[n] = (p, k)
        pyargs, outs = [], []
        views = {}
        required, optional = [], []
        # a dimension argument is optional for the callback (hidden when the callee takes fewer arguments)
        dims = {d for n in uargs for d in uvars.get(n, {}).get('dimension', [])}
        for n in uargs:
            v = uvars.get(n, {})
            it = intents(v)
            if 'out' in it and 'in' not in it and 'inout' not in it:
                outs.append(n)
                continue
            if 'dimension' in v:
                p, k = arrs[n]
                b = p.b
                if isinstance(b.a, np.ndarray):
                    view = b.a[p.o:p.o + k]
                else:
                    view = np.empty(k, object)
                    for j in range(k):
                        view[j] = b.get(p.o + j)
                views[n] = view
                required.append((n, view))
                if 'out' in it or 'inout' in it:
                    outs.append(n)
            else:
                first_dim = v.get('=') is not None or 'optional' in v.get('attrspec', [])
                (optional if first_dim else required).append((n, env[n]))
        vals = [x for _, x in required] + [x for _, x in optional]
        nmax = len(vals)
        # f2py passes as many arguments as the callable takes
        n = callable_nargs(f, nmax)
        r = f(*vals[:n])
        for nme, view in views.items():
            p, k = arrs[nme]
            if not isinstance(p.b.a, np.ndarray):
                for j in range(k):
                    p.b.a[p.o + j] = view[j]
        if isf:
            return f_real(r[0] if isinstance(r, tuple) else r, 'callback result')
        if outs and r is not None:
            rr = list(r) if isinstance(r, tuple) else [r]
            for nme, val in zip(outs, rr):
                p, k = arrs[nme] if nme in arrs else (fargs[uargs.index(nme)], None)
                if k is None:
                    p.b.set(p.o, f_real(val, nme))
                else:
                    va = list(np.array(npf._obj_from(val)).reshape(-1))
                    for j in range(min(k, len(va))):
                        p.b.set(p.o + j, as_py(va[j], True))
        return None
    return cb


def callable_nargs(f, nmax):
    import inspect
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return nmax
    n = 0
    for p in sig.parameters.values():
        if p.kind == p.VAR_POSITIONAL:
            return nmax
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            n += 1
    return min(n, nmax)
