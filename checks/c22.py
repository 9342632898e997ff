"""C22: steppers."""
from symx.runner import Case
from . import util

BOUNDS = 'linear: symbolic ends in [-1000,1000] in either order (or equal); logarithmic: symbolic ends in [0.01,100] in either order; 2-12 values (thorough: 30); plain and enumerated, iterators used in turn'
ASSUMPTIONS = ['floats are reals, compared to 1e-9 of the ends; for the ends themselves, every operation has an arbitrary rounding error', 'at least two values']
MUST_REACH = ['first and last value', 'evenly spaced', 'logarithmically evenly spaced', 'number of values', 'enumerated', 'iterators are independent']


def lin(ctx, n, enum):
    U = ctx.world().load('inference.utils.numutils')
    lo, hi = ctx.real('lo', -1000, 1000), ctx.real('hi', -1000, 1000)
    it = (U.lin_enum_stepper if enum else U.lin_stepper)(lo, hi, n)
    other = (U.lin_enum_stepper if enum else U.lin_stepper)(5.0, 9.0, 3)
    got = []
    for k, v in enumerate(it):
        if enum:
            ctx.check(v[0] == k, 'enumerated')
            v = v[1]
        if k < 3:
            o = next(other)
            ctx.eq(o[1] if enum else o, 5.0 + 2 * k, 'iterators are independent')
        got.append(v)
        if len(got) > n:
            break
    ctx.check(len(got) == n, 'number of values')
    ctx.ident(got[0], lo, 'first and last value')
    ctx.ident(got[-1], hi, 'first and last value')
    for k in range(1, n - 1):
        ctx.eq(got[k], lo + (hi - lo) * (k / (n - 1.0)), 'evenly spaced', tol=1e-7)


def log(ctx, n, enum):
    U = ctx.world().load('inference.utils.numutils')
    lo, hi = ctx.real('lo', 0.01, 100), ctx.real('hi', 0.01, 100)
    it = (U.log_enum_stepper if enum else U.log_stepper)(lo, hi, n)
    got = []
    for k, v in enumerate(it):
        if enum:
            ctx.check(v[0] == k, 'enumerated')
            v = v[1]
        got.append(v)
        if len(got) > n:
            break
    ctx.check(len(got) == n, 'number of values')
    ctx.ident(got[0], lo, 'first and last value')
    ctx.ident(got[-1], hi, 'first and last value')
    for k in range(1, n - 1):
        w = k / (n - 1.0)
        ctx.eq(ctx.log(got[k]), ctx.log(lo) + w * (ctx.log(hi) - ctx.log(lo)), 'logarithmically evenly spaced', tol=1e-9)


def exact(ctx, n, kind):
    """the ends are hit exactly, under arbitrary rounding"""
    U = ctx.world().load('inference.utils.numutils')
    lo, hi = ctx.real('lo', 0.01, 100), ctx.real('hi', 0.01, 100)
    got = [(v[1] if 'enum' in kind else v) for v in getattr(U, kind + '_stepper')(lo, hi, n)]
    ctx.check(len(got) == n, 'number of values')
    ctx.ident(got[0], lo, 'first and last value')
    ctx.ident(got[-1], hi, 'first and last value')


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = []
    for n in range(2, 31 if big else 13):
        for e in (0, 1):
            out.append(Case('lin-%d-%d' % (n, e), lin, dict(n=n, enum=e), **O))
            out.append(Case('log-%d-%d' % (n, e), log, dict(n=n, enum=e), **O))
    for n in (2, 3, 4, 6, 10):
        for kind in ('lin', 'lin_enum', 'log', 'log_enum'):
            out.append(Case('exact-%s-%d' % (kind, n), exact, dict(n=n, kind=kind), rounding=True, **O))
    return out
