"""C24: bracketing of zeros."""
from symx.runner import Case
from . import util

BOUNDS = ('arbitrary functions (uninterpreted, values in [-10,10]) with symbolic initial intervals in either order and up to 3 expansions (thorough: 4); straight lines with a symbolic zero up to 1000 interval widths away; '
          'with and without given values, with and without extra arguments, expansion factors 1.6 and 0.7')
ASSUMPTIONS = ['floats are reals']
MUST_REACH = ['the bracket has values of opposite sign', 'the bracket contains the initial interval', 'an error only after all tries', 'the zero of a line is found', 'misuse is refused', 'given values are used', 'no more tries than allowed']


def anyf(ctx, tries, given, extra, expand):
    U = ctx.world().load('inference.utils.numutils')
    f = ctx.ufun('f', -10, 10)
    a, w = ctx.real('a', -5, 5), ctx.real('w', -3, 3)
    ctx.assume(abs(w) >= 0.01)
    b = a + w
    calls = []
    tag = ctx.real('tag', 0, 1)
    def g(x, *more):
        if extra:
            ctx.check(len(more) == 2, 'given values are used')
            ctx.eq(more[0], tag, 'given values are used')
            ctx.check(more[1] == 'k', 'given values are used')
        else:
            ctx.check(len(more) == 0, 'given values are used')
        v = f(x)
        calls.append((x, v))
        if len(calls) > 2 + 2 * tries + 2:
            ctx.check(False, 'no more tries than allowed')
        return v
    kw = dict(maxtries=tries)
    if given:
        kw['vals'] = (f(a), f(b))
    if extra:
        kw['args'] = (tag, 'k')
    if expand:
        kw['expand'] = expand
    try:
        r = U.zbracket(g, a, b, **kw)
    except RuntimeError:
        n = len(calls) - (0 if given else 2)
        ctx.check(tries <= n <= 2 * tries, 'an error only after all tries')
        seq = ([(a, f(a)), (b, f(b))] if given else []) + calls
        # the initial interval was no bracket
        ctx.check(not bool(f(a) * f(b) < 0.0), 'an error only after all tries')
        return
    x1, x2 = r
    ctx.check(bool(f(x1) * f(x2) < 0.0), 'the bracket has values of opposite sign')
    if given and bool(f(a) * f(b) < 0.0):
        ctx.check(len(calls) == 0, 'given values are used')
    lo, hi = (a, b) if bool(a < b) else (b, a)
    if bool(a < b):
        ctx.le(x1, a, 'the bracket contains the initial interval', tol=1e-9)
        ctx.le(b, x2, 'the bracket contains the initial interval', tol=1e-9)
    else:
        ctx.le(a, x1, 'the bracket contains the initial interval', tol=1e-9)
        ctx.le(x2, b, 'the bracket contains the initial interval', tol=1e-9)


def line(ctx, up, side, far):
    U = ctx.world().load('inference.utils.numutils')
    a, w = ctx.real('a', -5, 5), ctx.real('w', 0.5, 2)
    z = ctx.real('z', 1.5 if side > 0 else -far, far if side > 0 else -0.5)
    zero = a + z * w
    slope = ctx.real('slope', 0.1, 10)
    g = lambda x: (x - zero) * slope * up
    rev = ctx.choose('reversed', (0, 1))
    x1, x2 = U.zbracket(g, a, a + w) if not rev else U.zbracket(g, a + w, a)[::-1]
    ctx.le(x1, zero, 'the zero of a line is found', tol=1e-9)
    ctx.le(zero, x2, 'the zero of a line is found', tol=1e-9)


def misuse(ctx):
    U = ctx.world().load('inference.utils.numutils')
    a = ctx.real('a', -5, 5)
    ctx.raises(lambda: U.zbracket(lambda x: x, a, a), ValueError, 'misuse is refused')
    n = []
    def pos(x):
        n.append(x)
        if len(n) > 20:
            ctx.check(False, 'no more tries than allowed')
        return x * x + 1.0
    ctx.reach('no more tries than allowed')
    ctx.raises(lambda: U.zbracket(pos, 0.0, 1.0, maxtries=5), RuntimeError, 'misuse is refused')
    ctx.check(7 <= len(n) <= 12, 'an error only after all tries')


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, path_s=60, case_s=1500 if big else 200)
    out = [Case('misuse', misuse, {}, **O)]
    for t in range(1, 5 if big else 4):
        for given in (0, 1):
            for extra in (0, 1):
                for ex in (None, 0.7):
                    if ex and (given or extra):
                        continue
                    out.append(Case('any-%d-%d-%d-%s' % (t, given, extra, ex), anyf, dict(tries=t, given=given, extra=extra, expand=ex), weight=t, **O))
    for up in (1.0, -1.0):
        for side in (1, -1):
            for far in (2, 100, 1000):
                out.append(Case('line-%g-%d-%d' % (up, side, far), line, dict(up=up, side=side, far=far), **O))
    return out
