"""C19: parameter steps for a given change in log likelihood."""
import math
from symx.runner import Case
from . import util

BOUNDS = ('quadratic log likelihoods in 1-3 dimensions with symbolic curvatures and correlations, peak, guesses and change in log likelihood; '
          'arbitrary functions in 1 and 2 dimensions with at most 1-2 iterations (thorough: 3), tolerances 0.01 and 0.3, changes of 1 and 2; functions that are constant in a parameter')
ASSUMPTIONS = ['arbitrary functions: successive values differ by at least 0.01 (a division by zero is an error in the encoding, an infinite trial step in Fortran)', 'floats are reals', 'a tolerance is absolute or relative to a change of at least 1 (the weaker of both readings is required)']
MUST_REACH = ['steps give the requested change', 'quadratic steps are exact', 'arguments are left alone', 'an error only if a larger value was seen', 'an error only if not converged', 'no effect on the likelihood is refused']
FORTRAN = ['inference.deriv._obsinfo']


def quad(ctx, n, aslist, give):
    D = ctx.world().load('inference.deriv')
    a = [ctx.real('a%d' % i, 0.7, 1.7) for i in range(n)]
    rho = {(i, j): ctx.real('r%d%d' % (i, j), -0.9, 0.9) for i in range(n) for j in range(i + 1, n)}
    mu = [ctx.real('mu%d' % i, -5, 5) for i in range(n)]
    top = ctx.real('top', -50, 50)
    c = ctx.real('c', 0.5, 2)
    def ll(x):
        assert len(x) == n
        s = 0.0
        for i in range(n):
            for j in range(n):
                s = s + a[i] * a[j] * (rho[min(i, j), max(i, j)] if i != j else 1.0) * (x[i] - mu[i]) * (x[j] - mu[j])
        return top - 0.5 * s
    g = [ctx.real('g%d' % i, 0.3, 2) for i in range(n)]
    X, G = (list(mu), list(g)) if aslist else (ctx.array(mu), ctx.array(g))
    kw = dict(maxll=top) if give else {}
    d = D.dllsteps(ll, X, G, 0.5 * c * c, **kw)
    ctx.check(len(d) == n, 'steps give the requested change')
    for i in range(n):
        ctx.eq(d[i] * a[i], c, 'quadratic steps are exact', tol=1e-5)
        ctx.eq(X[i], mu[i], 'arguments are left alone', tol=1e-9)
        ctx.eq(G[i], g[i], 'arguments are left alone', tol=1e-9)


def anyf(ctx, n, maxiter, dll, tol):
    """any function"""
    D = ctx.world().load('inference.deriv')
    f = ctx.ufun('f', -10, 10)
    mu = [0.5, -1.0][:n]
    g = [0.5, 1.25][:n]
    vals = []
    top = f(*mu)
    def ll(x):
        for i in range(n):
            if isinstance(x[i], float) and not math.isfinite(x[i]):
                return -1000.0
        if len(vals) >= 3 * n * (maxiter + 2):
            ctx.check(False, 'no more evaluations than the iterations allow')
        v = f(*[x[i] for i in range(n)])
        if vals:
            ctx.assume(abs(v - top) >= 0.01)
            ctx.assume(abs(v - vals[-1]) >= 0.01)
        vals.append(v)
        return v
    M = ctx.array(mu)
    try:
        d = D.dllsteps(ll, M, ctx.array(g), dll, None, maxiter, tol)
    except ValueError:
        seen = False
        for v in vals:
            seen = seen or bool(v > top)
        ctx.check(seen, 'an error only if a larger value was seen')
        d = None
    except RuntimeError:
        ctx.check(len(vals) > maxiter, 'an error only if not converged')
        d = None
    for i in range(n):
        ctx.eq(M[i], mu[i], 'arguments are left alone', tol=1e-9)
    if d is None:
        return
    for v in vals:
        ctx.le(v, top, 'an error only if a larger value was seen', tol=1e-9)
    for i in range(n):
        p = list(mu)
        p[i] = mu[i] + d[i]
        v = f(*p)
        ctx.le(v - (top - dll), tol * dll, 'steps give the requested change', tol=1e-6)
        ctx.le((top - dll) - v, tol * dll, 'steps give the requested change', tol=1e-6)


def flat(ctx, n):
    D = ctx.world().load('inference.deriv')
    a = ctx.real('a', 0.7, 1.7)
    def ll(x):
        return -0.5 * a * (x[0] * x[0] if n == 2 else 0.0)
    ctx.raises(lambda: D.dllsteps(ll, [0.0] * n, [1.0] * n), RuntimeError, 'no effect on the likelihood is refused')


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200, fork_minmax=True)
    out = []
    for n in (1, 2, 3):
        for give in (0, 1):
            out.append(Case('quad-%d-%d' % (n, give), quad, dict(n=n, aslist=give, give=give), **O))
        if n < 3:
            out.append(Case('flat-%d' % n, flat, dict(n=n), **O))
    for n in (1, 2):
        for it in ((1, 2, 3) if n == 1 and big else (1, 2) if n == 1 or big else (1,)):
            for dll, tol in ((1.0, 0.01), (2.0, 0.3)):
                out.append(Case('any-%d-%d-%g' % (n, it, dll), anyf, dict(n=n, maxiter=it, dll=dll, tol=tol), weight=10 * n + it, **O))
    return out
