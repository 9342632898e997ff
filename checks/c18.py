"""C18: observed information matrix."""
import math
from symx.runner import Case
from . import util, piemodels

BOUNDS = ('quadratic log likelihoods in 1-3 dimensions with symbolic curvatures in [0.5,3] and correlations in [-0.9,0.9], symbolic location, peak value and step sizes; 0-3 extrapolations; '
          'quartic in one dimension, with 1-3 extrapolations; arbitrary functions in 1 and 2 dimensions without extrapolation; '
          'Bayesian inferences with 1 and 2 parameters, linear signal, 3 data, a quadratic or flat log prior, varying and fixed parameters')
ASSUMPTIONS = ['floats are reals', 'the location is given as the maximum']
MUST_REACH = ['information is the negative Hessian', 'error estimate', 'plain second differences', 'arguments are left alone', 'information of an inference', 'the inference is left at the mode',
              'repeated calls agree']
FORTRAN = ['inference.deriv._obsinfo']


def quad(ctx, n, niter, give, aslist):
    D = ctx.world().load('inference.deriv')
    a = [ctx.real('a%d' % i, 0.7, 1.7) for i in range(n)]
    rho = {(i, j): ctx.real('r%d%d' % (i, j), -0.9, 0.9) for i in range(n) for j in range(i + 1, n)}
    mu = [ctx.real('mu%d' % i, -5, 5) for i in range(n)]
    top = ctx.real('top', -50, 50)
    def A(i, j):
        i, j = min(i, j), max(i, j)
        return a[i] * a[j] * (rho[i, j] if i != j else 1.0)
    def ll(x):
        assert len(x) == n
        s = 0.0
        for i in range(n):
            for j in range(n):
                s = s + A(i, j) * (x[i] - mu[i]) * (x[j] - mu[j])
        return top - 0.5 * s
    steps = [ctx.real('h%d' % i, 0.3, 2) for i in range(n)]
    X, H = (list(mu), list(steps)) if aslist else (ctx.array(mu), ctx.array(steps))
    info, err = D.obsinfo(ll, X, H, top if give else None, niter) if niter != 2 else D.obsinfo(ll, X, H, top if give else None)
    ctx.check(info.shape == (n, n) and err.shape == (n, n), 'information is the negative Hessian')
    for i in range(n):
        for j in range(n):
            ctx.eq(info[i, j], A(i, j), 'information is the negative Hessian', tol=1e-6)
            ctx.between(err[i, j], 0.0, 1e-6, 'error estimate', tol=1e-6)
    for i in range(n):
        ctx.eq(X[i], mu[i], 'arguments are left alone', tol=1e-9)
        ctx.eq(H[i], steps[i], 'arguments are left alone', tol=1e-9)


def poly(ctx, deg, niter):
    """higher even terms are removed by the extrapolation"""
    D = ctx.world().load('inference.deriv')
    a = ctx.real('a', 0.7, 1.7)
    q = ctx.real('q', -0.4, 0.4)
    mu, h = ctx.real('mu', -5, 5), ctx.real('h', 0.3, 1)
    def ll(x):
        d = x[0] - mu
        d2 = d * d
        return 2.0 - 0.5 * a * a * d2 + q * d2 * d2
    info, err = D.obsinfo(ll, [mu], [h], 2.0, niter)
    # the smallest error estimate selects; the true error is within it
    ctx.le(info[0, 0] - a * a, err[0, 0], 'error estimate', tol=1e-6)
    ctx.le(a * a - info[0, 0], err[0, 0], 'error estimate', tol=1e-6)
    ctx.eq(info[0, 0], a * a, 'information is the negative Hessian', tol=1e-6)


def plain(ctx, n):
    """arbitrary functions, no extrapolation"""
    D = ctx.world().load('inference.deriv')
    f = ctx.ufun('f', -10, 0)
    mu = [ctx.real('mu%d' % i, -5, 5) for i in range(n)]
    calls = []
    def ll(x):
        calls.append([x[i] for i in range(n)])
        return f(*[x[i] for i in range(n)])
    h = [0.5, 1.25][:n]
    top = f(*mu)
    for i in range(n):          # a maximum, so that the scales of the mixed differences exist
        up, dn = list(mu), list(mu)
        up[i], dn[i] = mu[i] + h[i], mu[i] - h[i]
        ctx.assume(f(*up) + f(*dn) + 0.1 <= 2.0 * top)
    info, err = D.obsinfo(ll, mu, h, None, 0)
    for i in range(n):
        up, dn = list(mu), list(mu)
        up[i], dn[i] = mu[i] + h[i], mu[i] - h[i]
        ctx.eq(info[i, i] * h[i] * h[i], 2.0 * top - f(*up) - f(*dn), 'plain second differences', tol=1e-6)
        ctx.eq(err[i, i], 0.0, 'error estimate')
    if n == 2:
        ctx.eq(info[0, 1], info[1, 0], 'plain second differences', tol=1e-9)
        ctx.eq(err[0, 1], 0.0, 'error estimate')
        ctx.eq(err[1, 0], 0.0, 'error estimate')


def infer(ctx, npar, fix, steps, n, prior, twice):
    """obs_info of an inference with a linear signal is exactly the weighted normal matrix plus the prior curvature"""
    w = ctx.world()
    pie = w.load('inference.pie')
    X, E = [0.5, 1.0, 3.0], [1.0, 2.0, 0.5]
    # exact data at the mode: the residuals vanish there
    a0, b0 = ctx.real('a0', -3, 3), ctx.real('b0', -3, 3)
    k = ctx.real('k', 0.5, 1.5) if prior else 0.0
    A0, B0 = a0 + 0.0, b0 + 0.0
    class M(pie.SignalModel):
        a = pie.RealParam(1.5, 'slope')
        b = pie.RealParam(2.5, 'offset')
        def signal(self, x):
            return self.a * x + self.b
        def log_prior(self):
            return -0.5 * k * k * (self.a - A0) * (self.a - A0) + 0.7
    V = [a0 * x + b0 for x in X]
    class D(pie.PredictorSet):
        d1 = pie.SampledGaussian(ctx.array(X), ctx.array(V), ctx.array(E))
    class I(pie.BayesianInference, M, D):
        pass
    m = I()
    m.a = a0
    m.b = b0
    names = ['a', 'b']
    if fix:
        getattr(m, fix).fix()
        names.remove(fix)
    for nm in names:
        getattr(m, nm).vary(delta=0.3, range=(-40.0, 40.0))
    m.score()
    def A(p, q):
        g = {'a': X, 'b': [1.0] * 3}
        s = 0.0
        for i in range(3):
            s = s + g[p][i] * g[q][i] / (E[i] * E[i])
        if p == q == 'a':
            s = s + k * k
        return s
    kw = dict(n=n)
    st = None
    if steps:
        st = ctx.array([0.37, 0.21][:len(names)])
        kw['steps'] = st
    for t in range(2 if twice else 1):
        r = m.obs_info(err=True, **kw) if t == 0 else (m.obs_info(**kw), None)
        info = r[0]
        for i, p in enumerate(names):
            for j, q in enumerate(names):
                ctx.eq(info[i, j], A(p, q), 'information of an inference' if t == 0 else 'repeated calls agree', tol=1e-5)
        for nm, v in (('a', a0), ('b', b0)):
            ctx.eq(getattr(m, nm) + 0.0, v, 'the inference is left at the mode', tol=1e-9)
        ctx.eq(m.logp(), 0.7, 'the inference is left at the mode', tol=1e-7)
    if steps:
        for i, v in enumerate([0.37, 0.21][:len(names)]):
            ctx.eq(st[i], v, 'arguments are left alone', tol=1e-12)


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200, fork_minmax=True)
    out = []
    for n in (1, 2, 3):
        for niter in (0, 1, 2, 3):
            if n == 3 and niter > 1 and not big:
                continue
            out.append(Case('quad-%d-%d' % (n, niter), quad, dict(n=n, niter=niter, give=niter % 2, aslist=(n + niter) % 2), weight=n * 10 + niter, **O))
    for deg, it in ((4, 1), (4, 2), (4, 3)):
        out.append(Case('poly-%d-%d' % (deg, it), poly, dict(deg=deg, niter=it), weight=20, **O))
    for n in (1, 2):
        out.append(Case('plain-%d' % n, plain, dict(n=n), **O))
    for fix in ('a', 'b', None):
        for steps in (0, 1):
            for prior in (0, 1):
                out.append(Case('infer-%s-%d-%d' % (fix, steps, prior), infer, dict(npar=2, fix=fix, steps=steps, n=1 if steps else 3, prior=prior, twice=True), weight=40, **O))
    return out
