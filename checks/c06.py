"""C06: what a fit returns and leaves behind."""
from symx.runner import Case
from . import util, piemodels as pm

BOUNDS = ('1-3 varying parameters plus one fixed, symbolic start values, ranges and scales, with and without bound mapping; arbitrary '
          'signal function, 1 datum; an arbitrary optimizer meeting its contract with 1-3 trial points in each of its calls')
ASSUMPTIONS = ['floats are reals', 'the minimizer returns an evaluated point that is no worse than its start, with its value (C07); '
               'where bounds are not mapped it evaluates inside the ranges']
MUST_REACH = ['statistic is the score at the returned parameters', 'no worse than the start', 'model is left at the fit', 'returned values in range']


def fit(ctx, kind, nvar, ntrial, mapb, fixed_after=False):
    lohi = [(-5.0, 7.0), (0.0, 20.0), (-3.0, -1.0)]
    opt = pm.Optimizer(ctx, lohi, ntrial, mapb)
    w = ctx.world(patch={'inference.utils.nrmin': {'powell': opt.powell}})
    pie = w.load('inference.pie')
    f, prior = ctx.ufun('f', -1000, 1000), ctx.ufun('prior', -1000, 1000)
    data = pm.triples(ctx, [1])
    for t in data:
        t[2][0] = 1.0
    npar = nvar + 1
    I = pm.uf_inference(pie, ctx, f, kind, data, min(npar, 3), prior)
    m = I()
    names = 'abc'[:nvar][::-1]          # declared varying in reverse source order
    start = {}
    for i, nm in enumerate(names):
        lo, hi = lohi[i]
        start[nm] = ctx.real('start_' + nm, lo + 0.001, hi - 0.001)
        getattr(m, nm).vary(start[nm], ctx.real('delta_' + nm, 0.01, 30), (lo, hi))
    base = dict(a=1.5, b=2.5, c=-0.5)
    if mapb:
        m.map_bounds()
    def want(vals):
        p = dict(base)
        p.update(vals)
        return pm.expected(ctx, kind, f, [p[n] for n in 'abc'[:min(npar, 3)]], data, prior)
    s0 = want(start)
    params, stat = m.fit()
    for dd in opt.scales:
        for r in range(nvar):
            for q in range(nvar):
                ctx.check(not (isinstance(dd[r][q], float) and (dd[r][q] != dd[r][q] or abs(dd[r][q]) > 1e300)), 'search scales are finite')
    got = dict(zip(names, list(params)))
    ctx.check(len(params) == nvar, 'one value per varying parameter')
    for i, nm in enumerate(names):
        ctx.between(got[nm], lohi[i][0], lohi[i][1], 'returned values in range', tol=1e-6)
        ctx.eq(getattr(m, nm), got[nm], 'model is left at the fit', tol=1e-6)
    ctx.eq(stat, want(got), 'statistic is the score at the returned parameters', tol=1e-5)
    sgn = 1.0 if kind == 'Chisqr' else -1.0
    ctx.le(sgn * stat, sgn * s0, 'no worse than the start', tol=1e-5)
    for nm in 'abc'[:min(npar, 3)]:
        if nm not in names:
            ctx.eq(getattr(m, nm), base[nm], 'fixed parameters are not touched')
    # the model now evaluates at the fit
    ctx.eq(m.score(), stat, 'model is left at the fit', tol=1e-5)


def nothing(ctx):
    """fitting with nothing to vary is refused by the optimizer front end; with everything fixed the score is returned"""
    w = ctx.world()
    pie = w.load('inference.pie')
    f = ctx.ufun('f', -1000, 1000)
    data = pm.triples(ctx, [2])
    I = pm.uf_inference(pie, ctx, f, 'Chisqr', data, 2)
    m = I()
    m.a = a = ctx.real('a', -50, 50)
    ctx.eq(m.fit(), pm.expected(ctx, 'Chisqr', f, [a, 2.5], data), 'all fixed: fit is the score')
    ctx.raises(m.optimize, pie.InferenceError, 'optimizing nothing is refused')
    m.a.vary(a, 0.1, (-60, 60))
    ctx.raises(lambda: m.fit(method='nosuch'), pie.InferenceError, 'an unknown method is refused')


def cases(tier):
    out = [Case('nothing', nothing)]
    big = tier == 'thorough'
    for kind in ('Chisqr', 'MaxLike', 'Bayesian'):
        L = [(1, 2, False), (1, 2, True), (2, 1, False), (2, 1, True), (3, [0, 1], False), (3, [0, 1], True)]
        if big:
            L += [(1, 3, False), (1, 3, True), (2, 2, False), (2, 2, True), (3, 1, False), (3, 1, True)]
        for nvar, nt, mapb in L:
            out.append(Case('fit-%s-%d-%s-%s' % (kind, nvar, nt if isinstance(nt, int) else '01', 'mapped' if mapb else 'plain'), fit, dict(kind=kind, nvar=nvar, ntrial=nt, mapb=mapb), weight=nvar * (nt if isinstance(nt, int) else 1)))
    return out
