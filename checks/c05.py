"""C05: the score of an inference."""
from symx.runner import Case
from . import util, piemodels as pm

BOUNDS = ('arbitrary signal function (uninterpreted, scalar or vector form) of 1-3 parameters; 1-3 predictors with 1-3 data each (thorough: up to 6 data); '
          'data, error bars in [0.1,100], parameter values and an arbitrary log prior are symbolic reals; up to 3 evaluations with '
          'parameter changes by every route (assignment, fix, vary, step, set) in between')
ASSUMPTIONS = ['floats are reals', 'the user signal and prior are functions of the parameters and the location only']
MUST_REACH = ['score', 'score after a change', 'log likelihood is -chi2/2', 'predictors do not see stale parameters']


def score(ctx, kind, sizes, npar, vector):
    w = ctx.world()
    pie = w.load('inference.pie')
    f, prior = ctx.ufun('f', -1000, 1000), ctx.ufun('prior', -1000, 1000)
    data = pm.triples(ctx, sizes)
    I = pm.uf_inference(pie, ctx, f, kind, data, npar, prior, vector)
    m = I()
    pars = [ctx.real('p%d' % i, -50, 50) for i in range(npar)]
    for nme, v in zip('abc', pars):
        setattr(m, nme, v)
    want = pm.expected(ctx, kind, f, pars, data, prior)
    ctx.eq(m.score(), want, 'score')
    ctx.eq(m.fit(), want, 'fit of fixed parameters is the score')
    if kind == 'Bayesian':
        ctx.eq(m.logp(), want, 'log posterior is the score')
    for j, (l, v, s) in enumerate(data):
        d = getattr(m, {1: ['d1'], 2: ['d2', 'd1'], 3: ['d3', 'd1', 'd2']}[len(data)][j])
        c2 = pm.chisq(ctx, f, pars, [data[j]])
        ctx.eq(d.log_like(), -0.5 * c2, 'log likelihood is -chi2/2')
        ctx.eq(d.chisqr(), c2, 'log likelihood is -chi2/2')
        for i in range(len(v)):
            ctx.eq(d.prdxns[i], f(*(pars + [l[i]])), 'predictions')
            ctx.eq(d.resids[i], v[i] - f(*(pars + [l[i]])), 'residuals')


def changes(ctx, kind, vector, nchange, order):
    """after any change of a parameter the score is that of the current values; an instance does not see another one's changes"""
    w = ctx.world()
    pie = w.load('inference.pie')
    f, prior = ctx.ufun('f', -1000, 1000), ctx.ufun('prior', -1000, 1000)
    data = pm.triples(ctx, [2, 1])
    seen = []
    I = pm.uf_inference(pie, ctx, f, kind, data, 2, prior, vector, counts=seen)
    m, o = I(), I()
    cur = [1.5, 2.5]
    ctx.eq(m.score(), pm.expected(ctx, kind, f, cur, data, prior), 'score')
    for t in range(nchange):
        k = ctx.choose('par%d' % t, [0, 1])
        how = ctx.choose('how%d' % t, order)
        nme = 'ab'[k]
        v = ctx.real('v%d' % t, -50, 50)
        h = getattr(m, nme)
        if how == 'assign':
            setattr(m, nme, v)
        elif how == 'fix':
            h.fix(v)
        elif how == 'vary':
            h.vary(v, 0.1, (-60, 60))
        elif how == 'set':
            h.vary(0.25, 0.1, (-60, 60))
            m.score()
            getattr(m, nme).set_value(v)
        elif how == 'step':
            h.linstep(-60, v, 2)
            m.score()
            getattr(m, nme).next_step()
        elif how == 'unbounded':
            h.vary(0.25, 0.1, (-60, 60))
            m.score()
            getattr(m, nme)._unbounded_set_value(0.0)
            v = 0.0
        cur[k] = v
        # stepping parameters are put back to their first step when another one starts stepping
        cur2 = [getattr(m, n2) + 0.0 for n2 in 'ab']
        ctx.eq(cur2[k], v, 'parameter holds the value given', tol=1e-6)
        del seen[:]
        ctx.eq(m.score(), pm.expected(ctx, kind, f, cur2, data, prior), 'score after a change')
        ctx.check(len(seen) >= 1, 'predictors do not see stale parameters')
        for s in seen:
            for x, y in zip(s, cur2):
                ctx.eq(x, y, 'predictors do not see stale parameters')
    ctx.eq(o.score(), pm.expected(ctx, kind, f, [1.5, 2.5], data, prior), 'other instances are unaffected')
    I2 = pm.uf_inference(pie, ctx, f, kind, data, 2, prior, vector)
    ctx.eq(I2().score(), pm.expected(ctx, kind, f, [1.5, 2.5], data, prior), 'other instances are unaffected')


def locns2d(ctx, kind):
    """vector-valued locations are passed to the scalar signal as separate arguments"""
    w = ctx.world()
    pie = w.load('inference.pie')
    f, prior = ctx.ufun('f', -1000, 1000), ctx.ufun('prior', -1000, 1000)
    l = ctx.array([[ctx.real('x%d%d' % (i, j), -100, 100) for j in range(2)] for i in range(2)])
    v = ctx.array([ctx.real('y%d' % i, -100, 100) for i in range(2)])
    s = ctx.array([ctx.real('s%d' % i, 0.1, 100) for i in range(2)])
    I = pm.uf_inference(pie, ctx, f, kind, [(l, v, s)], 2, prior)
    m = I()
    m.a = a = ctx.real('pa', -50, 50)
    c = 0.0
    for i in range(2):
        z = (v[i] - f(a, 2.5, l[i][0], l[i][1])) / s[i]
        c = c + z * z
    want = c if kind == 'Chisqr' else -0.5 * c + (prior(a, 2.5) if kind == 'Bayesian' else 0.0)
    ctx.eq(m.score(), want, 'score')


def cases(tier):
    out = []
    big = tier == 'thorough'
    for kind in ('Chisqr', 'MaxLike', 'Bayesian'):
        for sizes in [(1,), (3,), (2, 1), (1, 1, 2)] + ([(6,), (4, 4), (5,), (3, 3, 3), (1, 6)] if big else []):
            for vec in (False, True):
                npar = {1: 1, 3: 3}.get(sum(sizes), 2)
                out.append(Case('score-%s-%s-%d' % (kind, 'x'.join(map(str, sizes)), vec), score,
                                dict(kind=kind, sizes=list(sizes), npar=npar, vector=vec)))
        for n in util.mine_ints(['pie/gaussian.py', 'pie/chisqr.py', 'pie/maxlike.py', 'pie/bayes.py'], 4, 120):
            out.append(Case('score-%s-mined%d' % (kind, n), score, dict(kind=kind, sizes=[n], npar=1, vector=True)))
        R = ['assign', 'fix', 'vary', 'set', 'step', 'unbounded']
        out.append(Case('changes-%s' % kind, changes, dict(kind=kind, vector=False, nchange=2, order=R)))
        if big:
            out.append(Case('changes3-%s' % kind, changes, dict(kind=kind, vector=True, nchange=3, order=R), weight=5))
        out.append(Case('locns2d-%s' % kind, locns2d, dict(kind=kind)))
    return out
