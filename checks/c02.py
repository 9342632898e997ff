"""C02: fits on a grid of stepped parameters fill every cell with the score (or profile) at that cell."""
from symx.runner import Case
from . import util, piemodels as pm, c01

BOUNDS = ('1-2 stepped parameters (3 in thorough) of 2-3 points (one parameter also 2-20 and sizes near integer literals), linear or log, with symbolic '
          'ends; the walk may have been left at any position before the fit; arbitrary signal function; profiles: one or two varying parameters, '
          '2-4 cells, an arbitrary optimizer meeting its contract with 1-2 trial points per call')
ASSUMPTIONS = ['floats are reals', 'profiles: the minimizer returns an evaluated point that is no worse than its start, with its value (C07)']
MUST_REACH = ['cell holds the score there', 'every cell is filled', 'profile cell is the score at its optimum', 'best profile cell']


def values(ctx, kind, kinds, steps, history):
    w = ctx.world()
    pie = w.load('inference.pie')
    npar = max(2, len(kinds))
    f, prior = ctx.ufun('f', -1000, 1000), ctx.ufun('prior', -1000, 1000)
    data = pm.triples(ctx, [1])
    I = pm.uf_inference(pie, ctx, f, kind, data, npar, prior)
    m = I()
    names = list('abc'[:len(kinds)])[::-1]          # declared in reverse source order
    info = {}
    for nm, kd, n in zip(names, kinds, steps):
        info[nm] = c01.start(ctx, m, nm, kd, n, nm)
    if history:
        j = ctx.choose('moves', range(util.prod(steps)))
        for _ in range(j):
            m.next_step()
    g = m.fit()
    ctx.check(tuple(g.shape) == tuple(steps) and g.values.shape == tuple(steps), 'shape of the grid')
    ctx.check([ax[0] for ax in g.axes] == names and g.ndim == len(names), 'axes describe the parameters')
    for ax, nm in zip(g.axes, names):
        ctx.eq(ax[1], info[nm]['lo'], 'axes describe the parameters', tol=1e-6)
        ctx.eq(ax[2], info[nm]['hi'], 'axes describe the parameters', tol=1e-6)
        ctx.check(ax[3] == info[nm]['n'], 'axes describe the parameters')
    base = dict(a=1.5, b=2.5, c=-0.5)
    for idx in util.grid(*steps):
        pars = dict(base)
        for nm, k in zip(names, idx):
            pars[nm] = info[nm]['val'](k)
        v = g.values[idx]
        ctx.check(not (isinstance(v, float) and v != v), 'every cell is filled')
        ctx.eq(v, pm.expected(ctx, kind, f, [pars[n] for n in 'abc'[:npar]], data, prior), 'cell holds the score there', tol=1e-5)
    # a second fit of the same grid gives the same values
    g2 = m.fit()
    for idx in util.grid(*steps):
        ctx.eq(g2.values[idx], g.values[idx], 'repeating the fit repeats the result', tol=1e-5)


def profile(ctx, kind, steps, nvar, ntrial, vargrid, history=False, mapb=False):
    boxes = [(-60.0, 60.0), (-60.0, 60.0)]
    opt = pm.Optimizer(ctx, boxes, ntrial, mapb)
    w = ctx.world(patch={'inference.utils.nrmin': {'powell': opt.powell}})
    pie = w.load('inference.pie')
    npar = len(steps) + nvar
    f, prior = ctx.ufun('f', -1000, 1000), ctx.ufun('prior', -1000, 1000)
    data = pm.triples(ctx, [1], slo=1)
    for t in data:
        t[2][0] = 1.0
    I = pm.uf_inference(pie, ctx, f, kind, data, npar, prior)
    m = I()
    names = list('abc'[:npar])
    snames, vnames = names[:len(steps)], names[len(steps):]
    info = {}
    for nm in vnames:
        getattr(m, nm).vary(0.5, 0.1, (-60.0, 60.0))
    if mapb:
        m.map_bounds()
    for nm, n in zip(snames, steps):
        info[nm] = c01.start(ctx, m, nm, 'lin', n, nm)
    if history:
        m.next_step()
    r = m.fit(vargrid=vargrid)
    g, vg = r if vargrid else (r, None)
    best, bi = None, None
    sgn = 1.0 if kind == 'Chisqr' else -1.0
    for idx in util.grid(*steps):
        v = g.values[idx]
        ctx.check(not (isinstance(v, float) and v != v), 'every cell is filled')
        if vargrid:
            pars = {}
            for nm, k in zip(snames, idx):
                pars[nm] = info[nm]['val'](k)
            vv = vg.values[idx]
            vv = [vv] if nvar == 1 else list(vv)
            for nm, x in zip(vnames, vv):
                pars[nm] = x
                ctx.between(x, -60.0, 60.0, 'varied values stay in range', tol=1e-6)
            ctx.eq(v, pm.expected(ctx, kind, f, [pars[n] for n in names], data, prior), 'profile cell is the score at its optimum', tol=1e-5)
        ctx.le(sgn * g.opt_val, sgn * v, 'best profile cell')
    ctx.eq(g.opt_val, g.values[g.opt_ind], 'best profile cell')
    if vargrid:
        ctx.check(tuple(vg.opt_ind) == tuple(g.opt_ind), 'best profile cell')


def novary(ctx, kind, n):
    """asking for the grid of varied values without varying parameters still returns the grid of scores"""
    w = ctx.world()
    pie = w.load('inference.pie')
    f, prior = ctx.ufun('f', -1000, 1000), ctx.ufun('prior', -1000, 1000)
    data = pm.triples(ctx, [1])
    I = pm.uf_inference(pie, ctx, f, kind, data, 2, prior)
    m = I()
    info = c01.start(ctx, m, 'a', 'lin', n, 'a')
    g = m.fit(vargrid=True)
    for k in range(n):
        ctx.eq(g.values[k], pm.expected(ctx, kind, f, [info['val'](k), 2.5], data, prior), 'cell holds the score there', tol=1e-5)


def cases(tier):
    out = []
    big = tier == 'thorough'
    K = {'l': 'lin', 'g': 'log', 'n': 'neg'}
    for kind in ('Chisqr', 'MaxLike', 'Bayesian'):
        L = [('l', (2,)), ('l', (5,)), ('g', (3,)), ('ll', (3, 2)), ('lg', (2, 3)), ('lll', (2, 2, 2))]
        if big:
            L += [('lll', (3, 2, 2)), ('ll', (4, 4)), ('ng', (3, 3)), ('lgl', (3, 2, 2))]
        for kinds, steps in L:
            out.append(Case('values-%s-%s-%s' % (kind, kinds, 'x'.join(map(str, steps))), values,
                            dict(kind=kind, kinds=[K[k] for k in kinds], steps=list(steps), history=False)))
            if len(kinds) < 3 or big:
                out.append(Case('values-%s-%s-%s-from-anywhere' % (kind, kinds, 'x'.join(map(str, steps))), values,
                                dict(kind=kind, kinds=[K[k] for k in kinds], steps=list(steps), history=True)))
        P = [((2,), 1, 2, True, False, False), ((2,), 1, 1, False, True, False), ((2, 2), 1, [0, 1], True, False, False), ((2,), 2, 1, True, False, False),
             ((2,), 1, [0, 1], True, False, True)]
        if big:
            P += [((3,), 1, 2, True, True, False), ((2, 2), 1, 1, True, True, False), ((3,), 2, 1, True, True, False)]
        for steps, nvar, ntrial, vg, hist, mapb in P:
            out.append(Case('profile-%s-%s-%d-%s-%d%d%d' % (kind, 'x'.join(map(str, steps)), nvar, ntrial if isinstance(ntrial, int) else '%d+%d' % tuple(ntrial), vg, hist, mapb), profile,
                            dict(kind=kind, steps=list(steps), nvar=nvar, ntrial=ntrial, vargrid=vg, history=hist, mapb=mapb), weight=3, max_paths=3000 if not big else 40000))
        out.append(Case('novary-%s' % kind, novary, dict(kind=kind, n=2)))
    for n in util.mine_ints(['pie/realparam.py', 'pie/inference_base.py', 'pie/containers.py'], 6, 400):
        out.append(Case('values-mined-%d' % n, values, dict(kind='Chisqr', kinds=['lin'], steps=[n], history=False)))
    return out
