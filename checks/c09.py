"""C09: data of a predictor: accepted forms, simulation, isolation of simulated data."""
from symx.runner import Case
from . import util, piemodels as pm

BOUNDS = ('1-3 data (thorough: 5) with symbolic locations (zero included), values, errors in [0.1,100] and normal draws; scalar and 2-vector locations; arbitrary signal function; '
          'data given as three arrays, one table, a list of tuples, or integers; every simulation form, histories of 2 (thorough: 3) simulations; two live instances')
ASSUMPTIONS = ['floats are reals', 'the normal source yields arbitrary numbers, one per datum']
MUST_REACH = ['simulated value is prediction plus noise', 'original data are untouched', 'other instances keep the original data', 'statistic uses the simulated data',
              'number of data', 'data as given']


def stat(ctx, f, pars, l, v, s):
    c = 0.0
    for i in range(len(v)):
        z = (v[i] - f(*(pars + _loc(l[i])))) / s[i]
        c = c + z * z
    return c


def _loc(x):
    return list(x) if hasattr(x, '__len__') else [x]


def copy(a):
    return [([y + 0.0 for y in x] if hasattr(x, '__len__') else x + 0.0) for x in a]


class Normals:
    """the draws, in order"""
    def __init__(self, ctx):
        self.ctx, self.k = ctx, 0

    def next(self):
        c = self.ctx
        n = 'normal%d' % self.k
        self.k += 1
        if c.symbolic:
            return c.core.SymReal._make(c.inputs[n])
        return c.normals[self.k - 1]


OPS = ['sim', 'sim-locns', 'sim-sigmas', 'sim-both', 'sim-more', 'sim1', 'sim1-locn', 'sim1-sigma', 'add1', 'addn']


def sims(ctx, n, nops, ops, vector, ints=False, two=False, equal=False):
    w = ctx.world()
    pie = w.load('inference.pie')
    f = ctx.ufun('f', -1000, 1000)
    if ints:
        l, v, s = ctx.np.array([1, 2, 3][:n]), ctx.np.array([4, 5, 7][:n]), ctx.np.array([1, 2, 2][:n])
    elif two:
        l = ctx.array([[ctx.real('x%d%d' % (i, j), -100, 100) for j in range(2)] for i in range(n)])
        v = ctx.array([ctx.real('y%d' % i, -100, 100) for i in range(n)])
        s = ctx.array([ctx.real('s%d' % i, 0.1, 100) for i in range(n)])
    else:
        l, v, s = pm.triples(ctx, [n])[0]
        if equal:
            s = ctx.array([2.0] * n)
            v = ctx.array([v[0]] * n)
    l0, v0, s0 = copy(l), copy(v), copy(s)
    I = pm.uf_inference(pie, ctx, f, 'Chisqr', [(l, v, s)], 1, None, vector)
    m, o = I(), I()
    o.score()
    a = ctx.real('a', -50, 50)
    m.a = a
    d = m.d1
    L, V, S = copy(l0), copy(v0), copy(s0)
    N = Normals(ctx)
    def newloc(tag):
        if two:
            return [ctx.real('nx%s%d' % (tag, j), -100, 100) for j in range(2)]
        return ctx.real('nx' + tag, -100, 100)
    for t in range(nops):
        op = ctx.choose('op%d' % t, ops)
        k = len(V)
        tg = '_%d_' % t
        if op.startswith('sim') and not op.startswith('sim1'):
            nl = [newloc(tg + str(i)) for i in range(k + (1 if op == 'sim-more' else 0))] if op in ('sim-locns', 'sim-both', 'sim-more') else None
            ns = [ctx.real('ns%s%d' % (tg, i), 0.1, 100) for i in range(k + (1 if op == 'sim-more' else 0))] if op in ('sim-sigmas', 'sim-both', 'sim-more') else None
            al, as_ = (None if nl is None else ctx.array(nl)), (None if ns is None else ctx.array(ns))
            d.sim(al, as_)
            L, S = nl or L, ns or S
            if al is not None:          # what was passed is the caller's
                for i in range(len(al)):
                    for p, q in zip(_loc(al[i]), _loc(L[i])):
                        ctx.eq(p, q, 'original data are untouched')
            V = [f(*([a] + _loc(L[i]))) + S[i] * N.next() for i in range(len(L))]
        elif op.startswith('sim1'):
            i = ctx.choose('i%d' % t, range(k))
            kw = {}
            if op == 'sim1-locn':
                kw['locn'] = newloc(tg)
                L = L[:i] + [kw['locn']] + L[i + 1:]
            if op == 'sim1-sigma':
                kw['sigma'] = ctx.real('ns' + tg, 0.1, 100)
                S = S[:i] + [kw['sigma']] + S[i + 1:]
            d.sim1(i, **kw)
            V = V[:i] + [f(*([a] + _loc(L[i]))) + S[i] * N.next()] + V[i + 1:]
        elif op == 'add1':
            nl, ns = newloc(tg), ctx.real('ns' + tg, 0.1, 100)
            d.add_sim(nl, ns)
            L, S = L + [nl], S + [ns]
            V = V + [f(*([a] + _loc(nl))) + ns * N.next()]
        elif op == 'addn':
            nl = [newloc(tg + str(i)) for i in range(2)]
            ns = [ctx.real('ns%s%d' % (tg, i), 0.1, 100) for i in range(2)]
            d.add_sim(locns=ctx.array(nl), sigmas=ctx.array(ns))
            L, S = L + nl, S + ns
            V = V + [f(*([a] + _loc(nl[i]))) + ns[i] * N.next() for i in range(2)]
        ctx.check(d.ndata == len(V) and len(d.vals) == len(V) and len(d.locns) == len(V) and len(d.sigmas) == len(V), 'number of data')
        for i in range(len(V)):
            ctx.eq(d.vals[i], V[i], 'simulated value is prediction plus noise', tol=1e-6)
            ctx.eq(d.sigmas[i], S[i], 'simulated value is prediction plus noise')
            for p, q in zip(_loc(d.locns[i]), _loc(L[i])):
                ctx.eq(p, q, 'simulated value is prediction plus noise')
        ctx.eq(m.score(), stat(ctx, f, [a], L, V, S), 'statistic uses the simulated data', tol=1e-5)
    for x, y in ((l, l0), (v, v0), (s, s0)):
        ctx.check(len(x) == len(y), 'original data are untouched')
        for i in range(len(y)):
            for p, q in zip(_loc(x[i]), _loc(y[i])):
                ctx.eq(p, q, 'original data are untouched')
    ctx.check(not d.using_globals() and o.d1.using_globals(), 'other instances keep the original data')
    ctx.eq(o.score(), stat(ctx, f, [1.5], l0, v0, s0), 'other instances keep the original data', tol=1e-5)
    ctx.eq(I().score(), stat(ctx, f, [1.5], l0, v0, s0), 'other instances keep the original data', tol=1e-5)


def forms(ctx, form, n):
    w = ctx.world()
    pie = w.load('inference.pie')
    f = ctx.ufun('f', -1000, 1000)
    l, v, s = pm.triples(ctx, [n])[0]
    if form == 'table':
        data = (ctx.array([[l[i], v[i], s[i]] for i in range(n)]),)
    elif form == 'list':
        data = ([(l[i], v[i], s[i]) for i in range(n)],)
    elif form == 'list2d':
        l = ctx.array([[ctx.real('z%d%d' % (i, j), -100, 100) for j in range(2)] for i in range(n)])
        data = ([((l[i][0], l[i][1]), v[i], s[i]) for i in range(n)],)
    else:
        data = (l, v, s)
    I = pm.uf_inference(pie, ctx, f, 'Chisqr', [data], 1)
    m = I()
    ctx.check(m.d1.ndata == n, 'number of data')
    for i in range(n):
        ctx.eq(m.d1.vals[i], v[i], 'data as given')
        ctx.eq(m.d1.sigmas[i], s[i], 'data as given')
    ctx.eq(m.score(), stat(ctx, f, [1.5], copy(l), v, s), 'data as given', tol=1e-5)


def bad(ctx):
    """lengths that do not match are refused"""
    w = ctx.world()
    pie = w.load('inference.pie')
    G = pie.SampledGaussian
    P = w.load('inference.pie.predictor')
    a1, a2 = ctx.array([1.0]), ctx.array([1.0, 2.0])
    for t in ((a1, a2, a2), (a2, a1, a2), (a2, a2, a1)):
        ctx.raises(lambda: G(*t), P.DataError, 'mismatched lengths are refused')
    f = ctx.ufun('f', -1000, 1000)
    I = pm.uf_inference(pie, ctx, f, 'Chisqr', pm.triples(ctx, [2]), 1)
    m = I()
    s0 = m.score()
    for kw in (dict(locns=a1), dict(sigmas=a1), dict(locns=a1, sigmas=a2)):
        ctx.raises(lambda: m.d1.sim(**kw), ValueError, 'mismatched lengths are refused')
        ctx.eq(m.score(), s0, 'a refused simulation changes nothing')
    ctx.raises(lambda: m.d1.add_sim(locns=a1, sigmas=a2), ValueError, 'mismatched lengths are refused')
    ctx.eq(m.score(), s0, 'a refused simulation changes nothing')


def cases(tier):
    big = tier == 'thorough'
    out = [Case('bad', bad)]
    for form in ('table', 'list', 'list2d', 'arrays'):
        for n in (1, 2, 3) + ((6,) if big else ()):
            out.append(Case('forms-%s-%d' % (form, n), forms, dict(form=form, n=n)))
    for vec in (False, True):
        out.append(Case('sims1-%d' % vec, sims, dict(n=2, nops=1, ops=OPS, vector=vec)))
        out.append(Case('sims2-%d' % vec, sims, dict(n=1 if vec else 2, nops=2, ops=OPS, vector=vec)))
        if big:
            out.append(Case('sims3-%d' % vec, sims, dict(n=2, nops=3, ops=OPS, vector=vec)))
            out.append(Case('sims5-%d' % vec, sims, dict(n=5, nops=1, ops=OPS, vector=vec)))
    out.append(Case('ints', sims, dict(n=3, nops=1, ops=OPS, vector=False, ints=True)))
    out.append(Case('equal', sims, dict(n=3, nops=1, ops=OPS, vector=False, equal=True)))
    out.append(Case('two', sims, dict(n=2, nops=1, ops=OPS, vector=False, two=True)))
    if big:
        out.append(Case('two2', sims, dict(n=2, nops=2, ops=OPS, vector=False, two=True)))
        out.append(Case('ints2', sims, dict(n=3, nops=2, ops=OPS, vector=False, ints=True)))
    return out
