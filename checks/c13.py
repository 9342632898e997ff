"""C13: function values and quadrature on grids, before and after refinement."""
import math
from symx.runner import Case
from . import util

BOUNDS = ('basic grids of 2-5 points (thorough: 7): linear with symbolic ends, logarithmic [1,4], [-6,-2]; values symbolic, scalars or tuples, evaluated point by point or as a vector; '
          'refined grids of 3-4 base points refined around 1 peak (thorough: 2) with 3 points per sigma: fitted position and width symbolic on linear grids, seven positions and two widths on logarithmic ones; sub-grids between any two grid points')
ASSUMPTIONS = ['floats are reals', 'the lower end is below the upper one', 'the fitted peak parameters are arbitrary numbers (position between the neighbours of the maximum)',
               'for log quadrature: values are logs of numbers in [0.01,100]']
MUST_REACH = ['points', 'values are those of the function', 'widths', 'trapezoid integral', 'log of the trapezoid integral', 'moments', 'sub-grid', 'refined grid points increase from end to end',
              'number of points', 'iteration yields every point', 'misuse is refused']


def expect_points(ctx, lo, hi, n, log):
    if log:
        return [lo * (hi / lo)**(k / (n - 1.0)) for k in range(n)]
    return [lo + (hi - lo) * k / (n - 1.0) for k in range(n)]


def trap(xs, ys):
    t = 0.0
    for i in range(len(xs) - 1):
        t = t + 0.5 * (xs[i + 1] - xs[i]) * (ys[i] + ys[i + 1])
    return t


def fill(ctx, g, n, vec, seq, ys, zs):
    if vec:
        g.vecfunc(lambda x: ctx.array([[ys[i], zs[i]] for i in range(n)]) if seq else ctx.array(ys))
    else:
        it = iter(range(n))
        def f(x):
            i = next(it)
            return (ys[i], zs[i]) if seq else ys[i]
        g.stepfunc(f, select=0 if seq else None)


def basic(ctx, n, log, vec, seq, what, ends=None):
    G = ctx.world().load('inference.grid.grid1d')
    if ends:
        lo, hi = ends
    else:
        lo, hi = ctx.real('lo', -100, 100), ctx.real('hi', -100, 100)
        ctx.assume(lo + 0.01 <= hi)
    xs = expect_points(ctx, lo, hi, n, log)
    g = G.BasicGrid1D(lo, hi, n, 'log' if log else 'linear')
    for i in range(n):
        x, wd, v = g.point(i)
        ctx.eq(x, xs[i], 'points', tol=1e-6)
        ctx.check(v is None, 'values are those of the function')
    ctx.raises(lambda: g.point(n), ValueError, 'misuse is refused')
    ctx.raises(lambda: g.point(-1), ValueError, 'misuse is refused')
    for q in ('trapzd', 'logtrapzd', 'logtrapzd_mom'):
        ctx.raises(lambda: getattr(g, q)(), RuntimeError, 'misuse is refused')
    if what == 'log':
        vs = [ctx.real('v%d' % i, 0.01, 100) for i in range(n)]
        ys = [ctx.log(v) for v in vs]
    else:
        ys = [ctx.real('y%d' % i, -100, 100) for i in range(n)]
    zs = [ctx.real('z%d' % i, -100, 100) for i in range(n)]
    fill(ctx, g, n, vec, seq, ys, zs)
    for i in range(n):
        x, wd, v = g.point(i)
        ctx.eq(x, xs[i], 'points', tol=1e-6)
        if seq:
            ctx.check(len(v) == 2, 'values are those of the function')
            ctx.eq(v[0], ys[i], 'values are those of the function')
            ctx.eq(v[1], zs[i], 'values are those of the function')
        else:
            ctx.eq(v, ys[i], 'values are those of the function')
        ctx.eq(wd, xs[i + 1] - xs[i] if i < n - 1 else 0.0, 'widths', tol=1e-6)
    sel = 0 if seq else None
    if what == 'lin':
        ctx.eq(g.trapzd(sel), trap(xs, ys), 'trapezoid integral', tol=1e-5)
        if seq:
            ctx.eq(g.trapzd(select=1), trap(xs, zs), 'trapezoid integral', tol=1e-5)
            ctx.raises(lambda: g.trapzd(), ValueError, 'misuse is refused')
            ctx.raises(lambda: g.logtrapzd(), ValueError, 'misuse is refused')
        else:
            ctx.raises(lambda: g.trapzd(select=0), ValueError, 'misuse is refused')
            ctx.raises(lambda: g.logtrapzd(select=0), ValueError, 'misuse is refused')
    else:
        ref = trap(xs, vs)
        ctx.eq(ctx.exp(g.logtrapzd(sel)), ref, 'log of the trapezoid integral', tol=1e-4)
        ctx.eq(ctx.exp(g.logtrapzd_mom(None, sel)), ref, 'log of the trapezoid integral', tol=1e-4)
        q, m1 = g.logtrapzd_mom(1, sel)
        ctx.eq(ctx.exp(q), ref, 'log of the trapezoid integral', tol=1e-4)
        r1 = trap(xs, [x * v for x, v in zip(xs, vs)])
        ctx.eq(m1 * ref, r1, 'moments', tol=1e-3)
        q, m1, m2 = g.logtrapzd_mom(2, sel)
        ctx.eq(m1 * ref, r1, 'moments', tol=1e-3)
        ctx.eq(m2 * ref, trap(xs, [x * x * v for x, v in zip(xs, vs)]), 'moments', tol=1e-3)
        ctx.raises(lambda: g.logtrapzd_mom(3, sel), ValueError, 'misuse is refused')


def sub(ctx, n, log, vec, seq, ends):
    """a sub-grid between two grid points has their points and values"""
    G = ctx.world().load('inference.grid.grid1d')
    lo, hi = ends
    xs = expect_points(ctx, lo, hi, n, log)
    g = G.BasicGrid1D(lo, hi, n, 'log' if log else 'linear')
    ys, zs = [ctx.real('y%d' % i, -100, 100) for i in range(n)], [ctx.real('z%d' % i, -100, 100) for i in range(n)]
    fill(ctx, g, n, vec, seq, ys, zs)
    i = ctx.choose('i', range(n - 1))
    j = ctx.choose('j', range(1, n))
    if j <= i:
        return
    s = g.subgrid(xs[i], xs[j])
    ctx.check(s.n == j - i + 1, 'sub-grid')
    for k in range(s.n):
        x, wd, v = s.point(k)
        ctx.eq(x, xs[i + k], 'sub-grid', tol=1e-6)
        ctx.eq(v[0] if seq else v, ys[i + k], 'sub-grid')
        if seq:
            ctx.eq(v[1], zs[i + k], 'sub-grid')
        ctx.eq(wd, xs[i + k + 1] - xs[i + k] if i + k < j else 0.0, 'sub-grid', tol=1e-6)
    ctx.eq(s.trapzd(0 if seq else None), trap(xs[i:j + 1], ys[i:j + 1]), 'sub-grid', tol=1e-5)
    mid = xs[i] + 0.4 * (xs[i + 1] - xs[i])
    ctx.raises(lambda: g.subgrid(mid, xs[j]), ValueError, 'misuse is refused')
    ctx.raises(lambda: g.subgrid(lo - 1.0, xs[j]), ValueError, 'misuse is refused')
    ctx.raises(lambda: g.subgrid(xs[i], hi + 1.0), ValueError, 'misuse is refused')


def shape(x, xp, w):
    """a generic positive function with its largest value (on the base grid) at xp"""
    return 0.5 + math.exp(-((x - xp) / w)**2) + 0.04 * math.sin(7.3 * x + 0.4) + 0.013 * x


def refined(ctx, n, log, seq, what, ends, nmax, npeak):
    """first pass and refinement around the largest maxima"""
    lo, hi = ends
    fits = []
    def fit(x, y):
        k = len(fits)
        fits.append(k)
        if log:       # a few positions and widths; the values stay symbolic
            m = lo * (hi / lo)**ctx.choose('um%d' % k, (0.0, 0.13, 0.37, 0.5, 0.61, 0.83, 1.0))
            s = m * ctx.choose('c%d' % k, (0.1, 0.4))
        else:
            m = ctx.real('m%d' % k, lo, hi)
            s = ctx.real('s%d' % k, 0.08 * (hi - lo), 0.6 * (hi - lo))
        ctx.assume(m >= x[0])
        ctx.assume(m <= x[2])
        return y[1], m, s
    w = ctx.world(patch={'inference.grid.grid1d': dict(PeakParams=fit)})
    G = w.load('inference.grid.grid1d')
    xs = expect_points(ctx, lo, hi, n, log)
    if what == 'log':
        U = ctx.real('U', -3, 3)
        amp = None
    elif log:
        amp = ctx.choose('amp', (0.4, 1.0, 5.0))
    else:
        amp = ctx.real('amp', 0.2, 5)
    off, amp2 = ctx.real('off', -10, 10), ctx.real('amp2', -5, 5)
    vals = {}
    def key(x):
        return round(float(x), 6)
    def f(x):
        k = key(x)
        if k not in vals:
            h = shape(k, xs[npeak], 0.4 * (hi - lo))
            if what == 'log':
                vals[k] = (h, U + math.log(h))
            else:
                vals[k] = (None, off + amp * h)
            vals[k] += (amp2 * math.cos(3 * k) if seq else None,)
        return (vals[k][2], vals[k][1]) if seq else vals[k][1]
    for k, x in enumerate(xs):
        f(x)
    g = G.Grid1D(lo, hi, n, 'log' if log else 'linear', nmax=nmax, sigpts=3, nsig=1)
    ctx.raises(lambda: g.refine(), RuntimeError, 'misuse is refused')
    sel = 1 if seq else None
    g.firstpass(f, select=sel)
    ctx.check(len(g) == n, 'number of points')
    for i in range(n):
        ctx.eq(g[i][0], xs[i], 'points', tol=1e-6)
        ctx.eq(g[i][2][1] if seq else g[i][2], vals[key(xs[i])][1], 'values are those of the function')
    g.refine()
    pts = [g.point(i) for i in range(len(g))]
    ctx.check(len(g) == sum(q.n - 1 for q in g.glist) + 1, 'number of points')
    its = list(g)
    ctx.check(len(its) == len(pts), 'iteration yields every point')
    px = [p[0] for p in pts]
    ctx.eq(px[0], lo, 'refined grid points increase from end to end', tol=1e-6)
    ctx.eq(px[-1], hi, 'refined grid points increase from end to end', tol=1e-6)
    for a, b in zip(px[:-1], px[1:]):
        ctx.check(a < b, 'refined grid points increase from end to end')
    for i, (x, wd, v) in enumerate(pts):
        ctx.check(key(x) in vals, 'values are those of the function')
        ctx.eq(v[1] if seq else v, vals[key(x)][1], 'values are those of the function')
        if seq:
            ctx.eq(v[0], vals[key(x)][2], 'values are those of the function')
        ctx.eq(wd, px[i + 1] - x if i < len(px) - 1 else 0.0, 'widths', tol=1e-6)
        ctx.eq(its[i][0], x, 'iteration yields every point')
        ctx.eq(its[i][1], wd, 'iteration yields every point')
    ctx.raises(lambda: g.point(len(px)), ValueError, 'misuse is refused')
    if what == 'lin':
        ctx.eq(g.trapzd(sel), trap(px, [vals[key(x)][1] for x in px]), 'trapezoid integral', tol=1e-4)
        if seq:
            ctx.eq(g.trapzd(0), trap(px, [vals[key(x)][2] for x in px]), 'trapezoid integral', tol=1e-4)
    else:
        fv = [vals[key(x)][0] for x in px]
        kx = [key(x) for x in px]
        ref = trap(kx, fv)
        L, r1, r2 = math.log(ref), trap(kx, [x * y for x, y in zip(kx, fv)]) / ref, trap(kx, [x * x * y for x, y in zip(kx, fv)]) / ref
        ctx.eq(g.logtrapzd(sel), U + L, 'log of the trapezoid integral', tol=1e-3)
        q, m1, m2 = g.logtrapzd_mom(2, sel)
        ctx.eq(q, U + L, 'log of the trapezoid integral', tol=1e-3)
        ctx.eq(m1, r1, 'moments', tol=1e-3)
        ctx.eq(m2, r2, 'moments', tol=1e-3)
        q, m1 = g.logtrapzd_mom(1, sel)
        ctx.eq(m1, r1, 'moments', tol=1e-3)
        ctx.eq(g.logtrapzd_mom(select=sel), U + L, 'log of the trapezoid integral', tol=1e-3)


def cases(tier):
    big = tier == 'thorough'
    out = []
    O = dict(fork_minmax=False, timeout_ms=8000, case_s=1500 if big else 200)
    for n in (2, 3, 5) + ((4, 7) if big else ()):
        for log, ends in ((0, None), (1, (1.0, 4.0)), (1, (-6.0, -2.0))):
            for vec in (0, 1):
                for seq in (0, 1):
                    for what in ('lin', 'log'):
                        if what == 'log' and n > 3 and not big:
                            continue
                        out.append(Case('basic-%d-%d%s-%d-%d-%s' % (n, log, 'n' if ends and ends[0] < 0 else '', vec, seq, what), basic,
                                        dict(n=n, log=log, vec=vec, seq=seq, what=what, ends=ends if log else (None if what == 'lin' else (-1.0, 2.0))), weight=n, **O))
    for log, ends in ((0, (-1.0, 3.0)), (1, (1.0, 16.0))):
        for vec in (0, 1):
            out.append(Case('sub-%d-%d' % (log, vec), sub, dict(n=5, log=log, vec=vec, seq=vec, ends=ends), **O))
    R = dict(fork_minmax=True, exp_cmp=True, exp_lemmas=False, timeout_ms=8000, case_s=1500 if big else 200)
    for log, ends in ((0, (0.0, 2.0)), (1, (1.0, 4.0))):
        for pk in (0, 1, 2):
            for what in ('lin', 'log'):
                out.append(Case('refined-%d-%d-%s' % (log, pk, what), refined, dict(n=3, log=log, seq=0, what=what, ends=ends, nmax=1, npeak=pk), weight=30, **R))
    for pk in (1, 2):
        out.append(Case('refined4-%d-lin' % pk, refined, dict(n=4, log=0, seq=1, what='lin', ends=(-1.0, 2.0), nmax=1, npeak=pk), weight=30, **R))
    out.append(Case('refined4-1-log', refined, dict(n=4, log=0, seq=1, what='log', ends=(-1.0, 2.0), nmax=1, npeak=1), weight=30, **R))
    if big:
        for what in ('lin', 'log'):
            out.append(Case('refined5-%s' % what, refined, dict(n=5, log=0, seq=1, what=what, ends=(-1.0, 2.0), nmax=None, npeak=2), weight=30, **R))
            out.append(Case('refined5-%s-l' % what, refined, dict(n=5, log=1, seq=1, what=what, ends=(1.0, 9.0), nmax=None, npeak=3), weight=30, **R))
    return out
