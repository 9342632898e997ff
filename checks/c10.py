"""C10: normalization and tail fractions of gridded densities."""
from symx.runner import Case
from . import util

BOUNDS = ('1-d grids of 2-5 points (thorough: 7), 2-d grids of 2x2, 2x3 and 3x2 points (thorough: 3x3) and partly flat ones up to 4x3, linear and logarithmic axes, '
          'symbolic range ends for linear axes (logarithmic: [1,4] and [2,3]), symbolic positive densities in [0.001,1] of the largest including equal values, symbolic scale of the log density, '
          'symbolic level; densities given as arrays or as functions')
ASSUMPTIONS = ['floats are reals', 'densities between grid points are the linear interpolation (trapezoid rule), as documented']
MUST_REACH = ['normalization is the trapezoid integral', 'fraction above a level', 'fraction lies in [0,1]', 'fraction decreases with the level', 'grid points',
              'fraction of everything is 1', 'nothing exceeds the maximum', 'normal density ratio']
FORTRAN = ['inference.grid._gridquad']


def mass(ctx, d, crit):
    """integral of the interpolated density over where it exceeds crit, unit spacing"""
    tot = 0.0
    for a, b in zip(d[:-1], d[1:]):
        if bool(a > crit):
            if bool(b > crit):
                tot = tot + 0.5 * (a + b)
            else:
                tot = tot + 0.5 * (a + crit) * (a - crit) / (a - b)
        elif bool(b > crit):
            tot = tot + 0.5 * (b + crit) * (b - crit) / (b - a)
    return tot


def trap(d):
    tot = 0.0
    for a, b in zip(d[:-1], d[1:]):
        tot = tot + 0.5 * (a + b)
    return tot


def axis(ctx, n, log, tag, fixed):
    """range ends and the expected points"""
    if fixed:
        lo, hi = fixed
    else:
        lo, hi = ctx.real('lo' + tag, -100, 100), ctx.real('hi' + tag, -100, 100)
        ctx.assume(lo + 0.1 <= hi)
    if log:
        f = ctx.exp(ctx.log(hi / lo) / (n - 1.0))
        xs = [lo]
        for k in range(1, n - 1):
            xs.append(xs[-1] * f)
        xs.append(hi)
        return lo, hi, xs, ctx.log(hi / lo) / (n - 1.0)
    return lo, hi, [lo + (hi - lo) * k / (n - 1.0) for k in range(n)], (hi - lo) / (n - 1.0)


def values(ctx, n, kind, imax):
    """densities relative to the largest, which is number imax"""
    if kind == 'flat':
        return [1.0] * n
    if kind == 'two':
        ws = [ctx.real('w', 1e-3, 1)] * n
    else:
        ws = [ctx.real('w%d' % i, 1e-3, 1) for i in range(n)]
    ws = list(ws)
    ws[imax] = 1.0
    return ws


def make1(ctx, w, cls, n, log, kind, imax, fixed):
    lo, hi, xs, dx = axis(ctx, n, log, 'x', fixed)
    ws = values(ctx, n, kind, imax)
    S = ctx.real('S', -50, 50)
    ls = [ctx.log(x) + S for x in ws]
    if cls == 'HPD1D':
        h = w.load('inference.grid.hpd').HPD1D(ctx.array(ls), lo, hi, 'log' if log else 'linear')
    else:
        seen = []
        def pdf(x):
            i = len(seen)
            seen.append(x)
            return ls[i]
        h = w.load('inference.grid.hpdgrid').HPDGrid1D(pdf, lo, hi, n, 'log' if log else 'lin')
        ctx.check(len(seen) == n, 'grid points')
        for x, y in zip(seen, xs):
            ctx.eq(x, y, 'grid points', tol=1e-6)
    for x, y in zip(list(h.xvals), xs):
        ctx.eq(x, y, 'grid points', tol=1e-6)
    dens = [wi * x for wi, x in zip(ws, list(h.xvals))] if log else ws
    return h, ws, dens, dx, S


def one(ctx, cls, n, log, kind, imax, fixed=None):
    w = ctx.world()
    h, ws, dens, dx, S = make1(ctx, w, cls, n, log, kind, imax, fixed)
    tot = trap(dens) * dx
    ctx.eq(ctx.exp(h.norm() - S), tot, 'normalization is the trapezoid integral', tol=1e-6)
    ctx.eq(ctx.exp(h.lml - S), tot, 'normalization is the trapezoid integral', tol=1e-6)
    # fractions, at a level given relative to the largest value
    r = ctx.real('r', 1e-4, 8 if log else 1.5)
    f = h.fracgt(ctx.log(r))
    ctx.eq(f, mass(ctx, dens, r) / trap(dens), 'fraction above a level', tol=1e-6)


def mono(ctx, cls, n, imax, log):
    """a higher level never contains more; the extremes are 1 and 0; so every fraction lies in [0,1]"""
    w = ctx.world()
    h, ws, dens, dx, S = make1(ctx, w, cls, n, log, '', imax, (1.0, 2.0))
    hi = 2.0 if log else 1.0
    r1, r2 = ctx.real('r1', 1e-4, hi), ctx.real('r2', 1e-4, hi)
    ctx.assume(r1 < r2)
    ctx.le(h.fracgt(ctx.log(r2)), h.fracgt(ctx.log(r1)), 'fraction decreases with the level', tol=1e-6)


def ends(ctx, cls, n, imax, log):
    w = ctx.world()
    h, ws, dens, dx, S = make1(ctx, w, cls, n, log, '', imax, (1.0, 2.0))
    r = ctx.real('r', 1e-4, 3)
    ctx.between(h.fracgt(ctx.log(r)), 0.0, 1.0, 'fraction lies in [0,1]', tol=1e-6)
    ctx.eq(h.fracgt(ctx.log(1e-7)), 1.0, 'fraction of everything is 1', tol=1e-6)
    ctx.eq(h.fracgt(ctx.log(4.0)), 0.0, 'nothing exceeds the maximum', tol=1e-6)
    if not log:
        ctx.eq(h.fracgt(0.0), 0.0, 'nothing exceeds the maximum', tol=1e-6)


def two(ctx, cls, nx, ny, logx, logy, kind, imax):
    w = ctx.world()
    xlo, xhi, xs, dx = axis(ctx, nx, logx, 'x', (1.0, 4.0) if logx else None)
    ylo, yhi, ys, dy = axis(ctx, ny, logy, 'y', (2.0, 3.0) if logy else (0.0, 3.0))
    if kind == 'row':     # one row of free values, the others flat
        vs = [1.0] * (nx * ny)
        for j in range(ny):
            if imax * ny + j != 0:
                vs[imax * ny + j] = ctx.real('w%d' % j, 1e-3, 1)
        vs[0] = 1.0
    else:
        vs = values(ctx, nx * ny, kind, imax)
    W = [[vs[i * ny + j] for j in range(ny)] for i in range(nx)]
    S = ctx.real('S', -50, 50)
    L = [[ctx.log(x) + S for x in row] for row in W]
    kw = dict(xstep='log' if logx else 'linear', ystep='log' if logy else 'lin')
    if cls == 'HPD2D':
        h = w.load('inference.grid.hpd').HPD2D(ctx.array(L), xlo, xhi, ylo, yhi, **kw)
    else:
        seen = []
        def pdf(x, y):
            k = len(seen)
            seen.append((x, y))
            return L[k // ny][k % ny]
        h = w.load('inference.grid.hpdgrid').HPDGrid2D(pdf, xlo, xhi, nx, ylo, yhi, ny, **kw)
        ctx.check(len(seen) == nx * ny, 'grid points')
        for k, (x, y) in enumerate(seen):
            ctx.eq(x, xs[k // ny], 'grid points', tol=1e-6)
            ctx.eq(y, ys[k % ny], 'grid points', tol=1e-6)
    for a, b in zip(list(h.xvals) + list(h.yvals), xs + ys):
        ctx.eq(a, b, 'grid points', tol=1e-6)
    xs, ys = list(h.xvals), list(h.yvals)
    ctx.eq(h.ylo, ylo, 'grid points')
    ctx.eq(h.yhi, yhi, 'grid points')
    D = [[W[i][j] * (xs[i] if logx else 1.0) * (ys[j] if logy else 1.0) for j in range(ny)] for i in range(nx)]
    def outer(rows):
        t = 0.0
        for i, q in enumerate(rows):
            t = t + (0.5 * q if i in (0, nx - 1) else q)
        return t
    tot = outer([trap(row) for row in D])
    ctx.eq(ctx.exp(h.lml - S), tot * dx * dy, 'normalization is the trapezoid integral', tol=1e-5)
    r = ctx.real('r', 1e-3, 12 if logx or logy else 1.5)
    f = h.fracgt(ctx.log(r))
    ctx.eq(f, outer([mass(ctx, row, r) for row in D]) / tot, 'fraction above a level', tol=1e-5)
    ctx.eq(h.fracgt(ctx.log(1e-8)), 1.0, 'fraction of everything is 1', tol=1e-6)


def ratios(ctx, mod):
    """normal-distribution reference levels"""
    w = ctx.world()
    m = w.load('inference.grid.' + mod)
    s = ctx.real('s', 0.1, 6)
    for nd in (1, 2, 3):
        ctx.eq(m.sig2ratio(nd, s), ctx.exp(-0.5 * s * s), 'normal density ratio', tol=1e-6)


def quad(ctx, n, ny=None):
    """the quadrature routine itself, any level (negative and beyond the maximum included)"""
    w = ctx.world()
    g = w.load('inference.grid._gridquad')
    c = ctx.real('c', -2, 12)
    if ny is None:
        v = [ctx.real('v%d' % i, 0, 10) for i in range(n)]
        ctx.eq(g.qgt1d(ctx.array(v), c), mass(ctx, v, c), 'fraction above a level', tol=1e-6)
    else:
        v = [[ctx.real('v%d%d' % (i, j), 0, 10) for j in range(ny)] for i in range(n)]
        t = 0.0
        for i, row in enumerate(v):
            q = mass(ctx, row, c)
            t = t + (0.5 * q if i in (0, n - 1) else q)
        ctx.eq(g.qgt2d(ctx.array(v), c), t, 'fraction above a level', tol=1e-6)


def cases(tier):
    big = tier == 'thorough'
    out = []
    O = dict(fork_minmax=False, timeout_ms=8000, case_s=900 if big else 150)
    for cls in ('HPD1D', 'HPDGrid1D'):
        for n in (2, 3, 4, 5) + ((6, 7) if big else ()):
            for log in (0, 1):
                for im in (0, n - 1) if n < 4 else (1,):
                    out.append(Case('one-%s-%d-%s-%d' % (cls, n, 'log' if log else 'lin', im), one,
                                    dict(cls=cls, n=n, log=log, kind='', imax=im, fixed=(1.0, 4.0) if log else None), weight=n, **O))
        for n in (3, 5):
            for k in ('flat', 'two'):
                for log in (0, 1):
                    out.append(Case('one-%s-%d-%s%d' % (cls, n, k, log), one, dict(cls=cls, n=n, log=log, kind=k, imax=n - 1, fixed=(1.0, 4.0) if log else None), **O))
        for log in (0, 1):
            out.append(Case('mono-%s-%d' % (cls, log), mono, dict(cls=cls, n=2, imax=log, log=log), **O))
            out.append(Case('ends-%s-%d' % (cls, log), ends, dict(cls=cls, n=2, imax=log, log=log), **O))
        out.append(Case('ends3-%s' % cls, ends, dict(cls=cls, n=3, imax=1, log=0), **O))
        out.append(Case('mono3-%s' % cls, mono, dict(cls=cls, n=3, imax=1, log=0), **O))
    for cls in ('HPD2D', 'HPDGrid2D'):
        for lx, ly in ((0, 0), (1, 0), (0, 1), (1, 1)):
            out.append(Case('two-%s-2x2-%d%d' % (cls, lx, ly), two, dict(cls=cls, nx=2, ny=2, logx=lx, logy=ly, kind='', imax=1), weight=4, **O))
        for nx, ny in ((3, 2), (2, 3), (3, 3), (4, 3)):
            for k in ('flat', 'two', 'row'):
                out.append(Case('two-%s-%dx%d-%s' % (cls, nx, ny, k), two, dict(cls=cls, nx=nx, ny=ny, logx=0, logy=0, kind=k, imax=1), **O))
        if True:
            for nx, ny in ((3, 2), (2, 3)) + (((3, 3),) if big else ()):
                out.append(Case('two-%s-%dx%d' % (cls, nx, ny), two, dict(cls=cls, nx=nx, ny=ny, logx=0, logy=0, kind='', imax=1), **O))
    for n in (2, 3, 4) + ((5, 6) if big else ()):
        out.append(Case('quad-%d' % n, quad, dict(n=n), **O))
    for nx, ny in ((2, 2), (2, 3), (3, 2)) + (((3, 3), (4, 2)) if big else ()):
        out.append(Case('quad-%dx%d' % (nx, ny), quad, dict(n=nx, ny=ny), weight=3, **O))
    for m in ('hpd', 'hpdgrid'):
        out.append(Case('ratios-%s' % m, ratios, dict(mod=m)))
    return out
