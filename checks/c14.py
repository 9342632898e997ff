"""C14: local maxima found on a grid, and the list which keeps the largest."""
import math
from symx.runner import Case
from . import util

BOUNDS = ('lists of maxima: histories of up to 5 insertions (thorough: 6) of symbolic quantities into lists of at most 1-3 (or unlimited) members, with and without a dynamic range, '
          'followed by a range limitation and a deletion; peaks: grids of 2-6 points (thorough: 7), linear and logarithmic, symbolic values (scalar or tuples), evaluated point by point or as a vector; '
          'Gaussian through three points with symbolic abscissas and values')
ASSUMPTIONS = ['floats are reals', 'in the larger peak-detection cases the fitted parameters are arbitrary numbers (the fit is checked separately)']
MUST_REACH = ['largest are kept, in order', 'label stays with its value', 'dynamic range', 'range limitation', 'deletion',
              'every local maximum is found', 'only local maxima are found', 'maxima at the ends', 'Gaussian through the points', 'ranked by the chosen measure']


def keep(ctx, k, nmax, dyn, lim=None):
    w = ctx.world()
    G = w.load('inference.grid.grid1d')
    kw = {}
    if nmax is not None:
        kw['nmax'] = nmax
    if dyn is not None:
        kw['dynrange'] = dyn
    L = G.LabeledMaxList(**kw)
    qs = [ctx.real('q%d' % i, -20, 20) for i in range(k)]
    ref = []                # (q, i): decreasing, earlier first among equals
    for i, q in enumerate(qs):
        L.update(q, ('label', i))
        j = 0
        while j < len(ref) and bool(ref[j][0] >= q):
            j += 1
        ref.insert(j, (q, i))
        if nmax is not None:
            del ref[nmax:]
        if dyn is not None:
            ref = [r for r in ref if bool(ref[0][0] - r[0] <= math.log(dyn))]
        ctx.check(len(L) == len(ref), 'dynamic range' if dyn is not None else 'largest are kept, in order')
        for a, b in zip(ref, list(L)):
            ctx.eq(a[0], b[0], 'largest are kept, in order')
            ctx.check(b[1] == ('label', a[1]), 'label stays with its value')
    if lim is not None:
        L.limitRange(lim)
        ref = [r for r in ref if bool(ref[0][0] - r[0] <= math.log(lim))]
        ctx.check(len(L) == len(ref), 'range limitation')
        for a, b in zip(ref, list(L)):
            ctx.check(b[1] == ('label', a[1]), 'range limitation')
    if len(ref) > 1:
        del L[1]
        del ref[1]
        ctx.check(len(L) == len(ref), 'deletion')
        for i, a in enumerate(ref):
            ctx.check(L[i][1] == ('label', a[1]), 'deletion')


def empty(ctx):
    G = ctx.world().load('inference.grid.grid1d')
    L = G.LabeledMaxList()
    L.limitRange(10.0)
    ctx.check(len(L) == 0, 'range limitation')


def gauss(ctx, a=None):
    """the fitted Gaussian passes through the three points"""
    G = ctx.world().load('inference.grid.grid1d')
    if a is None:
        x0 = 0.0
        x1, x2 = ctx.real('x1', 0.05, 5), ctx.real('x2', 0.1, 10)
        ctx.assume(x1 + 0.05 <= x2)
    else:
        x0 = ctx.real('x0', -50, 50)
        h = ctx.real('h', 0.1, 5)
        x1, x2 = x0 + a * h, x0 + h
    y1 = ctx.real('y1', -10, 10)
    b, c = ctx.real('b', 0.01, 10), ctx.real('c', 0, 10)
    y0, y2 = y1 - b, y1 - c
    xs, ys = [x0, x1, x2], [y0, y1, y2]
    A, m, s = G.PeakParams(xs, ys)
    ctx.check(s > 0, 'Gaussian through the points')
    for x, y in zip(xs, ys):
        # A - (x-m)^2/(2 s^2) = y, without the division
        ctx.eq(2 * s * s * (A - y), (x - m) * (x - m), 'Gaussian through the points', tol=1e-6)
    ctx.le(x0, m, 'Gaussian through the points', tol=1e-6)
    ctx.le(m, x2, 'Gaussian through the points', tol=1e-6)


RT2PI = math.sqrt(2 * math.pi)


def peaks(ctx, n, log, vec, seq, stub, rank, lo=1.0, hi=4.0, dyn=None, nmax=None):
    fits = []
    def fit(x, y):
        k = len(fits)
        A = ctx.real('A%d' % k, -20, 20)
        m, s = ctx.real('m%d' % k, -9, 9), ctx.real('s%d' % k, 0.05, 5)
        fits.append((list(x), list(y), A, m, s))
        return A, m, s
    w = ctx.world(patch={'inference.grid.grid1d': dict(PeakParams=fit)} if stub else {})
    G = w.load('inference.grid.grid1d')
    ys = [ctx.real('y%d' % i, -10, 10) for i in range(n)]
    zs = [ctx.real('z%d' % i, -10, 10) for i in range(n)] if seq else None
    xs = [lo * (hi / lo)**(i / (n - 1.0)) for i in range(n)] if log else [lo + (hi - lo) * i / (n - 1.0) for i in range(n)]
    lml = G.LabeledMaxList()
    g = G.BasicGrid1D(lo, hi, n, 'log' if log else 'linear', lml=lml, rank=rank)
    sel = None
    if vec:
        def f(x):
            for a, b in zip(list(x), xs):
                ctx.eq(a, b, 'abscissas')
            return ctx.array([[zs[i], ys[i]] for i in range(n)]) if seq else ctx.array(ys)
        sel = 1 if seq else None
        g.vecfunc(f, select=sel)
    else:
        seen = []
        def f(x):
            i = len(seen)
            seen.append(x)
            ctx.eq(x, xs[i], 'abscissas')
            return (zs[i], ys[i]) if seq else ys[i]
        sel = 1 if seq else None
        g.stepfunc(f, select=sel)
        ctx.check(len(seen) == n, 'abscissas')
    got = {}
    order = []
    for msr, (i, A, m, s) in list(lml):
        ctx.check(i not in got or n == 1, 'only local maxima are found')
        got[i] = (msr, A, m, s)
        order.append(msr)
    for a, b in zip(order[:-1], order[1:]):
        ctx.check(a >= b, 'ranked by the chosen measure')
    if n < 3:
        ctx.check(len(got) == 0, 'only local maxima are found')
        return
    k = 0
    for i in range(n):
        up = i == 0 or bool(ys[i - 1] < ys[i])
        dn = i == n - 1 or bool(ys[i] > ys[i + 1])
        strict = up and dn
        flat = up and i < n - 1 and i > 0 and not dn and not bool(ys[i] < ys[i + 1])
        end = i in (0, n - 1)
        if strict:
            ctx.check(i in got, 'maxima at the ends' if end else 'every local maximum is found')
        if i in got:
            ctx.check(strict or flat, 'only local maxima are found')
            msr, A, m, s = got[i]
            if end:
                j = 1 if i == 0 else n - 2
                ctx.eq(A, ys[i], 'maxima at the ends')
                ctx.eq(m, xs[i], 'maxima at the ends')
                # the log drops by 1/2 within s, linearly
                ctx.eq(s * (ys[i] - ys[j]), 0.5 * abs(xs[j] - xs[i]), 'maxima at the ends', tol=1e-6)
                area = 0.5 * s * RT2PI
            else:
                if stub:
                    fx = [q for q in fits if q[2] is A]
                    ctx.check(len(fx) == 1, 'Gaussian through the points')
                    fx = fx[0]
                    for a, b in zip(fx[0] + fx[1], xs[i - 1:i + 2] + ys[i - 1:i + 2]):
                        ctx.eq(a, b, 'Gaussian through the points', tol=1e-6)
                    ctx.eq(m, fx[3], 'Gaussian through the points')
                    ctx.eq(s, fx[4], 'Gaussian through the points')
                else:
                    for x, y in zip(xs[i - 1:i + 2], ys[i - 1:i + 2]):
                        ctx.eq(2 * s * s * (A - y), (x - m) * (x - m), 'Gaussian through the points', tol=1e-5)
                area = s * RT2PI
            if rank == 'peak':
                ctx.eq(msr, A, 'ranked by the chosen measure', tol=1e-6)
            else:
                ctx.eq(msr, A + ctx.log(area), 'ranked by the chosen measure', tol=1e-6)


def bad(ctx):
    G = ctx.world().load('inference.grid.grid1d')
    ctx.raises(lambda: G.BasicGrid1D(0.0, 1.0, 3, rank='nosuch'), ValueError, 'a bad grid is refused')
    for a in ((0.0, 1.0, 1), (0.0, 1.0, 3, 'log'), (0.0, 1.0, 3, 'nosuch')):
        ctx.raises(lambda: G.BasicGrid1D(*a), ValueError, 'a bad grid is refused')
    g = G.BasicGrid1D(0.0, 1.0, 3, lml=G.LabeledMaxList())
    ctx.raises(lambda: g.stepfunc(lambda x: (1.0, 2.0)), ValueError, 'a bad grid is refused')


def cases(tier):
    big = tier == 'thorough'
    out = [Case('empty', empty), Case('bad', bad)]
    O = dict(fork_minmax=True, timeout_ms=8000, case_s=1200 if big else 150)
    K = 6 if big else 5
    for nmax in (None, 1, 2, 3):
        out.append(Case('keep-%s' % nmax, keep, dict(k=K, nmax=nmax, dyn=None), weight=5, **O))
        out.append(Case('keep-%s-lim' % nmax, keep, dict(k=K - 1, nmax=nmax, dyn=None, lim=100.0), weight=5, **O))
        for dyn in (1.0, 50.0):
            out.append(Case('keep-%s-dyn%g' % (nmax, dyn), keep, dict(k=K - 1, nmax=nmax, dyn=dyn, lim=3.0), weight=5, **O))
    for a in (0.5, 0.3, 1 / math.sqrt(2)):
        out.append(Case('gauss-%.2f' % a, gauss, dict(a=a), **O))
    if big:
        out.append(Case('gauss', gauss, {}, **O))
    for vec in (0, 1):
        for log in (0, 1):
            for n in (2, 3, 4):
                out.append(Case('peaks-%d-%d-%d' % (n, log, vec), peaks, dict(n=n, log=log, vec=vec, seq=0, stub=n == 4, rank='peak'), weight=n, **O))
            out.append(Case('area-3-%d-%d' % (log, vec), peaks, dict(n=3, log=log, vec=vec, seq=0, stub=True, rank='area'), weight=3, **O))
        out.append(Case('peaks-5-%d' % vec, peaks, dict(n=5, log=0, vec=vec, seq=0, stub=True, rank='peak'), weight=9, **O))
        out.append(Case('peaks-6-%d' % vec, peaks, dict(n=6, log=0, vec=vec, seq=0, stub=True, rank='peak'), weight=19, **O))
        out.append(Case('seq-4-%d' % vec, peaks, dict(n=4, log=0, vec=vec, seq=1, stub=True, rank='peak'), weight=4, **O))
        out.append(Case('area-4-%d' % vec, peaks, dict(n=4, log=0, vec=vec, seq=1, stub=True, rank='area'), weight=4, **O))
        if big:
            out.append(Case('peaks-7-%d' % vec, peaks, dict(n=7, log=0, vec=vec, seq=0, stub=True, rank='peak'), weight=30, **O))
            out.append(Case('peaks-4f-%d' % vec, peaks, dict(n=4, log=0, vec=vec, seq=0, stub=False, rank='peak'), weight=9, **O))
    return out
