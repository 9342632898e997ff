"""C11: critical levels and boundaries of highest-density regions."""
from symx.runner import Case
from . import util

BOUNDS = ('crossing search on 2-6 points (thorough: 8) with symbolic abscissas, ordinates and level and room for 1-3 crossings; critical levels for 1-d grids of 2-4 points '
          '(thorough: 5; saw-tooth grids of up to 13 points for the limit of 10 boundaries) and 2-d grids of 2x2 and 3x2 points, linear and logarithmic axes, symbolic densities '
          'in [0.001,1] of the largest, symbolic scale, probabilities 0.2, 0.683, 0.95 and 1, 2 sigma; 1-2 regions per object')
ASSUMPTIONS = ['floats are reals', 'the root finder (scipy) returns a root of the function it is given, the bracketing routine a bracket of one (checked separately)',
               'boundaries are interpolated linearly in the log density between neighbouring grid points']
MUST_REACH = ['crossings', 'too many crossings are reported', 'the region contains the requested probability', 'boundaries are where the density crosses the level',
              'regions are recorded', 'level is relative to the largest density', 'too many boundaries are refused', 'one of p and snsig']
FORTRAN = ['inference.grid._gridquad']


def crossings(ctx, xs, ys, c):
    out = []
    for i in range(len(xs) - 1):
        if bool(ys[i] > c) != bool(ys[i + 1] > c):
            out.append(xs[i] + (xs[i + 1] - xs[i]) * (c - ys[i]) / (ys[i + 1] - ys[i]))
    return out


def xv(ctx, n, room, sym):
    g = ctx.world().load('inference.grid._gridquad')
    ys = [ctx.real('y%d' % i, -10, 10) for i in range(n)]
    xs = [1.0 * i * i - 3 for i in range(n)]
    if sym:
        xs = [ctx.real('x%d' % i, -10, 10) for i in range(n)]
        for a, b in zip(xs[:-1], xs[1:]):
            ctx.assume(a + 1e-3 <= b)
    c = ctx.real('c', -10, 10)
    v, k, ok = g.xvalues(ctx.array(xs), ctx.array(ys), c, room)
    want = crossings(ctx, xs, ys, c)
    if len(want) > room:
        ctx.check(not bool(ok), 'too many crossings are reported')
        return
    ctx.check(bool(ok) and int(k) == len(want), 'crossings')
    for a, b in zip(list(v)[:int(k)], want):
        ctx.eq(a, b, 'crossings', tol=1e-6)


def root_world(ctx, roots, free, guard=()):
    """free: the root finder returns an arbitrary level (what is done with it does not depend on how it was found);
    otherwise, in the symbolic world, any root of its function"""
    def zbracket(func, x1, x2, *a, **k):
        return x1, x2
    def brentq(f, a, b, args=(), **k):
        L = ctx.real('level%d' % len(roots), 1e-4, 8)
        r = ctx.log(L)
        for g in guard:
            g(L)
        if not free:
            ctx.assume(f(r, *args) == 0)
        roots.append(r)
        return r
    names = ('brentq', 'brenth', 'ridder', 'bisect')
    if ctx.symbolic:
        import types
        opt = types.ModuleType('scipy.optimize')
        for k in names:
            setattr(opt, k, brentq)
        return ctx.world(stubs={'scipy.optimize': opt}, patch={'inference.utils.numutils': dict(zbracket=zbracket)})
    if not free:
        return ctx.world()
    return ctx.world(patch={'scipy.optimize': {k: brentq for k in names}, 'inference.utils.numutils': dict(zbracket=zbracket)})


def region(ctx, h, kw, p, free):
    r, b = h.critlevel(**kw)
    if not free:
        contains(ctx, h, r, p)
    return r, list(b)


def contains(ctx, h, r, p):
    label = 'the region contains the requested probability'
    if ctx.symbolic:
        ctx.eq(h.fracgt(r), p, label, tol=1e-6)
    else:              # the root is found to 3e-4 in the log level
        ctx.check(h.fracgt(r - 1e-3) >= p - 1e-6 and h.fracgt(r + 1e-3) <= p + 1e-6, label)


def crit(ctx, cls, n, log, imax, kws, free):
    guard = []
    w = root_world(ctx, [], free, guard)
    lo, hi = (1.0, 3.0) if log else (-1.0, 4.0)
    M = w.load('inference.grid.' + ('hpd' if cls == 'HPD1D' else 'hpdgrid'))
    ws = [ctx.real('w%d' % i, 1e-3, 1) for i in range(n)]
    ws[imax] = 1.0
    S = ctx.real('S', -20, 20)
    ls = [ctx.log(x) + S for x in ws]
    if cls == 'HPD1D':
        h = M.HPD1D(ctx.array(ls), lo, hi, 'log' if log else 'linear')
    else:
        it = iter(ls)
        h = M.HPDGrid1D(lambda x: next(it), lo, hi, n, 'log' if log else 'linear')
    xs = list(h.xvals)
    rel = [ctx.log(x) for x in ws]
    if log:
        rel = [a + ctx.log(x) for a, x in zip(rel, xs)]
    def untied(L):       # the two ways to compute x*p(x) differ by roundoff: ties are left out
        for a, x in zip(ws, xs):
            d = a * x - L
            ctx.assume((d > 1e-6) | (d < -1e-6))
    if log:
        guard.append(untied)
    rs, bs = [], []
    for k, kw in enumerate(kws):
        p = kw.get('p')
        if p is None:
            p = {1: 0.682689492, 2: 0.954499736}[kw['snsig']]
        r, b = region(ctx, h, kw, p, free)
        want = crossings(ctx, xs, rel, r)
        ctx.check(len(b) == len(want), 'boundaries are where the density crosses the level')
        for u, v in zip(b, want):
            ctx.eq(u, v, 'boundaries are where the density crosses the level', tol=1e-5)
        rs.append(r)
        bs.append(b)
        ctx.check(len(h.probs) == len(h.deltas) == len(h.levels) == len(h.bounds) == k + 1, 'regions are recorded')
        ctx.eq(h.probs[k], p, 'regions are recorded', tol=1e-6)
    for k, r in enumerate(rs):
        ctx.eq(h.deltas[k], r, 'regions are recorded')
        ctx.eq(h.levels[k] - S, r, 'level is relative to the largest density', tol=1e-6)
        ctx.check(len(h.bounds[k]) == len(bs[k]), 'regions are recorded')
        for u, v in zip(list(h.bounds[k]), bs[k]):
            ctx.eq(u, v, 'regions are recorded')
    ctx.raises(lambda: h.critlevel(p=0.5, snsig=1), ValueError, 'one of p and snsig')


def many(ctx, cls, n):
    """saw-tooth densities: at most 10 boundaries are reported, more are an error"""
    w = root_world(ctx, [], False)
    M = w.load('inference.grid.' + ('hpd' if cls == 'HPD1D' else 'hpdgrid'))
    t = ctx.real('t', 0.01, 0.5)
    ws = [1.0 if i % 2 else t for i in range(n)]
    ls = [ctx.log(x) if i % 2 == 0 else 0.0 for i, x in enumerate(ws)]
    if cls == 'HPD1D':
        h = M.HPD1D(ctx.array(ls), 0.0, 1.0 * (n - 1))
    else:
        it = iter(ls)
        h = M.HPDGrid1D(lambda x: next(it), 0.0, 1.0 * (n - 1), n)
    if n - 1 > 10:
        ctx.raises(lambda: h.critlevel(p=0.5), RuntimeError, 'too many boundaries are refused')
        return
    r, b = region(ctx, h, dict(p=0.5), 0.5, False)
    ctx.check(len(b) == n - 1, 'boundaries are where the density crosses the level')


def crit2(ctx, cls, nx, ny, logx, logy, imax, kws):
    w = root_world(ctx, [], False)
    M = w.load('inference.grid.' + ('hpd' if cls == 'HPD2D' else 'hpdgrid'))
    n = nx * ny
    if nx * ny > 4:
        u = ctx.real('w0', 1e-3, 1)
        ws = [u if i % 2 else 0.5 for i in range(n)]
    else:
        ws = [ctx.real('w%d' % i, 1e-3, 1) for i in range(n)]
    ws[imax] = 1.0
    S = ctx.real('S', -20, 20)
    L = [[ctx.log(ws[i * ny + j]) + S for j in range(ny)] for i in range(nx)]
    kw = dict(xstep='log' if logx else 'linear', ystep='log' if logy else 'linear')
    if cls == 'HPD2D':
        h = M.HPD2D(ctx.array(L), 1.0, 3.0, 2.0, 3.0, **kw)
    else:
        it = iter([x for row in L for x in row])
        h = M.HPDGrid2D(lambda x, y: next(it), 1.0, 3.0, nx, 2.0, 3.0, ny, **kw)
    for k, q in enumerate(kws):
        r = h.critlevel(**q)
        if 'p' in q:
            contains(ctx, h, r, q['p'])
            ctx.eq(h.probs[k], q['p'], 'regions are recorded', tol=1e-6)
        else:
            contains(ctx, h, r, h.probs[k])
        ctx.check(len(h.probs) == len(h.deltas) == len(h.levels) == k + 1, 'regions are recorded')
        ctx.eq(h.deltas[k], r, 'regions are recorded')
        ctx.eq(h.levels[k] - S, r, 'level is relative to the largest density', tol=1e-6)
    ctx.raises(lambda: h.critlevel(p=0.5, snsig=1), ValueError, 'one of p and snsig')


def cases(tier):
    big = tier == 'thorough'
    out = []
    O = dict(fork_minmax=False, timeout_ms=8000, case_s=1200 if big else 150)
    for n in (2, 3, 4, 5, 6) + ((7, 8) if big else ()):
        for room in (1, 2, 3):
            out.append(Case('xv-%d-%d' % (n, room), xv, dict(n=n, room=room, sym=n <= 4), weight=n, **O))
    for cls in ('HPD1D', 'HPDGrid1D'):
        for log in (0, 1):
            for n in (2, 3, 4, 5) + ((6,) if big else ()):
                out.append(Case('bounds-%s-%d-%d' % (cls, n, log), crit, dict(cls=cls, n=n, log=log, imax=n // 2, kws=[dict(p=0.683)], free=True), weight=n, **O))
            out.append(Case('bounds2-%s-%d' % (cls, log), crit, dict(cls=cls, n=2 + (big or not log), log=log, imax=1, kws=[dict(p=0.2), dict(snsig=2)], free=True), weight=5, **O))
            for n in (2,) + ((3,) if not log or big else ()):
                for im in (0, n - 1):
                    out.append(Case('crit-%s-%d-%d-%d' % (cls, n, log, im), crit,
                                    dict(cls=cls, n=n, log=log, imax=im, kws=[dict(p=0.683)] if im else [dict(snsig=1)], free=False), weight=n, **O))
        for n in (3, 11, 12, 13):
            out.append(Case('many-%s-%d' % (cls, n), many, dict(cls=cls, n=n), **O))
    for cls in ('HPD2D', 'HPDGrid2D'):
        for lx, ly in ((0, 0), (1, 0), (0, 1)):
            out.append(Case('2d-%s-2x2-%d%d' % (cls, lx, ly), crit2, dict(cls=cls, nx=2, ny=2, logx=lx, logy=ly, imax=1, kws=[dict(p=0.683)]), weight=4, **O))
        out.append(Case('2d-%s-3x2' % cls, crit2, dict(cls=cls, nx=3, ny=2, logx=0, logy=0, imax=2, kws=[dict(p=0.95)]), weight=4, **O))
    return out
