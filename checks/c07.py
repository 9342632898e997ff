"""C07: the one- and many-dimensional minimizers."""
from symx.runner import Case
from . import util

BOUNDS = ('arbitrary real function (uninterpreted, values in [-1000,1000]); bracketing: symbolic start points in [-100,100], at most 5 evaluations (thorough: 7); Brent: symbolic bracket, '
          'symbolic tolerance in [0.02,1], at most 5 evaluations (thorough: 7); line search in 1-2 dimensions, symbolic point, direction and tolerance, at most 6 evaluations; Powell: 1-2 '
          'dimensions (thorough: 3), symbolic start, 1-2 iterations, line searches under their contract')
ASSUMPTIONS = ['floats are reals', 'Powell cases: a line search returns a point of the line, its value and displacement, no worse than its start (checked by the linmin cases)']
MUST_REACH = ['bracket ends are higher than the middle', 'middle lies between the ends', 'minimum is no higher than any evaluated point', 'value belongs to the point',
              'bracketed to the tolerance', 'line minimum is no higher than the start', 'gives up after the allowed iterations']


class Rec:
    """records evaluations of a function, and ends the path at the bound"""
    def __init__(self, ctx, f, maxev):
        self.ctx, self.f, self.maxev, self.ev = ctx, f, maxev, []

    def __call__(self, x):
        if self.maxev is not None and len(self.ev) >= self.maxev:
            self.ctx.cut('%d evaluations' % self.maxev)
        v = self.f(x)
        if hasattr(x, '__len__'):
            self.ev.append(([y + 0.0 for y in x], v))
        else:
            self.ev.append((x + 0.0, v))
        return v


def bracket(ctx, maxev, down):
    w = ctx.world()
    nr = w.load('inference.utils.nrmin')
    f = ctx.ufun('f', -1000, 1000)
    x1 = ctx.real('x1', -100, 100)
    x2 = ctx.real('x2', -100, 100)
    ctx.assume((x1 + 0.01 <= x2) if not down else (x2 + 0.01 <= x1))
    g = Rec(ctx, f, maxev)
    b = nr.MinBracket(g, x1, x2)
    ctx.le(b.fm, b.f1, 'bracket ends are higher than the middle', tol=1e-9)
    ctx.le(b.fm, b.f2, 'bracket ends are higher than the middle', tol=1e-9)
    ctx.le(b.x1, b.xm, 'middle lies between the ends', tol=1e-6)
    ctx.le(b.xm, b.x2, 'middle lies between the ends', tol=1e-6)
    ctx.check(b.x1 < b.x2, 'middle lies between the ends')
    for x, v in ((b.x1, b.f1), (b.xm, b.fm), (b.x2, b.f2)):
        ctx.eq(f(x), v, 'value belongs to the point')
    # no worse than the starting points
    ctx.le(b.fm, f(x1), 'bracket ends are higher than the middle', tol=1e-9)
    ctx.le(b.fm, f(x2), 'bracket ends are higher than the middle', tol=1e-9)


class Bracket:
    def __init__(self, x1, xm, x2, f1, fm, f2):
        self.x1, self.xm, self.x2, self.f1, self.fm, self.f2 = x1, xm, x2, f1, fm, f2


def brent(ctx, maxev, lo, hi, fixed=None):
    w = ctx.world()
    nr = w.load('inference.utils.nrmin')
    f = ctx.ufun('f', -1000, 1000)
    if fixed:
        x1, xm, x2 = fixed
    else:
        x1, xm, x2 = ctx.real('x1', lo, hi), ctx.real('xm', lo, hi), ctx.real('x2', lo, hi)
        ctx.assume(x1 + 0.01 <= xm)
        ctx.assume(xm + 0.01 <= x2)
    f1, fm, f2 = f(x1), f(xm), f(x2)
    ctx.assume(fm <= f1)
    ctx.assume(fm <= f2)
    tol = ctx.real('tol', 0.02, 1)
    g = Rec(ctx, f, maxev)
    x, fx = nr.brent(g, Bracket(x1, xm, x2, f1, fm, f2), tol)
    ctx.eq(f(x), fx, 'value belongs to the point')
    ctx.between(x, x1, x2, 'minimum lies in the bracket', tol=1e-9)
    ctx.le(fx, fm, 'minimum is no higher than any evaluated point', tol=1e-9)
    for y, v in g.ev:
        ctx.le(fx, v, 'minimum is no higher than any evaluated point', tol=1e-9)
        ctx.between(y, x1, x2, 'evaluations stay in the bracket', tol=1e-6)
    # a higher or equal point (or bracket end) within 2(tol|x| + 1e-10) on either side
    ax = x if bool(x >= 0) else -x
    t2 = 2.0 * (tol * ax + 1e-10) + 1e-6
    pts = [y for y, v in g.ev] + [x1, x2]
    for sgn in (1.0, -1.0):
        ok = None
        for y in pts:
            d = sgn * (y - x)
            # points equal to x themselves do not count unless they are an end of the bracket
            c = (d <= t2) & (d > 0) if ctx.symbolic else (0 < d <= t2)
            if y is x1 or y is x2:
                c = (d <= t2) & (d >= 0) if ctx.symbolic else (0 <= d <= t2)
            ok = c if ok is None else (ok | c)
        ctx.check(ok, 'bracketed to the tolerance')


def brent_maxit(ctx, maxit):
    """gives up after maxit iterations, i.e. after at most maxit further evaluations, and not before"""
    w = ctx.world()
    nr = w.load('inference.utils.nrmin')
    f = ctx.ufun('f', -1000, 1000)
    g = Rec(ctx, f, None)
    fm = f(0.0)
    tol = 1e-6
    n = 0
    try:
        x, fx = nr.brent(g, Bracket(-1.0, 0.0, 1.0, f(-1.0), fm, f(1.0)), tol, maxit=maxit)
    except nr.IterErr:
        ctx.check(len(g.ev) == maxit + 1, 'gives up after the allowed iterations')
    else:
        ctx.check(len(g.ev) <= maxit, 'gives up after the allowed iterations')
        ctx.eq(f(x), fx, 'value belongs to the point')


def linmin(ctx, dim, maxev):
    w = ctx.world()
    nr = w.load('inference.utils.nrmin')
    f = ctx.ufun('f', -1000, 1000)
    pt = ctx.array([ctx.real('p%d' % i, -10, 10) for i in range(dim)])
    dr = ctx.array([ctx.real('d%d' % i, 0.1, 5) for i in range(dim)])
    p0, d0 = [x + 0.0 for x in pt], [x + 0.0 for x in dr]
    tol = ctx.real('tol', 0.2, 1)
    g = Rec(ctx, lambda x: f(*list(x)), maxev)
    q, disp, fq = nr.linmin(g, pt, dr, tol)
    ctx.eq(fq, f(*list(q)), 'value belongs to the point', tol=1e-6)
    ctx.le(fq, f(*p0), 'line minimum is no higher than the start', tol=1e-6)
    for i in range(dim):
        ctx.eq(q[i] - p0[i], disp[i], 'displacement joins start and minimum', tol=1e-6)
        ctx.eq(disp[i] * d0[0], disp[0] * d0[i], 'minimum lies on the line', tol=1e-5)
        ctx.eq(pt[i], p0[i], 'the start is not altered')
        ctx.eq(dr[i], d0[i], 'the start is not altered')


class Lin:
    """contract of the line search: a point of the line, its value, the displacement; no worse than the start"""
    def __init__(self, ctx, maxcalls):
        self.ctx, self.maxcalls, self.calls = ctx, maxcalls, []

    def __call__(self, func, pt, drxn, *a, **k):
        ctx = self.ctx
        if len(self.calls) >= self.maxcalls:
            ctx.cut('%d line searches' % self.maxcalls)
        l = ctx.real('l%d' % len(self.calls), -4, 4)
        f0 = func(pt)
        d = l * drxn
        q = pt + d
        v = func(q)
        ctx.assume(v <= f0)
        self.calls.append((drxn + 0.0, l, v))
        return q, d, v


def powell(ctx, dim, maxcalls, maxit, shuffle, given):
    lin = Lin(ctx, maxcalls)
    w = ctx.world(patch={'inference.utils.nrmin': {'linmin': lin}})
    nr = w.load('inference.utils.nrmin')
    f = ctx.ufun('f', -1000, 1000)
    p = ctx.array([ctx.real('p%d' % i, -10, 10) for i in range(dim)])
    p0 = [x + 0.0 for x in p]
    kw = {}
    if given:
        kw['drxns'] = ctx.array([[float((i == j) * (i + 1)) for j in range(dim)] for i in range(dim)])
    if shuffle:
        kw['shuffle'] = True
    ftol = ctx.real('ftol', 1e-6, 0.5)
    g = Rec(ctx, lambda x: f(*list(x)), None)
    try:
        q, fq, it = nr.powell(g, p, ftol=ftol, maxit=maxit, **kw)
    except nr.IterErr:
        ctx.check(len(lin.calls) >= maxit * dim, 'Powell gives up after the allowed iterations')
        return
    ctx.check(1 <= it <= maxit, 'Powell gives up after the allowed iterations')
    ctx.eq(fq, f(*list(q)), 'Powell value belongs to the point', tol=1e-6)
    ctx.le(fq, f(*p0), 'Powell is no worse than the start', tol=1e-6)
    for i in range(dim):
        ctx.eq(p[i], p0[i], 'the start is not altered')
    for y, v in g.ev:
        pass
    # converged: the last pass over the directions changed the value by no more than the tolerance
    n = len(lin.calls)
    last = lin.calls[n - dim:]
    before = f(*p0) if n == dim else lin.calls[n - dim - 1][2]
    a = before if bool(before >= 0) else -before
    b = fq if bool(fq >= 0) else -fq
    ctx.le(2.0 * (before - fq), ftol * (a + b), 'Powell stops when converged', tol=1e-6)
    # every direction was searched in the last pass: the directions used span the space
    if dim == 2 and it == 1:
        (d0, _, _), (d1, _, _) = last
        det = d0[0] * d1[1] - d0[1] * d1[0]
        ctx.check((det > 1e-9) | (det < -1e-9) if ctx.symbolic else abs(det) > 1e-9, 'all directions are searched')


def cases(tier):
    big = tier == 'thorough'
    out = []
    n = 6 if big else 5
    O = dict(abstract_nl=True, fork_minmax=False)
    for d in (0, 1):
        out.append(Case('bracket-%d-%d' % (n, d), bracket, dict(maxev=n, down=d), weight=5, **O))
    n = 4 if big else 3
    out.append(Case('brent-%d-pos' % n, brent, dict(maxev=n, lo=0.5, hi=20), weight=n, **O))
    out.append(Case('brent-%d' % n, brent, dict(maxev=n, lo=-20, hi=20), weight=n, **O))
    for i, b in enumerate([] if not big else [(1.0, 1.2, 1.5), (-0.5, 0.25, 0.375), (-3.0, -2.0, 4.0)]):
        out.append(Case('brent-4-fixed%d' % i, brent, dict(maxev=4, lo=0, hi=0, fixed=b), weight=9, fork_minmax=False))
    for k in (1, 2, 3):
        out.append(Case('brent-maxit-%d' % k, brent_maxit, dict(maxit=k), **O))
    for dim in (1, 2):
        out.append(Case('linmin-%d' % dim, linmin, dict(dim=dim, maxev=6 if big else 5), weight=9, **O))
    for dim in (1, 2) + ((3,) if big else ()):
        for sh in (False, True):
            for given in (False, True):
                out.append(Case('powell-%d-%d%d' % (dim, sh, given), powell, dict(dim=dim, maxcalls=2 * dim + 1, maxit=2, shuffle=sh, given=given), weight=4, **O))
    return out
