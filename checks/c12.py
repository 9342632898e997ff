"""C12: lists of refined intervals."""
import math
from symx.runner import Case
from . import util

BOUNDS = ('base intervals of 2-5 points, linear (0..8, -3..1), logarithmic (1..16, -8..-1) and reversed, refined 1-2 times (thorough: 3) by intervals with symbolic ends '
          '(inside, across and beyond the base) and 2-6 points; location of a symbolic value and of every point number')
ASSUMPTIONS = ['the ends of refining intervals are reals; once snapped to grid points everything is computed in floating point as in the real code',
               'refining intervals are at least 0.05 wide (linear) or 5% wide (logarithmic)']
MUST_REACH = ['intervals tile the base interval', 'no coarser than before', 'requested density is reached', 'point count', 'every point number is located',
              'value is located in its interval', 'an interval outside is refused']


def snapshot(L):
    return [(i.lo, i.hi, i.n, i.step) for i in L.ilist]


def structure(ctx, L, lo, hi, n, log):
    iv = L.ilist
    ctx.check(len(iv) == L.nint and len(iv) >= 1, 'intervals tile the base interval')
    ctx.ident(iv[0].lo, lo, 'intervals tile the base interval')
    ctx.ident(iv[-1].hi, hi, 'intervals tile the base interval')
    for a, b in zip(iv[:-1], iv[1:]):
        ctx.ident(a.hi, b.lo, 'intervals tile the base interval')
    tot = 1
    for a in iv:
        ctx.check(a.n >= 2, 'point count')
        tot += a.n - 1
        ctx.check(a.lo < a.hi, 'intervals tile the base interval')
        w = ctx.log(a.hi / a.lo) if log else a.hi - a.lo
        ctx.eq(a.step * (a.n - 1), w, 'step is the width over the number of steps', tol=1e-6)
        ctx.check(abs(a.step) <= abs(L.base.step) * (1 + 1e-9), 'sampled at least as densely as the base')
    ctx.check(L.npts == tot, 'point count')
    # every point number, in order
    k = 0
    for j, a in enumerate(iv):
        for q in range(a.n - 1 if j < len(iv) - 1 else a.n):
            jj, qq, got = L.nlocate(k)
            last = j == len(iv) - 1 and q == a.n - 1
            ctx.check(jj == j and qq == q and got is a, 'every point number is located')
            k += 1
    ctx.check(k == L.npts, 'every point number is located')
    ctx.raises(lambda: L.nlocate(k), ValueError, 'a point number out of range is refused')
    ctx.raises(lambda: L.nlocate(-1), ValueError, 'a point number out of range is refused')


def run(ctx, lo, hi, n, log, rev, ms, loc=True, cells=None, end=False):
    w = ctx.world()
    G = w.load('inference.grid.grid1d')
    kind = 'log' if log else 'linear'
    L = G.RefinedIntervalList1D(hi, lo, n, kind) if rev else G.RefinedIntervalList1D(lo, hi, n, kind)
    structure(ctx, L, lo, hi, n, log)
    for t, m in enumerate(ms):
        if log and lo > 0:
            ua, ub = ctx.real('ua%d' % t, math.log(lo / 2), math.log(hi * 2)), ctx.real('ub%d' % t, math.log(lo / 2), math.log(hi * 2))
            ctx.assume(ua + 0.05 <= ub)
            a, b = ctx.exp(ua), ctx.exp(ub)
        elif log:
            ua, ub = ctx.real('ua%d' % t, math.log(-hi / 2), math.log(-lo * 2)), ctx.real('ub%d' % t, math.log(-hi / 2), math.log(-lo * 2))
            ctx.assume(ub + 0.05 <= ua)
            a, b = -ctx.exp(ua), -ctx.exp(ub)
        else:
            a, b = ctx.real('a%d' % t, lo - 1, hi + 1), ctx.real('b%d' % t, lo - 1, hi + 1)
            ctx.assume(a + 0.05 <= b)
        if end and t == 0:     # the first refinement reaches the upper end
            b = hi
            ctx.assume(a * (1 + (.1 if a > 0 else -.1)) <= b)
        if cells:          # one part of the space of ends (the other parts are cases of their own)
            pts = [lo + (hi - lo) * k / (n - 1.) for k in range(n)] if not log else [lo * (hi / lo)**(k / (n - 1.)) for k in range(n)]
            pts[-1] = hi
            ctx.assume(lo <= a)
            ctx.assume(b <= hi)
            if t == 0:
                i, j = cells
                ctx.assume(pts[i] <= a)
                ctx.assume(a <= pts[i + 1])
                ctx.assume(pts[j] <= b)
                ctx.assume(b <= pts[j + 1])
        before = snapshot(L)
        args = (b, a, m) if rev else (a, b, m)
        if bool(b <= lo) or bool(a >= hi):
            ctx.raises(lambda: L.update(*args), ValueError, 'an interval outside is refused')
            ctx.check(snapshot(L) == before, 'an interval outside is refused')
            continue
        # the new interval clipped to the base, at least a sliver of it
        ca, cb = (a if bool(a > lo) else lo), (b if bool(b < hi) else hi)
        if log:
            ctx.assume(abs(cb) >= abs(ca) * 1.02 if lo > 0 else abs(ca) >= abs(cb) * 1.02)
        else:
            ctx.assume(cb >= ca + 0.02)
        L.update(*args)
        structure(ctx, L, lo, hi, n, log)
        width = abs(ctx.log(cb / ca)) if log else cb - ca
        for x in L.ilist:
            for (l, h, _, st) in before:
                if min(x.hi, h) > max(x.lo, l):
                    ctx.check(abs(x.step) <= abs(st) * (1 + 1e-9), 'no coarser than before')
            if bool(ca + 1e-6 < x.hi) and bool(cb - 1e-6 > x.lo):
                ctx.le(abs(x.step) * (m - 1.0), width + 2 * abs(L.base.step), 'requested density is reached', tol=1e-6)
    if not loc:
        return
    if log:
        s = -1 if lo < 0 else 1
        ends = sorted((math.log(s * lo), math.log(s * hi)))
        x = s * ctx.exp(ctx.real('ux', *ends))
        ctx.assume(lo <= x)
        ctx.assume(x <= hi)
    else:
        x = ctx.real('x', lo, hi)
    i = L.locate(x)
    ctx.check(any(i is j for j in L.ilist), 'value is located in its interval')
    ctx.check(i.lo <= x, 'value is located in its interval')
    if bool(x < hi):
        ctx.check(x < i.hi, 'value is located in its interval')
    ctx.raises(lambda: L.locate(hi + 0.5), ValueError, 'a value out of range is refused')
    ctx.raises(lambda: L.locate(lo - 0.25), ValueError, 'a value out of range is refused')


def bad(ctx):
    w = ctx.world()
    G = w.load('inference.grid.grid1d')
    for a in ((0.0, 1.0, 1), (1.0, 1.0, 3), (0.0, 1.0, 3, 'log'), (-1.0, 2.0, 3, 'log'), (0.0, 1.0, 3, 'nosuch')):
        ctx.raises(lambda: G.RefinedIntervalList1D(*a), ValueError, 'a bad base interval is refused')


def cases(tier):
    big = tier == 'thorough'
    out = [Case('bad', bad)]
    O = dict(fork_minmax=True, exp_cmp=True, exp_lemmas=False, case_s=1500 if big else 240, timeout_ms=8000)
    B = [(0.0, 8.0, 5, 0), (-3.0, 1.0, 3, 0), (0.0, 1.0, 2, 0), (1.0, 16.0, 5, 1), (-8.0, -1.0, 4, 1), (0.3, 1.0, 4, 0)]
    for lo, hi, n, log in B:
        for rev in (0, 1):
            for m in ((2, 3, 6) if big or not log else (2, 5)):
                out.append(Case('one-%g-%g-%d%s%d-%d' % (lo, hi, n, 'log' if log else '', rev, m), run, dict(lo=lo, hi=hi, n=n, log=log, rev=rev, ms=[m]), weight=n, **O))
    two = [(-3.0, 1.0, 3, 0, [2, 3], 0), (1.0, 4.0, 2, 1, [3, 2], 0), (0.0, 1.0, 2, 0, [3, 4], 1)]
    if big:
        two += [(-3.0, 1.0, 3, 0, [3, 3], 0), (1.0, 4.0, 3, 1, [2, 3], 0), (0.0, 6.0, 4, 0, [3, 3], 0), (-3.0, 1.0, 3, 0, [4, 6], 1), (1.0, 8.0, 4, 1, [3, 4], 0), (-8.0, -1.0, 3, 1, [3, 3], 0), (0.0, 1.0, 2, 0, [3, 4, 3], 0)]
    for lo, hi, n, log, ms, rev in two:
        for i in range(n - 1):
            for j in range(i, n - 1):
                out.append(Case('two-%g-%g-%d%s-%s-%d%d' % (lo, hi, n, 'log' if log else '', ''.join(map(str, ms)), i, j), run,
                                dict(lo=lo, hi=hi, n=n, log=log, rev=rev, ms=ms, loc=big, cells=(i, j), end=bool(log and not big)), weight=20, **O))
    return out
