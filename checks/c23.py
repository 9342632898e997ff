"""C23: running sums of logarithms."""
import math
from symx.runner import Case
from . import util

BOUNDS = 'up to 4 values (thorough: 5; with the sum of squares: 3) in [0.01,100], given by their logarithms, also offset by up to 1e6 and spread by 30-100 in the logarithm, any order, zeros anywhere in between; sums continued from an earlier sum; with and without the sum of squares'
ASSUMPTIONS = ['floats are reals; logarithms compared to 1e-9', 'for the standard deviation: values that are not all equal']
MUST_REACH = ['log of the sum', 'count and mean', 'log of the sum of squares', 'standard deviation', 'an empty sum is refused', 'sums are independent', 'continued sum']


def total(ctx, es):
    t = es[0]
    for e in es[1:]:
        t = t + e
    return t


def summ(ctx, n, zeros, dosig, off, plus):
    """values exp(off)*e_i, e_i symbolic positive"""
    U = ctx.world().load('inference.utils.numutils')
    es = [ctx.real('e%d' % i, 0.01, 100) for i in range(n)]
    s = U.LogSummer(dosig) if dosig else U.LogSummer()
    other = U.LogSummer(dosig)
    other = other + 1.0
    z = 0
    for i, e in enumerate(es):
        for k in range(zeros):
            if ctx.choose('zero%d_%d' % (i, k), (0, 1)):
                s.add_zero()
                z += 1
        v = ctx.log(e) + off
        if plus:
            s = s + v
        else:
            s += v
    N = n + z
    S = total(ctx, es)
    if dosig:
        Q = total(ctx, [e * e for e in es])
        var = Q / float(N) - S * S / float(N * N)
        if N > 1:
            ctx.assume(var >= 0.0001 * Q)
        else:
            ctx.cut('a single value has no spread')
    st = s.status()
    ctx.check(st[0] == N and len(st) == (5 if dosig else 3), 'count and mean')
    ctx.eq(st[1] - off, ctx.log(S), 'log of the sum', tol=1e-9)
    ctx.eq(st[-2 if dosig else -1] - off, ctx.log(S) - math.log(N), 'count and mean', tol=1e-9)
    if dosig:
        ctx.eq(st[2] - 2 * off, ctx.log(Q), 'log of the sum of squares', tol=1e-9)
        ctx.eq(2 * (st[4] - off), ctx.log(var), 'standard deviation', tol=1e-6)
    o = other.status()
    ctx.check(o[0] == 1, 'sums are independent')
    ctx.eq(o[1], 1.0, 'sums are independent')
    # status does not alter the sum
    st2 = s.status()
    ctx.eq(st2[1], st[1], 'log of the sum')


def spread(ctx, steps, dosig):
    """values of very different size: log e_i = symbolic + steps[i]"""
    U = ctx.world().load('inference.utils.numutils')
    ds = [ctx.real('d%d' % i, 0.5, 2) for i in range(len(steps))]
    s = U.LogSummer(dosig)
    for d, k in zip(ds, steps):
        s += ctx.log(d) + k
    st = s.status()
    top = max(steps)
    S = total(ctx, [d * math.exp(k - top) for d, k in zip(ds, steps)])
    ctx.eq(st[1] - top, ctx.log(S), 'log of the sum', tol=1e-9)
    if dosig:
        Q = total(ctx, [d * d * math.exp(2 * (k - top)) for d, k in zip(ds, steps)])
        ctx.eq(st[2] - 2 * top, ctx.log(Q), 'log of the sum of squares', tol=1e-9)


def cont(ctx, n, m):
    U = ctx.world().load('inference.utils.numutils')
    es = [ctx.real('e%d' % i, 0.01, 100) for i in range(n + m)]
    s = U.LogSummer()
    for e in es[:n]:
        s += ctx.log(e)
    st = s.status()
    t = U.LogSummer(start=(st[0], st[1]))
    for e in es[n:]:
        t += ctx.log(e)
    st = t.status()
    ctx.check(st[0] == n + m, 'continued sum')
    S = total(ctx, es)
    ctx.eq(st[1], ctx.log(S), 'continued sum', tol=1e-9)
    ctx.eq(st[2], ctx.log(S) - math.log(n + m), 'continued sum', tol=1e-9)
    ctx.eq(s.status()[1], ctx.log(total(ctx, es[:n])), 'sums are independent', tol=1e-9)


def empty(ctx):
    U = ctx.world().load('inference.utils.numutils')
    for d in (None, 1):
        s = U.LogSummer(d)
        ctx.raises(s.status, ValueError, 'an empty sum is refused')
        s.add_zero()
        ctx.raises(s.status, ValueError, 'an empty sum is refused')
        e = ctx.real('e%s' % d, -3, 3)
        s += e
        st = s.status() if not d else None
        if st:
            ctx.check(st[0] == 2, 'count and mean')
            ctx.eq(st[2], e - math.log(2), 'count and mean', tol=1e-9)


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = [Case('empty', empty, {}, **O)]
    for n in range(1, 6 if big else 5):
        for z in (0, 1):
            for d in (0, 1):
                if n == 1 and d and not z:
                    continue
                for off in (0.0, 1000.0, -1e6):
                    if off and n > 3:
                        continue
                    if d and not big and n > 2 and (n, z, off) != (3, 0, 0.0):
                        continue
                    if d and n > 3:
                        continue
                    out.append(Case('sum-%d-%d-%d-%g' % (n, z, d, off), summ, dict(n=n, zeros=z, dosig=d, off=off, plus=n % 2), weight=n + 3 * z, **O))
    for i, steps in enumerate(([0, -38], [-38, 0], [0, -45, -45], [-100, 0, 35], [0, 0, -39, -39], [-30, -60, 0], [0, 45], [45, 0, 45], [-19, 0], [0, -19, 1], [0, -9.5], [-9.5, 0], [0, -9, -9, -9.5])):
        for d in (0, 1):
            out.append(Case('spread-%d-%d' % (i, d), spread, dict(steps=steps, dosig=d), weight=3, **O))
    for n in (1, 2):
        for m in (0, 1, 2):
            out.append(Case('cont-%d-%d' % (n, m), cont, dict(n=n, m=m), **O))
    return out
