"""C16: marginal log likelihood of the signal rate."""
import math
from symx.runner import Case
from . import util

BOUNDS = ('on-source counts 0-3, off-source counts 0-3 (thorough: 0-5), intervals (1,2), (2.5,1), signal rates symbolic in [0.05,3], or zero; cutoffs 0, 1e-5 and 0.3; '
          'rates so large that the likelihood underflows (700-5000); arrays of 1-3 rates')
ASSUMPTIONS = ['floats are reals', 'the log likelihood is defined up to a constant depending on the data: differences from a zero rate are compared']
MUST_REACH = ['marginal likelihood', 'truncated sum is within the cutoff', 'arrays agree with numbers', 'misuse is refused', 'underflow is reported']
FORTRAN = ['inference.count._cbmlike']


def lratio(ctx, s, non, noff, ton, toff):
    """L(s)/L(0) * exp(s ton)"""
    x, p, tot = s * (ton + toff), 1.0, 0.0
    c0 = math.factorial(non + noff) / math.factorial(non)
    for k in range(non + 1):
        tot = tot + p * (math.factorial(non + noff - k) / (math.factorial(non - k) * math.factorial(k)) / c0)
        p = p * x
    return tot


def like(ctx, non, noff, ton, toff, cut):
    M = ctx.world().load('inference.count.onoff')
    o = M.OnOff(non, ton, noff, toff, cut)
    s = ctx.real('s', 0.05, 3)
    d = o.siglml(s) - o.siglml(0.0)
    ref = ctx.log(lratio(ctx, s, non, noff, ton, toff)) - s * ton
    if cut < 1e-4:
        ctx.eq(d, ref, 'marginal likelihood', tol=1e-6 + 2 * (non + 1) * cut)
    else:
        ctx.le(d, ref, 'truncated sum is within the cutoff', tol=1e-6)
        ctx.le(ref + math.log(1.0 - non * cut / (1.0 + non * cut)), d, 'truncated sum is within the cutoff', tol=1e-6)


def arrays(ctx, non, noff, n, ints):
    w = ctx.world()
    M = w.load('inference.count.onoff')
    o = M.OnOff(non, 1.0, noff, 2.0)
    if ints:
        ss = [1, 0, 3][:n]
        a = ctx.np.array(ss)
    else:
        ss = [ctx.real('s%d' % i, 0.2, 1.5) if i < 2 else 0.7 for i in range(n)]
        a = ctx.array(ss)
    v = o.siglml(a)
    ctx.check(n == 1 or len(v) == n, 'arrays agree with numbers')
    for i in range(n):
        ctx.eq(v[i] if len(getattr(v, 'shape', ())) else v, o.siglml(ss[i]), 'arrays agree with numbers', tol=1e-9)
    ctx.raises(lambda: o.siglml(ctx.array([[0.1, 0.2], [0.3, 0.4]])), ValueError, 'misuse is refused')


def under(ctx, non, noff):
    M = ctx.world().load('inference.count.onoff')
    o = M.OnOff(non, 1.0, noff, 2.0)
    s = ctx.real('s', 900, 5000)
    ctx.raises(lambda: o.siglml(s), ValueError, 'underflow is reported')
    for a in ([0.5, s], [s, 0.5], [0.5, s, 1.0], [s, s]):
        ctx.raises(lambda: o.siglml(ctx.array(a)), ValueError, 'underflow is reported')
    ctx.raises(lambda: o.siglml(ctx.np.array([1, 3000, 2])), ValueError, 'underflow is reported')


def cases(tier):
    big = tier == 'thorough'
    n = 6 if big else 4
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = []
    for a in range(n):
        for b in range(n):
            for cut in (0.0, 1e-5, 0.3):
                for ton, toff in ((1.0, 2.0), (2.5, 1.0)):
                    out.append(Case('like-%d-%d-%g-%g' % (a, b, cut, ton), like, dict(non=a, noff=b, ton=ton, toff=toff, cut=cut), weight=a + b, **O))
    for m in (1, 2, 3):
        for ints in (0, 1):
            out.append(Case('arrays-%d-%d' % (m, ints), arrays, dict(non=2, noff=1, n=m, ints=ints), **O))
    for a, b in ((0, 0), (2, 1)):
        out.append(Case('under-%d-%d' % (a, b), under, dict(non=a, noff=b), **O))
    return out
