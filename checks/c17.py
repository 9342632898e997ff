"""C17: marginal posterior density of the signal rate."""
import math
from symx.runner import Case
from . import util
from .c15 import weights

BOUNDS = ('on-source counts 0-4, off-source counts 0-3 (thorough: 0-6), one on-source count of 36; signal rates symbolic in [0.05,3], or zero; '
          'intervals (1,2), (2.5,1) or the on-source interval symbolic in [0.5,2] (up to three counts); arrays of 1-3 rates, floats or integers, off-source intervals 0.25-20; density requested before or after the count probabilities')
ASSUMPTIONS = ['floats are reals']
MUST_REACH = ['posterior density is the mixture of count densities', 'arrays agree with numbers', 'misuse is refused']
FORTRAN = ['inference.count._cbmlike']


def dens(ctx, s, non, noff, ton, toff):
    """sum of C_i ton (s ton)^i exp(-s ton)/i!"""
    ws = weights(non, noff, ton, toff)
    W = sum(ws[1:], ws[0])
    tot, p = 0.0, 1.0
    for i in range(non + 1):
        tot = tot + ws[i] * p / float(math.factorial(i))
        p = p * (s * ton)
    return tot * ton / W * ctx.exp(-(s * ton))


def post(ctx, non, noff, ton, toff, zero=False):
    M = ctx.world().load('inference.count.onoff')
    if ton is None:
        ton = ctx.real('ton', 0.5, 2)
    o = M.OnOff(non, ton, noff, toff)
    s = 0.0 if zero else ctx.real('s', 0.05, 3)
    first = ctx.choose('first', (0, 1))
    if first:
        p = o.pnsig()
        p[0] = 7.0
    for k in range(2):
        ctx.eq(o.sigmp(s), dens(ctx, s, non, noff, ton, toff), 'posterior density is the mixture of count densities', tol=1e-7)


def arrays(ctx, non, noff, n, ints, toff=2.0):
    M = ctx.world().load('inference.count.onoff')
    o = M.OnOff(non, 1.0, noff, toff)
    if ints:
        ss = [1, 0, 3][:n]
        a = ctx.np.array(ss)
    else:
        ss = [ctx.real('s%d' % i, 0.2, 1.5) for i in range(n)]
        a = ctx.array(ss)
    v = o.sigmp(a)
    ctx.check(n == 1 or len(v) == n, 'arrays agree with numbers')
    for i in range(n):
        ctx.eq(v[i] if len(getattr(v, 'shape', ())) else v, dens(ctx, ss[i], non, noff, 1.0, toff), 'arrays agree with numbers', tol=1e-7)
    ctx.raises(lambda: o.sigmp(ctx.array([[0.1, 0.2], [0.3, 0.4]])), ValueError, 'misuse is refused')


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = []
    for a in range(7 if big else 5):
        for b in range(7 if big else 4):
            for ton, toff in ((1.0, 2.0), (2.5, 1.0), (None, 1.0)):
                if ton is None and a + b > 3:
                    continue
                out.append(Case('post-%d-%d-%s' % (a, b, ton), post, dict(non=a, noff=b, ton=ton, toff=toff), weight=a + b, **O))
            out.append(Case('zero-%d-%d' % (a, b), post, dict(non=a, noff=b, ton=None, toff=1.0, zero=True), **O))
    out.append(Case('many', post, dict(non=36, noff=3, ton=2.0, toff=4.0), weight=100, **O))
    for m in (1, 2, 3):
        for ints in (0, 1):
            out.append(Case('arrays-%d-%d' % (m, ints), arrays, dict(non=2, noff=1, n=m, ints=ints), **O))
    for a, b, t in ((4, 0, 20.0), (0, 3, 0.25), (3, 3, 0.25), (6, 0, 1.0)):
        for ints in (0, 1):
            out.append(Case('arrays-%d-%d-%g-%d' % (a, b, t, ints), arrays, dict(non=a, noff=b, n=2, ints=ints, toff=t), **O))
    return out
