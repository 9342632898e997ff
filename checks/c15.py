"""C15: number of on-source counts due to the signal."""
import math
from symx.runner import Case
from . import util

BOUNDS = 'on-source and off-source counts each 0-4 (thorough: 0-6), one interval symbolic in [0.3,2.5] (on-source) or [0.8,5] (off-source), the other 1 or 2.5'
ASSUMPTIONS = ['floats are reals', 'probabilities compared to 1e-9']
MUST_REACH = ['probability of each number of signal counts', 'probabilities sum to 1', 'single number agrees with the array', 'the returned array is a copy', 'misuse is refused']
FORTRAN = ['inference.count._cbmlike']


def weights(non, noff, ton, toff):
    """C_i up to normalization: (1+toff/ton)^i (non+noff-i)!/(non-i)!"""
    f = 1.0 + toff / ton
    out, p = [], 1.0
    for i in range(non + 1):
        out.append(p * (math.factorial(non + noff - i) / math.factorial(non - i)))
        p = p * f
    return out


def probs(ctx, non, noff, sym):
    M = ctx.world().load('inference.count.onoff')
    if sym == 'on':
        ton, toff = ctx.real('ton', 0.3, 2.5), ctx.choose('toff', (1.0, 2.5))
    else:
        ton, toff = ctx.choose('ton', (1.0, 2.5)), ctx.real('toff', 0.8, 5)
    o = M.OnOff(non, ton, noff, toff)
    first = ctx.choose('first', ('all', 'one'))
    ws = weights(non, noff, ton, toff)
    W = sum(ws[1:], ws[0])
    if first == 'one':
        k = ctx.choose('k', (0, non) if non else (0,))
        ctx.eq(o.pnsig(k) * W, ws[k], 'probability of each number of signal counts', tol=1e-6)
    p = o.pnsig()
    ctx.check(len(p) == non + 1, 'probability of each number of signal counts')
    tot = 0.0
    for i in range(non + 1):
        ctx.eq(p[i] * W, ws[i], 'probability of each number of signal counts', tol=1e-6)
        tot = tot + p[i]
    ctx.eq(tot, 1.0, 'probabilities sum to 1', tol=1e-9)
    for i in range(non + 1):
        q = o.pnsig(i)
        ctx.check(len(getattr(q, 'shape', ())) == 0, 'single number agrees with the array')
        ctx.eq(q, p[i], 'single number agrees with the array', tol=1e-9)
    q0 = p[0]
    p[0] = -5.0
    ctx.eq(o.pnsig()[0], q0, 'the returned array is a copy', tol=1e-9)
    ctx.raises(lambda: o.pnsig(non + 1), ValueError, 'misuse is refused')
    ctx.raises(lambda: o.pnsig(-1), ValueError, 'misuse is refused')


def cases(tier):
    big = tier == 'thorough'
    n = 7 if big else 5
    return [Case('probs-%d-%d-%s' % (a, b, sym), probs, dict(non=a, noff=b, sym=sym), weight=a + b, timeout_ms=8000, case_s=1500 if big else 200)
            for a in range(n) for b in range(n) for sym in (('on', 'off') if big or a + b < 6 else ('on',))]
