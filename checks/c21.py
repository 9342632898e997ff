"""C21: adaptive cubature."""
import itertools, math
from symx.runner import Case
from . import util

BOUNDS = ('2-4 dimensions; integrands: every monomial of the degree of the rule (adapt: 7; adapt_vec: 13, 11, 9 or 7 for rules 1-4) with a symbolic factor, sums of two monomials with a symbolic coefficient of either sign, in a fixed rectangle; '
          'low-degree monomials over rectangles with symbolic ends; kinked and oscillating integrands with a symbolic factor; 1-2 integrands at once with independent factors; accuracies 1e-2 to 1e-5; limits of the number of points from the least to the default')
ASSUMPTIONS = ['floats are reals', 'reported accuracies are estimates: for integrands that are not polynomials of the degree of the rule the result has to be within ten times the requested accuracy',
               'adapt counts the centre of a region once although it is evaluated twice']
MUST_REACH = ['exact for polynomials', 'reported accuracy', 'number of evaluations', 'nodes inside', 'accurate', 'not converged is an error', 'misuse is refused', 'arguments are left alone', 'every integrand has its own result', 'reversed limits change the sign']
FORTRAN = ['inference.integrate._adapt', 'inference.integrate._dcuhre']

LO, HI = [0.0, -0.5, 0.25, 0.0], [1.0, 1.5, 1.0, 0.5]


def pw(x, n):
    r = 1.0
    for i in range(n):
        r = r * x
    return r


def integral(p, lo, hi):
    ex = 1.0
    for i in range(len(p)):
        ex = ex * (pw(hi[i], p[i] + 1) - pw(lo[i], p[i] + 1)) / (p[i] + 1.0)
    return ex


def mono(p, x):
    v = 1.0
    for i in range(len(p)):
        v = v * pw(x[i], p[i])
    return v


def watch(ctx, f, lo, hi, n=None):
    nd = len(lo)
    count = []
    def g(x, *a):
        ctx.check(len(x) == nd, 'nodes inside')
        for i in range(nd):
            ctx.between(x[i], lo[i], hi[i], 'nodes inside', tol=1e-9)
        count.append(1)
        return f(x) if n is None else ctx.array(f(x))
    return g, count


def run(ctx, f, lo, hi, eps, truth, exact, args=(), asarray=False):
    """adapt: returns the result after the common checks"""
    I = ctx.world().load('inference.integrate')
    g, count = watch(ctx, f, lo, hi)
    L, H = (ctx.array(lo), ctx.array(hi)) if asarray else (list(lo), list(hi))
    r, e, n = I.adapt(g, L, H, eps, *args)
    if exact:
        ctx.eq(r, truth, 'exact for polynomials', tol=1e-6)
    else:
        ctx.le(abs(r - truth), 10 * eps * abs(truth), 'accurate', tol=1e-9)
    ctx.between(e, 0.0, eps, 'reported accuracy', tol=1e-9)
    ctx.check(n <= len(count) <= n + n // 20, 'number of evaluations')
    fac = args[0] if args else 100
    nd = len(lo)
    ctx.check(n <= fac * (2 ** nd + 2 * nd ** 2 + 6 * nd + 1), 'number of evaluations')
    for i in range(nd):
        ctx.eq(L[i], lo[i], 'arguments are left alone', tol=1e-12)
        ctx.eq(H[i], hi[i], 'arguments are left alone', tol=1e-12)
    return r


def one(ctx, p, eps):
    nd = len(p)
    lo, hi = LO[:nd], HI[:nd]
    c = ctx.real('c', 0.5, 2)
    run(ctx, lambda x: c * mono(p, x), lo, hi, eps, c * integral(p, lo, hi), True, asarray=sum(p) % 2)


def two(ctx, p, q, eps):
    nd = len(p)
    lo, hi = LO[:nd], HI[:nd]
    c = ctx.real('c', -0.3, 0.3)
    run(ctx, lambda x: mono(p, x) + c * mono(q, x), lo, hi, eps, integral(p, lo, hi) + c * integral(q, lo, hi), sum(p) <= 7 and sum(q) <= 7)


def box(ctx, p):
    nd = len(p)
    lo = [ctx.real('lo%d' % i, 0.25, 1) for i in range(nd)]
    w = [ctx.real('w%d' % i, 0.5, 1) for i in range(nd)]
    hi = [lo[i] + w[i] for i in range(nd)]
    run(ctx, lambda x: mono(p, x), lo, hi, 1e-4, integral(p, lo, hi), True)


KINKS = {
    'x': (2, lambda x: abs(x[0] - 0.3), 2.0 * 0.29),
    'y': (2, lambda x: abs(x[1] - 0.4), 0.405 + 0.605),
    'xy': (2, lambda x: abs(x[0] - 0.3) * (x[1] + 1.0), 0.29 * 3.0),
    'z': (3, lambda x: abs(x[2] - 0.5) + x[0], 2.0 * (0.03125 + 0.125) + 0.75),
    'cos': (2, lambda x: 1.1 + math.cos(7 * x[0] + x[1]), 2.2 + (-(math.cos(8.5) - math.cos(1.5)) + (math.cos(6.5) - math.cos(-0.5))) / 7.0),
}


def kink(ctx, which, eps, args):
    nd, f, t = KINKS[which]
    c = ctx.real('c', 0.5, 2)
    run(ctx, lambda x: c * f([float(y) for y in x]), LO[:nd], HI[:nd], eps, c * t, False, args=args)


def toofew(ctx, which, eps, args):
    I = ctx.world().load('inference.integrate')
    nd, f, t = KINKS[which]
    c = ctx.real('c', 0.5, 2)
    ctx.raises(lambda: I.adapt(lambda x: c * f([float(y) for y in x]), LO[:nd], HI[:nd], eps, *args), RuntimeError, 'not converged is an error')


def either(ctx, which, grid):
    """an error or the requested accuracy"""
    I = ctx.world().load('inference.integrate')
    nd, f, t = KINKS[which]
    c = ctx.real('c', 0.5, 2)
    ok = bad = 0
    for eps, fac, wrk in grid:
        try:
            r, e, n = I.adapt(lambda x: c * f([float(y) for y in x]), LO[:nd], HI[:nd], eps, fac, wrk)
        except RuntimeError:
            bad += 1
            continue
        ok += 1
        ctx.between(e, 0.0, eps, 'reported accuracy', tol=1e-9)
        ctx.le(abs(r - c * t), 10 * eps * abs(c * t), 'accurate', tol=1e-9)
    ctx.check(bad > 0, 'not converged is an error')


def misuse(ctx):
    I = ctx.world().load('inference.integrate')
    c = ctx.real('c', 0.5, 2)
    for nd in (1, 21):
        ctx.raises(lambda: I.adapt(lambda x: c, [0.0] * nd, [1.0] * nd, 0.1), ValueError, 'misuse is refused')
    ctx.raises(lambda: I.adapt(lambda x: c, [0.0] * 2, [1.0] * 2, 0.1, 0), ValueError, 'misuse is refused')


# ------------------------------------------------------------------ vectors

def vrun(ctx, fs, lo, hi, eps, truths, exact, nm=1, **kw):
    I = ctx.world().load('inference.integrate')
    n = len(fs)
    slo, shi = [min(a, b) for a, b in zip(lo, hi)], [max(a, b) for a, b in zip(lo, hi)]
    g, count = watch(ctx, lambda x: [f(x) for f in fs], slo, shi, n)
    L, H = (ctx.array(lo), ctx.array(hi)) if nm else (list(lo), list(hi))
    r, e, ne = I.adapt_vec(n, g, L, H, eps, **kw)
    ctx.check(len(r) == n and len(e) == n, 'every integrand has its own result')
    lab = 'exact for polynomials' if n == 1 else 'every integrand has its own result'
    for i in range(n):
        if exact:
            ctx.eq(r[i], truths[i], lab, tol=1e-6)
        else:
            ctx.le(abs(r[i] - truths[i]), 10 * eps * abs(truths[i]), 'accurate', tol=1e-9)
        ctx.le(0.0, e[i], 'reported accuracy', tol=1e-9)
        ctx.check(bool(e[i] <= eps * abs(r[i]) + 1e-9) or bool(e[i] <= kw.get('abseps', 0.0) + 1e-9), 'reported accuracy')
    ctx.check(ne == len(count) and ne <= kw.get('maxpts', 100000) and ne >= kw.get('minpts', 0), 'number of evaluations')
    for i in range(len(lo)):
        ctx.eq(L[i], lo[i], 'arguments are left alone', tol=1e-12)
        ctx.eq(H[i], hi[i], 'arguments are left alone', tol=1e-12)
    return r


def vone(ctx, p, key, kw):
    nd = len(p)
    lo, hi = LO[:nd], HI[:nd]
    c = ctx.real('c', 0.5, 2)
    vrun(ctx, [lambda x: c * mono(p, x)], lo, hi, 1e-3, [c * integral(p, lo, hi)], True, nm=sum(p) % 2, key=key, abseps=50.0, **kw)


def vtwo(ctx, p, q, key):
    """two integrands with different factors"""
    nd = len(p)
    lo, hi = LO[:nd], HI[:nd]
    c, d = ctx.real('c', 0.5, 2), ctx.real('d', 0.1, 4)
    vrun(ctx, [lambda x: c * mono(p, x), lambda x: d * mono(q, x)], lo, hi, 1e-3, [c * integral(p, lo, hi), d * integral(q, lo, hi)], True, key=key, abseps=50.0)


def vkink(ctx, which, eps, kw):
    nd, f, t = KINKS[which]
    c = ctx.real('c', 0.5, 2)
    vrun(ctx, [lambda x: c * f([float(y) for y in x]), lambda x: c], LO[:nd], HI[:nd], eps, [c * t, c * integral((0,) * nd, LO[:nd], HI[:nd])], False, **kw)


def vreverse(ctx, p, flip):
    nd = len(p)
    lo, hi = LO[:nd], HI[:nd]
    for i in flip:
        lo, hi = list(lo), list(hi)
        lo[i], hi[i] = hi[i], lo[i]
    c = ctx.real('c', 0.5, 2)
    r = vrun(ctx, [lambda x: c * mono(p, x)], lo, hi, 1e-3, [c * integral(p, lo, hi)], True, abseps=50.0)
    ctx.eq(r[0], (-1) ** len(flip) * c * integral(p, LO[:nd], HI[:nd]), 'reversed limits change the sign', tol=1e-6)


def vmisuse(ctx):
    I = ctx.world().load('inference.integrate')
    c = ctx.real('c', 0.5, 2)
    f = lambda x, *a: ctx.array([c * abs(x[0] - 0.3)])
    def bad(lo, hi, *a, **k):
        ctx.raises(lambda: I.adapt_vec(1, f, lo, hi, *a, **k), ValueError, k.pop('lab', 'misuse is refused'))
    bad([0.0], [1.0], 0.1)
    bad([0.0] * 16, [1.0] * 16, 0.1)
    bad([0.0] * 2, [1.0] * 2, 0.1, key=5)
    bad([0.0] * 2, [1.0] * 2, 0.1, key=2)
    bad([0.0] * 3, [1.0] * 3, 0.1, key=1)
    bad([0.0] * 2, [1.0] * 2, 0.1, maxpts=194)
    bad([0.0] * 2, [1.0] * 2, 0.1, minpts=2000, maxpts=1000)
    bad([0.0] * 2, [1.0] * 2, -0.1, abseps=-1.0)
    bad([0.0, 0.5], [1.0, 0.5], 0.1)
    ctx.raises(lambda: I.adapt_vec(1, f, [0.0] * 2, [1.0] * 2, 1e-9, maxpts=195), ValueError, 'not converged is an error')
    ctx.raises(lambda: I.adapt_vec(1, f, [0.0] * 2, [1.0] * 2, 1e-9, maxpts=1000), ValueError, 'not converged is an error')


def powers(nd, deg, every=False):
    L = [p for p in itertools.product(range(deg + 1), repeat=nd) if sum(p) <= deg]
    return L if every else [p for p in L if sum(p) >= deg - 1 or sum(p) <= 1]


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = [Case('misuse', misuse, {}, **O), Case('vmisuse', vmisuse, {}, **O)]
    nm = lambda p: ''.join('%x' % i for i in p)
    for nd in (2, 3, 4):
        for p in powers(nd, 7, nd == 2 or big):
            if nd == 4 and not big and sum(1 for i in p if i) not in (0, 4):
                continue
            if nd == 3 and not big and p != tuple(sorted(p)) and sum(p) % 2:
                continue
            out.append(Case('mono-' + nm(p), one, dict(p=p, eps=1e-3 if nd == 2 else 1e-2), weight=nd, **O))
    for p in [p for n in (2, 3) for p in powers(n, 3, True)] + [(0, 0, 0, 0), (1, 1, 1, 0)]:
        if len(p) == 2 or big or sum(p) <= 1 or p in ((1, 1, 1), (2, 0, 1)):
            out.append(Case('box-' + nm(p), box, dict(p=p), **O))
    for p, q in (((0, 0), (6, 0)), ((0, 0), (0, 6)), ((0, 0), (4, 2)), ((0, 0), (3, 4)), ((0, 0), (8, 0)), ((0, 0), (0, 9)), ((0, 0, 0), (0, 6, 0)), ((0, 0, 0), (2, 2, 2))):
        out.append(Case('sum-%s-%s' % (nm(p), nm(q)), two, dict(p=p, q=q, eps=1e-3), weight=5, **O))
    for w in KINKS:
        for eps, args in ((1e-2, ()), (1e-3, (100, 2)), (1e-4, (400,)) if big or w == 'x' else (1e-2, (40,))):
            out.append(Case('kink-%s-%g-%s' % (w, eps, '_'.join(str(a) for a in args)), kink, dict(which=w, eps=eps, args=args), weight=6, **O))
        if w != 'z' or big:
            out.append(Case('either-w-%s' % w, either, dict(which=w, grid=[(e, 100, k) for e in (1e-2, 3e-3, 1e-3) for k in (0.02, 0.03, 0.05, 0.07, 0.1, 0.15, 0.2)]), weight=8, **O))
            out.append(Case('either-m-%s' % w, either, dict(which=w, grid=[(e, k, 5) for e in (1e-2, 3e-3, 1e-3) for k in (1, 2, 3, 4, 5, 7, 10)]), weight=8, **O))
        out.append(Case('few-%s' % w, toofew, dict(which=w, eps=1e-5, args=(2,)), **O))
        out.append(Case('small-%s' % w, toofew, dict(which=w, eps=1e-5, args=(100, 0.02)), **O))
    for nd, key, deg in ((2, 0, 13), (2, 1, 13), (2, 3, 9), (2, 4, 7), (3, 0, 11), (3, 2, 11), (3, 3, 9), (3, 4, 7), (4, 0, 9), (4, 3, 9), (4, 4, 7)):
        L = powers(nd, deg, big and nd == 2)
        if not big:
            L = [p for p in L if max(p) >= deg - 2 or max(p) <= 1 or (len(set(p)) < nd and p == tuple(sorted(p)))]
            L = L[::1 if nd == 2 and key else 2 if nd == 2 else 6 if nd == 3 else 9]
        for p in L:
            out.append(Case('vec-%d-%s' % (key, nm(p)), vone, dict(p=p, key=key, kw={}), weight=nd, **O))
    out.append(Case('vec-min', vone, dict(p=(2, 3), key=0, kw=dict(minpts=500)), **O))
    for p, q, key in (((0, 0), (2, 4), 0), ((3, 0), (0, 6), 3), ((0, 3), (1, 2), 4), ((1, 0, 2), (0, 2, 1), 0), ((4, 0), (0, 8), 1)):
        out.append(Case('pair-%d-%s-%s' % (key, nm(p), nm(q)), vtwo, dict(p=p, q=q, key=key), weight=5, **O))
    for w in KINKS:
        for key in (0, 3, 4):
            out.append(Case('vkink-%s-%d' % (w, key), vkink, dict(which=w, eps=1e-2, kw=dict(key=key)), weight=6, **O))
        out.append(Case('vkink-%s-fine' % w, vkink, dict(which=w, eps=1e-3, kw=dict(maxpts=200000, minpts=300)), weight=6, **O))
    for flip in ([0], [1], [0, 1], [2], [0, 1, 2]):
        for p in ((2, 1), (3, 2)) if max(flip) < 2 else ((1, 2, 2),):
            out.append(Case('reversed-%s-%s' % (nm(flip), nm(p)), vreverse, dict(p=p, flip=flip), **O))
    return out
