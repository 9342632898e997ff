"""C20: 2-d cubature rules."""
import math
from symx.runner import Case
from . import util

BOUNDS = ('every rule in the rule dictionary and every function of the module; all polynomials (symbolic coefficients in [-1,1]) of the degree of the rule, for the rectangle rules with symbolic range ends, '
          'given in either order, for the normal-weight class with symbolic location in [-2,2] and scales in [0.2,2] (rules above degree 5: symbolic coefficients with three locations and scales)')
ASSUMPTIONS = ['floats are reals', 'abscissas and weights are tabulated to double precision: compared to 1e-8 of the size of the integral']
MUST_REACH = ['exact for polynomials of its degree', 'rectangle rules are exact for polynomials', 'number of points', 'normal weight', 'nodes inside', 'objects are independent', 'misuse is refused']


def g(m):
    return math.gamma((m + 1) / 2.0) if m % 2 == 0 else 0.0


def monos(deg):
    return [(m, d - m) for d in range(deg + 1) for m in range(d + 1)]


def pw(x, n):
    r = 1.0
    for i in range(n):
        r = r * x
    return r


def poly(cs, count=None):
    M = max([max(k) for k in cs] + [0])
    def f(x, y):
        if count is not None:
            count.append((x, y))
        px, py = [1.0], [1.0]
        for i in range(M):
            px.append(px[-1] * x)
            py.append(py[-1] * y)
        s = 0.0
        for (m, n), c in cs.items():
            s = s + c * (px[m] * py[n])
        return s
    return f


def coefs(ctx, deg):
    return {(m, n): ctx.real('c%d_%d' % (m, n), -1, 1) for m, n in monos(deg)}


def parse(name):
    p = name.split('_')
    return int(p[-2]), int(p[-1].rstrip('abcdefgh'))


def raw(ctx, which):
    C = ctx.world().load('inference.integrate.cub2d')
    names = sorted(C.rule_dict)
    ctx.check(len(names) >= 11, 'exact for polynomials of its degree')
    name = names[which] if which < len(names) else None
    if name is None:
        return
    deg, npts = parse(name)
    cs = coefs(ctx, deg)
    f, absc, wts = C.rule_dict[name]
    for again in range(2):
        pts = []
        v = f(poly(cs, pts))
        ctx.check(len(pts) == npts and len(absc) == npts and len(wts) == npts, 'number of points')
        ex = 0.0
        for (m, n), c in cs.items():
            ex = ex + c * (g(m) * g(n))
        ctx.eq(v, ex, 'exact for polynomials of its degree', tol=1e-8 * (1 + g(2 * (deg // 2))))
        # making an integrator does not alter the rule
        C.NormWtCub2D([3.0, 1.0], [2.0, 0.5], rule=name)


def square(ctx, which):
    C = ctx.world().load('inference.integrate.cub2d')
    fn, deg, npts = [('square1d4pt', 1, 4), ('square3d4pt', 3, 4), ('square7d12pt', 7, 12)][which]
    cs = coefs(ctx, deg)
    pts = []
    v = getattr(C, fn)(poly(cs, pts))
    ctx.check(len(pts) == npts, 'number of points')
    for x, y in pts:
        ctx.between(x, -1.0, 1.0, 'nodes inside')
        ctx.between(y, -1.0, 1.0, 'nodes inside')
    ex = 0.0
    for (m, n), c in cs.items():
        if m % 2 == 0 and n % 2 == 0:
            ex = ex + c * (4.0 / ((m + 1) * (n + 1)))
    ctx.eq(v, ex, 'exact for polynomials of its degree', tol=1e-8)


def rect(ctx, which, m, n, lists):
    C = ctx.world().load('inference.integrate.cub2d')
    fn, deg, npts = [('rect3d4pt', 3, 4), ('rect7d12pt', 7, 12)][which]
    xl, yl = ctx.real('xl', -2, 2), ctx.real('yl', -2, 2)
    hx, hy = ctx.real('wx', 0.1, 2), ctx.real('wy', -2, -0.1)
    xu, yu = xl + hx, yl + hy
    pts = []
    def f(x, y):
        pts.append((x, y))
        return pw(x, m) * pw(y, n)
    xr, yr = ((xl, xu), (yl, yu)) if not lists else (ctx.array([xl, xu]), [yl, yu])
    v = getattr(C, fn)(f, xr, yr)
    ctx.check(len(pts) == npts, 'number of points')
    for x, y in pts:
        ctx.between(x - xl, 0.0, hx, 'nodes inside')
        ctx.between(y - yl, hy, 0.0, 'nodes inside')
    ex = (pw(xu, m + 1) - pw(xl, m + 1)) * (pw(yu, n + 1) - pw(yl, n + 1)) / ((m + 1.0) * (n + 1.0))
    ctx.eq(v, ex, 'rectangle rules are exact for polynomials', tol=1e-6)


def dfac(k):
    r = 1.0
    while k > 1:
        r *= k
        k -= 2
    return r


def moment(l, s, m):
    """E[(l + s z)^m], z normal"""
    r = 0.0
    for k in range(0, m + 1, 2):
        r = r + math.comb(m, k) * dfac(k - 1) * pw(l, m - k) * pw(s, k)
    return r


def normal(ctx, which, m, n, locsc):
    """one monomial, symbolic location and scale; or all monomials at a fixed one"""
    C = ctx.world().load('inference.integrate.cub2d')
    names = sorted(C.rule_dict)
    if which is None:
        name, kw = 'e2r2_7_12', {}
    elif which >= len(names):
        return
    else:
        name = names[which]
        kw = dict(rule=name)
    deg, npts = parse(name)
    if locsc is None:
        l = [ctx.real('l%d' % i, -2, 2) for i in range(2)]
        s = [ctx.real('s%d' % i, 0.2, 2) for i in range(2)]
    else:
        l, s = locsc[:2], locsc[2:]
    other = C.NormWtCub2D([9.0, 8.0], [7.0, 6.0], **kw)
    q = C.NormWtCub2D(l, s, **kw)
    other2 = C.NormWtCub2D([5.0, 8.0], [7.0, 6.0], **kw)
    if locsc is None:
        mm = [(i, j) for i, j in monos(min(deg, 5))] if m is None else [(m, n)]
        for i, j in mm:
            v = q(lambda x, y: pw(x, i) * pw(y, j))
            ctx.eq(v, moment(l[0], s[0], i) * moment(l[1], s[1], j), 'normal weight', tol=1e-6)
    else:
        cs = coefs(ctx, deg)
        pts = []
        v = q(poly(cs, pts))
        ctx.check(len(pts) == npts, 'number of points')
        ex, size = 0.0, 1.0
        for (i, j), c in cs.items():
            t = moment(l[0], s[0], i) * moment(l[1], s[1], j)
            ex = ex + c * t
            size = max(size, abs(t))
        ctx.eq(v, ex, 'normal weight', tol=1e-8 * size)
    ctx.eq(other(lambda x, y: x), 9.0, 'objects are independent', tol=1e-6)
    ctx.eq(other2(lambda x, y: x), 5.0, 'objects are independent', tol=1e-6)


def misuse(ctx):
    C = ctx.world().load('inference.integrate.cub2d')
    a = ctx.real('a', 0.1, 3)
    ctx.raises(lambda: C.NormWtCub2D([a, a, a], [a, a]), ValueError, 'misuse is refused')
    ctx.raises(lambda: C.NormWtCub2D([a, a], [a]), ValueError, 'misuse is refused')
    ctx.raises(lambda: C.NormWtCub2D([a], [a, a]), ValueError, 'misuse is refused')
    ctx.raises(lambda: C.NormWtCub2D([a, a], [a, a], 'nosuch'), KeyError, 'misuse is refused')
    # the default rule
    v = C.NormWtCub2D([a, -a], [1.0, 2.0])
    ctx.eq(v(lambda x, y: x * x + y), a * a + 1.0 - a, 'normal weight', tol=1e-6)


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = [Case('misuse', misuse, {}, **O)]
    for k in range(16):
        out.append(Case('rule-%d' % k, raw, dict(which=k), **O))
        for j, ls in enumerate(((0.0, 0.0, 1.0, 1.0), (1.5, -2.0, 0.5, 1.25), (-1.0, 0.5, 2.0, 0.25))):
            out.append(Case('normal-%d-%d' % (k, j), normal, dict(which=k, m=None, n=None, locsc=ls), **O))
        out.append(Case('normal-%d-any' % k, normal, dict(which=k, m=None, n=None, locsc=None), weight=3, **O))
    for k in range(3):
        out.append(Case('square-%d' % k, square, dict(which=k), **O))
    for k, d in ((0, 3), (1, 7)):
        for m, n in monos(d):
            out.append(Case('rect-%d-%d-%d' % (k, m, n), rect, dict(which=k, m=m, n=n, lists=(m + n) % 2), **O))
    return out
