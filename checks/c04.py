"""C04: ranges of parameters are enforced; bounded parameters map one-to-one onto the unbounded line."""
from symx.runner import Case
from . import util, piemodels as pm

BOUNDS = ('one parameter; symbolic range ends in [-1000,1000] (width >= 1e-3) given in either order and form, symbolic values in [-3000,3000] by every '
          'route, histories of up to 3 (thorough: 5) value changes; unbounded values symbolic in [-30,30] plus the extremes +-700..1e300 and infinity; '
          'stepping of 2-6 points over the default or given ends')
ASSUMPTIONS = ['floats are reals', 'mapped values at the extremes agree with the range ends to 1e-9 of the width']
MUST_REACH = ['in-range value is accepted', 'out-of-range value is refused', 'refusal changes nothing', 'mapped value is in range', 'mapping round-trips',
              'mapping is increasing', 'unbounded value is finite', 'default ends are the range', 'distance to the range ends']


def box(ctx, tag=''):
    lo = ctx.real('lo' + tag, -1000, 1000)
    hi = ctx.real('hi' + tag, -1000, 1000)
    ctx.assume(lo + 1e-3 <= hi)
    return lo, hi


def model(ctx):
    w = ctx.world()
    pie = w.load('inference.pie')
    P = w.load('inference.pie.param')
    return pie, P, pm.stepper(pie, ctx, 2)()


def give_range(ctx, h, lo, hi, form):
    if form == 'two':
        h.range(lo, hi)
    elif form == 'reversed':
        h.range(hi, lo)
    elif form == 'tuple':
        h.range((lo, hi))
    elif form == 'tuple-reversed':
        h.range((hi, lo))


ROUTES = ['assign', 'fix', 'set', 'vary', 'lin-lo', 'lin-hi', 'log-lo', 'log-hi']


def enforce(ctx, form, n, routes):
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    mid = 0.5 * (lo + hi)
    pos = False
    if any(r.startswith('log') for r in routes):
        ctx.assume(lo > 0)
    if form == 'vary':
        m.a.vary(mid, 0.1, (hi, lo))
    else:
        give_range(ctx, m.a, lo, hi, form)
        m.a.fix(mid)
    cur = mid
    for t in range(n):
        r = ctx.choose('route%d' % t, routes)
        v = ctx.real('v%d' % t, -3000, 3000)
        if r == 'set' and m.a.status != P.varying:
            m.a.vary(cur, 0.1)
        before = (m.a.status, m.a + 0.0, [p.name for p in m.fixed_params], [p.name for p in m.varying_params], [p.name for p in m.stepping_params])
        if r.startswith('log'):
            ctx.assume(v > 0.001)
        ok = (v >= lo) & (v <= hi) if ctx.symbolic else (lo <= v <= hi)
        if ctx.symbolic:
            ok = bool(ok)
        def do():
            if r == 'assign':
                m.a = v
            elif r == 'fix':
                m.a.fix(v)
            elif r == 'set':
                m.a.set_value(v)
            elif r == 'vary':
                m.a.vary(v, 0.1)
            elif r == 'lin-lo':
                m.a.linstep(v, hi, 3)
            elif r == 'lin-hi':
                m.a.linstep(lo, v, 3)
            elif r == 'log-lo':
                m.a.logstep(v, hi, 3)
            elif r == 'log-hi':
                m.a.logstep(lo, v, 3)
        if ok:
            do()
            want = lo if r.endswith('-hi') else v
            ctx.eq(m.a, want, 'in-range value is accepted')
            st = dict(assign=P.fixed, fix=P.fixed, set=P.varying, vary=P.varying).get(r, P.stepping)
            ctx.check(m.a.status == st, 'in-range value is accepted')
            if st == P.stepping:
                for _ in range(2):
                    m.a.next_step()
                    ctx.between(m.a, lo, hi, 'stepped values stay in range', tol=1e-6)
            cur = m.a + 0.0
        else:
            ctx.raises(do, P.ParamRangeError, 'out-of-range value is refused')
            ctx.eq(m.a, before[1], 'refusal changes nothing')
            ctx.check((m.a.status, [p.name for p in m.fixed_params], [p.name for p in m.varying_params], [p.name for p in m.stepping_params])
                      == (before[0],) + before[2:], 'refusal changes nothing')
        ctx.between(m.a, lo, hi, 'value is in the range', tol=1e-6)
    ctx.eq(m.b, 2.5, 'other parameters are untouched')


def mapping(ctx, form):
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    m.a.vary(0.5 * (lo + hi), 0.1, (lo, hi) if form == 0 else (hi, lo))
    h = m.a.handler
    u = ctx.real('u', -30, 30)
    h._unbounded_set_value(u)
    v = m.a + 0.0
    e = ctx.exp(u)
    ctx.eq(v, (lo + hi * e) / (1.0 + e), 'mapped value is in range', tol=1e-6)
    ctx.check((v >= lo - 1e-7) , 'mapped value is in range')
    ctx.check((v <= hi + 1e-7), 'mapped value is in range')
    if ctx.symbolic:
        ctx.eq(ctx.exp(h._unbounded_get_value()) / e, 1.0, 'mapping round-trips', tol=1e-4)
    elif abs(u) < 15:
        ctx.eq(h._unbounded_get_value(), u, 'mapping round-trips', tol=1e-4 * 0.5)


def mapback(ctx):
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    v = ctx.real('v', -1000, 1000)
    ctx.assume((v > lo + 1e-4))
    ctx.assume((v < hi - 1e-4))
    m.a.vary(v, 0.1, (lo, hi))
    h = m.a.handler
    u = h._unbounded_get_value()
    m.a.set_value(0.5 * (lo + hi))
    h._unbounded_set_value(u)
    ctx.eq(m.a, v, 'mapping round-trips', tol=1e-6)
    ctx.eq(m.a.get_value(), v, 'mapping round-trips', tol=1e-6)


def increasing(ctx):
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    m.a.vary(0.5 * (lo + hi), 0.1, (lo, hi))
    h = m.a.handler
    u1, u2 = ctx.real('u1', -30, 30), ctx.real('u2', -30, 30)
    ctx.assume(u1 + 0.01 <= u2)
    if ctx.symbolic:
        # exp is strictly increasing
        ctx.assume(ctx.exp(u1) < ctx.exp(u2))
    h._unbounded_set_value(u1)
    v1 = m.a + 0.0
    h._unbounded_set_value(u2)
    v2 = m.a + 0.0
    ctx.check(v1 <= v2 + (0.0 if ctx.symbolic else 1e-9), 'mapping is increasing')


def extremes(ctx, u):
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    m.a.vary(0.5 * (lo + hi), 0.1, (lo, hi))
    h = m.a.handler
    h._unbounded_set_value(u)
    ctx.eq(m.a, hi if u > 0 else lo, 'mapped value is in range', tol=1e-6)
    uu = h._unbounded_get_value()
    import math
    if not ctx.symbolic or isinstance(uu, float):
        ctx.check(math.isfinite(uu), 'unbounded value is finite')
    else:
        ctx.check(True, 'unbounded value is finite')


def ends(ctx):
    """a parameter exactly at an end of its range"""
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    top = ctx.choose('top', [True, False])
    m.a.vary(hi if top else lo, 0.1, (lo, hi))
    h = m.a.handler
    u = h._unbounded_get_value()
    import math
    ctx.check(not isinstance(u, float) or math.isfinite(u), 'unbounded value is finite')
    m.a.set_value(0.5 * (lo + hi))
    h._unbounded_set_value(u)
    ctx.eq(m.a, hi if top else lo, 'mapping round-trips', tol=1e-6)


def defaults(ctx, kind, n):
    """stepping without ends uses the range; ends in the range are accepted"""
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    if kind == 'log':
        ctx.assume(lo >= 0.01)
    m.a.range(lo, hi)
    step = getattr(m.a, kind + 'step')
    which = ctx.choose('given', ['none', 'lo', 'hi'])
    x = ctx.real('x', -1000, 1000)
    ctx.assume(x >= lo)
    ctx.assume(x <= hi)
    if which == 'none':
        step(n=n)
        a, b = lo, hi
    elif which == 'lo':
        step(lo=x, n=n)
        a, b = x, hi
    else:
        step(hi=x, n=n)
        a, b = lo, x
    ctx.eq(m.a, a, 'default ends are the range')
    for _ in range(n - 1):
        m.a.next_step()
        ctx.between(m.a, lo, hi, 'stepped values stay in range', tol=1e-6)
    ctx.eq(m.a, b, 'default ends are the range')
    ctx.raises(lambda: m.a.next_step(), P.ParamRangeError, 'stepping past the end is refused')
    m.a.first_step()
    ctx.eq(m.a, a, 'default ends are the range')
    ctx.raises(lambda: m.a.prev_step(), P.ParamRangeError, 'stepping past the end is refused')
    m.a.last_step()
    ctx.eq(m.a, b, 'default ends are the range')


def check(ctx):
    """the boundary check of a varying parameter"""
    pie, P, m = model(ctx)
    lo, hi = box(ctx)
    v = ctx.real('v', -1000, 1000)
    ctx.assume(v >= lo)
    ctx.assume(v <= hi)
    pc = ctx.real('pc', 0.01, 50)
    m.a.vary(v, 0.1, (lo, hi))
    got = m.a.check(pc)
    d = 0.01 * pc * (hi - lo)
    if got:
        ctx.le(d, v - lo, 'distance to the range ends', tol=1e-5)
        ctx.le(d, hi - v, 'distance to the range ends', tol=1e-5)
    else:
        near = ((v - lo < d) | (hi - v < d)) if ctx.symbolic else (v - lo < d + 1e-5 or hi - v < d + 1e-5)
        ctx.check(near, 'distance to the range ends')
    ctx.raises(lambda: m.b.check(pc), RuntimeError, 'check needs a varying parameter')


def unset(ctx):
    """what needs a range, a scale or the varying state is refused without it"""
    pie, P, m = model(ctx)
    v = ctx.real('v', -1000, 1000)
    ctx.raises(lambda: m.a.vary(v, 0.1), ValueError, 'varying needs a range')
    ctx.raises(lambda: m.a.vary(v, None, (-1000, 1000)), ValueError, 'varying needs a scale')
    ctx.raises(lambda: m.a.set_value(v), P.ParamError, 'only varying parameters are set')
    ctx.raises(lambda: m.a._unbounded_set_value(0.), P.ParamError, 'only varying parameters are mapped')
    ctx.raises(lambda: m.a.next_step(), P.ParamError, 'only stepping parameters are stepped')
    ctx.eq(m.a, 1.5, 'refusal changes nothing')
    m.a.logstep(1.0, 2.0, 3)
    ctx.assume(v <= 0)
    ctx.raises(lambda: m.a.logstep(v, 2.0, 3), ValueError, 'log steps need ends of one sign')
    ctx.eq(m.a, 1.0, 'refusal changes nothing')


def cases(tier):
    big = tier == 'thorough'
    out = []
    forms = ['two', 'reversed', 'tuple', 'tuple-reversed', 'vary']
    for f in forms:
        out.append(Case('enforce-%s' % f, enforce, dict(form=f, n=2, routes=ROUTES[:4])))
        out.append(Case('enforce-step-%s' % f, enforce, dict(form=f, n=1, routes=ROUTES)))
        if big:
            out.append(Case('enforce5-%s' % f, enforce, dict(form=f, n=4, routes=ROUTES[:4])))
            out.append(Case('enforce-step2-%s' % f, enforce, dict(form=f, n=2, routes=ROUTES)))
    out.append(Case('enforce3', enforce, dict(form='two', n=3, routes=['assign', 'set', 'vary'])))
    for f in (0, 1):
        out.append(Case('mapping-%d' % f, mapping, dict(form=f)))
    out += [Case('mapback', mapback), Case('increasing', increasing), Case('ends', ends), Case('check', check, fork_minmax=True), Case('unset', unset)]
    for u in (700., -700., 745., -745., 800., -800., 1e300, -1e300, float('inf'), float('-inf')):
        out.append(Case('extreme-%g' % u, extremes, dict(u=u)))
    for k in ('lin', 'log'):
        for n in [2, 3, 6] + ([10, 25] if big else []):
            out.append(Case('defaults-%s-%d' % (k, n), defaults, dict(kind=k, n=n)))
    return out
