"""C08: snapshots of the parameter values."""
from symx.runner import Case
from . import util, piemodels as pm

BOUNDS = ('models of 1-4 parameters with symbolic values in [-100,100], every assignment of fixed/varying/stepping to them, up to 2 (thorough: 3) changes between '
          'taking and restoring the snapshot, restored into the same or another instance')
ASSUMPTIONS = ['floats are reals']
MUST_REACH = ['snapshot holds the values', 'snapshot is not affected by later changes', 'restoring brings the values back', 'restoring keeps the status',
              'stepping parameters refuse a snapshot']


def put(ctx, m, n, st, v):
    h = getattr(m, n)
    if st == 'fixed':
        h.fix(v)
    elif st == 'varying':
        h.vary(v, 0.1, (-100.0, 100.0))
    else:
        h.linstep(v, 150.0, 3)


def lists(m):
    return ([p.name for p in m.fixed_params], [p.name for p in m.varying_params], [p.name for p in m.stepping_params])


def snap(ctx, npar, nchange, other, kinds):
    w = ctx.world()
    pie = w.load('inference.pie')
    P = w.load('inference.pie.param')
    I = pm.stepper(pie, ctx, npar)
    names = pm.NAMES[npar]
    m = I()
    sts = [ctx.choose('st_' + n, kinds) for n in names]
    vals = [ctx.real('v_' + n, -100, 100) for n in names]
    for n, st, v in zip(names, sts, vals):
        put(ctx, m, n, st, v)
    vals = [getattr(m, n) + 0.0 for n in names]
    pv = m.get_params()
    ctx.check(list(pv.names) == names, 'snapshot holds the values')
    for n, v in zip(names, vals):
        ctx.eq(getattr(pv, n), v, 'snapshot holds the values')
    t = I() if other else m
    if other:
        for n, st in zip(names, sts):
            put(ctx, t, n, st, 3.25)
    for j in range(nchange):
        n = ctx.choose('par%d' % j, names)
        x = ctx.real('x%d' % j, -100, 100)
        st = sts[names.index(n)]
        if st == 'varying':
            getattr(t, n).set_value(x)
        elif st == 'fixed':
            setattr(t, n, x)
        else:
            getattr(t, n).next_step()
    for n, v in zip(names, vals):
        ctx.eq(getattr(pv, n), v, 'snapshot is not affected by later changes')
    cur = [getattr(t, n) + 0.0 for n in names]
    st0, l0 = [getattr(t, n).status for n in names], lists(t)
    if 'stepping' in sts:
        ctx.raises(lambda: t.set_params(pv), P.ParamError, 'stepping parameters refuse a snapshot')
        want = cur
        lab = 'stepping parameters refuse a snapshot'
    else:
        t.set_params(pv)
        want = vals
        lab = 'restoring brings the values back'
    for n, v in zip(names, want):
        ctx.eq(getattr(t, n), v, lab)
    ctx.check([getattr(t, n).status for n in names] == st0 and lists(t) == l0, 'restoring keeps the status')
    if other:
        for n, v in zip(names, vals):
            ctx.eq(getattr(m, n), v, 'restoring brings the values back')
    ctx.raises(lambda: pv.store(names[0], m.a), P.ParamError, 'a value is stored once')
    ctx.eq(getattr(pv, names[0]), vals[0], 'snapshot is not affected by later changes')


def cases(tier):
    big = tier == 'thorough'
    out = []
    for npar in (1, 2, 3, 4):
        for other in (False, True):
            kinds = ['fixed', 'varying', 'stepping'] if npar < 4 or big else ['fixed', 'varying']
            out.append(Case('snap-%d-%d' % (npar, other), snap, dict(npar=npar, nchange=1 if npar > 2 and not big else 2, other=other, kinds=kinds)))
            if big and npar < 4:
                out.append(Case('snap3-%d-%d' % (npar, other), snap, dict(npar=npar, nchange=3, other=other, kinds=kinds)))
    return out
