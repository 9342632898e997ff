"""C03: bookkeeping of parameter status over histories of operations; isolation of instances and classes."""
from symx.runner import Case
from . import util, piemodels as pm

BOUNDS = ('2-3 parameters, two live instances, every history of 3 operations (4-5 in thorough) out of: assign, fix, freeze, vary, linear step, log step, '
          'advance the grid, and each of their refused forms; values symbolic in [-100,100]')
ASSUMPTIONS = ['floats are reals']
MUST_REACH = ['lists match the status', 'order of declaration', 'other instances are unaffected', 'a refused operation changes nothing',
              'declared parameters', 'the operation took effect']
FIX, STEP, VARY = 1, 2, 3
OPS = ['assign', 'fix', 'freeze', 'vary', 'varynew', 'lin', 'log', 'advance', 'bad-vary-range', 'bad-vary-start', 'bad-fix', 'bad-lin', 'bad-log', 'bad-set']


def snapshot(m, names):
    return dict(f=[p.name for p in m.fixed_params], s=[p.name for p in m.stepping_params], v=[p.name for p in m.varying_params],
                st=[getattr(m, n).status for n in names], val=[getattr(m, n) + 0.0 for n in names])


def same(ctx, a, b, label):
    for k in 'fsv':
        ctx.check(sorted(a[k]) == sorted(b[k]) if k == 'f' else a[k] == b[k], label)
    ctx.check(a['st'] == b['st'], label)
    for x, y in zip(a['val'], b['val']):
        ctx.eq(x, y, label)


def history(ctx, npar, nops, ops, first=None):
    w = ctx.world()
    pie = w.load('inference.pie')
    P = w.load('inference.pie.param')
    ctx.check((P.fixed, P.stepping, P.varying) == (P.Status.fixed, P.Status.stepping, P.Status.varying) and
              len({P.fixed, P.stepping, P.varying, P.undef}) == 4, 'status codes are distinct')
    I = pm.stepper(pie, ctx, npar)
    names = pm.NAMES[npar]
    m, other = I(), I()
    ctx.check(list(m.params) == names, 'declared parameters')
    for n in names:
        ctx.check(getattr(m, n).status == P.fixed, 'parameters start fixed')
        getattr(other, n)
    o0 = snapshot(other, names)
    orderv, orders = [], []          # model: names in the order they became varying / stepping
    status = {n: 'f' for n in names}
    for n in names:                  # all parameters get the same wide range
        getattr(m, n).range(-100.0, 100.0)
    for t in range(nops):
        op = first if (t == 0 and first) else ctx.choose('op%d' % t, ops)
        k = ctx.choose('par%d' % t, range(npar)) if op != 'advance' else 0
        n = names[k]
        before = snapshot(m, names)
        x = ctx.real('x%d' % t, -100, 100)
        h = getattr(m, n)
        val, new = None, None
        if op == 'assign':
            setattr(m, n, x)
            val, new = x, 'f'
        elif op == 'fix':
            h.fix(x)
            val, new = x, 'f'
        elif op == 'freeze':
            cur = before['val'][k]
            h.fix()
            val, new = cur, 'f'
        elif op == 'vary':
            h.vary(x, 0.5)
            val, new = x, 'v'
        elif op == 'varynew':
            h.vary(start=x, delta=0.5, range=(-100.0, 100.0))
            val, new = x, 'v'
        elif op == 'lin':
            h.linstep(x, 50.0, 3)
            val, new = x, 's'
        elif op == 'log':
            h.logstep(1.0, 4.0, 3)
            val, new = 1.0, 's'
        elif op == 'advance':
            if not before['s']:
                continue
            m.next_step()
            ctx.check([p.name for p in m.stepping_params] == before['s'], 'lists match the status')
            a = snapshot(m, names)
            ctx.check(a['st'] == before['st'], 'lists match the status')
            moved = [i for i, q in enumerate(names) if q in before['s']]
            for i in range(npar):
                if i not in moved:
                    ctx.eq(a['val'][i], before['val'][i], 'stepping leaves the other parameters alone')
            continue
        else:
            y = x + 300.0
            if op == 'bad-vary-range':
                ctx.raises(lambda: h.vary(y, 0.5, (-100.0, 100.0)), P.ParamRangeError, 'out of range is refused')
            elif op == 'bad-vary-start':
                ctx.raises(lambda: h.vary(y, 0.5), P.ParamRangeError, 'out of range is refused')
            elif op == 'bad-fix':
                ctx.raises(lambda: h.fix(y), P.ParamRangeError, 'out of range is refused')
            elif op == 'bad-lin':
                ctx.raises(lambda: h.linstep(-1.0, y, 3), P.ParamRangeError, 'out of range is refused')
            elif op == 'bad-log':
                ctx.raises(lambda: h.logstep(-1.0, 2.0, 3), ValueError, 'log steps across zero are refused')
            elif op == 'bad-set':
                if status[n] == 'v':
                    ctx.raises(lambda: h.set_value(y), P.ParamRangeError, 'out of range is refused')
                else:
                    ctx.raises(lambda: h.set_value(x), P.ParamError, 'setting a parameter that does not vary is refused')
            same(ctx, snapshot(m, names), before, 'a refused operation changes nothing')
            continue
        # the reference model
        if status[n] != new:
            if n in orderv:
                orderv.remove(n)
            if n in orders:
                orders.remove(n)
            if new == 'v':
                orderv.append(n)
            if new == 's':
                orders.append(n)
            status[n] = new
        a = snapshot(m, names)
        code = {'f': P.fixed, 's': P.stepping, 'v': P.varying}
        ctx.check(a['st'] == [code[status[q]] for q in names], 'the operation took effect')
        ctx.check(sorted(a['f']) == sorted(q for q in names if status[q] == 'f'), 'lists match the status')
        ctx.check(a['v'] == orderv and a['s'] == orders, 'order of declaration')
        ctx.eq(a['val'][k], val, 'the operation took effect')
        for i, q in enumerate(names):
            if i != k and status[q] != 's':
                ctx.eq(a['val'][i], before['val'][i], 'other parameters are unaffected')
        # declaring a step restarts the walk
        if new == 's':
            ctx.check(all(i == 0 for i in m.step_nums()), 'declaring a step restarts the walk')
    same(ctx, snapshot(other, names), o0, 'other instances are unaffected')
    z = I()
    for n, d in zip(names, dict(a=1.5, b=2.5, c=-0.5).items()):
        ctx.eq(getattr(z, n), dict(a=1.5, b=2.5, c=-0.5)[n], 'other instances are unaffected')


def declared(ctx, how):
    """an inference has exactly the parameters and predictors declared in its parts, in the order of declaration"""
    w = ctx.world()
    pie = w.load('inference.pie')
    one = ctx.array([1.0])
    va, vb, vs = ctx.real('va', -10, 10), ctx.real('vb', -10, 10), ctx.real('vs', -10, 10)
    sig = lambda self, x: self.zeta * x + self.beta
    if how == 'source':
        class SrcModel(pie.SignalModel):
            zeta = pie.RealParam(va, 'z')
            beta = pie.RealParam(vb)
            signal = sig
        class SrcData(pie.PredictorSet):
            q = pie.SampledGaussian(one, one, one)
            scale = pie.RealParam(vs)
            p = pie.SampledGaussian(one, one, one)
    elif how == 'spaced':
        class SpcModel(pie.SignalModel):
            zeta   = pie.RealParam(va, 'z')
            beta   = pie.RealParam(vb)
            signal = sig
        SrcModel = SpcModel
        class SpcData(pie.PredictorSet):
            q     = pie.SampledGaussian(one, one, one)
            scale = pie.RealParam(vs)
            p     = pie.SampledGaussian(one, one, one)
        SrcData = SpcData
    else:
        meta = type(pie.SignalModel)
        SrcModel = meta('DynModel', (pie.SignalModel,), dict(zeta=pie.RealParam(va, 'z'), beta=pie.RealParam(vb), signal=sig))
        d = dict(q=pie.SampledGaussian(one, one, one), scale=pie.RealParam(vs), p=pie.SampledGaussian(one, one, one))
        if how == 'dynamic-plain':
            del d['scale']
        SrcData = meta('DynData', (pie.PredictorSet,), d)
    plain = how == 'dynamic-plain'
    class Inf(pie.ChisqrInference, SrcModel, SrcData):
        pass
    want = ['zeta', 'beta'] + ([] if plain else ['scale'])
    for _ in range(3):
        m = Inf()
        ctx.check(list(m.params) == want, 'declared parameters')
        ctx.check(list(m.predictors) == ['q', 'p'], 'declared predictors')
        pv = m.get_params()
        ctx.check(list(pv.names) == want, 'declared parameters')
        ctx.eq(pv.zeta, va, 'declared parameters')
        ctx.eq(pv.beta, vb, 'declared parameters')
        if not plain:
            ctx.eq(pv.scale, vs, 'declared parameters')


def duplicates(ctx):
    w = ctx.world()
    pie = w.load('inference.pie')
    one = ctx.array([1.0])
    v = ctx.real('v', -10, 10)
    class DupModel(pie.SignalModel):
        zeta = pie.RealParam(v)
        def signal(self, x):
            return self.zeta
    class DupData(pie.PredictorSet):
        q = pie.SampledGaussian(one, one, one)
        zeta = pie.RealParam(v)
    class DupInf(pie.ChisqrInference, DupModel, DupData):
        pass
    ctx.raises(DupInf, pie.InferenceError, 'a duplicated parameter name is refused')


def subclass(ctx, order):
    """two models derived from a common base do not see each other's parameters"""
    w = ctx.world()
    pie = w.load('inference.pie')
    one = ctx.array([1.0])
    va, vb = ctx.real('va', -10, 10), ctx.real('vb', -10, 10)
    class SubBase(pie.SignalModel):
        alpha = pie.RealParam(va)
        def signal(self, x):
            return self.alpha
    class SubOne(SubBase):
        beta = pie.RealParam(vb)
    class SubData(pie.PredictorSet):
        q = pie.SampledGaussian(one, one, one)
    class SubDataTwo(SubData):
        r = pie.SampledGaussian(one, 3.0 * one, one)
    class SubInf(pie.ChisqrInference, SubBase, SubData):
        pass
    m = SubInf()
    ctx.check(list(m.params) == ['alpha'], 'declared parameters')
    ctx.check(list(SubBase.param_names) == ['alpha'], 'declared parameters')
    ctx.check(list(SubData.predictor_names) == ['q'], 'declared predictors')
    ctx.check('beta' in list(SubOne.param_names), 'declared parameters')
    z = 1.0 - va
    ctx.eq(m.score(), z * z, 'score uses the declared predictors')


def cases(tier):
    out = []
    good = ['assign', 'fix', 'freeze', 'vary', 'lin', 'log', 'advance']
    for f in OPS:
        out.append(Case('history-2-3-' + f, history, dict(npar=2, nops=3, ops=OPS, first=f), weight=2))
    for f in good:
        out.append(Case('history-3-3-' + f, history, dict(npar=3, nops=3, ops=good, first=f)))
        if tier == 'thorough':
            out.append(Case('history-2-4-' + f, history, dict(npar=2, nops=4, ops=OPS, first=f), weight=9, max_paths=10**6))
            out.append(Case('history-3-4-' + f, history, dict(npar=3, nops=4, ops=good, first=f), weight=9, max_paths=10**6))
    for h in ('source', 'spaced', 'dynamic', 'dynamic-plain'):
        out.append(Case('declared-' + h, declared, dict(how=h)))
    out.append(Case('duplicates', duplicates))
    out.append(Case('subclass', subclass, dict(order=0)))
    return out
