"""Signal models and inferences built on the package under test (pie = its inference.pie module)."""


def none_data(pie, ctx):
    one = ctx.array([1.0])
    class NoData(pie.PredictorSet):
        d1 = pie.SampledGaussian(one, one, one)
    return NoData


def stepper(pie, ctx, n):
    """an inference with n parameters and trivial data"""
    class M1(pie.SignalModel):
        a = pie.RealParam(1.5, 'first')
        def signal(self, x):
            return self.a * x
    class M2(pie.SignalModel):
        b = pie.RealParam(2.5)
        a = pie.RealParam(1.5, 'first')
        def signal(self, x):
            return self.a * x + self.b
    class M3(pie.SignalModel):
        b = pie.RealParam(2.5)
        c = pie.RealParam(-0.5)
        a = pie.RealParam(1.5, 'first')
        def signal(self, x):
            return self.a * x + self.b + self.c * x * x
    class M4(pie.SignalModel):
        b = pie.RealParam(2.5)
        c = pie.RealParam(-0.5)
        a = pie.RealParam(1.5, 'first')
        d = pie.RealParam(7.)
        def signal(self, x):
            return self.a * x + self.b + self.c * x * x + self.d
    M = [M1, M2, M3, M4][n - 1]
    D = none_data(pie, ctx)
    class I(pie.ChisqrInference, M, D):
        pass
    return I


NAMES = {1: ['a'], 2: ['b', 'a'], 3: ['b', 'c', 'a'], 4: ['b', 'c', 'a', 'd']}


def uf_inference(pie, ctx, f, kind, data, npar=2, prior=None, vector=False, counts=None, preparam=False):
    """An inference whose signal is the arbitrary function f(params..., x) (f(params..., x, y) for 2-d locations).
    data: list of (locns, vals, sigmas) triples, one per predictor.  kind: Chisqr / MaxLike / Bayesian"""
    if npar == 1:
        class U1(pie.SignalModel):
            a = pie.RealParam(1.5, 'first')
            def signal(self, *x):
                return f(self.a, *x)
        M = U1
    elif npar == 2:
        class U2(pie.SignalModel):
            a = pie.RealParam(1.5, 'first')
            b = pie.RealParam(2.5)
            def signal(self, *x):
                return f(self.a, self.b, *x)
        M = U2
    else:
        class U3(pie.SignalModel):
            a = pie.RealParam(1.5, 'first')
            b = pie.RealParam(2.5)
            c = pie.RealParam(-0.5)
            def signal(self, *x):
                return f(self.a, self.b, self.c, *x)
        M = U3
    if vector:
        def signals(self, xs):
            ps = [getattr(self, n) for n in 'abc'[:npar]]
            return ctx.array([f(*(ps + [x])) for x in xs])
        M.signals = signals
    if prior is not None:
        def log_prior(self):
            return prior(*[getattr(self, n) for n in 'abc'[:npar]])
        M.log_prior = log_prior
    if counts is not None:
        def on_use(self):
            counts.append([getattr(self, n) + 0.0 for n in 'abc'[:npar]])
        M.on_use = on_use
    ds = [pie.SampledGaussian(*t) for t in data]
    if len(ds) == 1:
        class D1(pie.PredictorSet):
            d1 = ds[0]
        D = D1
    elif len(ds) == 2:
        class D2(pie.PredictorSet):
            d2 = ds[0]
            d1 = ds[1]
        D = D2
    else:
        class D3(pie.PredictorSet):
            d3 = ds[0]
            d1 = ds[1]
            d2 = ds[2]
        D = D3
    Base = getattr(pie, kind + 'Inference')
    class I(Base, M, D):
        pass
    return I


def triples(ctx, sizes, tag='', slo=0.1):
    """symbolic data for len(sizes) predictors"""
    out = []
    for j, n in enumerate(sizes):
        out.append((ctx.array([ctx.real('x%s%d_%d' % (tag, j, i), -100, 100) for i in range(n)]),
                    ctx.array([ctx.real('y%s%d_%d' % (tag, j, i), -100, 100) for i in range(n)]),
                    ctx.array([ctx.real('s%s%d_%d' % (tag, j, i), slo, 100) for i in range(n)])))
    return out


def chisq(ctx, f, pars, data):
    r = 0.0
    for l, v, s in data:
        for i in range(len(v)):
            z = (v[i] - f(*(list(pars) + [l[i]]))) / s[i]
            r = r + z * z
    return r


def expected(ctx, kind, f, pars, data, prior=None):
    c = chisq(ctx, f, pars, data)
    if kind == 'Chisqr':
        return c
    r = -0.5 * c
    if kind == 'Bayesian':
        r = r + prior(*pars)
    return r


class Optimizer:
    """Stand-in for the multivariate minimizer used by fits, under its contract: it evaluates the function at arbitrary points
    (in any order), and returns a point it evaluated, the value there (no larger than at the start) and an iteration count."""
    def __init__(self, ctx, boxes, ntrial=2, unbounded=False):
        self.ctx, self.boxes, self.ntrial, self.unbounded = ctx, boxes, ntrial, unbounded
        self.calls, self.scales = [], []

    def powell(self, f, p, *args, **kw):
        ctx = self.ctx
        j = len(self.calls)
        start = [x + 0.0 for x in p]
        if kw.get('drxns') is not None:
            self.scales.append(kw['drxns'])
        f0 = f(ctx.array(start))
        pts = [(start, f0)]
        for t in range(self.ntrial if isinstance(self.ntrial, int) else self.ntrial[j % 2]):
            q = []
            for i in range(len(start)):
                lo, hi = (-30.0, 30.0) if self.unbounded else self.boxes[i]
                q.append(ctx.real('trial%d_%d_%d' % (j, t, i), lo, hi))
            pts.append((q, f(ctx.array(q))))
        k = ctx.choose('best%d' % j, range(len(pts)))
        for q, v in pts:
            ctx.assume(pts[k][1] <= v)
        self.calls.append((start, f0, pts[k]))
        return ctx.array([x + 0.0 for x in pts[k][0]]), pts[k][1], 3
