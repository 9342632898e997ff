"""C01: walking the grid of stepped parameters."""
from symx.runner import Case
from . import util, piemodels

BOUNDS = ('1-3 stepped parameters (4 in thorough), 2-4 points per parameter (one parameter: 2-12 points plus every size near an integer '
          'literal of the source up to 400), linear and logarithmic steps, ascending and descending, lower/upper ends arbitrary reals in '
          '[-1000,1000] (log: same sign, 0.01..1000); interruptions at every position of the walk; two complete sweeps')
ASSUMPTIONS = ['floats are reals (exact endpoint facts: every operation carries an arbitrary relative error <= 2^-50)',
               'a parameter is given at least 2 points']
MUST_REACH = ['value at step', 'one parameter moves by one', 'all points visited', 'end is signalled', 'back at the first step',
              'exact endpoint']


def setup(ctx, w, kinds, steps, names):
    pie = w.load('inference.pie')
    I = piemodels.stepper(pie, ctx, len(names))
    m = I()
    info = {}
    for nm, kind, n in zip(names, kinds, steps):
        info[nm] = start(ctx, m, nm, kind, n, nm)
    return pie, m, info


def start(ctx, m, nm, kind, n, tag):
    if kind == 'lin':
        lo, hi = ctx.real('lo_' + tag, -1000, 1000), ctx.real('hi_' + tag, -1000, 1000)
        getattr(m, nm).linstep(lo, hi, n)
        def val(k):
            return lo + (hi - lo) * k / (n - 1.0)
    elif kind == 'step':
        lo, hi = ctx.real('lo_' + tag, -1000, 1000), ctx.real('hi_' + tag, -1000, 1000)
        getattr(m, nm).step(lo, hi, n)
        def val(k):
            return lo + (hi - lo) * k / (n - 1.0)
    else:
        s = 1.0 if kind == 'log' else -1.0
        lo, hi = s * ctx.real('lo_' + tag, 0.01, 1000), s * ctx.real('hi_' + tag, 0.01, 1000)
        getattr(m, nm).logstep(lo, hi, n)
        def val(k):
            if k == 0:
                return lo
            if k == n - 1:
                return hi
            return lo * ctx.exp(ctx.log(hi / lo) / (n - 1.)) ** k
    return dict(lo=lo, hi=hi, n=n, val=val, kind=kind)


def at(ctx, m, info, names, idx, label='value at step'):
    for nm, k in zip(names, idx):
        i = info[nm]
        scale = 1e-7
        ctx.eq(getattr(m, nm), i['val'](k), label, tol=1e-6)


def stopped(w, m):
    """advance; False when the walk ends"""
    Stop = w.load('inference.pie.signalmodel').StopStepping
    try:
        m.next_step()
        return False
    except Stop:
        return True


def sweep(ctx, w, m, info, names, values=True):
    steps = [info[n]['n'] for n in names]
    total = util.prod(steps)
    seen = []
    cur = tuple(m.step_nums())
    ctx.check(cur == (0,) * len(names), 'back at the first step')
    for it in range(total):
        cur = tuple(int(k) for k in m.step_nums())
        ctx.check(all(0 <= k < n for k, n in zip(cur, steps)), 'index in range')
        if seen:
            d = [abs(x - y) for x, y in zip(cur, seen[-1])]
            ctx.check(sum(d) == 1, 'one parameter moves by one')
            if len(names) > 1:
                # earlier parameters move first: a later one moves only when every earlier one is at an end of its range
                j = d.index(1) if 1 in d else 0
                ctx.check(all(cur[i] in (0, steps[i] - 1) for i in range(j)), 'zig-zag order')
        ctx.check(cur not in seen, 'no point visited twice')
        seen.append(cur)
        if values:
            at(ctx, m, info, names, cur)
        end = stopped(w, m)
        ctx.check(end == (it == total - 1), 'end is signalled')
        if end:
            break
    ctx.check(len(set(seen)) == total, 'all points visited')
    for nm in names:
        ctx.eq(getattr(m, nm), info[nm]['lo'], 'back at the first step', tol=1e-6)
        ctx.check(getattr(m, nm).step_index() == 0, 'back at the first step')
    return seen


def walk(ctx, kinds, steps, again=True):
    w = ctx.world()
    names = piemodels.NAMES[len(kinds)]
    pie, m, info = setup(ctx, w, kinds, steps, names)
    ctx.check(tuple(m.step_shape()) == tuple(steps), 'shape of the grid')
    a = sweep(ctx, w, m, info, names)
    if again:
        b = sweep(ctx, w, m, info, names, values=len(kinds) < 3)
        ctx.check(a == b, 'second sweep is the same')


def declared(ctx, kinds, steps, order):
    """the first parameter declared stepping is the fastest one, whatever the order in the source"""
    w = ctx.world()
    names = [piemodels.NAMES[len(kinds)][i] for i in order]
    pie, m, info = setup(ctx, w, kinds, steps, names)
    ctx.check([p.name for p in m.stepping_params] == names, 'order of declaration')
    sweep(ctx, w, m, info, names)


def exact(ctx, kinds, steps):
    """end points are hit exactly, in both directions, under arbitrary rounding"""
    w = ctx.world()
    names = piemodels.NAMES[len(kinds)]
    pie, m, info = setup(ctx, w, kinds, steps, names)
    for _ in range(util.prod(steps)):
        for nm, k in zip(names, m.step_nums()):
            if k == 0:
                ctx.ident(getattr(m, nm), info[nm]['lo'], 'exact endpoint')
            elif k == info[nm]['n'] - 1:
                ctx.ident(getattr(m, nm), info[nm]['hi'], 'exact endpoint')
        if stopped(w, m):
            break
    for nm in names:
        ctx.ident(getattr(m, nm), info[nm]['lo'], 'exact endpoint')
    getattr(m, names[0]).last_step()
    ctx.ident(getattr(m, names[0]), info[names[0]]['hi'], 'exact endpoint')


def interrupted(ctx, kinds, steps):
    """after any number of moves: reset, re-declare one parameter, fix one, or vary one -> a complete fresh walk of what is stepped"""
    w = ctx.world()
    names = list(piemodels.NAMES[len(kinds)])
    pie, m, info = setup(ctx, w, kinds, steps, names)
    total = util.prod(steps)
    j = ctx.choose('moves', range(total + 1))
    for _ in range(j):
        stopped(w, m)
    what = ctx.choose('what', ['reset', 'restep0', 'restepL', 'fix', 'vary', 'assign', 'fixback'])
    if what == 'reset':
        m.reset_steps()
    elif what in ('restep0', 'restepL'):
        nm = names[0 if what == 'restep0' else -1]
        info[nm] = start(ctx, m, nm, 'lin', 3, nm + '2')
        ctx.check(tuple(m.step_shape()) == tuple(info[n]['n'] for n in names), 'shape of the grid')
    else:
        nm = names[0]
        v = ctx.real('newval', -1000, 1000)
        if what == 'fix':
            getattr(m, nm).fix(v)
        elif what == 'assign':
            setattr(m, nm, v)
        elif what == 'vary':
            getattr(m, nm).vary(v, 0.1, (-2000, 2000))
        elif what == 'fixback':
            getattr(m, nm).fix(v)
            info[nm] = start(ctx, m, nm, 'lin', 2, nm + '2')
        names.remove(nm)
        if what == 'fixback':
            names.append(nm)      # re-declared last
        else:
            ctx.eq(getattr(m, nm), v, 'leaving the grid keeps the new value', tol=1e-6)
        if not names:
            ctx.check(tuple(m.step_shape()) == (), 'shape of the grid')
            return
    sweep(ctx, w, m, info, names)
    if what in ('fix', 'assign', 'vary'):
        ctx.eq(getattr(m, nm), v, 'stepping leaves the other parameters alone', tol=1e-6)


def manual(ctx, kind, n):
    """one parameter walked up and down by hand: refuses to leave its range"""
    w = ctx.world()
    pie, m, info = setup(ctx, w, [kind], [n], ['a'])
    P = w.load('inference.pie.param')
    k = 0
    for t in range(n + 2):
        mv = ctx.choose('mv%d' % t, ['next', 'prev', 'first', 'last'] if t < 3 else ['next', 'prev'])
        h = m.a
        if mv == 'next' and k == n - 1:
            ctx.raises(m.a.next_step, P.ParamRangeError, 'stepping beyond the range is refused')
        elif mv == 'prev' and k == 0:
            ctx.raises(m.a.prev_step, P.ParamRangeError, 'stepping beyond the range is refused')
        else:
            getattr(m.a, mv + '_step')()
            k = {'next': k + 1, 'prev': k - 1, 'first': 0, 'last': n - 1}[mv]
        ctx.check(m.a.step_index() == k, 'index follows the moves')
        ctx.eq(m.a, info['a']['val'](k), 'value at step', tol=1e-6)


def cases(tier):
    out = []
    K = {'l': 'lin', 'g': 'log', 'n': 'neg', 's': 'step'}
    def nm(kinds, steps):
        return '%s-%s' % (kinds, 'x'.join(map(str, steps)))
    def add(fn, kinds, steps, **kw):
        extra = kw.pop('extra', {})
        tag = kw.pop('tag', '')
        out.append(Case(fn.__name__ + '-' + nm(kinds, steps) + tag, fn, dict(kinds=[K[k] for k in kinds], steps=list(steps), **extra), **kw))
    for n in (2, 3, 4, 5, 7, 12):
        add(walk, 'l', [n])
        if n <= 7:
            add(walk, 'g', [n]), add(walk, 'n', [n])
    add(walk, 's', [4])
    files = ['pie/realparam.py', 'pie/inference_base.py', 'pie/param.py']
    for n in util.mine_ints(files, 8, 400):
        if n != 12:
            add(walk, 'l', [n], extra=dict(again=False), tag='-mined')
    for kinds, steps in [('ll', (2, 3)), ('ll', (3, 2)), ('lg', (3, 3)), ('gl', (4, 2)), ('ng', (2, 2)), ('ll', (4, 4)), ('gg', (3, 2)),
                         ('lll', (2, 2, 2)), ('lll', (3, 2, 3)), ('lgl', (2, 3, 2)), ('lll', (2, 3, 4))]:
        add(walk, kinds, steps)
    for kinds, steps, order in [('ll', (2, 3), (1, 0)), ('lll', (2, 3, 2), (2, 0, 1)), ('lll', (3, 2, 2), (1, 2, 0))]:
        add(declared, kinds, steps, extra=dict(order=order), tag='-' + ''.join(map(str, order)))
    for kinds, steps in [('l', (2,)), ('l', (3,)), ('l', (6,)), ('g', (3,)), ('g', (4,)), ('n', (3,)), ('ll', (3, 2)), ('lg', (3, 3))]:
        add(exact, kinds, steps, rounding=True)
    for kinds, steps in [('l', (3,)), ('ll', (3, 2)), ('lg', (2, 3))]:
        add(interrupted, kinds, steps)
    for k, n in [('lin', 3), ('log', 3), ('neg', 2), ('lin', 2)]:
        out.append(Case('manual-%s-%d' % (k, n), manual, dict(kind=k, n=n)))
    if tier == 'thorough':
        for kinds, steps in [('llll', (2, 2, 2, 2)), ('llll', (3, 2, 3, 2)), ('lll', (4, 4, 4)), ('glg', (3, 3, 3)), ('lll', (5, 3, 4))]:
            add(walk, kinds, steps)
        for n in list(range(13, 60)) + [100, 200]:
            add(walk, 'l', [n])
        for n in range(8, 12):
            add(walk, 'g', [n])
        for kinds, steps in [('lll', (2, 2, 2)), ('ll', (4, 4)), ('lll', (3, 2, 2))]:
            add(interrupted, kinds, steps)
        for kinds, steps in [('l', (n,)) for n in (4, 5, 8, 12, 20)] + [('lll', (2, 3, 2)), ('gg', (3, 3)), ('g', (5,))]:
            add(exact, kinds, steps, rounding=True)
        for k, n in [('lin', 4), ('log', 4)]:
            out.append(Case('manual-%s-%d' % (k, n), manual, dict(kind=k, n=n)))
    return out
