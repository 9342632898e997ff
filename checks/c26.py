"""C26: saved states of the random number generator."""
import types
from symx.runner import Case
from . import util
from .fsmodel import fs as make_fs, Crash

BOUNDS = 'generator states with symbolic key words and symbolic pending normal deviate (or none), any position; up to 4 saves to one or two names; default and given file names; interruption before or after every operation that changes the directory'
ASSUMPTIONS = ['the generator is its state (key, position, pending normal deviate), as numpy defines it', 'the file system has atomic rename, and opening for writing truncates (model; the replay uses a real scratch directory and numpy\'s generator)',
               'pickle returns what was stored']
MUST_REACH = ['the saved state is restored', 'saving leaves the generator alone', 'two earlier states are kept', 'an interrupted save loses no state', 'no file: the present state is kept and saved', 'misuse is refused']


class Gen:
    """numpy.random as far as states are concerned"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.real = not getattr(ctx, 'symbolic', False)
        if not self.real:
            m = types.ModuleType('numpy.random')
            m.get_state, m.set_state = self.get_state, self.set_state
            self.mod = m
            self.id = 'MT19937'

    def get_state(self, legacy=True):
        k, p, g, c = self.st
        return (self.id, self.ctx.array(list(k)), p, g, c)

    def set_state(self, state):
        state = tuple(state)
        if state[0] != 'MT19937' or len(state) not in (3, 5):
            raise ValueError('state')
        g, c = (state[3], state[4]) if len(state) == 5 else (0, 0.0)
        self.st = (list(state[1]), state[2], g, c)

    # harness side
    def new(self, tag):
        ctx = self.ctx
        ks = [ctx.real('%s_k%d' % (tag, i), 0, 4000000000) for i in range(3)]
        p = ctx.choose(tag + '_pos', (0, 7, 624))
        g = ctx.choose(tag + '_gauss', (0, 1))
        c = ctx.real(tag + '_cached', -10, 10) if g else 0.0
        if self.real:
            import numpy
            r = numpy.random.RandomState(5)
            key = r.get_state()[1].copy()
            for i, k in enumerate(ks):
                key[i] = int(k)
            ks = [float(int(k)) for k in ks]
            return dict(set=('MT19937', key, p, g, c), st=(ks, p, g, c))
        return dict(set=('MT19937', ks, p, g, c), st=(ks, p, g, c))

    def put(self, s):
        if self.real:
            import numpy
            numpy.random.set_state(s['set'])
        else:
            self.set_state(s['set'])

    def now(self):
        if self.real:
            import numpy
            s = numpy.random.get_state()
            return ([float(k) for k in s[1][:3]], s[2], s[3], s[4])
        return self.st

    def same(self, a, b, label):
        ctx = self.ctx
        for x, y in zip(list(a[0])[:3], list(b[0])[:3]):
            ctx.eq(x, y, label, tol=0)
        ctx.check(a[1] == b[1] and a[2] == b[2], label)
        ctx.eq(a[3], b[3], label, tol=0)


def setup(f):
    def g(ctx, **kw):
        F = make_fs(ctx)
        G = Gen(ctx)
        try:
            w = F.world(**({} if G.real else {'numpy.random': G.mod}))
            R = w.load('inference.utils.rng')
            return f(ctx, F, G, R, **kw)
        finally:
            F.done()
    return g


@setup
def basic(ctx, F, G, R, name):
    a, b = G.new('a'), G.new('b')
    args = (name,) if name else ()
    G.put(a)
    R.save_rng(*args)
    G.same(G.now(), a['st'], 'saving leaves the generator alone')
    ctx.check(F.listing() == [name or '.numpy-rng-state'], 'saving leaves the generator alone')
    G.put(b)
    notify = ctx.choose('notify', (True, False))
    R.restore_rng(*args, notify=notify)
    G.same(G.now(), a['st'], 'the saved state is restored')
    # again: the file is still there
    G.put(b)
    R.restore_rng(*args)
    G.same(G.now(), a['st'], 'the saved state is restored')
    ctx.check(F.listing() == [name or '.numpy-rng-state'], 'two earlier states are kept')


@setup
def rotate(ctx, F, G, R, n):
    ss = []
    other = G.new('o')
    G.put(other)
    R.save_rng('other')
    for i in range(n):
        s = G.new('s%d' % i)
        G.put(s)
        R.save_rng('f')
        ss.append(s)
    want = ['f', 'f.1', 'f.2'][:n]
    ctx.check(F.listing() == want + ['other'], 'two earlier states are kept')
    for i, nm in enumerate(want):
        G.put(other)
        R.restore_rng(nm, notify=False)
        G.same(G.now(), ss[n - 1 - i]['st'], 'the saved state is restored' if i == 0 else 'two earlier states are kept')
    R.restore_rng('other')
    G.same(G.now(), other['st'], 'the saved state is restored')


@setup
def crash(ctx, F, G, R, earlier, point):
    ss = []
    for i in range(earlier):
        s = G.new('s%d' % i)
        G.put(s)
        R.save_rng('f')
        ss.insert(0, s)
    s = G.new('new')
    G.put(s)
    F.arm(*point)
    done = True
    try:
        R.save_rng('f')
    except Crash:
        done = False
    F.disarm()
    names = ['f', 'f.1', 'f.2']
    def read(nm):
        if F.get(nm) in (None, 'incomplete'):
            return None
        G.put(s)
        R.restore_rng(nm, notify=False)
        return G.now()
    if done:
        for i, want in enumerate([s] + ss[:2]):
            got = read(names[i])
            ctx.check(got is not None, 'two earlier states are kept')
            G.same(got, want['st'], 'two earlier states are kept')
        return
    for i in range(min(earlier, 2)):
        hit = False
        for nm in names[i:i + 2]:
            got = read(nm)
            if got is not None and not hit:
                hit = bool(got[0][0] == ss[i]['st'][0][0]) and bool(got[0][1] == ss[i]['st'][0][1]) and got[1] == ss[i]['st'][1] and got[2] == ss[i]['st'][2]
        ctx.check(hit, 'an interrupted save loses no state')


@setup
def missing(ctx, F, G, R, name):
    a, b = G.new('a'), G.new('b')
    args = (name,) if name else ()
    G.put(a)
    R.restore_rng(*args, notify=ctx.choose('notify', (True, False)))
    G.same(G.now(), a['st'], 'no file: the present state is kept and saved')
    ctx.check(F.listing() == [name or '.numpy-rng-state'], 'no file: the present state is kept and saved')
    G.put(b)
    R.restore_rng(*args)
    G.same(G.now(), a['st'], 'no file: the present state is kept and saved')


@setup
def misuse(ctx, F, G, R):
    a = G.new('a')
    G.put(a)
    F.put('f', ('OTHER', (list(a['st'][0]), 3, 0, 0.0)))
    ctx.raises(lambda: R.restore_rng('f', notify=False), ValueError, 'misuse is refused')
    G.same(G.now(), a['st'], 'misuse is refused')
    if not G.real:
        G.id = 'PCG64'
        ctx.raises(lambda: R.save_rng('g'), RuntimeError, 'misuse is refused')
        ctx.raises(lambda: R.save_rng('f'), RuntimeError, 'misuse is refused')
        ctx.check(F.listing() == ['f'] and F.get('f')[0] == 'OTHER', 'misuse is refused')


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = [Case('misuse', misuse, {}, **O)]
    for nm in ('', 'f', 'some.state'):
        out.append(Case('basic-' + nm, basic, dict(name=nm), **O))
        out.append(Case('missing-' + nm, missing, dict(name=nm), **O))
    for n in range(1, 4 if not big else 5):
        out.append(Case('rotate-%d' % n, rotate, dict(n=n), weight=n * n, **O))
    for e in range(3):
        for n in range(4):
            for when in ('before', 'after'):
                out.append(Case('crash-%d-%d%s' % (e, n, when), crash, dict(earlier=e, point=(n, when)), weight=e * e + 1, **O))
    return out
