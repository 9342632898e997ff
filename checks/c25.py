"""C25: stores and backups."""
from symx.runner import Case
from . import util
from .fsmodel import fs as make_fs, Crash

BOUNDS = ('stores with up to 3 attributes (arrays of 1-3 symbolic numbers; numbers and lists in the general store), all histories of up to 4 operations (assign, read, save, reopen) and up to 3 saves to one name; '
          'file names with and without suffix; 0-3 earlier versions; interruption before or after every operation that changes the directory')
ASSUMPTIONS = ['the file system has atomic rename, and opening for writing truncates (model; the replay uses a real scratch directory)', 'pickle and savez/load return what was stored',
               'interruption points: before and after each rename, removal and opening for writing']
MUST_REACH = ['stored values are read back', 'unread attributes survive saving', 'a reassigned attribute is the one saved', 'contents lists every name once', 'an unknown attribute is an error', 'misuse is refused',
              'two earlier versions are kept', 'an interrupted save loses no version', 'opening keeps earlier versions', 'opening options', 'stores are independent', 'columns']


def guarded(f):
    def g(ctx, **kw):
        F = make_fs(ctx)
        try:
            return f(ctx, F, **kw)
        finally:
            F.done()
    g.__name__ = f.__name__
    return g


def same(ctx, got, want, label):
    """value read back is the value stored"""
    if hasattr(want, 'shape') or isinstance(want, (list, tuple)):
        ok = hasattr(got, '__len__') and len(got) == len(want)
        ctx.check(ok, label)
        for a, b in zip(list(got), list(want)):
            same(ctx, a, b, label)
    elif isinstance(want, str):
        ctx.check(isinstance(got, str) and got == want, label)
    else:
        ctx.eq(got, want, label, tol=0)


def value(ctx, name, kind, size):
    xs = [ctx.real('%s_%d' % (name, i), -100, 100) for i in range(size)]
    if kind == 'array':
        return ctx.array(xs)
    if kind == 'list':
        return xs + ['text']
    return xs[0]


def klass(w, store):
    U = w.load('inference.utils.ioutils')
    return (U.ArrayStore, '.npz') if store == 'array' else (U.AttrStore, '.pkl')


@guarded
def history(ctx, F, store, nops, first):
    """operations on one store, compared with a dictionary"""
    w = F.world()
    S, suf = klass(w, store)
    kinds = ('array',) if store == 'array' else ('array', 'list', 'number')
    given = ctx.choose('suffix', ('', suf))
    name = 'st' + given
    other = S()
    ov = value(ctx, 'other', 'array', 1)
    other.a = ov
    now, saved = {}, None
    s = S()
    named = False
    nv = 0
    for i in range(nops):
        op = first[i] if i < len(first) else ctx.choose('op%d' % i, ('set a', 'set b', 'read a', 'save', 'save here', 'reopen'))
        if op[:3] == 'set':
            v = value(ctx, 'v%d' % nv, kinds[nv % len(kinds)], 1 + nv % 3)
            nv += 1
            setattr(s, op[4:], v)
            now[op[4:]] = v
        elif op[:4] == 'read':
            if op[5:] in now:
                same(ctx, getattr(s, op[5:]), now[op[5:]], 'stored values are read back')
            else:
                ctx.raises(lambda: getattr(s, op[5:]), AttributeError, 'an unknown attribute is an error')
        elif op == 'save':
            s.save(name)
            saved = dict(now)
        elif op == 'save here':
            if not named:
                ctx.raises(lambda: s.save(), ValueError, 'misuse is refused')
            else:
                s.save()
                saved = dict(now)
        elif op == 'reopen':
            if saved is None:
                ctx.cut('nothing to open')
            s = S(name)
            named = True
            now = dict(saved)
        ctx.check(sorted(s.contents()) == sorted(now), 'contents lists every name once')
    if saved is None:
        ctx.cut('nothing saved')
    t = S(name)
    ctx.check(sorted(t.contents()) == sorted(saved), 'contents lists every name once')
    for k in sorted(saved):
        same(ctx, getattr(t, k), saved[k], 'stored values are read back')
    ctx.raises(lambda: t.nosuch, AttributeError, 'an unknown attribute is an error')
    ctx.check(sorted(other.contents()) == ['a'], 'stores are independent')
    same(ctx, other.a, ov, 'stores are independent')


@guarded
def unread(ctx, F, store, read, change):
    """open a file with three attributes; read some, change some, save; everything else is still there"""
    w = F.world()
    S, suf = klass(w, store)
    old = {k: value(ctx, 'old_' + k, 'array', 2) for k in 'abc'}
    F.put('st' + suf, old)
    s = S('st' + ctx.choose('suffix', ('', suf)))
    for k in read:
        same(ctx, getattr(s, k), old[k], 'stored values are read back')
    want = dict(old)
    for k in change:
        v = value(ctx, 'new_' + k, 'array', 1)
        setattr(s, k, v)
        same(ctx, getattr(s, k), v, 'a reassigned attribute is the one saved')
        want[k] = v
    to = ctx.choose('to', (None, 'st', 'st' + suf, 'x', 'x' + suf))
    s.save(to) if to else s.save()
    f = (to or 'st').replace(suf, '') + suf
    got = F.get(f)
    ctx.check(isinstance(got, dict), 'stored values are read back')
    ctx.check(sorted(got) == sorted(want), 'unread attributes survive saving')
    for k in sorted(want):
        same(ctx, got[k], want[k], 'a reassigned attribute is the one saved' if k in change else 'unread attributes survive saving')
    # the store goes on working, also for what was not read before
    for k in sorted(want):
        same(ctx, getattr(s, k), want[k], 'stored values are read back')
    if to and to[0] == 'x':
        still = F.get('st' + suf)
        ctx.check(isinstance(still, dict) and sorted(still) == ['a', 'b', 'c'], 'two earlier versions are kept')
    else:
        prev = F.get('st' + suf + '%')
        ctx.check(isinstance(prev, dict) and sorted(prev) == ['a', 'b', 'c'], 'two earlier versions are kept')
        for k in 'abc':
            same(ctx, prev[k], old[k], 'two earlier versions are kept')


@guarded
def saves(ctx, F, how, earlier, crash):
    """earlier versions in name, name%, name%%; one more save, possibly interrupted"""
    w = F.world()
    U = w.load('inference.utils.ioutils')
    suf = {'array': '.npz', 'attr': '.pkl', 'open': '.dat'}[how]
    f = 'st' + suf
    vs = []
    for i in range(earlier):
        v = {'a': ctx.array([ctx.real('ver%d' % i, -100, 100)])}
        F.put(f + '%' * i, v)
        vs.append(v['a'])
    bystander = {'a': ctx.array([ctx.real('by', -100, 100)])}
    F.put('zz' + suf, bystander)
    new = ctx.array([ctx.real('new', -100, 100)])
    if how == 'open':
        def act():
            U.safe_open(f, 'b').close()
    else:
        s = U.ArrayStore() if how == 'array' else U.AttrStore()
        s.a = new
        def act():
            s.save(f)
    if crash:
        F.arm(*crash)
    done = True
    try:
        act()
    except Crash:
        done = False
    F.disarm()
    now = [F.get(f + '%' * i) for i in range(3)]
    def holds(x, v):
        return isinstance(x, dict) and 'a' in x and list(x) == ['a'] and x['a'] is not None
    if done:
        if how != 'open':
            ctx.check(holds(now[0], new), 'stored values are read back')
            same(ctx, now[0]['a'], new, 'stored values are read back')
        else:
            ctx.check(now[0] == 'incomplete', 'opening keeps earlier versions')
        for i in range(min(earlier, 2)):
            ctx.check(holds(now[i + 1], vs[i]), 'two earlier versions are kept')
            same(ctx, now[i + 1]['a'], vs[i], 'two earlier versions are kept')
        for i in range(min(earlier, 2) + 1, 3):
            ctx.check(now[i] is None, 'two earlier versions are kept')
    else:
        # the current version and the one before it are complete somewhere, newest first
        for i in range(min(earlier, 2)):
            cands = [now[i], now[i + 1]]
            ok = [c for c in cands if holds(c, vs[i])]
            ctx.check(len(ok) > 0, 'an interrupted save loses no version')
            # equal to the version: as a disjunction over the candidates
            hit = False
            for c in ok:
                hit = hit or bool(c['a'][0] == vs[i][0])
            ctx.check(hit, 'an interrupted save loses no version')
    z = F.get('zz' + suf)
    ctx.check(isinstance(z, dict), 'two earlier versions are kept')
    same(ctx, z['a'], bystander['a'], 'two earlier versions are kept')
    left = [x for x in F.listing() if x.startswith('st') and x not in (f, f + '%', f + '%%')]
    if done:
        ctx.check(not left, 'two earlier versions are kept')


@guarded
def repeated(ctx, F, store, n):
    w = F.world()
    S, suf = klass(w, store)
    vs = []
    for i in range(n):
        v = value(ctx, 'v%d' % i, 'array', 1 + i % 2)
        s = S() if i == 0 or ctx.choose('fresh%d' % i, (0, 1)) else S('st')
        s.a = v
        s.save('st')
        vs.append(v)
    for i in range(3):
        got = F.get('st' + suf + '%' * i)
        if i < n:
            ctx.check(isinstance(got, dict) and list(got) == ['a'], 'two earlier versions are kept')
            same(ctx, got['a'], vs[n - 1 - i], 'two earlier versions are kept')
        else:
            ctx.check(got is None, 'two earlier versions are kept')


@guarded
def opening(ctx, F):
    w = F.world()
    U = w.load('inference.utils.ioutils')
    x = ctx.real('x', -100, 100)
    F.text('a.txt', 'old')
    f = U.safe_open('a.txt')
    f.write('new')
    f.close()
    ctx.check(F.get('a.txt') == 'new' and F.get('a.txt%') == 'old', 'opening keeps earlier versions')
    for binary in (True, 'b', False):
        f = U.safe_open('b.txt', binary)
        ctx.check(('b' in f.mode) == bool(binary) and 'w' in f.mode, 'opening options')
        f.close()
    calls = []
    def opener(name, *a, **k):
        calls.append((name, a, k, F.get('a.txt'), F.get('a.txt%')))
        return 'opened'
    F.text('a.txt', 'third')
    for a, k in (((), {}), ((x,), {}), ((), {'level': x}), ((x, 'y'), {'level': x})):
        r = U.safe_open('a.txt', False, opener, *a, **k)
        ctx.check(r == 'opened', 'opening options')
        c = calls[-1]
        ctx.check(c[0] == 'a.txt' and len(c[1]) == len(a) and sorted(c[2]) == sorted(k), 'opening options')
        for p, q in zip(c[1], a):
            same(ctx, p, q, 'opening options')
        for kk in k:
            same(ctx, c[2][kk], k[kk], 'opening options')
    ctx.check(calls[0][3] is None and calls[0][4] == 'third', 'opening keeps earlier versions')
    ctx.check(F.get('a.txt%%') == 'old', 'opening keeps earlier versions')


@guarded
def misuse(ctx, F):
    w = F.world()
    U = w.load('inference.utils.ioutils')
    x = ctx.real('x', -100, 100)
    s = U.ArrayStore()
    v = ctx.array([x])
    s.a = v
    for bad in (1.0, [x], 'text', None):
        def f():
            s.a = bad
        ctx.raises(f, ValueError, 'misuse is refused')
    same(ctx, s.a, v, 'misuse is refused')
    ctx.raises(lambda: s.save(), ValueError, 'misuse is refused')
    t = U.AttrStore(p=x, q=[x, x])
    same(ctx, t.p, x, 'stored values are read back')
    ctx.check(sorted(t.contents()) == ['p', 'q'], 'contents lists every name once')
    ctx.raises(lambda: t.save(), ValueError, 'misuse is refused')
    ctx.raises(lambda: t.nosuch, AttributeError, 'an unknown attribute is an error')
    ctx.raises(lambda: s.nosuch, AttributeError, 'an unknown attribute is an error')
    for K in (U.ArrayStore, U.AttrStore):
        for nm in ('missing', 'missing.npz', 'missing.pkl'):
            ctx.raises(lambda: K(nm), (OSError, IOError), 'misuse is refused')
    ctx.check(F.listing() == [], 'misuse is refused')
    # attributes given with a file
    F.put('k.pkl', {'p': ctx.array([x])})
    y = ctx.real('y', -100, 100)
    t = U.AttrStore('k', q=y)
    ctx.check(sorted(t.contents()) == ['p', 'q'], 'contents lists every name once')
    t.save()
    got = F.get('k.pkl')
    ctx.check(sorted(got) == ['p', 'q'], 'unread attributes survive saving')
    same(ctx, got['q'], y, 'stored values are read back')


@guarded
def columns(ctx, F, rows, cols, arr):
    w = F.world()
    U = w.load('inference.utils.ioutils')
    vals = {'w%d_%d' % (i, j): ctx.real('w%d_%d' % (i, j), -100, 100) for i in range(rows) for j in range(cols)}
    F.text('c.txt', ''.join('  '.join('w%d_%d' % (i, j) for j in range(cols)) + ' \n' for i in range(rows)))
    scale = [1.0, 2.0, -1.0]
    types = [(lambda k: lambda word: vals[word] * scale[k])(j) for j in range(cols)]
    f = F.reader('c.txt')
    got = U.read_column_vectors(f, types, arr) if not arr else U.read_column_vectors(f, types)
    f.close()
    ctx.check(len(got) == cols, 'columns')
    for j in range(cols):
        ctx.check(len(got[j]) == rows and (hasattr(got[j], 'shape') or not arr), 'columns')
        for i in range(rows):
            ctx.eq(got[j][i], vals['w%d_%d' % (i, j)] * scale[j], 'columns')


def cases(tier):
    big = tier == 'thorough'
    O = dict(timeout_ms=8000, case_s=1500 if big else 200)
    out = [Case('misuse', misuse, {}, **O), Case('opening', opening, {}, **O)]
    for st in ('array', 'attr'):
        for n, first in ((3, ('set a',)), (4, ('set a', 'save')), (5, ('set a', 'set b', 'save', 'reopen')), (7 if big else 6, ('set a', 'save', 'reopen', 'set b'))):
            out.append(Case('history-%s-%d-%d' % (st, n, len(first)), history, dict(store=st, nops=n, first=list(first)), weight=n, **O))
        if big:
            out.append(Case('history-%s-6-2' % st, history, dict(store=st, nops=6, first=['set a', 'save']), weight=9, **O))
        for read in ('', 'a', 'ab', 'abc'):
            for change in ('', 'a', 'b', 'd', 'ac'):
                out.append(Case('unread-%s-%s-%s' % (st, read, change), unread, dict(store=st, read=read, change=change), **O))
        for n in range(1, 6 if big else 5):
            out.append(Case('repeated-%s-%d' % (st, n), repeated, dict(store=st, n=n), **O))
    for how in ('array', 'attr', 'open'):
        for e in range(4):
            for crash in [None] + [(n, when) for n in range(4 if not big else 8) for when in ('before', 'after')]:
                out.append(Case('saves-%s-%d-%s' % (how, e, 'none' if not crash else '%d%s' % crash), saves, dict(how=how, earlier=e, crash=crash), **O))
    for r, c in ((1, 1), (2, 3), (3, 2), (0, 2)):
        for a in (0, 1):
            out.append(Case('columns-%d-%d-%d' % (r, c, a), columns, dict(rows=r, cols=c, arr=a), **O))
    return out
