"""Harness contexts: SymCtx (inputs are symbolic, checks are solver queries) and ConcreteCtx (inputs are the numbers
of a solver model, checks are evaluated on the real code).  The same harness function runs under both."""
import math, json, os, sys, time, traceback, types
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, label, msg=''):
        super().__init__(label, msg)
        self.label, self.msg = label, msg


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ concrete

class ConcreteUF:
    """user function given by the table of a model: nearest recorded point"""
    def __init__(self, table):
        self.table = [([float(a) for a in args], float(v)) for args, v in table]
        self.default = self.table[0][1] if self.table else 0.0
        self.calls = []

    def value(self, args):
        best, bd = self.default, None
        for a, v in self.table:
            if len(a) != len(args):
                continue
            d = sum((x - y) ** 2 for x, y in zip(a, args))
            if bd is None or d < bd:
                best, bd = v, d
        self.calls.append((list(args), best))
        return best


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs, tables=None, factor=0.5):
        import numpy
        self.inputs, self.tables = inputs, tables or {}
        self.np = numpy
        self.factor = factor
        self.normals = []

    def real(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0.0)
        return float(v)

    def choose(self, name, options):
        options = list(options)
        k = self.inputs.get(name)
        return options[0 if k is None else int(k)]

    def assume(self, c):
        if not bool(c):
            raise Infeasible('assumption does not hold for the replayed numbers')

    def check(self, c, label):
        if not bool(c):
            raise Violation(label)

    def eq(self, a, b, label, tol=1e-7, known=None):
        a, b = float(a), float(b)
        if not (abs(a - b) <= tol * self.factor) and not (a == b):
            raise Violation(label, '%r != %r' % (a, b))

    def le(self, a, b, label, tol=1e-7):
        a, b = float(a), float(b)
        if not (a <= b + tol * self.factor):
            raise Violation(label, '%r > %r' % (a, b))

    def ident(self, a, b, label):
        if not (float(a) == float(b)):
            raise Violation(label, '%r is not exactly %r' % (a, b))

    def between(self, x, lo, hi, label, tol=1e-7):
        self.le(lo, x, label, tol)
        self.le(x, hi, label, tol)

    def array(self, xs):
        return self.np.array([list(r) if isinstance(r, (list, tuple)) else r for r in xs], float)

    def ufun(self, name, lo=None, hi=None, vec=False):
        u = ConcreteUF(self.tables.get(name, []))
        def f(*args):
            a = _flat(args)
            return u.value([float(x) for x in a])
        f.uf = u
        return f

    def normal_source(self):
        i = len(self.normals)
        v = float(self.inputs.get('normal%d' % i, 0.25 * (i + 1)))
        self.normals.append(v)
        return v

    def world(self, **kw):
        return ConcreteWorld(self, **kw)

    def sqrt(self, x):
        return math.sqrt(x)
    def exp(self, x):
        return math.exp(x)
    def log(self, x):
        return math.log(x)

    def reach(self, label):
        pass

    def cut(self, why):
        raise Infeasible('outside the bound: ' + why)

    def raises(self, f, exc, label):
        try:
            f()
        except exc:
            return
        except Violation:
            raise
        except Exception as e:
            raise Violation(label, 'raised %s: %s' % (type(e).__name__, e))
        raise Violation(label, 'did not raise')


class ConcreteWorld:
    """the real package, imported from the real source tree (fresh in this process)"""
    def __init__(self, ctx, stubs=None, patch=None, **kw):
        self.ctx = ctx
        p = os.path.join(REPO, 'package')
        if p not in sys.path:
            sys.path.insert(0, p)
        for k in [k for k in sys.modules if k == 'inference' or k.startswith('inference.')]:
            if not k.rpartition('.')[2].startswith('_') or k.endswith('__init__'):
                del sys.modules[k]
        self.np = ctx.np
        import importlib
        for full, d in (patch or {}).items():
            m = importlib.import_module(full)
            for k, v in d.items():
                setattr(m, k, v)

    def load(self, name):
        import importlib
        sys.modules.setdefault('pylab', _AnyMod('pylab')) if False else None
        m = importlib.import_module(name)
        if name.startswith('inference.pie') and 'inference.pie.gaussian' in sys.modules:
            g = sys.modules['inference.pie.gaussian']
            self._patch_normal(g)
        return m

    def _patch_normal(self, g):
        # the environment's random source yields the model's draws
        ctx, np = self.ctx, self.np
        class N:
            def rvs(self, size=None, **kw):
                if size is None:
                    return ctx.normal_source()
                return np.array([ctx.normal_source() for _ in range(int(size))])
        for k, v in list(vars(g).items()):
            if hasattr(v, 'rvs') and type(v).__module__.startswith('scipy'):
                setattr(g, k, N())


def _AnyMod(n):
    return types.ModuleType(n)


def _flat(args):
    out = []
    for a in args:
        if hasattr(a, '__len__') and not isinstance(a, str):
            out.extend(_flat(list(a)))
        else:
            out.append(a)
    return out


# ------------------------------------------------------------------ symbolic

class Candidate(Exception):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, engine, runner):
        from . import core, npf
        import z3
        self.e, self.r = engine, runner
        self.core, self.npf, self.z3 = core, npf, z3
        self.inputs = {}          # name -> z3 term or int choice
        self.tables = {}          # uf name -> [(arg terms, value term)]
        self.nnormal = 0
        self.np = npf.build_numpy()

    # -- inputs
    def real(self, name, lo=None, hi=None):
        z3, core = self.z3, self.core
        v = z3.Real(name)
        self.inputs[name] = v
        if lo is not None:
            self.e.fact(v >= core.zconst(lo))
        if hi is not None:
            self.e.fact(v <= core.zconst(hi))
        if lo is not None and lo > 0:
            self.e.mark_positive(v)
        if lo is not None and hi is not None:
            self.e.ranges[v.get_id()] = (core.zval(core.zconst(lo)), core.zval(core.zconst(hi)))
        return core.SymReal._make(v)

    def choose(self, name, options):
        options = list(options)
        k = self.e.choice(len(options))
        self.inputs[name] = k
        return options[k]

    def assume(self, c):
        self.e.assume(c)

    def ufun(self, name, lo=None, hi=None, vec=False):
        core, z3, e = self.core, self.z3, self.e
        tab = self.tables.setdefault(name, [])
        cache = {}
        def f(*args):
            ts = [core._z(core._coerce(a)) for a in _flat(args)]
            ts = [z3.simplify(t, som=True) for t in ts]
            k = tuple(t.get_id() for t in ts)
            if k in cache:
                return core.SymReal._make(cache[k])
            v = e.fresh('uf_' + name)
            if lo is not None:
                e.fact(v >= core.zconst(lo))
            if hi is not None:
                e.fact(v <= core.zconst(hi))
            for ots, ov in tab:
                if len(ots) == len(ts):
                    e.fact(z3.Implies(z3.And(*[a == b for a, b in zip(ots, ts)]), v == ov))
            e.keep += ts
            cache[k] = v
            tab.append((ts, v))
            return core.SymReal._make(v)
        f.table = tab
        return f

    def normal_source(self):
        n = 'normal%d' % self.nnormal
        self.nnormal += 1
        return self.real(n, -10, 10)

    def array(self, xs):
        return self.core.sarr(self.npf._obj_from(list(xs)))

    def world(self, stubs=None, patch=None, **kw):
        from .world import World
        return World(stubs=stubs, normal_source=self.normal_source, patch=patch, **kw)

    def sqrt(self, x):
        return self.core.sym_sqrt(x)
    def exp(self, x):
        return self.core.sym_exp(x)
    def log(self, x):
        return self.core.sym_log(x)

    # -- assertions
    def _term(self, x):
        core = self.core
        c = core._coerce(x)
        if c is None:
            raise TypeError('not a number: %r' % (x,))
        return c

    def check(self, c, label):
        self.e.stats.reached[label] = self.e.stats.reached.get(label, 0) + 1
        core, z3 = self.core, self.z3
        if isinstance(c, core.SymBool):
            b = c.b
        elif isinstance(c, z3.ExprRef):
            b = c
        else:
            if isinstance(c, bool) or not hasattr(c, 'dtype') or c.dtype != object:
                b = z3.BoolVal(bool(c))
            else:
                b = z3.BoolVal(bool(c))
        self._assert(b, label, [])

    def eq(self, a, b, label, tol=1e-7):
        self.e.stats.reached[label] = self.e.stats.reached.get(label, 0) + 1
        core, z3 = self.core, self.z3
        ta, tb = self._term(a), self._term(b)
        if not isinstance(ta, z3.ExprRef) and not isinstance(tb, z3.ExprRef):
            ok = abs(ta - tb) <= tol or ta == tb
            return self._assert(z3.BoolVal(bool(ok)), label, [])
        if core._bad(ta) or core._bad(tb):
            return self._assert(z3.BoolVal(False), label, [])
        za, zb = core._z(ta), core._z(tb)
        if core._has_ln(za) or core._has_ln(zb):
            num, den, only = core.image(za - zb)
            if core.near_identical(num / den, z3.RealVal(1), tol * 0.9):
                return self._ident(label)
            if not only:
                num, den, only = core.cancel(num, den)
            if only:
                def viol(t):
                    return z3.Or(num > den * core.zconst(math.exp(t)), num < den * core.zconst(math.exp(-t)))
                return self._assert(z3.Not(viol(tol)), label, [viol(0.05), viol(1e-3)])
        if core.near_identical(za, zb, tol) or core.identical(za, zb):
            return self._ident(label)
        d = za - zb
        def viol(t):
            t = core.zconst(t)
            return z3.Or(d > t, d < -t)
        self._assert(z3.Not(viol(tol)), label, [viol(0.5), viol(1e-2), viol(1e-4)])

    def _ident(self, label):
        self.e.stats.asserted[label] = self.e.stats.asserted.get(label, 0) + 1
        self.e.stats.checks += 1
        self.e.stats.identities += 1

    def le(self, a, b, label, tol=1e-7):
        self.e.stats.reached[label] = self.e.stats.reached.get(label, 0) + 1
        core, z3 = self.core, self.z3
        ta, tb = self._term(a), self._term(b)
        if not isinstance(ta, z3.ExprRef) and not isinstance(tb, z3.ExprRef):
            return self._assert(z3.BoolVal(bool(ta <= tb + tol)), label, [])
        if core._bad(ta) or core._bad(tb):
            return self._assert(z3.BoolVal(bool(core.compare(ta, tb, '<='))), label, [])
        za, zb = core._z(ta), core._z(tb)
        if core._has_ln(za) or core._has_ln(zb):
            num, den, only = core.image(za - zb)
            if not only:
                num, den, only = core.cancel(num, den)
            if only:
                viol = lambda t: num > den * core.zconst(math.exp(t))
                return self._assert(z3.Not(viol(tol)), label, [viol(0.05), viol(1e-3)])
        viol = lambda t: za - zb > core.zconst(t)
        self._assert(z3.Not(viol(tol)), label, [viol(0.5), viol(1e-2), viol(1e-4)])

    def ident(self, a, b, label):
        """a and b are the same number exactly (use in rounding mode)"""
        self.e.stats.reached[label] = self.e.stats.reached.get(label, 0) + 1
        core, z3 = self.core, self.z3
        ta, tb = self._term(a), self._term(b)
        if not isinstance(ta, z3.ExprRef) and not isinstance(tb, z3.ExprRef):
            return self._assert(z3.BoolVal(ta == tb), label, [])
        self._assert(core.cmp_term(core._z(ta), core._z(tb), '=='), label, [])

    def between(self, x, lo, hi, label, tol=1e-7):
        self.le(lo, x, label, tol)
        self.le(x, hi, label, tol)

    def reach(self, label):
        self.e.stats.reached[label] = self.e.stats.reached.get(label, 0) + 1

    def cut(self, why):
        """end of the stated bound on this path"""
        self.e.stats.cut[why] = self.e.stats.cut.get(why, 0) + 1
        raise self.core.PathAbort(why)

    def raises(self, f, exc, label):
        from .core import PathAbort, Unsupported
        try:
            f()
        except exc:
            self.check(True, label)
            return
        except Exception as ex:
            self.r.note('raised %s: %s' % (type(ex).__name__, ex))
        self.check(False, label)

    def _assert(self, ok, label, stronger):
        z3, e = self.z3, self.e
        ok = z3.simplify(ok)
        e.stats.asserted[label] = e.stats.asserted.get(label, 0) + 1
        if z3.is_true(ok):
            e.stats.checks += 1
            return
        neg = z3.Not(ok)
        e.stats.checks += 1
        r = e.feasible([neg])
        model = e.last_model
        if r is None:
            res, model = e.strong_check(e.pc + [neg], e.timeout_ms)
            r = True if res == z3.sat else (False if res == z3.unsat else None)
        if r is not False and e.defs:
            # the definitions of abstracted products decide
            res, model = e.strong_check(e.pc + e.defs + [neg], e.timeout_ms)
            r = True if res == z3.sat else (False if res == z3.unsat else None)
        if r is False:
            if e.record is not None:
                e.record.append((label, list(e.pc), neg))
            e.solver.add(ok)          # proved: a lemma for the rest of the path
            return
        if r is None:
            e.stats.unknown += 1
            if len(e.inconclusive) < 20:
                e.inconclusive.append(label)
            # look for a robust violation only
            for s in stronger:
                res, m2 = e.strong_check(e.pc + e.defs + [s], 3000)
                if res == z3.sat:
                    self.r.candidate(self, label, m2)
                    break
            return
        # sat: prefer a model with a large margin
        models = []
        for s in stronger:
            if e.defs:
                res, m2 = e.strong_check(e.pc + e.defs + [s], 3000)
                if res == z3.sat:
                    models.append(m2)
                    break
            elif e.feasible([s]):
                models.append(e.last_model)
                break
        models.append(model)
        for m in models:
            if self.r.candidate(self, label, m):
                break
        else:
            # more models of this path
            seen = list(models)
            for _ in range(self.r.more_models if not e.defs else 0):
                blk = []
                for m in seen[-1:]:
                    for k, t in self.inputs.items():
                        if not isinstance(t, int):
                            v = m.eval(t, model_completion=True)
                            if z3.is_rational_value(v):
                                w = z3.Q(1, 7)
                                blk.append(z3.Or(t < v - w, t > v + w))
                if not blk or not e.feasible([neg, z3.Or(*blk)] if len(blk) > 1 else [neg] + blk):
                    break
                seen.append(e.last_model)
                if self.r.candidate(self, label, e.last_model):
                    break
        e.fact(ok)
        if e.feasible([]) is False:
            raise self.core.PathAbort('violated on the whole path')

    def extract(self, model):
        """inputs and tables as numbers"""
        core = self.core
        inp = {}
        for k, t in self.inputs.items():
            inp[k] = t if isinstance(t, int) else core.model_val(model, t)
        tabs = {}
        for k, tab in self.tables.items():
            tabs[k] = [([core.model_val(model, a) for a in args], core.model_val(model, v)) for args, v in tab]
        return inp, tabs
