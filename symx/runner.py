"""Runs the cases of a property, replays counterexamples on the real code, writes the evidence."""
import importlib, json, multiprocessing as mp, os, signal, subprocess, sys, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'


class Case:
    """fn(ctx, **params): one harness instance.  opts: engine options (rounding, fork_minmax, timeout_ms, max_paths, path_s)"""
    def __init__(self, name, fn, params=None, **opts):
        self.name, self.fn, self.params, self.opts = name, fn, params or {}, opts


def env():
    e = dict(os.environ)
    e.update(HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1',
             PYTHONPATH=os.path.join(REPO, 'package'), MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MPLCONFIGDIR='/tmp/verif-mpl-%d' % os.getuid(), PATH='/opt/venv/bin:' + e.get('PATH', '/usr/bin:/bin'))
    return e


def build_ext():
    """the compiled extensions of the current tree (in git-ignored files), for replays and translator validation"""
    r = subprocess.run([PYTHON, '/opt/vp/buildext.py'], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


class PathTimeout(BaseException):
    pass


class CaseRunner:
    more_models = 4

    def __init__(self, prop, case, tier, outdir):
        self.prop, self.case, self.tier, self.outdir = prop, case, tier, outdir
        self.cands = {}           # label -> list of dict(file, confirmed)
        self.notes = []
        self.done_labels = set()

    def note(self, s):
        if len(self.notes) < 20:
            self.notes.append(s)

    def candidate(self, ctx, label, model):
        """turn a model into a replay; True if the real code shows the violation"""
        tried = self.cands.setdefault(label, [])
        if any(c['confirmed'] for c in tried):
            return True
        if len(tried) >= 12:
            return False
        inp, tabs = ctx.extract(model)
        key = hashlib.sha1(json.dumps([self.case.name, label, inp], sort_keys=True).encode()).hexdigest()[:10]
        f = os.path.join(self.outdir, '%s-%s.json' % (self.prop, key))
        with open(f, 'w') as h:
            json.dump(dict(property=self.prop, case=self.case.name, tier=self.tier, label=label, inputs=inp, tables=tabs), h, indent=1)
        rc, out = run_replay(f, self.case.opts.get('replay_s', 60))
        ok = rc == 1
        tried.append(dict(file=f, confirmed=ok, rc=rc, out=out[-600:]))
        if not ok:
            os.remove(f)
        return ok

    def run(self, deadline):
        from . import core, ctx as cx
        o = self.case.opts
        e = core.Engine(timeout_ms=o.get('timeout_ms', 20000), feas_timeout_ms=o.get('feas_timeout_ms', 3000),
                        max_paths=o.get('max_paths', 20000), deadline=deadline)
        e.rounding = o.get('rounding', False)
        e.fork_minmax = o.get('fork_minmax', True)
        e.exp_lemmas = o.get('exp_lemmas', True)
        e.exp_cmp = o.get('exp_cmp', False)
        e.log_nonpos = o.get('log_nonpos', 'error')
        e.abstract_nl = o.get('abstract_nl', False)
        e.record = None
        self.e = e
        path_s = o.get('path_s', 120)
        last = {}

        def alarm(*a):
            raise PathTimeout()
        signal.signal(signal.SIGALRM, alarm)

        def once():
            c = cx.SymCtx(e, self)
            last['c'] = c
            signal.setitimer(signal.ITIMER_REAL, path_s)
            try:
                self.case.fn(c, **self.case.params)
                e.stats.reached['path end'] = e.stats.reached.get('path end', 0) + 1
            except PathTimeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if e.feasible([]):
                    if not self.candidate(c, 'terminates', e.last_model):
                        e.incomplete.append('path time limit')
                else:
                    e.incomplete.append('path time limit')
            except core.Unsupported as ex:
                e.incomplete.append('unsupported: %s' % ex)
            except (core.PathAbort, KeyboardInterrupt):
                raise
            except RecursionError as ex:
                self._exc(c, ex)
            except Exception as ex:
                self._exc(c, ex)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if self.cands and any(x['confirmed'] for l in self.cands.values() for x in l) and self.tier == 'quick':
                e.stop = True
        fns = trace_functions()
        e.explore(once)
        s = e.stats
        return dict(case=self.case.name, params={k: repr(v) for k, v in self.case.params.items()}, paths=s.paths, aborted=s.aborted, checks=s.checks, feas=s.feas,
                    solver_s=s.solver_s, unknown=s.unknown, identities=s.identities, concretized=s.concretized, reached=s.reached, cut=s.cut, max_depth=s.max_depth,
                    incomplete=sorted(set(e.incomplete)), inconclusive=sorted(set(e.inconclusive)), cands=self.cands, notes=self.notes,
                    functions=sorted(fns), fortran=sorted(getattr(sys.modules.get('symx.fort'), 'EXECUTED', ())))

    def _exc(self, c, ex):
        label = 'no unexpected %s' % type(ex).__name__
        tb = traceback.format_exc()
        self.note(tb[-1500:])
        if not c.e.defs and c.e.feasible([]):
            m = c.e.last_model
        else:
            r, m = c.e.strong_check(c.e.pc + c.e.defs, 10000)
            if str(r) == 'unsat':
                return            # not a path of the code
        if m is None:
            c.e.incomplete.append('exception on a path without a model: %s' % ex)
            return
        c.e.stats.reached[label] = c.e.stats.reached.get(label, 0) + 1
        if not self.candidate(c, label, m):
            self.cands[label][-1]['tb'] = tb[-1500:]


def trace_functions():
    """names of the functions of /repo executed symbolically (sys.monitoring, once per code object)"""
    fns = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'symx')
    except ValueError:
        pass
    root = REPO + '/package/'
    def start(code, off):
        if code.co_filename.startswith(root):
            fns.add(code.co_filename[len(root):] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return fns


def run_replay(path, timeout):
    try:
        p = subprocess.run([PYTHON, os.path.join(VERIF, 'replay.py'), path], env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 1, 'does not terminate within %d s' % timeout


def load_check(prop):
    sys.path.insert(0, VERIF)
    return importlib.import_module('checks.' + prop.lower())


def _worker(args):
    prop, name, tier, outdir, deadline = args
    mod = load_check(prop)
    case = [c for c in mod.cases(tier) if c.name == name][0]
    t = time.time()
    try:
        r = CaseRunner(prop, case, tier, outdir).run(min(deadline, time.time() + case.opts.get('case_s', 1e9)))
    except Exception:
        r = dict(case=name, error=traceback.format_exc())
    r['wall_s'] = time.time() - t
    return r


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def main(prop, tier, only=None, jobs=None, verbose=False):
    t0 = time.time()
    sys.stdout.reconfigure(line_buffering=True)
    mod = load_check(prop)
    budget = {'quick': 700, 'thorough': 6 * 3600}[tier]
    deadline = t0 + float(os.environ.get('VERIF_BUDGET', budget))
    outdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(outdir, exist_ok=True)
    problems = []
    rc, out = build_ext()
    if rc:
        problems.append('extension build failed: ' + out[-800:])
    if not problems:
        try:
            from . import fort
            for x in fort.extensions():
                try:
                    fort.preload(x)
                except Exception:
                    if x in getattr(mod, 'FORTRAN', ()):
                        raise
        except Exception:
            problems.append('Fortran front end: ' + traceback.format_exc())
    pre = getattr(mod, 'prepare', None)
    pre_info = None
    if pre and not problems:
        try:
            pre_info = pre(tier)
        except Exception:
            problems.append('prepare: ' + traceback.format_exc())
    cs = [c for c in mod.cases(tier) if not only or only in c.name]
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), 'duplicate case names'
    cs.sort(key=lambda c: -c.opts.get('weight', 1))
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    results = []
    kf, stop = known_findings(prop), None      # stop: a violation is confirmed; the remaining cases get a little more time
    ctxm = mp.get_context('fork')
    with ctxm.Pool(min(jobs, max(1, len(cs))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_worker, [(prop, c.name, tier, outdir, deadline) for c in cs], chunksize=1)
        for _ in cs:
            try:
                r = it.next(timeout=max(1, min(deadline + 100, stop or 1e18) - time.time()))
            except mp.TimeoutError:
                if stop is None:
                    problems.append('case time-out')
                pool.terminate()
                break
            results.append(r)
            if tier == 'quick' and stop is None and any(c['confirmed'] and not any(d['case'] == r['case'] and d['label'] == label for d in kf)
                                                        for label, l in r.get('cands', {}).items() for c in l):
                stop = time.time() + float(os.environ.get('VERIF_GRACE', '40'))
            if verbose:
                print(json.dumps({k: v for k, v in r.items() if k not in ('functions', 'reached', 'fortran')}, default=str)[:3000])
    extra = getattr(mod, 'extra', None)
    viol, known_hit, unconfirmed, open_q, nonvacuous = [], {}, [], [], 0
    for r in results:
        if 'error' in r:
            problems.append('case %s: %s' % (r['case'], r['error']))
            continue
        for label, l in r['cands'].items():
            conf = [c for c in l if c['confirmed']]
            if conf:
                k = [d for d in kf if d['case'] == r['case'] and d['label'] == label]
                if k:
                    known_hit[(r['case'], label)] = k[0]
                else:
                    viol.append((r['case'], label, conf[0]))
            elif l and label.startswith('no unexpected '):
                # an exception which the real code does not raise for the same numbers: the engine's limit, not the code's
                open_q.append('case %s: path not encodable (%s)' % (r['case'], (l[-1].get('tb') or '').strip().splitlines()[-1:]))
                if verbose:
                    print(l[-1].get('tb'))
            elif l:
                unconfirmed.append((r['case'], label, l[-1]))
                open_q.append('case %s: undecided (counterexample of the encoding not reproduced by the real code): %s' % (r['case'], label))
        if r['inconclusive']:
            open_q.append('case %s: solver undecided on %s' % (r['case'], r['inconclusive'][:3]))
        if not r['reached']:
            open_q.append('case %s: no assertion reached (%s)' % (r['case'], r['incomplete'][:2]))
        else:
            nonvacuous += 1
    reached = {}
    for r in results:
        for k, v in r.get('reached', {}).items():
            reached[k] = reached.get(k, 0) + v
    for lab in getattr(mod, 'MUST_REACH', []):
        if not only and not viol and not reached.get(lab):
            problems.append('vacuous: %r never reached' % lab)
    if not only and not viol and nonvacuous * 2 < len(cs):
        problems.append('most cases could not be decided: ' + '; '.join(open_q[:5]))
    ok = [r for r in results if 'error' not in r]
    cuts = {}
    for r in ok:
        for k, v in r['cut'].items():
            cuts[k] = cuts.get(k, 0) + v
    funcs = sorted({f for r in ok for f in r['functions']})
    ffuncs = sorted({f for r in ok for f in r['fortran']})
    incomplete = sorted({'%s: %s' % (r['case'], x) for r in ok for x in r['incomplete']})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
              coverage=dict(
                  explanation='Solver-based checking: the functions below (Python source of the current tree%s) were executed '
                              'symbolically on every feasible path within the bounds; each assertion was discharged by z3 as the '
                              'unsatisfiability of its negation under the path condition.' % (' and Fortran via the GIMPLE dump of the current tree' if ffuncs else ''),
                  technique='bounded symbolic execution of the real source + SMT (z3)',
                  functions_encoded=funcs, fortran_functions_encoded=ffuncs,
                  bounds=getattr(mod, 'BOUNDS', ''), cases=len(results),
                  paths=sum(r['paths'] for r in ok), paths_cut_at_the_bound=cuts, paths_infeasible=sum(r['aborted'] for r in ok),
                  assertion_queries=sum(r['checks'] for r in ok), feasibility_queries=sum(r['feas'] for r in ok),
                  solver_s=round(sum(r['solver_s'] for r in ok), 2), queries_normalised_to_an_identity=sum(r['identities'] for r in ok), undecided_queries=sum(r['unknown'] for r in ok),
                  concretizations=sum(r['concretized'] for r in ok), not_exhaustive=(open_q + incomplete)[:40],
                  exhaustive=not incomplete and not problems and not open_q, reached=reached,
                  samples=[dict(case=r['case'], paths=r['paths'], queries=r['checks'], solver_s=round(r['solver_s'], 3)) for r in ok[:12]],
                  translator_validation=pre_info),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for (c, lab), d in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    print('%s %s: %d cases, %d paths, %d assertion + %d feasibility queries, solver %.1fs, wall %.1fs' % (
        prop, tier, len(results), ev['coverage']['paths'], ev['coverage']['assertion_queries'], ev['coverage']['feasibility_queries'],
        ev['coverage']['solver_s'], time.time() - t0))
    if incomplete or open_q:
        print('NOT EXHAUSTIVE (outside the claim of this run):', (open_q + incomplete)[:8])
    if viol:
        for c, lab, d in viol:
            print('counterexample in case %s: %s (%s)' % (c, lab, d['out'].strip()[-300:]))
            print('VIOLATION property=%s replay=%s' % (prop, d['file']))
        return 1
    for c, lab, d in unconfirmed[:5]:
        print('UNDECIDED: a counterexample of the encoding is not reproduced by the real code, in %s: %s\n%s\n%s' % (c, lab, d['out'], d.get('tb', '')))
    if problems:
        print('\n'.join(problems[:10]))
        return 2
    print('OK property=%s held on everything explored' % prop)
    return 0
