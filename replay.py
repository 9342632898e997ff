#!/opt/venv/bin/python
"""replay.py FILE: runs a counterexample on the real code; exit 1 if the property is violated, 0 if not."""
import json, os, sys, traceback, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'package'))
os.environ.setdefault('MPLBACKEND', 'Agg')
from symx import ctx, runner

d = json.load(open(sys.argv[1]))
mod = runner.load_check(d['property'])
case = [c for c in mod.cases(d.get('tier', 'quick')) if c.name == d['case']][0]
c = ctx.ConcreteCtx(d['inputs'], d.get('tables'))
so = sys.stdout
sys.stdout = open(os.devnull, 'w')
rc, msg = 0, 'no violation'
try:
    case.fn(c, **case.params)
except ctx.Infeasible as e:
    rc, msg = 2, 'infeasible: %s' % e
except ctx.Violation as e:
    rc, msg = 1, 'violated: %s %s' % (e.label, e.msg)
except Exception as e:
    rc, msg = 1, 'unexpected exception\n' + traceback.format_exc()
sys.stdout = so
print(msg)
print('inputs: %s' % {k: v for k, v in d['inputs'].items()})
sys.exit(rc)
