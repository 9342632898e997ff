"""Metadata of the properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os
PI = 'package/inference/'
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[PI + f for f in files], mechanism=[dict(name=n, where=PI + w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    d['_note'] = note
    P.append(d)


def na(d_id, reason):
    NA.append(dict(property=d_id, reason=reason))


prop('C01', 'Stepping visits every point of the parameter grid once, in order',
     'Advancing the stepped parameters of a model visits every combination of their step values exactly once, changing exactly one parameter by one step '
     'each time (zig-zag), then signals the end and returns to the first combination. The k-th of n step values is exactly the lower end '
     'for k=0, exactly the upper end for k=n-1, and evenly (or logarithmically evenly) spaced in between, whichever end is larger. '
     'Every number of steps from 2 up behaves this way, and the walk can be reset or interrupted anywhere.',
     ['inputs', 'histories'], 'all step ends, numbers of parameters and points, linear/log spacing, and interruption points within the bounds',
     'Existing tests walk one small grid with fixed numbers; whether all cells are visited for every shape, and whether the end points are exact for every pair of reals, is universally quantified.',
     ['pie/signalmodel.py', 'pie/inference_base.py', 'pie/realparam.py', 'pie/param.py'],
     [('odometer over the stepping parameters', 'pie/inference_base.py:next_step'), ('step value formula', 'pie/realparam.py:RealParamHandler.next_step')],
     'all assertions discharged by z3 for symbolic ends on every path; end points in a rounding-error model')
prop('C02', 'A grid fit fills every cell with the score (or optimum) at that point',
     'Fitting with stepped parameters returns a grid with one value for every combination of step values: the score there, or, if other parameters vary, '
     'the optimized score there together with the optimizing values on request. The reported axes, the best cell and its value agree with the grid contents. '
     'This holds wherever earlier stepping left the model, and repeating the fit repeats the result.',
     ['inputs', 'histories'], 'all signal functions, step ends, data and optimizer results within the bounds, and all earlier stepping positions',
     'Tests compare a few fitted grids with stored numbers for one signal model; a cell/score mismatch shows only for other shapes, positions or optimizer outcomes.',
     ['pie/inference_base.py', 'pie/containers.py', 'pie/realparam.py'],
     [('grid fit', 'pie/inference_base.py:do_grid'), ('grid containers', 'pie/containers.py')],
     'arbitrary signal function (uninterpreted), optimizer replaced by its contract in the profile cases')
prop('C03', 'Parameter bookkeeping stays consistent over every history of operations',
     'After any sequence of fixing, varying, stepping and assigning parameters, the lists of fixed, stepping and varying parameters agree with the state of each parameter, '
     'list each once, in the order in which they were given that state. A refused operation raises an error and changes nothing. '
     'Instances of the same class, and a class and its subclasses, never affect each other.',
     ['histories', 'inputs'], 'all histories of up to 3 (thorough: 5) operations, valid and refused, with symbolic values, on two live instances',
     'Tests perform one or two transitions per object; stale membership appears only after particular sequences.',
     ['pie/param.py', 'pie/realparam.py', 'pie/inference_base.py', 'pie/signalmodel.py', 'pie/autoname.py'],
     [('status changes notify listeners', 'pie/param.py:_set_status'), ('list maintenance', 'pie/inference_base.py:_on_param_status_change')],
     'histories are symbolic choices explored exhaustively up to the bound')
prop('C05', 'The score is the statistic of the current parameters and data',
     'For any signal function and data, the score is the sum over all data sets of ((value - prediction)/error)^2 (least squares), minus half of it (likelihood), '
     'plus the log prior (Bayesian). After any change of any parameter, by any route, the next score uses exactly the current values. '
     'Predictions, residuals and per-set statistics agree with that score.',
     ['inputs', 'histories'], 'all signal functions, parameter values, data, error bars, and sequences of parameter changes within the bounds',
     'Tests evaluate a couple of linear models at stored numbers and cannot show that no data item is skipped or stale for other sizes and change routes.',
     ['pie/gaussian.py', 'pie/predictor.py', 'pie/chisqr.py', 'pie/maxlike.py', 'pie/bayes.py', 'pie/signalmodel.py', 'pie/inference_base.py'],
     [('per-predictor statistic', 'pie/gaussian.py:SampledGaussian.chisqr'), ('sum over predictors', 'pie/chisqr.py')],
     'uninterpreted signal and prior functions; all values symbolic')
prop('C06', 'A fit returns the optimum it found and leaves the model there',
     'Fitting returns one value per varying parameter, inside its range, and the statistic of exactly those values; the statistic is no worse than at the start. '
     'The model is left at the returned values and fixed parameters are untouched. '
     'This holds with and without mapping of bounded parameters to unbounded ones, for any optimizer behaviour.',
     ['inputs', 'histories'], 'all signal functions, starts, ranges, scales and optimizer outcomes within the bounds',
     'Tests fit a fixed linear model, for which the last trial point is the optimum.',
     ['pie/inference_base.py', 'pie/realparam.py'],
     [('optimizer front end', 'pie/inference_base.py:optimize'), ('bound mapping', 'pie/realparam.py:_unbounded_set_value')],
     'the multivariate minimizer is replaced by its contract (arbitrary evaluated point no worse than the start); signal function uninterpreted')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_more.py')).read())

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda d: d['id'])
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps({k: v for k, v in d.items() if not k.startswith('_')}) + '\n')
    m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/selftest.py',
             checks=[dict(property=d['id'], quick_cmd='/opt/venv/bin/python run.py %s --tier quick' % d['id'],
                          thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % d['id'],
                          technique='solver-based: bounded symbolic execution of the current source, assertions decided by z3, counterexamples replayed on the real code',
                          level='other', level_note='Bounded: every value within the stated bounds, decided by the solver. ' + d['_note'])
                     for d in P if d['id'] not in {x['property'] for x in NA}],
             not_applicable=NA)
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(m['checks']), 'checks')
