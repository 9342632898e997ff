prop('C04', 'Parameter ranges are enforced, and bounds map one-to-one onto the real line',
     'Once a parameter has a range, a value inside it (ends included) is accepted by every route and a value outside is refused with an error, leaving the parameter unchanged; '
     'the range may be given in any accepted form. The mapping of a bounded parameter to an unbounded one is strictly increasing, maps every real number into the range, '
     'round-trips, and is finite for every value in the range. Stepping without given ends covers the range.',
     ['inputs', 'histories'], 'all ranges, values and unbounded values within the bounds, every route of assignment, short histories',
     'Tests try two or three values against one range; violations appear at boundaries, at extreme unbounded values, or by a particular route.',
     ['pie/realparam.py', 'pie/param.py'],
     [('range check', 'pie/realparam.py:RealParamHandler.set_value'), ('mapping to the unbounded line', 'pie/realparam.py:_unbounded_set_value')],
     'logit mapping handled through logarithm/exponential terms with sound facts; extremes of the mapping at concrete huge values')
prop('C07', 'Minimizers never return a point worse than one they evaluated',
     'For any function: bracketing returns three points with the middle one between the others and no higher than both; one-dimensional minimization returns a point it evaluated, '
     'its value, no higher than any evaluated one and, when it ends normally, bracketed to the requested tolerance; line minimization moves along the given line only and never ends higher than it began; '
     'the multidimensional (Powell) minimizer returns a point, its value and an iteration count, never higher than the start, leaves its input alone, and raises an error when it exceeds the allowed iterations.',
     ['inputs'], 'all functions (uninterpreted), start points, directions and tolerances within the bounds',
     'Tests minimize one or two smooth functions; a wrong bracket update or lost best point shows only for particular value orderings.',
     ['utils/nrmin.py'],
     [('bracketing', 'utils/nrmin.py:MinBracket'), ('Brent', 'utils/nrmin.py:brent'), ('line search', 'utils/nrmin.py:linmin'), ('Powell', 'utils/nrmin.py:powell')],
     'number of function evaluations bounded; line searches inside Powell replaced by the contract checked for them')
prop('C08', 'Snapshots of parameter values are faithful and independent',
     'A snapshot of the parameter values holds the current value of every parameter, is not affected by later changes, and restoring it (into the same model or another of the class) '
     'gives every parameter its recorded value and leaves which parameters are fixed or varying as it was. If a parameter is stepping, restoring is refused and changes nothing.',
     ['inputs', 'histories'], 'all parameter values, statuses and intervening changes within the bounds',
     'Tests do not store and restore across status changes and instances.',
     ['pie/inference_base.py', 'pie/containers.py', 'pie/realparam.py'],
     [('snapshot object', 'pie/containers.py:ParamValues'), ('restore', 'pie/inference_base.py:set_params')],
     'exhaustive over statuses and changes within the bound')
prop('C09', 'Data are used as given, and simulation draws prediction plus noise in isolation',
     'However the data are given (three arrays, one table, a list of tuples, integers, scalar or vector locations), the predictor uses exactly those locations, values and errors. '
     'Simulating data gives, for each datum, the current prediction at its location plus its error times one normal draw, with the requested locations, errors and number of data; '
     'the statistic then uses the simulated data, repeated simulation restarts from the definition, and the original data and other instances are untouched.',
     ['inputs', 'histories'], 'all data, signal functions, normal draws and short histories of simulations within the bounds',
     'Tests simulate at most once, with float arrays of one shape; leaks between instances or truncation need other forms and sequences.',
     ['pie/gaussian.py', 'pie/predictor.py', 'pie/inference_base.py'],
     [('data input', 'pie/gaussian.py:SampledGaussian'), ('simulation', 'pie/gaussian.py:sim')],
     'the normal generator is an arbitrary source of symbolic draws')
prop('C10', 'Gridded densities: normalization is the integral, and fractions are true masses',
     'For a log density on a linear or logarithmic grid in one or two dimensions (given as an array or as a function), the log normalization is the log of the trapezoid-rule integral of the density '
     '(of x p(x) over log x for logarithmic axes), and the fraction above a level is the mass of the linearly interpolated density where it exceeds the level, divided by the total: 1 below all values, 0 at the maximum, '
     'in between never increasing with the level. Equal and flat values are no exception.',
     ['inputs'], 'all densities, levels and range ends within the bounds',
     'No test covers these classes with ties, flat parts or logarithmic axes; the mistakes are in branches that depend on the order of neighbouring values and the level.',
     ['grid/hpd.py', 'grid/hpdgrid.py', 'grid/_gridquad.f'],
     [('piecewise-linear mass', 'grid/_gridquad.f:qgt1d, qgt2d'), ('normalization', 'grid/hpd.py:HPD1D.__init__')],
     'Fortran quadrature executed symbolically from the compiler dump of the current source')
prop('C12', 'Refined intervals tile the base interval and only ever get denser',
     'After any sequence of refinements, the list of sampled intervals covers the base interval exactly, in order, without gaps or overlaps, every interval sampled at least as densely as the base and as before the refinement, '
     'and the refined region about as densely as requested (within the widening to existing grid points). The point count is the number of distinct grid points, every point number and every value is located in its interval, '
     'and refinements or values outside the base interval are refused. Linear and logarithmic, increasing and reversed lists behave alike.',
     ['inputs', 'histories'], 'all refinement intervals (ends anywhere in or around the base) and sequences of them within the bounds, and all values to locate',
     'No test refines a list; the insertion logic branches on how the new ends fall relative to every existing interval, which sampling rarely covers.',
     ['grid/grid1d.py'],
     [('insertion of an interval', 'grid/grid1d.py:RefinedIntervalList1D.update'), ('location', 'grid/grid1d.py:RefinedIntervalList1D.locate, nlocate')],
     'interval ends symbolic; logarithmic lists are decided in terms of the logarithms of the ends')
prop('C11', 'Credible regions hold the requested probability, bounded by level crossings',
     'The critical level of a gridded density for a probability (or a number of sigmas) is such that the fraction of the density above it is that probability, and it is recorded with the probability, relative and absolute level. '
     'In one dimension the boundaries are exactly the abscissas, in order, where the interpolated log density crosses the level (x p(x) for logarithmic grids), including crossings at grid points, as many as there are; more than 10 are refused with an error. '
     'Nearly flat densities are no exception, and later regions do not alter earlier ones.',
     ['inputs'], 'all densities, levels, grid abscissas and scales within the bounds',
     'No test computes a region; missing or spurious boundaries depend on the order of neighbouring values relative to the level, including ties.',
     ['grid/hpd.py', 'grid/hpdgrid.py', 'grid/_gridquad.f', 'utils/numutils.py'],
     [('critical level', 'grid/hpd.py:HPD1D.critlevel'), ('crossings', 'grid/_gridquad.f:xvalues')],
     'root finder replaced by its contract (some root of the function it is given), or by an arbitrary level for the boundaries')
prop('C13', 'Grid points, function values and quadrature agree with the grid, refined or not',
     'A grid of n points has the points of an even linear (or logarithmic) division of its range, ends included, with the function values at those points, whether evaluated point by point or as a vector, as numbers or tuples, '
     'and the widths to the next point. Trapezoid and log-trapezoid quadratures (with first and second moments) are those of the points and values. A sub-grid between two grid points has their points and values. '
     'After refinement, points increase from end to end, each with the function value there, and point number, iteration, count and quadrature agree. Misuse (points out of range, quadrature before values, missing selection) is refused with an error.',
     ['inputs'], 'all range ends, function values and peak fits within the bounds',
     'No test covers the grid classes; off-by-one, lost or doubled points and wrong selections depend on grid size, scale, the position of the peak and the kind of values.',
     ['grid/grid1d.py'],
     [('values', 'grid/grid1d.py:BasicGrid1D.stepfunc, vecfunc'), ('quadrature', 'grid/grid1d.py:BasicGrid1D.trapzd, logtrapzd'), ('refinement', 'grid/grid1d.py:Grid1D.refine')],
     'position of the fitted peak symbolic for linear grids, enumerated for logarithmic ones')
prop('C14', 'Local maxima of a gridded function are all found, and the largest kept',
     'Evaluating a function on a grid records exactly its local maxima (also at the ends of the grid), each with its location and the parameters of the Gaussian through the three neighbouring points, ranked by the chosen measure. '
     'The list of maxima holds the largest values offered so far in decreasing order, at most the given number of them and within the dynamic range, each with its own label; limiting the range and deleting keep order and labels.',
     ['inputs', 'histories'], 'all function values on the grid and all sequences of offered maxima within the bounds',
     'No test covers peak finding; a lost or extra maximum depends on the order of neighbouring values, and a mislabelled one on the sequence of insertions.',
     ['grid/grid1d.py'],
     [('list of the largest', 'grid/grid1d.py:LabeledMaxList'), ('peaks', 'grid/grid1d.py:IsPeak, BasicGrid1D.stepfunc, vecfunc'), ('fit', 'grid/grid1d.py:PeakParams')],
     'histories of up to five insertions; grids of up to six points')
prop('C15', 'Signal-count probabilities are the normalized ones implied by the data',
     'For on-source and off-source counts and intervals, the probability that i of the on-source counts are from the signal is proportional to (1+T_off/T_on)^i (N_on+N_off-i)!/(N_on-i)! for i = 0..N_on, '
     'and the probabilities sum to 1. Asking for one number gives the same as the array at that number, the array is the caller\'s own, and numbers outside 0..N_on are refused.',
     ['inputs', 'histories'], 'all intervals (and counts) within the bounds, in any order of requests',
     'No test covers the counting class; errors depend on counts (zero) and on whether the most probable number is inside the range or at its ends.',
     ['count/onoff.py', 'count/_cbmlike.f'],
     [('probabilities', 'count/_cbmlike.f:sigctp'), ('interface', 'count/onoff.py:OnOff.pnsig')],
     'counts enumerated, one interval symbolic at a time')
prop('C16', 'The signal likelihood is the background-marginalized Poisson likelihood',
     'The log marginal likelihood of a signal rate is, up to a constant of the data, the log of exp(-s T_on) sum_k (N_on+N_off-k)!/((N_on-k)! k!) (s (T_on+T_off))^k, exactly for a zero cutoff; '
     'with a cutoff, terms below that fraction of the largest may be left out and nothing else. A zero rate is no exception. An array of rates (of any number type) gives the values of the single rates; under- or overflow and two-dimensional arrays are refused with an error.',
     ['inputs'], 'all signal rates within the bounds, for counts, intervals and cutoffs within the bounds',
     'No test covers it; the largest term and the two truncated sums around it depend on the data and the rate.',
     ['count/onoff.py', 'count/_cbmlike.f'],
     [('likelihood', 'count/_cbmlike.f:slmlike, slml_offset'), ('interface', 'count/onoff.py:OnOff.siglml')],
     'counts, intervals and cutoffs enumerated, rates symbolic')
prop('C17', 'The signal posterior density is the count-weighted mixture of Gamma densities',
     'The marginal posterior density of a signal rate is sum_i C_i T_on (s T_on)^i exp(-s T_on)/i! with the signal-count probabilities C_i, for numbers and arrays of rates of any number type, a zero rate included, '
     'whatever was asked of the object before or done to earlier results.',
     ['inputs', 'histories'], 'all signal rates and on-source intervals within the bounds, for counts within the bounds',
     'No test covers it; the Poisson terms have separate branches for zero, small and large counts with cached factorials.',
     ['count/onoff.py', 'count/_cbmlike.f'],
     [('density', 'count/_cbmlike.f:psigc, ppois'), ('interface', 'count/onoff.py:OnOff.sigmp')],
     'counts enumerated, rates symbolic')
prop('C18', 'The observed information matrix is the negative Hessian at the mode',
     'For a log likelihood that is quadratic in any number of parameters, with any correlations and any step sizes, the observed information matrix is exactly the negative Hessian, symmetric, with zero error estimate, '
     'with and without extrapolation; without extrapolation it is the matrix of plain second differences for any function. For a Bayesian inference it is that of log likelihood plus log prior in the varying parameters. '
     'Arguments are not altered, the inference is left at the mode, and repeated calls agree.',
     ['inputs', 'histories'], 'all curvatures, correlations, locations, peak values and step sizes within the bounds; all functions without extrapolation',
     'No test covers it; index errors in mixed derivatives and a drifting base point show only for correlated parameters or repeated calls.',
     ['deriv/obsinfo.py', 'deriv/_obsinfo.f', 'pie/bayes.py'],
     [('second differences and extrapolation', 'deriv/_obsinfo.f'), ('interface', 'deriv/obsinfo.py:obsinfo'), ('of an inference', 'pie/bayes.py:BayesianInference.obs_info')],
     'Fortran executed symbolically from the compiler dump of the current source')
prop('C19', 'Parameter steps give the requested change in log likelihood',
     'The step found for each parameter changes the log likelihood from its maximum by the requested amount, within the tolerance, for any function for which the search converges; for quadratic log likelihoods the step is exact for any first guess. '
     'A function value above the given maximum, no convergence within the given number of iterations, and a parameter that does not affect the likelihood are refused with an error. Arguments are not altered.',
     ['inputs'], 'all function values, curvatures, correlations and guesses within the bounds',
     'No test covers it; convergence and refusal depend on the sequence of function values.',
     ['deriv/obsinfo.py', 'deriv/_obsinfo.f'],
     [('search', 'deriv/_obsinfo.f:dllsteps'), ('interface', 'deriv/obsinfo.py:dllsteps')],
     'arbitrary function values within the bounds; Fortran executed symbolically from the compiler dump of the current source')
prop('C20', 'Cubature rules in the plane are exact for polynomials of their degree',
     'Every rule for the plane (weight exp(-r^2)), the square and the rectangle integrates every polynomial of the degree in its name exactly, with the number of points in its name; square and rectangle rules evaluate inside the region, whichever way round the ends are given. '
     'The normal-weight integrator gives the expectation of every such polynomial under the normal distribution of the given location and scales. Making integrators does not alter the rules or other integrators; wrong lengths and unknown rules are refused.',
     ['inputs', 'histories'], 'all polynomials (symbolic coefficients) of the degree of each rule, and all locations, scales and rectangles within the bounds',
     'The existing test prints the first two moments for each rule; a wrong node or weight shows only in higher moments.',
     ['integrate/cub2d.py', 'integrate/_cub2d_auto.py'],
     [('rules', 'integrate/_cub2d_auto.py:rule_dict'), ('normal weight', 'integrate/cub2d.py:NormWtCub2D'), ('rectangles', 'integrate/cub2d.py:rect3d4pt, rect7d12pt')],
     'identities in the symbolic coefficients, to the precision of the tabulated numbers')
prop('C21', 'Adaptive cubature is exact for its polynomials, or meets the accuracy, or raises',
     'Adaptive integration over a hyper-rectangle, of one function or of several at once, is exact for polynomials of the degree of the underlying rule, subdivided or not, in every dimension; otherwise it returns a result with an error estimate within the requested accuracy, '
     'the number of evaluations used (within the given limits), all inside the region, each function having its own result; reversed limits change the sign (vector form). If the accuracy cannot be met within the allowed number of points or working space it raises an error, and allowing more (maxfac, wrkfac, maxpts) has effect; '
     'illegal dimensions, rules and limits are refused with an error. Arguments are not altered.',
     ['inputs'], 'all factors, coefficients and rectangle ends within the bounds, for every monomial of the degree',
     'Tests do not cover the vector form (which failed with any argument) and integrate single functions with default limits.',
     ['integrate/adapt.py', 'integrate/adapt_vec.py', 'integrate/adapt_py.f', 'integrate/dcuhre_py.f'],
     [('interface', 'integrate/adapt.py:adapt'), ('vector interface', 'integrate/adapt_vec.py:adapt_vec'), ('algorithms', 'integrate/adapt_py.f, integrate/dadhre.f, integrate/drlhre.f')],
     'Fortran executed symbolically from the compiler dump of the current source')
prop('C22', 'Steppers give the requested number of evenly spaced values between the ends',
     'Linear and logarithmic steppers give exactly the requested number of values, starting and ending exactly at the given ends (in either order) and evenly spaced (in the value or its logarithm) in between; the enumerated forms number them from 0. Steppers used in turn do not affect each other.',
     ['inputs', 'histories'], 'all ends within the bounds, for each number of values',
     'No test covers the steppers; grids of parameters rely on the last point being the end.',
     ['utils/numutils.py'],
     [('steppers', 'utils/numutils.py:lin_stepper, log_stepper, lin_enum_stepper, log_enum_stepper')],
     'generators executed symbolically')
prop('C23', 'Running sums kept as logarithms are the sums',
     'A running sum of values given by their logarithms reports the number of values, the logarithm of their sum, of their mean, and (if requested) of the sum of squares and of the standard deviation, in any order of values, for values of very different or extreme size and with zeros in between. '
     'A sum continued from an earlier one is the sum of both; sums are independent of each other, reporting does not alter them; an empty sum (or one of zeros only) is refused with an error.',
     ['inputs', 'histories'], 'all values, orders and placements of zeros within the bounds',
     'No test covers it; each order of sizes has its own branch.',
     ['utils/numutils.py'],
     [('running sum', 'utils/numutils.py:LogSummer')],
     'logarithms of symbolic values handled in the exp domain')
prop('C24', 'Zero bracketing returns a sign change around the initial interval or raises',
     'Bracketing a zero returns an interval that contains the initial one (in the same order of ends) and at whose ends the function has opposite signs, or raises an error after having tried as often as allowed; the zero of any straight line is bracketed. Given function values and extra arguments are used; an empty initial interval is refused.',
     ['inputs'], 'all sequences of function values, initial intervals and straight lines within the bounds',
     'No test covers it; the sequence of expansions depends on the function values.',
     ['utils/numutils.py'],
     [('bracketing', 'utils/numutils.py:zbracket')],
     'arbitrary function values within the bounds')
prop('C25', 'Stored attributes are read back, and saving keeps the earlier versions',
     'Attributes assigned to an array store or attribute store and saved are read back unchanged by a store opened on that file, named with or without its suffix. Saving an opened store keeps every attribute of the file, whether it was read or not, with reassigned ones replaced and new ones added; contents lists the name of every accessible attribute once. '
     'Every save and every opening for writing keeps the previous version of the file under the name with % and the one before with %%; if it is interrupted at any point, neither of the two is lost. '
     'Unknown attributes, non-arrays in an array store, missing files and saving without a name are refused with an error and change nothing. Opening passes all options to a given opener. Columns of a text file are read as vectors by the given conversions.',
     ['inputs', 'histories', 'crash_points'], 'all contents, histories of assigning, reading, saving and reopening, and interruption points within the bounds',
     'No test covers the stores; what is lost shows only for attributes not read, for repeated saves or for an interruption between renames.',
     ['utils/ioutils.py'],
     [('backups', 'utils/ioutils.py:backup, safe_open'), ('array store', 'utils/ioutils.py:ArrayStore'), ('attribute store', 'utils/ioutils.py:AttrStore')],
     'file system model with interruption points; real files in the replay')
prop('C26', 'The saved state of the random number generator is restored exactly',
     'After saving the generator state and restoring it, whatever happened to the generator in between, the generator is in exactly the saved state, including a pending normal deviate. Saving does not alter the generator and keeps the two earlier saved states (.1 and .2), also when interrupted at any point; '
     'restoring without a file keeps the present state and saves it; files and generators of another kind are refused with an error and change nothing.',
     ['inputs', 'histories', 'crash_points'], 'all generator states, sequences of saves and interruption points within the bounds',
     'No test covers it (saving failed on Python 3); a lost pending deviate shows only after an odd number of normal draws.',
     ['utils/rng.py'],
     [('saving', 'utils/rng.py:save_rng'), ('restoring', 'utils/rng.py:restore_rng')],
     'file system model with interruption points; real files and numpy generator in the replay')
prop('N01', 'Samples from a discrete population follow the weights',
     'Sampling with replacement draws each member with probability proportional to its weight (to 30 bits), sampling without replacement returns distinct members with inclusion probabilities proportional to the weights; '
     'piecewise-linear densities are sampled by the inverse of their cumulative distribution. The state of the generator is shared with numpy.',
     ['inputs', 'histories'], 'all weights and generator states', 'No test covers it.',
     ['mc/population.py', 'mc/pwlinear.py', 'mc/compact5table.c', 'mc/sampford.c'],
     [('tables', 'mc/compact5table.c:Dran'), ('Sampford sampling', 'mc/sampford.c:sampford_pps'), ('densities', 'mc/pwlinear.py:PWLinear')], '')
na('N01', 'inference.mc cannot be imported: its extension module (_ppssampler.c, Python 2 C interface) is not part of the build and does not exist for Python 3, so there is no running code to encode together with its environment or to replay a counterexample on.')
prop('N02', 'Amplitudes are marginalized analytically for linear models',
     'For a model linear in some amplitudes, the quadratic form, the sufficient statistic, the Jacobian, the best-fit amplitudes and the residuals are those of the weighted least squares problem for the given nonlinear parameters.',
     ['inputs', 'histories'], 'all data, basis functions and nonlinear parameters', 'No test covers it.',
     ['gauss/vecba.py', 'gauss/vbamodule.c'],
     [('marginal statistics', 'gauss/vecba.py:BA.marg_stats'), ('metric', 'gauss/vbamodule.c:metricAnalysis')], '')
na('N02', 'the computation is in vbamodule.c, which is not part of the build (Python 2 C interface); vecba.py replaces it by a placeholder object, so every call fails and there is no behaviour to decide.')
