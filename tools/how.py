HOW = {
'C01': "A model with stepped parameters is built and walked to the end, interrupted and reset at every position; the visited values are compared with the closed formula as real terms, the visited index combinations with the reference odometer. End points in the rounding model.",
'C02': "The grid fit runs with an uninterpreted signal function; each cell is compared with an independent evaluation of the score at its step values, the best cell by solver comparison with all others. Profiles use an optimizer stub that returns any evaluated point no worse than the start.",
'C03': "Histories are vectors of solver-enumerated choices (operation, parameter, instance) with symbolic values; after every operation the library's lists are compared with a reference bookkeeping.",
'C04': "Values, range ends and unbounded values are symbolic; after every assignment by every route the value read back has to be the value set or an error has to leave it unchanged; mapping to unbounded values and back is decided in the exp domain.",
'C05': "The score of an arbitrary signal function over symbolic data is compared, as a term, with the sum of squares written out independently, after every history of changes.",
'C06': "Fits run with the minimizer replaced by its contract: it evaluates arbitrary (symbolic) points and returns any of them no worse than the start. The returned values, score and model state are compared with one another.",
'C07': "Bracketing, Brent, line search and Powell run on an uninterpreted function up to a number of evaluations; all sequences of function values are covered, the properties are assertions about evaluated points.",
'C08': "Snapshots are taken and restored with symbolic values for every assignment of states and every short history of changes in between.",
'C09': "Simulation runs with a normal source that yields fresh symbolic numbers; data after simulation are compared, as terms, with prediction + error * draw.",
'C10': "Normalization, moments and fractions of gridded densities (Fortran quadrature) are compared with the trapezoid sums written out over the symbolic densities.",
'C11': "The crossing search (Fortran) runs on symbolic ordinates; the expected crossings are those of the polygon, by enumeration of sign patterns in the solver. Critical levels: the root finder is replaced by 'some root of the function given'.",
'C12': "Interval lists are refined by intervals with symbolic ends; how these fall relative to existing intervals is forked by the solver; tiling and density are assertions on the resulting list.",
'C13': "Grids are built, evaluated and refined with symbolic ends and values; points, widths, values and quadratures are compared with formulas.",
'C14': "All orders of neighbouring values and all insertion sequences are explored symbolically; the recorded maxima are compared with the definition.",
'C15': "The Fortran recursion is run with a symbolic interval; the result is a rational function compared with the closed form (polynomial identity).",
'C16': "The truncated sum in Fortran is run with a symbolic rate; which term is largest and where each sum stops is forked; the result is compared with the full sum with the truncation bound.",
'C17': "The Poisson mixture in Fortran is run with a symbolic rate and compared with the closed form; exp factors cancel in the normal form.",
'C18': "Second differences and Richardson extrapolation (Fortran, callbacks into Python) are run on quadratics with symbolic coefficients: a polynomial identity; and on uninterpreted functions without extrapolation.",
'C19': "The search (Fortran) is run on uninterpreted functions with a bounded number of iterations and on symbolic quadratics.",
'C20': "Every rule is applied to a polynomial with symbolic coefficients: a linear identity in them; rectangles, locations and scales symbolic as well: polynomial identities.",
'C21': "The two Fortran algorithms (callbacks into Python) run on monomials with symbolic factors and on two-term polynomials whose coefficient decides, by forking, how regions are subdivided; the result has to be the exact integral on every path.",
"C22": "The generators are run with symbolic ends for each number of values; values are compared with formulas (logarithms in the exp domain).",
"C23": "The sum is run on logarithms of symbolic values; which of the sum and the new value is larger is forked; results are compared in the exp domain with sums written out.",
"C24": "The search is run on an uninterpreted function: every sequence of function values up to the number of tries is covered; and on straight lines with symbolic zero and slope.",
"C25": "The stores run on a model of the file system (names, inodes, atomic rename, truncating open) with symbolic contents; operations, file names and interruption points are solver-enumerated choices; counterexamples are replayed in a real scratch directory.",
"C26": "Saving and restoring run on the same model of the file system with symbolic generator states; counterexamples are replayed with numpy's generator in a scratch directory.",
"N01": "Not applicable.",
"N02": "Not applicable.",
}
