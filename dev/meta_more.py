from meta import *

prop('C12', 'A capture zone is npaths evenly spaced traces, rasterised, registered once',
     """A capture zone starts npaths traces at angles 2 pi k/npaths, k = 0..npaths-1, one metre outside the target radius,
     each with the run's duration, tolerance, maximum step and velocity function.  Every vertex of every trace is
     rasterised on the given field with the umbra, and after the last trace the field is registered exactly once with
     the given weight; nothing else touches the field.""",
     'inputs', 'all targets, radii, numbers of paths, durations, weights and velocity functions',
     'No test computes a capture zone; an angle lost at the end of the range or a second registration changes results only slightly.',
     CZ, [('seeding and registration', 'oneka/capturezone.py: compute_capturezone')],
     note='compute_backtrace, rasterize and register are used through their own properties.')
prop('C13', 'Each step is a fifth-order Runge-Kutta step with embedded error estimate',
     """Each trial step of a trace combines velocity evaluations so that all seventeen order conditions up to order five
     hold, uses the slope at the current point as its first stage, and compares against an embedded formula of order
     four: the error estimate is the step times slope weights that satisfy the homogeneous order conditions up to order
     four and not all of order five.  This holds forward, backward and for the last shortened step.""",
     'inputs', 'all velocity fields, points, steps and directions',
     'No test traces a path; a wrong digit in one tableau constant still produces plausible paths.',
     CZ, [('Dormand-Prince step', 'oneka/capturezone.py: compute_backtrace')],
     note='The tableau is read from the symbolic step and checked against the rooted-tree order conditions, not against a stored table.')
prop('C14', 'Tracing runs from time zero to exactly the duration under step control',
     """A trace starts at the given point at time zero and ends normally exactly when the signed duration is reached, the
     last step being shortened to what is left.  A step is accepted exactly when its error estimate (largest component)
     is below tol and its length below maxstep; then time, point, slope and path advance together, otherwise none does.
     The next trial step is 0.9 min((tol/error)^(1/5), maxstep/length, 10) times the current one, up to rounding guards.""",
     'inputs histories', 'all durations of either sign, tolerances, step limits and sequences of accepted and rejected steps',
     'No test traces a path; a rejected step that leaks state shows only for particular velocity fields.',
     CZ, [('step control', 'oneka/capturezone.py: compute_backtrace')],
     state=[('trace state', 'time, trial step, current point, carried slope, vertices', 'oneka/capturezone.py: compute_backtrace')])
prop('C30', 'Shipped data sets are complete valid runs and the driver records them',
     """Every shipped data module defines every setting the driver passes on, each inside the documented domain, with
     seven or more observations left after filtering and all their levels above the aquifer base.  The driver loads the
     module asked for, runs it once with each setting under its own parameter, and has the INFO messages of the Oneka logger
     written to a log file attached before the run.""",
     'inputs', 'all shipped data sets; all data modules a user may write', 'No test runs the driver or a shipped data set.',
     'data/barnesville.py data/basic.py data/basic_deterministic.py data/carlos.py data/long_prairie.py data/paynesville.py data/perham.py runme.py',
     [('driver', 'runme.py: main'), ('data sets', 'data/*.py')], observe=['arguments of oneka()', 'logging configuration'])
prop('C31', 'A failing or non-finite velocity ends only its own trace, with one warning',
     """When evaluating the velocity raises an ordinary error, at the start or at any stage of any step, or returns a value that is not
     finite, the trace ends there: the vertices accepted so far are returned, exactly one warning is logged, a time it names is the time
     reached, and nothing escapes.  A trace that runs to its duration logs no warning, and interrupts (KeyboardInterrupt, SystemExit) are not swallowed.""",
     'inputs fault_sequences', 'all velocity fields and all points of failure',
     'The failure must occur at a particular stage of a particular step; no test drives one.',
     CZ, [('failure containment', 'oneka/capturezone.py: compute_backtrace')])



prop('C15', 'Every capture zone is traced with minus its own model velocity',
     """In both drivers the velocity function handed to the capture-zone computation returns, at every point, minus the
     seepage velocity of the model that was fitted for that very realization: the confined formula if and only if the run
     says confined.  The aquifer error of a dry point reaches the tracer instead of a number.""",
     'inputs', 'all models, points, realizations and both settings of the confined switch',
     'No test runs a driver; a lost minus sign or a model of an earlier realization gives plausible maps.',
     ST + ' ' + DE, [('velocity closure', 'oneka/stochastic.py, oneka/deterministic.py: feval')])
prop('C16', 'The deterministic run uses the mean of every distribution and the estimate',
     """A deterministic capture zone uses conductivity, porosity, thickness and every well discharge at the mean of its
     distribution, and the six coefficients at the least-squares estimate.  Nothing random enters, exactly one capture
     zone with positive weight is computed at the target well, and a failed fit fails the run.""",
     'inputs', 'all distributions, well lists, observations and targets', 'No test runs the deterministic driver.',
     DE, [('deterministic driver', 'oneka/deterministic.py: create_deterministic_capturezone')])
prop('C17', 'Exactly nrealizations independent equally weighted realizations',
     """A stochastic run contributes exactly nrealizations capture zones of equal positive weight.  Each draws its own
     conductivity, porosity, thickness, well discharges and coefficients: fresh draws per realization, per parameter
     and per well, the coefficients multivariate normal with the estimate and covariance fitted for that realization.
     The generator is not reseeded and a failed fit fails the run.""",
     'inputs histories', 'all numbers of realizations, distributions, wells and observations',
     'Reused or shared draws leave every single realization valid and change only the joint distribution.',
     ST, [('stochastic driver', 'oneka/stochastic.py: create_stochastic_capturezone')],
     note='Independence is decided as: no generator call is shared between two realizations, parameters or wells.')
prop('C18', 'Validator, sampler and mean agree on every distribution descriptor',
     """A descriptor is valid exactly when it is a number, a pair or a triple in non-decreasing order within the bounds.
     A number is constant, a pair samples uniformly between its ends, a triple triangularly as (min, mode, max), and the
     mean reported is that distribution's mean.  Anything else is rejected with the distribution error.""",
     'inputs', 'all scalars, tuples and lists of any length and content, and all bounds',
     'Tests sample a few descriptors; swapped triangular arguments are visible only statistically.',
     ST + ' ' + DE, [('descriptors', 'oneka/stochastic.py: isdistribution, generate_random_variate'),
                     ('means', 'oneka/deterministic.py: compute_variate_mean')],
     note='The statistical law of numpy.random is taken as documented.')
prop('C19', 'Exactly the observations beyond the buffer of every well are kept',
     """An observation is dropped if and only if its distance to some well is at most the buffer; all others enter the
     merging stage unchanged and in their original order.""",
     'inputs', 'all observation and well lists of any length and all buffers', 'No test filters observations.',
     UT, [('buffer filter', 'oneka/utilities.py: filter_obs')])
prop('C20', 'Near-duplicate observations merge into their inverse-variance mean',
     """Working through the retained observations in order, the first and all remaining ones less than one metre from it
     are replaced by one observation at the first's position with the inverse-variance weighted mean level and the
     standard deviation of that mean.  A lone observation stays unchanged, none is lost or used twice.""",
     'inputs histories', 'all observation lists of any length', 'No test filters observations.',
     UT, [('merging', 'oneka/utilities.py: filter_obs')])

prop('C21', 'Exactly the documented argument domain is accepted, before any effect',
     """Every call of oneka() whose arguments are outside the documented domain (types, signs, list lengths, well and
     observation tuples, distribution descriptors, non-zero duration) is refused with an AssertionError before anything
     is logged, computed, drawn or written; every call inside it passes validation.  A run with fewer than seven
     retained observations is refused before any computation.""",
     'inputs', 'all argument values, well and observation lists of any length',
     'No test calls oneka(); the domain is a conjunction over unbounded lists.',
     ON, [('validation', 'oneka/oneka.py: oneka')],
     note='nrealizations is used as given (its domain is not validated by the program) and is not part of the claim; isdistribution is claimed in C18.')
prop('C22', 'Every stage of a run receives the parameter the user gave for it',
     """The driver script passes every setting of the data module to oneka() under its own name; oneka() passes every one
     of them unchanged to the filter, to the stochastic computation (more than one realization) or the deterministic one
     (otherwise), to the plots and to the archive, computes with the retained observations, calls each stage exactly once,
     and draws, archives and returns the field that was computed, and shows the plots once they are drawn.  Omitted optional arguments have their documented defaults.""",
     'inputs', 'all argument values and both kinds of run',
     'No test calls oneka() or the driver; swapped neighbours in a nineteen-argument call still run.',
     ON + ' runme.py', [('orchestration', 'oneka/oneka.py: oneka'), ('driver', 'runme.py: main')])
prop('C23', 'The archive holds the whole run, survives it, and loads back unchanged',
     """Every run is archived before the plot windows block the program.  The archived dictionary holds every input of the
     run under its own name and the computed field; it is written completely (file closed) to a file whose name tells
     the time of the run to the second, so that a later run does not overwrite it, and loading the
     file named reads it back with the same codec and returns what was stored, with nothing taken out or replaced.""",
     'inputs crash_points', 'all argument values and fields', 'No test writes or reads an archive.',
     AR + ' ' + ON, [('archive', 'oneka/archive.py: dump_oneka, load_oneka'), ('call', 'oneka/oneka.py: oneka')],
     note='pickle and bz2 are taken to round-trip what they are given.')
prop('C24', 'Reported probabilities and areas are those of the computed field',
     """The probability map shows, at every node, its registered weight over the total weight, Gaussian-smoothed only when
     asked, with a colour scale covering 0 to 1.  The deterministic area is the number of captured cells times the cell
     area.  The impact curve lists the captured fractions in descending order, each with the area of the nodes up to it,
     and its plot shows points of that curve in acres.  Every plot has a figure of its own.  A field without weight is refused with CaptureZoneError.""",
     'inputs', 'all fields, weights, spacings and smoothing bandwidths', 'No test draws or evaluates a plot.',
     VI, [('maps and curves', 'oneka/visualize.py: create_probability_plot, create_deterministic_plot, create_impact_plot')],
     observe=['arguments of the plotting calls', 'returned area and impact curve'])
prop('C25', 'Maps show every value, cell and marker at its own map position',
     """In every map node (i, j) is drawn at x = xmin + j deltax, y = ymin + i deltay with its own value; exactly the
     captured cells are filled, each as the rectangle around its node; all wells, all observations and the target
     well are marked at their coordinates.  Head and potential maps evaluate the model at the point where the value is
     drawn and leave dry points blank instead of failing.""",
     'inputs', 'all fields, models, boxes, well and observation lists', 'No test inspects a plot; transposed maps of square fields look plausible.',
     VI, [('maps', 'oneka/visualize.py: create_probability_plot, create_deterministic_plot, contour_head, contour_potential')],
     observe=['arguments of the plotting calls'])
prop('C26', 'Calls change only what they are for',
     """Calls leave their caller's arguments (observations, wells, distributions, paths, matrices, names) as they were.
     Queries leave the model asked and the field drawn as they were, and answer for its current coefficients and
     origin whatever was asked before.  Separately built models and fields share no changeable data, nor with the
     coefficient array they were built from, and the two grids of a field are separate.  No call
     changes module-level, class-level or default values, nor leaves a process-wide setting of a library changed (random
     state, floating-point error modes, plotting defaults, warning filters, working directory).""",
     'inputs histories', 'all arguments and all earlier calls', 'Aliasing and stale caches only show in later calls.',
     MO + ' ' + PF + ' ' + ST + ' ' + UT + ' ' + ON + ' ' + VI, [('state', 'oneka/model.py: Model'), ('fields', 'oneka/probabilityfield.py: ProbabilityField'), ('arguments', 'all public functions')])
prop('C27', 'The run log states what the run used and found',
     """Everything is logged under the Oneka logger.  The log states every run parameter under its own label and the kind of
     run, lists every well and observation, states for every realization the parameters its traces used (for a
     stochastic one also the fitted and the drawn coefficients; recharge is minus two times A plus B), and ends with the area
     table at the 5 % to 95 % exceedance probabilities, or the deterministic area, in square metres and acres.
     Each value logged is the value the run has, and no text shows an unfilled placeholder.""",
     'inputs histories', 'all runs of either kind', 'No test looks at the log.',
     ON + ' ' + ST + ' ' + DE + ' ' + PF + ' ' + UT + ' ' + CZ, [('run log', 'oneka/oneka.py: log_the_run, oneka'), ('realization log', 'oneka/stochastic.py, oneka/deterministic.py')],
     observe=['log records'])

prop('C28', 'Every path refers to what exists',
     """On every path, rare and error paths included, each name, imported module, module, class or instance attribute
     and exception class referred to exists, every call of a function of the package or a library fits
     its parameters, and every text formatted has a value for each of its fields.""",
     'inputs histories', 'all statements of the package, the driver and the shipped data', 'Error and edge branches are rarely run by any test.',
     MO + ' ' + PF + ' ' + CZ + ' ' + ST + ' ' + DE + ' ' + ON + ' ' + UT + ' ' + VI + ' ' + AR + ' runme.py', [('references', 'all functions')],
     note="""Types are inferred from constructors, self, annotations, documented parameter classes and call sites; a receiver that
     cannot be typed is not judged.  Library names are looked up in the installed libraries.""")
prop('C29', 'The summary table describes the retained observations',
     """The table lists, per variable in the order of the given names, the count, minimum, median, maximum, mean and
     standard deviation of the variable's non-missing entries, each under its own heading.  A run summarises the
     observations it retained as Easting, Northing, Head and Stdev, and logs that table.""",
     'inputs', 'all tables of any length and all runs', 'No test prints a table; a swapped column or heading still prints.',
     UT + ' ' + ON, [('table', 'oneka/utilities.py: summary_statistics'), ('call', 'oneka/oneka.py: oneka')],
     observe=['written text', 'log records'])

prop('C35', 'The filter log tells what became of every observation',
     """While filtering, the log reports an observation as removed if and only if some well is within the buffer distance, and
     a well it names is such a well; the row reported for merged observations is the one retained; and the log states the
     number of active observations and lists exactly those returned, in order, numbered from 0.""",
     'inputs', 'all observation and well lists of any length and all buffers', 'No test filters observations or looks at the log.',
     UT, [('filter log', 'oneka/utilities.py: filter_obs')], observe=['log records'])

prop('C32', 'Traces converge to the true flow lines and always end',
     """For every admissible velocity field the computed path stays within the requested tolerance of the true flow line
     and tracing ends after finitely many steps.""",
     'inputs', 'all velocity fields, tolerances and durations', 'Global error and termination depend on the velocity field.',
     CZ, [('integrator', 'oneka/capturezone.py: compute_backtrace')],
     na="""Global truncation error and the number of steps depend on bounds of the velocity field's derivatives, a runtime
     quantity no static argument over this source can bound; the local rules that make it so (tableau order, acceptance,
     step control) are claimed as C13 and C14.""")
prop('C33', 'Reported probabilities converge to the true capture probabilities',
     """As the number of realizations grows the reported probability of each node converges to the probability under the
     stated distributions.""", 'inputs', 'all distributions and seeds', 'Statistical convergence.',
     ST, [('Monte Carlo', 'oneka/stochastic.py')],
     na="""A statement about the law of the random generator's output, not about the program text; what the program must do
     for it (fresh independent draws, correct parameters, equal weights) is claimed as C17 and C18.""")
prop('C34', 'Fit stays accurate for badly scaled observations',
     """The fitted coefficients keep a bounded relative error for any observation geometry.""",
     'inputs', 'all observation sets', 'Conditioning depends on the data.', MO, [('solve', 'oneka/model.py: compute_fit')],
     na="""Floating-point conditioning depends on the data; the analysis treats numbers as exact reals and no static bound on
     the condition number exists.""")
