"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'mechanism': [dict(name=n, where=w) for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})

FIT = 'symfit/core/fit.py'; MOD = 'symfit/core/models.py'; OBJ = 'symfit/core/objectives.py'
MIN = 'symfit/core/minimizers.py'; RES = 'symfit/core/fit_results.py'; ARG = 'symfit/core/argument.py'
SUP = 'symfit/core/support.py'; OPS = 'symfit/core/operators.py'; DIS = 'symfit/distributions.py'
PRI = 'symfit/core/printing.py'; IG = 'symfit/contrib/interactive_guess/interactive_guess.py'

p('C01', 'A fit returns the constrained optimum',
  'Executing a fit returns the parameter values that minimise the objective (weighted sum of squares, negative log-likelihood, or the model itself) over all values which respect the bounds, the fixed parameters and the constraints. For problems with a unique optimum this holds for every local minimizer that supports the features used, for chains of them, and for every initial guess.',
  ['inputs', 'configurations'], 'every data set, weights, bounds, fixed subset, constraint set, initial guess and minimizer for problems with a unique optimum',
  'The tests fit a few dozen fixed data sets, each with one or two minimizers; combinations of weights, missing components, bounds, fixed parameters, constraints and minimizers are not covered.',
  [FIT, MIN, OBJ, MOD], [('Fit.__init__/execute', FIT), ('ScipyMinimize.execute', MIN), ('LeastSquares', OBJ)], observe=['Fit(...).execute().params'])

p('C02', 'Calling a model evaluates its expressions',
  'Calling a model with values for its independent variables and parameters returns, for every component, the numerical value of its expression, where variables defined by other components take the value of that component. The result does not depend on the order in which components are written down, on names, or on positional versus keyword calling (independent variables first, then parameters, alphabetically within each group), broadcasts arrays like numpy does, and can be read by position (alphabetical), by attribute or as a dict.',
  ['inputs', 'programs'], 'every acyclic symbolic model, every naming, every call style and every broadcastable shape of the arguments',
  'Tests evaluate a handful of models with fixed names and 1-D data; the topological evaluation order, name orderings and shapes are quantified over.',
  [MOD, SUP], [('eval_components', MOD), ('ordered_symbols', MOD), ('sympy_to_py', SUP), ('ModelOutput', MOD)], observe=['Model.__call__'])

p('C03', 'Every symbol of a model gets its documented role and order',
  'A model reports as parameters exactly the parameters in its expressions, as independent variables the variables which no component defines, as interdependent variables the components used by other components, and as dependent variables the components at the top of the dependency graph. Each list is sorted by name and is the same for every order of definition; the list of all variables is independent, dependent, then one sigma per dependent variable in the order of the dependent variables, and a parameter used as a component is refused.',
  ['inputs', 'programs'], 'every acyclic dependency graph up to the bound, every naming and every order of definition',
  'Tests check the classification for a few fixed models; sets and topological sorting make it depend on graph shape, names and hashing.',
  [MOD, SUP], [('_init_from_dict', MOD), ('connectivity_mapping', MOD), ('seperate_symbols', SUP)], observe=['model.params', 'model.independent_vars', 'model.dependent_vars', 'model.interdependent_vars', 'model.vars', 'model.sigmas'])

p('C04', 'The Jacobian of a model is its exact derivative',
  'Evaluating the Jacobian of a symbolic model gives, for every component, the partial derivatives with respect to all parameters of the model in parameter order, including the contributions through other components (chain rule). The result has one leading axis for the parameters followed by the shape of the component; parameters on which a component does not depend give zeros.',
  ['inputs', 'programs'], 'every differentiable symbolic model up to the bound, every parameter point and data shape',
  'Tests compare a few Jacobians; missing entries are silently replaced by zero in the code, so only a comparison over all dependency structures can show the entries are right.',
  [MOD], [('jacobian_from_model', MOD), ('GradientModel.eval_jacobian', MOD), ('vars_as_functions/function_dict', MOD)], observe=['model.eval_jacobian'])

p('C05', 'The Hessian of a model is its exact second derivative',
  'Evaluating the Hessian of a symbolic model gives, for every component, all second partial derivatives with respect to the parameters of the model in parameter order, including all chain-rule terms through other components. The result is symmetric, with two leading parameter axes followed by the shape of the component.',
  ['inputs', 'programs'], 'every twice differentiable symbolic model up to the bound, every parameter point and data shape',
  'As for the Jacobian, and only two or three Hessians are compared by the tests.',
  [MOD], [('hessian_from_model', MOD), ('HessianModel.eval_hessian', MOD), ('_partial_diff/_partial_subs', MOD)], observe=['model.eval_hessian'])

p('C06', 'Numerical models behave like the symbolic models they mirror',
  'A model built from Python callables with declared dependencies, or from a mixture of callables and expressions, has the same components, roles, call signature and values as the symbolic model with the same formulas. The finite-difference Jacobian offered for models without analytical derivatives agrees with the analytical Jacobian up to discretisation error, component by component and parameter by parameter, also at zero and negative parameter values.',
  ['inputs', 'programs'], 'every split of a model into callables and expressions, every parameter point and data shape up to the bound',
  'Tests mirror two or three models and compare finite differences at a few points.',
  [MOD], [('CallableNumericalModel', MOD), ('BaseNumericalModel.__init__', MOD), ('finite_difference', MOD)], observe=['CallableNumericalModel.__call__', 'finite_difference', 'Fit with a numerical model'])

p('C07', 'Objectives have their documented value',
  'For every parameter point the least-squares objective equals half the sum over all components with data of the squared residuals divided by the squared standard deviations (per component when asked for), its vector variant gives per data point the root of the summed squared normalised residuals, the likelihood objective equals minus the sum of the logarithms of the model, and the minimisation objective equals the model. Components whose data is absent do not contribute, model output is broadcast to the shape of the data, and positional values refer to the free parameters in alphabetical order.',
  ['inputs', 'configurations'], 'every model, data shape, subset of missing components, set of weights, fixed subset and calling style up to the bound',
  'Tests evaluate objectives for single models with complete 1-D data.',
  [OBJ], [('LeastSquares.__call__', OBJ), ('VectorLeastSquares.__call__', OBJ), ('LogLikelihood.__call__', OBJ), ('_shape_of_dependent_data', OBJ), ('_invariant_kwargs', OBJ)], observe=['fit.objective(...)'])

p('C08', 'Derivatives of objectives match their values',
  'The gradient and Hessian reported by an objective are the exact first and second derivatives of its own value with respect to all parameters of the model, in parameter order; for the vector objective, the Jacobian of every residual. This holds for weighted, missing and broadcast data and for any number of components and parameters.',
  ['inputs', 'configurations'], 'every objective, model, data shape, subset of missing components and weights up to the bound',
  'Tests compare a few derivatives at one point; the code assembles them separately from the value with explicit axis manipulations.',
  [OBJ], [('eval_jacobian', OBJ), ('eval_hessian', OBJ), ('_shape_of_dependent_data', OBJ)], observe=['fit.objective.eval_jacobian', 'fit.objective.eval_hessian'])

p('C09', 'Data end up with the variable they belong to, or are refused',
  'Data given to a fit by position (independent, dependent, then sigma variables, alphabetically within each group) or by name are assigned to the same variables in either style; sequences become arrays, a scalar sigma applies to all points of its component, a missing sigma means unit weights, and an absent component is accepted only when given as None. Missing, surplus, doubly assigned or unknown data raise a TypeError, as does data for the dependent variable of a likelihood fit; standard deviations count as absolute exactly when at least one is given, unless the user says otherwise.',
  ['inputs', 'configurations'], 'every split of the data over positional and named arguments, container type, sigma pattern and erroneous call up to the bound',
  'Tests try a few call styles; the space of splits, types and errors is combinatorial.',
  [FIT], [('TakesData.__init__', FIT), ('Fit.__init__/_make_signature', FIT), ('_determine_objective', FIT)], observe=['fit.data', 'fit.sigma_data', 'fit.absolute_sigma', 'TypeError'])

p('C10', 'Fixed parameters never move and never reach the minimizer',
  'For every subset of fixed parameters, the minimizer sees only the free parameters (initial values, bounds, gradient, Hessian, Jacobian and constraint derivatives all restricted to them, in the same order), the objective and constraints are evaluated with the fixed values, and the result reports each fixed parameter at exactly its value and each free one at the value found. This holds for every minimizer and objective.',
  ['inputs', 'configurations'], 'every fixed subset, minimizer, objective and answer of the minimizer up to the bound',
  'Tests fix one or two parameters for two minimizers; every subset and every possible answer of the back end matters.',
  [MIN, OBJ, FIT], [('BaseMinimizer.params', MIN), ('resize_jac/resize_hess', MIN), ('_pack_output', MIN), ('_invariant_kwargs', OBJ)], observe=['arguments passed to scipy', 'FitResults.params'])

p('C11', 'The minimizer is handed exactly the stated problem',
  'Whatever points the numerical back end tries, the function, gradient, Hessian, bounds and initial values it was given describe the stated problem, all in the same (alphabetical) parameter order: lower and upper bounds per parameter, zero and one-sided bounds included, and initial guesses equal to the parameter values at execution time. User options reach the back end unchanged, and whatever point the back end answers is reported under the right parameter names.',
  ['inputs', 'configurations', 'fault_sequences'], 'every minimizer, bound pattern, guess and back-end answer up to the bound',
  'With the real back ends the tests see only the path to one optimum; a wrong Hessian or dropped bound usually still converges.',
  [MIN, FIT], [('ScipyMinimize.execute', MIN), ('BoundedMinimizer.bounds', MIN), ('initial_guesses', MIN), ('_pack_output', MIN), ('_init_minimizer', FIT)], observe=['arguments passed to scipy', 'FitResults.params'])

p('C12', 'Constraints mean what the user wrote',
  'Every equality, >= and <= constraint between parameters, model components or other variables reaches the minimizer as a condition satisfied by exactly the points that satisfy the relation, with its own exact derivatives with respect to the free parameters, however many constraints there are. Strict inequalities, disequalities, constraints on foreign parameters and vector-valued constraints are refused with a ModelError.',
  ['inputs', 'configurations'], 'every relation type, orientation, number and order of constraints, fixed subset and constrained minimizer up to the bound',
  'Tests check that fits with some constraints converge to the right point; derivative errors and mixed-up constraints are not visible there.',
  [MOD, MIN, FIT], [('as_constraint/with_dependencies', MOD), ('scipy_constraints', MIN), ('_init_constraints', FIT)], observe=['constraints passed to scipy', 'ModelError'])

p('C13', 'Objective and minimizer are selected by the nature of the problem',
  'Without explicit choice a fit uses least squares, or minimises the model itself when it is a single component without independent variables and without data; it uses the vector least-squares objective for the MINPACK minimizer. The default minimizer is SLSQP if there are constraints, otherwise L-BFGS-B if any parameter is bounded or fixed, otherwise BFGS; explicit choices (classes, instances or sequences) are honoured, and basin hopping uses as local minimizer what would have been the default.',
  ['configurations'], 'every combination of constraints, bounds, fixed parameters, data presence, objective and minimizer argument',
  'Tests touch single combinations.',
  [FIT, MIN], [('_determine_objective', FIT), ('_determine_minimizer', FIT), ('_init_minimizer', FIT)], observe=['type(fit.objective)', 'type(fit.minimizer)', 'method passed to scipy'])

p('C14', 'Fit results report the fit faithfully',
  'For every answer of the minimizer, the reported objective value, chi squared, coefficient of determination, likelihood and log-likelihood are those of the reported parameter values for the data that were fitted; values, variances, standard deviations and covariances looked up by parameter agree with the parameter order of the reported covariance matrix. The model, objective, minimizer, status message, iterations and constraints in the result are those of the fit, and the printed report shows them.',
  ['inputs', 'configurations', 'fault_sequences'], 'every objective, minimizer, data set and back-end answer up to the bound',
  'Tests look at results of converged fits only, where many quantities are zero or near zero.',
  [RES, MIN], [('_gof_qualifiers', RES), ('r_squared', RES), ('value/stdev/variance/covariance', RES), ('__str__', RES)], observe=['FitResults attributes'])

p('C15', 'The covariance matrix follows the documented formula',
  'For least squares the reported covariance is the inverse Hessian of the objective at the reported point, multiplied by the residual variance (sum of squares over the number of data points of all components with data minus the number of parameters) unless standard deviations are absolute; for likelihoods and other objectives it is the inverse Hessian. If no Hessian is available it is replaced by the outer product of the Jacobian, and if the matrix is singular no covariance is reported.',
  ['inputs', 'configurations'], 'every model type, number of components, weights, absolute or relative, missing components and reported point up to the bound',
  'Tests compare stdevs for a few converged single-component fits, where the second-order term is negligible.',
  [FIT, OBJ], [('HasCovarianceMatrix', FIT), ('data_shapes', FIT), ('HessianObjectiveJacApprox', OBJ)], observe=['FitResults.covariance_matrix'])

p('C16', 'A chain of minimizers hands its result from stage to stage',
  'When minimizers are chained, every stage starts from the point the previous stage found (the first from the initial guesses), each stage receives exactly the options given under its name (numbered by occurrence when a minimizer occurs more than once), and the result is that of the last stage with the total number of iterations. Unknown stage names are refused, and executing a chain again starts afresh.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'every sequence of stages up to the bound, every sequence of back-end answers, every option assignment and repeated execution',
  'Tests run three chains with real minimizers; hand-over errors are masked by reconvergence.',
  [MIN], [('ChainedMinimizer.execute', MIN), ('_make_signature', MIN), ('initial_guesses', MIN)], state=[('_initial_guesses', 'guess handed to a stage', MIN)], observe=['arguments passed to scipy', 'FitResults'])

p('C17', 'Pickling preserves behaviour at any point of an object\'s life',
  'Parameters, variables, models (symbolic, numerical, ODE, constraints), model output, objectives, minimizers, fits and fit results can be pickled and unpickled at any point of their history - before or after evaluation, differentiation or execution, and repeatedly - and the copy evaluates, reports and executes exactly like the original. Pickling does not change the original.',
  ['histories', 'configurations'], 'every object type and every sequence of operations before and after pickling up to the bound',
  'Tests pickle each type once, mostly fresh, and compare attributes rather than behaviour.',
  [MOD, MIN, RES, ARG, OBJ], [('__getstate__/__setstate__', MOD), ('__getstate__/__setstate__', MIN), ('__getstate__/__setstate__', RES), ('Argument.__getstate__', ARG)], observe=['pickle.loads(pickle.dumps(obj))'])

p('C18', 'Reuse does not change results',
  'Models, objectives, fits and minimizers can be used again and in any order: every evaluation, derivative, execution, negation, comparison or printing gives the result a fresh object would give, whatever was done before with the same or other objects. No operation modifies the user\'s data, models, option dictionaries or parameter objects.',
  ['histories'], 'every sequence of operations on shared models, fits and parameters up to the bound',
  'Tests use each object for one purpose; caches and shared state show up only in histories.',
  [MOD, OBJ, FIT, MIN, SUP], [('cached_property', SUP), ('_invariant_kwargs', OBJ), ('params setter/__signature__', MOD)], state=[('_cached_*', 'cached derived values', SUP), ('Parameter.value', 'guess', ARG)], observe=['all public results', 'user owned arrays and dicts'])

p('C19', 'Parameters and variables are what was asked for',
  'Creating parameters and variables, one at a time or several at once with single values or sequences per attribute, gives real-valued symbols in the requested order with exactly the requested name, value, bounds and fixed flag, with the documented defaults; unnamed ones get a name not used before. Impossible bounds, sequences of the wrong length and values in the place of names are refused, and parameters are equal exactly when name, assumptions, value, bounds and fixed flag are.',
  ['inputs', 'histories'], 'every combination of attributes given as scalar, sequence or iterator, and every sequence of creations up to the bound',
  'Tests create a handful of parameters.',
  [ARG, SUP], [('Argument.__new__', ARG), ('Parameter.__init__/__eq__', ARG), ('parameters/variables', SUP)], state=[('_argument_indices', 'counter for generated names', ARG)], observe=['attributes', 'exceptions'])

p('C20', 'An ODE model evaluates to the solution of its initial value problem',
  'Calling an ODE model at any increasing set of points returns, for every dependent variable in alphabetical order, the solution of the system through the given initial values at exactly those points, in order - whether the initial point lies before, after, between or on the requested points, for a single point, and with parameters as initial values. Its Jacobian with respect to all parameters, initial values included, agrees with that of the solution.',
  ['inputs', 'programs'], 'every placement of up to the bound of points around the initial point, every subset of parametric initial values, systems and integrators',
  'Tests integrate a few systems forward, and one backward.',
  [MOD], [('ODEModel.eval_components', MOD), ('ODEModel.__init__', MOD), ('finite_difference', MOD)], observe=['ODEModel.__call__', 'ODEModel.eval_jacobian'])

p('C21', 'Expressions can be called like functions',
  'Calling a symbolic expression with values for its symbols, positionally (variables before parameters, alphabetically) or by name, returns its numerical value with numpy broadcasting; surplus names are ignored and missing or surplus positional values are refused. The predefined Gaussian, bivariate Gaussian and exponential distributions called this way give their documented densities.',
  ['inputs', 'programs'], 'every expression, naming, call style and argument shape up to the bound',
  'Tests call a few expressions.',
  [OPS, SUP, DIS], [('call', OPS), ('sympy_to_py', SUP), ('Gaussian/BivariateGaussian/Exp', DIS)], observe=['Expr.__call__'])

p('C22', 'Models can be negated, compared and composed',
  'Negating a model gives a new model whose dependent components have the opposite sign and leaves the original alone; models are equal exactly when they have the same components and equivalent expressions, regardless of the order of definition. Composing a model with the components of another on which it depends gives a stand-alone model with the same value as substitution of those components, and turning a relation into a constraint model keeps the parameters of the original model.',
  ['inputs', 'programs'], 'every pair of models and every dependency structure up to the bound',
  'Tests compare and compose a few fixed models.',
  [MOD], [('__neg__', MOD), ('__eq__', MOD), ('with_dependencies/as_constraint', MOD)], observe=['model == other', '-model', 'with_dependencies', 'as_constraint'])

p('C23', 'Interactive guessing keeps sliders, parameters and plots in step',
  'After any sequence of slider movements the value of every parameter equals the value of its slider, and every plotted line shows the model evaluated at exactly those values over the plotted range (for several independent variables the mean, with error bars from the lower to the upper percentile). Opening the window leaves the initial guesses as they are. Sliders range from the lower to the upper bound of their parameter, or between zero and twice its value when unbounded, and there is one plot per pair of independent and dependent variable, also for components without data or which are constant.',
  ['histories', 'configurations'], 'every sequence of slider moves up to the bound, for each kind of model',
  'Tests move two sliders once in a one-dimensional model.',
  [IG], [('_update_plot', IG), ('_set_up_sliders', IG), ('Strategy2D/StrategynD.update_plot', IG)], state=[('Parameter.value', 'guess edited by the slider', IG)], observe=['parameter values', 'matplotlib artists', 'slider ranges'])

p('C24', 'Matrix and indexed expressions evaluate to their numpy equivalents',
  'Models and expressions built from matrix symbols - products, element-wise products and powers, inverses, transposes, sums, powers of square and of 1x1 matrices - and sums over the entries of indexed data evaluate to the value the same formula has in numpy, whatever was printed or evaluated before.',
  ['programs', 'inputs'], 'every matrix expression up to the bounded depth',
  'Tests evaluate three matrix models.',
  [PRI, SUP, MOD], [('_print_*', PRI), ('DontDeleteMe', PRI), ('sympy_to_py', SUP)], observe=['CallableModel.__call__'])

p('C25', 'Interleaved fits do not disturb each other',
  'When several fits or model evaluations run interleaved in one process - in threads, or one started from within an objective or callback of the other - even sharing models, parameters and data, each gives the result it gives when run alone.',
  ['schedules'], 'every interleaving of the back-end callbacks of two fits, at the granularity of single objective, gradient and Hessian evaluations',
  'Tests never run two fits at the same time in one process.',
  [MIN, OBJ, MOD, SUP], [('cached_property', SUP), ('resize_jac', MIN), ('eval_components', MOD)], observe=['values returned to each back end', 'FitResults'])

p('C26', 'Objectives are equal exactly when their kind, model and data are',
  'Two objectives compare equal exactly when they are of the same kind, their models are equal and they were given the same data (names, shapes and values, including which data are absent); unequal data of any shape give an answer rather than an error, `!=` is the opposite of `==`, the answer does not depend on the side, and copies, pickled or re-built objectives are equal to the original.',
  ['inputs', 'configurations'], 'every pair of objectives differing in one respect, and in several up to the bound',
  'Tests compare three pairs.',
  [OBJ, MOD], [('BaseObjective.__eq__', OBJ), ('BaseModel.__eq__', MOD)], observe=['objective == other', 'objective != other'])

p('C27', 'The printed form of a model says what it computes',
  'The printed form of a model lists every component once, in the order of evaluation, with exactly the variables and parameters it depends on, and a right-hand side which, read back, has the value the model evaluates to; components which are functions are shown as such, ODE models show their derivatives, constraints their relation. Printing does not fail for any model, and does not depend on what was done before.',
  ['programs'], 'every model of the grammar, every naming, order of definition and class up to the bound',
  'Tests compare two printed models with a fixed string.',
  [MOD], [('BaseModel.__str__', MOD), ('_repr_latex_', MOD), ('ODEModel.__str__', MOD)], observe=['str(model)', '_repr_latex_'])

p('C28', "The user's own objectives and minimizers take part like built-in ones",
  'An objective class of the user\'s own (derived from any of the base classes), or an objective made beforehand, given to a fit or a minimizer is what is minimised: the minimizer is handed its value, and its gradient and Hessian exactly when objective, model and minimizer all offer them, with respect to the free parameters in the order of the parameters; objective value, covariance and minimizer in the report are those of that objective. A minimizer derived from the base classes, used as class, as instance or within a chain, receives exactly the parameters, initial values, gradient, Hessian, bounds, constraints and options which its base classes announce. Constraints may be given to a minimizer as relations, models or objectives alike.',
  ['configurations', 'programs'], 'every combination of objective class, minimizer class, way of passing them, kind of model, fixed subset, bounds, names, data and constraints up to the bound',
  'Tests use two objectives of their own with one model each and no minimizers of their own.',
  [OBJ, MIN, FIT], [('Fit.__init__', FIT), ('Fit._init_minimizer', FIT), ('BaseMinimizer', MIN), ('BaseObjective', OBJ)], observe=['what scipy.optimize or execute() of the minimizer receives', 'FitResults'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
