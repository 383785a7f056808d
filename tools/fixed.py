FIXED = [
    ('C10', 'fix: hand the full Hessian of the free parameters to the minimizer',
     'with two or more free parameters next to a fixed one the Hessian handed to trust-constr was the diagonal only'),
    ('C12', 'fix: give every trust-constr constraint its own Hessian',
     'with several constraints trust-constr got the Hessian of the last constraint for all of them'),
    ('C16', 'fix: pass only free parameters between chained minimizers',
     'a chain with a fixed parameter handed too many initial values to its second stage'),
    ('C16', 'fix: allow chaining of minimizers which do not count iterations',
     'a chain containing MINPACK raised a TypeError when summing iterations'),
    ('C07', 'fix: LeastSquares with flatten_components=False',
     'LeastSquares(..., flatten_components=False) raised a TypeError'),
    ('C22', 'fix: compare the number of components of models by value',
     'models of equal size beyond the small-integer cache compared unequal'),
    ('C22', 'fix: negation of numerical models',
     'negating a CallableNumericalModel failed'),
    ('C22', 'fix: keep the integrator options when negating an ODEModel',
     'the negated ODEModel lost its integrator options'),
    ('C19', 'fix: always set the bounds of a Parameter',
     'Parameter(min=2, max=1, fixed=True) had no min and max attributes'),
    ('C19', 'fix: check and set the bounds of several parameters at once',
     'parameters() lost bounds given as iterators, failed on None entries and accepted impossible bounds given as scalar and sequence'),
    ('C20', 'fix: evaluate an ODEModel at an array with only the initial point',
     'calling an ODEModel with an array holding only the initial point raised an AttributeError'),
    ('C18', 'fix: do not modify the options dictionaries of the user',
     'BasinHopping and TrustConstr wrote into the options of the user, so reuse of the dictionary gave stale settings'),
    ('C24', 'fix: print all factors of element-wise matrix products and keep the precedence',
     'HadamardProduct(A, B, C) dropped C, HadamardProduct(A+B, C) and HadamardPower(A+B, 2) had the wrong precedence'),
    ('C23', 'fix: draw the error bars of interactive guesses at the percentiles',
     'error bars ran from mean plus lower to mean plus upper percentile'),
    ('C11', 'fix: minimizers accept their parameters in any order',
     'BFGS(f, [b, a]) reported the values of a and b swapped'),
    ('C09', 'fix: accept a zero-dimensional array as constant sigma',
     'a 0-d array as sigma raised a ValueError'),
    ('C18', 'fix: do not modify the connectivity mapping of the user',
     'Model.with_dependencies wrote into the connectivity mapping of the user'),
    ('C03', 'fix: refuse a Parameter as component also if it is constant',
     'Model({a: 2, y: a*x}) with a Parameter a was accepted'),
    ('C02', 'fix: allow names which mean something to sympy, such as beta and S',
     'models with a variable or parameter named S, N, Q, beta, gamma, zeta... could not be evaluated'),
    ('C04', 'fix: derivatives of models with more than two levels of components',
     'the Jacobian and Hessian of {y: a*x+b, z: b*y**2+a, u: y*z} raised a NameError (three or more levels)'),
    ('C10', 'fix: use the current value of fixed parameters in objectives',
     'after changing the value of a fixed parameter between executions the objective used the old value and the result reported the new one'),
    ('C11', 'fix: fit with a scalar as independent data',
     'executing a fit whose independent data is a plain number raised an AttributeError'),
    ('C01', 'fix: trust-constr for objectives without gradient',
     'TrustConstr raised a TypeError when minimising a model without analytical derivatives'),
    ('C19', 'fix: do not generate the name of an existing argument',
     "Parameter('par_5') followed by unnamed parameters produced a second parameter named par_5"),
    ('C19', 'fix: check the bounds of nested sequences of parameters',
     "parameters(('a', 'b')) raised an AttributeError after the previous fix of parameters()"),
    ('C22', 'fix: add only the needed components in with_dependencies',
     'Model.with_dependencies({v: y**2}, Model({y: a*x, z: b*w})) contained the unrelated z, depending on the hash order'),
    ('C22', 'fix: compare symbolic models with numerical models',
     'Model({y: a*x}) == CallableNumericalModel({y: f}, ...) raised an AttributeError, comparison with None or a number a TypeError'),
    ('C17', 'fix: pickle the minimizer of fit results completely',
     'the minimizer of an unpickled FitResults had lost its jacobian, constraints and local minimizer, so that executing it solved another problem'),
    ('C18', 'fix: leave the initial guesses of chained minimizers alone',
     'after executing a ChainedMinimizer its stages started from the guesses of that execution when executed on their own'),
    ('C20', 'fix: differentiate ODE models with a step above the precision of the integrator',
     'Jacobian of ODEModel({D(y,t): a, D(z,t): b*y, D(u,t): c-z}) at b=0 was wrong by more than half of its value, because steps of 1e-8 are below the accuracy of the integrator'),
    ('C23', 'fix: sliders of negative initial guesses contain the guess',
     'opening the window changed negative guesses, sometimes to values outside the bounds'),
    ('C23', 'fix: constant components can be plotted by the interactive guess',
     'ValueError on opening the window for a model with a component that does not depend on the independent variables'),
    ('C23', 'fix: interactive guess of models with components without data',
     'TypeError for dependent variables whose data are None'),
    ('C23', 'fix: interactive guess of widely spread data in several dimensions',
     'ValueError from matplotlib when the density of the data is below exp(-7) everywhere'),
    ('C01', 'fix: TrustConstr with models that have a jacobian but not a hessian',
     'fits of an ODEModel with TrustConstr: the hessian was estimated with complex parameters, which raises ValueError when an initial value is a parameter'),
    ('C08', 'fix: derivatives of objectives whose data have the shape of the derivative',
     'the derivatives of LeastSquares and VectorLeastSquares were wrong when the data of a component happened to have the shape of its Jacobian or Hessian, such as a model a*x+b with three parameters, three points and data of shape (3, 3)'),
    ('C14', 'fix: coefficient of determination of data with more dimensions than the model',
     'fits raised ValueError, or reported a wrong r_squared for square data, if the data of a component had a trailing dimension which the component lacks: Fit(a*x+b, x of shape (7,), y of shape (7, 2))'),
    ('C26', 'fix: compare objectives with data of different shape or keys',
     '== of objectives with different data names or shapes raised KeyError or UnboundLocalError; data which broadcast to each other counted as equal'),
    ('C14', 'fix: covariance of two parameters without covariance matrix',
     'FitResults.covariance raised a TypeError when there is no covariance matrix'),
    ('C28', 'fix: fits with objectives which have no derivatives',
     "an objective derived from BaseObjective, without a gradient: execute() raised TypeError (Can't instantiate abstract class HessApproximation) instead of reporting a result without covariance"),
]
