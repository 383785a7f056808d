"""
Concrete worlds for the history checks (C17 pickling, C18 reuse, C25
interleaving): problems built from scratch by name, operations which exercise
an object and return what could be observed, as plain data.

Everything is at module level, so that it can be pickled.
"""
import io
import pickle
import threading
from collections import OrderedDict

import numpy as np
import sympy

from .env import scripted
from . import handed
from symfit import (
    Parameter, Variable, Model, CallableModel, CallableNumericalModel, ODEModel, D, Fit,
    Eq, Ge, Le, GradientModel)
from symfit.core.models import ModelOutput, BaseGradientModel
from symfit.core.objectives import (
    LeastSquares, VectorLeastSquares, LogLikelihood, MinimizeModel)
from symfit.core.minimizers import (
    BFGS, LBFGSB, SLSQP, COBYLA, NelderMead, Powell, TrustConstr, DifferentialEvolution,
    BasinHopping, MINPACK, ChainedMinimizer, ScipyMinimize)
from .fitgen import NumericalGradientModel


# -- plain data -------------------------------------------------------------

def plain(o):
    """Anything observed as nested lists of numbers and strings."""
    if o is None or isinstance(o, (bool, int, str)):
        return o
    if isinstance(o, (float, np.floating)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        return ['array', list(o.shape), [float(v) for v in np.ravel(o)]]
    if isinstance(o, dict):
        return ['dict'] + [[plain(k), plain(v)] for k, v in o.items()]
    if isinstance(o, (set, frozenset)):
        return ['set'] + sorted(str(plain(v)) for v in o)
    if isinstance(o, ModelOutput):
        return ['output'] + [plain(v) for v in o]
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, type):
        return 'class ' + o.__name__
    if isinstance(o, Parameter):
        return 'Parameter ' + o.name
    if isinstance(o, Variable):
        return 'Variable ' + o.name
    if isinstance(o, Exception):
        return 'raised ' + type(o).__name__
    return str(o)


def same(a, b, rtol=1e-8, atol=1e-9):
    """Agreement of plain data; floats up to a tolerance."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        return bool(np.isclose(float(a), float(b), rtol=rtol, atol=atol, equal_nan=True))
    return type(a) == type(b) and a == b


def first_difference(a, b, rtol=1e-8, atol=1e-9, path=''):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, rtol, atol):
                return first_difference(x, y, rtol, atol, '{}/{}'.format(path, i))
    return {'where': path, 'got': repr(a)[:300], 'expected': repr(b)[:300]}


# -- parameters ---------------------------------------------------------------

def param(name, value=1.0, min=None, max=None, fixed=False):
    p = Parameter(name, value=value, min=min, max=max, fixed=fixed)
    p.value, p.min, p.max, p.fixed = value, min, max, fixed
    return p


ATTRS = {
    'free': dict(a=dict(value=1.25), b=dict(value=0.5), c=dict(value=-0.75), d=dict(value=2.0)),
    'fixed': dict(a=dict(value=1.25), b=dict(value=0.5, fixed=True), c=dict(value=-0.75),
                  d=dict(value=2.0)),
    'bounded': dict(a=dict(value=1.25, min=0.0, max=4.0), b=dict(value=0.5, max=2.5),
                    c=dict(value=-0.75, min=-3.0), d=dict(value=2.0)),
    'mixed': dict(a=dict(value=0.0, min=0.0), b=dict(value=0.5), c=dict(value=0.25, fixed=True),
                  d=dict(value=2.0, min=1.0, max=8.0)),
}


def symbols(attrs='free'):
    s = {n: param(n, **ATTRS[attrs][n]) for n in 'abcd'}
    s.update((n, Variable(n)) for n in ('x', 'w', 'y', 'z', 't'))
    return s


# -- callables ------------------------------------------------------------------

def f_line(x, a, b):
    return a * x + b


def f_square(x, c, d):
    return c * x**2 + d


def f_of_y(y, c, d):
    return c * y**2 + d


def f_scalar(a, b):
    return (a - 1)**2 + (b + 2)**2 + a * b / 3


def f_positive(x, a, b):
    return np.exp(-(x - a)**2 / 2) * (1 + b**2)


# -- models -----------------------------------------------------------------------

def build_model(name, attrs='free'):
    s = symbols(attrs)
    a, b, c, d, x, y, z, t, w = [s[n] for n in 'a b c d x y z t w'.split()]
    two = {y: a * x + b, z: c * x**2 + d}
    deep = {y: a * x + b, z: c * y**2 + d}
    if name == 'two':
        m = Model(two)
    elif name == 'one':
        m = Model({y: a * sympy.exp(-b * x)})
    elif name == 'deep':
        m = Model(deep)
    elif name == 'callable':
        m = CallableModel(deep)
    elif name == 'gradient':
        m = GradientModel(two)
    elif name == 'numerical':
        m = CallableNumericalModel({y: f_line, z: f_square},
                                   connectivity_mapping={y: {x, a, b}, z: {x, c, d}})
    elif name == 'numerical signature':
        m = CallableNumericalModel({y: f_line}, [x], [a, b])
    elif name == 'numerical deep':
        m = CallableNumericalModel({y: a * x + b, z: f_of_y},
                                   connectivity_mapping={y: {x, a, b}, z: {y, c, d}})
    elif name == 'numerical gradient':
        m = NumericalGradientModel({y: f_line, z: f_square},
                                   connectivity_mapping={y: {x, a, b}, z: {x, c, d}})
    elif name == 'constant':
        m = Model({y: a * x + b, z: d * b})
    elif name == 'list':
        m = Model([a * x + b])
    elif name == 'scalar':
        m = Model({y: (a - 1)**2 + (b + 2)**2 + a * b / 3})
    elif name == 'positive':
        m = Model({y: sympy.exp(-(x - a)**2 / 2) * (1 + b**2)})
    elif name == 'ode':
        m = ODEModel({D(y, t): -a * y, D(z, t): a * y - b * z}, initial={t: 0.0, y: 1.0, z: c})
    elif name == 'ode options':
        m = ODEModel({D(y, t): -a * y + b}, {t: 0.5, y: 2.0}, method='RK45', rtol=1e-9, atol=1e-9)
    elif name == 'constraint':
        m = Model.as_constraint(Ge(a + b**2, c), Model(two))
    elif name == 'equality':
        m = Model.as_constraint(Eq(a * b, 1), CallableModel(two))
    elif name == 'constraint on component':
        m = Model.as_constraint(Ge(y, 0), Model({y: (a - 1)**2 + b}))
    elif name == 'jacobian':
        m = Model(deep).jacobian_model
    elif name == 'hessian':
        m = Model({y: a * x**2 * b + b**2}).hessian_model
    elif name == 'negated':
        m = -Model(deep)
    else:
        raise KeyError(name)
    return m


MODELS = ['two', 'one', 'deep', 'callable', 'gradient', 'numerical', 'numerical signature',
          'numerical deep', 'numerical gradient', 'constant', 'list', 'scalar', 'positive', 'ode',
          'ode options', 'constraint', 'equality', 'constraint on component', 'jacobian', 'hessian',
          'negated']

XDATA = OrderedDict([('x', np.array([0.5, 1.0, 2.0, 3.5])), ('t', np.array([0.0, 0.5, 1.0, 2.0])),
                     ('w', np.array([1.0, -1.0, 0.5, 0.25]))])
POINTS = [dict(a=0.9, b=1.2, c=0.4, d=-0.7), dict(a=-1.1, b=0.4, c=1.9, d=0.8)]


def arguments(model, i=0):
    kw = OrderedDict((v.name, XDATA[v.name]) for v in model.independent_vars)
    for p in model.params:
        kw[p.name] = POINTS[i][p.name]
    return kw


def outcome(f, *args, **kw):
    try:
        with np.errstate(all='ignore'):
            return plain(f(*args, **kw))
    except Exception as err:
        return 'raised ' + type(err).__name__


def op_call(m, i=0):
    r = m(**arguments(m, i))
    return plain(OrderedDict((str(k), v) for k, v in r._asdict().items()))


def op_jac(m, i=0):
    if not hasattr(m, 'eval_jacobian'):
        return 'none'
    return plain(list(m.eval_jacobian(**arguments(m, i))))


def op_hess(m, i=0):
    if not hasattr(m, 'eval_hessian'):
        return 'none'
    return plain(list(m.eval_hessian(**arguments(m, i))))


def op_fd(m, i=0):
    if not hasattr(m, 'finite_difference'):
        return 'none'
    return [['fd'] + plain(list(m.finite_difference(**arguments(m, i))))]


def op_str(m, i=0):
    return str(m)


def op_latex(m, i=0):
    return outcome(lambda: m._repr_latex_())


def op_neg(m, i=0):
    def neg():
        n = -m
        return [op_call(n, i), str(n), type(n)]
    return outcome(neg)


def op_symbols(m, i=0):
    out = [plain(list(getattr(m, k))) for k in
           ('independent_vars', 'dependent_vars', 'interdependent_vars', 'params', 'free_params')]
    out.append(plain([(p.name, p.value, p.min, p.max, p.fixed) for p in m.params]))
    out.append(plain(sorted((v.name, s.name) for v, s in m.sigmas.items())))
    out.append(plain(list(m.__signature__.parameters)))
    for k in ('initial',):
        if hasattr(m, k):
            out.append(plain(sorted((str(a), str(b)) for a, b in getattr(m, k).items())))
    for k in ('constraint_type',):
        if hasattr(m, k):
            out.append(plain(getattr(m, k)))
    return out


def op_shape(m, i=0):
    return [outcome(lambda: len(m)), outcome(lambda: m.shared_parameters),
            outcome(lambda: m.bounds),
            outcome(lambda: [str(m[v]) for v in m.dependent_vars]),
            outcome(lambda: sorted((str(k), sorted(map(str, v)))
                                   for k, v in m.connectivity_mapping.items())),
            type(m).__name__]


def op_eq(m, i=0):
    return [outcome(lambda: m == m), outcome(lambda: m != m), outcome(lambda: m == 3)]


MODEL_OPS = OrderedDict([
    ('call', op_call), ('jac', op_jac), ('hess', op_hess), ('fd', op_fd), ('str', op_str),
    ('neg', op_neg), ('symbols', op_symbols), ('shape', op_shape), ('eq', op_eq),
    ('latex', op_latex)])


def observe_model(m):
    return [[k, f(m, 0)] for k, f in MODEL_OPS.items() if k != 'latex'] + [['again', op_call(m, 1)]]


# -- objectives -----------------------------------------------------------------

def objective_data(m, objective):
    s = {v.name: v for v in m.vars}
    data = OrderedDict()
    for v in m.independent_vars:
        data[v] = XDATA[v.name].copy()
    for k, v in enumerate(m.dependent_vars):
        if objective in ('least squares', 'vector'):
            data[v] = np.array([0.3, 1.4, -0.2, 2.5]) + k
            data[m.sigmas[v]] = np.array([0.5, 1.0, 1.5, 2.0]) + k
        else:
            data[v] = data[m.sigmas[v]] = None
    return data


OBJECTIVES = {'least squares': LeastSquares, 'vector': VectorLeastSquares,
              'likelihood': LogLikelihood, 'minimize': MinimizeModel}
OBJECTIVE_MODELS = {'least squares': ['two', 'deep', 'callable', 'gradient', 'numerical',
                                      'numerical gradient', 'ode', 'constant'],
                    'vector': ['two', 'one', 'numerical', 'callable'],
                    'likelihood': ['positive'],
                    'minimize': ['scalar', 'constraint on component', 'constraint', 'equality']}


def build_objective(objective, model, attrs='free'):
    m = build_model(model, attrs)
    return OBJECTIVES[objective](m, objective_data(m, objective))


def oop_value(o, i=0):
    return plain(np.asarray(o([POINTS[i][p.name] for p in o.model.free_params])))


def oop_named(o, i=0):
    return outcome(lambda: np.asarray(o(**{p.name: POINTS[i][p.name] for p in o.model.free_params})))


def oop_jac(o, i=0):
    if not hasattr(o.model, 'eval_jacobian') or not hasattr(o, 'eval_jacobian'):
        return 'none'
    return outcome(lambda: o.eval_jacobian([POINTS[i][p.name] for p in o.model.free_params]))


def oop_hess(o, i=0):
    if not hasattr(o.model, 'eval_hessian') or not hasattr(o, 'eval_hessian'):
        return 'none'
    return outcome(lambda: o.eval_hessian([POINTS[i][p.name] for p in o.model.free_params]))


def oop_data(o, i=0):
    out = []
    for k in ('dependent_data', 'independent_data', 'sigma_data'):
        out.append(plain(OrderedDict((v.name, d) for v, d in getattr(o, k).items())))
    return out


def oop_eq(o, i=0):
    return outcome(lambda: o == o)


OBJECTIVE_OPS = OrderedDict([
    ('value', oop_value), ('jac', oop_jac), ('hess', oop_hess), ('data', oop_data),
    ('named', oop_named), ('eq', oop_eq)])


def observe_objective(o):
    return [[k, f(o, 0)] for k, f in OBJECTIVE_OPS.items()] + [
        ['again', oop_value(o, 1)], ['class', type(o).__name__], ['symbols', op_symbols(o.model)]]


# -- minimizers and fits -----------------------------------------------------------

class _Hooks(threading.local):
    pause = None


HOOKS = _Hooks()


def pause():
    """A point at which another task may run."""
    if HOOKS.pause is not None:
        HOOKS.pause()


def look(h):
    """Everything handed to a back end, as plain data."""
    n = h.n
    pts = [np.full(n, 0.75) + 0.125 * np.arange(n), np.full(n, -0.5) + 0.25 * np.arange(n)]
    out = [h.name, plain(h.method), plain(h.x0), plain(h.bounds)]
    with np.errstate(all='ignore'):
        for x in pts:
            pause()
            out.append(plain(np.asarray(h.fun(x))))
            out.append(plain(np.asarray(h.jac(x))) if callable(h.jac) else plain(h.jac))
            if callable(h.hess):
                out.append(plain(np.asarray(h.hess(x))))
            for c in h.constraints:
                out.append(plain([c.value(x), np.asarray(c.lb), np.asarray(c.ub)]))
                if c.jac is not None:
                    out.append(plain(np.asarray(c.jac(x))))
    skip = ('fun', 'func', 'x0', 'jac', 'hess', 'bounds', 'constraints', '_explicit', 'method',
            'minimizer_kwargs', 'callback', 'args', 'kwargs', 'seed')
    out.append([[k, plain(v)] for k, v in sorted(h.args.items())
                if k not in skip and not callable(v) and isinstance(v, (int, float, str, bool, dict, type(None)))])
    return out


ANSWERS = [[1.5, 0.25, -0.5, 0.75], [0.5, 1.75, 0.5, 1.25]]


def run(thing, i=0, **options):
    """Execute a minimizer or fit; the back end looks and answers."""
    seen = []

    def back_end(name, args):
        h = handed.Handed(name, args)
        seen.append(look(h))
        pause()
        return h.answer(ANSWERS[i][:h.n], message='answer {}'.format(i), nit=11 + i, nfev=31 + i)
    with scripted(back_end):
        result = thing.execute(**options)
    return result, seen


def observe_result(r, again=False):
    out = [plain(list(r.params.items())),
           plain(r.covariance_matrix), r.status_message, plain(r.iterations),
           [[k, plain(v)] for k, v in sorted(r.gof_qualifiers.items())],
           op_symbols(r.model) if hasattr(r.model, 'sigmas') else 'no model',
           plain([(plain(r.value(p)), plain(r.stdev(p)), plain(r.variance(p))) for p in r.model.params]),
           [type(r.minimizer).__name__, type(r.objective).__name__],
           plain([(c.model.constraint_type.__name__, np.asarray(c(**r.params)))
                  if hasattr(c, 'model') else str(c) for c in r.constraints])]
    out.append(outcome(oop_value, r.objective))
    for k in ('chi_squared', 'r_squared', 'objective_value', 'likelihood', 'log_likelihood'):
        out.append(outcome(getattr, r, k, 'absent'))
    out.append(str(r))
    return out


def observe_execute(thing, i=0, **options):
    result, seen = run(thing, i, **options)
    return [seen, observe_result(result)]


def observe_minimizer(m):
    out = [type(m).__name__, plain([p.name for p in m.params]), plain([p.name for p in m.parameters]),
           plain(m.initial_guesses)]
    out += [observe_execute(m, 0)]
    if isinstance(m, ChainedMinimizer):
        out.append([type(k).__name__ for k in m.minimizers])
    out.append(str(m))
    return out


def observe_fit(f):
    out = [type(f.minimizer).__name__, type(f.objective).__name__,
           plain(list(f.initial_guesses)) if hasattr(f, 'initial_guesses') else 'none',
           oop_data(f.objective), plain(bool(f.absolute_sigma)),
           [plain(OrderedDict((v.name, d) for v, d in getattr(f, k).items()))
            for k in ('dependent_data', 'independent_data', 'sigma_data')],
           op_symbols(f.model), op_call(f.model), len(f.constraints)]
    out.append(observe_execute(f, 0))
    return out


def observe_argument(p):
    out = [type(p).__name__, p.name, str(p), repr(p), plain(sorted(p.assumptions0.items()))]
    if isinstance(p, Parameter):
        out += [plain([p.value, p.min, p.max, p.fixed])]
        q = param(p.name, p.value, p.min, p.max, p.fixed)
    else:
        q = Variable(p.name)
    out += [p == q, hash(p) == hash(q), p != q, str(2 * p + q), str(sympy.diff(p**2, p))]
    return out


def observe_arguments(ps):
    return [observe_argument(p) for p in ps] + [
        [[plain(p == q), plain(p is q)] for q in ps] for p in ps]


def observe_output(o):
    return [plain(list(o)), len(o), plain(OrderedDict((k.name, v) for k, v in o._asdict().items())),
            [plain(getattr(o, v.name)) for v in o.variables], plain(o[0]), str(o), plain(o.output)]


def observe_both(r):
    return [observe_result(r), observe_minimizer(r.minimizer), observe_objective(r.objective)]


REAL = {'DifferentialEvolution': dict(seed=3, maxiter=12, popsize=5),
        'BasinHopping': dict(seed=3, niter=3)}


def observe_real(r):
    out = [plain(list(r.params.items())), plain(r.covariance_matrix), r.status_message,
           plain(r.iterations), [[k, plain(v)] for k, v in sorted(r.gof_qualifiers.items())],
           sorted(r.minimizer_output)]
    m = r.minimizer
    again = m.execute(**REAL.get(type(m).__name__, {}))
    out.append(plain(list(again.params.items())))
    return out


OBSERVERS = {'real': observe_real, 'result+minimizer': observe_both, 'model': observe_model, 'objective': observe_objective, 'minimizer': observe_minimizer,
             'fit': observe_fit, 'result': observe_result, 'argument': observe_argument,
             'arguments': observe_arguments, 'output': observe_output}
