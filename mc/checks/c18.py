"""C18: reuse does not change results."""
import pickle
import copy as copying

import numpy as np
import sympy

from ..core import Skip
from .. import worlds as W
from ..worlds import *  # noqa
from .c17 import normal

THOROUGH = False
FRESH = {}


class World(object):
    """Objects which are shared by the operations of one path."""

    def __init__(self, kind, attrs):
        self.kind = kind
        self.s = s = W.symbols(attrs)
        a, b, c, d, x, y, z, t, w = [s[n] for n in 'a b c d x y z t w'.split()]
        self.user_model = {
            'two': {y: a * x + b, z: c * x**2 + d},
            'deep': {z: c * y**2 + d, y: a * x + b},
            'scalar': {y: (a - 1)**2 + (b + 2)**2 + a * b / 3},
            'one': {y: a * sympy.exp(-b * x)},
            'numerical': {y: f_line, z: f_square},
            'mixed': {y: a * x + b, z: f_of_y},
            'ode': {D(y, t): -a * y, D(z, t): a * y - b * z},
        }[{'chain': 'two', 'constrained': 'scalar', 'basin': 'scalar', 'vector': 'one',
           'likelihood': 'one'}.get(kind, kind)]
        self.connectivity = {'numerical': {y: {x, a, b}, z: {x, c, d}},
                             'mixed': {y: {x, a, b}, z: {y, c, d}}}.get(kind)
        self.initial = {t: 0.0, y: 1.0, z: c}
        if kind == 'ode':
            self.model = ODEModel(self.user_model, self.initial)
        elif self.connectivity:
            self.model = CallableNumericalModel(self.user_model, connectivity_mapping=self.connectivity)
        elif kind == 'likelihood':
            self.user_model = {y: sympy.exp(-(x - a)**2 / 2) * (1 + b**2)}
            self.model = Model(self.user_model)
        else:
            self.model = Model(self.user_model)
        self.data = {v.name: W.XDATA[v.name].copy() for v in self.model.independent_vars}
        self.objective = None
        if kind in ('two', 'deep', 'numerical', 'mixed', 'ode', 'chain', 'vector', 'one'):
            for k, v in enumerate(self.model.dependent_vars):
                self.data[v.name] = np.array([0.3, 1.4, -0.2, 2.5]) + k
            self.data['sigma_' + self.model.dependent_vars[0].name] = np.array([0.5, 1.0, 1.5, 2.0])
        elif kind in ('scalar', 'constrained', 'basin'):
            self.objective = MinimizeModel
        elif kind == 'likelihood':
            self.objective = LogLikelihood
        self.constraints = []
        if kind in ('constrained', 'basin'):
            self.constraints = [Ge(a + b, -3), Eq(a * b, 1)] if kind == 'constrained' else [Le(a, b + 9)]
        self.minimizer = {'chain': [NelderMead, SLSQP, BFGS], 'constrained': SLSQP,
                          'basin': [BasinHopping, BFGS], 'vector': MINPACK,
                          'likelihood': TrustConstr}.get(kind)
        kw = dict(self.data)
        if self.objective is not None:
            kw['objective'] = self.objective
        if self.constraints:
            kw['constraints'] = self.constraints
        self.fit_kw = kw
        self.fit = Fit(self.model, minimizer=self.minimizer, **kw)
        self.results = []
        self.options = {'BFGS': {'options': {'maxiter': 5}, 'tol': 1e-3}} if kind in ('chain', 'basin') else {
            'tol': 1e-3, 'options': {'maxiter': 5}} if kind not in ('vector',) else {'ftol': 1e-3}
        if kind == 'basin':
            self.options['BasinHopping'] = {'minimizer_kwargs': {'tol': 1e-4}, 'niter': 2}
        self.before = self.everything()

    def everything(self):
        """All that belongs to the user."""
        s = self.s
        return [
            plain(sorted((n, p.value, p.min, p.max, p.fixed) for n, p in s.items()
                         if isinstance(p, Parameter))),
            plain(sorted((str(k), str(v)) for k, v in self.user_model.items())), len(self.user_model),
            plain(sorted((k, v) for k, v in self.data.items())),
            plain(sorted((str(k), sorted(map(str, v))) for k, v in (self.connectivity or {}).items())),
            plain([str(c) for c in self.constraints]), plain(self.minimizer), plain(sorted(self.options.items())),
            plain(sorted((str(k), str(v)) for k, v in self.initial.items())),
            plain([str(k) for k in self.fit_kw]),
            [str(v.dtype) for k, v in sorted(self.data.items())],
        ]


# Each returns what the user sees.
def call(w):
    return W.op_call(w.model)


def call_other(w):
    return W.op_call(w.model, 1)


def jac(w):
    return W.op_jac(w.model)


def hess(w):
    return W.op_hess(w.model)


def difference(w):
    return W.op_fd(w.model)


def printing(w):
    return [str(w.model), repr(type(w.model)), W.op_latex(w.model), W.op_symbols(w.model)]


def negation(w):
    n = -w.model
    return [W.op_call(n), W.op_jac(n) if w.kind not in ('ode',) else '', str(n)]


def double_negation(w):
    return W.op_call(-(-w.model))


def comparison(w):
    return [outcome(lambda: w.model == w.model), outcome(lambda: w.model == -w.model),
            outcome(lambda: -w.model == w.model), W.op_shape(w.model)]


def derived(w):
    if not hasattr(w.model, 'jacobian_model'):
        return 'none'
    j = w.model.jacobian_model
    h = w.model.hessian_model if hasattr(w.model, 'hessian_model') else None
    return [sorted(str(k) for k in j), W.op_call(j), sorted(str(k) for k in h) if h is not None else None]


def constraint(w):
    if w.kind in ('ode', 'numerical', 'mixed'):
        return 'none'
    s = w.s
    p = [q for q in w.model.params]
    c = type(w.model).as_constraint(Ge(p[0] + p[-1]**2, 1), w.model)
    return [W.op_call(c, 1), str(c), plain(c.constraint_type)]


def f_double(z, a):
    return 2 * z + a


def dependencies(w):
    if w.kind in ('ode', 'scalar', 'constrained', 'basin'):
        return 'none'
    u = Variable('u')
    y = w.model.dependent_vars[-1]
    if w.kind in ('numerical', 'mixed'):
        mapping = {u: {y, w.s['a']}}
        m = CallableNumericalModel.with_dependencies({u: f_double}, w.model, connectivity_mapping=mapping)
        if mapping != {u: {y, w.s['a']}}:
            return 'mapping modified'
    else:
        m = type(w.model).with_dependencies({u: y * 2 + w.s['a']}, w.model)
    return [W.op_call(m), W.op_symbols(m)]


def pickling(w):
    m = pickle.loads(pickle.dumps(w.model))
    return [W.op_call(m), W.op_jac(m)]


def value(w):
    return [W.oop_value(w.fit.objective), W.oop_value(w.fit.objective, 1)]


def gradient(w):
    return [W.oop_jac(w.fit.objective), W.oop_hess(w.fit.objective)]


def objective_eq(w):
    return [outcome(lambda: w.fit.objective == w.fit.objective), W.oop_data(w.fit.objective)]


def execute(w):
    r, seen = W.run(w.fit, 0)
    w.results.append(r)
    return [seen, W.observe_result(r)]


def execute_other(w):
    r, seen = W.run(w.fit, 1)
    w.results.append(r)
    return [seen, W.observe_result(r)]


def execute_options(w):
    r, seen = W.run(w.fit, 0, **w.options)
    return [seen, W.observe_result(r)]


class Failure(Exception):
    pass


def execute_failing(w):
    """The back end gives up."""
    def back_end(name, args):
        raise Failure()
    try:
        with W.scripted(back_end):
            w.fit.execute()
    except Failure:
        return 'failed'
    return 'not failed'


def minimizer(w):
    r, seen = W.run(w.fit.minimizer, 1)
    return [seen, W.observe_result(r)]


def stage(w):
    stages = getattr(w.fit.minimizer, 'minimizers', None)
    if not stages:
        return 'none'
    r, seen = W.run(stages[-1], 1)
    return [seen, plain(list(r.params.items()))]


def first_stage(w):
    stages = getattr(w.fit.minimizer, 'minimizers', None)
    if not stages:
        return plain(w.fit.minimizer.initial_guesses)
    r, seen = W.run(stages[0], 1)
    return [seen, plain(list(r.params.items()))]


def covariance(w):
    return outcome(lambda: w.fit.covariance_matrix({p.name: POINTS[0][p.name] for p in w.model.params}))


def new_fit(w):
    f = Fit(w.model, minimizer=w.minimizer, **w.fit_kw)
    r, seen = W.run(f, 0)
    return [seen, W.observe_result(r)]


def new_fit_other(w):
    kw = dict(w.fit_kw)
    for v in w.model.dependent_vars:
        if v.name in kw:
            kw[v.name] = kw[v.name][::-1] * 2
    f = Fit(w.model, minimizer=TrustConstr if w.kind != 'ode' else NelderMead,
            **{k: v for k, v in kw.items() if k != 'constraints'})
    r, seen = W.run(f, 1)
    return [seen, W.observe_result(r)]


def new_fit_constraint(w):
    if w.kind in ('ode', 'numerical', 'mixed', 'vector'):
        return 'none'
    p = w.model.params
    f = Fit(w.model, constraints=[Ge(p[0], p[-1] - 5)],
            **{k: v for k, v in w.fit_kw.items() if k != 'constraints'})
    r, seen = W.run(f, 1)
    return [seen, W.observe_result(r)]


def same_model(w):
    """Another model of the very same dict."""
    if w.kind == 'ode':
        m = ODEModel(w.user_model, w.initial)
    elif w.connectivity:
        m = CallableNumericalModel(w.user_model, connectivity_mapping=w.connectivity)
    else:
        m = Model(w.user_model)
    return [W.op_call(m), outcome(lambda: m == w.model), outcome(lambda: w.model == m)]


def results_again(w):
    """Earlier results still say what they said."""
    return 'checked'


OPS = [call, call_other, jac, hess, difference, printing, negation, double_negation, comparison,
       derived, constraint, dependencies, pickling, value, gradient, objective_eq, execute,
       execute_other, execute_options, execute_failing, minimizer, stage, first_stage, covariance,
       new_fit, new_fit_other, new_fit_constraint, same_model]
for f in OPS:
    f.mc_name = f.__name__
KINDS = ['two', 'deep', 'scalar', 'constrained', 'chain', 'basin', 'numerical', 'mixed', 'ode',
         'vector', 'likelihood']
# operations which change the state of some object
CORE = [call, hess, negation, derived, gradient, execute, execute_other,
        execute_failing, first_stage, stage, new_fit_other, new_fit_constraint]


def fresh(kind, attrs, op):
    key = (kind, attrs, op.__name__)
    if key not in FRESH:
        FRESH[key] = normal(op(World(kind, attrs)))
    return FRESH[key]


def sequences(ch, kinds, attrs, ops, depth):
    kind = ch.pick('world', kinds, dev=False)
    attrs = ch.pick('attributes', attrs, dev=False)
    chosen = [ch.pick('op {}'.format(i + 1), ops, dev=False) for i in range(depth)]
    expected = [fresh(kind, attrs, op) for op in chosen]
    w = World(kind, attrs)
    texts = []
    for op, exp in zip(chosen, expected):
        ch.op()
        got = normal(op(w))
        ch.expect(W.same(got, exp), 'different: ' + op.__name__,
                  '{} gives what a fresh object gives'.format(op.__name__),
                  **W.first_difference(got, exp))
        for r, text in texts:
            ch.expect(str(r) == text, 'earlier result', 'an earlier result stays as it was',
                      after=op.__name__)
        texts = [(r, str(r)) for r in w.results]
    after = w.everything()
    ch.expect(after == w.before, 'user objects', 'objects of the user are not modified',
              **W.first_difference(after, w.before, 0, 0))
    ch.obs(kind, attrs, [op.__name__ for op in chosen])
    ch.obs(expected)


def pairs(ch):
    sequences(ch, KINDS, ['mixed'] if not THOROUGH else ['mixed', 'free', 'fixed', 'bounded'], OPS, 2)


def triples(ch):
    sequences(ch, ['two', 'chain'] if not THOROUGH else KINDS, ['free'] if not THOROUGH else
              ['free', 'mixed'], CORE if not THOROUGH else OPS,
              3)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'pairs': {'body': pairs, 'bound': 0},
            'triples': {'body': triples, 'bound': 0},
        },
        'budget_s': 120 if not t else 780,
        'rule': 'every sequence of two operations of {} on every world of {}; every sequence of three '
                'of the {} operations which could leave something behind'.format(
                    len(OPS), len(KINDS), len(CORE)),
        'assumptions': ['what a fresh object gives is judged by the other checks'],
    }
