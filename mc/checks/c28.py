"""C28: the user's own objectives and minimizers take part like built-in ones."""
import functools

import numpy as np
from symfit import Eq, Ge, Fit
from symfit.core import minimizers as M
from symfit.core.fit_results import FitResults
from symfit.core.minimizers import (
    BaseMinimizer, GradientMinimizer, HessianMinimizer, BoundedMinimizer, ConstrainedMinimizer,
    ScipyMinimize, ScipyGradientMinimize, ScipyHessianMinimize, ScipyBoundedMinimizer,
    ScipyConstrainedMinimize)
from symfit.core.models import GradientModel
from symfit.core.objectives import BaseObjective, GradientObjective, HessianObjective

from ..env import scripted
from .. import gen, handed, jets
from ..core import Skip
from ..backend import *  # noqa

THOROUGH = False


# -- objectives: the sum of fourth powers of the weighted residuals ----------
def quartic(self, ev, jac=None, hess=None):
    """Value, gradient and Hessian."""
    v, g, h = 0.0, 0.0, 0.0
    for i, var in enumerate(self.model.dependent_vars):
        y = self.dependent_data.get(var)
        if y is None:
            continue
        s = self.sigma_data[self.model.sigmas[var]]
        r = (np.asarray(ev[i]) - y)/s
        v = v + np.sum(r**4)
        if jac is not None:
            j = np.array(jac[i])/s
            axes = tuple(range(1, j.ndim))
            g = g + np.sum(4*r**3*j, axis=axes)
        if hess is not None:
            k = np.array(hess[i])/s
            axes = tuple(range(2, k.ndim))
            h = h + np.sum(12*r**2*j[:, None]*j[None, :] + 4*r**3*k, axis=axes)
    return v, g, h


class Plain(BaseObjective):
    def __call__(self, ordered_parameters=[], **parameters):
        return quartic(self, super().__call__(ordered_parameters, **parameters))[0]


class WithGradient(GradientObjective):
    def __call__(self, ordered_parameters=[], **parameters):
        return quartic(self, super().__call__(ordered_parameters, **parameters))[0]

    def eval_jacobian(self, ordered_parameters=[], **parameters):
        return quartic(self, super().__call__(ordered_parameters, **parameters),
                       super().eval_jacobian(ordered_parameters, **parameters))[1]


class WithHessian(HessianObjective):
    def __call__(self, ordered_parameters=[], **parameters):
        return quartic(self, super().__call__(ordered_parameters, **parameters))[0]

    def eval_jacobian(self, ordered_parameters=[], **parameters):
        return quartic(self, super().__call__(ordered_parameters, **parameters),
                       super().eval_jacobian(ordered_parameters, **parameters))[1]

    def eval_hessian(self, ordered_parameters=[], **parameters):
        return quartic(self, super().__call__(ordered_parameters, **parameters),
                       super().eval_jacobian(ordered_parameters, **parameters),
                       super().eval_hessian(ordered_parameters, **parameters))[2]


class Tripled(LeastSquares):
    """Derived from a built-in objective."""
    def __call__(self, *args, **kwargs):
        return 3*np.asarray(super().__call__(*args, **kwargs))

    def eval_jacobian(self, *args, **kwargs):
        return 3*super().eval_jacobian(*args, **kwargs)

    def eval_hessian(self, *args, **kwargs):
        return 3*super().eval_hessian(*args, **kwargs)


OWN = [Plain, WithGradient, WithHessian, Tripled, LeastSquares, LogLikelihood, MinimizeModel,
       VectorLeastSquares]
KINDS = ['Model', 'GradientModel', 'CallableModel', 'NumericalGradientModel', 'CallableNumericalModel']
CASE_OF = {LogLikelihood: 'likelihood', MinimizeModel: 'minimize', VectorLeastSquares: 'vector'}


class OwnCase(Case):
    def __init__(self, case, cls):
        Case.__init__(self, case.p, case.objective)
        self.cls = cls

    def ref(self, free_values, params=None):
        p = self.p
        vals = p.at(dict(zip(p.free, free_values)))
        params = p.free if params is None else params
        if self.cls is Tripled:
            return p.least_squares(vals, params)*3.0
        if self.cls in (Plain, WithGradient, WithHessian):
            tot = None
            for r in p.residuals(vals, params).values():
                t = jets.total(r*r*r*r)
                tot = t if tot is None else tot + t
            return tot
        return Case.ref(self, free_values)

    @property
    def gradient(self):
        return self.p.kind in ('Model', 'GradientModel', 'NumericalGradientModel') and \
            issubclass(self.cls, GradientObjective)

    @property
    def hessian(self):
        return self.p.kind == 'Model' and issubclass(self.cls, HessianObjective)


# -- minimizers ---------------------------------------------------------------
class CG(ScipyGradientMinimize):
    pass


class TNC(ScipyGradientMinimize, ScipyBoundedMinimizer):
    pass


class NewtonCG(ScipyHessianMinimize):
    @classmethod
    def method_name(cls):
        return 'Newton-CG'


class Simplex(ScipyMinimize, BaseMinimizer):
    @classmethod
    def method_name(cls):
        return 'Nelder-Mead'


class Box(ScipyBoundedMinimizer):
    @classmethod
    def method_name(cls):
        return 'Powell'


class Everything(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMinimizer):
    @classmethod
    def method_name(cls):
        return 'trust-constr'


class Renamed(M.BFGS):
    """Derived from a built-in minimizer."""
    @classmethod
    def method_name(cls):
        return 'BFGS'


def own(*bases):
    """A minimizer without scipy."""

    class Mine(*bases):
        def execute(self, *, spell='none'):
            self.spells = getattr(self, 'spells', []) + [spell]
            f = self.objective
            x = MY_ANSWER(len(self.params))
            it = iter(x)
            popt = [p.value if p.fixed else next(it) for p in self.parameters]
            return FitResults(model=M.DummyModel(params=self.parameters), popt=popt,
                              covariance_matrix=None, objective=f, minimizer=self,
                              message='spelled', fun=f(x), nit=11)
    return Mine


MY_ANSWER = lambda n: [0.35 - 0.6*i for i in range(n)]
ANSWER = lambda n: [0.11 * (i + 1) for i in range(n)]
Own0, OwnG, OwnH = own(BaseMinimizer), own(GradientMinimizer), own(HessianMinimizer)
OwnB, OwnC = own(BoundedMinimizer), own(ConstrainedMinimizer)
OwnAll = own(HessianMinimizer, ConstrainedMinimizer, BoundedMinimizer)
SCIPY = [Everything, TNC, NewtonCG, CG, Simplex, Box, Renamed]
MINE = [OwnAll, Own0, OwnG, OwnH, OwnB, OwnC]
for _n in ('Own0', 'OwnG', 'OwnH', 'OwnB', 'OwnC', 'OwnAll'):
    globals()[_n].mc_name = _n
for _m in SCIPY:
    _m.mc_name = _m.__name__


def problem(ch, cls, constrained=False):
    objective = CASE_OF.get(cls, 'least squares')
    forms = ch.pick('model', CASES[objective], dev=False)
    am = gen.AM(forms)
    fx = ch.pick('fixed', [s for s in subsets(am.abs_params) if len(s) < len(am.abs_params)])
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2], gen.NAMES[3]])
    attrs = ch.pick('bounds', [{}, {k: dict(min=-5.0, max=5.5 + i) for i, k in enumerate('abcd')},
                               dict(a=dict(min=-4.0), b=dict(max=7.0))])
    kind = ch.pick('class', KINDS)
    start = ch.pick('values', gen.POINTS[:3])
    data, sigma = ['noisy', 'noisy'], ['scalar', 'array']
    if objective in ('least squares', 'vector'):
        for i in range(len(am.dep)):
            data[i] = ch.pick('data of %d' % i, ['noisy', 'int', 'none'])
            sigma[i] = ch.pick('sigma of %d' % i, ['scalar', 'array', None])
        if data[:len(am.dep)] == ['none']*len(am.dep):
            raise Skip()
    return make_case(ch, objective, forms, kind, fx, names, start[1], attrs, None, data, sigma)


def given_to(case):
    p = case.p
    return p.named() if case.objective in ('least squares', 'vector') else dict(p.x)


def instance(case, cls, shift=0.0):
    """An objective made beforehand."""
    p = case.p
    if case.objective == 'likelihood':
        data = {p.syms[n]: v for n, v in p.x.items()}
        data.update({p.syms[n]: None for n in p.am.dep})
        data.update({p.model.sigmas[p.syms[n]]: None for n in p.am.dep})
    elif case.objective == 'minimize':
        data = {p.syms[n]: None for n in p.am.dep}
        data.update({p.model.sigmas[p.syms[n]]: None for n in p.am.dep})
    else:
        data = p.direct()
    return cls(p.model, data)


def relations(case, how):
    """Constraints, and what they are in terms of the parameters."""
    s = case.p.syms
    first, last = case.p.am.params[0], case.p.am.params[-1]
    if first == last or not how:
        return [], []
    rel = [Ge(s[first]*s[last], s[first] - 2), Eq(s[last]**2 + s[first], 1)][:how]
    return rel, [lambda v: v[first]*v[last] - v[first] + 2, lambda v: v[last]**2 + v[first] - 1][:how]


def check_constraints(ch, case, h, refs, jac=True):
    p = case.p
    n = len(p.free)
    if not ch.expect(len(h.constraints) == len(refs), 'number of constraints',
                     'number of constraints handed to the back end', got=len(h.constraints)):
        return
    for c, ref in zip(h.constraints, refs):
        for g in grid(n):
            r = ref({q: gen.Jet_param(v, p.free, q)
                     for q, v in p.at(dict(zip(p.free, g))).items()})
            ch.close(c.value(g), [r.v], 'constraint', 'constraint', at=g)
            if c.jac is not None:
                ch.close(np.ravel(c.jac(g)), r.g, 'constraint gradient', 'gradient of a constraint',
                         at=g, rtol=1e-7, atol=1e-8)


def check_report(ch, case, result, x, fit, minimizer, cls):
    p = case.p
    check_result(ch, case, result, x)
    ref = case.scalar(x)
    ch.close(np.ravel(result.objective_value), np.ravel(ref.v), 'objective value',
             'reported objective value', rtol=1e-8, atol=1e-9)
    ch.expect(result.model is p.model, 'model', 'model of the result')
    ch.expect(result.minimizer is fit.minimizer, 'minimizer', 'minimizer of the result')
    ch.expect(type(result.objective) is cls, 'objective', 'kind of objective of the result',
              got=str(type(result.objective)))
    text = str(result)
    ch.expect(all(q in text for q in p.am.params), 'text', 'printed report', got=text)
    quartics = (Plain, WithGradient, WithHessian)
    if cls in quartics:
        full = case.ref(x, p.am.params)
        cov = result.covariance_matrix
        if case.hessian and np.isfinite(full.h).all() and np.linalg.cond(full.h) < 1e8:
            if ch.expect(cov is not None, 'covariance', 'the inverse of the Hessian exists'):
                ch.close(cov, np.linalg.inv(full.h), 'covariance', 'covariance matrix', rtol=1e-6,
                         atol=1e-9)
        elif not case.hessian and not case.gradient:
            ch.expect(cov is None, 'covariance', 'there is no covariance without derivatives',
                      got=str(cov))
            ch.expect(all(result.stdev(p.syms[q]) is None for q in p.am.params), 'stdev',
                      'no standard deviation')


def objectives(ch, deep=False):
    """Objectives of the user's own, as class and as instance, in every minimizer."""
    cls = ch.pick('objective', OWN, dev=False)
    how = ch.pick('given', ['class', 'instance', 'instance, more data'], dev=False)
    if how == 'class' and cls in OWN[4:]:
        raise Skip()      # this is what C11 is about
    if cls is VectorLeastSquares:
        minimizer = MINPACK
    else:
        minimizer = ch.pick('minimizer', [None] + MINIMIZERS, dev=deep)
    case = OwnCase(problem(ch, cls), cls)
    p = case.p
    n = len(p.free)
    ncons = ch.pick('constraints', [0, 1, 2]) if minimizer in (None,) + CONSTRAINED else 0
    rels, refs = relations(case, ncons)
    named = given_to(case)
    obj = cls
    if how != 'class':
        obj = instance(case, cls)
    if how == 'instance, more data':
        # the fit is given different data than the objective, which counts
        if case.objective in ('least squares', 'vector'):
            for q in p.used:
                named[q] = np.asarray(named[q]) + 1.5
        else:
            raise Skip()
    kw = {'constraints': rels} if rels else {}
    fit = Fit(p.model, objective=obj, minimizer=minimizer, **dict(named, **kw))
    ch.expect(type(fit.objective) is cls, 'kind', 'kind of objective of the fit')
    if how != 'class':
        ch.expect(fit.objective is obj, 'instance', 'a given objective is used itself')
    x = ANSWER(n)
    bounded_at_all = any(case.p.attrs[q].get(k) is not None for q in p.free for k in ('min', 'max'))

    def script(h):
        ch.expect(h.n == n, 'dimension', 'number of parameters handed over', got=h.n, abort=True)
        check_function(ch, case, h)
        check_start(ch, case, h)
        actual = minimizer or (SLSQP if rels else LBFGSB if bounded_at_all or p.fixed else BFGS)
        if minimizer is not BasinHopping:
            check_bounds(ch, case, h, actual in BOUNDED)
        if actual in METHOD:
            ch.equal(h.method, METHOD[actual], 'method', 'method of the back end')
        if actual in (BFGS, LBFGSB, SLSQP, TrustConstr):
            ch.expect(callable(h.jac) == case.gradient, 'offer', 'the gradient is handed over '
                      'when there is one', got=repr(h.jac), expected=case.gradient)
        if actual is TrustConstr:
            ch.expect((callable(h.hess) and not hasattr(h.hess, 'update')) == case.hessian, 'offer',
                      'the Hessian is handed over when there is one', got=repr(h.hess),
                      expected=case.hessian)
        check_constraints(ch, case, h, refs)
        return h.answer(x)
    result, seen = execute(fit, script)
    ch.expect(len(seen) == 1, 'calls', 'the back end is called once')
    check_report(ch, case, result, x, fit, minimizer, cls)
    check_attributes(ch, case)
    ch.obs(cls.__name__, how, p.kind, p.free, case.gradient, case.hessian)


def minimizers(ch, deep=False):
    """Minimizers of the user's own, derived from those for scipy."""
    cls = ch.pick('objective', OWN[:5], dev=False)
    minimizer = ch.pick('minimizer', SCIPY, dev=deep)
    given = ch.pick('given', ['class', 'chain', 'instance'], dev=False)
    case = OwnCase(problem(ch, cls), cls)
    p = case.p
    n = len(p.free)
    ncons = ch.pick('constraints', [0, 1, 2]) if minimizer is Everything and given != 'instance' else 0
    rels, refs = relations(case, ncons)
    kw = {'constraints': rels} if rels else {}
    options = ch.pick('options', [{}, {'tol': 0.125}, {'options': {'maxiter': 5}, 'callback': len}])
    m = minimizer
    execute_with = dict(options)
    if given == 'chain':
        m = [minimizer, M.NelderMead]
        execute_with = {minimizer.__name__: dict(options)} if options else {}
    elif given == 'instance':
        obj = instance(case, cls)
        mk = {}
        if issubclass(minimizer, GradientMinimizer) and case.gradient:
            mk['jacobian'] = obj.eval_jacobian
        if issubclass(minimizer, HessianMinimizer) and case.hessian:
            mk['hessian'] = obj.eval_hessian
        m = minimizer(obj, [p.syms[q] for q in reversed(p.am.params)], **mk)
        kw['objective'] = obj
    kw.setdefault('objective', cls)
    fit = Fit(p.model, minimizer=m, **dict(given_to(case), **kw))
    if given == 'instance':
        ch.expect(fit.minimizer is m, 'instance', 'a given minimizer is used itself')
    x = ANSWER(n)
    stage = []

    def script(h):
        stage.append(h)
        if len(stage) == 2:
            ch.equal(h.method, 'Nelder-Mead', 'method', 'method of the second stage')
            check_start(ch, case, h, x)
            check_function(ch, case, h, grid(n)[:2])
            return h.answer(x)
        ch.equal(h.method, minimizer.method_name(), 'method', 'method of the back end')
        ch.expect(h.n == n, 'dimension', 'number of parameters handed over', got=h.n, abort=True)
        check_function(ch, case, h)
        check_start(ch, case, h)
        check_bounds(ch, case, h, issubclass(minimizer, BoundedMinimizer))
        want = case.gradient and issubclass(minimizer, GradientMinimizer)
        ch.expect(callable(h.jac) == want, 'offer', 'the gradient is handed over when there is one',
                  got=repr(h.jac), expected=want)
        want = case.hessian and issubclass(minimizer, HessianMinimizer)
        ch.expect(callable(h.hess) == want, 'offer', 'the Hessian is handed over when there is one',
                  got=repr(h.hess), expected=want)
        check_constraints(ch, case, h, refs)
        for k, v in options.items():
            ch.expect(h.args.get(k) == v, 'option', 'option at the back end', option=k,
                      got=repr(h.args.get(k)))
        return h.answer(x)
    result, seen = execute(fit, script, **execute_with)
    ch.expect(len(seen) == (2 if given == 'chain' else 1), 'calls', 'calls of the back end')
    check_report(ch, case, result, x, fit, minimizer, cls)
    check_attributes(ch, case)
    ch.obs(minimizer.__name__, given, cls.__name__, p.kind, p.free)


def mine(ch, deep=False):
    """Minimizers without scipy."""
    cls = ch.pick('objective', OWN[:5], dev=False)
    minimizer = ch.pick('minimizer', MINE, dev=deep)
    given = ch.pick('given', ['class', 'chain', 'chain after'], dev=False)
    case = OwnCase(problem(ch, cls), cls)
    p = case.p
    n = len(p.free)
    ncons = ch.pick('constraints', [0, 1, 2]) if minimizer in (OwnC, OwnAll) else 0
    rels, refs = relations(case, ncons)
    kw = {'constraints': rels} if rels else {}
    spell = ch.pick('options', ['none', 'abracadabra'])
    m = {'class': minimizer, 'chain': [minimizer, M.NelderMead],
         'chain after': [M.NelderMead, minimizer]}[given]
    fit = Fit(p.model, minimizer=m, objective=cls, **dict(given_to(case), **kw))
    one = fit.minimizer if given == 'class' else fit.minimizer.minimizers[given == 'chain after']
    ch.expect(isinstance(one, minimizer), 'instance', 'the minimizer is one of the given class',
              abort=True)
    ch.equal([q.name for q in one.parameters], p.am.params, 'parameters', 'all parameters')
    ch.equal([q.name for q in one.params], p.free, 'params', 'free parameters')
    # `one` is what does the work
    h = object.__new__(handed.Handed)
    h.fun, h.x0, h.n = one.objective, np.array(one.initial_guesses, float), n
    h.jac = getattr(one, 'wrapped_jacobian', None)
    h.hess = getattr(one, 'wrapped_hessian', None)
    ch.expect(callable(h.jac) == (case.gradient and issubclass(minimizer, GradientMinimizer)), 'offer',
              'the gradient is handed over when there is one', got=repr(h.jac))
    ch.expect(callable(h.hess) == (case.hessian and issubclass(minimizer, HessianMinimizer)), 'offer',
              'the Hessian is handed over when there is one', got=repr(h.hess))
    check_function(ch, case, h)
    check_start(ch, case, h)
    if issubclass(minimizer, BoundedMinimizer):
        ch.equal([(handed._lo(a), handed._hi(b)) for a, b in one.bounds], expected_bounds(p), 'bounds',
                 'bounds')
    if issubclass(minimizer, ConstrainedMinimizer):
        if ch.expect(len(one.constraints) == len(refs), 'number of constraints', 'all constraints',
                     got=len(one.constraints)):
            for c, ref, rel in zip(one.constraints, refs, rels):
                ch.expect(c.model.constraint_type is type(rel), 'constraint type', 'kind of constraint')
                for g in grid(n):
                    at = p.at(dict(zip(p.free, g)))
                    ch.close(np.squeeze(c(g)), ref(at), 'constraint', 'constraint', at=g)
    x = ANSWER(n)
    y = MY_ANSWER(n)
    name = minimizer.__name__
    options = {} if spell == 'none' else {'spell': spell} if given == 'class' else {name: {'spell': spell}}

    def script(h):
        check_function(ch, case, h, grid(n)[:2])
        check_start(ch, case, h, y if given == 'chain' else None)
        return h.answer(x)
    result, seen = execute(fit, script, **options)
    ch.equal(one.spells, [spell], 'options', 'options of an own minimizer')
    ch.expect(len(seen) == (given != 'class'), 'calls', 'calls of the back end')
    ch.equal(result.iterations, {'class': 11}.get(given, 18), 'iterations', 'number of iterations')
    check_report(ch, case, result, x if given == 'chain' else y, fit, minimizer, cls)
    check_attributes(ch, case)
    ch.obs(minimizer.mc_name, given, cls.__name__, p.kind, p.free)


def relational(ch, deep=False):
    """Constraints given to a minimizer by itself."""
    cls = ch.pick('objective', OWN[1:7], dev=False)
    minimizer = ch.pick('minimizer', [Everything, SLSQP, TrustConstr, COBYLA], dev=deep)
    written = ch.pick('written', ['relation', 'model', 'objective'], dev=False)
    ncons = ch.pick('constraints', [1, 2], dev=False)
    if minimizer is COBYLA and ncons == 2:
        raise Skip()
    case = OwnCase(problem(ch, cls), cls)
    p = case.p
    if p.kind in ('NumericalGradientModel', 'CallableNumericalModel'):
        raise Skip()
    n = len(p.free)
    rels, refs = relations(case, ncons)
    if not rels:
        raise Skip()
    obj = instance(case, cls)
    cons = rels
    if written != 'relation':
        cons = [type(p.model).as_constraint(r, p.model) for r in rels]
    if written == 'objective':
        cons = [MinimizeModel(c, obj.data) for c in cons]
    mk = {}
    if issubclass(minimizer, GradientMinimizer) and case.gradient:
        mk['jacobian'] = obj.eval_jacobian
    if issubclass(minimizer, HessianMinimizer) and case.hessian:
        mk['hessian'] = obj.eval_hessian
    m = minimizer(obj, [p.syms[q] for q in reversed(p.am.params)], constraints=cons, **mk)
    x = ANSWER(n)

    def script(name, args):
        h = handed.Handed(name, args)
        check_function(ch, case, h)
        check_start(ch, case, h)
        check_bounds(ch, case, h, issubclass(minimizer, BoundedMinimizer))
        check_constraints(ch, case, h, refs)
        return h.answer(x)
    with scripted(script):
        result = m.execute()
    check_result(ch, case, result, x)
    check_attributes(ch, case)
    ch.equal(len(result.constraints), len(rels), 'result constraints', 'constraints of the result')
    ch.obs(minimizer.__name__, written, cls.__name__, p.kind, p.free)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    bodies = {}
    for body in (objectives, minimizers, mine, relational):
        bodies[body.__name__] = {'body': body, 'bound': 1 if t else 0}
        bodies[body.__name__ + ' deep'] = {
            'body': functools.partial(body, deep=True), 'bound': 2 if t else 1}
    return {
        'bodies': bodies,
        'budget_s': 200 if not t else 780,
        'rule': 'objective x how it is given x minimizer x model completely; fixed parameters, names, '
                'bounds, values, classes of models, data, weights, constraints and options within the '
                'bound (deep: the minimizer counts too); the back end (or the minimizer itself) tries every point of a grid',
        'assumptions': ['the numerical back end (scipy) is replaced by one that tries the '
                        'points of a grid'],
    }
