"""C13: objective and minimizer are selected by the nature of the problem."""
import numpy as np
from symfit import (Fit, Model, CallableModel, ODEModel, D, Eq, Ge, Le, Variable,
                    CallableNumericalModel)
from symfit.core.models import GradientModel
from symfit.core.objectives import (LeastSquares, LogLikelihood, MinimizeModel,
                                    VectorLeastSquares)
from symfit.core.minimizers import *  # noqa
from symfit.core.minimizers import (BFGS, LBFGSB, SLSQP, COBYLA, NelderMead, Powell, TrustConstr,
                                    DifferentialEvolution, BasinHopping, MINPACK, ChainedMinimizer)

from .. import gen, handed
from ..core import Skip
from ..env import scripted
from ..fitgen import NumericalGradientModel

THOROUGH = False
METHOD = {BFGS: 'BFGS', LBFGSB: 'L-BFGS-B', SLSQP: 'SLSQP', TrustConstr: 'trust-constr',
          NelderMead: 'Nelder-Mead', Powell: 'Powell', COBYLA: 'COBYLA'}
ALL = [BFGS, LBFGSB, SLSQP, COBYLA, NelderMead, Powell, TrustConstr, DifferentialEvolution,
       BasinHopping]
for _c in ALL + [MINPACK, LeastSquares, LogLikelihood, MinimizeModel, VectorLeastSquares]:
    _c.mc_name = _c.__name__
F = gen.F

X = np.array([0.3, 1.1, 2.0])
# label, forms
WITHOUT = [
    ('one', [F('y=(a-1)**2+b**2', 'a b', lambda m, a, b: (a - 1)**2 + b**2)]),
    ('one, one parameter', [F('y=exp(a)', 'a', lambda m, a: m.exp(a))]),
]
TWO = [
    ('two', [F('y=a*b', 'a b', lambda m, a, b: a*b), F('z=a-b', 'a b', lambda m, a, b: a - b)]),
    ('two, nested', [F('y=a*b', 'a b', lambda m, a, b: a*b), F('z=y**2+c', 'y c', lambda m, y, c: y**2 + c)]),
]
WITH = [
    ('one, x', [F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b)]),
    ('two, x', [F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b),
                F('z=c*x', 'c x', lambda m, c, x: c*x)]),
    ('nested, x', [F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b),
                   F('z=c*y**2', 'c y', lambda m, c, y: c*y**2)]),
    ('one, x only', [F('y=exp(a*x)', 'a x', lambda m, a, x: m.exp(a*x))]),
]
CLASSES = [Model, GradientModel, CallableModel, CallableNumericalModel, NumericalGradientModel,
           'dict', 'expression']
for _c in CLASSES[:5]:
    _c.mc_name = _c.__name__
LIMITS = [(None, None), (0, None), (None, 0), (0.0, 0.5), (-2, 3), (None, 5.0), (-1, None)]


class Done(Exception):
    pass


def limits(ch, am):
    """Bounds and fixed flags; returns (attributes, anything set)."""
    attrs, some = {}, False
    for q in am.abs_params:
        lo, hi = ch.pick('bounds of ' + q, LIMITS)
        fx = ch.flag('fixed ' + q)
        v = 0.25
        if lo is not None and lo > v:
            v = lo
        if hi is not None and hi < v:
            v = hi
        attrs[am.nm(q)] = dict(min=lo, max=hi, fixed=fx, value=v)
        some = some or lo is not None or hi is not None or fx
    if all(a['fixed'] for a in attrs.values()):
        raise Skip()
    return attrs, some


def make_model(ch, am, syms, cls):
    if cls == 'dict':
        return am.model_dict(syms)
    if cls == 'expression':
        if len(am.comps) != 1:
            raise Skip()
        return list(am.model_dict(syms).values())[0]
    if cls in (CallableNumericalModel, NumericalGradientModel):
        d, con = am.callables(syms)
        return cls(d, connectivity_mapping=con)
    return cls(am.model_dict(syms))


def con_options(ch, am, syms):
    a = syms[am.nm(am.abs_params[0])]
    table = {'none': [], 'empty': [], 'one': [Ge(a, -5)], 'equality': [Eq(a, 0.25)],
             'two': [Le(a, 5), Ge(a, -5)]}
    k = ch.pick('constraints', list(table))
    return k, table[k]


def watch(fit, expect_calls=True, **options):
    """Execute with a back end which records the first call."""
    seen = []

    def back_end(name, args):
        seen.append(handed.Handed(name, args))
        raise Done()
    with scripted(back_end):
        try:
            fit.execute(**options)
        except Done:
            pass
    return seen[0]


def kind_of(h):
    """The minimizer as visible at the back end."""
    if h.name == 'differential_evolution':
        return DifferentialEvolution
    if h.name == 'basinhopping':
        return BasinHopping
    if h.name == 'least_squares':
        return MINPACK
    return {v: k for k, v in METHOD.items()}[h.method]


def selection(ch):
    """Everything left to Fit."""
    group = ch.pick('kind of model', ['without independent variables', 'with', 'several'], dev=False)
    label, forms = ch.pick('model', {'without independent variables': WITHOUT, 'with': WITH,
                                     'several': TWO}[group], dev=False)
    cls = ch.pick('class', CLASSES)
    names = ch.pick('names', gen.NAMES[:4] if THOROUGH else gen.NAMES[:2])
    am = gen.AM(forms, names[1])
    attrs, some = limits(ch, am)
    syms = am.symbols(**attrs)
    con_label, cons = con_options(ch, am, syms)
    minimizer = ch.pick('minimizer', [None] + ALL + [MINPACK], dev=False)
    objective = ch.pick('objective', [None, LeastSquares, LogLikelihood, MinimizeModel])
    model = make_model(ch, am, syms, cls)
    with_data = group != 'without independent variables' or ch.flag('data', dev=False)
    if objective in (LogLikelihood, MinimizeModel):
        with_data = False
    if objective is MinimizeModel and (group != 'without independent variables'):
        raise Skip()
    if minimizer is MINPACK and (objective is not None or not with_data):
        raise Skip()
    if objective is LeastSquares and not with_data:
        raise Skip()
    kw = {am.nm('x'): X} if 'x' in am.abs_indep else {}
    if with_data:
        if cls == 'expression':
            raise Skip()
        for i, n in enumerate(am.dep):
            kw[n] = X + i if kw else np.array([1.5 + i])
    if cls == 'expression' and kw and objective is None:
        raise Skip()
    if con_label != 'none':
        kw['constraints'] = cons
    if con_label == 'empty':
        kw['constraints'] = ch.pick('empty', [[], (), None], dev=False)
    if minimizer is not None:
        kw['minimizer'] = minimizer
    if objective is not None:
        kw['objective'] = objective
    ch.op()
    fit = Fit(model, **kw)
    # the objective
    if objective is not None:
        exp = objective
    elif minimizer is MINPACK:
        exp = VectorLeastSquares
    elif group == 'without independent variables' and not with_data:
        exp = MinimizeModel
    else:
        exp = LeastSquares
    ch.expect(type(fit.objective) is exp, 'objective', 'objective of the fit',
              expected=exp.__name__, got=type(fit.objective).__name__)
    default = SLSQP if cons else (LBFGSB if some else BFGS)
    exp = minimizer if minimizer is not None else default
    ch.expect(type(fit.minimizer) is exp, 'minimizer', 'minimizer of the fit',
              expected=exp.__name__, got=type(fit.minimizer).__name__)
    if exp is BasinHopping:
        ch.expect(type(fit.minimizer.local_minimizer) is default, 'local minimizer',
                  'local minimizer of basin hopping', expected=default.__name__,
                  got=type(fit.minimizer.local_minimizer).__name__)
    h = watch(fit)
    ch.expect(kind_of(h) is exp if exp is not BasinHopping else h.name == 'basinhopping',
              'back end', 'back end that is used', expected=exp.__name__, got=(h.name, h.method))
    if exp is BasinHopping:
        ch.equal(h.method, METHOD[default], 'local method', 'local method of basin hopping')
        if default in (LBFGSB, SLSQP):
            bounds = [(-handed.INF if attrs[n]['min'] is None else float(attrs[n]['min']),
                       handed.INF if attrs[n]['max'] is None else float(attrs[n]['max']))
                      for n in am.params if not attrs[n]['fixed']]
            got = h.bounds if h.bounds is not None else [(-handed.INF, handed.INF)] * len(bounds)
            ch.equal([tuple(b) for b in got], bounds, 'local bounds', 'bounds of the local minimizer')
        ch.equal(len(h.constraints), len(cons) if default is SLSQP else 0, 'local constraints',
                 'constraints of the local minimizer')
    ch.obs(label, str(cls), exp.__name__, type(fit.objective).__name__, some, con_label)


def refused(ch):
    """Without data only a model of one component says what to minimize."""
    label, forms = ch.pick('model', TWO + [
        ('three', TWO[0][1] + [F('u=a*c', 'a c', lambda m, a, c: a*c)]),
        ('three, nested', TWO[1][1] + [F('u=y+z', 'y z', lambda m, y, z: y + z)]),
        ('nested first', [F('y=a*b', 'a b', lambda m, a, b: a*b), F('a1=y+c', 'y c', lambda m, y, c: y + c)]),
    ] + WITH, dev=False)
    cls = ch.pick('class', CLASSES, dev=False)
    names = ch.pick('names', gen.NAMES[:4] if THOROUGH else gen.NAMES[:2], dev=False)
    minimizer = ch.pick('minimizer', [None, NelderMead, SLSQP], dev=False)
    am = gen.AM(forms, names[1])
    syms = am.symbols(**{am.nm(q): dict(value=0.25, min=None, max=None, fixed=False)
                         for q in am.abs_params})
    model = make_model(ch, am, syms, cls)
    if cls == 'expression' and len(am.dep) == 1 and 'x' not in am.abs_indep:
        raise Skip()
    kw = {} if minimizer is None else {'minimizer': minimizer}
    ch.op()
    ch.raises(TypeError, lambda: Fit(model, **kw), 'no data', 'a fit without the data it needs')
    if 'x' in am.abs_indep:
        ch.raises(TypeError, lambda: Fit(model, **dict(kw, **{am.nm('x'): X})), 'no dependent data',
                  'a fit with independent data only')
    ch.obs(label, str(cls), names[0])


def explicit(ch):
    """Instances and sequences are used as they are."""
    label, forms = ch.pick('model', WITHOUT + WITH[:3], dev=False)
    am = gen.AM(forms, ch.pick('names', gen.NAMES[:2])[1])
    attrs, some = limits(ch, am)
    syms = am.symbols(**attrs)
    con_label, cons = con_options(ch, am, syms)
    model = Model(am.model_dict(syms))
    has_x = 'x' in am.abs_indep
    kw = {am.nm('x'): X} if has_x else {}
    if has_x:
        for i, n in enumerate(am.dep):
            kw[n] = X + i
    if con_label != 'none':
        kw['constraints'] = cons
    data = {v: kw.get(v.name) for v in model.vars}
    for v, s in model.sigmas.items():
        data[s] = None if kw.get(v.name) is None else np.ones(3)
    obj_how = ch.pick('objective', ['class', 'instance', 'none'], dev=False)
    obj_cls = LeastSquares if has_x else MinimizeModel
    objective = {'class': obj_cls, 'instance': obj_cls(model, data), 'none': None}[obj_how]
    how = ch.pick('minimizer', ['instance', 'list', 'tuple', 'list of instances', 'mixed', 'single list',
                                'chain'], dev=False)
    first = ch.pick('first', ALL, dev=False)
    second = ch.pick('second', [NelderMead, BFGS, LBFGSB, BasinHopping, SLSQP] if not THOROUGH else ALL)
    o = objective if obj_how == 'instance' else obj_cls(model, data)
    inst = lambda c: c(o, model.params)
    given = {
        'instance': lambda: inst(first), 'list': lambda: [first, second],
        'tuple': lambda: (first, second), 'list of instances': lambda: [inst(first), inst(second)],
        'mixed': lambda: [inst(first), second], 'single list': lambda: [first],
        'chain': lambda: ChainedMinimizer(o, model.params, minimizers=[inst(first), inst(second)]),
    }[how]()
    if objective is not None:
        kw['objective'] = objective
    ch.op()
    copy = list(given) if isinstance(given, list) else None
    fit = Fit(model, minimizer=given, **kw)
    if copy is not None:
        ch.expect(len(copy) == len(given) and all(p is q for p, q in zip(copy, given)),
                  'sequence changed', 'the sequence of the user')
    if obj_how == 'instance':
        ch.expect(fit.objective is objective, 'objective instance', 'objective instance is used')
    else:
        ch.expect(type(fit.objective) is obj_cls, 'objective', 'objective of the fit',
                  got=type(fit.objective).__name__)
    if how in ('instance', 'chain'):
        ch.expect(fit.minimizer is given, 'minimizer instance', 'minimizer instance is used')
    else:
        ch.expect(type(fit.minimizer) is ChainedMinimizer, 'chain', 'sequences make a chain',
                  got=type(fit.minimizer).__name__)
        stages = list(fit.minimizer.minimizers)
        ch.equal(len(stages), len(given), 'stages', 'number of stages')
        for s, g in zip(stages, given):
            ch.expect(s is g if isinstance(g, BaseMinimizer) else type(s) is g, 'stage',
                      'stages in the order given', expected=repr(g), got=repr(s))
            if g is BasinHopping:
                default = SLSQP if cons else (LBFGSB if some else BFGS)
                ch.expect(type(s.local_minimizer) is default, 'local minimizer',
                          'local minimizer of basin hopping', expected=default.__name__,
                          got=type(s.local_minimizer).__name__)
    h = watch(fit)
    ch.expect(kind_of(h) is first, 'back end', 'first back end that is used',
              expected=first.__name__, got=(h.name, h.method))
    ch.obs(label, how, first.__name__, second.__name__, obj_how, some, con_label)


def ode(ch):
    """ODE models are fitted by least squares."""
    lim = ch.pick('bounds', LIMITS, dev=False)
    fixed = ch.flag('fixed', dev=False)
    con = ch.flag('initial value', dev=False)
    minimizer = ch.pick('minimizer', [None, BasinHopping, MINPACK, NelderMead], dev=False)
    x, y = Variable('x'), Variable('y')
    v = 0.25
    a = gen.param('a', v, *lim)
    b = gen.param('b', v, None, None, fixed)
    y0 = gen.param('y0', 1.0)
    model = ODEModel({D(y, x): a*x + b}, {x: 0.0, y: y0 if con else 1.0})
    ch.op()
    kw = {} if minimizer is None else {'minimizer': minimizer}
    fit = Fit(model, x=X, y=X, **kw)
    some = fixed or lim != (None, None)
    default = LBFGSB if some else BFGS
    ch.expect(type(fit.objective) is (VectorLeastSquares if minimizer is MINPACK else LeastSquares),
              'objective', 'objective of the fit', got=type(fit.objective).__name__)
    ch.expect(type(fit.minimizer) is (minimizer or default), 'minimizer', 'minimizer of the fit',
              got=type(fit.minimizer).__name__)
    if minimizer is BasinHopping:
        ch.expect(type(fit.minimizer.local_minimizer) is default, 'local minimizer', 'local minimizer')
    ch.obs(str(lim), fixed, con, str(minimizer))


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'selection': {'body': selection, 'bound': 3 if t else 2},
            'explicit': {'body': explicit, 'bound': 2 if t else 1},
            'ode': {'body': ode, 'bound': 0},
            'refused': {'body': refused},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'kind of model x explicit minimizer x data completely; within the bound model '
                'classes, bounds (zero and one-sided included) and fixed flag of every parameter, '
                'constraints, names and objective; the selection is read from the fit and from '
                'the back end that is called',
        'assumptions': [],
    }
