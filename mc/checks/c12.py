"""C12: constraints mean what the user wrote."""
import itertools

import numpy as np
import sympy
from symfit import Eq, Ge, Le, Gt, Lt, Ne, Variable, Parameter, Model, CallableModel
from symfit.core.models import ModelError, GradientModel

from ..env import scripted
from .. import gen, handed, jets
from ..core import Skip
from ..backend import *  # noqa


class Done(Exception):
    """Raised by the back end: the rest of the fit is not of interest."""


def run(fit, script):
    try:
        return execute(fit, script)
    except Done:
        return None, None


class Rel(object):
    """lhs op rhs, both as polymorphic functions of a dict of symbols."""

    def __init__(self, name, lhs, rhs, needs=''):
        self.mc_name = name
        self.lhs, self.rhs = lhs, rhs
        self.needs = set(needs.split())


SIDES = [
    Rel('a vs b', lambda s: s['a'], lambda s: s['b'], 'a b'),
    Rel('a*b vs 1', lambda s: s['a']*s['b'], lambda s: 1, 'a b'),
    Rel('a vs 0', lambda s: s['a'], lambda s: 0, 'a'),
    Rel('a**2+b**2 vs c', lambda s: s['a']**2 + s['b']**2, lambda s: s['c'], 'a b c'),
    Rel('c-1 vs 2*a*b', lambda s: s['c'] - 1, lambda s: 2*s['a']*s['b'], 'a b c'),
    Rel('1/2 vs b', lambda s: sympy.Rational(1, 2) if isinstance(s['b'], sympy.Basic) else 0.5,
        lambda s: s['b'], 'b'),
    Rel('y vs 1', lambda s: s['y'], lambda s: 1, 'y'),
    Rel('y*a vs b', lambda s: s['y']*s['a'], lambda s: s['b'], 'y a b'),
    Rel('z vs y', lambda s: s['z'], lambda s: s['y'], 'z y'),
    Rel('z vs 2', lambda s: s['z'], lambda s: 2, 'z'),
    Rel('u-z vs a', lambda s: s['u'] - s['z'], lambda s: s['a'], 'u z a'),
    Rel('u vs 1', lambda s: s['u'], lambda s: 1, 'u'),
    Rel('c*q vs a', lambda s: s['c']*s['q'], lambda s: s['a'], 'c q a'),
    Rel('q vs b', lambda s: s['q'], lambda s: s['b'], 'q b'),
]
OPS = [Ge, Le, Eq]
THOROUGH = False


def further(sides):
    """Options for the constraints after the first."""
    return sides if THOROUGH else [s for s in sides if s.mc_name in (
        'a vs b', 'a**2+b**2 vs c', 'c-1 vs 2*a*b', 'z vs y', 'y vs 1', 'c*q vs a')]
MODELS_ = {
    'one': [gen.F('y=a**2+a*b+2*b**2-c*b**2', 'a b c',
                  lambda m, a, b, c: a**2 + a*b + 2*b**2 - c*b**2)],
    'two': [gen.F('y=(a-1)**2*b', 'a b', lambda m, a, b: (a - 1)**2*b),
            gen.F('z=y**2+c*a', 'y c a', lambda m, y, c, a: y**2 + c*a)],
    'three': [gen.F('y=a*b', 'a b', lambda m, a, b: a*b),
              gen.F('z=y+c', 'y c', lambda m, y, c: y + c),
              gen.F('u=z**2+a*c', 'z a c', lambda m, z, a, c: z**2 + a*c)],
}
VALUES = (-1.0, 0.5, 2.0, 0.0)


def con_grid(n, full):
    if (full and THOROUGH) or n <= 2:
        return [np.array(g) for g in itertools.product(VALUES, repeat=n)]
    return [np.array(g) for g in itertools.product(VALUES[:3], repeat=n)]


def sense(op, l, r):
    if op is Eq:
        return abs(l - r) <= 1e-12
    return l >= r - 1e-12 if op is Ge else l <= r + 1e-12


def setup(ch, minimizers, fixed_dev=True):
    label = ch.pick('model', list(MODELS_), dev=False)
    forms = MODELS_[label]
    am0 = gen.AM(forms)
    minimizer = ch.pick('minimizer', minimizers, dev=False)
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[2]] + (
        [gen.NAMES[0], gen.NAMES[3]] if THOROUGH else []))
    kind = ch.pick('class', ['Model', 'GradientModel', 'CallableModel', 'CallableNumericalModel',
                             'NumericalGradientModel'])
    fx = ch.pick('fixed', [[]] + [s for s in subsets(am0.abs_params) if s
                                  and len(s) < len(am0.abs_params)])
    case = make_case(ch, 'minimize', forms, kind, fx, names,
                     dict(a=0.5, b=-1.0, c=2.0, d=0.5))
    syms = {k: case.p.syms[case.p.am.nm(k)] for k in am0.abs_params + am0.comps}
    return case, minimizer, syms


Q = 0.5


def as_given(ch, case, rel, op, syms, how):
    """The constraint in one of the documented formats."""
    l, r = rel.lhs(syms), rel.rhs(syms)
    cls = case.p.model.__class__
    if issubclass(cls, CallableNumericalModel):
        cls = CallableModel
        if rel.needs & set('yzu'):
            # relations with components of numerical models: known finding, see `numerical`
            con = Variable('con')
            return CallableNumericalModel.as_constraint(
                {con: l - r}, case.p.model, constraint_type=op,
                connectivity_mapping={con: (l - r).free_symbols})
    if how == 'relation':
        return op(l, r)
    if how == 'model':
        return cls.as_constraint(op(l, r), case.p.model)
    if how == 'expression':
        return cls.as_constraint(l - r, case.p.model, constraint_type=op)
    if how == 'mapping':
        return cls.as_constraint({Variable('con'): l - r}, case.p.model, constraint_type=op)


def compare(ch, case, cons, h, minimizer, full):
    p = case.p
    n = len(p.free)
    if not ch.expect(len(h.constraints) == len(cons), 'number', 'number of constraints',
                     got=len(h.constraints), expected=len(cons)):
        return
    inv = {p.am.nm(k): k for k in list('abcyzu') if p.am.nm(k) in p.syms}
    for i, ((rel, op), c) in enumerate(zip(cons, h.constraints)):
        for g in con_grid(n, full)[::1 if THOROUGH or full or n < 3 else 4]:
            vals = p.at(dict(zip(p.free, g)))
            env = {inv[q]: v for q, v in vals.items() if q in inv}
            if rel.needs & set('yzu'):
                comps = p.components(vals, [])
                env.update({inv[q]: float(np.squeeze(j.v)) for q, j in comps.items()})
            env['q'] = Q
            l, r = float(rel.lhs(env)), float(rel.rhs(env))
            ch.op()
            ch.expect(c.satisfied(g) == sense(op, l, r), 'meaning',
                      'the points which satisfy a constraint', at=g.tolist(), lhs=l, rhs=r,
                      op=op.__name__, handed=c.value(g), index=i)
            ch.obs(rel.mc_name, op.__name__, l, r)
        derive = p.kind in ('Model', 'GradientModel') and (
            minimizer in (SLSQP, TrustConstr, BasinHopping))
        if derive:
            ch.expect(callable(c.jac), 'no gradient', 'a constraint has a gradient')
        if derive and p.kind == 'Model' and minimizer is TrustConstr:
            ch.expect(callable(c.hess), 'no hessian', 'a constraint has a Hessian')
        for k, g in enumerate([np.full(n, 0.75)] + con_grid(n, full)[::5 if THOROUGH else 7]):
            if k > 2 and not THOROUGH:
                break
            if c.jac is not None:
                ch.close(np.ravel(np.asarray(c.jac(g), float)), central(c.value, g).ravel(),
                         'gradient', 'gradient of a constraint', rtol=1e-5, atol=1e-6,
                         at=g.tolist(), index=i)
            if c.hess is not None and c.jac is not None and (THOROUGH or k < 2):
                fd = central(lambda x: np.ravel(c.jac(x)), g)
                hs = np.asarray(c.hess(g), float)
                ch.close(hs.reshape(fd.shape), fd, 'hessian', 'Hessian of a constraint',
                         rtol=1e-5, atol=1e-5, at=g.tolist(), index=i)
                if c.hess_v is not None:
                    ch.close(np.asarray(c.hess_v(g, np.array([-2.5]))).reshape(fd.shape),
                             -2.5 * fd, 'hessian multiplier', 'Hessian times multiplier',
                             rtol=1e-5, atol=1e-5)


def handed_over(ch):
    minimizers = [SLSQP, TrustConstr, COBYLA, BasinHopping]
    case, minimizer, syms = setup(ch, minimizers)
    syms['q'] = Variable('q')
    cons = []
    sides = [s for s in SIDES if s.needs <= set(syms)]
    for i in range(3):
        s = ch.pick('constraint {}'.format(i), (sides if i == 0 else [None] + further(sides)),
                    dev=i > 0)
        if s is None:
            break
        op = ch.pick('operator', OPS, dev=i > 0 or not THOROUGH)
        cons.append((s, op))
    how = ch.pick('given as', ['relation', 'model', 'expression', 'mapping'])
    container = ch.pick('container', [list, tuple])
    given = [as_given(ch, case, s, op, syms, how) for s, op in cons]
    if any(isinstance(g, (bool, sympy.logic.boolalg.BooleanAtom)) for g in given):
        raise Skip()
    extra = {'q': Q} if any('q' in s.needs for s, _ in cons) else {}
    fit = make_fit(case, minimizer, constraints=container(given), **extra)
    n = len(case.p.free)
    x = [0.25 * (i + 1) for i in range(n)]

    def script(h):
        compare(ch, case, cons, h, minimizer, len(cons) == 1)
        if ch.cost and not THOROUGH:
            raise Done()
        return h.answer(x)
    result, seen = run(fit, script)
    if result is None:
        return
    ch.expect(len(seen) == 1, 'calls', 'the back end is called once')
    check_result(ch, case, result, x)
    ch.expect(len(result.constraints) == len(cons), 'result', 'constraints of the result')


def several(ch):
    """All sequences of operators: no constraint affects the others."""
    minimizer = ch.pick('minimizer', [SLSQP, TrustConstr, COBYLA, BasinHopping], dev=False)
    n = ch.pick('number', [2, 3] + ([4] if THOROUGH else []), dev=False)
    given_to = ch.pick('given to', ['fit', 'minimizer'], dev=False)
    if given_to == 'minimizer' and minimizer is BasinHopping:
        raise Skip()
    ops = [ch.pick('operator', OPS, dev=False) for _ in range(n)]
    by_name = {s.mc_name: s for s in SIDES}
    names = ch.pick('constraints', [
        ['a vs b', 'c-1 vs 2*a*b', 'a**2+b**2 vs c', 'y vs 1'],
        ['a**2+b**2 vs c', 'a vs b', 'a vs 0', 'a*b vs 1']], dev=False)[:n]
    if n == 3 and names[0] != 'a vs b' and not THOROUGH:
        raise Skip()
    kind = ch.pick('class', ['Model', 'GradientModel', 'CallableModel'])
    fixed = ch.pick('fixed', [[], ['b']])
    case = make_case(ch, 'minimize', MODELS_['one'], kind, fixed, gen.NAMES[1],
                     dict(a=0.5, b=-1.0, c=2.0, d=0.5))
    p = case.p
    syms = {k: p.syms[p.am.nm(k)] for k in 'abcy'}
    cons = [(by_name[q], op) for q, op in zip(names, ops)]
    if given_to == 'fit':
        fit = make_fit(case, minimizer, constraints=[
            as_given(ch, case, s, op, syms, 'relation') for s, op in cons])
    else:
        given = [as_given(ch, case, s, op, syms, 'model') for s, op in cons]
        fit = minimizer(MinimizeModel(p.model, {v: None for v in p.model.dependent_vars +
                                                list(p.model.sigmas.values())}),
                        p.model.params, constraints=given)

    def script(h):
        compare(ch, case, cons, h, minimizer, False)
        raise Done()
    run(fit, script)


def direct(ch):
    """Constraints given to a minimizer."""
    case, minimizer, syms = setup(ch, [SLSQP, TrustConstr] + ([COBYLA] if THOROUGH else []))
    if case.p.kind not in ('Model', 'GradientModel'):
        raise Skip()
    sides = [s for s in SIDES if s.needs <= set(syms)]
    cons = []
    for i in range(2):
        s = ch.pick('constraint {}'.format(i), (sides if i == 0 else [None] + further(sides)), dev=i > 0)
        if s is None:
            break
        cons.append((s, ch.pick('operator', [Ge, Eq, Le], dev=i > 0 or not THOROUGH)))
    how = ch.pick('given as', ['relation', 'model'], dev=False)
    if how == 'relation' and any(op is Le for _, op in cons):
        raise Skip()     # raw relations are accepted as == and >= only
    p = case.p
    given = [as_given(ch, case, s, op, syms, how) for s, op in cons]
    obj = MinimizeModel(p.model, {v: None for v in p.model.dependent_vars +
                                  list(p.model.sigmas.values())})
    m = minimizer(obj, p.model.params, constraints=given)
    n = len(p.free)

    def script(h):
        compare(ch, case, cons, h, minimizer, False)
        return h.answer([0.25] * n)
    with scripted(lambda name, args: script(handed.Handed(name, args))):
        m.execute()


def refused(ch):
    case, minimizer, syms = setup(ch, [SLSQP, TrustConstr, None])
    foreign = gen.param('foreign')
    x = Variable('q')
    bad = {
        'strict greater': lambda: Gt(syms['a'], syms['b']),
        'strict less': lambda: Lt(syms['a'], 1),
        'unequal': lambda: Ne(syms['a'], syms['b']),
        'foreign parameter': lambda: Ge(syms['a'] * foreign, 1),
        'only foreign': lambda: Eq(foreign, 1),
        'foreign with component': lambda: Le(syms['y'], foreign),
        'vector': None, 'vector with low component': None, 'no type': None, 'strict type': None,
    }
    how = ch.pick('how', list(bad), dev=False)
    cls = case.p.model.__class__
    if case.p.kind in ('CallableNumericalModel', 'NumericalGradientModel'):
        cls = CallableModel
    position = ch.pick('position', [0, 1], dev=not THOROUGH)
    ch.op()
    u, v = Variable('con1'), Variable('con2')
    if how == 'foreign with component' and issubclass(case.p.model.__class__,
                                                      CallableNumericalModel):
        raise Skip()
    if how in ('vector', 'vector with low component'):
        e2 = syms['b'] if how == 'vector' else syms['y'] * syms['b']
        if how != 'vector' and cls is CallableModel:
            raise Skip()
        f = lambda: cls.as_constraint({u: syms['a'], v: e2}, case.p.model, constraint_type=Eq)
        ch.raises(ModelError, f, how, 'constraint: ' + how)
    elif how == 'no type':
        ch.raises(ModelError, lambda: cls.as_constraint(syms['a'], case.p.model), how, how)
    elif how == 'strict type':
        ch.raises(ModelError, lambda: cls.as_constraint(syms['a'], case.p.model, constraint_type=Gt),
                  how, how)
    else:
        good = [Ge(syms['a'], syms['b'])] if position else []
        ch.raises(ModelError, lambda: make_fit(case, minimizer, constraints=good + [bad[how]()]),
                  how, 'constraint: ' + how)
    ch.obs(how, position, case.p.kind, case.p.am.params)


def numerical(ch):
    """Relations which involve components of numerical models."""
    label = ch.pick('model', list(MODELS_), dev=False)
    sides = ch.pick('constraint', [s for s in SIDES if 'y' in s.needs and 'z' not in s.needs],
                    dev=False)
    op = ch.pick('operator', OPS, dev=False)
    kind = ch.pick('class', ['CallableNumericalModel', 'NumericalGradientModel'], dev=False)
    case = make_case(ch, 'minimize', MODELS_[label], kind, [], None,
                     dict(a=0.5, b=-1.0, c=2.0, d=0.5))
    syms = {k: case.p.syms[case.p.am.nm(k)] for k in case.p.am.abs_params + case.p.am.comps}
    ch.op()
    try:
        fit = make_fit(case, SLSQP, constraints=[op(sides.lhs(syms), sides.rhs(syms))])
    except (AttributeError, TypeError) as err:
        ch.fail('numerical component', 'relation with a component of a numerical model',
                error=repr(err))
        return
    x = [0.25] * len(case.p.free)

    def script(h):
        compare(ch, case, [(sides, op)], h, SLSQP, False)
        raise Done()
    run(fit, script)


def data_models(ch):
    """Constraints next to a model with data."""
    objective = ch.pick('objective', ['least squares', 'likelihood'], dev=False)
    forms = ch.pick('model', CASES[objective], dev=False)
    minimizer = ch.pick('minimizer', [SLSQP, TrustConstr, COBYLA], dev=False)
    am0 = gen.AM(forms)
    fx = ch.pick('fixed', [[]] + [[q] for q in am0.abs_params])
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2]])
    case = make_case(ch, objective, forms, 'Model', fx, names)
    syms = {k: case.p.syms[case.p.am.nm(k)] for k in am0.abs_params}
    syms['q'] = Variable('q')
    sides = [s for s in SIDES if s.needs <= set(syms)]
    first = ch.pick('constraint', sides, dev=False)
    cons = [(first, ch.pick('operator', OPS, dev=THOROUGH is False))]
    second = ch.pick('second', [None] + further(sides))
    if second is not None:
        cons.append((second, ch.pick('operator', OPS)))
    extra = {'q': Q} if any('q' in s.needs for s, _ in cons) else {}
    given = [as_given(ch, case, s, op, syms, 'relation') for s, op in cons]
    fit = make_fit(case, minimizer, constraints=given, **extra)
    x = [0.25] * len(case.p.free)

    def script(h):
        check_function(ch, case, h, grid(len(x))[:2])
        compare(ch, case, cons, h, minimizer, False)
        if ch.cost and not THOROUGH:
            raise Done()
        return h.answer(x)
    result, _ = run(fit, script)
    if result is None:
        return
    check_result(ch, case, result, x)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'handed over': {'body': handed_over, 'bound': 2 if t else 1},
            'several': {'body': several, 'bound': 2 if t else 0},
            'direct': {'body': direct, 'bound': 2 if t else 1},
            'refused': {'body': refused, 'bound': 3 if t else 1},
            'numerical': {'body': numerical, 'bound': 0},
            'data models': {'body': data_models, 'bound': 2 if t else 1},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'every relation of the grammar (parameters, components, further variables) with '
                '==, >= and <=, alone and in sequences, for every constrained minimizer; within '
                'the bound model classes, fixed parameters, names and formats; every point of a '
                'dyadic grid (on, inside and outside the boundary) is classified; an outcome is '
                '(relation, operator, both sides at a point)',
        'assumptions': ['gradients and Hessians of constraints are compared with central '
                        'differences of the constraint that was handed over (1e-5)'],
    }
