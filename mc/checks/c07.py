"""C07 objective values; C08 uses the same problems for the derivatives."""
import numpy as np

from ..env import symfit
from .. import gen
from ..core import Skip
from ..fitgen import *  # noqa
from symfit.core.objectives import BaseObjective

EVAL = [
    ('first', dict(a=0.3, b=-0.7, c=1.1, d=0.2)),
    ('second', dict(a=-1.2, b=0.0, c=0.6, d=1.5)),
]
WIDE = {'scalar': [(3,), (2, 2)], 'one': [(4,), (2, 3)]}


def pick_problem(ch, objective, kinds, y=None, z=None, u=None, fixed=True, xs=None, names=None,
                 dev=True):
    """A model with data; the objective decides what is meaningful."""
    if objective in ('likelihood',):
        y, z = y or L_FORMS, L_Z_FORMS if z is None else z
    elif objective == 'minimize':
        y = y or (M_FORMS + L_FORMS[:2])
        z = M_Z_FORMS if z is None else z
    else:
        y, z, u = y or gen.Y_FORMS, gen.Z_FORMS if z is None else z, u or gen.U_FORMS[:4]
    am = gen.pick_model(ch, y=y, z=z, u=u, names=names, allow_odd=False, dev=dev)
    if not am.params or (objective == 'minimize' and len(am.dep) != 1):
        raise Skip()
    kind = ch.pick('model', kinds)
    x = ch.pick('x', xs or gen.XS)
    fx = ch.pick('fixed', subsets(am.abs_params)) if fixed else []
    start = ch.pick('values', gen.POINTS[:3])
    p = Problem(am, x[1], start[1], fx, kind=kind)
    if objective in ('least squares', 'vector'):
        kinds = [ch.pick('data', DATA if len(am.dep) > 1 else DATA[:-1]) for _ in am.dep]
        if all(k == 'none' for k in kinds):
            raise Skip()
        shapes = {}
        for n, s in p.component_shapes().items():
            if int(np.prod(s)) == 1:
                shapes[n] = ch.pick('data shape', [s, (3,), (2, 2), (2, 1), (3, 1), (2, 2, 1)])
            elif len(s) == 1:
                # axes which the component does not have come last
                shapes[n] = ch.pick('data shape', [s, s * 2, s + (2,), s + (1,)])
        p.make_data(kinds, shapes)
        p.make_sigma([ch.pick('sigma', SIGMA) if p.y[n] is not None else None for n in am.dep])
    else:
        p.make_data(['none'] * len(am.dep))
        p.make_sigma([None] * len(am.dep))
    p.build()
    return p


def pick_objective(ch, p, cls):
    how = ch.pick('objective from', ['Fit', 'data', 'Fit by position'])
    if how == 'data':
        return cls(p.model, p.direct())
    named = p.named()
    if cls in (LogLikelihood, MinimizeModel):
        named = dict(p.x)
    if how == 'Fit by position':
        order = p.am.indep
        if cls not in (LogLikelihood, MinimizeModel):
            order = order + p.am.dep + ['sigma_' + n for n in p.am.dep]
        return Fit(p.model, *[named.get(n) for n in order], objective=cls).objective
    return Fit(p.model, objective=cls, **named).objective


def evaluate(ch, f, p, vals, style, **kw):
    """``vals`` by name for all parameters of the model."""
    ch.op()
    free = [vals[n] for n in p.free]
    if style == 'list':
        return f(list(free), **kw)
    if style == 'array':
        return f(np.array(free, dtype=float), **kw)
    if style == 'tuple':
        return f(tuple(free), **kw)
    if style == 'keywords':
        return f(**dict({n: vals[n] for n in p.free}, **kw))
    if style == 'all keywords':
        return f(**dict(vals, **kw))
    k = len(free) // 2
    return f(free[:k], **dict({n: vals[n] for n in p.free[k:]}, **kw))


STYLES = ['list', 'array', 'keywords', 'all keywords', 'mixed', 'tuple']


def least_squares(ch, **kw):
    p = pick_problem(ch, 'least squares', MODELS, **kw)
    obj = pick_objective(ch, p, LeastSquares)
    style = ch.pick('call', STYLES)
    for label, pt in EVAL:
        vals = p.at(gen.at(p.am, pt))
        ref = p.least_squares(vals, [])
        out = evaluate(ch, obj, p, vals, style)
        ch.close(out, ref.v, 'value', 'least squares objective', rtol=1e-8, atol=1e-9)
        comps = evaluate(ch, obj, p, vals, style, flatten_components=False)
        ch.close(comps, p.per_component(vals), 'per component', 'least squares per component',
                 rtol=1e-8, atol=1e-9)
        ch.obs(label, ref.v, p.per_component(vals))


def models(ch):
    """Every model of up to three components with data."""
    least_squares(ch, dev=False, names=gen.NAMES[1:2], fixed=False)


def vector(ch):
    p = pick_problem(ch, 'vector', MODELS)
    if len(set(np.shape(p.y[n]) for n in p.used)) != 1:
        raise Skip()
    obj = pick_objective(ch, p, VectorLeastSquares)
    style = ch.pick('call', STYLES)
    for label, pt in EVAL:
        vals = p.at(gen.at(p.am, pt))
        ref = p.vector(vals, [])
        ch.close(evaluate(ch, obj, p, vals, style), ref.v, 'vector value',
                 'vector least squares objective', rtol=1e-8, atol=1e-8)
        shape = np.shape(p.y[p.used[0]])
        ch.close(evaluate(ch, obj, p, vals, style, flatten_components=False), ref.v.reshape(shape),
                 'vector shape', 'vector least squares without flattening', rtol=1e-8, atol=1e-8)
        ch.obs(label, ref.v)


def likelihood(ch):
    p = pick_problem(ch, 'likelihood', MODELS)
    obj = pick_objective(ch, p, LogLikelihood)
    style = ch.pick('call', STYLES)
    for label, pt in EVAL:
        vals = p.at(gen.at(p.am, pt))
        ref = p.likelihood(vals, [])
        ch.close(evaluate(ch, obj, p, vals, style), ref.v, 'likelihood', 'minus log-likelihood',
                 rtol=1e-8, atol=1e-9)
        ch.obs(label, ref.v)


def minimize(ch):
    p = pick_problem(ch, 'minimize', MODELS)
    obj = pick_objective(ch, p, MinimizeModel)
    style = ch.pick('call', STYLES)
    for label, pt in EVAL:
        vals = p.at(gen.at(p.am, pt))
        ref = p.minimize(vals, [])
        ch.close(evaluate(ch, obj, p, vals, style), ref.v, 'model', 'the model itself',
                 rtol=1e-8, atol=1e-9)
        ch.obs(label, ref.v)


def spec(tier):
    t = tier == 'thorough'
    b = 4 if t else 2
    return {
        'bodies': {
            'least squares': {'body': least_squares, 'bound': b},
            'models': {'body': models, 'bound': 1 if t else 0},
            'vector': {'body': vector, 'bound': b},
            'likelihood': {'body': likelihood, 'bound': b + (not t)},
            'minimize': {'body': minimize, 'bound': b + (not t)},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'models of up to three components times model class, argument and data shapes '
                '(own, broadcast), data kinds (integers, zeros, absent), sigma kinds, fixed '
                'subsets, construction (direct, through Fit by name or position), calling style; '
                'each objective is evaluated at two points; an outcome is the reference value',
        'assumptions': ['reference values are computed by numpy, sharing no code with symfit'],
    }
