"""C08: derivatives of objectives match their values."""
import numpy as np

from ..env import symfit
from .. import gen
from ..core import Skip
from ..fitgen import *  # noqa
from .c07 import pick_problem, pick_objective, evaluate, STYLES, EVAL

ANALYTIC = ['Model', 'GradientModel', 'NumericalGradientModel']


def tol(p, scale):
    if p.kind == 'NumericalGradientModel':
        return dict(rtol=1e-4, atol=1e-4 * (1 + scale))
    return dict(rtol=1e-8, atol=1e-9 * (1 + scale))


def derivatives(ch, p, obj, ref_of, squeeze):
    which = ch.pick('derivative', ['both', 'hessian first'] if p.kind == 'Model' else ['jacobian'],
                    dev=False)
    style = ch.pick('call', STYLES)
    for label, pt in EVAL:
        vals = p.at(gen.at(p.am, pt))
        ref = ref_of(vals)
        scale = float(np.max(np.abs(ref.v))) if ref.v.size else 0.
        steps = ['g', 'h'] if which == 'both' else (['h', 'g'] if which == 'hessian first' else ['g'])
        for step in steps:
            if step == 'g':
                out = evaluate(ch, obj.eval_jacobian, p, vals, style)
                ch.close(out, ref.g, 'gradient', 'gradient of the objective', **tol(p, scale))
            else:
                out = evaluate(ch, obj.eval_hessian, p, vals, style)
                ch.close(out, ref.h, 'hessian', 'Hessian of the objective', **tol(p, scale))
        ch.obs(label, np.round(ref.g, 6), np.round(ref.h, 6))


def least_squares(ch, **kw):
    p = pick_problem(ch, 'least squares', ANALYTIC, **kw)
    obj = pick_objective(ch, p, LeastSquares)
    derivatives(ch, p, obj, p.least_squares, True)


def models(ch):
    least_squares(ch, dev=False, names=gen.NAMES[1:2], fixed=False)


def likelihood(ch):
    p = pick_problem(ch, 'likelihood', ANALYTIC)
    obj = pick_objective(ch, p, LogLikelihood)
    derivatives(ch, p, obj, p.likelihood, True)


def minimize(ch):
    p = pick_problem(ch, 'minimize', ANALYTIC)
    obj = pick_objective(ch, p, MinimizeModel)
    derivatives(ch, p, obj, p.minimize, False)


def vector(ch):
    p = pick_problem(ch, 'vector', ANALYTIC)
    if len(set(np.shape(p.y[n]) for n in p.used)) != 1:
        raise Skip()
    obj = pick_objective(ch, p, VectorLeastSquares)
    style = ch.pick('call', STYLES)
    for label, pt in EVAL:
        vals = p.at(gen.at(p.am, pt))
        ref = p.vector(vals)
        # the root is not differentiable where all residuals vanish
        smooth = ref.v > 1e-6
        out = evaluate(ch, obj.eval_jacobian, p, vals, style)
        if not ch.expect(np.shape(out) == (ref.v.size, len(p.am.params)), 'shape',
                         'shape of the Jacobian of the residuals', got=np.shape(out)):
            continue
        g = ref.g.T
        scale = float(np.max(np.abs(ref.v)))
        ch.close(out[smooth], g[smooth], 'residual Jacobian', 'Jacobian of every residual',
                 **tol(p, scale))
        ch.obs(label, np.round(g[smooth], 6))


def spec(tier):
    t = tier == 'thorough'
    b = 3 if t else 2
    return {
        'bodies': {
            'least squares': {'body': least_squares, 'bound': b},
            'models': {'body': models, 'bound': 1 if t else 0},
            'vector': {'body': vector, 'bound': b},
            'likelihood': {'body': likelihood, 'bound': b},
            'minimize': {'body': minimize, 'bound': b},
        },
        'budget_s': 120 if not t else 780,
        'rule': 'the problems of C07 for models with derivatives (analytical and finite '
                'difference), both orders of asking; derivatives at two points; an outcome is '
                'the reference gradient and Hessian',
        'assumptions': ['reference derivatives come from second order jets in numpy; finite '
                        'difference models are compared within 1e-4'],
    }
