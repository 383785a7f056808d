"""
Plays the numerical back end of a fit: compares the problem it is handed with
the stated problem at every point of a grid and answers with a chosen point.
"""
import itertools

import numpy as np

from .env import scripted
from . import gen, handed
from .handed import central
from .fitgen import *  # noqa
from symfit.core.minimizers import (
    BFGS, LBFGSB, SLSQP, COBYLA, NelderMead, Powell, TrustConstr,
    DifferentialEvolution, BasinHopping, MINPACK, ChainedMinimizer)

MINIMIZERS = [BFGS, LBFGSB, SLSQP, TrustConstr, BasinHopping, DifferentialEvolution,
              NelderMead, Powell, COBYLA]
METHOD = {BFGS: 'BFGS', LBFGSB: 'L-BFGS-B', SLSQP: 'SLSQP', TrustConstr: 'trust-constr',
          NelderMead: 'Nelder-Mead', Powell: 'Powell', COBYLA: 'COBYLA'}
from symfit.core.minimizers import GradientMinimizer as GRADIENT  # noqa
BOUNDED = (LBFGSB, SLSQP, TrustConstr, DifferentialEvolution, MINPACK)
CONSTRAINED = (SLSQP, TrustConstr, COBYLA)
for m in MINIMIZERS + [MINPACK]:
    m.mc_name = m.__name__

OBJECTIVES = {'least squares': LeastSquares, 'likelihood': LogLikelihood,
              'minimize': MinimizeModel, 'vector': VectorLeastSquares}

CASES = {
    'least squares': [
        [gen.F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b),
         gen.F('z=c*x**2+d', 'c x d', lambda m, c, x, d: c*x**2 + d)],
        [gen.F('y=sin(a*x+b*c)', 'a x b c', lambda m, a, x, b, c: m.sin(a*x + b*c))],
        [gen.F('y=a*exp(-b*x)', 'a x b', lambda m, a, x, b: a*m.exp(-b*x)),
         gen.F('z=c*y**2+b', 'c y b', lambda m, c, y, b: c*y**2 + b)],
        [gen.F('y=a**3+x', 'a x', lambda m, a, x: a**3 + x)],
    ],
    'likelihood': [
        [gen.F('y=exp(a*x+b)', 'a x b', lambda m, a, x, b: m.exp(a*x + b)),
         gen.F('z=exp(c*x*b)', 'c x b', lambda m, c, x, b: m.exp(c*x*b))],
        [gen.F('y=exp(-(x-a)**2/2)*(1+b**2)', 'x a b',
               lambda m, x, a, b: m.exp(-(x - a)**2/2)*(1 + b**2))],
    ],
    'minimize': [
        [gen.F('y=a**2+a*b+2*b**2-c*b**2', 'a b c',
               lambda m, a, b, c: a**2 + a*b + 2*b**2 - c*b**2)],
        [gen.F('y=a*b**2*c*d+a', 'a b c d', lambda m, a, b, c, d: a*b**2*c*d + a)],
        [gen.F('y=(a-1)**2*b', 'a b', lambda m, a, b: (a - 1)**2*b),
         gen.F('z=y**2+c*a', 'y c a', lambda m, y, c, a: y**2 + c*a)],
    ],
}
CASES['vector'] = CASES['least squares']
GRID = (-0.5, 0.75)


def grid(n):
    if n <= 2:
        return [np.array(g) for g in itertools.product(GRID, repeat=n)]
    out = [np.full(n, GRID[0]), np.full(n, GRID[1])]
    for i in range(n):
        g = np.full(n, GRID[0])
        g[i] = GRID[1] + 0.125 * i
        out.append(g)
    return out


class Case(object):
    """A problem, its objective and the reference for both."""

    def __init__(self, p, objective):
        self.p, self.objective = p, objective

    def ref(self, free_values):
        p = self.p
        vals = p.at(dict(zip(p.free, free_values)))
        f = {'least squares': p.least_squares, 'likelihood': p.likelihood,
             'minimize': p.minimize, 'vector': p.vector}[self.objective]
        return f(vals, p.free)

    def scalar(self, free_values):
        j = self.ref(free_values)
        return jets.total(j) if self.objective != 'vector' else j


def tol(p):
    if p.kind == 'NumericalGradientModel':
        return dict(rtol=1e-4, atol=1e-4)
    return dict(rtol=1e-8, atol=1e-8)


def check_function(ch, case, h, points=None):
    """Function, gradient and Hessian at every grid point."""
    p = case.p
    n = len(p.free)
    for g in (points or grid(n)):
        ch.op()
        ref = case.scalar(g)
        t = tol(p)
        if case.objective == 'vector':
            ch.close(np.ravel(h.fun(g)), ref.v, 'function', 'residuals handed to the back end',
                     at=g, rtol=1e-8, atol=1e-8)
            if callable(h.jac):
                ok = ref.v > 1e-6
                out = np.asarray(h.jac(g))
                if ch.expect(out.shape == (ref.v.size, n), 'jacobian shape',
                             'shape of the Jacobian', got=out.shape):
                    ch.close(out[ok], ref.g.T[ok], 'gradient', 'Jacobian handed to the back end',
                             at=g, **t)
            continue
        ch.close(np.squeeze(h.fun(g)), ref.v, 'function', 'function handed to the back end', at=g,
                 rtol=1e-8, atol=1e-9)
        if callable(h.jac):
            ch.close(h.jac(g), ref.g, 'gradient', 'gradient handed to the back end', at=g, **t)
        if callable(h.hess):
            ch.close(h.hess(g), ref.h, 'hessian', 'Hessian handed to the back end', at=g, **t)


def expected_bounds(p):
    out = []
    for n in p.free:
        a = p.attrs[n]
        lo, hi = a.get('min'), a.get('max')
        out.append((-handed.INF if lo is None else float(lo), handed.INF if hi is None else float(hi)))
    return out


def check_bounds(ch, case, h, bounded):
    exp = expected_bounds(case.p)
    if bounded:
        got = h.bounds if h.bounds is not None else [(-handed.INF, handed.INF)] * len(exp)
        ch.equal([tuple(b) for b in got], exp, 'bounds', 'bounds handed to the back end')
    else:
        ch.expect(h.bounds is None or [tuple(b) for b in h.bounds] == exp, 'bounds',
                  'bounds handed to the back end', got=h.bounds)


def check_start(ch, case, h, start=None):
    p = case.p
    if h.x0 is None:
        return
    exp = [p.start[n] for n in p.free] if start is None else start
    ch.close(h.x0, np.array(exp, dtype=float), 'initial', 'initial values handed to the back end',
             rtol=0, atol=0)


def execute(fit, script, **options):
    """Run with ``script(h) -> answer`` as back end; returns (result, handed...)."""
    seen = []

    def back_end(name, args):
        h = handed.Handed(name, args)
        seen.append(h)
        return script(h)
    with scripted(back_end):
        result = fit.execute(**options)
    return result, seen


def check_result(ch, case, result, answer):
    p = case.p
    exp = dict(p.start)
    exp.update(dict(zip(p.free, np.atleast_1d(answer).tolist())))
    ch.equal(list(result.params), p.am.params, 'result names', 'parameters of the result')
    for n in p.am.params:
        ch.expect(float(result.params[n]) == float(exp[n]), 'result value',
                  'value reported for a parameter', parameter=n, got=float(result.params[n]),
                  expected=exp[n], fixed=n in p.fixed)
        ch.expect(float(result.value(p.syms[n])) == float(exp[n]), 'result.value',
                  'result.value of a parameter', parameter=n)


def check_attributes(ch, case):
    """No Parameter object was modified."""
    for n, a in case.p.attrs.items():
        q = case.p.syms[n]
        ch.equal((q.value, q.min, q.max, bool(q.fixed)),
                 (a['value'], a.get('min'), a.get('max'), bool(a['fixed'])),
                 'parameter changed', 'attributes of a Parameter after the fit')


def make_case(ch, objective, forms, kind='Model', fixed=(), names=None, start=None, attrs=None,
              xs=None, data=('noisy', 'noisy'), sigma=('scalar', None), order=None):
    am = gen.AM(forms, (names or gen.NAMES[0])[1])
    p = Problem(am, (xs or gen.XS[0])[1], start or gen.POINTS[0][1], fixed, attrs, kind, order)
    if objective in ('least squares', 'vector'):
        p.make_data(list(data)[:len(am.dep)])
        p.make_sigma(list(sigma)[:len(am.dep)])
    else:
        p.make_data(['none'] * len(am.dep))
        p.make_sigma([None] * len(am.dep))
        if objective == 'minimize':
            p.x = {}
    p.build()
    return Case(p, objective)


def make_fit(case, minimizer, **kw):
    p = case.p
    if case.objective in ('least squares', 'vector'):
        named = p.named()
    else:
        named = dict(p.x)
    return Fit(p.model, minimizer=minimizer, objective=OBJECTIVES[case.objective],
               **dict(named, **kw))
