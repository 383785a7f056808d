"""C14: fit results report the fit faithfully."""
import re

import numpy as np
import sympy
from symfit import Eq, Ge, Le, ODEModel, D, Fit, Variable
from symfit.core.minimizers import ChainedMinimizer

from ..env import scripted
from .. import gen, handed, jets
from ..core import Skip
from ..backend import *  # noqa
from ..fitgen import subsets
from .c15 import LS, LIKE, MIN, XSC, FOUND

THOROUGH = False
GOFS = {'least squares': {'objective_value', 'chi_squared', 'r_squared'},
        'vector': {'objective_value', 'chi_squared', 'r_squared'},
        'likelihood': {'objective_value', 'log_likelihood', 'likelihood'},
        'minimize': {'objective_value'}}


def problem(ch, objective, cheap):
    forms = {'least squares': LS[:7], 'vector': LS[:6], 'likelihood': LIKE[:3],
             'minimize': MIN[:4]}[objective]
    forms = ch.pick('model', forms, dev=False)
    am0 = gen.AM(forms)
    kind = ch.pick('class', ['Model', 'CallableModel', 'GradientModel', 'CallableNumericalModel',
                             'NumericalGradientModel'])
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2], gen.NAMES[3]])
    xs = ch.pick('x', XSC if 'x' in am0.abs_indep else XSC[:1])
    fx = ch.pick('fixed', [s for s in subsets(am0.abs_params) if len(s) < len(am0.abs_params)])
    order = ch.pick('order', gen.orders(am0))
    am = gen.AM(forms, names[1])
    p = Problem(am, xs[1], gen.POINTS[0][1], fx, None, kind, order)
    if objective in ('least squares', 'vector'):
        kinds = [ch.pick('data of {}'.format(i), ['noisy', 'none', 'exact', 'int', 'zero'])
                 for i in range(len(am.dep))]
        if all(k == 'none' for k in kinds):
            raise Skip()
        ref = am.ref1(p.x, gen.at(am, TRUE))
        shapes = {n: ref[n].v.shape for n in am.dep}
        for n in am.dep:
            if shapes[n] == (1,):
                shapes[n] = ch.pick('shape of ' + n, [(5,), (2, 3)]) if objective != 'vector' else (
                    [s for s in shapes.values() if s != (1,)] or [(5,)])[0]
            elif len(shapes[n]) == 1 and objective != 'vector':
                k = shapes[n][0]     # repeated measurements, along another axis
                shapes[n] = ch.pick('shape of ' + n, [(k,), (k, k), (k, 2)])
        p.make_data(kinds, shapes)
        if objective == 'vector' and len(set(np.shape(p.y[n]) for n in p.used)) > 1:
            raise Skip()
        p.make_sigma([ch.pick('sigma of {}'.format(i), [None, 'array', 'scalar', 'int'])
                      for i in range(len(am.dep))])
    else:
        p.make_data(['none'] * len(am.dep))
        p.make_sigma([None] * len(am.dep))
        if objective == 'minimize':
            p.x = {}
    p.build()
    return Case(p, objective)


def reference(case, found):
    """Goodness of fit at the point found."""
    p = case.p
    vals = p.at(found)
    out = {}
    if case.objective in ('least squares', 'vector'):
        comps = p.components(vals, [])
        chi2 = 2 * float(p.least_squares(vals, []).v)
        res = tot = 0.0
        for n in p.used:
            y = np.asarray(p.y[n], float)
            f = jets.reshape(jets.trailing(comps[n], y.shape), y.shape).v
            res += float(np.sum((y - f)**2))
            tot += float(np.sum((y - np.mean(y))**2))
        out['chi_squared'] = chi2
        out['r_squared'] = 1 - res / tot if tot else None
        out['objective_value'] = chi2 / 2 if case.objective == 'least squares' else p.vector(vals, []).v
    elif case.objective == 'likelihood':
        v = float(p.likelihood(vals, []).v)
        out = {'objective_value': v, 'log_likelihood': -v, 'likelihood': float(np.exp(-v))}
    else:
        out['objective_value'] = float(np.squeeze(p.minimize(vals, []).v))
    return out


def numbers_in(text):
    return [float(t) for t in re.findall(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)', text)]


def report(ch, text, case, result, message, nit, gofs, constraints=()):
    """The printed report."""
    lines = [l for l in text.splitlines() if l.strip()]
    p = case.p
    for n in p.am.params:
        mine = [l.split() for l in lines if l.split()[0] == n]
        if not ch.expect(len(mine) == 1 and len(mine[0]) >= 3, 'report parameter',
                         'one line per parameter', parameter=n, lines=mine):
            continue
        v, s = mine[0][1], mine[0][2]
        ch.expect(np.isclose(float(v), float(result.params[n]), rtol=1e-5, atol=1e-12), 'report value',
                  'value in the report', parameter=n, got=v, expected=float(result.params[n]))
        sd = result.stdev(p.syms[n])
        if sd is None:
            ch.expect(s == 'None', 'report stdev', 'standard deviation in the report', got=s)
        else:
            ch.expect(np.isclose(float(s), float(sd), rtol=1e-5, atol=1e-12, equal_nan=True), 'report stdev',
                      'standard deviation in the report', parameter=n, got=s, expected=float(sd))
    order = [l.split()[0] for l in lines if l.split()[0] in p.am.params]
    ch.equal(order, p.am.params, 'report order', 'order of the parameters in the report')
    ch.expect(any('message' in l.lower() and l.rstrip().endswith(message) for l in lines),
              'report message', 'status message in the report', expected=message)
    ch.expect(any('iterations' in l.lower() and l.split()[-1] == str(nit) for l in lines),
              'report iterations', 'number of iterations in the report', expected=nit)
    for k, v in gofs.items():
        mine = [l for l in text.splitlines() if l.split() and l.split()[0] == k]
        if not ch.expect(len(mine) == 1, 'report gof', 'a line for ' + k):
            continue
        if np.ndim(v) == 0 and v is not None:
            got = numbers_in(mine[0].split(None, 1)[1])
            ch.expect(got and np.isclose(got[0], v, rtol=1e-5, atol=1e-9), 'report gof value',
                      k + ' in the report', got=got, expected=v)


def lookups(ch, case, result):
    p = case.p
    cov = result.covariance_matrix
    for i, n in enumerate(p.am.params):
        s = p.syms[n]
        if cov is None:
            ch.expect(result.variance(s) is None and result.stdev(s) is None, 'no variance',
                      'no variance without covariance matrix')
            for m in p.am.params:
                ch.expect(result.covariance(s, p.syms[m]) is None, 'no covariance',
                          'no covariance without covariance matrix')
            continue
        ch.close(result.variance(s), cov[i, i], 'variance', 'variance of a parameter', rtol=0, atol=0,
                 parameter=n)
        with np.errstate(all='ignore'):
            ch.close(result.stdev(s), np.sqrt(cov[i, i]), 'stdev', 'standard deviation',
                     rtol=1e-12, atol=0, parameter=n)
        for j, m in enumerate(p.am.params):
            ch.close(result.covariance(s, p.syms[m]), cov[i, j], 'covariance', 'covariance of two',
                     rtol=0, atol=0, parameters=(n, m))


def gofs(ch, case, result, found):
    ref = reference(case, found)
    for k, v in ref.items():
        if v is None:
            continue
        ch.close(np.ravel(getattr(result, k)), np.ravel(v), 'gof ' + k, k + ' of the result', rtol=1e-7,
                 atol=1e-9)
        ch.close(np.ravel(result.gof_qualifiers[k]), np.ravel(v), 'gof ' + k, k + ' by name', rtol=1e-7,
                 atol=1e-9)
    for k in GOFS['likelihood'] | GOFS['vector']:
        if k not in GOFS[case.objective]:
            ch.expect(not hasattr(result, k), 'gof surplus', 'no {} for {}'.format(k, case.objective))
    return ref


def single(ch):
    objective = ch.pick('objective', list(CASES), dev=False)
    case = problem(ch, objective, False)
    p = case.p
    minimizer = MINPACK if objective == 'vector' else ch.pick(
        'minimizer', [BFGS, BasinHopping, DifferentialEvolution, COBYLA, NelderMead, TrustConstr, SLSQP,
                      LBFGSB, Powell])
    absolute = ch.pick('absolute_sigma', [None, True, False])
    label, pt = ch.pick('answer', FOUND)
    found = {q: v for q, v in gen.at(p.am, pt).items() if q in p.free}
    message = ch.pick('message', ['went well', 'failed: limit reached'])
    nit = ch.pick('iterations', [7, 0, 1234])
    kw = {} if absolute is None or objective not in ('least squares', 'vector') else {
        'absolute_sigma': absolute}
    fit = make_fit(case, minimizer, **kw)
    x = [found[q] for q in p.free]
    with np.errstate(all='ignore'):
        if not all(np.all(np.isfinite(v)) for v in reference(case, found).values() if v is not None):
            raise Skip()  # e.g. the density is negative there
    result, seen = execute(fit, lambda h: h.answer(x, message=message, nit=nit, nfev=nit + 50))
    ch.op()
    check_result(ch, case, result, x)
    ch.expect(result.model is fit.model or result.model == fit.model, 'model', 'model of the result')
    ch.equal([q.name for q in result.model.params], p.am.params, 'model params', 'model of the result')
    ch.expect(result.minimizer is fit.minimizer, 'minimizer', 'minimizer of the result')
    ch.expect(result.objective is fit.objective, 'objective', 'objective of the result')
    ch.equal(result.status_message, message, 'message', 'status message')
    its = nit + 50 if minimizer is COBYLA else (None if minimizer is MINPACK else nit)
    ch.equal(result.iterations, its, 'iterations', 'number of iterations')
    ch.equal(list(result.constraints), [], 'constraints', 'no constraints')
    ref = gofs(ch, case, result, found)
    lookups(ch, case, result)
    text = str(result)
    report(ch, text, case, result, message, its, ref)
    ch.expect(type(fit.minimizer).__name__ in text and type(fit.objective).__name__ in text,
              'report classes', 'objective and minimizer in the report')
    ch.equal(str(result), text, 'report again', 'printing twice')
    for k in ('no_such_thing', 'covariance_', 'x_data'):
        ch.expect(not hasattr(result, k), 'attribute', 'unknown attribute')
    ch.obs(objective, p.am.params, {k: np.round(v, 6) for k, v in ref.items() if v is not None}, x)


RELS = [
    ('a>=b-3', lambda s: (Ge, s['a'], s['b'] - 3)),
    ('a*b==1', lambda s: (Eq, s['a']*s['b'], 1)),
    ('b<=a**2', lambda s: (Le, s['b'], s['a']**2)),
    ('a+b>=0', lambda s: (Ge, s['a'] + s['b'], 0)),
    ('2==a', lambda s: (Eq, sympy.Integer(2), s['a'])),
]


def constrained(ch):
    """Constraints appear in the result and in the report, in order."""
    objective = ch.pick('objective', ['minimize', 'least squares'], dev=False)
    forms = [LS[0]] if objective == 'least squares' else [MIN[0], MIN[1]]
    forms = ch.pick('model', forms, dev=False)
    minimizer = ch.pick('minimizer', [SLSQP, TrustConstr, COBYLA, BasinHopping, 'chain'], dev=False)
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2]])
    fx = ch.pick('fixed', [[], ['a'], ['b']])
    kind = ch.pick('class', ['Model', 'GradientModel', 'CallableModel'])
    case = make_case(ch, objective, forms, kind, fx, names, dict(a=0.5, b=-1.0, c=2.0, d=0.5))
    p = case.p
    s = {k: p.syms[p.am.nm(k)] for k in 'ab'}
    n = ch.pick('number', [1, 2, 3], dev=False)
    picked = [ch.pick('constraint', RELS, dev=False if n < 3 or THOROUGH else True) for _ in range(n)]
    rels = [r[1](s) for r in picked]
    given = []
    for op, l, r in rels:
        rel = op(l, r)
        if not isinstance(rel, sympy.core.relational.Relational):
            raise Skip()
        given.append(rel)
    pt = ch.pick('answer', FOUND)[1]
    found = {q: v for q, v in gen.at(p.am, pt).items() if q in p.free}
    x = [found[q] for q in p.free]
    m = [NelderMead, SLSQP] if minimizer == 'chain' else minimizer
    fit = make_fit(case, m, constraints=given)
    ch.op()
    result, _ = execute(fit, lambda h: h.answer(x))
    check_result(ch, case, result, x)
    if not ch.expect(len(result.constraints) == n, 'number of constraints',
                     'constraints of the result', got=len(result.constraints)):
        return
    vals = p.at(found)
    env = {k: vals[p.am.nm(k)] for k in 'ab'}
    text = str(result)
    answers = [l for l in text.splitlines() if l.startswith('Answer')]
    questions = [l for l in text.splitlines() if l.startswith('Question')]
    ch.equal((len(answers), len(questions)), (n, n), 'report constraints', 'constraints in the report')
    for i, ((label, make), con) in enumerate(zip(picked, result.constraints)):
        op, l, r = make(env)
        v = float(l) - float(r)
        if op is Le:
            v = -v
        got = con(**result.params)
        ch.close(np.ravel(got), [v], 'constraint value', 'value of a constraint of the result',
                 rtol=1e-9, atol=1e-10, index=i, constraint=label)
        ch.expect(con.model.constraint_type is (Eq if op is Eq else Ge), 'constraint type',
                  'type of a constraint of the result', index=i)
        if i < len(answers):
            num = numbers_in(answers[i])
            ch.expect(num and np.isclose(num[0], v, rtol=1e-6, atol=1e-9), 'report answer',
                      'value of a constraint in the report', got=answers[i], expected=v)
            sign = '==' if op is Eq else '>='
            ch.expect(sign in questions[i], 'report question', 'relation in the report',
                      got=questions[i], expected=sign)
    ch.obs(objective, [r[0] for r in picked], p.am.params, x)


def chained(ch):
    """The result of a chain."""
    objective = ch.pick('objective', ['minimize', 'least squares', 'likelihood'], dev=False)
    forms = {'minimize': MIN[1], 'least squares': LS[2], 'likelihood': LIKE[0]}[objective]
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0]], dev=False)
    am0 = gen.AM(forms)
    fx = ch.pick('fixed', [s for s in subsets(am0.abs_params) if len(s) < len(am0.abs_params)], dev=False)
    kind = ch.pick('class', ['Model', 'CallableModel'], dev=False)
    stages = ch.pick('stages', [[NelderMead, BFGS], [BFGS], [BFGS, NelderMead, Powell],
                                [BasinHopping, SLSQP], [COBYLA, COBYLA]], dev=False)
    case = make_case(ch, objective, forms, kind, fx, names, xs=XSC[0])
    p = case.p
    found = {q: v for q, v in gen.at(p.am, FOUND[1][1]).items() if q in p.free}
    x = [found[q] for q in p.free]
    fit = make_fit(case, stages)
    calls = []

    def script(h):
        calls.append(h)
        y = x if len(calls) == len(stages) else [0.75 + 0.25 * len(calls) + v for v in x]
        return h.answer(y, message='stage {}'.format(len(calls)), nit=10**len(calls), nfev=10**len(calls))
    ch.op()
    result, _ = execute(fit, script)
    check_result(ch, case, result, x)
    ref = gofs(ch, case, result, found)
    lookups(ch, case, result)
    ch.expect(result.minimizer is fit.minimizer and isinstance(result.minimizer, ChainedMinimizer),
              'minimizer', 'minimizer of the result')
    ch.expect(result.objective is fit.objective, 'objective', 'objective of the result')
    total = sum(10**(i + 1) for i in range(len(stages)))
    ch.equal(result.iterations, total, 'iterations', 'number of iterations')
    report(ch, str(result), case, result, 'stage {}'.format(len(stages)), total, ref)
    for m in stages:
        ch.expect(m.__name__ in str(result), 'report stages', 'stages in the report')
    ch.obs(objective, p.free, x, [m.__name__ for m in stages])


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'single': {'body': single, 'bound': 3 if t else 2},
            'constrained': {'body': constrained, 'bound': 2 if t else 1},
            'chained': {'body': chained, 'bound': 0},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'objective x model completely; within the bound classes, names, shapes, fixed '
                'parameters, data (missing, exact, integer, zero), sigmas, minimizers, messages, '
                'iterations and answers (not only optima); every sequence of up to three '
                'constraints; the printed report is parsed',
        'assumptions': ['the coefficient of determination is that of the unweighted residuals and is '
                        'not judged for constant data'],
    }
