"""C11: the minimizer is handed exactly the stated problem."""
import numpy as np

from .. import gen, handed, jets
from ..core import Skip
from ..backend import *  # noqa
from ..fitgen import DATA, SIGMA

BOUNDS = [(None, None), (0, None), (None, 0), (0.0, 0.5), (-2.5, -0.5), (-3, None), (0.25, 4),
          (None, 1e6), (-1e-8, 1e-8)]
STARTS = [None, 0, 0.0, -2, 1e5]


def marker(x, *args, **kwargs):
    """A callback."""


def option_sets(minimizer):
    """Options a user can give: (given to execute, expected at the back end)."""
    none = ('none', {}, {})
    if minimizer is DifferentialEvolution:
        return [none,
                ('de', dict(seed=3, maxiter=5, popsize=7, tol=0.3), None),
                ('de2', dict(strategy='best1exp', mutation=0.7, recombination=0.4, init='random',
                             polish=True), None),
                ('de3', dict(atol=0.25, callback=marker), None)]
    if minimizer is BasinHopping:
        return [none,
                ('bh', dict(niter=17, T=0.25, stepsize=0.125, seed=4), None),
                ('bh2', dict(minimizer_kwargs={'tol': 0.5, 'options': {'maxiter': 3}}), None),
                ('bh3', dict(minimizer_kwargs={'method': 'Powell', 'jac': None}), None),
                ('bh4', dict(niter_success=2, interval=9, callback=marker), None)]
    if minimizer is MINPACK:
        return [none,
                ('ls', dict(ftol=1e-3, xtol=1e-4, gtol=1e-5, max_nfev=11), None),
                ('ls2', dict(method='dogbox', loss='soft_l1', f_scale=0.5), None),
                ('ls3', dict(x_scale=2.0), None)]
    out = [none,
           ('tol', dict(tol=0.125), None),
           ('options', dict(options={'maxiter': 5, 'disp': False}), None),
           ('callback', dict(callback=marker, tol=1e-3), None)]
    if minimizer in (BFGS, LBFGSB, SLSQP, TrustConstr):
        out.append(('jacobian', dict(jacobian='2-point'), dict(jac='2-point')))
    if minimizer is TrustConstr:
        out.append(('hessian', dict(jacobian='cs', hessian='2-point'), dict(jac='cs', hess='2-point')))
    return out


def includes(got, exp):
    if isinstance(exp, dict):
        return isinstance(got, dict) and all(k in got and includes(got[k], v) for k, v in exp.items())
    try:
        return bool(got is exp or got == exp)
    except Exception:
        return False


ANSWERS = [lambda n: [0.11 * (i + 1) for i in range(n)],
           lambda n: [0.0] * n,
           lambda n: [2.5 - 1.75 * i for i in range(n)]]


FULL = False


def problem(ch, numbers):
    objective = ch.pick('objective', ['least squares', 'likelihood', 'minimize', 'vector'], dev=False)
    forms = ch.pick('model', CASES[objective], dev=False)
    minimizer = MINPACK if objective == 'vector' else ch.pick('minimizer', MINIMIZERS, dev=False)
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2], gen.NAMES[3], gen.NAMES[4]])
    am = gen.AM(forms)
    attrs = {}
    start = dict(gen.POINTS[0][1])
    for q in am.abs_params:
        lo, hi = ch.pick('bounds of ' + q, BOUNDS) if numbers else (None, None)
        attrs[q] = dict(min=lo, max=hi)
        v = ch.pick('value of ' + q, STARTS) if numbers else None
        if v is not None:
            start[q] = v
    if numbers:
        kind = 'CallableModel'
    full = FULL or minimizer in (TrustConstr, MINPACK, DifferentialEvolution)
    full = not numbers and (FULL or minimizer in (TrustConstr, MINPACK, DifferentialEvolution))
    kind = 'CallableModel'
    if not numbers:
        kind = ch.pick('class', ['Model', 'GradientModel', 'CallableModel',
                                 'NumericalGradientModel', 'CallableNumericalModel'])
    xs = ch.pick('x', gen.XS[:4] if full else gen.XS[:1])
    data = [ch.pick('data', DATA[:4] if full else DATA[:1]) for _ in am.dep]
    sig = [ch.pick('sigma', ['scalar', None, 'array', 'list'][:4 if full else 1]) for _ in am.dep]
    order = ch.pick('order', gen.orders(am)[:None if full else 1])
    case = make_case(ch, objective, forms, kind, (), names, start, attrs, xs, data, sig, order)
    label, given, exp = ch.pick('options', option_sets(minimizer))
    exp = given if exp is None else exp
    fit = make_fit(case, minimizer)
    return case, fit, minimizer, given, exp


def numbers(ch):
    """Bounds, initial values and options."""
    single(ch, True)


def single(ch, numbers=False):
    case, fit, minimizer, given, exp = problem(ch, numbers)
    p = case.p
    n = len(p.free)
    answer = ch.pick('answer', [0, 1, 2])
    x = ANSWERS[answer](n)

    def script(h):
        ch.expect(h.n == n, 'dimension', 'number of parameters handed over', abort=True)
        if minimizer in METHOD:
            ch.equal(h.method, METHOD[minimizer], 'method', 'method of the back end')
        check_function(ch, case, h)
        check_start(ch, case, h)
        bounded = minimizer in BOUNDED
        if minimizer is BasinHopping and h.method in ('L-BFGS-B', 'SLSQP'):
            bounded = True
        check_bounds(ch, case, h, bounded)
        for k, v in exp.items():
            ch.expect(includes(h.args.get(k, h.args.get('kwargs', {}).get(k)
                                          if isinstance(h.args.get('kwargs'), dict) else None), v),
                      'option', 'option at the back end', option=k, expected=repr(v),
                      got=repr(h.args.get(k)))
        ch.expect(h.constraints == [], 'constraints', 'no constraints were stated')
        return h.answer(x)
    before = repr(given)
    result, seen = execute(fit, script, **given)
    ch.expect(len(seen) == 1, 'calls', 'the back end is called once')
    ch.equal(repr(given), before, 'options changed', 'the options of the user')
    check_result(ch, case, result, x)
    check_attributes(ch, case)
    ch.obs(case.objective, minimizer.__name__, p.am.params, p.start, p.attrs, x)


def guesses(ch):
    """The initial guesses are the values at execution time."""
    objective = ch.pick('objective', ['least squares', 'likelihood', 'minimize', 'vector'], dev=False)
    forms = ch.pick('model', CASES[objective], dev=False)
    minimizer = MINPACK if objective == 'vector' else ch.pick('minimizer', MINIMIZERS, dev=False)
    case = make_case(ch, objective, forms, 'Model', (), gen.NAMES[1])
    p = case.p
    fit = make_fit(case, minimizer)
    n = len(p.free)
    for step in range(3):
        move = ch.pick('then', ['nothing'] + list(range(n)) + ['all'], dev=False if step == 0 else True)
        for i, q in enumerate(p.am.params):
            if move == 'all' or move == i:
                p.start[q] = p.start[q] - 0.5 * (step + 1)
                p.syms[q].value = p.attrs[q]['value'] = p.start[q]
        x = ANSWERS[step](n)

        def script(h):
            check_start(ch, case, h)
            check_function(ch, case, h, grid(n)[:2])
            return h.answer(x)
        result, _ = execute(fit, script)
        check_result(ch, case, result, x)
        check_attributes(ch, case)
        ch.obs(objective, minimizer.__name__, [p.start[q] for q in p.free])


def spec(tier):
    global FULL
    t = FULL = tier == 'thorough'
    return {
        'bodies': {
            'single': {'body': single, 'bound': 2 if t else 1},
            'numbers': {'body': numbers, 'bound': 2 if t else 1},
            'guesses': {'body': guesses, 'bound': 2 if t else 1},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'objective x model x minimizer completely; within the bound names, bounds and '
                'initial value of every parameter (zero, negative, one-sided), model classes, '
                'data, options and answers; the back end tries every point of a grid; an '
                'outcome is (parameters, values, bounds, answer)',
        'assumptions': ['the numerical back end (scipy) is replaced by one that tries the '
                        'points of a grid; it cannot tell symfit what to evaluate otherwise'],
    }
