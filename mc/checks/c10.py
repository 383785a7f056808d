"""C10: fixed parameters never move and never reach the minimizer."""
import numpy as np
from symfit import Eq, Ge, Le

from ..env import scripted
from .. import gen, handed, jets
from ..core import Skip
from ..backend import *  # noqa
from .. import backend

ANSWERS = [lambda n: [0.11 * (i + 1) for i in range(n)],
           lambda n: [-0.7 + 0.3 * i for i in range(n)]]
BOUNDS = [
    ('none', {}),
    ('all', {k: dict(min=-5.0, max=5.5 + i) for i, k in enumerate('abcd')}),
    ('mixed', dict(a=dict(min=-4.0), b=dict(max=7.0), c=dict(min=-3.0, max=3.0))),
]


FULL = False


def fits(ch, minimizers=None, b=2):
    objective = ch.pick('objective', ['least squares', 'likelihood', 'minimize', 'vector'], dev=False)
    forms = ch.pick('model', CASES[objective], dev=False)
    am = gen.AM(forms)
    fx = ch.pick('fixed', [s for s in subsets(am.abs_params) if s], dev=False)
    if objective == 'vector':
        minimizer = MINPACK
    else:
        minimizer = ch.pick('minimizer', MINIMIZERS, dev=False)
    full = FULL or minimizer in (BFGS, TrustConstr, MINPACK, DifferentialEvolution)
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2], gen.NAMES[3]][:4 if full else 2])
    start = ch.pick('values', gen.POINTS[:3 if full else 2])
    attrs = ch.pick('bounds', BOUNDS)
    kind = ch.pick('class', ['Model', 'GradientModel', 'CallableModel', 'NumericalGradientModel',
                             'CallableNumericalModel'][:5 if full else 3])
    constrained = ch.pick('constraints', [0, 1, 2]) if minimizer in CONSTRAINED else 0
    if minimizer is BasinHopping:
        constrained = ch.pick('constraints', [0, 1])
    case = make_case(ch, objective, forms, kind, fx, names, start[1], attrs[1])
    p = case.p
    s = p.syms
    first, last = p.am.params[0], p.am.params[-1]
    cons, refs = [], []
    if constrained:
        cons.append(Ge(s[first] * s[last], s[first] - 2))
        refs.append(lambda v: (v[first] * v[last] - v[first] + 2))
    if constrained > 1:
        cons.append(Eq(s[last]**2 + s[first], 1))
        refs.append(lambda v: v[last]**2 + v[first] - 1)
    fit = make_fit(case, minimizer, **({'constraints': cons} if cons else {}))
    n = len(p.free)
    for k, answer in enumerate(ANSWERS):
        x = answer(n)

        def script(h):
            ch.expect(h.n == n, 'dimension', 'number of parameters handed to the back end',
                      got=h.n, expected=n, abort=True)
            check_function(ch, case, h, None if k == 0 else [np.array(x)])
            check_start(ch, case, h)
            bounded = minimizer in BOUNDED or (minimizer is BasinHopping and h.bounds is not None)
            check_bounds(ch, case, h, bounded)
            if cons:
                constraints(ch, case, h, refs)
            return h.answer(x)
        result, seen = execute(fit, script)
        ch.expect(len(seen) == 1, 'calls', 'the back end is called once')
        check_result(ch, case, result, x)
        check_attributes(ch, case)
        ch.obs(objective, p.free, p.fixed, x, [result.params[q] for q in result.params])


def constraints(ch, case, h, refs):
    p = case.p
    n = len(p.free)
    if not ch.expect(len(h.constraints) == len(refs), 'number of constraints',
                     'number of constraints handed to the back end'):
        return
    for c, ref in zip(h.constraints, refs):
        for g in grid(n):
            j = {q: gen.Jet_param(v, p.free, q) for q, v in p.at(dict(zip(p.free, g))).items()}
            r = ref(j)
            ch.close(c.value(g), [r.v], 'constraint', 'constraint at the fixed values', at=g)
            if c.jac is not None:
                ch.close(np.ravel(c.jac(g)), r.g, 'constraint gradient',
                         'gradient of a constraint', at=g, **tol_c(p))
            if c.hess is not None:
                ch.close(np.reshape(c.hess(g), r.h.shape), r.h, 'constraint hessian',
                         'Hessian of a constraint', at=g)


def tol_c(p):
    return dict(rtol=1e-7, atol=1e-8)


def direct(ch):
    """Minimizers around plain functions."""
    minimizer = ch.pick('minimizer', MINIMIZERS + [MINPACK], dev=False)
    fx = ch.pick('fixed', subsets('abc'), dev=False)
    given = ch.pick('order of parameters', ['sorted', 'reversed', 'rotated'], dev=False)
    with_jac = ch.pick('jacobian', [True, False], dev=False)
    f = lambda m, a, b, c: (a - 1)**2 + a*b*m.exp(c) + b**2*c
    start = dict(a=0.4, b=-1.25, c=0.0)
    params = {n: gen.param(n, start[n], fixed=n in fx) for n in 'abc'}
    free = [n for n in 'abc' if n not in fx]

    def ref(g):
        vals = dict(start, **dict(zip(free, g)))
        js = {n: gen.Jet_param(vals[n], free, n) for n in 'abc'}
        alls = {n: gen.Jet_param(vals[n], list('abc'), n) for n in 'abc'}
        return f(jets.space, **js), f(jets.space, **alls)
    full = lambda a, b, c: ref_full(a, b, c)

    def ref_full(a, b, c):
        vals = dict(a=a, b=b, c=c)
        return f(jets.space, **{n: gen.Jet_param(float(np.squeeze(v)), list('abc'), n)
                                for n, v in vals.items()})
    kw = {}
    if with_jac and issubclass(minimizer, backend.GRADIENT):
        kw['jacobian'] = lambda a, b, c: full(a, b, c).g
        if minimizer is TrustConstr:
            kw['hessian'] = lambda a, b, c: full(a, b, c).h
    order = {'sorted': 'abc', 'reversed': 'cba', 'rotated': 'bca'}[given]
    m = minimizer(lambda a, b, c: f(np, a, b, c), [params[n] for n in order], **kw)
    n = len(free)
    x = ANSWERS[0](n)

    def script(h):
        ch.expect(h.n == n, 'dimension', 'number of parameters', abort=True)
        for g in grid(n):
            r, _ = ref(g)
            ch.op()
            ch.close(np.squeeze(h.fun(g)), r.v, 'function', 'function', at=g)
            if callable(h.jac) and kw:
                ch.close(np.squeeze(h.jac(g)), np.squeeze(r.g), 'gradient', 'gradient', at=g)
            if callable(h.hess) and kw:
                ch.close(h.hess(g), r.h, 'hessian', 'Hessian', at=g)
        ch.expect(not kw or minimizer not in (BFGS, LBFGSB, SLSQP, TrustConstr) or callable(h.jac),
                  'gradient dropped', 'a given gradient reaches the back end')
        if h.x0 is not None:
            ch.close(h.x0, [start[q] for q in free], 'initial', 'initial values')
        return h.answer(x)
    with scripted(lambda name, args: script(handed.Handed(name, args))):
        res = m.execute()
    exp = dict(start, **dict(zip(free, x)))
    for q in 'abc':
        ch.expect(float(res.value(params[q])) == exp[q], 'result value', 'value of a parameter',
                  parameter=q, got=res.value(params[q]), expected=exp[q])
        ch.expect(params[q].value == start[q], 'parameter changed', 'Parameter objects')
    ch.obs(minimizer.__name__, fx, given, [exp[q] for q in 'abc'])


def changed(ch):
    """The value of a fixed parameter changes between executions."""
    objective = ch.pick('objective', ['least squares', 'likelihood', 'minimize', 'vector'], dev=False)
    forms = ch.pick('model', CASES[objective], dev=False)
    am = gen.AM(forms)
    fx = ch.pick('fixed', [s for s in subsets(am.abs_params) if s and len(s) < len(am.abs_params)],
                 dev=False)
    minimizer = MINPACK if objective == 'vector' else ch.pick('minimizer', [BFGS, TrustConstr, SLSQP],
                                                              dev=False)
    case = make_case(ch, objective, forms, 'Model', fx, gen.NAMES[0])
    p = case.p
    fit = make_fit(case, minimizer)
    n = len(p.free)
    for k, shift in enumerate([0.0, 0.5, -0.25]):
        for q in p.fixed:
            p.syms[q].value = p.start[q] = p.attrs[q]['value'] = p.start[q] + shift
        x = ANSWERS[k % 2](n)

        def script(h):
            check_function(ch, case, h, grid(n)[:3])
            return h.answer(x)
        result, seen = execute(fit, script)
        check_result(ch, case, result, x)
        ch.obs(objective, p.free, shift, minimizer.__name__)


def spec(tier):
    global FULL
    t = FULL = tier == 'thorough'
    return {
        'bodies': {
            'fits': {'body': fits, 'bound': 2 if t else 1},
            'direct': {'body': direct},
            'changed': {'body': changed},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'every subset of fixed parameters of every model, for every objective and '
                'minimizer, within the bound times names, values, bounds, model classes and '
                'constraints; the back end evaluates everything it is handed on a grid and '
                'answers with two points; an outcome is (free, fixed, reported values)',
        'assumptions': ['the numerical back end (scipy) is replaced by one that tries the '
                        'points of a grid; it cannot tell symfit what to evaluate otherwise'],
    }
