"""C15: the covariance matrix follows the documented formula."""
import numpy as np

from .. import gen, handed, jets
from ..core import Skip
from ..backend import *  # noqa
from ..fitgen import subsets, DATA, SIGMA

THOROUGH = False
F = gen.F

LS = [
    [F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b)],
    [F('y=a*exp(-b*x)', 'a x b', lambda m, a, x, b: a*m.exp(-b*x))],
    [F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b), F('z=c*x**2+a', 'c x a', lambda m, c, x, a: c*x**2 + a)],
    [F('y=a*exp(-b*x)', 'a x b', lambda m, a, x, b: a*m.exp(-b*x)),
     F('z=c*y**2+b', 'c y b', lambda m, c, y, b: c*y**2 + b)],
    [F('y=a*x', 'a x', lambda m, a, x: a*x)],
    [F('y=a*x+b*w', 'a x b w', lambda m, a, x, b, w: a*x + b*w),
     F('z=sin(c*x)+d', 'c x d', lambda m, c, x, d: m.sin(c*x) + d)],
    [F('y=a', 'a', lambda m, a: a + 0), F('z=b*x+a', 'b x a', lambda m, b, x, a: b*x + a)],
    [F('y=a*x+b*x+c', 'a x b c', lambda m, a, x, b, c: a*x + b*x + c)],    # singular
    [F('y=a*x**2+b*x+c', 'a x b c', lambda m, a, x, b, c: a*x**2 + b*x + c)],
]
LIKE = [
    [F('y=exp(-(x-a)**2/2)*(1+b**2)', 'x a b', lambda m, x, a, b: m.exp(-(x - a)**2/2)*(1 + b**2))],
    [F('y=exp(-x/a)/a', 'x a', lambda m, x, a: m.exp(-x/a)/a)],
    [F('y=1+a**2+b**2*x**2', 'a b x', lambda m, a, b, x: 1 + a**2 + b**2*x**2),
     F('z=exp(c*x*b)', 'c x b', lambda m, c, x, b: m.exp(c*x*b))],
    [F('y=exp(-(x-a-b)**2/2)', 'x a b', lambda m, x, a, b: m.exp(-(x - a - b)**2/2))],   # singular
]
MIN = [
    [F('y=(a-2)**2+a*b+2*(b+1)**2', 'a b', lambda m, a, b: (a - 2)**2 + a*b + 2*(b + 1)**2)],
    [F('y=exp(a)+a*b+b**4+c**2*b', 'a b c', lambda m, a, b, c: m.exp(a) + a*b + b**4 + c**2*b)],
    [F('y=(a-1)**2', 'a', lambda m, a: (a - 1)**2)],
    [F('y=(a-1)**2*b', 'a b', lambda m, a, b: (a - 1)**2*b),
     F('z=y**2+c*a+c**2', 'y c a', lambda m, y, c, a: y**2 + c*a + c**2)],
    [F('y=(a+b)**2', 'a b', lambda m, a, b: (a + b)**2)],                  # singular
]
LONG = dict(x=np.array([0.3, 1.1, 2.0, 2.6, 3.3, 4.1, 4.4]),
            w=np.array([-0.5, 0.4, 1.7, 0.2, -1.1, 0.9, 2.2]))
XSC = [('long', LONG),
       ('matrix', dict(x=np.array([[0.3, 1.1, 0.8], [2.0, -0.6, 1.5]]),
                       w=np.array([[1.0, 0.5, -2.0], [0.2, -1.5, 0.7]]))),
       ('outer', dict(x=np.array([[0.3], [1.1], [2.0], [2.7]]), w=np.array([-0.5, 0.4]))),
       ('ints', dict(x=np.arange(1, 7), w=np.array([0, 1, 0, 2, -1, 1])))]
FOUND = [
    ('generic', dict(a=1.3, b=0.7, c=-0.6, d=2.1)),
    ('near', dict(a=0.95, b=1.1, c=0.45, d=-0.65)),
    ('negative', dict(a=-1.1, b=-0.4, c=0.9, d=-0.8)),
]


def setup(ch, objective, kinds, fixed=False, dev=True):
    forms = {'least squares': LS, 'vector': LS, 'likelihood': LIKE, 'minimize': MIN}[objective]
    forms = ch.pick('model', forms, dev=False)
    am0 = gen.AM(forms)
    kind = ch.pick('class', kinds, dev=False)
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2], gen.NAMES[3]])
    xs = ch.pick('x', XSC if 'x' in am0.abs_indep else XSC[:1])
    fx = ch.pick('fixed', [s for s in subsets(am0.abs_params) if len(s) < len(am0.abs_params)]
                 ) if fixed else []
    order = ch.pick('order', gen.orders(am0))
    am = gen.AM(forms, names[1])
    p = Problem(am, xs[1], gen.POINTS[0][1], fx, None, kind, order)
    if objective in ('least squares', 'vector'):
        kinds_ = [ch.pick('data of {}'.format(i), ['noisy', 'none', 'exact', 'int'])
                  for i in range(len(am.dep))]
        if all(k == 'none' for k in kinds_):
            raise Skip()
        shapes = {}
        ref = am.ref1(p.x, gen.at(am, TRUE))
        for n in am.dep:
            # a component without independent variables can have data of any shape
            if ref[n].v.shape == (1,):
                shapes[n] = ch.pick('shape of ' + n, [(5,), (3,), (2, 3), (2, 1), (3, 1)])
            elif len(ref[n].v.shape) == 1:
                # repeated measurements, along another axis
                k = ref[n].v.shape[0]
                shapes[n] = ch.pick('shape of ' + n, [(k,), (k, k), (k, 2)])
        p.make_data(kinds_, shapes)
        if objective == 'vector' and len(set(np.shape(p.y[n]) for n in p.used)) > 1:
            raise Skip()     # residuals per data point need points in common
        p.make_sigma([ch.pick('sigma of {}'.format(i), [None, 'scalar', 'array', 'int', 'list'])
                      for i in range(len(am.dep))])
    else:
        p.make_data(['none'] * len(am.dep))
        p.make_sigma([None] * len(am.dep))
        if objective == 'minimize':
            p.x = {}
    p.build()
    return Case(p, objective)


def reference(case, found, kind):
    """(Hessian used, kind of formula) at the point found, over all parameters."""
    p = case.p
    ps = p.am.params
    vals = p.at(dict((k, v) for k, v in found.items()))
    if case.objective in ('least squares', 'vector'):
        exact = p.least_squares(vals, ps).h
        gn = 0
        for r in p.residuals(vals, ps).values():
            k = r.g.reshape(len(ps), -1)
            gn = gn + k @ k.T
        return exact, gn
    if case.objective == 'likelihood':
        exact = p.likelihood(vals, ps).h
        gn = 0
        for n in p.am.dep:
            c = p.components(vals, ps)[n]
            k = (c.g / c.v).reshape(len(ps), -1)
            gn = gn + k @ k.T
        return exact, gn
    return np.asarray(p.minimize(vals, ps).h).reshape(len(ps), len(ps)), None


def usable(h):
    """'ok', 'singular' or 'unclear' """
    if h is None:
        return 'singular'
    s = np.linalg.svd(h, compute_uv=False)
    if s[0] == 0 or s[-1] < 1e-13 * s[0]:
        return 'singular'
    return 'ok' if s[-1] > 1e-7 * s[0] else 'unclear'


def enormous(cov):
    return not np.all(np.isfinite(cov)) or np.max(np.abs(cov)) > 1e6


def nothing(ch, cov):
    """A singular problem: no covariance (up to rounding of the inverse)."""
    ch.expect(cov is None or enormous(np.asarray(cov, float)), 'singular',
              'covariance of a singular problem', got=repr(cov))
    ch.obs('singular', 'none')


def judge(ch, case, cov, found, absolute, given_sigma):
    """Compare with the documented formula."""
    p = case.p
    ps = p.am.params
    n = len(ps)
    exact, gn = reference(case, found, p.kind)
    has_h = p.kind == 'Model' and case.objective != 'vector'
    has_j = p.kind in ('Model', 'GradientModel', 'NumericalGradientModel')
    numeric = p.kind == 'NumericalGradientModel'
    if case.objective == 'minimize':
        gn = None
        has_j = has_h
    candidates = []
    if has_h and usable(exact) == 'ok':
        hess = exact
    elif has_h and usable(exact) == 'unclear':
        raise Skip()
    elif has_h and usable(exact) == 'singular':
        # no covariance, or that of the approximation
        if gn is None or usable(gn) != 'ok' or cov is None:
            nothing(ch, cov)
            return
        if enormous(cov):
            ch.evaluations += 1
            return
        hess = gn
    elif has_j and gn is not None:
        u = usable(gn)
        if u == 'unclear' or (u == 'singular' and numeric):
            raise Skip()
        if u == 'singular':
            nothing(ch, cov)
            return
        hess = gn
    else:
        ch.expect(cov is None, 'no derivatives', 'no covariance without derivatives',
                  got=repr(cov))
        ch.obs('no derivatives')
        return
    if not ch.expect(cov is not None, 'none', 'a covariance matrix is reported', abort=False):
        return
    cov = np.asarray(cov, float)
    if not ch.expect(cov.shape == (n, n), 'shape', 'shape of the covariance matrix', got=cov.shape):
        return
    inv = np.linalg.inv(hess)
    factor = wrong = 1.0
    if case.objective in ('least squares', 'vector') and not absolute:
        rss = 2 * float(p.least_squares(p.at(found), []).v)
        sizes = [int(np.prod(np.shape(p.y[m]))) for m in p.used]
        dof = sum(sizes) - n
        shapes = set(np.shape(p.y[m]) for m in p.used)
        wrong_dof = sum(int(np.prod(s)) for s in shapes) - n
        if dof <= 0:
            raise Skip()
        factor = rss / dof
        wrong = rss / wrong_dof if wrong_dof else float('inf')
    scale = np.sqrt(np.abs(np.outer(np.diag(inv), np.diag(inv)))) + 1e-300
    t = 5e-4 if numeric else 1e-6
    free = [i for i, m in enumerate(ps) if m not in p.fixed]

    def matches(f):
        with np.errstate(all='ignore'):
            return bool(np.all(np.abs(cov - f * inv) <= t * (abs(f) * (scale + 1e-9 * np.max(np.abs(inv))) + 1e-12)))
    ok = matches(factor)
    if not ok and p.fixed:
        sub = np.linalg.inv(hess[np.ix_(free, free)])
        f2 = factor
        got = cov[np.ix_(free, free)]
        rest = cov.copy()
        rest[np.ix_(free, free)] = 0
        ok = bool(np.allclose(got, f2 * sub, rtol=1e-5, atol=1e-12) and np.allclose(rest, 0))
    ch.evaluations += 1
    if not ok:
        if wrong != factor and matches(wrong):
            ch.fail('dof of equal shapes', 'components with data of the same shape count only once',
                    got=cov, expected=factor * inv)
        else:
            ch.fail('covariance', 'covariance matrix', got=cov, expected=factor * inv,
                    absolute=absolute)
    ch.expect(np.allclose(cov, cov.T, rtol=1e-8, atol=1e-12 * np.max(np.abs(cov))), 'symmetric',
              'the covariance matrix is symmetric', got=cov)
    ch.obs(case.objective, p.kind, ps, np.round(factor * inv / scale, 6), bool(absolute))


def run(ch, objective, kinds, minimizers, fixed=False):
    case = setup(ch, objective, kinds, fixed)
    p = case.p
    minimizer = ch.pick('minimizer', minimizers)
    given = any(s is not None for s in p.sigma.values())
    absolute = ch.pick('absolute_sigma', [None, True, False]) if objective in (
        'least squares', 'vector') else None
    kw = {} if absolute is None else {'absolute_sigma': absolute}
    if absolute is None:
        absolute = given
    fit = make_fit(case, minimizer, **kw)
    for k, (label, pt) in enumerate(FOUND[:3 if THOROUGH else 2]):
        found = gen.at(p.am, pt)
        x = [found[q] for q in p.free]
        result, _ = execute(fit, lambda h: h.answer(x))
        for q in p.free:
            ch.expect(float(result.params[q]) == found[q], 'reported', 'point reported')
        judge(ch, case, result.covariance_matrix, dict(zip(p.free, x)), absolute, given)


def least_squares(ch):
    run(ch, 'least squares', ['Model', 'GradientModel', 'NumericalGradientModel', 'CallableModel',
                              'CallableNumericalModel'], [BFGS, NelderMead, SLSQP])


def vector(ch):
    run(ch, 'vector', ['Model', 'GradientModel', 'NumericalGradientModel', 'CallableModel'], [MINPACK])


def likelihood(ch):
    run(ch, 'likelihood', ['Model', 'GradientModel', 'CallableModel', 'NumericalGradientModel'],
        [BFGS, Powell])


def minimize(ch):
    run(ch, 'minimize', ['Model', 'GradientModel', 'CallableModel'], [BFGS, COBYLA])


def fixed(ch):
    run(ch, ch.pick('objective', ['least squares', 'likelihood', 'minimize'], dev=False),
        ['Model', 'GradientModel'], [BFGS], True)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    b = 2 if t else 1
    return {
        'bodies': {
            'least squares': {'body': least_squares, 'bound': 3 if t else 2},
            'vector': {'body': vector, 'bound': b},
            'likelihood': {'body': likelihood, 'bound': 3 if t else 2},
            'minimize': {'body': minimize, 'bound': 3 if t else 2},
            'fixed': {'body': fixed, 'bound': b},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'objective x model x class completely; within the bound data (missing, exact, '
                'integer, shapes), sigmas, absolute_sigma, names, order, fixed parameters, '
                'minimizers; the back end answers chosen points (not only optima); the matrix is '
                'compared with one made from jets',
        'assumptions': ['with fixed parameters both the matrix over all parameters and the one over '
                        'the free parameters (zero elsewhere) are accepted'],
    }
