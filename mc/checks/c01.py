"""C01: a fit returns the constrained optimum."""
import itertools
from collections import OrderedDict

import numpy as np
import scipy.optimize
import sympy
from symfit import (Fit, Model, CallableModel, CallableNumericalModel, ODEModel, D, Variable, Eq, Ge, Le)

from ..env import symfit  # noqa
from .. import gen
from ..core import Skip
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel
from symfit.core.minimizers import (
    BFGS, LBFGSB, SLSQP, COBYLA, NelderMead, Powell, TrustConstr, DifferentialEvolution,
    BasinHopping, MINPACK)

THOROUGH = False
METHOD = {BFGS: 'BFGS', LBFGSB: 'L-BFGS-B', SLSQP: 'SLSQP', TrustConstr: 'trust-constr',
          NelderMead: 'Nelder-Mead', Powell: 'Powell', COBYLA: 'COBYLA'}
for _m in list(METHOD) + [MINPACK, DifferentialEvolution, BasinHopping]:
    _m.mc_name = _m.__name__
LOCAL = [None, BFGS, LBFGSB, SLSQP, TrustConstr, NelderMead, Powell, COBYLA, MINPACK]
CHAINS = [[NelderMead, BFGS], [BFGS, SLSQP], [LBFGSB, SLSQP], [SLSQP, TrustConstr],
          [Powell, LBFGSB], [SLSQP, LBFGSB, SLSQP], [NelderMead, Powell, BFGS], [COBYLA, SLSQP],
          [TrustConstr, SLSQP], [SLSQP]]
BOUNDS_OK = (LBFGSB, SLSQP, TrustConstr, MINPACK, DifferentialEvolution)
INEQ_OK = (SLSQP, TrustConstr, COBYLA)
EQ_OK = (SLSQP, TrustConstr)

X = np.array([-1.0, -0.25, 0.5, 1.25, 2.0, 2.5])
W = np.array([0.5, 2.0, -1.0, 0.25, 1.5, -0.75])
DATA = [
    ('tilted', {'y': 1.0 + 0.8*X + 0.2*np.cos(5*X), 'z': 2 - 0.5*X + 0.3*np.sin(4*X)}),
    ('falling', {'y': -0.5 - 1.2*X + 0.3*np.cos(4*X), 'z': 0.3*X**2 - 1}),
    ('exact', {'y': 2 + 0.5*X, 'z': 2 + 0.5*X}),
    ('integer', {'y': np.array([1, 3, 2, 5, 4, 6]), 'z': np.array([-2, 0, 1, 1, 3, 2])}),
]
SIGMAS = [
    ('none', lambda c: None), ('array', lambda c: np.array([0.5, 1, 2, 0.25, 1, 3.0])),
    ('scalar', lambda c: 0.3 if c == 'y' else None),
    ('unequal', lambda c: {'y': 2.0, 'z': np.array([0.2, 0.2, 1, 1, 4, 4])}[c]),
]
# linear in the parameters
DESIGNS = [
    ('line', {'y': 'a*x + b'}), ('proportional', {'y': 'a*x'}),
    ('parabola', {'y': 'a*x**2 + b*x + c'}), ('plane', {'y': 'a*x + b*w'}),
    ('shared', {'y': 'a*x + b', 'z': 'a + b*x'}),
    ('separate', {'y': 'a*x + b', 'z': 'c*x**2'}),
    ('interdependent', {'y': 'a*x', 'z': 'b - y'}),
    ('constant', {'y': 'a', 'z': 'b*x'}),
]
CLASSES = [Model, CallableModel, CallableNumericalModel]
for _m in CLASSES:
    _m.mc_name = _m.__name__
BOUNDS = [(None, None), (-5, 5), (None, 0), (0, None), (0.9, None), (None, 0.25), (-0.5, 0.5)]
GUESSES = [1.0, -2.0, 0.0, 6.0]
CONSTRAINTS = [
    ('none', []),
    ('a >= b', [('ge', {'a': 1, 'b': -1}, 0)]),
    ('b >= a + 1', [('ge', {'b': 1, 'a': -1}, 1)]),
    ('a + b <= 1', [('le', {'a': 1, 'b': 1}, 1)]),
    ('a = 2 b', [('eq', {'a': 1, 'b': -2}, 0)]),
    ('a + b = 1', [('eq', {'a': 1, 'b': 1}, 1)]),
    ('b >= 3/4', [('ge', {'b': 1}, 0.75)]),
    ('a <= 1/2, b >= a', [('le', {'a': 1}, 0.5), ('ge', {'b': 1, 'a': -1}, 0)]),
    ('a + b = 1, a >= b', [('eq', {'a': 1, 'b': 1}, 1), ('ge', {'a': 1, 'b': -1}, 0)]),
]
NAMES = [{}, {'a': 'c', 'c': 'a', 'x': 'q', 'y': 'S'}, {'a': 'p10', 'b': 'p9', 'y': 'zz', 'z': 'E'}]


class Lin(object):
    """G p (>=|=|<=) h and bounds, in the space of all parameters."""

    def __init__(self, params, lo, hi, cons):
        self.params, self.lo, self.hi, self.cons = params, lo, hi, cons

    def rows(self, free, fixed):
        eq, ge = [], []
        n = len(free)
        for kind, coef, rhs in self.cons:
            row = np.array([coef.get(p, 0.0) for p in free], float)
            rhs = rhs - sum(coef.get(p, 0.0)*v for p, v in fixed.items())
            {'eq': eq, 'ge': ge, 'le': ge}[kind].append((-row, -rhs) if kind == 'le' else (row, rhs))
        for i, p in enumerate(free):
            e = np.eye(n)[i]
            if self.lo.get(p) is not None:
                ge.append((e, self.lo[p]))
            if self.hi.get(p) is not None:
                ge.append((-e, -self.hi[p]))
        return eq, ge


def solve(H, g, eq, ge):
    """The unique minimum of p.H.p/2 - g.p: all active sets."""
    n = len(g)
    best = None
    if np.linalg.eigvalsh(H)[0] < 1e-9*max(1, np.linalg.eigvalsh(H)[-1]):
        # strictly convex only on the feasible directions: left out
        raise Skip()
    for k in range(0, n - len(eq) + 1):
        for active in itertools.combinations(range(len(ge)), k):
            rows = eq + [ge[i] for i in active]
            C = np.array([r for r, _ in rows]).reshape(len(rows), n)
            h = np.array([b for _, b in rows])
            if len(rows) and np.linalg.matrix_rank(C) < len(rows):
                continue
            K = np.block([[H, C.T], [C, np.zeros((len(rows),)*2)]])
            p = np.linalg.solve(K, np.concatenate([g, h]))[:n]
            if any(r @ p < b - 1e-9*(1 + abs(b)) for r, b in ge):
                continue
            v = p @ H @ p/2 - g @ p
            if best is None or v < best[0]:
                best = (v, p)
    if best is None:
        raise Skip()
    return best[1]


class Problem(object):
    """Everything about a fit which is quadratic in its parameters."""

    def __init__(self, params, fixed, guess, lin, f, grad, optimum, residuals=None, hess=None):
        self.params, self.fixed, self.guess, self.lin = params, fixed, guess, lin
        self.free = [p for p in params if p not in fixed]
        self.f, self.grad, self.optimum, self.residuals = f, grad, optimum, residuals
        self.hess, self.computed, self.gradient = hess, f, True

    def vec(self, p):
        return np.array([p[q] for q in self.free])

    def full(self, v):
        return dict(self.fixed, **dict(zip(self.free, v)))

    def infeasibility(self, p):
        worst = 0.0
        for q in self.free:
            lo, hi = self.lin.lo.get(q), self.lin.hi.get(q)
            worst = max(worst, 0 if lo is None else lo - p[q], 0 if hi is None else p[q] - hi)
        for kind, coef, rhs in self.lin.cons:
            v = sum(c*p[q] for q, c in coef.items()) - rhs
            worst = max(worst, abs(v) if kind == 'eq' else -v if kind == 'ge' else v)
        return worst

    def good(self, p, slack=1):
        """Is this the optimum, to the precision of the minimizers?"""
        best = self.f(self.optimum)
        gap = self.f(p) - best
        size = 1 + abs(best)
        away = max([abs(p[q] - self.optimum[q])/(1 + abs(self.optimum[q])) for q in self.free] or [0])
        return (np.isfinite(gap) and gap <= slack*2e-3*size and away <= slack*2e-2 and
                self.infeasibility(p) <= slack*2e-3 and all(p[q] == v for q, v in self.fixed.items()))

    def direct(self, minimizers):
        """What the back end makes of the same problem."""
        v = self.vec(self.guess)
        bounds = [(self.lin.lo.get(q), self.lin.hi.get(q)) for q in self.free]
        cons = []
        for kind, coef, rhs in self.lin.cons:
            s = -1 if kind == 'le' else 1
            row = np.array([s*coef.get(q, 0.0) for q in self.free], float)
            const = s*(sum(coef.get(q, 0.0)*w for q, w in self.fixed.items()) - rhs)
            cons.append({'type': 'eq' if kind == 'eq' else 'ineq',
                         'fun': lambda u, row=row, const=const: row @ u + const})
        f = lambda u: self.computed(self.full(u))
        g = lambda u: self.grad(self.full(u))
        for m in minimizers:
            if m is None:
                m = SLSQP if cons else LBFGSB if any(x is not None for b in bounds for x in b) else BFGS
            if m is MINPACK:
                lo, hi = zip(*[(-np.inf if a is None else a, np.inf if b is None else b)
                               for a, b in bounds])
                v = scipy.optimize.least_squares(lambda u: self.residuals(self.full(u)), v,
                                                 bounds=(lo, hi)).x
                continue
            kw = {}
            if m in (BFGS, LBFGSB, SLSQP, TrustConstr) and self.gradient:
                kw['jac'] = g
            if m is TrustConstr:
                kw['options'] = {'sparse_jacobian': False}
            if m is TrustConstr and self.hess is not None:
                kw['hess'] = lambda u: self.hess
            if m is TrustConstr and not self.gradient:
                kw.update(jac='3-point', hess=scipy.optimize.BFGS(exception_strategy='damp_update'))
            if m in BOUNDS_OK:
                kw['bounds'] = bounds
            if m in INEQ_OK:
                kw['constraints'] = cons
            v = scipy.optimize.minimize(f, v, method=METHOD[m], **kw).x
        return self.full(v)


def usable(minimizers, lin, free, objective=LeastSquares):
    """Do these minimizers support the features used?"""
    last = minimizers[-1]
    kinds = {c[0] for c in lin.cons}
    bounded = any(lin.lo.get(p) is not None or lin.hi.get(p) is not None for p in free)
    if MINPACK in minimizers and (objective is not LeastSquares or len(minimizers) > 1):
        return False
    if last is None:
        return True
    if bounded and last not in BOUNDS_OK:
        return False
    if kinds and last not in INEQ_OK or 'eq' in kinds and last not in EQ_OK:
        return False
    if any(m is COBYLA for m in minimizers) and 'eq' in kinds:
        return False
    return True


def judge(ch, problem, result, minimizers, names, key='optimum'):
    got = {p: float(result.params[names.get(p, p)]) for p in problem.params}
    for p, v in problem.fixed.items():
        ch.expect(got[p] == v, 'fixed', 'a fixed parameter keeps its value', parameter=p, got=got[p])
    if not problem.free:
        return
    slack = 4 if minimizers[-1] in (Powell, NelderMead, COBYLA) else 1
    if not problem.good(got, slack):
        back = problem.direct(minimizers)
        if not problem.good(back, slack):
            # neither does the back end by itself
            raise Skip()
        if TrustConstr in minimizers and 'evaluations' in str(result.status_message):
            # it ran out of iterations: that is reported by the result
            raise Skip()
        ch.fail(key, 'the fit does not return the optimum', got=got, optimum=problem.optimum,
                value=float(problem.f(got)), best=float(problem.f(problem.optimum)),
                infeasibility=float(problem.infeasibility(got)), direct=back)
    ch.evaluations += 1
    ch.obs(sorted((p, round(v, 2)) for p, v in problem.optimum.items()))


def relations(lin, pars):
    rel = {'eq': Eq, 'ge': Ge, 'le': Le}
    return [rel[kind](sum(c*pars[p] for p, c in sorted(coef.items())), rhs)
            for kind, coef, rhs in lin.cons]


def attributes(ch, params, dev=True):
    """Bounds, fixed parameters, guesses, constraints."""
    lo, hi, fixed, guess = {}, {}, {}, {}
    shift = ch.pick('guess', GUESSES, dev=dev)
    for i, p in enumerate(params):
        lo[p], hi[p] = ch.pick('bounds ' + p, BOUNDS, dev=dev)
        g = shift + 0.5*i
        g = g if lo[p] is None else max(g, lo[p])
        guess[p] = g if hi[p] is None else min(g, hi[p])
        f = ch.pick('fixed ' + p, [None, 0.6, -0.25], dev=dev)
        if f is not None:
            fixed[p] = guess[p] = f
    cons = [c for c in ch.pick('constraints', CONSTRAINTS, dev=dev)[1]]
    if any(not set(c[1]) <= set(params) for c in cons):
        raise Skip()
    if any(set(c[1]) <= set(fixed) for c in cons):
        raise Skip()
    return Lin(params, lo, hi, cons), fixed, guess


def make_pars(params, lin, fixed, guess, names):
    return {p: gen.param(names.get(p, p), guess[p], min=lin.lo.get(p), max=lin.hi.get(p),
                         fixed=p in fixed) for p in params}


def letters(expr, of):
    return [c for c in of if c in set(map(str, sympy.sympify(expr).free_symbols))]


def callable_of(expr, names, args):
    code = compile(expr, '<formula>', 'eval')
    return lambda **kw: eval(code, {}, {a: kw[names.get(a, a)] for a in args})


class Linear(object):
    """A fit with a model which is linear in its parameters."""

    def __init__(self, ch, design, layout=None):
        self.exprs = OrderedDict(design[1])
        alls = ' + '.join('({})'.format(e) for e in self.exprs.values())
        self.params, self.indep = letters(alls, 'abc'), letters(alls, 'xw')
        data = ch.pick('data', DATA)
        sig = ch.pick('sigma', SIGMAS)
        self.names = ch.pick('names', NAMES)
        self.cls = ch.pick('class', CLASSES)
        used = set(letters(alls, 'yz'))
        self.dep = [c for c in self.exprs if c not in used]
        drop = ch.pick('no data for', [None] + self.dep[:2] if len(self.dep) > 1 else [None])
        self.d = {'x': X, 'w': W}
        self.y = {c: (None if c == drop else data[1][c]) for c in self.dep}
        self.s = {c: (None if c == drop else sig[1](c)) for c in self.dep}
        if layout:
            # z and its independent variable have a shape of their own
            for of in (self.d, self.y, self.s):
                for n, v in of.items():
                    if np.shape(v):
                        of[n] = layout[1 if n in 'wz' else 0](v)
        shape = {c: np.shape(v) for c, v in self.y.items()}
        self.lin, self.fixed, self.guess = attributes(ch, self.params)
        free = [p for p in self.params if p not in self.fixed]

        def residuals(p):
            out = []
            vals = dict({n: np.asarray(v) for n, v in self.d.items()}, **p)
            for c, e in self.exprs.items():
                vals[c] = eval(e, {}, vals)
            for c in self.dep:
                if self.y[c] is not None:
                    s = 1.0 if self.s[c] is None else self.s[c]
                    out.append(np.broadcast_to((vals[c] - np.asarray(self.y[c]))/np.asarray(s), shape[c]).flatten())
            return np.concatenate(out)
        self.residuals = residuals
        base = dict({p: 0.0 for p in self.params}, **self.fixed)
        r0 = residuals(base)
        A = np.array([residuals(dict(base, **{p: 1.0})) - r0 for p in free]).T.reshape(len(r0), len(free))
        f = lambda p: float(np.sum(residuals(p)**2)/2)
        grad = lambda p: A.T @ residuals(p)
        opt = dict(self.fixed)
        if free:
            eq, ge = self.lin.rows(free, self.fixed)
            opt.update(zip(free, solve(A.T @ A, -A.T @ r0, eq, ge)))
        self.problem = Problem(self.params, self.fixed, self.guess, self.lin, f, grad, opt, residuals,
                               A.T @ A if self.cls is Model else None)
        self.problem.gradient = self.cls is Model

    def fit(self, minimizer, **kwargs):
        nm = lambda n: self.names.get(n, n)
        pars = make_pars(self.params, self.lin, self.fixed, self.guess, self.names)
        syms = dict({n: Variable(nm(n)) for n in self.indep + list(self.exprs)}, **pars)
        if self.cls is CallableNumericalModel:
            args = {c: letters(e, 'abcxwyz') for c, e in self.exprs.items()}
            model = CallableNumericalModel(
                {syms[c]: callable_of(e, self.names, args[c]) for c, e in self.exprs.items()},
                connectivity_mapping={syms[c]: {syms[a] for a in args[c]} for c in self.exprs})
        else:
            model = self.cls({syms[c]: eval(e, {}, syms) + 0*syms[self.params[0]]
                              for c, e in self.exprs.items()})
        given = {nm(n): self.d[n] for n in self.indep}
        given.update({nm(c): v for c, v in self.y.items()})
        for c, v in self.s.items():
            if v is not None:
                given['sigma_' + nm(c)] = v
        cons = relations(self.lin, pars)
        if cons:
            kwargs['constraints'] = cons
        if minimizer is not None:
            kwargs['minimizer'] = minimizer
        return Fit(model, **dict(given, **kwargs))


def run(ch, problem, fit, minimizers, names, **execute):
    ch.op()
    np.random.seed(1)
    result = fit.execute(**execute)
    judge(ch, problem, result, minimizers, names)
    return result


def local(ch, chains=False, pairs=False):
    """Models which are linear in their parameters."""
    design = ch.pick('model', DESIGNS if not pairs else DESIGNS[:1] + DESIGNS[4:5], dev=False)
    if chains and THOROUGH and design not in DESIGNS[:7:3]:
        raise Skip()
    if chains:
        minimizers = ch.pick('minimizers', CHAINS, dev=False)
    else:
        minimizers = [ch.pick('minimizer', LOCAL if not pairs else [
            None, LBFGSB, SLSQP, TrustConstr, COBYLA, MINPACK][:3 if THOROUGH else 6], dev=False)]
    prob = Linear(ch, design)
    free = prob.problem.free
    if not usable(minimizers, prob.lin, free) or not free:
        raise Skip()
    if MINPACK in minimizers and prob.cls is not Model:
        # has no analytical Jacobian to give; the complex step is MINPACK's
        raise Skip()
    fit = prob.fit(minimizers if chains else minimizers[0])
    run(ch, prob.problem, fit, minimizers, prob.names)


# each component has its own independent variable
OWN = [
    ('y from x, z from w', {'y': 'a*x + b', 'z': 'a*w + c'}), ('one each', {'y': 'a*x', 'z': 'b*w + a'}),
    ('z second', {'y': 'a*x**2 + b*x', 'z': 'b*w'}), ('apart', {'y': 'a*x', 'z': 'b*w + c*w**2'}),
    ('constant', {'y': 'a*x + b', 'z': 'b'}),
]
flat, grid, column = lambda v: v, lambda v: v.reshape(2, 3), lambda v: v.reshape(6, 1)
LAYOUTS = [
    ('shorter', (flat, lambda v: v[:4])), ('longer', (lambda v: v[1:4], flat)), ('grids', (grid, grid)),
    ('grid and list', (grid, lambda v: v[:5])), ('pair', (flat, lambda v: v[:2])), ('column', (column, grid)),
    ('lists', (list, lambda v: list(v[:4]))),
]


def own(ch):
    """Components which have data of their own shape (a global fit), and data with more dimensions."""
    design = ch.pick('model', OWN, dev=False)
    minimizer = ch.pick('minimizer', LOCAL, dev=False)
    layout = ch.pick('layout', LAYOUTS)
    prob = Linear(ch, design, layout[1])
    if not usable([minimizer], prob.lin, prob.problem.free) or not prob.problem.free:
        raise Skip()
    shapes = {np.shape(y) for y in prob.y.values() if y is not None}
    if minimizer is MINPACK and (prob.cls is not Model or len(shapes) > 1):
        # its objective sums over the components, which need to be of one shape: it says so
        raise Skip()
    run(ch, prob.problem, prob.fit(minimizer), [minimizer], prob.names)


def pairs(ch):
    local(ch, pairs=True)


def chain(ch):
    local(ch, True)


QUADRATICS = [
    ('bowl', '(a - 1)**2 + 2*(b + 0.5)**2'), ('valley', 'a**2 + a*b + 2*b**2 - 3*a + b'),
    ('three', '(a - b)**2 + (b - c - 1)**2 + 2*(c + a)**2 - a'), ('one', '3*(a - 2)**2 + 1'),
    ('large', '100*(a - 3)**2 + 50*(b - a)**2 - 1000'),
]


def minimize(ch):
    """Models which are minimized themselves."""
    form = ch.pick('form', QUADRATICS if THOROUGH else QUADRATICS[1::2], dev=False)
    minimizer = ch.pick('minimizer', [m for m in LOCAL if m is not MINPACK], dev=False)
    names = ch.pick('names', [{}, {'a': 'c', 'b': 'a', 'c': 'b1'}])
    cls = ch.pick('class', CLASSES[:2])
    params = letters(form[1], 'abc')
    lin, fixed, guess = attributes(ch, params)
    free = [p for p in params if p not in fixed]
    if not free or not usable([minimizer], lin, free, MinimizeModel):
        raise Skip()
    code = compile(form[1], 'form', 'eval')
    f = lambda p: float(eval(code, {}, dict(p)))
    base = dict({p: 0.0 for p in params}, **fixed)
    e = lambda *qs: f({p: base[p] + qs.count(p) for p in params})
    H = np.array([[e(p, q) - e(p) - e(q) + e() for q in free] for p in free])
    g = -np.array([e(p) - e() - H[i, i]/2 for i, p in enumerate(free)])
    grad = lambda p: H @ np.array([p[q] for q in free]) - g
    eq, ge = lin.rows(free, fixed)
    opt = dict(fixed, **dict(zip(free, solve(H, g, eq, ge))))
    problem = Problem(params, fixed, guess, lin, f, grad, opt, None, H if cls is Model else None)
    pars = make_pars(params, lin, fixed, guess, names)
    kwargs = {'constraints': relations(lin, pars)} if lin.cons else {}
    if minimizer is not None:
        kwargs['minimizer'] = minimizer
    how = ch.pick('objective', ['default', 'named'])
    if how == 'named':
        kwargs['objective'] = MinimizeModel
    model = cls({Variable('y'): eval(form[1], {}, pars)})
    run(ch, problem, Fit(model, **kwargs), [minimizer], names)


SAMPLES = [np.array([0.3, 1.2, 0.8, 2.5, 0.1]), np.array([2.0, 3.5, 2.75, 1.0, 4.0]),
           np.array([0.1, 0.2, 0.05, 0.3, 0.15])]


DENSITIES = {
    'exponential': lambda p, x, w: np.exp(p['a'])*np.exp(-np.exp(p['a'])*x),
    'rate': lambda p, x, w: p['a']*np.exp(-p['a']*x),
    'mean': lambda p, x, w: np.exp(-(x - p['a'])**2/2)/np.sqrt(2*np.pi),
    'gaussian': lambda p, x, w: np.exp(-(x - p['a'])**2*np.exp(-2*p['b'])/2)*np.exp(-p['b'])/np.sqrt(
        2*np.pi),
    'two exponentials': lambda p, x, w: np.exp(2*p['a'])*2*np.exp(-np.exp(p['a'])*(x + 2*w)),
}


def likelihood(ch):
    """Maximum likelihood, where it is known in closed form or convex in one dimension."""
    kind = ch.pick('density', ['exponential', 'rate', 'mean', 'gaussian', 'two exponentials'], dev=False)
    minimizer = ch.pick('minimizer', [None, BFGS, LBFGSB, SLSQP, TrustConstr, NelderMead, Powell], dev=False)
    sample = ch.pick('sample', SAMPLES)
    lo, hi = ch.pick('bounds', BOUNDS + [(0.4, 6)])
    x, y = Variable('x'), Variable('y')
    guess = ch.pick('guess', [0.5, -0.5, 1.5, 0.1])
    other = ch.pick('fixed sd', [None, 0.7])
    cls = ch.pick('class', CLASSES[:2])
    if kind == 'gaussian' and minimizer is TrustConstr and cls is CallableModel:
        # its finite differences do not survive densities that underflow to zero
        raise Skip()
    n, mean = len(sample), np.mean(sample)
    params, fixed, start = ['a'], {}, {'a': guess}
    data = {'x': sample}
    if kind == 'exponential':
        # density k exp(-k x) with k = exp(a), convex in a
        f = lambda p: -n*p['a'] + np.exp(p['a'])*np.sum(sample)
        best = -np.log(mean)
    elif kind == 'rate':
        if guess < 0 or (lo is None or lo <= 0) and minimizer not in (None, BFGS) or lo is not None and lo < 0:
            raise Skip()
        if hi is not None and hi <= 0.01:
            raise Skip()
        if lo is None:
            lo = 0.01
        f = lambda p: -n*np.log(p['a']) + p['a']*np.sum(sample) if p['a'] > 0 else np.inf
        best = 1/mean
    elif kind == 'mean':
        f = lambda p: np.sum((sample - p['a'])**2)/2 + n*np.log(2*np.pi)/2
        best = mean
    elif kind == 'gaussian':
        # location and log of the width
        params, start = ['a', 'b'], {'a': guess, 'b': 0.2}
        f = lambda p: np.sum((sample - p['a'])**2)*np.exp(-2*p['b'])/2 + n*(p['b'] + np.log(2*np.pi)/2)
        best = mean
    else:
        second = np.array([1.5, 0.5, 0.9, 0.2, 0.6])
        f = lambda p: -2*n*p['a'] + np.exp(p['a'])*(np.sum(sample) + 2*np.sum(second))+ n*np.log(1/2)
        best = -np.log((np.sum(sample) + 2*np.sum(second))/(2*n))
        data['w'] = second
    clip = lambda v: min(max(v, -np.inf if lo is None else lo), np.inf if hi is None else hi)
    opt = {'a': clip(best)}
    start['a'] = clip(start['a'])
    if kind == 'gaussian':
        if other is not None:
            fixed = {'b': np.log(other)}
            opt['b'] = start['b'] = fixed['b']
        else:
            opt['b'] = 0.5*np.log(np.mean((sample - opt['a'])**2))
    elif other is not None:
        raise Skip()
    lin = Lin(params, {'a': lo}, {'a': hi}, [])
    if not usable([minimizer], lin, ['a'], LogLikelihood):
        raise Skip()
    eps = 1e-6
    free = [p for p in params if p not in fixed]
    grad = lambda p: np.array([(f(dict(p, **{q: p[q] + eps})) - f(dict(p, **{q: p[q] - eps})))/(2*eps)
                               for q in free])
    # the logarithm of a density which underflows
    g = grad
    grad = lambda p: g(p) if np.isfinite(computed(p)) else np.full(len(free), np.nan)
    problem = Problem(params, fixed, start, lin, f, grad, opt)

    def computed(p):
        with np.errstate(all='ignore'):
            return -np.sum(np.log(DENSITIES[kind](p, sample, data.get('w'))))
    problem.computed, problem.gradient = computed, cls is Model
    pars = make_pars(params, lin, fixed, start, {})
    a, b = pars['a'], pars.get('b')
    pi = sympy.pi
    expr = {'exponential': lambda: sympy.exp(a)*sympy.exp(-sympy.exp(a)*x),
            'rate': lambda: a*sympy.exp(-a*x),
            'mean': lambda: sympy.exp(-(x - a)**2/2)/sympy.sqrt(2*pi),
            'gaussian': lambda: sympy.exp(-(x - a)**2*sympy.exp(-2*b)/2)*sympy.exp(-b)/sympy.sqrt(2*pi),
            'two exponentials': lambda: sympy.exp(2*a)*2*sympy.exp(
                -sympy.exp(a)*(x + 2*Variable('w')))}[kind]()
    kwargs = {} if minimizer is None else {'minimizer': minimizer}
    run(ch, problem, Fit(cls({y: expr}), objective=LogLikelihood, **dict(data, **kwargs)), [minimizer], {})


def nonlinear(ch):
    """Exact data of nonlinear and differential models."""
    kind = ch.pick('model', ['decay', 'saturation', 'ode', 'numerical decay', 'initial value'], dev=False)
    minimizer = ch.pick('minimizer', [None, BFGS, LBFGSB, SLSQP, TrustConstr, NelderMead, Powell, MINPACK],
                        dev=False)
    truth = ch.pick('truth', [{'a': 1.5, 'b': 0.8}, {'a': -0.75, 'b': 1.25}])
    off = ch.pick('guess', [1.0, 0.8, 1.25, 1.4])
    fixed = ch.pick('fixed', [(), ('a',), ('b',)])
    bound = ch.pick('bounds', [None, 'inactive', 'one sided'])
    sigma = ch.pick('sigma', [None, 0.2, 'array'])
    xs = np.linspace(0, 2, 6)
    if kind in ('numerical decay', 'ode', 'initial value') and minimizer is MINPACK:
        raise Skip()
    formula = {'saturation': lambda a, b: a*xs/(0.5 + b**2 + xs)}.get(
        kind, lambda a, b: a*np.exp(-b*xs))
    ys = formula(**truth)
    params = ['a', 'b']
    if kind == 'ode':
        # the initial value is a number
        params, fixed = ['b'], tuple(set(fixed) - {'a'})
    free = [p for p in params if p not in fixed]
    if not free:
        raise Skip()
    lo, hi = {}, {}
    for p in free:
        if bound == 'inactive':
            lo[p], hi[p] = truth[p] - 1.5, truth[p] + 1.0
        elif bound == 'one sided':
            lo[p] = truth[p] - 0.9
    lin = Lin(params, lo, hi, [])
    if not usable([minimizer], lin, free):
        raise Skip()
    start = {p: truth[p] if p in fixed else truth[p]*off for p in params}
    s = 1.0 if sigma is None else sigma if sigma != 'array' else np.array([0.5, 1, 2, 1, 0.25, 1])
    res = lambda p: (formula(p.get('a', truth['a']), p['b']) - ys)/s
    f = lambda p: float(np.sum(res(p)**2)/2)
    eps = 1e-6
    grad = lambda p: np.array([(f(dict(p, **{q: p[q] + eps})) - f(dict(p, **{q: p[q] - eps})))/(2*eps)
                               for q in free])
    problem = Problem(params, {p: truth[p] for p in params if p in fixed}, start, lin, f, grad,
                      {p: truth[p] for p in params}, res)
    pars = make_pars(params, lin, fixed, start, {})
    x, y = Variable('x'), Variable('y')
    a, b = pars.get('a', truth['a']), pars['b']
    if kind == 'numerical decay':
        model = CallableNumericalModel({y: lambda x, a, b: a*np.exp(-b*x)},
                                       connectivity_mapping={y: {x, a, b}})
    elif kind in ('ode', 'initial value'):
        model = ODEModel({D(y, x): -b*y}, {x: 0.0, y: a})
    else:
        model = {y: a*sympy.exp(-b*x) if kind == 'decay' else a*x/(sympy.Rational(1, 2) + b**2 + x)}
    kwargs = {} if minimizer is None else {'minimizer': minimizer}
    if sigma is not None:
        kwargs['sigma_y'] = s
    run(ch, problem, Fit(model, x=xs, y=ys, **kwargs), [minimizer], {})


def disk(ch):
    """A constraint which is not linear: the distance to a point is bounded."""
    design = ch.pick('model', [d for d in DESIGNS if 'c' not in ' '.join(d[1].values())
                               and 'b' in ' '.join(d[1].values())], dev=False)
    minimizer = ch.pick('minimizer', [None, SLSQP, TrustConstr, COBYLA], dev=False)
    radius = ch.pick('radius', [0.6, 0.3, 3.0] if THOROUGH else [0.6, 3.0], dev=False)
    how = ch.pick('written', ['le', 'ge', 'sum'] if THOROUGH else ['le', 'sum'], dev=False)
    prob = Linear(ch, design)
    p = prob.problem
    if p.fixed or prob.lin.cons or any(v is not None for d in (prob.lin.lo, prob.lin.hi)
                                       for v in d.values()) or len(p.free) != 2:
        raise Skip()
    base = {'a': 0.0, 'b': 0.0}
    r0 = prob.residuals(base)
    A = np.array([prob.residuals(dict(base, **{q: 1.0})) - r0 for q in p.free]).T
    H, g = A.T @ A, -A.T @ r0
    best = np.linalg.solve(H, g)
    if np.linalg.norm(best) > radius:
        lo, hi = 0.0, 1e6
        for _ in range(200):
            lam = (lo + hi)/2
            best = np.linalg.solve(H + lam*np.eye(2), g)
            lo, hi = (lam, hi) if np.linalg.norm(best) > radius else (lo, lam)
    p.optimum = dict(zip(p.free, best))
    inside = lambda q: max(0.0, q['a']**2 + q['b']**2 - radius**2)
    p.infeasibility = inside
    method = minimizer or SLSQP

    def direct(_):
        kw = {} if method is COBYLA else {'jac': lambda u: p.grad(p.full(u))}
        return p.full(scipy.optimize.minimize(
            lambda u: p.f(p.full(u)), p.vec(p.guess), method=METHOD[method],
            constraints=[{'type': 'ineq', 'fun': lambda u: radius**2 - u @ u}], **kw).x)
    p.direct = direct
    pars = make_pars(prob.params, prob.lin, {}, prob.guess, prob.names)
    left = pars['a']**2 + pars['b']**2
    con = {'le': lambda: Le(left, radius**2), 'ge': lambda: Ge(radius**2, left),
           'sum': lambda: Ge(radius**2 - left, 0)}[how]()
    fit = prob.fit(minimizer, constraints=[con])
    run(ch, p, fit, [minimizer], prob.names)


def everywhere(ch):
    """Global minimizers find the optimum too."""
    design = ch.pick('model', DESIGNS[:2] + DESIGNS[4:5] + DESIGNS[7:], dev=False)
    which = ch.pick('minimizer', [DifferentialEvolution, BasinHopping, [DifferentialEvolution, BFGS],
                                  [BasinHopping, NelderMead]], dev=False)
    prob = Linear(ch, design)
    p = prob.problem
    if not p.free or prob.lin.cons:
        raise Skip()
    bounded = [prob.lin.lo.get(q) is not None or prob.lin.hi.get(q) is not None for q in p.free]
    first, last = (which[0], which[-1]) if isinstance(which, list) else (which, which)
    if first is DifferentialEvolution:
        for q in p.free:
            if None not in (prob.lin.lo.get(q), prob.lin.hi.get(q)) or not any(bounded):
                continue
            raise Skip()
        if not any(bounded):
            # these contain all the unconstrained optima
            for q in p.free:
                prob.lin.lo[q], prob.lin.hi[q] = -4, 4.5
            if max(abs(v) for v in p.optimum.values()) > 4:
                raise Skip()
        elif last is BFGS:
            raise Skip()
    elif any(bounded) and last is NelderMead:
        raise Skip()
    if first is BasinHopping and prob.cls is CallableNumericalModel:
        raise Skip()
    p.direct = lambda _: p.optimum
    kw = {DifferentialEvolution: {'seed': 2, 'popsize': 12, 'tol': 1e-8},
          BasinHopping: {'seed': 2, 'niter': 6}}
    execute = kw[first] if not isinstance(which, list) else {first.__name__: kw[first]}
    run(ch, p, prob.fit(which), [last], prob.names, **execute)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'local': {'body': local, 'bound': 2 if t else 1},
            'pairs': {'body': pairs, 'bound': 3 if t else 2},
            'own': {'body': own, 'bound': 2 if t else 1},
            'chain': {'body': chain, 'bound': 2 if t else 1},
            'minimize': {'body': minimize, 'bound': 2},
            'likelihood': {'body': likelihood, 'bound': 3 if t else 2},
            'nonlinear': {'body': nonlinear, 'bound': 3 if t else 2},
            'disk': {'body': disk, 'bound': 2 if t else 1},
            'everywhere': {'body': everywhere, 'bound': 2 if t else 1},
        },
        'budget_s': 780 if t else 240,
        'rule': 'all problems within the deviation bound (data, weights, names, model class, components '
                'without data, bounds and fixed value per parameter, constraints, initial guess) for '
                'every model and every minimizer which supports the features used; the oracle is the '
                'exact optimum by enumeration of all active sets',
        'assumptions': ['optima are unique', 'a problem which the back end fails to solve when handed '
                        'directly by the harness is skipped'],
    }
