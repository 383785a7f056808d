"""
The problem as the numerical back end sees it, independent of the format in
which it is handed over, and the answers a back end gives.
"""
import numpy as np
from scipy.optimize import OptimizeResult, Bounds, NonlinearConstraint, LinearConstraint

INF = float('inf')


def _lo(v):
    return -INF if v is None else float(v)


def _hi(v):
    return INF if v is None else float(v)


def norm_bounds(bounds, n):
    """list of (low, high), or None when there are no bounds at all"""
    if bounds is None:
        return None
    if isinstance(bounds, Bounds):
        lb = np.broadcast_to(np.asarray(bounds.lb, float), (n,))
        ub = np.broadcast_to(np.asarray(bounds.ub, float), (n,))
        return list(zip(lb.tolist(), ub.tolist()))
    return [(_lo(l), _hi(h)) for l, h in bounds]


class Con(object):
    """One constraint: lb <= fun(x) <= ub."""

    def __init__(self, fun, lb, ub, jac=None, hess=None, hess_v=None):
        self.fun, self.lb, self.ub, self.jac = fun, lb, ub, jac
        self.hess = hess      # Hessian of fun, callable(x) or None

    def value(self, x):
        return np.ravel(np.asarray(self.fun(np.array(x, dtype=float)), float))

    def satisfied(self, x, tol=1e-12):
        v = self.value(x)
        return bool(np.all(v >= self.lb - tol) and np.all(v <= self.ub + tol))


def norm_constraints(cons):
    if cons is None:
        return []
    if isinstance(cons, (dict, NonlinearConstraint, LinearConstraint)):
        cons = [cons]
    out = []
    for c in cons:
        if isinstance(c, dict):
            args = c.get('args', ())
            fun = (lambda x, f=c['fun'], a=args: f(x, *a))
            jac = c.get('jac')
            if callable(jac):
                jac = (lambda x, f=c['jac'], a=args: f(x, *a))
            ub = 0.0 if c['type'] == 'eq' else INF
            hess = c.get('hess')
            out.append(Con(fun, 0.0, ub, jac, hess if callable(hess) else None))
        elif isinstance(c, LinearConstraint):
            A = np.atleast_2d(c.A)
            out.append(Con(lambda x, A=A: A @ x, np.asarray(c.lb), np.asarray(c.ub),
                           lambda x, A=A: A))
        else:
            hess = None
            if callable(c.hess):
                hess = lambda x, h=c.hess: np.asarray(h(x, np.array([1.0])))
            out.append(Con(c.fun, np.asarray(c.lb, float), np.asarray(c.ub, float),
                           c.jac if callable(c.jac) else None, hess))
            out[-1].hess_v = c.hess if callable(c.hess) else None
    return out


class Handed(object):
    def __init__(self, name, args):
        self.name, self.args = name, args
        self.explicit = args['_explicit']
        kw = args
        if name == 'minimize':
            self.fun, self.x0 = args['fun'], args['x0']
            self.method = args['method']
            self.jac, self.hess = args['jac'], args['hess']
        elif name == 'differential_evolution':
            self.fun, self.x0 = args['func'], args.get('x0')
            self.method, self.jac, self.hess = name, None, None
        elif name == 'basinhopping':
            self.fun, self.x0 = args['func'], args['x0']
            kw = dict(args['minimizer_kwargs'] or {})
            self.local = kw
            self.method = kw.get('method')
            self.jac, self.hess = kw.get('jac'), kw.get('hess')
        elif name == 'least_squares':
            self.fun, self.x0 = args['fun'], args['x0']
            self.method, self.jac, self.hess = args['method'], args['jac'], None
        if self.x0 is not None:
            self.x0 = np.atleast_1d(np.asarray(self.x0, dtype=float))
            n = self.x0.size
        else:
            n = len(args['bounds'])
        self.n = n
        b = kw.get('bounds')
        if name == 'least_squares':
            if not isinstance(b, Bounds):
                lb, ub = b
                b = Bounds(np.broadcast_to(np.asarray(lb, float), (n,)),
                           np.broadcast_to(np.asarray(ub, float), (n,)))
        self.bounds = norm_bounds(b, n)
        self.constraints = norm_constraints(kw.get('constraints'))

    def answer(self, x, message='answered', nit=7, nfev=23, **extra):
        """What this back end returns for the point ``x``."""
        x = np.array(x, dtype=float)
        fun = self.fun(x)
        res = OptimizeResult(x=x, message=message, nfev=nfev, success=True)
        if self.name == 'least_squares':
            res.fun = np.atleast_1d(np.asarray(fun, float))
            res.cost = 0.5 * float(np.sum(res.fun**2))
            res.status, res.active_mask = 1, np.zeros(x.size)
            res.optimality, res.grad, res.njev = 0.0, np.zeros(x.size), 3
            res.jac = np.zeros((res.fun.size, x.size))
        else:
            res.fun = float(np.squeeze(fun))
            if self.name == 'basinhopping':
                res.message, res.nit = [message], nit
                res.minimization_failures = 0
                res.lowest_optimization_result = OptimizeResult(x=x, fun=res.fun)
                res.njev = 5
            elif self.name == 'differential_evolution':
                res.nit = nit
            else:
                res.status = 0
                if self.method == 'COBYLA':
                    res.maxcv = 0.0
                elif self.method == 'trust-constr':
                    # scipy reports both
                    res.nit = res.niter = nit
                    res.njev, res.nhev, res.cg_niter = 4, 4, 2
                    res.method = 'tr_interior_point'
                    res.grad, res.constr = np.zeros(x.size), []
                else:
                    res.nit = nit
                    if self.method not in ('Nelder-Mead', 'Powell'):
                        res.njev, res.jac = 9, np.zeros(x.size)
        res.update(extra)
        return res


def central(f, x, h=1e-5):
    """Central difference of a (flattened) function: shape (outputs, n)."""
    x = np.array(x, dtype=float)
    cols = []
    for i in range(x.size):
        d = np.zeros_like(x)
        d[i] = h
        cols.append((np.ravel(f(x + d)) - np.ravel(f(x - d))) / (2 * h))
    return np.array(cols).T
