"""
Generation of fit problems: a model, data of every kind for its variables,
standard deviations, fixed parameters; with the reference value, gradient and
Hessian of the objectives.
"""
import itertools
from collections import OrderedDict

import numpy as np

from . import env  # noqa
from . import gen, jets
from symfit import Fit, Model, CallableModel, CallableNumericalModel
from symfit.core.models import GradientModel, BaseGradientModel
from symfit.core.objectives import (
    LeastSquares, VectorLeastSquares, LogLikelihood, MinimizeModel)


class NumericalGradientModel(CallableNumericalModel, BaseGradientModel):
    pass


MODELS = ['Model', 'GradientModel', 'CallableModel', 'CallableNumericalModel',
          'NumericalGradientModel']
DATA = ['noisy', 'exact', 'zero', 'int', 'none']
SIGMA = [None, 'scalar', 'array', 'int', 'zerodim', 'list', 'intarray']
TRUE = dict(a=0.9, b=1.2, c=0.4, d=-0.7)


def wiggle(shape, k):
    n = int(np.prod(shape)) if shape else 1
    return (0.1 + 0.35 * np.sin(1.7 * np.arange(n) + 2.1 * k)).reshape(shape)


def subsets(items):
    items = list(items)
    return [list(s) for k in range(len(items) + 1)
            for s in itertools.combinations(items, k)]


class Problem(object):
    def __init__(self, am, xs, start, fixed=(), attrs=None, kind='Model', order=None):
        """``xs``/``start`` by abstract name."""
        self.am = am
        self.x = gen.at(am, xs)
        self.start = gen.at(am, start)
        self.fixed = [am.nm(p) for p in fixed]
        self.free = [p for p in am.params if p not in self.fixed]
        attrs = dict((am.nm(k), dict(v)) for k, v in (attrs or {}).items() if k in am.abs_params)
        for p in am.params:
            attrs.setdefault(p, {})
            attrs[p]['value'] = self.start[p]
            attrs[p]['fixed'] = p in self.fixed
        self.attrs = attrs
        self.kind = kind
        self.order = order
        self.y = OrderedDict()       # dependent data by name (may be None)
        self.sigma = OrderedDict()   # sigma by name of the dependent variable

    # -- data --------------------------------------------------------------
    def component_shapes(self):
        ref = self.am.ref1(self.x, gen.at(self.am, TRUE))
        return {n: ref[n].v.shape for n in self.am.dep}

    def make_data(self, kinds, shapes=None):
        ref = self.am.ref1(self.x, gen.at(self.am, TRUE))
        for k, n in enumerate(self.am.dep):
            kind = kinds[k]
            shape = (shapes or {}).get(n, ref[n].v.shape)
            base = np.broadcast_to(jets.trailing(ref[n], shape).v if ref[n].v.size > 1 else
                                   ref[n].v.reshape(()), shape)
            if kind == 'noisy':
                y = base + wiggle(shape, k)
            elif kind == 'exact':
                y = np.array(base)
            elif kind == 'zero':
                y = np.zeros(shape)
            elif kind == 'int':
                y = np.arange(int(np.prod(shape))).reshape(shape) - 1
            else:
                y = None
            self.y[n] = y

    def make_sigma(self, kinds):
        for k, n in enumerate(self.am.dep):
            kind = kinds[k]
            y = self.y[n]
            if kind is None or y is None:
                s = None
            elif kind == 'scalar':
                s = 2.0 + k
            elif kind == 'int':
                s = 3 + k
            elif kind == 'zerodim':
                s = np.array(0.5 + k)
            elif kind == 'intarray':
                s = 1 + np.arange(y.size).reshape(y.shape) % 3 + k
            else:
                s = 0.4 + 0.3 * np.arange(y.size).reshape(y.shape) + k
                if kind == 'list':
                    s = s.tolist()
            self.sigma[n] = s

    @property
    def used(self):
        return [n for n in self.am.dep if self.y.get(n) is not None]

    # -- the implementation -------------------------------------------------
    def build(self):
        am = self.am
        self.syms = am.symbols(**self.attrs)
        if self.kind in ('Model', 'GradientModel', 'CallableModel'):
            cls = {'Model': Model, 'GradientModel': GradientModel,
                   'CallableModel': CallableModel}[self.kind]
            self.model = cls(am.model_dict(self.syms, self.order))
        else:
            cls = (NumericalGradientModel if self.kind == 'NumericalGradientModel'
                   else CallableNumericalModel)
            d, con = am.callables(self.syms, None, self.order)
            self.model = cls(d, connectivity_mapping=con)
        return self.model

    def named(self, **extra):
        """Raw data by name, as one gives them to Fit."""
        out = OrderedDict(self.x)
        out.update(self.y)
        for n, s in self.sigma.items():
            if s is not None:
                out['sigma_' + n] = s
        out.update(extra)
        return out

    def direct(self):
        """Complete data by Variable, as one gives them to an objective."""
        out = OrderedDict()
        for n, v in self.x.items():
            out[self.syms[n]] = v
        for n in self.am.dep:
            out[self.syms[n]] = self.y.get(n)
            out[self.model.sigmas[self.syms[n]]] = self.full_sigma(n)
        return out

    def full_sigma(self, n):
        y, s = self.y.get(n), self.sigma.get(n)
        if y is None:
            return None
        if s is None:
            return np.ones(np.shape(y))
        return np.asarray(s) * np.ones(np.shape(y))

    # -- the reference ------------------------------------------------------
    def at(self, values):
        """Complete point from values of the free parameters (by name)."""
        return dict(self.start, **{k: v for k, v in values.items() if k not in self.fixed})

    def components(self, point, params=None):
        return self.am.ref1(self.x, point, params)

    def residuals(self, point, params=None):
        """Normalised residuals per component with data, as jets."""
        ref = self.components(point, params)
        return OrderedDict(
            (n, (jets.reshape(jets.trailing(ref[n], np.shape(self.y[n])), np.shape(self.y[n]))
                 - self.y[n]) /
             self.full_sigma(n)) for n in self.used)

    def least_squares(self, point, params=None):
        tot = None
        for r in self.residuals(point, params).values():
            t = jets.total(r * r) * 0.5
            tot = t if tot is None else tot + t
        return tot

    def per_component(self, point):
        res = self.residuals(point)
        return [0.5 * float(np.sum(res[n].v**2)) if n in res else 0.0 for n in self.am.dep]

    def vector(self, point, params=None):
        """Root of the summed squares, flattened."""
        tot = None
        for r in self.residuals(point, params).values():
            tot = r * r if tot is None else tot + r * r
        n = tot.n
        k = tot.v.size
        tot = jets.Jet(tot.v.ravel(), tot.g.reshape(n, k), tot.h.reshape(n, n, k))
        return jets.sqrt(tot)

    def likelihood(self, point, params=None):
        ref = self.components(point, params)
        tot = None
        for n in self.am.dep:
            t = -jets.total(jets.log(ref[n]))
            tot = t if tot is None else tot + t
        return tot

    def minimize(self, point, params=None):
        ref = self.am.ref1(self.x, point, params)
        return ref[self.am.dep[0]]


# Positive for all points used
L_FORMS = [
    gen.F('y=exp(a*x+b)', 'a x b', lambda m, a, x, b: m.exp(a*x + b)),
    gen.F('y=exp(-(x-a)**2/2)*(1+b**2)', 'x a b',
          lambda m, x, a, b: m.exp(-(x - a)**2/2)*(1 + b**2)),
    gen.F('y=(1+a**2)*exp(-x*(1+a**2))', 'a x',
          lambda m, a, x: (1 + a**2)*m.exp(-x*(1 + a**2))),
    gen.F('y=1+a**2+b**2*x**2', 'a b x', lambda m, a, b, x: 1 + a**2 + b**2*x**2),
    gen.F('y=exp(a)', 'a', lambda m, a: m.exp(a)),
    gen.F('y=x**2+a**2+1/2', 'x a', lambda m, x, a: x**2 + a**2 + 0.5),
]
L_Z_FORMS = [
    None,
    gen.F('z=y**2+b**2', 'y b', lambda m, y, b: y**2 + b**2),
    gen.F('z=exp(c*x)', 'c x', lambda m, c, x: m.exp(c*x)),
    gen.F('z=y*exp(c)', 'y c', lambda m, y, c: y*m.exp(c)),
]
# Scalar functions to minimise
M_FORMS = [
    gen.F('y=(a-2)**2+(b+1)**2', 'a b', lambda m, a, b: (a - 2)**2 + (b + 1)**2),
    gen.F('y=a**2+a*b+2*b**2-c', 'a b c', lambda m, a, b, c: a**2 + a*b + 2*b**2 - c),
    gen.F('y=sin(a)*b', 'a b', lambda m, a, b: m.sin(a)*b),
    gen.F('y=a**2', 'a', lambda m, a: a**2),
    gen.F('y=a*b*c*d', 'a b c d', lambda m, a, b, c, d: a*b*c*d),
]
M_Z_FORMS = [
    None,
    gen.F('z=y**2+a', 'y a', lambda m, y, a: y**2 + a),
    gen.F('z=y*c', 'y c', lambda m, y, c: y*c),
]
