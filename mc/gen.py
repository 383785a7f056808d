"""
Generation of models from formulas which are written once and evaluated in
three worlds: sympy (what the user gives to symfit), numpy (callables for
numerical models) and jets (the reference).
"""
from collections import OrderedDict, namedtuple

import numpy as np
import sympy

from . import env  # noqa: wraps scipy before symfit is imported
from . import jets
from symfit import Parameter, Variable

# syms: names of the arguments; f(m, *values) with m a namespace of functions
Form = namedtuple('Form', 'name syms f')


def F(name, syms, f):
    return Form(name, syms.split(), f)


INDEP = ('x', 'w')
PARAMS = ('a', 'b', 'c', 'd')

Y_FORMS = [
    F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b),
    F('y=a*b*x', 'a x b', lambda m, a, x, b: a*b*x),
    F('y=a*exp(-b*x)', 'a x b', lambda m, a, x, b: a*m.exp(-b*x)),
    F('y=a*x/(1+b**2+x**2)', 'a x b', lambda m, a, x, b: a*x/(1 + b**2 + x**2)),
    F('y=a', 'a', lambda m, a: a + 0),
    F('y=x**2', 'x', lambda m, x: x**2),
    F('y=(a-2)**2*x+a*b', 'a x b', lambda m, a, x, b: (a - 2)**2*x + a*b),
    F('y=a*x+b*w', 'a x b w', lambda m, a, x, b, w: a*x + b*w),
    F('y=sin(a*x+b*c)', 'a x b c', lambda m, a, x, b, c: m.sin(a*x + b*c)),
    F('y=a*b', 'a b', lambda m, a, b: a*b),
    F('y=a**3+x', 'a x', lambda m, a, x: a**3 + x),
    F('y=b**2*x', 'b x', lambda m, b, x: b**2*x),
]
Z_FORMS = [
    None,
    F('z=y**2*b+a', 'y b a', lambda m, y, b, a: y**2*b + a),
    F('z=c*y+x', 'c y x', lambda m, c, y, x: c*y + x),
    F('z=c*x+d', 'c x d', lambda m, c, x, d: c*x + d),
    F('z=sin(y)*c', 'y c', lambda m, y, c: m.sin(y)*c),
    F('z=y+x', 'y x', lambda m, y, x: y + x),
    F('z=exp(y/9)*w', 'y w', lambda m, y, w: m.exp(y/9)*w),
    F('z=b*x**2+a', 'b x a', lambda m, b, x, a: b*x**2 + a),
    F('z=y*y*y', 'y', lambda m, y: y*y*y),
    F('z=a', 'a', lambda m, a: a + 0),
]
U_FORMS = [
    None,
    F('u=y*z', 'y z', lambda m, y, z: y*z),
    F('u=z+a*y', 'z a y', lambda m, z, a, y: z + a*y),
    F('u=z**2*d', 'z d', lambda m, z, d: z**2*d),
    F('u=c*x', 'c x', lambda m, c, x: c*x),
    F('u=y-d', 'y d', lambda m, y, d: y - d),
    F('u=sin(z)*y+c', 'z y c', lambda m, z, y, c: m.sin(z)*y + c),
]
V_FORMS = [
    None,
    F('v=u*y*a', 'u y a', lambda m, u, y, a: u*y*a),
    F('v=u+z**2', 'u z', lambda m, u, z: u + z**2),
    F('v=b*x', 'b x', lambda m, b, x: b*x),
]


def piece(m, x, edge, low, high):
    """``low`` below the edge, ``high`` from the edge on."""
    if m is sympy:
        return sympy.Piecewise((low, x < edge), (high, True))
    if m is np:
        return np.where(x < edge, low, high)
    return jets.where((x.v if isinstance(x, jets.Jet) else x) < edge, low, high)


def atan(m, x):
    return np.arctan(x) if m is np else m.atan(x)


# Other functions: powers with parameters as exponent, branches, constants
W_FORMS = [
    F('y=(2+x**2)**a*b', 'x a b', lambda m, x, a, b: (2.5 + x**2)**a*b),
    F('y=a*2**(b*x)', 'a b x', lambda m, a, b, x: a*2.5**(b*x)),
    F('y=sqrt(1+a**2*x**2)+b', 'a x b', lambda m, a, x, b: m.sqrt(1 + a**2*x**2) + b),
    F('y=log(3+sin(a*x))', 'a x', lambda m, a, x: m.log(3 + m.sin(a*x))),
    F('y=tanh(a*x-b)', 'a x b', lambda m, a, x, b: m.tanh(a*x - b)),
    F('y=atan(a*x)*b', 'a x b', lambda m, a, x, b: atan(m, a*x)*b),
    F('y=cosh(a/3)*x', 'a x', lambda m, a, x: m.cosh(a/3)*x),
    F('y=pi*a*x**3/7', 'a x', lambda m, a, x: m.pi*a*x**3/7),
    F('y=piece(x,1,a*x,b*x**2)', 'x a b', lambda m, x, a, b: piece(m, x, 1, a*x, b*x**2)),
    F('y=piece(x,1,a,b)', 'x a b', lambda m, x, a, b: piece(m, x, 1, a, b)),
    F('y=piece(x,0.5,a*sin(x),0)', 'x a', lambda m, x, a: piece(m, x, 0.5, a*m.sin(x), 0)),
    F('y=piece(w,0.45,a*x,a*x+b**2)', 'w a x b', lambda m, w, a, x, b: piece(m, w, 0.45, a*x, a*x + b**2)),
    F('y=cos(a)**2+sin(a)**2+x', 'a x', lambda m, a, x: m.cos(a)**2 + m.sin(a)**2 + x),
    F('y=exp(a*x)/(1+exp(a*x))', 'a x', lambda m, a, x: m.exp(a*x)/(1 + m.exp(a*x))),
    F('y=a/(1+exp(-b*(x-c)))', 'a b x c', lambda m, a, b, x, c: a/(1 + m.exp(-b*(x - c)))),
    F('y=a*b*c*d*x*w', 'a b c d x w', lambda m, a, b, c, d, x, w: a*b*c*d*x*w),
    F('y=(a*x+b)**(3/2) of squares', 'a x b', lambda m, a, x, b: ((a*x)**2 + b**2 + 1)**1.5),
]
WZ_FORMS = [
    None,
    F('z=piece(y,0.5,c*y,c*y**2)', 'y c', lambda m, y, c: piece(m, y, 0.5, c*y, c*y**2)),
    F('z=tanh(y*c)', 'y c', lambda m, y, c: m.tanh(y*c)),
    F('z=(1+y**2)**c', 'y c', lambda m, y, c: (1.5 + y**2)**c),
    F('z=y**2*b+a', 'y b a', lambda m, y, b, a: y**2*b + a),
    F('z=piece(x,1,y,d*y)', 'x y d', lambda m, x, y, d: piece(m, x, 1, y, d*y)),
    F('z=sqrt(y**2+1)/d', 'y d', lambda m, y, d: m.sqrt(y**2 + 1)*d),
]
WU_FORMS = [
    None,
    F('u=log(1+z**2)*y', 'z y', lambda m, z, y: m.log(1 + z**2)*y),
    F('u=piece(z,1,y,z)', 'z y', lambda m, z, y: piece(m, z, 1, y, z)),
]

# Renamings of the abstract names; the alphabetical order changes with them.
NAMES = [
    ('plain', {}),
    ('reversed', dict(x='xx', w='w', y='z9', z='y8', u='u', v='a_v',
                      a='d', b='c', c='b', d='a')),
    ('crossed', dict(x='w', w='x', y='u', z='y', u='z', v='q',
                     a='b', b='a', c='Z', d='c1')),
    ('numbered', dict(x='x_10', w='x_2', y='x_1', z='x_3', u='x_11', v='x_9',
                      a='p10', b='p9', c='p', d='P2')),
    ('reserved', dict(x='S', w='E', y='I', z='beta', u='N', v='Q',
                      a='lamda', b='pi', c='gamma', d='zeta')),
]


class AM(object):
    """An abstract model: forms by component, in topological order."""

    def __init__(self, forms, names=None):
        names = names or {}
        self.nm = lambda s: names.get(s, s)
        self.forms = OrderedDict()
        for f in forms:
            self.forms[f.name.split('=')[0]] = f
        self.comps = list(self.forms)
        syms = set(s for f in self.forms.values() for s in f.syms)
        missing = [s for s in syms if s in ('y', 'z', 'u', 'v') and s not in self.forms]
        self.valid = not missing
        self.abs_indep = [s for s in INDEP if s in syms]
        self.abs_params = [s for s in PARAMS if s in syms]
        # concrete names
        self.params = sorted(self.nm(s) for s in self.abs_params)
        self.indep = sorted(self.nm(s) for s in self.abs_indep)
        self.components = sorted(self.nm(s) for s in self.comps)
        self.deps = {self.nm(c): set(self.nm(s) for s in f.syms)
                     for c, f in self.forms.items()}
        used = set().union(*self.deps.values()) if self.deps else set()
        self.used = used & set(self.components)
        self.level = {}
        for c in self.comps:
            self.level[self.nm(c)] = 1 + max(
                [0] + [self.level[self.nm(s)] for s in self.forms[c].syms
                       if s in self.forms])
        self.top = max(self.level.values()) if self.level else 0
        self.dep = [c for c in self.components if c not in self.used]
        self.inter = [c for c in self.components if c in self.used]
        # components on which nothing depends, below the highest level
        self.odd = [c for c in self.dep if self.level[c] < self.top]

    # -- the three worlds --------------------------------------------------
    def symbols(self, **attrs):
        s = {}
        for a in self.abs_params:
            n = self.nm(a)
            s[n] = param(n, **attrs.get(n, {}))
        for v in self.abs_indep + self.comps:
            s[self.nm(v)] = Variable(self.nm(v))
        return s

    def model_dict(self, syms, order=None):
        d = OrderedDict()
        for c in (order or self.comps):
            f = self.forms[c]
            d[syms[self.nm(c)]] = sympy.sympify(
                f.f(sympy, *[syms[self.nm(s)] for s in f.syms]))
        return d

    def callables(self, syms, numeric=None, order=None):
        """Model dict with numpy callables for ``numeric``, and its connectivity."""
        numeric = self.comps if numeric is None else numeric
        d, con = OrderedDict(), {}
        for c in (order or self.comps):
            f = self.forms[c]
            v = syms[self.nm(c)]
            if c in numeric:
                d[v] = make_callable(f, [self.nm(s) for s in f.syms])
                con[v] = {syms[self.nm(s)] for s in f.syms}
            else:
                d[v] = sympy.sympify(f.f(sympy, *[syms[self.nm(s)] for s in f.syms]))
        return d, con

    def ref(self, data, point, params=None):
        """Jets of all components by name; ``data``/``point`` by concrete name."""
        params = self.params if params is None else params
        n = len(params)
        vals = {}
        for a in self.abs_params:
            nm = self.nm(a)
            vals[a] = Jet_param(point[nm], params, nm)
        for v in self.abs_indep:
            vals[v] = jets.Jet.const(data[self.nm(v)], n)
        out = {}
        for c in self.comps:
            f = self.forms[c]
            j = f.f(jets.space, *[vals[s] for s in f.syms])
            vals[c] = j
            out[self.nm(c)] = j
        return out

    def ref1(self, data, point, params=None):
        """As ref, with at least one data dimension (as symfit returns it)."""
        out = {}
        for k, j in self.ref(data, point, params).items():
            if j.v.ndim == 0:
                j = jets.Jet(j.v[None], j.g[..., None], j.h[..., None])
            out[k] = j
        return out

    def __repr__(self):
        return '; '.join(f.name for f in self.forms.values())


def Jet_param(value, params, name):
    if name in params:
        return jets.Jet.param(value, params.index(name), len(params))
    return jets.Jet.const(value, len(params))


def make_callable(form, names):
    """A python function whose arguments have the given (concrete) names."""
    f = form.f

    def component(**kwargs):
        return f(np, *[kwargs[n] for n in names])
    return component


def param(name, value=1.0, min=None, max=None, fixed=False):
    """All attributes explicit: equal names share one object in a process."""
    p = Parameter(name, value=value, min=min, max=max, fixed=fixed)
    p.value, p.min, p.max, p.fixed = value, min, max, fixed
    return p


def pick_model(ch, y=None, z=None, u=None, v=None, names=None, dev=True,
               allow_odd=True):
    """Choose a model; all choices are points of the choice tree."""
    forms = [ch.pick('y', y or Y_FORMS, dev=dev)]
    f = ch.pick('z', z if z is not None else Z_FORMS, dev=dev)
    if f is not None:
        forms.append(f)
        f = ch.pick('u', u if u is not None else [None], dev=dev)
        if f is not None:
            forms.append(f)
            f = ch.pick('v', v if v is not None else [None], dev=dev)
            if f is not None:
                forms.append(f)
    nm = ch.pick('names', names if names is not None else NAMES, dev=dev)
    am = AM(forms, nm[1])
    if not am.valid:
        from .core import Skip
        raise Skip()
    if am.odd and not allow_odd:
        from .core import Skip
        raise Skip()
    return am


def orders(am):
    """Orders of definition: topological, reversed, rotated."""
    c = list(am.comps)
    out = [c]
    for o in (c[::-1], c[1:] + c[:1], c[-1:] + c[:-1]):
        if o not in out:
            out.append(o)
    return out


POINTS = [
    ('generic', dict(a=1.3, b=0.7, c=-0.6, d=2.1)),
    ('zero', dict(a=0.0, b=0.0, c=0.0, d=0.0)),
    ('negative', dict(a=-1.1, b=-0.4, c=0.9, d=-0.8)),
    ('mixed', dict(a=0.0, b=1.9, c=0.0, d=-0.3)),
    ('int', dict(a=2, b=1, c=-1, d=3)),
]

XS = [
    ('vector', dict(x=np.array([0.3, 1.1, 2.0]), w=np.array([-0.5, 0.4, 1.7]))),
    ('scalar', dict(x=1.4, w=-0.7)),
    ('one', dict(x=np.array([1.4]), w=np.array([0.6]))),
    ('matrix', dict(x=np.array([[0.3, 1.1], [2.0, -0.6]]),
                    w=np.array([[1.0, 0.5], [0.2, -1.5]]))),
    ('outer', dict(x=np.array([[0.3], [1.1], [2.0]]), w=np.array([-0.5, 0.4]))),
    ('ints', dict(x=np.array([1, 2, 3]), w=np.array([0, 1, 0]))),
    ('cube', dict(x=np.arange(1., 13.).reshape(2, 3, 2) / 5,
                  w=np.arange(2., 14.).reshape(2, 3, 2) / 7)),
]


def at(am, table):
    return {am.nm(k): v for k, v in table.items()
            if k in am.abs_params or k in am.abs_indep}
