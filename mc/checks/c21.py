"""C21: Expressions can be called like functions."""
import itertools

import numpy as np
import sympy
from symfit import Parameter, Variable
from symfit.distributions import Gaussian, BivariateGaussian, Exp

from .. import gen
from ..core import Skip


class E(object):
    """An expression of variables and parameters, and the same with numpy."""

    def __init__(self, name, syms, f, g=None):
        self.mc_name = name
        self.syms = syms.split()
        self.f = f
        self.g = g or f


def _pw(x, a):
    return sympy.Piecewise((a*x, x < 1), (x**2, True))


EXPRS = [
    E('a*x+b', 'a x b', lambda m, a, x, b: a*x + b),
    E('a*b', 'a b', lambda m, a, b: a*b),
    E('x', 'x', lambda m, x: x),
    E('a', 'a', lambda m, a: a),
    E('x**2', 'x', lambda m, x: x**2),
    E('x-w', 'x w', lambda m, x, w: x - w),
    E('w/x**a', 'x w a', lambda m, x, w, a: w/x**a, lambda m, x, w, a: w/np.asarray(x, float)**a),
    E('sin(a*x)*exp(-b*w)+c', 'a x b w c', lambda m, a, x, b, w, c: m.sin(a*x)*m.exp(-b*w) + c),
    E('log(x)+sqrt(a)*cos(w)', 'x a w', lambda m, x, a, w: m.log(x) + m.sqrt(a)*m.cos(w)),
    E('Abs(w)*tan(b)', 'w b', lambda m, w, b: abs(w)*m.tan(b)),
    E('Piecewise', 'x a', lambda m, x, a: _pw(x, a),
      lambda m, x, a: np.where(np.asarray(x) < 1, a*x, np.asarray(x)**2)),
    E('atan2(w, x)', 'w x', lambda m, w, x: sympy.atan2(w, x),
      lambda m, w, x: np.arctan2(w, x)),
    E('pi*a+E*x', 'a x', lambda m, a, x: sympy.pi*a + sympy.E*x, lambda m, a, x: np.pi*a + np.e*x),
    E('3*a/7', 'a', lambda m, a: a*3/7),
    E('a*d-b*c', 'a b c d', lambda m, a, b, c, d: a*d - b*c),
    E('diff', 'a x b', lambda m, a, x, b: sympy.diff(sympy.exp(a*x**2*b), x),
      lambda m, a, x, b: 2*a*x*b*np.exp(a*x**2*b)),
    E('integral', 'a x', lambda m, a, x: sympy.integrate(a*x**2, x), lambda m, a, x: a*x**3/3),
    E('floor', 'x a', lambda m, x, a: sympy.floor(x)*a, lambda m, x, a: np.floor(x)*a),
    E('sinh*sign', 'x w', lambda m, x, w: sympy.sinh(x)*sympy.sign(w),
      lambda m, x, w: np.sinh(x)*np.sign(w)),
    E('erf', 'x a', lambda m, x, a: sympy.erf(a*x),
      lambda m, x, a: np.vectorize(__import__('math').erf)(a*x)),
]
XS_ = gen.XS
PS = [('floats', dict(a=1.3, b=0.7, c=-0.6, d=2.1)), ('ints', dict(a=2, b=1, c=-1, d=3)),
      ('numpy', dict(a=np.float64(0.4), b=np.float64(-1.5), c=np.int64(2), d=np.float64(0.0))),
      ('zerodim', dict(a=np.array(1.2), b=np.array(0.5), c=np.array(-2.0), d=np.array(1.0))),
      ('column', dict(a=np.array([[1.0], [2.0]]), b=0.5, c=1.5, d=-1.0)),
      ('zero', dict(a=0.0, b=0.0, c=0.0, d=0.0))]


def symbols(e, nm):
    out = {}
    for s in e.syms:
        out[s] = Variable(nm(s)) if s in gen.INDEP else gen.param(nm(s))
    return out


def ordered(e, nm):
    v = sorted((s for s in e.syms if s in gen.INDEP), key=nm)
    p = sorted((s for s in e.syms if s not in gen.INDEP), key=nm)
    return v + p


def calling(ch):
    e = ch.pick('expression', EXPRS, dev=False)
    names = ch.pick('names', gen.NAMES, dev=False)[1]
    nm = lambda s: names.get(s, s)
    syms = symbols(e, nm)
    xs = ch.pick('data', XS_)[1]
    ps = ch.pick('parameters', PS)[1]
    expr = sympy.sympify(e.f(sympy, *[syms[s] for s in e.syms]))
    vals = {s: (xs[s] if s in gen.INDEP else ps[s]) for s in e.syms}
    order = ordered(e, nm)
    k = ch.pick('positional', list(range(len(order), -1, -1)), dev=False)
    args = [vals[s] for s in order[:k]]
    rest = order[k:]
    if ch.flag('reversed names'):
        rest = rest[::-1]
    named = {nm(s): vals[s] for s in rest}
    surplus = ch.pick('surplus names', ['none', 'one', 'many', 'array'])
    if surplus != 'none':
        named['surplus'] = 5.0
    if surplus == 'many':
        named.update(sigma=1, other=None, y_1='text')
    if surplus == 'array':
        named['q'] = np.ones(17)
    ch.op()
    got = expr(*args, **named)
    exp = e.g(np, *[vals[s] for s in e.syms])
    ch.close(got, exp, 'value', 'value of a called expression', shape=False, expr=str(expr),
             rtol=1e-10, atol=1e-12)
    ch.expect(np.shape(got) == np.shape(exp), 'shape', 'shape of a called expression',
              got=np.shape(got), expected=np.shape(exp))
    if ch.flag('again', dev=True):
        ch.close(expr(*args, **named), exp, 'again', 'calling again', rtol=1e-10, atol=1e-12)
        ch.close(expr(**{nm(s): np.asarray(vals[s]) * 0 + 0.5 for s in e.syms}),
                 e.g(np, *[np.asarray(vals[s]) * 0 + 0.5 for s in e.syms]), 'other values',
                 'calling with other values', rtol=1e-10, atol=1e-12)
    for s in e.syms:
        ch.expect(vals[s] is (xs[s] if s in gen.INDEP else ps[s]), 'input', 'input kept')
    ch.obs(e.mc_name, np.round(np.asarray(exp, float), 6))


def refused(ch):
    e = ch.pick('expression', EXPRS, dev=False)
    names = ch.pick('names', gen.NAMES[:3], dev=False)[1]
    nm = lambda s: names.get(s, s)
    syms = symbols(e, nm)
    expr = sympy.sympify(e.f(sympy, *[syms[s] for s in e.syms]))
    order = ordered(e, nm)
    vals = [1.5 + i for i in range(len(order))]
    what = ch.pick('what', ['none', 'surplus', 'two surplus', 'missing last', 'missing name', 'twice',
                            'missing first'],
                   dev=False)
    ch.op()
    named = {nm(s): v for s, v in zip(order, vals)}
    if what == 'none':
        f = lambda: expr()
    elif what == 'surplus':
        f = lambda: expr(*(vals + [1.0]))
    elif what == 'two surplus':
        f = lambda: expr(*(vals + [1.0, 2.0]), other=5)
    elif what == 'missing last':
        f = lambda: expr(*vals[:-1], surplus=4.0)
    elif what == 'missing name':
        named.pop(nm(order[-1]))
        f = lambda: expr(**named)
    elif what == 'missing first':
        named.pop(nm(order[0]))
        f = lambda: expr(**named, surplus=1)
    else:
        f = lambda: expr(*vals[:1], **named)
    ch.raises(TypeError, f, what, 'wrong number of values: ' + what)
    ch.obs(e.mc_name, what)


def _gauss(x, mu, sig):
    return np.exp(-0.5*((x - mu)/sig)**2)/(abs(sig)*np.sqrt(2*np.pi))


def _bivariate(x, y, mx, my, sx, sy, r):
    cov = np.array([[sx**2, r*sx*sy], [r*sx*sy, sy**2]])
    inv = np.linalg.inv(cov)
    dx, dy = np.asarray(x - mx, float), np.asarray(y - my, float)
    q = inv[0, 0]*dx*dx + 2*inv[0, 1]*dx*dy + inv[1, 1]*dy*dy
    return np.exp(-q/2)/(2*np.pi*np.sqrt(np.linalg.det(cov)))


def _exp(x, l):
    return l*np.exp(-l*x)


DIST = {
    'Gaussian': (Gaussian, _gauss, ['x', 'mu', 'sig'],
                 dict(x=[0.3, -2.0, np.array([-1.0, 0.0, 2.5]), np.array([[0.1, 2], [3, 4]])],
                      mu=[0.0, 1.5, -1, 3], sig=[1.0, 0.4, 3, -2.0])),
    'BivariateGaussian': (BivariateGaussian, _bivariate,
                          ['x', 'y', 'mu_x', 'mu_y', 'sig_x', 'sig_y', 'rho'],
                          dict(x=[0.3, np.array([-1.0, 0.0, 2.5]), np.array([[1.0], [2.0]])],
                               y=[1.1, np.array([0.5, 0.25, -1.0])], mu_x=[0.0, 0.7], mu_y=[0.0, -1.2],
                               sig_x=[1.0, 0.5], sig_y=[1.0, 2], rho=[0.0, 0.6, -0.3])),
    'Exp': (Exp, _exp, ['x', 'l'],
            dict(x=[0.3, 0.0, np.array([0.0, 0.5, 2.5]), np.array([[0.1, 2], [3, 4]])],
                 l=[1.0, 0.4, 3])),
}
ARGNAMES = {
    'plain': {}, 'shuffled': dict(x='v', y='q', mu='s', sig='m', mu_x='z1', mu_y='a1', sig_x='k',
                                  sig_y='b1', rho='c1', l='e1'),
}


def distributions(ch):
    name = ch.pick('distribution', list(DIST), dev=False)
    make, ref, args, values = DIST[name]
    names = ch.pick('names', list(ARGNAMES), dev=False)
    nm = lambda s: ARGNAMES[names].get(s, s)
    vals = {a: ch.pick(a, values[a], dev=name == 'BivariateGaussian') for a in args}
    kinds = ch.pick('arguments', ['symbols', 'numbers', 'expressions', 'all variables'])
    given, named = [], {}
    for i, a in enumerate(args):
        var = a in ('x', 'y') or kinds == 'all variables'
        s = Variable(nm(a)) if var else gen.param(nm(a))
        if kinds == 'numbers' and i >= len(args) - 1:
            given.append(vals[a])
        elif kinds == 'expressions' and a in ('x', 'mu', 'rho', 'mu_y', 'l'):
            given.append(2*s)
            named[nm(a)] = vals[a] / 2
        else:
            given.append(s)
            named[nm(a)] = vals[a]
    ch.op()
    expr = make(*given)
    got = expr(**named)
    exp = ref(*[vals[a] for a in args])
    ch.close(got, exp, 'density', 'density of ' + name, rtol=1e-9, atol=1e-12, values=str(vals))
    # positionally
    syms = sorted(expr.free_symbols, key=lambda s: (isinstance(s, Parameter), s.name))
    ch.close(expr(*[named[s.name] for s in syms]), exp, 'positional', 'density, positional call',
             rtol=1e-9, atol=1e-12)
    if ch.flag('integral') and kinds != 'numbers':
        n = {k: v for k, v in named.items()}
        scale = 2 if kinds == 'expressions' else 1
        t = np.linspace(-40, 40, 4001)
        if name == 'Gaussian':
            n[nm('x')] = t / scale
            ch.close(np.trapezoid(expr(**n), t) if hasattr(np, 'trapezoid') else
                     np.trapz(expr(**n), t), 1.0, 'normalised', 'integral of the density',
                     rtol=1e-6)
        elif name == 'Exp':
            t = np.linspace(0, 80, 80001)
            n[nm('x')] = t / scale
            ch.close(np.trapz(expr(**n), t), 1.0, 'normalised', 'integral of the density', rtol=1e-5)
    ch.obs(name, np.round(exp, 6))


def spec(tier):
    t = tier == 'thorough'
    return {
        'bodies': {
            'calling': {'body': calling, 'bound': 4 if t else 1},
            'refused': {'body': refused, 'bound': 0},
            'distributions': {'body': distributions, 'bound': 5 if t else 2},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'every expression of the grammar, renaming and number of positional arguments; '
                'within the bound shapes of the data, kinds of parameter values, surplus names and '
                'order of the names; an outcome is (expression, value)',
        'assumptions': [],
    }
