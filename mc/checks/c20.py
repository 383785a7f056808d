"""C20: an ODE model evaluates to the solution of its initial value problem."""
from collections import OrderedDict, namedtuple

import numpy as np
import sympy
from symfit import ODEModel, D, Variable, Fit, Ge

from ..core import Skip
from .. import gen, jets, handed
from ..env import scripted

THOROUGH = False
# right hand sides by component: f(m, t, state, params); solution: g(m, tau, t, t0, init, params)
System = namedtuple('System', 'name comps params rhs sol')


def S(name, comps, params, rhs, sol):
    return System(name, comps.split(), params.split(), rhs, sol)


SYSTEMS = [
    S("y'=-a*y", 'y', 'a',
      lambda m, t, s, p: dict(y=-p['a']*s['y']),
      lambda m, t, t0, i, p: dict(y=i['y']*m.exp(-p['a']*(t - t0)))),
    S("y'=-a*y, z'=a*y-b*z", 'y z', 'a b',
      lambda m, t, s, p: dict(y=-p['a']*s['y'], z=p['a']*s['y'] - p['b']*s['z']),
      lambda m, t, t0, i, p: dict(
          y=i['y']*m.exp(-p['a']*(t - t0)),
          z=i['z']*m.exp(-p['b']*(t - t0)) + i['y']*p['a']/(p['b'] - p['a'])*(
              m.exp(-p['a']*(t - t0)) - m.exp(-p['b']*(t - t0))))),
    S("y'=z, z'=-a**2*y", 'y z', 'a',
      lambda m, t, s, p: dict(y=s['z'], z=-p['a']**2*s['y']),
      lambda m, t, t0, i, p: dict(
          y=i['y']*m.cos(p['a']*(t - t0)) + i['z']/p['a']*m.sin(p['a']*(t - t0)),
          z=i['z']*m.cos(p['a']*(t - t0)) - p['a']*i['y']*m.sin(p['a']*(t - t0)))),
    S("y'=a*t+b", 'y', 'a b',
      lambda m, t, s, p: dict(y=p['a']*t + p['b']),
      lambda m, t, t0, i, p: dict(y=i['y'] + p['a']*(t**2 - t0**2)/2 + p['b']*(t - t0))),
    S("y'=-a*y**2/4", 'y', 'a',
      lambda m, t, s, p: dict(y=-p['a']*s['y']**2/4),
      lambda m, t, t0, i, p: dict(y=i['y']/(1 + p['a']*i['y']*(t - t0)/4))),
    S("y'=a, z'=y*b, u'=c-z", 'y z u', 'a b c',
      lambda m, t, s, p: dict(y=p['a'] + 0*t, z=s['y']*p['b'], u=p['c'] - s['z']),
      lambda m, t, t0, i, p: dict(
          y=i['y'] + p['a']*(t - t0),
          z=i['z'] + p['b']*(i['y']*(t - t0) + p['a']*(t - t0)**2/2),
          u=i['u'] + p['c']*(t - t0) - i['z']*(t - t0)
          - p['b']*(i['y']*(t - t0)**2/2 + p['a']*(t - t0)**3/6))),
    S("y'=-y", 'y', '', lambda m, t, s, p: dict(y=-s['y']),
      lambda m, t, t0, i, p: dict(y=i['y']*m.exp(-(t - t0)))),
    S("y'=a*sin(t), z'=a*b", 'y z', 'a b',
      lambda m, t, s, p: dict(y=p['a']*m.sin(t), z=p['a']*p['b']),
      lambda m, t, t0, i, p: dict(y=i['y'] + p['a']*(-m.cos(t) + np.cos(t0)),
                                  z=i['z'] + p['a']*p['b']*(t - t0))),
]
NAMES = [dict(), dict(y='z', z='y', u='a_u'), dict(t='a_t', y='t', z='S', u='E'),
         dict(a='z1', b='b', c='A', y='y1', z='y0')]
POINTS = [dict(a=0.8, b=0.3, c=-0.5), dict(a=-0.6, b=1.1, c=2), dict(a=1, b=0, c=1)]
INIT = dict(y=2.0, z=-0.75, u=0.5)


def times(t0):
    """Increasing sets of points around the initial point."""
    off = OrderedDict([
        ('after, with', [0.0, 0.5, 1.25, 2.0]), ('after, without', [0.5, 1.25, 2.0]),
        ('before, with', [-2.0, -1.0, -0.25, 0.0]), ('before, without', [-2.0, -1.0, -0.25]),
        ('around, with', [-1.5, -0.5, 0.0, 0.75, 1.0]), ('around, without', [-1.5, -0.5, 0.75, 1.0]),
        ('one before', [-0.5, 0.75]), ('only', [0.0]), ('one', [1.5]), ('one earlier', [-1.5]),
        ('two before', [-1.0, -0.5]), ('close', [-1e-3, 1e-3, 1.0]), ('with and one', [0.0, 1.5]),
        ('one and with', [-1.5, 0.0]),
    ])
    out = [(k, np.array(v) + t0) for k, v in off.items()]
    out += [('scalar', t0 + 1.5), ('scalar earlier', t0 - 0.5), ('scalar at', t0 + 0.0),
            ('numpy scalar', np.float64(t0 + 0.5)), ('zero-dimensional', np.array(t0 - 1.0)),
            ('zero-dimensional at', np.array(t0 + 0.0)),
            ('integers', np.arange(-2, 4)), ('an integer', 1),
            ('many', np.linspace(t0 - 1, t0 + 2, 31))]
    return out


class IVP(object):
    def __init__(self, system, names, t0, initial, values, order, **kw):
        """``initial``: for every component 'number', 'parameter' or the name of a parameter."""
        self.system = system
        nm = self.nm = lambda s: names.get(s, s)
        self.t0 = t0
        self.values = {nm(p): values[p] for p in system.params}
        s = {p: gen.param(nm(p)) for p in system.params}
        s.update((c, Variable(nm(c))) for c in system.comps)
        t = self.t = Variable(nm('t'))
        init = {t: t0}
        self.init = {}
        for c, how in zip(system.comps, initial):
            if how == 'number':
                init[s[c]] = INIT[c]
                self.init[c] = ('const', INIT[c])
            elif how == 'integer':
                init[s[c]] = int(np.ceil(INIT[c]))
                self.init[c] = ('const', int(np.ceil(INIT[c])))
            elif how == 'parameter':
                p = gen.param(nm(c) + '0')
                init[s[c]] = p
                self.values[p.name] = INIT[c]
                self.init[c] = ('param', p.name)
            else:
                if how not in system.params:
                    raise Skip()
                init[s[c]] = s[how]
                self.init[c] = ('param', nm(how))
        rhs = system.rhs(sympy, t, {c: s[c] for c in system.comps}, {p: s[p] for p in system.params})
        comps = list(system.comps)
        comps = comps[::-1] if order == 'reversed' else comps
        if order == 'initial first':
            init = OrderedDict(list(init.items())[::-1])
        self.syms = s
        self.initial = init
        self.dict = OrderedDict((D(s[c], t), sympy.sympify(rhs[c])) for c in comps)
        used = set().union(*(e.free_symbols for e in self.dict.values()))
        self.params = sorted(set(nm(p) for p in system.params if s[p] in used)
                             | set(v[1] for v in self.init.values() if v[0] == 'param'))
        self.values = {k: v for k, v in self.values.items() if k in self.params}
        self.deps = sorted(nm(c) for c in system.comps)
        self.build = lambda: ODEModel(self.dict, self.initial, **kw)

    def reference(self, t, values, sign=1):
        """Jets of the components, by name."""
        n = len(self.params)
        v = {k: jets.Jet.param(values[k], self.params.index(k), n) for k in self.params}
        p = {a: v[self.nm(a)] for a in self.system.params if self.nm(a) in v}
        for a in self.system.params:
            p.setdefault(a, jets.Jet.const(0.0, n))
        i = {c: v[x] if how == 'param' else jets.Jet.const(x, n) for c, (how, x) in self.init.items()}
        tj = jets.Jet.const(np.atleast_1d(np.asarray(t, float)), n)
        sol = self.system.sol(jets.space, tj, self.t0, i, p)
        return {self.nm(c): jets.reshape(j, np.atleast_1d(np.asarray(t)).shape) for c, j in sol.items()}


def compare(ch, ivp, model, t, values, jac=True):
    ref = ivp.reference(t, values)
    kw = dict(values)
    kw[ivp.t.name] = t
    ch.op()
    out = model(**kw)
    ch.equal([v.name for v in out.variables], ivp.deps, 'components', 'components in alphabetical order')
    for n, got in zip(ivp.deps, out):
        ch.close(got, ref[n].v, 'value', 'solution of the initial value problem', rtol=2e-5, atol=2e-5,
                 component=n, t=t, parameters=values)
        ch.close(getattr(out, n), ref[n].v, 'by name', 'component by name', rtol=2e-5, atol=2e-5)
    if jac and ivp.params:
        ch.op()
        out = model.eval_jacobian(**kw)
        for n, got in zip(ivp.deps, out):
            ch.close(got, ref[n].g, 'jacobian', 'Jacobian of the solution', rtol=5e-3, atol=5e-3,
                     component=n, t=t, parameters=values)
    ch.obs(ivp.deps, ivp.params, {n: np.round(r.v, 4) for n, r in ref.items()})


def value(ch):
    system = ch.pick('system', SYSTEMS, dev=False)
    t0 = ch.pick('t0', [0.0, 1.0, -0.5, 1, 2.5])
    label, t = ch.pick('t', times(t0), dev=False)
    if label in ('integers', 'an integer') and system.name == "y'=-a*y**2/4" and t0 > 1.5:
        raise Skip()  # the solution may have a pole
    how = ['number', 'parameter', 'a', 'integer']
    initial = [ch.pick('initial ' + c, how) for c in system.comps]
    names = ch.pick('names', NAMES)
    values = ch.pick('parameters', POINTS)
    order = ch.pick('order', ['given', 'reversed', 'initial first'])
    kw = ch.pick('integrator', [{}, dict(method='RK45', rtol=1e-8, atol=1e-9),
                                dict(method='BDF', rtol=1e-8, atol=1e-9), dict(rtol=1e-9, atol=1e-10),
                                dict(atol=1e-10), dict(rtol=1e-9), dict(first_step=1e-3),
                                dict(method='LSODA'), dict(method='Radau', rtol=1e-8, atol=1e-9),
                                dict(method='DOP853', rtol=1e-9, atol=1e-9)])
    ivp = IVP(system, names, t0, initial, values, order, **kw)
    if safe(ivp, t) is False:
        raise Skip()
    m = ivp.build()
    ch.equal([p.name for p in m.params], ivp.params, 'params', 'parameters, initial values included')
    ch.equal([v.name for v in m.dependent_vars], ivp.deps, 'dependent', 'dependent variables')
    ch.equal([v.name for v in m.independent_vars], [ivp.t.name], 'independent', 'independent variable')
    compare(ch, ivp, m, t, ivp.values)


def safe(ivp, t):
    """The solution exists between the initial and the requested points."""
    span = np.linspace(min(np.min(t), ivp.t0), max(np.max(t), ivp.t0), 200)
    ref = ivp.reference(span, ivp.values)
    vals = np.concatenate([r.v for r in ref.values()])
    if not np.all(np.isfinite(vals)) or np.max(np.abs(vals)) > 60:
        return False
    if ivp.system.name == "y'=-a*y**2/4":
        i = ivp.init['y']
        y0 = i[1] if i[0] == 'const' else ivp.values[i[1]]
        a = ivp.values[ivp.nm('a')]
        if np.any(1 + a * y0 * (span - ivp.t0) / 4 < 0.2):
            return False
    if ivp.system.name.startswith("y'=-a*y, z'"):
        if abs(ivp.values[ivp.nm('a')] - ivp.values[ivp.nm('b')]) < 0.1:
            return False
    return True


def positional(ch):
    """Positional arguments: the independent variable, then the parameters."""
    system = ch.pick('system', SYSTEMS, dev=False)
    names = ch.pick('names', NAMES, dev=False)
    initial = [ch.pick('initial ' + c, ['number', 'parameter'], dev=False) for c in system.comps]
    ivp = IVP(system, names, 0.0, initial, POINTS[0], 'given')
    m = ivp.build()
    t = np.array([-0.5, 0.75])
    ref = ivp.reference(t, ivp.values)
    out = m(t, *[ivp.values[k] for k in ivp.params])
    for n, got in zip(ivp.deps, out):
        ch.close(got, ref[n].v, 'positional', 'solution', rtol=2e-5, atol=2e-5, component=n)
    ch.obs(ivp.params, ivp.deps)


CALLS = [
    ('after', np.array([0.0, 0.5, 1.25])), ('before', np.array([-2.0, -1.0])),
    ('around', np.array([-1.5, 0.75, 1.0])), ('longer', np.linspace(0.25, 3, 7)), ('scalar', 0.5),
    ('at', 0.0)]


def histories(ch):
    """The same model evaluated repeatedly, at other points and parameters."""
    system = ch.pick('system', SYSTEMS[:3] if not THOROUGH else SYSTEMS, dev=False)
    ivp = IVP(system, {}, 0.0, ['parameter'] * len(system.comps), POINTS[0], 'given')
    m = ivp.build()
    for k in range(3 if THOROUGH else 2):
        what = ch.pick('t {}'.format(k), CALLS, dev=False)[1]
        scale = ch.pick('parameters {}'.format(k), [1.0, 1.25, -0.5], dev=False)
        vals = {n: v * scale for n, v in ivp.values.items()}
        jac = ch.pick('jacobian {}'.format(k), [False, True], dev=False) if THOROUGH or k == 0 else False
        compare(ch, ivp, m, what, vals, jac)


def fits(ch):
    """What a fit of an ODE model hands to the back end."""
    from symfit.core.minimizers import BFGS, NelderMead, SLSQP
    system = ch.pick('system', SYSTEMS[:6], dev=False)
    t0 = ch.pick('t0', [0.0, -0.5], dev=False)
    label, t = ch.pick('t', times(t0)[:7], dev=False)
    initial = [ch.pick('initial ' + c, ['number', 'parameter']) for c in system.comps]
    names = ch.pick('names', NAMES)
    missing = ch.pick('without data', [None] + system.comps)
    if missing and len(system.comps) == 1:
        raise Skip()
    fixed = ch.pick('fixed', [None, 'first', 'last'])
    sigma = ch.pick('sigma', [None, 0.5, 'array'])
    minimizer = ch.pick('minimizer', [BFGS, NelderMead, SLSQP])
    ivp = IVP(system, names, t0, initial, POINTS[0], 'given')
    if not safe(ivp, t):
        raise Skip()
    m = ivp.build()
    by_name = {p.name: p for p in m.params}
    for n, p in by_name.items():
        p.value, p.min, p.max, p.fixed = ivp.values[n], None, None, False
    fx = None
    if fixed:
        fx = ivp.params[0 if fixed == 'first' else -1]
        by_name[fx].fixed = True
        if len(ivp.params) == 1:
            raise Skip()
    ref = ivp.reference(t, ivp.values)
    data, kw = {}, {ivp.t.name: t}
    for k, c in enumerate(system.comps):
        n = ivp.nm(c)
        data[n] = None if c == missing else ref[n].v + 0.1 * np.cos(np.arange(t.size) + k)
        kw[n] = data[n]
        if sigma is not None and data[n] is not None:
            kw['sigma_' + n] = 0.5 if sigma == 0.5 else 0.25 + np.arange(t.size)
    fit = Fit(m, minimizer=minimizer, **kw)
    free = [n for n in ivp.params if n != fx]
    seen = []

    class Done(Exception):
        pass

    def back_end(name, args):
        h = handed.Handed(name, args)
        for shift in (0.0, 0.05):
            x = [ivp.values[n] + shift for n in free]
            vals = dict(ivp.values)
            vals.update(zip(free, x))
            r = ivp.reference(t, vals)
            tot, grad = 0.0, np.zeros(len(ivp.params))
            for n, y in data.items():
                if y is None:
                    continue
                s = 1.0 if sigma is None else kw['sigma_' + n]
                tot += 0.5 * np.sum(((r[n].v - y) / s)**2)
                grad += ((r[n].v - y) / s**2 * r[n].g).sum(1) if np.ndim(s) or True else 0
            ch.close(np.squeeze(h.fun(x)), tot, 'objective', 'sum of squares of an ODE model',
                     rtol=1e-4, atol=1e-5)
            if callable(h.jac):
                g = grad[[ivp.params.index(n) for n in free]]
                ch.close(h.jac(x), g, 'gradient', 'gradient of the sum of squares', rtol=1e-2,
                         atol=1e-2)
        seen.append(1)
        raise Done()
    ch.op()
    try:
        with scripted(back_end):
            fit.execute()
    except Done:
        pass
    ch.expect(seen == [1], 'executed', 'the back end was called once')
    ch.obs(system.name, free, label, sigma)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    for s in SYSTEMS:
        pass
    return {
        'bodies': {
            'value': {'body': value, 'bound': 2 if t else 1},
            'positional': {'body': positional, 'bound': 0},
            'histories': {'body': histories, 'bound': 0},
            'fits': {'body': fits, 'bound': 2 if t else 1},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'systems with a solution in closed form x sets of points relative to the initial '
                'point completely; initial points, initial values (numbers, integers, parameters of their '
                'own, parameters of the system), names, parameter values, orders of definition and '
                'integrators within the bound; histories of calls on one model',
        'assumptions': ['the solution exists between the points', 'agreement up to the accuracy of '
                        'the integrator: 2e-5, its differences 5e-3'],
    }
