"""C06: numerical models behave like the symbolic models they mirror."""
import inspect
import itertools

import numpy as np
import sympy

from ..env import symfit
from .. import gen
from symfit import Model, CallableNumericalModel, Variable
from symfit.core.models import BaseGradientModel, GradientModel


class NumericalGradientModel(CallableNumericalModel, BaseGradientModel):
    """What users write to get a numerical model with a Jacobian."""


def subsets(am, all_of_them):
    """Which components are callables (at least one)."""
    c = am.comps
    out = [list(c)]
    for k in range(len(c) - 1, 0, -1):
        out.extend(list(s) for s in itertools.combinations(c, k))
    return out if all_of_them else out[:4]


def compare_roles(ch, num, sym):
    names = lambda vs: [v.name for v in vs]
    for what in ('dependent_vars', 'independent_vars', 'interdependent_vars',
                 'params', 'free_params', 'vars'):
        ch.equal(names(getattr(num, what)), names(getattr(sym, what)), 'role ' + what,
                 what + ' of the numerical model')
    ch.equal(names(num), names(sym), 'components', 'components of the numerical model')
    ch.equal(len(num), len(sym), 'len', 'number of components')
    ch.equal([(p.name, p.kind) for p in inspect.signature(num).parameters.values()],
             [(p.name, p.kind) for p in inspect.signature(sym).parameters.values()],
             'signature', 'call signature')
    ch.equal({v.name: s.name for v, s in num.sigmas.items()},
             {v.name: s.name for v, s in sym.sigmas.items()}, 'sigmas', 'sigmas')
    ch.equal([list(b) for b in num.bounds], [list(b) for b in sym.bounds], 'bounds', 'bounds')


def call(ch, f, names, vals):
    style = ch.pick('call', ['keyword', 'positional', 'mixed'])
    ch.op()
    if style == 'positional':
        return f(*[vals[n] for n in names])
    if style == 'mixed':
        k = (len(names) + 1) // 2
        return f(*[vals[n] for n in names[:k]], **{n: vals[n] for n in names[k:]})
    return f(**vals)


def values(ch):
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS)
    numeric = ch.pick('callables', subsets(am, True))
    if not any(am.forms[c].syms for c in numeric):
        ch.pick('nothing to declare', [])
    order = ch.pick('definition order', gen.orders(am))
    xs = ch.pick('x', gen.XS)
    pt = ch.pick('point', gen.POINTS)
    cls = ch.pick('class', [CallableNumericalModel, NumericalGradientModel])
    declare = ch.pick('declared', ['only the callables', 'everything'])
    syms = am.symbols()
    d, con = am.callables(syms, numeric, order)
    if declare == 'everything':
        con = {syms[c]: {syms[s] for s in deps} for c, deps in am.deps.items()}
    given = {k: set(v) for k, v in con.items()}
    num = cls(d, connectivity_mapping=con)
    sym = Model(am.model_dict(syms))
    ch.equal(con, given, 'mapping changed', 'the connectivity mapping of the user')
    compare_roles(ch, num, sym)
    data, point = gen.at(am, xs[1]), gen.at(am, pt[1])
    vals = dict(data, **point)
    out = call(ch, num, am.indep + am.params, vals)
    ref = am.ref1(data, point)
    for i, n in enumerate(am.components):
        ch.close(out[i], ref[n].v, 'value', 'component of a numerical model', atol=1e-12)
        ch.close(getattr(out, n), ref[n].v, 'attribute', 'component by attribute', atol=1e-12)
    ch.obs(am.components, {k: np.round(r.v, 9) for k, r in ref.items()}, str(numeric))
    names = am.indep + am.params
    ch.raises(TypeError, lambda: num(**{n: vals[n] for n in names[1:]}),
              'missing argument', 'a missing argument')
    ch.raises(TypeError, lambda: num(*([1.0] * (len(names) + 1))),
              'surplus argument', 'a surplus argument')


# relative step, tolerance relative to the size of the function
STEPS = [(None, 2e-5), (1e-3, 1e-7), (1e-5, 1e-8 * 5)]


def jacobian(ch):
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS)
    if not am.params:
        ch.pick('no parameters', [])
    kind = ch.pick('kind', ['callables', 'mixed', 'symbolic', 'gradient'])
    xs = ch.pick('x', gen.XS)
    pt = ch.pick('point', gen.POINTS)
    dx, tol = ch.pick('step', STEPS)
    order = ch.pick('definition order', gen.orders(am))
    syms = am.symbols()
    if kind in ('callables', 'mixed'):
        numeric = am.comps if kind == 'callables' else am.comps[-1:]
        d, con = am.callables(syms, numeric, order)
        model = NumericalGradientModel(d, connectivity_mapping=con)
    elif kind == 'symbolic':
        model = Model(am.model_dict(syms, order))
    else:
        model = GradientModel(am.model_dict(syms, order))
    data, point = gen.at(am, xs[1]), gen.at(am, pt[1])
    vals = dict(data, **point)
    names = am.indep + am.params
    ref = am.ref1(data, point)
    kw = {} if dx is None else {'dx': dx}
    style = ch.pick('call', ['keyword', 'positional', 'mixed'])
    ch.op()
    if style == 'positional':
        fd = model.finite_difference(*[vals[n] for n in names], **kw)
    elif style == 'mixed':
        k = (len(names) + 1) // 2
        fd = model.finite_difference(*[vals[n] for n in names[:k]],
                                     **dict(kw, **{n: vals[n] for n in names[k:]}))
    else:
        fd = model.finite_difference(**dict(vals, **kw))
    ch.expect(len(fd) == len(am.components), 'number of components', 'one block per component')
    for n, block in zip(am.components, fd):
        size = 1 + max(float(np.max(np.abs(r.v))) for r in ref.values())
        # near zero parameters the absolute step is dx, otherwise dx*|p|
        steps = [abs(point[p]) for p in am.params if point[p]]
        ch.close(block, ref[n].g, 'finite difference', 'finite difference of a component',
                 rtol=tol, atol=tol * size / min([1.0] + steps), component=n)
    if kind in ('callables', 'mixed'):
        out = model.eval_jacobian(**vals)
        ch.equal([v.name for v in out.variables], am.components, 'variables', 'variables')
        for n in am.components:
            ch.close(getattr(out, n), ref[n].g, 'eval_jacobian', 'Jacobian by name',
                     rtol=2e-5, atol=2e-5 * size / min([1.0] + steps))
    ch.obs(am.components, {k: np.round(r.g, 7) for k, r in ref.items()}, kind)


MAGNITUDES = [1.0, -1.0, 1e5, -1e5, 1e-3, -1e-3, -2.5e8, 2.5e8, 0.0, -1e-5, 1e-12, -1e-9]


def magnitudes(ch):
    """Parameters of every sign and order of magnitude, together."""
    formula = ch.pick('formula', ['a**2*x', 'a*x+b', 'a*b*x', 'a*x;a+b**2'], dev=False)
    vals = {'a': ch.pick('a', MAGNITUDES, dev=False)}
    if 'b' in formula:
        vals['b'] = ch.pick('b', MAGNITUDES, dev=False)
    kind = ch.pick('kind', ['callables', 'symbolic'], dev=False)
    x = np.array([1.0, -2.0, 0.5])
    sx, sy, sz = Variable('x'), Variable('y'), Variable('z')
    a, b = gen.param('a'), gen.param('b')
    d = {'a**2*x': {sy: a**2*sx}, 'a*x+b': {sy: a*sx + b}, 'a*b*x': {sy: a*b*sx},
         'a*x;a+b**2': {sy: a*sx, sz: a + b**2}}[formula]
    fs = {'a**2*x': [lambda x, a: a**2*x], 'a*x+b': [lambda x, a, b: a*x + b],
          'a*b*x': [lambda x, a, b: a*b*x],
          'a*x;a+b**2': [lambda x, a: a*x, lambda a, b: a + b**2]}[formula]
    if kind == 'callables':
        model = NumericalGradientModel(dict(zip(d, fs)), connectivity_mapping={
            v: set(e.free_symbols) for v, e in d.items()})
    else:
        model = Model(d)
    A, B = vals['a'], vals.get('b', 0.0)
    one = np.ones_like(x)
    exact = {'a**2*x': [[2*A*x]], 'a*x+b': [[x, one]], 'a*b*x': [[B*x, A*x]],
             'a*x;a+b**2': [[x, 0*one], [np.ones(1), 2*B*np.ones(1)]]}[formula]
    value = {'a**2*x': [A**2*x], 'a*x+b': [A*x + B], 'a*b*x': [A*B*x],
             'a*x;a+b**2': [A*x, np.array([A + B**2])]}[formula]
    ch.op()
    got = model.finite_difference(x=x, **vals)
    for i, (g, e, f) in enumerate(zip(got, exact, value)):
        if not ch.expect(np.shape(g) == np.shape(e), 'magnitude shape', 'shape of the block',
                         got=np.shape(g), expected=np.shape(e)):
            continue
        for j, n in enumerate(sorted(vals)):
            # the step is relative, unless the parameter is (almost) zero
            h = 1e-8 * (abs(vals[n]) if abs(vals[n]) >= 1e-7 else 1)
            rounding = 20 * np.finfo(float).eps * (np.max(np.abs(f)) + abs(vals[n])
                                                   * np.max(np.abs(e[j]))) / h
            ch.expect(np.all(np.abs(g[j] - e[j]) <= rounding + 1e-7 * np.abs(e[j]) + 1e-12
                             + 3 * h * (n == 'b' and 'b**2' in formula)),
                      'magnitude', 'finite difference at parameters of any magnitude',
                      component=i, parameter=n, at=vals, got=g[j], expected=e[j])
    ch.obs(formula, vals)


def deprecated(ch):
    """The deprecated way: lists of variables and parameters."""
    f = ch.pick('form', [g for g in gen.Y_FORMS if set(g.syms) & set('xw')
                         and set(g.syms) & set('abcd')], dev=False)
    nm = ch.pick('names', gen.NAMES[:4], dev=False)
    xs = ch.pick('x', gen.XS, dev=False)
    pt = ch.pick('point', gen.POINTS[:3], dev=False)
    rev = ch.flag('reversed lists', dev=False)
    given = ch.pick('given as', ['mapping', 'callable', 'list'], dev=False)
    am = gen.AM([f], nm[1])
    syms = am.symbols()
    d, con = am.callables(syms)
    iv = [syms[n] for n in am.indep][::-1 if rev else 1]
    ps = [syms[n] for n in am.params][::-1 if rev else 1]
    func = list(d.values())[0]
    num = CallableNumericalModel(
        {'mapping': d, 'callable': func, 'list': [func]}[given], iv, ps)
    data, point = gen.at(am, xs[1]), gen.at(am, pt[1])
    vals = dict(data, **point)
    names = am.indep + am.params
    ch.op()
    ref = am.ref1(data, point)[am.components[0]].v
    ch.close(num(*[vals[n] for n in names])[0], ref, 'value', 'value', atol=1e-12)
    ch.close(num(**vals)[0], ref, 'value by name', 'value by name', atol=1e-12)
    ch.equal([v.name for v in num.independent_vars], am.indep, 'independent', 'independent variables')
    ch.equal([v.name for v in num.params], am.params, 'params', 'params')
    ch.obs(f.name, nm[0], ref)


def refused(ch):
    """Numerical models without the information they need."""
    am = gen.AM([ch.pick('form', gen.Y_FORMS[:4], dev=False)])
    how = ch.pick('how', ['no mapping', 'no mapping for a list', 'parameter as component'], dev=False)
    syms = am.symbols()
    d, con = am.callables(syms)
    ch.op()
    if how == 'no mapping':
        ch.raises(TypeError, lambda: CallableNumericalModel(d), how, how)
    elif how == 'no mapping for a list':
        ch.raises(TypeError, lambda: CallableNumericalModel(
            list(d.values()), connectivity_mapping=con), how, how)
    else:
        q = gen.param('q')
        ch.raises(symfit.core.models.ModelError, lambda: CallableNumericalModel(
            {q: list(d.values())[0]}, connectivity_mapping={q: list(con.values())[0]}), how, how)


def spec(tier):
    t = tier == 'thorough'
    return {
        'bodies': {
            'values': {'body': values, 'bound': 4 if t else 2},
            'jacobian': {'body': jacobian, 'bound': 4 if t else 2},
            'magnitudes': {'body': magnitudes},
            'deprecated': {'body': deprecated},
            'refused': {'body': refused},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'all models of at most four components from the grammar, times '
                'every subset of components given as callables, orders, names, '
                'argument shapes, points (zero, negative, integer), step sizes; '
                'an outcome is the set of reference values',
        'assumptions': ['finite differences are compared within the rounding '
                        'error of the step size: 2e-5 for the default step, '
                        '1e-7 for a step of 1e-3'],
    }
