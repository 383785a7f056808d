"""C22: models can be negated, compared and composed."""
import itertools
from collections import OrderedDict

import numpy as np
import sympy
from symfit import (Eq, Ge, Le, D, Model, CallableModel, CallableNumericalModel, ODEModel,
                    Variable, Parameter)
from symfit.core.models import GradientModel, BaseGradientModel

from ..env import symfit  # noqa
from .. import gen, jets
from ..core import Skip
from ..fitgen import NumericalGradientModel

SYMBOLIC = [Model, GradientModel, CallableModel]
NUMERIC = [CallableNumericalModel, NumericalGradientModel]
for _c in SYMBOLIC + NUMERIC:
    _c.mc_name = _c.__name__
THOROUGH = False
F = gen.F


def build(ch, am, syms, cls, numeric=None, order=None):
    if cls in SYMBOLIC:
        return cls(am.model_dict(syms, order))
    d, con = am.callables(syms, numeric, order)
    return cls(d, connectivity_mapping=con)


def snapshot(model):
    names = lambda vs: [v.name for v in vs]
    return (names(model), [id(e) if callable(e) and not isinstance(e, sympy.Basic) else e
                           for e in model.values()],
            names(model.params), names(model.independent_vars), names(model.dependent_vars),
            names(model.interdependent_vars),
            {k: frozenset(v) for k, v in model.connectivity_mapping.items()},
            {k: v for k, v in model.sigmas.items()})


def same_values(ch, model, am, vals, ref, sign, key, msg, derivs=True):
    out = model(**vals)
    for n in am.components:
        s = sign if n in am.dep else 1
        ch.close(getattr(out, n), s * ref[n].v, key + ' value', msg, component=n, atol=1e-11)
    if not derivs or not am.params:
        return
    if isinstance(model, BaseGradientModel):
        num = isinstance(model, CallableNumericalModel)
        jac = model.eval_jacobian(**vals)
        for i, n in enumerate(am.components):
            s = sign if n in am.dep else 1
            ch.close(jac[i], s * ref[n].g, key + ' jacobian', msg + ': Jacobian', component=n,
                     **(dict(rtol=1e-4, atol=1e-3) if num else dict(atol=1e-11)))
    if isinstance(model, Model):
        hess = model.eval_hessian(**vals)
        for i, n in enumerate(am.components):
            s = sign if n in am.dep else 1
            ch.close(hess[i], s * ref[n].h, key + ' hessian', msg + ': Hessian', component=n,
                     atol=1e-11)


def negation(ch):
    cls = ch.pick('class', SYMBOLIC + NUMERIC, dev=False)
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS, allow_odd=False, names=gen.NAMES[:3])
    numeric = None
    if cls in NUMERIC:
        numeric = ch.pick('callables', [am.comps, am.comps[:1], am.comps[-1:]])
        if not any(am.forms[c].syms for c in numeric):
            raise Skip()
    order = ch.pick('definition order', gen.orders(am))
    xs = ch.pick('x', gen.XS[:4])
    pt = ch.pick('point', gen.POINTS[:4])
    before = ch.pick('before', ['nothing', 'evaluated', 'negated'])
    syms = am.symbols()
    model = build(ch, am, syms, cls, numeric, order)
    data, point = gen.at(am, xs[1]), gen.at(am, pt[1])
    vals = dict(data, **point)
    ref = am.ref1(data, point)
    snap = snapshot(model)
    if before == 'evaluated':
        same_values(ch, model, am, vals, ref, 1, 'before', 'model before negation')
    elif before == 'negated':
        -model
    ch.op()
    neg = -model
    ch.expect(type(neg) is type(model), 'class', 'class of the negated model', got=repr(type(neg)))
    s2 = snapshot(neg)
    ch.equal(s2[0], snap[0], 'components', 'components of the negated model')
    ch.equal(s2[2:], snap[2:], 'roles', 'roles in the negated model')
    same_values(ch, neg, am, vals, ref, -1, 'negated', 'negated model')
    same_values(ch, model, am, vals, ref, 1, 'original', 'original after negation')
    ch.equal(snapshot(model), snap, 'original changed', 'the original after negation')
    twice = -neg
    same_values(ch, twice, am, vals, ref, 1, 'twice', 'model negated twice', derivs=THOROUGH)
    if cls in SYMBOLIC:
        ch.expect(twice == model, 'twice equal', 'a model negated twice equals the original')
        zero = all(sympy.expand(e) == 0 for e in model.values())
        ch.expect((neg == model) == zero, 'neg equal', 'a negated model differs')
    ch.obs(cls.__name__, am.components, {k: np.round(r.v, 9) for k, r in ref.items()})


ODES = [
    ("y'=a*x", lambda m, s: {'y': s['a']*s['x']}),
    ("y'=-a*y", lambda m, s: {'y': -s['a']*s['y']}),
    ("y'=z,z'=-a*y", lambda m, s: {'y': s['z'], 'z': -s['a']*s['y']}),
    ("y'=a*y-b*z,z'=b*y", lambda m, s: {'y': s['a']*s['y'] - s['b']*s['z'], 'z': s['b']*s['y']}),
]


def ode_negation(ch):
    label, f = ch.pick('system', ODES, dev=False)
    initial = ch.pick('initial', ['number', 'parameter'], dev=False)
    kwargs = ch.pick('integrator', [{}, {'method': 'RK45', 'rtol': 1e-8, 'atol': 1e-9},
                                    {'atol': 1e-6}, {'max_step': 0.05}], dev=False)
    times = ch.flag('evaluated before', dev=False)
    syms = {n: Variable(n) for n in 'xyz'}
    syms.update({n: gen.param(n) for n in ('a', 'b', 'y0')})
    rhs = f(sympy, syms)
    init = {syms['x']: 0.0}
    for i, n in enumerate(sorted(rhs)):
        init[syms[n]] = syms['y0'] if (initial == 'parameter' and i == 0) else 1.0 + i
    given = dict(init)
    model = ODEModel({D(syms[n], syms['x']): e for n, e in rhs.items()}, init, **kwargs)
    mirror = ODEModel({D(syms[n], syms['x']): -e for n, e in rhs.items()}, dict(init), **kwargs)
    vals = {p.name: v for p, v in zip(model.params, (0.7, -0.4, 1.2))}
    vals['x'] = np.array([0.0, 0.4, 1.1])
    ref = [np.array(o) for o in ODEModel({D(syms[n], syms['x']): e for n, e in rhs.items()},
                                         dict(init), **kwargs)(**vals)]
    if times:
        model(**vals)
    ch.op()
    neg = -model
    ch.expect(type(neg) is ODEModel, 'class', 'class of the negated model')
    out, exp = neg(**vals), mirror(**vals)
    for i in range(len(exp)):
        ch.close(out[i], exp[i], 'ode value', 'solution of the negated system', rtol=1e-10, atol=1e-12)
    for n, e in rhs.items():
        ch.expect(sympy.expand(neg[syms[n]] + e) == 0, 'ode expression', 'expression after negation')
        ch.expect(sympy.expand(model[syms[n]] - e) == 0, 'ode original', 'expression of the original')
    out = model(**vals)
    for i in range(len(ref)):
        ch.close(out[i], ref[i], 'ode original value', 'solution of the original', rtol=1e-10, atol=1e-12)
    ch.equal(init, given, 'ode initial', 'initial values of the user')
    ch.equal(dict(neg.initial), given, 'ode neg initial', 'initial values of the negated model')
    ch.equal({k: v for k, v in neg.integrator_kwargs.items()}, dict(model.integrator_kwargs),
             'ode options', 'integrator options of the negated model')
    ch.obs(label, initial, str(kwargs), exp[0])


# -- comparison ---------------------------------------------------------------
# (text, class of equivalence)
EX_Y = [('a*x+b', 0), ('b+x*a', 0), ('a*(x+b/a)', 0), ('a*(x+b)', 1), ('a*x+a*b', 1),
        ('(x+a)**2', 2), ('x**2+2*a*x+a**2', 2), ('(x-a)**2', 3), ('a*x-b', 4), ('a*w+b', 5),
        ('b*x+a', 6), ('a*x', 7), ('(a*x+b)*1', 0), ('-(-a*x-b)', 0), ('2*a*x+2*b', 8)]
EX_Z = [(None, None), ('c*x', 0), ('x*c', 0), ('c*y', 1), ('c*(y+1)', 2), ('c*y+c', 2), ('-c*x', 3)]


def expr(text, syms):
    return eval(text, {}, syms)


def comparison(ch):
    syms = {n: Variable(n) for n in 'xwyzq'}
    syms.update({n: gen.param(n) for n in 'abc'})
    sides = []
    for i in range(2):
        y = ch.pick('first {}'.format(i), EX_Y, dev=False)
        z = ch.pick('second {}'.format(i), EX_Z, dev=False)
        # a component without further use by another name: only as deviation
        rename = ch.pick('names {}'.format(i), ['y', 'q'])
        reverse = ch.flag('reversed {}'.format(i))
        cls = ch.pick('class {}'.format(i), SYMBOLIC)
        items = [(rename, y)]
        if z[0]:
            items.append(('z', z))
        if reverse:
            items = items[::-1]
        d = OrderedDict((syms[n], expr(e[0], syms)) for n, e in items)
        m = cls(d)
        if ch.flag('used {}'.format(i)):
            m.params, m.dependent_vars, str(m)
            if isinstance(m, GradientModel):
                m.jacobian
        sides.append((m, {n: e[1] for n, e in items}))
    (m1, k1), (m2, k2) = sides
    exp = k1 == k2
    ch.op(4)
    ch.expect((m1 == m2) is exp, 'equal', 'comparison of two models', expected=exp,
              first=str(m1), second=str(m2))
    ch.expect((m2 == m1) is exp, 'symmetric', 'comparison the other way around', expected=exp,
              first=str(m2), second=str(m1))
    ch.expect((m1 != m2) is (not exp), 'unequal', '!= of two models', expected=not exp)
    ch.expect(m1 == m1, 'reflexive', 'a model equals itself')
    ch.obs(str(k1), str(k2), exp)


def sizes(ch):
    """Many components."""
    n = ch.pick('components', [1, 2, 3, 10, 11, 12, 100, 256, 257, 258, 300]
                if THOROUGH else [1, 2, 11, 257, 258], dev=False)
    how = ch.pick('difference', ['none', 'reversed', 'rotated', 'one more', 'one less',
                                 'one component', 'one name', 'two swapped'], dev=False)
    cls = ch.pick('class', SYMBOLIC if THOROUGH else [Model, CallableModel], dev=False)
    x = Variable('x')
    ps = [gen.param('p%d' % i) for i in range(3)]
    vs = [Variable('v%d' % i) for i in range(n + 1)]
    e = [ps[i % 3]*x + i for i in range(n + 1)]
    items = [(vs[i], e[i]) for i in range(n)]
    first = cls(OrderedDict(items))
    other, exp = list(items), True
    if how == 'reversed':
        other = other[::-1]
    elif how == 'rotated':
        other = other[1:] + other[:1]
    elif how == 'one more':
        other, exp = items + [(vs[n], e[n])], False
    elif how == 'one less':
        if n < 2:
            raise Skip()
        other, exp = items[:-1], False
    elif how == 'one component':
        other, exp = items[:-1] + [(vs[n - 1], e[n - 1] + 1)], False
    elif how == 'one name':
        other, exp = items[:-1] + [(vs[n], e[n - 1])], False
    elif how == 'two swapped':
        if n < 2:
            raise Skip()
        other = [(vs[0], e[1]), (vs[1], e[0])] + items[2:]
        exp = False
    second = cls(OrderedDict(other))
    ch.op(2)
    ch.expect((first == second) is exp, 'equal', 'comparison of two large models', expected=exp,
              components=n, how=how)
    ch.expect((second == first) is exp, 'symmetric', 'comparison the other way around',
              expected=exp, components=n, how=how)
    ch.obs(n, how, exp)


def fa(x, a, b):
    return a*x + b


def fb(x, a, b):
    return a*x - b


def numerical_comparison(ch):
    """Numerical models: the same callables, expressions and dependencies."""
    syms = {n: Variable(n) for n in 'xwyzq'}
    syms.update({n: gen.param(n) for n in 'abc'})
    s = syms
    table = {
        'fa': lambda: ({s['y']: fa}, {s['y']: {s['x'], s['a'], s['b']}}),
        'fb': lambda: ({s['y']: fb}, {s['y']: {s['x'], s['a'], s['b']}}),
        'fa, other dependencies': lambda: ({s['y']: fa}, {s['y']: {s['x'], s['a'], s['c']}}),
        'q is fa': lambda: ({s['q']: fa}, {s['q']: {s['x'], s['a'], s['b']}}),
        'fa and c*x': lambda: ({s['y']: fa, s['z']: s['c']*s['x']},
                               {s['y']: {s['x'], s['a'], s['b']}}),
        'fa and c*x, reversed': lambda: (OrderedDict([(s['z'], s['c']*s['x']), (s['y'], fa)]),
                                         {s['y']: {s['x'], s['a'], s['b']}}),
        'fa and 2*c*x': lambda: ({s['y']: fa, s['z']: 2*s['c']*s['x']},
                                 {s['y']: {s['x'], s['a'], s['b']}}),
        'fa and c*y': lambda: ({s['y']: fa, s['z']: s['c']*s['y']},
                               {s['y']: {s['x'], s['a'], s['b']}}),
        'fa and fb': lambda: ({s['y']: fa, s['z']: fb},
                              {s['y']: {s['x'], s['a'], s['b']}, s['z']: {s['x'], s['a'], s['b']}}),
        'symbolic a*x+b': lambda: s['a']*s['x'] + s['b'],
    }
    same = {'fa and c*x, reversed': 'fa and c*x'}
    k1 = ch.pick('first', list(table), dev=False)
    k2 = ch.pick('second', list(table), dev=False)
    c1 = ch.pick('class', NUMERIC, dev=False)
    made = []
    for k in (k1, k2):
        t = table[k]()
        made.append(c1(t[0], connectivity_mapping=t[1]) if isinstance(t, tuple)
                    else Model({s['y']: t}))
    exp = same.get(k1, k1) == same.get(k2, k2)
    ch.op(2)
    ch.expect(bool(made[0] == made[1]) is exp, 'numerical equal', 'comparison of numerical models',
              first=k1, second=k2, expected=exp)
    ch.expect(bool(made[0] != made[1]) is (not exp), 'numerical unequal',
              '!= of numerical models', first=k1, second=k2)
    ch.obs(k1, k2, exp)


def others(ch):
    """Comparison with what is not a symbolic model."""
    syms = {n: Variable(n) for n in 'xy'}
    syms.update({n: gen.param(n) for n in 'ab'})
    cls = ch.pick('class', SYMBOLIC + NUMERIC + [ODEModel], dev=False)
    other = ch.pick('other', [None, 3, 'y', 1.5, (), np.float64(2)], dev=False)
    s = syms
    if cls is ODEModel:
        m = ODEModel({D(s['y'], s['x']): s['a']*s['x'] + s['b']}, {s['x']: 0, s['y']: 1})
    elif cls in SYMBOLIC:
        m = cls({s['y']: s['a']*s['x'] + s['b']})
    else:
        m = cls({s['y']: fa}, connectivity_mapping={s['y']: {s['x'], s['a'], s['b']}})
    ch.op(4)
    ch.expect(not (m == other) and not (other == m), 'equal to something else',
              'comparison with what is not a model', other=repr(other))
    ch.expect((m != other) and (other != m), 'unequal to something else',
              '!= with what is not a model', other=repr(other))
    ch.obs(cls.__name__, repr(other))


# -- composition --------------------------------------------------------------
BASE = [
    [F('y=a*x+b', 'a x b', lambda m, a, x, b: a*x + b)],
    [F('y=a*x', 'a x', lambda m, a, x: a*x), F('z=b*w', 'b w', lambda m, b, w: b*w)],
    [F('y=a*x', 'a x', lambda m, a, x: a*x), F('z=c*y+x', 'c y x', lambda m, c, y, x: c*y + x)],
    [F('y=a*x', 'a x', lambda m, a, x: a*x), F('z=c*x', 'c x', lambda m, c, x: c*x),
     F('u=y*z', 'y z', lambda m, y, z: y*z)],
    [F('y=a*x', 'a x', lambda m, a, x: a*x), F('z=y+d*w', 'y d w', lambda m, y, d, w: y + d*w),
     F('u=sin(z)+b', 'z b', lambda m, z, b: m.sin(z) + b)],
    [F('y=a*x', 'a x', lambda m, a, x: a*x), F('z=d*w', 'd w', lambda m, d, w: d*w),
     F('u=z**2*b', 'z b', lambda m, z, b: z**2*b)],
    [F('y=a+b', 'a b', lambda m, a, b: a + b), F('z=y*c', 'y c', lambda m, y, c: y*c),
     F('u=x*d', 'x d', lambda m, x, d: x*d)],
]
ON_TOP = [
    [F('v=y**2', 'y', lambda m, y: y**2)],
    [F('v=y**2+a', 'y a', lambda m, y, a: y**2 + a)],
    [F('v=z*x', 'z x', lambda m, z, x: z*x)],
    [F('v=u-d', 'u d', lambda m, u, d: u - d)],
    [F('v=y*z+c', 'y z c', lambda m, y, z, c: y*z + c)],
    [F('v=u+y+w', 'u y w', lambda m, u, y, w: u + y + w)],
    [F('v=a*x', 'a x', lambda m, a, x: a*x)],
    [F('v=y+1', 'y', lambda m, y: y + 1), F('s=z*y', 'z y', lambda m, z, y: z*y)],
    [F('v=y+1', 'y', lambda m, y: y + 1), F('s=v*u', 'v u', lambda m, v, u: v*u)],
]
LETTERS = [('plain', {}), ('reversed', dict(y='z9', z='y8', u='u', v='a_v', a='d', b='c', c='b',
                                            d='a', s='b_s')),
           ('before', dict(y='y', z='z', u='u', v='A', s='B')),
           ('lines', dict(y='k3', z='k1', u='k2', v='k0', s='k4'))]


def closure(base, top):
    """Forms needed: those on top and what they use, from the base."""
    b = {f.name.split('=')[0]: f for f in base}
    t = {f.name.split('=')[0]: f for f in top}
    need, todo = set(), [s for f in top for s in f.syms if s not in t]
    while todo:
        q = todo.pop()
        if q in b and q not in need:
            need.add(q)
            todo.extend(b[q].syms)
    return [f for f in base if f.name.split('=')[0] in need] + list(top)


class AM2(gen.AM):
    """Component names beyond the letters gen knows."""

    def __init__(self, forms, names):
        super(AM2, self).__init__(forms, names)
        syms = set(s for f in self.forms.values() for s in f.syms)
        self.valid = not [s for s in syms if s in 'yzuvs' and s not in self.forms]


def composition(ch):
    base = ch.pick('base', BASE, dev=False)
    top = ch.pick('composed', ON_TOP, dev=False)
    bases = {f.name.split('=')[0] for f in base}
    tops = {f.name.split('=')[0] for f in top}
    if any(s in 'yzu' and s not in bases for f in top for s in f.syms):
        raise Skip()
    names = ch.pick('names', LETTERS)[1]
    dep_cls = ch.pick('class of the dependency', SYMBOLIC + NUMERIC)
    cls = ch.pick('class', SYMBOLIC + NUMERIC)
    if dep_cls in NUMERIC and cls in SYMBOLIC:
        raise Skip()
    am = AM2(closure(base, top), names)
    if am.odd:
        raise Skip()
    bm = AM2(base, names)
    order = ch.pick('order of the base', gen.orders(bm))
    how = ch.pick('given as', ['mapping', 'list', 'expression'])
    before = ch.flag('dependency used before')
    full = AM2(list(base) + list(top), names)
    syms = full.symbols()
    dep = build(ch, bm, syms, dep_cls, None, order)
    xs, pt = gen.XS[0][1], gen.POINTS[0][1]
    if before:
        dep(**dict(gen.at(bm, xs), **gen.at(bm, pt)))
        if isinstance(dep, GradientModel):
            dep.jacobian
    snap = snapshot(dep)
    given_dict = OrderedDict((syms[full.nm(f.name.split('=')[0])],
                              f.f(sympy, *[syms[full.nm(s)] for s in f.syms])) for f in top)
    kw, con = {}, None
    if cls in NUMERIC:
        if how != 'mapping':
            raise Skip()
        con = {syms[full.nm(c)]: {syms[full.nm(s)] for s in f.syms}
               for c, f in ((f.name.split('=')[0], f) for f in top)}
        d = {syms[full.nm(f.name.split('=')[0])]:
             gen.make_callable(f, [full.nm(s) for s in f.syms]) for f in top}
        given = d
        kw['connectivity_mapping'] = con
        con_before = {k: set(v) for k, v in con.items()}
    else:
        given = given_dict
        if how != 'mapping':
            if len(top) > 1 and (how == 'expression' or any(s in tops for f in top for s in f.syms)):
                raise Skip()
            given = list(given_dict.values())
            if how == 'expression':
                given = given[0]
    copy = dict(given) if how == 'mapping' else None
    ch.op()
    model = cls.with_dependencies(given, dep, **kw)
    ch.expect(type(model) is cls, 'class', 'class of the composed model')
    if how == 'mapping':
        ch.equal(dict(given), copy, 'mapping changed', 'the mapping of the user')
        ch.equal([v.name for v in model], am.components, 'composed components',
                 'components of the composed model: those on top and what they need')
    else:
        ch.equal(len(model), len(am.components), 'composed components',
                 'number of components of the composed model')
    if con is not None:
        ch.equal(con, con_before, 'connectivity changed', 'the connectivity mapping of the user')
    ch.equal([p.name for p in model.params], am.params, 'composed params', 'parameters')
    ch.equal([v.name for v in model.independent_vars], am.indep, 'composed independent',
             'independent variables')
    if how == 'mapping':
        ch.equal([v.name for v in model.dependent_vars], am.dep, 'composed dependent',
                 'dependent variables')
    data, point = gen.at(am, xs), gen.at(am, pt)
    out = model(**dict(data, **point))
    ref = am.ref1(data, point)
    for i, v in enumerate(model):
        n = v.name
        if n in ref:
            ch.close(out[i], ref[n].v, 'composed value', 'value of a composed model', component=n,
                     atol=1e-12)
        else:
            exprs = list(given) if isinstance(given, list) else [given]
            fs = [f for f, e in zip(top, exprs) if e == model[v]]
            ch.expect(fs, 'composed expression', 'component without a name', got=str(model[v]))
            if fs:
                ch.close(out[i], ref[full.nm(fs[0].name.split('=')[0])].v, 'composed value',
                         'value of a composed model', atol=1e-12)
    if isinstance(model, GradientModel) and how == 'mapping':
        jac = model.eval_jacobian(**dict(data, **point))
        for i, v in enumerate(model):
            ch.close(jac[i], ref[v.name].g, 'composed jacobian', 'Jacobian of a composed model',
                     component=v.name, atol=1e-11)
    ch.equal(snapshot(dep), snap, 'dependency changed', 'the dependency model')
    out = dep(**dict(gen.at(bm, xs), **gen.at(bm, pt)))
    bref = bm.ref1(gen.at(bm, xs), gen.at(bm, pt))
    for n in bm.components:
        ch.close(getattr(out, n), bref[n].v, 'dependency value', 'the dependency model afterwards',
                 atol=1e-12)
    ch.obs(am.components, am.params, {n: np.round(r.v, 8) for n, r in ref.items()}, how)


# -- constraint models --------------------------------------------------------
RELS = [
    F('a,b', 'a b', lambda m, a, b: (a, b)),
    F('a*b,1', 'a b', lambda m, a, b: (a*b, 1)),
    F('b,a**2', 'a b', lambda m, a, b: (b, a**2)),
    F('y,x', 'y x', lambda m, y, x: (y, x)),
    F('y*a,z', 'y a z', lambda m, y, a, z: (y*a, z)),
    F('z,2', 'z', lambda m, z: (z, 2)),
    F('u,z+a', 'u z a', lambda m, u, z, a: (u, z + a)),
    F('u,0', 'u', lambda m, u: (u, 0)),
    F('d,c', 'd c', lambda m, d, c: (d, c)),
    F('x*a,b*w', 'x a b w', lambda m, x, a, b, w: (x*a, b*w)),
]


def constraint(ch):
    base = ch.pick('base', BASE, dev=False)
    rel = ch.pick('relation', RELS, dev=False)
    op = ch.pick('operator', [Eq, Ge, Le], dev=False)
    names = ch.pick('names', LETTERS[:3])[1]
    bm = AM2(base, names)
    known = set(bm.comps) | set(bm.abs_params)
    if any(s in 'abcdyzu' and s not in known for s in rel.syms):
        raise Skip()
    dep_cls = ch.pick('class of the model', SYMBOLIC)
    cls = ch.pick('class', SYMBOLIC)
    how = ch.pick('given as', ['relation', 'expression', 'mapping', 'list'])
    syms = bm.symbols()
    for s in rel.syms:
        if bm.nm(s) not in syms:
            syms[bm.nm(s)] = Variable(bm.nm(s))
    dep = build(ch, bm, syms, dep_cls)
    snap = snapshot(dep)
    l, r = rel.f(sympy, *[syms[bm.nm(s)] for s in rel.syms])
    ch.op()
    if how == 'relation':
        rl = op(l, r)
        if not isinstance(rl, sympy.core.relational.Relational):
            raise Skip()
        con = cls.as_constraint(rl, dep)
    elif how == 'expression':
        con = cls.as_constraint(l - r, dep, constraint_type=op)
    elif how == 'list':
        con = cls.as_constraint([l - r], dep, constraint_type=op)
    else:
        con = cls.as_constraint({Variable('con'): l - r}, dep, constraint_type=op)
    ch.expect(isinstance(con, cls), 'class', 'class of the constraint')
    ch.equal([p.name for p in con.params], bm.params, 'constraint params',
             'parameters of the constraint model')
    exp_type = Eq if op is Eq else Ge
    ch.expect(con.constraint_type is exp_type, 'constraint type', 'type of the constraint',
              got=repr(con.constraint_type))
    ch.equal(len(con.dependent_vars), 1, 'constraint dependent', 'one dependent variable')
    nm = con.dependent_vars[0]
    # what it needs
    top = F('v=rel', ' '.join(rel.syms), lambda m, *v: (lambda t: t[0] - t[1])(rel.f(m, *v)))
    am = AM2(closure(base, [top]), dict(names, v=nm.name))
    ch.equal([v.name for v in con.independent_vars], am.indep, 'constraint independent',
             'independent variables of the constraint')
    for pt in gen.POINTS[:3]:
        data, point = gen.at(am, gen.XS[0][1]), gen.at(bm, pt[1])
        ref = am.ref1(data, gen.at(am, pt[1]))[nm.name]
        out = con(**dict(data, **point))
        sign = -1 if op is Le else 1
        ch.close(getattr(out, nm.name), sign * ref.v, 'constraint value', 'value of the constraint',
                 atol=1e-12)
        if isinstance(con, GradientModel):
            jac = con.eval_jacobian(**dict(data, **point))
            got = np.asarray(jac[list(con).index(nm)], float)
            full = np.zeros((len(bm.params),) + ref.v.shape)
            for i, p in enumerate(am.params):
                full[bm.params.index(p)] = sign * ref.g[i]
            ch.close(got, full, 'constraint jacobian', 'Jacobian of the constraint', atol=1e-11)
    ch.equal(snapshot(dep), snap, 'model changed', 'the model of the constraint')
    ch.obs(rel.name, op.__name__, bm.params, how)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'negation': {'body': negation, 'bound': 3 if t else 2},
            'ode negation': {'body': ode_negation, 'bound': 0},
            'comparison': {'body': comparison, 'bound': 2 if t else 0},
            'comparison variants': {'body': comparison_few, 'bound': 4 if t else 2},
            'sizes': {'body': sizes, 'bound': 0},
            'numerical comparison': {'body': numerical_comparison, 'bound': 0},
            'others': {'body': others, 'bound': 0},
            'composition': {'body': composition, 'bound': 4 if t else 2},
            'constraint': {'body': constraint, 'bound': 3 if t else 1},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'every pair of models of the grammar is compared (ground truth: same component '
                'names and same class of equivalent expressions); every model negated and composed '
                'with every expression that depends on it; an outcome is (components, values) or '
                '(pair, verdict)',
        'assumptions': ['equivalence of expressions means equal after expansion'],
    }


def comparison_few(ch):
    """As `comparison`, with few expressions and all variants of writing."""
    global EX_Y, EX_Z
    old = EX_Y, EX_Z
    EX_Y = [e for e in EX_Y if e[0] in ('a*x+b', 'a*(x+b)', 'a*x+a*b')]
    EX_Z = [e for e in EX_Z if e[0] in (None, 'c*x', 'c*(y+1)', 'c*y+c')]
    try:
        comparison(ch)
    finally:
        EX_Y, EX_Z = old
