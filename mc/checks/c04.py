"""C04: the Jacobian of a model is its exact derivative."""
import numpy as np
import sympy

from ..env import symfit
from .. import gen
from symfit import Model
from symfit.core.models import GradientModel, jacobian_from_model

CLASSES = [Model, GradientModel]


def build(ch, order_dim=True, classes=CLASSES, dev=True, **kw):
    am = gen.pick_model(ch, dev=dev, **kw)
    if not am.params:
        ch.pick('no parameters', [])
    order = ch.pick('definition order', gen.orders(am)) if order_dim else None
    xs = ch.pick('x', gen.XS)
    pt = ch.pick('point', gen.POINTS)
    cls = ch.pick('class', classes)
    data, point = gen.at(am, xs[1]), gen.at(am, pt[1])
    syms = am.symbols()
    return am, syms, cls(am.model_dict(syms, order)), data, point


def evaluate(ch, f, am, data, point, label='call'):
    names = am.indep + am.params
    vals = dict(data, **point)
    style = ch.pick(label, ['keyword', 'positional', 'mixed'])
    ch.op()
    if style == 'positional':
        return f(*[vals[n] for n in names])
    if style == 'mixed':
        return f(*[vals[n] for n in names[:1]], **{n: vals[n] for n in names[1:]})
    return f(**vals)


def compare(ch, out, am, ref, which, kind, atol=1e-9):
    ch.equal([v.name for v in out.variables], am.components, 'components', 'components of the ' + kind)
    for i, n in enumerate(am.components):
        r = getattr(ref[n], which)
        ch.close(out[i], r, kind, kind + ' of a component', rtol=1e-8, atol=atol,
                 component=n)
        ch.close(getattr(out, n), r, kind + ' by name', kind + ' by name', rtol=1e-8, atol=atol)


def jacobian(ch, dev=True, **forms):
    forms = forms or dict(z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS)
    am, syms, model, data, point = build(ch, dev=dev, **forms)
    before = ch.pick('before', ['nothing', 'call', 'jacobian', 'hessian', 'text'])
    vals = dict(data, **point)
    other = {k: v + 0.5 for k, v in vals.items()}
    if before == 'call':
        model(**other)
    elif before == 'jacobian':
        model.eval_jacobian(**other)
    elif before == 'hessian' and hasattr(model, 'eval_hessian'):
        model.eval_hessian(**other)
    elif before == 'text':
        str(model), model.jacobian
    ref = am.ref1(data, point)
    compare(ch, evaluate(ch, model.eval_jacobian, am, data, point), am, ref, 'g', 'Jacobian')
    ch.obs(am.components, {k: np.round(r.g, 7) for k, r in ref.items()})


def chains(ch):
    """All models of up to three components."""
    jacobian(ch, dev=False, names=gen.NAMES[1:2], z=gen.Z_FORMS, u=gen.U_FORMS)


def long_chains(ch):
    """All models of up to four components; the rest within the bound."""
    jacobian(ch, dev=False, z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS)


def functions(ch):
    """Branches, powers with parameters as exponent and other functions."""
    jacobian(ch, y=gen.W_FORMS, z=gen.WZ_FORMS, u=gen.WU_FORMS)


def superset(ch):
    """Models that know more parameters than their expressions contain."""
    am = gen.pick_model(ch, z=gen.Z_FORMS[:6], names=gen.NAMES[:3])
    extra = ch.pick('extra parameters', [(), ('a0',), ('a0', 'q'), ('q', 'zz')], dev=False)
    xs = ch.pick('x', gen.XS[:4])
    pt = ch.pick('point', gen.POINTS[:3])
    which = ch.pick('derivative', ['jacobian', 'hessian'], dev=False)
    syms = am.symbols()
    base = Model(am.model_dict(syms))
    ex = [gen.param(n) for n in extra]
    model = Model(am.model_dict(syms))
    params = sorted(am.params + list(extra))
    if not params:
        ch.pick('no parameters', [])
    # the way constraints get the parameters of the model they belong to
    model.params = sorted(list(base.params) + ex, key=lambda p: p.name)
    data, point = gen.at(am, xs[1]), gen.at(am, pt[1])
    ref = am.ref1(data, point, params)
    ch.op()
    vals = dict(data, **dict(point, **{n: 0.3 for n in extra}))
    if which == 'jacobian':
        out = model.eval_jacobian(**vals)
        compare(ch, out, am, ref, 'g', 'Jacobian')
    else:
        out = model.eval_hessian(**vals)
        compare(ch, out, am, ref, 'h', 'Hessian')
    ch.close(model(**vals)[0], ref[am.components[0]].v, 'value', 'value')
    ch.obs(params, {k: np.round(r.g, 7) for k, r in ref.items()})


def symbolic(ch):
    """The symbolic Jacobian of models without interdependence."""
    f = ch.pick('form', gen.Y_FORMS, dev=False)
    g = ch.pick('second', [None] + [z for z in gen.Z_FORMS[1:] if 'y' not in z.syms], dev=False)
    pt = ch.pick('point', gen.POINTS, dev=False)
    am = gen.AM([f] + ([g] if g else []))
    if not am.params:
        ch.pick('no parameters', [])
    syms = am.symbols()
    model = Model(am.model_dict(syms))
    vals = dict(gen.at(am, gen.XS[1][1]), **gen.at(am, pt[1]))
    subs = {syms[n]: v for n, v in vals.items()}
    ref = am.ref(gen.at(am, gen.XS[1][1]), gen.at(am, pt[1]))
    ch.op()
    for i, n in enumerate(am.components):
        for j, p in enumerate(am.params):
            ch.close(float(sympy.sympify(model.jacobian[i][j]).subs(subs)), ref[n].g[j],
                     'symbolic Jacobian', 'entry of model.jacobian', atol=1e-9)
    ch.obs(f.name, g and g.name, {n: np.round(r.g, 7) for n, r in ref.items()})


def spec(tier):
    t = tier == 'thorough'
    return {
        'bodies': {
            'jacobian': {'body': jacobian, 'bound': 4 if t else 2},
            'chains': {'body': long_chains if t else chains, 'bound': 0},
            'functions': {'body': functions, 'bound': 4 if t else 3},
            'superset': {'body': superset, 'bound': 4 if t else 2},
            'symbolic': {'body': symbolic},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'all models of at most four components from the grammar of '
                'formulas, times renamings, orders, argument shapes, parameter '
                'points (zero and negative included), what was evaluated before '
                'and calling style; an outcome is the tuple of reference Jacobians',
        'assumptions': ['reference derivatives come from second order jets in numpy'],
    }
